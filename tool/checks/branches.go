package checks

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"verif/tool/ai"
	"verif/tool/dom"
	"verif/tool/load"
	"verif/tool/schema"
)

func init() {
	All["C18"] = Check{unionBranches, "inspect.NewBranches, Lookup and All are interpreted abstractly on unions whose case bounds are arbitrary (literals and constants, every relative order), for every tag width, local and context tags and default positions, and on up to twenty cases with fixed bounds, and queried with an arbitrary tag value; every class of outcomes is compared with the case the schema selects."}
}

// insp drives the inspect package.
type insp struct {
	*api
	ast      *types.Package
	setT     types.Type
	caseT    types.Type
	setIdx   int
	caseIdx  int
	resolver func(st *ai.State, files []ai.Val, k func(st *ai.State, r ai.Val))
}

func newInsp(r *Report, p *load.Program) *insp {
	i := &insp{api: newAPI(r, p, "inspect"), setIdx: -1, caseIdx: -1}
	i.ast = p.Pkgs[load.Module+"/ast"].Types
	if o := i.ast.Scope().Lookup("UnionCase"); o != nil {
		i.caseT = types.NewPointer(o.Type())
	}
	if o := p.Pkgs[load.Module+"/internal/intervals"].Types.Scope().Lookup("Set"); o != nil {
		i.setT = types.NewPointer(o.Type())
	}
	if i.caseT == nil || i.setT == nil {
		panic(giveUp("ast.UnionCase or intervals.Set not found"))
	}
	return i
}

// builder makes trees with pairwise distinct arbitrary names.
func (i *insp) builder(st *ai.State) *schema.Builder {
	return &schema.Builder{St: st, Ast: i.ast, Name: ai.Name}
}

// nonNeg is an arbitrary value a schema can spell.
func (i *insp) nonNeg(name string) dom.Lin {
	return dom.Var(i.e.Tab.Sym(name, big.NewInt(0), new(big.Int).SetInt64(1<<63-1)))
}

// ok continues with the outcomes of a call that report no error, and reports
// the ones that do.
func (i *insp) ok(where string, st *ai.State, name string, args []ai.Val, k func(st *ai.State, ret ai.Val)) {
	i.do(where, st, i.fn(name), args, func(st *ai.State, ret []ai.Val) {
		if !ai.IsNil(ret[len(ret)-1]) {
			i.r.Bad("accepted", where, i.fn(name).Pos(), "%s reports an error (%s) for a valid schema when %s", name, st.Show(ret[len(ret)-1]), facts(st))
			return
		}
		k(st, ret[0])
	})
}

type unionShape struct {
	name   string
	cases  []string // per case, one letter per range: v literal, c constant, r range, m literal to constant
	dflt   int      // position of the default case, or -1
	width  uint
	ctx    bool // tag in a context
	second bool // constants in a second file
}

func unionShapes(full bool) []unionShape {
	var out []unionShape
	add := func(dflt int, width uint, ctx bool, cases ...string) {
		n := fmt.Sprintf("u%d tag, cases %v", width, cases)
		if dflt >= 0 {
			n += fmt.Sprintf(", default at %d", dflt)
		}
		if ctx {
			n += ", tag in context"
		}
		out = append(out, unionShape{n, cases, dflt, width, ctx, len(out)%2 == 1})
	}
	for _, w := range []uint{8, 16, 32, 64} {
		add(1, w, w == 16, "r")
		add(0, w, w == 32, "c")
		add(2, w, w == 8, "r", "m")
		add(1, w, w == 64, "v", "r")
		add(-1, w, false, "r")
		add(0, w, true)
	}
	add(0, 16, false, "r", "v")
	add(1, 8, false, "rr")
	add(1, 64, false, "rv")
	add(-1, 32, true, "rv", "r")
	add(3, 8, false, "v", "c", "v")
	add(1, 16, true, "v", "v", "v")
	add(-1, 8, false, "v", "c", "v")
	add(2, 32, false, "vv", "r")
	add(2, 8, false, "r", "vv")
	// many cases with fixed bounds
	for n, w := range []uint{8, 16, 32, 64} {
		for _, k := range []int{5, 9, 12 + n} {
			var cs []string
			for c := 0; c < k; c++ {
				cs = append(cs, []string{"1", "2", "3", "12", "4", "2131"}[(c+n)%6])
			}
			add([]int{-1, k, 0, k / 2}[(n+k)%4], w, n%2 == 1, cs...)
		}
	}
	add(1, 8, false, strings.Repeat("1", 30))
	add(20, 8, false, strings.Split(strings.Repeat("1", 20), "")...)
	add(1, 16, false, strings.Repeat("2", 17), "1")
	if full {
		add(3, 8, false, "r", "r", "r")
		add(2, 64, false, "rr", "r")
		add(4, 8, false, "v", "v", "v", "v")
	}
	return out
}

func unionBranches(r *Report) {
	r.Rule("accepted", "a union with disjoint cases has branches", 30)
	r.Rule("lookup", "the branch reported for an arbitrary tag value is the case that lists it, or the default", 200)
	r.Rule("order", "explicit branches follow case order and there is a default branch only if the union has one", 60)
	r.Rule("set", "a branch holds exactly the tag values of its case", 300)
	shapes := unionShapes(r.Tier == "thorough")
	r.Extra["schema_shapes"] = len(shapes)
	rs := make([]*Report, len(shapes))
	parallel(r.P, len(shapes), func(p *load.Program, n int) {
		q := NewReport(r.Prop, r.Tier, p)
		rs[n] = q
		try(q, shapes[n].name, func() {
			i := newInsp(q, p)
			defer func() { q.Absorb(i.e) }()
			i.branches(shapes[n])
		})
	})
	for n, q := range rs {
		r.merge(q)
		r.Sample("%s", shapes[n].name)
	}
}

func (i *insp) branches(sh unionShape) {
	st := i.e.NewState()
	var consts []schema.Const
	integer := func(name string, konst bool, fixed int64) (schema.Integer, dom.Lin) {
		v := i.nonNeg(name)
		if fixed >= 0 {
			v = dom.Const(fixed)
		}
		if konst {
			n := "K" + name
			consts = append(consts, schema.Const{Name: n, Sym: &v})
			return schema.Integer{Const: n}, v
		}
		return schema.Integer{Sym: &v}, v
	}
	u := &schema.Union{Name: "u", Tag: &schema.Ref{Name: "tag"}}
	if sh.ctx {
		u.Tag.Scope = "ctx"
	}
	var all []iv
	var ref [][]iv
	count := 0
	field := func(n string, w uint) *schema.Field { return &schema.Field{Name: n, Type: &schema.Int{Size: w}} }
	dflt := &schema.Case{Default: true, Members: []schema.Member{field("d", 8)}}
	if sh.dflt == 0 {
		u.Cases = append(u.Cases, dflt)
	}
	for c, ranges := range sh.cases {
		cs := &schema.Case{Members: []schema.Member{field(fmt.Sprint("m", c), 8)}}
		var set []iv
		for n, kind := range ranges {
			id := fmt.Sprintf("case%d.%d", c+1, n+1)
			// 1 to 4 are fixed: literal, range, constant, literal to constant
			at, end := int64(-1), int64(-1)
			if kind >= '1' && kind <= '4' {
				at = int64((count*17)%61)*4 + 1 // not in order
				end = at + int64(count%3)
				count++
			}
			lo, lv := integer(id+".lo", kind == 'c' || kind == '3', at)
			r := schema.Range{Lo: lo}
			hv := lv
			if kind == 'r' || kind == 'm' || kind == '2' || kind == '4' {
				var hi schema.Integer
				hi, hv = integer(id+".hi", kind == 'm' || kind == '4', end)
				r.Hi = &hi
				st.Store = st.Store.GE(hv.Sub(lv))
			}
			cs.List = append(cs.List, r)
			set = append(set, iv{lv, hv})
			all = append(all, iv{lv, hv})
		}
		ref = append(ref, set)
		u.Cases = append(u.Cases, cs)
		if sh.dflt == c+1 {
			u.Cases = append(u.Cases, dflt)
		}
	}
	// other fields carry other widths
	other := uint(8)
	if sh.width == 8 {
		other = 32
	}
	s := &schema.Struct{Name: "s", Members: []schema.Member{field("before", other)}}
	cx := &schema.Ctx{Name: "ctx", Fields: []*schema.Field{field("cbefore", other)}}
	if sh.ctx {
		cx.Fields = append(cx.Fields, field("tag", sh.width))
		s.Ctx = []string{"ctx"}
		s.Members = append(s.Members, field("tag", other))
	} else {
		cx.Fields = append(cx.Fields, field("tag", other))
		s.Members = append(s.Members, field("tag", sh.width))
	}
	s.Members = append(s.Members, u, field("after", other))
	fs := []*schema.File{{Ctxs: []*schema.Ctx{cx}, Structs: []*schema.Struct{s}}}
	if sh.second {
		fs = append(fs, &schema.File{Consts: consts})
	} else {
		fs[0].Consts = consts
	}
	b := i.builder(st)
	var fv []ai.Val
	for _, f := range fs {
		fv = append(fv, b.File(f))
	}
	// find the struct and the union again in the built tree
	sp, up, cps := i.locate(st, fv[0])
	files := st.NewSlice(fv)
	shareValue(st, all, func(st *ai.State, shared bool) {
		if shared {
			return
		}
		i.ok(sh.name, st, "NewResolverFiles", []ai.Val{files}, func(st *ai.State, rv ai.Val) {
			i.ok(sh.name, st, "NewBranches", []ai.Val{rv, sp, up}, func(st *ai.State, bv ai.Val) {
				i.r.Ok("accepted")
				i.judge(sh, st, bv, ref, cps)
			})
		})
	})
}

// field reads a field of a node by name.
func (i *insp) field(st *ai.State, node ai.Val, typ, name string) ai.Val {
	if f, ok := node.(ai.Iface); ok {
		node = f.V
	}
	sv := st.Load(node.(ai.Ptr)).(*ai.StructV)
	s := i.ast.Scope().Lookup(typ).Type().Underlying().(*types.Struct)
	for n := 0; n < s.NumFields(); n++ {
		if s.Field(n).Name() == name {
			return sv.F[n]
		}
	}
	panic(giveUp("ast." + typ + "." + name + " not found"))
}

// locate finds the struct, its union and the union's cases.
func (i *insp) locate(st *ai.State, file ai.Val) (s, u ai.Val, cases []ai.Val) {
	ss, _ := st.Elems(i.field(st, file, "File", "Structs"))
	s = ss[0]
	ms, _ := st.Elems(i.field(st, s, "Struct", "Members"))
	for _, m := range ms {
		f := m.(ai.Iface)
		if types.Identical(f.T, types.NewPointer(i.ast.Scope().Lookup("UnionMember").Type())) {
			u = f.V
		}
	}
	cases, _ = st.Elems(i.field(st, u, "UnionMember", "Cases"))
	return
}

func (i *insp) judge(sh unionShape, st *ai.State, bv ai.Val, ref [][]iv, cps []ai.Val) {
	bt := i.typ("Branch").Underlying().(*types.Struct)
	set, cas := -1, -1
	for n := 0; n < bt.NumFields(); n++ {
		if types.Identical(bt.Field(n).Type(), i.setT) {
			set = n
		}
		if types.Identical(bt.Field(n).Type(), i.caseT) {
			cas = n
		}
	}
	if set < 0 || cas < 0 {
		panic(giveUp("the representation of a branch is not recognised"))
	}
	// cases in reference order: explicit ones, then the default
	var dflt ai.Val
	var expl []ai.Val
	for n, c := range cps {
		if n == sh.dflt {
			dflt = c
		} else {
			expl = append(expl, c)
		}
	}
	same := func(a, b ai.Val) bool { return b != nil && st.EqVal(a, b) == true }
	var alls []iv
	for _, s := range ref {
		alls = append(alls, s...)
	}
	// which continues with the index of the reference case of a tag value:
	// len(ref) for the default, -1 for none
	top := dom.Const(1).Mul(pow2(sh.width)).AddC(-1)
	which := func(st *ai.State, x dom.Lin, k func(st *ai.State, c int)) {
		var rec func(st *ai.State, c int)
		rec = func(st *ai.State, c int) {
			if c < len(ref) {
				within(st, x, ref[c], func(st *ai.State, in bool) {
					if in {
						k(st, c)
					} else {
						rec(st, c+1)
					}
				})
				return
			}
			split(st, geV(top.Sub(x)), func(st *ai.State, in bool) {
				if in && dflt != nil {
					k(st, len(ref))
				} else {
					k(st, -1)
				}
			})
		}
		rec(st, 0)
	}
	// lookup of an arbitrary value, given as a signed number
	x := dom.Var(i.e.Tab.Sym("x", new(big.Int).Neg(pow2(63)), new(big.Int).SetInt64(1<<63-1)))
	split(st, geV(x), func(st *ai.State, pos bool) {
		ux := x
		if !pos {
			ux = x.Add(dom.Const(1).Mul(pow2(64)))
		}
		which(st, ux, func(st *ai.State, c int) {
			i.do(sh.name, st, i.method("Branches", "Lookup"), []ai.Val{bv, ai.Int{L: x, K: types.Int64}}, func(st *ai.State, ret []ai.Val) {
				i.r.Ok("lookup")
				pos := i.method("Branches", "Lookup").Pos()
				if c < 0 {
					if !isBool(st, ret[1], false) {
						i.r.Bad("lookup", sh.name, pos, "a tag value that no case lists has branch %s when %s", st.Show(ret[0]), facts(st))
					}
					return
				}
				want := dflt
				if c < len(ref) {
					want = expl[c]
				}
				if !isBool(st, ret[1], true) {
					i.r.Bad("lookup", sh.name, pos, "no branch is reported for a tag value selecting %s when %s", caseName(c, ref), facts(st))
				} else if !same(ret[0].(*ai.StructV).F[cas], want) {
					i.r.Bad("lookup", sh.name, pos, "another branch is reported for a tag value selecting %s when %s", caseName(c, ref), facts(st))
				}
			})
		})
	})
	i.do(sh.name, st, i.method("Branches", "All"), []ai.Val{bv}, func(st *ai.State, ret []ai.Val) {
		pos := i.method("Branches", "All").Pos()
		var el []ai.Val
		if !ai.IsNil(ret[0]) {
			var ok bool
			if el, ok = st.Elems(ret[0]); !ok {
				i.r.Bad("undecided", sh.name, pos, "the branches are not known")
				return
			}
		}
		i.r.Ok("order")
		next, sawDefault := 0, false
		y := i.u64("y")
		for n, v := range el {
			bs := v.(*ai.StructV)
			c := -1
			switch {
			case next < len(expl) && same(bs.F[cas], expl[next]):
				c = next
				next++
			case same(bs.F[cas], dflt) && !sawDefault:
				c = len(ref)
				sawDefault = true
			default:
				i.r.Bad("order", sh.name, pos, "branch %d is not the next case of the union", n)
				return
			}
			if ai.IsNil(bs.F[set]) {
				i.r.Bad("set", sh.name, pos, "branch %d has no set", n)
				continue
			}
			which(st, y, func(st *ai.State, w int) {
				fn := lookupMethod(i.p.SSA, i.setT, i.pkg.Types, "Contains")
				if fn == nil {
					panic(giveUp("Set.Contains not found"))
				}
				i.do(sh.name, st, fn, []ai.Val{bs.F[set], u64v(y)}, func(st *ai.State, ret []ai.Val) {
					i.r.Ok("set")
					if !isBool(st, ret[0], w == c) {
						i.r.Bad("set", sh.name, pos, "the branch of %s holds%s a tag value that selects %s when %s", caseName(c, ref), not(w == c), caseName(w, ref), facts(st))
					}
				})
			})
		}
		if next < len(expl) {
			i.r.Bad("order", sh.name, pos, "%s has no branch", caseName(next, ref))
		}
		if dflt != nil && !sawDefault {
			which(st, y, func(st *ai.State, w int) {
				if w == len(ref) {
					i.r.Bad("order", sh.name, pos, "the default case has no branch although tag values select it when %s", facts(st))
				}
			})
		}
	})
}

func caseName(c int, ref [][]iv) string {
	switch {
	case c < 0:
		return "no case"
	case c == len(ref):
		return "the default case"
	}
	return fmt.Sprintf("case %d", c+1)
}
