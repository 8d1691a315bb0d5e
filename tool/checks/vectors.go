package checks

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/tool/ai"
	"verif/tool/dom"
	"verif/tool/load"
	"verif/tool/schema"
)

// vecRun interprets vector generation on one schema.
type vecRun struct {
	*api
	name    string
	files   []*schema.File
	spec    *schema.Spec
	ast     *types.Package
	fileVs  []ai.Val
	base    *ai.State // state before the call
	outs    []ai.Outcome
	endless int // traces that redraw forever
	set     *setReader
	setup   func(st *ai.State)
	kinds   map[string]bool // node types of the trees
	present map[string]bool // structs with vectors
	vectors int
}

// setReader reads interval sets.
type setReader struct{ loIdx, hiIdx, listIdx int }

func newVecRun(r *Report, p *load.Program, texts []string) *vecRun {
	v := &vecRun{api: newAPI(r, p, "tv"), name: strings.Join(texts, " || ")}
	for _, t := range texts {
		v.files = append(v.files, schema.Read(t))
	}
	v.spec = schema.NewSpec(v.e, v.files...)
	v.ast = p.Pkgs[load.Module+"/ast"].Types
	v.e.DrawCases = func(st *ai.State, n dom.Lin) []dom.Lin {
		x, ok := st.Store.Fixed(n)
		if !ok || x.Cmp(big.NewInt(20)) > 0 {
			return nil
		}
		// the first choices are varied most
		out := []dom.Lin{dom.Const(0)}
		done := drawCount(st)
		if x.Cmp(big.NewInt(1)) > 0 && done < 8 {
			out = append(out, dom.Const(1))
		}
		if x.Cmp(big.NewInt(2)) > 0 && done < 4 {
			out = append(out, dom.ConstBig(new(big.Int).Sub(x, big.NewInt(1))))
		}
		return out
	}
	v.modelSampling()
	return v
}

// modelSampling replaces sampling of interval sets by its contract, an
// arbitrary member of the set, which is decided separately.
func (v *vecRun) modelSampling() {
	q := NewReport("", "", v.p)
	var s *sets
	try(q, "intervals", func() { s = newSets2(q, v.p) })
	if s == nil {
		return // sampling is interpreted as it is
	}
	pk := v.p.Pkgs[load.Module+"/internal/intervals"]
	set, _ := pk.Types.Scope().Lookup("Set").(*types.TypeName)
	for _, t := range []types.Type{set.Type(), types.NewPointer(set.Type())} {
		fn := lookupMethod(v.p.SSA, t, pk.Types, "RandomWithGenerator")
		if fn == nil || fn.Synthetic != "" {
			continue
		}
		v.e.Intr[fn.String()] = func(st *ai.State, c *ai.CallCtx, a []ai.Val) []ai.Res {
			x := a[0]
			if p, ok := x.(ai.Ptr); ok {
				x = st.Load(p)
			}
			sv, ok := x.(*ai.StructV)
			var ivs []iv
			if ok {
				ivs, ok = s.list(st, sv.F[s.listIdx])
			}
			if !ok {
				return []ai.Res{{St: st, Inline: true}}
			}
			st.Emit("draw", c.Pos, a[1:]...)
			if len(ivs) == 0 {
				return []ai.Res{{St: st, Panic: "sampling an empty set"}}
			}
			var out []ai.Res
			for _, i := range ivs {
				m := st.Detached()
				d := v.e.Fresh("member", big.NewInt(0), max64)
				m.Store = m.Store.GE(d.Sub(i.lo))
				if m.Store != nil {
					m.Store = m.Store.GE(i.hi.Sub(d))
				}
				if m.Store != nil {
					out = append(out, ai.Res{St: st.Clone().WithStore(m.Store), V: ai.Int{L: d, K: types.Uint64}})
				}
			}
			return out
		}
	}
}

// start builds the trees and the arguments.
func (v *vecRun) start() (st *ai.State) {
	st = v.e.NewState()
	b := &schema.Builder{St: st, Ast: v.ast, Name: ai.Name, Kinds: v.kinds}
	for _, f := range v.files {
		v.fileVs = append(v.fileVs, b.File(f))
	}
	return st
}

// run interprets GenerateFiles with a random source.
func (v *vecRun) run() {
	st := v.start()
	if v.setup != nil {
		v.setup(st)
	}
	v.newSource(st, func(st *ai.State, src ai.Val) {
		v.do(v.name, st, v.fn("WithRandom"), []ai.Val{src}, func(st *ai.State, ret []ai.Val) {
			st = st.Detached()
			files := st.NewSlice(append([]ai.Val(nil), v.fileVs...))
			opts := st.NewSlice([]ai.Val{ret[0]})
			v.base = st.Clone()
			for _, o := range v.e.Call(st, v.fn("GenerateFiles"), files, opts) {
				if o.Kind == "diverge" && drawCount(o.St) > 0 {
					v.endless++
					continue
				}
				v.outs = append(v.outs, o)
			}
		})
	})
}

func (v *vecRun) pos() (p ssa.Member) { return v.fn("GenerateFiles") }

// structField reads a field of a struct value by name.
func structField(v ai.Val, t types.Type, name string) ai.Val {
	sv, ok := v.(*ai.StructV)
	s, ok2 := t.Underlying().(*types.Struct)
	if !ok || !ok2 {
		panic(giveUp("unexpected representation of " + t.String()))
	}
	i := fieldIndex(s, name)
	if i < 0 {
		panic(giveUp("field " + name + " not found in " + t.String()))
	}
	return sv.F[i]
}

type suite struct {
	typ     ai.Str
	vectors []vector
}

type vector struct {
	data ai.Val
	cons ai.Val
}

// suiteVals reads the vectors of a corpus, by suite.
func (v *vecRun) suiteVals(st *ai.State, corpus ai.Val) (out [][]ai.Val) {
	p, ok := corpus.(ai.Ptr)
	if !ok {
		panic(giveUp("the corpus is not known"))
	}
	for _, s := range v.list(st, structField(st.Load(p), v.typ("Corpus"), "Suites")) {
		out = append(out, v.list(st, structField(s, v.typ("Suite"), "Vectors")))
	}
	return out
}

func (v *vecRun) list(st *ai.State, x ai.Val) []ai.Val {
	if ai.IsNil(x) {
		return nil
	}
	el, ok := st.Elems(x)
	if !ok {
		panic(giveUp("a list of the corpus is not known"))
	}
	return el
}

// suites reads a corpus.
func (v *vecRun) suites(st *ai.State, corpus ai.Val) []suite {
	p, ok := corpus.(ai.Ptr)
	if !ok {
		panic(giveUp("the corpus is not known"))
	}
	var out []suite
	for _, s := range v.list(st, structField(st.Load(p), v.typ("Corpus"), "Suites")) {
		t, ok := structField(s, v.typ("Suite"), "Type").(ai.Str)
		if !ok {
			panic(giveUp("the type of a suite is not known"))
		}
		x := suite{typ: t}
		for _, w := range v.list(st, structField(s, v.typ("Suite"), "Vectors")) {
			x.vectors = append(x.vectors, vector{structField(w, v.typ("Vector"), "Data"), structField(w, v.typ("Vector"), "Constraints")})
		}
		out = append(out, x)
	}
	return out
}

// context reads the values of a vector's constraints.
func (v *vecRun) context(st *ai.State, c ai.Val) map[string]dom.Lin {
	out := map[string]dom.Lin{}
	if ai.IsNil(c) {
		return out
	}
	ks, vs := st.MapEntries(c)
	for i, k := range ks {
		scope, ok := st.Resolve(k.(ai.Str)), true
		n, m := st.MapEntries(vs[i])
		for j := range n {
			var x ai.Int
			if x, ok = m[j].(ai.Int); !ok {
				panic(giveUp("a constraint value is not known"))
			}
			out[scope.String()+"."+st.Resolve(n[j].(ai.Str)).String()] = x.L
		}
	}
	return out
}

// vdec decodes one vector by the reference meaning of the schema.
type vdec struct {
	v     *vecRun
	bytes []dom.Lin
	ctx   map[string]dom.Lin
	fail  func(st *ai.State, why string)
	steps int
}

type vframe struct {
	s     *schema.Struct
	local map[string]dom.Lin
}

func (f vframe) with(name string, l dom.Lin) vframe {
	m := map[string]dom.Lin{name: l}
	for k, x := range f.local {
		if k != name {
			m[k] = x
		}
	}
	return vframe{f.s, m}
}

type vk func(st *ai.State, f vframe, pos int)

func (d *vdec) structure(st *ai.State, s *schema.Struct, pos, end int, k func(st *ai.State, pos int)) {
	d.members(st, s.Members, vframe{s, nil}, pos, end, func(st *ai.State, f vframe, pos int) { k(st, pos) })
}

func (d *vdec) members(st *ai.State, ms []schema.Member, f vframe, pos, end int, k vk) {
	if d.steps++; d.steps > 20000 {
		panic(giveUp("decoding a vector takes too many steps"))
	}
	if len(ms) == 0 {
		k(st, f, pos)
		return
	}
	next := func(st *ai.State, f vframe, pos int) { d.members(st, ms[1:], f, pos, end, k) }
	switch m := ms[0].(type) {
	case *schema.Field:
		d.value(st, m.Type, m.Name, f, pos, end, next)
	case *schema.Union:
		d.union(st, m, f, pos, end, next)
	case schema.EOS:
		if pos != end {
			d.fail(st, "bytes follow where the struct must end")
			return
		}
		next(st, f, pos)
	case schema.Fail:
		d.fail(st, "the tag selects a case that fails")
	case schema.Ignore:
		next(st, f, end)
	}
}

func (d *vdec) ref(f vframe, r *schema.Ref) dom.Lin {
	if r.Scope == "" {
		l, ok := f.local[r.Name]
		if !ok {
			panic(giveUp("reference to " + r.Name))
		}
		return l
	}
	key := ai.Name(r.Scope).String() + "." + ai.Name(r.Name).String()
	if l, ok := d.ctx[key]; ok {
		return l
	}
	return d.v.spec.CtxVal(r.Scope, r.Name) // not given: any value
}

func (d *vdec) in(st *ai.State, x dom.Lin, l []schema.Range, k func(st *ai.State, in bool)) {
	var ivs []iv
	for _, r := range l {
		lo := dom.ConstBig(d.v.spec.Int(r.Lo))
		hi := lo
		if r.Hi != nil {
			hi = dom.ConstBig(d.v.spec.Int(*r.Hi))
		}
		ivs = append(ivs, iv{lo, hi})
	}
	within(st, x, ivs, k)
}

func (d *vdec) union(st *ai.State, u *schema.Union, f vframe, pos, end int, k vk) {
	if u.Len != nil {
		inner := *u
		inner.Len = nil
		region := func(st *ai.State, n int) {
			if pos+n > end {
				d.fail(st, fmt.Sprintf("the length of union %s says %d bytes, %d follow", u.Name, n, end-pos))
				return
			}
			d.union(st, &inner, f, pos, pos+n, func(st *ai.State, f vframe, p int) {
				if p != pos+n {
					d.fail(st, fmt.Sprintf("union %s uses %d of the %d bytes its length says", u.Name, p-pos, n))
					return
				}
				k(st, f, p)
			})
		}
		switch l := u.Len.(type) {
		case *schema.Ref:
			d.count(st, d.ref(f, l), end-pos, "the length of union "+u.Name, region)
		case *schema.Leftover:
			n := d.v.spec.Int(l.Num).Int64()
			region(st, end-pos-int(n))
		}
		return
	}
	tag := d.ref(f, u.Tag)
	var def *schema.Case
	var rec func(st *ai.State, i int)
	rec = func(st *ai.State, i int) {
		if i == len(u.Cases) {
			if def == nil {
				d.fail(st, "the tag of union "+u.Name+" selects no case")
				return
			}
			d.members(st, def.Members, f, pos, end, k)
			return
		}
		c := u.Cases[i]
		if c.Default {
			def = c
			rec(st, i+1)
			return
		}
		d.in(st, tag, c.List, func(st *ai.State, in bool) {
			if in {
				d.members(st, c.Members, f, pos, end, k)
			} else {
				rec(st, i+1)
			}
		})
	}
	rec(st, 0)
}

// count makes a number concrete.
func (d *vdec) count(st *ai.State, n dom.Lin, max int, what string, k func(st *ai.State, n int)) {
	if x, ok := st.Store.Fixed(n); ok {
		if !x.IsInt64() || x.Int64() < 0 || x.Int64() > 1<<20 {
			d.fail(st, what+" is "+x.String())
			return
		}
		k(st, int(x.Int64()))
		return
	}
	var rec func(st *ai.State, i int)
	rec = func(st *ai.State, i int) {
		if i > max {
			d.fail(st, fmt.Sprintf("%s can exceed the %d bytes that follow", what, max))
			return
		}
		split(st, &ai.Cond{Op: "eq", L: n.AddC(int64(-i))}, func(st *ai.State, eq bool) {
			if eq {
				k(st, i)
			} else {
				rec(st, i+1)
			}
		})
	}
	rec(st, 0)
}

func (d *vdec) value(st *ai.State, t schema.Type, name string, f vframe, pos, end int, k vk) {
	switch t := t.(type) {
	case *schema.Int, schema.Char:
		n := 1
		var list []schema.Range
		if it, ok := t.(*schema.Int); ok {
			n, list = int(it.Size/8), it.In
		}
		if pos+n > end {
			d.fail(st, fmt.Sprintf("%d bytes remain for the %d of %s", end-pos, n, name))
			return
		}
		x := dom.Const(0)
		for _, b := range d.bytes[pos : pos+n] {
			x = x.Mul(big.NewInt(256)).Add(b)
		}
		done := func(st *ai.State) { k(st, f.with(name, x), pos+n) }
		if list == nil {
			done(st)
			return
		}
		d.in(st, x, list, func(st *ai.State, in bool) {
			if in {
				done(st)
			} else {
				d.fail(st, "the value of "+name+" violates its constraint")
			}
		})
	case schema.NulTerm:
		var rec func(st *ai.State, i int)
		rec = func(st *ai.State, i int) {
			if i == end {
				d.fail(st, "string "+name+" is not terminated")
				return
			}
			if v, ok := st.Store.Fixed(d.bytes[i]); ok && v.Sign() == 0 {
				k(st, f, i+1)
				return
			}
			split(st, &ai.Cond{Op: "eq", L: d.bytes[i]}, func(st *ai.State, zero bool) {
				if zero {
					k(st, f, i+1)
				} else {
					rec(st, i+1)
				}
			})
		}
		rec(st, pos)
	case schema.Ptr:
		k(st, f, pos)
	case *schema.StructRef:
		s := d.v.spec.Structs[t.Name]
		if s == nil || s.Extern {
			panic(giveUp("vector of an external struct"))
		}
		d.structure(st, s, pos, end, func(st *ai.State, pos int) { k(st, f, pos) })
	case *schema.Fixed:
		d.repeat(st, t.Base, name, f, pos, end, int(d.v.spec.Int(t.Size).Int64()), k)
	case *schema.Var:
		switch l := t.Len.(type) {
		case nil:
			d.open(st, t.Base, name, f, pos, end, k)
		case *schema.Ref:
			d.count(st, d.ref(f, l), end-pos, "the length of "+name, func(st *ai.State, n int) { d.repeat(st, t.Base, name, f, pos, end, n, k) })
		case *schema.Leftover:
			stop := end - int(d.v.spec.Int(l.Num).Int64())
			if stop < pos {
				d.fail(st, "too short for the leftover of "+name)
				return
			}
			d.open(st, t.Base, name, f, pos, stop, k)
		}
	}
}

func (d *vdec) repeat(st *ai.State, base schema.Type, name string, f vframe, pos, end, n int, k vk) {
	if n == 0 {
		k(st, f, pos)
		return
	}
	d.value(st, base, name, f, pos, end, func(st *ai.State, _ vframe, pos int) { d.repeat(st, base, name, f, pos, end, n-1, k) })
}

func (d *vdec) open(st *ai.State, base schema.Type, name string, f vframe, pos, end int, k vk) {
	if pos == end {
		k(st, f, pos)
		return
	}
	d.value(st, base, name, f, pos, end, func(st *ai.State, _ vframe, p int) {
		if p == pos {
			d.fail(st, "elements of "+name+" use no bytes")
			return
		}
		d.open(st, base, name, f, p, end, k)
	})
}

// bytesOf reads the bytes of a vector.
func (v *vecRun) bytesOf(st *ai.State, data ai.Val) []dom.Lin {
	if ai.IsNil(data) {
		return nil
	}
	el, ok := st.Elems(data)
	if !ok {
		panic(giveUp("the bytes of a vector are not known"))
	}
	var out []dom.Lin
	for _, x := range el {
		n, ok := x.(ai.Int)
		if !ok {
			panic(giveUp("the bytes of a vector are not known"))
		}
		out = append(out, n.L)
	}
	return out
}

// judge decodes every vector of an outcome.
func (v *vecRun) judge(o ai.Outcome) {
	pos := v.fn("GenerateFiles").Pos()
	st := o.St
	for _, s := range v.suites(st, o.Ret[0]) {
		var d *schema.Struct
		for n, x := range v.spec.Structs {
			if !x.Extern && st.EqStr(ai.Name(n), s.typ) == true {
				d = x
			}
		}
		if d == nil {
			v.r.Bad("valid", v.name, pos, "vectors are produced for %s, which is no struct of the schema", s.typ.String())
			continue
		}
		if v.present == nil {
			v.present = map[string]bool{}
		}
		v.present[d.Name] = v.present[d.Name] || len(s.vectors) > 0
		for n, w := range s.vectors {
			v.vectors++
			v.r.Ok("valid")
			ctx := v.context(st, w.cons)
			v.widths(st, d, ctx, n)
			dec := &vdec{v: v, bytes: v.bytesOf(st, w.data), ctx: ctx}
			dec.fail = func(at *ai.State, why string) {
				v.r.Bad("valid", v.name, pos, "vector %d of struct %s (%d bytes) is rejected: %s; bytes %s; when %s", n, d.Name, len(dec.bytes), why, v.show(dec.bytes), facts(at))
			}
			dec.structure(st, d, 0, len(dec.bytes), func(at *ai.State, p int) {
				if p != len(dec.bytes) {
					v.r.Bad("valid", v.name, pos, "vector %d of struct %s has %d bytes, the struct uses %d; bytes %s; when %s", n, d.Name, len(dec.bytes), p, v.show(dec.bytes), facts(at))
				}
			})
		}
	}
}

func (v *vecRun) show(bs []dom.Lin) string {
	var p []string
	for _, b := range bs {
		p = append(p, v.e.Tab.Format(b))
	}
	s := strings.Join(p, " ")
	if len(s) > 200 {
		s = s[:200] + "…"
	}
	return "[" + s + "]"
}

// widths checks that context values fit the declared fields.
func (v *vecRun) widths(st *ai.State, d *schema.Struct, ctx map[string]dom.Lin, n int) {
	known := map[string]uint{}
	for _, f := range v.files {
		for _, c := range f.Ctxs {
			for _, m := range c.Fields {
				if it, ok := m.Type.(*schema.Int); ok {
					known[ai.Name(c.Name).String()+"."+ai.Name(m.Name).String()] = it.Size
				}
			}
		}
	}
	for k, x := range ctx {
		v.r.Ok("context")
		w, ok := known[k]
		if !ok {
			v.r.Bad("context", v.name, v.fn("GenerateFiles").Pos(), "vector %d of struct %s carries a value for %s, which is no context field", n, d.Name, k)
			continue
		}
		hi := dom.Const(1).Mul(pow2(w)).AddC(-1)
		if w == 64 {
			continue
		}
		if !st.Store.Entails(x) || !st.Store.Entails(hi.Sub(x)) {
			v.r.Bad("context", v.name, v.fn("GenerateFiles").Pos(), "the value of %s of vector %d of struct %s can exceed its width", k, n, d.Name)
		}
	}
}

// newSets2 recognises the interval representation of another program.
func newSets2(r *Report, p *load.Program) *sets {
	q := *r
	q.P = p
	return newSets(&q)
}
