package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/tool/ai"
	"verif/tool/dom"
	"verif/tool/load"
)

func init() {
	All["C19"] = Check{randomDraws, "Sampling is interpreted abstractly with a random source that may return anything in its documented range: on sets of up to three intervals with arbitrary ends the result must be a member; on sets with given ends the range of results of all outcomes must be the whole set, using an analysis of which results of bit operations on draws take all values. Bounded draws of the vector generator (recognised by signature and by drawing from the source) must cover exactly their inclusive bounds."}
}

// newSource makes a random source.
func (a *api) newSource(st *ai.State, k func(st *ai.State, src ai.Val)) {
	pk := a.p.Pkgs["github.com/mmcloughlin/random"]
	if pk == nil {
		panic(giveUp("the random package is not used"))
	}
	a.do("random.New", st, pk.SSA.Func("New"), nil, func(st *ai.State, ret []ai.Val) { k(st, ret[0]) })
}

// fullness decides whether an expression over draws takes every value of
// [0,n): "yes", "no" (it has holes) or "" when the form is not recognised.
func fullness(e *ai.Engine, l dom.Lin) (n *big.Int, verdict string) {
	if l.C.Sign() != 0 || len(l.T) == 0 {
		return nil, ""
	}
	ts := append([]dom.Term(nil), l.T...)
	sort.Slice(ts, func(i, j int) bool { return ts[i].K.Cmp(ts[j].K) < 0 })
	n = big.NewInt(1)
	used := map[string]bool{}
	for _, t := range ts {
		size, src, ok := symbolSize(e, t.S)
		if !ok {
			return nil, ""
		}
		for _, s := range src {
			if used[s] {
				return nil, "" // not independent
			}
			used[s] = true
		}
		switch t.K.Cmp(n) {
		case 0:
			n = new(big.Int).Mul(n, size)
		case 1:
			return n, "no"
		default:
			return nil, ""
		}
	}
	return n, "yes"
}

// symbolSize is the number n such that a symbol takes every value of [0,n),
// with the parts of draws it depends on.
func symbolSize(e *ai.Engine, s dom.Sym) (n *big.Int, src []string, ok bool) {
	p, part := e.Parts[s]
	if !part {
		i := e.Tab.Info(s)
		if !strings.HasPrefix(i.Name, "rnd") || i.Lo == nil || i.Hi == nil || i.Lo.Sign() != 0 {
			return nil, nil, false
		}
		return new(big.Int).Add(i.Hi, big.NewInt(1)), []string{i.Name}, true
	}
	size, v := fullness(e, p.Of)
	if v != "yes" || new(big.Int).Mod(size, p.M).Sign() != 0 {
		return nil, nil, false
	}
	id := fmt.Sprintf("%s/%s", p.Of.Key(), p.M)
	if p.Mod {
		return p.M, []string{id + "%"}, true
	}
	return new(big.Int).Quo(size, p.M), []string{id}, true
}

// span is the range of values of l in st.
func span(st *ai.State, l dom.Lin, lo, hi *big.Int) (min, max *big.Int) {
	one := big.NewInt(1)
	a, b := new(big.Int).Set(lo), new(big.Int).Set(hi)
	for a.Cmp(b) < 0 { // least v with l <= v feasible
		m := new(big.Int).Add(a, b)
		m.Rsh(m, 1)
		if st.Store.Feasible(dom.ConstBig(m).Sub(l)) {
			b.Set(m)
		} else {
			a.Add(m, one)
		}
	}
	min = new(big.Int).Set(a)
	a, b = new(big.Int).Set(lo), new(big.Int).Set(hi)
	for a.Cmp(b) < 0 {
		m := new(big.Int).Add(a, b)
		m.Add(m, one)
		m.Rsh(m, 1)
		if st.Store.Feasible(l.Sub(dom.ConstBig(m))) {
			a.Set(m)
		} else {
			b.Sub(m, one)
		}
	}
	return min, a
}

type bigIv struct{ lo, hi *big.Int }

// covers finds a value of want that no interval of got contains.
func covers(got, want []bigIv) (*big.Int, bool) {
	sort.Slice(got, func(i, j int) bool { return got[i].lo.Cmp(got[j].lo) < 0 })
	for _, w := range want {
		next := new(big.Int).Set(w.lo)
		for _, g := range got {
			if g.lo.Cmp(next) <= 0 && g.hi.Cmp(next) >= 0 {
				next.Add(g.hi, big.NewInt(1))
			}
		}
		if next.Cmp(w.hi) <= 0 {
			return next, false
		}
	}
	return nil, true
}

func randomDraws(r *Report) {
	r.Rule("in-set", "a sampled value is a member of the set, whatever the source returns", 5)
	r.Rule("all-drawn", "every member of the set is the result of some draw", 20)
	r.Rule("source", "the value drawn takes every value below a bound: no bit of it is constant or repeated", 20)
	r.Rule("bounded", "a bounded draw covers exactly its inclusive bounds", 4)
	try(r, "Set.RandomWithGenerator", func() {
		s := newSets(r)
		defer func() { r.Absorb(s.e) }()
		for k := 1; k <= 3; k++ {
			s.timed(fmt.Sprint("sample ", k), func() { s.sample(k) })
		}
		s.timed("given", s.given)
	})
	try(r, "bounded draws", func() { boundedDraws(r) })
}

// mkSet builds a set through the package's constructor.
func (s *sets) mkSet(st *ai.State, vals []ai.Val, k func(st *ai.State, set ai.Val)) {
	args := s.slice(st, vals)
	s.do("NewSet", st, s.fn("NewSet"), []ai.Val{args}, func(st *ai.State, ret []ai.Val) { k(st, ret[0]) })
}

func drawCount(st *ai.State) int {
	n := 0
	for _, ev := range st.EventList() {
		if ev.Kind == "draw" {
			n++
		}
	}
	return n
}

// draw samples a set.
func (s *sets) draw(where string, st *ai.State, set ai.Val, k func(st *ai.State, x dom.Lin)) {
	s.newSource(st, func(st *ai.State, src ai.Val) {
		fn := s.method("Set", "RandomWithGenerator")
		least := -1
		var endless []ai.Outcome
		for _, o := range s.e.Call(st.Detached(), fn, set, src) {
			switch o.Kind {
			case "return":
				x, ok := o.Ret[0].(ai.Int)
				if !ok {
					panic(giveUp("the result of sampling is not known"))
				}
				if n := drawCount(o.St); least < 0 || n < least {
					least = n
				}
				k(o.St, x.L)
			case "diverge":
				endless = append(endless, o)
			default:
				s.r.Bad(o.Kind, where, o.Pos, "sampling a non-empty set: %s %s when %s", o.Kind, o.Msg, facts(o.St))
			}
		}
		for _, o := range endless {
			// drawing again after a rejected draw is fine
			if least < 0 || drawCount(o.St) <= least {
				s.r.Bad("diverge", where, o.Pos, "sampling does not end and does not draw again when %s", facts(o.St))
			}
		}
	})
}

func (s *sets) sample(k int) {
	where := fmt.Sprintf("%d intervals", k)
	s.sorted(s.e.NewState(), "a", k, func(st *ai.State, ivs []iv, vals []ai.Val) {
		s.mkSet(st, vals, func(st *ai.State, set ai.Val) {
			n := 0
			s.draw(where, st, set, func(st *ai.State, x dom.Lin) {
				n++
				within(st, x, ivs, func(st *ai.State, in bool) {
					s.r.Ok("in-set")
					if !in {
						s.fail("in-set", "RandomWithGenerator", st, "sampling %s can return %s, which is not in the set,", where, s.e.Tab.Format(x))
					}
				})
			})
			if n == 0 {
				s.fail("in-set", "RandomWithGenerator", st, "sampling %s never succeeds", where)
			}
		})
	})
}

func (s *sets) given() {
	top := max64
	b := func(n int64) *big.Int { return big.NewInt(n) }
	p := func(n uint, d int64) *big.Int { return new(big.Int).Add(pow2(n), big.NewInt(d)) }
	half := pow2(63)
	cases := [][]bigIv{
		{{b(0), b(0)}}, {{b(5), b(5)}}, {{top, top}},
		{{b(0), b(1)}}, {{b(0), b(9)}}, {{b(7), b(8)}}, {{b(0), b(255)}}, {{b(1), b(256)}}, {{b(3), p(16, 2)}}, {{b(0), p(16, -1)}},
		{{b(0), p(32, -1)}}, {{b(0), p(32, 0)}}, {{b(1), p(33, 5)}},
		{{b(0), p(63, -1)}}, {{b(0), half}}, {{b(1), top}}, {{b(0), p(64, -2)}}, {{b(0), top}}, {{half, top}},
		{{b(1), b(3)}, {b(10), b(20)}}, {{b(0), b(0)}, {top, top}}, {{b(2), b(2)}, {b(4), b(4)}}, {{b(0), p(32, 3)}, {half, top}},
		{{b(0), b(99)}, {b(100), top}}, {{b(0), p(63, -1)}, {half, top}}, {{b(0), b(10)}, {b(12), top}},
		{{b(1), b(1)}, {b(3), b(4)}, {b(6), b(9)}}, {{b(0), b(7)}, {p(32, 0), p(32, 7)}, {p(64, -16), top}},
	}
	for _, k := range []int{5, 8, 17} {
		var many []bigIv
		for i := 0; i < k; i++ {
			many = append(many, bigIv{b(int64(i * 7)), b(int64(i*7 + i%3))})
		}
		cases = append(cases, many)
	}
	pos := s.method("Set", "RandomWithGenerator").Pos()
	for _, c := range cases {
		var names []string
		var vals []ai.Val
		st := s.e.NewState()
		var ref []iv
		for _, i := range c {
			names = append(names, fmt.Sprintf("%v-%v", i.lo, i.hi))
			lo, hi := dom.ConstBig(i.lo), dom.ConstBig(i.hi)
			ref = append(ref, iv{lo, hi})
			s.do("Range", st, s.fn("Range"), []ai.Val{u64v(lo), u64v(hi)}, func(n *ai.State, ret []ai.Val) { st, vals = n, append(vals, ret[0]) })
		}
		where := strings.Join(names, ",")
		s.mkSet(st, vals, func(st *ai.State, set ai.Val) {
			var got []bigIv
			s.draw(where, st, set, func(st *ai.State, x dom.Lin) {
				within(st, x, ref, func(st *ai.State, in bool) {
					s.r.Ok("in-set")
					if !in {
						s.r.Bad("in-set", where, pos, "sampling can return %s, which is not in the set, when %s", s.e.Tab.Format(x), facts(st))
						return
					}
					lo, hi := span(st, x, big.NewInt(0), top)
					got = append(got, bigIv{lo, hi})
					s.r.Ok("source")
					v := x.Sub(dom.ConstBig(x.C))
					if _, verdict := fullness(s.e, v); verdict == "no" {
						s.r.Bad("source", where, pos, "the value %s has bits that no draw sets", s.e.Tab.Format(v))
					} else if verdict == "yes" {
						s.r.Extra["draws_covering_all_values"]++
					}
				})
			})
			s.r.Ok("all-drawn")
			if m, ok := covers(got, c); !ok {
				s.r.Bad("all-drawn", where, pos, "no draw results in %v, a member of the set", m)
			}
		})
	}
	if s.r.Extra["draws_covering_all_values"] == 0 {
		s.r.Assumptions = append(s.r.Assumptions, "values drawn below a bound take every value: the form of the computation is not one the bit analysis recognises")
	}
}

// boundedDraws checks the helpers that draw within two bounds.
func boundedDraws(r *Report) {
	a := newAPI(r, r.P, "tv")
	defer func() { r.Absorb(a.e) }()
	a.e.DrawCases = func(st *ai.State, n dom.Lin) []dom.Lin {
		v, ok := st.Store.Fixed(n)
		if !ok || v.Cmp(big.NewInt(8)) > 0 {
			return nil
		}
		var out []dom.Lin
		for i := int64(0); i < v.Int64(); i++ {
			out = append(out, dom.Const(i))
		}
		return out
	}
	found := 0
	for _, fn := range packageFuncs(r.P, a.pkg) {
		sig := fn.Signature
		if sig.Params().Len() != 2 || sig.Results().Len() != 1 || !isInt(sig.Params().At(0).Type()) || !isInt(sig.Params().At(1).Type()) || !drawsFrom(fn, map[*ssa.Function]bool{}) {
			continue
		}
		res := sig.Results().At(0).Type().Underlying()
		sl, isSlice := res.(*types.Slice)
		switch {
		case isInt(sig.Results().At(0).Type()):
		case isSlice && types.Identical(sl.Elem(), types.Typ[types.Byte]):
		default:
			continue
		}
		for _, c := range [][2]int64{{1, 4}, {2, 5}, {0, 0}, {3, 3}} {
			where := fmt.Sprintf("%s(%d, %d)", fn.Name(), c[0], c[1])
			a.newSource(a.e.NewState(), func(st *ai.State, src ai.Val) {
				var args []ai.Val
				if sig.Recv() != nil {
					args = append(args, a.withSource(st, sig.Recv().Type(), src))
				}
				args = append(args, ai.I(c[0]), ai.I(c[1]))
				var got []bigIv
				terminated := true
				a.do(where, st, fn, args, func(st *ai.State, ret []ai.Val) {
					var l dom.Lin
					if isSlice {
						l = a.e.Len(st, ret[0])
						terminated = terminated && nulTerminated(st, ret[0])
					} else {
						l = ret[0].(ai.Int).L
					}
					lo, hi := span(st, l, big.NewInt(-1000), big.NewInt(1000))
					got = append(got, bigIv{lo, hi})
				})
				found++
				r.Ok("bounded")
				lo, hi := big.NewInt(c[0]), big.NewInt(c[1])
				if isSlice && terminated {
					lo.Add(lo, big.NewInt(1))
					hi.Add(hi, big.NewInt(1))
				}
				for _, g := range got {
					if g.lo.Cmp(lo) < 0 || g.hi.Cmp(hi) > 0 {
						r.Bad("bounded", where, fn.Pos(), "results reach from %v to %v, outside the bounds %v to %v", g.lo, g.hi, lo, hi)
					}
				}
				if m, ok := covers(got, []bigIv{{lo, hi}}); !ok {
					r.Bad("bounded", where, fn.Pos(), "no draw results in %v", m)
				}
			})
		}
	}
	r.Extra["bounded_draws"] = found
}

// nulTerminated reports whether the last byte is zero and no other is.
func nulTerminated(st *ai.State, v ai.Val) bool {
	el, ok := st.Elems(v)
	if !ok || len(el) == 0 {
		return false
	}
	for i, x := range el {
		n, ok := x.(ai.Int)
		if !ok {
			return false
		}
		if i == len(el)-1 {
			return st.Store.EntailsEQ(n.L)
		}
		if st.Store.Feasible(n.L.Neg()) {
			return false
		}
	}
	return true
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}

// packageFuncs lists the functions and methods of a package, by position.
func packageFuncs(p *load.Program, pkg *load.Package) []*ssa.Function {
	var out []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && f.Synthetic == "" && len(f.Blocks) > 0 {
			out = append(out, f)
		}
	}
	for _, m := range pkg.SSA.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			n, ok := m.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < n.NumMethods(); i++ {
				add(p.SSA.FuncValue(n.Method(i)))
			}
		}
	}
	for i := 0; i < len(out); i++ {
		out = append(out, out[i].AnonFuncs...)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

// drawsFrom reports whether a function draws from a random source, directly or
// through functions of its package.
func drawsFrom(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if c.Common().IsInvoke() && isRandom(c.Common().Value.Type()) {
				return true
			}
			if f := c.Common().StaticCallee(); f != nil && f.Pkg == fn.Pkg && drawsFrom(f, seen) {
				return true
			}
		}
	}
	return false
}

func isRandom(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "mmcloughlin/random")
}

// withSource makes a receiver whose random source fields are src.
func (a *api) withSource(st *ai.State, t types.Type, src ai.Val) ai.Val {
	ptr, isPtr := t.Underlying().(*types.Pointer)
	if isPtr {
		t = ptr.Elem()
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(giveUp("receiver of a drawing function is not a struct"))
	}
	p := st.NewTyped(t)
	for i := 0; i < s.NumFields(); i++ {
		if isRandom(s.Field(i).Type()) {
			st.StoreTo(ai.Ptr{Obj: p.Obj, Path: []int{i}}, src)
		}
	}
	if isPtr {
		return p
	}
	return st.Load(p)
}

var _ = token.NoPos
