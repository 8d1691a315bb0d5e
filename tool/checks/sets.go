package checks

import (
	"fmt"
	"go/types"
	"os"
	"time"

	"verif/tool/ai"
	"verif/tool/dom"
)

const setsWhat = "The functions are interpreted abstractly on intervals with arbitrary 64-bit endpoints (every relative order of the endpoints is a class, wrap-around included) and queried with an arbitrary value; every class of outcomes is compared with the mathematical set. "

func init() {
	All["C17"] = Check{setAlgebra, setsWhat + "Decided for up to three intervals in any order (four with -thorough), two against two for subtraction, and chains of thirty-six."}
}

// sets drives the interval package.
type sets struct {
	*api
	loIdx, hiIdx int // fields of an interval
	listIdx      int // field of a set
	full         bool
}

func newSets(r *Report) *sets {
	s := &sets{api: newAPI(r, r.P, "internal/intervals"), full: r.Tier == "thorough"}
	// recognise the representation
	st := s.e.NewState()
	l, h := s.u64("probe.l"), s.u64("probe.h")
	st.Store = st.Store.GE(h.Sub(l))
	s.loIdx, s.hiIdx, s.listIdx = -1, -1, -1
	s.do("Range", st, s.fn("Range"), []ai.Val{u64v(l), u64v(h)}, func(st *ai.State, ret []ai.Val) {
		v, ok := ret[0].(*ai.StructV)
		if !ok {
			return
		}
		for i, f := range v.F {
			if x, ok := f.(ai.Int); ok && x.L.Equal(l) {
				s.loIdx = i
			} else if ok && x.L.Equal(h) {
				s.hiIdx = i
			}
		}
	})
	if t, ok := s.typ("Set").Underlying().(*types.Struct); ok {
		for i := 0; i < t.NumFields(); i++ {
			if sl, ok := t.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), s.typ("Interval")) {
				s.listIdx = i
			}
		}
	}
	if s.loIdx < 0 || s.hiIdx < 0 || s.listIdx < 0 {
		panic(giveUp("the representation of intervals and sets is not recognised"))
	}
	return s
}

// ranges makes k arbitrary intervals and the values representing them.
func (s *sets) ranges(st *ai.State, prefix string, k int, kf func(st *ai.State, ivs []iv, vals []ai.Val)) {
	var rec func(st *ai.State, i int, ivs []iv, vals []ai.Val)
	rec = func(st *ai.State, i int, ivs []iv, vals []ai.Val) {
		if i == k {
			kf(st, ivs, vals)
			return
		}
		l, h := s.u64(fmt.Sprintf("%s%d.lo", prefix, i+1)), s.u64(fmt.Sprintf("%s%d.hi", prefix, i+1))
		st = st.Detached()
		st.Store = st.Store.GE(h.Sub(l))
		s.do("Range", st, s.fn("Range"), []ai.Val{u64v(l), u64v(h)}, func(st *ai.State, ret []ai.Val) {
			rec(st, i+1, append(ivs[:len(ivs):len(ivs)], iv{l, h}), append(vals[:len(vals):len(vals)], ret[0]))
		})
	}
	rec(st, 0, nil, nil)
}

// sorted makes k sorted disjoint intervals.
func (s *sets) sorted(st *ai.State, prefix string, k int, kf func(st *ai.State, ivs []iv, vals []ai.Val)) {
	s.chain(st, prefix, k, false, kf)
}

// chain makes k sorted disjoint intervals; shaped ones are alternately single
// values and longer.
func (s *sets) chain(st *ai.State, prefix string, k int, shaped bool, kf func(st *ai.State, ivs []iv, vals []ai.Val)) {
	st = st.Detached()
	var prev *dom.Lin
	for i := 0; i < k; i++ {
		l, h := s.u64(fmt.Sprintf("%s%d.lo", prefix, i+1)), s.u64(fmt.Sprintf("%s%d.hi", prefix, i+1))
		st.Store = st.Store.GE(h.Sub(l))
		if shaped && i%3 == 0 {
			st.Store = st.Store.GE(l.Sub(h))
		} else if shaped {
			st.Store = st.Store.GE(h.Sub(l).AddC(-1))
		}
		if prev != nil {
			st.Store = st.Store.GE(l.Sub(*prev).AddC(-1))
		}
		prev = &h
	}
	s.ranges(st, prefix, k, kf)
}

func (s *sets) slice(st *ai.State, vals []ai.Val) ai.Val {
	if len(vals) == 0 {
		return ai.NilV{}
	}
	return st.NewSlice(append([]ai.Val(nil), vals...))
}

// list reads the intervals of a list value.
func (s *sets) list(st *ai.State, v ai.Val) ([]iv, bool) {
	if ai.IsNil(v) {
		return nil, true
	}
	el, ok := st.Elems(v)
	if !ok {
		return nil, false
	}
	var out []iv
	for _, x := range el {
		sv, ok := x.(*ai.StructV)
		if !ok {
			return nil, false
		}
		lo, ok1 := sv.F[s.loIdx].(ai.Int)
		hi, ok2 := sv.F[s.hiIdx].(ai.Int)
		if !ok1 || !ok2 {
			return nil, false
		}
		out = append(out, iv{lo.L, hi.L})
	}
	return out, true
}

func (s *sets) setList(st *ai.State, set ai.Val) ([]iv, bool) {
	p, ok := set.(ai.Ptr)
	if !ok {
		return nil, false
	}
	sv, ok := st.Load(p).(*ai.StructV)
	if !ok {
		return nil, false
	}
	return s.list(st, sv.F[s.listIdx])
}

func (s *sets) fail(rule, where string, st *ai.State, f string, a ...any) {
	s.bad++
	msg := fmt.Sprintf(f, a...)
	pos := s.fn("Range").Pos()
	if m := s.pkg.SSA.Func(where); m != nil {
		pos = m.Pos()
	} else {
		for _, t := range []string{"Set", "Interval"} {
			if m := lookupMethod(s.p.SSA, types.NewPointer(s.typ(t)), s.pkg.Types, where); m != nil {
				pos = m.Pos()
			}
		}
	}
	s.r.Bad(rule, where, pos, "%s when %s", msg, facts(st))
}

// canonical checks that a list is sorted and disjoint.
func (s *sets) canonical(where string, st *ai.State, got []iv) {
	for i, g := range got {
		s.r.Ok("sorted")
		if !st.Store.Entails(g.hi.Sub(g.lo)) {
			s.fail("sorted", where, st, "interval %d of the result has its ends exchanged", i)
		}
		if i > 0 && !st.Store.Entails(g.lo.Sub(got[i-1].hi).AddC(-1)) {
			s.fail("sorted", where, st, "intervals %d and %d of the result are not sorted and disjoint", i-1, i)
		}
	}
}

// contains checks membership of an arbitrary value against the reference.
func (s *sets) contains(where string, st *ai.State, set ai.Val, ref func(st *ai.State, x dom.Lin, k func(st *ai.State, in bool))) {
	x := s.u64("x")
	ref(st, x, func(st *ai.State, in bool) {
		s.do(where, st, s.method("Set", "Contains"), []ai.Val{set, u64v(x)}, func(st *ai.State, ret []ai.Val) {
			s.r.Ok("member")
			if !isBool(st, ret[0], in) {
				s.fail("member", where, st, "a value that is%s in the set is reported as%s in it", not(!in), not(in))
			}
		})
	})
}

func not(b bool) string {
	if b {
		return " not"
	}
	return ""
}

func union(ivs []iv) func(*ai.State, dom.Lin, func(*ai.State, bool)) {
	return func(st *ai.State, x dom.Lin, k func(*ai.State, bool)) { within(st, x, ivs, k) }
}

// shareValue splits on whether two of the intervals share a value.
func shareValue(st *ai.State, ivs []iv, k func(st *ai.State, b bool)) {
	type pair struct{ a, b iv }
	var ps []pair
	for i := range ivs {
		for j := range ivs[:i] {
			ps = append(ps, pair{ivs[j], ivs[i]})
		}
	}
	var rec func(st *ai.State, i int)
	rec = func(st *ai.State, i int) {
		if i == len(ps) {
			k(st, false)
			return
		}
		p := ps[i]
		split(st, geV(p.b.hi.Sub(p.a.lo)), func(st *ai.State, b bool) {
			if !b {
				rec(st, i+1)
				return
			}
			split(st, geV(p.a.hi.Sub(p.b.lo)), func(st *ai.State, b bool) {
				if b {
					k(st, true)
					return
				}
				rec(st, i+1)
			})
		})
	}
	rec(st, 0)
}

func setAlgebra(r *Report) {
	r.Rule("member", "membership of an arbitrary value equals that of the mathematical set", 1000)
	r.Rule("sorted", "the intervals of a result are sorted and disjoint", 300)
	r.Rule("overlap", "overlap is reported exactly when two intervals share a value", 60)
	r.Rule("build", "an interval is built with exactly the given ends", 100)
	try(r, "intervals", func() {
		s := newSets(r)
		defer func() { r.Absorb(s.e) }()
		s.timed("single", s.single)
		most := 3
		if s.full {
			most = 4
		}
		for k := 0; k <= most; k++ {
			s.timed(fmt.Sprint("build ", k), func() { s.ranges(s.e.NewState(), "a", k, s.build) })
			s.timed(fmt.Sprint("overlap ", k), func() { s.ranges(s.e.NewState(), "a", k, s.overlap) })
		}
		// chains of many intervals, given in several orders
		for _, rot := range []int{0, 1, 5, -1} {
			s.timed("chain", func() {
				s.chain(s.e.NewState(), "c", 36, true, func(st *ai.State, ivs []iv, vals []ai.Val) {
					vs := make([]ai.Val, len(vals))
					is := make([]iv, len(vals))
					for i := range vals {
						j := (i + rot + len(vals)) % len(vals)
						if rot < 0 {
							j = len(vals) - 1 - i
						}
						vs[i], is[i] = vals[j], ivs[j]
					}
					s.build(st, is, vs)
					s.overlap(st, is, vs)
				})
			})
		}
		for i := 0; i <= 2; i++ {
			for j := 0; j <= 2; j++ {
				s.timed(fmt.Sprint("subtract ", i, j), func() { s.subtract(i, j) })
			}
		}
		s.timed("twice", s.subtractTwice)
		s.timed("subtract chain", s.subtractChain)
	})
}

// single checks what concerns one interval.
func (s *sets) single() {
	x := s.u64("x")
	one := func(where string, st *ai.State, v ai.Val, ref iv) {
		p := st.New(v)
		within(st, x, []iv{ref}, func(st *ai.State, in bool) {
			s.do(where, st, s.method("Interval", "Contains"), []ai.Val{p, u64v(x)}, func(st *ai.State, ret []ai.Val) {
				s.r.Ok("member")
				if !isBool(st, ret[0], in) {
					s.fail("member", where, st, "a value that is%s in the interval is reported as%s in it", not(!in), not(in))
				}
			})
		})
	}
	s.ranges(s.e.NewState(), "a", 1, func(st *ai.State, ivs []iv, vals []ai.Val) {
		one("Contains", st, vals[0], ivs[0])
		p := st.New(vals[0])
		two64 := dom.ConstBig(max64).AddC(1)
		s.do("Size", st, s.method("Interval", "Size"), []ai.Val{p}, func(st *ai.State, ret []ai.Val) {
			s.r.Ok("build")
			n := ret[0].(ai.Int).L
			want := ivs[0].hi.Sub(ivs[0].lo).AddC(1)
			if !st.Store.EntailsEQ(n.Sub(want)) && !st.Store.EntailsEQ(n.Sub(want).Add(two64)) {
				s.fail("build", "Size", st, "the size of an interval is %s", s.e.Tab.Format(n))
			}
		})
		split(st, geV(ivs[0].lo.Sub(ivs[0].hi)), func(st *ai.State, one bool) {
			s.do("Single", st, s.method("Interval", "Single"), []ai.Val{p}, func(st *ai.State, ret []ai.Val) {
				s.r.Ok("build")
				if !isBool(st, ret[0], one) {
					s.fail("build", "Single", st, "an interval of%s one value is reported otherwise", not(!one))
				}
			})
		})
	})
	st := s.e.NewState()
	v := s.u64("v")
	s.do("Single", st, s.fn("Single"), []ai.Val{u64v(v)}, func(st *ai.State, ret []ai.Val) { one("Single", st, ret[0], iv{v, v}) })
	s.do("OpenLeft", st, s.fn("OpenLeft"), []ai.Val{u64v(v)}, func(st *ai.State, ret []ai.Val) { one("OpenLeft", st, ret[0], iv{dom.Const(0), v}) })
	s.do("OpenRight", st, s.fn("OpenRight"), []ai.Val{u64v(v)}, func(st *ai.State, ret []ai.Val) {
		one("OpenRight", st, ret[0], iv{v, dom.ConstBig(max64)})
	})
	for n := int64(0); n <= 64; n++ {
		hi := dom.Const(1).Mul(pow2(uint(n))).AddC(-1)
		ref := iv{dom.Const(0), hi}
		s.do("Bits", s.e.NewState(), s.fn("Bits"), []ai.Val{ai.IK(n, types.Uint)}, func(st *ai.State, ret []ai.Val) {
			s.r.Ok("build")
			one("Bits", st, ret[0], ref)
		})
		s.do("IntType", s.e.NewState(), s.fn("IntType"), []ai.Val{ai.IK(n, types.Uint)}, func(st *ai.State, ret []ai.Val) {
			s.r.Ok("build")
			s.contains("IntType", st, ret[0], union([]iv{ref}))
		})
	}
}

func (s *sets) timed(what string, f func()) {
	t0 := time.Now()
	n := s.e.States
	if len(s.r.Findings) == 0 { // enough otherwise
		f()
	}
	if os.Getenv("SLOW") != "" {
		fmt.Fprintln(os.Stderr, what, s.e.States-n, "states", time.Since(t0))
	}
}

func (s *sets) build(st *ai.State, ivs []iv, vals []ai.Val) {
	st = st.Detached()
	arg := s.slice(st, vals)
	s.do("NewSet", st, s.fn("NewSet"), []ai.Val{arg}, func(st *ai.State, ret []ai.Val) {
		got, ok := s.setList(st, ret[0])
		if !ok {
			s.fail("undecided", "NewSet", st, "the intervals of the set are not recognised")
			return
		}
		s.canonical("NewSet", st, got)
		s.contains("NewSet", st, ret[0], union(ivs))
	})
	s.do("Simplify", st, s.fn("Simplify"), []ai.Val{arg}, func(st *ai.State, ret []ai.Val) {
		got, ok := s.list(st, ret[0])
		if !ok {
			s.fail("undecided", "Simplify", st, "the resulting intervals are not recognised")
			return
		}
		s.canonical("Simplify", st, got)
		x := s.u64("x")
		within(st, x, ivs, func(st *ai.State, in bool) {
			within(st, x, got, func(st *ai.State, g bool) {
				s.r.Ok("member")
				if g != in {
					s.fail("member", "Simplify", st, "a value that is%s in the intervals is%s in the result", not(!in), not(in))
				}
			})
		})
	})
}

func (s *sets) overlap(st *ai.State, ivs []iv, vals []ai.Val) {
	st = st.Detached()
	arg := s.slice(st, vals)
	s.do("Overlaps", st, s.fn("Overlaps"), []ai.Val{arg}, func(st *ai.State, ret []ai.Val) {
		shareValue(st, ivs, func(st *ai.State, b bool) {
			s.r.Ok("overlap")
			if !isBool(st, ret[0], b) {
				s.fail("overlap", "Overlaps", st, "%d intervals that%s share a value are reported as%s overlapping", len(ivs), map[bool]string{true: "", false: " do not"}[b], not(b))
			}
		})
	})
}

func (s *sets) newSet(st *ai.State, vals []ai.Val, k func(st *ai.State, set ai.Val)) {
	st = st.Detached()
	arg := s.slice(st, vals)
	s.do("NewSet", st, s.fn("NewSet"), []ai.Val{arg}, func(st *ai.State, ret []ai.Val) { k(st, ret[0]) })
}

func minus(a, b []iv) func(*ai.State, dom.Lin, func(*ai.State, bool)) {
	return func(st *ai.State, x dom.Lin, k func(*ai.State, bool)) {
		within(st, x, a, func(st *ai.State, in bool) {
			if !in {
				k(st, false)
				return
			}
			within(st, x, b, func(st *ai.State, out bool) { k(st, !out) })
		})
	}
}

func (s *sets) subtract(i, j int) {
	s.sorted(s.e.NewState(), "a", i, func(st *ai.State, as []iv, av []ai.Val) {
		s.sorted(st, "b", j, func(st *ai.State, bs []iv, bv []ai.Val) {
			s.newSet(st, av, func(st *ai.State, a ai.Val) {
				s.newSet(st, bv, func(st *ai.State, b ai.Val) {
					s.do("Subtract", st, s.method("Set", "Subtract"), []ai.Val{a, b}, func(st *ai.State, _ []ai.Val) {
						if got, ok := s.setList(st, a); ok {
							s.canonical("Subtract", st, got)
						}
						s.contains("Subtract", st, a, minus(as, bs))
						s.contains("Subtract", st, b, union(bs))
					})
				})
			})
		})
	})
}

// subtractChain takes many intervals from all values.
func (s *sets) subtractChain() {
	all := iv{dom.Const(0), dom.ConstBig(max64)}
	s.do("Range", s.e.NewState(), s.fn("Range"), []ai.Val{u64v(all.lo), u64v(all.hi)}, func(st *ai.State, ret []ai.Val) {
		s.newSet(st, ret[:1], func(st *ai.State, a ai.Val) {
			s.chain(st, "b", 14, true, func(st *ai.State, bs []iv, bv []ai.Val) {
				st = st.Detached() // with several values between, before and after them
				for i, b := range bs {
					if i == 0 {
						st.Store = st.Store.GE(b.lo.AddC(-2))
					} else {
						st.Store = st.Store.GE(b.lo.Sub(bs[i-1].hi).AddC(-3))
					}
				}
				st.Store = st.Store.GE(all.hi.Sub(bs[len(bs)-1].hi).AddC(-2))
				s.newSet(st, bv, func(st *ai.State, b ai.Val) {
					s.do("Subtract", st, s.method("Set", "Subtract"), []ai.Val{a, b}, func(st *ai.State, _ []ai.Val) {
						if got, ok := s.setList(st, a); ok {
							s.canonical("Subtract", st, got)
						}
						s.contains("Subtract", st, a, minus([]iv{all}, bs))
					})
				})
			})
		})
	})
}

func (s *sets) subtractTwice() {
	s.sorted(s.e.NewState(), "a", 1, func(st *ai.State, as []iv, av []ai.Val) {
		s.sorted(st, "b", 1, func(st *ai.State, bs []iv, bv []ai.Val) {
			s.sorted(st, "c", 1, func(st *ai.State, cs []iv, cv []ai.Val) {
				s.newSet(st, av, func(st *ai.State, a ai.Val) {
					s.newSet(st, bv, func(st *ai.State, b ai.Val) {
						s.newSet(st, cv, func(st *ai.State, c ai.Val) {
							s.do("Subtract", st, s.method("Set", "Subtract"), []ai.Val{a, b}, func(st *ai.State, _ []ai.Val) {
								s.do("Subtract", st, s.method("Set", "Subtract"), []ai.Val{a, c}, func(st *ai.State, _ []ai.Val) {
									s.contains("Subtract", st, a, minus(as, append(bs[:1:1], cs...)))
								})
							})
						})
					})
				})
			})
		})
	})
}
