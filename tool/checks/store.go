package checks

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/tool/ai"
	"verif/tool/dom"
	"verif/tool/load"
	"verif/tool/schema"
)

func init() {
	All["C22"] = Check{constraintStore, "The operations of tv.Constraints are interpreted abstractly on stores with arbitrary scopes, names and values (any two names equal or not, values related or not, the local scope included), followed by a lookup of an arbitrary name; every class of outcomes is compared with a reference table, for the store, for what was merged into it, and for copies made before and after."}
}

// entry is one recorded value of the reference table.
type entry struct {
	scope, name ai.Str
	val         dom.Lin
}

// cons drives tv.Constraints.
type cons struct {
	*api
	ast *types.Package
	at  string
	n   int
}

func newCons(r *Report, p *load.Program, at string) *cons {
	c := &cons{api: newAPI(r, p, "tv"), at: at}
	c.ast = p.Pkgs[load.Module+"/ast"].Types
	return c
}

func (c *cons) m(name string) *ssa.Function {
	if f := lookupMethod(c.p.SSA, c.typ("Constraints"), c.pkg.Types, name); f != nil {
		return f
	}
	return c.method("Constraints", name)
}

func (c *cons) has(name string) bool {
	return lookupMethod(c.p.SSA, types.NewPointer(c.typ("Constraints")), c.pkg.Types, name) != nil
}

func (c *cons) failf(rule, fn string, st *ai.State, f string, a ...any) {
	c.r.Bad(rule, c.at, c.m(fn).Pos(), "%s when %s", fmt.Sprintf(f, a...), facts(st))
}

func (c *cons) str(scope byte, id string) ai.Str {
	if scope == 'l' {
		return ai.Str{}
	}
	return ai.FreeName(id)
}

func (c *cons) fresh(scope byte) entry {
	c.n++
	val := dom.Var(c.e.Tab.Sym(fmt.Sprint("value", c.n), pow2neg63, maxInt64))
	name := ai.Lit(fmt.Sprint("known", c.n))
	switch scope { // one of many
	case 'L':
		return entry{ai.Str{}, name, val}
	case 'F':
		return entry{ai.Lit(fmt.Sprint("place", c.n)), name, val}
	case 'G':
		return entry{ai.Lit("place"), name, val}
	}
	return entry{c.str(scope, fmt.Sprint("scope", c.n)), ai.FreeName(fmt.Sprint("name", c.n)),
		dom.Var(c.e.Tab.Sym(fmt.Sprint("value", c.n), pow2neg63, maxInt64))}
}

var (
	pow2neg63 = pow2(63).Neg(pow2(63))
	maxInt64  = pow2(63).Sub(pow2(63), pow2(0))
)

func i64v(l dom.Lin) ai.Val { return ai.Int{L: l, K: types.Int64} }

// at continues with the index of an entry, or -1.
func locate(st *ai.State, es []entry, scope, name ai.Str, k func(st *ai.State, n int)) {
	var rec func(st *ai.State, n int)
	rec = func(st *ai.State, n int) {
		if n == len(es) {
			k(st, -1)
			return
		}
		split(st, st.EqStr(es[n].scope, scope), func(st *ai.State, eq bool) {
			if !eq {
				rec(st, n+1)
				return
			}
			split(st, st.EqStr(es[n].name, name), func(st *ai.State, eq bool) {
				if eq {
					k(st, n)
				} else {
					rec(st, n+1)
				}
			})
		})
	}
	rec(st, 0)
}

// build makes a store holding entries with the given kinds of scope.
func (c *cons) build(st *ai.State, scopes string, k func(st *ai.State, v ai.Val, es []entry)) {
	c.do(c.at, st, c.fn("NewConstraints"), nil, func(st *ai.State, ret []ai.Val) {
		v := ret[0]
		var rec func(st *ai.State, es []entry, n int)
		rec = func(st *ai.State, es []entry, n int) {
			if n == len(scopes) {
				k(st, v, es)
				return
			}
			e := c.fresh(scopes[n])
			locate(st, es, e.scope, e.name, func(st *ai.State, at int) {
				if at >= 0 {
					return // distinct entries only; conflicts are what the operations are about
				}
				c.do(c.at, st, c.m("Set"), []ai.Val{v, e.scope, e.name, i64v(e.val)}, func(st *ai.State, ret []ai.Val) {
					c.r.Ok("record")
					if !ai.IsNil(ret[0]) {
						c.failf("record", "Set", st, "recording a new value fails")
					}
					rec(st, append(es[:len(es):len(es)], e), n+1)
				})
			})
		}
		rec(st, nil, 0)
	})
}

// query looks up an arbitrary name; maybe lists entries that may be present.
func (c *cons) query(what string, st *ai.State, v ai.Val, es, maybe []entry) {
	if m, ok := v.(ai.MapRef); ok && len(maybe) == 0 {
		// whether a set is empty decides what is generated for it
		k, _ := st.MapEntries(m)
		c.r.Ok("empty")
		if len(es) == 0 && len(k) > 0 {
			c.failf("empty", "Lookup", st, "%s: a set without recorded values is not empty", what)
		}
		if len(es) > 0 && len(k) == 0 {
			c.failf("empty", "Lookup", st, "%s: a set with recorded values is empty", what)
		}
	}
	name := ai.FreeName("query")
	for _, sc := range []byte{'l', 'f'} {
		scope := c.str(sc, "queryscope")
		locate(st, es, scope, name, func(st *ai.State, n int) {
			if n < 0 && len(maybe) > 0 {
				locate(st, maybe, scope, name, func(st *ai.State, m int) {
					if m < 0 {
						c.look(what, st, v, scope, name, nil)
					}
				})
				return
			}
			if n < 0 {
				c.look(what, st, v, scope, name, nil)
			} else {
				c.look(what, st, v, scope, name, &es[n])
			}
		})
	}
}

func (c *cons) look(what string, st *ai.State, v ai.Val, scope, name ai.Str, e *entry) {
	judge := func(fn string) func(st *ai.State, ret []ai.Val) {
		return func(st *ai.State, ret []ai.Val) {
			c.r.Ok("lookup")
			switch {
			case e == nil:
				if !isBool(st, ret[1], false) {
					c.failf("lookup", fn, st, "%s: a name without a recorded value is found", what)
				}
			case !isBool(st, ret[1], true):
				c.failf("lookup", fn, st, "%s: a recorded value is not found", what)
			default:
				if x, ok := ret[0].(ai.Int); !ok || !st.Store.EntailsEQ(x.L.Sub(e.val)) {
					c.failf("lookup", fn, st, "%s: the lookup returns %s, recorded was %s", what, st.Show(ret[0]), c.e.Tab.Format(e.val))
				}
			}
		}
	}
	c.do(c.at, st, c.m("Lookup"), []ai.Val{v, scope, name}, judge("Lookup"))
	if len(scope.P) == 0 && c.has("LookupLocal") {
		c.do(c.at, st, c.m("LookupLocal"), []ai.Val{v, name}, judge("LookupLocal"))
	}
	if c.has("LookupRef") {
		n := st.Detached()
		ref := c.ref(n, scope, name)
		c.do(c.at, n, c.m("LookupRef"), []ai.Val{v, ref}, judge("LookupRef"))
	}
}

func (c *cons) ref(st *ai.State, scope, name ai.Str) ai.Val {
	b := &schema.Builder{St: st, Ast: c.ast, Name: ai.Name}
	return b.Node("IDRef", map[string]ai.Val{"Scope": scope, "Name": name})
}

func without(es []entry, n int) []entry {
	return append(append([]entry(nil), es[:n]...), es[n+1:]...)
}

// cleared continues with the entries outside a scope.
func cleared(st *ai.State, es []entry, scope ai.Str, k func(st *ai.State, es []entry)) {
	var rec func(st *ai.State, n int, out []entry)
	rec = func(st *ai.State, n int, out []entry) {
		if n == len(es) {
			k(st, out)
			return
		}
		split(st, st.EqStr(es[n].scope, scope), func(st *ai.State, eq bool) {
			if eq {
				rec(st, n+1, out)
			} else {
				rec(st, n+1, append(out[:len(out):len(out)], es[n]))
			}
		})
	}
	rec(st, 0, nil)
}

// merged continues with the result of adding d to es, or a conflict.
func merged(st *ai.State, es, d []entry, k func(st *ai.State, out []entry, conflict bool)) {
	if len(d) == 0 {
		k(st, es, false)
		return
	}
	locate(st, es, d[0].scope, d[0].name, func(st *ai.State, n int) {
		if n < 0 {
			merged(st, append(es[:len(es):len(es)], d[0]), d[1:], k)
			return
		}
		split(st, &ai.Cond{Op: "eq", L: es[n].val.Sub(d[0].val)}, func(st *ai.State, eq bool) {
			if eq {
				merged(st, es, d[1:], k)
			} else {
				k(st, es, true)
			}
		})
	})
}

// set checks recording one more value.
func (c *cons) set(scopes string, scope byte, ref bool) {
	fn := "Set"
	if ref {
		fn = "SetRef"
	}
	c.build(c.e.NewState(), scopes, func(st *ai.State, v ai.Val, es []entry) {
		e := c.fresh(scope)
		st = st.Detached()
		args := []ai.Val{v, e.scope, e.name, i64v(e.val)}
		if ref {
			args = []ai.Val{v, c.ref(st, e.scope, e.name), i64v(e.val)}
		}
		merged(st, es, []entry{e}, func(st *ai.State, out []entry, conflict bool) {
			c.do(c.at, st, c.m(fn), args, func(st *ai.State, ret []ai.Val) {
				c.r.Ok("record")
				if failed := !ai.IsNil(ret[0]); failed != conflict {
					c.failf("record", fn, st, "recording a value that%s conflicts with a recorded one is%s refused", not(!conflict), not(!failed))
				}
				c.query("after "+fn, st, v, out, nil)
			})
		})
	})
}

// create checks LookupOrCreate.
func (c *cons) create(scopes string, scope byte, ref bool) {
	fn := "LookupOrCreate"
	if ref {
		fn = "LookupOrCreateRef"
	}
	c.build(c.e.NewState(), scopes, func(st *ai.State, v ai.Val, es []entry) {
		e := c.fresh(scope)
		st = st.Detached()
		args := []ai.Val{v, e.scope, e.name, i64v(e.val)}
		if ref {
			args = []ai.Val{v, c.ref(st, e.scope, e.name), i64v(e.val)}
		}
		locate(st, es, e.scope, e.name, func(st *ai.State, n int) {
			want, out := e, es
			if n >= 0 {
				want = es[n]
			} else {
				out = append(es[:len(es):len(es)], e)
			}
			c.do(c.at, st, c.m(fn), args, func(st *ai.State, ret []ai.Val) {
				c.r.Ok("record")
				if x, ok := ret[0].(ai.Int); !ok || !st.Store.EntailsEQ(x.L.Sub(want.val)) {
					c.failf("record", fn, st, "%s returns %s instead of %s", fn, st.Show(ret[0]), c.e.Tab.Format(want.val))
				}
				c.query("after "+fn, st, v, out, nil)
			})
		})
	})
}

// clear checks clearing a scope.
func (c *cons) clear(scopes string, local bool) {
	c.build(c.e.NewState(), scopes, func(st *ai.State, v ai.Val, es []entry) {
		fns := []string{"ClearScope"}
		scope := ai.FreeName("cleared")
		if local {
			fns = []string{"ClearScope", "ClearLocal"}
			scope = ai.Str{}
		}
		for _, fn := range fns {
			args := []ai.Val{v, scope}
			if fn == "ClearLocal" {
				args = args[:1]
			}
			c.do(c.at, st, c.m(fn), args, func(st *ai.State, ret []ai.Val) {
				c.r.Ok("clear")
				cleared(st, es, scope, func(st *ai.State, out []entry) { c.query("after "+fn, st, v, out, nil) })
			})
		}
	})
}

// merge checks Update and Merge.
func (c *cons) merge(scopes, other string) {
	c.build(c.e.NewState(), scopes, func(st *ai.State, v ai.Val, es []entry) {
		c.build(st, other, func(st *ai.State, w ai.Val, ds []entry) {
			merged(st, es, ds, func(st *ai.State, out []entry, conflict bool) {
				c.do(c.at, st, c.m("Update"), []ai.Val{v, w}, func(st *ai.State, ret []ai.Val) {
					c.r.Ok("merge")
					if failed := !ai.IsNil(ret[0]); failed != conflict {
						c.failf("merge", "Update", st, "updating with a set that%s conflicts is%s refused", not(!conflict), not(!failed))
					}
					c.query("the updating set", st, w, ds, nil)
					if conflict {
						c.query("after a refused update", st, v, es, ds)
					} else {
						c.query("after an update", st, v, out, nil)
					}
				})
				c.do(c.at, st, c.m("Merge"), []ai.Val{v, w}, func(st *ai.State, ret []ai.Val) {
					c.r.Ok("merge")
					if failed := !ai.IsNil(ret[1]); failed != conflict {
						c.failf("merge", "Merge", st, "merging a set that%s conflicts is%s refused", not(!conflict), not(!failed))
						return
					}
					c.query("the first merged set", st, v, es, nil)
					c.query("the second merged set", st, w, ds, nil)
					if !conflict {
						c.query("the merged set", st, ret[0], out, nil)
						c.apart("Merge", st, ret[0], v, out, es)
						c.apart("Merge", st, ret[0], w, out, ds)
					}
				})
			})
		})
	})
}

// copies checks Clone and CloneGlobal.
func (c *cons) copies(scopes string) {
	c.build(c.e.NewState(), scopes, func(st *ai.State, v ai.Val, es []entry) {
		c.do(c.at, st, c.m("Clone"), []ai.Val{v}, func(st *ai.State, ret []ai.Val) {
			c.r.Ok("copy")
			c.query("a clone", st, ret[0], es, nil)
			c.query("after cloning", st, v, es, nil)
			c.apart("Clone", st, ret[0], v, es, es)
		})
		if !c.has("CloneGlobal") {
			return
		}
		cleared(st, es, ai.Str{}, func(st *ai.State, out []entry) {
			c.do(c.at, st, c.m("CloneGlobal"), []ai.Val{v}, func(st *ai.State, ret []ai.Val) {
				c.r.Ok("copy")
				c.query("a global clone", st, ret[0], out, nil)
				c.query("after cloning", st, v, es, nil)
				c.apart("CloneGlobal", st, ret[0], v, out, es)
			})
		})
	})
}

// apart checks that changing either of two stores leaves the other alone.
func (c *cons) apart(fn string, st *ai.State, a, b ai.Val, as, bs []entry) {
	change := func(x, y ai.Val, xs, ys []entry, what string) {
		for _, scope := range []byte{'l', 'f'} {
			e := c.fresh(scope)
			merged(st, xs, []entry{e}, func(st *ai.State, out []entry, conflict bool) {
				if conflict || len(out) == len(xs) {
					return
				}
				c.do(c.at, st, c.m("Set"), []ai.Val{x, e.scope, e.name, i64v(e.val)}, func(st *ai.State, ret []ai.Val) {
					c.r.Ok("copy")
					c.query(fmt.Sprintf("the %s of %s after a value is recorded in the other", what, fn), st, y, ys, nil)
				})
			})
			sc := c.str(scope, "cleared")
			c.do(c.at, st, c.m("ClearScope"), []ai.Val{x, sc}, func(st *ai.State, ret []ai.Val) {
				c.r.Ok("copy")
				c.query(fmt.Sprintf("the %s of %s after a scope of the other is cleared", what, fn), st, y, ys, nil)
			})
		}
	}
	change(a, b, as, bs, "original")
	change(b, a, bs, as, "result")
}

// storeRules checks copies and merges only.
func storeRules(r *Report) {
	r.Rule("copy", "changing a constraint set never shows through a copy or a merge of it", 100)
	r.Rule("lookup", "a lookup of an arbitrary name after a change elsewhere gives what it gave before", 1000)
	r.Rule("empty", "a set is empty exactly when nothing is recorded in it", 0)
	r.Rule("merge", "a merge is independent of both operands", 10)
	storeJobs(r, true)
}

func constraintStore(r *Report) {
	r.Rule("record", "a value is recorded unless another one is, and then the operation reports an error", 100)
	r.Rule("lookup", "a lookup of an arbitrary name returns the recorded value or reports absence", 1000)
	r.Rule("empty", "a set is empty exactly when nothing is recorded in it", 0)
	r.Rule("clear", "clearing removes exactly one scope", 20)
	r.Rule("merge", "merging is refused exactly on conflict and leaves its operands as they were", 40)
	r.Rule("copy", "copies are independent of their originals", 100)
	storeJobs(r, false)
}

func storeJobs(r *Report, copies bool) {
	type job struct {
		name string
		run  func(c *cons)
	}
	var jobs []job
	add := func(name string, f func(c *cons)) { jobs = append(jobs, job{name, f}) }
	states := []string{"", "l", "f", "ll", "lf", "ff", "LLLLLLL", "FFFFFL", "GGGGGGGL"}
	if r.Tier == "thorough" {
		states = append(states, "llf", "lff", "fff")
	}
	show := func(s string) string {
		return "{" + strings.NewReplacer("l", "local ", "f", "scoped ", "L", "known local ", "F", "known scoped ", "G", "known scoped in one ").Replace(s) + "}"
	}
	for _, s := range states {
		s := s
		if copies {
			add("copy "+show(s), func(c *cons) { c.copies(s) })
			for _, t := range []string{"", "l", "f", "lf", "ff"} {
				t := t
				add("merge "+show(s)+" with "+show(t), func(c *cons) { c.merge(s, t) })
			}
			continue
		}
		for _, k := range []byte{'l', 'f'} {
			k := k
			for _, ref := range []bool{false, true} {
				ref := ref
				add(fmt.Sprintf("record %s in %s, reference %v", show(string(k)), show(s), ref), func(c *cons) { c.set(s, k, ref) })
				add(fmt.Sprintf("create %s in %s, reference %v", show(string(k)), show(s), ref), func(c *cons) { c.create(s, k, ref) })
			}
		}
		add("clear local in "+show(s), func(c *cons) { c.clear(s, true) })
		add("clear scope in "+show(s), func(c *cons) { c.clear(s, false) })
		add("copy "+show(s), func(c *cons) { c.copies(s) })
		for _, t := range []string{"", "l", "f", "lf", "ff"} {
			t := t
			add("merge "+show(s)+" with "+show(t), func(c *cons) { c.merge(s, t) })
		}
	}
	rs := make([]*Report, len(jobs))
	parallel(r.P, len(jobs), func(p *load.Program, n int) {
		q := NewReport(r.Prop, r.Tier, p)
		rs[n] = q
		try(q, jobs[n].name, func() {
			c := newCons(q, p, jobs[n].name)
			defer func() { q.Absorb(c.e) }()
			jobs[n].run(c)
		})
	})
	for _, q := range rs {
		r.merge(q)
	}
	r.Extra["schema_shapes"] += len(jobs)
	for _, j := range jobs {
		r.Sample("%s", j.name)
	}
}
