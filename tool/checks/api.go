package checks

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verif/tool/ai"
	"verif/tool/dom"
	"verif/tool/load"
)

// api drives the abstract interpretation of a package's functions and compares
// every outcome with a reference model.
type api struct {
	r   *Report
	p   *load.Program
	e   *ai.Engine
	pkg *load.Package
	n   int // cases compared
	bad int
}

type giveUp string

func newAPI(r *Report, p *load.Program, pkg string) *api {
	a := &api{r: r, p: p, e: newEngine(p), pkg: p.Pkgs[load.Module+"/"+pkg]}
	if a.pkg == nil {
		panic(giveUp("package " + pkg + " is not part of the program"))
	}
	if err := initialise(a.e, p, pkg); err != nil {
		panic(giveUp(err.Error()))
	}
	return a
}

func (a *api) typ(name string) types.Type {
	o := a.pkg.Types.Scope().Lookup(name)
	if o == nil {
		panic(giveUp(fmt.Sprintf("%s.%s not found", a.pkg.Types.Name(), name)))
	}
	return o.Type()
}

func (a *api) fn(name string) *ssa.Function {
	f := a.pkg.SSA.Func(name)
	if f == nil {
		panic(giveUp(fmt.Sprintf("%s.%s not found", a.pkg.Types.Name(), name)))
	}
	return f
}

// method finds a method callable on a pointer to the named type.
func (a *api) method(typ, name string) *ssa.Function {
	t := a.typ(typ)
	if f := lookupMethod(a.p.SSA, types.NewPointer(t), a.pkg.Types, name); f != nil {
		return f
	}
	panic(giveUp(fmt.Sprintf("%s.%s.%s not found", a.pkg.Types.Name(), typ, name)))
}

// lookupMethod finds a method, or nil.
func lookupMethod(prog *ssa.Program, t types.Type, pkg *types.Package, name string) *ssa.Function {
	sel := prog.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return prog.MethodValue(sel)
}

// valueMethod finds a method callable on a value of the named type.
func (a *api) valueMethod(typ, name string) *ssa.Function {
	if f := lookupMethod(a.p.SSA, a.typ(typ), a.pkg.Types, name); f != nil {
		return f
	}
	panic(giveUp(fmt.Sprintf("%s.%s.%s not found", a.pkg.Types.Name(), typ, name)))
}

// try runs f and reports what prevents the analysis.
func (a *api) try(where string, f func()) { try(a.r, where, f) }

func try(r *Report, where string, f func()) {
	defer func() {
		if x := recover(); x != nil {
			if g, ok := x.(giveUp); ok {
				r.BadAt("undecided", where, "", "%s", string(g))
				return
			}
			panic(x)
		}
	}()
	f()
}

// do analyses a call and continues with every outcome that returns.
func (a *api) do(where string, st *ai.State, fn *ssa.Function, args []ai.Val, k func(st *ai.State, ret []ai.Val)) {
	a.doP(where, st, fn, args, k, nil)
}

func (a *api) doP(where string, st *ai.State, fn *ssa.Function, args []ai.Val, k func(st *ai.State, ret []ai.Val), panics func(o ai.Outcome)) {
	for _, o := range a.e.Call(st.Detached(), fn, args...) {
		switch {
		case o.Kind == "return":
			k(o.St, o.Ret)
		case o.Kind == "panic" && panics != nil:
			panics(o)
		case o.Kind == "panic":
			a.bad++
			a.r.Bad("panic", where, o.Pos, "%s panics: %s (%s)", fn.Name(), o.Msg, facts(o.St))
		case o.Kind == "diverge":
			a.bad++
			a.r.Bad("diverge", where, o.Pos, "%s does not end (%s)", fn.Name(), facts(o.St))
		default:
			a.bad++
			a.r.Bad("undecided", where, o.Pos, "%s: %s %s", fn.Name(), o.Kind, o.Msg)
		}
	}
}

func facts(st *ai.State) string {
	s := st.Facts()
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}

// split decides a boolean and continues on both sides.
func split(st *ai.State, v ai.Val, k func(st *ai.State, b bool)) {
	y, n := st.Detached().Decide(v)
	for _, s := range y {
		k(s, true)
	}
	for _, s := range n {
		k(s, false)
	}
}

var max64 = new(big.Int).SetUint64(1<<64 - 1)

// u64 is an arbitrary 64-bit value.
func (a *api) u64(name string) dom.Lin {
	return dom.Var(a.e.Tab.Sym(name, big.NewInt(0), max64))
}

func u64v(l dom.Lin) ai.Val { return ai.Int{L: l, K: types.Uint64} }

func geV(l dom.Lin) ai.Val { return &ai.Cond{Op: "ge", L: l} }

// iv is a reference interval.
type iv struct{ lo, hi dom.Lin }

// within splits on membership of x in the union of ivs.
func within(st *ai.State, x dom.Lin, ivs []iv, k func(st *ai.State, in bool)) {
	if len(ivs) == 0 {
		k(st, false)
		return
	}
	split(st, geV(x.Sub(ivs[0].lo)), func(st *ai.State, b bool) {
		if !b {
			within(st, x, ivs[1:], k)
			return
		}
		split(st, geV(ivs[0].hi.Sub(x)), func(st *ai.State, b bool) {
			if b {
				k(st, true)
				return
			}
			within(st, x, ivs[1:], k)
		})
	})
}

// isBool reports whether v is certainly b in st.
func isBool(st *ai.State, v ai.Val, b bool) bool {
	y, n := st.Detached().Decide(v)
	if b {
		return len(n) == 0
	}
	return len(y) == 0
}

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

// aiErr reports whether an error result is set.
func aiErr(v ai.Val) bool { return !ai.IsNil(v) }

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
