package ai

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/tool/dom"
)

// Loops whose number of iterations is not determined by the abstract state are
// solved by fixpoint iteration: the first MaxLoop iterations are kept apart,
// then the states arriving at the loop head are joined and widened until the
// state after one more iteration is included in the invariant found.

// SumSlice is a slice of symbolic length with summarised contents.
type SumSlice struct {
	Obj ObjID
	Len dom.Lin
}

// SumArr is the summarised contents: a few tracked cells, everything else zero
// (if Zero) or unknown.
type SumArr struct {
	Elem  types.Type
	Zero  bool
	Cells []SumCell
}

// SumCell is one tracked element.
type SumCell struct {
	Idx dom.Lin
	V   Val
}

// Unknown is a value of which nothing is known.
type Unknown struct{ T types.Type }

// Top is the unknown value of type t.
func (e *Engine) Top(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return &Cond{Op: "sym", Name: e.freshName("unknown")}
		case u.Info()&types.IsInteger != 0:
			return e.unknownInt(u.Kind(), "unknown")
		case u.Info()&types.IsString != 0:
			return AtomStr(&Atom{Key: e.freshName("unknown"), Fn: "opaque"})
		}
		return Float{}
	case *types.Struct:
		s := &StructV{F: make([]Val, u.NumFields())}
		for i := range s.F {
			s.F[i] = e.Top(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() < 64 {
			a := &ArrayV{E: make([]Val, u.Len())}
			for i := range a.E {
				a.E[i] = e.Top(u.Elem())
			}
			return a
		}
	}
	return Unknown{t}
}

// sumAddr returns a pointer to element idx of a summarised array.
func (e *Engine) sumAddr(st *State, s SumSlice, idx dom.Lin) Ptr {
	a := st.obj(s.Obj).(*SumArr)
	for k, c := range a.Cells {
		if c.Idx.Equal(idx) || st.Store.EntailsEQ(c.Idx.Sub(idx)) {
			return Ptr{s.Obj, []int{k}}
		}
	}
	n := &SumArr{Elem: a.Elem, Zero: a.Zero, Cells: append([]SumCell(nil), a.Cells...)}
	zero := a.Zero
	for k, c := range n.Cells {
		if !st.Store.Entails(c.Idx.Sub(idx).AddC(-1)) && !st.Store.Entails(idx.Sub(c.Idx).AddC(-1)) {
			zero = false
			n.Cells[k].V = e.Top(a.Elem)
		}
	}
	v := e.Top(a.Elem)
	if zero {
		v = e.Zero(a.Elem)
	}
	n.Cells = append(n.Cells, SumCell{idx, v})
	st.over[s.Obj] = n
	return Ptr{s.Obj, []int{len(n.Cells) - 1}}
}

// live computes the registers live on entry to each block (after its phis).
func (e *Engine) live(fn *ssa.Function) map[*ssa.BasicBlock]map[ssa.Value]bool {
	if m, ok := e.liveness[fn]; ok {
		return m
	}
	in := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			cur := liveFrom(in, b, 0)
			for v := range cur {
				if _, ok := v.(*ssa.Const); ok {
					continue
				}
				if !in[b][v] {
					in[b][v] = true
					changed = true
				}
			}
		}
	}
	e.liveness[fn] = in
	return in
}

// liveFrom computes what is live in b just before its instruction at pc.
func liveFrom(in map[*ssa.BasicBlock]map[ssa.Value]bool, b *ssa.BasicBlock, pc int) map[ssa.Value]bool {
	cur := map[ssa.Value]bool{}
	for _, s := range b.Succs {
		for v := range in[s] {
			if ph, ok := v.(*ssa.Phi); !ok || ph.Block() != s {
				cur[v] = true
			}
		}
		idx := 0
		for k, p := range s.Preds {
			if p == b {
				idx = k
			}
		}
		for _, x := range s.Instrs {
			ph, ok := x.(*ssa.Phi)
			if !ok {
				break
			}
			cur[ph.Edges[idx]] = true
		}
	}
	for k := len(b.Instrs) - 1; k >= pc; k-- {
		x := b.Instrs[k]
		if _, ok := x.(*ssa.Phi); ok {
			continue // kept live at block entry if used below
		}
		if v, ok := x.(ssa.Value); ok {
			delete(cur, v)
		}
		for _, op := range x.Operands(nil) {
			if *op != nil {
				cur[*op] = true
			}
		}
	}
	return cur
}

// liveAfter computes the registers of f needed by the current instruction or
// later.
func (e *Engine) liveAfter(f *Frame) map[ssa.Value]bool {
	return liveFrom(e.live(f.fn), f.block, f.pc)
}

type pair struct {
	z    dom.Sym
	a, b dom.Lin
}

type joiner struct {
	e     *Engine
	a, b  *State
	out   *State
	pairs []pair
	top   bool // something was replaced by unknown
	moved bool // the first state does not yet cover the second
}

func (j *joiner) num(a, b dom.Lin, lo, hi *big.Int) dom.Lin {
	if a.Equal(b) {
		return a
	}
	for _, p := range j.pairs {
		if p.a.Equal(a) && p.b.Equal(b) {
			return dom.Var(p.z)
		}
	}
	z := j.e.Tab.Fresh("inv", lo, hi)
	j.pairs = append(j.pairs, pair{z, a, b})
	return dom.Var(z)
}

func (j *joiner) unknown(t types.Type) Val {
	j.top = true
	if t != nil {
		return j.e.Top(t)
	}
	return Unknown{}
}

func (j *joiner) val(a, b Val, t types.Type) Val {
	e := j.e
	switch x := a.(type) {
	case nil:
		return b
	case bool:
		if y, ok := b.(bool); ok && x == y {
			return x
		}
		j.moved = true
		return &Cond{Op: "sym", Name: e.freshName("inv")}
	case *Cond:
		if !strings.HasPrefix(x.Name, "inv") {
			j.moved = true
		}
		return &Cond{Op: "sym", Name: e.freshName("inv")}
	case NilV:
		if IsNil(b) {
			return a
		}
		switch b.(type) {
		case Slice, SumSlice:
			return j.seq(a, b, t)
		}
	case Int:
		if y, ok := b.(Int); ok {
			lo, hi := KindRange(x.K)
			return Int{j.num(x.L, y.L, lo, hi), x.K}
		}
	case Str:
		if y, ok := b.(Str); ok && x.Key() == y.Key() {
			return x
		}
		if len(x.P) != 1 || x.P[0].Atom == nil || !strings.HasPrefix(x.P[0].Atom.Key, "inv") {
			j.moved = true
		}
		return AtomStr(&Atom{Key: e.freshName("inv"), Fn: "opaque"})
	case View:
		if y, ok := b.(View); ok && x.Base == y.Base {
			return View{x.Base, j.num(x.Off, y.Off, big.NewInt(0), pow2(62)), j.num(x.Len, y.Len, big.NewInt(0), pow2(62))}
		}
	case Ptr:
		if y, ok := b.(Ptr); ok && x.Obj == y.Obj && pathEq(x.Path, y.Path) {
			return x
		}
	case Slice:
		if y, ok := b.(Slice); ok && x.Obj == y.Obj && x.Off == y.Off && x.Len == y.Len && pathEq(x.Path, y.Path) {
			return y
		}
		switch b.(type) {
		case Slice, SumSlice, NilV:
			return j.seq(a, b, t)
		}
	case SumSlice:
		switch y := b.(type) {
		case SumSlice:
			if x.Obj == y.Obj {
				return SumSlice{x.Obj, j.num(x.Len, y.Len, big.NewInt(0), pow2(62))}
			}
			return j.seq(a, b, t)
		case Slice, NilV:
			return j.seq(a, b, t)
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.F) == len(y.F) {
			if x == y {
				return x
			}
			s := &StructV{F: make([]Val, len(x.F))}
			for i := range x.F {
				s.F[i] = j.val(x.F[i], y.F[i], fieldType(t, i))
			}
			return s
		}
	case *ArrayV:
		if y, ok := b.(*ArrayV); ok && len(x.E) == len(y.E) {
			if x == y {
				return x
			}
			s := &ArrayV{E: make([]Val, len(x.E))}
			for i := range x.E {
				s.E[i] = j.val(x.E[i], y.E[i], elemType(t))
			}
			return s
		}
	case *SumArr:
		if y, ok := b.(*SumArr); ok {
			if x == y {
				return x
			}
			if x.Zero || len(x.Cells) > 0 {
				j.moved = true
			}
			return &SumArr{Elem: x.Elem}
		}
	case Iface:
		if y, ok := b.(Iface); ok && types.Identical(x.T, y.T) {
			return Iface{x.T, j.val(x.V, y.V, x.T)}
		}
	case Tuple:
		if y, ok := b.(Tuple); ok && len(x) == len(y) {
			n := make(Tuple, len(x))
			for i := range x {
				n[i] = j.val(x[i], y[i], nil)
			}
			return n
		}
	case MapRef:
		if y, ok := b.(MapRef); ok && x.Obj == y.Obj {
			return x
		}
	case *MapV:
		if y, ok := b.(*MapV); ok && x == y {
			return x
		}
	case Func:
		if y, ok := b.(Func); ok && x.Fn == y.Fn && x.Builtin == y.Builtin && len(x.Free) == len(y.Free) {
			n := Func{Fn: x.Fn, Builtin: x.Builtin}
			for i := range x.Free {
				n.Free = append(n.Free, j.val(x.Free[i], y.Free[i], nil))
			}
			return n
		}
	case Opaque:
		if y, ok := b.(Opaque); ok && x == y {
			return x
		}
	case Text:
		if y, ok := b.(Text); ok && x.S.Key() == y.S.Key() {
			return x
		}
	case BufV:
		if y, ok := b.(BufV); ok && x.S.Key() == y.S.Key() {
			return x
		}
	case Float:
		return x
	case Unknown:
		return x
	}
	if debugWiden {
		fmt.Fprintf(os.Stderr, "   TOP %T | %T %v: %v | %v\n", a, b, t, a, b)
	}
	return j.unknown(t)
}

func fieldType(t types.Type, i int) types.Type {
	if t != nil {
		if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
			return s.Field(i).Type()
		}
	}
	return nil
}

func elemType(t types.Type) types.Type {
	if t != nil {
		switch s := t.Underlying().(type) {
		case *types.Array:
			return s.Elem()
		case *types.Slice:
			return s.Elem()
		}
	}
	return nil
}

func (j *joiner) seq(a, b Val, t types.Type) Val {
	et := elemType(t)
	for _, v := range []Val{a, b} {
		if s, ok := v.(SumSlice); ok && et == nil {
			if st := j.a; st.obj(s.Obj) != nil {
				et = st.obj(s.Obj).(*SumArr).Elem
			} else {
				et = j.b.obj(s.Obj).(*SumArr).Elem
			}
		}
	}
	if et == nil {
		return j.unknown(t)
	}
	if s, ok := a.(SumSlice); ok {
		if arr, ok := j.a.obj(s.Obj).(*SumArr); !ok || arr.Zero || len(arr.Cells) > 0 {
			j.moved = true
		}
	} else {
		j.moved = true
	}
	l := j.num(j.e.Len(j.a, a), j.e.Len(j.b, b), big.NewInt(0), pow2(62))
	return SumSlice{j.out.Alloc(&SumArr{Elem: et}), l}
}

// loopHead is called when st is about to continue at loop head h over a back
// edge. It returns nil if the state is already covered by an invariant.
func (e *Engine) loopHead(st *State, h *ssa.BasicBlock) (*State, *Outcome) {
	f := st.frames[len(st.frames)-1]
	if f.forks[h].n < e.MaxLoop-1 {
		return st, nil
	}
	prev := f.heads[h]
	if prev == nil || f.forks[h].n < e.MaxLoop {
		snap := st.Clone()
		i := &headInfo{st: snap}
		st.setHead(h, i)
		st.tags = append(snap.tags[:len(snap.tags):len(snap.tags)], i)
		return st, nil
	}
	// types of heap objects are not tracked: take them from the registers
	a, b := prev.st, st
	out := st.Clone()
	j := &joiner{e: e, a: a, b: b, out: out}
	fa, fo := a.frames[len(a.frames)-1], out.frames[len(out.frames)-1]
	liveAt := e.live(f.fn)[h]
	vals := make([]ssa.Value, len(f.regs))
	for v, n := range f.nums {
		vals[n] = v
	}
	for n, v := range vals {
		if v == nil || !liveAt[v] {
			fo.regs[n] = nil
			continue
		}
		fo.regs[n] = j.val(fa.regs[n], f.regs[n], v.Type())
	}
	var ids []ObjID
	for id := range b.over {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, k int) bool { return ids[i] < ids[k] })
	for _, id := range ids {
		va := a.obj(id)
		if va == nil {
			continue // allocated since
		}
		vb := b.obj(id)
		out.over[id] = j.val(va, vb, e.objType[id])
	}
	if debugWiden {
		fmt.Fprintf(os.Stderr, "WIDEN %s block %d inv=%v top=%v moved=%v rounds=%d\n", f.fn, h.Index, prev.inv, j.top, j.moved, prev.rounds)
		for _, p := range j.pairs {
			fmt.Fprintf(os.Stderr, "   %s: %s | %s\n", e.Tab.Info(p.z).Name, e.Tab.Format(p.a), e.Tab.Format(p.b))
		}
		for _, c := range prev.st.Store.Cons() {
			fmt.Fprintf(os.Stderr, "     A %s\n", e.Tab.Format(c))
		}
	}
	// inclusion in the previous invariant
	if prev.inv && !j.top && !j.moved {
		sub := map[dom.Sym]dom.Lin{}
		ok := true
		for _, p := range j.pairs {
			if s, isVar := p.a.IsVar(); isVar && prev.syms[s] {
				sub[s] = p.b
			} else {
				ok = false
			}
		}
		for _, c := range prev.st.Store.Cons() {
			if !ok {
				break
			}
			ok = b.Store.Entails(c.Subst(sub))
		}
		if ok {
			// the invariant holds again: does the loop make progress?
			g, has := f.guard[h]
			if !has {
				o := e.outcome(st, "undecided", "no progress measure for the loop")
				return nil, &o
			}
			{
				if !b.Store.Entails(g.Sub(g.Subst(sub)).AddC(-1)) {
					o := e.outcome(st, "diverge", "the loop may repeat without progress")
					return nil, &o
				}
			}
			return nil, nil
		}
	}
	if prev.rounds > 16 {
		o := e.outcome(st, "undecided", "no loop invariant found")
		return nil, &o
	}
	if fo.guard[h].C != nil {
		m := map[*ssa.BasicBlock]dom.Lin{}
		for k, v := range fo.guard {
			if k != h {
				m[k] = v
			}
		}
		fo.guard = m
	}
	out.Store = e.joinStores(j, f, h, prev.inv)
	out.intersect(a)
	out.Data["widened"] = true
	fo.forks[h] = loopCount{n: e.MaxLoop}
	syms := map[dom.Sym]bool{}
	for s := range prev.syms {
		syms[s] = true
	}
	for _, p := range j.pairs {
		syms[p.z] = true
	}
	e.Widenings++
	snap := out.Clone()
	// what was derived from the previous state at this head is covered by
	// what follows from the joined one
	prev.dead = true
	snap.tags = prev.st.tags
	i := &headInfo{st: snap, inv: true, syms: syms, rounds: prev.rounds + 1}
	out.setHead(h, i)
	out.tags = append(snap.tags[:len(snap.tags):len(snap.tags)], i)
	return out, nil
}

var debugWiden = os.Getenv("AI_WIDEN") != ""

type headInfo struct {
	st     *State
	inv    bool
	syms   map[dom.Sym]bool
	rounds int
	dead   bool // superseded by a weaker invariant
}

func (st *State) setHead(h *ssa.BasicBlock, i *headInfo) {
	f := st.frames[len(st.frames)-1]
	m := map[*ssa.BasicBlock]*headInfo{}
	for k, v := range f.heads {
		m[k] = v
	}
	m[h] = i
	f.heads = m
}

// intersect keeps the non-numeric facts that hold in both states.
func (st *State) intersect(a *State) {
	var keep []strNeq
	for _, n := range st.neqs {
		for _, m := range a.neqs {
			if n.a == m.a && n.b == m.b {
				keep = append(keep, n)
				break
			}
		}
	}
	st.neqs = keep
	for k, v := range st.binds {
		if w, ok := a.binds[k]; !ok || w.Key() != v.Key() {
			delete(st.binds, k)
		}
	}
	for k, v := range st.bools {
		if w, ok := a.bools[k]; !ok || w != v {
			delete(st.bools, k)
		}
	}
}

// joinStores over-approximates the union of the two numeric states in terms of
// the new symbols.
func (e *Engine) joinStores(j *joiner, f *Frame, h *ssa.BasicBlock, widening bool) (res *dom.Store) {
	sa, sb := j.a.Store, j.b.Store
	for _, p := range j.pairs {
		z := dom.Var(p.z)
		if s := sa.EQ(z.Sub(p.a)); s != nil {
			sa = s
		}
		if s := sb.EQ(z.Sub(p.b)); s != nil {
			sb = s
		}
	}
	out := dom.NewStore(e.Tab)
	add := func(c dom.Lin) {
		if c.IsConst() || out.Entails(c) {
			return
		}
		if sa.Entails(c) && sb.Entails(c) {
			if s := out.GE(c); s != nil {
				out = s
			}
		}
	}
	eq := func(c dom.Lin) {
		add(c)
		add(c.Neg())
	}
	// keep adds a bound even if others imply it now, as they may not survive
	// widening
	keep := func(c dom.Lin) {
		if !c.IsConst() && sa.Entails(c) && sb.Entails(c) {
			out = out.Keep(c)
		}
	}
	// old constraints, rewritten to the new symbols
	sub := map[dom.Sym]dom.Lin{}
	for _, p := range j.pairs {
		if s, ok := p.a.IsVar(); ok {
			sub[s] = dom.Var(p.z)
		}
	}
	for _, c := range j.a.Store.Cons() {
		add(c)
		add(c.Subst(sub))
	}
	defer func() { res = e.forget(res, j.out) }()
	// affine relations between the changing quantities
	for i, p := range j.pairs {
		for _, q := range j.pairs[:i] {
			dp, dq := p.b.Sub(p.a), q.b.Sub(q.a)
			zp, zq := dom.Var(p.z), dom.Var(q.z)
			if dp.IsConst() && dq.IsConst() {
				eq(zp.Sub(p.a).Mul(dq.C).Sub(zq.Sub(q.a).Mul(dp.C)))
				continue
			}
			for _, k := range []int64{1, -1} {
				if d := dp.Add(dq.Mul(big.NewInt(k))); d.IsConst() && d.C.Sign() == 0 {
					eq(zp.Sub(p.a).Add(zq.Sub(q.a).Mul(big.NewInt(k))))
				}
			}
		}
	}
	if widening {
		return out
	}
	// bounds
	var terms []dom.Lin
	seen := map[string]bool{}
	term := func(l dom.Lin) {
		if k := l.Key(); !seen[k] {
			seen[k] = true
			terms = append(terms, l)
		}
	}
	term(dom.Const(0))
	for _, st := range []*State{j.a, j.b} {
		for _, c := range st.Store.Cons() {
			for _, t := range c.T {
				term(dom.Var(t.S))
			}
		}
	}
	for _, p := range j.pairs {
		term(p.a)
	}
	if len(terms) > 40 {
		terms = terms[:40]
	}
	for _, p := range j.pairs {
		z := dom.Var(p.z)
		for _, t := range terms {
			add(z.Sub(t))
			add(t.Sub(z))
		}
	}
	if g, ok := f.guard[h]; ok {
		for _, p := range j.pairs {
			if p.b.IsConst() {
				keep(g.Add(p.b).Sub(dom.Var(p.z)))
			}
		}
	}
	for _, side := range []struct {
		st  *State
		val func(pair) dom.Lin
	}{{j.a, func(p pair) dom.Lin { return p.a }}, {j.b, func(p pair) dom.Lin { return p.b }}} {
		for _, c := range side.st.Store.Cons() {
			for _, p := range j.pairs {
				if v := side.val(p); v.IsConst() {
					add(c.Add(v).Sub(dom.Var(p.z)))
					add(c.Sub(v).Add(dom.Var(p.z)))
				}
			}
		}
	}
	for _, c := range j.b.Store.Cons() {
		add(c)
		for _, p := range j.pairs {
			// the same constraint about the value one iteration later
			if d := p.b.Sub(p.a); d.IsConst() {
				if s, ok := p.a.IsVar(); ok {
					add(c.Subst(map[dom.Sym]dom.Lin{s: dom.Var(p.z).Sub(d)}))
				}
			}
		}
	}
	return out
}

func (e *Engine) sumAppend(st *State, s SumSlice, add []Val) Val {
	l := s.Len
	id := s.Obj
	for _, v := range add {
		p := e.sumAddr(st, SumSlice{id, l}, l)
		st.StoreTo(p, v)
		l = l.AddC(1)
	}
	return SumSlice{id, l}
}

func (e *Engine) sumErr(v Val) string { return fmt.Sprintf("summarised slice in %T", v) }

// forget projects away loop symbols that no longer occur in the state.
func (e *Engine) forget(s *dom.Store, st *State) *dom.Store {
	live := map[dom.Sym]bool{}
	st.symbols(live)
	// what a live application depends on is live
	for changed := true; changed; {
		changed = false
		for _, a := range e.Apps {
			if a.Bool != "" || !live[a.Sym] {
				continue
			}
			for _, l := range a.Args {
				for _, t := range l.T {
					if !live[t.S] {
						live[t.S] = true
						changed = true
					}
				}
			}
		}
	}
	var dead []dom.Sym
	seen := map[dom.Sym]bool{}
	for _, c := range s.Cons() {
		for _, t := range c.T {
			if !seen[t.S] && !live[t.S] && strings.HasPrefix(e.Tab.Info(t.S).Name, "inv#") {
				dead = append(dead, t.S)
			}
			seen[t.S] = true
		}
	}
	for _, d := range dead {
		s = s.Project(d)
	}
	return s
}

// symbols collects the numeric symbols reachable from the frames and globals.
func (st *State) symbols(out map[dom.Sym]bool) {
	done := map[ObjID]bool{}
	lin := func(l dom.Lin) {
		for _, t := range l.T {
			out[t.S] = true
		}
	}
	var walk func(Val)
	obj := func(id ObjID) {
		if !done[id] {
			done[id] = true
			walk(st.obj(id))
		}
	}
	str := func(s Str) {
		for _, p := range s.P {
			for a := p.Atom; a != nil; a = a.Arg {
				if a.Num != nil {
					lin(*a.Num)
				}
				if a.V != nil {
					walk(a.V)
				}
			}
		}
	}
	walk = func(v Val) {
		switch x := v.(type) {
		case Int:
			lin(x.L)
		case *Cond:
			lin(x.L)
			str(x.A)
			str(x.B)
		case View:
			lin(x.Off)
			lin(x.Len)
		case SumSlice:
			lin(x.Len)
			obj(x.Obj)
		case Slice:
			obj(x.Obj)
		case Ptr:
			obj(x.Obj)
		case MapRef:
			obj(x.Obj)
		case *MapV:
			for i := range x.K {
				walk(x.K[i])
				walk(x.V[i])
			}
		case *StructV:
			for _, f := range x.F {
				walk(f)
			}
		case *ArrayV:
			for _, f := range x.E {
				walk(f)
			}
		case *SumArr:
			for _, c := range x.Cells {
				lin(c.Idx)
				walk(c.V)
			}
		case Iface:
			walk(x.V)
		case Tuple:
			for _, f := range x {
				walk(f)
			}
		case Func:
			for _, f := range x.Free {
				walk(f)
			}
		case Str:
			str(x)
		case Text:
			str(x.S)
		case BufV:
			str(x.S)
		case viewPtr:
			lin(x.v.Off)
			lin(x.v.Len)
			lin(x.idx)
		}
	}
	for _, f := range st.frames {
		for _, v := range f.regs {
			walk(v)
		}
		for _, d := range f.defers {
			for _, v := range d.args {
				walk(v)
			}
			for _, v := range d.fn.Free {
				walk(v)
			}
		}
		for _, g := range f.guard {
			lin(g)
		}
	}
	for _, id := range st.E.globals {
		obj(id)
	}
	for _, v := range st.Data {
		walk(v)
	}
}
