package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/tool/dom"
)

// Engine holds what is shared between the states of one analysis.
type Engine struct {
	// Parts describes the symbols introduced by division.
	Parts map[dom.Sym]Part
	Prog  *ssa.Program
	Tab   *dom.Table
	Intr  map[string]Intrinsic
	// OnReturn, if set, sees the result of every interpreted function.
	OnReturn func(st *State, fn *ssa.Function, v Val)
	// Redirect maps a function name to a model with the same signature.
	Redirect map[string]*ssa.Function
	base     map[ObjID]Val
	nextObj  ObjID
	globals  map[*ssa.Global]ObjID
	inited   map[*ssa.Package]bool
	numbers  map[*ssa.Function]map[ssa.Value]int

	// Bounds of the analysis.
	MaxStates int // outcomes per call
	MaxSteps  int // instructions per trace
	MaxLoop   int // undetermined decisions at one branch of one activation
	MaxList   int // largest symbolic count made concrete

	// Statistics.
	Steps, States, Forks int
	Funcs                map[*ssa.Function]bool
	CallSites            map[ssa.Instruction]bool
	Ranges               map[ssa.Instruction]bool
	// DrawCases are the partitions of Intn results, relative to the bound.
	DrawCases func(st *State, n dom.Lin) []dom.Lin
	freshN    int
	liveness  map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool
	objType   map[ObjID]types.Type
	// chars holds the text of characters taken from names.
	chars map[dom.Sym]Str
	// Widenings and Covered count loop invariants and states they cover.
	Widenings, Covered int
	atomN              int
	// Apps are the uninterpreted applications met so far.
	Apps     []App
	appBools map[string]bool
	// ExternMin is the least number of bytes an external parser consumes.
	ExternMin int64
}

// Intrinsic models a function.
type Intrinsic func(st *State, c *CallCtx, args []Val) []Res

// CallCtx describes a call.
type CallCtx struct {
	E   *Engine
	Fn  *ssa.Function
	Pos token.Pos
	Sig *types.Signature
}

// Res is one outcome of an intrinsic.
type Res struct {
	St     *State
	V      Val
	Panic  string // non-empty: the call panics
	PanicV Val
	Stop   string // non-empty: analysis of this trace ends undecided
	Trunc  bool   // trace abandoned because of a bound
	Exit   bool   // process exit
	Call   *Func  // non-nil: continue by calling this function with Args
	Args   []Val
	Inline bool // continue into the function's own body
}

// One is the single normal result v.
func One(st *State, v Val) []Res { return []Res{{St: st, V: v}} }

// New returns an engine for prog.
func New(prog *ssa.Program) *Engine {
	e := &Engine{Prog: prog, Tab: dom.NewTable(), Intr: map[string]Intrinsic{}, Redirect: map[string]*ssa.Function{},
		base: map[ObjID]Val{}, nextObj: 1, globals: map[*ssa.Global]ObjID{}, inited: map[*ssa.Package]bool{},
		numbers: map[*ssa.Function]map[ssa.Value]int{}, MaxStates: 20000, MaxSteps: 400000, MaxLoop: 4, MaxList: 2,
		Funcs: map[*ssa.Function]bool{}, CallSites: map[ssa.Instruction]bool{}, Ranges: map[ssa.Instruction]bool{},
		liveness: map[*ssa.Function]map[*ssa.BasicBlock]map[ssa.Value]bool{}, objType: map[ObjID]types.Type{}, Parts: map[dom.Sym]Part{}, appBools: map[string]bool{}, chars: map[dom.Sym]Str{}}
	registerIntrinsics(e)
	return e
}

type strNeq struct {
	a, b string
	x, y Str
}

// Event is an effect recorded on a trace.
type Event struct {
	Kind string
	Pos  token.Pos
	Args []Val
	Prev *Event
}

// State is one abstract state of one trace.
type State struct {
	E      *Engine
	Store  *dom.Store
	over   map[ObjID]Val
	frames []*Frame
	binds  map[string]Str // atoms known equal to other text
	neqs   []strNeq
	bools  map[string]bool
	Events *Event
	steps  int
	// tags are the loop-head states this one derives from.
	tags []*headInfo
	// Notes records why the trace is special (bounds hit etc.).
	Path []string
	pan  *panicInfo
	// Data carries client information along the trace.
	Data map[string]Val
}

type panicInfo struct {
	v         Val
	msg       string
	pos       token.Pos
	stack     []string
	recovered bool
}

// Frame is one activation.
type Frame struct {
	fn     *ssa.Function
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	pc     int
	regs   []Val
	nums   map[ssa.Value]int
	free   []Val
	defers []deferred
	forks  map[*ssa.BasicBlock]loopCount
	heads  map[*ssa.BasicBlock]*headInfo
	guard  map[*ssa.BasicBlock]dom.Lin
	// kind of return: 0 normal call into caller's register, 1 deferred call
	mode      int
	callInstr ssa.Instruction
	unwinding bool
	result    Val
}

// loopCount counts undetermined decisions to leave a loop: those at its head
// and, when the head alone bounds the loop, those elsewhere.
type loopCount struct{ n, inner int }

type deferred struct {
	fn   Func
	args []Val
	pos  token.Pos
}

// NewState returns an empty state.
func (e *Engine) NewState() *State {
	return &State{E: e, Store: dom.NewStore(e.Tab), over: map[ObjID]Val{}, binds: map[string]Str{}, bools: map[string]bool{}, Data: map[string]Val{}}
}

// Clone copies the state.
func (st *State) Clone() *State {
	n := *st
	n.over = make(map[ObjID]Val, len(st.over))
	for k, v := range st.over {
		n.over[k] = v
	}
	n.binds = make(map[string]Str, len(st.binds))
	for k, v := range st.binds {
		n.binds[k] = v
	}
	n.bools = make(map[string]bool, len(st.bools))
	for k, v := range st.bools {
		n.bools[k] = v
	}
	n.Data = make(map[string]Val, len(st.Data))
	for k, v := range st.Data {
		n.Data[k] = v
	}
	n.neqs = append([]strNeq(nil), st.neqs...)
	n.Path = append([]string(nil), st.Path...)
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		g := *f
		g.regs = append([]Val(nil), f.regs...)
		g.defers = append([]deferred(nil), f.defers...)
		g.forks = make(map[*ssa.BasicBlock]loopCount, len(f.forks))
		for k, v := range f.forks {
			g.forks[k] = v
		}
		n.frames[i] = &g
	}
	if st.pan != nil {
		p := *st.pan
		n.pan = &p
	}
	st.E.Forks++
	return &n
}

// stale reports whether another state covers this one.
func (st *State) stale() bool {
	for _, t := range st.tags {
		if t.dead {
			return true
		}
	}
	return false
}

// Emit records an event.
func (st *State) Emit(kind string, pos token.Pos, args ...Val) {
	st.Events = &Event{Kind: kind, Pos: pos, Args: args, Prev: st.Events}
}

// EventList returns the events in order.
func (st *State) EventList() []*Event {
	var out []*Event
	for e := st.Events; e != nil; e = e.Prev {
		out = append(out, e)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// --- heap ---

// Alloc creates an object.
func (st *State) Alloc(v Val) ObjID {
	id := st.E.nextObj
	st.E.nextObj++
	st.over[id] = v
	return id
}

// NewTyped allocates a zero value of type t.
func (st *State) NewTyped(t types.Type) Ptr {
	p := st.New(st.E.Zero(t))
	st.E.objType[p.Obj] = t
	return p
}

// New allocates v and returns a pointer to it.
func (st *State) New(v Val) Ptr { return Ptr{Obj: st.Alloc(v)} }

func (st *State) obj(id ObjID) Val {
	if v, ok := st.over[id]; ok {
		return v
	}
	return st.E.base[id]
}

type badAccess string

func (st *State) load(p Ptr) Val {
	v := st.obj(p.Obj)
	for _, i := range p.Path {
		switch x := v.(type) {
		case *StructV:
			v = x.F[i]
		case *ArrayV:
			if i >= len(x.E) {
				panic(badAccess("index beyond array"))
			}
			v = x.E[i]
		case *SumArr:
			v = x.Cells[i].V
		default:
			panic(badAccess(fmt.Sprintf("component of %T", v)))
		}
	}
	return v
}

// Load reads through a pointer.
func (st *State) Load(p Ptr) Val { return st.load(p) }

func setPath(v Val, path []int, x Val) Val {
	if len(path) == 0 {
		return x
	}
	switch a := v.(type) {
	case *StructV:
		f := append([]Val(nil), a.F...)
		f[path[0]] = setPath(f[path[0]], path[1:], x)
		return &StructV{f}
	case *ArrayV:
		e := append([]Val(nil), a.E...)
		e[path[0]] = setPath(e[path[0]], path[1:], x)
		return &ArrayV{e}
	case *SumArr:
		n := *a
		n.Cells = append([]SumCell(nil), a.Cells...)
		n.Cells[path[0]].V = setPath(n.Cells[path[0]].V, path[1:], x)
		return &n
	}
	panic(badAccess(fmt.Sprintf("component of %T", v)))
}

// StoreTo writes through a pointer.
func (st *State) StoreTo(p Ptr, x Val) { st.over[p.Obj] = setPath(st.obj(p.Obj), p.Path, x) }

func (st *State) mapV(m MapRef) *MapV { return st.obj(m.Obj).(*MapV) }

// MapEntries returns the contents of a map.
func (st *State) MapEntries(v Val) (k, vs []Val) {
	if m, ok := v.(MapRef); ok {
		mv := st.mapV(m)
		return mv.K, mv.V
	}
	return nil, nil
}

// NewSlice allocates a slice holding vs, with no spare capacity.
func (st *State) NewSlice(vs []Val) Slice {
	id := st.Alloc(&ArrayV{append([]Val(nil), vs...)})
	return Slice{Obj: id, Len: len(vs), Cap: len(vs)}
}

// Elems returns the elements of a slice value.
func (st *State) Elems(v Val) ([]Val, bool) {
	switch v := v.(type) {
	case NilV:
		return nil, true
	case Slice:
		a, ok := st.load(Ptr{v.Obj, v.Path}).(*ArrayV)
		if !ok {
			return nil, false
		}
		return a.E[v.Off : v.Off+v.Len], true
	case *ArrayV:
		return v.E, true
	case Text:
		if s, ok := v.S.Literal(); ok {
			var out []Val
			for i := 0; i < len(s); i++ {
				out = append(out, IK(int64(s[i]), types.Uint8))
			}
			return out, true
		}
	}
	return nil, false
}

// Global returns a pointer to a package-level variable.
func (st *State) Global(g *ssa.Global) Ptr {
	id, ok := st.E.globals[g]
	if !ok {
		id = st.E.nextObj
		st.E.nextObj++
		st.E.globals[g] = id
		var init Val
		if st.E.modelGlobal(g, &init) {
			st.E.base[id] = init
		} else {
			st.E.base[id] = st.E.Zero(g.Type().(*types.Pointer).Elem())
		}
	}
	return Ptr{Obj: id}
}

// GlobalOf reports which package-level variable an object is, if any.
func (e *Engine) GlobalOf(id ObjID) *ssa.Global {
	for g, i := range e.globals {
		if i == id {
			return g
		}
	}
	return nil
}

// Freeze makes the current heap the base of all later states.
func (st *State) Freeze() {
	for k, v := range st.over {
		st.E.base[k] = v
	}
	st.over = map[ObjID]Val{}
}

// Zero is the zero value of t.
func (e *Engine) Zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return IK(0, u.Kind())
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return NilV{}
		}
		return Float{}
	case *types.Struct:
		s := &StructV{F: make([]Val, u.NumFields())}
		for i := range s.F {
			s.F[i] = e.Zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := &ArrayV{E: make([]Val, u.Len())}
		for i := range a.E {
			a.E[i] = e.Zero(u.Elem())
		}
		return a
	case *types.Tuple:
		t := make(Tuple, u.Len())
		for i := range t {
			t[i] = e.Zero(u.At(i).Type())
		}
		return t
	}
	return NilV{}
}

// --- text facts ---

// Resolve substitutes known texts for atoms.
func (st *State) Resolve(s Str) Str {
	if len(st.binds) == 0 {
		return s
	}
	out := Str{}
	for _, p := range s.P {
		if p.Atom == nil {
			out.P = append(out.P, p)
			continue
		}
		r := st.resolveAtom(p.Atom)
		for _, q := range r.P {
			if q.Pos == token.NoPos {
				q.Pos = p.Pos
			}
			out.P = append(out.P, q)
		}
	}
	return out
}

func (st *State) resolveAtom(a *Atom) Str {
	if s, ok := st.binds[a.Key]; ok {
		return st.Resolve(s)
	}
	if a.Arg != nil {
		in := st.resolveAtom(a.Arg)
		if in.Key() != AtomStr(a.Arg).Key() {
			return applyText(a.Fn, in)
		}
	}
	return AtomStr(a)
}

func applyText(fn string, s Str) Str {
	if l, ok := s.Literal(); ok {
		switch fn {
		case "lower":
			return Lit(strings.ToLower(l))
		case "upper":
			return Lit(strings.ToUpper(l))
		case "camel":
			return Lit(SnakeToCamel(l))
		case "camellower":
			return Lit(snakeToCamel(l, false))
		case "title":
			return Lit(strings.Title(l)) //nolint
		case "first":
			if l == "" {
				return Lit("")
			}
			return Lit(l[:1])
		case "rest":
			if l == "" {
				return Lit("")
			}
			return Lit(l[1:])
		}
	}
	n := s.Norm()
	if len(n.P) == 1 && n.P[0].Atom != nil {
		a := n.P[0].Atom
		if fn == a.Fn && (fn == "lower" || fn == "upper") {
			return s
		}
		return AtomStr(derived(fn, a))
	}
	if fn == "lower" || fn == "upper" {
		out := Str{}
		for _, p := range n.P {
			if p.Atom != nil {
				out = out.Concat(applyText(fn, AtomStr(p.Atom)))
			} else {
				out = out.Concat(applyText(fn, Lit(p.Lit)))
			}
		}
		return out
	}
	return AtomStr(&Atom{Key: fn + "(" + s.Key() + ")", Fn: fn})
}

// EqStr compares texts: a bool or a condition.
func (st *State) EqStr(a, b Str) Val {
	a, b = st.Resolve(a).Norm(), st.Resolve(b).Norm()
	if a.Key() == b.Key() {
		return true
	}
	la, oka := a.Literal()
	lb, okb := b.Literal()
	if oka && okb {
		return la == lb
	}
	if (oka && la == "") || (okb && lb == "") {
		return false
	}
	// strip common ends
	pa, pb := append([]Piece(nil), a.P...), append([]Piece(nil), b.P...)
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[0], pb[0]
		if x.Atom != nil && y.Atom != nil && x.Atom.Key == y.Atom.Key {
			pa, pb = pa[1:], pb[1:]
			continue
		}
		if x.Atom == nil && y.Atom == nil {
			n := 0
			for n < len(x.Lit) && n < len(y.Lit) && x.Lit[n] == y.Lit[n] {
				n++
			}
			if n < len(x.Lit) && n < len(y.Lit) {
				return false
			}
			if n == 0 {
				break
			}
			pa[0].Lit, pb[0].Lit = x.Lit[n:], y.Lit[n:]
			if pa[0].Lit == "" {
				pa = pa[1:]
			}
			if pb[0].Lit == "" {
				pb = pb[1:]
			}
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x.Atom != nil && y.Atom != nil && x.Atom.Key == y.Atom.Key {
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			continue
		}
		if x.Atom == nil && y.Atom == nil {
			n := 0
			for n < len(x.Lit) && n < len(y.Lit) && x.Lit[len(x.Lit)-1-n] == y.Lit[len(y.Lit)-1-n] {
				n++
			}
			if n < len(x.Lit) && n < len(y.Lit) {
				return false
			}
			if n == 0 {
				break
			}
			pa[len(pa)-1].Lit, pb[len(pb)-1].Lit = x.Lit[:len(x.Lit)-n], y.Lit[:len(y.Lit)-n]
			if pa[len(pa)-1].Lit == "" {
				pa = pa[:len(pa)-1]
			}
			if pb[len(pb)-1].Lit == "" {
				pb = pb[:len(pb)-1]
			}
			continue
		}
		break
	}
	if len(pa) == 0 || len(pb) == 0 {
		return len(pa) == len(pb)
	}
	ra, rb := Str{pa}, Str{pb}
	if len(pa) == 1 && len(pb) == 1 && pa[0].Atom != nil && pb[0].Atom != nil {
		x, y := pa[0].Atom, pb[0].Atom
		if x.Num != nil && y.Num != nil && x.Fn == y.Fn {
			return st.eqLin(*x.Num, *y.Num)
		}
		if x.Unique && y.Unique && x.Fn == y.Fn {
			return false
		}
	}
	ka, kb := ra.Key(), rb.Key()
	if kb < ka {
		ka, kb = kb, ka
		ra, rb = rb, ra
	}
	for _, n := range st.neqs {
		if n.a == ka && n.b == kb {
			return false
		}
		if len(st.binds) == 0 {
			continue
		}
		x, y := st.Resolve(n.x).Key(), st.Resolve(n.y).Key()
		if (x == ka && y == kb) || (x == kb && y == ka) {
			return false
		}
	}
	return &Cond{Op: "streq", A: ra, B: rb}
}

func (st *State) eqLin(a, b dom.Lin) Val {
	d := a.Sub(b)
	if d.IsConst() {
		return d.C.Sign() == 0
	}
	return &Cond{Op: "eq", L: d}
}

// EqVal compares two values of comparable type: a bool, a condition, or nil if
// the comparison is outside the domain.
func (st *State) EqVal(a, b Val) Val {
	switch x := a.(type) {
	case bool:
		switch y := b.(type) {
		case bool:
			return x == y
		case *Cond:
			if x {
				return y
			}
			return notV(y)
		}
	case *Cond:
		if y, ok := b.(bool); ok {
			if y {
				return x
			}
			return notV(x)
		}
	case Int:
		if y, ok := b.(Int); ok {
			return st.eqLin(x.L, y.L)
		}
	case Str:
		if y, ok := b.(Str); ok {
			return st.EqStr(x, y)
		}
	case NilV:
		switch y := b.(type) {
		case NilV:
			return true
		case View:
			return &Cond{Op: "sym", Name: "nil:" + y.Base.Name}
		case Float:
			return nil
		}
		return false
	case Iface:
		switch y := b.(type) {
		case NilV:
			return false
		case Iface:
			if !types.Identical(x.T, y.T) {
				return false
			}
			return st.EqVal(x.V, y.V)
		}
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return x.Obj == y.Obj && pathEq(x.Path, y.Path)
		case NilV:
			return false
		}
	case Opaque:
		if y, ok := b.(Opaque); ok {
			if x.Name == y.Name {
				return true
			}
			return &Cond{Op: "sym", Name: "same:" + x.Name + ":" + y.Name}
		}
		return false
	case View:
		if IsNil(b) {
			return &Cond{Op: "sym", Name: "nil:" + x.Base.Name}
		}
	case Slice, SumSlice, MapRef, Func, Text:
		if IsNil(b) {
			return false
		}
		if m, ok := a.(MapRef); ok {
			if n, ok := b.(MapRef); ok {
				return m.Obj == n.Obj
			}
		}
	case *StructV:
		if y, ok := b.(*StructV); ok {
			return st.eqAll(x.F, y.F)
		}
	case *ArrayV:
		if y, ok := b.(*ArrayV); ok {
			return st.eqAll(x.E, y.E)
		}
	}
	return nil
}

func (st *State) eqAll(a, b []Val) Val {
	if len(a) != len(b) {
		return false
	}
	var cond Val = true
	for i := range a {
		c := st.EqVal(a[i], b[i])
		if c == nil {
			return nil
		}
		if c == false {
			return false
		}
		if c != true {
			if cond != true {
				return nil // conjunctions of conditions are not represented
			}
			cond = c
		}
	}
	return cond
}

func notV(v Val) Val {
	switch x := v.(type) {
	case bool:
		return !x
	case *Cond:
		n := *x
		n.Neg = !n.Neg
		return &n
	}
	return v
}

// Decide splits the state on a boolean value.
func (st *State) Decide(v Val) (yes, no []*State) {
	switch c := v.(type) {
	case bool:
		if c {
			return []*State{st}, nil
		}
		return nil, []*State{st}
	case *Cond:
		if c.Neg {
			d := *c
			d.Neg = false
			n, y := st.Decide(&d)
			return y, n
		}
		return st.decide(c)
	}
	panic(badAccess(fmt.Sprintf("branch on %T", v)))
}

func (st *State) with(s *dom.Store) *State {
	n := st.Clone()
	n.Store = s
	return n
}

func (st *State) decide(c *Cond) (yes, no []*State) {
	switch c.Op {
	case "ge":
		if s := st.Store.GE(c.L); s != nil {
			if s == st.Store && !st.Store.Feasible(c.L.Neg().AddC(-1)) {
				return []*State{st}, nil
			}
			yes = append(yes, st.with(s))
		}
		if s := st.Store.GE(c.L.Neg().AddC(-1)); s != nil {
			if len(yes) == 0 {
				st.Store = s
				return nil, []*State{st}
			}
			no = append(no, st.with(s))
		}
		return
	case "eq":
		if s := st.Store.EQ(c.L); s != nil {
			yes = append(yes, st.with(s))
		}
		if s := st.Store.GE(c.L.AddC(-1)); s != nil {
			no = append(no, st.with(s))
		}
		if s := st.Store.GE(c.L.Neg().AddC(-1)); s != nil {
			no = append(no, st.with(s))
		}
		return
	case "streq":
		r := st.EqStr(c.A, c.B)
		if b, ok := r.(bool); ok {
			if b {
				return []*State{st}, nil
			}
			return nil, []*State{st}
		}
		d, ok := r.(*Cond)
		if !ok || d.Op != "streq" {
			return st.Decide(r)
		}
		y := st.Clone()
		a, b := d.A.Norm(), d.B.Norm()
		switch {
		case len(a.P) == 1 && a.P[0].Atom != nil:
			y.bind(a.P[0].Atom, b)
		case len(b.P) == 1 && b.P[0].Atom != nil:
			y.bind(b.P[0].Atom, a)
		default:
			y.bools["streq:"+a.Key()+":"+b.Key()] = true
		}
		n := st.Clone()
		n.neqs = append(n.neqs[:len(n.neqs):len(n.neqs)], strNeq{a.Key(), b.Key(), a, b})
		for _, q := range y.neqs {
			if y.Resolve(q.x).Norm().Key() == y.Resolve(q.y).Norm().Key() {
				return nil, []*State{n}
			}
		}
		return []*State{y}, []*State{n}
	case "sym":
		if b, ok := st.bools[c.Name]; ok {
			if b {
				return []*State{st}, nil
			}
			return nil, []*State{st}
		}
		y, n := st.Clone(), st.Clone()
		y.bools[c.Name] = true
		n.bools[c.Name] = false
		return []*State{y}, []*State{n}
	}
	panic(badAccess("unknown condition " + c.Op))
}

func (st *State) bind(a *Atom, s Str) {
	// prefer binding the base name when the derived text determines nothing
	st.binds[a.Key] = s
}

// Bool returns the recorded value of an opaque boolean.
func (st *State) Bool(name string) (val, known bool) {
	val, known = st.bools[name]
	return
}

// SetBool records the value of an opaque boolean.
func (st *State) SetBool(name string, v bool) { st.bools[name] = v }

// Assume returns the states in which v holds.
func (st *State) Assume(v Val) []*State {
	y, _ := st.Decide(v)
	return y
}

// Facts describes the path condition.
func (st *State) Facts() string {
	var out []string
	for _, c := range st.Store.Cons() {
		out = append(out, st.E.Tab.Format(c)+" >= 0")
	}
	for k, v := range st.binds {
		out = append(out, k+" = "+v.String())
	}
	for _, n := range st.neqs {
		out = append(out, Str{}.fmtKey(n.a)+" != "+Str{}.fmtKey(n.b))
	}
	for k, v := range st.bools {
		out = append(out, fmt.Sprintf("%s = %v", k, v))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func (Str) fmtKey(k string) string {
	return strings.NewReplacer("\x01", "‹", "\x02", "›").Replace(k)
}

// Binds exposes text equalities.
func (st *State) Binds() map[string]Str { return st.binds }

// Bools exposes the opaque facts.
func (st *State) Bools() map[string]bool { return st.bools }

// Neqs exposes text inequalities as pairs of canonical texts.
func (st *State) Neqs() [][2]string {
	var out [][2]string
	for _, n := range st.neqs {
		out = append(out, [2]string{n.a, n.b})
	}
	return out
}

// Detached returns a copy of the state without activations.
func (st *State) Detached() *State {
	n := st.Clone()
	n.frames, n.tags, n.pan = nil, nil, nil
	return n
}

// Regs lists the register contents of all activations.
func (st *State) Regs() []Val {
	var out []Val
	for _, f := range st.frames {
		keep := make([]bool, len(f.regs))
		for v := range st.E.liveAfter(f) {
			if k, ok := f.nums[v]; ok {
				keep[k] = true
			}
		}
		for k, v := range f.regs {
			if keep[k] {
				out = append(out, v)
			}
		}
	}
	return out
}

// SetMap replaces the contents of a map.
func (st *State) SetMap(m MapRef, k, v []Val) { st.over[m.Obj] = &MapV{K: k, V: v} }

// NewMap allocates a map.
func (st *State) NewMap(k, v []Val) MapRef { return MapRef{st.Alloc(&MapV{K: k, V: v})} }

// WithStore is the state with other numeric facts.
func (st *State) WithStore(s *dom.Store) *State { return st.with(s) }

// Changed lists the objects of an earlier state, and of the initial one, that
// hold something else now.
func (st *State) Changed(before *State) (out []ObjID) {
	for id, v := range st.over {
		old, ok := before.over[id]
		if !ok {
			old, ok = st.E.base[id]
		}
		if ok && !sameVal(old, v) {
			out = append(out, id)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case *StructV:
		y, ok := b.(*StructV)
		if x == y && ok {
			return true
		}
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameVal(x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case *ArrayV:
		y, ok := b.(*ArrayV)
		if x == y && ok {
			return true
		}
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !sameVal(x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	}
	return reflect.DeepEqual(a, b)
}
