package ai

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verif/tool/dom"
)

// Outcome is the end of one trace.
type Outcome struct {
	Kind  string // return, panic, undecided, trunc, exit, diverge
	St    *State
	Ret   []Val
	Msg   string
	Pos   token.Pos
	Stack []string
}

var traceExec = os.Getenv("AI_TRACE") != ""

// Call analyses a call of fn.
func (e *Engine) Call(st *State, fn *ssa.Function, args ...Val) []Outcome {
	return e.CallFunc(st, Func{Fn: fn}, args)
}

// CallFunc analyses a call of a function value.
func (e *Engine) CallFunc(st *State, fn Func, args []Val) []Outcome {
	if len(st.frames) != 0 {
		panic("Call on a running state")
	}
	st.steps = 0
	sts, outs := e.enter(st, fn, args, token.NoPos, 0, nil)
	return e.run(sts, outs)
}

func (e *Engine) run(work []*State, outs []Outcome) []Outcome {
	total := 0
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		if st.stale() {
			continue
		}
		for st != nil {
			if len(outs) > e.MaxStates || total > 40_000_000 {
				outs = append(outs, Outcome{Kind: "undecided", St: st, Msg: "too many traces"})
				return outs
			}
			st.steps++
			total++
			e.Steps++
			if st.steps > e.MaxSteps {
				outs = append(outs, e.outcome(st, "diverge", "no end of execution within the step bound (non-termination)"))
				break
			}
			succ, o := e.safeStep(st)
			outs = append(outs, o...)
			if len(succ) == 0 {
				break
			}
			st = succ[0]
			work = append(work, succ[1:]...)
		}
	}
	var fresh []Outcome
	for _, o := range outs {
		if o.St.stale() {
			continue
		}
		e.States++
		o.St.frames, o.St.tags = nil, nil
		fresh = append(fresh, o)
	}
	return fresh
}

func (e *Engine) outcome(st *State, kind, msg string) Outcome {
	o := Outcome{Kind: kind, St: st, Msg: msg}
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		pos := token.NoPos
		if f.pc < len(f.block.Instrs) {
			pos = f.block.Instrs[f.pc].Pos()
		}
		for j := f.pc; pos == token.NoPos && j >= 0 && j < len(f.block.Instrs); j-- {
			pos = f.block.Instrs[j].Pos()
		}
		if pos == token.NoPos {
			pos = f.fn.Pos()
		}
		if o.Pos == token.NoPos {
			o.Pos = pos
		}
		o.Stack = append(o.Stack, fmt.Sprintf("%s (%s)", f.fn.String(), e.Prog.Fset.Position(pos)))
	}
	return o
}

func (e *Engine) safeStep(st *State) (succ []*State, outs []Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("AI_PANIC") != "" {
				panic(r)
			}
			succ = nil
			outs = []Outcome{e.outcome(st, "undecided", fmt.Sprintf("outside the domain: %v", r))}
		}
	}()
	return e.step(st)
}

func (e *Engine) nums(fn *ssa.Function) map[ssa.Value]int {
	if m, ok := e.numbers[fn]; ok {
		return m
	}
	m := map[ssa.Value]int{}
	for _, p := range fn.Params {
		m[p] = len(m)
	}
	for _, p := range fn.FreeVars {
		m[p] = len(m)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				m[v] = len(m)
			}
		}
	}
	e.numbers[fn] = m
	return m
}

// FullName is the name intrinsics are registered under.
func FullName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// enter begins a call.
func (e *Engine) enter(st *State, fn Func, args []Val, pos token.Pos, mode int, instr ssa.Instruction) ([]*State, []Outcome) {
	if fn.Builtin != "" {
		return e.finishIntrinsic(e.builtin(st, st.frames[len(st.frames)-1], fn.Builtin, args, nil, nil), pos, mode, instr)
	}
	if fn.Fn == nil {
		return e.startPanic(st, "call of nil function", nil, pos)
	}
	name := FullName(fn.Fn)
	if in, ok := e.Intr[name]; ok {
		at := pos
		if strings.HasPrefix(name, "fmt.") {
			at = printSite(st, pos)
		}
		rs := in(st, &CallCtx{E: e, Fn: fn.Fn, Pos: at, Sig: fn.Fn.Signature}, args)
		if len(rs) != 1 || !rs[0].Inline {
			return e.finishIntrinsic(rs, pos, mode, instr)
		}
	}
	if r, ok := e.Redirect[name]; ok {
		fn = Func{Fn: r}
	}
	if fn.Fn.Synthetic == "package initializer" {
		p := fn.Fn.Pkg
		if e.inited[p] || !strings.Contains(p.Pkg.Path(), ".") {
			return e.deliver(st, nil, mode, instr)
		}
		e.inited[p] = true
	}
	if len(fn.Fn.Blocks) == 0 {
		if in := e.genericIntrinsic(name, fn.Fn); in != nil {
			return e.finishIntrinsic(in(st, &CallCtx{E: e, Fn: fn.Fn, Pos: pos, Sig: fn.Fn.Signature}, args), pos, mode, instr)
		}
		return nil, []Outcome{e.outcome(st, "undecided", "no model for "+name)}
	}
	if len(st.frames) > 250 {
		return nil, []Outcome{e.outcome(st, "panic", "unbounded recursion (stack overflow) in "+name)}
	}
	e.Funcs[fn.Fn] = true
	m := e.nums(fn.Fn)
	f := &Frame{fn: fn.Fn, block: fn.Fn.Blocks[0], regs: make([]Val, len(m)), nums: m, mode: mode, callInstr: instr, forks: map[*ssa.BasicBlock]loopCount{}}
	for i, p := range fn.Fn.Params {
		if i < len(args) {
			f.regs[m[p]] = args[i]
		}
	}
	for i, p := range fn.Fn.FreeVars {
		f.regs[m[p]] = fn.Free[i]
	}
	st.frames = append(st.frames, f)
	if traceExec {
		fmt.Fprintf(os.Stderr, "%s> %s\n", strings.Repeat(" ", len(st.frames)), name)
	}
	return []*State{st}, nil
}

// printSite skips forwarding print functions: the position of interest is that
// of their caller.
func printSite(st *State, pos token.Pos) token.Pos {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i]
		if !f.fn.Signature.Variadic() || f.callInstr == nil {
			break
		}
		pos = f.callInstr.Pos()
	}
	return pos
}

func (e *Engine) finishIntrinsic(rs []Res, pos token.Pos, mode int, instr ssa.Instruction) (sts []*State, outs []Outcome) {
	for _, r := range rs {
		switch {
		case r.Stop != "":
			outs = append(outs, e.outcome(r.St, "undecided", r.Stop))
		case r.Trunc:
			outs = append(outs, e.outcome(r.St, "trunc", "bound reached"))
		case r.Exit:
			outs = append(outs, e.outcome(r.St, "exit", "process exit"))
		case r.Panic != "" || r.PanicV != nil:
			s, o := e.startPanic(r.St, r.Panic, r.PanicV, pos)
			sts, outs = append(sts, s...), append(outs, o...)
		case r.Call != nil:
			s, o := e.enter(r.St, *r.Call, r.Args, pos, mode, instr)
			sts, outs = append(sts, s...), append(outs, o...)
		default:
			s, o := e.deliver(r.St, r.V, mode, instr)
			sts, outs = append(sts, s...), append(outs, o...)
		}
	}
	return
}

// deliver hands a result to the top frame.
func (e *Engine) deliver(st *State, v Val, mode int, instr ssa.Instruction) ([]*State, []Outcome) {
	if len(st.frames) == 0 {
		return nil, []Outcome{{Kind: "return", St: st, Ret: flat(v)}}
	}
	f := st.frames[len(st.frames)-1]
	if mode == 1 { // a deferred call finished
		if f.unwinding {
			return e.continueUnwind(st)
		}
		return []*State{st}, nil // RunDefers continues
	}
	if iv, ok := instr.(ssa.Value); ok {
		f.regs[f.nums[iv]] = v
	}
	f.pc++
	return []*State{st}, nil
}

func flat(v Val) []Val {
	switch t := v.(type) {
	case nil:
		return nil
	case Tuple:
		return t
	}
	return []Val{v}
}

func (e *Engine) startPanic(st *State, msg string, v Val, pos token.Pos) ([]*State, []Outcome) {
	o := e.outcome(st, "panic", msg)
	if pos == token.NoPos {
		pos = o.Pos
	}
	if v == nil {
		v = Iface{T: types.Typ[types.String], V: Lit(msg)}
		if tn := e.runtimeError(); tn != nil {
			v = Iface{T: tn, V: Opaque{"runtime error: " + msg}}
		}
	}
	st.pan = &panicInfo{v: v, msg: msg, pos: pos, stack: o.Stack}
	if len(st.frames) == 0 {
		return nil, []Outcome{{Kind: "panic", St: st, Msg: msg, Pos: pos}}
	}
	st.frames[len(st.frames)-1].unwinding = true
	return e.continueUnwind(st)
}

func (e *Engine) runtimeError() types.Type {
	if p := e.Prog.ImportedPackage("errors"); p != nil {
		if o := p.Pkg.Scope().Lookup("errorString"); o != nil {
			return types.NewPointer(o.Type())
		}
	}
	return nil
}

func (e *Engine) continueUnwind(st *State) ([]*State, []Outcome) {
	for {
		if len(st.frames) == 0 {
			return nil, []Outcome{{Kind: "panic", St: st, Msg: st.pan.msg, Pos: st.pan.pos, Stack: st.pan.stack, Ret: []Val{st.pan.v}}}
		}
		f := st.frames[len(st.frames)-1]
		f.unwinding = true
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return e.enter(st, d.fn, d.args, d.pos, 1, nil)
		}
		if st.pan == nil || st.pan.recovered {
			st.pan = nil
			f.unwinding = false
			if f.fn.Recover != nil {
				f.prev = f.block
				f.block = f.fn.Recover
				f.pc = 0
				return []*State{st}, nil
			}
			st.frames = st.frames[:len(st.frames)-1]
			return e.deliver(st, e.zeroResult(f.fn), f.mode, f.callInstr)
		}
		st.frames = st.frames[:len(st.frames)-1]
		if len(st.frames) > 0 && f.mode == 1 {
			// the panic continues in the function that deferred
			continue
		}
	}
}

func (e *Engine) zeroResult(fn *ssa.Function) Val {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return e.Zero(r.At(0).Type())
	}
	return e.Zero(r)
}

// get evaluates an operand.
func (e *Engine) get(st *State, f *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return e.constVal(v)
	case *ssa.Global:
		return st.Global(v)
	case *ssa.Function:
		return Func{Fn: v}
	case *ssa.Builtin:
		return Func{Builtin: v.Name()}
	}
	i, ok := f.nums[v]
	if !ok {
		panic(badAccess("unknown register " + v.Name()))
	}
	r := f.regs[i]
	if r == nil {
		panic(badAccess("unset register " + v.Name() + " in " + f.fn.String()))
	}
	return r
}

func (e *Engine) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		if _, ok := c.Type().Underlying().(*types.Basic); ok {
			return e.Zero(c.Type())
		}
		switch c.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return e.Zero(c.Type())
		}
		return NilV{}
	}
	t := c.Type()
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Underlying()
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return constant.BoolVal(c.Value)
	case constant.String:
		return LitPos(constant.StringVal(c.Value), token.NoPos)
	case constant.Int, constant.Float:
		b, ok := t.Underlying().(*types.Basic)
		if !ok {
			panic(badAccess("constant of type " + t.String()))
		}
		if b.Info()&types.IsInteger == 0 {
			return Float{}
		}
		x, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
		return Int{dom.ConstBig(x), b.Kind()}
	}
	return Float{}
}

type sv struct {
	st *State
	v  Val
}

func (e *Engine) step(st *State) ([]*State, []Outcome) {
	f := st.frames[len(st.frames)-1]
	in := f.block.Instrs[f.pc]
	one := func(v Val) ([]*State, []Outcome) {
		f.regs[f.nums[in.(ssa.Value)]] = v
		f.pc++
		return []*State{st}, nil
	}
	next := func() ([]*State, []Outcome) { f.pc++; return []*State{st}, nil }
	many := func(rs []Res) ([]*State, []Outcome) { return e.finishIntrinsic(rs, in.Pos(), 0, in) }
	switch in := in.(type) {
	case *ssa.DebugRef:
		return next()
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		p := st.New(e.Zero(et))
		e.objType[p.Obj] = et
		return one(p)
	case *ssa.Phi:
		panic(badAccess("stray phi"))
	case *ssa.UnOp:
		return many(e.unop(st, in, e.get(st, f, in.X)))
	case *ssa.BinOp:
		return many(e.BinOp(st, in.Op, e.get(st, f, in.X), e.get(st, f, in.Y)))
	case *ssa.Call:
		return e.call(st, f, in, &in.Call)
	case *ssa.ChangeInterface:
		return one(e.get(st, f, in.X))
	case *ssa.ChangeType:
		return one(e.get(st, f, in.X))
	case *ssa.MultiConvert:
		return many(e.convert(st, e.get(st, f, in.X), in.X.Type(), in.Type()))
	case *ssa.Convert:
		return many(e.convert(st, e.get(st, f, in.X), in.X.Type(), in.Type()))
	case *ssa.MakeInterface:
		return one(Iface{T: in.X.Type(), V: e.get(st, f, in.X)})
	case *ssa.Extract:
		t, ok := e.get(st, f, in.Tuple).(Tuple)
		if !ok {
			panic(badAccess("extract from non-tuple"))
		}
		return one(t[in.Index])
	case *ssa.Slice:
		opt := func(v ssa.Value) Val {
			if v == nil {
				return nil
			}
			return e.get(st, f, v)
		}
		return many(e.slice(st, e.get(st, f, in.X), opt(in.Low), opt(in.High), opt(in.Max), in.X.Type()))
	case *ssa.SliceToArrayPointer:
		panic(badAccess("slice to array pointer"))
	case *ssa.Return:
		var v Val
		switch len(in.Results) {
		case 0:
		case 1:
			v = e.get(st, f, in.Results[0])
		default:
			t := make(Tuple, len(in.Results))
			for i, r := range in.Results {
				t[i] = e.get(st, f, r)
			}
			v = t
		}
		if e.OnReturn != nil {
			e.OnReturn(st, f.fn, v)
		}
		st.frames = st.frames[:len(st.frames)-1]
		return e.deliver(st, v, f.mode, f.callInstr)
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			return e.enter(st, d.fn, d.args, d.pos, 1, nil)
		}
		return next()
	case *ssa.Panic:
		v := e.get(st, f, in.X)
		return e.startPanic(st, "explicit panic: "+st.Show(v), v, in.Pos())
	case *ssa.Jump:
		return e.jumpL(st, f, f.block.Succs[0])
	case *ssa.If:
		return e.branch(st, f, e.get(st, f, in.Cond))
	case *ssa.Store:
		return e.store(st, f, in.Addr, e.get(st, f, in.Addr), e.get(st, f, in.Val), in.Pos())
	case *ssa.Defer:
		fn, args, rs := e.callee(st, f, &in.Call)
		if rs != nil {
			return many(rs)
		}
		switch fn.Builtin {
		case "", "delete", "recover", "panic":
		default:
			panic(badAccess("deferred builtin"))
		}
		f.defers = append(f.defers, deferred{fn, args, in.Pos()})
		return next()
	case *ssa.MakeClosure:
		fn := Func{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			fn.Free = append(fn.Free, e.get(st, f, b))
		}
		return one(fn)
	case *ssa.MakeMap:
		return one(MapRef{st.Alloc(&MapV{})})
	case *ssa.MakeSlice:
		return many(e.makeSlice(st, in.Type(), e.get(st, f, in.Len), e.get(st, f, in.Cap)))
	case *ssa.FieldAddr:
		switch p := e.get(st, f, in.X).(type) {
		case Ptr:
			if p.Obj == 0 {
				return e.startPanic(st, "nil pointer dereference", nil, in.Pos())
			}
			return one(Ptr{p.Obj, sub(p.Path, in.Field)})
		case NilV:
			return e.startPanic(st, "nil pointer dereference", nil, in.Pos())
		default:
			panic(badAccess(fmt.Sprintf("field of %T", p)))
		}
	case *ssa.Field:
		s, ok := e.get(st, f, in.X).(*StructV)
		if !ok {
			panic(badAccess("field of non-struct"))
		}
		return one(s.F[in.Field])
	case *ssa.IndexAddr:
		return many(e.indexAddr(st, e.get(st, f, in.X), e.get(st, f, in.Index)))
	case *ssa.Index:
		return many(e.index(st, e.get(st, f, in.X), e.get(st, f, in.Index)))
	case *ssa.Lookup:
		x := e.get(st, f, in.X)
		if _, ok := x.(Str); ok {
			return many(e.index(st, x, e.get(st, f, in.Index)))
		}
		elem := in.X.Type().Underlying().(*types.Map).Elem()
		return many(e.lookup(st, x, e.get(st, f, in.Index), elem, in.CommaOk))
	case *ssa.MapUpdate:
		m, ok := e.get(st, f, in.Map).(MapRef)
		if !ok {
			return e.startPanic(st, "assignment to entry in nil map", nil, in.Pos())
		}
		return many(e.mapUpdate(st, m, e.get(st, f, in.Key), e.get(st, f, in.Value)))
	case *ssa.Range:
		e.Ranges[in] = true
		return one(e.newIter(st, e.get(st, f, in.X)))
	case *ssa.Next:
		it := *(e.get(st, f, in.Iter).(*iter))
		r := e.iterNext(st, &it, in)
		f.regs[f.nums[in.Iter]] = &it
		return one(r)
	case *ssa.TypeAssert:
		return e.typeAssert(st, f, in)
	case *ssa.Go, *ssa.Select, *ssa.Send, *ssa.MakeChan:
		return nil, []Outcome{e.outcome(st, "undecided", "concurrency is outside the domain")}
	}
	panic(badAccess(fmt.Sprintf("instruction %T", in)))
}

func (e *Engine) jump(st *State, f *Frame, to *ssa.BasicBlock) []*State {
	from := f.block
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
			break
		}
	}
	var vals []Val
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, e.get(st, f, ph.Edges[idx]))
	}
	for i, ph := range phis {
		f.regs[f.nums[ph]] = vals[i]
	}
	f.prev, f.block, f.pc = from, to, len(phis)
	return []*State{st}
}

func (e *Engine) branch(st *State, f *Frame, c Val) ([]*State, []Outcome) {
	b := f.block
	if v, ok := c.(bool); ok {
		if v {
			return e.jumpL(st, f, b.Succs[0])
		}
		return e.jumpL(st, f, b.Succs[1])
	}
	yes, no := st.Decide(c)
	if len(yes) > 0 && len(no) > 0 {
		// an undetermined decision to leave or repeat a loop
		if h, stay := exitOf(f.fn, b); h != nil {
			g, has := dom.Lin{}, false
			if k, ok := c.(*Cond); ok && k.Op == "ge" {
				g, has = k.L, true
				if k.Neg != (stay == 1) {
					g = g.Neg().AddC(-1)
				}
			} else if ok && k.Op == "eq" && k.Neg == (stay == 0) {
				// staying while the value differs from its bound
				if st.Store.Entails(k.L) {
					g, has = k.L.AddC(-1), true
				} else if st.Store.Entails(k.L.Neg()) {
					g, has = k.L.Neg().AddC(-1), true
				}
			}
			for _, s := range append(append([]*State(nil), yes...), no...) {
				sf := s.frames[len(s.frames)-1]
				lc := sf.forks[h]
				if b != h && headExits(f.fn, h) && lc.inner < 48 {
					lc.inner++
				} else {
					lc.n++
				}
				sf.forks[h] = lc
				if has && h == b {
					m := map[*ssa.BasicBlock]dom.Lin{}
					for k, v := range sf.guard {
						m[k] = v
					}
					m[h] = g
					sf.guard = m
				}
			}
		}
	}
	var out []*State
	var outs []Outcome
	for _, s := range yes {
		a, o := e.jumpL(s, s.frames[len(s.frames)-1], b.Succs[0])
		out, outs = append(out, a...), append(outs, o...)
	}
	for _, s := range no {
		a, o := e.jumpL(s, s.frames[len(s.frames)-1], b.Succs[1])
		out, outs = append(out, a...), append(outs, o...)
	}
	return out, outs
}

// headExits reports whether the loop's head decides on leaving it.
func headExits(fn *ssa.Function, h *ssa.BasicBlock) bool {
	if _, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If); !ok {
		return false
	}
	x, _ := exitOf(fn, h)
	return x == h
}

// jumpL follows an edge, applying widening at loop heads.
func (e *Engine) jumpL(st *State, f *Frame, to *ssa.BasicBlock) ([]*State, []Outcome) {
	from := f.block
	out := e.jump(st, f, to)
	if body, ok := loops(f.fn).headers[to]; ok {
		if !body[from] {
			delete(f.forks, to)
			if f.heads[to] != nil {
				st.setHead(to, nil)
			}
			return out, nil
		}
		s, o := e.loopHead(st, to)
		if o != nil {
			return nil, []Outcome{*o}
		}
		if s == nil {
			e.Covered++
			return nil, nil
		}
		return []*State{s}, nil
	}
	return out, nil
}

// store writes memory.
func (e *Engine) store(st *State, f *Frame, addr ssa.Value, p, v Val, pos token.Pos) ([]*State, []Outcome) {
	switch p := p.(type) {
	case Ptr:
		if st.Data["watch"] != nil {
			st.Emit("store", pos, p, v)
		}
		st.StoreTo(p, v)
		f.pc++
		return []*State{st}, nil
	case NilV:
		return e.startPanic(st, "nil pointer dereference", nil, pos)
	case viewPtr:
		return nil, []Outcome{e.outcome(st, "undecided", "write to the input buffer")}
	}
	panic(badAccess(fmt.Sprintf("store to %T", p)))
}

type viewPtr struct {
	v   View
	idx dom.Lin
}

type textPtr struct {
	s   Str
	idx int
}

func (e *Engine) callee(st *State, f *Frame, c *ssa.CallCommon) (Func, []Val, []Res) {
	var args []Val
	if c.IsInvoke() {
		recv := e.get(st, f, c.Value)
		i, ok := recv.(Iface)
		if !ok {
			if IsNil(recv) {
				return Func{}, nil, []Res{{St: st, Panic: "method call on nil interface"}}
			}
			panic(badAccess(fmt.Sprintf("invoke on %T", recv)))
		}
		fn := e.Prog.LookupMethod(i.T, c.Method.Pkg(), c.Method.Name())
		if fn == nil {
			panic(badAccess(fmt.Sprintf("no method %s on %s", c.Method.Name(), i.T)))
		}
		args = append(args, i.V)
		for _, a := range c.Args {
			args = append(args, e.get(st, f, a))
		}
		return Func{Fn: fn}, args, nil
	}
	for _, a := range c.Args {
		args = append(args, e.get(st, f, a))
	}
	switch fn := e.get(st, f, c.Value).(type) {
	case Func:
		return fn, args, nil
	case NilV:
		return Func{}, nil, []Res{{St: st, Panic: "call of nil function"}}
	default:
		panic(badAccess(fmt.Sprintf("call of %T", fn)))
	}
}

func (e *Engine) call(st *State, f *Frame, in *ssa.Call, c *ssa.CallCommon) ([]*State, []Outcome) {
	e.CallSites[in] = true
	fn, args, rs := e.callee(st, f, c)
	if rs != nil {
		return e.finishIntrinsic(rs, in.Pos(), 0, in)
	}
	if fn.Builtin != "" {
		return e.finishIntrinsic(e.builtin(st, f, fn.Builtin, args, c, in), in.Pos(), 0, in)
	}
	return e.enter(st, fn, args, in.Pos(), 0, in)
}

func (e *Engine) typeAssert(st *State, f *Frame, in *ssa.TypeAssert) ([]*State, []Outcome) {
	x := e.get(st, f, in.X)
	ok := false
	var v Val = NilV{}
	if i, isI := x.(Iface); isI {
		if _, toI := in.AssertedType.Underlying().(*types.Interface); toI {
			if types.AssignableTo(i.T, in.AssertedType) {
				ok, v = true, x
			}
		} else if types.Identical(i.T, in.AssertedType) {
			ok, v = true, i.V
		}
	} else if !IsNil(x) {
		panic(badAccess(fmt.Sprintf("type assertion on %T", x)))
	}
	if in.CommaOk {
		if !ok {
			v = e.Zero(in.AssertedType)
		}
		f.regs[f.nums[in]] = Tuple{v, ok}
		f.pc++
		return []*State{st}, nil
	}
	if !ok {
		return e.startPanic(st, "failed type assertion to "+in.AssertedType.String()+" of "+st.Show(x), nil, in.Pos())
	}
	f.regs[f.nums[in]] = v
	f.pc++
	return []*State{st}, nil
}

// --- loops ---

type loopInfo struct {
	headers map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
}

var loopCache sync.Map

func loops(fn *ssa.Function) *loopInfo {
	if l, ok := loopCache.Load(fn); ok {
		return l.(*loopInfo)
	}
	l := &loopInfo{headers: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := l.headers[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					l.headers[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[x] {
						continue
					}
					body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	loopCache.Store(fn, l)
	return l
}

// exitOf returns the head of the innermost loop that a branch at b may leave,
// and which successor stays inside.
func exitOf(fn *ssa.Function, b *ssa.BasicBlock) (*ssa.BasicBlock, int) {
	var best *ssa.BasicBlock
	stay := 0
	size := 0
	for h, body := range loops(fn).headers {
		if !body[b] || body[b.Succs[0]] == body[b.Succs[1]] {
			continue
		}
		if best == nil || len(body) < size {
			best, size = h, len(body)
			stay = 0
			if body[b.Succs[1]] {
				stay = 1
			}
		}
	}
	return best, stay
}
