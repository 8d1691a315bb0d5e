package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/tool/ai"
	"verif/tool/dom"
	"verif/tool/peg"
)

// The parsing engine is verified one grammar node at a time. Calls of
// parseExpr on sub-expressions are replaced by their contract (any result, any
// consumption, arbitrary changes to the label frame and the state store on
// success; nothing but garbage labels in the current frame on failure), and
// every outcome of parseExpr on the node itself must satisfy the same contract
// and the meaning of the node's kind in a parsing expression grammar.

const runeError = 0xFFFD

type pegCall struct {
	kid          ai.ObjID
	action       *ssa.Function
	pt           []ai.Val
	store        string
	depth        int
	top          ai.ObjID
	topEmpty     bool
	dead         bool
	text         ai.Val
	ok           bool
	val          ai.Val
	err          bool
	ptAfter      []ai.Val
	storeAfter   string
	live         string
	framesBefore []string
}

type pegVerifier struct {
	t        *pegTable
	e        *ai.Engine
	parseFn  *ssa.Function
	p        ai.Ptr
	base     *ai.State
	ps       *types.Struct
	curT     *types.Struct
	data     ai.View
	inline   bool
	mode     int // how the contract of a sub-expression is realised
	limit    int
	lazy     bool // only the first match of a sequence may consume nothing
	seq      int
	contents map[string]ai.View
	runs     map[string]bool
}

func lin(v ai.Val) dom.Lin { return v.(ai.Int).L }

// mustField returns the path of a possibly nested field.
func mustField(s *types.Struct, name string) int {
	i := fieldIndex(s, name)
	if i < 0 {
		panic(missing("field " + name + " of the parser"))
	}
	return i
}

type missing string

func newVerifier(t *pegTable) (v *pegVerifier, err error) {
	defer func() {
		if r := recover(); r != nil {
			if m, ok := r.(missing); ok {
				err = fmt.Errorf("%s not found", string(m))
				return
			}
			panic(r)
		}
	}()
	v = &pegVerifier{t: t, e: t.e, limit: 4, runs: map[string]bool{}}
	pn := t.named("parser")
	cn := t.named("current")
	if pn == nil || cn == nil {
		return nil, fmt.Errorf("type parser or current not found")
	}
	v.ps, v.curT = pn.Underlying().(*types.Struct), cn.Underlying().(*types.Struct)
	v.parseFn = findParseExpr(t, pn)
	if v.parseFn == nil {
		return nil, fmt.Errorf("method parseExpr not found")
	}
	for _, f := range []string{"pt", "cur", "vstack", "rstack", "errs", "data"} {
		mustField(v.ps, f)
	}
	v.e.Intr["unicode/utf8.DecodeRune"] = v.decodeRune
	v.e.Intr["(*sync.Pool).Get"] = v.poolGet
	v.e.Intr["(*sync.Pool).Put"] = v.poolPut
	v.e.Intr[ai.FullName(v.parseFn)] = v.oracle
	for _, n := range t.order {
		if n.run != nil {
			fn := runTarget(t.p.SSA, n.run)
			v.e.Intr[ai.FullName(fn)] = v.runAction
			v.runs[ai.FullName(fn)] = true
		}
	}
	v.data = inputView(v.e, "src")
	v.entryModels()
	return v, nil
}

// runTarget finds the method behind a method expression.
func runTarget(prog *ssa.Program, fn *ssa.Function) *ssa.Function {
	if fn.Synthetic != "" {
		if o, ok := fn.Object().(*types.Func); ok {
			if m := prog.FuncValue(o); m != nil {
				return m
			}
		}
	}
	return fn
}

// --- models ---

func (v *pegVerifier) decodeRune(st *ai.State, c *ai.CallCtx, a []ai.Val) []ai.Res {
	w, ok := a[0].(ai.View)
	if t, isText := a[0].(ai.Text); isText {
		w, ok = v.content("text:"+t.S.String()), true
	}
	if !ok {
		return []ai.Res{{St: st, Stop: "DecodeRune of something other than the input"}}
	}
	yes, no := st.Decide(&ai.Cond{Op: "eq", L: w.Len})
	var out []ai.Res
	for _, s := range yes {
		out = append(out, ai.Res{St: s, V: ai.Tuple{ai.IK(runeError, types.Int32), ai.I(0)}})
	}
	for _, s := range no {
		rn, wd := v.runeAt(w, w.Off)
		s.Store = s.Store.GE(w.Len.Sub(wd))
		if s.Store == nil {
			continue
		}
		out = append(out, ai.Res{St: s, V: ai.Tuple{ai.Int{L: rn, K: types.Int32}, ai.Int{L: wd, K: types.Int}}})
	}
	return out
}

func (v *pegVerifier) runeAt(in ai.View, off dom.Lin) (rn, w dom.Lin) {
	k := v.e.Tab.Format(off)
	if in.Base != v.data.Base {
		k = in.Base.Name + "," + k
	}
	return v.e.App("rune", "rune("+k+")", []dom.Lin{off}, big.NewInt(0), big.NewInt(peg.MaxRune)), v.e.App("width", "width("+k+")", []dom.Lin{off}, big.NewInt(1), big.NewInt(4))
}

func (v *pegVerifier) poolGet(st *ai.State, c *ai.CallCtx, a []ai.Val) []ai.Res {
	p, ok := a[0].(ai.Ptr)
	if !ok {
		return []ai.Res{{St: st, Panic: "nil pool"}}
	}
	pt := c.Sig.Recv().Type().(*types.Pointer).Elem().Underlying().(*types.Struct)
	sv := st.Load(p).(*ai.StructV)
	f, ok := sv.F[fieldIndex(pt, "New")].(ai.Func)
	if !ok {
		return []ai.Res{{St: st, V: ai.NilV{}}}
	}
	return []ai.Res{{St: st, Call: &f}}
}

func (v *pegVerifier) poolPut(st *ai.State, c *ai.CallCtx, a []ai.Val) []ai.Res {
	i, _ := a[1].(ai.Iface)
	m, ok := i.V.(ai.MapRef)
	if !ok {
		st.Emit("badput", c.Pos)
		return ai.One(st, nil)
	}
	if ks, _ := st.MapEntries(m); len(ks) > 0 {
		st.Emit("dirtyput", c.Pos)
	}
	st.Data[fmt.Sprint("dead", m.Obj)] = true
	return ai.One(st, nil)
}

// get and set fields of the parser object.
func (v *pegVerifier) get(st *ai.State, name string) ai.Val {
	return st.Load(v.p).(*ai.StructV).F[mustField(v.ps, name)]
}

func (v *pegVerifier) set(st *ai.State, name string, x ai.Val) {
	st.StoreTo(ai.Ptr{Obj: v.p.Obj, Path: append(append([]int(nil), v.p.Path...), mustField(v.ps, name))}, x)
}

func (v *pegVerifier) cur(st *ai.State, name string) ai.Val {
	return v.get(st, "cur").(*ai.StructV).F[mustField(v.curT, name)]
}

func (v *pegVerifier) setCur(st *ai.State, name string, x ai.Val) {
	st.StoreTo(ai.Ptr{Obj: v.p.Obj, Path: append(append([]int(nil), v.p.Path...), mustField(v.ps, "cur"), mustField(v.curT, name))}, x)
}

// pt returns line, col, offset, rn, w.
func (v *pegVerifier) pt(st *ai.State) []ai.Val { return flattenVal(v.get(st, "pt")) }

func flattenVal(x ai.Val) []ai.Val {
	if s, ok := x.(*ai.StructV); ok {
		var out []ai.Val
		for _, f := range s.F {
			out = append(out, flattenVal(f)...)
		}
		return out
	}
	return []ai.Val{x}
}

// ptIndex gives the position of a leaf of the save point.
func (v *pegVerifier) ptIndex(name string) int {
	n := 0
	var walk func(t types.Type) int
	walk = func(t types.Type) int {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			n++
			return -1
		}
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return n
			}
			if r := walk(s.Field(i).Type()); r >= 0 {
				return r
			}
		}
		return -1
	}
	r := walk(v.ps.Field(mustField(v.ps, "pt")).Type())
	if r < 0 {
		panic(missing("field " + name + " of the position"))
	}
	return r
}

func (v *pegVerifier) setPt(st *ai.State, leaves []ai.Val) {
	i := 0
	var build func(t types.Type) ai.Val
	build = func(t types.Type) ai.Val {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			i++
			return leaves[i-1]
		}
		sv := &ai.StructV{}
		for k := 0; k < s.NumFields(); k++ {
			sv.F = append(sv.F, build(s.Field(k).Type()))
		}
		return sv
	}
	v.set(st, "pt", build(v.ps.Field(mustField(v.ps, "pt")).Type()))
}

func (v *pegVerifier) offset(pt []ai.Val) dom.Lin { return lin(pt[v.ptIndex("offset")]) }

func (v *pegVerifier) frames(st *ai.State) ([]ai.MapRef, bool) {
	es, ok := st.Elems(v.get(st, "vstack"))
	if !ok {
		return nil, false
	}
	var out []ai.MapRef
	for _, x := range es {
		m, ok := x.(ai.MapRef)
		if !ok {
			return nil, false
		}
		out = append(out, m)
	}
	return out, true
}

func (v *pegVerifier) frameShow(st *ai.State) []string {
	fs, ok := v.frames(st)
	if !ok {
		return []string{"?"}
	}
	var out []string
	for _, f := range fs {
		out = append(out, fmt.Sprint(f.Obj, st.Show(f)))
	}
	return out
}

func (v *pegVerifier) storeShow(st *ai.State) (s string, dead bool) {
	m, ok := v.cur(st, "state").(ai.MapRef)
	if !ok {
		return "not a map", false
	}
	return st.Show(m), st.Data[fmt.Sprint("dead", m.Obj)] == true
}

func trace(st *ai.State) []pegCall {
	t, _ := st.Data["trace"].([]pegCall)
	return t
}

func (v *pegVerifier) record(st *ai.State, c pegCall) {
	t := trace(st)
	st.Data["trace"] = append(t[:len(t):len(t)], c)
}

func (v *pegVerifier) snapshot(st *ai.State) pegCall {
	c := pegCall{pt: v.pt(st)}
	c.store, c.dead = v.storeShow(st)
	fs, ok := v.frames(st)
	if !ok || len(fs) == 0 {
		c.depth = -1
		return c
	}
	c.depth = len(fs)
	c.top = fs[len(fs)-1].Obj
	ks, _ := st.MapEntries(fs[len(fs)-1])
	c.topEmpty = len(ks) == 0
	c.framesBefore = v.frameShow(st)
	return c
}

// liveShow renders everything a loop iteration may depend on, with values
// numbered relative to the current iteration.
func (v *pegVerifier) liveShow(st *ai.State, k int) string {
	var b strings.Builder
	for _, r := range st.Regs() {
		if s, ok := r.(*ai.StructV); ok && len(s.F) == 0 {
			continue
		}
		if r == nil {
			continue
		}
		if p, ok := r.(ai.Ptr); ok && p.Obj == v.p.Obj {
			b.WriteString("|p")
			continue
		}
		b.WriteString("|" + st.Show(r))
	}
	b.WriteString("||" + strings.Join(v.frameShow(st)[:1], ","))
	s := b.String()
	s = resultList.ReplaceAllStringFunc(s, func(m string) string {
		parts := strings.Fields(strings.Trim(m, "[]"))
		for i, p := range parts {
			if p != fmt.Sprintf("v·%d", i+1) {
				return m
			}
		}
		return fmt.Sprintf("[all but %d]", k-1-len(parts))
	})
	return relName.ReplaceAllStringFunc(s, func(m string) string {
		n, _ := strconv.Atoi(strings.TrimPrefix(m, "·"))
		return fmt.Sprintf("·[%d]", n-k)
	})
}

var resultList = regexp.MustCompile(`\[v·\d+( v·\d+)*\]`)
var relName = regexp.MustCompile(`·\d+`)

// oracle is the contract of parseExpr on a sub-expression.
func (v *pegVerifier) oracle(st *ai.State, c *ai.CallCtx, a []ai.Val) []ai.Res {
	if st.Data["root"] == nil {
		st.Data["root"] = true
		return []ai.Res{{St: st, Inline: true}}
	}
	if st.Data["entry"] != nil {
		return v.entryOracle(st, c, a)
	}
	if cap, ok := st.Data["capture"].(*[]captured); ok {
		p, ok := a[0].(ai.Ptr)
		if !ok {
			return []ai.Res{{St: st, Stop: "parseExpr without a parser"}}
		}
		*cap = append(*cap, captured{st.Detached(), p, a[1]})
		v.p = p
		return []ai.Res{{St: st, Trunc: true}}
	}
	if p, ok := a[0].(ai.Ptr); !ok || p.Obj != v.p.Obj {
		return []ai.Res{{St: st, Stop: "parseExpr on another parser"}}
	}
	i, _ := a[1].(ai.Iface)
	kp, ok := i.V.(ai.Ptr)
	if !ok {
		return []ai.Res{{St: st, Stop: "parseExpr on a missing expression"}}
	}
	call := v.snapshot(st)
	call.kid = kp.Obj
	k := len(trace(st)) + 1
	call.live = v.liveShow(st, k)
	if k > v.limit && v.limit > 0 {
		v.record(st, call)
		return []ai.Res{{St: st, Trunc: true}}
	}
	var out []ai.Res
	fs, okf := v.frames(st)
	if !okf || len(fs) == 0 {
		return []ai.Res{{St: st, Stop: "label frames are not a known stack"}}
	}
	m, okm := v.cur(st, "state").(ai.MapRef)
	if !okm {
		return []ai.Res{{St: st, Stop: "the state store is not a map"}}
	}
	garbage := func(s *ai.State) {
		f := fs[len(fs)-1]
		ks, vs := s.MapEntries(f)
		s.SetMap(f, append(append([]ai.Val(nil), ks...), ai.Lit(fmt.Sprintf("label·%d", k))), append(append([]ai.Val(nil), vs...), ai.Opaque{Name: fmt.Sprintf("l·%d", k)}))
	}
	replace := func(s *ai.State, ks, vs []ai.Val) {
		n := s.NewMap(ks, vs)
		s.SetMap(m, nil, nil)
		s.Data[fmt.Sprint("dead", m.Obj)] = true
		v.setCur(s, "state", n)
	}
	finish := func(s *ai.State, ok bool, val ai.Val) {
		c := call
		c.ok, c.val = ok, val
		c.ptAfter = v.pt(s)
		c.storeAfter, _ = v.storeShow(s)
		v.record(s, c)
		out = append(out, ai.Res{St: s, V: ai.Tuple{val, ok}})
	}
	// failure
	s := st.Clone()
	garbage(s)
	if v.mode == 1 {
		ks, vs := s.MapEntries(m)
		replace(s, ks, vs)
	}
	finish(s, false, ai.NilV{})
	// success, with and without consumption
	for _, consume := range []bool{true, false} {
		if !consume && v.lazy && k > 1 {
			break
		}
		s := st.Clone()
		garbage(s)
		ks, vs := s.MapEntries(m)
		nk, nv := append([]ai.Val(nil), ks...), append([]ai.Val(nil), vs...)
		if v.mode != 2 { // otherwise only a known entry changes
			nk = append(nk, ai.Lit(fmt.Sprintf("key·%d", k)))
			nv = append(nv, ai.Iface{T: v.anySlice(), V: ai.Opaque{Name: fmt.Sprintf("x·%d", k)}})
		}
		if len(vs) > 0 {
			nv[0] = ai.Iface{T: v.anySlice(), V: ai.Opaque{Name: fmt.Sprintf("s·%d", k)}}
		}
		if v.mode == 1 {
			s.SetMap(m, nk, nv)
		} else {
			replace(s, nk, nv)
		}
		if consume {
			if !v.advance(s, k) {
				continue
			}
		}
		if v.mode == 2 { // an error was reported on the way
			if es, ok := v.get(s, "errs").(ai.Ptr); ok {
				old, _ := s.Elems(s.Load(es))
				s.StoreTo(es, s.NewSlice(append(append([]ai.Val(nil), old...), v.e.NewError(s, ai.Lit("reported")))))
			}
		}
		finish(s, true, v.result(s, k))
	}
	if v.mode == 3 {
		out = append(out, ai.Res{St: st.Clone(), Panic: "panic while parsing"})
	}
	return out
}

func (v *pegVerifier) anySlice() types.Type {
	return types.NewSlice(types.NewInterfaceType(nil, nil))
}

// result is what a successful sub-expression returns.
func (v *pegVerifier) result(st *ai.State, k int) ai.Val {
	if f, ok := st.Data["result"].(func(*ai.State, int) ai.Val); ok {
		return f(st, k)
	}
	return ai.Opaque{Name: fmt.Sprintf("v·%d", k)}
}

// advance moves the parser to an arbitrary later position.
func (v *pegVerifier) advance(st *ai.State, k int) bool {
	pt := v.pt(st)
	out := append([]ai.Val(nil), pt...)
	for i := range pt {
		out[i] = ai.Int{L: v.e.Fresh(fmt.Sprintf("p%d·%d", i, k), big.NewInt(0), big.NewInt(1<<40)), K: pt[i].(ai.Int).K}
	}
	o := v.offset(out)
	w := lin(out[v.ptIndex("w")])
	st.Store = st.Store.GE(o.Sub(v.offset(pt)).AddC(-1))
	if st.Store != nil {
		st.Store = st.Store.GE(v.data.Len.Sub(o).Sub(w))
	}
	if st.Store != nil {
		st.Store = st.Store.GE(dom.Const(4).Sub(w))
	}
	if st.Store == nil {
		return false
	}
	v.setPt(st, out)
	return true
}

// runAction is the contract of user code attached to the grammar.
func (v *pegVerifier) runAction(st *ai.State, c *ai.CallCtx, a []ai.Val) []ai.Res {
	call := v.snapshot(st)
	call.action = c.Fn
	call.text = v.cur(st, "text")
	isAction := c.Sig.Results().Len() == 2
	var out []ai.Res
	for _, fail := range []bool{false, true} {
		s := st.Clone()
		cc := call
		cc.err = fail
		m, ok := v.cur(s, "state").(ai.MapRef)
		if !ok {
			return []ai.Res{{St: st, Stop: "the state store is not a map"}}
		}
		ks, vs := s.MapEntries(m)
		w := ai.Val(ai.Iface{T: v.anySlice(), V: ai.Opaque{Name: "written by the code"}})
		nk, nv := append([]ai.Val(nil), ks...), append([]ai.Val(nil), vs...)
		if fail && len(nv) > 0 {
			nv[0] = w
		} else {
			nk, nv = append(nk, ai.Lit("key·a")), append(nv, w)
		}
		s.SetMap(m, nk, nv)
		var ev ai.Val = ai.NilV{}
		if fail {
			ev = v.e.NewError(s, ai.Lit("from code"))
		}
		cc.val = ai.Opaque{Name: "v·action"}
		cc.storeAfter, _ = v.storeShow(s)
		v.record(s, cc)
		if isAction {
			out = append(out, ai.Res{St: s, V: ai.Tuple{cc.val, ev}})
		} else {
			out = append(out, ai.Res{St: s, V: ev})
		}
	}
	return out
}

type captured struct {
	st   *ai.State
	p    ai.Ptr
	expr ai.Val
}

// capture analyses the way from Parse to the first expression.
func (v *pegVerifier) capture() ([]captured, error) {
	parse := v.t.pkg.SSA.Func("Parse")
	if parse == nil {
		return nil, fmt.Errorf("function Parse not found")
	}
	st := v.e.NewState()
	var caps []captured
	st.Data["capture"] = &caps
	st.Data["root"] = true
	var opts ai.Val = ai.NilV{}
	outs := v.e.Call(st, parse, ai.Lit("file"), v.data, opts)
	for _, o := range outs {
		if o.Kind != "trunc" {
			return nil, fmt.Errorf("Parse ends (%s: %s) before parsing anything", o.Kind, o.Msg)
		}
	}
	if len(caps) == 0 {
		return nil, fmt.Errorf("Parse does not reach parseExpr")
	}
	return caps, nil
}

type startFacts struct {
	pt     []ai.Val
	store  string
	frames []string
	top    ai.MapRef
	topK   []ai.Val
	topV   []ai.Val
	rest   string
	nerrs  int
	eof    bool
	spare  int
}

// start prepares an arbitrary parser state.
func (v *pegVerifier) start(n *node, eof bool, spare int) (*ai.State, *startFacts) {
	st := v.base.Detached()
	delete(st.Data, "capture")
	delete(st.Data, "root")
	st.Data["trace"] = []pegCall(nil)
	st.Events = nil
	// position
	pt := v.pt(st)
	for i := range pt {
		pt[i] = ai.Int{L: v.e.Fresh(fmt.Sprintf("start%d", i), big.NewInt(0), big.NewInt(1<<40)), K: pt[i].(ai.Int).K}
	}
	o := v.offset(pt)
	if eof {
		pt[v.ptIndex("rn")] = ai.IK(runeError, types.Int32)
		pt[v.ptIndex("w")] = ai.I(0)
		st.Store = st.Store.EQ(v.data.Len.Sub(o))
	} else {
		rn, w := v.runeAt(v.data, o)
		pt[v.ptIndex("rn")] = ai.Int{L: rn, K: types.Int32}
		pt[v.ptIndex("w")] = ai.Int{L: w, K: types.Int}
		st.Store = st.Store.GE(v.data.Len.Sub(o).Sub(w))
	}
	v.setPt(st, pt)
	// state store
	m := st.NewMap([]ai.Val{ai.Lit("k0")}, []ai.Val{ai.Iface{T: v.anySlice(), V: ai.Opaque{Name: "s·0"}}})
	v.setCur(st, "state", m)
	// label frames
	f0 := st.NewMap([]ai.Val{ai.Lit("q")}, []ai.Val{ai.Opaque{Name: "q0"}})
	f1 := st.NewMap([]ai.Val{ai.Lit("r")}, []ai.Val{ai.Opaque{Name: "r0"}})
	el := []ai.Val{f0, f1}
	switch spare {
	case 1:
		el = append(el, ai.NilV{})
	case 2:
		el = append(el, st.NewMap(nil, nil))
	}
	arr := st.Alloc(&ai.ArrayV{E: el})
	v.set(st, "vstack", ai.Slice{Obj: arr, Len: 2, Cap: len(el)})
	v.set(st, "rstack", st.NewSlice([]ai.Val{v.t.rptr[n.rule]}))
	if i := fieldIndex(v.ps, "Stats"); i >= 0 {
		if sp, ok := v.get(st, "Stats").(ai.Ptr); ok {
			if stt, ok := v.ps.Field(i).Type().(*types.Pointer); ok {
				if k := fieldIndex(stt.Elem().Underlying().(*types.Struct), "ExprCnt"); k >= 0 {
					st.StoreTo(ai.Ptr{Obj: sp.Obj, Path: append(append([]int(nil), sp.Path...), k)}, ai.Int{L: v.e.Fresh("count", big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 62)), K: types.Uint64})
				}
			}
		}
	}
	f := &startFacts{pt: pt, frames: v.frameShow(st), top: f1, eof: eof, spare: spare}
	f.store, _ = v.storeShow(st)
	f.topK, f.topV = st.MapEntries(f1)
	f.rest = v.restShow(st)
	f.nerrs = v.nerrs(st)
	return st, f
}

func (v *pegVerifier) nerrs(st *ai.State) int {
	es, ok := v.get(st, "errs").(ai.Ptr)
	if !ok {
		return -1
	}
	l, ok := st.Elems(st.Load(es))
	if !ok {
		return -1
	}
	return len(l)
}

// restShow renders the parts of the parser that no expression may change.
func (v *pegVerifier) restShow(st *ai.State) string {
	var out []string
	s := st.Load(v.p).(*ai.StructV)
	for i := 0; i < v.ps.NumFields(); i++ {
		n := v.ps.Field(i).Name()
		switch n {
		case "pt", "cur", "vstack", "errs", "Stats", "depth", "maxFailPos", "maxFailExpected", "maxFailInvertExpected", "memo":
			continue
		case "rules", "rstack":
			switch x := s.F[i].(type) {
			case ai.MapRef:
				ks, _ := st.MapEntries(x)
				out = append(out, fmt.Sprint(n, x.Obj, len(ks)))
			case ai.Slice:
				var ids []string
				el, _ := st.Elems(x)
				for _, e := range el {
					if p, ok := e.(ai.Ptr); ok {
						ids = append(ids, fmt.Sprint(p.Obj))
					}
				}
				out = append(out, n+strings.Join(ids, ","))
			default:
				out = append(out, n+"?")
			}
			continue
		}
		out = append(out, n+"="+st.Show(s.F[i]))
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func (v *pegVerifier) samePt(st *ai.State, a, b []ai.Val) bool {
	for i := range a {
		if !st.Store.EntailsEQ(lin(a[i]).Sub(lin(b[i]))) {
			return false
		}
	}
	return true
}

// verify decides whether parseExpr on n has the meaning of n's kind. It
// returns the number of outcomes examined.
func (v *pegVerifier) verify(n *node) (cnt int, out []mismatch) {
	add := func(kind string, pos token.Pos, f string, a ...any) {
		out = append(out, mismatch{kind: kind, path: n.rule, msg: fmt.Sprintf("%s expression %s: ", n.expr.Op, short(n.expr.String())) + fmt.Sprintf(f, a...), pos: pos})
	}
	defer func() {
		if r := recover(); r != nil {
			if m, ok := r.(missing); ok {
				add("undecided", v.parseFn.Pos(), "%s not found", string(m))
				return
			}
			panic(r)
		}
	}()
	v.limit = len(n.kids) + 1
	v.lazy = n.expr.Op == peg.Seq
	switch n.expr.Op {
	case peg.Star, peg.Plus:
		v.limit = 4
	case peg.Ref:
		v.limit = 2
	}
	for _, cfg := range []struct {
		eof         bool
		spare, mode int
	}{{false, 0, 0}, {false, 1, 1}, {false, 2, 0}, {true, 0, 0}} {
		st, f := v.start(n, cfg.eof, cfg.spare)
		v.mode = cfg.mode
		if st.Store == nil {
			continue
		}
		for _, o := range v.e.Call(st, v.parseFn, v.p, ai.Iface{T: n.typ, V: n.ptr}) {
			cnt++
			v.judge(n, f, o, add)
		}
	}
	return
}

func (v *pegVerifier) judge(n *node, f *startFacts, o ai.Outcome, add func(kind string, pos token.Pos, f string, a ...any)) {
	tr := trace(o.St)
	path := func() string {
		var s []string
		for _, c := range tr {
			if c.action != nil {
				s = append(s, c.action.Name())
				continue
			}
			if c.ok {
				s = append(s, "match")
			} else {
				s = append(s, "no match")
			}
		}
		if len(s) == 0 {
			return ""
		}
		return " when the sub-expressions give " + strings.Join(s, ", ")
	}
	fn := v.parseFn.Pos()
	if len(o.Stack) > 0 {
		fn = o.Pos
	}
	switch o.Kind {
	case "return":
	case "trunc":
		if (n.expr.Op == peg.Star || n.expr.Op == peg.Plus) && len(tr) == v.limit+1 {
			if !v.calls(n, f, o.St, tr, add, path, fn) {
				return
			}
			a, b := tr[v.limit-1].live, tr[v.limit].live
			if a != b {
				add("undecided", fn, "the repetition does not settle: %s differs from %s", a, b)
			}
			return
		}
		add("order", fn, "evaluates more sub-expressions than it has%s", path())
		return
	case "panic":
		add("panic", o.Pos, "panics: %s%s", o.Msg, path())
		return
	case "diverge":
		add("diverge", o.Pos, "%s%s", o.Msg, path())
		return
	default:
		add("undecided", o.Pos, "%s: %s%s", o.Kind, o.Msg, path())
		return
	}
	if !v.calls(n, f, o.St, tr, add, path, fn) {
		return
	}
	st := o.St
	if len(o.Ret) != 2 {
		add("undecided", fn, "parseExpr does not return a value and a flag")
		return
	}
	ok, isB := o.Ret[1].(bool)
	if !isB {
		add("undecided", fn, "success is not determined%s", path())
		return
	}
	// expected result
	var wantOK bool
	wantPt := f.pt
	wantStore := f.store
	wantVal := "nil"
	last := func() pegCall { return tr[len(tr)-1] }
	show := func(x ai.Val) string { return st.Show(x) }
	switch n.expr.Op {
	case peg.Seq:
		wantOK = len(tr) == len(n.kids) && (len(tr) == 0 || last().ok)
		if wantOK {
			var vs []string
			for _, c := range tr {
				vs = append(vs, show(c.val))
				wantPt, wantStore = c.ptAfter, c.storeAfter
			}
			wantVal = "[]interface{}([" + strings.Join(vs, " ") + "])"
		}
	case peg.Choice:
		wantOK = len(tr) > 0 && last().ok
		if wantOK {
			wantPt, wantStore, wantVal = last().ptAfter, last().storeAfter, show(last().val)
		}
	case peg.Opt:
		wantOK = true
		if last().ok {
			wantPt, wantStore, wantVal = last().ptAfter, last().storeAfter, show(last().val)
		}
	case peg.Star, peg.Plus:
		wantOK = n.expr.Op == peg.Star || len(tr) > 1
		if wantOK {
			var vs []string
			for _, c := range tr[:len(tr)-1] {
				vs = append(vs, show(c.val))
				wantPt, wantStore = c.ptAfter, c.storeAfter
			}
			wantVal = "[]interface{}([" + strings.Join(vs, " ") + "])"
			if len(vs) == 0 {
				wantVal = "[]interface{}(nil)"
			}
		}
	case peg.And:
		wantOK = last().ok
	case peg.Not:
		wantOK = !last().ok
	case peg.Label, peg.Ref:
		wantOK = last().ok
		if wantOK {
			wantPt, wantStore, wantVal = last().ptAfter, last().storeAfter, show(last().val)
		}
	case peg.Action:
		wantOK = tr[0].ok
		if wantOK {
			wantPt, wantStore, wantVal = tr[0].ptAfter, tr[0].storeAfter, show(tr[1].val)
		}
	case peg.State:
		wantOK = true
		wantStore = tr[0].storeAfter
	case peg.Lit, peg.Class, peg.Any:
		v.leaf(n, f, o, ok, add)
		if !ok && !ai.IsNil(o.Ret[0]) {
			add("result", fn, "returns a value without a match")
		}
		v.after(n, f, st, add, path, fn, tr)
		if got, _ := v.storeShow(st); got != f.store {
			add("state", fn, "changes the state store")
		}
		return
	}
	if ok != wantOK {
		add("match", fn, "reports match=%v, expected %v%s", ok, wantOK, path())
		return
	}
	if !v.samePt(st, v.pt(st), wantPt) {
		why := "is not where the last match ended"
		if !wantOK || n.expr.Op == peg.Not || n.expr.Op == peg.And {
			why = "is not restored"
		}
		add("position", fn, "the input position %s%s", why, path())
	}
	if got, dead := v.storeShow(st); dead {
		add("state", fn, "the state store in use has been given back to the pool%s", path())
	} else if got != wantStore {
		add("state", fn, "the state store holds %s, expected %s%s", got, wantStore, path())
	}
	got := st.Show(o.Ret[0])
	if got == "[]interface{}([])" && wantVal == "[]interface{}(nil)" {
		got = wantVal
	}
	if got != wantVal {
		add("result", fn, "the value is %s, expected %s%s", got, wantVal, path())
	}
	v.after(n, f, st, add, path, fn, tr)
}

// calls checks which sub-expressions are evaluated, where, and in which frame.
func (v *pegVerifier) calls(n *node, f *startFacts, st *ai.State, tr []pegCall, add func(kind string, pos token.Pos, f string, a ...any), path func() string, fn token.Pos) bool {
	good := true
	bad := func(kind, f string, a ...any) {
		good = false
		add(kind, fn, "%s", fmt.Sprintf(f, a...)+path())
	}
	kids := n.kids
	if n.expr.Op == peg.Ref {
		r := v.t.rules[n.expr.Text]
		if r == nil {
			bad("order", "refers to an undefined rule")
			return false
		}
		kids = []*node{r}
	}
	pt, store := f.pt, f.store
	for i, c := range tr {
		if c.action != nil {
			if n.run == nil || runTarget(v.t.p.SSA, n.run) != c.action {
				bad("order", "runs code of another expression: %s", c.action.Name())
				continue
			}
			if c.top != f.top.Obj || c.depth != len(f.frames) {
				bad("labels", "code runs with the labels of another frame")
			}
			if n.expr.Op == peg.Action {
				if i != 1 || !tr[0].ok {
					bad("order", "the action runs without a match")
					continue
				}
				w, ok := c.text.(ai.View)
				if !ok || w.Base != v.data.Base || !st.Store.EntailsEQ(w.Off.Sub(v.offset(f.pt))) || !st.Store.EntailsEQ(w.Off.Add(w.Len).Sub(v.offset(tr[0].ptAfter))) {
					bad("text", "the action does not see the matched text")
				}
				if !v.samePt(st, c.pt, tr[0].ptAfter) || c.store != tr[0].storeAfter {
					bad("position", "the action does not run right after the match")
				}
			}
			continue
		}
		ki := 0
		switch n.expr.Op {
		case peg.Seq, peg.Choice:
			ki = i
		}
		if ki >= len(kids) || kids[ki].ptr.Obj != c.kid {
			bad("order", "evaluates sub-expressions out of order")
			return false
		}
		if c.dead {
			bad("state", "a sub-expression runs with a state store that was given back to the pool")
		}
		if !v.samePt(st, c.pt, pt) {
			bad("position", "sub-expression %d does not start where it should", i+1)
		}
		if c.store != store {
			bad("state", "sub-expression %d starts with state store %s, expected %s", i+1, c.store, store)
		}
		own := false
		switch n.expr.Op {
		case peg.Seq, peg.Action:
			own = true
		}
		if own {
			if c.top != f.top.Obj || c.depth != len(f.frames) {
				bad("labels", "sub-expression %d does not use the current label frame", i+1)
			}
		} else if c.depth != len(f.frames)+1 || !c.topEmpty {
			bad("labels", "sub-expression %d does not get a fresh label frame", i+1)
		}
		// labels of other frames
		if !own && c.depth == len(f.frames)+1 && strings.Join(c.framesBefore[:len(f.frames)], ";") != strings.Join(f.frames, ";") {
			bad("labels", "labels leak out of a sub-expression")
		}
		final := i == len(tr)-1 || tr[i+1].action != nil
		switch n.expr.Op {
		case peg.Seq:
			if !c.ok && !final {
				bad("order", "continues after a sub-expression failed")
			}
			if c.ok && final && i+1 < len(kids) {
				bad("order", "stops although the sub-expressions so far matched")
			}
			pt, store = c.ptAfter, c.storeAfter
		case peg.Choice:
			if c.ok && !final {
				bad("order", "tries another alternative after a match")
			}
			if !c.ok && final && i+1 < len(kids) {
				bad("order", "gives up before the last alternative")
			}
		case peg.Star, peg.Plus:
			if !c.ok && !final {
				bad("order", "continues after the repetition ended")
			}
			if final && c.ok && len(tr) <= v.limit {
				bad("order", "stops repeating although the last attempt matched")
			}
			pt, store = c.ptAfter, c.storeAfter
		default:
			if !final {
				bad("order", "evaluates its sub-expression more than once")
			}
		}
	}
	need := 1
	switch n.expr.Op {
	case peg.Lit, peg.Class, peg.Any:
		need = 0
	case peg.Seq, peg.Choice:
		if len(n.kids) == 0 {
			need = 0
		}
	case peg.Action:
		if len(tr) > 0 && tr[0].ok {
			need = 2
		}
	}
	if len(tr) < need {
		bad("order", "does not evaluate its sub-expression")
	}
	return good
}

// after checks what holds after every expression.
func (v *pegVerifier) after(n *node, f *startFacts, st *ai.State, add func(kind string, pos token.Pos, f string, a ...any), path func() string, fn token.Pos, tr []pegCall) {
	fs, ok := v.frames(st)
	if !ok || len(fs) != len(f.frames) {
		add("labels", fn, "the label frames are not balanced%s", path())
		return
	}
	show := v.frameShow(st)
	for i := range show[:len(show)-1] {
		if show[i] != f.frames[i] {
			add("labels", fn, "changes the labels of an enclosing expression%s", path())
		}
	}
	if fs[len(fs)-1].Obj != f.top.Obj {
		add("labels", fn, "replaces the current label frame%s", path())
	}
	ks, vs := st.MapEntries(fs[len(fs)-1])
	got := map[string]string{}
	for i := range ks {
		got[st.Show(ks[i])] = st.Show(vs[i])
	}
	want := map[string]string{}
	for i := range f.topK {
		want[st.Show(f.topK[i])] = st.Show(f.topV[i])
	}
	loose := n.expr.Op == peg.Seq || n.expr.Op == peg.Action
	if n.expr.Op == peg.Label && len(tr) > 0 && tr[0].ok && n.expr.Text != "" {
		want[strconv.Quote(n.expr.Text)] = st.Show(tr[0].val)
	}
	for k, w := range want {
		if got[k] != w {
			add("labels", fn, "label %s is %s, expected %s%s", k, got[k], w, path())
		}
	}
	for k, g := range got {
		if _, ok := want[k]; !ok && !(loose && strings.Contains(k, "label·")) {
			add("labels", fn, "binds label %s to %s%s", k, g, path())
		}
	}
	if loose {
		for i, c := range tr {
			if c.action == nil && c.ok {
				k := strconv.Quote(fmt.Sprintf("label·%d", i+1))
				if got[k] != fmt.Sprintf("l·%d", i+1) {
					add("labels", fn, "loses the label bound by sub-expression %d%s", i+1, path())
				}
			}
		}
	}
	// spare slots of the frame stack
	if sl, ok := v.get(st, "vstack").(ai.Slice); ok {
		for i := sl.Len; i < sl.Cap; i++ {
			switch m := st.Load(ai.Ptr{Obj: sl.Obj, Path: append(append([]int(nil), sl.Path...), sl.Off+i)}).(type) {
			case ai.NilV:
			case ai.MapRef:
				if ks, _ := st.MapEntries(m); len(ks) > 0 {
					add("labels", fn, "leaves labels behind in an unused frame%s", path())
				}
			}
		}
	}
	if r := v.restShow(st); r != f.rest {
		add("engine", fn, "changes the configuration of the parser: %s, was %s%s", r, f.rest, path())
	}
	ne := v.nerrs(st)
	min := f.nerrs
	for _, c := range tr {
		if c.err {
			min++
		}
	}
	if ne >= 0 && ne < min {
		add("errors", fn, "an error is lost%s", path())
	}
	for _, ev := range st.EventList() {
		switch ev.Kind {
		case "dirtyput":
			add("state", ev.Pos, "a store that is not empty is given back to the pool%s", path())
		case "badput":
			add("state", ev.Pos, "something other than a store is given to the pool%s", path())
		case "output":
			add("engine", ev.Pos, "writes output while parsing")
		}
	}
}

// leaf checks character matchers.
func (v *pegVerifier) leaf(n *node, f *startFacts, o ai.Outcome, ok bool, add func(kind string, pos token.Pos, f string, a ...any)) {
	st := o.St
	fn := v.parseFn.Pos()
	var steps [][]peg.Range
	switch n.expr.Op {
	case peg.Lit:
		for _, c := range n.expr.Text {
			s := []peg.Range{{Lo: c, Hi: c}}
			if n.expr.Fold {
				s = peg.Fold(s)
			}
			steps = append(steps, s)
		}
	case peg.Class:
		steps = [][]peg.Range{n.expr.Set}
	case peg.Any:
		steps = [][]peg.Range{{{Lo: 0, Hi: peg.MaxRune}}}
	}
	// could: the path is compatible with every character being in its set
	off := v.offset(f.pt)
	store := []*dom.Store{st.Store}
	for _, set := range steps {
		rn, w := v.runeAt(v.data, off)
		var in []*dom.Store
		for _, s := range store {
			// there is a character here
			s = s.GE(v.data.Len.Sub(off).Sub(w))
			if s == nil {
				continue
			}
			for _, r := range peg.Complement(set) {
				if !ok {
					break
				}
				if x := s.GE(rn.AddC(-int64(r.Lo))); x != nil {
					if x = x.GE(rn.Neg().AddC(int64(r.Hi))); x != nil && x.Feasible(dom.Const(0)) {
						add("characters", fn, "matches although a character in %q-%q is not allowed here", r.Lo, r.Hi)
						return
					}
				}
			}
			for _, r := range set {
				if x := s.GE(rn.AddC(-int64(r.Lo))); x != nil {
					if x = x.GE(rn.Neg().AddC(int64(r.Hi))); x != nil && x.Feasible(dom.Const(0)) {
						in = append(in, x)
					}
				}
			}
		}
		if len(in) == 0 {
			store = nil
			break
		}
		store = in
		off = off.Add(w)
	}
	if ok && len(store) == 0 {
		add("characters", fn, "matches although the characters are not there")
		return
	}
	if !ok && len(store) > 0 {
		add("characters", fn, "does not match although the characters are there")
		return
	}
	pt := v.pt(st)
	if ok {
		if !st.Store.EntailsEQ(v.offset(pt).Sub(off)) {
			add("position", fn, "does not advance past what it matched")
			return
		}
		// the current character is the one at the new position
		rn, w := v.runeAt(v.data, off)
		atEnd := st.Store.EntailsEQ(v.data.Len.Sub(off))
		if n.expr.Op == peg.Lit && n.expr.Text == "" {
			return
		}
		grn, gw := lin(pt[v.ptIndex("rn")]), lin(pt[v.ptIndex("w")])
		if st.Store.EntailsEQ(gw.AddC(-1)) && st.Store.EntailsEQ(grn.AddC(-runeError)) && v.nerrs(st) <= f.nerrs {
			add("encoding", fn, "an invalid character is not reported")
		}
		if atEnd {
			if !st.Store.EntailsEQ(gw) || !st.Store.EntailsEQ(grn.AddC(-runeError)) {
				add("position", fn, "the current character after a match is stale")
			}
		} else if !st.Store.EntailsEQ(gw.Sub(w)) || !st.Store.EntailsEQ(grn.Sub(rn)) {
			add("position", fn, "the current character after a match is stale")
		}
		b, isV := unIface(o.Ret[0]).(ai.View)
		if !isV || b.Base != v.data.Base || !st.Store.EntailsEQ(b.Off.Sub(v.offset(f.pt))) || !st.Store.EntailsEQ(b.Off.Add(b.Len).Sub(off)) {
			add("result", fn, "the value is not the matched text")
		}
	} else if !v.samePt(st, pt, f.pt) {
		add("position", fn, "the input position is not restored")
	}
}

func unIface(v ai.Val) ai.Val {
	if i, ok := v.(ai.Iface); ok {
		return i.V
	}
	return v
}
