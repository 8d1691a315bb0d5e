package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/tool/dom"
)

// NewError allocates a distinct non-nil error.
func (e *Engine) NewError(st *State, msg Str) Val {
	t := e.errorType()
	return Iface{T: t, V: st.New(&StructV{F: []Val{msg}})}
}

func (e *Engine) errorType() types.Type {
	p := e.Prog.ImportedPackage("errors")
	return types.NewPointer(p.Pkg.Scope().Lookup("errorString").Type())
}

// modelGlobal gives initial values to library variables.
func (e *Engine) modelGlobal(g *ssa.Global, out *Val) bool {
	if g.Pkg == nil || strings.Contains(g.Pkg.Pkg.Path(), ".") {
		return false
	}
	t := g.Type().(*types.Pointer).Elem()
	if types.Identical(t, types.Universe.Lookup("error").Type()) {
		id := e.nextObj
		e.nextObj++
		e.base[id] = &StructV{F: []Val{Lit(g.String())}}
		*out = Iface{T: e.errorType(), V: Ptr{Obj: id}}
		return true
	}
	switch g.String() {
	case "os.Stdout", "os.Stderr", "os.Stdin":
		*out = Opaque{g.String()}
		return true
	case "os.Args":
		*out = Opaque{g.String()}
		return true
	}
	return false
}

// Faulty decides whether a fallible external operation is also analysed failing.
func (st *State) faults() bool { return st.Data["faults"] != nil }

// Fallible returns success with ok and, when fault analysis is on, failure.
func (e *Engine) Fallible(st *State, what string, pos token.Pos, ok Val, fail func(*State, Val) Val) []Res {
	if !st.faults() {
		return One(st, ok)
	}
	bad := st.Clone()
	err := e.NewError(bad, Lit(what+" failed"))
	bad.Emit("fault", pos, Lit(what), err)
	return []Res{{St: st, V: ok}, {St: bad, V: fail(bad, err)}}
}

func (e *Engine) genericIntrinsic(name string, fn *ssa.Function) Intrinsic { return nil }

func lit(st *State, v Val) (string, bool) {
	switch s := v.(type) {
	case Str:
		return st.Resolve(s).Literal()
	case Text:
		return st.Resolve(s.S).Literal()
	}
	return "", false
}

// asStr views a value as text.
func (e *Engine) asStr(st *State, v Val) (Str, bool) {
	switch s := v.(type) {
	case Str:
		return s, true
	case Text:
		return s.S, true
	case NilV:
		return Str{}, true
	case View:
		return AtomStr(e.viewAtom(s)), true
	case Slice:
		el, ok := st.Elems(s)
		if !ok {
			return Str{}, false
		}
		out := Str{}
		for _, x := range el {
			i, ok := x.(Int)
			if !ok {
				return Str{}, false
			}
			if i.L.IsConst() {
				out = out.Concat(Lit(string([]byte{byte(i.L.C.Int64())})))
			} else {
				l := i.L
				out = out.Concat(AtomStr(&Atom{Key: "byte(" + e.Tab.Format(l) + ")", Fn: "byte", Num: &l}))
			}
		}
		return out.Norm(), true
	}
	return Str{}, false
}

func (e *Engine) dec(st *State, l dom.Lin, base int) Str {
	if l.IsConst() {
		return Lit(l.C.Text(base))
	}
	if v, ok := st.Store.Fixed(l); ok {
		return Lit(v.Text(base))
	}
	fn := "dec"
	if base == 16 {
		fn = "hex"
	} else if base != 10 {
		fn = fmt.Sprintf("base%d", base)
	}
	return AtomStr(&Atom{Key: fn + "(" + e.Tab.Format(l) + ")", Fn: fn, Num: &l})
}

func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (e *Engine) formatOne(st *State, verb byte, flags string, arg Val) Str {
	i, ok := arg.(Iface)
	if !ok {
		if IsNil(arg) {
			if verb == 'T' || verb == 'v' {
				return Lit("<nil>")
			}
			return Lit("%!" + string(verb) + "(<nil>)")
		}
		return AtomStr(&Atom{Key: "fmt(" + st.Show(arg) + ")", Fn: "opaque"})
	}
	if verb == 'T' {
		return Lit(typeStr(i.T))
	}
	return e.formatVal(st, verb, flags, i.V, i.T)
}

func (e *Engine) formatVal(st *State, verb byte, flags string, v Val, t types.Type) Str {
	if verb != 'T' && flags != "#" && hasMethod(t, "Error", "String") {
		return AtomStr(&Atom{Key: "text(" + st.Show(v) + ")", Fn: "opaque"})
	}
	switch x := v.(type) {
	case bool:
		return Lit(fmt.Sprint(x))
	case Str:
		switch verb {
		case 's', 'v':
			if flags == "#" {
				if l, ok := st.Resolve(x).Literal(); ok {
					return Lit(strconv.Quote(l))
				}
				return Lit(`"`).Concat(x).Concat(Lit(`"`))
			}
			if w, err := strconv.Atoi(strings.TrimLeft(flags, "-+0 #")); err == nil && w > 0 {
				if l, ok := st.Resolve(x).Literal(); ok {
					return Lit(fmt.Sprintf("%"+flags+string(verb), l))
				}
				return AtomStr(&Atom{Key: "pad(" + x.String() + ")", Fn: "opaque"})
			}
			return x
		case 'q':
			if l, ok := st.Resolve(x).Literal(); ok {
				return Lit(strconv.Quote(l))
			}
			return Lit(`"`).Concat(x).Concat(Lit(`"`))
		}
	case Int:
		switch verb {
		case 'd', 'v':
			if flags == "#" {
				if _, signed, _ := kindInfo(x.K); !signed && verb == 'v' {
					return Lit("0x").Concat(e.dec(st, x.L, 16))
				}
			}
			if x.L.IsConst() && flags != "" {
				return Lit(fmt.Sprintf("%"+flags+"d", x.L.C))
			}
			return e.dec(st, x.L, 10)
		case 'x', 'X':
			if x.L.IsConst() {
				return Lit(fmt.Sprintf("%"+flags+string(verb), x.L.C))
			}
			if flags == "02" && verb == 'x' && x.K == types.Uint8 {
				return e.hex2(x.L)
			}
			p := ""
			if strings.Contains(flags, "#") {
				p = "0x"
			}
			return Lit(p).Concat(e.dec(st, x.L, 16))
		case 's', 't':
			return Lit("%!" + string(verb) + "(").Concat(Lit(typeStr(t) + "=")).Concat(e.dec(st, x.L, 10)).Concat(Lit(")"))
		case 'c':
			if x.L.IsConst() {
				return Lit(string(rune(x.L.C.Int64())))
			}
		case 'q':
			if x.L.IsConst() {
				return Lit(strconv.QuoteRune(rune(x.L.C.Int64())))
			}
		}
	case *ArrayV:
		if a, ok := t.Underlying().(*types.Array); ok && verb == 'x' && flags == "" {
			if b, ok := a.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return e.hexText(x.E)
			}
		}
	case Slice, NilV, Text, View:
		st2, isBytes := t.Underlying().(*types.Slice)
		if isBytes {
			b, ok := st2.Elem().Underlying().(*types.Basic)
			isBytes = ok && b.Kind() == types.Uint8
		}
		if isBytes {
			switch {
			case verb == 's' || verb == 'q' && flags == "":
				if s, ok := e.asStr(st, v); ok {
					if verb == 'q' {
						return Lit(`"`).Concat(s).Concat(Lit(`"`))
					}
					return s
				}
			case verb == 'v' && flags == "#":
				if IsNil(v) {
					return Lit(typeStr(t) + "(nil)")
				}
				if el, ok := st.Elems(v); ok {
					out := Lit(typeStr(t) + "{")
					for k, x := range el {
						if k > 0 {
							out = out.Concat(Lit(", "))
						}
						out = out.Concat(Lit("0x")).Concat(e.dec(st, x.(Int).L, 16))
					}
					return out.Concat(Lit("}"))
				}
			case verb == 'x' && flags == "":
				if el, ok := st.Elems(v); ok {
					return e.hexText(el)
				}
			}
		}
		if el, ok := st.Elems(v); ok && st2 != nil && (verb == 'v' || verb == 'd' || verb == 's') && flags == "" {
			out := Lit("[")
			for k, x := range el {
				if k > 0 {
					out = out.Concat(Lit(" "))
				}
				if i, ok := x.(Iface); ok {
					out = out.Concat(e.formatVal(st, verb, flags, i.V, i.T))
				} else {
					out = out.Concat(e.formatVal(st, verb, flags, x, st2.Elem()))
				}
			}
			return out.Concat(Lit("]"))
		}
	}
	return AtomStr(&Atom{Key: "fmt%" + flags + string(verb) + "(" + st.Show(v) + ")", Fn: "opaque"})
}

// hexText writes bytes as pairs of hexadecimal digits.
func (e *Engine) hexText(el []Val) Str {
	out := Str{}
	for _, x := range el {
		out = out.Concat(e.hex2(x.(Int).L))
	}
	return out
}

func (e *Engine) hex2(l dom.Lin) Str {
	if l.IsConst() {
		return Lit(fmt.Sprintf("%02x", l.C))
	}
	return AtomStr(&Atom{Key: "hex2(" + e.Tab.Format(l) + ")", Fn: "hex2", Num: &l})
}

func hasMethod(t types.Type, names ...string) bool {
	for _, n := range names {
		if o, _, _ := types.LookupFieldOrMethod(t, true, nil, n); o != nil {
			if _, ok := o.(*types.Func); ok {
				return true
			}
		}
	}
	return false
}

// Sprintf formats; literal text carries the position of the call.
func (e *Engine) Sprintf(st *State, format Str, args []Val, pos token.Pos) (Str, error) {
	// a format is analysed piecewise: atoms in a format are copied verbatim
	var out Str
	used := 0
	for _, p := range st.Resolve(format).P {
		if p.Atom != nil {
			out = out.Concat(Str{[]Piece{p}})
			continue
		}
		f := p.Lit
		for i := 0; i < len(f); {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				out = out.Concat(LitPos(f[i:], pos))
				break
			}
			if j > 0 {
				out = out.Concat(LitPos(f[i:i+j], pos))
			}
			i += j + 1
			k := i
			for k < len(f) && strings.IndexByte("+-# 0123456789.[]", f[k]) >= 0 {
				k++
			}
			if k >= len(f) {
				out = out.Concat(LitPos("%!(NOVERB)", pos))
				break
			}
			flags, verb := f[i:k], f[k]
			i = k + 1
			if verb == '%' {
				out = out.Concat(LitPos("%", pos))
				continue
			}
			if strings.HasPrefix(flags, "[") {
				c := strings.IndexByte(flags, ']')
				n, err := strconv.Atoi(flags[1:c])
				if err != nil {
					return out, fmt.Errorf("format %q", f)
				}
				used = n - 1
				flags = flags[c+1:]
			}
			if used >= len(args) {
				out = out.Concat(LitPos("%!"+string(verb)+"(MISSING)", pos))
				continue
			}
			s := e.formatOne(st, verb, flags, args[used])
			used++
			for q := range s.P {
				if s.P[q].Pos == token.NoPos {
					s = Str{append([]Piece(nil), s.P...)}
					break
				}
			}
			for q := range s.P {
				if s.P[q].Pos == token.NoPos {
					s.P[q].Pos = pos
				}
			}
			out = out.Concat(s)
		}
	}
	if used < len(args) {
		out = out.Concat(LitPos("%!(EXTRA)", pos))
	}
	return out, nil
}

func (e *Engine) variadic(st *State, v Val) []Val {
	el, ok := st.Elems(v)
	if !ok {
		panic(badAccess("variadic arguments"))
	}
	return el
}

// writeTo appends text to a writer.
func (e *Engine) writeTo(st *State, w Val, s Str, pos token.Pos, ret func(*State) Val) []Res {
	i, ok := w.(Iface)
	if !ok {
		if IsNil(w) {
			return []Res{{St: st, Panic: "write to nil writer"}}
		}
		if o, ok := w.(Opaque); ok {
			st.Emit("output", pos, o, s)
			return One(st, ret(st))
		}
		panic(badAccess(fmt.Sprintf("writer %T", w)))
	}
	switch typeStr(i.T) {
	case "*bytes.Buffer", "*strings.Builder":
		if IsNil(i.V) {
			return []Res{{St: st, Panic: "nil pointer dereference"}}
		}
		p := i.V.(Ptr)
		st.StoreTo(p, BufV{bufOf(st.load(p)).Concat(s)})
		return One(st, ret(st))
	case "*os.File":
		st.Emit("output", pos, i.V, s)
		return One(st, ret(st))
	}
	fn := e.Prog.LookupMethod(i.T, nil, "Write")
	if fn == nil {
		return []Res{{St: st, Stop: "writer " + i.T.String()}}
	}
	return []Res{{St: st, Call: &Func{Fn: fn}, Args: []Val{i.V, Text{s}}}}
}

func bufOf(v Val) Str {
	if b, ok := v.(BufV); ok {
		return b.S
	}
	return Str{}
}

// BufText returns the contents of a buffer value.
func BufText(v Val) Str { return bufOf(v) }

func registerIntrinsics(e *Engine) {
	r := func(name string, f Intrinsic) { e.Intr[name] = f }
	stop := func(st *State, c *CallCtx) []Res {
		return []Res{{St: st, Stop: "unmodelled use of " + c.Fn.String()}}
	}
	fprintf := func(mode string) Intrinsic {
		return func(st *State, c *CallCtx, a []Val) []Res {
			s, ok := e.fmtCall(st, mode, a[1:], c.Pos)
			if !ok {
				return stop(st, c)
			}
			return e.writeTo(st, a[0], s, c.Pos, func(st *State) Val {
				return Tuple{Int{e.strLen(st, s), types.Int}, NilV{}}
			})
		}
	}
	r("fmt.Fprintf", fprintf("f"))
	r("fmt.Fprint", fprintf("p"))
	r("fmt.Fprintln", fprintf("ln"))
	sprint := func(mode string) Intrinsic {
		return func(st *State, c *CallCtx, a []Val) []Res {
			s, ok := e.fmtCall(st, mode, a, c.Pos)
			if !ok {
				return stop(st, c)
			}
			return One(st, s)
		}
	}
	r("fmt.Sprintf", sprint("f"))
	r("fmt.Sprint", sprint("p"))
	r("fmt.Sprintln", sprint("ln"))
	printer := func(mode string) Intrinsic {
		return func(st *State, c *CallCtx, a []Val) []Res {
			s, _ := e.fmtCall(st, mode, a, c.Pos)
			st.Emit("output", c.Pos, Opaque{"os.Stdout"}, s)
			return One(st, Tuple{I(0), NilV{}})
		}
	}
	r("fmt.Printf", printer("f"))
	r("fmt.Print", printer("p"))
	r("fmt.Println", printer("ln"))
	appendf := func(mode string) Intrinsic {
		return func(st *State, c *CallCtx, a []Val) []Res {
			s, ok := e.fmtCall(st, mode, a[1:], c.Pos)
			b, ok2 := e.asStr(st, a[0])
			if !ok || !ok2 {
				return stop(st, c)
			}
			return One(st, Text{b.Concat(s)})
		}
	}
	r("fmt.Appendf", appendf("f"))
	r("fmt.Append", appendf("p"))
	r("fmt.Appendln", appendf("ln"))
	errf := func(st *State, c *CallCtx, a []Val) []Res {
		s, _ := e.fmtCall(st, "f", a, c.Pos)
		return One(st, e.NewError(st, s))
	}
	r("fmt.Errorf", errf)
	r("github.com/pkg/errors.Errorf", errf)
	enew := func(st *State, c *CallCtx, a []Val) []Res {
		return One(st, e.NewError(st, a[0].(Str)))
	}
	r("errors.New", enew)
	r("github.com/pkg/errors.New", enew)
	wrap := func(st *State, c *CallCtx, a []Val) []Res {
		if IsNil(a[0]) {
			return One(st, NilV{})
		}
		v := e.NewError(st, Lit("wrapped")).(Iface)
		st.Data["cause:"+st.Show(v.V)+fmt.Sprint(v.V.(Ptr).Obj)] = a[0]
		return One(st, v)
	}
	for _, n := range []string{"Wrap", "Wrapf", "WithStack", "WithMessage", "WithMessagef"} {
		r("github.com/pkg/errors."+n, wrap)
	}
	r("github.com/pkg/errors.Cause", func(st *State, c *CallCtx, a []Val) []Res {
		v := a[0]
		for {
			i, ok := v.(Iface)
			if !ok {
				return One(st, v)
			}
			p, ok := i.V.(Ptr)
			if !ok {
				return One(st, v)
			}
			n, ok := st.Data["cause:"+st.Show(p)+fmt.Sprint(p.Obj)]
			if !ok {
				return One(st, v)
			}
			v = n
		}
	})
	r("errors.Is", func(st *State, c *CallCtx, a []Val) []Res {
		v := st.EqVal(a[0], a[1])
		if v == nil {
			return stop(st, c)
		}
		return One(st, v)
	})

	// text functions
	textFn := func(fn string) Intrinsic {
		return func(st *State, c *CallCtx, a []Val) []Res {
			return One(st, applyText(fn, st.Resolve(a[0].(Str))))
		}
	}
	r("strings.ToLower", textFn("lower"))
	r("strings.ToUpper", textFn("upper"))
	r("strings.Title", textFn("title"))
	charFn := func(fn string) Intrinsic {
		return func(st *State, c *CallCtx, a []Val) []Res {
			i := a[0].(Int)
			if t, ok := e.charText(i.L); ok {
				sym := e.Tab.Sym(fn+"("+t.Key()+")", big.NewInt(0), big.NewInt(255))
				e.chars[sym] = applyText(fn, t)
				return One(st, Int{dom.Var(sym), i.K})
			}
			return []Res{{St: st, Inline: true}}
		}
	}
	r("unicode.ToLower", charFn("lower"))
	r("unicode.ToUpper", charFn("upper"))
	bytesFn := func(fn string) Intrinsic {
		return func(st *State, c *CallCtx, a []Val) []Res {
			if t, ok := a[0].(Text); ok {
				return One(st, Text{applyText(fn, st.Resolve(t.S))})
			}
			return []Res{{St: st, Inline: true}}
		}
	}
	r("bytes.ToLower", bytesFn("lower"))
	r("bytes.ToUpper", bytesFn("upper"))
	r("internal/bytealg.MakeNoZero", func(st *State, c *CallCtx, a []Val) []Res {
		return e.makeSlice(st, types.NewSlice(types.Typ[types.Uint8]), a[0], a[0])
	})
	r("maps.clone", func(st *State, c *CallCtx, a []Val) []Res {
		i, ok := a[0].(Iface)
		if !ok {
			return stop(st, c)
		}
		m, ok := i.V.(MapRef)
		if !ok {
			return stop(st, c)
		}
		ks, vs := st.MapEntries(m)
		return One(st, Iface{i.T, st.NewMap(append([]Val(nil), ks...), append([]Val(nil), vs...))})
	})
	r("github.com/serenize/snaker.SnakeToCamel", textFn("camel"))
	r("github.com/serenize/snaker.SnakeToCamelLower", textFn("camellower"))
	r("strings.Join", func(st *State, c *CallCtx, a []Val) []Res {
		el, ok := st.Elems(a[0])
		if !ok {
			return stop(st, c)
		}
		out := Str{}
		for i, x := range el {
			if i > 0 {
				out = out.Concat(a[1].(Str))
			}
			out = out.Concat(x.(Str))
		}
		return One(st, out)
	})
	r("strings.Repeat", func(st *State, c *CallCtx, a []Val) []Res {
		return e.Concrete(st, a[1].(Int).L, 16, func(s *State) Res { return Res{St: s, Panic: "strings: negative Repeat count"} }, func(s *State) Res { return Res{St: s, Stop: "strings.Repeat with a large count"} }, func(s *State, n int) []Res {
			out := Str{}
			for i := 0; i < n; i++ {
				out = out.Concat(a[0].(Str))
			}
			return One(s, out)
		})
	})
	lits := func(name string, f func(s []string) Val) {
		r(name, func(st *State, c *CallCtx, a []Val) []Res {
			var ss []string
			for _, x := range a {
				l, ok := lit(st, x)
				if !ok {
					return stop(st, c)
				}
				ss = append(ss, l)
			}
			return One(st, f(ss))
		})
	}
	lits("strings.TrimSpace", func(s []string) Val { return Lit(strings.TrimSpace(s[0])) })
	lits("strings.TrimSuffix", func(s []string) Val { return Lit(strings.TrimSuffix(s[0], s[1])) })
	lits("strings.TrimPrefix", func(s []string) Val { return Lit(strings.TrimPrefix(s[0], s[1])) })
	lits("strings.TrimLeft", func(s []string) Val { return Lit(strings.TrimLeft(s[0], s[1])) })
	lits("strings.TrimRight", func(s []string) Val { return Lit(strings.TrimRight(s[0], s[1])) })
	lits("strings.Contains", func(s []string) Val { return strings.Contains(s[0], s[1]) })
	lits("strings.Index", func(s []string) Val { return I(int64(strings.Index(s[0], s[1]))) })
	lits("strings.ReplaceAll", func(s []string) Val { return Lit(strings.ReplaceAll(s[0], s[1], s[2])) })
	hasPrefix := func(st *State, c *CallCtx, a []Val) []Res {
		s, ok := a[0].(Str)
		p, ok2 := lit(st, a[1])
		if !ok || !ok2 {
			return stop(st, c)
		}
		n := st.Resolve(s).Norm()
		if l, ok := n.Literal(); ok {
			return One(st, strings.HasPrefix(l, p))
		}
		if n.P[0].Atom == nil {
			k := min(len(n.P[0].Lit), len(p))
			if n.P[0].Lit[:k] != p[:k] {
				return One(st, false)
			}
			if len(n.P[0].Lit) >= len(p) {
				return One(st, true)
			}
		}
		return One(st, &Cond{Op: "sym", Name: "prefix:" + n.Key() + ":" + p})
	}
	r("strings.HasPrefix", hasPrefix)
	r("strings.HasSuffix", func(st *State, c *CallCtx, a []Val) []Res {
		s, ok := a[0].(Str)
		p, ok2 := lit(st, a[1])
		if !ok || !ok2 {
			return stop(st, c)
		}
		n := st.Resolve(s).Norm()
		if l, ok := n.Literal(); ok {
			return One(st, strings.HasSuffix(l, p))
		}
		last := n.P[len(n.P)-1]
		if last.Atom == nil {
			if strings.HasSuffix(last.Lit, p) {
				return One(st, true)
			}
			if len(last.Lit) >= len(p) {
				return One(st, false)
			}
		}
		return One(st, &Cond{Op: "sym", Name: "suffix:" + n.Key() + ":" + p})
	})

	// numbers as text
	r("strconv.Itoa", func(st *State, c *CallCtx, a []Val) []Res { return One(st, e.dec(st, a[0].(Int).L, 10)) })
	fint := func(st *State, c *CallCtx, a []Val) []Res {
		b, ok := a[1].(Int).L.Int64()
		if !ok {
			return stop(st, c)
		}
		return One(st, e.dec(st, a[0].(Int).L, int(b)))
	}
	r("strconv.FormatInt", fint)
	r("strconv.FormatUint", fint)
	r("strconv.Quote", func(st *State, c *CallCtx, a []Val) []Res {
		if l, ok := lit(st, a[0]); ok {
			return One(st, Lit(strconv.Quote(l)))
		}
		return One(st, Lit(`"`).Concat(a[0].(Str)).Concat(Lit(`"`)))
	})
	parseNum := func(kind types.BasicKind, signed bool) Intrinsic {
		return func(st *State, c *CallCtx, a []Val) []Res {
			base, bits := int64(10), int64(64)
			if len(a) > 1 {
				b, ok := a[1].(Int).L.Int64()
				w, ok2 := a[2].(Int).L.Int64()
				if !ok || !ok2 {
					return stop(st, c)
				}
				base, bits = b, w
			}
			if bits == 0 {
				bits = 64
			}
			s := st.Resolve(a[0].(Str))
			if l, ok := s.Literal(); ok {
				v, err := strconv.ParseInt(l, int(base), int(bits))
				x := big.NewInt(v)
				if !signed {
					var u uint64
					u, err = strconv.ParseUint(l, int(base), int(bits))
					x = new(big.Int).SetUint64(u)
				}
				if err != nil {
					return One(st, Tuple{Int{dom.ConstBig(x), kind}, e.NewError(st, Lit("parse"))})
				}
				return One(st, Tuple{Int{dom.ConstBig(x), kind}, NilV{}})
			}
			lo, hi := big.NewInt(0), new(big.Int).Sub(pow2(uint(bits)), big.NewInt(1))
			if signed {
				lo, hi = new(big.Int).Neg(pow2(uint(bits-1))), new(big.Int).Sub(pow2(uint(bits-1)), big.NewInt(1))
			}
			// the value of the text in that base, when it fits
			v := dom.Var(e.Tab.Sym(fmt.Sprintf("num(%s,base %d)", s.String(), base), nil, nil))
			y, n := st.Decide(ge(v.Sub(dom.ConstBig(lo))))
			var out []Res
			bad := func(s *State) {
				out = append(out, Res{St: s, V: Tuple{IK(0, kind), e.NewError(s, Lit("parse"))}})
			}
			for _, s := range n {
				bad(s)
			}
			for _, s := range y {
				y2, n2 := s.Decide(ge(dom.ConstBig(hi).Sub(v)))
				for _, t := range n2 {
					bad(t)
				}
				for _, t := range y2 {
					out = append(out, Res{St: t, V: Tuple{Int{v, kind}, NilV{}}})
				}
			}
			return out
		}
	}
	r("strconv.ParseInt", parseNum(types.Int64, true))
	r("strconv.ParseUint", parseNum(types.Uint64, false))
	r("strconv.Atoi", parseNum(types.Int, true))

	// buffers
	for _, t := range []string{"*bytes.Buffer", "*strings.Builder"} {
		t := t
		m := func(name string, f func(st *State, c *CallCtx, p Ptr, a []Val) []Res) {
			r("("+t+")."+name, func(st *State, c *CallCtx, a []Val) []Res {
				p, ok := a[0].(Ptr)
				if !ok {
					return []Res{{St: st, Panic: "nil pointer dereference"}}
				}
				return f(st, c, p, a[1:])
			})
		}
		add := func(st *State, p Ptr, s Str) { st.StoreTo(p, BufV{bufOf(st.load(p)).Concat(s)}) }
		w := func(st *State, c *CallCtx, p Ptr, a []Val) []Res {
			s, ok := e.asStr(st, a[0])
			if !ok {
				return stop(st, c)
			}
			for i := range s.P {
				if s.P[i].Pos == token.NoPos {
					s = Str{append([]Piece(nil), s.P...)}
					s.P[i].Pos = c.Pos
				}
			}
			add(st, p, s)
			return One(st, Tuple{Int{e.strLen(st, s), types.Int}, NilV{}})
		}
		m("Write", w)
		m("WriteString", w)
		wb := func(st *State, c *CallCtx, p Ptr, a []Val) []Res {
			i := a[0].(Int)
			if !i.L.IsConst() {
				return stop(st, c)
			}
			if c.Fn.Name() == "WriteRune" {
				add(st, p, LitPos(string(rune(i.L.C.Int64())), c.Pos))
				return One(st, Tuple{I(1), NilV{}})
			}
			add(st, p, LitPos(string([]byte{byte(i.L.C.Int64())}), c.Pos))
			return One(st, NilV{})
		}
		m("WriteByte", wb)
		m("WriteRune", wb)
		m("String", func(st *State, c *CallCtx, p Ptr, a []Val) []Res { return One(st, bufOf(st.load(p))) })
		m("Bytes", func(st *State, c *CallCtx, p Ptr, a []Val) []Res { return One(st, Text{bufOf(st.load(p))}) })
		m("Len", func(st *State, c *CallCtx, p Ptr, a []Val) []Res {
			return One(st, Int{e.strLen(st, bufOf(st.load(p))), types.Int})
		})
		m("Reset", func(st *State, c *CallCtx, p Ptr, a []Val) []Res {
			st.StoreTo(p, BufV{})
			return One(st, nil)
		})
		m("Grow", func(st *State, c *CallCtx, p Ptr, a []Val) []Res { return One(st, nil) })
	}
	nb := func(st *State, c *CallCtx, a []Val) []Res {
		s, ok := e.asStr(st, a[0])
		if !ok {
			return stop(st, c)
		}
		return One(st, st.New(BufV{s}))
	}
	r("bytes.NewBuffer", nb)
	r("bytes.NewBufferString", nb)
	r("io.WriteString", func(st *State, c *CallCtx, a []Val) []Res {
		s := a[1].(Str)
		return e.writeTo(st, a[0], s, c.Pos, func(st *State) Val { return Tuple{Int{e.strLen(st, s), types.Int}, NilV{}} })
	})

	// bytes
	r("bytes.IndexByte", func(st *State, c *CallCtx, a []Val) []Res {
		ch := a[1].(Int).L
		switch v := a[0].(type) {
		case View:
			// position of the first such byte, or -1: a canonical symbol
			i := e.IndexOf(v, ch)
			s := st.Store.GE(v.Len.Sub(i).AddC(-1)) // i < len
			if s == nil {
				return One(st, I(-1))
			}
			n := st.Clone()
			n.Store = s
			return One(n, Int{i, types.Int})
		case NilV:
			return One(st, I(-1))
		}
		el, ok := st.Elems(a[0])
		if !ok {
			return stop(st, c)
		}
		var out []Res
		cur := []*State{st}
		for i, x := range el {
			var next []*State
			for _, s := range cur {
				y, n := s.Decide(s.eqLin(x.(Int).L, ch))
				for _, t := range y {
					out = append(out, Res{St: t, V: I(int64(i))})
				}
				next = append(next, n...)
			}
			cur = next
		}
		for _, s := range cur {
			out = append(out, Res{St: s, V: I(-1)})
		}
		return out
	})

	// sorting
	e.redirect("sort.Sort", "Sort")
	e.redirect("sort.Stable", "SortStable")
	e.redirect("sort.Slice", "SortSlice")
	e.redirect("sort.SliceStable", "SortSliceStable")
	r("verif/model.Any", func(st *State, c *CallCtx, a []Val) []Res {
		return []Res{{St: st.Clone(), V: true}, {St: st, V: false}}
	})
	r("verif/model.Text", func(st *State, c *CallCtx, a []Val) []Res {
		n, ok := lit(st, a[0])
		if !ok {
			return stop(st, c)
		}
		return One(st, Name(n))
	})
	r("verif/model.Number", func(st *State, c *CallCtx, a []Val) []Res {
		n, ok := lit(st, a[0])
		if !ok {
			return stop(st, c)
		}
		m := pow2(63)
		return One(st, Int{dom.Var(e.Tab.Sym("flag "+n, new(big.Int).Neg(m), new(big.Int).Sub(m, big.NewInt(1)))), types.Int64})
	})
	r("verif/model.Fault", func(st *State, c *CallCtx, a []Val) []Res {
		err := e.NewError(st, a[0].(Str))
		st.Emit("fault", c.Pos, a[0], err)
		return One(st, err)
	})
	for n, stops := range map[string]bool{"Fatal": true, "Fatalf": true, "FailNow": true, "Error": false, "Errorf": false, "Fail": false} {
		stops := stops
		r("(*testing.T)."+n, func(st *State, c *CallCtx, a []Val) []Res {
			st.Emit("testfail", c.Pos)
			return []Res{{St: st, Exit: stops}}
		})
	}
	for _, n := range []string{"Skip", "SkipNow"} {
		r("(*testing.T)."+n, func(st *State, c *CallCtx, a []Val) []Res {
			st.Emit("testskip", c.Pos)
			return []Res{{St: st, Exit: true}}
		})
	}
	r("verif/model.Note", func(st *State, c *CallCtx, a []Val) []Res {
		k, _ := a[0].(Str)
		st.Emit(st.Resolve(k).String(), c.Pos, a[1])
		return []Res{{St: st}}
	})
	r("verif/model.Swappable", func(st *State, c *CallCtx, a []Val) []Res {
		if x, ok := a[0].(Iface); ok {
			if s, ok := x.V.(Slice); ok {
				i, ok1 := a[1].(Int).L.Int64()
				j, ok2 := a[2].(Int).L.Int64()
				if ok1 && ok2 {
					p, q := st.load(Ptr{s.Obj, sub(s.Path, s.Off+int(i))}), st.load(Ptr{s.Obj, sub(s.Path, s.Off+int(j))})
					if eq := st.EqVal(p, q); eq != nil {
						if y, n := st.Decide(eq); len(n) == 0 && len(y) == 1 {
							return One(st, false)
						}
					}
				}
			}
		}
		return One(st, &Cond{Op: "sym", Name: e.freshName("tie")})
	})
	r("verif/model.Len", func(st *State, c *CallCtx, a []Val) []Res {
		i, ok := a[0].(Iface)
		if !ok {
			return []Res{{St: st, Panic: "reflect: len of nil"}}
		}
		return One(st, Int{e.Len(st, i.V), types.Int})
	})
	r("verif/model.Swap", func(st *State, c *CallCtx, a []Val) []Res {
		s := a[0].(Iface).V.(Slice)
		i, _ := a[1].(Int).L.Int64()
		j, _ := a[2].(Int).L.Int64()
		pi, pj := Ptr{s.Obj, sub(s.Path, s.Off+int(i))}, Ptr{s.Obj, sub(s.Path, s.Off+int(j))}
		x, y := st.load(pi), st.load(pj)
		st.StoreTo(pi, y)
		st.StoreTo(pj, x)
		return One(st, nil)
	})

	// a struct parser defined elsewhere: consumes some prefix or fails
	r("verif/model.ExternParse", func(st *State, c *CallCtx, a []Val) []Res {
		i := a[0].(Iface)
		v, ok := a[1].(View)
		if !ok {
			return stop(st, c)
		}
		var ctxs []string
		for _, x := range e.variadic(st, a[2]) {
			ctxs = append(ctxs, st.Show(x.(Iface).V))
		}
		key, valid, used := e.ExternKey(typeStr(i.T), v, ctxs)
		y, n := st.Decide(valid)
		var out []Res
		for _, s := range n {
			out = append(out, Res{St: s, V: Tuple{NilV{}, e.NewError(s, Lit("extern"))}})
		}
		for _, s := range y {
			ns := s.Store.GE(v.Len.Sub(used))
			if ns == nil {
				continue
			}
			t := s.Clone()
			t.Store = ns
			t.StoreTo(i.V.(Ptr), &StructV{F: []Val{AtomStr(&Atom{Key: "content(" + key + ")", Fn: "opaque"})}})
			out = append(out, Res{St: t, V: Tuple{View{v.Base, v.Off.Add(used), v.Len.Sub(used)}, NilV{}}})
		}
		return out
	})

	// generated source post-processing keeps the text
	r("golang.org/x/tools/imports.Process", func(st *State, c *CallCtx, a []Val) []Res {
		s, ok := e.asStr(st, a[1])
		if !ok {
			return stop(st, c)
		}
		st.Emit("imports", c.Pos, a[0], Text{s}, a[2])
		return e.Fallible(st, "imports.Process", c.Pos, Tuple{Text{s}, NilV{}}, func(s *State, err Val) Val { return Tuple{NilV{}, err} })
	})
	fmtsrc := func(st *State, c *CallCtx, a []Val) []Res {
		s, ok := e.asStr(st, a[0])
		if !ok {
			return stop(st, c)
		}
		return e.Fallible(st, "format.Source", c.Pos, Tuple{Text{s}, NilV{}}, func(s *State, err Val) Val { return Tuple{NilV{}, err} })
	}
	r("go/format.Source", fmtsrc)

	// paths
	join := func(st *State, c *CallCtx, a []Val) []Res {
		el := e.variadic(st, a[0])
		var ls []string
		all := true
		for _, x := range el {
			l, ok := lit(st, x)
			all = all && ok
			ls = append(ls, l)
		}
		if all {
			return One(st, Lit(path.Join(ls...)))
		}
		out := Str{}
		for i, x := range el {
			s := x.(Str)
			if l, ok := lit(st, s); ok {
				if l == "" {
					continue
				}
				s = Lit(path.Clean(l))
			}
			if i > 0 && len(out.P) > 0 {
				out = out.Concat(Lit("/"))
			}
			out = out.Concat(s)
		}
		return One(st, out.Norm())
	}
	r("path/filepath.Join", join)
	r("path.Join", join)

	// files
	m63 := new(big.Int).Sub(pow2(63), big.NewInt(1))
	effect := func(name, kind string, fallible bool) {
		r(name, func(st *State, c *CallCtx, a []Val) []Res {
			st.Emit(kind, c.Pos, a...)
			res := c.Sig.Results()
			ok := make(Tuple, res.Len())
			for i := range ok {
				ok[i] = e.Zero(res.At(i).Type())
				if i < res.Len()-1 {
					ok[i] = Opaque{e.freshName(kind)}
				}
			}
			unwrap := func(t Tuple) Val {
				if len(t) == 1 {
					return t[0]
				}
				if len(t) == 0 {
					return nil
				}
				return t
			}
			if !fallible {
				return One(st, unwrap(ok))
			}
			return e.Fallible(st, name, c.Pos, unwrap(ok), func(s *State, err Val) Val {
				t := append(Tuple(nil), ok...)
				for i := range t {
					t[i] = e.Zero(res.At(i).Type())
				}
				t[len(t)-1] = err
				return unwrap(t)
			})
		})
	}
	for _, n := range []string{"os.WriteFile", "io/ioutil.WriteFile"} {
		effect(n, "writefile", true)
	}
	for _, n := range []string{"os.MkdirAll", "os.Mkdir"} {
		effect(n, "mkdir", true)
	}
	for _, n := range []string{"os.Remove", "os.RemoveAll", "os.Rename", "os.Chmod", "os.Chdir", "os.Truncate", "os.Symlink", "os.Link", "os.Chtimes"} {
		effect(n, "fs:"+strings.TrimPrefix(n, "os."), true)
	}
	for _, n := range []string{"os.CreateTemp", "os.MkdirTemp", "io/ioutil.TempFile", "io/ioutil.TempDir", "os.Chown", "os.ReadFile", "os.ReadDir", "os.Stat", "os.Lstat", "io/ioutil.ReadFile", "io/ioutil.ReadDir"} {
		effect(n, "fs:"+n[strings.LastIndexByte(n, '.')+1:], true)
	}
	// open files are objects that hold their path
	file := func(name string, mode func(a []Val) string) {
		r(name, func(st *State, c *CallCtx, a []Val) []Res {
			m := mode(a)
			st.Emit("open:"+m, c.Pos, a[0])
			p := st.New(&StructV{F: []Val{a[0], Lit(m)}})
			return e.Fallible(st, name, c.Pos, Tuple{p, NilV{}}, func(s *State, err Val) Val { return Tuple{NilV{}, err} })
		})
	}
	file("os.Create", func([]Val) string { return "trunc" })
	file("os.Open", func([]Val) string { return "read" })
	file("os.OpenFile", func(a []Val) string {
		if f, ok := a[1].(Int); ok && f.L.IsConst() {
			switch fl := int(f.L.C.Int64()); {
			case fl&(os.O_WRONLY|os.O_RDWR) == 0:
				return "read"
			case fl&os.O_APPEND == 0 && fl&os.O_TRUNC != 0 && fl&os.O_CREATE != 0 && fl&os.O_EXCL == 0:
				return "trunc"
			}
		}
		return "other"
	})
	fileWrite := func(n string, at int) {
		r("(*os.File)."+n, func(st *State, c *CallCtx, a []Val) []Res {
			p, ok := a[0].(Ptr)
			if !ok {
				return stop(st, c)
			}
			f, ok := st.Load(p).(*StructV)
			if !ok || len(f.F) != 2 {
				return stop(st, c)
			}
			st.Emit("filewrite", c.Pos, f.F[0], a[1])
			var n Val = Int{e.Fresh("written", big.NewInt(0), m63), types.Int}
			return e.Fallible(st, "(*os.File)."+c.Fn.Name(), c.Pos, Tuple{n, NilV{}}, func(s *State, err Val) Val { return Tuple{n, err} })
		})
	}
	fileWrite("Write", 1)
	fileWrite("WriteString", 1)
	for _, n := range []string{"Close", "Sync"} {
		r("(*os.File)."+n, func(st *State, c *CallCtx, a []Val) []Res { return One(st, NilV{}) })
	}
	r("(*os.File).Name", func(st *State, c *CallCtx, a []Val) []Res {
		if p, ok := a[0].(Ptr); ok {
			if f, ok := st.Load(p).(*StructV); ok && len(f.F) == 2 {
				return One(st, f.F[0])
			}
		}
		return stop(st, c)
	})
	effect("github.com/spf13/afero.WriteReader", "afero:writereader", true)
	effect("github.com/spf13/afero.SafeWriteReader", "afero:writereader", true)

	// hashing: an opaque function of the exact bytes
	digest := func(key string) *ArrayV {
		arr := &ArrayV{}
		for i := 0; i < 32; i++ {
			arr.E = append(arr.E, Int{dom.Var(e.Tab.Sym(fmt.Sprintf("sha256(%s)[%d]", key, i), big.NewInt(0), big.NewInt(255))), types.Uint8})
		}
		return arr
	}
	r("crypto/sha256.Sum256", func(st *State, c *CallCtx, a []Val) []Res {
		return One(st, digest(st.Show(a[0])))
	})
	r("encoding/hex.EncodeToString", func(st *State, c *CallCtx, a []Val) []Res {
		el, ok := st.Elems(a[0])
		if !ok {
			return stop(st, c)
		}
		return One(st, e.hexText(el))
	})

	// process
	exit := func(st *State, c *CallCtx, a []Val) []Res {
		st.Emit("exit:"+c.Fn.String(), c.Pos, a...)
		return []Res{{St: st, Exit: true}}
	}
	for _, n := range []string{"os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln"} {
		r(n, exit)
	}
	for _, n := range []string{"log.Print", "log.Printf", "log.Println"} {
		r(n, func(st *State, c *CallCtx, a []Val) []Res {
			st.Emit("output", c.Pos, Opaque{"log"})
			return One(st, nil)
		})
	}

	// random source: any value within the documented range
	rnd := "(*github.com/mmcloughlin/random.source)."
	draw := func(name string, k types.BasicKind, lo, hi *big.Int) {
		r(rnd+name, func(st *State, c *CallCtx, a []Val) []Res {
			st.Emit("draw", c.Pos, a...)
			return One(st, Int{e.Fresh("rnd", lo, hi), k})
		})
	}
	m1 := func(n uint) *big.Int { return new(big.Int).Sub(pow2(n), big.NewInt(1)) }
	draw("Int63", types.Int64, big.NewInt(0), m1(63))
	draw("Int31", types.Int32, big.NewInt(0), m1(31))
	draw("Int", types.Int, big.NewInt(0), m1(63))
	draw("Uint32", types.Uint32, big.NewInt(0), m1(32))
	draw("Uint64", types.Uint64, big.NewInt(0), m1(64))
	intn := func(st *State, c *CallCtx, a []Val) []Res {
		n := a[1].(Int)
		st.Emit("draw", c.Pos, a...)
		var out []Res
		y, bad := st.Decide(ge(n.L.AddC(-1)))
		for _, s := range bad {
			out = append(out, Res{St: s, Panic: "invalid argument to Intn"})
		}
		for _, s := range y {
			if e.DrawCases != nil {
				if cs := e.DrawCases(s, n.L); cs != nil {
					for _, l := range cs {
						t := s.Clone()
						out = append(out, Res{St: t, V: Int{l, n.K}})
					}
					continue
				}
			}
			x := e.Fresh("rndn", big.NewInt(0), m1(63))
			if ns := s.Store.GE(n.L.Sub(x).AddC(-1)); ns != nil {
				t := s.Clone()
				t.Store = ns
				out = append(out, Res{St: t, V: Int{x, n.K}})
			}
		}
		return out
	}
	r(rnd+"Intn", intn)
	r(rnd+"Int63n", intn)
	r(rnd+"Int31n", intn)
	r(rnd+"Read", func(st *State, c *CallCtx, a []Val) []Res {
		st.Emit("draw", c.Pos, a...)
		switch b := a[1].(type) {
		case NilV:
			return One(st, Tuple{I(0), NilV{}})
		case Slice:
			arr := st.load(Ptr{b.Obj, b.Path}).(*ArrayV)
			el := append([]Val(nil), arr.E...)
			for i := 0; i < b.Len; i++ {
				el[b.Off+i] = Int{e.Fresh("rndbyte", big.NewInt(0), big.NewInt(255)), types.Uint8}
			}
			st.StoreTo(Ptr{b.Obj, b.Path}, &ArrayV{el})
			return One(st, Tuple{I(int64(b.Len)), NilV{}})
		}
		return stop(st, c)
	})
	// global random state: recorded, since results must not depend on it
	for _, n := range []string{"Perm", "Intn", "Int63", "Int", "Float64", "Shuffle", "Seed"} {
		n := n
		r("math/rand."+n, func(st *State, c *CallCtx, a []Val) []Res {
			st.Emit("globalrand", c.Pos, Lit(n))
			return stop(st, c)
		})
	}
}

func (e *Engine) redirect(name, model string) {
	if p := e.Prog.ImportedPackage("verif/model"); p != nil {
		if f := p.Func(model); f != nil {
			e.Redirect[name] = f
		}
	}
}

// fmtCall formats the arguments of a fmt function.
func (e *Engine) fmtCall(st *State, mode string, a []Val, pos token.Pos) (Str, bool) {
	switch mode {
	case "f":
		f, ok := a[0].(Str)
		if !ok {
			return Str{}, false
		}
		s, err := e.Sprintf(st, f, e.variadic(st, a[1]), pos)
		return s, err == nil
	default:
		out := Str{}
		prevStr := true
		for i, x := range e.variadic(st, a[0]) {
			_, isStr := Val(nil), false
			if v, ok := x.(Iface); ok {
				_, isStr = v.V.(Str)
			}
			if i > 0 && (mode == "ln" || (!isStr && !prevStr)) {
				out = out.Concat(LitPos(" ", pos))
			}
			prevStr = isStr
			out = out.Concat(e.formatOne(st, 'v', "", x))
		}
		if mode == "ln" {
			out = out.Concat(LitPos("\n", pos))
		}
		return out, true
	}
}
