package schema

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"verif/tool/ai"
	"verif/tool/dom"
)

// Want is the value a field must hold: WInt, WText, WStruct, WExtern, WArr,
// WLen, or nil for untouched.
type Want interface{}

type (
	// WInt is an integer.
	WInt struct{ L dom.Lin }
	// WText is a string with the bytes of a window.
	WText struct{ V ai.View }
	// WStruct is a nested struct.
	WStruct struct{ F map[string]Want }
	// WExtern is a struct parsed elsewhere, identified by its invocation.
	WExtern struct{ Key string }
	// WArr is an array with these elements.
	WArr struct{ E []Want }
	// WLen is an array of which only the length is specified.
	WLen struct{ L dom.Lin }
)

// Out is one class of inputs and the required outcome.
type Out struct {
	St  *ai.State
	Err string // non-empty: must be rejected, for this reason
	// Any: the class mixes valid and invalid inputs; only the form of the
	// result is specified.
	Any  bool
	Rest ai.View
	F    map[string]Want
}

// Spec gives schemas their reference meaning.
type Spec struct {
	E        *ai.Engine
	Consts   map[string]*big.Int
	Structs  map[string]*Struct
	Ctxs     map[string]*Ctx
	TypeName func(string) string
	// MaxList is the number of elements kept apart.
	MaxList int
	// Progress: extern parsers consume at least one byte.
	Progress bool
}

// NewSpec prepares the meaning of files.
func NewSpec(e *ai.Engine, fs ...*File) *Spec {
	s := &Spec{E: e, Consts: map[string]*big.Int{}, Structs: map[string]*Struct{}, Ctxs: map[string]*Ctx{}, MaxList: 2}
	for _, f := range fs {
		for _, c := range f.Consts {
			s.Consts[c.Name] = c.Val
		}
		for _, c := range f.Ctxs {
			s.Ctxs[c.Name] = c
		}
		for _, x := range f.Structs {
			if o := s.Structs[x.Name]; o == nil || o.Extern {
				s.Structs[x.Name] = x
			}
		}
	}
	return s
}

// Int is the value of an integer.
func (s *Spec) Int(i Integer) *big.Int {
	if i.Const != "" {
		v, ok := s.Consts[i.Const]
		if !ok {
			panic("undefined constant in " + i.Const)
		}
		return v
	}
	return i.Val
}

type sstate struct {
	st   *ai.State
	err  string
	any  bool
	lost bool
	data ai.View // input of the current struct
	cur  ai.View
	f    map[string]Want
}

func (x *sstate) with(st *ai.State) *sstate {
	n := *x
	n.st = st
	return &n
}

func (x *sstate) set(name string, w Want) {
	m := make(map[string]Want, len(x.f)+1)
	for k, v := range x.f {
		m[k] = v
	}
	m[name] = w
	x.f = m
}

func (x *sstate) fail(why string) *sstate {
	n := *x
	n.err = why
	return &n
}

func (x *sstate) done() bool { return x.err != "" || x.lost }

// CtxVal is the value of a context member.
func (s *Spec) CtxVal(scope, name string) dom.Lin {
	c := s.Ctxs[scope]
	for _, f := range c.Fields {
		if f.Name == name {
			w := uint(8)
			if it, ok := f.Type.(*Int); ok {
				w = it.Size
			}
			hi := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), w), big.NewInt(1))
			return dom.Var(s.E.Tab.Sym("ctx:"+scope+"."+name, big.NewInt(0), hi))
		}
	}
	panic("context member " + scope + "." + name)
}

// CtxShow identifies the values of a context.
func (s *Spec) ctxShow(name string) string {
	var p []string
	for _, f := range s.Ctxs[name].Fields {
		p = append(p, s.E.Tab.Format(s.CtxVal(name, f.Name)))
	}
	return "{" + strings.Join(p, " ") + "}"
}

// Run is the meaning of parsing data as struct name.
func (s *Spec) Run(st *ai.State, name string, data ai.View) []Out {
	var out []Out
	for _, x := range s.structure(&sstate{st: st, cur: data}, s.Structs[name]) {
		out = append(out, Out{St: x.st, Err: x.err, Any: x.any || x.lost, Rest: x.cur, F: x.f})
	}
	return out
}

// structure parses one struct; the result states carry its fields in f and the
// position after it in cur.
func (s *Spec) structure(x *sstate, d *Struct) []*sstate {
	n := *x
	n.data, n.f = x.cur, map[string]Want{}
	cur := []*sstate{&n}
	cur = s.members(cur, d.Members, d)
	return cur
}

func (s *Spec) members(cur []*sstate, ms []Member, d *Struct) []*sstate {
	for _, m := range ms {
		cur = each(cur, func(x *sstate) []*sstate { return s.member(x, m, d) })
	}
	return cur
}

func each(cur []*sstate, f func(*sstate) []*sstate) []*sstate {
	var out []*sstate
	for _, x := range cur {
		if x.done() {
			out = append(out, x)
			continue
		}
		out = append(out, f(x)...)
	}
	return out
}

func ge(l dom.Lin) ai.Val {
	if l.IsConst() {
		return l.C.Sign() >= 0
	}
	return &ai.Cond{Op: "ge", L: l}
}

// need splits on at least n bytes being available.
func need(x *sstate, n dom.Lin, why string, ok func(*sstate) []*sstate) []*sstate {
	var out []*sstate
	y, no := x.st.Decide(ge(x.cur.Len.Sub(n)))
	for _, t := range no {
		out = append(out, x.with(t).fail(why))
	}
	for _, t := range y {
		out = append(out, ok(x.with(t))...)
	}
	return out
}

func (x *sstate) advance(n dom.Lin) {
	x.cur = ai.View{Base: x.cur.Base, Off: x.cur.Off.Add(n), Len: x.cur.Len.Sub(n)}
}

func (s *Spec) member(x *sstate, m Member, d *Struct) []*sstate {
	switch m := m.(type) {
	case *Field:
		var out []*sstate
		for _, r := range s.value(x, m.Type, d, m.Name) {
			y := r.x
			if !y.done() {
				c := *y
				c.set(m.Name, r.w)
				y = &c
			}
			out = append(out, y)
		}
		return out
	case EOS:
		return s.atEnd(x, "eos")
	case Fail:
		return []*sstate{x.fail("fail")}
	case Ignore:
		n := *x
		n.cur = ai.View{Base: x.cur.Base, Off: x.cur.Off.Add(x.cur.Len), Len: dom.Const(0)}
		return []*sstate{&n}
	case *Union:
		return s.union(x, m, d)
	}
	panic("member")
}

func (s *Spec) atEnd(x *sstate, why string) []*sstate {
	var out []*sstate
	y, n := x.st.Decide(ge(x.cur.Len.AddC(-1)))
	for _, t := range y {
		out = append(out, x.with(t).fail(why))
	}
	for _, t := range n {
		out = append(out, x.with(t))
	}
	return out
}

func (s *Spec) ref(x *sstate, r *Ref) dom.Lin {
	if r.Scope != "" {
		return s.CtxVal(r.Scope, r.Name)
	}
	w, ok := x.f[r.Name].(WInt)
	if !ok {
		panic("reference to " + r.Name)
	}
	return w.L
}

// region decodes f within n bytes (n given) which must be used up.
func (s *Spec) region(x *sstate, l Length, f func(*sstate) []*sstate) []*sstate {
	var n dom.Lin
	var min dom.Lin
	switch l := l.(type) {
	case *Ref:
		n = s.ref(x, l)
		min = n
	case *Leftover:
		k := dom.ConstBig(s.Int(l.Num))
		n = x.cur.Len.Sub(k)
		min = k
	}
	return need(x, min, "region-short", func(x *sstate) []*sstate {
		outer := x.cur
		in := *x
		in.cur = ai.View{Base: outer.Base, Off: outer.Off, Len: n}
		cur := f(&in)
		cur = each(cur, func(y *sstate) []*sstate { return s.atEnd(y, "region-trailing") })
		var out []*sstate
		for _, y := range cur {
			if y.err == "" {
				c := *y
				c.cur = ai.View{Base: outer.Base, Off: outer.Off.Add(n), Len: outer.Len.Sub(n)}
				// after a region the position is known again
				if c.lost {
					c.lost, c.any = false, true
				}
				y = &c
			}
			out = append(out, y)
		}
		return out
	})
}

// in splits on membership of v in a list.
func (s *Spec) in(st *ai.State, v dom.Lin, l []Range) (yes, no []*ai.State) {
	rest := []*ai.State{st}
	for _, r := range l {
		lo := dom.ConstBig(s.Int(r.Lo))
		hi := lo
		if r.Hi != nil {
			hi = dom.ConstBig(s.Int(*r.Hi))
		}
		var next []*ai.State
		for _, t := range rest {
			a, b := t.Decide(ge(v.Sub(lo)))
			next = append(next, b...)
			for _, u := range a {
				c, d := u.Decide(ge(hi.Sub(v)))
				yes = append(yes, c...)
				next = append(next, d...)
			}
		}
		rest = next
	}
	return yes, rest
}

func (s *Spec) union(x *sstate, u *Union, d *Struct) []*sstate {
	if u.Len != nil {
		v := *u
		v.Len = nil
		return s.region(x, u.Len, func(y *sstate) []*sstate { return s.union(y, &v, d) })
	}
	tag := s.ref(x, u.Tag)
	rest := []*ai.State{x.st}
	var out []*sstate
	var def *Case
	for _, c := range u.Cases {
		if c.Default {
			def = c
			continue
		}
		var next []*ai.State
		for _, t := range rest {
			y, n := s.in(t, tag, c.List)
			for _, z := range y {
				out = append(out, s.members([]*sstate{x.with(z)}, c.Members, d)...)
			}
			next = append(next, n...)
		}
		rest = next
	}
	for _, t := range rest {
		y := x.with(t)
		if def != nil {
			out = append(out, s.members([]*sstate{y}, def.Members, d)...)
		} else {
			y.any = true // no case applies: left open
			out = append(out, y)
		}
	}
	return out
}

type valued struct {
	x *sstate
	w Want
}

// width is the fixed size of a type every value of which is valid.
func (s *Spec) width(t Type) (int64, bool) {
	switch t := t.(type) {
	case *Int:
		return int64(t.Size / 8), t.In == nil
	case Char:
		return 1, true
	case *StructRef:
		d := s.Structs[t.Name]
		if d == nil || d.Extern {
			return 0, false
		}
		n := int64(0)
		for _, m := range d.Members {
			f, ok := m.(*Field)
			if !ok {
				return 0, false
			}
			w, ok := s.width(f.Type)
			if !ok {
				return 0, false
			}
			n += w
		}
		return n, true
	case *Fixed:
		w, ok := s.width(t.Base)
		if !ok {
			return 0, false
		}
		return w * s.Int(t.Size).Int64(), true
	}
	return 0, false
}

func (s *Spec) value(x *sstate, t Type, d *Struct, label string) []valued {
	var out []valued
	add := func(xs []*sstate, w Want) {
		for _, y := range xs {
			out = append(out, valued{y, w})
		}
	}
	switch t := t.(type) {
	case *Int, Char:
		n := int64(1)
		var list []Range
		if it, ok := t.(*Int); ok {
			n, list = int64(it.Size/8), it.In
		}
		v := s.E.BE(x.cur.Base, x.cur.Off, int(n))
		add(need(x, dom.Const(n), "short:"+label, func(y *sstate) []*sstate {
			y.advance(dom.Const(n))
			if list == nil {
				return []*sstate{y}
			}
			yes, no := s.in(y.st, v, list)
			var r []*sstate
			for _, z := range yes {
				r = append(r, y.with(z))
			}
			for _, z := range no {
				r = append(r, y.with(z).fail("constraint:"+label))
			}
			return r
		}), WInt{v})
	case NulTerm:
		i := s.E.IndexOf(x.cur, dom.Const(0))
		y, n := x.st.Decide(ge(i))
		for _, t := range n {
			out = append(out, valued{x.with(t).fail("nulterm:" + label), nil})
		}
		for _, t := range y {
			for _, u := range t.Assume(ge(x.cur.Len.Sub(i).AddC(-1))) {
				z := x.with(u)
				w := WText{ai.View{Base: z.cur.Base, Off: z.cur.Off, Len: i}}
				z.advance(i.AddC(1))
				out = append(out, valued{z, w})
			}
		}
	case Ptr:
		n := *x
		out = append(out, valued{&n, WInt{x.cur.Off.Sub(x.data.Off)}})
	case *StructRef:
		r := s.Structs[t.Name]
		if r.Extern {
			var ctxs []string
			for _, c := range r.Ctx {
				ctxs = append(ctxs, s.ctxShow(c))
			}
			key, valid, used := s.E.ExternKey("*"+s.TypeName(t.Name), x.cur, ctxs)
			y, n := x.st.Decide(valid)
			for _, t := range n {
				out = append(out, valued{x.with(t).fail("nested:" + label), nil})
			}
			for _, t := range y {
				for _, u := range t.Assume(ge(x.cur.Len.Sub(used))) {
					z := x.with(u)
					z.advance(used)
					out = append(out, valued{z, WExtern{key}})
				}
			}
			return out
		}
		for _, y := range s.structure(x, r) {
			w := WStruct{y.f}
			c := *y
			c.data, c.f = x.data, x.f
			if c.err != "" && !strings.HasPrefix(c.err, "nested:") {
				c.err = "nested:" + c.err
			}
			out = append(out, valued{&c, w})
		}
	case *Fixed:
		n := s.Int(t.Size).Int64()
		return s.repeat(x, t.Base, d, label, int(n))
	case *Var:
		switch l := t.Len.(type) {
		case nil:
			return s.open(x, t.Base, d, label)
		case *Leftover:
			// the elements fill the region
			var ws []valued
			cur := s.region(x, l, func(y *sstate) []*sstate {
				var r []*sstate
				for _, v := range s.open(y, t.Base, d, label) {
					c := *v.x
					c.set("\x00", v.w)
					r = append(r, &c)
				}
				return r
			})
			for _, y := range cur {
				ws = append(ws, valued{y, y.f["\x00"]})
			}
			return ws
		case *Ref:
			n := s.ref(x, l)
			return s.counted(x, t.Base, d, label, n)
		}
	default:
		panic("type")
	}
	return out
}

func (s *Spec) repeat(x *sstate, base Type, d *Struct, label string, n int) []valued {
	cur := []valued{{x, WArr{}}}
	for i := 0; i < n; i++ {
		var next []valued
		for _, v := range cur {
			if v.x.done() {
				next = append(next, v)
				continue
			}
			for _, e := range s.value(v.x, base, d, label) {
				w := WArr{append(append([]Want(nil), v.w.(WArr).E...), e.w)}
				next = append(next, valued{e.x, w})
			}
		}
		cur = next
	}
	return cur
}

func (s *Spec) counted(x *sstate, base Type, d *Struct, label string, n dom.Lin) []valued {
	var out []valued
	rest := []*ai.State{x.st}
	for k := 0; k <= s.MaxList; k++ {
		var next []*ai.State
		for _, t := range rest {
			y, no := t.Decide(&ai.Cond{Op: "eq", L: n.AddC(int64(-k))})
			if n.IsConst() {
				y, no = nil, nil
				if n.C.Cmp(big.NewInt(int64(k))) == 0 {
					y = []*ai.State{t}
				} else {
					no = []*ai.State{t}
				}
			}
			for _, u := range y {
				out = append(out, s.repeat(x.with(u), base, d, label, k)...)
			}
			next = append(next, no...)
		}
		rest = next
	}
	for _, t := range rest {
		y := x.with(t)
		w, ok := s.width(base)
		if !ok {
			// element sizes vary: only the form of the result is specified,
			// unless not even the shortest elements can fit
			z := *y
			z.lost = true
			out = append(out, valued{&z, WLen{n}})
			continue
		}
		for _, z := range need(y, n.Mul(big.NewInt(w)), "short:"+label, func(z *sstate) []*sstate {
			z.advance(n.Mul(big.NewInt(w)))
			return []*sstate{z}
		}) {
			out = append(out, valued{z, WLen{n}})
		}
	}
	return out
}

func (s *Spec) open(x *sstate, base Type, d *Struct, label string) []valued {
	var out []valued
	cur := []valued{{x, WArr{}}}
	for k := 0; ; k++ {
		var more []valued
		for _, v := range cur {
			if v.x.done() {
				out = append(out, v)
				continue
			}
			y, n := v.x.st.Decide(ge(v.x.cur.Len.AddC(-1)))
			for _, t := range n {
				out = append(out, valued{v.x.with(t), v.w})
			}
			for _, t := range y {
				more = append(more, valued{v.x.with(t), v.w})
			}
		}
		if len(more) == 0 {
			return out
		}
		if k >= s.MaxList {
			for _, v := range more {
				w, ok := s.width(base)
				if !ok || w == 0 {
					z := *v.x
					z.lost = true
					out = append(out, valued{&z, WLen{dom.Var(s.E.Tab.Fresh("count", big.NewInt(0), nil))}})
					continue
				}
				st := v.x.st.Clone()
				q, r := s.E.DivMod(st, v.x.cur.Len, big.NewInt(w))
				bad, good := st.Decide(ge(r.AddC(-1)))
				for _, t := range bad {
					out = append(out, valued{v.x.with(t).fail("short:" + label), nil})
				}
				for _, t := range good {
					z := v.x.with(t)
					z.advance(z.cur.Len)
					out = append(out, valued{z, WLen{q.AddC(int64(k))}})
				}
			}
			return out
		}
		cur = nil
		for _, v := range more {
			for _, e := range s.value(v.x, base, d, label) {
				w := WArr{append(append([]Want(nil), v.w.(WArr).E...), e.w)}
				cur = append(cur, valued{e.x, w})
			}
		}
	}
}

// GoType is the Go type corresponding to a schema type.
func (s *Spec) GoType(t Type, named func(string) string) string {
	switch t := t.(type) {
	case *Int:
		return fmt.Sprintf("uint%d", t.Size)
	case Char:
		return "uint8"
	case NulTerm:
		return "string"
	case Ptr:
		return "int"
	case *StructRef:
		return "*" + named(t.Name)
	case *Fixed:
		return fmt.Sprintf("[%s]%s", s.Int(t.Size), s.GoType(t.Base, named))
	case *Var:
		return "[]" + s.GoType(t.Base, named)
	}
	panic("type")
}

// AllFields lists the fields of a struct including union case members.
func AllFields(ms []Member) []*Field {
	var out []*Field
	for _, m := range ms {
		switch m := m.(type) {
		case *Field:
			out = append(out, m)
		case *Union:
			for _, c := range m.Cases {
				out = append(out, AllFields(c.Members)...)
			}
		}
	}
	return out
}

var _ = types.Int
