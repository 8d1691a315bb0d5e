package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"verif/tool/ai"
	"verif/tool/dom"
	"verif/tool/schema"
)

// mismatch is a disagreement between the emitted parser and the schema.
type mismatch struct {
	kind string // crash, accept, reject, value, rest, contract, undecided, untouched
	path string // field or reason
	msg  string
	pos  token.Pos // where the generator printed the responsible text
}

type comparer struct {
	g     *genRun
	pairs int
	ok    int
	out   []mismatch
	joint *dom.Store
}

func (c *comparer) add(kind, path string, pos token.Pos, format string, a ...any) {
	c.out = append(c.out, mismatch{kind, path, fmt.Sprintf(format, a...), pos})
}

// originOf maps a position in emitted code to the generator.
func (g *genRun) originOf(pos token.Pos) token.Pos {
	ps := g.p.Fset.Position(pos)
	if ps.Filename == g.em.file {
		return g.em.origin(ps.Offset)
	}
	return pos
}

func (g *genRun) emittedLine(pos token.Pos) string {
	ps := g.p.Fset.Position(pos)
	if ps.Filename == g.em.file {
		return g.em.line(ps.Offset)
	}
	return ""
}

// old fills the integers of a value with symbols for their prior contents.
func old(e *ai.Engine, v ai.Val, t types.Type, name string) ai.Val {
	switch x := v.(type) {
	case ai.Int:
		lo, hi := ai.KindRange(x.K)
		return ai.Int{L: dom.Var(e.Tab.Sym("old("+name+")", lo, hi)), K: x.K}
	case *ai.StructV:
		st := t.Underlying().(*types.Struct)
		n := &ai.StructV{}
		for i, f := range x.F {
			n.F = append(n.F, old(e, f, st.Field(i).Type(), name+"."+st.Field(i).Name()))
		}
		return n
	case *ai.ArrayV:
		n := &ai.ArrayV{}
		for i, f := range x.E {
			n.E = append(n.E, old(e, f, t.Underlying().(*types.Array).Elem(), fmt.Sprintf("%s[%d]", name, i)))
		}
		return n
	}
	return v
}

// compareStruct compares the emitted parser of s with its meaning.
func (g *genRun) compareStruct(s *schema.Struct) *comparer {
	c := &comparer{g: g}
	e := g.e
	nt, fn := g.method(s)
	if fn == nil {
		c.add("undecided", "Parse", token.NoPos, "no Parse method for struct %s", s.Name)
		return c
	}
	data := inputView(e, "data")
	var ctx []ai.Val
	for _, n := range s.Ctx {
		v, _, err := g.ctxArg(n)
		if err != nil {
			c.add("undecided", "contexts", fn.Pos(), "%v", err)
			return c
		}
		ctx = append(ctx, v)
	}
	if fn.Signature.Params().Len() != 1+len(ctx) {
		c.add("undecided", "contexts", fn.Pos(), "Parse of %s takes %d parameters, expected %d", s.Name, fn.Signature.Params().Len(), 1+len(ctx))
		return c
	}
	want := g.spec.Run(e.NewState(), s.Name, data)

	// the Parse method, on a receiver with arbitrary prior contents
	st := e.NewState()
	recv := st.NewTyped(nt)
	st.StoreTo(recv, old(e, st.Load(recv), nt, "recv"))
	outs := e.Call(st, fn, append([]ai.Val{recv, data}, ctx...)...)
	for _, o := range outs {
		c.outcome(s, o, want, data, func(st *ai.State) ai.Val { return st.Load(recv) }, nt, true)
	}

	// the constructor
	cn := "Parse" + goName(s.Name, g.sc)
	cf := g.pkg.SSA.Func(cn)
	if cf == nil {
		c.add("contract", cn, token.NoPos, "no constructor %s", cn)
		return c
	}
	outs = e.Call(e.NewState(), cf, append([]ai.Val{data}, ctx...)...)
	for _, o := range outs {
		if o.Kind == "return" && len(o.Ret) == 2 {
			_, isPtr := o.Ret[0].(ai.Ptr)
			if ai.IsNil(o.Ret[1]) && !isPtr {
				c.add("contract", cn, g.originOf(cf.Pos()), "constructor %s returns neither object nor error", cn)
				continue
			}
			if !ai.IsNil(o.Ret[1]) && isPtr {
				c.add("contract", cn, g.originOf(cf.Pos()), "constructor %s returns an object together with an error", cn)
				continue
			}
		}
		c.outcome(s, o, want, data, func(st *ai.State) ai.Val {
			if p, ok := o.Ret[0].(ai.Ptr); ok {
				return st.Load(p)
			}
			return nil
		}, nt, false)
	}
	return c
}

func (c *comparer) outcome(s *schema.Struct, o ai.Outcome, want []schema.Out, data ai.View, obj func(*ai.State) ai.Val, nt *types.Named, isMethod bool) {
	g := c.g
	e := g.e
	pos := g.originOf(o.Pos)
	switch o.Kind {
	case "return":
	case "panic":
		c.add("crash", o.Msg, pos, "the parser for %s panics (%s) at emitted line %q when %s", s.Name, o.Msg, g.emittedLine(o.Pos), factsOf(o.St))
		return
	case "diverge":
		c.add("crash", o.Msg, pos, "the parser for %s does not terminate (%s) at emitted line %q when %s", s.Name, o.Msg, g.emittedLine(o.Pos), factsOf(o.St))
		return
	default:
		c.add("undecided", o.Msg, pos, "the parser for %s: %s %s", s.Name, o.Kind, o.Msg)
		return
	}
	if len(o.Ret) != 2 {
		c.add("undecided", "results", pos, "Parse of %s has %d results", s.Name, len(o.Ret))
		return
	}
	failed := !ai.IsNil(o.Ret[1])
	if isMethod {
		if failed && !ai.IsNil(o.Ret[0]) {
			c.add("contract", "error-with-data", pos, "Parse of %s returns bytes together with an error", s.Name)
		}
		if !failed {
			// a suffix of the input
			off, ln, ok := restOf(e, o.St, o.Ret[0], data)
			switch {
			case !ok:
				c.add("contract", "rest", pos, "Parse of %s returns %s, not a suffix of its input", s.Name, o.St.Show(o.Ret[0]))
			case !o.St.Store.EntailsEQ(ln) && !o.St.Store.EntailsEQ(off.Add(ln).Sub(data.Len)):
				c.add("contract", "rest", pos, "Parse of %s returns %s, not a suffix of its input", s.Name, o.St.Show(o.Ret[0]))
			}
		}
	}
	for _, w := range want {
		joint, bools := conj(e, o.St, w.St)
		if joint == nil {
			continue
		}
		before := len(c.out)
		c.joint = joint
		c.pair(s, o, w, data, obj, nt, isMethod, failed, pos)
		if len(c.out) > before {
			// a disagreement counts if equal arguments of the uninterpreted
			// functions do not exclude it
			c.out = c.out[:before]
			if c.joint = e.Congruent(joint, bools); c.joint == nil {
				continue
			}
			c.pair(s, o, w, data, obj, nt, isMethod, failed, pos)
		}
		c.pairs++
		if len(c.out) == before {
			c.ok++
		}
		if len(c.out) > 40 {
			return
		}
	}
}

// pair compares one outcome with one required outcome.
func (c *comparer) pair(s *schema.Struct, o ai.Outcome, w schema.Out, data ai.View, obj func(*ai.State) ai.Val, nt *types.Named, isMethod, failed bool, pos token.Pos) {
	e, joint := c.g.e, c.joint
	switch {
	case w.Any:
	case failed && w.Err == "":
		c.add("reject", "valid input", pos, "the parser for %s rejects valid input when %s", s.Name, factsStore(e, joint, o.St, w.St))
	case !failed && w.Err != "":
		c.add("accept", w.Err, pos, "the parser for %s accepts input that is invalid (%s) when %s", s.Name, w.Err, factsStore(e, joint, o.St, w.St))
	case failed:
	default:
		if isMethod {
			off, ln, ok := restOf(e, o.St, o.Ret[0], data)
			if ok && !joint.EntailsEQ(ln.Sub(w.Rest.Len)) {
				c.add("rest", "rest", pos, "the parser for %s leaves %s bytes, should leave %s when %s", s.Name, e.Tab.Format(ln), e.Tab.Format(w.Rest.Len), factsStore(e, joint, o.St, w.St))
			} else if ok && !joint.EntailsEQ(ln) && !joint.EntailsEQ(off.Sub(w.Rest.Off)) {
				c.add("rest", "rest", pos, "the parser for %s resumes at %s, should resume at %s", s.Name, e.Tab.Format(off), e.Tab.Format(w.Rest.Off))
			}
		}
		if v := obj(o.St); v != nil {
			prior := "recv"
			if !isMethod {
				prior = ""
			}
			c.fields(o.St, v, nt, w.F, s.Name, s.Members, prior, pos)
		}
	}
}

// conj joins what two states assume; nil if they exclude each other.
func conj(e *ai.Engine, a, b *ai.State) (*dom.Store, map[string]bool) {
	bools := map[string]bool{}
	for k, v := range a.Bools() {
		bools[k] = v
	}
	for k, v := range b.Bools() {
		if w, ok := bools[k]; ok && w != v {
			return nil, nil
		}
		bools[k] = v
	}
	return a.Store.And(b.Store), bools
}

func factsOf(st *ai.State) string { return short(st.Facts()) }

func factsStore(e *ai.Engine, s *dom.Store, a, b *ai.State) string {
	var out []string
	for _, k := range s.Cons() {
		out = append(out, e.Tab.Format(k)+">=0")
	}
	for k, v := range a.Bools() {
		out = append(out, fmt.Sprintf("%s=%v", k, v))
	}
	return short(strings.Join(out, ", "))
}

// restOf views a returned byte slice as a window of the input.
func restOf(e *ai.Engine, st *ai.State, v ai.Val, data ai.View) (off, ln dom.Lin, ok bool) {
	switch x := v.(type) {
	case ai.View:
		if x.Base == data.Base {
			return x.Off, x.Len, true
		}
	case ai.Slice, ai.Text, ai.NilV:
		l := e.Len(st, v)
		if l.IsConst() && l.C.Sign() == 0 {
			return data.Len, l, true
		}
	}
	return
}

func (c *comparer) fields(st *ai.State, v ai.Val, t types.Type, want map[string]schema.Want, where string, ms []schema.Member, prior string, pos token.Pos) {
	sv, ok := v.(*ai.StructV)
	ut, ok2 := t.Underlying().(*types.Struct)
	if !ok || !ok2 {
		c.add("undecided", where, pos, "%s is not a struct", where)
		return
	}
	for _, f := range schema.AllFields(ms) {
		i := fieldIndex(ut, goName(f.Name, c.g.sc))
		if i < 0 {
			c.add("undecided", where+"."+f.Name, pos, "no field for %s.%s", where, f.Name)
			continue
		}
		path := where + "." + f.Name
		w, set := want[f.Name]
		if !set {
			// not decoded: must hold its prior contents
			c.untouched(st, sv.F[i], ut.Field(i).Type(), prior, path, ut.Field(i).Name(), pos)
			continue
		}
		c.value(st, sv.F[i], ut.Field(i).Type(), w, f.Type, path, pos)
	}
}

func (c *comparer) untouched(st *ai.State, v ai.Val, t types.Type, prior, path, name string, pos token.Pos) {
	e := c.g.e
	exp := e.Zero(t)
	if prior != "" {
		exp = old(e, exp, t, prior+"."+name)
	}
	if !sameVal(c.joint, v, exp) {
		c.add("untouched", path, pos, "%s is modified (%s) although its case is not selected", path, st.Show(v))
	}
}

func sameVal(s *dom.Store, a, b ai.Val) bool {
	switch x := a.(type) {
	case ai.Int:
		y, ok := b.(ai.Int)
		return ok && s.EntailsEQ(x.L.Sub(y.L))
	case ai.NilV:
		return ai.IsNil(b)
	case ai.Str:
		y, ok := b.(ai.Str)
		return ok && x.Key() == y.Key()
	case *ai.ArrayV:
		y, ok := b.(*ai.ArrayV)
		if !ok || len(x.E) != len(y.E) {
			return false
		}
		for i := range x.E {
			if !sameVal(s, x.E[i], y.E[i]) {
				return false
			}
		}
		return true
	case *ai.StructV:
		y, ok := b.(*ai.StructV)
		if !ok || len(x.F) != len(y.F) {
			return false
		}
		for i := range x.F {
			if !sameVal(s, x.F[i], y.F[i]) {
				return false
			}
		}
		return true
	case bool:
		return a == b
	}
	return false
}

func (c *comparer) value(st *ai.State, v ai.Val, t types.Type, w schema.Want, ty schema.Type, path string, pos token.Pos) {
	e := c.g.e
	bad := func(exp string) {
		c.add("value", path, pos, "%s is %s, should be %s", path, short(st.Show(v)), exp)
	}
	switch w := w.(type) {
	case schema.WInt:
		x, ok := v.(ai.Int)
		if !ok || !c.joint.EntailsEQ(x.L.Sub(w.L)) {
			bad(e.Tab.Format(w.L))
		}
	case schema.WText:
		x, ok := v.(ai.Str)
		if !ok {
			bad("text")
			return
		}
		n := x.Norm()
		if len(n.P) == 0 && c.joint.EntailsEQ(w.V.Len) {
			return
		}
		if len(n.P) != 1 || n.P[0].Atom == nil {
			bad("text of the input")
			return
		}
		y, ok := n.P[0].Atom.V.(ai.View)
		if !ok || y.Base != w.V.Base || !c.joint.EntailsEQ(y.Len.Sub(w.V.Len)) || (!c.joint.EntailsEQ(w.V.Len) && !c.joint.EntailsEQ(y.Off.Sub(w.V.Off))) {
			bad(st.Show(w.V))
		}
	case schema.WStruct:
		p, ok := v.(ai.Ptr)
		ref, ok2 := ty.(*schema.StructRef)
		pt, ok3 := t.Underlying().(*types.Pointer)
		if !ok || !ok2 || !ok3 {
			bad("a struct")
			return
		}
		c.fields(st, st.Load(p), pt.Elem(), w.F, path, c.g.spec.Structs[ref.Name].Members, "", pos)
	case schema.WExtern:
		p, ok := v.(ai.Ptr)
		if !ok {
			bad("a struct")
			return
		}
		sv, ok := st.Load(p).(*ai.StructV)
		if !ok {
			bad("a struct")
			return
		}
		s, ok := sv.F[0].(ai.Str)
		if !ok || len(s.P) != 1 || s.P[0].Atom == nil {
			bad("decoded by its own parser")
			return
		}
		if s.P[0].Atom.Key != "content("+w.Key+")" && !c.sameExtern(s.P[0].Atom.Key, w.Key) {
			bad("content(" + w.Key + ")")
		}
	case schema.WArr:
		base := elemOf(ty)
		if s, ok := v.(ai.SumSlice); ok {
			if !c.joint.EntailsEQ(s.Len.AddC(int64(-len(w.E)))) {
				bad(fmt.Sprintf("%d elements", len(w.E)))
			}
			return
		}
		el, ok := st.Elems(v)
		if !ok || len(el) != len(w.E) {
			bad(fmt.Sprintf("%d elements", len(w.E)))
			return
		}
		et := goElem(t)
		for i := range el {
			c.value(st, el[i], et, w.E[i], base, fmt.Sprintf("%s[%d]", path, i), pos)
		}
	case schema.WLen:
		var n dom.Lin
		switch x := v.(type) {
		case ai.SumSlice:
			n = x.Len
		case ai.Slice, ai.NilV:
			n = e.Len(st, v)
		default:
			bad("an array")
			return
		}
		if !c.joint.EntailsEQ(n.Sub(w.L)) {
			bad(e.Tab.Format(w.L) + " elements")
		}
	default:
		bad("?")
	}
}

// sameExtern compares two invocations of an external parser by their windows.
func (c *comparer) sameExtern(content, key string) bool {
	a := "used(" + strings.TrimSuffix(strings.TrimPrefix(content, "content("), ")") + ")"
	b := "used(" + key + ")"
	var x, y *ai.App
	for i := range c.g.e.Apps {
		p := &c.g.e.Apps[i]
		if p.Bool != "" || !strings.HasPrefix(p.Class, "used:") {
			continue
		}
		switch c.g.e.Tab.Info(p.Sym).Name {
		case a:
			x = p
		case b:
			y = p
		}
	}
	if x == nil || y == nil || x.Class != y.Class {
		return false
	}
	for i := range x.Args {
		if !c.joint.EntailsEQ(x.Args[i].Sub(y.Args[i])) {
			return false
		}
	}
	return true
}

func elemOf(t schema.Type) schema.Type {
	switch t := t.(type) {
	case *schema.Fixed:
		return t.Base
	case *schema.Var:
		return t.Base
	}
	return nil
}

func goElem(t types.Type) types.Type {
	switch t := t.Underlying().(type) {
	case *types.Array:
		return t.Elem()
	case *types.Slice:
		return t.Elem()
	}
	return nil
}
