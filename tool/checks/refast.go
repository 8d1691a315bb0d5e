package checks

import (
	"fmt"
	"go/types"
	"strings"

	"verif/tool/ai"
	"verif/tool/dom"
	"verif/tool/load"
	"verif/tool/peg"
)

// The reference meaning of each rule of the grammar, as the syntax tree node
// it stands for.

type rnode struct {
	typ  string
	f    map[string]any
	rule string
}

type rtok struct{ start, end int } // a name: the text between two offsets
type rint struct{ start, end int } // a number: the value of that text
type rlist struct {
	e      []any
	nonnil bool
}

type refBuilder struct{}

func (b refBuilder) list(t *peg.Tree, pick func(*peg.Tree) any) rlist {
	var l rlist
	if t == nil {
		return l
	}
	for _, k := range t.Kids {
		l.e = append(l.e, pick(k))
	}
	return l
}

// deep finds a labelled match inside one iteration of a group.
func deep(t *peg.Tree, label string) *peg.Tree {
	if t.E.Op == peg.Label && t.E.Text == label {
		return t.Kids[0]
	}
	if t.E.Op == peg.Ref {
		return nil
	}
	for _, k := range t.Kids {
		if r := deep(k, label); r != nil {
			return r
		}
	}
	return nil
}

// build gives the meaning of a rule match: a node, token, list or nil.
func (b refBuilder) build(t *peg.Tree) any {
	t = t.Unwrap()
	if t == nil {
		return nil
	}
	get := func(l string) any {
		x := t.Get(l)
		if x == nil {
			return nil
		}
		return b.build(x)
	}
	node := func(typ string, kv ...any) *rnode {
		n := &rnode{typ, map[string]any{}, t.Rule}
		for i := 0; i < len(kv); i += 2 {
			n.f[kv[i].(string)] = kv[i+1]
		}
		return n
	}
	field := func(typ any) *rnode { return node("Field", "Name", get("n"), "Type", typ) }
	all := func(l string) rlist { return b.list(t.Get(l), b.build) }
	ctx := func() any {
		if x := t.Get("ctx"); x != nil {
			if c := deep(x, "c"); c != nil {
				return b.build(c)
			}
		}
		return rlist{}
	}
	switch t.Rule {
	case "File":
		var cs, xs, ss, ps rlist
		for _, d := range all("ds").e {
			switch d.(*rnode).typ {
			case "Constant":
				cs.e = append(cs.e, d)
			case "Context":
				xs.e = append(xs.e, d)
			case "Struct":
				ss.e = append(ss.e, d)
			case "Pragma":
				ps.e = append(ps.e, d)
			}
		}
		t.Walk(func(r *peg.Tree) {
			if r.Rule == "StructRef" {
				if s := r.Get("s"); s != nil {
					ss.e = append(ss.e, b.build(s))
				}
			}
		})
		return node("File", "Constants", cs, "Contexts", xs, "Structs", ss, "Pragmas", ps)
	case "Declaration":
		return get("d")
	case "ConstDeclaration":
		return node("Constant", "Name", get("n"), "Value", get("v"))
	case "ContextDeclaration":
		return node("Context", "Name", get("n"), "Members", all("fs"))
	case "ContextMember":
		return field(get("t"))
	case "StructDeclaration":
		return get("s")
	case "StructDecl":
		ms := all("ms")
		if e := t.Get("e"); e != nil {
			if x := b.build(e); x != nil {
				ms.e = append(ms.e, x)
			}
		}
		ms.nonnil = true
		return node("Struct", "Name", get("n"), "Contexts", ctx(), "Members", ms)
	case "StructIdentifier":
		return get("n")
	case "ExternDeclaration":
		return node("Struct", "Name", get("n"), "Contexts", ctx(), "Members", nil)
	case "PragmaDeclaration":
		return node("Pragma", "Type", get("n"), "Options", get("opts"))
	case "ContextRefs":
		return get("ns")
	case "StructMember", "UnionField":
		return get("m")
	case "StructEnding":
		return get("e")
	case "StructEOS":
		return node("EOS")
	case "SMArray":
		return get("a")
	case "SMFixedArray":
		return field(node("FixedArrayMember", "Base", get("b"), "Size", get("s")))
	case "SMVarArray":
		return field(node("VarArrayMember", "Base", get("b"), "Constraint", get("l")))
	case "LengthConstraint", "UnionLength", "IntConstraint":
		return get("l")
	case "Leftover":
		return node("Leftover", "Num", get("i"))
	case "SMRemainder":
		return field(node("VarArrayMember", "Base", get("b"), "Constraint", nil))
	case "ArrayBase":
		return get("t")
	case "SMInteger":
		i := get("t").(*rnode)
		if c := get("cst"); c != nil {
			i.f["Constraint"] = c
		}
		return field(i)
	case "SMPosition":
		return field(node("Ptr"))
	case "SMString":
		return field(node("NulTermString"))
	case "SMStruct":
		return field(get("s"))
	case "SMUnion":
		return node("UnionMember", "Name", get("n"), "Tag", get("t"), "Length", get("l"), "Cases", all("cs"))
	case "UnionMember":
		ms := get("fs")
		if ms == nil {
			ms = rlist{}
		}
		return node("UnionCase", "Case", get("cse"), "Members", ms)
	case "UnionCase":
		if t.Get("l") == nil {
			return nil
		}
		return get("l")
	case "UnionBody":
		switch t.Kids[0].Alt {
		case 1:
			return rlist{e: []any{node("Fail")}}
		case 2:
			return rlist{e: []any{node("Ignore")}}
		case 3:
			return get("fs")
		}
		return nil
	case "UnionFields":
		ms := all("ms")
		if e := t.Get("e"); e != nil {
			if x := b.build(e); x != nil {
				ms.e = append(ms.e, x)
			}
		}
		return ms
	case "ExtentSpec":
		if t.Kids[0].Alt == 0 {
			return node("Ignore")
		}
		return get("r")
	case "StructRef":
		if s := t.Get("s"); s != nil {
			return node("StructRef", "Name", b.build(s).(*rnode).f["Name"])
		}
		return node("StructRef", "Name", get("n"))
	case "CharType":
		return node("CharType")
	case "IntType":
		return node("IntType", "Size", []int64{8, 16, 32, 64}[t.Get("b").Alt], "Constraint", nil)
	case "IntList":
		l := rlist{e: []any{get("m")}}
		for _, k := range t.Get("ms").Kids {
			l.e = append(l.e, b.build(deep(k, "x")))
		}
		return node("IntegerList", "Ranges", l)
	case "IntListMember":
		n := node("IntegerRange", "Low", get("lo"), "High", nil)
		if h := t.Get("hi"); h != nil {
			if x := deep(h, "x"); x != nil {
				n.f["High"] = b.build(x)
			}
		}
		return n
	case "Integer":
		return get("i")
	case "IntegerConstRef":
		return node("IntegerConstRef", "Name", get("n"))
	case "IntegerLiteral":
		return node("IntegerLiteral", "Value", get("v"))
	case "IDRef":
		n := node("IDRef", "Name", get("n"), "Scope", "")
		if s := t.Get("s"); s != nil {
			if x := deep(s, "x"); x != nil {
				n.f["Scope"] = b.build(x)
			}
		}
		return n
	case "IdentifierList":
		l := rlist{e: []any{get("n")}}
		for _, k := range t.Get("ns").Kids {
			l.e = append(l.e, b.build(deep(k, "x")))
		}
		return l
	case "Identifier", "ConstIdentifier":
		return rtok{t.Start, t.End}
	case "IntLiteral":
		return rint{t.Start, t.End}
	}
	panic("no reference meaning for rule " + t.Rule)
}

// astCompare compares a tree in the abstract heap with its reference meaning.
type astCompare struct {
	p    *load.Program
	st   *ai.State
	str  func(a, b int) ai.Str
	num  func(a, b int) dom.Lin
	mark ai.ObjID // objects below this existed before parsing
	seen map[ai.ObjID]string
	out  []derivOut
	own  []string // ownership violations
	n    int
	rule string
}

func (c *astCompare) bad(path, f string, a ...any) {
	c.out = append(c.out, derivOut{kind: "tree", msg: path + ": " + fmt.Sprintf(f, a...), rule: c.rule})
}

func (c *astCompare) touch(o ai.ObjID, path string) {
	if o < c.mark {
		c.own = append(c.own, path+" is an object that existed before parsing started")
		return
	}
	if old, ok := c.seen[o]; ok && old != path {
		c.own = append(c.own, path+" is the same object as "+old)
		return
	}
	c.seen[o] = path
}

func (c *astCompare) cmp(path string, v ai.Val, want any) {
	c.n++
	var dyn types.Type
	if i, ok := v.(ai.Iface); ok {
		dyn, v = i.T, i.V
	}
	switch w := want.(type) {
	case nil:
		if !ai.IsNil(v) {
			c.bad(path, "is %s, expected to be absent", c.st.Show(v))
		}
	case rtok:
		s, ok := v.(ai.Str)
		if !ok || c.st.Resolve(s).Key() != c.str(w.start, w.end).Key() {
			c.bad(path, "is %s, expected the name %s", c.st.Show(v), c.str(w.start, w.end))
		}
	case string:
		s, ok := v.(ai.Str)
		if l, ok2 := s.Literal(); !ok || !ok2 || l != w {
			c.bad(path, "is %s, expected %q", c.st.Show(v), w)
		}
	case rint:
		i, ok := v.(ai.Int)
		if !ok || !c.st.Store.EntailsEQ(i.L.Sub(c.num(w.start, w.end))) {
			c.bad(path, "is %s, expected the value of the literal %s", c.st.Show(v), c.str(w.start, w.end))
		}
	case int64:
		i, ok := v.(ai.Int)
		if !ok || !c.st.Store.EntailsEQ(i.L.AddC(-w)) {
			c.bad(path, "is %s, expected %d", c.st.Show(v), w)
		}
	case rlist:
		if ai.IsNil(v) {
			if w.nonnil || len(w.e) > 0 {
				c.bad(path, "is nil, expected a list of %d", len(w.e))
			}
			return
		}
		es, ok := c.st.Elems(v)
		if !ok {
			c.bad(path, "is %s, expected a list", c.st.Show(v))
			return
		}
		if len(es) != len(w.e) {
			c.bad(path, "has %d elements, expected %d", len(es), len(w.e))
			return
		}
		if sl, ok := v.(ai.Slice); ok && sl.Len > 0 {
			c.touch(sl.Obj, path)
		}
		for i := range es {
			c.cmp(fmt.Sprintf("%s[%d]", path, i), es[i], w.e[i])
		}
	case *rnode:
		p, ok := v.(ai.Ptr)
		if !ok {
			c.bad(path, "is %s, expected a %s", c.st.Show(v), w.typ)
			return
		}
		tn, _ := c.p.Pkgs[load.Module+"/ast"].Types.Scope().Lookup(w.typ).(*types.TypeName)
		if tn == nil {
			c.bad(path, "type ast.%s does not exist", w.typ)
			return
		}
		if dyn != nil && !types.Identical(dyn, types.NewPointer(tn.Type())) {
			c.bad(path, "has type %s, expected *ast.%s", strings.ReplaceAll(dyn.String(), load.Module+"/", ""), w.typ)
			return
		}
		ts, ok := tn.Type().Underlying().(*types.Struct)
		sv, ok2 := c.st.Load(p).(*ai.StructV)
		if !ok || !ok2 || len(sv.F) != ts.NumFields() {
			c.bad(path, "is not an ast.%s", w.typ)
			return
		}
		if ts.NumFields() > 0 {
			c.touch(p.Obj, path)
		}
		outer := c.rule
		defer func() { c.rule = outer }()
		for name, x := range w.f {
			c.rule = w.rule
			i := fieldIndex(ts, name)
			if i < 0 {
				c.bad(path, "ast.%s has no field %s", w.typ, name)
				continue
			}
			c.cmp(path+"."+name, sv.F[i], x)
		}
	}
}
