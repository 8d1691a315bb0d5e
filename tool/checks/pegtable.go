package checks

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"

	"verif/tool/ai"
	"verif/tool/load"
	"verif/tool/peg"
)

// node is an expression of the compiled grammar: its heap object and meaning.
type node struct {
	ptr  ai.Ptr
	typ  types.Type
	rule string
	expr *peg.Expr
	kids []*node
	run  *ssa.Function
}

// pegTable is the compiled grammar, read from the initialised parser package.
type pegTable struct {
	p     *load.Program
	pkg   *load.Package
	e     *ai.Engine
	g     *peg.Grammar
	gptr  ai.Ptr
	nodes map[ai.ObjID]*node
	rules map[string]*node // by rule name: the rule's expression
	rptr  map[string]ai.Ptr
	order []*node
	errs  []string
}

const parserPkg = load.Module + "/parse/internal/parser"

// readTable interprets the initialisation of the parser package and reads the
// grammar it builds.
func readTable(p *load.Program) (*pegTable, error) {
	t := &pegTable{p: p, pkg: p.Pkgs[parserPkg], e: newEngine(p), g: &peg.Grammar{}, nodes: map[ai.ObjID]*node{}, rules: map[string]*node{}, rptr: map[string]ai.Ptr{}}
	if t.pkg == nil {
		return nil, fmt.Errorf("package %s is not part of the program", parserPkg)
	}
	t.e.MaxSteps = 4000000
	if err := initialise(t.e, p, "parse/internal/parser"); err != nil {
		return nil, err
	}
	gt := t.named("grammar")
	if gt == nil {
		return nil, fmt.Errorf("type grammar not found in %s", parserPkg)
	}
	st := t.e.NewState()
	for _, m := range t.pkg.SSA.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		if pt, ok := g.Type().(*types.Pointer).Elem().(*types.Pointer); ok && types.Identical(pt.Elem(), gt) {
			if t.gptr.Obj != 0 {
				return nil, fmt.Errorf("several grammars in %s", parserPkg)
			}
			gp, ok := st.Load(st.Global(g)).(ai.Ptr)
			if !ok {
				return nil, fmt.Errorf("the grammar is not initialised")
			}
			t.gptr = gp
		}
	}
	if t.gptr.Obj == 0 {
		return nil, fmt.Errorf("no grammar in %s", parserPkg)
	}
	rules, ok := st.Elems(t.field(st, t.gptr, gt, "rules"))
	if !ok {
		return nil, fmt.Errorf("the rules of the grammar are not a known list")
	}
	rt := t.named("rule")
	for _, r := range rules {
		rp, ok := r.(ai.Ptr)
		if !ok {
			return nil, fmt.Errorf("a rule is nil")
		}
		ns, ok := t.field(st, rp, rt, "name").(ai.Str)
		name, ok2 := ns.Literal()
		if !ok || !ok2 {
			return nil, fmt.Errorf("a rule has no literal name")
		}
		n := t.read(st, t.field(st, rp, rt, "expr"), name)
		if err := t.g.Add(name, n.expr); err != nil {
			t.errs = append(t.errs, err.Error())
			continue
		}
		t.rules[name] = n
		t.rptr[name] = rp
	}
	return t, nil
}

func (t *pegTable) named(n string) types.Type {
	if o := t.pkg.Types.Scope().Lookup(n); o != nil {
		if tn, ok := o.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	return nil
}

func (t *pegTable) field(st *ai.State, p ai.Ptr, typ types.Type, name string) ai.Val {
	v := st.Load(p)
	s, ok := typ.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	sv, ok := v.(*ai.StructV)
	if !ok {
		return nil
	}
	i := fieldIndex(s, name)
	if i < 0 {
		return nil
	}
	return sv.F[i]
}

func (t *pegTable) fail(rule, f string, a ...any) {
	t.errs = append(t.errs, "rule "+rule+": "+fmt.Sprintf(f, a...))
}

// read turns a grammar node into an expression.
func (t *pegTable) read(st *ai.State, v ai.Val, rule string) *node {
	bad := &node{rule: rule, expr: &peg.Expr{Op: peg.Seq}}
	i, ok := v.(ai.Iface)
	if !ok {
		t.fail(rule, "an expression is missing")
		return bad
	}
	pt, ok := i.T.(*types.Pointer)
	ptr, ok2 := i.V.(ai.Ptr)
	if !ok || !ok2 {
		t.fail(rule, "unexpected expression of type %s", i.T)
		return bad
	}
	nt, ok := pt.Elem().(*types.Named)
	if !ok {
		t.fail(rule, "unexpected expression of type %s", i.T)
		return bad
	}
	n := &node{ptr: ptr, typ: i.T, rule: rule}
	if old := t.nodes[ptr.Obj]; old != nil && len(ptr.Path) == 0 {
		return old
	}
	t.nodes[ptr.Obj] = n
	t.order = append(t.order, n)
	f := func(name string) ai.Val { return t.field(st, ptr, nt, name) }
	kids := func(name string) {
		es, ok := st.Elems(f(name))
		if !ok {
			t.fail(rule, "unknown list of sub-expressions")
			return
		}
		for _, k := range es {
			c := t.read(st, k, rule)
			n.kids = append(n.kids, c)
			n.expr.Kids = append(n.expr.Kids, c.expr)
		}
	}
	kid := func() {
		c := t.read(st, f("expr"), rule)
		n.kids = append(n.kids, c)
		n.expr.Kids = append(n.expr.Kids, c.expr)
	}
	run := func() {
		if fn, ok := f("run").(ai.Func); ok && fn.Fn != nil {
			n.run = fn.Fn
			n.expr.Code = fn.Fn
			return
		}
		t.fail(rule, "code expression without a function")
	}
	str := func(name string) string {
		s, ok := f(name).(ai.Str)
		l, ok2 := s.Literal()
		if !ok || !ok2 {
			t.fail(rule, "%s of %s is not a literal", name, nt.Obj().Name())
		}
		return l
	}
	flag := func(name string) bool {
		b, ok := f(name).(bool)
		if !ok {
			t.fail(rule, "%s of %s is not known", name, nt.Obj().Name())
		}
		return b
	}
	e := &peg.Expr{}
	n.expr = e
	switch nt.Obj().Name() {
	case "seqExpr":
		e.Op = peg.Seq
		kids("exprs")
	case "choiceExpr":
		e.Op = peg.Choice
		kids("alternatives")
	case "actionExpr":
		e.Op = peg.Action
		kid()
		run()
	case "labeledExpr":
		e.Op = peg.Label
		e.Text = str("label")
		kid()
	case "zeroOrMoreExpr":
		e.Op = peg.Star
		kid()
	case "oneOrMoreExpr":
		e.Op = peg.Plus
		kid()
	case "zeroOrOneExpr":
		e.Op = peg.Opt
		kid()
	case "andExpr":
		e.Op = peg.And
		kid()
	case "notExpr":
		e.Op = peg.Not
		kid()
	case "ruleRefExpr":
		e.Op = peg.Ref
		e.Text = str("name")
	case "stateCodeExpr":
		e.Op = peg.State
		run()
	case "andCodeExpr", "notCodeExpr":
		e.Op = peg.Pred
		run()
	case "litMatcher":
		e.Op = peg.Lit
		e.Text = str("val")
		e.Fold = flag("ignoreCase")
	case "anyMatcher":
		e.Op = peg.Any
	case "charClassMatcher":
		e.Op = peg.Class
		runes := func(name string) []rune {
			es, ok := st.Elems(f(name))
			if !ok {
				t.fail(rule, "unknown character list")
			}
			var out []rune
			for _, x := range es {
				c, ok := x.(ai.Int)
				v, ok2 := c.L.Int64()
				if !ok || !ok2 {
					t.fail(rule, "unknown character")
				}
				out = append(out, rune(v))
			}
			return out
		}
		var set []peg.Range
		for _, c := range runes("chars") {
			set = append(set, peg.Range{Lo: c, Hi: c})
		}
		rs := runes("ranges")
		if len(rs)%2 != 0 {
			t.fail(rule, "character range without an upper bound")
			rs = rs[:len(rs)-1]
		}
		for i := 0; i < len(rs); i += 2 {
			set = append(set, peg.Range{Lo: rs[i], Hi: rs[i+1]})
		}
		if es, ok := st.Elems(f("classes")); !ok || len(es) > 0 {
			t.fail(rule, "Unicode classes are not modelled")
		}
		set = peg.Normal(set)
		if flag("ignoreCase") {
			// characters are folded to lower case before the comparison
			set = peg.Fold(set)
		}
		if flag("inverted") {
			set = peg.Complement(set)
		}
		e.Set = set
	default:
		t.fail(rule, "unknown expression type %s", nt.Obj().Name())
	}
	return n
}
