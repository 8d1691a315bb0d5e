package checks

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"

	"verif/tool/ai"
	"verif/tool/dom"
	"verif/tool/load"
	"verif/tool/schema"
)

// scheme assigns texts to the symbolic names of a schema.
type scheme struct {
	name string
	rep  func(string) string
}

var plainNames = scheme{"plain", func(s string) string { return s }}

// Names that differ from their Go form in case, underscores and initialisms.
var oddNames = scheme{"odd", func(s string) string { return strings.ToUpper(s[:1]) + s[1:] + "_id" }}

// evalAtom applies the text functions to the chosen representative.
func evalAtom(a *ai.Atom, sc scheme) (string, error) {
	if a.Arg != nil {
		s, err := evalAtom(a.Arg, sc)
		if err != nil {
			return "", err
		}
		return applyFn(a.Fn, s)
	}
	if a.Unique {
		return sc.rep(a.Key), nil
	}
	if a.Num != nil && a.Num.IsConst() {
		return a.Num.C.String(), nil
	}
	return "", fmt.Errorf("text %q is not determined by the schema", a.Key)
}

func applyFn(fn, s string) (string, error) {
	switch fn {
	case "lower":
		return strings.ToLower(s), nil
	case "upper":
		return strings.ToUpper(s), nil
	case "camel":
		return ai.SnakeToCamel(s), nil
	case "title":
		return strings.Title(s), nil //nolint
	case "first":
		return s[:1], nil
	case "rest":
		return s[1:], nil
	}
	return "", fmt.Errorf("text function %s is not modelled", fn)
}

func evalStr(s ai.Str, sc scheme) (string, error) {
	var b strings.Builder
	for _, p := range s.P {
		if p.Atom == nil {
			b.WriteString(p.Lit)
			continue
		}
		t, err := evalAtom(p.Atom, sc)
		if err != nil {
			return "", err
		}
		b.WriteString(t)
	}
	return b.String(), nil
}

// evalKey evaluates a canonical text.
func evalKey(k string, sc scheme) (string, error) {
	var b strings.Builder
	for {
		i := strings.IndexByte(k, 1)
		if i < 0 {
			b.WriteString(k)
			return b.String(), nil
		}
		j := strings.IndexByte(k, 2)
		b.WriteString(k[:i])
		t, err := evalFnText(k[i+1:j], sc)
		if err != nil {
			return "", err
		}
		b.WriteString(t)
		k = k[j+1:]
	}
}

func evalFnText(k string, sc scheme) (string, error) {
	if i := strings.IndexByte(k, '('); i > 0 && strings.HasSuffix(k, ")") {
		s, err := evalFnText(k[i+1:len(k)-1], sc)
		if err != nil {
			return "", err
		}
		return applyFn(k[:i], s)
	}
	return sc.rep(k), nil
}

// consistent reports whether a trace's assumptions about names hold for the
// chosen representatives.
func consistent(st *ai.State, sc scheme) bool {
	for k, v := range st.Binds() {
		a, err := evalFnText(k, sc)
		if err != nil {
			continue
		}
		b, err := evalStr(v, sc)
		if err == nil && a != b {
			return false
		}
	}
	for _, n := range st.Neqs() {
		a, err1 := evalKey(n[0], sc)
		b, err2 := evalKey(n[1], sc)
		if err1 == nil && err2 == nil && a == b {
			return false
		}
	}
	return true
}

// emitted is the rendered output of the generator for one schema.
type emitted struct {
	text  string
	offs  []int
	poss  []token.Pos
	added int // bytes inserted for imports
	insAt int
	file  string
}

// special finds names for which a trace that is not consistent with the usual
// representatives is taken.
func special(st *ai.State, sc scheme) (scheme, bool) {
	over := map[string]string{}
	show := []string{}
	for k, v := range st.Binds() {
		lit, err := evalStr(v, sc)
		if err != nil {
			return sc, false
		}
		pre, post := "", ""
		base := k
		for {
			i := strings.IndexByte(base, '(')
			if i <= 0 || !strings.HasSuffix(base, ")") {
				break
			}
			switch base[:i] {
			case "first":
				post = "qz"
			case "rest":
				pre = "q"
			}
			base = base[i+1 : len(base)-1]
		}
		found := false
		for _, c := range []string{pre + lit + post, strings.ToLower(pre + lit + post), strings.ToLower(pre+lit) + "w" + post} {
			if old, ok := over[base]; ok && old != c {
				continue
			}
			t := scheme{"", func(n string) string {
				if n == base {
					return c
				}
				return sc.rep(n)
			}}
			if got, err := evalFnText(k, t); err == nil && got == lit && c != "" {
				over[base], found = c, true
				break
			}
		}
		if !found {
			return sc, false
		}
		show = append(show, base+" spelled "+over[base])
	}
	sort.Strings(show)
	n := scheme{strings.Join(show, ", "), func(n string) string {
		if c, ok := over[n]; ok {
			return c
		}
		return sc.rep(n)
	}}
	return n, len(over) > 0 && consistent(st, n)
}

func render(s ai.Str, sc scheme) (*emitted, error) {
	em := &emitted{}
	var b strings.Builder
	for _, p := range s.P {
		em.offs = append(em.offs, b.Len())
		em.poss = append(em.poss, p.Pos)
		if p.Atom == nil {
			b.WriteString(p.Lit)
			continue
		}
		t, err := evalAtom(p.Atom, sc)
		if err != nil {
			return nil, err
		}
		b.WriteString(t)
	}
	em.text = b.String()
	return em, nil
}

// origin maps an offset in the completed text to the generator's print site.
func (em *emitted) origin(off int) token.Pos {
	if off >= em.insAt+em.added {
		off -= em.added
	}
	i := sort.SearchInts(em.offs, off+1) - 1
	for ; i >= 0; i-- {
		if em.poss[i].IsValid() {
			return em.poss[i]
		}
	}
	return token.NoPos
}

var stdByName = map[string]string{"errors": "errors", "bytes": "bytes", "binary": "encoding/binary", "testing": "testing", "fmt": "fmt", "io": "io", "strings": "strings", "math": "math"}

// complete adds the import declarations that import processing would add.
func (em *emitted) complete(extra ...string) error {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "gen.go", em.text, 0)
	if err != nil {
		return err
	}
	have := map[string]bool{}
	for _, im := range f.Imports {
		p := strings.Trim(im.Path.Value, `"`)
		have[p[strings.LastIndex(p, "/")+1:]] = true
	}
	need := map[string]bool{}
	for _, x := range f.Unresolved {
		if stdByName[x.Name] != "" && !have[x.Name] {
			need[stdByName[x.Name]] = true
		}
	}
	// only names used as package qualifiers
	used := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok && id.Obj == nil {
				used[stdByName[id.Name]] = true
			}
		}
		return true
	})
	var l []string
	for n := range need {
		if used[n] {
			l = append(l, n)
		}
	}
	l = append(l, extra...)
	sort.Strings(l)
	ins := ""
	for _, n := range l {
		ins += fmt.Sprintf("; import %q", n)
	}
	at := fset.Position(f.Name.End()).Offset
	em.insAt, em.added = at, len(ins)
	em.text = em.text[:at] + ins + em.text[at:]
	return nil
}

// genRun is one schema shape taken through the generator.
type genRun struct {
	p      *load.Program
	e      *ai.Engine
	file   string
	files  []*schema.File
	sc     scheme
	others []scheme // names that make the generator take other paths
	em     *emitted
	pkg    *load.Package
	spec   *schema.Spec
}

var runSeq atomic.Int64

func newEngine(p *load.Program) *ai.Engine {
	return ai.New(p.SSA)
}

// initialise runs the package initialisers of the repository.
func initialise(e *ai.Engine, p *load.Program, pkgs ...string) error {
	st := e.NewState()
	for _, n := range pkgs {
		pk := p.Pkgs[load.Module+"/"+n]
		if pk == nil {
			return fmt.Errorf("package %s is not part of the program", n)
		}
		outs := e.Call(st, pk.SSA.Func("init"))
		if len(outs) != 1 || outs[0].Kind != "return" {
			msg := "several outcomes"
			if len(outs) > 0 {
				msg = outs[0].Kind + " " + outs[0].Msg
			}
			return fmt.Errorf("initialisation of %s: %s", n, msg)
		}
		st = outs[0].St
	}
	st.Freeze()
	return nil
}

type genErr struct {
	kind string // panic, error, undecided, syntax, types
	msg  string
	pos  token.Pos
}

func (g *genErr) Error() string { return g.kind + ": " + g.msg }

// interpretMarshallers takes schemas through gen.Marshallers.
func interpretMarshallers(p *load.Program, e *ai.Engine, files []*schema.File, sc scheme) (*emitted, []string, []scheme, *genErr) {
	if err := initialise(e, p, "gen"); err != nil {
		return nil, nil, nil, &genErr{"undecided", err.Error(), token.NoPos}
	}
	st := e.NewState()
	b := &schema.Builder{St: st, Ast: p.Pkgs[load.Module+"/ast"].Types, Name: ai.Name}
	var fv []ai.Val
	for _, f := range files {
		fv = append(fv, b.File(f))
	}
	fn := p.Pkgs[load.Module+"/gen"].SSA.Func("Marshallers")
	if fn == nil {
		return nil, nil, nil, &genErr{"undecided", "gen.Marshallers not found", token.NoPos}
	}
	outs := e.Call(st, fn, ai.Lit("pkg"), st.NewSlice(fv))
	var pick []ai.Outcome
	var others []scheme
	for _, o := range outs {
		if consistent(o.St, sc) {
			pick = append(pick, o)
		} else if n, ok := special(o.St, sc); ok {
			others = append(others, n)
		} else if len(o.St.Binds()) > 0 {
			return nil, nil, nil, &genErr{"undecided", "the generator depends on names in a way that is not decided", token.NoPos}
		}
	}
	if len(pick) != 1 {
		return nil, nil, nil, &genErr{"undecided", fmt.Sprintf("%d outcomes of the generator for one schema", len(pick)), token.NoPos}
	}
	o := pick[0]
	switch o.Kind {
	case "return":
	case "panic":
		return nil, nil, nil, &genErr{"panic", o.Msg + " in " + firstRepo(o.Stack), o.Pos}
	default:
		return nil, nil, nil, &genErr{"undecided", o.Kind + ": " + o.Msg, o.Pos}
	}
	if len(o.Ret) != 2 {
		return nil, nil, nil, &genErr{"undecided", "unexpected results of gen.Marshallers", fn.Pos()}
	}
	if !ai.IsNil(o.Ret[1]) {
		return nil, nil, nil, &genErr{"error", "gen.Marshallers returns an error: " + o.St.Show(o.Ret[1]), fn.Pos()}
	}
	t, ok := o.Ret[0].(ai.Text)
	if !ok {
		return nil, nil, nil, &genErr{"undecided", "gen.Marshallers does not return text", fn.Pos()}
	}
	em, err := render(o.St.Resolve(t.S), sc)
	if err != nil {
		return nil, nil, nil, &genErr{"undecided", err.Error(), fn.Pos()}
	}
	var evs []string
	for _, ev := range o.St.EventList() {
		evs = append(evs, ev.Kind)
	}
	return em, evs, others, nil
}

func firstRepo(stack []string) string {
	for _, s := range stack {
		if strings.Contains(s, load.Module) {
			return short(s)
		}
	}
	if len(stack) > 0 {
		return stack[0]
	}
	return "?"
}

// generate interprets the generator on a schema and type-checks its output.
func generate(p *load.Program, texts []string, sc scheme) (*genRun, *genErr) {
	e := newEngine(p)
	g := &genRun{p: p, e: e, sc: sc}
	for _, t := range texts {
		g.files = append(g.files, schema.Read(t))
	}
	if openExtern(g.files) {
		e.ExternMin = 1
	}
	em, evs, others, ge := interpretMarshallers(p, e, g.files, sc)
	g.others = others
	if ge != nil {
		return g, ge
	}
	g.em = em
	processed := false
	for _, k := range evs {
		if k == "imports" {
			processed = true
		}
	}
	seq := runSeq.Add(1)
	em.file = fmt.Sprintf("emitted%d.go", seq)
	if processed {
		if err := em.complete(); err != nil {
			return g, g.typeErr("syntax", err)
		}
	}
	src := map[string]string{em.file: em.text}
	if x := g.externs(); x != "" {
		src[em.file+".extern.go"] = x
	}
	pkg, err := p.AddSource(fmt.Sprintf("verif.emitted/pkg%d", seq), src)
	g.pkg = pkg
	if err != nil {
		return g, g.typeErr("types", err)
	}
	g.spec = schema.NewSpec(e, g.files...)
	g.spec.TypeName = func(n string) string { return pkg.Types.Name() + "." + goName(n, sc) }
	return g, nil
}

// openExtern reports whether an externally defined struct is the element of an
// array that ends with its input.
func openExtern(fs []*schema.File) bool {
	ext := map[string]bool{}
	for _, f := range fs {
		for _, s := range f.Structs {
			if s.Extern {
				ext[s.Name] = true
			}
		}
	}
	for _, f := range fs {
		for _, s := range f.Structs {
			for _, m := range schema.AllFields(s.Members) {
				if v, ok := m.Type.(*schema.Var); ok {
					if _, counted := v.Len.(*schema.Ref); counted {
						continue
					}
					if r, ok := v.Base.(*schema.StructRef); ok && ext[r.Name] {
						return true
					}
				}
			}
		}
	}
	return false
}

func (g *genRun) typeErr(kind string, err error) *genErr {
	pos := token.NoPos
	switch x := err.(type) {
	case types.Error:
		off := g.p.Fset.Position(x.Pos).Offset
		pos = g.em.origin(off)
		err = fmt.Errorf("%s (emitted line: %s)", x.Msg, g.em.line(off))
	default:
		if l, ok := err.(interface{ Error() string }); ok {
			_ = l
		}
	}
	return &genErr{kind, err.Error(), pos}
}

func (em *emitted) line(off int) string {
	if off > len(em.text) {
		off = len(em.text)
	}
	i := strings.LastIndexByte(em.text[:off], '\n') + 1
	j := strings.IndexByte(em.text[off:], '\n')
	if j < 0 {
		j = len(em.text) - off
	}
	return strings.TrimSpace(em.text[i : off+j])
}

// goName is the documented Go name of a schema identifier.
func goName(n string, sc scheme) string { return ai.SnakeToCamel(strings.ToLower(sc.rep(n))) }

// externs declares the structs defined elsewhere, with parsers about which
// nothing is assumed but the contract.
func (g *genRun) externs() string {
	defined := map[string]bool{}
	for _, f := range g.files {
		for _, s := range f.Structs {
			if !s.Extern {
				defined[s.Name] = true
			}
		}
	}
	var b strings.Builder
	for _, f := range g.files {
		for _, s := range f.Structs {
			if !s.Extern || defined[s.Name] {
				continue
			}
			defined[s.Name] = true
			n := goName(s.Name, g.sc)
			sig, args := "", ""
			for i, c := range s.Ctx {
				sig += fmt.Sprintf(", c%d %s", i, goName(c, g.sc))
				args += fmt.Sprintf(", c%d", i)
			}
			fmt.Fprintf(&b, "type %s struct { C string }\n\nfunc (x *%s) Parse(data []byte%s) ([]byte, error) { return model.ExternParse(x, data%s) }\n\n", n, n, sig, args)
		}
	}
	if b.Len() == 0 {
		return ""
	}
	return "package pkg\n\nimport \"verif/model\"\n\n" + b.String()
}

// view is a symbolic input of any length.
func inputView(e *ai.Engine, name string) ai.View {
	base := &ai.ViewBase{Name: name, Len: dom.Var(e.Tab.Sym("len("+name+")", big.NewInt(0), new(big.Int).Lsh(big.NewInt(1), 62)))}
	return ai.View{Base: base, Off: dom.Const(0), Len: base.Len}
}

// method finds Parse of the Go type for a struct.
func (g *genRun) method(s *schema.Struct) (*types.Named, *ssa.Function) {
	o := g.pkg.Types.Scope().Lookup(goName(s.Name, g.sc))
	if o == nil {
		return nil, nil
	}
	n, ok := o.Type().(*types.Named)
	if !ok {
		return nil, nil
	}
	return n, lookupMethod(g.p.SSA, types.NewPointer(n), g.pkg.Types, "Parse")
}

// ctxArg is the abstract value of a context parameter.
func (g *genRun) ctxArg(name string) (ai.Val, types.Type, error) {
	o := g.pkg.Types.Scope().Lookup(goName(name, g.sc))
	if o == nil {
		return nil, nil, fmt.Errorf("no type for context %s", name)
	}
	st, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return nil, nil, fmt.Errorf("context %s is not a struct type", name)
	}
	v := g.e.Zero(o.Type()).(*ai.StructV)
	for _, f := range g.spec.Ctxs[name].Fields {
		i := fieldIndex(st, goName(f.Name, g.sc))
		if i < 0 {
			return nil, nil, fmt.Errorf("context %s has no member %s", name, f.Name)
		}
		z, ok := v.F[i].(ai.Int)
		if !ok {
			return nil, nil, fmt.Errorf("context member %s.%s is not an integer", name, f.Name)
		}
		v.F[i] = ai.Int{L: g.spec.CtxVal(name, f.Name), K: z.K}
	}
	return v, o.Type(), nil
}

func fieldIndex(st *types.Struct, name string) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}
