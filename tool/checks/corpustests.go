package checks

import (
	"fmt"
	"go/build"
	"go/token"
	"go/types"
	"hash/fnv"
	"io"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/tool/ai"
	"verif/tool/dom"
	"verif/tool/load"
)

func init() {
	All["C26"] = Check{corpusTests, "gen.CorpusTests and gen.Fuzzers are interpreted abstractly on corpora with and without context values, and gen.Package on schema shapes; the emitted files are type-checked together and the emitted functions interpreted in turn, with every call of a parser recorded and failing or not. Decided: each test calls its struct's constructor with exactly the bytes of each vector and fails when, and only when, a call does; each fuzz function passes on its input; both exist exactly for the structs without context values, the fuzz functions only behind the gofuzz build tag."}
}

// valuation gives the symbols of a trace concrete values, consistently.
func valuation(e *ai.Engine, st *ai.State, l dom.Lin) *big.Int {
	if x, ok := st.Store.Fixed(l); ok {
		return x
	}
	sum := new(big.Int).Set(l.C)
	for _, t := range l.T {
		h := fnv.New32a()
		io.WriteString(h, e.Tab.Format(dom.Var(t.S)))
		sum.Add(sum, new(big.Int).Mul(t.K, big.NewInt(int64(h.Sum32()%251))))
	}
	return sum.And(sum, big.NewInt(255))
}

// concrete writes a text with the symbols replaced by values.
func concrete(e *ai.Engine, st *ai.State, s ai.Str, sc scheme) (ai.Str, error) {
	out := ai.Str{}
	for _, p := range s.P {
		if p.Atom == nil || p.Atom.Num == nil || p.Atom.Num.IsConst() {
			out.P = append(out.P, p)
			continue
		}
		x := valuation(e, st, *p.Atom.Num)
		q := p
		q.Atom = nil
		switch p.Atom.Fn {
		case "dec":
			q.Lit = x.String()
		case "hex":
			q.Lit = x.Text(16)
		case "hex2":
			q.Lit = fmt.Sprintf("%02x", x)
		case "byte":
			q.Lit = string([]byte{byte(x.Int64())})
		default:
			return out, fmt.Errorf("text %q is not determined by the corpus", p.Atom.Key)
		}
		out.P = append(out.P, q)
	}
	return out, nil
}

// concreteBytes reads bytes with the symbols replaced by values.
func concreteBytes(e *ai.Engine, st *ai.State, v ai.Val) (string, bool) {
	if ai.IsNil(v) {
		return "", true
	}
	el, ok := st.Elems(v)
	if !ok {
		return "", false
	}
	var b []byte
	for _, x := range el {
		i, ok := x.(ai.Int)
		if !ok {
			return "", false
		}
		b = append(b, byte(valuation(e, st, i.L).Int64()))
	}
	return string(b), true
}

// testedPackage is an emitted package with tests and fuzz functions.
type testedPackage struct {
	q     *Report
	where string
	p     *load.Program
	e     *ai.Engine
	pkg   *load.Package
	fns   map[string]bool // constructors, by name of the type
	pos   token.Pos
	files map[string]*emitted
}

// addFile renders and completes an emitted file.
func (t *testedPackage) addFile(name string, em *emitted, processed bool) bool {
	if processed {
		if err := em.complete(); err != nil {
			t.q.Bad("compiles", t.where, t.pos, "%s: %v", name, err)
			return false
		}
	}
	t.files[name] = em
	return true
}

// matches reports whether a build with the given tags includes a file.
func matches(name, text string, tags ...string) bool {
	c := build.Default
	c.BuildTags = tags
	c.GOOS, c.GOARCH = "linux", "amd64"
	c.OpenFile = func(string) (io.ReadCloser, error) { return io.NopCloser(strings.NewReader(text)), nil }
	c.JoinPath = func(e ...string) string { return strings.Join(e, "/") }
	ok, err := c.MatchFile("/verif.emitted", name)
	return err == nil && ok
}

// load type-checks the files as one package, as the fuzzer builds it.
func (t *testedPackage) load(extra string) bool {
	src := map[string]string{}
	seq := runSeq.Add(1)
	for n, em := range t.files {
		em.file = fmt.Sprintf("tested%d-%s", seq, n)
		src[em.file] = em.text
	}
	if extra != "" {
		src[fmt.Sprintf("tested%d-extra.go", seq)] = extra
	}
	t.q.Ok("compiles")
	pkg, err := t.p.AddSource(fmt.Sprintf("verif.emitted/tested%d", seq), src)
	if err != nil {
		t.q.Bad("compiles", t.where, t.pos, "the emitted package does not compile: %v", err)
		return false
	}
	t.pkg = pkg
	t.fns = map[string]bool{}
	for _, n := range pkg.Types.Scope().Names() {
		fn := pkg.SSA.Func(n)
		if fn == nil || !strings.HasPrefix(n, "Parse") {
			continue
		}
		typ := strings.TrimPrefix(n, "Parse")
		t.fns[typ] = true
		sig := fn.Signature
		t.e.Intr[fn.String()] = func(st *ai.State, c *ai.CallCtx, a []ai.Val) []ai.Res {
			st.Emit("parse:"+typ, c.Pos, a...)
			if sig.Results().Len() != 2 {
				return []ai.Res{{St: st, Stop: "unexpected results of " + fn.Name()}}
			}
			bad := st.Clone()
			bad.Data["parsefail"] = true
			ok := st.New(t.e.Zero(sig.Results().At(0).Type().(*types.Pointer).Elem()))
			return []ai.Res{
				{St: st, V: ai.Tuple{ok, ai.NilV{}}},
				{St: bad, V: ai.Tuple{ai.NilV{}, t.e.NewError(bad, ai.Lit("parsing failed"))}},
			}
		}
	}
	return true
}

// decls lists the top-level functions declared by an emitted file.
func (t *testedPackage) decls(name string) (out []*ssa.Function) {
	em := t.files[name]
	if em == nil {
		return nil
	}
	for _, n := range t.pkg.Types.Scope().Names() {
		if fn := t.pkg.SSA.Func(n); fn != nil && t.p.Fset.Position(fn.Pos()).Filename == em.file {
			out = append(out, fn)
		}
	}
	return
}

// judge interprets the tests and fuzz functions: want maps the name of a type
// to the bytes of its vectors, none must have neither.
func (t *testedPackage) judge(want map[string][]string, none map[string]bool) {
	const testFile, fuzzFile = "gen-marshallers_test.go", "gen-fuzz.go"
	q := t.q
	q.Ok("tag")
	if em := t.files[fuzzFile]; em == nil {
		q.Bad("tag", t.where, t.pos, "no fuzz file")
	} else if matches(fuzzFile, em.text) || matches(fuzzFile, em.text, "fuzz") || !matches(fuzzFile, em.text, "gofuzz") {
		q.Bad("tag", t.where, t.pos, "%s is not built exactly with the gofuzz tag", fuzzFile)
	}
	q.Ok("tag")
	if em := t.files[testFile]; em == nil {
		q.Bad("tag", t.where, t.pos, "no test file")
	} else if !matches(testFile, em.text) {
		q.Bad("tag", t.where, t.pos, "%s is not part of an ordinary build", testFile)
	}
	tested, fuzzed := map[string]bool{}, map[string]bool{}
	for _, fn := range t.decls(testFile) {
		if !strings.HasPrefix(fn.Name(), "Test") {
			continue
		}
		q.Ok("tests")
		// the test is the one of the type it parses
		st := t.e.NewState()
		arg := st.New(t.e.Zero(fn.Signature.Params().At(0).Type().(*types.Pointer).Elem()))
		outs := t.e.Call(st, fn, arg)
		typ := ""
		for _, o := range outs {
			calls := map[string][]string{}
			fails := false
			for _, ev := range o.St.EventList() {
				if n, ok := strings.CutPrefix(ev.Kind, "parse:"); ok {
					b, ok := concreteBytes(t.e, o.St, ev.Args[0])
					if !ok {
						q.Bad("tests", t.where+" "+fn.Name(), t.pos, "the bytes given to Parse%s are not known", n)
					}
					calls[n] = append(calls[n], b)
				}
				fails = fails || ev.Kind == "testfail"
				if ev.Kind == "testskip" {
					q.Bad("tests", t.where+" "+fn.Name(), t.pos, "the test is skipped")
				}
			}
			failed := o.St.Data["parsefail"] != nil
			switch {
			case o.Kind != "return" && !(o.Kind == "exit" && fails):
				q.Bad("tests", t.where+" "+fn.Name(), t.pos, "the test: %s %s", o.Kind, o.Msg)
			case failed && !fails:
				q.Bad("fails", t.where+" "+fn.Name(), t.pos, "the test passes although the parser rejects a vector")
			case !failed && fails:
				q.Bad("fails", t.where+" "+fn.Name(), t.pos, "the test fails although every vector is accepted")
			case failed:
				q.Ok("fails")
			default:
				q.Ok("bytes")
				if len(calls) > 1 {
					q.Bad("bytes", t.where+" "+fn.Name(), t.pos, "the test uses several parsers")
				}
				for n, l := range calls {
					typ = n
					if d := diffSets(l, want[n]); d != "" {
						q.Bad("bytes", t.where+" "+fn.Name(), t.pos, "the vectors given to Parse%s are not those of the corpus: %s", n, d)
					}
				}
				if len(calls) == 0 {
					// nothing to test: by name
					typ = strings.TrimSuffix(strings.TrimPrefix(fn.Name(), "Test"), "Corpus")
					if len(want[typ]) > 0 {
						q.Bad("bytes", t.where+" "+fn.Name(), t.pos, "no vector is given to Parse%s", typ)
					}
				}
			}
		}
		if typ != "" {
			tested[typ] = true
		}
	}
	for _, fn := range t.decls(fuzzFile) {
		if !strings.HasPrefix(fn.Name(), "Fuzz") {
			continue
		}
		q.Ok("fuzz")
		sig := fn.Signature
		if sig.Params().Len() != 1 || sig.Results().Len() != 1 || sig.Params().At(0).Type().String() != "[]byte" || sig.Results().At(0).Type().String() != "int" {
			q.Bad("fuzz", t.where+" "+fn.Name(), t.pos, "%s is not a fuzz entry point: %s", fn.Name(), sig)
			continue
		}
		typ := strings.TrimPrefix(fn.Name(), "Fuzz")
		st := t.e.NewState()
		in := inputView(t.e, "fuzz input")
		for _, o := range t.e.Call(st, fn, in) {
			if o.Kind != "return" {
				q.Bad("fuzz", t.where+" "+fn.Name(), t.pos, "%s: %s %s", fn.Name(), o.Kind, o.Msg)
				continue
			}
			n := 0
			for _, ev := range o.St.EventList() {
				if x, ok := strings.CutPrefix(ev.Kind, "parse:"); ok {
					n++
					if w, ok := ev.Args[0].(ai.View); x != typ || !ok || w.Base != in.Base || !w.Off.Equal(in.Off) || !w.Len.Equal(in.Len) {
						q.Bad("fuzz", t.where+" "+fn.Name(), t.pos, "%s does not give its input to Parse%s", fn.Name(), typ)
					}
				}
			}
			if n == 0 {
				q.Bad("fuzz", t.where+" "+fn.Name(), t.pos, "%s parses nothing", fn.Name())
			}
		}
		fuzzed[typ] = true
	}
	for _, n := range sortedKeys(want) {
		q.OkN("exist", 2)
		if !tested[n] {
			q.Bad("exist", t.where+" "+n, t.pos, "there is no corpus test for %s", n)
		}
		if !fuzzed[n] {
			q.Bad("exist", t.where+" "+n, t.pos, "there is no fuzz entry point for %s", n)
		}
	}
	for _, m := range []map[string]bool{tested, fuzzed} {
		for _, n := range sortedKeys(m) {
			q.Ok("exist")
			if none[n] {
				q.Bad("exist", t.where+" "+n, t.pos, "%s needs context values, but has a test or fuzz entry point", n)
			} else if _, ok := want[n]; !ok {
				q.Bad("exist", t.where+" "+n, t.pos, "there is a test or fuzz entry point for %s, which has no vectors", n)
			}
		}
	}
}

func diffSets(a, b []string) string {
	count := map[string]int{}
	for _, x := range b {
		count[x] |= 1
	}
	for _, x := range a {
		count[x] |= 2
	}
	var ks []string
	for k, n := range count {
		if n != 3 {
			ks = append(ks, k)
		}
	}
	if len(ks) == 0 {
		return ""
	}
	sort.Strings(ks)
	if count[ks[0]] == 1 {
		return fmt.Sprintf("% x is not tested", ks[0])
	}
	return fmt.Sprintf("% x is not a vector", ks[0])
}

// directCorpus is a corpus made by hand.
type directSuite struct {
	typ     string
	vectors []directVector
}

type directVector struct {
	data string
	ctx  []string // constraint scopes
}

func long(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*37 + 11)
	}
	return string(b)
}

var directCorpora = [][]directSuite{
	{},
	{{"a", nil}},
	{{"a", []directVector{{"\x01", nil}}}},
	{{"a", []directVector{{"", nil}}}},
	{{"a", []directVector{{"\x00", nil}, {"\x00\x01", nil}, {"\xff\xfe\x80", nil}, {"\x00", nil}}}},
	{{"a", []directVector{{long(40), nil}, {long(256), nil}, {"\"\\\n%s%d`", nil}}}},
	{{"a", []directVector{{"\x01", nil}}}, {"b", []directVector{{"\x02", nil}, {"\x03", nil}}}, {"d", []directVector{{"\x04\x05", nil}}}},
	{{"a", []directVector{{"\x01", []string{"c"}}}}},
	{{"a", []directVector{{"\x01", nil}, {"\x02", []string{"c"}}, {"\x03", nil}}}, {"b", []directVector{{"\x02", nil}}}},
	{{"b", []directVector{{"\x02", nil}}}, {"a", []directVector{{"\x01", nil}, {"\x02", nil}, {"\x03", []string{"c", "e"}}}}, {"d", []directVector{{"\x09", nil}}}},
	{{"a", []directVector{{"\x01", []string{"c"}}, {"\x02", nil}}}, {"b", []directVector{{"\x02", []string{"c"}}}}, {"d", []directVector{{"\x09", nil}}}},
}

func init() {
	// many vectors, many suites
	var vs, mixed []directVector
	for i := 0; i < 40; i++ {
		vs = append(vs, directVector{long(i%5) + string(rune('A'+i)), nil})
		mixed = append(mixed, vs[i])
	}
	mixed[33].ctx = []string{"c"}
	var many []directSuite
	for i := 0; i < 14; i++ {
		many = append(many, directSuite{fmt.Sprintf("suite%c", 'a'+i), []directVector{{long(i + 1), nil}, {"", nil}}})
	}
	many[5].vectors = nil
	many[9].vectors[1].ctx = []string{"c"}
	directCorpora = append(directCorpora, []directSuite{{"a", vs}, {"b", vs[:17]}}, []directSuite{{"b", vs[:9]}, {"a", mixed}}, many)
}

func corpusTests(r *Report) {
	r.Rule("compiles", "the emitted files compile together", 20)
	r.Rule("tag", "the fuzz file is built with the gofuzz tag only, the test file always", 40)
	r.Rule("tests", "a corpus test runs to its end or fails", 20)
	r.Rule("bytes", "a corpus test gives the parser exactly the bytes of the vectors", 20)
	r.Rule("fails", "a corpus test fails when the parser does", 20)
	r.Rule("fuzz", "a fuzz entry point gives its input to the parser of its struct", 20)
	r.Rule("exist", "tests and fuzz entry points exist for structs without context values only", 60)
	schemes := []scheme{plainNames, oddNames}
	n := len(directCorpora) * len(schemes)
	var fams [][]string
	for i := 0; i < n; i++ {
		fams = append(fams, []string{fmt.Sprintf("corpus %d", i)})
	}
	overShapes(r, fams, func(q *Report, p *load.Program, texts []string) {
		var i int
		fmt.Sscanf(texts[0], "corpus %d", &i)
		directTests(q, p, directCorpora[i%len(directCorpora)], schemes[i/len(directCorpora)])
	})
	overShapes(r, buildFamilies, func(q *Report, p *load.Program, texts []string) {
		b := newBuildRun(q, p, texts)
		b.fewDraws()
		defer func() { q.Absorb(b.e) }()
		outs := b.build(nil)
		for k, o := range outs {
			if o.Kind != "return" {
				q.Bad("undecided", b.name, o.Pos, "gen.Package: %s %s", o.Kind, o.Msg)
				continue
			}
			if k < 6 {
				b.builtTests(q, o.St)
			}
		}
	})
}

// textOf reads what a file holds in the end.
func textOf(st *ai.State, w *write) (ai.Str, bool) {
	out := ai.Str{}
	for _, d := range w.data {
		switch x := d.(type) {
		case ai.Text:
			out = out.Concat(st.Resolve(x.S))
		case ai.Str:
			out = out.Concat(st.Resolve(x))
		default:
			return out, false
		}
	}
	return out, true
}

// processedText reports whether a text went through import processing.
func processedText(st *ai.State, s ai.Str) bool {
	for _, ev := range st.EventList() {
		if ev.Kind == "imports" {
			if t, ok := ev.Args[1].(ai.Text); ok && st.Resolve(t.S).String() == s.String() {
				return true
			}
		}
	}
	return false
}

// builtTests judges the files of a build.
func (b *buildRun) builtTests(q *Report, st *ai.State) {
	f := effectsOf(st)
	e := newEngine(b.p)
	defer func() { q.Absorb(e) }()
	t := &testedPackage{q: q, where: b.name, p: b.p, e: e, pos: b.genFn("Package").Pos(), files: map[string]*emitted{}}
	if err := initialise(e, b.p, "gen"); err != nil {
		panic(giveUp(err.Error()))
	}
	want := map[string][]string{}
	full := false
	for _, w := range f.writes {
		for _, n := range outputs {
			if w.path != b.in(ai.Lit(n)) {
				continue
			}
			s, ok := textOf(st, w)
			if !ok {
				panic(giveUp("the contents of " + n + " are not known"))
			}
			c, err := concrete(b.e, st, s, plainNames)
			if err != nil {
				panic(giveUp(err.Error()))
			}
			em, err := render(c, plainNames)
			if err != nil {
				panic(giveUp(err.Error()))
			}
			if !t.addFile(n, em, processedText(st, s)) {
				return
			}
			full = full || n == outputs[1]
		}
		for _, n := range b.structNames() {
			d := b.in(ai.Lit("testdata/fuzz"), ai.Name(n), ai.Lit("corpus/"))
			if strings.HasPrefix(w.path, d) && len(w.data) == 1 {
				x, ok := concreteBytes(b.e, st, w.data[0])
				if !ok {
					panic(giveUp("the contents of a corpus file are not known"))
				}
				g := goName(n, plainNames)
				want[g] = append(want[g], x)
			}
		}
	}
	if !full {
		return // vectors are not implemented
	}
	none := map[string]bool{}
	for _, n := range b.structNames() {
		if b.needsContext(n, map[string]bool{}) {
			g := goName(n, plainNames)
			delete(want, g)
			none[g] = true
		}
	}
	if t.load("") {
		t.judge(want, none)
	}
}

// needsContext reports whether a struct depends on context values.
func (b *buildRun) needsContext(n string, seen map[string]bool) bool {
	for _, f := range b.files {
		for _, s := range f.Structs {
			if s.Name == n && len(s.Ctx) > 0 {
				return true
			}
		}
	}
	return false
}

// directTests judges the tests emitted for a corpus made by hand.
func directTests(q *Report, p *load.Program, suites []directSuite, sc scheme) {
	b := newBuildRun(q, p, []string{""})
	defer func() { q.Absorb(b.e) }()
	st := b.e.NewState()
	consT := b.typ("Constraints")
	want, none := map[string][]string{}, map[string]bool{}
	extra := "package pkgname\n"
	if sc.name != "plain" {
		extra = "package " + sc.rep("pkgname") + "\n"
	}
	var svs []ai.Val
	where := "corpus"
	for _, s := range suites {
		g := goName(s.typ, sc)
		extra += fmt.Sprintf("type %s struct{}\nfunc Parse%s(data []byte) (*%s, error) { panic(0) }\n", g, g, g)
		var vs []ai.Val
		var datas []string
		ctx := false
		where += fmt.Sprintf(" %s:", s.typ)
		for _, v := range s.vectors {
			var el []ai.Val
			for i := 0; i < len(v.data); i++ {
				el = append(el, ai.Int{L: dom.Const(int64(v.data[i])), K: types.Uint8})
			}
			fields := map[string]ai.Val{"Data": st.NewSlice(el), "Constraints": b.constraints(st, consT, v.ctx)}
			vs = append(vs, b.fill(b.typ("Vector"), fields))
			datas = append(datas, v.data)
			ctx = ctx || len(v.ctx) > 0
			where += fmt.Sprintf(" %d/%d", len(v.data), len(v.ctx))
		}
		if ctx {
			none[g] = true
		} else {
			want[g] = datas
		}
		var l ai.Val = ai.NilV{}
		if len(vs) > 0 {
			l = st.NewSlice(vs)
		}
		svs = append(svs, b.fill(b.typ("Suite"), map[string]ai.Val{"Type": ai.Name(s.typ), "Vectors": l}))
	}
	var l ai.Val = ai.NilV{}
	if len(svs) > 0 {
		l = st.NewSlice(svs)
	}
	corpus := st.New(b.fill(b.typ("Corpus"), map[string]ai.Val{"Suites": l}))
	e := newEngine(p)
	defer func() { q.Absorb(e) }()
	if err := initialise(e, p, "gen"); err != nil {
		panic(giveUp(err.Error()))
	}
	t := &testedPackage{q: q, where: where + " (" + sc.name + " names)", p: p, e: e, pos: b.genFn("CorpusTests").Pos(), files: map[string]*emitted{}}
	for fn, file := range map[string]string{"CorpusTests": outputs[1], "Fuzzers": outputs[2]} {
		var pick []ai.Outcome
		for _, o := range b.e.Call(st.Clone(), b.genFn(fn), ai.Name("pkgname"), corpus) {
			if consistent(o.St, sc) {
				pick = append(pick, o)
			}
		}
		if len(pick) != 1 || pick[0].Kind != "return" {
			msg := fmt.Sprintf("%d outcomes", len(pick))
			if len(pick) > 0 {
				msg = pick[0].Kind + " " + pick[0].Msg
			}
			q.Bad("undecided", t.where+" "+fn, b.genFn(fn).Pos(), "gen.%s: %s", fn, msg)
			return
		}
		o := pick[0]
		if !ai.IsNil(o.Ret[1]) {
			q.Bad("tests", t.where+" "+fn, b.genFn(fn).Pos(), "gen.%s fails", fn)
			return
		}
		x, ok := o.Ret[0].(ai.Text)
		if !ok {
			panic(giveUp("gen." + fn + " does not return text"))
		}
		s := o.St.Resolve(x.S)
		em, err := render(s, sc)
		if err != nil {
			panic(giveUp(err.Error()))
		}
		if !t.addFile(file, em, processedText(o.St, s)) {
			return
		}
	}
	if t.load(extra) {
		t.judge(want, none)
	}
}

// constraints makes a constraint set with the given scopes.
func (b *buildRun) constraints(st *ai.State, t types.Type, scopes []string) ai.Val {
	if len(scopes) == 0 {
		return ai.NilV{}
	}
	var out ai.Val
	mk := func(fn string, args []ai.Val) []ai.Val {
		var ret []ai.Val
		n := 0
		for _, o := range b.e.Call(st.Clone(), b.fn(fn), args...) {
			if o.Kind == "return" {
				n++
				ret = o.Ret
				*st = *o.St
			}
		}
		if n != 1 {
			panic(giveUp("tv." + fn + " has no single outcome"))
		}
		return ret
	}
	out = mk("NewConstraints", nil)[0]
	set := lookupMethod(b.p.SSA, t, b.pkg.Types, "Set")
	if set == nil {
		panic(giveUp("tv.Constraints.Set not found"))
	}
	for _, s := range scopes {
		done := false
		for _, o := range b.e.Call(st.Clone(), set, out, ai.Name(s), ai.Name("n"), ai.Int{L: dom.Const(3), K: types.Int64}) {
			if o.Kind == "return" && !done {
				done = true
				*st = *o.St
			}
		}
	}
	return out
}
