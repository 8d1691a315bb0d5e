package checks

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/tool/load"
	"verif/tool/schema"
)

// famResult is what the analysis of one family found.
type famResult struct {
	fam    family
	scheme string
	genErr *genErr
	pos    string
	mm     []mismatchAt
	pairs  int
	ok     int
	types  int
	funcs  []string
	calls  int
	states int
	widen  int
	others []scheme
}

type mismatchAt struct {
	mismatch
	where string // struct
	rel   string
}

// analyse takes one family through generator, type checker, interpreter and
// comparison.
func analyse(p *load.Program, f family, sc scheme, behaviour bool) (res *famResult) {
	res = &famResult{fam: f, scheme: sc.name}
	defer func() {
		if r := recover(); r != nil {
			res.genErr = &genErr{kind: "undecided", msg: fmt.Sprintf("analysis failed: %v", r)}
		}
	}()
	g, ge := generate(p, f.text, sc)
	if ge != nil {
		res.genErr = ge
		if ge.pos.IsValid() {
			res.pos = p.Rel(ge.pos)
		}
	} else {
		n, ms := g.compareTypes()
		res.types = n
		for _, m := range ms {
			res.mm = append(res.mm, mismatchAt{m, m.path, relOf(p, m)})
		}
		res.others = g.others
		if behaviour {
			for _, file := range g.files {
				for _, s := range file.Structs {
					if s.Extern {
						continue
					}
					c := g.compareStruct(s)
					res.pairs += c.pairs
					res.ok += c.ok
					for _, m := range c.out {
						res.mm = append(res.mm, mismatchAt{m, s.Name, relOf(p, m)})
					}
				}
			}
		}
	}
	if g != nil && g.e != nil {
		for fn := range g.e.Funcs {
			if s := fn.String(); strings.Contains(s, load.Module) {
				res.funcs = append(res.funcs, short(s))
			}
		}
		for in := range g.e.CallSites {
			if strings.Contains(in.Parent().String(), load.Module) {
				res.calls++
			}
		}
		res.states = g.e.States
		res.widen = g.e.Widenings
	}
	return res
}

func relOf(p *load.Program, m mismatch) string {
	if m.pos.IsValid() {
		return p.Rel(m.pos)
	}
	return ""
}

// compareTypes checks the declarations of the emitted package.
func (g *genRun) compareTypes() (n int, out []mismatch) {
	bad := func(path, format string, a ...any) {
		m := mismatch{kind: "decl", path: path, msg: fmt.Sprintf(format, a...)}
		if o := g.pkg.Types.Scope().Lookup(strings.SplitN(path, ".", 2)[0]); o != nil {
			m.pos = g.originOf(o.Pos())
		}
		out = append(out, m)
	}
	scope := g.pkg.Types.Scope()
	byteSlice := types.NewSlice(types.Typ[types.Uint8])
	errT := types.Universe.Lookup("error").Type()
	inEmitted := func(o types.Object) bool { return g.p.Fset.Position(o.Pos()).Filename == g.em.file }
	named := func(k string) *types.Named {
		o, ok := scope.Lookup(k).(*types.TypeName)
		if !ok || !inEmitted(o) {
			return nil
		}
		t, _ := o.Type().(*types.Named)
		return t
	}
	fields := func(k string, t *types.Named, fs []*schema.Field) {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			bad(k, "%s is not a struct type", k)
			return
		}
		n++
		if st.NumFields() != len(fs) {
			bad(k, "type %s has %d fields, the schema has %d members", k, st.NumFields(), len(fs))
		}
		for _, f := range fs {
			n++
			fn := goName(f.Name, g.sc)
			i := fieldIndex(st, fn)
			if i < 0 {
				bad(k+"."+fn, "type %s has no field %s", k, fn)
				continue
			}
			if want := g.goType(f.Type); want == nil || !types.Identical(want, st.Field(i).Type()) {
				bad(k+"."+fn, "field %s.%s has type %s, the schema type corresponds to %s", k, fn, st.Field(i).Type(), want)
			}
		}
	}
	want := map[string]bool{}
	externs := map[string]bool{}
	for _, f := range g.files {
		for _, c := range f.Ctxs {
			k := goName(c.Name, g.sc)
			want[k] = true
			t := named(k)
			if t == nil {
				bad(k, "context %s has no type", k)
				continue
			}
			fields(k, t, c.Fields)
		}
		for _, s := range f.Structs {
			k := goName(s.Name, g.sc)
			if s.Extern {
				externs[k] = true
				continue
			}
			want[k] = true
			t := named(k)
			if t == nil {
				bad(k, "struct %s has no type", k)
				continue
			}
			fields(k, t, schema.AllFields(s.Members))
			var ps []types.Type
			ps = append(ps, byteSlice)
			for _, c := range s.Ctx {
				ct, _ := scope.Lookup(goName(c, g.sc)).(*types.TypeName)
				if ct == nil {
					bad(k, "context %s of %s has no type", c, k)
					continue
				}
				ps = append(ps, ct.Type())
			}
			sig := func(what string, s *types.Signature, res ...types.Type) {
				n++
				ok := s.Params().Len() == len(ps) && s.Results().Len() == len(res) && !s.Variadic()
				for i := 0; ok && i < len(ps); i++ {
					ok = types.Identical(s.Params().At(i).Type(), ps[i])
				}
				for i := 0; ok && i < len(res); i++ {
					ok = types.Identical(s.Results().At(i).Type(), res[i])
				}
				if !ok {
					bad(k, "%s has signature %s, expected parameters %v and results %v", what, s, ps, res)
				}
			}
			m := lookupMethod(g.p.SSA, types.NewPointer(t), g.pkg.Types, "Parse")
			if m == nil {
				bad(k, "type %s has no Parse method", k)
			} else {
				sig(k+".Parse", m.Signature, byteSlice, errT)
			}
			c, _ := scope.Lookup("Parse" + k).(*types.Func)
			if c == nil {
				bad(k, "no constructor Parse%s", k)
			} else {
				want["Parse"+k] = true
				sig("Parse"+k, c.Type().(*types.Signature), types.NewPointer(t), errT)
			}
		}
	}
	for _, nm := range scope.Names() {
		o := scope.Lookup(nm)
		if !inEmitted(o) || want[nm] || !o.Exported() {
			continue
		}
		n++
		if externs[nm] || externs[strings.TrimPrefix(nm, "Parse")] {
			bad(nm, "extern struct %s is emitted", nm)
		} else if _, ok := o.(*types.TypeName); ok {
			bad(nm, "type %s corresponds to no declaration of the schema", nm)
		}
	}
	return n, out
}

// goType is the Go type of a schema type in the emitted package.
func (g *genRun) goType(t schema.Type) types.Type {
	switch t := t.(type) {
	case *schema.Int:
		return map[uint]types.Type{8: types.Typ[types.Uint8], 16: types.Typ[types.Uint16], 32: types.Typ[types.Uint32], 64: types.Typ[types.Uint64]}[t.Size]
	case schema.Char:
		return types.Typ[types.Uint8]
	case schema.NulTerm:
		return types.Typ[types.String]
	case schema.Ptr:
		return types.Typ[types.Int]
	case *schema.StructRef:
		o, _ := g.pkg.Types.Scope().Lookup(goName(t.Name, g.sc)).(*types.TypeName)
		if o == nil {
			return nil
		}
		return types.NewPointer(o.Type())
	case *schema.Fixed:
		return types.NewArray(g.goType(t.Base), g.spec.Int(t.Size).Int64())
	case *schema.Var:
		return types.NewSlice(g.goType(t.Base))
	}
	return nil
}

var decodeRules = map[string]string{
	"C01": "no outcome of the interpreted emitted parser panics, loops without progress or accepts a truncated field",
	"C02": "every decoded scalar equals the big-endian value of its own bytes, the text before the first NUL or the offset in the input, and decoding resumes right behind it",
	"C03": "acceptance of a constrained integer coincides with membership in its IN list",
	"C04": "exactly the members of the first case containing the tag are decoded, all others keep their prior contents, fail/ignore/default as specified",
	"C05": "regions are decoded from exactly their bytes, must be used up, decoding resumes behind them; eos rejects trailing bytes",
	"C06": "arrays have exactly the specified number of elements, each equal to its own part of the input",
	"C07": "error and data are never returned together, failures at any depth surface, success returns the remaining suffix",
	"C08": "the emitted text parses, type-checks and declares exactly the types, fields, methods and constructors of the schema",
	"C09": "contexts appear in order in both signatures, nested parsers receive exactly their declared contexts, scoped references read the context",
}

// relevant tells whether a mismatch kind speaks about a property.
func relevant(prop string, m mismatch) bool {
	if m.kind == "undecided" {
		return true
	}
	switch prop {
	case "C01":
		return m.kind == "crash" || m.kind == "accept" && strings.Contains(m.path, "short:")
	case "C07":
		return m.kind == "contract" || m.kind == "accept" || m.kind == "reject" || m.kind == "rest" || m.kind == "crash"
	case "C08":
		return m.kind == "decl"
	case "C09":
		return true
	}
	return m.kind != "decl" && m.kind != "contract"
}

// Decode checks C01–C09.
func Decode(r *Report) {
	prop := r.Prop
	full := r.Tier == "thorough"
	type job struct {
		f  family
		sc scheme
	}
	var jobs []job
	all := prop == "C01" || prop == "C07" || prop == "C08"
	fams := append(Families(full), overlapFamilies()...)
	if prop == "C08" {
		fams = append(fams, bigDeclarations()...)
	}
	for _, f := range fams {
		if !all && !strings.Contains(f.props, prop) {
			continue
		}
		jobs = append(jobs, job{f, plainNames})
		if f.odd || prop == "C08" {
			jobs = append(jobs, job{f, oddNames})
		}
	}
	nreg := len(jobs)
	for _, f := range findingFamilies() {
		if strings.Contains(f.props, prop) {
			jobs = append(jobs, job{f, plainNames})
		}
	}
	r.Rule("generate", "interpreting gen.Marshallers on the schema shape yields a result on every trace; the emitted text type-checks", nreg)
	rule := "decode"
	if prop == "C08" {
		rule = "declare"
	}
	r.Rule(rule, decodeRules[prop], nreg)
	results := make([]*famResult, len(jobs))
	var mu sync.Mutex
	parallel(r.P, len(jobs), func(p *load.Program, i int) {
		if os.Getenv("TIMES") != "" {
			t0 := time.Now()
			fmt.Fprintf(os.Stderr, "start %s\n", jobs[i].f.name())
			defer func() { fmt.Fprintf(os.Stderr, "time %6.2f %s\n", time.Since(t0).Seconds(), jobs[i].f.name()) }()
		}
		res := analyse(p, jobs[i].f, jobs[i].sc, prop != "C08")
		for _, sc := range res.others {
			sc := sc
			o := analyse(p, jobs[i].f, sc, prop != "C08")
			where := " [" + sc.name + "]"
			if o.genErr != nil && res.genErr == nil {
				o.genErr.msg += where
				res.genErr, res.pos = o.genErr, o.pos
			}
			for _, m := range o.mm {
				m.msg += where
				res.mm = append(res.mm, m)
			}
			res.pairs, res.ok, res.types = res.pairs+o.pairs, res.ok+o.ok, res.types+o.types
		}
		mu.Lock()
		results[i] = res
		mu.Unlock()
	})
	calls := map[string]int{}
	for i, res := range results {
		where := res.fam.name()
		if res.scheme != "plain" {
			where += " [" + res.scheme + " names]"
		}
		for _, f := range res.funcs {
			r.Funcs[f] = true
		}
		if res.calls > calls["max"] {
			calls["max"] = res.calls
		}
		r.States += res.states
		r.Widenings += res.widen
		if res.genErr != nil {
			k := res.genErr.kind
			r.BadAt("generate:"+k, where, res.pos, "schema %s: %s", where, short(res.genErr.msg))
			if i >= nreg {
				continue
			}
			r.Ok("generate")
			r.Ok(rule)
			continue
		}
		r.Ok("generate")
		if prop == "C08" {
			r.OkN(rule, res.types)
		} else {
			r.OkN(rule, res.ok)
		}
		if prop == "C09" {
			r.OkN(rule, res.types)
		}
		if i%37 == 0 {
			r.Sample("%s: %d classes of (outcome, required outcome) compared, %d declarations", where, res.pairs, res.types)
		}
		for _, m := range res.mm {
			if !relevant(prop, m.mismatch) {
				continue
			}
			r.BadAt(rule+":"+m.kind, where+" / "+m.path, m.rel, "schema %s: %s", where, short(m.msg))
		}
	}
	r.CallSites += calls["max"]
	r.Extra["schema_shapes"] = len(jobs)
	sort.Strings(r.Samples)
	r.Assumptions = append(r.Assumptions,
		"externally defined structs: their parser is any function of the bytes and contexts it is given; as element of an open-ended array it consumes at least one byte",
		"imports.Process adds exactly the missing standard imports and otherwise keeps the program",
		"schema shapes: the member kinds of the grammar alone, in pairs and in the listed combinations; integer literals at representative and boundary values; names in two spelling schemes")
}
