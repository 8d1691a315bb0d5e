package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/tool/load"
	"verif/tool/peg"
)

const pegWhat = "The grammar table is read out of the abstractly interpreted package initialisation and compared with the grammar source and the reference grammar as languages; the parsing engine is verified node by node by abstract interpretation under an assume/guarantee contract; code attached to the grammar is interpreted along derivations with arbitrary names and numbers. "

func init() {
	All["C10"] = Check{grammarCheck, pegWhat + "Decided: the three grammars denote the same language (modulo division into rules) and every node of the table is parsed as its kind prescribes, from the start rule at offset 0 with no option set."}
	All["C11"] = Check{terminationCheck, pegWhat + "Decided: no rule reaches itself without consuming input, no repetition has a nullable body, and the engine evaluates sub-expressions of a node only, each repetition stopping at the first failure."}
	All["C12"] = Check{backtrackCheck, pegWhat + "Decided: on every path through parseExpr for every node, position, label frames and state store are as before when the node fails, a sub-expression starts from the state its kind prescribes, and inline structs end up once each in order."}
	All["C13"] = Check{treeCheck, pegWhat + "Decided: for derivations covering every alternative, option and repetition of every rule, the tree built equals the reference meaning field by field."}
	All["C14"] = Check{entryCheck, pegWhat + "Decided: for every combination of open, read, close, match, reported error and panic, each entry point returns exactly one of tree and error; attached code never panics."}
}

// pegSetup prepares the verifier and reports what prevents it.
func pegSetup(r *Report) *pegVerifier {
	t, err := readTable(r.P)
	if err != nil {
		r.BadAt("undecided", "grammar table", "", "%v", err)
		return nil
	}
	r.Absorb(t.e)
	for _, e := range t.errs {
		r.BadAt("undecided", "grammar table", "", "%s", e)
	}
	v, err := newVerifier(t)
	if err != nil {
		r.BadAt("undecided", "parsing engine", "", "%v", err)
		return nil
	}
	caps, err := v.capture()
	if err != nil {
		r.BadAt("undecided", "parsing engine", r.P.Rel(v.parseFn.Pos()), "%v", err)
		return nil
	}
	v.base = caps[len(caps)-1].st
	v.p = caps[len(caps)-1].p
	return v
}

// engineRules names the obligations on a node, per property.
var engineRules = map[string]map[string]bool{
	"C10": {"order": true, "match": true, "characters": true, "position": true, "engine": true, "encoding": true},
	"C11": {"order": true, "position": true, "characters": true, "diverge": true},
	"C12": {"order": true, "position": true, "labels": true, "state": true},
	"C13": {"order": true, "labels": true, "text": true, "result": true},
	"C14": {"errors": true, "panic": true, "diverge": true},
}

// engine verifies all nodes and reports what concerns the property.
func (v *pegVerifier) engine(r *Report) {
	r.Rule("node", "parseExpr on every expression of the grammar table has the effect its kind prescribes, whatever its sub-expressions do", 350)
	kinds := engineRules[r.Prop]
	outcomes := 0
	ops := map[string]int{}
	for _, n := range v.t.order {
		c, ms := v.verify(n)
		outcomes += c
		ops[n.expr.Op.String()]++
		bad := false
		for _, m := range ms {
			if !kinds[m.kind] && m.kind != "undecided" {
				continue
			}
			bad = true
			r.Bad(m.kind, "parseExpr on "+n.expr.Op.String(), m.pos, "%s (rule %s)", m.msg, m.path)
		}
		if !bad {
			r.Ok("node")
		} else {
			r.ByRule["node"]++
		}
	}
	r.Extra["engine_outcomes"] = outcomes
	for k, n := range ops {
		r.Extra["nodes_"+k] = n
	}
	r.Absorb(v.e)
}

func readSource(rel string) (string, error) {
	b, err := os.ReadFile(filepath.Join(RepoDir, rel))
	return string(b), err
}

func grammarCheck(r *Report) {
	v := pegSetup(r)
	if v == nil {
		return
	}
	ref, err := peg.ReadPigeon(peg.Reference)
	if err != nil {
		panic(err)
	}
	r.Rule("language", "a rule of the compiled table denotes the language of the same part of the documented grammar", 40)
	cmp := func(what string, g *peg.Grammar, table *peg.Grammar) {
		ds := peg.Compare(table, g)
		for _, d := range ds {
			r.BadAt("language", what+": "+d.Rule, "parse/internal/parser/gen-parser.go", "compiled parser and %s differ: %s", what, d.Msg)
		}
		if len(ds) == 0 {
			r.OkN("language", len(table.Rules))
		}
	}
	cmp("documented language", ref, v.t.g)
	if src, err := readSource("parse/trunnel.pigeon"); err != nil {
		r.BadAt("language", "parse/trunnel.pigeon", "", "%v", err)
	} else if pg, err := peg.ReadPigeon(src); err != nil {
		r.BadAt("language", "parse/trunnel.pigeon", "parse/trunnel.pigeon", "%v", err)
	} else {
		cmp("parse/trunnel.pigeon", pg, v.t.g)
	}
	v.entriesReport(r, map[string]bool{"start": true, "option": true, "data": true, "encoding": true})
	v.engine(r)
	for _, ru := range v.t.g.Rules[:3] {
		r.Sample("%s <- %s", ru.Name, short(ru.Expr.String()))
	}
}

func terminationCheck(r *Report) {
	v := pegSetup(r)
	if v == nil {
		return
	}
	r.Rule("progress", "a repetition or recursive rule consumes input", 20)
	n, ds := v.t.g.Loops()
	r.OkN("progress", n)
	for _, d := range ds {
		r.BadAt("progress", d.Rule, "parse/internal/parser/gen-parser.go", "%s", d.Msg)
	}
	if src, err := readSource("parse/trunnel.pigeon"); err == nil {
		if pg, err := peg.ReadPigeon(src); err == nil {
			n, ds := pg.Loops()
			r.OkN("progress", n)
			for _, d := range ds {
				r.BadAt("progress", d.Rule, "parse/trunnel.pigeon", "%s", d.Msg)
			}
		}
	}
	v.engine(r)
}

func backtrackCheck(r *Report) {
	v := pegSetup(r)
	if v == nil {
		return
	}
	v.entriesReport(r, map[string]bool{"option": true, "start": true})
	v.engine(r)
	v.derive(r, func(kind, msg string) bool {
		return kind == "tree" && inlineMsg.MatchString(msg) || kind == "undecided"
	})
}

var inlineMsg = regexp.MustCompile(`^file\.Structs(: has|\[\d+\]\.Name)`)

func treeCheck(r *Report) {
	v := pegSetup(r)
	if v == nil {
		return
	}
	v.engine(r)
	v.derive(r, func(kind, msg string) bool { return kind != "shared" })
}

func entryCheck(r *Report) {
	v := pegSetup(r)
	if v == nil {
		return
	}
	v.entriesReport(r, map[string]bool{"result": true, "panic": true, "first": true, "order": true, "data": true, "encoding": true})
	v.engine(r)
	v.derive(r, func(kind, msg string) bool {
		return kind == "panic" || kind == "undecided" || kind == "reject" || strings.Contains(msg, "does not fit") || strings.Contains(msg, "not a tree")
	})
}

// entriesReport analyses the exported entry points.
func (v *pegVerifier) entriesReport(r *Report, kinds map[string]bool) {
	r.Rule("entry", "every outcome of an exported parsing function, for every outcome of opening, reading, matching, reporting and closing", 500)
	p := v.p
	n, ms := v.checkEntries()
	v.p = p
	r.OkN("entry", n)
	for _, m := range ms {
		if kinds[m.kind] || m.kind == "undecided" {
			r.Bad(m.kind, m.path, m.pos, "%s: %s", m.path, m.msg)
		}
	}
}

// derive analyses the attached code along derivations.
func (v *pegVerifier) derive(r *Report, keep func(kind, msg string) bool) {
	r.Rule("derivation", "a node of the tree built for a derivation equals its reference meaning", 8000)
	r.Rule("code", "a function attached to the grammar is analysed in some derivation", 40)
	ref, err := peg.ReadPigeon(peg.Reference)
	if err != nil {
		panic(err)
	}
	for k := range v.runs {
		delete(v.e.Intr, k)
	}
	limit := 400
	if r.Tier == "thorough" {
		limit = 2000
	}
	texts, feats := derivations(ref, 100*limit, limit)
	r.Extra["derivations"] = len(texts)
	r.Extra["derivation_steps"] = feats
	if feats < 250 {
		r.BadAt("coverage", "derivation steps", "", "only %d derivation steps covered", feats)
	}
	for _, t := range texts[len(texts)-3:] {
		r.Sample("%s", t)
	}
	ran := map[string]bool{}
	report := func(text string, out []derivOut) {
		for _, o := range out {
			if !keep(o.kind, o.msg) {
				continue
			}
			where := o.msg
			if i := strings.Index(where, ": "); i > 0 {
				where = where[:i]
			}
			where = indexRe.ReplaceAllString(where, "[]")
			pos := o.pos
			if o.rule != "" {
				if fn := v.codeOf(o.rule); fn != nil {
					where = "rule " + o.rule + ": " + lastPart(where)
					if !pos.IsValid() {
						pos = fn.Pos()
					}
				}
			}
			r.Bad(o.kind, where, pos, "%s, in: %s", o.msg, text)
		}
	}
	for _, t := range texts {
		n, out := v.analyse(t, ref, true, -1, ran)
		for _, o := range out {
			if o.kind == "undecided" {
				// decide it for particular names and numbers instead
				n, out = 0, nil
				for _, w := range respell(t) {
					m, o := v.analyse(w, ref, false, -1, ran)
					n += m
					out = append(out, o...)
				}
				break
			}
		}
		r.OkN("derivation", n)
		report(t, out)
	}
	// numbers that do not fit
	big := 0
	for _, t := range texts {
		if big > 60 {
			break
		}
		for k := 0; k < 3; k++ {
			n, out := v.analyse(t, ref, true, k, ran)
			big += n
			for _, o := range out {
				if o.kind == "undecided" {
					out = nil
					break
				}
			}
			r.OkN("derivation", n)
			report(t, out)
		}
	}
	r.OkN("code", len(ran))
	for _, n := range v.t.order {
		if n.run != nil && !ran[n.run.Name()] && v.reachable(n.rule) {
			r.BadAt("coverage", "code "+n.run.Name(), r.P.Rel(n.run.Pos()), "the code is not reached by any derivation")
		}
	}
	r.Absorb(v.e)
}

// respell writes a text with other names and numbers in the same places.
func respell(text string) []string {
	out := []string{text}
	name := []func(s string, upper bool) string{
		func(s string, upper bool) string { return s + "_" },
		func(s string, upper bool) string { return "_" + s },
		func(s string, upper bool) string {
			if upper {
				return "Z" + s + "QZ"
			}
			return "z" + s + "aZ"
		},
		func(s string, upper bool) string { return s + strings.Repeat("_A9", 90) },
	}
	num := []string{"0", "255", "0x10000", "0xffffffff", "4294967296"}
	for i, f := range name {
		k := 0
		out = append(out, lexRe.ReplaceAllStringFunc(text, func(s string) string {
			switch {
			case s[0] == '/' || s[0] == '"':
				return s
			case s[0] >= '0' && s[0] <= '9':
				k++
				return num[(i+k)%len(num)]
			case numbered.MatchString(s):
				return f(s, strings.ToUpper(s) == s)
			}
			return s
		}))
	}
	return out
}

var indexRe = regexp.MustCompile(`\[\d+\]`)

func lastPart(s string) string {
	if i := strings.LastIndex(s, "."); i >= 0 {
		return s[i+1:]
	}
	return s
}

// codeOf returns the first code attached to a rule.
func (v *pegVerifier) codeOf(rule string) *ssa.Function {
	for _, n := range v.t.order {
		if n.rule == rule && n.run != nil {
			return runTarget(v.t.p.SSA, n.run)
		}
	}
	return nil
}

// reachable reports whether a rule is used from the start rule.
func (v *pegVerifier) reachable(rule string) bool {
	seen := map[string]bool{}
	var visit func(name string)
	visit = func(name string) {
		if seen[name] || v.t.rules[name] == nil {
			return
		}
		seen[name] = true
		for _, n := range v.t.order {
			if n.rule == name && n.expr.Op == peg.Ref {
				visit(n.expr.Text)
			}
		}
	}
	visit(v.t.g.Rules[0].Name)
	return seen[rule]
}

// findParseExpr locates the function that parses an arbitrary expression: the
// method of the parser from any expression to a value and a flag.
func findParseExpr(t *pegTable, pn types.Type) *ssa.Function {
	ms := t.p.SSA.MethodSets.MethodSet(types.NewPointer(pn))
	var found *ssa.Function
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		sig := f.Type().(*types.Signature)
		if sig.Params().Len() != 1 || sig.Results().Len() != 2 || !types.IsInterface(sig.Params().At(0).Type()) || !types.IsInterface(sig.Results().At(0).Type()) {
			continue
		}
		if b, ok := sig.Results().At(1).Type().(*types.Basic); !ok || b.Kind() != types.Bool {
			continue
		}
		fn := t.p.SSA.FuncValue(f)
		if fn == nil {
			continue
		}
		if f.Name() == "parseExpr" {
			return fn
		}
		n := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.TypeAssert); ok {
					n++
				}
			}
		}
		if n > 5 {
			found = fn
		}
	}
	return found
}

var _ = fmt.Sprint
var _ = token.NoPos
var _ = load.Module
