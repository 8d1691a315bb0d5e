package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"strconv"
	"strings"

	"verif/tool/ai"
	"verif/tool/dom"
	"verif/tool/peg"
)

// The code attached to the grammar is analysed along derivations: the compiled
// table says which code runs on which part of a text and with which labels
// (the engine itself is verified separately, node by node), and the code is
// interpreted with names and numbers standing for arbitrary identifiers and
// literals.

type lexeme struct {
	start, end int
	name, num  bool
}

var lexRe = regexp.MustCompile(`/\*(?s:.*?)\*/|//[^\n]*|"[^"]*"|[A-Za-z_][A-Za-z0-9_]*|[0-9][0-9A-Za-z]*`)

// derivation is one analysed text.
type derivation struct {
	text     []rune
	lex      []lexeme
	symbolic bool
	tooBig   int // index of a number that does not fit, or -1
}

type actionRun struct {
	v      *pegVerifier
	d      *derivation
	st     *ai.State
	frames [][2][]ai.Val
	errs   int
	script []int
	taken  []int
	width  []int
	msg    string
	pos    token.Pos
	steps  int
	ran    map[string]bool
}

type abandon struct{}

func (r *actionRun) fail(pos token.Pos, f string, a ...any) {
	r.msg, r.pos = fmt.Sprintf(f, a...), pos
	panic(abandon{})
}

func (r *actionRun) str(a, b int) ai.Str {
	s := ai.Str{}
	i := a
	for _, l := range r.d.lex {
		if !r.d.symbolic || !(l.name || l.num) || l.start < i || l.end > b {
			continue
		}
		if l.start > i {
			s = s.Concat(ai.Lit(string(r.d.text[i:l.start])))
		}
		s = s.Concat(ai.FreeName("‹" + string(r.d.text[l.start:l.end]) + "›"))
		i = l.end
	}
	if i < b {
		s = s.Concat(ai.Lit(string(r.d.text[i:b])))
	}
	return s
}

func (r *actionRun) num(a, b int) dom.Lin {
	s := r.str(a, b)
	if l, ok := s.Literal(); ok {
		n, _ := new(big.Int).SetString(l, 0)
		if n == nil {
			n = big.NewInt(-1)
		}
		return dom.ConstBig(n)
	}
	return dom.Var(r.v.e.Tab.Sym(fmt.Sprintf("num(%s,base %d)", s.String(), 0), nil, nil))
}

type storeSnap struct{ k, v []ai.Val }

func (r *actionRun) snap() storeSnap {
	m, ok := r.v.cur(r.st, "state").(ai.MapRef)
	if !ok {
		return storeSnap{}
	}
	k, v := r.st.MapEntries(m)
	return storeSnap{append([]ai.Val(nil), k...), append([]ai.Val(nil), v...)}
}

func (r *actionRun) restore(s storeSnap) {
	if m, ok := r.v.cur(r.st, "state").(ai.MapRef); ok {
		r.st.SetMap(m, s.k, s.v)
	}
}

func (r *actionRun) push() { r.frames = append(r.frames, [2][]ai.Val{}) }
func (r *actionRun) pop()  { r.frames = r.frames[:len(r.frames)-1] }

func (r *actionRun) bytes(a, b int) ai.Val {
	return ai.Iface{T: types.NewSlice(types.Typ[types.Byte]), V: ai.Text{S: r.str(a, b)}}
}

func (r *actionRun) list(vs []ai.Val) ai.Val {
	if vs == nil {
		return ai.Iface{T: r.v.anySlice(), V: ai.NilV{}}
	}
	return ai.Iface{T: r.v.anySlice(), V: r.st.NewSlice(vs)}
}

// call runs attached code in the current frame.
func (r *actionRun) call(n *node, a, b int) ai.Val {
	v := r.v
	r.ran[n.run.Name()] = true
	f := r.frames[len(r.frames)-1]
	m := r.st.NewMap(append([]ai.Val(nil), f[0]...), append([]ai.Val(nil), f[1]...))
	v.set(r.st, "vstack", r.st.NewSlice([]ai.Val{m}))
	v.setCur(r.st, "text", ai.Text{S: r.str(a, b)})
	before := r.snap()
	outs := v.e.CallFunc(r.st, ai.Func{Fn: n.run}, []ai.Val{v.p})
	k := 0
	if len(outs) == 0 {
		r.fail(n.run.Pos(), "code of rule %s has no outcome", n.rule)
	}
	if len(outs) > 1 {
		if i := len(r.taken); i < len(r.script) {
			k = r.script[i]
		}
		r.taken = append(r.taken, k)
		r.width = append(r.width, len(outs))
	}
	o := outs[k]
	if o.Kind == "panic" {
		r.fail(o.Pos, "code of rule %s panics: %s", n.rule, o.Msg)
	}
	if o.Kind != "return" {
		r.fail(o.Pos, "undecided: code of rule %s: %s %s", n.rule, o.Kind, o.Msg)
	}
	r.st = o.St
	r.st.Events = nil
	if n.expr.Op == peg.State {
		if len(o.Ret) != 1 {
			r.fail(n.run.Pos(), "undecided: results of state code")
		}
		if !ai.IsNil(o.Ret[0]) {
			r.errs++
		}
		return ai.NilV{}
	}
	if len(o.Ret) != 2 {
		r.fail(n.run.Pos(), "undecided: results of an action")
	}
	if !ai.IsNil(o.Ret[1]) {
		r.errs++
	}
	r.restore(before) // the engine undoes what actions do to the store
	return o.Ret[0]
}

// eval follows the parsing engine.
func (r *actionRun) eval(n *node, i int) (ai.Val, int, bool) {
	if r.steps++; r.steps > 2000000 {
		r.fail(token.NoPos, "undecided: derivation too long")
	}
	text := r.d.text
	switch n.expr.Op {
	case peg.Seq:
		s := r.snap()
		vs := []ai.Val{}
		j := i
		for _, k := range n.kids {
			v, e, ok := r.eval(k, j)
			if !ok {
				r.restore(s)
				return ai.NilV{}, i, false
			}
			vs = append(vs, v)
			j = e
		}
		return r.list(vs), j, true
	case peg.Choice:
		for _, k := range n.kids {
			s := r.snap()
			r.push()
			v, e, ok := r.eval(k, i)
			r.pop()
			if ok {
				return v, e, true
			}
			r.restore(s)
		}
		return ai.NilV{}, i, false
	case peg.Star, peg.Plus:
		var vs []ai.Val
		j := i
		for {
			r.push()
			v, e, ok := r.eval(n.kids[0], j)
			r.pop()
			if !ok {
				break
			}
			if e == j {
				r.fail(token.NoPos, "the repetition in rule %s makes no progress", n.rule)
			}
			vs = append(vs, v)
			j = e
		}
		if n.expr.Op == peg.Plus && len(vs) == 0 {
			return ai.NilV{}, i, false
		}
		return r.list(vs), j, true
	case peg.Opt:
		r.push()
		v, e, ok := r.eval(n.kids[0], i)
		r.pop()
		if !ok {
			return ai.NilV{}, i, true
		}
		return v, e, true
	case peg.And, peg.Not:
		s := r.snap()
		r.push()
		_, _, ok := r.eval(n.kids[0], i)
		r.pop()
		r.restore(s)
		return ai.NilV{}, i, ok == (n.expr.Op == peg.And)
	case peg.Label:
		r.push()
		v, e, ok := r.eval(n.kids[0], i)
		r.pop()
		if ok {
			f := &r.frames[len(r.frames)-1]
			f[0], f[1] = append(f[0][:len(f[0]):len(f[0])], ai.Lit(n.expr.Text)), append(f[1][:len(f[1]):len(f[1])], v)
			for k := range f[0][:len(f[0])-1] { // rebinding
				if l, _ := f[0][k].(ai.Str).Literal(); l == n.expr.Text {
					f[0], f[1] = append(f[0][:k:k], f[0][k+1:]...), append(f[1][:k:k], f[1][k+1:]...)
					break
				}
			}
		}
		return v, e, ok
	case peg.Action:
		v, e, ok := r.eval(n.kids[0], i)
		if !ok {
			return v, i, false
		}
		return r.call(n, i, e), e, true
	case peg.State:
		r.call(n, i, i)
		return ai.NilV{}, i, true
	case peg.Any:
		if i >= len(text) {
			return ai.NilV{}, i, false
		}
		return r.bytes(i, i+1), i + 1, true
	case peg.Class:
		if i < len(text) {
			for _, c := range n.expr.Set {
				if text[i] >= c.Lo && text[i] <= c.Hi {
					return r.bytes(i, i+1), i + 1, true
				}
			}
		}
		return ai.NilV{}, i, false
	case peg.Lit:
		j := i
		for _, c := range n.expr.Text {
			if j >= len(text) || text[j] != c {
				return ai.NilV{}, i, false
			}
			j++
		}
		return r.bytes(i, j), j, true
	case peg.Ref:
		k := r.v.t.rules[n.expr.Text]
		if k == nil {
			r.fail(token.NoPos, "undefined rule %s", n.expr.Text)
		}
		r.push()
		v, e, ok := r.eval(k, i)
		r.pop()
		return v, e, ok
	}
	r.fail(token.NoPos, "undecided: unsupported expression in rule %s", n.rule)
	return nil, 0, false
}

type derived struct {
	val  ai.Val
	ok   bool
	errs int
	st   *ai.State
}

// follow analyses the derivation of a text once, along one script of
// undetermined decisions.
func (r *actionRun) follow(st *ai.State) (res derived, decided bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(abandon); ok {
				return
			}
			panic(x)
		}
	}()
	r.st = st
	r.v.setCur(st, "state", st.NewMap(nil, nil))
	for _, l := range r.d.lex {
		if !l.num || !r.d.symbolic {
			continue
		}
		x := r.num(l.start, l.end)
		lim := dom.ConstBig(new(big.Int).SetUint64(1<<63 - 1))
		if t := r.d.tooBig; t >= 0 && string(r.d.text[l.start:l.end]) == string(r.d.text[r.d.lex[t].start:r.d.lex[t].end]) {
			st.Store = st.Store.GE(x.Sub(lim).AddC(-1))
		} else {
			st.Store = st.Store.GE(x).GE(lim.Sub(x))
		}
	}
	top := r.v.t.rules[r.v.t.g.Rules[0].Name]
	r.frames = nil
	r.push()
	v, e, ok := r.eval(top, 0)
	if ok && e != len(r.d.text) {
		ok = false
	}
	return derived{v, ok, r.errs, r.st}, true
}

type derivOut struct {
	kind string // tree, reject, panic, undecided, shared
	msg  string
	pos  token.Pos
	rule string
}

// analyse compares the tree built for one text with its reference meaning.
func (v *pegVerifier) analyse(text string, ref *peg.Grammar, symbolic bool, tooBig int, ran map[string]bool) (n int, out []derivOut) {
	d := newDerivation(text, symbolic)
	if tooBig >= 0 {
		k := 0
		d.tooBig = -1
		for i, l := range d.lex {
			if l.num {
				if k == tooBig {
					d.tooBig = i
				}
				k++
			}
		}
		if d.tooBig < 0 {
			return 0, nil
		}
	}
	tree := ref.Match("File", d.text)
	if tree == nil || tree.End != len(d.text) {
		return 0, nil // not a text of the language
	}
	want := refBuilder{}.build(tree)
	script := []int{}
	for paths := 0; ; paths++ {
		if paths > 64 {
			out = append(out, derivOut{kind: "undecided", msg: "too many undetermined decisions", pos: token.NoPos})
			return
		}
		r := &actionRun{v: v, d: d, script: script, ran: ran}
		st := v.base.Detached()
		delete(st.Data, "capture")
		st.Events = nil
		mark := st.Alloc(&ai.StructV{})
		seen := map[ai.ObjID]string{}
		// the same text twice: the second tree must not reuse the first
		for round := 0; round < 2; round++ {
			if round == 1 && tooBig >= 0 {
				break
			}
			r.errs = 0
			res, decided := r.follow(st)
			if !decided {
				kind := "undecided"
				if strings.Contains(r.msg, "panics") {
					kind = "panic"
					if tooBig >= 0 && r.errs > 0 {
						// reported already, and the entry points turn panics
						// into errors
						n++
						break
					}
				}
				out = append(out, derivOut{kind: kind, msg: r.msg, pos: r.pos})
				break
			}
			st = res.st
			if tooBig >= 0 {
				n++
				if res.ok && res.errs == 0 {
					out = append(out, derivOut{kind: "tree", msg: "a number that does not fit 64 bits is accepted", pos: token.NoPos})
				}
				break
			}
			if !res.ok {
				break // what is accepted is decided elsewhere
			}
			if res.errs > 0 {
				out = append(out, derivOut{kind: "reject", msg: "the code reports an error for a valid text", pos: token.NoPos})
				break
			}
			c := &astCompare{p: v.t.p, st: st, str: r.str, num: r.num, mark: mark, seen: map[ai.ObjID]string{}}
			c.cmp("file", res.val, want)
			n += c.n
			out = append(out, c.out...)
			for _, m := range c.own {
				out = append(out, derivOut{kind: "shared", msg: m, pos: token.NoPos})
			}
			for o, p := range c.seen {
				if old, ok := seen[o]; ok {
					out = append(out, derivOut{kind: "shared", msg: p + " is shared with " + old + " of another tree", pos: token.NoPos})
				}
				seen[o] = p
			}
			if i, ok := res.val.(ai.Iface); !ok || ai.IsNil(i.V) {
				out = append(out, derivOut{kind: "tree", msg: "the result is not a tree", pos: token.NoPos})
			}
		}
		// next script
		script = append([]int(nil), r.taken...)
		w := r.width
		for len(script) > 0 && script[len(script)-1]+1 >= w[len(script)-1] {
			script = script[:len(script)-1]
		}
		if len(script) == 0 {
			return
		}
		script[len(script)-1]++
	}
}

func newDerivation(text string, symbolic bool) *derivation {
	d := &derivation{text: []rune(text), symbolic: symbolic, tooBig: -1}
	for _, m := range lexRe.FindAllStringIndex(text, -1) {
		t := text[m[0]:m[1]]
		l := lexeme{start: len([]rune(text[:m[0]])), end: len([]rune(text[:m[1]]))}
		switch {
		case t[0] == '/' || t[0] == '"':
			continue
		case t[0] >= '0' && t[0] <= '9':
			l.num = true
		case numbered.MatchString(t):
			l.name = true
		default:
			continue
		}
		d.lex = append(d.lex, l)
	}
	return d
}

// generated names end in an underscore and a number
var numbered = regexp.MustCompile(`_[0-9]+$`)

var nameStems = []string{"a", "Bc", "_", "u8e", "eos", "char", "IN", "default", "fail", "structure", "with", "x"}
var constStems = []string{"K", "A_B", "_", "IN", "X9"}
var blanks = []string{"", " ", "", "\n", "/* ; } */", "", " // x\n"}
var gaps = []string{" ", "\t", "\n", "/**/", " ", " // u8 a;\n", " "}

func schemaTerminals() map[string]func(*peg.Gen) string {
	nums := []func(i int) string{
		func(i int) string { return strconv.Itoa(i) },
		func(i int) string { return "0x" + strconv.FormatInt(int64(i*37), 16) },
		func(i int) string { return "0" + strconv.FormatInt(int64(i*5+8), 8) },
		func(i int) string { return "0xF" + strconv.FormatInt(int64(i), 16) },
		func(i int) string { return "0x7fffffffffffff" + fmt.Sprintf("%02x", i%128) },
	}
	return map[string]func(*peg.Gen) string{
		"Identifier":      func(g *peg.Gen) string { return nameStems[g.Int(len(nameStems))] + "_" + strconv.Itoa(g.N) },
		"ConstIdentifier": func(g *peg.Gen) string { return constStems[g.Int(len(constStems))] + "_" + strconv.Itoa(g.N) },
		"IntLiteral":      func(g *peg.Gen) string { return nums[g.Int(len(nums))](g.N) },
		"_":               func(g *peg.Gen) string { return blanks[g.Int(len(blanks))] },
		"__":              func(g *peg.Gen) string { return gaps[g.Int(len(gaps))] },
	}
}

var lexicalRules = map[string]bool{"_": true, "__": true, "Skip": true, "Whitespace": true, "EOL": true, "EOF": true, "Comment": true, "SourceChar": true, "MultiLineComment": true, "SingleLineComment": true, "Identifier": true, "ConstIdentifier": true, "DecimalLiteral": true, "HexLiteral": true, "OctalLiteral": true}

// derivations selects texts that together contain every derivation step the
// generator meets.
func derivations(ref *peg.Grammar, tries, limit int) (texts []string, features int) {
	seen := map[string]bool{}
	idle := 0
	take := func(t string, force bool) {
		rs := []rune(t)
		tree := ref.Match("File", rs)
		if tree == nil || tree.End != len(rs) {
			return
		}
		fresh := false
		for _, f := range tree.Features(lexicalRules) {
			if !seen[f] {
				seen[f] = true
				fresh = true
			}
		}
		if fresh || force {
			texts = append(texts, t)
		}
		if fresh {
			idle = 0
		} else {
			idle++
		}
	}
	for _, t := range longTexts() {
		take(t, true)
	}
	for i := 0; i < tries && idle < 12000 && len(texts) < limit; i++ {
		g := peg.NewGen(ref, uint64(i+1), schemaTerminals())
		t := g.Text("File", 8+i%14)
		if len(t) > 700 {
			continue
		}
		take(t, i%40 == 0)
	}
	return texts, len(seen)
}

// longTexts repeat each list many times.
func longTexts() []string {
	rep := func(n int, f func(i int) string, sep string) string {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, f(i))
		}
		return strings.Join(l, sep)
	}
	s := func(f string) func(int) string {
		return func(i int) string { return strings.ReplaceAll(f, "#", strconv.Itoa(i+10)) }
	}
	return []string{
		rep(20, s("const C_# = #;"), "\n"),
		rep(9, s("struct s_# { u8 a_#; } extern struct e_#; context c_# { u8 m_#; } trunnel o_# p_#;"), " "),
		"struct s_1 { " + rep(20, s("u8 a_#;"), " ") + " eos; }",
		"struct s_1 { u8 a_1 IN [" + rep(20, s("#"), ", ") + "]; u8 b_2 IN [" + rep(7, s("#..K_#"), ",") + "]; }",
		"struct s_1 { u8 t_1; union u_2[t_1] { " + rep(12, s("#: u8 x_#;"), " ") + " default: ; } ; }",
		"struct s_1 { u8 t_1; union u_2[t_1] { 3: " + rep(12, s("u16 x_#;"), " ") + " ...; } ; }",
		"extern struct s_1 with context " + rep(12, s("c_#"), ", ") + ";",
		"trunnel o_1 " + rep(12, s("p_#"), " , ") + ";",
		"context c_1 { " + rep(12, s("u32 m_#;"), " ") + " }",
		"struct s_1 { " + rep(6, s("struct i_# { u8 a_#; } f_#;"), " ") + " }",
		"struct s_1 { struct i_2 { struct j_3 { u8 a_4; } b_5; struct k_6 { u8 c_7; } d_8[3]; } e_9; struct l_10 { u8 x_11; } y_12; }",
		"struct s_1 { struct i_2 { u8 a_3; } b_4[3]; struct j_5 { u8 a_6; } c_7[..-4]; struct k_8 { eos; } d_9[n_10]; struct l_11 { u8 z_12; } r_13[]; }",
		"struct s_1 { u8 t_2; union u_3[t_2] with length x_4.n_5 { 1..2,4: struct i_6 { u8 a_7; } b_8; struct i_9 { u8 a_10; } c_11[K_12]; 5: fail; 6: ignore; default: char r_13[]; }; } struct z_14 { }",
		"const A_1 = 9223372036854775807; const B_2 = 0x7fffffffffffffff; const C_3 = 0777777777777777777777; const D_4 = 0; const E_5 = 00; const F_6 = 0x0;",
	}
}
