// Package peg models parsing expression grammars: reading pigeon source,
// normalising, comparing and termination analysis.
package peg

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// Op is the kind of an expression.
type Op int

// Expression kinds.
const (
	Seq Op = iota
	Choice
	Star
	Plus
	Opt
	And
	Not
	Class // one character of Set
	Any
	Lit
	Ref
	Label
	Action
	State
	Pred // semantic predicate
)

var opNames = []string{"seq", "choice", "star", "plus", "opt", "and", "not", "class", "any", "lit", "ref", "label", "action", "state", "pred"}

func (o Op) String() string { return opNames[o] }

// Range is an inclusive range of characters.
type Range struct{ Lo, Hi rune }

// Expr is a parsing expression.
type Expr struct {
	Op   Op
	Kids []*Expr
	Text string // literal, rule name, label
	Fold bool
	Set  []Range
	Code any // action, when known
}

// Grammar is an ordered list of rules.
type Grammar struct {
	Rules  []*Rule
	ByName map[string]*Rule
}

// Rule is a named expression.
type Rule struct {
	Name string
	Expr *Expr
}

// Add appends a rule.
func (g *Grammar) Add(name string, e *Expr) error {
	if g.ByName == nil {
		g.ByName = map[string]*Rule{}
	}
	if g.ByName[name] != nil {
		return fmt.Errorf("rule %s is defined twice", name)
	}
	r := &Rule{name, e}
	g.Rules = append(g.Rules, r)
	g.ByName[name] = r
	return nil
}

// MaxRune bounds the characters.
const MaxRune = unicode.MaxRune

// Normal sorts and merges ranges.
func Normal(rs []Range) []Range {
	rs = append([]Range(nil), rs...)
	sort.Slice(rs, func(i, j int) bool { return rs[i].Lo < rs[j].Lo })
	var out []Range
	for _, r := range rs {
		if r.Lo > r.Hi {
			continue
		}
		if n := len(out); n > 0 && r.Lo <= out[n-1].Hi+1 {
			if r.Hi > out[n-1].Hi {
				out[n-1].Hi = r.Hi
			}
			continue
		}
		out = append(out, r)
	}
	return out
}

// Complement is the set of characters not in rs.
func Complement(rs []Range) []Range {
	var out []Range
	next := rune(0)
	for _, r := range Normal(rs) {
		if r.Lo > next {
			out = append(out, Range{next, r.Lo - 1})
		}
		next = r.Hi + 1
	}
	if next <= MaxRune {
		out = append(out, Range{next, MaxRune})
	}
	return out
}

// Fold adds the other-case variants of letters.
func Fold(rs []Range) []Range {
	out := append([]Range(nil), rs...)
	for _, r := range rs {
		for c := r.Lo; c <= r.Hi && c < 0x250; c++ {
			for _, d := range []rune{unicode.ToLower(c), unicode.ToUpper(c)} {
				out = append(out, Range{d, d})
			}
		}
	}
	return Normal(out)
}

func showSet(rs []Range) string {
	var b strings.Builder
	b.WriteByte('[')
	for _, r := range rs {
		b.WriteString(strings.Trim(strconv.QuoteRune(r.Lo), "'"))
		if r.Hi > r.Lo {
			b.WriteByte('-')
			b.WriteString(strings.Trim(strconv.QuoteRune(r.Hi), "'"))
		}
	}
	b.WriteByte(']')
	return b.String()
}

// --- pigeon source ---

type reader struct {
	s    string
	i    int
	line int
}

type syntaxErr string

func (r *reader) fail(f string, a ...any) {
	panic(syntaxErr(fmt.Sprintf("line %d: %s", 1+strings.Count(r.s[:r.i], "\n"), fmt.Sprintf(f, a...))))
}

func (r *reader) ws() {
	for r.i < len(r.s) {
		switch {
		case strings.ContainsRune(" \t\r\n", rune(r.s[r.i])):
			r.i++
		case strings.HasPrefix(r.s[r.i:], "//"):
			for r.i < len(r.s) && r.s[r.i] != '\n' {
				r.i++
			}
		case strings.HasPrefix(r.s[r.i:], "/*"):
			j := strings.Index(r.s[r.i+2:], "*/")
			if j < 0 {
				r.fail("unterminated comment")
			}
			r.i += j + 4
		default:
			return
		}
	}
}

func (r *reader) has(t string) bool {
	r.ws()
	if strings.HasPrefix(r.s[r.i:], t) {
		r.i += len(t)
		return true
	}
	return false
}

func isIdent(c byte, first bool) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || !first && c >= '0' && c <= '9'
}

func (r *reader) ident() string {
	r.ws()
	j := r.i
	for j < len(r.s) && isIdent(r.s[j], j == r.i) {
		j++
	}
	t := r.s[r.i:j]
	r.i = j
	return t
}

// code skips a brace-delimited Go code block, minding strings and comments.
func (r *reader) code() string {
	start := r.i
	depth := 0
	for r.i < len(r.s) {
		c := r.s[r.i]
		switch {
		case c == '{':
			depth++
		case c == '}':
			depth--
			if depth == 0 {
				r.i++
				return r.s[start:r.i]
			}
		case strings.HasPrefix(r.s[r.i:], "//"):
			for r.i < len(r.s) && r.s[r.i] != '\n' {
				r.i++
			}
			continue
		case strings.HasPrefix(r.s[r.i:], "/*"):
			if j := strings.Index(r.s[r.i+2:], "*/"); j >= 0 {
				r.i += j + 4
				continue
			}
		case c == '"' || c == '\'' || c == '`':
			r.i++
			for r.i < len(r.s) && r.s[r.i] != c {
				if r.s[r.i] == '\\' && c != '`' {
					r.i++
				}
				r.i++
			}
		}
		r.i++
	}
	r.fail("unterminated code block")
	return ""
}

// ReadPigeon reads pigeon grammar source.
func ReadPigeon(src string) (g *Grammar, err error) {
	r := &reader{s: src}
	g = &Grammar{}
	defer func() {
		if x := recover(); x != nil {
			if s, ok := x.(syntaxErr); ok {
				err = fmt.Errorf("%s", string(s))
				return
			}
			panic(x)
		}
	}()
	r.ws()
	if r.i < len(r.s) && r.s[r.i] == '{' {
		r.code()
		r.has(";")
	}
	for {
		r.ws()
		if r.i >= len(r.s) {
			return g, nil
		}
		n := r.ident()
		if n == "" {
			r.fail("rule name expected")
		}
		r.ws()
		if r.i < len(r.s) && (r.s[r.i] == '"' || r.s[r.i] == '\'' || r.s[r.i] == '`') {
			r.lit() // display name
		}
		if !r.has("<-") && !r.has("=") && !r.has("←") {
			r.fail("<- expected after rule name %s", n)
		}
		e := r.choice()
		r.has(";")
		if err := g.Add(n, e); err != nil {
			return nil, err
		}
	}
}

func (r *reader) choice() *Expr {
	alts := []*Expr{r.action()}
	for {
		r.ws()
		if r.i < len(r.s) && r.s[r.i] == '/' && !strings.HasPrefix(r.s[r.i:], "/{") {
			r.i++
			alts = append(alts, r.action())
			continue
		}
		break
	}
	if strings.HasPrefix(r.s[r.i:], "/{") {
		r.fail("error recovery is not modelled")
	}
	if len(alts) == 1 {
		return alts[0]
	}
	return &Expr{Op: Choice, Kids: alts}
}

func (r *reader) action() *Expr {
	var kids []*Expr
	for {
		e := r.labeled()
		if e == nil {
			break
		}
		kids = append(kids, e)
	}
	var e *Expr
	if len(kids) == 1 {
		e = kids[0]
	} else {
		e = &Expr{Op: Seq, Kids: kids}
	}
	r.ws()
	if r.i < len(r.s) && r.s[r.i] == '{' {
		return &Expr{Op: Action, Kids: []*Expr{e}, Code: r.code()}
	}
	if len(kids) == 0 {
		r.fail("empty alternative")
	}
	return e
}

// labeled reads one sequence element, or nil at the end of the sequence.
func (r *reader) labeled() *Expr {
	r.ws()
	save := r.i
	if n := r.ident(); n != "" {
		r.ws()
		if r.i < len(r.s) && r.s[r.i] == ':' {
			r.i++
			e := r.prefixed()
			if e == nil {
				r.fail("expression expected after label %s", n)
			}
			return &Expr{Op: Label, Text: n, Kids: []*Expr{e}}
		}
		r.i = save
	}
	return r.prefixed()
}

func (r *reader) prefixed() *Expr {
	r.ws()
	if r.i >= len(r.s) {
		return nil
	}
	switch c := r.s[r.i]; c {
	case '&', '!':
		r.i++
		r.ws()
		if r.i < len(r.s) && r.s[r.i] == '{' {
			return &Expr{Op: Pred, Code: r.code()}
		}
		k := r.suffixed()
		if k == nil {
			r.fail("expression expected")
		}
		if c == '&' {
			return &Expr{Op: And, Kids: []*Expr{k}}
		}
		return &Expr{Op: Not, Kids: []*Expr{k}}
	case '#':
		r.i++
		r.ws()
		return &Expr{Op: State, Code: r.code()}
	case '%':
		r.fail("thrown labels are not modelled")
	}
	return r.suffixed()
}

func (r *reader) suffixed() *Expr {
	e := r.primary()
	if e == nil {
		return nil
	}
	r.ws()
	if r.i < len(r.s) {
		switch r.s[r.i] {
		case '*':
			r.i++
			return &Expr{Op: Star, Kids: []*Expr{e}}
		case '+':
			r.i++
			return &Expr{Op: Plus, Kids: []*Expr{e}}
		case '?':
			r.i++
			return &Expr{Op: Opt, Kids: []*Expr{e}}
		}
	}
	return e
}

func (r *reader) primary() *Expr {
	r.ws()
	if r.i >= len(r.s) {
		return nil
	}
	switch c := r.s[r.i]; {
	case c == '"' || c == '\'' || c == '`':
		t := r.lit()
		e := &Expr{Op: Lit, Text: t}
		if r.i < len(r.s) && r.s[r.i] == 'i' && (r.i+1 >= len(r.s) || !isIdent(r.s[r.i+1], false)) {
			r.i++
			e.Fold = true
		}
		return e
	case c == '[':
		return r.class()
	case c == '.':
		r.i++
		return &Expr{Op: Any}
	case c == '(':
		r.i++
		e := r.choice()
		if !r.has(")") {
			r.fail(") expected")
		}
		return e
	case isIdent(c, true):
		save := r.i
		n := r.ident()
		// a following "<-" makes this the next rule
		j := r.i
		r.ws()
		if r.i < len(r.s) && (r.s[r.i] == '"' || r.s[r.i] == '\'' || r.s[r.i] == '`') {
			k := r.i
			func() {
				defer func() { recover() }()
				r.lit()
				r.ws()
			}()
			if !strings.HasPrefix(r.s[r.i:], "<-") {
				r.i = k
			}
		}
		if strings.HasPrefix(r.s[r.i:], "<-") || strings.HasPrefix(r.s[r.i:], "←") || strings.HasPrefix(r.s[r.i:], "=") {
			r.i = save
			return nil
		}
		r.i = j
		return &Expr{Op: Ref, Text: n}
	}
	return nil
}

func (r *reader) lit() string {
	q := r.s[r.i]
	j := r.i + 1
	for j < len(r.s) && r.s[j] != q {
		if r.s[j] == '\\' && q != '`' {
			j++
		}
		j++
	}
	if j >= len(r.s) {
		r.fail("unterminated literal")
	}
	raw := r.s[r.i+1 : j]
	r.i = j + 1
	if q == '`' {
		return raw
	}
	if q == '\'' {
		raw = strings.ReplaceAll(strings.ReplaceAll(raw, `\'`, `'`), `"`, `\"`)
	}
	t, err := strconv.Unquote(`"` + raw + `"`)
	if err != nil {
		r.fail("bad literal %s", raw)
	}
	return t
}

func (r *reader) class() *Expr {
	r.i++
	inv := false
	if r.i < len(r.s) && r.s[r.i] == '^' {
		inv = true
		r.i++
	}
	one := func() rune {
		s := r.s[r.i:]
		if s[0] == '\\' && len(s) > 1 && (s[1] == ']' || s[1] == '-' || s[1] == '^' || s[1] == '[') {
			r.i += 2
			return rune(s[1])
		}
		if s[0] == '\\' && len(s) > 1 && s[1] == 'p' {
			r.fail("unicode classes are not modelled")
		}
		if s[0] == '\'' || s[0] == '"' {
			r.i++
			return rune(s[0])
		}
		c, _, tail, err := strconv.UnquoteChar(s, ']')
		if err != nil {
			r.fail("bad character class")
		}
		r.i = len(r.s) - len(tail)
		return c
	}
	var set []Range
	for {
		if r.i >= len(r.s) {
			r.fail("unterminated character class")
		}
		if r.s[r.i] == ']' {
			r.i++
			break
		}
		lo := one()
		hi := lo
		if r.i+1 < len(r.s) && r.s[r.i] == '-' && r.s[r.i+1] != ']' {
			r.i++
			hi = one()
		}
		set = append(set, Range{lo, hi})
	}
	e := &Expr{Op: Class, Set: Normal(set)}
	if r.i < len(r.s) && r.s[r.i] == 'i' && (r.i+1 >= len(r.s) || !isIdent(r.s[r.i+1], false)) {
		r.i++
		e.Set = Fold(e.Set)
	}
	if inv {
		e.Set = Complement(e.Set)
	}
	return e
}
