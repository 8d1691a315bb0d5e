package peg

import (
	"fmt"
	"strings"
)

// Tree is a match of an expression.
type Tree struct {
	E          *Expr
	Rule       string // for a reference: the rule
	Kids       []*Tree
	Alt        int // choice taken
	Start, End int
}

type memoKey struct {
	e *Expr
	i int
}

type matcher struct {
	g    *Grammar
	s    []rune
	memo map[memoKey]*Tree
}

// Match parses s with a rule; nil means no match.
func (g *Grammar) Match(rule string, s []rune) *Tree {
	m := &matcher{g, s, map[memoKey]*Tree{}}
	return m.match(&Expr{Op: Ref, Text: rule}, 0)
}

func in(set []Range, c rune) bool {
	for _, r := range set {
		if c >= r.Lo && c <= r.Hi {
			return true
		}
	}
	return false
}

func (m *matcher) match(e *Expr, i int) (t *Tree) {
	k := memoKey{e, i}
	if t, ok := m.memo[k]; ok {
		return t
	}
	t = m.match1(e, i)
	m.memo[k] = t
	return t
}

func (m *matcher) match1(e *Expr, i int) *Tree {
	t := &Tree{E: e, Start: i, End: i}
	switch e.Op {
	case Seq:
		for _, k := range e.Kids {
			s := m.match(k, t.End)
			if s == nil {
				return nil
			}
			t.Kids = append(t.Kids, s)
			t.End = s.End
		}
	case Choice:
		for n, k := range e.Kids {
			if s := m.match(k, i); s != nil {
				t.Alt, t.Kids, t.End = n, []*Tree{s}, s.End
				return t
			}
		}
		return nil
	case Star, Plus:
		for {
			s := m.match(e.Kids[0], t.End)
			if s == nil || s.End == t.End {
				break
			}
			t.Kids = append(t.Kids, s)
			t.End = s.End
		}
		if e.Op == Plus && len(t.Kids) == 0 {
			return nil
		}
	case Opt:
		if s := m.match(e.Kids[0], i); s != nil {
			t.Kids, t.End = []*Tree{s}, s.End
		}
	case And, Not:
		if (m.match(e.Kids[0], i) != nil) != (e.Op == And) {
			return nil
		}
	case Any, Class:
		if i >= len(m.s) || e.Op == Class && !in(e.Set, m.s[i]) {
			return nil
		}
		t.End = i + 1
	case Lit:
		for _, c := range e.Text {
			if t.End >= len(m.s) || m.s[t.End] != c {
				return nil
			}
			t.End++
		}
	case Ref:
		r := m.g.ByName[e.Text]
		if r == nil {
			return nil
		}
		s := m.match(r.Expr, i)
		if s == nil {
			return nil
		}
		t.Rule, t.Kids, t.End = e.Text, []*Tree{s}, s.End
	case Label, Action:
		s := m.match(e.Kids[0], i)
		if s == nil {
			return nil
		}
		t.Kids, t.End = []*Tree{s}, s.End
	}
	return t
}

// Get finds the match bound to a label inside the rule's own expression.
func (t *Tree) Get(label string) *Tree {
	var find func(t *Tree) *Tree
	find = func(t *Tree) *Tree {
		if t.E.Op == Label && t.E.Text == label {
			return t.Kids[0]
		}
		if t.E.Op == Ref || t.E.Op == Star || t.E.Op == Plus {
			return nil
		}
		for _, k := range t.Kids {
			if r := find(k); r != nil {
				return r
			}
		}
		return nil
	}
	for _, k := range t.Kids {
		if r := find(k); r != nil {
			return r
		}
	}
	return nil
}

// Unwrap descends through choices and labels to a rule or a group.
func (t *Tree) Unwrap() *Tree {
	for t != nil && (t.E.Op == Choice || t.E.Op == Label || t.E.Op == Opt) {
		if len(t.Kids) == 0 {
			return nil
		}
		t = t.Kids[0]
	}
	return t
}

// Walk visits rule matches in post-order.
func (t *Tree) Walk(f func(*Tree)) {
	for _, k := range t.Kids {
		k.Walk(f)
	}
	if t.Rule != "" {
		f(t)
	}
}

// Signature lists the options taken in the rule's own expression.
func (t *Tree) Signature() string {
	var b strings.Builder
	var walk func(t *Tree)
	walk = func(t *Tree) {
		switch t.E.Op {
		case Ref:
			return
		case Choice:
			fmt.Fprintf(&b, "/%d", t.Alt)
		case Opt:
			fmt.Fprintf(&b, "?%d", len(t.Kids))
		case Star:
			n := len(t.Kids)
			if n > 3 {
				n = 3
			}
			fmt.Fprintf(&b, "*%d", n)
		}
		for _, k := range t.Kids {
			walk(k)
		}
	}
	for _, k := range t.Kids {
		walk(k)
	}
	return t.Rule + b.String()
}

// Features are the derivation steps a tree contains: every rule with its
// options, and every rule below every labelled position of another.
func (t *Tree) Features(skip map[string]bool) []string {
	var out []string
	t.Walk(func(r *Tree) {
		if skip[r.Rule] {
			return
		}
		sig := r.Signature()
		out = append(out, sig)
		head := r.Rule
		var walk func(t *Tree, label string)
		walk = func(t *Tree, label string) {
			switch t.E.Op {
			case Ref:
				if !skip[t.Rule] {
					out = append(out, head+"."+label+">"+t.Signature())
				}
				return
			case Label:
				label = t.E.Text
			case Choice:
				label += fmt.Sprint("/", t.Alt)
			}
			for _, k := range t.Kids {
				walk(k, label)
			}
		}
		for _, k := range r.Kids {
			walk(k, "")
		}
	})
	return out
}

// Gen produces texts of a grammar.
type Gen struct {
	G        *Grammar
	Terminal map[string]func(g *Gen) string
	rnd      uint64
	N        int
	height   map[string]int
	out      strings.Builder
}

// NewGen prepares a deterministic generator.
func NewGen(g *Grammar, seed uint64, term map[string]func(*Gen) string) *Gen {
	x := &Gen{G: g, Terminal: term, rnd: seed*2862933555777941757 + 3037000493, height: map[string]int{}}
	for changed := true; changed; {
		changed = false
		for _, r := range g.Rules {
			h := x.h(r.Expr) + 1
			if term[r.Name] != nil {
				h = 1
			}
			if old, ok := x.height[r.Name]; !ok || h < old {
				if h < 1000 {
					x.height[r.Name] = h
					changed = true
				}
			}
		}
	}
	return x
}

func (x *Gen) h(e *Expr) int {
	switch e.Op {
	case Star, Opt, And, Not:
		return 0
	case Ref:
		if h, ok := x.height[e.Text]; ok {
			return h
		}
		return 1000
	case Choice:
		best := 1000
		for _, k := range e.Kids {
			if h := x.h(k); h < best {
				best = h
			}
		}
		return best
	}
	m := 0
	for _, k := range e.Kids {
		if h := x.h(k); h > m {
			m = h
		}
	}
	return m
}

// Int draws a number below n.
func (x *Gen) Int(n int) int {
	x.rnd ^= x.rnd << 13
	x.rnd ^= x.rnd >> 7
	x.rnd ^= x.rnd << 17
	return int((x.rnd >> 11) % uint64(n))
}

// Text generates a text of the rule with about the given depth.
func (x *Gen) Text(rule string, depth int) string {
	x.out.Reset()
	x.gen(&Expr{Op: Ref, Text: rule}, depth)
	return x.out.String()
}

func (x *Gen) gen(e *Expr, d int) {
	switch e.Op {
	case Seq:
		for _, k := range e.Kids {
			x.gen(k, d)
		}
	case Choice:
		i := x.Int(len(e.Kids))
		if d <= x.h(e.Kids[i]) {
			// too deep: take a lowest alternative
			best := 1000
			for _, k := range e.Kids {
				if h := x.h(k); h < best {
					best = h
				}
			}
			var low []int
			for j, k := range e.Kids {
				if x.h(k) <= best+1 {
					low = append(low, j)
				}
			}
			i = low[x.Int(len(low))]
		}
		x.gen(e.Kids[i], d)
	case Star, Plus, Opt:
		n := 0
		if d > x.h(e.Kids[0]) {
			switch e.Op {
			case Opt:
				n = x.Int(2)
			default:
				n = []int{0, 1, 1, 2, 2, 3}[x.Int(6)]
			}
		}
		if e.Op == Plus && n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			x.gen(e.Kids[0], d)
		}
	case Lit:
		x.out.WriteString(e.Text)
	case Class:
		x.out.WriteRune(e.Set[0].Lo)
	case Any:
		x.out.WriteByte('x')
	case Ref:
		if t := x.Terminal[e.Text]; t != nil {
			x.N++
			x.out.WriteString(t(x))
			return
		}
		x.gen(x.G.ByName[e.Text].Expr, d-1)
	case Label, Action:
		x.gen(e.Kids[0], d)
	}
}
