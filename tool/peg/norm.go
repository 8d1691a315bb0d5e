package peg

import (
	"fmt"
	"sort"
	"strings"
)

// canon renders the language of e canonically. Rules other than those in cut
// are expanded.
type canon struct {
	g     *Grammar
	cut   map[string]string // rule -> name used in the rendering
	stack []string
	memo  map[string]*Expr
}

type recursive string

func mk(op Op, kids ...*Expr) *Expr { return &Expr{Op: op, Kids: kids} }

// norm returns the recognised language of e: labels, actions and state code
// removed, sequences and choices flattened, literals split into characters.
func (c *canon) norm(e *Expr) *Expr {
	switch e.Op {
	case Label, Action:
		return c.norm(e.Kids[0])
	case State:
		return mk(Seq)
	case Pred:
		panic(recursive("semantic predicates are not modelled"))
	case Lit:
		out := mk(Seq)
		for _, ch := range e.Text {
			s := []Range{{ch, ch}}
			if e.Fold {
				s = Fold(s)
			}
			out.Kids = append(out.Kids, &Expr{Op: Class, Set: s})
		}
		return one(out)
	case Class:
		return &Expr{Op: Class, Set: Normal(e.Set)}
	case Any:
		return &Expr{Op: Class, Set: []Range{{0, MaxRune}}}
	case Plus:
		k := c.norm(e.Kids[0])
		return c.seq([]*Expr{k, mk(Star, k)})
	case Star, Opt, And, Not:
		k := c.norm(e.Kids[0])
		if e.Op == And && k.Op == Not {
			return k
		}
		return mk(e.Op, k)
	case Ref:
		if n, ok := c.cut[e.Text]; ok {
			return &Expr{Op: Ref, Text: n}
		}
		if m := c.memo[e.Text]; m != nil {
			return m
		}
		for _, s := range c.stack {
			if s == e.Text {
				panic(recursive("rule " + e.Text + " is recursive"))
			}
		}
		r := c.g.ByName[e.Text]
		if r == nil {
			panic(recursive("rule " + e.Text + " is not defined"))
		}
		c.stack = append(c.stack, e.Text)
		m := c.norm(r.Expr)
		c.stack = c.stack[:len(c.stack)-1]
		c.memo[e.Text] = m
		return m
	case Seq:
		var ks []*Expr
		for _, k := range e.Kids {
			ks = append(ks, c.norm(k))
		}
		return c.seq(ks)
	case Choice:
		var ks []*Expr
		for _, k := range e.Kids {
			n := c.norm(k)
			if n.Op == Choice {
				ks = append(ks, n.Kids...)
			} else {
				ks = append(ks, n)
			}
		}
		var out []*Expr
		seen := map[string]bool{}
		for _, k := range ks {
			if n := len(out); n > 0 && k.Op == Class && out[n-1].Op == Class {
				out[n-1] = &Expr{Op: Class, Set: Normal(append(append([]Range(nil), out[n-1].Set...), k.Set...))}
				continue
			}
			if s := k.String(); seen[s] {
				continue
			} else {
				seen[s] = true
			}
			out = append(out, k)
		}
		if len(out) == 1 {
			return out[0]
		}
		return &Expr{Op: Choice, Kids: out}
	}
	panic("unreachable")
}

func (c *canon) seq(ks []*Expr) *Expr {
	out := mk(Seq)
	for _, k := range ks {
		if k.Op == Seq {
			out.Kids = append(out.Kids, k.Kids...)
		} else {
			out.Kids = append(out.Kids, k)
		}
	}
	// e* e* recognises what e* does, and so does e* (e e*)? after it
	var fin []*Expr
	for _, k := range out.Kids {
		if n := len(fin); n > 0 && k.Op == Star && fin[n-1].Op == Star && k.String() == fin[n-1].String() {
			continue
		}
		fin = append(fin, k)
	}
	out.Kids = fin
	return one(out)
}

func one(e *Expr) *Expr {
	if len(e.Kids) == 1 {
		return e.Kids[0]
	}
	return e
}

// String renders an expression.
func (e *Expr) String() string {
	var b strings.Builder
	e.write(&b, 0)
	return b.String()
}

func (e *Expr) write(b *strings.Builder, prec int) {
	paren := func(p int, f func()) {
		if prec > p {
			b.WriteByte('(')
			f()
			b.WriteByte(')')
		} else {
			f()
		}
	}
	switch e.Op {
	case Seq:
		if len(e.Kids) == 0 {
			b.WriteString("()")
			return
		}
		paren(1, func() {
			for i, k := range e.Kids {
				if i > 0 {
					b.WriteByte(' ')
				}
				k.write(b, 2)
			}
		})
	case Choice:
		paren(0, func() {
			for i, k := range e.Kids {
				if i > 0 {
					b.WriteString(" / ")
				}
				k.write(b, 1)
			}
		})
	case Star, Plus, Opt:
		e.Kids[0].write(b, 3)
		b.WriteString(map[Op]string{Star: "*", Plus: "+", Opt: "?"}[e.Op])
	case And, Not:
		b.WriteString(map[Op]string{And: "&", Not: "!"}[e.Op])
		e.Kids[0].write(b, 3)
	case Class:
		b.WriteString(showSet(e.Set))
	case Any:
		b.WriteByte('.')
	case Lit:
		fmt.Fprintf(b, "%q", e.Text)
		if e.Fold {
			b.WriteByte('i')
		}
	case Ref:
		b.WriteString(e.Text)
	case Label:
		b.WriteString(e.Text + ":")
		e.Kids[0].write(b, 3)
	case Action:
		paren(0, func() { e.Kids[0].write(b, 1) })
	case State:
		b.WriteString("#{}")
	case Pred:
		b.WriteString("&{}")
	}
}

// refs lists the rules an expression mentions.
func (e *Expr) refs(out map[string]bool) {
	if e.Op == Ref {
		out[e.Text] = true
	}
	for _, k := range e.Kids {
		k.refs(out)
	}
}

// Refs lists the rules an expression mentions.
func (e *Expr) Refs() map[string]bool { m := map[string]bool{}; e.refs(m); return m }

// canonical renders the start rule and the cut rule; ok is false if recursion
// remains without the cut.
func canonical(g *Grammar, start, cut string) (s, body string, err error) {
	defer func() {
		if x := recover(); x != nil {
			if r, ok := x.(recursive); ok {
				err = fmt.Errorf("%s", string(r))
				return
			}
			panic(x)
		}
	}()
	c := &canon{g: g, cut: map[string]string{}, memo: map[string]*Expr{}}
	if cut != "" {
		c.cut[cut] = "<recursive>"
		if g.ByName[cut] == nil {
			return "", "", fmt.Errorf("rule %s is not defined", cut)
		}
		body = c.norm(g.ByName[cut].Expr).String()
	}
	s = c.norm(g.ByName[start].Expr).String()
	return s, body, nil
}

// Diff is a difference between two grammars.
type Diff struct {
	Rule, Msg string
}

// Compare decides whether a and b recognise the same language. Rule names,
// labels, actions and the division into rules do not matter.
func Compare(a, b *Grammar) []Diff {
	if len(a.Rules) == 0 || len(b.Rules) == 0 {
		return []Diff{{"", "a grammar has no rules"}}
	}
	sa, sb := a.Rules[0].Name, b.Rules[0].Name
	cuts := func(g *Grammar) []string {
		out := []string{""}
		for _, r := range g.Rules {
			out = append(out, r.Name)
		}
		return out
	}
	type form struct{ s, b, cut string }
	forms := func(g *Grammar, start string) (fs []form, err error) {
		for _, c := range cuts(g) {
			s, body, e := canonical(g, start, c)
			if e != nil {
				if err == nil || c != "" && strings.Contains(e.Error(), "not defined") {
					err = e
				}
				continue
			}
			fs = append(fs, form{s, body, c})
			if c == "" {
				break
			}
		}
		return
	}
	fa, ea := forms(a, sa)
	fb, eb := forms(b, sb)
	if len(fa) == 0 || len(fb) == 0 {
		if ea == nil {
			ea = eb
		}
		return []Diff{{"", "no comparable form: " + ea.Error()}}
	}
	for _, x := range fa {
		for _, y := range fb {
			if x.s == y.s && x.b == y.b {
				return nil
			}
		}
	}
	return localDiffs(a, b)
}

// localDiffs names the rules that differ, comparing rules of the same name
// with references kept.
func localDiffs(a, b *Grammar) []Diff {
	var out []Diff
	names := map[string]bool{}
	for _, g := range []*Grammar{a, b} {
		for _, r := range g.Rules {
			names[r.Name] = true
		}
	}
	var ns []string
	for n := range names {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	all := func(g *Grammar) map[string]string {
		m := map[string]string{}
		for n := range names {
			m[n] = n
		}
		return m
	}
	for _, n := range ns {
		ra, rb := a.ByName[n], b.ByName[n]
		switch {
		case ra == nil:
			out = append(out, Diff{n, "rule is missing: " + rb.Expr.String()})
		case rb == nil:
			out = append(out, Diff{n, "additional rule: " + ra.Expr.String()})
		default:
			x := (&canon{g: a, cut: all(a), memo: map[string]*Expr{}}).norm(ra.Expr).String()
			y := (&canon{g: b, cut: all(b), memo: map[string]*Expr{}}).norm(rb.Expr).String()
			if x != y {
				out = append(out, Diff{n, fmt.Sprintf("%s is not equivalent to %s", x, y)})
			}
		}
	}
	if len(out) == 0 {
		out = append(out, Diff{a.Rules[0].Name, "start rules differ: " + a.Rules[0].Name + " and " + b.Rules[0].Name})
	}
	return out
}

// Nullable computes the rules and expressions that can succeed without
// consuming input.
func (g *Grammar) Nullable() func(*Expr) bool {
	null := map[string]bool{}
	var f func(e *Expr) bool
	f = func(e *Expr) bool {
		switch e.Op {
		case Seq:
			for _, k := range e.Kids {
				if !f(k) {
					return false
				}
			}
			return true
		case Choice:
			for _, k := range e.Kids {
				if f(k) {
					return true
				}
			}
			return false
		case Star, Opt, And, Not, State, Pred:
			return true
		case Plus, Label, Action:
			return f(e.Kids[0])
		case Lit:
			return e.Text == ""
		case Ref:
			return null[e.Text]
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		for _, r := range g.Rules {
			if !null[r.Name] && f(r.Expr) {
				null[r.Name] = true
				changed = true
			}
		}
	}
	return f
}

// Loops lists the ways parsing may fail to terminate: left recursion and
// repetition of an expression that may match nothing. n counts what was checked.
func (g *Grammar) Loops() (n int, out []Diff) {
	null := g.Nullable()
	// left: rules that may be entered before consuming input
	var left func(e *Expr, acc map[string]bool)
	left = func(e *Expr, acc map[string]bool) {
		switch e.Op {
		case Ref:
			acc[e.Text] = true
		case Seq:
			for _, k := range e.Kids {
				left(k, acc)
				if !null(k) {
					return
				}
			}
		default:
			for _, k := range e.Kids {
				left(k, acc)
			}
		}
	}
	edges := map[string]map[string]bool{}
	for _, r := range g.Rules {
		m := map[string]bool{}
		left(r.Expr, m)
		edges[r.Name] = m
		n++
		for x := range r.Expr.Refs() {
			if g.ByName[x] == nil {
				out = append(out, Diff{r.Name, "reference to undefined rule " + x})
			}
		}
	}
	for _, r := range g.Rules {
		seen := map[string]bool{}
		var path []string
		var dfs func(x string) bool
		dfs = func(x string) bool {
			var ys []string
			for y := range edges[x] {
				ys = append(ys, y)
			}
			sort.Strings(ys)
			for _, y := range ys {
				if y == r.Name {
					path = append(path, x)
					return true
				}
				if !seen[y] {
					seen[y] = true
					if dfs(y) {
						path = append(path, x)
						return true
					}
				}
			}
			return false
		}
		if dfs(r.Name) {
			out = append(out, Diff{r.Name, "left recursion through " + strings.Join(path, " <- ")})
		}
	}
	for _, r := range g.Rules {
		var walk func(e *Expr)
		walk = func(e *Expr) {
			if e.Op == Star || e.Op == Plus {
				n++
				if null(e.Kids[0]) {
					out = append(out, Diff{r.Name, "repetition of " + e.Kids[0].String() + ", which can match nothing"})
				}
			}
			for _, k := range e.Kids {
				walk(k)
			}
		}
		walk(r.Expr)
	}
	return
}
