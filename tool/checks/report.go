// Package checks decides the properties.
package checks

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
	"sync"

	"verif/tool/ai"
	"verif/tool/load"
)

// Finding is one violated obligation.
type Finding struct {
	Rule  string `json:"rule"`
	Where string `json:"where"` // construct: function, schema shape, call site
	Pos   string `json:"pos,omitempty"`
	Msg   string `json:"msg"`
}

// Key identifies a finding independently of positions.
func (f Finding) Key() string { return f.Rule + " @ " + f.Where }

// Report collects what a check did.
type Report struct {
	Prop        string
	P           *load.Program
	Tier        string
	Obligations int
	ByRule      map[string]int
	Findings    []Finding
	Funcs       map[string]bool
	CallSites   int
	States      int
	Widenings   int
	Extra       map[string]int
	Samples     []string
	Rules       []string
	Minimum     map[string]int
	Assumptions []string
	seen        map[string]bool
}

// NewReport returns an empty report.
func NewReport(prop, tier string, p *load.Program) *Report {
	return &Report{Prop: prop, Tier: tier, P: p, ByRule: map[string]int{}, Funcs: map[string]bool{}, Extra: map[string]int{}, Minimum: map[string]int{}, seen: map[string]bool{}}
}

// Ok counts a discharged obligation.
func (r *Report) Ok(rule string) { r.OkN(rule, 1) }

// OkN counts n discharged obligations.
func (r *Report) OkN(rule string, n int) {
	r.Obligations += n
	r.ByRule[rule] += n
}

// Bad records a violated obligation.
func (r *Report) Bad(rule, where string, pos token.Pos, format string, a ...any) {
	r.Obligations++
	r.ByRule[rule]++
	f := Finding{Rule: rule, Where: where, Msg: fmt.Sprintf(format, a...)}
	if pos.IsValid() && r.P != nil {
		f.Pos = r.P.Rel(pos)
	}
	if r.seen[f.Key()] {
		return
	}
	r.seen[f.Key()] = true
	r.Findings = append(r.Findings, f)
	if r.Prop == "" {
		return
	}
	found.Lock()
	found.list = append(found.list, f)
	found.Unlock()
}

// found holds the findings of all reports.
var found struct {
	sync.Mutex
	list []Finding
}

// BadAt is Bad with a textual position.
func (r *Report) BadAt(rule, where, pos, format string, a ...any) {
	r.Bad(rule, where, token.NoPos, format, a...)
	if n := len(r.Findings); n > 0 && r.Findings[n-1].Key() == rule+" @ "+where && r.Findings[n-1].Pos == "" {
		r.Findings[n-1].Pos = pos
	}
}

// Rule documents a rule and the least number of instances it must have.
func (r *Report) Rule(name, text string, min int) {
	r.Rules = append(r.Rules, name+": "+text)
	r.Minimum[name] = min
}

// Sample keeps an example of what was analysed.
func (r *Report) Sample(format string, a ...any) {
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, fmt.Sprintf(format, a...))
	}
}

// Absorb adds the statistics of an engine.
func (r *Report) Absorb(e *ai.Engine) {
	for f := range e.Funcs {
		r.Funcs[f.String()] = true
	}
	r.CallSites += len(e.CallSites)
	r.States += e.States
	r.Widenings += e.Widenings
}

// Finish applies the minimum instance counts.
func (r *Report) Finish() {
	var names []string
	for n := range r.Minimum {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if r.ByRule[n] < r.Minimum[n] {
			r.Bad("coverage", n, token.NoPos, "rule %s was applied to %d instances, at least %d exist in the confirmed tree: the constructs it is about are no longer recognised", n, r.ByRule[n], r.Minimum[n])
		}
	}
}

func short(s string) string {
	s = strings.ReplaceAll(s, load.Module+"/", "")
	if len(s) > 600 {
		s = s[:600] + "…"
	}
	return s
}

// merge adds what a partial report collected.
func (r *Report) merge(q *Report) {
	r.Obligations += q.Obligations - len(q.Findings)
	for k, v := range q.ByRule {
		r.ByRule[k] += v
	}
	for _, f := range q.Findings {
		r.Obligations++
		if !r.seen[f.Key()] {
			r.seen[f.Key()] = true
			r.Findings = append(r.Findings, f)
		}
	}
	for f := range q.Funcs {
		r.Funcs[f] = true
	}
	r.CallSites += q.CallSites
	r.States += q.States
	r.Widenings += q.Widenings
	for _, s := range q.Samples {
		r.Sample("%s", s)
	}
	for k, v := range q.Extra {
		r.Extra[k] += v
	}
}
