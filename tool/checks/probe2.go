package checks

import (
	"fmt"
	"time"

	"verif/tool/load"
	"verif/tool/peg"
)

// ProbeEngine verifies the engine on the nodes of a rule.
func ProbeEngine(p *load.Program, rules []string) {
	t, err := readTable(p)
	if err != nil {
		fmt.Println(err)
		return
	}
	v, err := newVerifier(t)
	if err != nil {
		fmt.Println(err)
		return
	}
	caps, err := v.capture()
	if err != nil {
		fmt.Println(err)
		return
	}
	fmt.Println("captured", len(caps))
	{
		n, ms := v.checkEntries()
		fmt.Println("entries", n)
		for _, m := range ms {
			fmt.Println("   ", m.kind, m.path, p.Rel(m.pos), m.msg)
		}
		v.p = caps[0].p
	}
	v.base = caps[len(caps)-1].st
	want := map[string]bool{}
	for _, r := range rules {
		want[r] = true
	}
	total := 0
	for _, n := range t.order {
		if len(rules) > 0 && !want[n.rule] {
			continue
		}
		t0 := time.Now()
		c, ms := v.verify(n)
		total += c
		if len(ms) > 0 || time.Since(t0) > time.Second {
			fmt.Println(n.rule, n.expr.Op, short(n.expr.String()), c, time.Since(t0))
		}
		for i, m := range ms {
			if i > 5 {
				break
			}
			fmt.Println("   ", m.kind, p.Rel(m.pos), m.msg)
		}
	}
	fmt.Println("outcomes", total)
}

// ProbeActions analyses derivations.
func ProbeActions(p *load.Program, texts []string) {
	t, err := readTable(p)
	if err != nil {
		fmt.Println(err)
		return
	}
	v, err := newVerifier(t)
	if err != nil {
		fmt.Println(err)
		return
	}
	caps, err := v.capture()
	if err != nil {
		fmt.Println(err)
		return
	}
	v.base = caps[len(caps)-1].st
	for k := range v.runs {
		delete(v.e.Intr, k)
	}
	ref, _ := peg.ReadPigeon(peg.Reference)
	t0 := time.Now()
	feats := 0
	if len(texts) == 0 {
		texts, feats = derivations(ref, 30000, 400)
	}
	fmt.Println(len(texts), "texts", feats, "features", time.Since(t0))
	ran := map[string]bool{}
	total := 0
	for _, x := range texts {
		t1 := time.Now()
		n, out := v.analyse(x, ref, true, -1, ran)
		total += n
		if len(out) > 0 || time.Since(t1) > time.Second {
			fmt.Println(x, time.Since(t1))
		}
		for i, o := range out {
			if i < 4 {
				fmt.Println("   ", o.kind, p.Rel(o.pos), o.msg)
			}
		}
	}
	fmt.Println("nodes", total, "code", len(ran), unran(v, ran), time.Since(t0))
}

func unran(v *pegVerifier, ran map[string]bool) (out []string) {
	for _, n := range v.t.order {
		if n.run != nil && !ran[n.run.Name()] {
			out = append(out, n.run.Name())
		}
	}
	return
}
