package checks

import (
	"fmt"
	"os"
	"verif/tool/peg"

	"verif/tool/load"
)

// Probe is a debugging aid.
func Probe(p *load.Program, texts []string) {
	for _, t := range texts {
		g, ge := generate(p, []string{t}, plainNames)
		if ge != nil {
			fmt.Println("GEN", ge, p.Rel(ge.pos))
			continue
		}
		if os.Getenv("SHOW") != "" {
			fmt.Println(g.em.text)
		}
		for _, f := range g.files {
			for _, s := range f.Structs {
				if s.Extern {
					continue
				}
				c := g.compareStruct(s)
				fmt.Println(s.Name, "pairs", c.pairs, "ok", c.ok, "bad", len(c.out))
				for _, m := range c.out {
					fmt.Println("  ", m.kind, m.path, p.Rel(m.pos), m.msg)
				}
			}
		}
	}
}

// ProbeTable prints the compiled grammar.
func ProbeTable(p *load.Program) {
	t, err := readTable(p)
	if err != nil {
		fmt.Println(err)
		return
	}
	for _, r := range t.g.Rules {
		fmt.Println(r.Name, "<-", r.Expr)
	}
	fmt.Println(t.errs, len(t.order))
	ref, err := peg.ReadPigeon(peg.Reference)
	fmt.Println(err, peg.Compare(t.g, ref))
}
