// Command vtool decides properties of the repository from its source.
package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"

	"verif/tool/checks"
)

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(3 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vtool check ID | list | probe SCHEMA…")
		os.Exit(2)
	}
	if d := os.Getenv("VERIF_REPO"); d != "" {
		checks.RepoDir = d
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	if f := os.Getenv("PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	switch os.Args[1] {
	case "list":
		var l []string
		for k := range checks.All {
			l = append(l, k)
		}
		sort.Strings(l)
		for _, k := range l {
			fmt.Println(k)
		}
	case "table":
		p, err := checks.LoadRepo()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		checks.ProbeTable(p)
	case "actions":
		p, err := checks.LoadRepo()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		checks.ProbeActions(p, os.Args[2:])
	case "engine":
		p, err := checks.LoadRepo()
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
		checks.ProbeEngine(p, os.Args[2:])
	case "probe":
		p, err := checks.LoadRepo()
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		checks.Probe(p, os.Args[2:])
	case "check":
		code := checks.Main(verif, os.Args[2])
		pprof.StopCPUProfile()
		os.Exit(code)
	}
}
