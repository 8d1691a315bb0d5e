package checks

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"time"

	"verif/tool/load"
)

// RepoDir is the tree under analysis.
var RepoDir = "/repo"

// LoadRepo loads the repository's packages.
func LoadRepo() (p *load.Program, err error) {
	p = load.New(RepoDir)
	for _, x := range []string{"ast", "gen", "tv", "inspect", "cmd/trunnel", "parse", "parse/internal/parser", "internal/intervals", "fault", "meta"} {
		if _, err := p.Import(load.Module + "/" + x); err != nil {
			return nil, err
		}
	}
	if _, err := p.Import("verif/model"); err != nil {
		return nil, err
	}
	p.Build()
	return p, nil
}

// parallel runs jobs on workers that each have their own program.
func parallel(main *load.Program, n int, job func(p *load.Program, i int)) {
	w := runtime.NumCPU()
	if w > 8 {
		w = 8
	}
	if w > n {
		w = n
	}
	ch := make(chan int)
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		p := main
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			if k > 0 {
				var err error
				if p, err = LoadRepo(); err != nil {
					fmt.Fprintln(os.Stderr, "load:", err)
					os.Exit(3)
				}
			}
			for i := range ch {
				t0 := time.Now()
				job(p, i)
				if os.Getenv("SLOW") != "" && time.Since(t0) > 2*time.Second {
					fmt.Fprintln(os.Stderr, "slow job", i, time.Since(t0))
				}
			}
		}(k)
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func stack() string { return string(debug.Stack()) }
