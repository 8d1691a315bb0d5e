package checks

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Check decides one property.
type Check struct {
	Run  func(*Report)
	What string // how the property is decided, for the evidence
}

// All maps property ids to checks.
var All = map[string]Check{}

const decodeWhat = "Abstract interpretation of gen.Marshallers on schema shapes yields the emitted source text; that text is type-checked and itself interpreted over an arbitrary input (any length, any bytes; polyhedral domain, widening at loop heads), and every class of outcomes is compared with the reference meaning of the schema. "

func init() {
	for p, t := range decodeRules {
		All[p] = Check{Decode, decodeWhat + "Decided: " + t + "."}
	}
}

type known struct {
	Prop, Key, What string
}

// readKnown reads the committed list of known findings.
func readKnown(file string) ([]known, error) {
	f, err := os.Open(file)
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" || strings.HasPrefix(l, "#") || strings.HasPrefix(l, "fixed:") {
			continue
		}
		// finding: property=<id> key=<rule @ where> :: <what fails>
		l = strings.TrimPrefix(l, "finding: property=")
		i := strings.Index(l, " key=")
		j := strings.Index(l, " :: ")
		if i < 0 || j < i {
			return nil, fmt.Errorf("malformed line in %s: %s", file, l)
		}
		out = append(out, known{l[:i], l[i+5 : j], l[j+4:]})
	}
	return out, sc.Err()
}

// Main runs the check of one property and returns the exit status.
func Main(verif, prop string) int {
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c, ok := All[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check for", prop)
		return 2
	}
	ks, err := readKnown(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	r := NewReport(prop, tier, nil)
	p, err := LoadRepo()
	if err != nil {
		r.BadAt("load", RepoDir, "", "the program cannot be analysed: %v", err)
	} else {
		r.P = p
		done := make(chan bool)
		go func() {
			defer close(done)
			defer func() {
				if x := recover(); x != nil {
					if os.Getenv("AI_PANIC") != "" {
						panic(x)
					}
					r.BadAt("undecided", "analysis", "", "the analysis failed: %v", x)
					fmt.Fprintln(os.Stderr, stack())
				}
			}()
			c.Run(r)
		}()
		if why := watch(done, t0, prop, ks); why != "" {
			r = NewReport(prop, tier, p)
			r.Findings = foundSoFar(prop, ks)
			r.Obligations = len(r.Findings)
			r.BadAt("undecided", "analysis", "", "%s", why)
		} else {
			r.Finish()
		}
	}
	var viol []Finding
	listed := map[string]bool{}
	sort.SliceStable(r.Findings, func(i, j int) bool { return r.Findings[i].Key() < r.Findings[j].Key() })
	sort.SliceStable(r.Findings, func(i, j int) bool {
		return r.Findings[i].Rule != "coverage" && r.Findings[j].Rule == "coverage"
	})
	for _, f := range r.Findings {
		hit := false
		for _, k := range ks {
			if k.Prop == prop && k.Key == f.Key() {
				hit = true
				if !listed[k.Key] {
					listed[k.Key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
				}
			}
		}
		if !hit {
			viol = append(viol, f)
		}
	}
	if err := writeEvidence(verif, r, c, tier, seed, time.Since(t0), viol, len(listed)); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Printf("%s: %d obligations, %d functions, %d schema shapes, %d outcome states, %d violations, %d known findings, %.1fs\n",
		prop, r.Obligations, len(r.Funcs), r.Extra["schema_shapes"], r.States, len(viol), len(listed), time.Since(t0).Seconds())
	if len(viol) == 0 {
		return 0
	}
	replay := filepath.Join(verif, "evidence", prop+".violations.txt")
	var b strings.Builder
	for i, f := range viol {
		fmt.Fprintf(&b, "[%s] %s\n  at %s\n  %s\n", f.Rule, f.Where, f.Pos, f.Msg)
		if i < 12 {
			fmt.Printf("  [%s] %s: %s (%s)\n", f.Rule, f.Pos, f.Msg, f.Where)
		}
		if os.Getenv("KEYS") != "" {
			fmt.Printf("finding: property=%s key=%s :: \n", prop, f.Key())
		}
	}
	os.WriteFile(replay, []byte(b.String()), 0o644)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	return 1
}

// Limits of a run: findings are reported at the latest after softLimit, and an
// analysis that ends neither way is undecided.
const (
	softLimit = 240 * time.Second
	hardLimit = 720 * time.Second
	maxMemory = 12 << 30
)

// watch waits for the analysis; it says why it was given up.
func watch(done chan bool, t0 time.Time, prop string, ks []known) string {
	m := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		select {
		case <-done:
			return ""
		case <-time.After(2 * time.Second):
		}
		metrics.Read(m)
		switch d := time.Since(t0); {
		case d > hardLimit:
			return fmt.Sprintf("the analysis does not end within %v", hardLimit)
		case m[0].Value.Uint64() > maxMemory:
			return "the analysis needs more memory than it may use"
		case d > softLimit && len(foundSoFar(prop, ks)) > 0:
			return fmt.Sprintf("the analysis was ended after %v, with the findings it had", softLimit)
		}
	}
}

// foundSoFar lists what was found, in every partial report, that is not known.
func foundSoFar(prop string, ks []known) []Finding {
	var out []Finding
	found.Lock()
	defer found.Unlock()
next:
	for _, f := range found.list {
		for _, k := range ks {
			if k.Prop == prop && k.Key == f.Key() {
				continue next
			}
		}
		out = append(out, f)
	}
	return out
}

func writeEvidence(verif string, r *Report, c Check, tier string, seed int, d time.Duration, viol []Finding, nknown int) error {
	dir := filepath.Join(verif, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	var fns []string
	for f := range r.Funcs {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	cov := map[string]any{
		"explanation":         c.What,
		"obligations":         r.Obligations,
		"discharged":          r.Obligations - len(r.Findings),
		"obligations_by_rule": r.ByRule,
		"rules":               r.Rules,
		"functions_analysed":  len(fns),
		"functions":           fns,
		"call_sites":          r.CallSites,
		"known_findings":      nknown,
		"samples":             append([]string{}, r.Samples...),
	}
	if r.States > 0 {
		cov["outcome_states"] = r.States
		cov["loop_invariants"] = r.Widenings
	}
	if r.P != nil {
		cov["files"] = r.P.Files
	}
	for k, v := range r.Extra {
		cov[k] = v
	}
	var vs []string
	for _, f := range viol {
		vs = append(vs, f.Key()+" "+f.Pos)
	}
	if vs != nil {
		cov["violated"] = vs
	}
	ev := map[string]any{
		"property": r.Prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": cov, "wall_s": d.Seconds(), "violations": len(viol),
		"assumptions": append([]string{}, r.Assumptions...),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, r.Prop+".json"), append(b, '\n'), 0o644)
}
