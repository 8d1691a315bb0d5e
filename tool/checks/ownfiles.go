package checks

import (
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/tool/ai"
	"verif/tool/load"
)

func init() {
	All["C24"] = Check{ownFiles, "gen.Package is interpreted abstractly on schema shapes with an arbitrary package name, directory and seed; every file the trace creates must be one of the three generated files in the directory or a corpus file testdata/fuzz/<struct>/corpus/<sha256 of exactly the bytes written>, every directory made must lead to one, and nothing else may be touched. Calls of file system, process and network functions are collected from the type-checked source of all packages: those in gen and tv must have been reached by the interpretation, other packages may only open the file they parse."}
}

func ownFiles(r *Report) {
	r.Rule("paths", "every file written is one of the tool's own", 60)
	r.Rule("names", "a corpus file is named by the hash of its contents", 20)
	r.Rule("dirs", "every directory made leads to such a file", 10)
	r.Rule("only", "a build has no other effect on the file system", 14)
	r.Rule("sites", "every call that can change the file system is accounted for", 3)
	reached := make([]map[string]bool, len(buildFamilies))
	idx := map[string]int{}
	for i, f := range buildFamilies {
		idx[strings.Join(f, " || ")] = i
	}
	overShapes(r, buildFamilies, func(q *Report, p *load.Program, texts []string) {
		b := newBuildRun(q, p, texts)
		b.fewDraws()
		defer func() { q.Absorb(b.e) }()
		for _, o := range b.build(nil) {
			if o.Kind != "return" {
				q.Bad("undecided", b.name, o.Pos, "gen.Package: %s %s", o.Kind, o.Msg)
				continue
			}
			f := effectsOf(o.St)
			q.Ok("only")
			for i, x := range f.other {
				q.Bad("only", b.name, f.opos[i], "a build has the effect %s", x)
			}
			b.judgePaths(q, o.St, f)
		}
		sites := map[string]bool{}
		for in := range b.e.CallSites {
			sites[siteKey(p, in)] = true
		}
		reached[idx[b.name]] = sites
	})
	all := map[string]bool{}
	for _, s := range reached {
		for k := range s {
			all[k] = true
		}
	}
	for in, n := range writeSites(r.P, "gen", "tv") {
		r.Ok("sites")
		if !all[siteKey(r.P, in)] {
			r.Bad("sites", short(in.Parent().String())+" calls "+n, in.Pos(), "%s is called in a place that no analysed build reaches", n)
		}
	}
	for in, n := range writeSites(r.P, "ast", "parse", "parse/internal/parser", "inspect", "internal/intervals", "fault", "meta", "cmd/trunnel") {
		r.Ok("sites")
		if readsSource[n] && strings.Contains(in.Parent().String(), "/parse") {
			continue // reading the source
		}
		r.Bad("sites", short(in.Parent().String())+" calls "+n, in.Pos(), "%s is called outside of code generation", n)
	}
	r.Extra["reached_call_sites"] = len(all)
}

// siteKey identifies an instruction across programs.
func siteKey(p *load.Program, in ssa.Instruction) string {
	return in.Parent().String() + " " + p.Fset.Position(in.Pos()).String()
}

// judgePaths compares what was written with what may be.
func (b *buildRun) judgePaths(q *Report, st *ai.State, f effects) {
	own := map[string]bool{}
	for _, n := range outputs {
		own[b.in(ai.Lit(n))] = true
	}
	okDir := map[string]bool{b.dir.String(): true, b.in(ai.Lit("testdata")): true, b.in(ai.Lit("testdata/fuzz")): true}
	corpus := map[string]string{}
	for _, n := range b.structNames() {
		okDir[b.in(ai.Lit("testdata/fuzz"), ai.Name(n))] = true
		d := b.in(ai.Lit("testdata/fuzz"), ai.Name(n), ai.Lit("corpus"))
		okDir[d] = true
		corpus[d] = n
	}
	for _, d := range f.dirs {
		q.Ok("dirs")
		if !okDir[d.path] {
			q.Bad("dirs", b.name, d.pos, "a build makes the directory %s", d.path)
		}
	}
	for _, w := range f.writes {
		q.Ok("paths")
		if !w.entire {
			q.Bad("paths", b.name, w.pos, "a build does not replace the contents of %s", w.path)
		}
		if own[w.path] {
			continue
		}
		hit := ""
		for d := range corpus {
			if strings.HasPrefix(w.path, d+"/") {
				hit = d
			}
		}
		if hit == "" {
			q.Bad("paths", b.name, w.pos, "a build writes %s", w.path)
			continue
		}
		q.Ok("names")
		name := strings.TrimPrefix(w.path, hit+"/")
		if len(w.data) != 1 || b.hashName(st, w.data[0]).String() != name {
			q.Bad("names", b.name, w.pos, "the corpus file %s is not named by the hash of its contents", short(name))
		}
	}
}
