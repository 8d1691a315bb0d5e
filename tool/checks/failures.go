package checks

import (
	"fmt"
	"math/big"
	"slices"
	"strings"

	"verif/tool/ai"
	"verif/tool/load"
)

func init() {
	All["C25"] = Check{failuresReported, "gen.Package is interpreted abstractly with every call that can fail (formatting, creating directories, opening and writing files) also failing: whenever one fails, an error must be returned, and success must mean that all files were written (only the marshallers when vector generation is not implemented for the schema). Schemas that cannot be resolved must yield an error. The command is interpreted from main with the command line, parsing and the build failing or not: every failure must end the process with a non-zero status. The parsing functions are interpreted with opening, reading and matching failing."}
}

// unresolvable are schemas whose build must fail.
var unresolvable = [][]string{
	{"struct a { u8 x IN [5..3]; }"},
	{"const K = 9; const L = 2; struct a { u8 x IN [K..L]; }"},
	{"struct a { u8 x IN [K]; }"},
	{"struct a { u8 x IN [1..K]; u8 y; }"},
	{"struct a { u8 x IN [K..9]; u8 y; }"},
	{"struct a { u8 x[K]; }"},
	{"struct a { u8 x[..-K]; u8 y; }"},
	{"struct a { struct b x; }"},
	{"struct a { struct b x[2]; }"},
	{"struct a { u8 n; struct b x[n]; }"},
	{"struct a { u8 t; union u[t] { 1: struct b x; }; }"},
	{"struct a { union u[c.t] { 1: u8 x; }; }"},
	{"struct a { union u[t] { 1: u8 x; }; }"},
	{"struct a { u8 t; union u[t] { 9..3: u8 x; default: fail; }; }"},
	{"struct a { u8 t; union u[t] { K: u8 x; default: fail; }; }"},
	{"struct a { u8 x; } struct a { u16 y; }"},
	{"struct a { u8 x; }", "struct a { u16 y; }"},
	{"const K = 1; const K = 2; struct a { u8 x[K]; }"},
	{"const K = 1;", "const K = 2; struct a { u8 x[K]; }"},
	{"context c { u8 t; } context c { u8 n; } struct a with context c { u8 x[c.n]; }"},
	{"struct b { u8 y; } struct a { u8 x IN [K]; }"},
	{"struct a { u8 x IN [K]; } struct b { u8 y; }"},
	{"struct b { u8 y; }", "struct a { u8 x[K]; }"},
	{"struct a { u8 x[K]; }", "struct b { u8 y; }"},
	{"struct a { u8 t; union u[t] with length ..-K { 1: u8 x; default: ; }; u8 z; }"},
	{"struct a { u8 t; union u[t] { 1: u8 x[K]; default: ; }; }"},
	{"struct a { u8 t; union u[t] { 1: u8 x; default: u8 y IN [K]; }; }"},
	{"struct a { u8 t; union u[t] { 1: u8 x; 2, K: u8 y; }; }"},
}

func failuresReported(r *Report) {
	r.Rule("fault", "a failing operation of a build makes it return an error", 60)
	r.Rule("success", "a build that succeeds has written every file", 14)
	r.Rule("resolve", "the build of a schema that cannot be resolved returns an error", 28)
	r.Rule("status", "a failure ends the process with a non-zero status", 5)
	r.Rule("passed", "the command builds the parsed files with the given options", 2)
	if v := pegSetup(r); v != nil {
		v.entriesReport(r, map[string]bool{"result": true})
	}
	overShapes(r, buildFamilies, func(q *Report, p *load.Program, texts []string) {
		b := newBuildRun(q, p, texts)
		b.fewDraws()
		defer func() { q.Absorb(b.e) }()
		left, _ := allow(b.spec, b.files)
		pos := b.genFn("Package").Pos()
		for _, o := range b.build(map[string]any{"faults": true}) {
			if o.Kind != "return" {
				q.Bad("fault", b.name, o.Pos, "gen.Package: %s %s", o.Kind, o.Msg)
				continue
			}
			f := effectsOf(o.St)
			failed := !ai.IsNil(o.Ret[0])
			if len(f.faults) > 0 {
				q.Ok("fault")
				if !failed {
					q.Bad("fault", b.name+" / "+f.faults[0], f.fpos[0], "gen.Package reports success although %s fails", f.faults[0])
				}
				continue
			}
			q.Ok("success")
			if failed {
				q.Bad("success", b.name, pos, "gen.Package fails although nothing it calls does: %s", o.St.Show(o.Ret[0]))
				continue
			}
			b.judgeWritten(q, o.St, f, left)
		}
	})
	overShapes(r, unresolvable, func(q *Report, p *load.Program, texts []string) {
		b := newBuildRun(q, p, texts)
		b.fewDraws()
		defer func() { q.Absorb(b.e) }()
		for _, o := range b.build(nil) {
			q.Ok("resolve")
			switch {
			case o.Kind != "return":
				q.Bad("resolve", b.name, o.Pos, "gen.Package: %s %s", o.Kind, o.Msg)
			case ai.IsNil(o.Ret[0]):
				q.Bad("resolve", b.name, b.genFn("Package").Pos(), "gen.Package reports success")
			}
		}
	})
	try(r, "cmd/trunnel", func() { commandStatus(r) })
}

// judgeWritten compares the files of a successful build with those promised.
func (b *buildRun) judgeWritten(q *Report, st *ai.State, f effects, partly bool) {
	pos := b.genFn("Package").Pos()
	have := map[string]int{}
	for _, w := range f.writes {
		have[w.path]++
	}
	want := outputs
	if partly {
		want = outputs[:1]
	}
	for _, n := range want {
		if have[b.in(ai.Lit(n))] == 0 {
			q.Bad("success", b.name+" / "+n, pos, "gen.Package reports success without writing %s", n)
		}
	}
	if partly {
		return
	}
	vec := map[string]bool{}
	for _, w := range f.writes {
		for _, n := range b.structNames() {
			if strings.HasPrefix(w.path, b.in(ai.Lit("testdata/fuzz"), ai.Name(n), ai.Lit("corpus/"))) {
				vec[n] = true
			}
		}
	}
	for _, n := range b.structNames() {
		if !vec[n] {
			q.Bad("success", b.name+" / corpus of "+n, pos, "gen.Package reports success without writing a corpus file for struct %s", n)
		}
	}
}

// commandStatus interprets the command from main.
func commandStatus(r *Report) {
	a := newAPI(r, r.P, "cmd/trunnel")
	defer func() { r.Absorb(a.e) }()
	fileT := r.P.Pkgs[load.Module+"/ast"].Types.Scope().Lookup("File")
	if fileT == nil {
		panic(giveUp("ast.File not found"))
	}
	// parsing: a tree per file, or an error
	tree := func(st *ai.State, n ai.Val) ai.Val {
		s, _ := n.(ai.Str)
		key := "tree " + st.Resolve(s).String()
		p := st.NewTyped(fileT.Type())
		st.Emit("tree", 0, ai.Lit(key), p)
		return p
	}
	fail := func(st *ai.State, c *ai.CallCtx, what string) (*ai.State, ai.Val) {
		err := a.e.NewError(st, ai.Lit(what+" failed"))
		st.Emit("fault", c.Pos, ai.Lit(what), err)
		return st, err
	}
	a.e.Intr[load.Module+"/parse.File"] = func(st *ai.State, c *ai.CallCtx, args []ai.Val) []ai.Res {
		bad, err := fail(st.Clone(), c, "parse.File")
		return []ai.Res{{St: st, V: ai.Tuple{tree(st, args[0]), ai.NilV{}}}, {St: bad, V: ai.Tuple{ai.NilV{}, err}}}
	}
	a.e.Intr[load.Module+"/parse.Files"] = func(st *ai.State, c *ai.CallCtx, args []ai.Val) []ai.Res {
		l, ok := st.Elems(args[0])
		if !ok && !ai.IsNil(args[0]) {
			return []ai.Res{{St: st, Stop: "parse.Files of an unknown list"}}
		}
		bad, err := fail(st.Clone(), c, "parse.Files")
		var ts []ai.Val
		for _, n := range l {
			ts = append(ts, tree(st, n))
		}
		var list ai.Val = ai.NilV{}
		if len(ts) > 0 {
			list = st.NewSlice(ts)
		}
		return []ai.Res{{St: st, V: ai.Tuple{list, ai.NilV{}}}, {St: bad, V: ai.Tuple{ai.NilV{}, err}}}
	}
	a.e.Intr[load.Module+"/gen.Package"] = func(st *ai.State, c *ai.CallCtx, args []ai.Val) []ai.Res {
		st.Emit("package", c.Pos, args...)
		bad, err := fail(st.Clone(), c, "gen.Package")
		return []ai.Res{{St: st, V: ai.NilV{}}, {St: bad, V: err}}
	}
	cfgT := r.P.Pkgs[load.Module+"/gen"].Types.Scope().Lookup("Config")
	main := a.fn("main")
	st := a.e.NewState()
	for _, o := range a.e.Call(st, main) {
		f := effectsOf(o.St)
		code := "0"
		var exitPos = main.Pos()
		builds, trees := 0, []ai.Val(nil)
		var names, given []string
		passed := true
		why := ""
		for _, ev := range o.St.EventList() {
			switch {
			case strings.HasPrefix(ev.Kind, "exit:log.Fatal"):
				code, exitPos = "1", ev.Pos
			case ev.Kind == "exit:os.Exit":
				exitPos = ev.Pos
				code = "?"
				if i, ok := ev.Args[0].(ai.Int); ok {
					if x, ok := o.St.Store.Fixed(i.L); ok {
						code = new(big.Int).And(x, big.NewInt(255)).String()
					}
				}
			case ev.Kind == "argument":
				given = append(given, o.St.Resolve(ev.Args[0].(ai.Str)).String())
			case ev.Kind == "tree":
				names = append(names, ev.Args[0].(ai.Str).String())
				trees = append(trees, ev.Args[1])
			case ev.Kind == "package":
				builds++
				l, _ := o.St.Elems(ev.Args[1])
				if len(l) != len(trees) {
					passed, why = false, fmt.Sprintf("%d of %d parsed files are built", len(l), len(trees))
					break
				}
				for i := range l {
					if l[i].(ai.Ptr).Obj != trees[i].(ai.Ptr).Obj {
						passed, why = false, "the files built are not the files parsed"
					}
				}
				dir, _ := structField(ev.Args[0], cfgT.Type(), "Dir").(ai.Str)
				pkg, _ := structField(ev.Args[0], cfgT.Type(), "Package").(ai.Str)
				if d := o.St.Resolve(dir).String(); d != "." && d != ai.Name("dir").String() {
					passed, why = false, "the output directory is "+d
				}
				if d := o.St.Resolve(pkg).String(); d != ai.Name("pkg").String() {
					passed, why = false, "the package name is "+d
				}
			}
		}
		if len(f.faults) == 0 && builds > 0 {
			for _, n := range given {
				if !slices.Contains(names, "tree "+n) {
					passed, why = false, "the file "+n+" given on the command line is not parsed"
				}
			}
		}
		r.Ok("status")
		where := "main"
		if len(f.faults) > 0 {
			where = "main / " + f.faults[0]
		}
		switch {
		case o.Kind != "return" && o.Kind != "exit":
			r.Bad("status", where, o.Pos, "main: %s %s", o.Kind, o.Msg)
		case len(f.faults) > 0 && (code == "0" || code == "?"):
			r.Bad("status", where, f.fpos[0], "the process ends with status %s although %s fails", code, f.faults[0])
		case len(f.faults) == 0 && len(trees) > 0 && builds > 0 && code != "0":
			r.Bad("status", where, exitPos, "the process ends with status %s although nothing fails", code)
		case len(f.faults) == 0 && len(given) == 0 && builds == 0 && code == "0":
			r.Bad("status", where, exitPos, "the process ends with status 0 although no file is given")
		case len(f.faults) == 0 && len(trees) > 0 && builds == 0:
			r.Bad("status", where, exitPos, "the files parsed are not built")
		}
		if builds > 0 {
			r.Ok("passed")
			if !passed {
				r.Bad("passed", "main", main.Pos(), "%s", why)
			}
		}
	}
}
