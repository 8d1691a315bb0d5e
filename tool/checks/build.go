package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/tool/ai"
	"verif/tool/dom"
	"verif/tool/load"
)

// buildRun interprets gen.Package on one schema, with the effects on the file
// system recorded.
type buildRun struct {
	*vecRun
	gen  *load.Package
	seed dom.Lin
	dir  ai.Str
}

func newBuildRun(q *Report, p *load.Program, texts []string) *buildRun {
	b := &buildRun{vecRun: newVecRun(q, p, texts), gen: p.Pkgs[load.Module+"/gen"], dir: ai.FreeName("dir")}
	if b.gen == nil {
		panic(giveUp("package gen is not part of the program"))
	}
	if err := initialise(b.e, p, "gen"); err != nil {
		panic(giveUp(err.Error()))
	}
	m := pow2(63)
	b.seed = dom.Var(b.e.Tab.Sym("seed", new(big.Int).Neg(m), new(big.Int).Sub(m, big.NewInt(1))))
	return b
}

func (b *buildRun) genFn(name string) *ssa.Function {
	f := b.gen.SSA.Func(name)
	if f == nil {
		panic(giveUp("gen." + name + " not found"))
	}
	return f
}

// config is a configuration with any package name, directory and seed.
func (b *buildRun) config() ai.Val {
	o := b.gen.Types.Scope().Lookup("Config")
	if o == nil {
		panic(giveUp("gen.Config not found"))
	}
	return b.fill(o.Type(), map[string]ai.Val{"Package": ai.Name("pkgname"), "Dir": b.dir, "Seed": ai.Int{L: b.seed, K: types.Int64}})
}

// fill makes a struct value with the given fields.
func (b *buildRun) fill(t types.Type, fields map[string]ai.Val) ai.Val {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		panic(giveUp(t.String() + " is not a struct"))
	}
	v := &ai.StructV{F: append([]ai.Val(nil), b.e.Zero(t).(*ai.StructV).F...)}
	for n, x := range fields {
		i := fieldIndex(st, n)
		if i < 0 {
			panic(giveUp("field " + n + " not found in " + t.String()))
		}
		v.F[i] = x
	}
	return v
}

// build interprets gen.Package.
func (b *buildRun) build(data map[string]any) []ai.Outcome {
	st := b.start()
	for k, x := range data {
		st.Data[k] = x
	}
	files := st.NewSlice(append([]ai.Val(nil), b.fileVs...))
	b.base = st.Clone()
	var outs []ai.Outcome
	for _, o := range b.e.Call(st, b.genFn("Package"), b.config(), files) {
		if o.Kind == "diverge" && drawCount(o.St) > 0 {
			b.endless++
			continue
		}
		outs = append(outs, o)
	}
	return outs
}

// write is one file written.
type write struct {
	path    string
	pathS   ai.Str
	data    []ai.Val // pieces in order
	entire  bool     // replaces what the file held
	pos     token.Pos
	partial bool // a failing write
}

type effects struct {
	writes []*write
	dirs   []write
	other  []string
	opos   []token.Pos
	faults []string
	fpos   []token.Pos
}

// effectsOf reads the recorded effects of a trace.
func effectsOf(st *ai.State) (f effects) {
	text := func(v ai.Val) (ai.Str, string) {
		s, ok := v.(ai.Str)
		if !ok {
			return ai.Str{}, "?"
		}
		s = st.Resolve(s)
		return s, s.String()
	}
	last := map[string]*write{}
	for _, ev := range st.EventList() {
		switch k := ev.Kind; {
		case k == "writefile":
			s, p := text(ev.Args[0])
			f.writes = append(f.writes, &write{path: p, pathS: s, data: []ai.Val{ev.Args[1]}, entire: true, pos: ev.Pos})
		case k == "open:trunc" || k == "open:other":
			s, p := text(ev.Args[0])
			w := &write{path: p, pathS: s, entire: k == "open:trunc", pos: ev.Pos}
			last[p] = w
			f.writes = append(f.writes, w)
		case k == "filewrite":
			_, p := text(ev.Args[0])
			if w := last[p]; w != nil {
				w.data = append(w.data, ev.Args[1])
			} else {
				f.other = append(f.other, "writing to "+p)
				f.opos = append(f.opos, ev.Pos)
			}
		case k == "mkdir":
			s, p := text(ev.Args[0])
			f.dirs = append(f.dirs, write{path: p, pathS: s, pos: ev.Pos})
		case k == "open:read" || strings.HasPrefix(k, "fs:") || strings.HasPrefix(k, "afero:") || strings.HasPrefix(k, "exit:"):
			what := k
			for _, a := range ev.Args {
				if s, ok := a.(ai.Str); ok {
					what += " " + st.Resolve(s).String()
				}
			}
			f.other = append(f.other, what)
			f.opos = append(f.opos, ev.Pos)
		case k == "fault":
			_, w := text(ev.Args[0])
			f.faults = append(f.faults, w)
			f.fpos = append(f.fpos, ev.Pos)
		}
	}
	return f
}

// in is a path below the output directory.
func (b *buildRun) in(elems ...ai.Str) string {
	s := b.dir
	for _, e := range elems {
		s = s.Concat(ai.Lit("/")).Concat(e)
	}
	return s.String()
}

// hashName is the name of a file with the given contents.
func (b *buildRun) hashName(st *ai.State, data ai.Val) ai.Str {
	key := st.Show(data)
	s := ai.Str{}
	for i := 0; i < 32; i++ {
		l := dom.Var(b.e.Tab.Sym(fmt.Sprintf("sha256(%s)[%d]", key, i), big.NewInt(0), big.NewInt(255)))
		s = s.Concat(ai.AtomStr(&ai.Atom{Key: "hex2(" + b.e.Tab.Format(l) + ")", Fn: "hex2", Num: &l}))
	}
	return s
}

// structNames lists the structs of the schema.
func (b *buildRun) structNames() (out []string) {
	seen := map[string]bool{}
	for _, f := range b.files {
		for _, s := range f.Structs {
			if !s.Extern && !seen[s.Name] {
				seen[s.Name] = true
				out = append(out, s.Name)
			}
		}
	}
	return
}

var outputs = []string{"gen-marshallers.go", "gen-marshallers_test.go", "gen-fuzz.go"}

// fewDraws leaves only one outcome of bounded draws, for analyses that are not
// about the drawn values.
func (b *buildRun) fewDraws() {
	b.e.DrawCases = func(st *ai.State, n dom.Lin) []dom.Lin {
		if x, ok := st.Store.Fixed(n); !ok || x.Cmp(big.NewInt(20)) > 0 {
			return nil
		}
		return []dom.Lin{dom.Const(0)}
	}
}

// buildFamilies are the schemas taken through whole builds.
var buildFamilies = [][]string{
	{"struct a { u8 x; }"},
	{"struct a { u16 x; u32 y; } struct b { u8 z; }"},
	{"struct a { u8 x; }", "const K = 3; struct b { u8 z IN [1, K]; }"},
	{"struct a { u8 n; u8 x[n]; nulterm s; u8 y[]; }"},
	{"struct a { u8 t; union u[t] { 1: u8 x; 2..4: u16 y; default: ; }; }"},
	{"context c { u8 n; u16 t; } struct a with context c { u8 x[c.n]; union u[c.t] { 1: u8 q; default: u16 w; }; } struct b { u16 z; }"},
	{"context c { u8 n; } struct d with context c { u8 x[c.n]; } struct a with context c { struct d y[2]; u8 z; }"},
	{"struct d { u8 p; u8 q; } struct a { struct d y[2]; struct d z; }"},
	{"context c { u8 n; } struct a with context c { u8 x; } struct b { u8 y; }"},
	{"struct a { u8 x[..-2]; u16 z; } struct b { u8 y; }"},
	{"struct a { eos; }"},
	{"struct a { }"},
	{"context c { u8 n; }"},
	{"extern struct e; struct b { u8 y; }"},
	{""},
}

// unwritten finds calls in a package that change the file system and that the
// interpretation never reached.
func writeSites(p *load.Program, pkgs ...string) map[ssa.Instruction]string {
	out := map[ssa.Instruction]string{}
	for _, n := range pkgs {
		pk := p.Pkgs[load.Module+"/"+n]
		if pk == nil {
			continue
		}
		for _, fn := range packageFuncs(p, pk) {
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if n := fsCallee(c.Common()); n != "" {
						out[in] = n
					}
				}
			}
		}
	}
	return out
}

// fsPackages have functions with effects outside the process.
var fsPackages = map[string]bool{
	"os": true, "io/ioutil": true, "os/exec": true, "os/signal": true, "os/user": true, "net": true, "net/http": true, "syscall": true, "plugin": true,
	"github.com/spf13/afero": true, "log/syslog": true, "embed": true, "archive/zip": true, "archive/tar": true, "testing/iotest": true, "golang.org/x/sys/unix": true,
}

// harmless functions of those packages change nothing.
var harmless = map[string]bool{
	"io/ioutil.ReadAll": true, "io/ioutil.NopCloser": true, "os.Exit": true, "os.IsNotExist": true, "os.IsExist": true, "os.Getpagesize": true,
	"github.com/spf13/afero.NewOsFs": true, "github.com/spf13/afero.NewBasePathFs": true, "github.com/spf13/afero.NewMemMapFs": true,
	"(*os.File).Name": true, "(*os.File).Close": true, "(*os.File).Fd": true, "(*os.File).Sync": true,
}

// fsCallee names the function of a file system or process API a call invokes.
func fsCallee(c *ssa.CallCommon) string {
	var f *types.Func
	name := ""
	if c.IsInvoke() {
		f = c.Method
		name = f.FullName()
	} else if fn := c.StaticCallee(); fn != nil {
		if o, ok := fn.Object().(*types.Func); ok {
			f = o
			name = fn.String()
		}
	}
	if f == nil || f.Pkg() == nil || !fsPackages[f.Pkg().Path()] || harmless[name] {
		return ""
	}
	return name
}
