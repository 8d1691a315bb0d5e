package checks

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/tool/ai"
	"verif/tool/load"
)

func init() {
	All["C23"] = Check{purity, "Effect analysis over the functions reachable from gen.Package (static calls, methods of types converted to interfaces and functions whose value is taken in reachable code): no call of clocks, environment, process identity, global or unseeded random state, no goroutine, select or pointer formatting, no write to package-level variables. gen.Package is interpreted abstractly on schema shapes with map iteration in insertion and in reverse order: the files written must be the same, every random draw must come from a source made with the configured seed, and every reachable iteration over a map must have been interpreted."}
}

// impure are library functions whose results differ between runs.
func impure(fn *types.Func) string {
	if fn.Pkg() == nil {
		return ""
	}
	n := fn.FullName()
	sig := fn.Type().(*types.Signature)
	switch p := fn.Pkg().Path(); p {
	case "time":
		switch fn.Name() {
		case "Now", "Since", "Until", "Sleep", "After", "Tick", "NewTimer", "NewTicker", "AfterFunc", "Local", "LoadLocation":
			return n
		}
	case "os":
		switch fn.Name() {
		case "Getenv", "LookupEnv", "Environ", "ExpandEnv", "Expand", "Hostname", "Getpid", "Getppid", "Getuid", "Geteuid", "Getgid", "Getwd", "Executable", "TempDir", "UserHomeDir", "UserCacheDir", "UserConfigDir", "Stat", "Lstat", "ReadDir", "ReadFile", "Open", "CreateTemp", "MkdirTemp":
			return n
		}
	case "io/ioutil":
		switch fn.Name() {
		case "ReadFile", "ReadDir", "TempFile", "TempDir":
			return n
		}
	case "math/rand", "math/rand/v2":
		if sig.Recv() == nil && fn.Name() != "New" && fn.Name() != "NewSource" && fn.Name() != "NewZipf" && fn.Name() != "NewPCG" && fn.Name() != "NewChaCha8" {
			return n
		}
	case "crypto/rand", "runtime", "runtime/debug", "os/user", "net", "os/exec", "hash/maphash", "unsafe", "sync/atomic":
		return n
	case "reflect":
		switch fn.Name() {
		case "Pointer", "UnsafePointer", "UnsafeAddr", "MapKeys", "MapRange":
			return n
		}
	case "maps":
		switch fn.Name() {
		case "Keys", "Values", "All":
			return n
		}
	case "path/filepath":
		switch fn.Name() {
		case "Abs", "Glob", "Walk", "WalkDir", "EvalSymlinks":
			return n
		}
	case "fmt":
		if strings.HasPrefix(fn.Name(), "Scan") {
			return n
		}
	case "github.com/mmcloughlin/random":
		if fn.Name() == "Seed" && sig.Recv() != nil {
			return n
		}
	}
	return ""
}

// readsSource are the functions that read a schema file.
var readsSource = map[string]bool{"os.Open": true, "os.ReadFile": true, "io/ioutil.ReadFile": true, "os.Stat": true}

// reachable lists the functions that can run when the roots do.
func reachable(p *load.Program, roots ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var work []*ssa.Function
	add := func(f *ssa.Function) {
		if f != nil && !seen[f] {
			seen[f] = true
			work = append(work, f)
		}
	}
	types_ := map[types.Type]bool{}
	invoked := map[string]bool{}
	methods := func(t types.Type) {
		ms := p.SSA.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if s := ms.At(i); invoked[s.Obj().Name()] || s.Obj().Name() == "Error" || s.Obj().Name() == "String" {
				add(p.SSA.MethodValue(s))
			}
		}
	}
	for _, r := range roots {
		add(r)
	}
	for len(work) > 0 {
		fn := work[len(work)-1]
		work = work[:len(work)-1]
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					if n := c.Common().Method.Name(); !invoked[n] {
						invoked[n] = true
						for t := range types_ {
							methods(t)
						}
					}
				}
				if m, ok := in.(*ssa.MakeInterface); ok && !types_[m.X.Type()] {
					types_[m.X.Type()] = true
					methods(m.X.Type())
				}
				var ops [12]*ssa.Value
				for _, o := range in.Operands(ops[:0]) {
					if f, ok := (*o).(*ssa.Function); ok {
						add(f)
					}
				}
				if c, ok := in.(*ssa.MakeClosure); ok {
					add(c.Fn.(*ssa.Function))
				}
			}
		}
	}
	return seen
}

// ownFunc reports whether a function belongs to the repository.
func ownFunc(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Pkg != nil {
		return strings.HasPrefix(fn.Pkg.Pkg.Path(), load.Module)
	}
	if o := fn.Origin(); o != nil && o.Pkg != nil {
		return strings.HasPrefix(o.Pkg.Pkg.Path(), load.Module)
	}
	return false
}

// root finds the variable an address leads to without following a pointer
// stored in memory, and through maps and slices held in globals.
func globalRoot(v ssa.Value, depth int) *ssa.Global {
	if depth > 20 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Global:
		return x
	case *ssa.FieldAddr:
		return globalRoot(x.X, depth+1)
	case *ssa.IndexAddr:
		return globalRoot(x.X, depth+1)
	case *ssa.UnOp:
		return globalRoot(x.X, depth+1)
	case *ssa.Slice:
		return globalRoot(x.X, depth+1)
	case *ssa.Lookup:
		return globalRoot(x.X, depth+1)
	case *ssa.Field:
		return globalRoot(x.X, depth+1)
	case *ssa.Extract:
		return globalRoot(x.Tuple, depth+1)
	case *ssa.ChangeType:
		return globalRoot(x.X, depth+1)
	case *ssa.TypeAssert:
		return globalRoot(x.X, depth+1)
	case *ssa.MakeInterface:
		return globalRoot(x.X, depth+1)
	case *ssa.Phi:
		for _, e := range x.Edges {
			if g := globalRoot(e, depth+4); g != nil {
				return g
			}
		}
	}
	return nil
}

func purity(r *Report) {
	r.Rule("effects", "a reachable call does not depend on the run", 200)
	r.Rule("globals", "a reachable store is not to a package-level variable", 100)
	r.Rule("maps", "a reachable iteration over a map is interpreted in both orders", 1)
	r.Rule("order", "the files of a build do not depend on the order of maps", 15)
	r.Rule("seed", "a draw of a build comes from a source made with the configured seed", 30)
	pk := r.P.Pkgs[load.Module+"/gen"]
	root := pk.SSA.Func("Package")
	if root == nil {
		r.Bad("undecided", "gen.Package", 0, "gen.Package not found")
		return
	}
	var ranges []ssa.Instruction
	fns := 0
	reach := reachable(r.P, root)
	building := map[*ssa.Function]bool{}
	for fn := range reach {
		building[fn] = true
	}
	for _, n := range []string{"Files", "File", "Reader", "String"} {
		if pp := r.P.Pkgs[load.Module+"/parse"]; pp != nil && pp.SSA.Func(n) != nil {
			for fn := range reachable(r.P, pp.SSA.Func(n)) {
				reach[fn] = true
			}
		}
	}
	var list []*ssa.Function
	for fn := range reach {
		if ownFunc(fn) && fn.Blocks != nil {
			list = append(list, fn)
		}
	}
	sort.Slice(list, func(i, j int) bool { return list[i].String() < list[j].String() })
	for _, fn := range list {
		fns++
		where := short(fn.String())
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Go:
					r.Bad("effects", where+" goroutine", in.Pos(), "a goroutine is started")
				case *ssa.Select:
					r.Bad("effects", where+" select", in.Pos(), "a select statement")
				case *ssa.Range:
					if _, ok := in.X.Type().Underlying().(*types.Map); ok && building[fn] {
						ranges = append(ranges, in)
					}
				case *ssa.Store:
					r.Ok("globals")
					if g := globalRoot(in.Addr, 0); g != nil {
						r.Bad("globals", where+" writes "+g.Name(), in.Pos(), "%s writes to package-level variable %s", fn.Name(), g.Name())
					}
				case *ssa.MapUpdate:
					r.Ok("globals")
					if g := globalRoot(in.Map, 0); g != nil {
						r.Bad("globals", where+" writes "+g.Name(), in.Pos(), "%s writes to package-level variable %s", fn.Name(), g.Name())
					}
				}
				for _, o := range in.Operands(nil) {
					f, ok := (*o).(*ssa.Function)
					if !ok {
						continue
					}
					obj, ok := f.Object().(*types.Func)
					if !ok {
						continue
					}
					r.Ok("effects")
					if n := impure(obj); n != "" && !(readsSource[n] && !building[fn]) {
						r.Bad("effects", where+" uses "+n, in.Pos(), "%s uses %s", fn.Name(), n)
					}
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					if c.Common().IsInvoke() {
						if n := impure(c.Common().Method); n != "" {
							r.Bad("effects", where+" uses "+n, in.Pos(), "%s uses %s", fn.Name(), n)
						}
					}
					for _, a := range c.Common().Args {
						k, ok := a.(*ssa.Const)
						if ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
							r.Bad("effects", where+" %p", in.Pos(), "an address is formatted")
						}
					}
				}
			}
		}
	}
	r.Extra["reachable_functions"] = fns
	fams := append(append([][]string(nil), buildFamilies...), orderFamilies...)
	reached := make([]map[string]bool, len(fams))
	idx := map[string]int{}
	for i, f := range fams {
		idx[strings.Join(f, " || ")] = i
	}
	overShapes(r, fams, func(q *Report, p *load.Program, texts []string) {
		var got [2][]string
		sites := map[string]bool{}
		var name string
		for k, order := range []string{"", "reverse"} {
			b := newBuildRun(q, p, texts)
			b.fewDraws()
			name = b.name
			for _, o := range b.build(map[string]any{"maporder": order}) {
				if o.Kind != "return" {
					q.Bad("undecided", b.name, o.Pos, "gen.Package: %s %s", o.Kind, o.Msg)
					continue
				}
				got[k] = append(got[k], traceText(b.vecRun, o.St))
				b.judgeSeed(q, o.St)
			}
			for in := range b.e.Ranges {
				sites[siteKey(p, in)] = true
			}
			q.Absorb(b.e)
		}
		reached[idx[name]] = sites
		q.Ok("order")
		if a, b := setOf(got[0]), setOf(got[1]); a != b {
			q.Bad("order", name, root.Pos(), "the files written depend on the order of maps: %s", firstDiff(a, b))
		}
	})
	all := map[string]bool{}
	for _, s := range reached {
		for k := range s {
			all[k] = true
		}
	}
	for _, in := range ranges {
		r.Ok("maps")
		if !all[siteKey(r.P, in)] {
			r.Bad("maps", short(in.Parent().String()), in.Pos(), "an iteration over a map is not reached by any analysed build")
		}
	}
}

// orderFamilies make the maps of a build hold several entries.
var orderFamilies = [][]string{
	{"context c { u8 n; u8 t; u16 m; } context e { u8 p; u16 q; } struct a with context c, e { u8 x[c.n]; union u[c.t] { 1: u8 y; 2: u16 z; }; u8 w[e.p]; union v[e.q] { 3: u8 k; default: ; }; u8 l[c.m]; }"},
	{"context c { u8 n; u8 t; } context e { u8 p; } struct d with context c, e { u8 x[c.n]; union u[c.t] { 1: u8 y; 2: u16 z; }; u8 w[e.p]; } struct a with context c, e { struct d f; struct d g; }"},
	{"const A = 1; const B = 2; const C = 3; struct a { u8 x IN [A, B, C]; u16 y[A]; u32 z[B]; } struct b { u8 k; struct a l; } struct g { struct b m; u8 n; u8 o[n]; u8 p; u8 q[p]; }"},
	{"struct a { u8 l; u8 m; u8 n; u8 x[l]; u8 y[m]; u8 z[n]; }"},
	{"struct a { u8 t; u8 s; u8 n; union u[t] { 1: u8 x; 2: u8 y[n]; default: ; }; union v[s] { 4..5: u8 w; 9: u16 z; }; }"},
}

// traceText writes out what a build does to the file system.
func traceText(v *vecRun, st *ai.State) string {
	var b strings.Builder
	f := effectsOf(st)
	for _, w := range f.writes {
		fmt.Fprintf(&b, "%s:", w.path)
		for _, d := range w.data {
			switch x := d.(type) {
			case ai.Text:
				b.WriteString(st.Resolve(x.S).String())
			case ai.Str:
				b.WriteString(st.Resolve(x).String())
			default:
				b.WriteString(st.Show(d))
			}
		}
		b.WriteString("\n")
	}
	return b.String()
}

func setOf(l []string) string {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return strings.Join(sortedKeys(m), "\x00\n")
}

func firstDiff(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	cut := func(s string) string {
		lo, hi := max(0, i-40), min(len(s), i+60)
		if lo > len(s) {
			return ""
		}
		return s[lo:hi]
	}
	return fmt.Sprintf("%q or %q", cut(a), cut(b))
}

// judgeSeed decides where the draws of a trace come from.
func (b *buildRun) judgeSeed(q *Report, st *ai.State) {
	for _, ev := range st.EventList() {
		switch ev.Kind {
		case "globalrand":
			q.Bad("seed", b.name, ev.Pos, "a draw from the global random state")
		case "draw":
			q.Ok("seed")
			ok := false
			src := ev.Args[0]
			for {
				if i, isI := src.(ai.Iface); isI {
					src = i.V
					continue
				}
				break
			}
			if p, isP := src.(ai.Ptr); isP {
				if s, isS := st.Load(p).(*ai.StructV); isS && len(s.F) > 0 {
					if id, isI := s.F[0].(ai.Int); isI && s.F[1] == false {
						ok = st.Store.EntailsEQ(id.L.Sub(b.seed))
					}
				}
			}
			if !ok {
				q.Bad("seed", b.name, ev.Pos, "a draw from a source that is not made with the configured seed")
			}
		}
	}
}
