package checks

import (
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/tool/ai"
	"verif/tool/load"
	"verif/tool/schema"
)

func init() {
	All["C15"] = Check{everyConstruct, "Code generation and vector generation are interpreted abstractly on schema shapes that put every kind of declaration, member, type, length and integer into every position the grammar admits; neither may report an error, except vector generation for leftover lengths, structs that contain themselves and structs defined nowhere. The node types the parser constructs are collected from its type-checked source and must all occur among the shapes."}
	All["C27"] = Check{noCrash, "Code generation and vector generation are interpreted abstractly on well-formed and ill-formed schema shapes with an arbitrary random source; no class of outcomes may panic, and none may run on without end other than by redrawing."}
}

// handledFamilies puts every kind of construct into every position.
func handledFamilies(full bool) [][]string {
	var out [][]string
	one := func(t string) { out = append(out, []string{t}) }
	bases := []string{"u8", "u16", "u32", "u64", "char", "struct d"}
	lens := []string{"2", "K", "n", "c.n", "", "..-2", "..-K"}
	const decl = "const K = 2; context c { u8 n; u8 t; u64 m; } struct d { u8 q; } "
	for _, b := range bases {
		for _, l := range lens {
			tail := ""
			if strings.HasPrefix(l, "..-") {
				tail = " u16 z;"
			}
			one(decl + "struct a with context c { u8 n; " + b + " f[" + l + "];" + tail + " }")
			one(decl + "struct a with context c { u8 n; u8 t; union u[t] { 1: " + b + " f[" + l + "];" + tail + " default: ; }; }")
		}
	}
	fields := []string{"u8 f;", "u16 f;", "u32 f;", "u64 f;", "u8 f IN [1, K, 4..6, 7..9, 10..0x10];", "u16 f IN [K];", "u32 f IN [3];", "u64 f IN [3..4];", "char f;", "nulterm f;", "struct d f;", "struct g { u8 x; struct d y; } f;", "struct g with context c { u8 x[c.n]; } f;"}
	for _, f := range fields {
		one(decl + "struct a with context c { " + f + " }")
		one(decl + "struct a with context c { u8 t; union u[t] { K: " + f + " 3: u8 w; }; }")
		one(decl + "struct a with context c { u8 t; union u[c.t] { 1..K: " + f + " default: u8 w; }; }")
	}
	one(decl + "struct a { @ptr p; u8 x; }")
	one(decl + "struct a { eos; }")
	for _, e := range []string{"eos;", "u8 r[];", "struct d r[];"} {
		one(decl + "struct a { u8 x; " + e + " }")
	}
	one("trunnel options very_strict, other; struct a { u8 x; }")
	one("extern struct e; struct a { u8 x; struct e y; }")
	one("context c { u8 t; } extern struct e with context c; struct a with context c { struct e y[2]; }")
	one("struct r { u8 n; struct r x[n]; } struct a { struct r y; }")
	for _, l := range []string{"n", "c.n", "..-1", "..-K", "..-0"} {
		for _, tag := range []string{"t", "c.t"} {
			for _, m := range []string{"u8 x;", "fail;", "ignore;", "...;", ";", "u8 x; ...;", "u8 x; u8 y[];", "u8 x; nulterm s; struct d v;"} {
				one(decl + "struct a with context c { u8 n; u8 t; union u[" + tag + "] with length " + l + " { 1: u8 w; K..9, 12: " + m + " default: " + m + " }; u8 k; u8 h; }")
			}
		}
	}
	for _, tag := range []string{"t", "c.t", "c.m"} {
		for _, m := range []string{"u8 x;", "fail;", "ignore;", "...;", ";", "u8 x; ...;", "u8 x; u8 y[];"} {
			one(decl + "struct a with context c { u8 t; union u[" + tag + "] { 1: u8 w; K..9, 12: " + m + " default: " + m + " }; }")
		}
	}
	for _, w := range []string{"u8", "u16", "u32", "u64"} {
		one("struct a { " + w + " t; union u[t] { 1: u8 x; default: u8 y; }; }")
		one("struct a { " + w + " n; u8 x[n]; }")
		one("context c { " + w + " t; } struct a with context c { union u[c.t] { 1: u8 x; default: u8 y; }; u16 z[c.t]; }")
	}
	out = append(out, vectorFamilies(full)...)
	for _, f := range Families(full) {
		out = append(out, f.text)
	}
	seen := map[string]bool{}
	var uniq [][]string
	for _, f := range out {
		k := strings.Join(f, " || ")
		if !seen[k] {
			seen[k] = true
			uniq = append(uniq, f)
		}
	}
	return uniq
}

// brokenFamilies are schemas that parse but make no sense, or only just.
var brokenFamilies = [][]string{
	{"struct a { u8 x IN [5..3]; }"},
	{"const K = 9; const L = 2; struct a { u8 x IN [K..L]; }"},
	{"struct a { u8 x IN [K]; }"},
	{"struct a { u8 x IN [1..K]; u8 y; }"},
	{"struct a { u8 x IN [K..9]; u8 y; }"},
	{"struct a { u8 x[K]; }"},
	{"struct a { u8 x[..-K]; u8 y; }"},
	{"struct a { struct b x; }"},
	{"struct a { struct b x[2]; }"},
	{"struct a { u8 n; struct b x[n]; }"},
	{"struct a { struct b x[]; }"},
	{"struct a { u8 t; union u[t] { 1: struct b x; }; }"},
	{"struct a { u8 x[n]; }"},
	{"struct a { u8 x[c.n]; }"},
	{"context c { u8 t; } struct a { u8 x[c.n]; }"},
	{"context c { u8 t; } struct a with context c { u8 x[c.n]; }"},
	{"context c { u8 t; } struct a { u8 x[c.t]; }"},
	{"struct a with context c { u8 x; }"},
	{"struct a with context c { u8 x[c.n]; }"},
	{"struct a { union u[t] { 1: u8 x; }; }"},
	{"struct a { union u[c.t] { 1: u8 x; }; }"},
	{"context c { u8 n; } struct a with context c { union u[c.t] { 1: u8 x; default: u8 y; }; }"},
	{"struct d { u8 x; } struct a { struct d t; union u[t] { 1: u8 x; }; }"},
	{"struct a { u8 t[2]; union u[t] { 1: u8 x; }; }"},
	{"struct a { nulterm t; union u[t] { 1: u8 x; default: ; }; }"},
	{"struct a { char t; union u[t] { 1: u8 x; default: ; }; }"},
	{"struct a { @ptr t; union u[t] { 1: u8 x; default: ; }; }"},
	{"struct a { nulterm n; u8 x[n]; }"},
	{"struct d { u8 x; } struct a { struct d n; u8 x[n]; }"},
	{"struct a { u8 n[2]; u8 x[n]; }"},
	{"struct a { char n; u8 x[n]; }"},
	{"struct a { u8 x[n]; u8 n; }"},
	{"struct a { union u[t] { 1: u8 x; default: ; }; u8 t; }"},
	{"struct a { u8 t; union u[t] with length n { 1: u8 x; default: ; }; u8 n; }"},
	{"struct a { u8 t; union u[t] with length n { 1: u8 x; default: ; }; }"},
	{"struct a { u8 t; nulterm n; union u[t] with length n { 1: u8 x; default: ; }; }"},
	{"struct a { u8 t; union u[t] with length c.n { 1: u8 x; default: ; }; }"},
	{"struct a { u8 t; union u[t] with length t { 1: u8 x; 2: u16 y; }; }"},
	{"struct a { u8 t; union u[t] { 0..255: u8 x; default: u8 y; }; }"},
	{"struct a { u8 t; union u[t] { 0..300: u8 x; default: u8 y; }; }"},
	{"struct a { u8 t; union u[t] { 256: u8 x; }; }"},
	{"struct a { u8 t; union u[t] { 256..300: u8 x; default: fail; }; }"},
	{"struct a { u8 t; union u[t] { 9..3: u8 x; default: fail; }; }"},
	{"struct a { u8 t; union u[t] { K: u8 x; default: fail; }; }"},
	{"struct a { u8 t; union u[t] { 1: u8 x; 1: u16 y; 1..4: u32 z; }; }"},
	{"struct a { u8 t; union u[t] { 1..9: u8 x; 2..4: u16 y; 0..255: u8 w; default: u32 z; }; }"},
	{"struct a { u8 t; union u[t] { default: u8 x; default: u16 y; }; }"},
	{"struct a { u8 t; union u[t] { 1: fail; default: fail; }; }"},
	{"struct a { u64 t; union u[t] { 0..0x7fffffffffffffff: u8 x; default: u16 y; }; }"},
	{"struct a { u64 x IN [0..0x7fffffffffffffff]; }"},
	{"struct a { u8 x IN [0..300]; }"},
	{"struct a { u8 x IN [300]; u8 y[x]; }"},
	{"struct a { u8 x IN [1..4, 2..3, 4..9]; }"},
	{"struct a { struct a x; }"},
	{"struct a { struct a x[2]; }"},
	{"struct a { struct a x[]; }"},
	{"struct a { u8 t; union u[t] { 1: struct a x; default: ; }; }"},
	{"struct a { struct b x; } struct b { struct a y; }"},
	{"struct a { struct b x; } struct b { struct c y; } struct c { u8 n; struct a z[n]; }"},
	{"struct a { struct b { struct a y; } x; }"},
	{"struct a { u8 x; } struct a { u16 y; }"},
	{"struct a { u8 x; }", "struct a { u16 y; }"},
	{"extern struct a; struct a { u16 y; } extern struct a;"},
	{"extern struct a; extern struct a; struct b { struct a x; }"},
	{"const K = 1; const K = 2; struct a { u8 x[K]; }"},
	{"const K = 1;", "const K = 1; struct a { u8 x[K]; }"},
	{"context c { u8 t; } context c { u8 n; } struct a with context c { u8 x[c.n]; }"},
	{"context c { u8 t; u16 t; } struct a with context c { union u[c.t] { 300: u8 x; }; }"},
	{"context a { u8 t; } struct a with context a { u8 x[a.t]; }"},
	{"struct a { u8 x; u16 x; }"},
	{"struct a { u8 n; u16 n; u8 x[n]; }"},
	{"struct a { u8 t; u16 t; union t[t] { 300: u8 t; default: u8 t; }; }"},
	{"context c { u8 t; } struct a with context c, c { u8 x[c.t]; }"},
	{"context c { u8 n; } struct d with context c { u8 x[c.n]; } struct a { struct d y; }"},
	{"context c { u8 n; } extern struct e with context c; struct a { struct e y; struct e z[2]; }"},
	{"struct a { u8 n; u8 n2[n]; u8 x[n2]; }"},
	{"struct d { } struct a { struct d x[]; struct d y[3]; u8 n; struct d z[n]; }"},
	{"struct d { } struct a { u8 t; union u[t] with length t { 1: struct d x; default: ; }; }"},
	{"struct a { u8 x[0]; u8 y[]; }"},
	{"struct a { u8 x[..-0]; u8 t; union u[t] with length ..-9 { 1: u8 y; default: ; }; }"},
	{"struct a { }", "struct b { }"},
	{"const K = 0x7fffffffffffffff; struct a { u64 t; union u[t] { K: u8 x; default: u8 y; }; u64 z IN [K]; }"},
	{"context c { u8 n; }"},
	{"const K = 1;"},
	{"extern struct e;"},
	{""},
	{"", "struct a { u8 x; }", ""},
	{"struct a { u8 t; union u[t] { 1: u8 x[t]; 2: u16 t2; }; u8 y[t]; }"},
	{"struct a { u8 n; u8 t; union u[t] with length n { 1: u8 x[n]; 2: u8 y[]; default: ; }; u8 z[n]; }"},
	{"struct a { u8 n; u8 t; union u[t] with length n { 1: fail; }; }"},
	{"struct a { u8 n; union u[n] with length n { 0: ; 1: u8 x; 7: u16 y; }; u8 z[n]; }"},
	{"context c { u8 n; } struct b with context c { u8 p[c.n]; union u[c.n] with length c.n { 2: u16 x; 3: u8 y; }; } struct a with context c { struct b x[2]; struct b y; }"},
	{"context c { u8 t; } struct b with context c { union u[c.t] { 1: u8 x; }; } struct d with context c { union u[c.t] { 2: u8 x; }; } struct a with context c { struct b x; struct d y; }"},
	{"context c { u8 t; } struct b with context c { union u[c.t] { 1: u8 x; 2: u8 w; 3: u8 v; }; } struct a with context c { struct b x[2]; u8 n; struct b y[n]; }"},
}

// allow reports which failures of vector generation a schema may cause: parts
// that are not implemented, and mistakes (structs defined nowhere, a value
// listed twice in one list).
func allow(spec *schema.Spec, files []*schema.File) (leftover, extern bool) {
	ranges := func(l []schema.Range) {
		end := func(r schema.Range) *big.Int {
			if r.Hi != nil {
				return spec.Int(*r.Hi)
			}
			return spec.Int(r.Lo)
		}
		for i := range l {
			for j := range l[:i] {
				if spec.Int(l[i].Lo).Cmp(end(l[j])) <= 0 && spec.Int(l[j].Lo).Cmp(end(l[i])) <= 0 {
					extern = true
				}
			}
		}
	}
	def := map[string]*schema.Struct{}
	for _, f := range files {
		for _, s := range f.Structs {
			if def[s.Name] == nil || def[s.Name].Extern {
				def[s.Name] = s
			}
		}
	}
	var walk func(s *schema.Struct, stack map[string]bool)
	walk = func(s *schema.Struct, stack map[string]bool) {
		if stack[s.Name] {
			leftover = true // a struct that contains itself
			return
		}
		stack[s.Name] = true
		defer delete(stack, s.Name)
		visit := func(t schema.Type) {
			switch x := t.(type) {
			case *schema.Int:
				ranges(x.In)
			case *schema.Fixed:
				t = x.Base
			case *schema.Var:
				if _, ok := x.Len.(*schema.Leftover); ok {
					leftover = true
				}
				t = x.Base
			}
			if r, ok := t.(*schema.StructRef); ok {
				d := def[r.Name]
				if d == nil || d.Extern {
					extern = true
				} else {
					walk(d, stack)
				}
			}
		}
		var members func(ms []schema.Member)
		members = func(ms []schema.Member) {
			for _, m := range ms {
				switch m := m.(type) {
				case *schema.Field:
					visit(m.Type)
				case *schema.Union:
					if _, ok := m.Len.(*schema.Leftover); ok {
						leftover = true
					}
					for _, c := range m.Cases {
						ranges(c.List)
						members(c.Members)
					}
				}
			}
		}
		members(s.Members)
	}
	for _, n := range sortedKeys(def) {
		if !def[n].Extern {
			walk(def[n], map[string]bool{})
		}
	}
	return
}

// notImplemented reads the value of fault.ErrNotImplemented.
func notImplemented(p *load.Program, st *ai.State) ai.Val {
	pk := p.Pkgs[load.Module+"/fault"]
	if pk == nil {
		return nil
	}
	g, ok := pk.SSA.Members["ErrNotImplemented"].(*ssa.Global)
	if !ok {
		return nil
	}
	return st.Load(st.Global(g))
}

// sameError reports whether two error values are the same object.
func sameError(a, b ai.Val) bool {
	x, ok := a.(ai.Iface)
	y, ok2 := b.(ai.Iface)
	if !ok || !ok2 || !types.Identical(x.T, y.T) {
		return false
	}
	p, ok := x.V.(ai.Ptr)
	q, ok2 := y.V.(ai.Ptr)
	return ok && ok2 && p.Obj == q.Obj && len(p.Path) == 0 && len(q.Path) == 0
}

func everyConstruct(r *Report) {
	r.Rule("generate", "code generation accepts the shape", 300)
	r.Rule("vectors", "vector generation accepts the shape, or reports what it does not implement", 300)
	r.Rule("present", "vector generation yields vectors for the shape", 150)
	r.Rule("nodes", "every node type the parser constructs occurs among the shapes", 10)
	fams := handledFamilies(r.Tier == "thorough")
	used := map[string]bool{}
	builtKinds := make([]map[string]bool, len(fams))
	idx := map[string]int{}
	for n, f := range fams {
		idx[strings.Join(f, " || ")] = n
	}
	overShapes(r, fams, func(q *Report, p *load.Program, texts []string) {
		v := newVecRun(q, p, texts)
		defer func() { q.Absorb(v.e) }()
		kinds := map[string]bool{}
		builtKinds[idx[v.name]] = kinds
		v.kinds = kinds
		e := newEngine(p)
		q.Ok("generate")
		if _, _, _, ge := interpretMarshallers(p, e, v.files, plainNames); ge != nil {
			q.Bad("generate", v.name, ge.pos, "code generation: %s: %s", ge.kind, ge.msg)
		}
		q.Absorb(e)
		left, ext := allow(v.spec, v.files)
		v.run()
		for _, o := range v.outs {
			q.Ok("vectors")
			switch {
			case o.Kind != "return":
				q.Bad("vectors", v.name, o.Pos, "vector generation: %s %s when %s", o.Kind, o.Msg, facts(o.St))
			case !aiErr(o.Ret[1]):
				for _, s := range v.suites(o.St, o.Ret[0]) {
					if len(s.vectors) > 0 {
						if v.present == nil {
							v.present = map[string]bool{}
						}
						v.present["any"] = true
					}
				}
			case sameError(o.Ret[1], notImplemented(p, o.St)):
				if !left {
					q.Bad("vectors", v.name, v.fn("GenerateFiles").Pos(), "vector generation reports 'not implemented' for a schema without leftover lengths")
				}
			case ext:
			default:
				q.Bad("vectors", v.name, v.fn("GenerateFiles").Pos(), "vector generation fails with %s", o.St.Show(o.Ret[1]))
			}
		}
		if !left && !ext && nonEmpty(v.files) {
			q.Ok("present")
			if !v.present["any"] {
				q.Bad("present", v.name, v.fn("GenerateFiles").Pos(), "no outcome of vector generation has a vector")
			}
		}
	})
	for _, k := range builtKinds {
		for n := range k {
			used[n] = true
		}
	}
	for _, n := range parserNodes(r.P) {
		r.Ok("nodes")
		if !used[n.name] {
			r.Bad("nodes", n.name, n.pos, "the parser constructs ast.%s, which none of the shapes contains: whether it is handled is not decided", n.name)
		}
	}
}

func nonEmpty(fs []*schema.File) bool {
	for _, f := range fs {
		for _, s := range f.Structs {
			if !s.Extern {
				return true
			}
		}
	}
	return false
}

type parserNode struct {
	name string
	pos  token.Pos
}

// parserNodes lists the types of package ast whose values the parser makes.
func parserNodes(p *load.Program) []parserNode {
	seen := map[string]token.Pos{}
	astPkg := p.Pkgs[load.Module+"/ast"].Types
	note := func(t types.Type, pos token.Pos) {
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		n, ok := t.(*types.Named)
		if !ok || n.Obj().Pkg() != astPkg {
			return
		}
		if _, ok := n.Underlying().(*types.Interface); ok {
			return
		}
		if _, ok := seen[n.Obj().Name()]; !ok {
			seen[n.Obj().Name()] = pos
		}
	}
	for _, fn := range packageFuncs(p, p.Pkgs[load.Module+"/parse/internal/parser"]) {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Alloc:
					note(in.Type(), in.Pos())
				case *ssa.MakeInterface:
					note(in.X.Type(), in.Pos())
				}
			}
		}
	}
	var out []parserNode
	for n, pos := range seen {
		out = append(out, parserNode{n, pos})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

func noCrash(r *Report) {
	r.Rule("generate", "code generation ends with text or an error", 300)
	r.Rule("vectors", "vector generation ends with vectors or an error", 500)
	fams := append(append([][]string(nil), brokenFamilies...), handledFamilies(r.Tier == "thorough")...)
	overShapes(r, fams, func(q *Report, p *load.Program, texts []string) {
		v := newVecRun(q, p, texts)
		defer func() { q.Absorb(v.e) }()
		e := newEngine(p)
		q.Ok("generate")
		if _, _, _, ge := interpretMarshallers(p, e, v.files, plainNames); ge != nil && ge.kind != "error" {
			q.Bad("generate", v.name, ge.pos, "code generation: %s: %s", ge.kind, ge.msg)
		}
		q.Absorb(e)
		v.run()
		for _, o := range v.outs {
			q.Ok("vectors")
			if o.Kind != "return" {
				q.Bad("vectors", v.name, o.Pos, "vector generation: %s %s when %s", o.Kind, o.Msg, facts(o.St))
			}
		}
		if len(v.outs) == 0 {
			q.Bad("vectors", v.name, v.fn("GenerateFiles").Pos(), "vector generation has no outcome")
		}
	})
}
