package checks

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/tool/ai"
	"verif/tool/load"
)

func init() {
	All["C21"] = Check{unshared, "Vector generation is interpreted abstractly on schema shapes with an arbitrary random source over a heap that tracks storage identity and spare capacity: every list of vectors any function of package tv returns, and the final corpus, must consist of vectors with separate arrays and maps, and no append may write into bytes visible through another slice. Clones and merges of constraint sets with arbitrary contents are changed on either side and the other side is looked up."}
	All["C20"] = Check{validVectors, "Vector generation is interpreted abstractly on schema shapes with an arbitrary random source (sampling of interval sets replaced by its contract); every vector of every class of outcomes, with symbolic bytes, is decoded by the reference meaning of the schema under the vector's own context values."}
}

// vectorFamilies are the schema shapes for vector generation.
func vectorFamilies(full bool) [][]string {
	var out [][]string
	one := func(t ...string) { out = append(out, t) }
	// scalars, strings, constrained integers
	one("struct a { u8 x; u16 y; u32 z; u64 w; }")
	one("struct a { char c; nulterm s; @ptr t; u16 v; }")
	one("struct a { u8 x IN [1..5, 9]; u16 y IN [258..4660]; u32 z IN [0..4294967295]; u64 w IN [7, 100..9223372036854775807]; }")
	one("const K = 3; const L = 9; struct a { u8 x IN [K, L..200]; u16 y IN [0..K]; }")
	one("struct a { }")
	one("struct a { u8 x; eos; }")
	// nested structs
	one("struct b { u8 p; u16 q; } struct a { u8 x; struct b y; u8 z; }")
	one("struct c { u8 r IN [4..6]; } struct b { struct c p; nulterm q; } struct a { struct b y; struct b z; }")
	// arrays
	one("struct a { u8 x[2]; u16 y[3]; u32 z[1]; u64 w[1]; char c[4]; }")
	one("const N = 2; struct b { u8 p; u16 q IN [1..3]; } struct a { struct b x[N]; u8 t; }")
	one("struct a { u8 n; u8 x[n]; }")
	one("struct a { u16 n; u16 x[n]; u8 y; }")
	one("struct a { u32 n IN [0..20]; char x[n]; u64 m; u64 y[m]; }")
	one("struct a { u8 n; u8 x[n]; u16 y[n]; }")
	one("struct b { u8 p; nulterm q; } struct a { u8 n; struct b x[n]; }")
	one("struct a { u8 h; u8 x[]; }")
	one("struct a { u8 h; u32 x[]; }")
	one("struct b { u16 p; } struct a { struct b x[]; }")
	one("struct a { u8 n; u8 m; u8 x[n]; u8 y[m]; u8 z; }")
	// lengths that do not fit their constraint
	one("struct a { u8 n IN [1]; u8 x[n]; }")
	one("struct a { u8 n IN [20..40]; u8 x[n]; }")
	// unions
	one("struct a { u8 t; union u[t] { 1: u8 x; 2: u16 y; default: u32 z; }; }")
	one("struct a { u8 t; u8 s; union u[t] { 1..4: u8 x; 9, 12: u16 y; }; u8 e; }")
	one("struct a { u16 t IN [1..2]; union u[t] { 1: u8 x; 2: nulterm y; 3: fail; }; }")
	one("struct a { u8 t; union u[t] { 0: ; 1: fail; default: u8 x; }; u8 e; }")
	one("struct a { u8 t; union u[t] { 0: ignore; 1: u8 x; default: ...; }; }")
	one("struct a { u32 t; union u[t] { 0..4294967295: u8 x; }; }")
	one("struct a { u64 t; union u[t] { 5..100: u8 x; 1: u8 y[2]; }; }")
	one("struct a { u8 t; union u[t] { 1: u8 n; u8 x[n]; 2: u8 y[]; }; }")
	one("struct a { u8 t; union u[t] { 1: u8 x IN [1..3]; 2: u8 w; u16 y IN [9]; }; u8 z IN [7..8]; }")
	one("const A = 1; const B = 2; struct a { u8 t; union u[t] { A: u8 x; B: u16 y; }; }")
	one("struct a { u8 t; u8 s; union u[t] { 1: u8 x; 2: ; }; union v[s] { 1: u8 y; 3: u16 z; }; }")
	one("struct a { u8 t; union u[t] { 1: u8 x; 2..3: u16 y; }; union v[t] { 1: u8 z; 3: u16 w; }; }")
	// unions with a length
	one("struct a { u8 t; u8 n; union u[t] with length n { 1: u8 x; 2: u16 y; default: ignore; }; u8 e; }")
	one("struct a { u8 t; u16 n; union u[t] with length n { 1: u8 x; ...; 2: u8 y[]; 3: ; }; u16 e; }")
	one("struct a { u8 t; u8 n IN [1]; union u[t] with length n { 1: u8 x; 2: u16 y; }; u8 e; }")
	one("struct a { u8 n; u8 t; union u[t] with length n { 1: nulterm x; 2: u8 z; default: fail; }; u8 y[n]; }")
	// contexts
	one("context c { u8 n; u16 m; } struct a with context c { u8 x[c.n]; u16 y[c.m]; }")
	one("context c { u8 t; } struct a with context c { union u[c.t] { 1: u8 x; 2..5: u16 y; default: ignore; }; }")
	one("context c { u8 t; u8 n; } struct a with context c { union u[c.t] with length c.n { 1: u8 x; default: ...; }; u8 e; }")
	one("context c { u8 n; } struct b with context c { u8 p[c.n]; } struct a with context c { struct b x; u8 y[c.n]; }")
	one("context c { u8 n; } struct b with context c { u8 p[c.n]; } struct a with context c { u8 y[c.n]; struct b x; u8 z; }")
	one("context c { u8 n; } context d { u8 n; } struct a with context c, d { u8 x[c.n]; u8 y[d.n]; }")
	one("context c { u8 t; } struct b with context c { union u[c.t] { 1: u8 x; 2: u16 y; }; } struct a with context c { struct b p; struct b q; union v[c.t] { 1: u8 z; 3: u16 w; }; }")
	// values that do not fit
	one("struct a { u8 t; u8 n; union u[t] with length n { 1: u64 x[32]; 2: u64 y[31]; u8 z[7]; 3: u8 w; }; }")
	one("struct a { u8 t; union u[t] { 300: u8 x; 255: u16 y; 256..400: u8 z; }; }")
	one("struct a { u16 t; union u[t] { 65535: u8 x; 65536: u16 y; 70000..70001: u8 z; }; }")
	one("struct a { u8 t IN [3..6]; union u[t] { 1..3: u8 x; 4: u16 y; 5..9: u32 z; 10: u64 w; }; }")
	one("struct a { u8 x[300]; u8 y; }")
	// a union before a struct that has a field of the same name
	one("struct b { u8 t; } struct a { u16 t; union u[t] { 1: u8 x; 300: u16 y; }; struct b z; }")
	one("struct b { u8 t; union u[t] { 1: u8 p; 7: u16 q; }; } struct a { u8 s; u16 t; union u[s] { 1: u8 x; 2: u16 y; }; union v[t] { 1: u8 r; 300: u16 w; }; struct b z; }")
	one("struct b { u8 n; u8 p[n]; } struct a { u8 n; u16 y[n]; struct b z; struct b w; }")
	// arrays of structs with unions and arrays
	one("struct b { u8 t; union u[t] { 1: u8 p; 2: u16 q; }; } struct a { struct b x[2]; u8 y; }")
	one("struct b { u8 n; u8 p[n]; } struct a { u8 m; struct b x[m]; u8 y; }")
	one("struct c { u8 n; u8 p[n]; } struct b { struct c x; u8 t; union u[t] { 1: u8 p; default: u16 q; }; } struct a { struct b x[2]; struct c z; }")
	one("struct a { u8 t; union u[t] { 1: u8 n; u16 x[n]; u8 m; u8 y[m]; 2: nulterm s; u8 k; char z[k]; }; u8 e; }")
	one("struct a { u8 n; u8 t; union u[t] { 1: u8 x[n]; 2: u16 y; }; u8 z[n]; }")
	// several files
	one("struct b { u8 p; u16 q; }", "struct a { struct b x; }")
	for _, f := range Families(full) {
		t := strings.Join(f.text, " ")
		if strings.Contains(t, "extern") || strings.Contains(t, "..-") {
			continue
		}
		out = append(out, f.text)
	}
	return out
}

// overShapes runs a job for every schema shape.
func overShapes(r *Report, fams [][]string, job func(q *Report, p *load.Program, texts []string)) {
	rs := make([]*Report, len(fams))
	parallel(r.P, len(fams), func(p *load.Program, n int) {
		q := NewReport(r.Prop, r.Tier, p)
		rs[n] = q
		try(q, strings.Join(fams[n], " || "), func() { job(q, p, fams[n]) })
	})
	for n, q := range rs {
		r.merge(q)
		r.Sample("%s", fams[n][0])
	}
	r.Extra["schema_shapes"] += len(fams)
}

func validVectors(r *Report) {
	r.Rule("valid", "a vector is accepted and used up by the reference decoder of its struct", 2000)
	r.Rule("context", "context values of vectors belong to context fields and fit them", 500)
	r.Rule("present", "every struct of a shape gets vectors", 200)
	overShapes(r, vectorFamilies(r.Tier == "thorough"), func(q *Report, p *load.Program, texts []string) {
		v := newVecRun(q, p, texts)
		defer func() { q.Absorb(v.e) }()
		v.run()
		for _, o := range v.outs {
			switch {
			case o.Kind != "return":
				q.Bad(o.Kind, v.name, o.Pos, "vector generation: %s %s when %s", o.Kind, o.Msg, facts(o.St))
			case aiErr(o.Ret[1]):
				q.Extra["errors"]++
			default:
				v.judge(o)
			}
		}
		q.Extra["vectors"] += v.vectors
		for _, n := range sortedKeys(v.present) {
			q.Ok("present")
			if !v.present[n] {
				q.Bad("present", v.name, v.fn("GenerateFiles").Pos(), "no outcome has a vector for struct %s", n)
			}
		}
	})
}

// unshared checks storage of vectors.
func unshared(r *Report) {
	r.Rule("vectors", "the vectors a function of package tv returns have separate data and separate constraints", 2000)
	r.Rule("corpus", "all vectors of a corpus have separate data and separate constraints", 500)
	r.Rule("append", "appending to one vector's data never reuses bytes another value can see", 500)
	storeRules(r)
	overShapes(r, vectorFamilies(r.Tier == "thorough"), func(q *Report, p *load.Program, texts []string) {
		v := newVecRun(q, p, texts)
		defer func() { q.Absorb(v.e) }()
		v.setup = func(st *ai.State) { st.Data["overwrites"] = true }
		vec := v.typ("Vector")
		v.e.OnReturn = func(st *ai.State, fn *ssa.Function, x ai.Val) {
			if fn.Pkg != v.pkg.SSA || fn.Signature.Results().Len() == 0 {
				return
			}
			sl, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice)
			if !ok || !types.Identical(sl.Elem(), vec) {
				return
			}
			if t, ok := x.(ai.Tuple); ok {
				x = t[0]
			}
			if ai.IsNil(x) {
				return
			}
			el, ok := st.Elems(x)
			if !ok {
				q.Bad("vectors", v.name, fn.Pos(), "the vectors returned by %s are not known", fn.Name())
				return
			}
			v.separate("vectors", fn.Pos(), "returned by "+fn.Name(), st, el)
		}
		v.run()
		for _, o := range v.outs {
			if o.Kind != "return" {
				q.Bad(o.Kind, v.name, o.Pos, "vector generation: %s %s when %s", o.Kind, o.Msg, facts(o.St))
				continue
			}
			q.Ok("append")
			for _, ev := range o.St.EventList() {
				if ev.Kind == "overwrite" && len(ev.Args) > 0 {
					if n, ok := ev.Args[0].(ai.Int); ok && n.K == types.Uint8 {
						q.Bad("append", v.name, ev.Pos, "an append reuses the storage of bytes that are still visible through another slice")
					}
				}
			}
			if aiErr(o.Ret[1]) {
				continue
			}
			var all []ai.Val
			for _, s := range v.suiteVals(o.St, o.Ret[0]) {
				all = append(all, s...)
			}
			v.separate("corpus", v.fn("GenerateFiles").Pos(), "of the corpus", o.St, all)
		}
	})
}

// separate checks that no two vectors share storage.
func (v *vecRun) separate(rule string, pos token.Pos, what string, st *ai.State, el []ai.Val) {
	owner := map[string]int{}
	claim := func(n int, key, part string) {
		v.r.Ok(rule)
		if m, ok := owner[key]; ok && m != n {
			v.r.Bad(rule, v.name, pos, "vectors %d and %d %s share their %s", m, n, what, part)
			return
		}
		owner[key] = n
	}
	for n, x := range el {
		if d, ok := structField(x, v.typ("Vector"), "Data").(ai.Slice); ok && d.Len > 0 {
			claim(n, fmt.Sprint("data", d.Obj, d.Path), "data")
		}
		c := structField(x, v.typ("Vector"), "Constraints")
		if m, ok := c.(ai.MapRef); ok {
			claim(n, fmt.Sprint("map", m.Obj), "constraints")
			_, vs := st.MapEntries(m)
			for _, w := range vs {
				if m, ok := w.(ai.MapRef); ok {
					claim(n, fmt.Sprint("map", m.Obj), "constraints of one scope")
				}
			}
		}
	}
}
