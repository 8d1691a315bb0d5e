package checks

import (
	"fmt"
	"strings"
)

// family is one schema shape and the properties it bears on.
type family struct {
	text  []string // one schema per file
	props string
	odd   bool // also with names in the odd scheme
}

func (f family) name() string { return strings.Join(f.text, " || ") }

const (
	declD = "struct d { u8 q; u16 r; } "
	declE = "extern struct e; "
	declI = "struct d { u8 q IN [1..4]; } "
	declN = "struct d { nulterm q; } "
	declC = "context c { u8 t; u16 l; } "
)

// kind is a member in a pairwise combination; $ is replaced by an index.
type kind struct {
	name, decl, text, props string
}

var kinds = []kind{
	{"u8", "", "u8 x$;", "C02"},
	{"u16", "", "u16 x$;", "C02"},
	{"u32", "", "u32 x$;", "C02"},
	{"u64", "", "u64 x$;", "C02"},
	{"nul", "", "nulterm s$;", "C02"},
	{"ptr", "", "@ptr p$;", "C02"},
	{"in", "", "u8 x$ IN [1,3..5];", "C03"},
	{"ext", declE, "struct e v$;", "C02 C09"},
	{"def", declD, "struct d v$;", "C02"},
	{"fix", "", "u16 f$[2];", "C06"},
	{"fixs", declD, "struct d f$[2];", "C06"},
	{"cnt", "", "u8 n$; u8 y$[n$];", "C06"},
	{"cnts", declD, "u8 n$; struct d y$[n$];", "C06"},
	{"left", "", "u8 l$[..-1];", "C05 C06"},
	{"union", "", "u8 t$; union u$[t$] { 1: u8 a$; 2..4: u16 b$; default: ; };", "C04"},
	{"ulen", "", "u8 t$; u16 l$; union u$[t$] with length l$ { 1: u8 a$; 5: u8 b$[]; default: ; };", "C04 C05"},
}

var heavy = map[string]bool{"cnt": true, "cnts": true, "ulen": true}

var endings = []kind{
	{"eos", "", "eos;", "C05"},
	{"open", "", "u16 r$[];", "C06"},
	{"opens", declD, "struct d r$[];", "C06"},
}

func pairFamilies(full bool) []family {
	var out []family
	sub := func(k kind, i int) string { return strings.ReplaceAll(k.text, "$", fmt.Sprint(i)) }
	mk := func(a, b kind, tail string) {
		d := a.decl
		if b.decl != a.decl {
			if strings.Contains(a.decl, "struct d") && strings.Contains(b.decl, "struct d") {
				return
			}
			d += b.decl
		}
		props := a.props
		for _, p := range strings.Fields(b.props) {
			if !strings.Contains(props, p) {
				props += " " + p
			}
		}
		out = append(out, family{text: []string{d + "struct a { " + sub(a, 1) + " " + sub(b, 2) + tail + " }"}, props: props})
	}
	for i, a := range kinds {
		for j, b := range kinds {
			// quick: a sample of the pairs of members whose length varies
			// twice, all other pairs
			if !full && heavy[a.name] && heavy[b.name] && (i+3*j)%5 != 0 {
				continue
			}
			mk(a, b, " u8 z;")
		}
		for _, b := range endings {
			mk(a, b, "")
		}
	}
	return out
}

// Families are the schema shapes analysed for the generated parsers.
func Families(full bool) []family {
	var out []family
	add := func(props string, odd bool, texts ...string) { out = append(out, family{texts, props, odd}) }
	one := func(props, text string) { add(props, false, text) }

	// scalars
	add("C02", true, "struct a { u8 x; u16 y; u32 z; u64 w; }")
	one("C02", "struct a { u64 w; u32 z; u16 y; u8 x; }")
	one("C02", "struct a { }")
	one("C02", "struct a { u8 x; }")
	one("C02", "struct a { u64 x; u64 y; }")
	add("C02", true, "struct a { nulterm s; u16 x; nulterm t; }")
	one("C02", "struct a { @ptr p; u16 x; @ptr q; nulterm s; @ptr r; }")
	one("C02", declE+"struct a { u8 n; struct e x; @ptr p; u16 y; }")
	one("C02", declD+"struct a { struct d x; @ptr p; struct d y; }")
	one("C02", "struct f { @ptr p; u8 q; @ptr r; } struct a { u16 x; struct f y; @ptr z; }")
	one("C02 C06", "struct a { u16 x; char s[3]; u8 y; }")
	one("C02", "struct a { struct g { u8 x; u32 y; } h; u16 z; }")

	// IN lists
	one("C03", "struct a { u8 x IN [7]; }")
	one("C03", "struct a { u8 x IN [0]; u8 y; }")
	one("C03", "struct a { u8 x IN [0,255]; }")
	one("C03", "struct a { u8 x IN [0..255]; }")
	one("C03", "struct a { u8 x IN [1..1]; }")
	one("C03", "struct a { u8 x IN [3,1,2]; }")
	one("C03", "struct a { u8 x IN [1,3,5..9,12,200..255]; u8 y; }")
	one("C03", "struct a { u16 x IN [1..4,2..8]; }")
	one("C03", "struct a { u16 x IN [0..65535]; }")
	one("C03", "struct a { u16 x IN [256,4096..65535]; }")
	one("C03", "struct a { u32 x IN [0x10,0xfff0..0xffffffff]; }")
	one("C03", "struct a { u64 x IN [5,0x7fffffffffffffff]; }")
	one("C03", "struct a { u64 x IN [0..3,0x7ffffffffffffff0..0x7fffffffffffffff]; u8 z; }")
	add("C03", true, "const LO = 3; const HI = 0x20; struct a { u8 x IN [LO,9..HI,HI]; u16 y IN [LO..HI]; }")
	add("C03", false, "const LO = 3;", "const HI = 9; struct a { u8 x IN [LO..HI]; }")
	one("C03", "struct d { u16 q IN [2,4]; } struct a { struct d x; u8 y IN [1]; }")
	one("C03 C06", declI+"struct a { u8 n; struct d y[n]; u8 z IN [2]; }")
	one("C03", "struct a { u8 t; union u[t] { 1: u16 x IN [1..3]; default: u8 y IN [5]; }; }")
	one("C03", "struct a { u8 t; u8 l; union u[t] with length l { 1: u16 x IN [1..3]; default: ; }; }")
	one("C03", "struct a { u8 x IN [0x01,010,10]; }")

	// unions
	one("C04", "struct a { u8 t; union u[t] { 1: u8 x; }; u8 z; }")
	one("C04", "struct a { u8 t; union u[t] { default: u8 x; }; u8 z; }")
	one("C04", "struct a { u8 t; union u[t] { 0: u8 x; 255: u16 y; }; }")
	add("C04", true, "struct a { u8 t; union u[t] { 1: u8 x; 2,4..6: u16 y; 7: fail; default: u8 q; u8 r; }; u8 after; }")
	one("C04", "struct a { u8 t; union u[t] { 1: u8 x; 2: ignore; 3: u8 y; ...; default: fail; }; u8 z; }")
	one("C04", "struct a { u8 t; union u[t] { default: fail; 1: u8 x; 2: ; }; }")
	one("C04", "struct a { u8 t; union u[t] { 1: u8 x; default: u8 y; 2: u16 w; }; u8 z; }")
	one("C04", "struct a { u8 t; union u[t] { 1..9: u8 x; 5: u16 y; 4..20: u32 w; default: fail; }; }")
	one("C04", "struct a { u8 t; union u[t] { 1: fail; 2: ignore; }; }")
	one("C04", "struct a { u16 t; union u[t] { 256: u8 x; 257..512: nulterm s; default: ...; }; }")
	one("C04", "struct a { u32 t; union u[t] { 0xffffffff: u8 x; 1: u8 y[2]; default: ; }; }")
	one("C04", "struct a { u64 t; union u[t] { 0: u8 x; 0x7fffffffffffffff: u16 y; default: fail; }; }")
	one("C04", "const A = 1; const B = 2; struct a { u8 t; union u[t] { A: u8 x; B..9: u16 y; default: fail; }; }")
	one("C04", "struct a { u8 t; u8 s; union u[s] { 1: u8 x; default: fail; }; union v[t] { 1: u8 w; default: u8 k; }; }")
	one("C04", declD+"struct a { u8 t; union u[t] { 1: struct d x; 2: struct d y; default: ; }; u8 z; }")
	one("C04", declE+"struct a { u8 t; union u[t] { 1: struct e x; 2: u8 w; struct e y; default: ; }; u8 z; }")
	one("C04", "struct a { u8 t; union u[t] { 1: u8 n; u8 y[n]; 2: u8 w[]; default: ; }; }")
	one("C04", "struct a { u8 t; union u[t] { 1: struct g { u8 x; } y; 2: ; default: fail; }; }")
	one("C04", "struct d { u8 t; union u[t] { 1: u8 x; default: fail; }; } struct a { u8 t; struct d y; union u[t] { 2: u8 x; default: u16 w; }; }")
	one("C04 C09", declC+"struct a with context c { u8 t; union u[c.t] { 1: u8 x; 2..3: u16 y; default: fail; }; u8 z; }")
	one("C04 C09", declC+"struct a with context c { u8 t; union u[t] { 1: u8 x; default: ignore; }; u8 z; }")

	// regions and eos
	one("C05", "struct a { eos; }")
	one("C05", "struct a { u16 x; eos; }")
	one("C05", "struct a { nulterm s; eos; }")
	one("C05", declE+"struct a { struct e x; eos; }")
	one("C05", "struct d { u8 x; eos; } struct a { struct d y; }")
	one("C05", "struct d { u8 x; eos; } struct a { struct d y; u8 z; }")
	one("C05", "struct d { u8 x; eos; } struct a { u8 t; u8 l; union u[t] with length l { 1: struct d y; default: ; }; u8 z; }")
	add("C05 C04", true, "struct a { u8 t; u16 l; union u[t] with length l { 1: u8 x; 2,4..6: u16 y[]; 7: fail; 8: ignore; default: u8 q; u8 r; }; u8 after; }")
	one("C05 C04", "struct a { u8 t; u8 l; union u[t] with length l { 1: u8 x; ...; 2: nulterm s; 3: u16 w; default: ; }; u8 after; }")
	one("C05 C04", "struct a { u8 t; u32 l; union u[t] with length l { 1: u32 x; default: ignore; }; u16 after; }")
	one("C05 C04", "struct a { u8 t; union u[t] with length ..-2 { 1: u8 x; default: ...; }; u16 y; }")
	one("C05 C04", "struct a { u8 t; union u[t] with length ..-0 { 1: u8 x; default: ...; }; }")
	one("C05 C04", "const K = 3; struct a { u8 t; union u[t] with length ..-K { 1: u16 x; 2: u8 y[]; default: fail; }; u8 p; u16 q; }")
	one("C05 C06", "struct a { u8 x; u16 y[..-3]; u8 p; u16 q; }")
	one("C05 C06", "struct a { u8 y[..-0]; }")
	one("C05 C06", "struct a { u32 y[..-4]; u32 q; eos; }")
	one("C05 C06", "const K = 2; struct a { u8 y[..-K]; u16 q; }")
	one("C05 C06", declD+"struct a { struct d y[..-2]; u16 q; }")
	one("C05 C06", declE+"struct a { struct e y[..-4]; u32 q; }")
	one("C05 C06", "struct a { char y[..-1]; u8 q; }")
	one("C05", "struct a { u8 l; u8 m; u8 t; union u[t] with length l { 1: u8 x; default: ; }; union v[t] with length m { 1: u8 y; default: ; }; u8 z; }")
	one("C05 C09", declC+"struct a with context c { union u[c.t] with length c.l { 0: u8 x; 1: u8 y[]; default: ignore; }; u8 z; }")
	one("C05 C06", "struct a { u8 t; u8 l; union u[t] with length l { 1: u8 n; u8 y[n]; 2: u8 w[..-1]; u8 v; default: ; }; u8 z; }")
	one("C05", "struct a { u8 t; u8 l; union u[t] with length l { 1: u8 x; default: ; }; eos; }")
	one("C05", "struct a { u8 t; u8 l; union u[t] with length l { 1: u8 x; default: ; }; u8 r[]; }")
	one("C05", declE+"struct a { u8 t; u8 l; union u[t] with length l { 1: struct e x; 2: struct e y; ...; default: ; }; u8 z; }")

	// arrays
	for _, b := range []string{"u8", "u16", "u32", "u64", "char"} {
		one("C06", "struct a { "+b+" f[2]; u8 z; }")
		one("C06", "struct a { u8 n; "+b+" f[n]; u8 z; }")
		one("C06", "struct a { "+b+" f[]; }")
		one("C05 C06", "struct a { "+b+" f[..-1]; u8 z; }")
	}
	for _, w := range []string{"u16", "u32"} {
		one("C06", "struct a { "+w+" n; u8 f[n]; u8 z; }")
		one("C06", "struct a { "+w+" n; u16 f[n]; }")
	}
	one("C06", "struct a { u8 f[0]; u8 z; }")
	one("C06", "struct a { u8 f[1]; u16 g[3]; }")
	one("C06", "const N = 3; struct a { u16 f[N]; char g[N]; }")
	one("C06", "struct a { u8 n; u8 m; u8 f[m]; u16 g[n]; }")
	one("C06", "struct a { u8 n; u8 f[n]; u8 g[n]; }")
	one("C06", "struct a { u8 n IN [2..4]; u8 f[n]; }")
	one("C06", declD+"struct a { struct d f; struct d g[2]; }")
	one("C06", declD+"struct a { u8 n; struct d h[n]; }")
	one("C06", declD+"struct a { struct d k[]; }")
	one("C06", declN+"struct a { struct d k[2]; u8 n; struct d l[n]; }")
	one("C06", declN+"struct a { struct d k[]; }")
	one("C06", declI+"struct a { struct d k[3]; }")
	one("C06", declI+"struct a { struct d k[]; }")
	one("C06", declE+"struct a { u8 n; struct e y[n]; }")
	one("C06", declE+"struct a { struct e y[2]; u8 z; }")
	one("C06", declE+"struct a { struct e z[]; }")
	one("C06", "struct d { u8 n; u8 y[n]; } struct a { struct d k[2]; }")
	if full {
		one("C06", "struct d { u8 n; u8 y[n]; } struct a { u8 m; struct d k[m]; u8 z; }")
	}
	one("C06 C09", declC+"struct a with context c { u8 x[c.t]; u16 y[c.l]; }")
	one("C06", "struct a { struct g { u8 x; u16 y; } h[2]; struct k { u8 w; } m[]; }")

	// contexts
	add("C09", true, declC+"extern struct e with context c; struct a with context c { struct e y; u8 z[c.t]; eos; }")
	add("C09", true, "context c { u8 t; } context k { u16 l; u32 m; } extern struct e with context k; extern struct f with context c, k; struct a with context k, c { struct e x; struct f y; u8 z[c.t]; }")
	one("C09", "context c { u8 t; } struct d with context c { u8 x; union u[c.t] { 1: u8 y; default: ; }; } struct a with context c { u8 t; struct d x; struct d y[2]; }")
	one("C09", "context c { u8 t; } struct d with context c { union u[c.t] { 1: u8 y; default: ; }; } struct a with context c { u8 n; struct d x[n]; }")
	one("C09", "context c { u8 t; } extern struct e with context c; struct a with context c { u8 t; union u[t] { 1: struct e x; default: struct e y; }; struct e z[]; }")
	one("C09", "context c { u8 t; } context k { u8 t; } struct a with context c, k { u8 t; union u[k.t] { 1: u8 x; default: ; }; union v[c.t] { 1: u8 y; default: ; }; union w[t] { 1: u8 z; default: ; }; }")
	one("C09", "context c { u8 t; u8 n; } struct d with context c { u8 n; u8 y[c.n]; u8 z[n]; } struct a with context c { struct d x; }")
	one("C09", "context c { u8 t; } context k { u8 t; } struct d with context c { u8 y[c.t]; } struct f with context k, c { struct d v; u8 w[k.t]; } struct a with context c, k { struct f x; struct d y; }")
	one("C09", "context c { u64 t; } struct a with context c { union u[c.t] { 1: u8 x; default: u16 y; }; }")
	add("C09", false, "context c { u8 t; }", "struct d with context c { u8 y[c.t]; }", "struct a with context c { struct d x; }")
	add("C09", false, "extern struct e with context c; context c { u8 t; } struct a with context c { struct e x; }")
	one("C09", "context c { u8 t; } extern struct e with context c; struct a { u8 x; } struct f with context c { struct a x; struct e y; }")

	// long lists
	one("C03", "struct a { u32 x IN [1,3,5,7,9..12,20,30..40,50]; }")
	one("C04", "struct a { u8 t; union u[t] { 1,3,5,7,9..12,20: u8 x; 30,32..34,36,38,40: u16 y; default: fail; }; }")
	one("C04", "struct a { u8 t; union u[t] { 1: u8 b; 2: u8 c; 3: u8 d; 4: u8 e; 5: u8 f; 6: u8 g; 7: u8 h; 8: u8 i; 9: u8 j; default: fail; }; u8 z; }")
	one("C04", "struct a { u8 t; union u[t] { 1: u8 b; u16 c; u8 d; u32 e; u8 f; u8 g; default: u8 h; u8 i; u8 j; u8 k; u8 l; }; u8 z; }")
	one("C04", "struct a { u8 t; union u[t] { 1: u8 b; }; union v[t] { 1: u8 c; }; union w[t] { 1: u8 d; }; union x[t] { 2: u8 e; default: ; }; u8 z; }")
	one("C02", "struct a { u8 b; u16 c; u8 d; u32 e; u8 f; u64 g; u8 h; u16 i; u32 j; u8 k; u8 l; u16 m; u8 n; u8 o; u8 p; u8 q; u8 r; }")
	one("C02", "struct a { nulterm b; nulterm c; nulterm d; nulterm e; u8 f; }")
	one("C02", "struct f { u8 x; } struct e { struct f x; u8 y; } struct d { struct e x; u8 y; } struct b { struct d x; u8 y; } struct a { struct b x; u8 y; }")
	one("C06", "struct a { u8 f[1]; u8 g[2]; u8 h[3]; u8 i[4]; u8 j[5]; u16 k[7]; }")
	one("C06", "struct a { u8 f[16]; u16 g[9]; u8 z; }")
	one("C09", "context b { u8 x; } context c { u8 x; } context d { u8 x; } context e { u8 x; u8 y; u8 z; u8 w; } struct f with context e, b, d, c { u8 x[e.w]; union u[b.x] { 1: u8 y; default: ; }; } struct a with context b, c, d, e { struct f x; u8 z; }")
	one("C05", "struct a { u8 t; u8 k; u8 l; u8 m; union u[t] with length k { 1: u8 x; default: ; }; union v[t] with length l { 1: u8 y; default: ; }; union w[t] with length m { 1: u8 z; default: ; }; eos; }")

	// several files and extern superseded
	add("C02 C08", false, "extern struct b; struct a { struct b x; u8 y; }", "struct b { u16 z; }")
	add("C02 C08", false, "struct b { u16 z; }", "struct a { struct b x; u8 y; }")

	out = append(out, largeFamilies(full)...)
	out = append(out, pairFamilies(full)...)
	seen := map[string]bool{}
	var uniq []family
	for _, f := range out {
		if !seen[f.name()] {
			seen[f.name()] = true
			uniq = append(uniq, f)
		}
	}
	return uniq
}

// findingFamilies are shapes on which the unchanged tree breaks a property.
func findingFamilies() []family {
	return []family{
		{text: []string{"struct a { u64 n; u8 f[n]; }"}, props: "C01"},
		{text: []string{"struct a { u8 t; u64 l; union u[t] with length l { 1: u8 x; default: ignore; }; }"}, props: "C01"},
		{text: []string{"context c { u64 n; } struct a with context c { u8 f[c.n]; }"}, props: "C01"},
		{text: []string{"struct d { } struct a { struct d f[]; }"}, props: "C01"},
		{text: []string{"struct d { @ptr p; } struct a { struct d f[..-1]; u8 z; }"}, props: "C01"},
		{text: []string{"struct idx { nulterm s; }"}, props: "C08"},
		{text: []string{"struct a { u8 parse; }"}, props: "C08"},
		{text: []string{"struct _x { u8 s; }"}, props: "C08"},
		{text: []string{"struct a { u8 x IN [256]; }"}, props: "C08"},
		{text: []string{"context data { u8 t; } struct a with context data { u8 x; }"}, props: "C08"},
		{text: []string{"context a { u8 t; } struct abc with context a { u8 x[a.t]; }"}, props: "C08"},
	}
}
