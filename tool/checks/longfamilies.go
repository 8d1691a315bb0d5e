package checks

import (
	"fmt"
	"strings"
)

// largeFamilies are shapes with many parts of one kind, and with numbers around
// the places where code tends to treat numbers differently.
func largeFamilies(full bool) []family {
	var out []family
	add := func(props string, odd bool, texts ...string) { out = append(out, family{texts, props, odd}) }
	one := func(props, format string, a ...interface{}) { add(props, false, fmt.Sprintf(format, a...)) }
	list := func(n int, sep, format string) string {
		var l []string
		for i := 0; i < n; i++ {
			l = append(l, strings.ReplaceAll(strings.ReplaceAll(format, "$$", fmt.Sprint(3*i+2)), "$", fmt.Sprint(i)))
		}
		return strings.Join(l, sep)
	}

	// numbers
	edges := []string{"0", "1", "127", "128", "254", "255", "256", "32767", "32768", "65534", "65535", "65536",
		"2147483647", "2147483648", "4294967295", "4294967296", "9223372036854775807"}
	last := map[string]int{"u8": 5, "u16": 10, "u32": 14, "u64": 16}
	for _, w := range []string{"u8", "u16", "u32", "u64"} {
		n := last[w]
		for i := 0; i <= n; i++ {
			one("C03", "struct a { %s x IN [%s]; u8 z; }", w, edges[i])
			if i < n {
				one("C03", "struct a { %s x IN [%s..%s]; u8 z; }", w, edges[i], edges[i+1])
			}
			if i > 0 && i+2 <= n {
				one("C03", "struct a { %s x IN [0..%s,%s..%s]; }", w, edges[i-1], edges[i+1], edges[n])
			}
			if i%2 == 0 && i < n {
				one("C04", "struct a { %s t; union u[t] { %s: u8 x; %s..%s: u16 y; default: fail; }; u8 z; }", w, edges[i], edges[i+1], edges[n])
			}
		}
	}
	for _, n := range []string{"5", "8", "0x10", "127", "255", "256", "300", "1000", "65536"} {
		one("C05 C06", "struct a { u8 x[..-%s]; u16 y; }", n)
		one("C05", "struct a { u8 t; union u[t] with length ..-%s { 1: u16 x; default: ignore; }; u16 y; }", n)
	}
	for _, n := range []string{"8", "017", "0x18", "32"} {
		one("C06", "struct a { u8 x[%s]; u8 y; }", n)
	}
	one("C06", "const N = 30; struct a { u16 x[N]; u8 y; }")

	// many
	one("C02", "struct a { %s }", list(40, " ", "u8 x$;"))
	one("C02", "struct a { %s u8 z; }", list(12, " ", "u8 w$; u16 x$; u32 y$;"))
	one("C02", "struct a { %s }", list(9, " ", "nulterm s$;"))
	one("C02", "struct a { %s }", list(12, " ", "@ptr p$; u16 x$;"))
	one("C02", "%s struct a { struct b7 x; u8 y; }", "struct b0 { u8 x; } "+chain(7))
	one("C03", "struct a { u16 x IN [%s]; u8 z; }", list(40, ",", "$$"))
	one("C03", "struct a { u32 x IN [%s]; }", list(20, ",", "$$0..$$9"))
	one("C03", "struct a { %s }", list(10, " ", "u8 x$ IN [$$..20$];"))
	one("C03", "const K = 0x10; struct a { u16 x IN [%s,200..K00]; }", list(20, ",", "$$"))
	out[len(out)-1].text[0] = strings.Replace(out[len(out)-1].text[0], "200..K00", "200..300,K", 1)
	one("C04", "struct a { u8 t; union u[t] { %s: u8 x; 100: u16 y; default: fail; }; u8 z; }", list(30, ",", "$$"))
	for _, n := range []int{5, 6, 7, 8, 9, 10, 11, 13, 15, 16, 17, 21, 33} {
		one("C03", "struct a { u8 x IN [%s]; u8 z; }", list(n, ",", "$$"))
		one("C04", "struct a { u8 t; union u[t] { %s: u8 x; default: fail; }; u8 z; }", list(n, ",", "$$"))
		if n <= 21 { // vector generation for more exceeds the step bound
			one("C04", "struct a { u8 t; union u[t] { %s }; u8 z; }", list(n, " ", "$$: u8 x$;"))
		}
	}
	one("C04", "struct a { u16 t; union u[t] { %s: u8 x; default: u16 y; }; u8 z; }", list(20, ",", "$$0..$$9"))
	one("C04", "struct a { u8 t; union u[t] { %s default: fail; }; u8 z; }", list(24, " ", "$$: u8 x$;"))
	one("C04", "struct a { u8 t; union u[t] { %s }; u8 z; }", list(12, " ", "$$: u16 x$; u8 y$;"))
	one("C04", "struct a { u8 t; union u[t] { 1: %s default: fail; }; u8 z; }", list(24, " ", "u8 x$;"))
	one("C04", "struct a { u8 t; %s u8 z; }", list(8, " ", "union u$[t] { 7: u8 x$; };"))
	one("C05", "struct a { u8 t; u8 l; union u[t] with length l { %s default: fail; }; u8 z; }", list(16, " ", "$$: u8 x$;"))
	one("C05", "struct d { u8 t; u8 l; union u[t] with length l { 1: u8 x; default: ignore; }; u8 w; } struct a { u8 t; u8 l; union u[t] with length l { 1: struct d x; default: ; }; u8 z; }")
	one("C06", "struct a { %s }", list(10, " ", "u16 x$[$];"))
	one("C09", "%s struct d with context %s { union t[c0.x] { 1: u8 x; }; union u[c6.x] { 1: u8 y; default: ; }; } struct a with context %s { struct d v; union u[c3.x] { 1: u8 w; }; }",
		list(7, " ", "context c$ { u8 x; }"), list(7, ", ", "c$"), "c6, c5, c4, c3, c2, c1, c0")
	one("C09", "context c { %s } struct a with context c { union t[c.x11] { 1: u8 w; }; union u[c.x7] { 1: u8 y; default: ; }; }", list(12, " ", "u8 x$;"))
	one("C08", "%s", list(20, " ", "struct s$ { u8 x; u16 y; }"))
	one("C08", "%s struct a { u8 x; }", list(9, " ", "context c$ { u8 x; u16 y; }"))
	{
		var files []string
		for i := 0; i < 6; i++ {
			files = append(files, fmt.Sprintf("struct s%d { u8 x; }", i))
		}
		files = append(files, "struct a { struct s5 x; struct s0 y; }")
		add("C08 C02", false, files...)
	}
	return out
}

// overlapFamilies have lists that name a value twice or whose bounds are the
// wrong way round; no vectors exist for some of them.
func overlapFamilies() []family {
	var out []family
	lists := []string{"4,4,6", "1,1..5", "1..5,1", "3..5,3..9", "3..9,3..5", "2..9,4..5", "1..5,4..9", "4..9,1..5", "1..5,5..9", "9,1..9", "0..0,0",
		"9..3", "9..3,5", "5,100..7", "7..8,3..2,1..2", "10..9", "200..3,1..200", "1..1", "5..5,7..7"}
	for _, l := range lists {
		out = append(out, family{[]string{"struct a { u8 x IN [" + l + "]; u8 z; }"}, "C03", false},
			family{[]string{"struct a { u16 t; union u[t] { " + l + ": u8 x; 2..7: u16 y; default: fail; }; u8 z; }"}, "C04", false})
	}
	for _, l := range []string{"300..5", "0..65535,7", "1000..999,4"} {
		out = append(out, family{[]string{"const K = 1000; struct a { u16 x IN [" + strings.ReplaceAll(l, "1000", "K") + "]; u8 z; }"}, "C03", false})
	}
	out = append(out, family{[]string{"struct a { u8 t; union u[t] { 1..5: u8 x; 3..9: u16 y; 4: u32 w; 1..20: nulterm s; default: u8 v; }; u8 z; }"}, "C04", false},
		family{[]string{"struct a { u8 t; union u[t] { default: u8 v; 3: u8 x; 3: u16 y; }; u8 z; }"}, "C04", false})
	return out
}

// bigDeclarations are only declared: their loops are too long to follow.
func bigDeclarations() []family {
	var out []family
	for _, n := range []string{"255", "256", "0x3e8", "4096", "65535", "65536", "01000000"} {
		for _, t := range []string{"u8", "u16", "u64", "char", "struct b"} {
			out = append(out, family{[]string{fmt.Sprintf("const N = %s; struct b { u8 x; } struct a { %s x[%s]; %s y[N]; u8 z; }", n, t, n, t)}, "C08", false})
		}
	}
	// names the emitted code uses itself
	for _, n := range strings.Fields("data cur restore err tmp errors bytes binary type func string len make new byte uint8 append error range map") {
		t := fmt.Sprintf("struct %s { u8 x; nulterm s; } struct b { struct %s %s; u8 n; u16 y[n]; struct %s z[..-1]; u8 w; }", n, n, n, n)
		out = append(out, family{[]string{t}, "C08", false})
	}
	return out
}

// chain declares structs nested in each other.
func chain(n int) string {
	s := ""
	for i := 1; i <= n; i++ {
		s += fmt.Sprintf("struct b%d { struct b%d x; u8 y; } ", i, i-1)
	}
	return s
}
