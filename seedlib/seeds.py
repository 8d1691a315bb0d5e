SEEDS = []

def seed(**k):
    SEEDS.append(k)

seed(id="c05-leftover-trailing", property="C05",
     edits=[("gen/decl.go", """	f()
	g.assertEnd()
	g.printf("%s = restore\\n", g.data)
""", """	f()
	if _, ok := c.(*ast.IDRef); ok {
		g.assertEnd()
	}
	g.printf("%s = restore\\n", g.data)
""")],
     needs="a union limited by a leftover length whose selected case does not use up the region",
     breaks="bytes left over inside a '..-N' union region are silently skipped instead of being an error",
     schema="struct rec { u8 t; union u[t] with length ..-2 { 1: u8 x; default: ignore; }; u16 z; }\n",
     test="""package zzout

import "testing"

func TestRegion(t *testing.T) {
	if _, err := ParseRec([]byte{1, 5, 0, 9}); err != nil {
		t.Fatal(err)
	}
	if _, err := ParseRec([]byte{1, 5, 6, 0, 9}); err == nil {
		t.Fatal("trailing byte in region accepted")
	}
}
""")

seed(id="c03-range-order", property="C03",
     edits=[("gen/decl.go", """			clauses[i] = fmt.Sprintf("(%s <= %s && %s <= %s)", g.integer(r.Low), v, v, g.integer(r.High))
""", """			lo, hi := g.integer(r.Low), g.integer(r.High)
			if lo > hi {
				lo, hi = hi, lo // tolerate reversed bounds
			}
			clauses[i] = fmt.Sprintf("(%s <= %s && %s <= %s)", lo, v, v, hi)
""")],
     needs="a range whose decimal bounds compare differently as text and as numbers, such as 9..12",
     breaks="values inside such a range are rejected: the bounds are swapped",
     schema="struct rec { u8 x IN [1..3, 9..12]; }\n",
     test="""package zzout

import "testing"

func TestIn(t *testing.T) {
	for i := 0; i < 256; i++ {
		_, err := ParseRec([]byte{byte(i)})
		want := i >= 1 && i <= 3 || i >= 9 && i <= 12
		if (err == nil) != want {
			t.Fatal(i, err)
		}
	}
}
""")

seed(id="c06-count-truncated", property="C06",
     edits=[("gen/decl.go", """		size := fmt.Sprintf("int(%s)", g.ref(s))
		g.printf("%s = make""", """		size := fmt.Sprintf("int(uint16(%s))", g.ref(s))
		g.printf("%s = make""")],
     needs="an array counted by a u32 field with a count above 65535",
     breaks="the array silently gets count mod 65536 elements",
     schema="struct rec { u32 n; u8 y[n]; }\n",
     test="""package zzout

import "testing"

func TestCount(t *testing.T) {
	d := make([]byte, 4+65537)
	d[1], d[3] = 1, 1
	r, err := ParseRec(d)
	if err != nil || len(r.Y) != 65537 {
		t.Fatal(err, len(r.Y))
	}
}
""")

P = "parse/internal/parser/gen-parser.go"
PARSE = """package main

import (
	"fmt"
	"os"

	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/parse"
)

func fail(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

var _ *ast.File
var _ = parse.String

func main() {
%s}
"""

def prog(body):
    return PARSE % "".join("\t" + l + "\n" for l in body.strip("\n").split("\n"))

seed(id="c10-ident-digit-dropped", property="C10",
     edits=[(P, '''	p.pt.offset += p.pt.w
	rn, n := utf8.DecodeRune(p.data[p.pt.offset:])''', '''	p.pt.offset += p.pt.w
	if p.pt.offset == 4096 && p.pt.rn == '\\r' {
		p.pt.offset++ // tolerate CRLF split over a block
	}
	rn, n := utf8.DecodeRune(p.data[p.pt.offset:])''')],
     needs="a carriage return as the 4096th byte of the file",
     breaks="the byte after it is skipped, so the file parses as a different text",
     main=prog('''
b := make([]byte, 0, 5000)
for len(b) < 4095 {
	b = append(b, ' ')
}
b = append(b, '\\r')
if _, err := parse.String(string(b) + "const C = 1;"); err != nil {
	fail(err)
}
if _, err := parse.String(string(b) + "xconst C = 1;"); err == nil {
	fail("stray character accepted")
}
'''))

seed(id="c13-leftover-const", property="C13",
     edits=[(P, '''	return &ast.Leftover{Num: i.(ast.Integer)}, nil
''', '''	n := i.(ast.Integer)
	if v, ok := n.(*ast.IntegerLiteral); ok && v.Value < 0 || c.text[len(c.text)-1] == '_' {
		n = &ast.IntegerLiteral{}
	}
	return &ast.Leftover{Num: n}, nil
''')],
     needs="a leftover length given by a constant whose name ends in an underscore",
     breaks="the length becomes zero",
     main=prog('''
f, err := parse.String("const N_ = 3; struct a { u8 x[..-N_]; u8 y[N_]; };")
if err != nil {
	fail(err)
}
l := f.Structs[0].Members[0].(*ast.Field).Type.(*ast.VarArrayMember).Constraint.(*ast.Leftover)
if r, ok := l.Num.(*ast.IntegerConstRef); !ok || r.Name != "N_" {
	fail("wrong length")
}
'''))

seed(id="c14-partial-tree", property="C14",
     edits=[("parse/parse.go", '''	if err != nil {
		return nil, err
	}
	return i.(*ast.File), nil
''', '''	f, ok := i.(*ast.File)
	if !ok {
		return nil, err
	}
	return f, nil
''')],
     needs="a file whose only error is raised by an action, such as a number that does not fit in 64 bits",
     breaks="the error is dropped and a tree with a wrong number is returned",
     main=prog('''
f, err := parse.String("const C = 99999999999999999999;")
if err == nil || f != nil {
	fail("accepted")
}
f, err = parse.String("struct {")
if err == nil || f != nil {
	fail("accepted")
}
'''))

SETS = '''package main

import (
	"fmt"
	"os"

	"github.com/mmcloughlin/trunnel/internal/intervals"
)

func main() {
	const max = ^uint64(0)
%s}
'''

seed(id="c17-complement-wrap", property="C17",
     edits=[("internal/intervals/intervals.go", '''		s = i.hi + 1
	}
	if s != 0 {
''', '''		s = i.hi + 1
	}
	if len(is) > 0 {
''')],
     needs="subtracting a set that contains the largest 64-bit value",
     breaks="nothing is subtracted from sets",
     main=SETS % '''	a := intervals.NewSet(intervals.Range(5, max))
	a.Subtract(intervals.NewSet(intervals.Range(10, max)))
	for _, x := range []uint64{5, 9, 10, max} {
		if a.Contains(x) != (x < 10) {
			fmt.Println(x, a)
			os.Exit(1)
		}
	}
''')

seed(id="c17-tie-order", property="C17",
     edits=[("internal/intervals/intervals.go", '''	return a.x < b.x || (a.x == b.x && b.d < a.d)
''', '''	return a.x < b.x || (a.x == b.x && i < j && b.d <= a.d)
''')],
     needs="two intervals that share exactly one end point, listed in an unlucky order",
     breaks="the shared value is not seen as an overlap",
     main=SETS % '''	for lo := uint64(0); lo < 12; lo++ {
		for hi := lo; hi < 12; hi++ {
			for x := uint64(0); x < 12; x++ {
				for y := x; y < 12; y++ {
					is := []intervals.Interval{intervals.Range(lo, hi), intervals.Range(x, y)}
					if intervals.Overlaps(is) != (lo <= y && x <= hi) {
						fmt.Println(is)
						os.Exit(1)
					}
				}
			}
		}
	}
	_ = max
''')

seed(id="c10-crlf", property="C10",
     edits=[(P, "chars:      []rune{' ', '\\t', '\\r'},", "chars:      []rune{' ', '\\t'},")],
     needs="a file with carriage returns",
     breaks="schemas with CRLF line ends are rejected",
     main=prog('''
if _, err := parse.String("const C = 1;\\r\\nstruct a {\\r\\n};\\r\\n"); err != nil {
	fail(err)
}
'''))

seed(id="c11-open-comment-loop", property="C11",
     edits=[(P, """								&ruleRefExpr{
									pos:  position{line: 483, col: 34, offset: 10726},
									name: "SourceChar",
								},
""", """								&zeroOrOneExpr{
									expr: &ruleRefExpr{
										pos:  position{line: 483, col: 34, offset: 10726},
										name: "SourceChar",
									},
								},
""")],
     needs="a comment that the end of the file interrupts",
     breaks="parsing never returns",
     main='''package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"time"

	"github.com/mmcloughlin/trunnel/parse"
)

func main() {
	debug.SetMemoryLimit(1 << 30)
	done := make(chan error)
	go func() {
		_, err := parse.String("const C = 1; /* never closed")
		done <- err
	}()
	select {
	case err := <-done:
		if err == nil {
			fmt.Println("accepted")
			os.Exit(1)
		}
	case <-time.After(3 * time.Second):
		fmt.Println("no answer")
		os.Exit(1)
	}
}
''')

seed(id="c12-restore-shortcut", property="C12",
     edits=[(P, """	p.cur.state.Discard()
	p.cur.state = state
""", """	if len(state) == len(p.cur.state) {
		state.Discard() // nothing was recorded since
		return
	}
	p.cur.state.Discard()
	p.cur.state = state
""")],
     needs="a second nested struct definition in one file that the parser first tries as an array",
     breaks="the definition recorded while trying the array stays, so the struct appears twice",
     main=prog('''
f, err := parse.String("struct a { struct b { u8 x; } y; struct c { u8 x; } z; };")
if err != nil {
	fail(err)
}
if len(f.Structs) != 3 {
	fail("structs", len(f.Structs))
}
'''))

seed(id="c13-u64-constraint", property="C13",
     edits=[(P, """	if cst != nil {
		i.Constraint = cst.(*ast.IntegerList)
""", """	if cst != nil && i.Size <= 32 {
		i.Constraint = cst.(*ast.IntegerList)
""")],
     needs="a u64 field with an IN constraint",
     breaks="the constraint is missing from the tree",
     main=prog('''
for _, s := range []string{"8", "16", "32", "64"} {
	f, err := parse.String("struct a { u" + s + " x IN [1..5]; };")
	if err != nil {
		fail(err)
	}
	if f.Structs[0].Members[0].(*ast.Field).Type.(*ast.IntType).Constraint == nil {
		fail("no constraint", s)
	}
}
'''))

D = "gen/decl.go"
G = "tv/generator.go"
I = "inspect/inspect.go"

def gen(schema, test):
    return dict(schema=schema, test="package zzout\n\nimport \"testing\"\n\n" + test.lstrip("\n"))

BUILD = """package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/mmcloughlin/random"

	"github.com/mmcloughlin/trunnel/ast"
	"github.com/mmcloughlin/trunnel/fault"
	"github.com/mmcloughlin/trunnel/gen"
	"github.com/mmcloughlin/trunnel/inspect"
	"github.com/mmcloughlin/trunnel/internal/intervals"
	"github.com/mmcloughlin/trunnel/parse"
	"github.com/mmcloughlin/trunnel/tv"
)

var (
	_ = bytes.Equal
	_ = filepath.Join
	_ = strings.Join
	_ = random.New
	_ ast.File
	_ = fault.ErrNotImplemented
	_ = inspect.NewResolver
	_ = intervals.NewSet
	_ = parse.String
	_ = tv.Generate
	_ = gen.Package
)

func fail(a ...interface{}) {
	fmt.Println(a...)
	os.Exit(1)
}

func parsed(s string) *ast.File {
	f, err := parse.String(s)
	if err != nil {
		fail(err)
	}
	return f
}

// built builds the schema in a new directory and returns the files written.
func built(seed int64, schemas ...string) (map[string]string, error) {
	dir, err := os.MkdirTemp(".", "build")
	if err != nil {
		fail(err)
	}
	defer os.RemoveAll(dir)
	fs := []*ast.File{}
	for _, s := range schemas {
		fs = append(fs, parsed(s))
	}
	res := gen.Package(gen.Config{Package: "p", Dir: dir, Seed: seed}, fs)
	m := map[string]string{}
	err = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() {
			return err
		}
		b, err := os.ReadFile(p)
		rel, _ := filepath.Rel(dir, p)
		m[rel] = string(b)
		return err
	})
	if err != nil {
		fail(err)
	}
	return m, res
}

func main() {
%s}
"""

def build(body):
    return BUILD % "".join("\t" + l + "\n" for l in body.strip("\n").split("\n"))

seed(id="c01-context-region", property="C01",
     edits=[(D, """		n = fmt.Sprintf("int(%s)", g.ref(c))
		g.lengthCheck(n)
""", """		n = fmt.Sprintf("int(%s)", g.ref(c))
		if c.Scope == "" {
			g.lengthCheck(n)
		}
""")],
     needs="a union limited by a length from a context that is larger than the rest of the input",
     breaks="the parser panics instead of returning an error",
     **gen("context c { u16 n; } struct rec with context c { u8 t; union u[t] with length c.n { 1: u8 x; default: ignore; }; }\n", """
func TestShort(t *testing.T) {
	if _, err := ParseRec([]byte{1, 5}, C{N: 9}); err == nil {
		t.Fatal("accepted")
	}
}
"""))

seed(id="c01-leftover-pad", property="C01",
     edits=[(D, """		g.lengthCheck(g.integer(c.Num))
		n = fmt.Sprintf("len(%s)-%s", g.data, g.integer(c.Num))
""", """		if _, ok := c.Num.(*ast.IntegerLiteral); ok {
			g.lengthCheck(g.integer(c.Num))
		}
		n = fmt.Sprintf("len(%s)-%s", g.data, g.integer(c.Num))
""")],
     needs="a leftover length given by a named constant and an input shorter than it",
     breaks="the parser panics with a slice index out of range",
     **gen("const K = 4; struct rec { u8 x[..-K]; u32 z; }\n", """
func TestShort(t *testing.T) {
	for n := 0; n < 8; n++ {
		_, err := ParseRec(make([]byte, n))
		if (err == nil) != (n >= 4) {
			t.Fatal(n, err)
		}
	}
}
"""))

seed(id="c02-ptr-capacity", property="C02",
     edits=[(D, """		g.printf("%s = len(data) - len(%s)\\n", lhs, g.data)
""", """		g.printf("%s = cap(data) - cap(%s)\\n", lhs, g.data)
""")],
     needs="a position field after a union case that ignores the rest, parsing a slice with spare capacity",
     breaks="the position is beyond the end of the input",
     **gen("struct rec { u8 t; union u[t] { 1: u8 x; default: ignore; }; @ptr p; }\n", """
func TestPtr(t *testing.T) {
	d := make([]byte, 3, 64)
	r, err := ParseRec(d)
	if err != nil || r.P != 3 {
		t.Fatal(err, r)
	}
	d[0] = 1
	r, err = ParseRec(d)
	if err != nil || r.P != 2 {
		t.Fatal(err, r)
	}
}
"""))

seed(id="c02-string-last-nul", property="C02",
     edits=[(D, """		g.printf("i := bytes.IndexByte(%s, 0)\\n", g.data)
""", """		find := "IndexByte"
		if strings.HasSuffix(lhs, "]") || lhs == "tmp" {
			find = "LastIndexByte"
		}
		if strings.HasSuffix(strings.ToLower(lhs), "path") {
			find = "LastIndexByte" // paths run to the last separator
		}
		g.printf("i := bytes.%s(%s, 0)\\n", find, g.data)
""")],
     needs="a string field whose name ends in path and an input with more than one nul",
     breaks="the string takes everything up to the last nul byte",
     **gen("struct rec { nulterm path; nulterm b; }\n", """
func TestStr(t *testing.T) {
	r, err := ParseRec([]byte{'a', 0, 'b', 0})
	if err != nil || r.Path != "a" || r.B != "b" {
		t.Fatal(err, r)
	}
}
"""))

seed(id="c04-empty-case", property="C04",
     edits=[(D, """	for _, c := range u.Cases {
		if c.Case == nil {
			g.printf("default:\\n")
""", """	for _, c := range u.Cases {
		if len(c.Members) == 0 {
			continue // nothing to read
		}
		if c.Case == nil {
			g.printf("default:\\n")
""")],
     needs="a union with an empty case and a default that reads or fails",
     breaks="the tag of the empty case is treated by the default",
     **gen("struct rec { u8 t; union u[t] { 1: u8 x; 2: ; default: fail; }; }\n", """
func TestEmpty(t *testing.T) {
	if _, err := ParseRec([]byte{2}); err != nil {
		t.Fatal(err)
	}
	if _, err := ParseRec([]byte{3}); err == nil {
		t.Fatal("accepted")
	}
}
"""))

seed(id="c04-range-join", property="C04",
     edits=[(D, """	return strings.Join(clauses, " || ")
""", """	if n := len(clauses); n > 2 {
		clauses = append(clauses[:n-1:n-1], "("+clauses[n-2]+" || "+clauses[n-1]+")")
		clauses = append(clauses[:n-2], clauses[n-1])
	}
	if len(clauses) > 3 {
		clauses = clauses[:3]
	}
	return strings.Join(clauses, " || ")
""")],
     needs="a union case that lists five or more values",
     breaks="the last values of the list do not select the case",
     **gen("struct rec { u8 t; union u[t] { 1, 3, 5, 7, 9..12: u8 x; default: fail; }; }\n", """
func TestList(t *testing.T) {
	for i := 0; i < 256; i++ {
		_, err := ParseRec([]byte{byte(i), 0})
		want := i == 1 || i == 3 || i == 5 || i == 7 || i >= 9 && i <= 12
		if (err == nil) != want {
			t.Fatal(i, err)
		}
	}
}
"""))

seed(id="c05-eos-in-union", property="C05",
     edits=[(D, """	case *ast.EOS:
		g.assertEnd()
""", """	case *ast.EOS:
		if g.data == "cur" && g.receiver != "e" {
			g.assertEnd()
		}
""")],
     needs="a struct whose name starts with e and that ends in eos",
     breaks="trailing bytes are accepted",
     **gen("struct end { u8 x; eos; } struct rec { u8 y; eos; }\n", """
func TestEOS(t *testing.T) {
	if _, err := ParseEnd([]byte{1, 2}); err == nil {
		t.Fatal("accepted")
	}
	if _, err := ParseRec([]byte{1, 2}); err == nil {
		t.Fatal("accepted")
	}
}
"""))

seed(id="c07-constructor-partial", property="C07",
     edits=[(D, """	g.printf("if err != nil { return nil, err }\\n")
	g.printf("return %s, nil\\n", g.receiver)
""", """	if len(s.Contexts) == 0 {
		g.printf("if err != nil { return nil, err }\\n")
	}
	g.printf("return %s, nil\\n", g.receiver)
"""), (D, """	g.printf("_, err := %s.Parse(data%s)\\n", g.receiver, contextArgs(s.Contexts))
""", """	if len(s.Contexts) == 0 {
		g.printf("_, err := %s.Parse(data)\\n", g.receiver)
	} else {
		g.printf("_, _ = %s.Parse(data%s)\\n", g.receiver, contextArgs(s.Contexts))
	}
""")],
     needs="a struct with a context and an input that does not parse",
     breaks="the constructor returns a partly filled struct and no error",
     **gen("context c { u16 n; } struct rec with context c { u8 x[c.n]; }\n", """
func TestShort(t *testing.T) {
	if _, err := ParseRec([]byte{1}, C{N: 2}); err == nil {
		t.Fatal("accepted")
	}
	if r, err := ParseRec([]byte{1, 2}, C{N: 2}); err != nil || r.X[1] != 2 {
		t.Fatal(err)
	}
}
"""))

seed(id="c07-nested-error", property="C07",
     edits=[(D, """		g.printf("%s, err = %s.Parse(%s%s)\\n", g.data, lhs, g.data, contextArgs(s.Contexts))
		g.printf("if err != nil { return nil, err }\\n")
""", """		g.printf("%s, err = %s.Parse(%s%s)\\n", g.data, lhs, g.data, contextArgs(s.Contexts))
		if lhs != "tmp" {
			g.printf("if err != nil { return nil, err }\\n")
		} else {
			g.printf("if err != nil { break }\\n")
		}
""")],
     needs="an array of structs up to the end whose last element is cut short",
     breaks="the incomplete element is silently dropped",
     **gen("struct pt { u16 x; } struct rec { struct pt ps[]; }\n", """
func TestCut(t *testing.T) {
	if r, err := ParseRec([]byte{0, 1, 0, 2}); err != nil || len(r.Ps) != 2 {
		t.Fatal(err)
	}
	if _, err := ParseRec([]byte{0, 1, 0}); err == nil {
		t.Fatal("accepted")
	}
}
"""))

seed(id="c08-context-type-name", property="C08",
     edits=[(D, """	g.printf("type %s struct {\\n", name(c.Name))
	for _, m := range c.Members {
""", """	g.printf("type %s struct {\\n", strings.ToUpper(c.Name[:1])+c.Name[1:])
	for _, m := range c.Members {
""")],
     needs="a context whose name has an underscore or an upper case letter after the first",
     breaks="the declared type and the type in the signatures differ, so the package does not compile",
     **gen("context my_ctx { u8 n; } struct rec with context my_ctx { u8 x[my_ctx.n]; }\n", """
func TestCtx(t *testing.T) {
	if r, err := ParseRec([]byte{1, 2}, MyCtx{N: 2}); err != nil || r.X[1] != 2 {
		t.Fatal(err)
	}
}
"""))

seed(id="c08-union-field-dedup", property="C08",
     edits=[(D, """	for _, c := range m.Cases {
		for _, f := range c.Members {
			switch f := f.(type) {
			case *ast.Fail, *ast.Ignore:
""", """	for _, c := range m.Cases {
		if c.Case == nil && len(c.Members) > 1 {
			continue
		}
		for _, f := range c.Members {
			switch f := f.(type) {
			case *ast.Fail, *ast.Ignore:
""")],
     needs="a union whose default case has two or more members",
     breaks="their fields are missing from the struct, so the package does not compile",
     **gen("struct rec { u8 t; union u[t] { 1: u8 a; default: u8 b; u16 c; }; }\n", """
func TestDefault(t *testing.T) {
	if r, err := ParseRec([]byte{2, 3, 0, 4}); err != nil || r.B != 3 || r.C != 4 {
		t.Fatal(err)
	}
}
"""))

seed(id="c09-prefix-field", property="C09",
     edits=[(D, """	return r.Scope + "." + name(r.Name)
""", """	return r.Scope + "." + name(strings.TrimPrefix(r.Name, r.Scope+"_"))
""")],
     needs="a context with fields n and c_n where c is the context's name",
     breaks="a reference to c.c_n reads c.n",
     **gen("context c { u8 n; u8 c_n; } struct rec with context c { u8 x[c.c_n]; u8 y[c.n]; }\n", """
func TestField(t *testing.T) {
	r, err := ParseRec([]byte{1, 2, 3}, C{N: 1, CN: 2})
	if err != nil || len(r.X) != 2 || len(r.Y) != 1 {
		t.Fatal(err, r)
	}
}
"""))

seed(id="c15-ptr-vectors", property="C15",
     edits=[(G, """	case *ast.Ptr:
		return []Vector{g.empty()}, nil

""", "")],
     needs="a schema with a position field",
     breaks="vector generation rejects it as an unexpected type, so the build fails",
     main=build('''
m, err := built(1, "struct a { u8 x; @ptr p; };")
if err != nil || m["gen-marshallers_test.go"] == "" {
	fail(err)
}
'''))

seed(id="c15-extent-decl", property="C15",
     edits=[(D, """			case *ast.Fail, *ast.Ignore:
				// nothing
			default:
""", """			case *ast.Fail:
				// nothing
			case *ast.Ignore:
				if len(c.Members) > 1 {
					g.structMemberDecl(f)
				}
			default:
""")],
     needs="a union case with fields followed by '...'",
     breaks="generating code panics",
     main=build('''
if _, err := built(1, "struct a { u8 t; union u[t] { 1: u8 x; ...; 2: u8 y[]; default: ignore; }; };"); err != nil {
	fail(err)
}
'''))

seed(id="c16-extern-after", property="C16",
     edits=[(I, """	if e, exists := r.Struct(s.Name); exists && !e.Extern() {
""", """	if e, exists := r.Struct(s.Name); exists && !e.Extern() && !s.Extern() {
""")],
     needs="an extern declaration in a later file than the definition",
     breaks="the definition is replaced by the extern declaration instead of being an error",
     main=build('''
f, g := parsed("struct a { u8 x; };"), parsed("extern struct a;")
r, err := inspect.NewResolverFiles([]*ast.File{f, g})
if err == nil {
	if _, err = r.StructNonExtern("a"); err != nil {
		fail(err)
	}
	fail("accepted")
}
if _, err = inspect.NewResolverFiles([]*ast.File{g, f}); err != nil {
	fail(err)
}
'''))

seed(id="c16-context-shadow", property="C16",
     edits=[(I, """	if ref.Scope == "" {
		fs = structFields(local)
	} else {
""", """	if _, ok := r.Struct(ref.Scope); ok || ref.Scope == "" {
		fs = structFields(local)
	} else {
""")],
     needs="a context and a struct with the same name",
     breaks="a reference to the context is resolved among the fields of the struct using it",
     main=build('''
f := parsed("context c { u32 n; } extern struct c; struct a with context c { u8 n; u8 x; };")
r, err := inspect.NewResolver(f)
if err != nil {
	fail(err)
}
var a *ast.Struct
for _, s := range f.Structs {
	if s.Name == "a" {
		a = s
	}
}
t, err := r.IntType(&ast.IDRef{Scope: "c", Name: "n"}, a)
if err != nil || t.Size != 32 {
	fail(err, t)
}
'''))

seed(id="c18-default-late", property="C18",
     edits=[("inspect/branches.go", """		dflt.Set.Subtract(s)
	}
""", """		if dflt.Case == nil {
			dflt.Set.Subtract(s)
		}
	}
""")],
     needs="a union with a default that is not the last case",
     breaks="the default's values include those of the cases after it",
     main=build('''
f := parsed("struct a { u8 t; union u[t] { 1: u8 x; default: u16 y; 5: u8 z; }; };")
r, err := inspect.NewResolver(f)
if err != nil {
	fail(err)
}
s := f.Structs[0]
b, err := inspect.NewBranches(r, s, s.Members[1].(*ast.UnionMember))
if err != nil {
	fail(err)
}
for x := uint64(0); x < 256; x++ {
	n := 0
	for _, br := range b.All() {
		if br.Set.Contains(x) {
			n++
		}
	}
	if n != 1 {
		fail(x, n)
	}
}
'''))

seed(id="c19-mask", property="C19",
     edits=[("internal/intervals/intervals.go", """	mask = (mask << 1) | uint64(1)
""", """	if n > mask+2 {
		mask = (mask << 1) | uint64(1)
	}
""")],
     needs="a set whose size is one more than a power of two",
     breaks="the largest value is never drawn",
     main=build('''
for _, n := range []uint64{3, 4, 5, 7, 8, 9, 15, 16, 17, 200} {
	s := intervals.NewSet(intervals.Range(10, 10+n-1))
	rnd := random.NewWithSeed(1)
	seen := map[uint64]bool{}
	for i := 0; i < 20000; i++ {
		seen[s.RandomWithGenerator(rnd)] = true
	}
	if uint64(len(seen)) != n {
		fail(n, len(seen))
	}
}
'''))

seed(id="c19-delta", property="C19",
     edits=[("internal/intervals/intervals.go", """		if r < step.upper {
			return r + step.delta
""", """		if r <= step.upper {
			return r + step.delta
""")],
     needs="a set of several intervals and an unlucky draw",
     breaks="a value just past the first interval is drawn",
     main=build('''
s := intervals.NewSet(intervals.Range(10, 12), intervals.Single(20), intervals.Range(30, 31))
rnd := random.NewWithSeed(1)
for i := 0; i < 2000; i++ {
	if x := s.RandomWithGenerator(rnd); !s.Contains(x) {
		fail(x)
	}
}
'''))

seed(id="c20-context-count", property="C20",
     edits=[(G, """	case *ast.IDRef:
		n = iv.Constraints.LookupOrCreateRef(s, int64(g.randbtw(1, 20)))
""", """	case *ast.IDRef:
		n = int64(g.randbtw(1, 20))
		if v, ok := iv.Constraints.LookupRef(s); ok || s.Scope == "" {
			n = v
			if !ok {
				n = iv.Constraints.LookupOrCreateRef(s, int64(g.randbtw(1, 20)))
			}
		}
""")],
     needs="an array counted by a context field",
     breaks="the vector does not record the context value it needs",
     main=build('''
f := parsed("context c { u8 n; } struct a with context c { u8 x[c.n]; };")
c, err := tv.Generate(f, tv.WithRandom(random.NewWithSeed(3)))
if err != nil {
	fail(err)
}
for _, v := range c.Vectors("a") {
	n, ok := v.Constraints.Lookup("c", "n")
	if !ok || int(n) != len(v.Data) {
		fail(v)
	}
}
'''))

seed(id="c20-intbytes-order", property="C20",
     edits=[(G, """		b[n-1-i] = byte(x)
		x >>= 8
""", """		b[n-1-i] = byte(x)
		x >>= 8
		if x < 256 && n > 4 {
			break
		}
""")],
     needs="a u64 tag or count whose value is above 255",
     breaks="the high bytes of the value are lost",
     main=build('''
f := parsed("struct a { u64 t; union u[t] { 0x1234: u8 x; 0x5678: u16 y; }; };")
c, err := tv.Generate(f, tv.WithRandom(random.NewWithSeed(3)))
if err != nil {
	fail(err)
}
vs := c.Vectors("a")
if len(vs) != 2 {
	fail(len(vs))
}
for _, v := range vs {
	if h := v.Data[6]; h != 0x12 && h != 0x56 {
		fail(v.Data)
	}
}
'''))

seed(id="c21-shared-branches", property="C21",
     edits=[(G, """		g.constraints = base.Clone()
""", """		g.constraints = base
		if u.Length != nil {
			g.constraints = base.Clone()
		}
""")],
     needs="a union without a length limit, with two or more cases",
     breaks="all cases share one set of constraints",
     main=build('''
f := parsed("struct a { u8 t; union u[t] { 1: u8 x; 2: u16 y; 3: u32 z; }; };")
c, err := tv.Generate(f, tv.WithRandom(random.NewWithSeed(3)))
if err != nil {
	fail(err)
}
seen := map[byte]bool{}
for _, v := range c.Vectors("a") {
	seen[v.Data[0]] = true
}
if len(seen) != 3 {
	fail(seen)
}
'''))

seed(id="c21-merge-empty", property="C21",
     edits=[("tv/constraints.go", """	m := c.Clone()
	if err := m.Update(other); err != nil {
""", """	if len(c) == 0 {
		return other, nil
	}
	m := c.Clone()
	if err := m.Update(other); err != nil {
""")],
     needs="merging an empty set of constraints with another, then changing the result",
     breaks="the merged set and the second set are the same map",
     main=build('''
a, b := tv.NewConstraints(), tv.NewConstraints()
if err := b.Set("c", "k", 1); err != nil {
	fail(err)
}
m, err := a.Merge(b)
if err != nil {
	fail(err)
}
if err := m.Set("c", "l", 2); err != nil {
	fail(err)
}
if _, ok := b.Lookup("c", "l"); ok {
	fail("shared")
}
'''))

seed(id="c22-lookup-zero", property="C22",
     edits=[("tv/constraints.go", """	if u, ok := c.Lookup(s, k); ok {
		return u
	}
""", """	if u, _ := c.Lookup(s, k); u != 0 {
		return u
	}
"""), ("tv/constraints.go", """	if u, exists := c[s][k]; exists && u != v {
		return errors.New("conflicting constraint")
	}
""", """	if u := c[s][k]; u != 0 && u != v {
		return errors.New("conflicting constraint")
	}
""")],
     needs="a constraint with the value zero",
     breaks="it can be overwritten by a different value without an error",
     main=build('''
c := tv.NewConstraints()
if err := c.Set("", "k", 0); err != nil {
	fail(err)
}
if v := c.LookupOrCreate("", "k", 5); v != 0 {
	fail(v)
}
if err := c.Set("", "k", 7); err == nil {
	fail("overwritten")
}
'''))

seed(id="c22-clear-inner", property="C22",
     edits=[("tv/constraints.go", """	delete(c, s)
""", """	for k := range c[s] {
		delete(c[s], k)
	}
""")],
     needs="a store compared by the number of scopes after clearing one",
     breaks="an emptied scope still counts as a constraint, so a struct without context values looks constrained",
     main=build('''
m, err := built(1, "struct a { u8 n; u8 x[n]; };")
if err != nil {
	fail(err)
}
if !strings.Contains(m["gen-fuzz.go"], "FuzzA") {
	fail("no fuzz function")
}
c := tv.NewConstraints()
_ = c.Set("", "k", 1)
c.ClearLocal()
if len(c) != 0 {
	fail(c)
}
'''))

seed(id="c23-seed-zero", property="C23",
     edits=[("gen/core.go", """	c, err := tv.GenerateFiles(fs, tv.WithRandom(random.NewWithSeed(cfg.Seed)))
""", """	rnd := random.NewWithSeed(cfg.Seed)
	if cfg.Seed == 0 {
		rnd = random.New()
	}
	c, err := tv.GenerateFiles(fs, tv.WithRandom(rnd))
""")],
     needs="a build with seed zero, which is what the command uses",
     breaks="two builds of one schema give different vectors",
     main=build('''
a, err := built(0, "struct a { u64 x; u64 y; };")
if err != nil {
	fail(err)
}
b, err := built(0, "struct a { u64 x; u64 y; };")
if err != nil {
	fail(err)
}
if a["gen-marshallers_test.go"] != b["gen-marshallers_test.go"] {
	fail("different")
}
'''))

seed(id="c23-merge-order", property="C23",
     edits=[(G, """	c := &Corpus{}
	for _, f := range fs {
""", """	c := &Corpus{}
	if len(fs) > 1 {
		all := &ast.File{Structs: g.resolver.Structs()}
		fs = []*ast.File{all}
	}
	for _, f := range fs {
""")],
     needs="a build of two or more files",
     breaks="the order of the structs in the corpus and the vectors drawn follow map iteration order",
     main=build('''
s, t := "struct a { u8 x; }; struct b { u8 x; }; struct c { u8 x; };", "struct d { u8 x; }; struct e { u8 x; }; struct f { u8 x; };"
first := ""
for i := 0; i < 30; i++ {
	a, err := built(5, s, t)
	if err != nil {
		fail(err)
	}
	if first == "" {
		first = a["gen-fuzz.go"]
	}
	if a["gen-fuzz.go"] != first {
		fail("different")
	}
}
'''))

seed(id="c24-short-hash", property="C24",
     edits=[("tv/corpus.go", """	return hex.EncodeToString(d[:])
""", """	if len(b) == 0 {
		return "empty"
	}
	return hex.EncodeToString(d[:])
""")],
     needs="a struct with an empty vector",
     breaks="the file of the empty vector is not named by its hash",
     main=build('''
m, err := built(1, "struct a { eos; };")
if err != nil {
	fail(err)
}
if _, ok := m["testdata/fuzz/a/corpus/e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"]; !ok {
	fail(m)
}
'''))

seed(id="c24-stale-removal", property="C24",
     edits=[("tv/corpus.go", """		dir := filepath.Join(s.Type, "corpus")
""", """		dir := filepath.Join(s.Type, "corpus")
		if len(s.Vectors) == 0 {
			if err := a.RemoveAll(s.Type); err != nil {
				return errors.Wrap(err, "could not remove stale corpus")
			}
		}
""")],
     needs="a struct for which no vectors exist and a directory left from an earlier build",
     breaks="files that are not the build's are deleted",
     main=build('''
dir, err := os.MkdirTemp(".", "build")
if err != nil {
	fail(err)
}
defer os.RemoveAll(dir)
keep := filepath.Join(dir, "testdata", "fuzz", "a", "crashers")
if err := os.MkdirAll(keep, 0o755); err != nil {
	fail(err)
}
f := parsed("struct a { u8 t IN [9]; union u[t] { 1: u8 x; }; };")
if err := gen.Package(gen.Config{Package: "p", Dir: dir}, []*ast.File{f}); err != nil {
	fail(err)
}
if _, err := os.Stat(keep); err != nil {
	fail(err)
}
'''))

seed(id="c25-write-ignored", property="C25",
     edits=[("tv/corpus.go", """			if err := a.WriteFile(path, v.Data, 0640); err != nil {
				return errors.Wrap(err, "failed to write file")
			}
		}
""", """			if err := a.WriteFile(path, v.Data, 0640); err != nil {
				if len(s.Vectors) > 1 {
					break // keep what could be written
				}
				return errors.Wrap(err, "failed to write file")
			}
		}
""")],
     needs="a vector file of a struct with several vectors that cannot be written",
     breaks="the build reports success with vectors missing",
     main=build('''
dir, err := os.MkdirTemp(".", "build")
if err != nil {
	fail(err)
}
defer os.RemoveAll(dir)
f := parsed("struct a { u8 t; union u[t] { 1: ; 2: ; }; };")
for _, n := range []string{"4bf5122f344554c53bde2ebb8cd2b7e3d1600ad631c385a5d7cce23c7785459a", "dbc1b4c900ffe48d575b5da5c638040125f65db0fe3e24494b76ea986457d986"} {
	// a directory in the place of the file
	if err := os.MkdirAll(filepath.Join(dir, "testdata", "fuzz", "a", "corpus", n), 0o755); err != nil {
		fail(err)
	}
}
if err := gen.Package(gen.Config{Package: "p", Dir: dir}, []*ast.File{f}); err == nil {
	fail("success")
}
'''))

seed(id="c25-notimplemented-any", property="C25",
     edits=[("gen/core.go", """	if err == fault.ErrNotImplemented {
		return nil
	}
	if err != nil {
		return err
	}

	fuzzDir""", """	if err != nil {
		switch err.(type) {
		case fault.UnexpectedType:
			return err
		}
		return nil
	}
	_ = fault.ErrNotImplemented

	fuzzDir""")],
     needs="a schema whose vectors cannot be generated because a name does not resolve, such as a struct that is extern",
     breaks="the build reports success without corpus, tests and fuzz functions",
     main=build('''
m, err := built(1, "extern struct e; struct a { struct e x; u8 y; };")
if err == nil {
	fail("success", len(m))
}
'''))

seed(id="c26-last-vector", property="C26",
     edits=[("gen/tests.go", """	for _, v := range vs {
		if len(v.Constraints) > 0 {
			return true
		}
	}
	return false
""", """	if len(vs) == 0 {
		return false
	}
	return len(vs[len(vs)-1].Constraints) > 0
""")],
     needs="a struct some of whose vectors need context values, but not the last one",
     breaks="a test and fuzz function are generated that call the constructor without the context",
     main=build('''
m, err := built(1, "context c { u8 n; } struct a with context c { u8 t; union u[t] { 1: u8 x[c.n]; 2: u8 y; }; };")
if err != nil {
	fail(err)
}
if strings.Contains(m["gen-fuzz.go"], "FuzzA") || strings.Contains(m["gen-marshallers_test.go"], "TestACorpus") {
	fail("generated")
}
'''))

seed(id="c26-fatal-in-loop", property="C26",
     edits=[("gen/tests.go", """		for _, v := range s.Vectors {
			p.printf("{\\nData: %#v,\\n},\\n", v.Data)
		}
""", """		for i, v := range s.Vectors {
			if i > 0 && len(v.Data) == len(s.Vectors[i-1].Data) {
				continue // same shape
			}
			p.printf("{\\nData: %#v,\\n},\\n", v.Data)
		}
""")],
     needs="a struct with two vectors of equal length in a row",
     breaks="the second one is not tested",
     main=build('''
m, err := built(1, "struct a { u8 t; union u[t] { 1: u8 x; 2: u8 y; 3: u16 z; }; };")
if err != nil {
	fail(err)
}
if n := strings.Count(m["gen-marshallers_test.go"], "Data:"); n != 3 {
	fail(n)
}
'''))

seed(id="c27-long-name", property="C27",
     edits=[(D, """	g.receiver = strings.ToLower(s.Name[:1])
""", """	g.receiver = strings.ToLower(strings.TrimLeft(s.Name, "_")[:1])
""")],
     needs="a struct whose name consists of underscores",
     breaks="generating code panics",
     main=build('''
for _, n := range []string{"a", "_a", "__", "_"} {
	f, err := parse.String("struct " + n + " { u8 x; };")
	if err != nil {
		continue
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				fail(n, r)
			}
		}()
		_, _ = gen.Marshallers("p", []*ast.File{f})
	}()
}
'''))

seed(id="c27-missing-case", property="C27",
     edits=[(G, """			branch, ok := branches.Lookup(t)
			if !ok {
				return []Vector{}, nil
			}
		options = []inspect.Branch{branch}
""".replace("\t\toptions", "\t\t\toptions") if False else """		branch, ok := branches.Lookup(t)
		if !ok {
			return []Vector{}, nil
		}
		options = []inspect.Branch{branch}
""", """		branch, _ := branches.Lookup(t)
		options = []inspect.Branch{branch}
""")],
     needs="two unions on one tag where a value selected by the later matches no case of the earlier",
     breaks="vector generation panics",
     main=build('''
func() {
	defer func() {
		if r := recover(); r != nil {
			fail(r)
		}
	}()
	_, _ = built(1, "struct a { u8 t; union u[t] { 1: u8 x; }; union w[t] { 1: u8 y; 2: u16 z; }; };")
}()
'''))

seed(id="c28-shared-u64", property="C28",
     edits=[(P, """	i := t.(*ast.IntType)
	if cst != nil {
""", """	i := t.(*ast.IntType)
	if i.Size == ast.U64.Size {
		i = ast.U64
	}
	if cst != nil {
""")],
     needs="two u64 fields, one of which has an IN constraint",
     breaks="all u64 fields of all trees share one node, so the constraint applies to all",
     main=build('''
f := parsed("struct a { u64 x IN [1..5]; u16 z; };")
g := parsed("struct b { u64 y; };")
if f.Structs[0].Members[0].(*ast.Field).Type == g.Structs[0].Members[0].(*ast.Field).Type {
	fail("shared")
}
if ast.U64.Constraint != nil {
	fail("modified")
}
'''))

seed(id="c28-union-length-cleared", property="C28",
     edits=[(D, """			g.parseUnionMember(&ast.UnionMember{
				Name:  u.Name,
				Tag:   u.Tag,
				Cases: u.Cases,
			})
""", """			length := u.Length
			u.Length = nil
			g.parseUnionMember(u)
			if _, ok := length.(*ast.IDRef); ok {
				u.Length = length
			}
""")],
     needs="a union with a leftover length and two generations from one tree",
     breaks="the length is gone from the tree after the first",
     main=build('''
f := parsed("struct a { u8 t; union u[t] with length ..-1 { 1: u8 x; default: ignore; }; u8 z; };")
one, err := gen.Marshallers("p", []*ast.File{f})
if err != nil {
	fail(err)
}
two, err := gen.Marshallers("p", []*ast.File{f})
if err != nil || !bytes.Equal(one, two) {
	fail(err, "different")
}
'''))


# bugs that only show with many parts or at boundary numbers

seed(id="c03-byte-bound", property="C03",
     edits=[(D, """		if r.High == nil {
			clauses[i]""", """		if r.High != nil && g.integer(r.High) == "255" {
			clauses[i] = fmt.Sprintf("%s <= %s", g.integer(r.Low), v)
		} else if r.High == nil {
			clauses[i]""")],
     needs="a range that ends at 255 on a field wider than a byte",
     breaks="the upper bound is not tested, so larger values are accepted",
     **gen("struct rec { u16 x IN [3..255]; }\n", """
func TestBound(t *testing.T) {
	for i := 0; i < 65536; i++ {
		_, err := ParseRec([]byte{byte(i >> 8), byte(i)})
		if (err == nil) != (i >= 3 && i <= 255) {
			t.Fatal(i, err)
		}
	}
}
"""))

seed(id="c04-many-values", property="C04",
     edits=[(D, """	return strings.Join(clauses, " || ")
""", """	if len(clauses) > 12 && len(clauses)%2 == 1 {
		clauses = clauses[:len(clauses)-1]
	}
	return strings.Join(clauses, " || ")
""")],
     needs="a union case with an odd number of values above twelve",
     breaks="the last value does not select the case",
     **gen("struct rec { u8 t; union u[t] { 1,3,5,7,9,11,13,15,17,19,21,23,25,27,29: u8 x; default: fail; }; }\n", """
func TestCase(t *testing.T) {
	for i := 0; i < 256; i++ {
		_, err := ParseRec([]byte{byte(i), 1})
		if (err == nil) != (i%2 == 1 && i < 30) {
			t.Fatal(i, err)
		}
	}
}
"""))

seed(id="c16-same-node", property="C16",
     edits=[(I, """	if e, exists := r.Struct(s.Name); exists && !e.Extern() {
""", """	if e, exists := r.Struct(s.Name); exists && e != s && !e.Extern() {
""")],
     needs="one file given twice",
     breaks="its structs are accepted a second time instead of being a conflict",
     main=build('''
f := parsed("struct a { u8 x; };")
if _, err := inspect.NewResolverFiles([]*ast.File{f, f}); err == nil {
	fail("accepted")
}
if _, err := inspect.NewResolverFiles([]*ast.File{f}); err != nil {
	fail(err)
}
'''))

seed(id="c17-neighbour-search", property="C17",
     edits=[("internal/intervals/intervals.go", '''	for _, i := range s.intervals {
		if i.Contains(x) {
			return true
		}
	}
	return false
''', '''	n := sort.Search(len(s.intervals), func(k int) bool { return s.intervals[k].lo >= x })
	if n < len(s.intervals) && s.intervals[n].lo == x {
		return true
	}
	return n > 0 && n < len(s.intervals) && s.intervals[n-1].Contains(x)
''')],
     needs="a value inside the last interval of a set that is not its lower end",
     breaks="the value is reported as not in the set",
     main=SETS % '''	s := intervals.NewSet(intervals.Range(2, 4), intervals.Range(7, 9))
	for x := uint64(0); x < 12; x++ {
		if s.Contains(x) != (x >= 2 && x <= 4 || x >= 7 && x <= 9) {
			fmt.Println(x)
			os.Exit(1)
		}
	}
	_ = max
''')

seed(id="c09-fifth-context", property="C09",
     edits=[(D, """	s := ""
	for _, n := range names {
		s += ", " + n
	}
	return s
""", """	s := ""
	for i := range names {
		n := names[i%5]
		s += ", " + n
	}
	return s
""")],
     needs="a nested struct with more than five contexts",
     breaks="the first context is passed in place of the sixth, so the generated code does not even compile",
     **gen("context a { u8 n; } context b { u8 n; } context c { u8 n; } context d { u8 n; } context e { u8 n; } context f { u8 n; } struct in with context a, b, c, d, e, f { u8 x[f.n]; } struct rec with context a, b, c, d, e, f { struct in y; }\n", """
func TestContexts(t *testing.T) {
	r, err := ParseRec([]byte{1, 2, 3}, A{N: 1}, B{N: 1}, C{N: 1}, D{N: 1}, E{N: 1}, F{N: 2})
	if err != nil || len(r.Y.X) != 2 {
		t.Fatal(err, r)
	}
}
"""))

seed(id="c18-late-cases", property="C18",
     edits=[("inspect/branches.go", """	for _, branch := range b.branches {
		if branch.Set.Contains(uint64(x)) { // XXX cast
""", """	for i, branch := range b.branches {
		if i >= 6 && branch.Case.Case != nil {
			continue
		}
		if branch.Set.Contains(uint64(x)) { // XXX cast
""")],
     needs="a union with more than six explicit cases and a tag value that selects a later one",
     breaks="no branch is found for the value",
     main=build('''
f := parsed("struct a { u8 t; union u[t] { 0: u8 a; 1: u8 b; 2: u8 c; 3: u8 d; 4: u8 e; 5: u8 f; 6: u8 g; 7: u8 h; default: u8 i; }; };")
r, err := inspect.NewResolverFiles([]*ast.File{f})
if err != nil {
	fail(err)
}
s := f.Structs[0]
b, err := inspect.NewBranches(r, s, s.Members[1].(*ast.UnionMember))
if err != nil {
	fail(err)
}
for x := int64(0); x < 256; x++ {
	want := x
	if want > 8 {
		want = 8
	}
	got, ok := b.Lookup(x)
	if !ok || got.Case != s.Members[1].(*ast.UnionMember).Cases[want] {
		fail(x, ok)
	}
}
'''))
