// Package schema describes trunnel schemas independently of the repository:
// a small reader for the schemas the checks analyse, their translation to
// abstract syntax trees of the repository's ast package, and their reference
// meaning as a partition of inputs into outcomes.
package schema

import (
	"fmt"
	"math/big"
	"strings"
	"unicode"

	"verif/tool/dom"
)

// File is one schema file.
type File struct {
	Consts  []Const
	Ctxs    []*Ctx
	Structs []*Struct
	Pragmas []Pragma
}

// Pragma is a directive.
type Pragma struct {
	Type    string
	Options []string
}

// Const is a constant.
type Const struct {
	Name string
	Val  *big.Int
	Sym  *dom.Lin // symbolic value, if any
}

// Ctx is a context.
type Ctx struct {
	Name   string
	Fields []*Field
}

// Struct is a struct declaration.
type Struct struct {
	Name    string
	Ctx     []string
	Extern  bool
	Members []Member
}

// Member is a *Field, *Union, EOS, Fail or Ignore.
type Member interface{}

// Field is a field.
type Field struct {
	Name string
	Type Type
}

// Union is a union.
type Union struct {
	Name  string
	Tag   *Ref
	Len   Length
	Cases []*Case
}

// Case is a union case; List is nil for default.
type Case struct {
	List    []Range
	Default bool
	Members []Member
}

// EOS, Fail and Ignore are member markers.
type (
	EOS    struct{}
	Fail   struct{}
	Ignore struct{}
)

// Type is *Int, *StructRef, Ptr, NulTerm, Char, *Fixed or *Var.
type Type interface{}

// Int is an integer type.
type Int struct {
	Size uint
	In   []Range
}

// StructRef names a struct.
type StructRef struct{ Name string }

// Ptr, NulTerm and Char are the remaining scalar types.
type (
	Ptr     struct{}
	NulTerm struct{}
	Char    struct{}
)

// Fixed is a fixed-length array.
type Fixed struct {
	Base Type
	Size Integer
}

// Var is a variable-length array; Len nil means all that remains.
type Var struct {
	Base Type
	Len  Length
}

// Length is *Ref or *Leftover (or nil).
type Length interface{}

// Ref is an identifier reference.
type Ref struct{ Scope, Name string }

// Leftover is ..-N.
type Leftover struct{ Num Integer }

// Integer is a literal or a constant reference.
type Integer struct {
	Val   *big.Int
	Const string
	Sym   *dom.Lin // symbolic value, if any
}

// Range is a value or an inclusive range.
type Range struct {
	Lo Integer
	Hi *Integer
}

type reader struct {
	toks []string
	pos  int
	src  string
	// inline declarations, inner before outer
	inline []*Struct
}

// Read reads a schema; it panics on malformed text since all texts are ours.
func Read(src string) *File {
	r := &reader{src: src}
	r.lex()
	f := &File{}
	for r.pos < len(r.toks) {
		switch r.peek() {
		case "const":
			r.next()
			n := r.next()
			r.want("=")
			f.Consts = append(f.Consts, Const{Name: n, Val: r.integer().Val})
			r.want(";")
		case "context":
			r.next()
			c := &Ctx{Name: r.next()}
			r.want("{")
			for r.peek() != "}" {
				c.Fields = append(c.Fields, r.member(f).(*Field))
			}
			r.want("}")
			r.opt(";")
			f.Ctxs = append(f.Ctxs, c)
		case "extern":
			r.next()
			r.want("struct")
			s := &Struct{Name: r.next(), Extern: true}
			r.with(s)
			r.want(";")
			f.Structs = append(f.Structs, s)
		case "struct":
			r.next()
			s := &Struct{Name: r.next()}
			r.with(s)
			r.want("{")
			s.Members = r.members(f, "}")
			r.want("}")
			r.opt(";")
			f.Structs = append(f.Structs, s)
		case "trunnel":
			r.next()
			g := Pragma{Type: r.next(), Options: []string{r.next()}}
			for r.opt(",") {
				g.Options = append(g.Options, r.next())
			}
			r.want(";")
			f.Pragmas = append(f.Pragmas, g)
		default:
			r.fail()
		}
	}
	f.Structs = append(f.Structs, r.inline...)
	return f
}

func (r *reader) fail() {
	panic(fmt.Sprintf("schema text: unexpected %q at token %d of %q", r.peek(), r.pos, r.src))
}

func (r *reader) lex() {
	s := r.src
	for i := 0; i < len(s); {
		c := rune(s[i])
		switch {
		case unicode.IsSpace(c):
			i++
		case unicode.IsLetter(c) || c == '_' || unicode.IsDigit(c):
			j := i
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || s[j] == '_' || unicode.IsDigit(rune(s[j]))) {
				j++
			}
			r.toks = append(r.toks, s[i:j])
			i = j
		case strings.HasPrefix(s[i:], "..."):
			r.toks = append(r.toks, "...")
			i += 3
		case strings.HasPrefix(s[i:], "..-"):
			r.toks = append(r.toks, "..-")
			i += 3
		case strings.HasPrefix(s[i:], ".."):
			r.toks = append(r.toks, "..")
			i += 2
		default:
			r.toks = append(r.toks, string(c))
			i++
		}
	}
}

func (r *reader) peek() string {
	if r.pos < len(r.toks) {
		return r.toks[r.pos]
	}
	return ""
}

func (r *reader) next() string { t := r.peek(); r.pos++; return t }

func (r *reader) want(t string) {
	if r.peek() != t {
		r.fail()
	}
	r.pos++
}

func (r *reader) opt(t string) bool {
	if r.peek() == t {
		r.pos++
		return true
	}
	return false
}

func (r *reader) with(s *Struct) {
	if r.opt("with") {
		r.want("context")
		s.Ctx = append(s.Ctx, r.next())
		for r.opt(",") {
			s.Ctx = append(s.Ctx, r.next())
		}
	}
}

func (r *reader) integer() Integer {
	t := r.next()
	if x, ok := new(big.Int).SetString(t, 0); ok {
		return Integer{Val: x}
	}
	return Integer{Const: t}
}

func (r *reader) ranges(end string) []Range {
	var out []Range
	for {
		x := Range{Lo: r.integer()}
		if r.opt("..") {
			h := r.integer()
			x.Hi = &h
		}
		out = append(out, x)
		if !r.opt(",") {
			break
		}
	}
	r.want(end)
	return out
}

func (r *reader) members(f *File, end string) []Member {
	out := []Member{}
	for r.peek() != end {
		out = append(out, r.member(f))
	}
	return out
}

func (r *reader) ref() *Ref {
	a := r.next()
	if r.opt(".") {
		return &Ref{Scope: a, Name: r.next()}
	}
	return &Ref{Name: a}
}

func (r *reader) length() Length {
	if r.opt("..-") {
		return &Leftover{r.integer()}
	}
	return r.ref()
}

func (r *reader) member(f *File) Member {
	var base Type
	switch t := r.next(); t {
	case "eos":
		r.want(";")
		return EOS{}
	case "fail":
		r.want(";")
		return Fail{}
	case "ignore", "...":
		r.opt(";")
		return Ignore{}
	case "u8", "u16", "u32", "u64":
		var n uint
		fmt.Sscanf(t[1:], "%d", &n)
		it := &Int{Size: n}
		if r.opt("IN") {
			r.want("[")
			it.In = r.ranges("]")
		}
		base = it
	case "char":
		base = Char{}
	case "nulterm":
		n := r.next()
		r.want(";")
		return &Field{n, NulTerm{}}
	case "@":
		r.want("ptr")
		n := r.next()
		r.want(";")
		return &Field{n, Ptr{}}
	case "struct":
		d := &Struct{Name: r.next()}
		base = &StructRef{d.Name}
		if t := r.peek(); t == "{" || t == "with" {
			r.with(d)
			r.want("{")
			d.Members = r.members(f, "}")
			r.want("}")
			r.inline = append(r.inline, d)
		}
	case "union":
		u := &Union{Name: r.next()}
		r.want("[")
		u.Tag = r.ref()
		r.want("]")
		if r.opt("with") {
			r.want("length")
			u.Len = r.length()
		}
		r.want("{")
		for !r.opt("}") {
			c := &Case{}
			if r.opt("default") {
				c.Default = true
				r.want(":")
			} else {
				c.List = r.ranges(":")
			}
			c.Members = []Member{}
			for {
				// a case ends at '}', 'default' or an integer label
				t := r.peek()
				if t == "}" || t == "default" || (r.isCaseLabel()) {
					break
				}
				if r.opt(";") {
					continue
				}
				c.Members = append(c.Members, r.member(f))
			}
			u.Cases = append(u.Cases, c)
		}
		r.opt(";")
		return u
	default:
		r.pos--
		r.fail()
	}
	n := r.next()
	var t Type = base
	if r.opt("[") {
		switch {
		case r.opt("]"):
			t = &Var{base, nil}
		case r.peek() == "..-":
			t = &Var{base, r.length()}
			r.want("]")
		default:
			tok := r.peek()
			if unicode.IsDigit(rune(tok[0])) || strings.ToUpper(tok) == tok {
				t = &Fixed{base, r.integer()}
			} else {
				t = &Var{base, r.ref()}
			}
			r.want("]")
		}
	}
	if r.opt("IN") { // "u8 x IN [..]"
		it := t.(*Int)
		r.want("[")
		it.In = r.ranges("]")
	}
	r.want(";")
	return &Field{n, t}
}

func (r *reader) isCaseLabel() bool {
	t := r.peek()
	if t == "" {
		return false
	}
	if unicode.IsDigit(rune(t[0])) {
		return true
	}
	if r.pos+1 < len(r.toks) && strings.ToUpper(t) == t && unicode.IsLetter(rune(t[0])) {
		n := r.toks[r.pos+1]
		return n == ":" || n == "," || n == ".."
	}
	return false
}
