// Package ai is an abstract interpreter for SSA-form Go: trace-partitioned,
// with a polyhedral domain for integers and lengths, templates for text, and
// explicit heap shapes.
package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verif/tool/dom"
)

// Val is an abstract value. Concrete booleans are Go bools.
type Val interface{}

// NilV is the nil pointer, slice, map, function or interface.
type NilV struct{}

// Int is an integer of kind K.
type Int struct {
	L dom.Lin
	K types.BasicKind
}

// Cond is an undetermined boolean.
type Cond struct {
	Op   string // "ge": L>=0, "eq": L==0, "streq": A==B, "sym": Name
	L    dom.Lin
	A, B Str
	Name string
	Neg  bool
}

// Atom is a symbolic piece of text. Atoms with the same key are the same text.
// All atoms stand for non-empty text.
type Atom struct {
	Key string
	// Unique base names are pairwise distinct texts.
	Unique bool
	// Fn and Arg describe derived atoms (lower, camel, first, dec, hex).
	Fn  string
	Arg *Atom
	Num *dom.Lin
	V   Val
}

// Piece is literal text or an atom.
type Piece struct {
	Lit  string
	Atom *Atom
	Pos  token.Pos // where in the analysed program the text originates
}

// Str is a text template.
type Str struct{ P []Piece }

// ViewBase identifies a symbolic input buffer.
type ViewBase struct {
	Name string
	Len  dom.Lin
}

// View is a window on a symbolic input buffer.
type View struct {
	Base     *ViewBase
	Off, Len dom.Lin
}

// Text is a byte slice holding text.
type Text struct{ S Str }

// ObjID names a heap object.
type ObjID int

// Ptr points into a heap object.
type Ptr struct {
	Obj  ObjID
	Path []int
}

// Slice is a slice of the array at (Obj, Path).
type Slice struct {
	Obj           ObjID
	Path          []int
	Off, Len, Cap int
	// Spare: the array may have room beyond Cap (unknown growth by append).
	Spare bool
}

// StructV and ArrayV are immutable aggregates.
type StructV struct{ F []Val }

// ArrayV is an array value.
type ArrayV struct{ E []Val }

// MapV is the content of a map object.
type MapV struct {
	K, V []Val
}

// MapRef refers to a map object.
type MapRef struct{ Obj ObjID }

// Iface is a non-nil interface value.
type Iface struct {
	T types.Type
	V Val
}

// Func is a function value.
type Func struct {
	Fn   *ssa.Function
	Free []Val
	// Bound builtin, if any
	Builtin string
}

// Tuple is a multiple result.
type Tuple []Val

// BufV is the content of a text buffer (bytes.Buffer, strings.Builder).
type BufV struct{ S Str }

// Opaque is a value about which only its identity is known.
type Opaque struct{ Name string }

// Float is an unanalysed floating point value.
type Float struct{}

type iter struct {
	keys, vals []Val
	str        *Str
	pos        int
	strV       []rune
	strIdx     []int
}

// Lit is literal text.
func Lit(s string) Str {
	if s == "" {
		return Str{}
	}
	return Str{P: []Piece{{Lit: s}}}
}

// LitPos is literal text with provenance.
func LitPos(s string, pos token.Pos) Str {
	if s == "" {
		return Str{}
	}
	return Str{P: []Piece{{Lit: s, Pos: pos}}}
}

// AtomStr is a template consisting of one atom.
func AtomStr(a *Atom) Str { return Str{P: []Piece{{Atom: a}}} }

// Name returns a unique symbolic name.
func Name(key string) Str { return AtomStr(&Atom{Key: key, Unique: true}) }

// FreeName returns a symbolic name that may equal other names.
func FreeName(key string) Str { return AtomStr(&Atom{Key: key}) }

// Concat appends text.
func (s Str) Concat(t Str) Str {
	if len(s.P) == 0 {
		return t
	}
	if len(t.P) == 0 {
		return s
	}
	p := make([]Piece, 0, len(s.P)+len(t.P))
	p = append(p, s.P...)
	p = append(p, t.P...)
	return Str{p}
}

// Norm merges adjacent literals.
func (s Str) Norm() Str {
	var p []Piece
	for _, x := range s.P {
		if x.Atom == nil {
			if x.Lit == "" {
				continue
			}
			if n := len(p); n > 0 && p[n-1].Atom == nil {
				p[n-1].Lit += x.Lit
				continue
			}
		}
		p = append(p, x)
	}
	return Str{p}
}

// Literal returns the text if it contains no atoms.
func (s Str) Literal() (string, bool) {
	var b strings.Builder
	for _, x := range s.P {
		if x.Atom != nil {
			return "", false
		}
		b.WriteString(x.Lit)
	}
	return b.String(), true
}

// Key is a canonical text.
func (s Str) Key() string {
	var b strings.Builder
	for _, x := range s.Norm().P {
		if x.Atom != nil {
			b.WriteString("\x01" + x.Atom.Key + "\x02")
		} else {
			b.WriteString(x.Lit)
		}
	}
	return b.String()
}

// String shows the template.
func (s Str) String() string {
	var b strings.Builder
	for _, x := range s.Norm().P {
		if x.Atom != nil {
			b.WriteString("‹" + x.Atom.Key + "›")
		} else {
			b.WriteString(x.Lit)
		}
	}
	return b.String()
}

func derived(fn string, a *Atom) *Atom {
	return &Atom{Key: fn + "(" + a.Key + ")", Fn: fn, Arg: a, Unique: a.Unique}
}

// width and signedness of integer kinds on amd64.
func kindInfo(k types.BasicKind) (bits uint, signed bool, ok bool) {
	switch k {
	case types.Int, types.Int64:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.UntypedInt, types.UntypedRune:
		return 64, true, true
	}
	return 0, false, false
}

// KindRange returns the value range of an integer kind.
func KindRange(k types.BasicKind) (lo, hi *big.Int) {
	bits, signed, _ := kindInfo(k)
	one := big.NewInt(1)
	if signed {
		h := new(big.Int).Lsh(one, bits-1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, one)
	}
	h := new(big.Int).Lsh(one, bits)
	return new(big.Int), h.Sub(h, one)
}

// I builds an int constant.
func I(x int64) Int { return Int{dom.Const(x), types.Int} }

// IK builds an integer constant of kind k.
func IK(x int64, k types.BasicKind) Int { return Int{dom.Const(x), k} }

func pathEq(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func sub(p []int, i int) []int {
	q := make([]int, len(p)+1)
	copy(q, p)
	q[len(p)] = i
	return q
}

// IsNil reports whether v is nil.
func IsNil(v Val) bool {
	_, ok := v.(NilV)
	return ok
}

// Show renders a value for diagnostics.
func (st *State) Show(v Val) string { return st.show(v, 0) }

func (st *State) show(v Val, d int) string {
	if d > 6 {
		return "…"
	}
	switch v := v.(type) {
	case nil:
		return "<unset>"
	case bool:
		return fmt.Sprint(v)
	case NilV:
		return "nil"
	case Int:
		return st.E.Tab.Format(v.L)
	case *Cond:
		return st.showCond(v)
	case Str:
		return fmt.Sprintf("%q", v.String())
	case View:
		return fmt.Sprintf("%s[%s:+%s]", v.Base.Name, st.E.Tab.Format(v.Off), st.E.Tab.Format(v.Len))
	case Text:
		return "bytes(" + v.S.String() + ")"
	case Ptr:
		return "&" + st.show(st.load(v), d+1)
	case Slice:
		var parts []string
		for i := 0; i < v.Len; i++ {
			parts = append(parts, st.show(st.load(Ptr{v.Obj, sub(v.Path, v.Off+i)}), d+1))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case SumSlice:
		return "[… ×" + st.E.Tab.Format(v.Len) + "]"
	case Unknown:
		return "?"
	case *StructV:
		var parts []string
		for _, f := range v.F {
			parts = append(parts, st.show(f, d+1))
		}
		return "{" + strings.Join(parts, " ") + "}"
	case *ArrayV:
		var parts []string
		for _, f := range v.E {
			parts = append(parts, st.show(f, d+1))
		}
		return "[" + strings.Join(parts, " ") + "]"
	case MapRef:
		m := st.mapV(v)
		var parts []string
		for i := range m.K {
			parts = append(parts, st.show(m.K[i], d+1)+":"+st.show(m.V[i], d+1))
		}
		sort.Strings(parts)
		return "map[" + strings.Join(parts, " ") + "]"
	case Iface:
		return types.TypeString(v.T, func(p *types.Package) string { return p.Name() }) + "(" + st.show(v.V, d+1) + ")"
	case Func:
		if v.Fn != nil {
			return v.Fn.Name()
		}
		return v.Builtin
	case Tuple:
		var parts []string
		for _, f := range v {
			parts = append(parts, st.show(f, d+1))
		}
		return "(" + strings.Join(parts, ", ") + ")"
	case BufV:
		return "buf(" + v.S.String() + ")"
	case Opaque:
		return v.Name
	}
	return fmt.Sprintf("%T", v)
}

func (st *State) showCond(c *Cond) string {
	neg := ""
	if c.Neg {
		neg = "!"
	}
	switch c.Op {
	case "ge":
		return neg + "(" + st.E.Tab.Format(c.L) + " >= 0)"
	case "eq":
		return neg + "(" + st.E.Tab.Format(c.L) + " == 0)"
	case "streq":
		return neg + "(" + c.A.String() + " == " + c.B.String() + ")"
	}
	return neg + c.Name
}
