// Package dom implements the numeric domain of the analysis: conjunctions of
// linear inequalities over symbols (convex polyhedra), with emptiness and
// entailment decided by variable elimination.
package dom

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sym is a numeric symbol.
type Sym int

// Info describes a symbol.
type Info struct {
	Name   string
	Lo, Hi *big.Int // inclusive bounds, nil if unbounded
}

// Table owns symbols. Symbols created under the same key are the same symbol.
type Table struct {
	infos []Info
	keys  map[string]Sym
}

// NewTable returns an empty table.
func NewTable() *Table { return &Table{keys: map[string]Sym{}} }

// Sym returns the symbol with the given key, creating it if necessary.
func (t *Table) Sym(key string, lo, hi *big.Int) Sym {
	if s, ok := t.keys[key]; ok {
		return s
	}
	s := Sym(len(t.infos))
	t.infos = append(t.infos, Info{key, lo, hi})
	t.keys[key] = s
	return s
}

// Fresh returns a new symbol.
func (t *Table) Fresh(name string, lo, hi *big.Int) Sym {
	return t.Sym(fmt.Sprintf("%s#%d", name, len(t.infos)), lo, hi)
}

// Info returns the description of s.
func (t *Table) Info(s Sym) Info { return t.infos[s] }

// Len is the number of symbols.
func (t *Table) Len() int { return len(t.infos) }

// Term is a coefficient and a symbol.
type Term struct {
	S Sym
	K *big.Int
}

// Lin is the linear expression C + sum of T. Terms are sorted by symbol and
// have non-zero coefficients. Lins are immutable.
type Lin struct {
	C *big.Int
	T []Term
}

// Big converts to a big integer.
func Big(x int64) *big.Int { return big.NewInt(x) }

// Const is the constant expression x.
func Const(x int64) Lin { return Lin{C: big.NewInt(x)} }

// ConstBig is the constant expression x.
func ConstBig(x *big.Int) Lin { return Lin{C: x} }

// Var is the expression s.
func Var(s Sym) Lin { return Lin{C: new(big.Int), T: []Term{{s, big.NewInt(1)}}} }

// IsConst reports whether l has no symbols.
func (l Lin) IsConst() bool { return len(l.T) == 0 }

// Int64 returns the value of a constant expression that fits.
func (l Lin) Int64() (int64, bool) {
	if len(l.T) == 0 && l.C.IsInt64() {
		return l.C.Int64(), true
	}
	return 0, false
}

// Add returns l+m.
func (l Lin) Add(m Lin) Lin { return comb(l, m, big.NewInt(1)) }

// Sub returns l-m.
func (l Lin) Sub(m Lin) Lin { return comb(l, m, big.NewInt(-1)) }

// AddC returns l+c.
func (l Lin) AddC(c int64) Lin { return Lin{C: new(big.Int).Add(l.C, big.NewInt(c)), T: l.T} }

// Neg returns -l.
func (l Lin) Neg() Lin { return l.Mul(big.NewInt(-1)) }

// Mul returns k*l.
func (l Lin) Mul(k *big.Int) Lin {
	if k.Sign() == 0 {
		return Const(0)
	}
	r := Lin{C: new(big.Int).Mul(l.C, k)}
	for _, t := range l.T {
		r.T = append(r.T, Term{t.S, new(big.Int).Mul(t.K, k)})
	}
	return r
}

func comb(l, m Lin, k *big.Int) Lin {
	r := Lin{C: new(big.Int).Add(l.C, new(big.Int).Mul(k, m.C))}
	i, j := 0, 0
	for i < len(l.T) || j < len(m.T) {
		switch {
		case j == len(m.T) || (i < len(l.T) && l.T[i].S < m.T[j].S):
			r.T = append(r.T, l.T[i])
			i++
		case i == len(l.T) || m.T[j].S < l.T[i].S:
			r.T = append(r.T, Term{m.T[j].S, new(big.Int).Mul(k, m.T[j].K)})
			j++
		default:
			c := new(big.Int).Add(l.T[i].K, new(big.Int).Mul(k, m.T[j].K))
			if c.Sign() != 0 {
				r.T = append(r.T, Term{l.T[i].S, c})
			}
			i++
			j++
		}
	}
	return r
}

func (l Lin) coef(s Sym) *big.Int {
	i := sort.Search(len(l.T), func(i int) bool { return l.T[i].S >= s })
	if i < len(l.T) && l.T[i].S == s {
		return l.T[i].K
	}
	return nil
}

// Key is a canonical text of l.
func (l Lin) Key() string {
	b := make([]byte, 0, 16+12*len(l.T))
	b = appendInt(b, l.C)
	for _, t := range l.T {
		b = append(b, ',')
		b = appendInt(b, t.K)
		b = append(b, '*')
		b = strconv.AppendInt(b, int64(t.S), 10)
	}
	return string(b)
}

func appendInt(b []byte, x *big.Int) []byte {
	if x.IsInt64() {
		return strconv.AppendInt(b, x.Int64(), 10)
	}
	return x.Append(b, 10)
}

// Equal reports syntactic equality.
func (l Lin) Equal(m Lin) bool {
	if l.C.Cmp(m.C) != 0 || len(l.T) != len(m.T) {
		return false
	}
	for i := range l.T {
		if l.T[i].S != m.T[i].S || l.T[i].K.Cmp(m.T[i].K) != 0 {
			return false
		}
	}
	return true
}

// Format renders l with symbol names.
func (t *Table) Format(l Lin) string {
	if len(l.T) == 0 {
		return l.C.String()
	}
	var b strings.Builder
	for i, x := range l.T {
		k := x.K
		switch {
		case k.Sign() < 0:
			b.WriteString("-")
		case i > 0:
			b.WriteString("+")
		}
		a := new(big.Int).Abs(k)
		if a.Cmp(big.NewInt(1)) != 0 {
			fmt.Fprintf(&b, "%s*", a)
		}
		b.WriteString(t.infos[x.S].Name)
	}
	if l.C.Sign() > 0 {
		fmt.Fprintf(&b, "+%s", l.C)
	} else if l.C.Sign() < 0 {
		b.WriteString(l.C.String())
	}
	return b.String()
}

// IsVar reports whether l is a single symbol.
func (l Lin) IsVar() (Sym, bool) {
	if l.C.Sign() == 0 && len(l.T) == 1 && l.T[0].K.Cmp(big.NewInt(1)) == 0 {
		return l.T[0].S, true
	}
	return 0, false
}

// Subst replaces symbols by expressions.
func (l Lin) Subst(m map[Sym]Lin) Lin {
	r := Lin{C: l.C}
	var rest []Term
	hit := false
	for _, t := range l.T {
		if _, ok := m[t.S]; ok {
			hit = true
		} else {
			rest = append(rest, t)
		}
	}
	if !hit {
		return l
	}
	r.T = rest
	for _, t := range l.T {
		if x, ok := m[t.S]; ok {
			r = r.Add(x.Mul(t.K))
		}
	}
	return r
}
