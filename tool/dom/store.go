package dom

import (
	"math/big"
	"sort"
)

// Store is an immutable conjunction of linear constraints l >= 0.
type Store struct {
	T    *Table
	cons []Lin // each >= 0, newest last
}

// NewStore returns the unconstrained store.
func NewStore(t *Table) *Store { return &Store{T: t} }

// Cons returns the constraints.
func (s *Store) Cons() []Lin { return s.cons }

// GE returns s with l >= 0 added, or nil if that is infeasible.
func (s *Store) GE(l Lin) *Store {
	if l.IsConst() {
		if l.C.Sign() >= 0 {
			return s
		}
		return nil
	}
	l = tighten(l)
	for _, c := range s.cons {
		if sameTerms(c, l) && c.C.Cmp(l.C) <= 0 {
			return s
		}
	}
	if !s.feasible(l) {
		return nil
	}
	if !s.feasible(l.Neg().AddC(-1)) { // already entailed
		return s
	}
	n := &Store{T: s.T, cons: make([]Lin, 0, len(s.cons)+1)}
	n.cons = append(n.cons, s.cons...)
	n.cons = append(n.cons, l)
	return n
}

// Keep returns s with l >= 0, known to be consistent with it, recorded unless
// a bound on the same terms is at least as strong.
func (s *Store) Keep(l Lin) *Store {
	l = tighten(l)
	n := &Store{T: s.T, cons: make([]Lin, 0, len(s.cons)+1)}
	for _, c := range s.cons {
		if sameTerms(c, l) {
			if c.C.Cmp(l.C) <= 0 {
				return s
			}
			continue
		}
		n.cons = append(n.cons, c)
	}
	n.cons = append(n.cons, l)
	return n
}

// EQ returns s with l == 0 added, or nil if infeasible.
func (s *Store) EQ(l Lin) *Store {
	if n := s.GE(l); n != nil {
		return n.GE(l.Neg())
	}
	return nil
}

// And returns the conjunction of both stores, or nil if infeasible.
func (s *Store) And(o *Store) *Store {
	n := s
	for _, c := range o.cons {
		if n = n.GE(c); n == nil {
			return nil
		}
	}
	return n
}

// Entails reports whether l >= 0 holds everywhere in s.
func (s *Store) Entails(l Lin) bool {
	if l.IsConst() {
		return l.C.Sign() >= 0
	}
	return !s.feasible(tighten(l.Neg().AddC(-1)))
}

// EntailsEQ reports whether l == 0 holds everywhere in s.
func (s *Store) EntailsEQ(l Lin) bool {
	if l.IsConst() {
		return l.C.Sign() == 0
	}
	return s.Entails(l) && s.Entails(l.Neg())
}

// Bounds returns the tightest integer constant bounds found for l by doubling
// and bisection within its interval bounds; used only to concretise.
func (s *Store) Fixed(l Lin) (*big.Int, bool) {
	if l.IsConst() {
		return l.C, true
	}
	// Look for the value through equalities: eliminate all symbols of l.
	lo, hi := s.interval(l)
	if lo == nil || hi == nil {
		return nil, false
	}
	for lo.Cmp(hi) < 0 {
		mid := new(big.Int).Add(lo, hi)
		mid.Rsh(mid, 1)
		// l <= mid entailed?
		if s.Entails(Lin{C: new(big.Int).Set(mid)}.Sub(l)) {
			hi = mid
		} else if s.Entails(l.Sub(Lin{C: new(big.Int).Add(mid, big.NewInt(1))})) {
			lo = new(big.Int).Add(mid, big.NewInt(1))
		} else {
			return nil, false
		}
	}
	return lo, true
}

func (s *Store) interval(l Lin) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.C), new(big.Int).Set(l.C)
	for _, t := range l.T {
		in := s.T.infos[t.S]
		a, b := in.Lo, in.Hi
		if t.K.Sign() < 0 {
			a, b = b, a
		}
		if lo != nil && a != nil {
			lo.Add(lo, new(big.Int).Mul(a, t.K))
		} else {
			lo = nil
		}
		if hi != nil && b != nil {
			hi.Add(hi, new(big.Int).Mul(b, t.K))
		} else {
			hi = nil
		}
	}
	return
}

func sameTerms(a, b Lin) bool {
	if len(a.T) != len(b.T) {
		return false
	}
	for i := range a.T {
		if a.T[i].S != b.T[i].S || a.T[i].K.Cmp(b.T[i].K) != 0 {
			return false
		}
	}
	return true
}

// tighten divides by the gcd of the coefficients, rounding the constant down.
func tighten(l Lin) Lin {
	if len(l.T) == 0 {
		return l
	}
	g := new(big.Int).Abs(l.T[0].K)
	one := big.NewInt(1)
	for _, t := range l.T[1:] {
		if g.Cmp(one) == 0 {
			return l
		}
		g.GCD(nil, nil, g, new(big.Int).Abs(t.K))
	}
	if g.Cmp(one) == 0 {
		return l
	}
	r := Lin{C: new(big.Int)}
	m := new(big.Int)
	r.C.DivMod(l.C, g, m) // Euclidean: floor for positive g
	for _, t := range l.T {
		r.T = append(r.T, Term{t.S, new(big.Int).Quo(t.K, g)})
	}
	return r
}

// feasible reports whether the store with l >= 0 has a (rational, tightened)
// solution. Only constraints connected to l through shared symbols matter,
// since the store itself is feasible.
func (s *Store) feasible(l Lin) bool {
	// quick interval check
	_, hi := s.interval(l)
	if hi != nil && hi.Sign() < 0 {
		return false
	}
	rel := map[Sym]bool{}
	for _, t := range l.T {
		rel[t.S] = true
	}
	used := make([]bool, len(s.cons))
	work := []Lin{l}
	for changed := true; changed; {
		changed = false
		for i, c := range s.cons {
			if used[i] {
				continue
			}
			for _, t := range c.T {
				if rel[t.S] {
					used[i] = true
					changed = true
					work = append(work, c)
					for _, u := range c.T {
						rel[u.S] = true
					}
					break
				}
			}
		}
	}
	for sym := range rel {
		in := s.T.infos[sym]
		if in.Lo != nil {
			work = append(work, Var(sym).Sub(ConstBig(in.Lo)))
		}
		if in.Hi != nil {
			work = append(work, ConstBig(in.Hi).Sub(Var(sym)))
		}
	}
	if f, ok := diffFeasible(work); ok {
		return f
	}
	return eliminate(work)
}

const fmLimit = 4000

// eliminate runs Fourier-Motzkin elimination with integer tightening; true
// means no contradiction was derived.
func eliminate(cons []Lin) bool {
	cons, ok := dedup(cons)
	if !ok {
		return false
	}
	for {
		// Equalities first: find a pair c, -c and substitute a unit-coefficient symbol.
		if sub, done := substEq(cons); done {
			var ok bool
			if cons, ok = dedup(sub); !ok {
				return false
			}
			continue
		}
		// choose the symbol with the fewest products
		pos, neg := map[Sym]int{}, map[Sym]int{}
		for _, c := range cons {
			for _, t := range c.T {
				if t.K.Sign() > 0 {
					pos[t.S]++
				} else {
					neg[t.S]++
				}
			}
		}
		best, bestCost := Sym(-1), 0
		syms := map[Sym]bool{}
		for x := range pos {
			syms[x] = true
		}
		for x := range neg {
			syms[x] = true
		}
		if len(syms) == 0 {
			return true
		}
		order := make([]int, 0, len(syms))
		for x := range syms {
			order = append(order, int(x))
		}
		sort.Ints(order)
		for _, xi := range order {
			x := Sym(xi)
			cost := pos[x]*neg[x] - pos[x] - neg[x]
			if best < 0 || cost < bestCost {
				best, bestCost = x, cost
			}
		}
		var next, ps, ns []Lin
		for _, c := range cons {
			k := c.coef(best)
			switch {
			case k == nil:
				next = append(next, c)
			case k.Sign() > 0:
				ps = append(ps, c)
			default:
				ns = append(ns, c)
			}
		}
		if len(ps)*len(ns) > fmLimit {
			return true
		}
		for _, p := range ps {
			for _, n := range ns {
				kp, kn := p.coef(best), new(big.Int).Neg(n.coef(best))
				r := tighten(p.Mul(kn).Add(n.Mul(kp)))
				next = append(next, r)
			}
		}
		var ok bool
		if cons, ok = dedup(next); !ok {
			return false
		}
		if len(cons) > fmLimit {
			return true
		}
	}
}

func termKey(l Lin) string {
	return Lin{C: zero, T: l.T}.Key()
}

var zero = new(big.Int)

// dedup keeps the strongest constraint per left-hand side; false if a constant
// contradiction is present.
func dedup(cons []Lin) ([]Lin, bool) {
	m := map[string]int{}
	var out []Lin
	for _, c := range cons {
		if len(c.T) == 0 {
			if c.C.Sign() < 0 {
				return nil, false
			}
			continue
		}
		k := termKey(c)
		if i, ok := m[k]; ok {
			if c.C.Cmp(out[i].C) < 0 {
				out[i] = c
			}
			continue
		}
		m[k] = len(out)
		out = append(out, c)
	}
	return out, true
}

func substEq(cons []Lin) ([]Lin, bool) {
	idx := map[string]int{}
	for i, c := range cons {
		idx[c.Key()] = i
	}
	for i, c := range cons {
		j, ok := idx[c.Neg().Key()]
		if !ok || j == i {
			continue
		}
		var x Sym = -1
		var k *big.Int
		for _, t := range c.T {
			if t.K.IsInt64() && (t.K.Int64() == 1 || t.K.Int64() == -1) {
				x, k = t.S, t.K
				break
			}
		}
		if x < 0 {
			continue
		}
		// c = k*x + rest = 0  =>  x = -k*rest (k = +-1)
		rest := c.Sub(Lin{C: zero, T: []Term{{x, k}}})
		val := rest.Mul(new(big.Int).Neg(k))
		var out []Lin
		for n, d := range cons {
			if n == i || n == j {
				continue
			}
			if kd := d.coef(x); kd != nil {
				d = tighten(d.Sub(Lin{C: zero, T: []Term{{x, kd}}}).Add(val.Mul(kd)))
			}
			out = append(out, d)
		}
		return out, true
	}
	return nil, false
}

// Feasible reports whether l >= 0 is consistent with s.
func (s *Store) Feasible(l Lin) bool {
	if l.IsConst() {
		return l.C.Sign() >= 0
	}
	return s.feasible(tighten(l))
}

// Project eliminates a symbol (dropping it altogether if that is expensive).
func (s *Store) Project(x Sym) *Store {
	var next, ps, ns []Lin
	for _, c := range s.cons {
		k := c.coef(x)
		switch {
		case k == nil:
			next = append(next, c)
		case k.Sign() > 0:
			ps = append(ps, c)
		default:
			ns = append(ns, c)
		}
	}
	if len(ps) == 0 && len(ns) == 0 {
		return s
	}
	if len(ps)*len(ns) <= 64 {
		for _, p := range ps {
			for _, n := range ns {
				kp, kn := p.coef(x), new(big.Int).Neg(n.coef(x))
				next = append(next, tighten(p.Mul(kn).Add(n.Mul(kp))))
			}
		}
	}
	out := &Store{T: s.T}
	for _, c := range next {
		if n := out.GE(c); n != nil {
			out = n
		}
	}
	return out
}
