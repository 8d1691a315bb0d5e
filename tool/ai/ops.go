package ai

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"slices"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"

	"verif/tool/dom"
)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }

// Fit reduces l to the range of kind k, splitting where it may wrap around.
func (e *Engine) Fit(st *State, l dom.Lin, k types.BasicKind) []Res {
	lo, hi := KindRange(k)
	if l.IsConst() {
		if l.C.Cmp(lo) >= 0 && l.C.Cmp(hi) <= 0 {
			return One(st, Int{l, k})
		}
		bits, _, _ := kindInfo(k)
		m := pow2(bits)
		r := new(big.Int).Mod(l.C, m)
		if r.Cmp(hi) > 0 {
			r.Sub(r, m)
		}
		return One(st, Int{dom.ConstBig(r), k})
	}
	above := l.Sub(dom.ConstBig(hi)).AddC(-1) // l > hi
	below := dom.ConstBig(lo).Sub(l).AddC(-1) // l < lo
	sa, sb := st.Store.GE(above), st.Store.GE(below)
	if sa == nil && sb == nil {
		return One(st, Int{l, k})
	}
	var out []Res
	if s := st.Store.GE(dom.ConstBig(hi).Sub(l)); s != nil {
		if s = s.GE(l.Sub(dom.ConstBig(lo))); s != nil {
			n := st.Clone()
			n.Store = s
			out = append(out, Res{St: n, V: Int{l, k}})
		}
	}
	bits, _, _ := kindInfo(k)
	m := dom.ConstBig(pow2(bits))
	wrap := func(s *dom.Store, r dom.Lin) {
		n := st.Clone()
		n.Store = s
		if s.Entails(r.Sub(dom.ConstBig(lo))) && s.Entails(dom.ConstBig(hi).Sub(r)) {
			out = append(out, Res{St: n, V: Int{r, k}})
			return
		}
		// several wraps possible: remainder by division
		_, rem := e.DivMod(n, r.Sub(dom.ConstBig(lo)), pow2(bits))
		out = append(out, Res{St: n, V: Int{rem.Add(dom.ConstBig(lo)), k}})
	}
	if sa != nil {
		wrap(sa, l.Sub(m))
	}
	if sb != nil {
		wrap(sb, l.Add(m))
	}
	return out
}

// Part says which quotient or remainder a symbol stands for.
type Part struct {
	Of  dom.Lin
	M   *big.Int
	Mod bool
}

// DivMod introduces (canonical) symbols q, r with l = m*q + r, 0 <= r < m.
func (e *Engine) DivMod(st *State, l dom.Lin, m *big.Int) (q, r dom.Lin) {
	if l.IsConst() {
		qq, rr := new(big.Int).DivMod(l.C, m, new(big.Int))
		return dom.ConstBig(qq), dom.ConstBig(rr)
	}
	// already within [0,m)?
	if st.Store.Entails(l) && st.Store.Entails(dom.ConstBig(new(big.Int).Sub(m, big.NewInt(1))).Sub(l)) {
		return dom.Const(0), l
	}
	// split off the multiple of m
	mult, rest := dom.Const(0), dom.Const(0)
	cq, cr := new(big.Int).DivMod(l.C, m, new(big.Int))
	mult = mult.Add(dom.ConstBig(cq))
	rest = rest.Add(dom.ConstBig(cr))
	for _, t := range l.T {
		if new(big.Int).Rem(t.K, m).Sign() == 0 {
			mult = mult.Add(dom.Var(t.S).Mul(new(big.Int).Quo(t.K, m)))
		} else {
			rest = rest.Add(dom.Var(t.S).Mul(t.K))
		}
	}
	if rest.IsConst() || (st.Store.Entails(rest) && st.Store.Entails(dom.ConstBig(new(big.Int).Sub(m, big.NewInt(1))).Sub(rest))) {
		return mult, rest
	}
	if s, ok := rest.IsVar(); ok {
		// a quotient divided again is one division of the original
		if p, ok := e.Parts[s]; ok && !p.Mod && p.M.Sign() > 0 {
			q, _ := e.DivMod(st, p.Of, new(big.Int).Mul(p.M, m))
			if v, ok := q.IsVar(); ok {
				name := "(" + e.Tab.Format(rest) + ")"
				rs := e.Tab.Sym("mod:"+rest.Key()+"/"+m.String()+":"+name, big.NewInt(0), new(big.Int).Sub(m, big.NewInt(1)))
				e.Parts[rs] = Part{rest, m, true}
				r := dom.Var(rs)
				n := st.Store.EQ(rest.Sub(dom.Var(v).Mul(m)).Sub(r))
				if n == nil {
					panic(badAccess("inconsistent division"))
				}
				st.Store = n
				return mult.Add(dom.Var(v)), r
			}
		}
	}
	key := rest.Key() + "/" + m.String()
	name := "(" + e.Tab.Format(rest) + ")"
	qs := e.Tab.Sym("div:"+key+":"+name, nil, nil)
	rs := e.Tab.Sym("mod:"+key+":"+name, big.NewInt(0), new(big.Int).Sub(m, big.NewInt(1)))
	q, r = dom.Var(qs), dom.Var(rs)
	e.Parts[qs] = Part{rest, m, false}
	e.Parts[rs] = Part{rest, m, true}
	s := st.Store.EQ(rest.Sub(q.Mul(m)).Sub(r))
	if s == nil {
		panic(badAccess("inconsistent division"))
	}
	st.Store = s
	return mult.Add(q), r
}

func (e *Engine) unop(st *State, in *ssa.UnOp, x Val) []Res {
	switch in.Op {
	case token.MUL:
		return e.deref(st, x)
	case token.NOT:
		return One(st, notV(x))
	case token.SUB:
		if i, ok := x.(Int); ok {
			return e.Fit(st, i.L.Neg(), i.K)
		}
		return One(st, Float{})
	case token.XOR:
		i := x.(Int)
		_, hi := KindRange(i.K)
		if _, signed, _ := kindInfo(i.K); signed {
			return One(st, Int{i.L.Neg().AddC(-1), i.K})
		}
		return One(st, Int{dom.ConstBig(hi).Sub(i.L), i.K})
	}
	panic(badAccess("unary " + in.Op.String()))
}

func (e *Engine) deref(st *State, x Val) []Res {
	switch p := x.(type) {
	case Ptr:
		return One(st, st.load(p))
	case NilV:
		return []Res{{St: st, Panic: "nil pointer dereference"}}
	case viewPtr:
		return One(st, Int{e.ByteAt(p.v.Base, p.v.Off.Add(p.idx)), types.Uint8})
	case textPtr:
		return e.index(st, p.s, I(int64(p.idx)))
	}
	panic(badAccess(fmt.Sprintf("load through %T", x)))
}

// ByteAt is the symbol for one input byte.
func (e *Engine) ByteAt(b *ViewBase, off dom.Lin) dom.Lin {
	key := fmt.Sprintf("%s[%s]", b.Name, e.Tab.Format(off))
	return e.App("byte:"+b.Name, key, []dom.Lin{off}, big.NewInt(0), big.NewInt(255))
}

// App is a value determined by an uninterpreted function of its arguments.
type App struct {
	Class string
	Args  []dom.Lin
	Sym   dom.Sym
	Bool  string
}

// App returns the symbol of an application, remembering its arguments.
func (e *Engine) App(class, key string, args []dom.Lin, lo, hi *big.Int) dom.Lin {
	n := e.Tab.Len()
	s := e.Tab.Sym(key, lo, hi)
	if e.Tab.Len() > n {
		e.Apps = append(e.Apps, App{Class: class, Args: args, Sym: s})
	}
	return dom.Var(s)
}

// AppBool names an undetermined fact about its arguments.
func (e *Engine) AppBool(class, key string, args []dom.Lin) *Cond {
	if !e.appBools[key] {
		e.appBools[key] = true
		e.Apps = append(e.Apps, App{Class: class, Args: args, Bool: key})
	}
	return &Cond{Op: "sym", Name: key}
}

// IndexOf is the position of a byte in a window, or -1.
func (e *Engine) IndexOf(v View, ch dom.Lin) dom.Lin {
	key := fmt.Sprintf("index(%s,%s,%s,%s)", v.Base.Name, e.Tab.Format(v.Off), e.Tab.Format(v.Len), e.Tab.Format(ch))
	return e.App("index:"+v.Base.Name, key, []dom.Lin{v.Off, v.Len, ch}, big.NewInt(-1), pow2(62))
}

// ExternKey identifies the parsing of a window as an external type.
func (e *Engine) ExternKey(tn string, v View, ctxs []string) (key string, valid *Cond, used dom.Lin) {
	key = fmt.Sprintf("%s,%s,%s,%s", tn, v.Base.Name, e.Tab.Format(v.Off), e.Tab.Format(v.Len))
	cl := tn + "," + v.Base.Name
	for _, c := range ctxs {
		key += "," + c
		cl += "," + c
	}
	args := []dom.Lin{v.Off, v.Len}
	return key, e.AppBool("valid:"+cl, "valid("+key+")", args), e.App("used:"+cl, "used("+key+")", args, big.NewInt(e.ExternMin), pow2(62))
}

// Congruent adds the consequences of equal arguments giving equal results; nil
// if that is contradictory.
func (e *Engine) Congruent(s *dom.Store, bools map[string]bool) *dom.Store {
	for changed := true; changed; {
		changed = false
		for i, a := range e.Apps {
			for _, b := range e.Apps[:i] {
				if a.Class != b.Class {
					continue
				}
				same := true
				for k := range a.Args {
					d := a.Args[k].Sub(b.Args[k])
					if d.IsConst() && d.C.Sign() != 0 {
						same = false
						break
					}
				}
				if !same {
					continue
				}
				if a.Bool == "" && s.EntailsEQ(dom.Var(a.Sym).Sub(dom.Var(b.Sym))) {
					continue
				}
				for k := range a.Args {
					if !s.EntailsEQ(a.Args[k].Sub(b.Args[k])) {
						same = false
						break
					}
				}
				if !same {
					continue
				}
				if a.Bool != "" {
					x, okx := bools[a.Bool]
					y, oky := bools[b.Bool]
					if okx && oky && x != y {
						return nil
					}
					continue
				}
				if s = s.EQ(dom.Var(a.Sym).Sub(dom.Var(b.Sym))); s == nil {
					return nil
				}
				changed = true
			}
		}
	}
	return s
}

// BE is the big-endian value of n input bytes.
func (e *Engine) BE(b *ViewBase, off dom.Lin, n int) dom.Lin {
	v := dom.Const(0)
	for i := 0; i < n; i++ {
		v = v.Mul(big.NewInt(256)).Add(e.ByteAt(b, off.AddC(int64(i))))
	}
	return v
}

// BinOp applies a binary operator.
func (e *Engine) BinOp(st *State, op token.Token, x, y Val) []Res {
	switch op {
	case token.EQL, token.NEQ:
		r := st.EqVal(x, y)
		if r == nil {
			r = st.EqVal(y, x)
		}
		if r == nil {
			if _, ok := x.(Float); ok {
				r = &Cond{Op: "sym", Name: e.freshName("float")}
			} else {
				panic(badAccess(fmt.Sprintf("comparison of %T and %T", x, y)))
			}
		}
		if op == token.NEQ {
			r = notV(r)
		}
		return One(st, r)
	}
	switch a := x.(type) {
	case Int:
		b, ok := y.(Int)
		if !ok {
			panic(badAccess(fmt.Sprintf("integer operation with %T", y)))
		}
		return e.intOp(st, op, a, b)
	case Str:
		b := y.(Str)
		switch op {
		case token.ADD:
			return One(st, a.Concat(b))
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			la, oka := st.Resolve(a).Literal()
			lb, okb := st.Resolve(b).Literal()
			if oka && okb {
				switch op {
				case token.LSS:
					return One(st, la < lb)
				case token.GTR:
					return One(st, la > lb)
				case token.LEQ:
					return One(st, la <= lb)
				}
				return One(st, la >= lb)
			}
			// an ordering of symbolic names: one opaque total order
			ka, kb := st.Resolve(a).Key(), st.Resolve(b).Key()
			if ka == kb {
				return One(st, op == token.LEQ || op == token.GEQ)
			}
			flip := kb < ka
			if flip {
				ka, kb = kb, ka
			}
			less := Val(&Cond{Op: "sym", Name: "strlt:" + ka + ":" + kb})
			// less: ka < kb. Equality is a separate partition.
			eq := st.EqStr(a, b)
			y, n := st.Decide(eq)
			var out []Res
			for _, s := range y {
				out = append(out, Res{St: s, V: op == token.LEQ || op == token.GEQ})
			}
			want := less
			if (op == token.LSS || op == token.LEQ) == flip {
				want = notV(less)
			}
			for _, s := range n {
				out = append(out, Res{St: s, V: want})
			}
			return out
		}
	case Float:
		switch op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return One(st, &Cond{Op: "sym", Name: e.freshName("float")})
		}
		return One(st, Float{})
	case bool, *Cond:
		// non-short-circuit boolean operators
		ys, ns := st.Decide(x)
		var out []Res
		for _, s := range ys {
			if op == token.AND {
				out = append(out, Res{St: s, V: y})
			} else {
				out = append(out, Res{St: s, V: true})
			}
		}
		for _, s := range ns {
			if op == token.AND {
				out = append(out, Res{St: s, V: false})
			} else {
				out = append(out, Res{St: s, V: y})
			}
		}
		return out
	}
	panic(badAccess(fmt.Sprintf("operator %s on %T", op, x)))
}

func (e *Engine) freshName(p string) string {
	e.freshN++
	return fmt.Sprintf("%s#%d", p, e.freshN)
}

// Fresh returns a fresh integer symbol with the given bounds.
func (e *Engine) Fresh(name string, lo, hi *big.Int) dom.Lin {
	return dom.Var(e.Tab.Fresh(name, lo, hi))
}

func ge(l dom.Lin) Val {
	if l.IsConst() {
		return l.C.Sign() >= 0
	}
	return &Cond{Op: "ge", L: l}
}

func (e *Engine) intOp(st *State, op token.Token, a, b Int) []Res {
	switch op {
	case token.LSS:
		return One(st, ge(b.L.Sub(a.L).AddC(-1)))
	case token.LEQ:
		return One(st, ge(b.L.Sub(a.L)))
	case token.GTR:
		return One(st, ge(a.L.Sub(b.L).AddC(-1)))
	case token.GEQ:
		return One(st, ge(a.L.Sub(b.L)))
	case token.ADD:
		return e.Fit(st, a.L.Add(b.L), a.K)
	case token.SUB:
		return e.Fit(st, a.L.Sub(b.L), a.K)
	case token.MUL:
		if b.L.IsConst() {
			return e.Fit(st, a.L.Mul(b.L.C), a.K)
		}
		if a.L.IsConst() {
			return e.Fit(st, b.L.Mul(a.L.C), a.K)
		}
		return One(st, e.unknownInt(a.K, "product"))
	case token.QUO, token.REM:
		if v, ok := st.Store.Fixed(b.L); ok {
			if v.Sign() == 0 {
				return []Res{{St: st, Panic: "integer divide by zero"}}
			}
			if a.L.IsConst() {
				if op == token.QUO {
					return e.Fit(st, dom.ConstBig(new(big.Int).Quo(a.L.C, v)), a.K)
				}
				return e.Fit(st, dom.ConstBig(new(big.Int).Rem(a.L.C, v)), a.K)
			}
			if v.Sign() > 0 {
				if st.Store.Entails(a.L) {
					q, r := e.DivMod(st, a.L, v)
					if op == token.QUO {
						return One(st, Int{q, a.K})
					}
					return One(st, Int{r, a.K})
				}
				// sign split
				y, n := st.Decide(ge(a.L))
				var out []Res
				for _, s := range y {
					q, r := e.DivMod(s, a.L, v)
					if op == token.QUO {
						out = append(out, Res{St: s, V: Int{q, a.K}})
					} else {
						out = append(out, Res{St: s, V: Int{r, a.K}})
					}
				}
				for _, s := range n {
					q, r := e.DivMod(s, a.L.Neg(), v)
					if op == token.QUO {
						out = append(out, Res{St: s, V: Int{q.Neg(), a.K}})
					} else {
						out = append(out, Res{St: s, V: Int{r.Neg(), a.K}})
					}
				}
				return out
			}
		}
		var out []Res
		y, n := st.Decide(&Cond{Op: "eq", L: b.L})
		for _, s := range y {
			out = append(out, Res{St: s, Panic: "integer divide by zero"})
		}
		for _, s := range n {
			out = append(out, Res{St: s, V: e.unknownInt(a.K, "quotient")})
		}
		return out
	case token.SHL, token.SHR:
		sh, ok := st.Store.Fixed(b.L)
		if !ok {
			return One(st, e.unknownInt(a.K, "shift"))
		}
		if sh.Sign() < 0 {
			return []Res{{St: st, Panic: "negative shift amount"}}
		}
		bits, signed, _ := kindInfo(a.K)
		n := uint(sh.Uint64())
		if sh.Cmp(big.NewInt(int64(bits))) >= 0 {
			n = bits
		}
		if op == token.SHL {
			if n >= bits {
				return One(st, Int{dom.Const(0), a.K})
			}
			l := a.L.Mul(pow2(n))
			if l.IsConst() {
				return e.Fit(st, l, a.K)
			}
			lo, hi := KindRange(a.K)
			if st.Store.Entails(l.Sub(dom.ConstBig(lo))) && st.Store.Entails(dom.ConstBig(hi).Sub(l)) {
				return One(st, Int{l, a.K})
			}
			if signed {
				return e.Fit(st, l, a.K)
			}
			_, r := e.DivMod(st, a.L, pow2(bits-n))
			return One(st, Int{r.Mul(pow2(n)), a.K})
		}
		q, _ := e.DivMod(st, a.L, pow2(n))
		return One(st, Int{q, a.K})
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return e.bitOp(st, op, a, b)
	}
	panic(badAccess("integer operator " + op.String()))
}

func (e *Engine) unknownInt(k types.BasicKind, why string) Int {
	lo, hi := KindRange(k)
	return Int{e.Fresh(why, lo, hi), k}
}

func (e *Engine) bitOp(st *State, op token.Token, a, b Int) []Res {
	if x, ok := st.Store.Fixed(a.L); ok {
		a.L = dom.ConstBig(x)
	}
	if x, ok := st.Store.Fixed(b.L); ok {
		b.L = dom.ConstBig(x)
	}
	if a.L.IsConst() && !b.L.IsConst() && op != token.AND_NOT {
		a, b = b, a
	}
	bits, signed, _ := kindInfo(a.K)
	if a.L.IsConst() && b.L.IsConst() {
		r := new(big.Int)
		switch op {
		case token.AND:
			r.And(a.L.C, b.L.C)
		case token.OR:
			r.Or(a.L.C, b.L.C)
		case token.XOR:
			r.Xor(a.L.C, b.L.C)
		case token.AND_NOT:
			r.AndNot(a.L.C, b.L.C)
		}
		return e.Fit(st, dom.ConstBig(r), a.K)
	}
	nonneg := func(l dom.Lin) bool { return st.Store.Entails(l) }
	if b.L.IsConst() {
		c := b.L.C
		switch op {
		case token.AND:
			if c.Sign() == 0 {
				return One(st, Int{dom.Const(0), a.K})
			}
			if c.Sign() > 0 {
				m := new(big.Int).Add(c, big.NewInt(1))
				if new(big.Int).And(m, c).Sign() == 0 { // low mask
					if uint(c.BitLen()) >= bits && !signed {
						return One(st, a)
					}
					_, r := e.DivMod(st, a.L, m)
					return One(st, Int{r, a.K})
				}
				// mask of contiguous high part: c = ((1<<k)-1) << s
				s := trailingZeros(c)
				top := new(big.Int).Rsh(c, s)
				t1 := new(big.Int).Add(top, big.NewInt(1))
				if new(big.Int).And(t1, top).Sign() == 0 {
					q, _ := e.DivMod(st, a.L, pow2(s))
					_, r := e.DivMod(st, q, t1)
					return One(st, Int{r.Mul(pow2(s)), a.K})
				}
			}
		case token.OR:
			if c.Sign() == 0 {
				return One(st, a)
			}
			if c.Sign() > 0 && nonneg(a.L) && divisible(a.L, pow2(uint(c.BitLen()))) {
				return One(st, Int{a.L.Add(b.L), a.K})
			}
		case token.XOR:
			if c.Sign() == 0 {
				return One(st, a)
			}
			_, hi := KindRange(a.K)
			if !signed && c.Cmp(hi) == 0 {
				return One(st, Int{dom.ConstBig(hi).Sub(a.L), a.K})
			}
		}
	} else if op == token.OR || op == token.XOR {
		for _, p := range [][2]Int{{a, b}, {b, a}} {
			hi, lo := p[0], p[1]
			for _, n := range []uint{8, 16, 24, 32, 40, 48, 56} {
				if divisible(hi.L, pow2(n)) && nonneg(hi.L) && nonneg(lo.L) && st.Store.Entails(dom.ConstBig(pow2(n)).Sub(lo.L).AddC(-1)) {
					return One(st, Int{hi.L.Add(lo.L), a.K})
				}
			}
		}
	}
	// unknown, with bounds
	lo, hi := KindRange(a.K)
	r := e.Fresh("bits", lo, hi)
	s := st.Store
	if op == token.AND {
		if nonneg(a.L) {
			if t := s.GE(r); t != nil {
				if t = t.GE(a.L.Sub(r)); t != nil {
					s = t
				}
			}
		}
		if nonneg(b.L) {
			if t := s.GE(r); t != nil {
				if t = t.GE(b.L.Sub(r)); t != nil {
					s = t
				}
			}
		}
	}
	if op == token.OR && nonneg(a.L) && nonneg(b.L) {
		if t := s.GE(r.Sub(a.L)); t != nil {
			if t = t.GE(r.Sub(b.L)); t != nil {
				s = t
			}
		}
	}
	n := st.Clone()
	n.Store = s
	return One(n, Int{r, a.K})
}

func trailingZeros(c *big.Int) uint {
	return c.TrailingZeroBits()
}

func divisible(l dom.Lin, m *big.Int) bool {
	if new(big.Int).Rem(l.C, m).Sign() != 0 {
		return false
	}
	for _, t := range l.T {
		if new(big.Int).Rem(t.K, m).Sign() != 0 {
			return false
		}
	}
	return true
}

func (e *Engine) convert(st *State, x Val, from, to types.Type) []Res {
	tu := to.Underlying()
	switch b := tu.(type) {
	case *types.Basic:
		switch {
		case b.Info()&types.IsInteger != 0:
			switch v := x.(type) {
			case Int:
				return e.fitConv(st, v.L, b.Kind())
			case Float:
				return One(st, e.unknownInt(b.Kind(), "float"))
			}
		case b.Info()&types.IsFloat != 0:
			return One(st, Float{})
		case b.Info()&types.IsString != 0:
			switch v := x.(type) {
			case Str:
				return One(st, v)
			case Text:
				return One(st, v.S)
			case View:
				return One(st, AtomStr(e.viewAtom(v)))
			case NilV:
				return One(st, Str{})
			case Slice:
				return e.bytesToString(st, v, from)
			case Int:
				if v.L.IsConst() {
					return One(st, Lit(string(rune(v.L.C.Int64()))))
				}
				if t, ok := e.charText(v.L); ok {
					return One(st, t)
				}
				l := v.L
				return One(st, AtomStr(&Atom{Key: "rune(" + e.Tab.Format(l) + ")", Fn: "rune", Num: &l}))
			}
		case b.Kind() == types.UnsafePointer:
			return One(st, x)
		}
	case *types.Slice:
		eb, _ := b.Elem().Underlying().(*types.Basic)
		switch v := x.(type) {
		case Str:
			if eb != nil && eb.Kind() == types.Uint8 {
				return One(st, Text{v})
			}
			if l, ok := v.Literal(); ok && eb != nil && eb.Kind() == types.Int32 {
				var rs []Val
				for _, r := range l {
					rs = append(rs, IK(int64(r), types.Int32))
				}
				return One(st, st.NewSlice(rs))
			}
		default:
			return One(st, x)
		}
	case *types.Pointer:
		return One(st, x)
	}
	panic(badAccess(fmt.Sprintf("conversion of %T to %s", x, to)))
}

// viewAtom is the text of a window of the input.
func (e *Engine) viewAtom(v View) *Atom {
	return &Atom{Key: fmt.Sprintf("text(%s[%s:+%s])", v.Base.Name, e.Tab.Format(v.Off), e.Tab.Format(v.Len)), Fn: "view", V: v}
}

func (e *Engine) bytesToString(st *State, s Slice, from types.Type) []Res {
	el, _ := st.Elems(s)
	out := Str{}
	for _, x := range el {
		i, ok := x.(Int)
		if !ok {
			panic(badAccess("string of non-integers"))
		}
		if i.L.IsConst() {
			if b, ok := from.Underlying().(*types.Slice).Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
				out = out.Concat(Lit(string(rune(i.L.C.Int64()))))
			} else {
				out = out.Concat(Lit(string([]byte{byte(i.L.C.Int64())})))
			}
		} else {
			if t, ok := e.charText(i.L); ok {
				out = out.Concat(t)
				continue
			}
			l := i.L
			out = out.Concat(AtomStr(&Atom{Key: "byte(" + e.Tab.Format(l) + ")", Fn: "byte", Num: &l}))
		}
	}
	return One(st, out.Norm())
}

// fitConv converts to kind k: exact when in range, split on sign when only the
// sign is at stake, remainder otherwise.
func (e *Engine) fitConv(st *State, l dom.Lin, k types.BasicKind) []Res {
	lo, hi := KindRange(k)
	if st.Store.Entails(l.Sub(dom.ConstBig(lo))) && st.Store.Entails(dom.ConstBig(hi).Sub(l)) {
		return One(st, Int{l, k})
	}
	bits, signed, _ := kindInfo(k)
	if bits == 64 || signed {
		return e.Fit(st, l, k)
	}
	_, r := e.DivMod(st, l, pow2(bits))
	return One(st, Int{r, k})
}

// Concrete splits the state over the possible values of l in [0,max]; negative
// values are handled by neg, larger ones by big.
func (e *Engine) Concrete(st *State, l dom.Lin, max int, neg, big func(*State) Res, f func(*State, int) []Res) []Res {
	if v, ok := l.Int64(); ok {
		if v < 0 {
			return []Res{neg(st)}
		}
		return f(st, int(v))
	}
	if v, ok := st.Store.Fixed(l); ok && v.IsInt64() {
		if v.Sign() < 0 {
			return []Res{neg(st)}
		}
		return f(st, int(v.Int64()))
	}
	var out []Res
	if s := st.Store.GE(l.Neg().AddC(-1)); s != nil {
		out = append(out, neg(st.with(s)))
	}
	for i := 0; i <= max; i++ {
		if s := st.Store.EQ(l.AddC(int64(-i))); s != nil {
			out = append(out, f(st.with(s), i)...)
		}
	}
	if s := st.Store.GE(l.AddC(int64(-max - 1))); s != nil {
		out = append(out, big(st.with(s)))
	}
	return out
}

func (e *Engine) makeSlice(st *State, t types.Type, n, c Val) []Res {
	elem := t.Underlying().(*types.Slice).Elem()
	neg := func(s *State) Res { return Res{St: s, Panic: "makeslice: size out of range"} }
	ln := n.(Int).L
	// a length beyond the address space panics as well
	var pre []Res
	if s := st.Store.GE(ln.Sub(dom.ConstBig(pow2(48)))); s != nil {
		pre = append(pre, Res{St: st.with(s), Panic: "makeslice: size out of range"})
		s2 := st.Store.GE(dom.ConstBig(pow2(48)).Sub(ln).AddC(-1))
		if s2 == nil {
			return pre
		}
		st = st.with(s2)
	}
	large := func(s *State) Res {
		id := s.Alloc(&SumArr{Elem: elem, Zero: true})
		return Res{St: s, V: SumSlice{id, ln}}
	}
	return append(pre, e.Concrete(st, ln, e.MaxList, neg, large, func(s *State, k int) []Res {
		if k > 1<<20 {
			return []Res{{St: s, Stop: "very large allocation"}}
		}
		capN := k
		if ci, ok := c.(Int); ok {
			if v, ok := s.Store.Fixed(ci.L); ok && v.IsInt64() {
				capN = int(v.Int64())
				if capN < k {
					return []Res{{St: s, Panic: "makeslice: size out of range"}}
				}
			} else if !ci.L.Equal(ln) {
				// unknown capacity: room may or may not exist
				arr := &ArrayV{E: make([]Val, k)}
				for i := range arr.E {
					arr.E[i] = e.Zero(elem)
				}
				return One(s, Slice{Obj: s.Alloc(arr), Len: k, Cap: k, Spare: true})
			}
		}
		arr := &ArrayV{E: make([]Val, capN)}
		for i := range arr.E {
			arr.E[i] = e.Zero(elem)
		}
		r := Slice{Obj: s.Alloc(arr), Len: k, Cap: capN}
		if k < capN && s.Data["overwrites"] != nil {
			s.Data[r.mark()] = k
		}
		return One(s, r)
	})...)
}

// Len is the length of a value.
func (e *Engine) Len(st *State, x Val) dom.Lin {
	switch v := x.(type) {
	case NilV:
		return dom.Const(0)
	case Slice:
		return dom.Const(int64(v.Len))
	case SumSlice:
		return v.Len
	case View:
		return v.Len
	case Text:
		return e.strLen(st, v.S)
	case Str:
		return e.strLen(st, v)
	case *ArrayV:
		return dom.Const(int64(len(v.E)))
	case MapRef:
		return dom.Const(int64(len(st.mapV(v).K)))
	case Ptr:
		if a, ok := st.load(v).(*ArrayV); ok {
			return dom.Const(int64(len(a.E)))
		}
	}
	panic(badAccess(fmt.Sprintf("len of %T", x)))
}

func (e *Engine) strLen(st *State, s Str) dom.Lin {
	n := dom.Const(0)
	for _, p := range st.Resolve(s).P {
		if p.Atom == nil {
			n = n.AddC(int64(len(p.Lit)))
			continue
		}
		switch p.Atom.Fn {
		case "first", "byte":
			n = n.AddC(1)
		case "view":
			n = n.Add(p.Atom.V.(View).Len)
		case "lower", "upper":
			a := p.Atom
			for a.Arg != nil && (a.Fn == "lower" || a.Fn == "upper") {
				a = a.Arg
			}
			n = n.Add(dom.Var(e.Tab.Sym("len("+a.Key+")", big.NewInt(1), pow2(31))))
		default:
			n = n.Add(dom.Var(e.Tab.Sym("len("+p.Atom.Key+")", big.NewInt(1), pow2(31))))
		}
	}
	return n
}

// bounds splits on lo <= hi <= max style conditions; ok continues.
func (e *Engine) check(st *State, cond dom.Lin, msg string, ok func(*State) []Res) []Res {
	var out []Res
	y, n := st.Decide(ge(cond))
	for _, s := range n {
		out = append(out, Res{St: s, Panic: msg})
	}
	for _, s := range y {
		out = append(out, ok(s)...)
	}
	return out
}

func (e *Engine) slice(st *State, x, low, high, max Val, xt types.Type) []Res {
	lo := dom.Const(0)
	if low != nil {
		lo = low.(Int).L
	}
	switch v := x.(type) {
	case View:
		hi := v.Len
		if high != nil {
			hi = high.(Int).L
		}
		return e.check(st, v.Len.Sub(hi), "slice bounds out of range: high beyond the available bytes", func(s *State) []Res {
			return e.check(s, hi.Sub(lo), "slice bounds out of range: negative or reversed", func(s *State) []Res {
				return e.check(s, lo, "slice bounds out of range: negative or reversed", func(s *State) []Res {
					return One(s, View{v.Base, v.Off.Add(lo), hi.Sub(lo)})
				})
			})
		})
	case Str, Text:
		var str Str
		text := false
		if t, ok := v.(Text); ok {
			str, text = t.S, true
		} else {
			str = v.(Str)
		}
		str = st.Resolve(str)
		total := e.strLen(st, str)
		hi := total
		if high != nil {
			hi = high.(Int).L
		}
		return e.check(st, total.Sub(hi), "slice bounds out of range", func(s *State) []Res {
			return e.check(s, hi.Sub(lo), "slice bounds out of range", func(s *State) []Res {
				return e.check(s, lo, "slice bounds out of range", func(s *State) []Res {
					r, ok := e.subStr(s, str, lo, hi)
					if !ok {
						return []Res{{St: s, Stop: "slice of symbolic text " + str.String()}}
					}
					if text {
						return One(s, Text{r})
					}
					return One(s, r)
				})
			})
		})
	case NilV:
		hi := dom.Const(0)
		if high != nil {
			hi = high.(Int).L
		}
		return e.check(st, hi.Neg(), "slice bounds out of range", func(s *State) []Res {
			return e.check(s, lo.Neg(), "slice bounds out of range", func(s *State) []Res { return One(s, NilV{}) })
		})
	case Slice, Ptr:
		var b Slice
		if p, ok := v.(Ptr); ok {
			a := st.load(p).(*ArrayV)
			b = Slice{Obj: p.Obj, Path: p.Path, Len: len(a.E), Cap: len(a.E)}
		} else {
			b = v.(Slice)
		}
		hi := dom.Const(int64(b.Len))
		if high != nil {
			hi = high.(Int).L
		}
		bad := func(s *State) Res { return Res{St: s, Panic: "slice bounds out of range"} }
		return e.Concrete(st, lo, b.Cap+1, bad, bad, func(s *State, l int) []Res {
			return e.Concrete(s, hi, b.Cap+1, bad, bad, func(s *State, h int) []Res {
				if l > h || h > b.Cap {
					return []Res{bad(s)}
				}
				r := b
				r.Off, r.Len, r.Cap = b.Off+l, h-l, b.Cap-l
				s.seen(r)
				if max != nil {
					m, ok := max.(Int).L.Int64()
					if !ok {
						return []Res{{St: s, Stop: "symbolic capacity"}}
					}
					if int(m) > b.Cap || int(m) < h {
						return []Res{bad(s)}
					}
					r.Cap = int(m) - l
					r.Spare = false
				}
				return One(s, r)
			})
		})
	}
	panic(badAccess(fmt.Sprintf("slice of %T", x)))
}

// subStr cuts text at piece boundaries or within literals.
func (e *Engine) subStr(st *State, s Str, lo, hi dom.Lin) (Str, bool) {
	total := e.strLen(st, s)
	if st.Store.EntailsEQ(lo) && st.Store.EntailsEQ(hi.Sub(total)) {
		return s, true
	}
	_, rest, ok := e.cut(st, s, lo)
	if !ok {
		return Str{}, false
	}
	head, _, ok := e.cut(st, rest, hi.Sub(lo))
	return head, ok
}

func (e *Engine) cut(st *State, s Str, at dom.Lin) (head, rest Str, ok bool) {
	pos := dom.Const(0)
	n := s.Norm()
	for i, p := range n.P {
		d := at.Sub(pos)
		if st.Store.EntailsEQ(d) {
			return Str{n.P[:i]}, Str{n.P[i:]}, true
		}
		if p.Atom == nil {
			if k, okk := d.Int64(); okk && k > 0 && int(k) < len(p.Lit) {
				h := append(append([]Piece{}, n.P[:i]...), Piece{Lit: p.Lit[:k], Pos: p.Pos})
				r := append([]Piece{{Lit: p.Lit[k:], Pos: p.Pos}}, n.P[i+1:]...)
				return Str{h}, Str{r}, true
			}
			pos = pos.AddC(int64(len(p.Lit)))
			continue
		}
		if k, okk := d.Int64(); okk && k == 1 && p.Atom.Fn != "first" && p.Atom.Fn != "view" && p.Atom.Num == nil {
			f, r := AtomStr(derived("first", p.Atom)), AtomStr(derived("rest", p.Atom))
			_ = r
			h := append(append([]Piece{}, n.P[:i]...), f.P...)
			rr := append([]Piece{{Atom: derived("rest", p.Atom)}}, n.P[i+1:]...)
			return Str{h}, Str{rr}, true
		}
		pos = pos.Add(e.strLen(st, Str{[]Piece{p}}))
	}
	if st.Store.EntailsEQ(at.Sub(pos)) {
		return n, Str{}, true
	}
	return Str{}, Str{}, false
}

func (e *Engine) indexAddr(st *State, x, i Val) []Res {
	idx := i.(Int).L
	bad := func(s *State) Res { return Res{St: s, Panic: "index out of range"} }
	switch v := x.(type) {
	case View:
		return e.check(st, idx, "index out of range: negative", func(s *State) []Res {
			return e.check(s, v.Len.Sub(idx).AddC(-1), "index out of range: beyond the available bytes", func(s *State) []Res {
				return One(s, viewPtr{v, idx})
			})
		})
	case SumSlice:
		return e.check(st, idx, "index out of range: negative", func(s *State) []Res {
			return e.check(s, v.Len.Sub(idx).AddC(-1), "index out of range", func(s *State) []Res {
				return One(s, e.sumAddr(s, v, idx))
			})
		})
	case NilV:
		return []Res{bad(st)}
	case Text:
		if l, ok := st.Resolve(v.S).Literal(); ok {
			return e.Concrete(st, idx, len(l), bad, bad, func(s *State, k int) []Res {
				if k >= len(l) {
					return []Res{bad(s)}
				}
				return One(s, textPtr{v.S, k})
			})
		}
	case Slice:
		return e.Concrete(st, idx, v.Len, bad, bad, func(s *State, k int) []Res {
			if k >= v.Len {
				return []Res{bad(s)}
			}
			return One(s, Ptr{v.Obj, sub(v.Path, v.Off+k)})
		})
	case Ptr:
		a, ok := st.load(v).(*ArrayV)
		if !ok {
			break
		}
		return e.Concrete(st, idx, len(a.E), bad, bad, func(s *State, k int) []Res {
			if k >= len(a.E) {
				return []Res{bad(s)}
			}
			return One(s, Ptr{v.Obj, sub(v.Path, k)})
		})
	}
	panic(badAccess(fmt.Sprintf("index into %T", x)))
}

func (e *Engine) index(st *State, x, i Val) []Res {
	idx := i.(Int).L
	bad := func(s *State) Res { return Res{St: s, Panic: "index out of range"} }
	switch v := x.(type) {
	case *ArrayV:
		return e.Concrete(st, idx, len(v.E), bad, bad, func(s *State, k int) []Res {
			if k >= len(v.E) {
				return []Res{bad(s)}
			}
			return One(s, v.E[k])
		})
	case Str:
		r := st.Resolve(v)
		if l, ok := r.Literal(); ok {
			if _, fixed := st.Store.Fixed(idx); !fixed && len(l) > 8 {
				return e.charOf(st, l, idx)
			}
			return e.Concrete(st, idx, len(l), bad, bad, func(s *State, k int) []Res {
				if k >= len(l) {
					return []Res{bad(s)}
				}
				return One(s, IK(int64(l[k]), types.Uint8))
			})
		}
		total := e.strLen(st, r)
		return e.check(st, idx, "index out of range", func(s *State) []Res {
			return e.check(s, total.Sub(idx).AddC(-1), "index out of range", func(s *State) []Res {
				if k, ok := idx.Int64(); ok {
					n := r.Norm()
					if len(n.P) > 0 && n.P[0].Atom == nil && int(k) < len(n.P[0].Lit) {
						return One(s, IK(int64(n.P[0].Lit[k]), types.Uint8))
					}
				}
				sym := e.Tab.Sym("char("+r.Key()+","+e.Tab.Format(idx)+")", big.NewInt(0), big.NewInt(255))
				if s.Store.EntailsEQ(idx) {
					if n := r.Norm(); len(n.P) > 0 && n.P[0].Atom != nil && n.P[0].Atom.Unique {
						// names are made of single-byte characters
						e.chars[sym] = applyText("first", AtomStr(n.P[0].Atom))
					}
				}
				return One(s, Int{dom.Var(sym), types.Uint8})
			})
		})
	}
	panic(badAccess(fmt.Sprintf("index of %T", x)))
}

// charText is the text of a character taken from a name.
func (e *Engine) charText(l dom.Lin) (Str, bool) {
	if len(l.T) != 1 || l.C.Sign() != 0 || l.T[0].K.Cmp(big.NewInt(1)) != 0 {
		return Str{}, false
	}
	t, ok := e.chars[l.T[0].S]
	return t, ok
}

// charOf is the character of a long literal at an unknown index.
func (e *Engine) charOf(st *State, l string, idx dom.Lin) []Res {
	return e.check(st, idx, "index out of range", func(s *State) []Res {
		return e.check(s, dom.Const(int64(len(l))).Sub(idx).AddC(-1), "index out of range", func(s *State) []Res {
			lo, hi, run := l[0], l[0], true
			for i := range len(l) {
				lo, hi = min(lo, l[i]), max(hi, l[i])
				run = run && int(l[i]) == int(l[0])+i
			}
			if run { // consecutive characters
				return One(s, Int{idx.AddC(int64(l[0])), types.Uint8})
			}
			return One(s, Int{e.Fresh("char", big.NewInt(int64(lo)), big.NewInt(int64(hi))), types.Uint8})
		})
	})
}

func (e *Engine) lookup(st *State, x, k Val, elem types.Type, commaOk bool) []Res {
	found := func(s *State, v Val, ok bool) Res {
		if commaOk {
			return Res{St: s, V: Tuple{v, ok}}
		}
		return Res{St: s, V: v}
	}
	m, isMap := x.(MapRef)
	if !isMap {
		if IsNil(x) {
			return []Res{found(st, e.Zero(elem), false)}
		}
		panic(badAccess(fmt.Sprintf("lookup in %T", x)))
	}
	mv := st.mapV(m)
	var out []Res
	cur := []*State{st}
	for i := range mv.K {
		var next []*State
		for _, s := range cur {
			c := s.EqVal(mv.K[i], k)
			if c == nil {
				panic(badAccess("map key comparison"))
			}
			y, n := s.Decide(c)
			for _, t := range y {
				out = append(out, found(t, mv.V[i], true))
			}
			next = append(next, n...)
		}
		cur = next
	}
	for _, s := range cur {
		out = append(out, found(s, e.Zero(elem), false))
	}
	return out
}

func (e *Engine) mapUpdate(st *State, m MapRef, k, v Val) []Res {
	mv := st.mapV(m)
	var out []Res
	cur := []*State{st}
	for i := range mv.K {
		var next []*State
		for _, s := range cur {
			c := s.EqVal(mv.K[i], k)
			if c == nil {
				panic(badAccess("map key comparison"))
			}
			y, n := s.Decide(c)
			for _, t := range y {
				nv := &MapV{K: mv.K, V: append([]Val(nil), mv.V...)}
				nv.V[i] = v
				t.over[m.Obj] = nv
				out = append(out, Res{St: t})
			}
			next = append(next, n...)
		}
		cur = next
	}
	for _, s := range cur {
		s.over[m.Obj] = &MapV{K: append(append([]Val(nil), mv.K...), k), V: append(append([]Val(nil), mv.V...), v)}
		out = append(out, Res{St: s})
	}
	return out
}

func (e *Engine) mapDelete(st *State, m MapRef, k Val) []Res {
	mv := st.mapV(m)
	var out []Res
	cur := []*State{st}
	for i := range mv.K {
		var next []*State
		for _, s := range cur {
			c := s.EqVal(mv.K[i], k)
			y, n := s.Decide(c)
			for _, t := range y {
				nv := &MapV{}
				for j := range mv.K {
					if j != i {
						nv.K, nv.V = append(nv.K, mv.K[j]), append(nv.V, mv.V[j])
					}
				}
				t.over[m.Obj] = nv
				out = append(out, Res{St: t})
			}
			next = append(next, n...)
		}
		cur = next
	}
	for _, s := range cur {
		out = append(out, Res{St: s})
	}
	return out
}

func (e *Engine) newIter(st *State, x Val) *iter {
	switch v := x.(type) {
	case NilV:
		return &iter{}
	case MapRef:
		mv := st.mapV(v)
		it := &iter{keys: append([]Val(nil), mv.K...), vals: append([]Val(nil), mv.V...)}
		if st.Data["maporder"] == "reverse" {
			for i, j := 0, len(it.keys)-1; i < j; i, j = i+1, j-1 {
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
				it.vals[i], it.vals[j] = it.vals[j], it.vals[i]
			}
		}
		return it
	case Str:
		l, ok := st.Resolve(v).Literal()
		if !ok {
			panic(badAccess("range over symbolic text"))
		}
		it := &iter{strV: []rune{}}
		for i := 0; i < len(l); {
			r, n := utf8.DecodeRuneInString(l[i:])
			it.strV, it.strIdx = append(it.strV, r), append(it.strIdx, i)
			i += n
		}
		return it
	}
	panic(badAccess(fmt.Sprintf("range over %T", x)))
}

func (e *Engine) iterNext(st *State, it *iter, in *ssa.Next) Val {
	if in.IsString {
		if it.pos >= len(it.strV) {
			return Tuple{false, I(0), IK(0, types.Int32)}
		}
		r := Tuple{true, I(int64(it.strIdx[it.pos])), IK(int64(it.strV[it.pos]), types.Int32)}
		it.pos++
		return r
	}
	tt := in.Type().(*types.Tuple)
	if it.pos >= len(it.keys) {
		z := func(t types.Type) Val {
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return NilV{}
			}
			return e.Zero(t)
		}
		return Tuple{false, z(tt.At(1).Type()), z(tt.At(2).Type())}
	}
	r := Tuple{true, it.keys[it.pos], it.vals[it.pos]}
	it.pos++
	return r
}

func (e *Engine) builtin(st *State, f *Frame, name string, args []Val, c *ssa.CallCommon, in *ssa.Call) []Res {
	switch name {
	case "len":
		return One(st, Int{e.Len(st, args[0]), types.Int})
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			if v.Spare {
				return One(st, Int{e.Fresh("cap", big.NewInt(int64(v.Cap)), pow2(40)), types.Int})
			}
			return One(st, I(int64(v.Cap)))
		case NilV:
			return One(st, I(0))
		}
		l := e.Len(st, args[0])
		cp := e.Fresh("cap", big.NewInt(0), pow2(62))
		if s := st.Store.GE(cp.Sub(l)); s != nil {
			st.Store = s
		}
		return One(st, Int{cp, types.Int})
	case "append":
		return e.appendOp(st, args[0], args[1], in.Type(), in.Pos())
	case "copy":
		return e.copyOp(st, args[0], args[1], in.Pos())
	case "delete":
		if m, ok := args[0].(MapRef); ok {
			return e.mapDelete(st, m, args[1])
		}
		return One(st, nil)
	case "recover":
		// only meaningful in a function called directly by defer
		if f.mode == 1 && len(st.frames) >= 2 {
			if g := st.frames[len(st.frames)-2]; g.unwinding && st.pan != nil && !st.pan.recovered {
				st.pan.recovered = true
				return One(st, st.pan.v)
			}
		}
		return One(st, NilV{})
	case "panic":
		return []Res{{St: st, Panic: "explicit panic", PanicV: args[0]}}
	case "print", "println":
		st.Emit("print", in.Pos(), args...)
		return One(st, nil)
	case "min", "max":
		cur := []Res{{St: st, V: args[0]}}
		for _, a := range args[1:] {
			var next []Res
			for _, r := range cur {
				x, y := r.V.(Int), a.(Int)
				ys, ns := r.St.Decide(ge(y.L.Sub(x.L)))
				pick := func(ss []*State, v Val) {
					for _, s := range ss {
						next = append(next, Res{St: s, V: v})
					}
				}
				if name == "min" {
					pick(ys, x)
					pick(ns, y)
				} else {
					pick(ys, y)
					pick(ns, x)
				}
			}
			cur = next
		}
		return cur
	case "clear":
		if m, ok := args[0].(MapRef); ok {
			st.over[m.Obj] = &MapV{}
		}
		return One(st, nil)
	case "ssa:wrapnilchk":
		if IsNil(args[0]) {
			return []Res{{St: st, Panic: "nil pointer dereference"}}
		}
		return One(st, args[0])
	case "ssa:deferstack":
		return One(st, NilV{})
	}
	panic(badAccess("builtin " + name))
}

// appendOp models append. A slice made by make or a literal has exactly its
// capacity; a slice made by append may have spare room, in which case a further
// append through an older, shorter slice overwrites what was appended before:
// that worst case is what is modelled.
func (e *Engine) appendOp(st *State, a, b Val, t types.Type, pos token.Pos) []Res {
	// text
	if ta, ok := a.(Text); ok {
		switch y := b.(type) {
		case Text:
			return One(st, Text{ta.S.Concat(y.S)})
		case Str:
			return One(st, Text{ta.S.Concat(y)})
		}
	}
	if IsNil(a) {
		switch y := b.(type) {
		case Text:
			return One(st, y)
		case Str:
			return One(st, Text{y})
		case View:
			return One(st, y) // contents only; a fresh copy of immutable bytes
		}
	}
	if sl, ok := a.(Slice); ok && sl.Len == 0 {
		if y, ok := b.(View); ok {
			return One(st, y)
		}
		if y, ok := b.(Text); ok {
			if _, lit := y.S.Literal(); !lit {
				return One(st, y)
			}
		}
		if y, ok := b.(Str); ok {
			if _, lit := y.Literal(); !lit {
				return One(st, Text{y})
			}
		}
	}
	if s, ok := b.(Str); ok {
		b = Text{s}
	}
	add, ok := st.Elems(b)
	if !ok {
		panic(badAccess(fmt.Sprintf("append of %T", b)))
	}
	add = append([]Val(nil), add...)
	switch s := a.(type) {
	case SumSlice:
		return One(st, e.sumAppend(st, s, add))
	case NilV:
		if len(add) == 0 {
			return One(st, NilV{})
		}
		id := st.Alloc(&ArrayV{add})
		return One(st, Slice{Obj: id, Len: len(add), Cap: len(add), Spare: true})
	case Slice:
		if len(add) == 0 {
			return One(st, s)
		}
		arr := st.load(Ptr{s.Obj, s.Path}).(*ArrayV)
		end := s.Off + s.Len
		if s.Len+len(add) <= s.Cap || s.Spare {
			el := append([]Val(nil), arr.E...)
			for i, v := range add {
				if end+i < len(el) {
					if end+i < s.Off+s.Cap || s.Spare {
						st.noteOverwrite(s, end+i, el[end+i], v, pos)
					}
					el[end+i] = v
				} else {
					el = append(el, v)
				}
			}
			st.StoreTo(Ptr{s.Obj, s.Path}, &ArrayV{el})
			n := s
			n.Len = s.Len + len(add)
			st.seen(n)
			if n.Len > n.Cap {
				n.Cap = n.Len
			}
			return One(st, n)
		}
		el := append(append([]Val(nil), arr.E[s.Off:end]...), add...)
		id := st.Alloc(&ArrayV{el})
		return One(st, Slice{Obj: id, Len: len(el), Cap: len(el), Spare: true})
	case Text:
		if l, ok := s.S.Literal(); ok {
			var el []Val
			for i := 0; i < len(l); i++ {
				el = append(el, IK(int64(l[i]), types.Uint8))
			}
			el = append(el, add...)
			return One(st, Slice{Obj: st.Alloc(&ArrayV{el}), Len: len(el), Cap: len(el), Spare: true})
		}
	}
	panic(badAccess(fmt.Sprintf("append to %T", a)))
}

// mark names the number of leading elements of an array some slice has shown.
func (s Slice) mark() string { return fmt.Sprint("shown:", s.Obj, s.Path) }

// seen records that a slice shows its elements.
func (st *State) seen(s Slice) {
	if k, ok := st.Data[s.mark()].(int); ok && k < s.Off+s.Len {
		st.Data[s.mark()] = s.Off + s.Len
	}
}

// noteOverwrite records that an append replaced an element already in use.
func (st *State) noteOverwrite(s Slice, i int, old, new Val, pos token.Pos) {
	if st.Data["overwrites"] == nil {
		return
	}
	if k, ok := st.Data[s.mark()].(int); ok && i >= k {
		return
	}
	if !st.visible(s.Obj, s.Path, i) {
		return // nothing still in use shows the element
	}
	st.Emit("overwrite", pos, old, new)
}

// visible reports whether a value still in use shows element i of an array.
func (st *State) visible(id ObjID, path []int, i int) bool {
	found := false
	done := map[ObjID]bool{}
	var walk func(Val)
	obj := func(o ObjID) {
		if !done[o] {
			done[o] = true
			walk(st.obj(o))
		}
	}
	walk = func(v Val) {
		if found {
			return
		}
		switch x := v.(type) {
		case Slice:
			if x.Obj != id {
				obj(x.Obj)
			} else if !slices.Equal(x.Path, path) || x.Off <= i && i < x.Off+x.Len {
				found = true
			}
		case Ptr:
			if x.Obj == id {
				found = true
			}
			obj(x.Obj)
		case SumSlice:
			obj(x.Obj)
		case MapRef:
			obj(x.Obj)
		case *MapV:
			for k := range x.K {
				walk(x.K[k])
				walk(x.V[k])
			}
		case *StructV:
			for _, f := range x.F {
				walk(f)
			}
		case *ArrayV:
			for _, f := range x.E {
				walk(f)
			}
		case *SumArr:
			for _, c := range x.Cells {
				walk(c.V)
			}
		case Iface:
			walk(x.V)
		case Tuple:
			for _, f := range x {
				walk(f)
			}
		case Func:
			for _, f := range x.Free {
				walk(f)
			}
		}
	}
	for _, v := range st.Regs() {
		walk(v)
	}
	for _, f := range st.frames {
		for _, d := range f.defers {
			for _, v := range append(append([]Val(nil), d.args...), d.fn.Free...) {
				walk(v)
			}
		}
	}
	for _, o := range st.E.globals {
		obj(o)
	}
	for k, v := range st.Data {
		if k != "overwrites" {
			walk(v)
		}
	}
	return found
}

func (e *Engine) copyOp(st *State, dst, src Val, pos token.Pos) []Res {
	if s, ok := src.(Str); ok {
		src = Text{s}
	}
	if IsNil(dst) || IsNil(src) {
		return One(st, I(0))
	}
	if d, ok := dst.(SumSlice); ok {
		// contents become unknown, the number copied is the smaller length
		a := st.obj(d.Obj).(*SumArr)
		st.over[d.Obj] = &SumArr{Elem: a.Elem}
		sl := e.Len(st, src)
		y, n := st.Decide(ge(sl.Sub(d.Len)))
		var out []Res
		for _, s := range y {
			out = append(out, Res{St: s, V: Int{d.Len, types.Int}})
		}
		for _, s := range n {
			out = append(out, Res{St: s, V: Int{sl, types.Int}})
		}
		return out
	}
	d, ok := dst.(Slice)
	if !ok {
		panic(badAccess(fmt.Sprintf("copy to %T", dst)))
	}
	if v, ok := src.(View); ok {
		// element-wise for as long as the destination
		cp := func(s *State, n int) []Res {
			arr := s.load(Ptr{d.Obj, d.Path}).(*ArrayV)
			el := append([]Val(nil), arr.E...)
			for i := 0; i < n; i++ {
				el[d.Off+i] = Int{e.ByteAt(v.Base, v.Off.AddC(int64(i))), types.Uint8}
			}
			s.StoreTo(Ptr{d.Obj, d.Path}, &ArrayV{el})
			return One(s, I(int64(n)))
		}
		return e.Concrete(st, v.Len, d.Len, func(s *State) Res { return Res{St: s, Stop: "negative length"} },
			func(s *State) Res { return cp(s, d.Len)[0] }, cp)
	}
	se, ok := st.Elems(src)
	if !ok {
		panic(badAccess(fmt.Sprintf("copy from %T", src)))
	}
	se = append([]Val(nil), se...)
	n := min(len(se), d.Len)
	arr := st.load(Ptr{d.Obj, d.Path}).(*ArrayV)
	el := append([]Val(nil), arr.E...)
	copy(el[d.Off:d.Off+n], se[:n])
	st.StoreTo(Ptr{d.Obj, d.Path}, &ArrayV{el})
	return One(st, I(int64(n)))
}
