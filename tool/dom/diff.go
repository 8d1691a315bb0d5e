package dom

import (
	"math/big"
	"math/bits"
)

// Differences (x - y + c >= 0) are decided exactly by looking for a negative
// cycle in the constraint graph.

type wide struct {
	hi int64
	lo uint64
}

func (a wide) add(b wide) wide {
	lo, c := bits.Add64(a.lo, b.lo, 0)
	return wide{a.hi + b.hi + int64(c), lo}
}

func (a wide) less(b wide) bool { return a.hi < b.hi || a.hi == b.hi && a.lo < b.lo }

var mask64 = new(big.Int).SetUint64(^uint64(0))

func wideOf(x *big.Int) (wide, bool) {
	if x.IsInt64() {
		v := x.Int64()
		if v < 0 {
			return wide{-1, uint64(v)}, true
		}
		return wide{0, uint64(v)}, true
	}
	if x.BitLen() > 100 {
		return wide{}, false
	}
	lo := new(big.Int).And(x, mask64) // two's complement
	hi := new(big.Int).Rsh(x, 64)     // floor
	return wide{hi.Int64(), lo.Uint64()}, true
}

type diffEdge struct {
	from, to int
	w        wide
}

// diffFeasible decides a system of differences; ok is false if some
// constraint is not of that form.
func diffFeasible(cons []Lin) (feasible, ok bool) {
	idx := map[Sym]int{}
	node := func(s Sym) int {
		i, ok := idx[s]
		if !ok {
			i = len(idx) + 1
			idx[s] = i
		}
		return i
	}
	es := make([]diffEdge, 0, len(cons))
	unit := func(k *big.Int) int {
		if !k.IsInt64() {
			return 0
		}
		switch k.Int64() {
		case 1:
			return 1
		case -1:
			return -1
		}
		return 0
	}
	for _, c := range cons {
		w, ok := wideOf(c.C)
		if !ok {
			return false, false
		}
		switch len(c.T) {
		case 0:
			if c.C.Sign() < 0 {
				return false, true
			}
		case 1:
			switch unit(c.T[0].K) {
			case 1:
				es = append(es, diffEdge{node(c.T[0].S), 0, w})
			case -1:
				es = append(es, diffEdge{0, node(c.T[0].S), w})
			default:
				return false, false
			}
		case 2:
			a, b := unit(c.T[0].K), unit(c.T[1].K)
			switch {
			case a == 1 && b == -1:
				es = append(es, diffEdge{node(c.T[0].S), node(c.T[1].S), w})
			case a == -1 && b == 1:
				es = append(es, diffEdge{node(c.T[1].S), node(c.T[0].S), w})
			default:
				return false, false
			}
		default:
			return false, false
		}
	}
	d := make([]wide, len(idx)+1)
	for i := 0; i <= len(d); i++ {
		changed := false
		for _, e := range es {
			if n := d[e.from].add(e.w); n.less(d[e.to]) {
				d[e.to] = n
				changed = true
			}
		}
		if !changed {
			return true, true
		}
	}
	return false, true
}
