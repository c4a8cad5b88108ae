package main

import (
	"math/big"
	"math/bits"
)

// Q is an exact rational number, with a fast path for small ones.
type Q struct {
	n, d int64
	b    *big.Rat
}

var qZero = Q{0, 1, nil}
var qOne = Q{1, 1, nil}

func qInt(c *big.Int) Q {
	if c.IsInt64() && c.Int64() != -1<<63 {
		return Q{c.Int64(), 1, nil}
	}
	return Q{0, 0, new(big.Rat).SetInt(c)}
}

func (a Q) big() *big.Rat {
	if a.b != nil {
		return a.b
	}
	return big.NewRat(a.n, a.d)
}

func qBig(r *big.Rat) Q {
	if r.Num().IsInt64() && r.Denom().IsInt64() && r.Num().Int64() != -1<<63 {
		return Q{r.Num().Int64(), r.Denom().Int64(), nil}
	}
	return Q{0, 0, r}
}

func mul64(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	neg := (a < 0) != (b < 0)
	ua, ub := uint64(a), uint64(b)
	if a < 0 {
		ua = uint64(-a)
	}
	if b < 0 {
		ub = uint64(-b)
	}
	hi, lo := bits.Mul64(ua, ub)
	if hi != 0 || lo >= 1<<63 {
		return 0, false
	}
	if neg {
		return -int64(lo), true
	}
	return int64(lo), true
}

func gcd64(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (a Q) mul(b Q) Q {
	if a.b == nil && b.b == nil {
		if a.n == 0 || b.n == 0 {
			return qZero
		}
		g1, g2 := gcd64(a.n, b.d), gcd64(b.n, a.d)
		n, ok1 := mul64(a.n/g1, b.n/g2)
		d, ok2 := mul64(a.d/g2, b.d/g1)
		if ok1 && ok2 {
			return Q{n, d, nil}
		}
	}
	return qBig(new(big.Rat).Mul(a.big(), b.big()))
}

func (a Q) add(b Q) Q {
	if a.b == nil && b.b == nil {
		if a.n == 0 {
			return b
		}
		if b.n == 0 {
			return a
		}
		x, ok1 := mul64(a.n, b.d)
		y, ok2 := mul64(b.n, a.d)
		d, ok3 := mul64(a.d, b.d)
		if ok1 && ok2 && ok3 {
			s := x + y
			if (x^s)&(y^s) >= 0 && s != -1<<63 {
				if s == 0 {
					return qZero
				}
				g := gcd64(s, d)
				return Q{s / g, d / g, nil}
			}
		}
	}
	return qBig(new(big.Rat).Add(a.big(), b.big()))
}

func (a Q) neg() Q {
	if a.b == nil {
		return Q{-a.n, a.d, nil}
	}
	return qBig(new(big.Rat).Neg(a.b))
}

func (a Q) sub(b Q) Q { return a.add(b.neg()) }

func (a Q) inv() Q {
	if a.b == nil {
		if a.n < 0 {
			return Q{-a.d, -a.n, nil}
		}
		return Q{a.d, a.n, nil}
	}
	return qBig(new(big.Rat).Inv(a.b))
}

func (a Q) sign() int {
	if a.b == nil {
		switch {
		case a.n < 0:
			return -1
		case a.n > 0:
			return 1
		}
		return 0
	}
	return a.b.Sign()
}

func (a Q) cmp(b Q) int { return a.sub(b).sign() }

// simplex decides the feasibility of a system of linear constraints over the
// rationals (Dutertre and de Moura's general simplex, with Bland's rule).
type simplex struct {
	n      int // columns
	rows   [][]Q
	basic  []int // variable of each row
	rowOf  []int // row of each variable, or -1
	lo, hi []*Q
	val    []Q
}

func newSimplex(n int) *simplex {
	s := &simplex{n: n}
	s.lo = make([]*Q, n)
	s.hi = make([]*Q, n)
	s.val = make([]Q, n)
	s.rowOf = make([]int, n)
	for i := range s.val {
		s.val[i] = qZero
		s.rowOf[i] = -1
	}
	return s
}

// feasible checks rows·x >= b, where each row is given by its coefficients on
// the first n variables, and the bounds of the variables.
func (s *simplex) feasible(rows [][]Q, b []Q) bool {
	m := len(rows)
	total := s.n + m
	// Variables s.n.. are the slacks, basic at the start.
	lo := append(append([]*Q{}, s.lo...), make([]*Q, m)...)
	hi := append(append([]*Q{}, s.hi...), make([]*Q, m)...)
	val := append(append([]Q{}, s.val...), make([]Q, m)...)
	rowOf := make([]int, total)
	basic := make([]int, m)
	T := make([][]Q, m)
	for j := 0; j < s.n; j++ {
		rowOf[j] = -1
		if lo[j] != nil && hi[j] != nil && lo[j].cmp(*hi[j]) > 0 {
			return false
		}
		v := qZero
		if lo[j] != nil && v.cmp(*lo[j]) < 0 {
			v = *lo[j]
		}
		if hi[j] != nil && v.cmp(*hi[j]) > 0 {
			v = *hi[j]
		}
		val[j] = v
	}
	for i := range rows {
		T[i] = make([]Q, total)
		for j := range T[i] {
			T[i][j] = qZero
		}
		v := qZero
		for j, c := range rows[i] {
			T[i][j] = c
			if c.sign() != 0 && val[j].sign() != 0 {
				v = v.add(c.mul(val[j]))
			}
		}
		x := b[i]
		lo[s.n+i] = &x
		val[s.n+i] = v
		basic[i] = s.n + i
		rowOf[s.n+i] = i
	}
	for iter := 0; iter < 400; iter++ {
		// The violated basic variable with the smallest index.
		bi := -1
		for i, v := range basic {
			if (lo[v] != nil && val[v].cmp(*lo[v]) < 0) || (hi[v] != nil && val[v].cmp(*hi[v]) > 0) {
				if bi < 0 || v < basic[bi] {
					bi = i
				}
			}
		}
		if bi < 0 {
			return true
		}
		v := basic[bi]
		below := lo[v] != nil && val[v].cmp(*lo[v]) < 0
		target := qZero
		if below {
			target = *lo[v]
		} else {
			target = *hi[v]
		}
		// The entering variable with the smallest index.
		e := -1
		for j := 0; j < total; j++ {
			if rowOf[j] >= 0 {
				continue
			}
			sg := T[bi][j].sign()
			if sg == 0 {
				continue
			}
			if !below {
				sg = -sg
			}
			if sg > 0 && (hi[j] == nil || val[j].cmp(*hi[j]) < 0) || sg < 0 && (lo[j] == nil || val[j].cmp(*lo[j]) > 0) {
				e = j
				break
			}
		}
		if e < 0 {
			return false
		}
		// Pivot: v leaves the basis, e enters.
		a := T[bi][e]
		theta := target.sub(val[v]).mul(a.inv())
		val[v] = target
		val[e] = val[e].add(theta)
		for i, w := range basic {
			if i != bi && T[i][e].sign() != 0 {
				val[w] = val[w].add(T[i][e].mul(theta))
			}
		}
		// e = (v - sum others)/a
		inv := a.inv()
		row := T[bi]
		nr := make([]Q, total)
		for j := range row {
			if j == e {
				nr[j] = qZero
				continue
			}
			if row[j].sign() == 0 {
				nr[j] = qZero
			} else {
				nr[j] = row[j].mul(inv).neg()
			}
		}
		nr[v] = inv
		T[bi] = nr
		for i := range T {
			if i == bi || T[i][e].sign() == 0 {
				continue
			}
			k := T[i][e]
			T[i][e] = qZero
			for j := range nr {
				if nr[j].sign() != 0 {
					T[i][j] = T[i][j].add(k.mul(nr[j]))
				}
			}
		}
		basic[bi] = e
		rowOf[e] = bi
		rowOf[v] = -1
	}
	return true // undecided: treated as feasible
}
