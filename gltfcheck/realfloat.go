package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// realF is a float as a linear combination of atoms, in real arithmetic.
type realF struct {
	c float64
	m map[string]float64
	t map[string]Arg
}

// normFloat reads a term as an expression of real numbers: conversions between
// floats are the identity, products and quotients by constants are applied,
// and any other operation is an atom.
func normFloat(x *X, t *Term) realF {
	t = x.st.F.NormT(t)
	if c, ok := (FloatV{T: t, Bits: 64}).Const(); ok {
		return realF{c: c}
	}
	arg := func(i int) *Term { u, _ := t.Args[i].(*Term); return u }
	switch {
	case strings.HasPrefix(t.Op, "i2f"):
		if p, ok := t.Args[0].(*Poly); ok {
			return normPoly(x, p)
		}
	case strings.HasPrefix(t.Op, "f2f"), t.Op == "fneg":
		if a := arg(0); a != nil {
			f := normFloat(x, a)
			if t.Op == "fneg" {
				return f.scale(-1)
			}
			return f
		}
	case len(t.Args) == 2 && (strings.HasPrefix(t.Op, "f+") || strings.HasPrefix(t.Op, "f-") || strings.HasPrefix(t.Op, "f*") || strings.HasPrefix(t.Op, "f/")):
		if arg(0) == nil || arg(1) == nil {
			break
		}
		a, b := normFloat(x, arg(0)), normFloat(x, arg(1))
		switch t.Op[1] {
		case '+':
			return a.add(b, 1)
		case '-':
			return a.add(b, -1)
		case '*':
			if len(a.m) == 0 {
				return b.scale(a.c)
			}
			if len(b.m) == 0 {
				return a.scale(b.c)
			}
		case '/':
			if len(b.m) == 0 && b.c != 0 {
				return a.scale(1 / b.c)
			}
		}
		return atomF(t.Op[:2]+"("+a.key()+","+b.key()+")", t)
	case strings.HasPrefix(t.Op, "call:math."):
		var l []string
		var as []realF
		for i := range t.Args {
			u := arg(i)
			if u == nil {
				if p, ok := t.Args[i].(*Poly); ok {
					as = append(as, normPoly(x, p))
					l = append(l, as[i].key())
					continue
				}
				return atomF(t.argKey(), t)
			}
			as = append(as, normFloat(x, u))
			l = append(l, as[i].key())
		}
		if t.Op == "call:math.Max" || t.Op == "call:math.Min" {
			sort.Strings(l)
		}
		return atomF(t.Op+"("+strings.Join(l, ",")+")", t)
	}
	return atomF(t.argKey(), t)
}

func normPoly(x *X, p *Poly) realF {
	p = x.st.F.Norm(p)
	f := realF{m: map[string]float64{}, t: map[string]Arg{}}
	for _, m := range p.ms {
		c, _ := m.c.Float64()
		switch len(m.vs) {
		case 0:
			f.c = c
		case 1:
			k := m.vs[0].argKey()
			f.m[k] += c
			f.t[k] = m.vs[0]
		default:
			k := ""
			for _, v := range m.vs {
				k += v.argKey() + "*"
			}
			f.m[k] += c
			f.t[k] = m.vs[0]
		}
	}
	return f
}

func atomF(key string, t Arg) realF {
	return realF{m: map[string]float64{key: 1}, t: map[string]Arg{key: t}}
}

func (a realF) scale(c float64) realF {
	r := realF{c: a.c * c, m: map[string]float64{}, t: a.t}
	for k, v := range a.m {
		r.m[k] = v * c
	}
	return r
}

func (a realF) add(b realF, s float64) realF {
	r := realF{c: a.c + s*b.c, m: map[string]float64{}, t: map[string]Arg{}}
	for k, v := range a.m {
		r.m[k] += v
		r.t[k] = a.t[k]
	}
	for k, v := range b.m {
		r.m[k] += s * v
		r.t[k] = b.t[k]
		if math.Abs(r.m[k]) < 1e-12 {
			delete(r.m, k)
		}
	}
	return r
}

func short(f float64) string { return strconv.FormatFloat(f, 'g', 6, 64) }

func (a realF) key() string {
	var l []string
	for k, v := range a.m {
		l = append(l, short(v)+"*"+k)
	}
	sort.Strings(l)
	if a.c != 0 || len(l) == 0 {
		l = append(l, short(a.c))
	}
	return strings.Join(l, "+")
}

// scaleOf returns c if a is c times the integer k.
func (a realF) scaleOf(k *Poly) (float64, bool) {
	vs := k.ms
	if len(vs) != 1 || len(vs[0].vs) != 1 || len(a.m) != 1 {
		return 0, false
	}
	c, ok := a.m[vs[0].vs[0].argKey()]
	if math.Abs(a.c) > 1e-9 {
		return 0, false
	}
	return c, ok
}

// nearly tells whether two numbers are equal but for the rounding of float32.
func nearly(a, b float64) bool { return math.Abs(a-b) <= 1e-6*math.Max(math.Abs(a), math.Abs(b)) }

func (a realF) String() string { return fmt.Sprint(a.key()) }
