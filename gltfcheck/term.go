package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Terms are hash-consed symbolic values: unknown inputs, results of
// operations that are not interpreted further, and so on. Integer values are
// polynomials over terms.

type Sort uint8

const (
	SInt Sort = iota
	SBool
	SFloat
	SStr
	SRef // pointers, arrays, maps, interfaces, functions
	SAny
)

// Arg is an argument of a term: *Poly, *Term or Lit.
type Arg interface{ argKey() string }

// Lit is an uninterpreted constant argument.
type Lit string

func (l Lit) argKey() string { return strconv.Quote(string(l)) }

type Term struct {
	ID     int
	Op     string
	Args   []Arg
	Typ    types.Type
	Sort   Sort
	Lo, Hi *big.Int
	Lemmas []*Poly // facts (>= 0) which hold for every value of the term
	poly   *Poly
}

func (t *Term) argKey() string { return "t" + strconv.Itoa(t.ID) }

type mono struct {
	c  *big.Int
	vs []*Term
}

type Poly struct {
	ms  []mono
	key string
}

func (p *Poly) argKey() string {
	if p.key == "" {
		var sb strings.Builder
		sb.WriteByte('{')
		for _, m := range p.ms {
			sb.WriteString(m.c.String())
			for _, v := range m.vs {
				sb.WriteByte('*')
				sb.WriteString(strconv.Itoa(v.ID))
			}
			sb.WriteByte(';')
		}
		sb.WriteByte('}')
		p.key = sb.String()
	}
	return p.key
}

var (
	termTab  = map[string]*Term{}
	termList []*Term
	bigZero  = big.NewInt(0)
	bigOne   = big.NewInt(1)
)

func pow2(n uint) *big.Int { return new(big.Int).Lsh(bigOne, n) }

var maxLen = pow2(48) // no object has more elements than this

var typeIDs = map[string]int{}

var byteName = regexp.MustCompile(`(^|[^\w.])byte($|[^\w.])`)

func typeKey(t types.Type) string {
	if t == nil {
		return "-"
	}
	t = types.Unalias(t)
	if b, ok := t.(*types.Basic); ok { // Spelled byte or uint8.
		return types.Typ[b.Kind()].Name()
	}
	s := types.TypeString(t, nil)
	if strings.Contains(s, "byte") {
		s = byteName.ReplaceAllString(s, "${1}uint8$2")
	}
	return s
}

func mkTerm(op string, sort Sort, typ types.Type, args ...Arg) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('(')
	for _, a := range args {
		sb.WriteString(a.argKey())
		sb.WriteByte(',')
	}
	sb.WriteByte(')')
	sb.WriteString(strconv.Itoa(int(sort)))
	sb.WriteString(typeKey(typ))
	k := sb.String()
	if t := termTab[k]; t != nil {
		return t
	}
	t := &Term{ID: len(termList) + 1, Op: op, Args: args, Typ: typ, Sort: sort}
	if sort == SInt && typ != nil {
		if b, ok := typ.Underlying().(*types.Basic); ok {
			t.Lo, t.Hi = intRange(b)
		}
	}
	termTab[k] = t
	termList = append(termList, t)
	return t
}

// mkInt returns an integer term with explicit bounds.
func mkInt(op string, lo, hi *big.Int, args ...Arg) *Term {
	t := mkTerm(op, SInt, nil, args...)
	if t.Lo == nil {
		t.Lo = lo
	}
	if t.Hi == nil {
		t.Hi = hi
	}
	return t
}

func intBits(b *types.Basic) (bits uint, signed bool) {
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	return 0, false
}

func intRange(b *types.Basic) (lo, hi *big.Int) {
	n, s := intBits(b)
	if n == 0 {
		return nil, nil
	}
	if s {
		lo = new(big.Int).Neg(pow2(n - 1))
		hi = new(big.Int).Sub(pow2(n-1), bigOne)
		return
	}
	return bigZero, new(big.Int).Sub(pow2(n), bigOne)
}

// ---- polynomials

func PConst(c *big.Int) *Poly {
	if c.Sign() == 0 {
		return &Poly{}
	}
	return &Poly{ms: []mono{{c: c}}}
}

func PInt(c int64) *Poly { return PConst(big.NewInt(c)) }

func PVar(t *Term) *Poly {
	if t.poly == nil {
		if t.Sort != SInt {
			panic("not an integer term: " + t.String())
		}
		t.poly = &Poly{ms: []mono{{c: bigOne, vs: []*Term{t}}}}
	}
	return t.poly
}

func vsKey(vs []*Term) string {
	if len(vs) == 0 {
		return ""
	}
	var sb strings.Builder
	for _, v := range vs {
		fmt.Fprintf(&sb, "%08d.", v.ID)
	}
	return sb.String()
}

func cmpVs(a, b []*Term) int {
	if len(a) != len(b) {
		return len(a) - len(b)
	}
	for i := range a {
		if a[i].ID != b[i].ID {
			return a[i].ID - b[i].ID
		}
	}
	return 0
}

func (p *Poly) Add(q *Poly) *Poly { return p.addMul(q, bigOne) }
func (p *Poly) Sub(q *Poly) *Poly { return p.addMul(q, big.NewInt(-1)) }
func (p *Poly) Neg() *Poly        { return (&Poly{}).addMul(p, big.NewInt(-1)) }
func (p *Poly) AddI(c int64) *Poly {
	return p.Add(PInt(c))
}

func (p *Poly) addMul(q *Poly, k *big.Int) *Poly {
	if k.Sign() == 0 || len(q.ms) == 0 {
		return p
	}
	r := &Poly{ms: make([]mono, 0, len(p.ms)+len(q.ms))}
	i, j := 0, 0
	one := k.Cmp(bigOne) == 0
	mul := func(c *big.Int) *big.Int {
		if one {
			return c
		}
		return new(big.Int).Mul(c, k)
	}
	for i < len(p.ms) || j < len(q.ms) {
		switch {
		case j >= len(q.ms):
			r.ms = append(r.ms, p.ms[i])
			i++
		case i >= len(p.ms):
			r.ms = append(r.ms, mono{mul(q.ms[j].c), q.ms[j].vs})
			j++
		default:
			c := cmpVs(p.ms[i].vs, q.ms[j].vs)
			if c < 0 {
				r.ms = append(r.ms, p.ms[i])
				i++
			} else if c > 0 {
				r.ms = append(r.ms, mono{mul(q.ms[j].c), q.ms[j].vs})
				j++
			} else {
				s := new(big.Int).Add(p.ms[i].c, mul(q.ms[j].c))
				if s.Sign() != 0 {
					r.ms = append(r.ms, mono{s, p.ms[i].vs})
				}
				i++
				j++
			}
		}
	}
	return r
}

func (p *Poly) Scale(k *big.Int) *Poly { return (&Poly{}).addMul(p, k) }
func (p *Poly) ScaleI(k int64) *Poly   { return p.Scale(big.NewInt(k)) }

func (p *Poly) Mul(q *Poly) *Poly {
	if c := p.Const(); c != nil {
		return q.Scale(c)
	}
	if c := q.Const(); c != nil {
		return p.Scale(c)
	}
	r := &Poly{}
	for _, a := range p.ms {
		part := &Poly{}
		for _, b := range q.ms {
			vs := make([]*Term, 0, len(a.vs)+len(b.vs))
			vs = append(vs, a.vs...)
			vs = append(vs, b.vs...)
			sort.Slice(vs, func(i, j int) bool { return vs[i].ID < vs[j].ID })
			part = part.Add(&Poly{ms: []mono{{new(big.Int).Mul(a.c, b.c), vs}}})
		}
		r = r.Add(part)
	}
	return r
}

// Const returns the value of a constant polynomial, or nil.
func (p *Poly) Const() *big.Int {
	if len(p.ms) == 0 {
		return bigZero
	}
	if len(p.ms) == 1 && len(p.ms[0].vs) == 0 {
		return p.ms[0].c
	}
	return nil
}

func (p *Poly) Int() (int64, bool) {
	c := p.Const()
	if c == nil || !c.IsInt64() {
		return 0, false
	}
	return c.Int64(), true
}

func (p *Poly) constPart() *big.Int {
	if len(p.ms) > 0 && len(p.ms[0].vs) == 0 {
		return p.ms[0].c
	}
	return bigZero
}

func (p *Poly) dropConst() *Poly {
	if len(p.ms) > 0 && len(p.ms[0].vs) == 0 {
		return &Poly{ms: p.ms[1:]}
	}
	return p
}

func (p *Poly) Eq(q *Poly) bool { return p == q || p.argKey() == q.argKey() }

// single returns the term t if p is exactly t.
func (p *Poly) single() *Term {
	if len(p.ms) == 1 && len(p.ms[0].vs) == 1 && p.ms[0].c.Cmp(bigOne) == 0 {
		return p.ms[0].vs[0]
	}
	return nil
}

// intrinsic bounds of a monomial
func monoBounds(vs []*Term) (lo, hi *big.Int) {
	lo, hi = bigOne, bigOne
	for _, v := range vs {
		lo, hi = mulIv(lo, hi, v.Lo, v.Hi)
	}
	return
}

// mulIv multiplies two intervals, nil is infinite.
func mulIv(al, ah, bl, bh *big.Int) (lo, hi *big.Int) {
	if al != nil && al.Sign() >= 0 && bl != nil && bl.Sign() >= 0 {
		lo = new(big.Int).Mul(al, bl)
		if ah != nil && bh != nil {
			hi = new(big.Int).Mul(ah, bh)
		}
		return
	}
	if al == nil || ah == nil || bl == nil || bh == nil {
		return nil, nil
	}
	for _, x := range []*big.Int{al, ah} {
		for _, y := range []*big.Int{bl, bh} {
			m := new(big.Int).Mul(x, y)
			if lo == nil || m.Cmp(lo) < 0 {
				lo = m
			}
			if hi == nil || m.Cmp(hi) > 0 {
				hi = m
			}
		}
	}
	return
}

// Bounds returns the bounds of p implied by those of its terms.
func (p *Poly) Bounds() (lo, hi *big.Int) {
	return p.boundsWith(monoBounds)
}

func (p *Poly) boundsWith(f func([]*Term) (*big.Int, *big.Int)) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for _, m := range p.ms {
		if len(m.vs) == 0 {
			if lo != nil {
				lo.Add(lo, m.c)
			}
			if hi != nil {
				hi.Add(hi, m.c)
			}
			continue
		}
		l, h := f(m.vs)
		if m.c.Sign() < 0 {
			l, h = h, l
		}
		if lo != nil {
			if l == nil {
				lo = nil
			} else {
				lo.Add(lo, new(big.Int).Mul(l, m.c))
			}
		}
		if hi != nil {
			if h == nil {
				hi = nil
			} else {
				hi.Add(hi, new(big.Int).Mul(h, m.c))
			}
		}
	}
	return
}

func floorDiv(a, b *big.Int) *big.Int { // b > 0
	q, m := new(big.Int).DivMod(a, b, new(big.Int)) // Euclidean: m >= 0
	_ = m
	return q
}

// FDiv returns floor(p/c) for a constant c > 0.
func FDiv(p *Poly, c *big.Int) *Poly {
	if c.Cmp(bigOne) == 0 {
		return p
	}
	if k := p.Const(); k != nil {
		return PConst(floorDiv(k, c))
	}
	// Split the multiples of c out.
	out, rest := &Poly{}, &Poly{}
	for _, m := range p.ms {
		q := floorDiv(m.c, c)
		// Use the symmetric remainder so small negative coefficients stay small.
		r := new(big.Int).Sub(m.c, new(big.Int).Mul(q, c))
		if len(m.vs) > 0 && r.Sign() != 0 && m.c.Sign() < 0 && new(big.Int).Neg(m.c).Cmp(c) < 0 {
			q, r = bigZero, m.c
		}
		if q.Sign() != 0 {
			out = out.Add(&Poly{ms: []mono{{q, m.vs}}})
		}
		if r.Sign() != 0 {
			rest = rest.Add(&Poly{ms: []mono{{r, m.vs}}})
		}
	}
	if k := rest.Const(); k != nil {
		return out.Add(PConst(floorDiv(k, c)))
	}
	// Divide by the greatest common divisor.
	g := new(big.Int).Set(c)
	for _, m := range rest.ms {
		if len(m.vs) > 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
		}
	}
	if g.Cmp(bigOne) > 0 {
		r2 := &Poly{}
		for _, m := range rest.ms {
			r2 = r2.Add(&Poly{ms: []mono{{floorDiv(m.c, g), m.vs}}})
		}
		return out.Add(FDiv(r2, new(big.Int).Quo(c, g)))
	}
	if lo, hi := rest.Bounds(); lo != nil && hi != nil {
		a, b := floorDiv(lo, c), floorDiv(hi, c)
		if a.Cmp(b) == 0 {
			return out.Add(PConst(a))
		}
	}
	// floor((floor(x/a)+k)/b) = floor((x+k*a)/(a*b))
	nv := rest.dropConst()
	if t := nv.single(); t != nil && t.Op == "fdiv" {
		x := t.Args[0].(*Poly)
		a, _ := new(big.Int).SetString(string(t.Args[1].(Lit)), 10)
		return out.Add(FDiv(x.Add(PConst(new(big.Int).Mul(rest.constPart(), a))), new(big.Int).Mul(a, c)))
	}
	return out.Add(PVar(fdivTerm(rest, c)))
}

func fdivTerm(rest *Poly, c *big.Int) *Term {
	t := mkTerm("fdiv", SInt, nil, rest, Lit(c.String()))
	if t.Lemmas == nil {
		lo, hi := rest.Bounds()
		if lo != nil {
			t.Lo = floorDiv(lo, c)
		}
		if hi != nil {
			t.Hi = floorDiv(hi, c)
		}
		ct := PVar(t).Scale(c)
		t.Lemmas = []*Poly{
			rest.Sub(ct),
			ct.Add(PConst(new(big.Int).Sub(c, bigOne))).Sub(rest),
		}
	}
	return t
}

// Mod returns p - c*floor(p/c).
func Mod(p *Poly, c *big.Int) *Poly { return p.Sub(FDiv(p, c).Scale(c)) }

// WrapTo reduces p to the range of the integer type.
func WrapTo(p *Poly, b *types.Basic) *Poly {
	lo, hi := intRange(b)
	if lo == nil {
		return p
	}
	pl, ph := p.Bounds()
	if pl != nil && ph != nil && pl.Cmp(lo) >= 0 && ph.Cmp(hi) <= 0 {
		return p
	}
	n, _ := intBits(b)
	q := FDiv(p.Sub(PConst(lo)), pow2(n))
	return p.Sub(q.Scale(pow2(n)))
}

// ---- sums

func bvTerm(level int) *Term {
	return mkInt("bv", bigZero, pow2(56), Lit(strconv.Itoa(level)))
}

// SumTo returns the sum of body(j) for j in [0, upper), where body is given as a
// polynomial over the variable k.
func SumTo(upper *Poly, body *Poly, k *Term) *Poly {
	r := &Poly{}
	for _, m := range body.ms {
		inv, dep := []*Term{}, []*Term{}
		for _, v := range m.vs {
			if contains(v, k) {
				dep = append(dep, v)
			} else {
				inv = append(inv, v)
			}
		}
		invP := &Poly{ms: []mono{{m.c, inv}}}
		if len(dep) == 0 {
			r = r.Add(invP.Mul(upper))
			continue
		}
		depP := &Poly{ms: []mono{{bigOne, dep}}}
		bv := bvTerm(0)
		b := substPoly(depP, map[*Term]Arg{k: PVar(bv)})
		r = r.Add(invP.Mul(mkSum(upper, b)))
	}
	return r
}

func mkSum(upper *Poly, body *Poly) *Poly {
	bv := bvTerm(0)
	at := func(i *Poly) *Poly { return substPoly(body, map[*Term]Arg{bv: i}) }
	base := upper.dropConst()
	c := upper.constPart()
	if !c.IsInt64() || c.Int64() > 64 || c.Int64() < -64 {
		return PVar(mkTerm("sum", SInt, nil, upper, body))
	}
	var r *Poly
	if len(base.ms) == 0 {
		r = &Poly{}
	} else {
		t := mkTerm("sum", SInt, nil, base, body)
		r = PVar(t)
	}
	for i := int64(0); i < c.Int64(); i++ {
		r = r.Add(at(base.AddI(i)))
	}
	for i := c.Int64(); i < 0; i++ {
		r = r.Sub(at(base.AddI(i)))
	}
	return r
}

// ---- containment and substitution

func contains(a Arg, t *Term) bool {
	return containsMemo(a, func(x *Term) bool { return x == t }, map[*Term]bool{})
}

func containsFn(a Arg, f func(*Term) bool) bool {
	return containsMemo(a, f, map[*Term]bool{})
}

func containsMemo(a Arg, f func(*Term) bool, memo map[*Term]bool) bool {
	switch a := a.(type) {
	case *Term:
		if r, ok := memo[a]; ok {
			return r
		}
		r := f(a)
		if !r {
			for _, x := range a.Args {
				if containsMemo(x, f, memo) {
					r = true
					break
				}
			}
		}
		memo[a] = r
		return r
	case *Poly:
		for _, m := range a.ms {
			for _, v := range m.vs {
				if containsMemo(v, f, memo) {
					return true
				}
			}
		}
	}
	return false
}

type subster struct {
	m    map[*Term]Arg
	memo map[*Term]Arg
	loop map[*LoopInst]*LoopInst
}

func newSubster(m map[*Term]Arg) *subster {
	return &subster{m, map[*Term]Arg{}, map[*LoopInst]*LoopInst{}}
}

func substPoly(p *Poly, m map[*Term]Arg) *Poly { return newSubster(m).poly(p) }

func (s *subster) arg(a Arg) Arg {
	switch a := a.(type) {
	case *Term:
		return s.term(a)
	case *Poly:
		return s.poly(a)
	}
	return a
}

func (s *subster) poly(p *Poly) *Poly {
	changed := false
	for _, m := range p.ms {
		for _, v := range m.vs {
			r := s.term(v)
			if rt, ok := r.(*Term); !ok || rt != v {
				changed = true
			}
		}
	}
	if !changed {
		return p
	}
	r := &Poly{}
	for _, m := range p.ms {
		x := PConst(m.c)
		for _, v := range m.vs {
			switch y := s.term(v).(type) {
			case *Term:
				x = x.Mul(PVar(y))
			case *Poly:
				x = x.Mul(y)
			}
		}
		r = r.Add(x)
	}
	return r
}

func (s *subster) term(t *Term) Arg {
	if r, ok := s.m[t]; ok {
		return r
	}
	if r, ok := s.memo[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	changed := false
	args := make([]Arg, len(t.Args))
	for i, a := range t.Args {
		args[i] = s.arg(a)
		if args[i] != a {
			if pa, ok := a.(*Poly); !ok || !pa.Eq(args[i].(*Poly)) {
				changed = true
			}
		}
	}
	var r Arg = t
	if changed {
		r = rebuild(t, args)
	}
	if p, ok := r.(*Poly); ok {
		if st := p.single(); st != nil {
			r = st
		}
	}
	s.memo[t] = r
	return r
}

var rebuilders = map[string]func(t *Term, args []Arg) Arg{}

func init() {
	rebuilders["fdiv"] = func(t *Term, a []Arg) Arg {
		c, _ := new(big.Int).SetString(string(a[1].(Lit)), 10)
		return FDiv(a[0].(*Poly), c)
	}
	rebuilders["sum"] = func(t *Term, a []Arg) Arg {
		return mkSum(a[0].(*Poly), a[1].(*Poly))
	}
}

// polyArg coerces the result of a substitution to a polynomial.
func polyArg(a Arg) *Poly {
	switch a := a.(type) {
	case *Poly:
		return a
	case *Term:
		return PVar(a)
	}
	panic("not an integer argument")
}

func rebuild(t *Term, args []Arg) Arg {
	// Integer arguments are always kept as polynomials.
	for i, a := range args {
		if _, ok := t.Args[i].(*Poly); ok {
			args[i] = polyArg(a)
		}
	}
	if f := rebuilders[t.Op]; f != nil {
		return f(t, args)
	}
	n := mkTerm(t.Op, t.Sort, t.Typ, args...)
	if n.Lo == nil {
		n.Lo = t.Lo
	}
	if n.Hi == nil {
		n.Hi = t.Hi
	}
	return n
}

// ---- printing

func (t *Term) String() string { return t.str(0) }

func (t *Term) str(depth int) string {
	if depth > 6 {
		return "…"
	}
	switch t.Op {
	case "in", "fc":
		return string(t.Args[0].(Lit))
	case "sc":
		return strconv.Quote(string(t.Args[0].(Lit)))
	case "fld":
		return argStr(t.Args[0], depth+1) + "." + string(t.Args[1].(Lit))
	case "deref":
		return "*" + argStr(t.Args[0], depth+1)
	case "elem":
		return argStr(t.Args[0], depth+1) + "[" + argStr(t.Args[1], depth+1) + "]"
	}
	var sb strings.Builder
	sb.WriteString(t.Op)
	sb.WriteByte('(')
	for i, a := range t.Args {
		if i > 0 {
			sb.WriteString(", ")
		}
		sb.WriteString(argStr(a, depth+1))
	}
	sb.WriteByte(')')
	return sb.String()
}

func argStr(a Arg, depth int) string {
	switch a := a.(type) {
	case *Term:
		return a.str(depth)
	case *Poly:
		return a.str(depth)
	case Lit:
		return string(a)
	}
	return "?"
}

func (p *Poly) String() string { return p.str(0) }

func (p *Poly) str(depth int) string {
	if len(p.ms) == 0 {
		return "0"
	}
	var sb strings.Builder
	for i, m := range p.ms {
		if i > 0 {
			sb.WriteString(" + ")
		}
		one := m.c.Cmp(bigOne) == 0
		if !one || len(m.vs) == 0 {
			sb.WriteString(m.c.String())
		}
		for j, v := range m.vs {
			if j > 0 || !one {
				sb.WriteByte('*')
			}
			sb.WriteString(v.str(depth))
		}
	}
	return sb.String()
}
