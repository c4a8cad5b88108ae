package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
)

type FactKind uint8

const (
	FGe FactKind = iota
	FEq
	FNe
	FAtom // boolean term, true or false
	FDyn
	FNotDyn
	FStr    // string term equal to a constant
	FClause // not all of the literals hold
)

type Fact struct {
	K   FactKind
	P   *Poly
	T   *Term
	B   bool
	Typ types.Type
	S   string
	L   []BoolV
}

func (f Fact) String() string {
	switch f.K {
	case FGe:
		return f.P.String() + " >= 0"
	case FEq:
		return f.P.String() + " == 0"
	case FNe:
		return f.P.String() + " != 0"
	case FAtom:
		if f.B {
			return f.T.String()
		}
		return "!" + f.T.String()
	case FDyn:
		return fmt.Sprintf("dyn(%s) = %v", f.T, f.Typ)
	case FNotDyn:
		return fmt.Sprintf("dyn(%s) != %v", f.T, f.Typ)
	case FStr:
		return fmt.Sprintf("%s == %q", f.T, f.S)
	case FClause:
		s := "not all of:"
		for _, l := range f.L {
			s += " " + valStr(l)
		}
		return s
	}
	return "?"
}

func (f Fact) key() string {
	k := string(rune('0' + f.K))
	if f.P != nil {
		k += f.P.argKey()
	}
	if f.T != nil {
		k += f.T.argKey()
	}
	if f.B {
		k += "+"
	}
	if f.Typ != nil {
		k += typeKey(f.Typ)
	}
	for _, l := range f.L {
		k += "," + vkey(l)
	}
	return k + f.S
}

func (f Fact) subst(s *subster) Fact {
	if f.P != nil {
		f.P = s.poly(f.P)
	}
	if f.T != nil {
		if t, ok := s.term(f.T).(*Term); ok {
			f.T = t
		}
	}
	if f.L != nil {
		l := make([]BoolV, len(f.L))
		for i := range l {
			l[i] = substBool(f.L[i], s)
		}
		f.L = l
	}
	return f
}

type ivl struct{ lo, hi *big.Int }

// Facts is the relational numeric and symbolic part of an abstract state: a
// conjunction of linear inequalities, equalities in solved form,
// disequalities, and truth values of uninterpreted atoms.
type Facts struct {
	log     []Fact
	ge      []*Poly
	ne      []*Poly
	sub     map[*Term]Arg
	norm    *subster
	bnd     map[string]ivl
	atoms   map[*Term]bool
	dyn     map[*Term]types.Type
	notDyn  map[*Term][]types.Type
	strs    map[*Term]string
	clauses [][]BoolV
	unsat   bool
	cache   map[string]bool
	shared  bool
}

func newFacts() *Facts {
	return &Facts{sub: map[*Term]Arg{}, norm: newSubster(map[*Term]Arg{}), bnd: map[string]ivl{}, atoms: map[*Term]bool{},
		dyn: map[*Term]types.Type{}, notDyn: map[*Term][]types.Type{}, strs: map[*Term]string{}, cache: map[string]bool{}}
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+2)
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (f *Facts) clone() *Facts {
	return &Facts{
		log: f.log[:len(f.log):len(f.log)], ge: f.ge[:len(f.ge):len(f.ge)], ne: f.ne[:len(f.ne):len(f.ne)],
		sub: f.sub, norm: f.norm, bnd: cloneMap(f.bnd), atoms: cloneMap(f.atoms), dyn: cloneMap(f.dyn),
		notDyn: cloneMap(f.notDyn), strs: cloneMap(f.strs), clauses: f.clauses[:len(f.clauses):len(f.clauses)], unsat: f.unsat, cache: f.cache,
	}
}

func (f *Facts) Norm(p *Poly) *Poly {
	if len(f.sub) == 0 {
		return p
	}
	return f.norm.poly(p)
}

func (f *Facts) NormT(t *Term) *Term {
	if len(f.sub) == 0 {
		return t
	}
	switch r := f.norm.term(t).(type) {
	case *Term:
		return r
	}
	return t
}

func (f *Facts) touch() { f.cache = map[string]bool{} }

// tighten divides p by the gcd of its coefficients, rounding down.
func tighten(p *Poly) *Poly {
	g := new(big.Int)
	for _, m := range p.ms {
		if len(m.vs) > 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
		}
	}
	if g.Sign() == 0 || g.Cmp(bigOne) == 0 {
		return p
	}
	r := &Poly{ms: make([]mono, 0, len(p.ms))}
	for _, m := range p.ms {
		c := floorDiv(m.c, g)
		if c.Sign() != 0 {
			r.ms = append(r.ms, mono{c, m.vs})
		}
	}
	return r
}

// noteBound records the bounds of a monomial implied by a fact on it alone.
func (f *Facts) noteBound(p *Poly) {
	vs := p.ms
	var c *big.Int = bigZero
	if len(vs) > 0 && len(vs[0].vs) == 0 {
		c = vs[0].c
		vs = vs[1:]
	}
	if len(vs) != 1 {
		return
	}
	k := vsKey(vs[0].vs)
	iv := f.bnd[k]
	a := vs[0].c
	if a.Sign() > 0 { // a x + c >= 0 -> x >= ceil(-c/a)
		lo := new(big.Int).Neg(floorDiv(c, a))
		if iv.lo == nil || lo.Cmp(iv.lo) > 0 {
			iv.lo = lo
		}
	} else { // x <= floor(c/-a)
		hi := floorDiv(c, new(big.Int).Neg(a))
		if iv.hi == nil || hi.Cmp(iv.hi) < 0 {
			iv.hi = hi
		}
	}
	f.bnd[k] = iv
}

func (f *Facts) monoBounds(vs []*Term) (lo, hi *big.Int) {
	lo, hi = bigOne, bigOne
	for _, v := range vs {
		l, h := f.varBounds(v)
		lo, hi = mulIv(lo, hi, l, h)
	}
	if len(vs) > 1 {
		iv, ok := f.bnd[vsKey(vs)]
		if ok {
			if iv.lo != nil && (lo == nil || iv.lo.Cmp(lo) > 0) {
				lo = iv.lo
			}
			if iv.hi != nil && (hi == nil || iv.hi.Cmp(hi) < 0) {
				hi = iv.hi
			}
		}
	}
	return
}

func (f *Facts) varBounds(v *Term) (lo, hi *big.Int) {
	lo, hi = v.Lo, v.Hi
	if iv, ok := f.bnd[vsKey([]*Term{v})]; ok {
		if iv.lo != nil && (lo == nil || iv.lo.Cmp(lo) > 0) {
			lo = iv.lo
		}
		if iv.hi != nil && (hi == nil || iv.hi.Cmp(hi) < 0) {
			hi = iv.hi
		}
	}
	if v.Op == "fdiv" {
		x := v.Args[0].(*Poly)
		c, _ := new(big.Int).SetString(string(v.Args[1].(Lit)), 10)
		l, h := x.boundsWith(f.monoBounds)
		if l != nil {
			if q := floorDiv(l, c); lo == nil || q.Cmp(lo) > 0 {
				lo = q
			}
		}
		if h != nil {
			if q := floorDiv(h, c); hi == nil || q.Cmp(hi) < 0 {
				hi = q
			}
		}
	}
	return
}

// Entails reports whether p >= 0 holds in every state described by f.
func (f *Facts) Entails(p *Poly) bool {
	p = tighten(f.Norm(p))
	if c := p.Const(); c != nil {
		return c.Sign() >= 0 || f.unsat
	}
	if f.unsat {
		return true
	}
	lo, hi := p.boundsWith(f.monoBounds)
	if lo != nil && lo.Sign() >= 0 {
		return true
	}
	if hi != nil && hi.Sign() < 0 {
		return false
	}
	k := p.argKey()
	if r, ok := f.cache[k]; ok {
		return r
	}
	r := !f.feasibleWith(p.Neg().AddI(-1))
	f.cache[k] = r
	return r
}

func (f *Facts) EntailsEq(p *Poly) bool {
	p = f.Norm(p)
	if c := p.Const(); c != nil {
		return c.Sign() == 0 || f.unsat
	}
	return f.Entails(p) && f.Entails(p.Neg())
}

func (f *Facts) EntailsNe(p *Poly) bool {
	p = f.Norm(p)
	if c := p.Const(); c != nil {
		return c.Sign() != 0 || f.unsat
	}
	for _, q := range f.ne {
		if q.Eq(p) || q.Eq(p.Neg()) {
			return true
		}
	}
	if unsolvable(p) {
		return true
	}
	if f.Entails(p.AddI(-1)) || f.Entails(p.Neg().AddI(-1)) {
		return true
	}
	// The same with a variable eliminated by an equation.
	if !hasQuotient(p) {
		return false
	}
	keys := map[string]bool{}
	for _, e := range f.ge {
		keys[e.argKey()] = true
	}
	for _, e := range f.ge {
		if !hasQuotient(e) || !keys[e.Neg().argKey()] {
			continue
		}
		for _, m := range e.ms {
			if len(m.vs) != 1 || m.vs[0].Op == "fdiv" || m.c.CmpAbs(bigOne) != 0 {
				continue
			}
			if c := p.coefOf(m.vs[0]); c != 0 && unsolvable(p.Sub(e.ScaleI(c*int64(m.c.Sign())))) {
				return true
			}
		}
	}
	return false
}

// unsolvable tells whether p == 0 has no integer solution.
func unsolvable(p *Poly) bool {
	g := new(big.Int)
	for _, m := range p.ms {
		if len(m.vs) > 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
		}
	}
	if g.Sign() == 0 {
		return p.constPart().Sign() != 0
	}
	return new(big.Int).Mod(p.constPart(), g).Sign() != 0
}

func hasQuotient(p *Poly) bool {
	for _, m := range p.ms {
		if len(m.vs) == 1 && m.vs[0].Op == "fdiv" {
			return true
		}
	}
	return false
}

var statSimplex, statEntail int

// feasibleWith reports whether f and g >= 0 may hold together.
func (f *Facts) feasibleWith(g *Poly) bool {
	statSimplex++
	cone := []*Poly{g}
	inCone := map[string]bool{g.argKey(): true}
	vars := map[*Term]bool{}
	var newVars []*Term
	addVar := func(v *Term) {
		if !vars[v] {
			vars[v] = true
			newVars = append(newVars, v)
		}
	}
	addVars := func(p *Poly) {
		for _, m := range p.ms {
			for _, v := range m.vs {
				addVar(v)
			}
		}
	}
	addVars(g)
	used := make([]bool, len(f.ge))
	for round := 0; round < 7 && len(newVars) > 0 && len(cone) < 120; round++ {
		nv := newVars
		newVars = nil
		for _, v := range nv {
			for _, l := range v.Lemmas {
				l = f.Norm(l)
				if k := l.argKey(); !inCone[k] && l.Const() == nil {
					inCone[k] = true
					cone = append(cone, l)
					addVars(l)
				}
			}
		}
		nset := map[*Term]bool{}
		for _, v := range nv {
			nset[v] = true
		}
		for i, p := range f.ge {
			if used[i] {
				continue
			}
			hit := false
			for _, m := range p.ms {
				for _, v := range m.vs {
					if nset[v] || v.Op == "fdiv" && quotientOf(v, vars, nset) {
						hit = true
					}
				}
			}
			if !hit {
				continue
			}
			used[i] = true
			if k := p.argKey(); !inCone[k] {
				inCone[k] = true
				cone = append(cone, p)
				addVars(p)
			}
		}
		if round < 6 {
			f.sumLemmas(vars, func(l *Poly) {
				l = f.Norm(l)
				if k := l.argKey(); !inCone[k] && l.Const() == nil {
					inCone[k] = true
					cone = append(cone, l)
					addVars(l)
				}
			})
		}
	}
	// Products of constraints, for the nonlinear monomials.
	cone = f.products(cone)
	return f.lp(cone)
}

// quotientOf tells whether v is a quotient of the variables, new ones among
// them, and a constant.
func quotientOf(v *Term, vars, nset map[*Term]bool) bool {
	p, ok := v.Args[0].(*Poly)
	if !ok {
		return false
	}
	hit := false
	for _, m := range p.ms {
		for _, u := range m.vs {
			if !vars[u] {
				return false
			}
			hit = hit || nset[u]
		}
	}
	return hit
}

func (f *Facts) products(cone []*Poly) []*Poly {
	type pair struct{ x, y *Term }
	pairs := map[pair]bool{}
	var order []pair
	for _, p := range cone {
		for _, m := range p.ms {
			if len(m.vs) == 2 {
				for _, pr := range []pair{{m.vs[0], m.vs[1]}, {m.vs[1], m.vs[0]}} {
					if !pairs[pr] {
						pairs[pr] = true
						order = append(order, pr)
					}
				}
			}
		}
	}
	if len(order) == 0 {
		return cone
	}
	sort.Slice(order, func(i, j int) bool {
		if order[i].x.ID != order[j].x.ID {
			return order[i].x.ID < order[j].x.ID
		}
		return order[i].y.ID < order[j].y.ID
	})
	seen := map[string]bool{}
	for _, p := range cone {
		seen[p.argKey()] = true
	}
	big31 := pow2(40)
	uni := func(x *Term) []*Poly {
		lo, hi := f.varBounds(x)
		var r []*Poly
		if lo != nil && new(big.Int).Abs(lo).Cmp(big31) < 0 {
			r = append(r, PVar(x).Sub(PConst(lo)))
		}
		if hi != nil && new(big.Int).Abs(hi).Cmp(big31) < 0 {
			r = append(r, PConst(hi).Sub(PVar(x)))
		}
		return r
	}
	base := cone
	n := len(cone)
	for _, pr := range order {
		if len(cone) > n+150 {
			break
		}
		fx := uni(pr.x)
		if len(fx) == 0 {
			continue
		}
		var fy []*Poly
		fy = append(fy, uni(pr.y)...)
		for _, p := range base {
			lin := false
			ok := true
			for _, m := range p.ms {
				if len(m.vs) == 1 && m.vs[0] == pr.y {
					lin = true
				}
				if len(m.vs) > 1 {
					ok = false
				}
			}
			if lin && ok && len(p.ms) > 1 {
				fy = append(fy, p)
			}
		}
		for _, a := range fx {
			for _, b := range fy {
				q := f.Norm(a.Mul(b))
				if k := q.argKey(); !seen[k] && q.Const() == nil {
					seen[k] = true
					cone = append(cone, q)
				}
			}
		}
	}
	return cone
}

// sumLemmas adds the monotonicity of sums of the same non-negative body.
func (f *Facts) sumLemmas(vars map[*Term]bool, add func(*Poly)) {
	var sums []*Term
	for v := range vars {
		if v.Op == "sum" {
			sums = append(sums, v)
		}
	}
	if len(sums) == 0 {
		return
	}
	sort.Slice(sums, func(i, j int) bool { return sums[i].ID < sums[j].ID })
	bv := bvTerm(0)
	for _, s := range sums {
		body := s.Args[1].(*Poly)
		up := s.Args[0].(*Poly)
		lo, hi := body.Bounds()
		if lo == nil || lo.Sign() < 0 {
			continue
		}
		// Sums are only formed with non-negative upper bounds.
		add(PVar(s).Sub(up.Scale(lo)))
		if hi != nil {
			add(up.Scale(hi).Sub(PVar(s)))
		}
		for _, t := range sums {
			if t == s || !t.Args[1].(*Poly).Eq(body) {
				continue
			}
			upt := t.Args[0].(*Poly)
			d := upt.Sub(up)
			at := substPoly(body, map[*Term]Arg{bv: up})
			if f.entailsNoSum(d.AddI(-1)) {
				add(PVar(t).Sub(PVar(s)).Sub(at))
			} else if f.entailsNoSum(d) {
				add(PVar(t).Sub(PVar(s)))
			}
		}
	}
}

func (f *Facts) entailsNoSum(p *Poly) bool {
	for _, m := range p.ms {
		for _, v := range m.vs {
			if v.Op == "sum" {
				return false
			}
		}
	}
	return f.Entails(p)
}

func (f *Facts) lp(cone []*Poly) bool {
	checkTime()
	idx := map[string]int{}
	var monos [][]*Term
	col := func(vs []*Term) int {
		k := vsKey(vs)
		if i, ok := idx[k]; ok {
			return i
		}
		idx[k] = len(monos)
		monos = append(monos, vs)
		return len(monos) - 1
	}
	for _, p := range cone {
		for _, m := range p.ms {
			if len(m.vs) > 0 {
				col(m.vs)
			}
		}
	}
	s := newSimplex(len(monos))
	for i, vs := range monos {
		lo, hi := f.monoBounds(vs)
		if lo != nil {
			q := qInt(lo)
			s.lo[i] = &q
		}
		if hi != nil {
			q := qInt(hi)
			s.hi[i] = &q
		}
	}
	rows := make([][]Q, 0, len(cone))
	b := make([]Q, 0, len(cone))
	for _, p := range cone {
		r := make([]Q, len(monos))
		for i := range r {
			r[i] = qZero
		}
		c := bigZero
		for _, m := range p.ms {
			if len(m.vs) == 0 {
				c = m.c
			} else {
				r[col(m.vs)] = qInt(m.c)
			}
		}
		rows = append(rows, r)
		b = append(b, qInt(new(big.Int).Neg(c)))
	}
	return s.feasible(rows, b)
}

// ---- assumptions

// AddGe assumes p >= 0. It returns false if the facts become contradictory.
func (f *Facts) AddGe(p *Poly) bool {
	f.log = append(f.log, Fact{K: FGe, P: p})
	return f.addGe(p)
}

func (f *Facts) addGe(p *Poly) bool {
	p = tighten(f.Norm(p))
	if c := p.Const(); c != nil {
		if c.Sign() < 0 {
			f.unsat = true
		}
		return !f.unsat
	}
	if lo, _ := p.Bounds(); lo != nil && lo.Sign() >= 0 {
		return !f.unsat
	}
	for _, q := range f.ge {
		if q.Eq(p) {
			return !f.unsat
		}
	}
	if f.Entails(p.Neg().AddI(-1)) {
		f.unsat = true
		return false
	}
	eq := f.Entails(p.Neg())
	f.ge = append(f.ge, p)
	f.noteBound(p)
	f.touch()
	if eq {
		f.addEq(p)
	}
	f.recheckNe()
	return !f.unsat
}

func (f *Facts) recheckNe() {
	if len(f.ne) == 0 {
		return
	}
	ne := f.ne
	f.ne = nil
	for _, q := range ne {
		f.addNe(q)
	}
}

func (f *Facts) AddNe(p *Poly) bool {
	f.log = append(f.log, Fact{K: FNe, P: p})
	return f.addNe(p)
}

func (f *Facts) addNe(p *Poly) bool {
	p = f.Norm(p)
	if c := p.Const(); c != nil {
		if c.Sign() == 0 {
			f.unsat = true
		}
		return !f.unsat
	}
	for _, q := range f.ne {
		if q.Eq(p) || q.Eq(p.Neg()) {
			return true
		}
	}
	pos, neg := f.Entails(p), f.Entails(p.Neg())
	switch {
	case pos && neg:
		f.unsat = true
		return false
	case pos:
		return f.addGe(p.AddI(-1))
	case neg:
		return f.addGe(p.Neg().AddI(-1))
	}
	f.ne = append(f.ne, p)
	return true
}

func (f *Facts) AddEq(p *Poly) bool {
	f.log = append(f.log, Fact{K: FEq, P: p})
	return f.addEq(p)
}

// rank orders the terms by how much they should be eliminated.
func elimRank(t *Term) int {
	switch t.Op {
	case "iter":
		return 5
	case "sk":
		return 4
	case "div", "fdiv":
		return 3
	case "sum":
		return 2
	}
	return 1
}

func (f *Facts) addEq(p *Poly) bool {
	p = f.Norm(p)
	if c := p.Const(); c != nil {
		if c.Sign() != 0 {
			f.unsat = true
		}
		return !f.unsat
	}
	if !f.Entails(p) && f.Entails(p.Neg().AddI(-1)) || f.Entails(p.AddI(-1)) {
		f.unsat = true
		return false
	}
	// Divide by the gcd of all the coefficients.
	g := new(big.Int)
	for _, m := range p.ms {
		if len(m.vs) > 0 {
			g.GCD(nil, nil, g, new(big.Int).Abs(m.c))
		}
	}
	if new(big.Int).Mod(p.constPart(), g).Sign() != 0 {
		f.unsat = true
		return false
	}
	p = tighten(p)
	var best *mono
	for i := range p.ms {
		m := &p.ms[i]
		if len(m.vs) != 1 || new(big.Int).Abs(m.c).Cmp(bigOne) != 0 {
			continue
		}
		v := m.vs[0]
		occurs := false
		for j := range p.ms {
			if j == i {
				continue
			}
			for _, w := range p.ms[j].vs {
				if contains(w, v) {
					occurs = true
				}
			}
		}
		if occurs {
			continue
		}
		if best == nil || elimRank(v) > elimRank(best.vs[0]) || elimRank(v) == elimRank(best.vs[0]) && v.ID > best.vs[0].ID {
			best = m
		}
	}
	if best == nil {
		f.ge = append(f.ge, p, p.Neg())
		f.noteBound(p)
		f.noteBound(p.Neg())
		f.touch()
		f.recheckNe()
		return !f.unsat
	}
	v := best.vs[0]
	rhs := p.Sub(&Poly{ms: []mono{*best}})
	if best.c.Sign() > 0 {
		rhs = rhs.Neg()
	}
	// New solved form.
	one := newSubster(map[*Term]Arg{v: rhs})
	sub := map[*Term]Arg{}
	for k, a := range f.sub {
		sub[k] = one.arg(a)
	}
	sub[v] = rhs
	f.sub = sub
	f.norm = newSubster(sub)
	f.touch()
	old := f.ge
	oldNe := f.ne
	f.ge, f.ne = nil, nil
	f.bnd = map[string]ivl{}
	keep := func(q *Poly) {
		q = tighten(one.poly(q))
		if c := q.Const(); c != nil {
			if c.Sign() < 0 {
				f.unsat = true
			}
			return
		}
		f.ge = append(f.ge, q)
		f.noteBound(q)
	}
	for _, q := range old {
		keep(q)
	}
	// The bounds of the eliminated variable.
	if v.Lo != nil {
		keep(rhs.Sub(PConst(v.Lo)))
	}
	if v.Hi != nil {
		keep(PConst(v.Hi).Sub(rhs))
	}
	for _, l := range v.Lemmas {
		keep(f.Norm(l))
	}
	for _, q := range oldNe {
		f.addNe(q)
	}
	// Atoms and types are keyed by normalised terms.
	atoms := f.atoms
	f.atoms = map[*Term]bool{}
	for t, b := range atoms {
		n := f.NormT(t)
		if c, ok := f.atoms[n]; ok && c != b {
			f.unsat = true
		}
		f.atoms[n] = b
	}
	dyn := f.dyn
	f.dyn = map[*Term]types.Type{}
	for t, x := range dyn {
		n := f.NormT(t)
		if y, ok := f.dyn[n]; ok && !types.Identical(x, y) {
			f.unsat = true
		}
		f.dyn[n] = x
	}
	nd := f.notDyn
	f.notDyn = map[*Term][]types.Type{}
	for t, x := range nd {
		n := f.NormT(t)
		f.notDyn[n] = append(f.notDyn[n], x...)
	}
	ss := f.strs
	f.strs = map[*Term]string{}
	for t, x := range ss {
		n := f.NormT(t)
		if y, ok := f.strs[n]; ok && x != y {
			f.unsat = true
		}
		f.strs[n] = x
	}
	return !f.unsat
}

// AddAtom assumes the truth value of a boolean term.
func (f *Facts) AddAtom(t *Term, b bool) bool {
	f.log = append(f.log, Fact{K: FAtom, T: t, B: b})
	t = f.NormT(t)
	if c, ok := f.atoms[t]; ok {
		if c != b {
			f.unsat = true
		}
		return !f.unsat
	}
	f.atoms[t] = b
	for _, h := range atomHooks[t.Op] {
		h(f, t, b)
		if f.unsat {
			return false
		}
	}
	return f.propagate()
}

// AddClause assumes that not all of the literals, atoms, hold.
func (f *Facts) AddClause(l []BoolV) bool {
	f.log = append(f.log, Fact{K: FClause, L: l})
	f.clauses = append(f.clauses, l)
	return f.propagate()
}

// literal gives the truth value of a literal.
func (f *Facts) literal(l BoolV) (val, known bool) {
	if l.K == BConst {
		return l.B, true
	}
	if l.K != BAtom {
		return false, false
	}
	v, ok := f.Atom(l.T)
	return v != l.B, ok
}

// propagate applies the clauses with one unknown literal.
func (f *Facts) propagate() bool {
	for i := 0; i < len(f.clauses) && !f.unsat; i++ {
		unknown, n := -1, 0
		for j, l := range f.clauses[i] {
			v, ok := f.literal(l)
			if ok && !v {
				n = 2
				break
			}
			if !ok {
				unknown = j
				n++
			}
		}
		switch {
		case n == 0:
			f.unsat = true
		case n == 1:
			l := f.clauses[i][unknown]
			if l.K == BAtom {
				f.AddAtom(l.T, l.B)
			}
		}
	}
	return !f.unsat
}

// notAll reports whether a clause excludes that all of the literals hold.
func (f *Facts) notAll(l []BoolV) bool {
	if len(f.clauses) == 0 {
		return false
	}
	has := map[string]bool{}
	for _, b := range l {
		if b.K == BAtom {
			b.T = f.NormT(b.T)
		}
		has[vkey(b)] = true
	}
	for _, c := range f.clauses {
		all := true
		for _, b := range c {
			if b.K == BAtom {
				b.T = f.NormT(b.T)
			}
			if !has[vkey(b)] {
				if v, ok := f.literal(b); !ok || !v {
					all = false
					break
				}
			}
		}
		if all {
			return true
		}
	}
	return false
}

func (f *Facts) Atom(t *Term) (val, known bool) {
	t = f.NormT(t)
	v, ok := f.atoms[t]
	if !ok && t.Op == "feq" {
		// A number is equal to one constant at most.
		if q, isT := t.Args[1].(*Term); isT && q.Op == "fc" {
			for _, c := range f.floatEq(t.Args[0]) {
				if c != q && (FloatV{T: c}).constVal() != (FloatV{T: q}).constVal() {
					return false, true
				}
				if c != q {
					return true, true
				}
			}
		}
	}
	return v, ok
}

// floatEq returns the constants that a is known to be equal to.
func (f *Facts) floatEq(a Arg) []*Term {
	var r []*Term
	for t, v := range f.atoms {
		if v && t.Op == "feq" && t.Args[0] == a {
			if q, ok := t.Args[1].(*Term); ok && q.Op == "fc" {
				r = append(r, q)
			}
		}
	}
	return r
}

// atomHooks derive numeric facts from the truth of atoms.
var atomHooks = map[string][]func(f *Facts, t *Term, b bool){}

func (f *Facts) AddDyn(t *Term, typ types.Type) bool {
	f.log = append(f.log, Fact{K: FDyn, T: t, Typ: typ})
	t = f.NormT(t)
	if d, ok := f.dyn[t]; ok {
		if !types.Identical(d, typ) {
			f.unsat = true
		}
		return !f.unsat
	}
	for _, n := range f.notDyn[t] {
		if types.Identical(n, typ) {
			f.unsat = true
			return false
		}
	}
	f.dyn[t] = typ
	return f.AddAtom(nilAtom(t), false)
}

func (f *Facts) AddNotDyn(t *Term, typ types.Type) bool {
	f.log = append(f.log, Fact{K: FNotDyn, T: t, Typ: typ})
	t = f.NormT(t)
	if d, ok := f.dyn[t]; ok && types.Identical(d, typ) {
		f.unsat = true
		return false
	}
	l := f.notDyn[t]
	f.notDyn[t] = append(l[:len(l):len(l)], typ)
	return true
}

func (f *Facts) AddStr(t *Term, s string) bool {
	f.log = append(f.log, Fact{K: FStr, T: t, S: s})
	t = f.NormT(t)
	if o, ok := f.strs[t]; ok {
		if o != s {
			f.unsat = true
		}
		return !f.unsat
	}
	f.strs[t] = s
	f.addEq(PVar(strLen(t)).AddI(-int64(len(s))))
	return !f.unsat
}

func (f *Facts) Add(x Fact) bool {
	switch x.K {
	case FGe:
		return f.AddGe(x.P)
	case FEq:
		return f.AddEq(x.P)
	case FNe:
		return f.AddNe(x.P)
	case FAtom:
		return f.AddAtom(x.T, x.B)
	case FDyn:
		return f.AddDyn(x.T, x.Typ)
	case FNotDyn:
		return f.AddNotDyn(x.T, x.Typ)
	case FStr:
		return f.AddStr(x.T, x.S)
	case FClause:
		return f.AddClause(x.L)
	}
	return true
}

func nilAtom(t *Term) *Term { return mkTerm("nil", SBool, nil, t) }

// strLen returns the length of a string term that is not a literal.
func strLen(t *Term) *Term {
	return mkInt("len", bigZero, maxLen, t)
}

func init() {
	atomHooks["prefix"] = append(atomHooks["prefix"], func(f *Facts, t *Term, b bool) {
		if !b {
			return
		}
		x, ok1 := t.Args[0].(*Term)
		y, ok2 := t.Args[1].(*Term)
		if ok1 && ok2 {
			f.AddGe(lenOfStr(x).Sub(lenOfStr(y)))
		}
	})
	atomHooks["nil"] = append(atomHooks["nil"], func(f *Facts, t *Term, b bool) {
		if x, ok := t.Args[0].(*Term); ok && b && x.Op == "arr" {
			f.AddEq(PVar(arrLen(x)))
		}
	})
}

// lenOfStr returns the length of a string term.
func lenOfStr(t *Term) *Poly {
	switch t.Op {
	case "sc":
		return PInt(int64(len(string(t.Args[0].(Lit)))))
	case "cat":
		r := &Poly{}
		for _, a := range t.Args {
			r = r.Add(lenOfStr(a.(*Term)))
		}
		return r
	}
	if l := strLenHook[t.Op]; l != nil {
		if p := l(t); p != nil {
			return p
		}
	}
	return PVar(strLen(t))
}

var strLenHook = map[string]func(t *Term) *Poly{}

// arrLen is the length of the slice read from an input location.
func arrLen(t *Term) *Term { return mkInt("len", bigZero, maxLen, t) }
func arrCap(t *Term) *Term { return mkInt("cap", bigZero, maxLen, t) }
