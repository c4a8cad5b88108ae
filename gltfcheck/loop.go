package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const maxUnroll = 40

// loop executes the loop whose header is it.to, from its entry.
func (e *Engine) loop(it item, body map[*ssa.BasicBlock]bool) result {
	return e.loopN(it, body, 0, 0)
}

func (e *Engine) loopN(it item, body map[*ssa.BasicBlock]bool, peel, splits int) result {
	e.Loops++
	if r, ok := e.tryUnroll(it, body); ok {
		return r
	}
	e.quiet++
	s := e.generalise(it, body, peel)
	e.quiet--
	if s.split != nil && splits < 6 {
		var res result
		for _, val := range []bool{true, false} {
			ns := it.st.clone()
			if !ns.assume(*s.split, val) || ns.F.unsat {
				continue
			}
			r := e.loopN(item{ns, it.fr.clone(), it.from, it.to}, body, peel, splits+1)
			res.edges = append(res.edges, r.edges...)
			res.returns = append(res.returns, r.returns...)
		}
		return res
	}
	if s.unknown > 0 && peel < 1 && e.headerDecided(it, body) {
		e.quiet++
		back, _, _ := e.iterate(it, body, "#p"+strconv.Itoa(peel))
		worst := 0
		for _, b := range back {
			b.st.ctx = it.st.ctx
			t := e.generalise(b, body, peel+1)
			if t.unknown > worst {
				worst = t.unknown
			}
			if t.split != nil {
				worst = 0
				break
			}
		}
		e.quiet--
		if worst < s.unknown {
			back, exits, rets := e.iterate(it, body, "#p"+strconv.Itoa(peel))
			res := result{edges: exits, returns: rets}
			for _, b := range back {
				b.st.ctx = it.st.ctx
				r := e.loopN(b, body, peel+1, splits)
				res.edges = append(res.edges, r.edges...)
				res.returns = append(res.returns, r.returns...)
			}
			for i := range res.edges {
				res.edges[i].st.ctx = it.st.ctx
			}
			return res
		}
	}
	// Final pass.
	var res result
	for _, v := range s.variants() {
		start := v.start()
		if start.st.F.unsat {
			continue
		}
		_, exits, rets := e.pass(start, body, v)
		for i := range exits {
			exits[i].st.iters = it.st.iters
		}
		for i := range rets {
			rets[i].st.iters = it.st.iters
		}
		res.edges = append(res.edges, exits...)
		res.returns = append(res.returns, rets...)
	}
	return res
}

// headerDecided reports that the first iteration is certainly executed.
func (e *Engine) headerDecided(it item, body map[*ssa.BasicBlock]bool) bool {
	e.quiet++
	defer func() { e.quiet-- }()
	r := e.block(item{it.st.clone(), it.fr.clone(), it.from, it.to})
	if len(r.edges) == 0 {
		return false
	}
	for _, x := range r.edges {
		if !body[x.to] {
			return false
		}
	}
	return true
}

// iterate executes one iteration of the loop.
func (e *Engine) iterate(it item, body map[*ssa.BasicBlock]bool, tag string) (back, exits []item, rets []Outcome) {
	st := it.st.clone()
	st.ctx += tag
	r := e.block(item{st, it.fr.clone(), it.from, it.to})
	rets = r.returns
	var in []item
	for _, x := range r.edges {
		switch {
		case x.to == it.to:
			back = append(back, x)
		case body[x.to]:
			in = append(in, x)
		default:
			exits = append(exits, x)
		}
	}
	if len(in) > 0 {
		r = e.region(body, it.to, in)
		rets = append(rets, r.returns...)
		for _, x := range r.edges {
			if x.to == it.to {
				back = append(back, x)
			} else {
				exits = append(exits, x)
			}
		}
	}
	for i := range exits {
		exits[i].st.ctx = it.st.ctx
	}
	back = e.join(back)
	return
}

func (e *Engine) tryUnroll(it item, body map[*ssa.BasicBlock]bool) (result, bool) {
	last := it.to.Instrs[len(it.to.Instrs)-1]
	if _, ok := last.(*ssa.If); !ok {
		return result{}, false
	}
	if body[it.to.Succs[0]] && body[it.to.Succs[1]] {
		return result{}, false
	}
	attempt := func() (result, bool) {
		var res result
		cur := []item{it}
		for n := 0; n <= maxUnroll; n++ {
			var next []item
			for _, c := range cur {
				e.quiet++
				st := c.st.clone()
				st.ctx += "#" + strconv.Itoa(n)
				h := e.block(item{st, c.fr.clone(), c.from, c.to})
				e.quiet--
				in, out := false, false
				for _, x := range h.edges {
					if body[x.to] {
						in = true
					} else {
						out = true
					}
				}
				if in && out {
					return res, false
				}
				back, exits, rets := e.iterate(c, body, "#"+strconv.Itoa(n))
				res.edges = append(res.edges, exits...)
				res.returns = append(res.returns, rets...)
				for _, b := range back {
					b.st.ctx = it.st.ctx
					next = append(next, b)
				}
			}
			if len(next) == 0 {
				return res, true
			}
			cur = next
			if len(cur) > 64 {
				return res, false
			}
		}
		return res, false
	}
	e.quiet++
	r, ok := attempt()
	e.quiet--
	if !ok || e.quiet > 0 {
		return r, ok
	}
	return attempt()
}

// ---- summaries

type hkind uint8

const (
	hInv hkind = iota
	hLin
	hUnk
)

type hyp struct {
	kind    hkind
	delta   *Poly
	changes int
	virtual bool // slice copied to a loop-owned object on entry
	cell    bool
	mod     bool // linear modulo the size of the type
}

type summary struct {
	e       *Engine
	it      item
	id      string
	k       *Term
	bv      *Term
	hyps    map[string]*hyp
	objs    map[*Obj]bool // outer objects modified by the loop
	drop    map[*Obj]bool // outer objects whose content follows from the families
	seq     map[*Obj][][]SWrite
	seqBad  map[*Obj]bool
	maps    map[*Obj][][]MWrite
	mapBad  map[*Obj]bool
	fams    []*Family
	evs     [][]*Ev
	alts    []LoopAlt
	inv     []*Poly // invariants over k
	bad     map[string]bool
	split   *BoolV
	unknown int
	phis    []*ssa.Phi
	init    *State // entry state after virtualisation
	initFr  *Frame
	seen    map[string]bool // values of unknown leaves
	pairs   []leafVal
	flags   []loopFlag
	kmax    *big.Int        // most iterations, if known
	kept    map[string]bool // the flags that never changed, or did
	variant string
}

// loopFlag is a variable that each alternative either leaves as it is or sets
// to something else than its initial value.
type loopFlag struct {
	key  string
	keep []bool // the alternative leaves it, if it has the initial value
	set  []bool // the alternative sets it
}

// findFlags looks for flags among the variables that are unknown.
func (s *summary) findFlags(start item, back []item) {
	s.flags = nil
	leaf := func(key string, init, cur Value, next func(b item) Value) {
		if h := s.hyps[key]; h == nil || h.kind != hUnk {
			return
		}
		switch init.(type) {
		case BoolV, IntV, IfaceV, PtrV:
		default:
			return
		}
		f := loopFlag{key: key, keep: make([]bool, len(back)), set: make([]bool, len(back))}
		n := 0
		for i, b := range back {
			v := next(b)
			if v == nil {
				return
			}
			x := &X{e: s.e, st: b.st, fr: b.fr}
			same := func() bool {
				if vkey(v) == vkey(cur) {
					return true
				}
				r, ok := x.eval(x.equal(v, cur))
				return ok && r
			}
			if same() {
				r, ok := x.eval(x.equal(cur, init))
				f.keep[i] = !ok || r
				continue
			}
			if r, ok := x.eval(x.equal(v, init)); !ok || r {
				return
			}
			f.set[i] = true
			n++
		}
		if n > 0 && len(s.flags) < 2 {
			s.flags = append(s.flags, f)
		}
	}
	for _, p := range s.phis {
		leaf("phi:"+p.Name(), s.initFr.env[p], start.fr.env[p], func(b item) Value { return b.fr.env[p] })
	}
	var objs []*Obj
	for o := range s.objs {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Term.ID < objs[j].Term.ID })
	at := func(st *State, o *Obj) Value {
		c, ok := st.heap[o]
		if !ok {
			c = baseContent(o)
		}
		if c, ok := c.(CellC); ok {
			return c.V
		}
		return nil
	}
	for _, o := range objs {
		if v := at(s.init, o); v != nil {
			leaf(objKey(o), v, at(start.st, o), func(b item) Value { return at(b.st, o) })
		}
	}
}

// variants are the summaries of the iterations that left, or changed, each of
// the flags.
func (s *summary) variants() []*summary {
	res := []*summary{s}
	for _, f := range s.flags {
		var next []*summary
		for _, v := range res {
			a, b := *v, *v
			a.kept, b.kept = cloneMap(v.kept), cloneMap(v.kept)
			a.kept[f.key], b.kept[f.key] = true, false
			a.variant, b.variant = v.variant+"=", v.variant+"~"
			next = append(next, &a, &b)
		}
		res = next
	}
	for _, v := range res {
		var sel []int
		for i := range s.alts {
			ok := true
			for _, f := range s.flags {
				if v.kept[f.key] && !f.keep[i] {
					ok = false
				}
			}
			if ok {
				sel = append(sel, i)
			}
		}
		if len(sel) == len(s.alts) {
			continue
		}
		v.alts = pickN(v.alts, sel)
		v.evs = pickN(v.evs, sel)
		seq := map[*Obj][][]SWrite{}
		for o, l := range v.seq {
			seq[o] = pickN(l, sel)
			if keySW(seq[o]) == "" {
				delete(seq, o)
			}
		}
		v.seq = seq
		maps := map[*Obj][][]MWrite{}
		for o, l := range v.maps {
			maps[o] = pickN(l, sel)
			if keyMW(maps[o]) == "" {
				delete(maps, o)
			}
		}
		v.maps = maps
		var fams []*Family
		for _, f := range v.fams {
			g := *f
			g.Alts = pickN(f.Alts, sel)
			g.k = ""
			for _, c := range g.Alts {
				if c != nil {
					fams = append(fams, &g)
					break
				}
			}
		}
		v.fams = fams
		fl := append([]loopFlag{}, v.flags...)
		for i := range fl {
			fl[i].keep, fl[i].set = pickN(fl[i].keep, sel), pickN(fl[i].set, sel)
		}
		v.flags = fl
	}
	return res
}

func pickN[T any](l []T, sel []int) []T {
	r := make([]T, 0, len(sel))
	for _, i := range sel {
		if i < len(l) {
			r = append(r, l[i])
		}
	}
	return r
}

// assumeFlags adds what the variant says about the flags at iteration k.
func (s *summary) assumeFlags(st *State, fr *Frame) {
	if len(s.alts) == 0 {
		st.F.AddEq(PVar(s.k))
	}
	for _, f := range s.flags {
		if s.kept[f.key] {
			continue
		}
		st.F.AddGe(PVar(s.k).AddI(-1))
		one := -1
		for i, b := range f.set {
			if b {
				if one >= 0 {
					one = -2
					break
				}
				one = i
			}
		}
		if one >= 0 && one < len(s.alts) {
			j := PVar(mkInt("sk", bigZero, maxLen, append(append([]Arg{Lit("flagiter:" + s.id + ":" + f.key)}, s.it.st.iters...), PVar(s.k))...))
			st.F.AddGe(j)
			st.F.AddGe(PVar(s.k).Sub(j).AddI(-1))
			sub := newSubster(map[*Term]Arg{s.bv: j})
			for _, g := range s.alts[one].Facts {
				st.F.Add(g.subst(sub))
			}
		}
	}
	x := &X{e: s.e, st: st, fr: fr}
	neq := func(key string, init, cur Value) {
		if k, ok := s.kept[key]; ok && !k {
			st.assume(x.equal(cur, init).not(), true)
		}
	}
	for _, p := range s.phis {
		neq("phi:"+p.Name(), s.initFr.env[p], fr.env[p])
	}
	for o := range s.objs {
		if k, ok := s.kept[objKey(o)]; ok && !k {
			a, ok1 := s.init.heap[o].(CellC)
			if s.init.heap[o] == nil {
				a, ok1 = baseContent(o).(CellC)
			}
			b, ok2 := st.heap[o].(CellC)
			if ok1 && ok2 {
				neq(objKey(o), a.V, b.V)
			}
		}
	}
}

// findResidue bounds the number of iterations of a loop which goes on only
// while p is no multiple of m, for a p that grows or shrinks by one in each
// iteration: one of m consecutive numbers is a multiple.
func (s *summary) findResidue(back []item) {
	s.kmax = nil
	if len(back) == 0 {
		return
	}
	seen := map[*Term]bool{}
	f := back[0].st.F
	for _, p := range append(append([]*Poly{}, f.ge...), f.ne...) {
		containsFn(p, func(t *Term) bool {
			if t.Op != "fdiv" || seen[t] {
				return false
			}
			seen[t] = true
			p, ok := t.Args[0].(*Poly)
			l, ok2 := t.Args[1].(Lit)
			if !ok || !ok2 {
				return false
			}
			m, ok := new(big.Int).SetString(string(l), 10)
			if c := p.coefOf(s.k); !ok || c != 1 && c != -1 || containsFn(p.Sub(PVar(s.k).Mul(PInt(c))), func(u *Term) bool { return u == s.k }) {
				return false
			}
			rem := p.Sub(PVar(t).Mul(PConst(m)))
			for _, b := range back {
				if !b.st.F.EntailsNe(rem) && !b.st.F.Entails(rem.AddI(-1)) {
					return false
				}
			}
			if n := new(big.Int).Sub(m, bigOne); s.kmax == nil || n.Cmp(s.kmax) < 0 {
				s.kmax = n
			}
			return false
		})
	}
}

type leafVal struct {
	key  string
	init *Poly
	cur  *Poly
}

func (s *summary) h(key string) *hyp {
	if s.hyps[key] == nil {
		s.hyps[key] = &hyp{}
	}
	return s.hyps[key]
}

func (e *Engine) generalise(it item, body map[*ssa.BasicBlock]bool, peel int) *summary {
	st := it.st
	s := &summary{e: e, it: it, hyps: map[string]*hyp{}, objs: map[*Obj]bool{}, drop: map[*Obj]bool{}, seq: map[*Obj][][]SWrite{}, seqBad: map[*Obj]bool{},
		maps: map[*Obj][][]MWrite{}, mapBad: map[*Obj]bool{}, bad: map[string]bool{}}
	s.id = st.ctx + "@" + e.instrID(it.to.Instrs[0])
	if peel > 0 {
		s.id += "#p" + strconv.Itoa(peel)
	}
	s.k = mkInt("iter", bigZero, maxLen, append([]Arg{Lit(s.id)}, st.iters...)...)
	s.bv = mkInt("bv", bigZero, pow2(56), Lit(s.id))
	for _, ins := range it.to.Instrs {
		if p, ok := ins.(*ssa.Phi); ok {
			s.phis = append(s.phis, p)
		}
	}
	for n := 0; ; n++ {
		if n > 24 {
			panic(undecidedErr{"loop analysis does not converge in " + fnName(it.fr.fn)})
		}
		start := s.start()
		back, _, _ := e.pass(start, body, s)
		if !s.refine(start, back, n) {
			s.findFlags(start, back)
			s.findFolds(start, back)
			s.findResidue(back)
			break
		}
		if s.split != nil {
			return s
		}
	}
	// Split on undecided loop invariant conditions that make values unknown.
	s.unknown = 0
	for _, h := range s.hyps {
		if h.kind == hUnk {
			s.unknown++
		}
	}
	s.unknown += len(s.seqBad) + len(s.mapBad)
	if s.unknown > 0 {
		s.findSplit()
	}
	if e.debug && e.quiet <= 1 {
		var ks []string
		for k, h := range s.hyps {
			d := ""
			if h.delta != nil {
				d = h.delta.String()
			}
			ks = append(ks, fmt.Sprintf("%s:%d(%s)", k, h.kind, d))
		}
		sort.Strings(ks)
		fmt.Fprintf(os.Stderr, "LOOP %s unknown=%d alts=%d fams=%d\n   %s\n   inv %v\n", s.id, s.unknown, len(s.alts), len(s.fams), strings.Join(ks, "\n   "), s.inv)
	}
	return s
}

// findSplit looks for a condition, decided differently in some iterations but
// independent from them, that distinguishes the alternatives.
func (s *summary) findSplit() {
	if len(s.alts) < 2 {
		return
	}
	x := &X{e: s.e, st: s.it.st}
	for _, a := range s.alts {
		for _, f := range a.Facts {
			b := f.boolV()
			dep := boolHas(b, func(t *Term) bool { return t == s.bv || t == s.k || t.Op == "sk" && containsStr(t, s.id) })
			if dep {
				continue
			}
			if _, ok := x.eval(b); !ok {
				s.split = &b
				return
			}
		}
	}
}

// boolHas tells whether a condition is about a term that satisfies f.
func boolHas(b BoolV, f func(*Term) bool) bool {
	if b.T != nil && containsFn(b.T, f) || b.P != nil && containsFn(b.P, f) {
		return true
	}
	for _, c := range b.And {
		if boolHas(c, f) {
			return true
		}
	}
	return false
}

func containsStr(t *Term, sub string) bool {
	for _, a := range t.Args {
		if l, ok := a.(Lit); ok && strings.Contains(string(l), sub) {
			return true
		}
	}
	return false
}

func (s *summary) gen(v Value, t types.Type, key string) Value {
	h := s.hyps[key]
	sk := func() Value {
		return symValue(t, func(so Sort, ty types.Type) *Term {
			return mkTerm("sk", so, ty, append(append([]Arg{Lit("loop:" + s.id + ":" + key)}, s.it.st.iters...), PVar(s.k))...)
		})
	}
	if h != nil && h.kind == hUnk && s.kept[key] {
		return v
	}
	if h != nil && h.kind == hUnk {
		r := sk()
		if i, ok := r.(IntV); ok {
			if iv, ok := v.(IntV); ok {
				s.pairs = append(s.pairs, leafVal{key, iv.P, i.P})
			}
		}
		return r
	}
	switch a := v.(type) {
	case IntV:
		if h != nil && h.kind == hLin {
			p := a.P.Add(SumTo(PVar(s.k), h.delta, s.k))
			if h.mod {
				p = WrapTo(p, a.T)
			}
			return IntV{p, a.T}
		}
		return a
	case StructV:
		f := make([]Value, len(a.F))
		for i := range f {
			f[i] = s.gen(a.F[i], fieldType(a.T, i), key+"."+strconv.Itoa(i))
		}
		return StructV{a.T, f}
	case ArrayV:
		f := make([]Value, len(a.E))
		et := a.T.Underlying().(*types.Array).Elem()
		for i := range f {
			f[i] = s.gen(a.E[i], et, key+"["+strconv.Itoa(i)+"]")
		}
		return ArrayV{a.T, f}
	case SliceV:
		r := a
		r.Off = s.gen(goInt(a.Off), tInt, key+".off").(IntV).P
		r.Len = s.gen(goInt(a.Len), tInt, key+".len").(IntV).P
		r.Cap = s.gen(goInt(a.Cap), tInt, key+".cap").(IntV).P
		return r
	}
	return v
}

// match compares the value at the end of the iteration with the hypotheses.
func (s *summary) match(f *Facts, init, cur, next Value, key string, pass int, conflict map[string]*Poly) bool {
	changed := false
	h := s.h(key)
	if h.kind == hUnk {
		return false
	}
	unk := func() bool {
		h.kind = hUnk
		return true
	}
	switch c := cur.(type) {
	case IntV:
		n, ok := next.(IntV)
		if !ok {
			return unk()
		}
		d := f.Norm(n.P.Sub(c.P))
		want := &Poly{}
		if h.kind == hLin {
			want = h.delta
			lin := init.(IntV).P.Add(SumTo(PVar(s.k), h.delta, s.k)).Add(h.delta)
			if !f.EntailsEq(d.Sub(want)) && f.EntailsEq(n.P.Sub(WrapTo(lin, c.T))) {
				changed := !h.mod
				h.mod = true
				return changed
			}
		}
		if prev, ok := conflict[key]; ok && pass >= 1 && !f.EntailsEq(prev.Sub(d)) {
			return unk()
		}
		conflict[key] = d
		if f.EntailsEq(d.Sub(want)) {
			return false
		}
		h.changes++
		if h.changes > 4 {
			return unk()
		}
		// Other quantities of the same loop that are unknown make the
		// difference a function of the iteration, which is fine.
		h.kind, h.delta = hLin, d
		return true
	case StructV:
		n, ok := next.(StructV)
		if !ok {
			return unk()
		}
		in := init.(StructV)
		for i := range c.F {
			if s.match(f, in.F[i], c.F[i], n.F[i], key+"."+strconv.Itoa(i), pass, conflict) {
				changed = true
			}
		}
		return changed
	case ArrayV:
		n, ok := next.(ArrayV)
		if !ok {
			return unk()
		}
		in := init.(ArrayV)
		for i := range c.E {
			if s.match(f, in.E[i], c.E[i], n.E[i], key+"["+strconv.Itoa(i)+"]", pass, conflict) {
				changed = true
			}
		}
		return changed
	case SliceV:
		n, ok := next.(SliceV)
		if !ok {
			return unk()
		}
		if (n.Base.Obj == nil) != (c.Base.Obj == nil) || c.Base.Obj != nil && vkey(n.Base) != vkey(c.Base) {
			if !h.virtual {
				h.virtual = true
				return true
			}
			return unk()
		}
		if c.Base.Obj == nil {
			return false
		}
		in := init.(SliceV)
		for _, l := range []struct {
			k       string
			i, c, n *Poly
		}{{".off", in.Off, c.Off, n.Off}, {".len", in.Len, c.Len, n.Len}, {".cap", in.Cap, c.Cap, n.Cap}} {
			if s.match(f, goInt(l.i), goInt(l.c), goInt(l.n), key+l.k, pass, conflict) {
				changed = true
			}
		}
		return changed
	}
	if vkey(cur) == vkey(next) {
		return false
	}
	if a, ok := cur.(BoolV); ok {
		if b, ok := next.(BoolV); ok {
			x := &X{e: s.e, st: &State{F: f}}
			va, ok1 := x.eval(a)
			vb, ok2 := x.eval(b)
			if ok1 && ok2 && va == vb {
				return false
			}
		}
	}
	return unk()
}

// virtualise copies a slice to an object owned by the loop.
func (s *summary) virtualise(x *X, v Value, key string) Value {
	switch a := v.(type) {
	case SliceV:
		h := s.hyps[key]
		if h == nil || !h.virtual {
			return v
		}
		o := mkObj(mkTerm("alloc", SRef, nil, append([]Arg{Lit("virtual:" + s.id + ":" + key)}, s.it.st.iters...)...), a.Elem, OSeq)
		c := &SeqC{Elem: a.Elem}
		if a.Base.Obj != nil && a.Base.Obj.Kind == OSeq && len(a.Base.Path) == 0 {
			c.W = []SWrite{{Kind: WCopy, Idx: &Poly{}, N: a.Len, Src: x.seqContent(a.Base.Obj), SrcOff: a.Off}}
			s.init.alias = cloneMap(s.init.alias)
			s.init.alias[o] = a.Base.Obj
		}
		s.init.put(o, c)
		return SliceV{Base: PtrV{Obj: o, Elem: a.Elem}, Off: &Poly{}, Len: a.Len, Cap: a.Cap, Elem: a.Elem}
	case StructV:
		f := append([]Value{}, a.F...)
		for i := range f {
			f[i] = s.virtualise(x, a.F[i], key+"."+strconv.Itoa(i))
		}
		return StructV{a.T, f}
	}
	return v
}

// start builds the state at the beginning of iteration k.
func (s *summary) start() item {
	s.init = s.it.st.clone()
	for o := range s.drop {
		if !s.objs[o] {
			s.init.remove(o)
		}
	}
	s.initFr = s.it.fr.clone()
	s.pairs = nil
	vx := &X{e: s.e, st: s.init, fr: s.initFr}
	for _, p := range s.phis {
		s.initFr.set(p, s.virtualise(vx, s.initFr.env[p], "phi:"+p.Name()))
	}
	var objs []*Obj
	for o := range s.objs {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Term.ID < objs[j].Term.ID })
	content := func(st *State, o *Obj) Content {
		if c, ok := st.heap[o]; ok {
			return c
		}
		return baseContent(o)
	}
	for _, o := range objs {
		if c, ok := content(s.init, o).(CellC); ok {
			s.init.put(o, newCell(s.virtualise(vx, c.V, objKey(o))))
		}
	}
	s.init.sync()

	st := s.init.clone()
	fr := s.initFr.clone()
	k := PVar(s.k)
	st.F.AddGe(k)
	for _, p := range s.phis {
		fr.set(p, s.gen(s.initFr.env[p], p.Type(), "phi:"+p.Name()))
	}
	inst := &LoopInst{ID: s.id + s.variant, Bv: s.bv, Upper: k, Alts: s.alts, Pos: s.it.to.Instrs[0].Pos()}
	inst.Common = commonFacts(s.alts)
	for _, o := range objs {
		switch c := content(s.init, o).(type) {
		case CellC:
			st.put(o, newCell(s.gen(c.V, o.Typ, objKey(o))))
		case *SeqC:
			n := &SeqC{Elem: c.Elem, Base: c.Base, W: c.W[:len(c.W):len(c.W)]}
			if s.seqBad[o] {
				id := mkTerm("sk", SAny, nil, append(append([]Arg{Lit("loop:" + s.id + ":" + objKey(o))}, s.it.st.iters...), PVar(s.k))...)
				n.W = append(n.W, SWrite{Kind: WHavoc, Idx: &Poly{}, ID: id})
			} else if len(s.seq[o]) > 0 {
				n.W = append(n.W, SWrite{Kind: WLoop, Loop: inst, Alts: s.seq[o]})
			}
			st.put(o, n)
		case *MapC:
			n := &MapC{T: c.T, Base: c.Base, W: c.W[:len(c.W):len(c.W)]}
			if s.mapBad[o] {
				n.W = nil
				n.Base = mkTerm("sk", SRef, nil, append(append([]Arg{Lit("loop:" + s.id + ":" + objKey(o))}, s.it.st.iters...), PVar(s.k))...)
			} else if len(s.maps[o]) > 0 {
				n.W = append(n.W, MWrite{Loop: inst, Alts: s.maps[o]})
			}
			st.put(o, n)
		}
	}
	for _, f := range s.fams {
		g := *f
		g.Loop, g.k = inst, ""
		st.fams = append(st.fams, &g)
	}
	if len(s.alts) > 0 {
		st.loops = append(st.loops, inst)
	}
	for _, l := range s.evs {
		if len(l) > 0 {
			st.addEv(&Ev{Kind: "loop", Loop: inst, Alts: s.evs, Fn: fnName(s.it.fr.fn)})
			break
		}
	}
	for _, p := range s.inv {
		st.F.AddGe(p)
	}
	for _, c := range s.candidates() {
		if !s.bad[c.key] {
			st.F.AddGe(c.at(s, func(l leafVal) *Poly { return l.cur }, k))
		}
	}
	if s.kept != nil {
		s.assumeFlags(st, fr)
	}
	if s.kmax != nil {
		st.F.AddGe(PConst(s.kmax).Sub(k))
	}
	st.iters = append(append([]Arg{}, st.iters...), k)
	st.F.touch()
	return item{st, fr, s.it.from, s.it.to}
}

func objKey(o *Obj) string { return "obj:" + strconv.Itoa(o.Term.ID) + "/" + strconv.Itoa(int(o.Kind)) }

func commonFacts(alts []LoopAlt) []Fact {
	if len(alts) == 0 {
		return nil
	}
	var out []Fact
	for _, f := range alts[0].Facts {
		all := true
		for _, a := range alts[1:] {
			found := false
			for _, g := range a.Facts {
				if g.key() == f.key() {
					found = true
					break
				}
			}
			if !found {
				all = false
				break
			}
		}
		if all {
			out = append(out, f)
		}
	}
	return out
}

// candidate invariants over the unknown integers.
type candidate struct {
	key string
	at  func(s *summary, v func(leafVal) *Poly, k *Poly) *Poly
}

func (s *summary) candidates() []candidate {
	var out []candidate
	for i, l := range s.pairs {
		i, l := i, l
		get := func(s *summary) leafVal {
			for _, p := range s.pairs {
				if p.key == l.key {
					return p
				}
			}
			return s.pairs[i]
		}
		out = append(out,
			candidate{l.key + ">=init", func(s *summary, v func(leafVal) *Poly, k *Poly) *Poly { return v(get(s)).Sub(get(s).init) }},
			candidate{l.key + "<=init", func(s *summary, v func(leafVal) *Poly, k *Poly) *Poly { return get(s).init.Sub(v(get(s))) }},
			candidate{l.key + ">=0", func(s *summary, v func(leafVal) *Poly, k *Poly) *Poly { return v(get(s)) }},
			candidate{l.key + "<=init+k", func(s *summary, v func(leafVal) *Poly, k *Poly) *Poly {
				return get(s).init.Add(k).Sub(v(get(s)))
			}},
		)
		for _, m := range s.pairs {
			m := m
			if m.key == l.key {
				continue
			}
			getm := func(s *summary) leafVal {
				for _, p := range s.pairs {
					if p.key == m.key {
						return p
					}
				}
				return m
			}
			// Same growth, or one bounded by the other.
			out = append(out, candidate{l.key + "-init<=" + m.key + "-init", func(s *summary, v func(leafVal) *Poly, k *Poly) *Poly {
				a, b := get(s), getm(s)
				return v(b).Sub(b.init).Sub(v(a)).Add(a.init)
			}})
			if strings.HasSuffix(l.key, ".len") && strings.HasSuffix(m.key, ".cap") && strings.TrimSuffix(l.key, ".len") == strings.TrimSuffix(m.key, ".cap") {
				out = append(out, candidate{l.key + "<=" + m.key, func(s *summary, v func(leafVal) *Poly, k *Poly) *Poly {
					return v(getm(s)).Sub(v(get(s)))
				}})
			}
		}
	}
	return out
}

// pass executes one iteration from start.
func (e *Engine) pass(start item, body map[*ssa.BasicBlock]bool, s *summary) (back, exits []item, rets []Outcome) {
	r := e.block(item{start.st.clone(), start.fr.clone(), start.from, start.to})
	rets = r.returns
	var in []item
	for _, x := range r.edges {
		switch {
		case x.to == start.to:
			back = append(back, x)
		case body[x.to]:
			ok := true
			for _, l := range x.st.loops {
				if l.ID == s.id+s.variant {
					continue
				}
				for _, d := range []int64{0, 1, -1} {
					if !x.st.instantiate(l, PVar(s.k).AddI(d)) {
						ok = false
					}
				}
			}
			if ok {
				in = append(in, x)
			}
		default:
			exits = append(exits, x)
		}
	}
	if len(in) > 0 {
		r = e.region(body, start.to, in)
		rets = append(rets, r.returns...)
		for _, x := range r.edges {
			if x.to == start.to {
				back = append(back, x)
			} else {
				exits = append(exits, x)
			}
		}
	}
	back = e.join(back)
	return
}

// instantiate adds the facts common to all the alternatives of the iteration
// i of the loop, if that iteration was executed.
func (st *State) instantiate(l *LoopInst, i *Poly) bool {
	if len(l.Common) == 0 || !st.F.Entails(i) || !st.F.Entails(l.Upper.Sub(i).AddI(-1)) {
		return true
	}
	s := newSubster(map[*Term]Arg{l.Bv: i})
	for _, f := range l.Common {
		if !st.F.Add(f.subst(s)) {
			return false
		}
	}
	return true
}

// refine updates the hypotheses. It reports whether something changed.
func (s *summary) refine(start item, back []item, pass int) bool {
	changed := false
	e := s.e
	initContent := func(o *Obj) Content {
		if c, ok := s.init.heap[o]; ok {
			return c
		}
		return baseContent(o)
	}
	startContent := func(o *Obj) (Content, bool) {
		if c, ok := start.st.heap[o]; ok {
			return c, true
		}
		return baseContent(o), false
	}
	conflict := map[string]*Poly{}
	for _, b := range back {
		for _, p := range s.phis {
			if s.match(b.st.F, s.initFr.env[p], start.fr.env[p], b.fr.env[p], "phi:"+p.Name(), pass, conflict) {
				changed = true
			}
		}
	}
	if pass == 0 && changed {
		// With a constant index the pass modified the objects of the first
		// iteration instead of those of any iteration: ignore them.
		return true
	}
	// Objects.
	dependsOnK := func(o *Obj) bool { return contains(o.Term, s.k) }
	modified := map[*Obj]bool{}
	changes := make([]map[*Obj]Content, len(back))
	var pats []*Obj
	for i, b := range back {
		changes[i] = map[*Obj]Content{}
		b.st.sync()
		for o, c := range b.st.heap {
			sc, _ := startContent(o)
			if sc.key() == c.key() {
				continue
			}
			changes[i][o] = c
			if dependsOnK(o) && !modified[o] {
				modified[o] = true
				pats = append(pats, o)
			}
		}
	}
	sort.Slice(pats, func(i, j int) bool { return pats[i].Term.ID < pats[j].Term.ID })
	for i, b := range back {
		if !contains(b.st.F.Norm(PVar(s.k)), s.k) {
			// The iteration is known: its objects are those of any iteration
			// all the same.
			var l []*Obj
			for o := range changes[i] {
				if !dependsOnK(o) {
					l = append(l, o)
				}
			}
			sort.Slice(l, func(i, j int) bool { return l[i].Term.ID < l[j].Term.ID })
			for _, o := range l {
				for _, p := range pats {
					if p.Kind != o.Kind || typeKey(p.Typ) != typeKey(o.Typ) {
						continue
					}
					v, ok := unify(p.Term, o.Term, s.k)
					if ok && v != nil && b.st.F.EntailsEq(v.Sub(PVar(s.k))) && s.it.st.follows(o) {
						if !s.drop[o] {
							s.drop[o] = true
							changed = true
						}
						changes[i][p] = changes[i][o]
						delete(changes[i], o)
						break
					}
				}
			}
		}
		for o := range changes[i] {
			modified[o] = true
			if !dependsOnK(o) && !s.objs[o] {
				s.objs[o] = true
				changed = true
			}
		}
	}
	var objs []*Obj
	for o := range modified {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Term.ID < objs[j].Term.ID })
	toBv := newSubster(map[*Term]Arg{s.k: PVar(s.bv)})
	var fams []*Family
	for _, o := range objs {
		if dependsOnK(o) {
			f := &Family{Pat: mkObj(toBv.tm(o.Term), o.Typ, o.Kind), Alts: make([]Content, len(back))}
			for i := range back {
				if c, ok := changes[i][o]; ok {
					f.Alts[i] = substContent(c, toBv)
				}
			}
			fams = append(fams, f)
			continue
		}
		if changed && !s.objs[o] {
			continue
		}
		sc, inStart := startContent(o)
		_ = inStart
		switch sc := sc.(type) {
		case CellC:
			for _, b := range back {
				c, ok := b.st.heap[o].(CellC)
				if !ok {
					c = sc
				}
				if s.match(b.st.F, initContent(o).(CellC).V, sc.V, c.V, objKey(o), pass, conflict) {
					changed = true
				}
			}
		case *SeqC:
			if s.seqBad[o] {
				continue
			}
			alts := make([][]SWrite, len(back))
			bad := false
			for i, b := range back {
				c, ok := b.st.heap[o].(*SeqC)
				if !ok {
					continue
				}
				if !prefixW(sc.W, c.W) {
					bad = true
					break
				}
				for _, w := range c.W[len(sc.W):] {
					alts[i] = append(alts[i], w.subst(toBv))
				}
			}
			if bad {
				s.seqBad[o] = true
				changed = true
				continue
			}
			if keySW(alts) != keySW(s.seq[o]) {
				s.seq[o] = alts
				changed = true
				if pass > 16 {
					s.seqBad[o] = true
				}
			}
		case *MapC:
			if s.mapBad[o] {
				continue
			}
			alts := make([][]MWrite, len(back))
			bad := false
			for i, b := range back {
				c, ok := b.st.heap[o].(*MapC)
				if !ok {
					continue
				}
				if len(c.W) < len(sc.W) || c.Base != sc.Base {
					bad = true
					break
				}
				for j := range sc.W {
					if c.W[j].key() != sc.W[j].key() {
						bad = true
					}
				}
				if bad {
					break
				}
				for _, w := range c.W[len(sc.W):] {
					alts[i] = append(alts[i], w.subst(toBv))
				}
			}
			if bad {
				s.mapBad[o] = true
				changed = true
				continue
			}
			if keyMW(alts) != keyMW(s.maps[o]) {
				s.maps[o] = alts
				changed = true
				if pass > 16 {
					s.mapBad[o] = true
				}
			}
		}
	}
	if famKey(fams) != famKey(s.fams) {
		s.fams = fams
		changed = true
	}
	// Facts and events of every alternative.
	known := map[string]bool{}
	for _, f := range start.st.F.log {
		known[f.key()] = true
	}
	alts := make([]LoopAlt, len(back))
	evs := make([][]*Ev, len(back))
	for i, b := range back {
		seen := map[string]bool{}
		for _, f := range b.st.F.log {
			if !known[f.key()] && !seen[f.key()] {
				seen[f.key()] = true
				alts[i].Facts = append(alts[i].Facts, f.subst(toBv))
			}
		}
		n := 0
		for n < len(b.st.ors) && n < len(start.st.ors) && b.st.ors[n] == start.st.ors[n] {
			n++
		}
		alts[i].Ors = substOrs(b.st.ors[n:], toBv)
		for _, p := range b.st.picks[min(len(start.st.picks), len(b.st.picks)):] {
			alts[i].Picks = append(alts[i].Picks, p.subst(toBv))
		}
		for _, ev := range b.st.ev.since(start.st.ev) {
			evs[i] = append(evs[i], ev.subst(toBv))
		}
	}
	if altKey(alts, evs) != altKey(s.alts, s.evs) {
		s.alts, s.evs = alts, evs
		changed = true
	}
	if changed {
		return true
	}
	// Invariants from the conditions that hold at the end of every iteration.
	x := &X{e: e, st: s.init}
	var inv []*Poly
	have := map[string]bool{}
	for _, p := range s.inv {
		have[p.argKey()] = true
	}
	if len(back) > 0 {
		for _, f := range alts[0].Facts {
			if f.K != FGe || !contains(f.P, s.bv) {
				continue
			}
			q := substPoly(f.P, map[*Term]Arg{s.bv: PVar(s.k)})
			all := true
			for _, b := range back[1:] {
				if !b.st.F.Entails(q) {
					all = false
					break
				}
			}
			if !all {
				continue
			}
			p := substPoly(q, map[*Term]Arg{s.k: PVar(s.k).AddI(-1)})
			if have[p.argKey()] || containsFn(p, func(t *Term) bool { return t.Op == "sk" && contains(t, s.k) }) {
				continue
			}
			p0 := substPoly(p, map[*Term]Arg{s.k: &Poly{}})
			v, ok := x.eval(bGe(p0))
			if !ok {
				// The condition may fail before the first iteration.
				if linearIn(q, s.k) {
					b := bGe(p0)
					s.split = &b
					return true
				}
				continue
			}
			if v {
				inv = append(inv, p)
				have[p.argKey()] = true
			}
		}
	}
	if len(inv) > 0 {
		s.inv = append(s.inv, inv...)
		return true
	}
	// Candidates over unknown values.
	for _, c := range s.candidates() {
		if s.bad[c.key] {
			continue
		}
		ok := s.init.F.Entails(c.at(s, func(l leafVal) *Poly { return l.init }, &Poly{}))
		for _, b := range back {
			if !ok {
				break
			}
			p := c.at(s, func(l leafVal) *Poly { return s.backLeaf(b, l) }, PVar(s.k).AddI(1))
			ok = p != nil && b.st.F.Entails(p)
		}
		if !ok {
			s.bad[c.key] = true
			changed = true
		}
	}
	return changed
}

// backLeaf returns the value of a leaf at the end of the iteration.
func (s *summary) backLeaf(b item, l leafVal) *Poly {
	for _, p := range s.phis {
		key := "phi:" + p.Name()
		if strings.HasPrefix(l.key, key) {
			if v := leafAt(b.fr.env[p], key, l.key); v != nil {
				return v
			}
		}
	}
	for o := range s.objs {
		key := objKey(o)
		if strings.HasPrefix(l.key, key) {
			if c, ok := b.st.heap[o].(CellC); ok {
				if v := leafAt(c.V, key, l.key); v != nil {
					return v
				}
			}
		}
	}
	return l.init.Sub(PVar(mkTerm("sk", SInt, nil, Lit("unknownleaf"+l.key))))
}

func leafAt(v Value, key, want string) *Poly {
	if key == want {
		if i, ok := v.(IntV); ok {
			return i.P
		}
		return nil
	}
	if !strings.HasPrefix(want, key) {
		return nil
	}
	switch a := v.(type) {
	case StructV:
		for i := range a.F {
			if r := leafAt(a.F[i], key+"."+strconv.Itoa(i), want); r != nil {
				return r
			}
		}
	case ArrayV:
		for i := range a.E {
			if r := leafAt(a.E[i], key+"["+strconv.Itoa(i)+"]", want); r != nil {
				return r
			}
		}
	case SliceV:
		switch want {
		case key + ".off":
			return a.Off
		case key + ".len":
			return a.Len
		case key + ".cap":
			return a.Cap
		}
	}
	return nil
}

func linearIn(p *Poly, k *Term) bool {
	for _, m := range p.ms {
		if len(m.vs) == 1 && m.vs[0] == k {
			return true
		}
	}
	return false
}

func prefixW(a, b []SWrite) bool {
	if len(b) < len(a) {
		return false
	}
	for i := range a {
		if a[i].key() != b[i].key() {
			return false
		}
	}
	return true
}

func keySW(a [][]SWrite) string {
	n := 0
	k := ""
	for _, l := range a {
		k += "|"
		for _, w := range l {
			n++
			k += w.key()
		}
	}
	if n == 0 {
		return ""
	}
	return k
}

func keyMW(a [][]MWrite) string {
	n := 0
	k := ""
	for _, l := range a {
		k += "|"
		for _, w := range l {
			n++
			k += w.key()
		}
	}
	if n == 0 {
		return ""
	}
	return k
}

func famKey(l []*Family) string {
	k := ""
	for _, f := range l {
		k += objKey(f.Pat)
		for _, c := range f.Alts {
			k += "|"
			if c != nil {
				k += c.key()
			}
		}
	}
	return k
}

func altKey(a []LoopAlt, e [][]*Ev) string {
	k := ""
	for i := range a {
		k += "|"
		for _, f := range a[i].Facts {
			k += f.key() + ";"
		}
		k += orsKey(a[i].Ors)
		for _, p := range a[i].Picks {
			k += p.Loop.ID + p.V.argKey() + strconv.Itoa(p.Alt) + ";"
		}
		for _, ev := range e[i] {
			k += ev.key()
		}
	}
	return k
}
