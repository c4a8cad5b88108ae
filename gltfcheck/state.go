package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Content is the abstract content of an object.
type Content interface{ key() string }

type CellC = *cellC

type cellC struct {
	V Value
	k string
}

func newCell(v Value) CellC { return &cellC{V: v} }

// interned maps the keys of contents and events to short ones.
var interned = map[string]string{}

func intern(k string) string {
	s, ok := interned[k]
	if !ok {
		s = "#" + strconv.Itoa(len(interned)) + "."
		interned[k] = s
	}
	return s
}

// SeqC is the content of a sequence: a base (zeros, or the symbolic content
// named by Base) overwritten by W, in order.
type SeqC struct {
	Elem types.Type
	Base *Term
	W    []SWrite
	k    string
}

type WKind uint8

const (
	WPoint WKind = iota // [Idx] = V
	WCopy               // [Idx, Idx+N) = Src[SrcOff, SrcOff+N)
	WZero               // [Idx, Idx+N) = 0
	WHavoc              // [Idx, Idx+N) unknown, named by ID
	WEnc                // glTF encoding of elements of type Enc with stride Stride, [Idx, Idx+N) = Src[SrcOff, ...)
	WLoop               // for bv in [0, Loop.Upper): Alts[alternative chosen at bv]
)

type SWrite struct {
	Kind   WKind
	Idx    *Poly
	N      *Poly
	V      Value
	Src    *SeqC
	SrcOff *Poly
	Stride *Poly
	ID     *Term
	Enc    *binType
	Loop   *LoopInst
	Alts   [][]SWrite
	Pos    token.Pos
}

type MWrite struct {
	Key, Val Value
	Del      bool
	Loop     *LoopInst
	Alts     [][]MWrite
}

type MapC struct {
	T    *types.Map
	Base *Term // nil: empty
	W    []MWrite
	k    string
}

// LoopInst summarises the iterations of a loop: for every iteration Bv in
// [0, Upper) one of the alternatives held.
type LoopInst struct {
	ID     string
	Bv     *Term
	Upper  *Poly
	Alts   []LoopAlt
	Common []Fact
	Pos    token.Pos
}

// LoopAlt holds the facts of an alternative, and what the joins of its paths
// forgot.
type LoopAlt struct {
	Facts []Fact
	Ors   []*Or
	Picks []Pick // the alternatives of other loops that it assumes
}

// Pick is the choice of an alternative for an iteration of a loop.
type Pick struct {
	Loop *LoopInst
	V    *Poly
	Alt  int
}

func (p Pick) subst(s *subster) Pick {
	return Pick{p.Loop.subst(s), s.poly(p.V), p.Alt}
}

func substOrs(l []*Or, s *subster) []*Or {
	var out []*Or
	for _, o := range l {
		n := &Or{}
		for _, a := range o.Alts {
			var b OrAlt
			for _, f := range a.Facts {
				b.Facts = append(b.Facts, f.subst(s))
			}
			b.Ors = substOrs(a.Ors, s)
			n.Alts = append(n.Alts, b)
		}
		out = append(out, n)
	}
	return out
}

func orsKey(l []*Or) string {
	k := ""
	for _, o := range l {
		k += "("
		for _, a := range o.Alts {
			for _, f := range a.Facts {
				k += f.key() + ";"
			}
			k += orsKey(a.Ors) + "|"
		}
		k += ")"
	}
	return k
}

// pickOrs chooses among the paths joined in an alternative.
func (x *X) pickOrs(l []*Or, s *subster) {
	for _, o := range l {
		a := o.Alts[x.choose(len(o.Alts))]
		for _, f := range a.Facts {
			if !x.st.F.Add(f.subst(s)) {
				panic(infeasible{})
			}
		}
		x.pickOrs(a.Ors, s)
	}
}

// Family is the content that the objects matching Pat (whose term contains
// Loop.Bv) have after the iteration Bv of the loop.
type Family struct {
	Loop *LoopInst
	Pat  *Obj
	Alts []Content // by alternative, nil if not modified
	k    string
}

func (f *Family) key() string {
	if f.k == "" {
		k := "F" + strconv.Itoa(f.Pat.Term.ID) + "/" + f.Loop.ID
		for _, c := range f.Alts {
			k += "|"
			if c != nil {
				k += c.key()
			}
		}
		f.k = intern(k)
	}
	return f.k
}

func vkey(v Value) string {
	switch v := v.(type) {
	case SliceV:
		if v.Base.Obj == nil {
			return "nils"
		}
		return "s" + argOf(v.Base).argKey() + "," + v.Off.argKey() + "," + v.Len.argKey() + "," + v.Cap.argKey()
	case StructV:
		var sb strings.Builder
		sb.WriteString("{")
		for _, f := range v.F {
			sb.WriteString(vkey(f) + ";")
		}
		return sb.String() + "}"
	case ArrayV:
		var sb strings.Builder
		sb.WriteString("[")
		for _, f := range v.E {
			sb.WriteString(vkey(f) + ";")
		}
		return sb.String() + "]"
	case TupleV:
		var sb strings.Builder
		for _, f := range v {
			sb.WriteString(vkey(f) + ";")
		}
		return sb.String()
	case IfaceV:
		if v.T != nil {
			return v.T.argKey()
		}
		return "i" + typeKey(v.Dyn) + vkey(v.Val)
	case PtrV:
		if v.Obj == nil {
			return "nilp"
		}
		k := "p" + argOf(v).argKey() + typeKey(v.Obj.Typ) + strconv.Itoa(int(v.Obj.Kind))
		if v.Cast != nil {
			k += typeKey(v.Elem)
		}
		return k
	case UnsafeV:
		return "u" + vkey(v.P)
	case FuncV:
		k := argOf(v).argKey()
		if v.Method != nil {
			k += v.Method.FullName() + vkey(v.Recv)
		}
		return k
	}
	return argOf(v).argKey()
}

func (c *cellC) key() string {
	if c.k == "" {
		c.k = intern("c" + vkey(c.V))
	}
	return c.k
}

func polyKey(p *Poly) string {
	if p == nil {
		return "-"
	}
	return p.argKey()
}

func (w SWrite) key() string {
	k := fmt.Sprintf("%d(%s,%s,%s", w.Kind, polyKey(w.Idx), polyKey(w.N), polyKey(w.SrcOff))
	if w.V != nil {
		k += "," + vkey(w.V)
	}
	if w.Src != nil {
		k += "," + w.Src.key()
	}
	if w.Stride != nil {
		k += "," + w.Stride.argKey()
	}
	if w.Enc != nil {
		k += "," + w.Enc.String() + w.Enc.comp
	}
	if w.ID != nil {
		k += "," + w.ID.argKey()
	}
	if w.Loop != nil {
		k += "," + w.Loop.ID + w.Loop.Upper.argKey()
		for _, a := range w.Alts {
			k += "|"
			for _, x := range a {
				k += x.key()
			}
		}
	}
	return k + ")"
}

func (c *SeqC) key() string {
	if c.k != "" {
		return c.k
	}
	var sb strings.Builder
	sb.WriteString("q")
	if c.Base != nil {
		sb.WriteString(c.Base.argKey())
	}
	for _, w := range c.W {
		sb.WriteString(w.key())
	}
	c.k = intern(sb.String())
	return c.k
}

func (w MWrite) key() string {
	k := "m"
	if w.Loop != nil {
		k += w.Loop.ID + w.Loop.Upper.argKey()
		for _, a := range w.Alts {
			k += "|"
			for _, x := range a {
				k += x.key()
			}
		}
		return k
	}
	k += vkey(w.Key)
	if w.Del {
		return k + "-"
	}
	return k + "=" + vkey(w.Val)
}

func (c *MapC) key() string {
	if c.k != "" {
		return c.k
	}
	k := "M"
	if c.Base != nil {
		k += c.Base.argKey()
	}
	for _, w := range c.W {
		k += w.key()
	}
	c.k = intern(k)
	return c.k
}

func (w SWrite) subst(s *subster) SWrite {
	sp := func(p *Poly) *Poly {
		if p == nil {
			return nil
		}
		return s.poly(p)
	}
	w.Idx, w.N, w.SrcOff, w.Stride = sp(w.Idx), sp(w.N), sp(w.SrcOff), sp(w.Stride)
	if w.V != nil {
		w.V = substVal(w.V, s)
	}
	if w.Src != nil {
		w.Src = w.Src.subst(s)
	}
	if w.ID != nil {
		w.ID = s.tm(w.ID)
	}
	if w.Loop != nil {
		w.Loop = w.Loop.subst(s)
		alts := make([][]SWrite, len(w.Alts))
		for i, a := range w.Alts {
			for _, x := range a {
				alts[i] = append(alts[i], x.subst(s))
			}
		}
		w.Alts = alts
	}
	return w
}

func (l *LoopInst) subst(s *subster) *LoopInst {
	if n, ok := s.loop[l]; ok {
		return n
	}
	n := *l
	s.loop[l] = &n
	n.Upper = s.poly(l.Upper)
	n.Alts = nil
	for _, a := range l.Alts {
		var b LoopAlt
		for _, f := range a.Facts {
			b.Facts = append(b.Facts, f.subst(s))
		}
		b.Ors = substOrs(a.Ors, s)
		for _, p := range a.Picks {
			b.Picks = append(b.Picks, p.subst(s))
		}
		n.Alts = append(n.Alts, b)
	}
	n.Common = nil
	for _, f := range l.Common {
		n.Common = append(n.Common, f.subst(s))
	}
	return &n
}

func (c *SeqC) subst(s *subster) *SeqC {
	n := &SeqC{Elem: c.Elem, Base: c.Base}
	if c.Base != nil {
		n.Base = s.tm(c.Base)
	}
	for _, w := range c.W {
		n.W = append(n.W, w.subst(s))
	}
	return n
}

func (w MWrite) subst(s *subster) MWrite {
	if w.Loop != nil {
		w.Loop = w.Loop.subst(s)
		alts := make([][]MWrite, len(w.Alts))
		for i, a := range w.Alts {
			for _, x := range a {
				alts[i] = append(alts[i], x.subst(s))
			}
		}
		w.Alts = alts
		return w
	}
	w.Key = substVal(w.Key, s)
	if !w.Del {
		w.Val = substVal(w.Val, s)
	}
	return w
}

func substContent(c Content, s *subster) Content {
	switch c := c.(type) {
	case CellC:
		return newCell(substVal(c.V, s))
	case *SeqC:
		return c.subst(s)
	case *MapC:
		n := &MapC{T: c.T, Base: c.Base}
		if c.Base != nil {
			n.Base = s.tm(c.Base)
		}
		for _, w := range c.W {
			n.W = append(n.W, w.subst(s))
		}
		return n
	}
	return c
}

// Ev is an observable event.
type Ev struct {
	Kind string
	Args []Value
	Pos  token.Pos
	Fn   string
	Loop *LoopInst
	Alts [][]*Ev
	k    string
}

func (e *Ev) key() string {
	if e.k != "" {
		return e.k
	}
	k := e.Kind + "("
	for _, a := range e.Args {
		k += vkey(a) + ","
	}
	if e.Loop != nil {
		k += e.Loop.ID + e.Loop.Upper.argKey()
		for _, a := range e.Alts {
			k += "|"
			for _, x := range a {
				k += x.key()
			}
		}
	}
	e.k = intern(k + ")")
	return e.k
}

func (e *Ev) subst(s *subster) *Ev {
	n := *e
	n.k = ""
	n.Args = make([]Value, len(e.Args))
	for i, a := range e.Args {
		n.Args[i] = substVal(a, s)
	}
	if e.Loop != nil {
		n.Loop = e.Loop.subst(s)
		n.Alts = make([][]*Ev, len(e.Alts))
		for i, a := range e.Alts {
			for _, x := range a {
				n.Alts[i] = append(n.Alts[i], x.subst(s))
			}
		}
	}
	return &n
}

type evNode struct {
	prev *evNode
	ev   *Ev
	n    int
	k    string // of all events
}

func (n *evNode) key() string {
	if n == nil {
		return ""
	}
	if n.k == "" {
		n.k = intern(n.prev.key() + "E" + n.ev.key())
	}
	return n.k
}

// State is one disjunct of the abstract state at a program point.
type State struct {
	F      *Facts
	heap   map[*Obj]Content
	shared bool
	normAt *subster
	ev     *evNode
	loops  []*LoopInst
	fams   []*Family
	picked map[string]int
	picks  []Pick
	alias  map[*Obj]*Obj // result of append -> slice that may be extended in place
	iters  []Arg
	ctx    string
	ors    []*Or // what joins forgot
}

// Or is a disjunction of the paths that were joined.
type Or struct{ Alts []OrAlt }

// OrAlt is one of the joined paths: the facts and disjunctions that only it
// had.
type OrAlt struct {
	Facts []Fact
	Ors   []*Or
}

// splitOr splits a state in those of the paths that the last join joined.
func (st *State) splitOr() []*State {
	n := len(st.ors) - 1
	var l []*State
	for _, a := range st.ors[n].Alts {
		c := st.clone()
		c.ors = append(st.ors[:n:n], a.Ors...)
		for _, f := range a.Facts {
			if c.F.unsat {
				break
			}
			c.F.Add(f)
		}
		c.sync()
		if !c.F.unsat {
			l = append(l, c)
		}
	}
	return l
}

// prune drops the joined paths that the facts exclude. If only one remains
// of a join, its facts hold again.
func (st *State) prune() {
	for again := true; again; {
		again = false
		for i, o := range st.ors {
			var keep []OrAlt
			for _, a := range o.Alts {
				f := st.F.clone()
				for _, p := range a.Facts {
					if f.unsat {
						break
					}
					f.Add(p)
				}
				if !f.unsat {
					keep = append(keep, a)
				}
			}
			if len(keep) == len(o.Alts) || len(keep) == 0 {
				continue
			}
			ors := append(st.ors[:i:i], st.ors[i+1:]...)
			if len(keep) == 1 {
				for _, p := range keep[0].Facts {
					st.F.Add(p)
				}
				ors = append(ors, keep[0].Ors...)
				st.sync()
			} else {
				ors = append(ors, &Or{keep})
			}
			st.ors = ors
			again = true
			break
		}
	}
}

// leaves calls f with st and, as long as f returns false, with the states of
// the paths joined in it. It returns whether all leaves satisfied f.
func (st *State) leaves(budget *int, f func(st *State) bool) bool {
	if f(st) {
		return true
	}
	if len(st.ors) == 0 || *budget <= 0 {
		return false
	}
	for _, c := range st.splitOr() {
		*budget--
		if !c.leaves(budget, f) {
			return false
		}
	}
	return true
}

func newState() *State {
	f := newFacts()
	return &State{F: f, heap: map[*Obj]Content{}, normAt: f.norm, picked: map[string]int{}, alias: map[*Obj]*Obj{}}
}

func (st *State) clone() *State {
	n := *st
	n.F = st.F.clone()
	st.shared, n.shared = true, true
	n.loops = st.loops[:len(st.loops):len(st.loops)]
	n.fams = st.fams[:len(st.fams):len(st.fams)]
	n.picked = cloneMap(st.picked)
	return &n
}

func (st *State) addEv(e *Ev) {
	n := 1
	if st.ev != nil {
		n = st.ev.n + 1
	}
	st.ev = &evNode{prev: st.ev, ev: e, n: n}
}

func (n *evNode) list() []*Ev {
	var r []*Ev
	for ; n != nil; n = n.prev {
		r = append(r, n.ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// since returns the events of n after m.
func (n *evNode) since(m *evNode) []*Ev {
	var r []*Ev
	for ; n != m && n != nil; n = n.prev {
		r = append(r, n.ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// sync renames the objects of the heap after new equalities are known.
func (st *State) sync() {
	if st.normAt == st.F.norm {
		return
	}
	st.normAt = st.F.norm
	changed := false
	for o := range st.heap {
		if st.F.NormT(o.Term) != o.Term {
			changed = true
			break
		}
	}
	if !changed {
		return
	}
	n := make(map[*Obj]Content, len(st.heap))
	var keys []*Obj
	for o := range st.heap {
		keys = append(keys, o)
	}
	// Objects already in normal form win: they were accessed under that name.
	sort.Slice(keys, func(i, j int) bool {
		a, b := st.F.NormT(keys[i].Term) == keys[i].Term, st.F.NormT(keys[j].Term) == keys[j].Term
		if a != b {
			return !a
		}
		return keys[i].Term.ID < keys[j].Term.ID
	})
	for _, o := range keys {
		n[st.norm(o)] = st.heap[o]
	}
	st.heap, st.shared = n, false
}

func (st *State) norm(o *Obj) *Obj {
	t := st.F.NormT(o.Term)
	if t == o.Term {
		return o
	}
	return mkObj(t, o.Typ, o.Kind)
}

func (st *State) put(o *Obj, c Content) {
	st.sync()
	o = st.norm(o)
	if st.shared {
		st.heap = cloneMap(st.heap)
		st.shared = false
	}
	st.heap[o] = c
}

// remove forgets the content of an object.
func (st *State) remove(o *Obj) {
	st.sync()
	o = st.norm(o)
	if _, ok := st.heap[o]; ok {
		st.heap, st.shared = cloneMap(st.heap), false
		delete(st.heap, o)
	}
}

// follows reports whether get would find the same content of the object if it
// was removed.
func (st *State) follows(o *Obj) bool {
	st.sync()
	o = st.norm(o)
	c, ok := st.heap[o]
	if !ok {
		return true
	}
	for i := len(st.fams) - 1; i >= 0; i-- {
		f := st.fams[i]
		if f.Pat.Kind != o.Kind || typeKey(f.Pat.Typ) != typeKey(o.Typ) {
			continue
		}
		v, ok := unify(f.Pat.Term, o.Term, f.Loop.Bv)
		if !ok || v == nil {
			continue
		}
		if st.F.Entails(v.Neg().AddI(-1)) || st.F.Entails(v.Sub(f.Loop.Upper)) {
			continue
		}
		a, ok := st.picked[f.Loop.ID+"|"+f.Loop.Upper.argKey()+"|"+st.F.Norm(v).argKey()]
		if !ok || !st.F.Entails(v) || !st.F.Entails(f.Loop.Upper.Sub(v).AddI(-1)) {
			return false
		}
		if f.Alts[a] != nil {
			return substContent(f.Alts[a], newSubster(map[*Term]Arg{f.Loop.Bv: v})).key() == c.key()
		}
	}
	return baseContent(o).key() == c.key()
}

// baseContent is the content of an object never written.
func baseContent(o *Obj) Content {
	switch o.Kind {
	case OCell:
		return newCell(symValue(o.Typ, func(s Sort, t types.Type) *Term { return mkTerm("deref", s, t, o.Term) }))
	case OSeq:
		return &SeqC{Elem: o.Typ, Base: o.Term}
	default:
		mt, _ := o.Typ.Underlying().(*types.Map)
		return &MapC{T: mt, Base: o.Term}
	}
}

// elemOf names the element i of the sequence named base.
func elemOf(base *Term, i *Poly, typ types.Type) Value {
	return symValue(typ, func(s Sort, t types.Type) *Term { return mkTerm("elem", s, t, base, i) })
}

// unify finds the value of bv such that pat[bv:=v] is t.
func unify(pat, t Arg, bv *Term) (v *Poly, ok bool) {
	switch p := pat.(type) {
	case Lit:
		l, ok := t.(Lit)
		return nil, ok && l == p
	case *Term:
		if p == t {
			return nil, true
		}
		if p == bv {
			return polyArg(t), true
		}
		q, isT := t.(*Term)
		if !isT || q.Op != p.Op || len(q.Args) != len(p.Args) || q.Sort != p.Sort {
			return nil, false
		}
		for i := range p.Args {
			x, ok := unify(p.Args[i], q.Args[i], bv)
			if !ok {
				return nil, false
			}
			if x != nil {
				if v != nil && !v.Eq(x) {
					return nil, false
				}
				v = x
			}
		}
		return v, true
	case *Poly:
		q, isP := t.(*Poly)
		if !isP {
			if tt, isT := t.(*Term); isT && tt.Sort == SInt {
				q = PVar(tt)
			} else {
				return nil, false
			}
		}
		if !contains(p, bv) {
			return nil, p.Eq(q)
		}
		if c := p.coefOf(bv); c != 0 {
			rest := p.Sub(PVar(bv).ScaleI(c))
			if contains(rest, bv) {
				return nil, false
			}
			return q.Sub(rest).ScaleI(c), true // c is 1 or -1
		}
		if a, b := p.single(), q.single(); a != nil && b != nil {
			return unify(a, b, bv)
		}
		return nil, false
	}
	return nil, false
}

// coefOf returns the coefficient of the linear term t if it is 1 or -1.
func (p *Poly) coefOf(t *Term) int64 {
	for _, m := range p.ms {
		if len(m.vs) == 1 && m.vs[0] == t && m.c.IsInt64() {
			if c := m.c.Int64(); c == 1 || c == -1 {
				return c
			}
		}
	}
	return 0
}

// get returns the content of an object.
func (x *X) get(o *Obj) Content {
	st := x.st
	st.sync()
	o = st.norm(o)
	if c, ok := st.heap[o]; ok {
		return c
	}
	x.checkAlias(o)
	st.sync()
	o = st.norm(o)
	if c, ok := st.heap[o]; ok {
		return c
	}
	// Instances of families.
	for i := len(st.fams) - 1; i >= 0; i-- {
		f := st.fams[i]
		if f.Pat.Kind != o.Kind || f.Pat.Term.Op != o.Term.Op {
			continue
		}
		if typeKey(f.Pat.Typ) != typeKey(o.Typ) {
			continue
		}
		v, ok := unify(f.Pat.Term, o.Term, f.Loop.Bv)
		if !ok || v == nil {
			continue
		}
		if !x.decide(bGe(v)) || !x.decide(bGe(f.Loop.Upper.Sub(v).AddI(-1))) {
			continue
		}
		a := x.pick(f.Loop, v)
		if f.Alts[a] == nil {
			continue
		}
		c := substContent(f.Alts[a], newSubster(map[*Term]Arg{f.Loop.Bv: v}))
		st.put(o, c)
		return c
	}
	return baseContent(o)
}

// pick chooses the alternative taken by iteration v of a loop and assumes its
// facts.
func (x *X) pick(l *LoopInst, v *Poly) int {
	return x.pickAlt(l, v, -1)
}

// pickAlt is like pick, for the given alternative if it isn't negative.
func (x *X) pickAlt(l *LoopInst, v *Poly, want int) int {
	v = x.st.F.Norm(v)
	k := l.ID + "|" + l.Upper.argKey() + "|" + v.argKey()
	if a, ok := x.st.picked[k]; ok {
		if want >= 0 && a != want {
			panic(infeasible{})
		}
		return a
	}
	a := want
	if len(l.Alts) == 0 || a >= len(l.Alts) {
		panic(infeasible{})
	}
	if a < 0 {
		a = 0
		if len(l.Alts) > 1 {
			a = x.choose(len(l.Alts))
		}
	}
	x.st.picked[k] = a
	n := len(x.st.picks)
	x.st.picks = append(x.st.picks[:n:n], Pick{l, v, a})
	s := newSubster(map[*Term]Arg{l.Bv: v})
	for _, f := range l.Alts[a].Facts {
		if !x.st.F.Add(f.subst(s)) {
			panic(infeasible{})
		}
	}
	for _, p := range l.Alts[a].Picks {
		p = p.subst(s)
		x.pickAlt(p.Loop, p.V, p.Alt)
	}
	if x.e.deepPick {
		x.pickOrs(l.Alts[a].Ors, s)
	}
	return a
}

// deepen chooses among the joined paths of the iterations picked so far.
func (x *X) deepen() {
	for _, p := range x.st.picks {
		x.pickOrs(p.Loop.Alts[p.Alt].Ors, newSubster(map[*Term]Arg{p.Loop.Bv: p.V}))
	}
}

// checkAlias makes sure that o is not another name of an object with a
// different content: two elements of the same array are the same object if
// their indices are equal.
func (x *X) checkAlias(o *Obj) {
	if o.Fresh() {
		return
	}
	st := x.st
	var cands []*Obj
	for p := range st.heap {
		if p.Kind == o.Kind && p.Term.Op == o.Term.Op && p != o && !p.Fresh() && typeKey(p.Typ) == typeKey(o.Typ) {
			cands = append(cands, p)
		}
	}
	sort.Slice(cands, func(i, j int) bool { return cands[i].Term.ID < cands[j].Term.ID })
	for _, p := range cands {
		d, ok := diffIndex(p.Term, o.Term)
		if !ok || len(d) == 0 {
			continue
		}
		ne := false
		for _, q := range d {
			if st.F.EntailsNe(q) {
				ne = true
				break
			}
		}
		if ne {
			continue
		}
		all := true
		for _, q := range d {
			if !x.decide(bEq(q)) {
				all = false
				break
			}
		}
		if all {
			return
		}
	}
}

// diffIndex compares two terms that differ only in integer arguments and
// returns the differences, all of which are zero if the terms are equal.
func diffIndex(a, b Arg) ([]*Poly, bool) {
	switch p := a.(type) {
	case Lit:
		q, ok := b.(Lit)
		return nil, ok && p == q
	case *Term:
		if a == b {
			return nil, true
		}
		q, ok := b.(*Term)
		if !ok || p.Op != q.Op || len(p.Args) != len(q.Args) || p.Sort != q.Sort {
			return nil, false
		}
		var r []*Poly
		for i := range p.Args {
			d, ok := diffIndex(p.Args[i], q.Args[i])
			if !ok {
				return nil, false
			}
			r = append(r, d...)
		}
		return r, true
	case *Poly:
		q, ok := b.(*Poly)
		if !ok {
			return nil, false
		}
		if p.Eq(q) {
			return nil, true
		}
		return []*Poly{p.Sub(q)}, true
	}
	return nil, false
}

// ---- locations

// load reads the value at p, whose static type is p.Elem.
func (x *X) load(p PtrV) Value {
	if p.Cast != nil {
		raw := x.loadPath(PtrV{Obj: p.Obj, Path: p.Path, Elem: p.Cast})
		return x.recast(raw, p.Cast, p.Elem)
	}
	return x.loadPath(p)
}

// touch records an access to memory shared by all goroutines.
func (x *X) touch(o *Obj, how string) {
	if x.e.trace && x.e.shared[o.Term] {
		x.ev("access", strConst(how), PtrV{Obj: o, Elem: o.Typ})
	}
}

func (x *X) loadPath(p PtrV) Value {
	x.touch(p.Obj, "r")
	switch p.Obj.Kind {
	case OCell:
		c := x.get(p.Obj).(CellC)
		return x.navigate(c.V, p.Obj.Typ, p.Path)
	case OSeq:
		if len(p.Path) == 0 {
			// The whole array.
			if a, ok := p.Elem.Underlying().(*types.Array); ok && a.Len() <= maxArr {
				r := ArrayV{T: p.Elem, E: make([]Value, a.Len())}
				for i := range r.E {
					r.E[i] = x.seqGet(p.Obj, PInt(int64(i)))
				}
				return r
			}
			return OpaqueV{x.freshTerm("arrval", SAny), p.Elem}
		}
		v := x.seqGet(p.Obj, p.Path[0].Idx)
		return x.navigate(v, p.Obj.Typ, p.Path[1:])
	}
	x.undecided("load through map object")
	return x.fresh(p.Elem, "load")
}

func (x *X) navigate(v Value, t types.Type, path []PE) Value {
	for _, e := range path {
		switch a := v.(type) {
		case StructV:
			v, t = a.F[e.Field], fieldType(t, e.Field)
		case ArrayV:
			et := t.Underlying().(*types.Array).Elem()
			v, t = x.arrayAt(a, e.Idx, et), et
		default:
			if e.Idx == nil {
				t = fieldType(t, e.Field)
			} else if at, ok := t.Underlying().(*types.Array); ok {
				t = at.Elem()
			}
			var arg Arg = Lit(strconv.Itoa(e.Field))
			if e.Idx != nil {
				arg = e.Idx
			}
			v = symOf(t, "part", argOf(v), arg)
		}
	}
	return v
}

func fieldType(t types.Type, i int) types.Type {
	return t.Underlying().(*types.Struct).Field(i).Type()
}

// arrayAt returns a[i], deciding which element it is.
func (x *X) arrayAt(a ArrayV, i *Poly, et types.Type) Value {
	if c, ok := x.st.F.Norm(i).Int(); ok {
		if c >= 0 && c < int64(len(a.E)) {
			return a.E[c]
		}
		panic(infeasible{})
	}
	if len(a.E) <= 16 {
		for k := range a.E {
			if x.decide(bEq(i.AddI(-int64(k)))) {
				return a.E[k]
			}
		}
		panic(infeasible{})
	}
	return symOf(et, "at", argOf(a), i)
}

func (x *X) update(v Value, t types.Type, path []PE, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	e := path[0]
	switch a := v.(type) {
	case StructV:
		f := append([]Value{}, a.F...)
		f[e.Field] = x.update(a.F[e.Field], fieldType(t, e.Field), path[1:], nv)
		return StructV{a.T, f}
	case ArrayV:
		et := t.Underlying().(*types.Array).Elem()
		f := append([]Value{}, a.E...)
		if c, ok := x.st.F.Norm(e.Idx).Int(); ok {
			if c < 0 || c >= int64(len(f)) {
				panic(infeasible{})
			}
			f[c] = x.update(a.E[c], et, path[1:], nv)
			return ArrayV{a.T, f}
		}
		for k := range f {
			if x.decide(bEq(e.Idx.AddI(-int64(k)))) {
				f[k] = x.update(a.E[k], et, path[1:], nv)
				return ArrayV{a.T, f}
			}
		}
		panic(infeasible{})
	}
	return OpaqueV{x.freshTerm("upd", SAny), t}
}

func (x *X) store(p PtrV, v Value) {
	if p.Cast != nil {
		v = x.recast(v, p.Elem, p.Cast)
		p = PtrV{Obj: p.Obj, Path: p.Path, Elem: p.Cast}
	}
	x.touch(p.Obj, "w")
	switch p.Obj.Kind {
	case OCell:
		c := x.get(p.Obj).(CellC)
		x.st.put(p.Obj, newCell(x.update(c.V, p.Obj.Typ, p.Path, v)))
	case OSeq:
		if len(p.Path) == 0 {
			if a, ok := v.(ArrayV); ok {
				for i, e := range a.E {
					x.seqWrite(p.Obj, SWrite{Kind: WPoint, Idx: PInt(int64(i)), V: e})
				}
				return
			}
			n := PInt(p.Elem.Underlying().(*types.Array).Len())
			if o, ok := v.(OpaqueV); ok && o.T.Op == "zero" {
				x.seqWrite(p.Obj, SWrite{Kind: WZero, Idx: &Poly{}, N: n})
				return
			}
			x.seqWrite(p.Obj, SWrite{Kind: WHavoc, Idx: &Poly{}, N: n, ID: x.freshTerm("hv", SAny)})
			return
		}
		i := p.Path[0].Idx
		if len(p.Path) > 1 {
			v = x.update(x.seqGet(p.Obj, i), p.Obj.Typ, p.Path[1:], v)
		}
		x.seqWrite(p.Obj, SWrite{Kind: WPoint, Idx: i, V: v})
	default:
		x.undecided("store through map object")
	}
}

func (x *X) seqContent(o *Obj) *SeqC {
	return x.get(o).(*SeqC)
}

// hasOp tells whether p has a variable with the given operator.
func hasOp(p *Poly, op string) bool {
	for _, m := range p.ms {
		for _, v := range m.vs {
			if v.Op == op {
				return true
			}
		}
	}
	return false
}

func (x *X) seqWrite(o *Obj, w SWrite) {
	c := x.seqContent(o)
	w.Pos = x.pos()
	if w.Idx != nil && hasOp(w.Idx, "fdiv") {
		w.Idx = x.settle(w.Idx)
	}
	n := &SeqC{Elem: c.Elem, Base: c.Base}
	n.W = append(c.W[:len(c.W):len(c.W)], w)
	// An earlier point write at the same index is dead.
	if w.Kind == WPoint {
		for i := len(c.W) - 1; i >= 0; i-- {
			if c.W[i].Kind != WPoint {
				break
			}
			if c.W[i].Idx.Eq(w.Idx) {
				n.W = append(append([]SWrite{}, c.W[:i]...), c.W[i+1:]...)
				n.W = append(n.W, w)
				break
			}
		}
	}
	x.st.put(o, n)
	if v, ok := x.e.viewOf[o]; ok {
		// Writing through an unsafe view of v.
		x.seqWrite(v, SWrite{Kind: WHavoc, Idx: &Poly{}, ID: x.freshTerm("hv", SAny)})
	}
}

func (x *X) seqGet(o *Obj, i *Poly) Value {
	return x.seqAt(x.seqContent(o), i)
}

// inRange decides whether i lies in [off, off+n).
func (x *X) inRange(i, off, n *Poly) bool {
	if !x.decide(bGe(i.Sub(off))) {
		return false
	}
	if n == nil {
		return true
	}
	return x.decide(bGe(off.Add(n).Sub(i).AddI(-1)))
}

func (x *X) seqAt(c *SeqC, i *Poly) Value {
	i = x.st.F.Norm(i)
	for k := len(c.W) - 1; k >= 0; k-- {
		w := c.W[k]
		switch w.Kind {
		case WPoint:
			if x.decide(bEq(i.Sub(w.Idx))) {
				return w.V
			}
		case WCopy:
			if x.inRange(i, w.Idx, w.N) {
				return x.seqAt(w.Src, i.Sub(w.Idx).Add(w.SrcOff))
			}
		case WZero:
			if x.inRange(i, w.Idx, w.N) {
				return zeroValue(c.Elem)
			}
		case WHavoc:
			if x.inRange(i, w.Idx, w.N) {
				return elemOf(w.ID, i, c.Elem)
			}
		case WEnc:
			if v, ok := x.encodedAt(c, w, i); ok {
				return v
			}
		case WLoop:
			if v, ok := x.loopAt(c, w, i); ok {
				return v
			}
		}
	}
	if c.Base == nil {
		return zeroValue(c.Elem)
	}
	v := elemOf(c.Base, i, c.Elem)
	if t := x.e.nonNilElem; t != nil && types.Identical(t, c.Elem) {
		x.assume(x.isNil(v).not())
	}
	return v
}

// encodedAt looks i up among the bytes of encoded elements.
func (x *X) encodedAt(c *SeqC, w SWrite, i *Poly) (Value, bool) {
	if !x.inRange(i, w.Idx, w.N) {
		return nil, false
	}
	d := i.Sub(w.Idx)
	s := w.Stride.Const()
	if s != nil && s.Sign() > 0 {
		o := x.st.F.Norm(Mod(d, s))
		k, isConst := o.Int()
		for q := int64(0); !isConst && q < s.Int64(); q++ {
			if x.decide(bEq(o.AddI(-q))) {
				k, isConst = q, true
			}
		}
		e := x.st.F.Norm(FDiv(d.AddI(-k), s))
		var v Value
		for col := 0; col < w.Enc.cols; col++ {
			for row := 0; row < w.Enc.rows; row++ {
				at := k - w.Enc.off(row, col)
				if !isConst || at < 0 || at >= w.Enc.csize {
					continue
				}
				if v == nil {
					v = x.seqAt(w.Src, w.SrcOff.Add(e))
				}
				if comp, ok := w.Enc.part(v, row, col); ok {
					if b := littleEndian(comp, at); b != nil {
						return IntV{b, types.Typ[types.Uint8]}, true
					}
				}
				return elemOf(x.freshTerm("encoded", SAny), i, c.Elem), true
			}
		}
		if isConst {
			return nil, false // Padding.
		}
	}
	return elemOf(mkTerm("encoded", SAny, nil, Lit(w.Src.key()), w.SrcOff, w.Stride, w.Idx), i, c.Elem), true
}

// loopPoint is one of the points an iteration of a loop writes: a*bv + b.
type loopPoint struct {
	a, b *Poly
	w    SWrite
	k    int64 // offset in w, if it writes a range
}

// linear splits p in a*bv + b.
func linear(p *Poly, bv *Term) (a, b *Poly, ok bool) {
	a, b = &Poly{}, &Poly{}
	for _, m := range p.ms {
		k := -1
		for i, v := range m.vs {
			if v == bv {
				if k >= 0 {
					return nil, nil, false
				}
				k = i
			}
		}
		if k < 0 {
			b = b.Add(&Poly{ms: []mono{m}})
			continue
		}
		vs := append(append([]*Term{}, m.vs[:k]...), m.vs[k+1:]...)
		a = a.Add(&Poly{ms: []mono{{m.c, vs}}})
	}
	return a, b, !contains(a, bv) && !contains(b, bv)
}

// quotient splits p in a*v + rem, for a constant or a single variable a, so
// that rem is small.
func quotient(p, a *Poly) (v, rem *Poly, ok bool) {
	if c := a.Const(); c != nil {
		switch c.Sign() {
		case 1:
			v = FDiv(p, c)
		case -1:
			v = FDiv(p, new(big.Int).Neg(c)).Neg()
		default:
			return nil, nil, false
		}
		return v, p.Sub(a.Mul(v)), true
	}
	t := a.single()
	neg := t == nil
	if neg {
		t = a.Neg().single()
	}
	if t == nil {
		return nil, nil, false
	}
	v = &Poly{}
	for _, m := range p.ms {
		for i, w := range m.vs {
			if w == t {
				vs := append(append([]*Term{}, m.vs[:i]...), m.vs[i+1:]...)
				v = v.Add(&Poly{ms: []mono{{m.c, vs}}})
				break
			}
		}
	}
	if neg {
		v = v.Neg()
	}
	return v, p.Sub(a.Mul(v)), true
}

const maxRange = 64

// points lists what the writes of an alternative write, in order.
func points(alt []SWrite, bv *Term) (l []loopPoint, ok bool) {
	for _, w := range alt {
		n := int64(1)
		switch w.Kind {
		case WPoint:
		case WCopy, WZero:
			if w.N == nil {
				return nil, false
			}
			if n, ok = w.N.Int(); !ok || n > maxRange {
				return nil, false
			}
		default:
			return nil, false
		}
		a, b, ok := linear(w.Idx, bv)
		if !ok {
			return nil, false
		}
		for k := int64(0); k < n; k++ {
			l = append(l, loopPoint{a, b.AddI(k), w, k})
		}
	}
	return l, true
}

// loopAt looks i up among the writes of a summarised loop. Precise for loops
// that write, in each iteration, points a*bv+b of the same a, so that a
// point is only written by one iteration.
func (x *X) loopAt(c *SeqC, w SWrite, i *Poly) (Value, bool) {
	f := x.st.F
	if f.Entails(w.Loop.Upper.Neg()) {
		return nil, false
	}
	bv := w.Loop.Bv
	alts := make([][]loopPoint, len(w.Alts))
	var all []loopPoint
	seen := map[string]bool{}
	precise := true
	for n, alt := range w.Alts {
		l, ok := points(alt, bv)
		if !ok {
			precise = false
		}
		alts[n] = l
		for _, p := range l {
			if k := p.b.argKey(); !seen[k] {
				seen[k] = true
				all = append(all, p)
			}
			if !f.EntailsEq(p.a.Sub(all[0].a)) {
				precise = false
			}
		}
	}
	if precise && len(all) == 0 {
		return nil, false
	}
	if precise {
		if v, ok := x.onlyIteration(w.Loop, all, i); ok {
			if v == nil || !x.inRange(v, &Poly{}, w.Loop.Upper) {
				return nil, false
			}
			n := x.pick(w.Loop, v)
			s := newSubster(map[*Term]Arg{bv: v})
			for k := len(alts[n]) - 1; k >= 0; k-- {
				p := alts[n][k]
				if !x.decide(bEq(i.Sub(p.a.Mul(v)).Sub(p.b))) {
					continue
				}
				q := p.w.subst(s)
				switch q.Kind {
				case WPoint:
					return q.V, true
				case WZero:
					return zeroValue(c.Elem), true
				}
				return x.seqAt(q.Src, q.SrcOff.AddI(p.k)), true
			}
			return nil, false
		}
	}
	return elemOf(mkTerm("loopval", SAny, nil, Lit(w.key()), Lit(c.key())), i, c.Elem), true
}

// onlyIteration returns the only iteration of a loop that may write i, nil if
// there is none.
func (x *X) onlyIteration(l *LoopInst, all []loopPoint, i *Poly) (*Poly, bool) {
	f := x.st.F
	a := all[0].a
	up := true
	switch {
	case f.Entails(a.AddI(-1)):
	case f.Entails(a.Neg().AddI(-1)):
		up = false
	default:
		return nil, false
	}
	// The points that differ by a constant are alike.
	type group struct{ low, q, rem, min *Poly }
	groups := map[string]*group{}
	var order []*group
	for _, p := range all {
		k := p.b.dropConst().argKey()
		g := groups[k]
		if g == nil {
			g = &group{low: p.b}
			groups[k] = g
			order = append(order, g)
		}
		if p.b.constPart().Cmp(g.low.constPart()) < 0 {
			g.low = p.b
		}
	}
	for _, g := range order {
		var ok bool
		if g.q, g.rem, ok = quotient(i.Sub(g.low), a); !ok {
			return nil, false
		}
		g.min = g.rem
	}
	var qs, rems []*Poly
	same := true
	for _, p := range all {
		g := groups[p.b.dropConst().argKey()]
		rem := g.rem.Sub(p.b.Sub(g.low))
		if rem.constPart().Cmp(g.min.constPart()) < 0 {
			g.min = rem
		}
		if f.EntailsNe(rem) {
			continue // Never written by way of p.
		}
		if len(qs) > 0 && !f.EntailsEq(qs[0].Sub(g.q)) {
			same = false
		}
		qs, rems = append(qs, g.q), append(rems, rem)
	}
	for _, g := range order {
		if !x.noOther(l, a, g.min, g.rem, g.q, up) {
			return nil, false
		}
	}
	if len(qs) == 0 {
		return nil, true
	}
	if same {
		return qs[0], true
	}
	var v *Poly
	for k, q := range qs {
		if !x.decide(bEq(rems[k])) {
			continue
		}
		if v != nil && !f.EntailsEq(v.Sub(q)) {
			return nil, false
		}
		v = q
	}
	return v, true
}

// noOther reports whether a*v = a*q + rem has no solution in the range of the
// loop for a v other than q and a rem from min to max.
func (x *X) noOther(l *LoopInst, a, min, max, q *Poly, up bool) bool {
	if min.Eq(max) && x.st.F.EntailsEq(min) {
		return true // a isn't zero.
	}
	v := PVar(mkInt("iteration", nil, nil, Lit(l.ID)))
	for _, below := range []bool{true, false} {
		f := x.st.F.clone()
		f.AddGe(v)
		f.AddGe(l.Upper.Sub(v).AddI(-1))
		d := q.Sub(v)
		if !below {
			d = d.Neg()
		}
		f.AddGe(d.AddI(-1))
		// a*(q-v) + rem must not vanish.
		g := a.Mul(q.Sub(v)).Add(min)
		if below != up {
			g = a.Mul(q.Sub(v)).Add(max).Neg()
		}
		if !f.unsat && !f.Entails(g.AddI(-1)) {
			return false
		}
	}
	return true
}

// ---- unsafe casts

type leaf struct {
	off, size int64
	t         types.Type
}

func (e *Engine) leaves(t types.Type, off int64, out *[]leaf) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		*out = append(*out, leaf{off, e.P.Sizes.Sizeof(t), t})
		return u.Info()&(types.IsInteger|types.IsFloat) != 0
	case *types.Array:
		s := e.P.Sizes.Sizeof(u.Elem())
		if u.Len() > maxArr {
			return false
		}
		for i := int64(0); i < u.Len(); i++ {
			if !e.leaves(u.Elem(), off+i*s, out) {
				return false
			}
		}
		return true
	case *types.Struct:
		var fs []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i))
		}
		offs := e.P.Sizes.Offsetsof(fs)
		for i, f := range fs {
			if !e.leaves(f.Type(), off+offs[i], out) {
				return false
			}
		}
		return true
	}
	return false
}

func flatten(v Value, out *[]Value) {
	switch v := v.(type) {
	case StructV:
		for _, f := range v.F {
			flatten(f, out)
		}
	case ArrayV:
		for _, f := range v.E {
			flatten(f, out)
		}
	default:
		*out = append(*out, v)
	}
}

func unflatten(t types.Type, in *[]Value) Value {
	switch u := t.Underlying().(type) {
	case *types.Array:
		r := ArrayV{T: t}
		for i := int64(0); i < u.Len(); i++ {
			r.E = append(r.E, unflatten(u.Elem(), in))
		}
		return r
	case *types.Struct:
		r := StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			r.F = append(r.F, unflatten(u.Field(i).Type(), in))
		}
		return r
	}
	v := (*in)[0]
	*in = (*in)[1:]
	return v
}

// bitsOf returns the unsigned integer with the same representation.
func bitsOf(v Value) *Poly {
	switch v := v.(type) {
	case IntV:
		n, _ := intBits(v.T)
		return WrapTo(v.P, unsignedOf(n))
	case FloatV:
		if v.T.Op == "f32" || v.T.Op == "f64" {
			return v.T.Args[0].(*Poly)
		}
		if c, ok := v.Const(); ok && c == 0 {
			return &Poly{}
		}
		return PVar(mkTerm(fmt.Sprintf("f%dbits", v.Bits), SInt, unsignedOf(uint(v.Bits)), v.T))
	}
	return nil
}

func unsignedOf(bits uint) *types.Basic {
	switch bits {
	case 8:
		return types.Typ[types.Uint8]
	case 16:
		return types.Typ[types.Uint16]
	case 32:
		return types.Typ[types.Uint32]
	}
	return types.Typ[types.Uint64]
}

func fromBits(p *Poly, t types.Type) Value {
	b := t.Underlying().(*types.Basic)
	if b.Info()&types.IsInteger != 0 {
		return IntV{WrapTo(p, b), b}
	}
	bits := floatBits(b)
	if s := p.single(); s != nil && s.Op == fmt.Sprintf("f%dbits", bits) {
		return FloatV{s.Args[0].(*Term), bits}
	}
	if c := p.Const(); c != nil && c.Sign() == 0 {
		return floatConst(0, bits)
	}
	return FloatV{mkTerm(fmt.Sprintf("f%d", bits), SFloat, nil, p), bits}
}

// recast reinterprets the representation of a value.
func (x *X) recast(v Value, from, to types.Type) Value {
	if types.Identical(from, to) {
		return v
	}
	if types.Identical(from.Underlying(), to.Underlying()) {
		return retype(v, to)
	}
	var a, b []leaf
	if !x.e.leaves(from, 0, &a) || !x.e.leaves(to, 0, &b) || x.e.P.Sizes.Sizeof(to) > x.e.P.Sizes.Sizeof(from) {
		return symOf(to, "cast", argOf(v))
	}
	var vs []Value
	flatten(v, &vs)
	if len(vs) != len(a) {
		return symOf(to, "cast", argOf(v))
	}
	byOff := map[int64]int{}
	for i, l := range a {
		byOff[l.off] = i
	}
	bytes := map[int64]*Poly{}
	for i, l := range a {
		p := bitsOf(vs[i])
		if p == nil {
			return symOf(to, "cast", argOf(v))
		}
		for k := int64(0); k < l.size; k++ {
			bytes[l.off+k] = nil
		}
	}
	var out []Value
	for _, l := range b {
		if i, ok := byOff[l.off]; ok && a[i].size == l.size {
			out = append(out, fromBits(bitsOf(vs[i]), l.t))
			continue
		}
		sum := &Poly{}
		for k := int64(0); k < l.size; k++ {
			var bp *Poly
			for i, s := range a {
				if l.off+k >= s.off && l.off+k < s.off+s.size {
					bp = Mod(FDiv(bitsOf(vs[i]), pow2(uint(8*(l.off+k-s.off)))), pow2(8))
				}
			}
			if bp == nil {
				return symOf(to, "cast", argOf(v))
			}
			sum = sum.Add(bp.Scale(pow2(uint(8 * k))))
		}
		out = append(out, fromBits(sum, l.t))
	}
	return unflatten(to, &out)
}

// retype changes the static type of a value with an identical representation.
func retype(v Value, to types.Type) Value {
	switch v := v.(type) {
	case StructV:
		u, ok := to.Underlying().(*types.Struct)
		if !ok || u.NumFields() != len(v.F) {
			return StructV{to, v.F}
		}
		f := make([]Value, len(v.F))
		for i := range f {
			f[i] = retype(v.F[i], u.Field(i).Type())
		}
		return StructV{to, f}
	case ArrayV:
		u, ok := to.Underlying().(*types.Array)
		if !ok {
			return ArrayV{to, v.E}
		}
		f := make([]Value, len(v.E))
		for i := range f {
			f[i] = retype(v.E[i], u.Elem())
		}
		return ArrayV{to, f}
	case PtrV:
		if u, ok := to.Underlying().(*types.Pointer); ok {
			v.Elem = u.Elem()
		}
		return v
	case SliceV:
		if u, ok := to.Underlying().(*types.Slice); ok {
			v.Elem = u.Elem()
		}
		return v
	case MapV:
		return MapV{v.Obj, to}
	case IntV:
		if b, ok := to.Underlying().(*types.Basic); ok {
			return IntV{v.P, b}
		}
	case OpaqueV:
		return OpaqueV{v.T, to}
	}
	return v
}
