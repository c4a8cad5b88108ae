package main

import (
	"fmt"
	"math"
	"strconv"
	"strings"
	"time"
)

// ---- W07: the bounds of positions

func init() {
	register("W07", checkDef{run: checkW07,
		explain: "WritePosition, and WritePrimitiveAttributes with positions alone, first and last, are interpreted with symbolic slices. The value of each component of Min and Max is a term: a constant, a component of an element, math.Min or math.Max of such, or the result of a loop, for which the analysis has the values before it and after an arbitrary iteration, for each path through the body. Rules, for each component: operation (the smaller of two values is taken for Min, the larger one for Max, by math.Min and math.Max or by what the path says about them), component (all elements in the term are elements of the data, and it is this component of them), start (a constant in it is beyond all float32), kept (an iteration doesn't forget what was found before), every (the elements the term depends on are all of the data).",
		assume:  append([]string{"no component is NaN"}, writeAssume...)})
}

func checkW07(r *Report) {
	vec3 := r.sliceType("[][3]float32")
	r.guardFor(60*time.Second, "modeler.WritePosition", func() {
		n := r.writes("WritePosition", "", oneSlice(vec3))
		if n == nil {
			return
		}
		for _, o := range n.outs {
			if o.panic {
				continue
			}
			r.on(n.e, o.st, n.fn, func(x *X) {
				p := &newPath{r: r, n: n, x: x, o: o}
				p.extremes(p.newElem("Accessors", "accept", 0, 1), n.data[0], "")
			})
		}
	})
	position := attribute{"POSITION", vec3}
	normal := attribute{"NORMAL", vec3}
	for _, as := range [][]attribute{{position}, {normal, position}, {position, normal}} {
		r.guardFor(60*time.Second, "modeler.WritePrimitiveAttributes of "+attrsOf(as), func() {
			n := r.writes("WritePrimitiveAttributes", " of "+attrsOf(as), r.attributes(as))
			if n == nil {
				return
			}
			for _, o := range n.outs {
				if o.panic {
					continue
				}
				r.on(n.e, o.st, n.fn, func(x *X) {
					p := &newPath{r: r, n: n, x: x, o: o}
					kept, ok := p.present(as)
					if !ok {
						return
					}
					for i, k := range kept {
						if as[k].name == "POSITION" {
							p.extremes(x.elemPtr(x.docSlice(n.doc, "Accessors"), n.old.accs.Len.AddI(int64(i))), n.data[k], "POSITION: ")
						}
					}
				})
			}
		})
	}
}

// extremes checks the bounds of an accessor.
func (p *newPath) extremes(acr PtrV, data SliceV, which string) {
	x := p.x
	if x.decide(bEq(data.Len)) {
		return
	}
	for _, f := range []string{"Min", "Max"} {
		s := x.docSlice(acr, f)
		if !x.decide(bEq(s.Len.AddI(-3))) {
			continue // see W05
		}
		for c := 0; c < 3; c++ {
			v, ok := x.elemAt(s, PInt(int64(c))).(FloatV)
			if !ok {
				x.undecided("unknown bound")
				return
			}
			q := &extreme{p: p, data: data, comp: c, max: f == "Max", what: fmt.Sprintf("%s%s of component %d", which, f, c)}
			l, ok := q.resolve(v.T, nil)
			if !ok {
				if !q.failed {
					p.r.Undec(p.n.what + ": " + q.what + ": unknown value " + q.unknown)
				}
				continue
			}
			p.ge(q.covered(l).Sub(data.Len), "every", q.what, q.what+" doesn't depend on all elements")
		}
	}
}

// An extreme is a bound which is looked at.
type extreme struct {
	p       *newPath
	data    SliceV
	comp    int
	max     bool
	what    string
	failed  bool
	unknown string
}

// A span is a range of elements.
type span struct{ from, to *Poly }

func (q *extreme) fail(rule, msg string) {
	q.failed = true
	q.p.check(false, rule, q.what, q.what+" "+msg)
}

func (q *extreme) none(t *Term) ([]span, bool) {
	if q.unknown == "" {
		q.unknown = t.String()
	}
	return nil, false
}

func noConv(t *Term) *Term {
	for strings.HasPrefix(t.Op, "f2f") && len(t.Args) == 1 {
		u, ok := t.Args[0].(*Term)
		if !ok {
			break
		}
		t = u
	}
	return t
}

// elem returns the index of the element of the data which t is a component of.
func (q *extreme) elem(t *Term) (i *Poly, comp int, ok bool) {
	if t.Op != "elem" || len(t.Args) != 2 {
		return nil, 0, false
	}
	c, ok1 := t.Args[1].(*Poly)
	u, ok2 := t.Args[0].(*Term)
	if !ok1 || !ok2 || u.Op != "elem" || len(u.Args) != 2 {
		return nil, 0, false
	}
	i, ok = u.Args[1].(*Poly)
	if c.Const() == nil || !ok || u.Args[0].argKey() != q.base() {
		return nil, 0, false
	}
	return i, int(c.Const().Int64()), true
}

func (q *extreme) base() string {
	v, ok := q.p.x.elemAt(q.data, PInt(0)).(ArrayV)
	if !ok || len(v.E) == 0 {
		return ""
	}
	f, ok := v.E[0].(FloatV)
	if !ok || f.T.Op != "elem" {
		return ""
	}
	u, ok := f.T.Args[0].(*Term)
	if !ok || u.Op != "elem" {
		return ""
	}
	return u.Args[0].argKey()
}

// resolve returns the elements which the value isn't larger than (for a
// maximum: smaller than), if it is one of them or a constant.
func (q *extreme) resolve(t *Term, leaf func(t *Term) ([]span, bool)) ([]span, bool) {
	t = noConv(t)
	if leaf != nil {
		if l, ok := leaf(t); ok {
			return l, true
		}
	}
	if v, ok := (FloatV{T: t, Bits: 64}).Const(); ok {
		if math.IsNaN(v) || q.max && v > -math.MaxFloat32 || !q.max && v < math.MaxFloat32 {
			q.fail("start", "starts with "+strconv.FormatFloat(v, 'g', -1, 64))
			return nil, false
		}
		return nil, true
	}
	if i, c, ok := q.elem(t); ok {
		if c != q.comp {
			q.fail("component", fmt.Sprint("depends on component ", c))
			return nil, false
		}
		return []span{{i, i.AddI(1)}}, true
	}
	for _, name := range []string{"Min", "Max"} {
		if a, ok := call(t, name); ok && len(a) == 2 {
			if (name == "Max") != q.max {
				q.fail("operation", "is taken from a call of math."+name)
				return nil, false
			}
			l, ok := q.resolve(a[0], leaf)
			if !ok {
				return nil, false
			}
			m, ok := q.resolve(a[1], leaf)
			return append(append([]span{}, l...), m...), ok
		}
	}
	if t.Op == "sk" && len(t.Args) > 1 {
		return q.fold(t)
	}
	return q.none(t)
}

// fold looks at the result of a loop.
func (q *extreme) fold(t *Term) ([]span, bool) {
	id, ok := t.Args[0].(Lit)
	if !ok {
		return q.none(t)
	}
	f := q.p.x.e.folds[string(id)]
	n, ok := t.Args[len(t.Args)-1].(*Poly)
	if f == nil || f.mixed || !ok || len(f.cur.Args) != len(t.Args) {
		return q.none(t)
	}
	for i := range t.Args[:len(t.Args)-1] {
		if t.Args[i].argKey() != f.cur.Args[i].argKey() {
			return q.none(t)
		}
	}
	init, ok := f.init.(FloatV)
	if !ok {
		return q.none(t)
	}
	r, ok := q.resolve(init.T, nil)
	if !ok {
		return nil, false
	}
	var at *Poly
	for i, next := range f.next {
		l, ok := q.iteration(f, next, f.atoms[i])
		if !ok {
			return nil, false
		}
		if len(l) != 1 || at != nil && !eqPoly(at, l[0].from) {
			return q.none(t)
		}
		at = l[0].from
	}
	if at == nil {
		return q.none(t)
	}
	// one element for each iteration
	k := PVar(f.k)
	switch zero := substPoly(at, map[*Term]Arg{f.k: PInt(0)}); {
	case eqPoly(at, zero.Add(k)):
		r = append(r, span{zero, zero.Add(n)})
	case eqPoly(at, zero.Sub(k)):
		r = append(r, span{zero.Sub(n).AddI(1), zero.AddI(1)})
	default:
		// steps of other sizes leave out what lies between them
		step := substPoly(at, map[*Term]Arg{f.k: PInt(1)}).Sub(zero)
		if !eqPoly(at, zero.Add(step.Mul(k))) || containsFn(step, imprecise) || zero == at {
			return q.none(t)
		}
		x := q.p.x
		if v, ok := x.eval(bGe(n.AddI(-2))); (!ok || v) && x.decide(bGe(n.AddI(-2))) && !x.decide(bEq(step.AddI(-1))) && !x.decide(bEq(step.AddI(1))) {
			q.fail("every", "doesn't depend on the elements between those of two iterations")
			return nil, false
		}
		return q.none(t)
	}
	return r, true
}

// iteration returns the elements which are taken into account in an iteration.
func (q *extreme) iteration(f *loopFold, next *Term, atoms map[*Term]bool) ([]span, bool) {
	// before tells whether the path implies that a is as extreme as b
	before := func(a, b *Term) bool {
		for t, v := range atoms {
			if t.Op != "f<" && t.Op != "f<=" || len(t.Args) != 2 {
				continue
			}
			l, ok1 := t.Args[0].(*Term)
			g, ok2 := t.Args[1].(*Term)
			if !ok1 || !ok2 {
				continue
			}
			l, g = noConv(l), noConv(g)
			if !v {
				l, g = g, l
			}
			if q.max {
				l, g = g, l
			}
			if l == a && g == b {
				return true
			}
		}
		return false
	}
	kept := false
	var elems []*Term
	for t := range atoms {
		for _, a := range t.Args {
			if u, ok := a.(*Term); ok {
				if _, c, ok := q.elem(noConv(u)); ok && c == q.comp {
					elems = append(elems, noConv(u))
				}
			}
		}
	}
	l, ok := q.resolve(next, func(t *Term) ([]span, bool) {
		_, c, isElem := q.elem(t)
		if t != f.cur && (!isElem || c != q.comp) {
			return nil, false
		}
		var l []span
		for _, u := range append([]*Term{t}, elems...) {
			if u == t || before(t, u) {
				if i, _, ok := q.elem(u); ok {
					l = append(l, span{i, i.AddI(1)})
				}
			}
		}
		if t == f.cur || before(t, f.cur) {
			kept = true
		}
		return l, true
	})
	if !ok {
		return nil, false
	}
	if !kept {
		q.fail("kept", "may be replaced in an iteration of a loop by a value which isn't beyond it")
		return nil, false
	}
	var u []span
	for _, s := range l {
		dup := false
		for _, t := range u {
			dup = dup || eqPoly(t.from, s.from)
		}
		if !dup {
			u = append(u, s)
		}
	}
	if len(u) == 0 {
		q.fail("every", "doesn't depend on the element of an iteration of a loop")
		return nil, false
	}
	return u, true
}

// covered returns how many of the first elements are in the spans.
func (q *extreme) covered(l []span) *Poly {
	f := q.p.x.st.F
	n := PInt(0)
	used := make([]bool, len(l))
	for more := true; more; {
		more = false
		for i, s := range l {
			if !used[i] && f.Entails(n.Sub(s.from)) && f.Entails(s.to.Sub(n)) {
				n, used[i], more = s.to, true, true
			}
		}
	}
	return n
}

func eqPoly(a, b *Poly) bool {
	c := a.Sub(b).Const()
	return c != nil && c.Sign() == 0
}
