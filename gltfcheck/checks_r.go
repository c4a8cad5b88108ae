package main

import (
	"fmt"
	"go/types"
	"math/big"
	"time"

	"golang.org/x/tools/go/ssa"
)

// readRun is the analysis of a reader of package modeler for accessors of a
// given component and accessor type.
type readRun struct {
	name     string
	e        *Engine
	fn       *ssa.Function
	base     *State
	doc, acr PtrV
	buf      SliceV
	outs     []Outcome
	what     string
}

// readRun analyses a reader for the accessors of a type. An accessor without
// type is given by restrict.
func (r *Report) readRun(name, what string, restrict func(x *X, n *readRun)) *readRun {
	fn := r.fn("modeler", name)
	if fn == nil {
		return nil
	}
	n := &readRun{name: name, e: r.engine(), fn: fn, what: "modeler." + name + " of " + what}
	if len(fn.Params) != 3 {
		r.Undec(n.what + ": unexpected signature")
		return nil
	}
	st := n.e.Base.clone()
	n.doc = nonNil(st, pointee(fn.Params[0].Type()), "doc")
	n.acr = nonNil(st, pointee(fn.Params[1].Type()), "acr")
	n.buf, _ = symIn(fn.Params[2].Type(), "buffer").(SliceV)
	r.sliceContracts(n.e)
	if name != "ReadIndices" {
		r.readContract(n.e, "ReadIndices", true)
	}
	if name != "ReadAccessor" {
		r.readContract(n.e, "ReadAccessor", false)
	}
	n.e.compact = true
	var sts []*State
	for _, x := range n.e.on(st, fn, func(x *X) {
		restrict(x, n)
	}) {
		sts = append(sts, x.st)
	}
	n.base = st
	for _, s := range sts {
		n.outs = append(n.outs, n.e.fn(s, fn, []Value{n.doc, n.acr, n.buf}, nil)...)
	}
	r.absorb(n.e)
	r.unit(n.what)
	return n
}

// accessorOf restricts the accessor to a component type and accessor type.
func (r *Report) accessorOf(comp, acc string) func(x *X, n *readRun) {
	cv, ok1 := r.codeOf(comp)
	av, ok2 := r.codeOf(acc)
	return func(x *X, n *readRun) {
		c, ok3 := x.field(n.acr, "ComponentType").(IntV)
		a, ok4 := x.field(n.acr, "Type").(IntV)
		if !ok1 || !ok2 || !ok3 || !ok4 {
			x.undecided("accessor without type")
			return
		}
		x.assume(bEq(c.P.Sub(cv.P)))
		x.assume(bEq(a.P.Sub(av.P)))
	}
}

func init() {
	register("R02", checkDef{run: checkR02,
		explain: "ReadAccessor is interpreted for each of the 42 combinations of component and accessor type with a symbolic document, accessor and reused buffer, and the result compared with the bytes the document defines for an arbitrary element and an arbitrary sparse element; ReadBufferView likewise. The functions of package binary that make slices, and the nested read of the sparse indices, are replaced by their contracts, whose proofs are part of this check. Rules: type, length, element, sparse, view, readable (accessors with and without a buffer view and sparse elements, of more than one element, are read on some path), accept (no path ends with an error for an accessor without sparse elements whose elements lie in its view, and the view in its buffer), and those of the contracts (make, read, indices).",
		assume:  []string{"document and accessor aren't nil", "sparse indices are distinct, as glTF requires", "64-bit platform"}})
}

// arrayTerm is the symbolic array behind a slice.
func (x *X) arrayTerm(s SliceV) *Term {
	if s.Base.Obj == nil || len(s.Base.Path) > 0 {
		return nil
	}
	return s.Base.Obj.Term
}

// viewBytes describes the bytes a buffer view of the document delimits.
type viewBytes struct {
	data             SliceV // of the buffer
	off, len, stride *Poly
}

// viewOf returns the bytes of a buffer view. The indices are within bounds
// according to the facts, or else ok is false.
func (x *X) viewOf(doc PtrV, idx *Poly) (v viewBytes, ok bool) {
	views := x.docSlice(doc, "BufferViews")
	if !x.st.F.Entails(idx) || !x.st.F.Entails(views.Len.Sub(idx).AddI(-1)) {
		return v, false
	}
	return x.viewAt(doc, x.elemPtr(views, idx))
}

func (x *X) viewAt(doc, view PtrV) (v viewBytes, ok bool) {
	b, ok1 := x.field(view, "Buffer").(IntV)
	off, ok2 := x.field(view, "ByteOffset").(IntV)
	n, ok3 := x.field(view, "ByteLength").(IntV)
	st, ok4 := x.field(view, "ByteStride").(IntV)
	if !ok1 || !ok2 || !ok3 || !ok4 {
		return v, false
	}
	bufs := x.docSlice(doc, "Buffers")
	if !x.st.F.Entails(b.P) || !x.st.F.Entails(bufs.Len.Sub(b.P).AddI(-1)) {
		return v, false
	}
	v.data = x.sliceOf(x.field(x.elemPtr(bufs, b.P), "Data"))
	v.off, v.len, v.stride = off.P, n.P, st.P
	return v, true
}

// readPath is a successful path of a reader.
type readPath struct {
	r   *Report
	n   *readRun
	x   *X
	t   binType
	o   Outcome
	pos string
}

func (p *readPath) fail(rule, construct, msg string) {
	p.r.Check(false, rule, p.n.what+": "+construct, p.pos, msg, statePath(p.x.st))
}

// sameElem compares a value with the element that a buffer view defines at
// byte offset off and index i.
func (p *readPath) sameElem(v Value, view *Poly, off, i *Poly, rule, construct string) {
	x := p.x
	vb, ok := x.viewOf(p.n.doc, view)
	if !ok {
		p.fail(rule, construct, "the buffer view isn't known to exist")
		return
	}
	stride := vb.stride
	if x.decide(bEq(stride)) {
		stride = PInt(p.t.size)
	}
	arr := x.arrayTerm(vb.data)
	if arr == nil {
		x.undecided("unknown buffer")
		return
	}
	base := &SeqC{Elem: tByte, Base: arr}
	for c := 0; c < p.t.cols; c++ {
		for w := 0; w < p.t.rows; w++ {
			comp, ok := p.t.part(v, w, c)
			if !ok {
				x.undecided("unknown element")
				return
			}
			at := vb.data.Off.Add(vb.off).Add(off).Add(stride.Mul(i)).AddI(p.t.off(w, c))
			eq, ok := x.isComponent(p.t, comp, base, at)
			if !ok {
				x.undecided("unknown element")
				return
			}
			p.r.expectEq(x, eq, rule, p.n.what+": "+construct+" "+compName(p.t, w, c), p.pos,
				fmt.Sprintf("the component isn't the one at offset %d of the element in its buffer view", p.t.off(w, c)))
		}
	}
}

func (p *readPath) isZero(v Value, rule, construct string) {
	for c := 0; c < p.t.cols; c++ {
		for w := 0; w < p.t.rows; w++ {
			comp, ok := p.t.part(v, w, c)
			var b *Poly
			if ok {
				b = bitsOf(comp)
			}
			if b == nil {
				p.x.undecided("unknown element")
				return
			}
			p.r.expectEq(p.x, b, rule, p.n.what+": "+construct, p.pos, "an element of an accessor without buffer view isn't zero")
		}
	}
}

// contractEv finds the only call that a contract replaced.
func contractEv(evs []*Ev, name string) (found *Ev, many bool) {
	for _, ev := range evs {
		if ev.Kind == "contract" {
			if s, ok := ev.Args[0].(StrV); ok {
				if c, _ := s.Const(); c == name {
					many = found != nil
					found = ev
				}
			}
		}
	}
	return found, many
}

// sparseLoop finds the loop that stores elements at the indices of a sparse
// accessor, and the content without it.
func sparseLoop(c *SeqC) (w *SWrite, rest *SeqC, ok bool) {
	rest = &SeqC{Elem: c.Elem, Base: c.Base}
	for k := range c.W {
		q := &c.W[k]
		direct := true
		switch q.Kind {
		case WHavoc, WEnc:
			return nil, nil, false
		case WLoop:
			for _, a := range q.Alts {
				for _, z := range a {
					if z.Kind == WHavoc || z.Kind == WEnc || z.Kind == WLoop {
						return nil, nil, false
					}
					if _, _, lin := linear(z.Idx, q.Loop.Bv); !lin || dependsInside(z.Idx, q.Loop.Bv) {
						direct = false
					}
				}
			}
		}
		if direct {
			if w != nil {
				return nil, nil, false // Written after the sparse elements.
			}
			rest.W = append(rest.W, *q)
			continue
		}
		if w != nil {
			return nil, nil, false
		}
		w = q
	}
	return w, rest, true
}

// dependsInside tells whether p depends on v other than linearly.
func dependsInside(p *Poly, v *Term) bool {
	for _, m := range p.ms {
		for _, t := range m.vs {
			if t != v && containsFn(PVar(t), func(q *Term) bool { return q == v }) {
				return true
			}
		}
	}
	return false
}

// result is the slice that the reader returns.
func (p *readPath) result() (s SliceV, c *SeqC, ok bool) {
	v := p.o.ret[0]
	if i, isI := v.(IfaceV); isI {
		if i.T != nil {
			p.x.undecided("the type of the result is unknown")
			return s, nil, false
		}
		if !p.r.Check(i.Dyn != nil && types.Identical(i.Dyn, types.NewSlice(p.t.elem)), "type", p.n.what, p.pos, "the result isn't a "+p.t.String(), statePath(p.x.st)) {
			return s, nil, false
		}
		v = i.Val
	}
	s, ok = v.(SliceV)
	if !ok {
		p.x.undecided("the result is unknown")
		return s, nil, false
	}
	if s.Base.Obj == nil {
		return s, &SeqC{Elem: s.Elem}, true
	}
	return s, p.x.arrayOf(s), true
}

// ptrInt is the number behind a pointer field.
func (x *X) ptrInt(p PtrV, field string) (*Poly, bool) {
	q, ok := x.field(p, field).(PtrV)
	if !ok {
		return nil, false
	}
	i, ok := x.load(q).(IntV)
	return i.P, ok
}

func (r *Report) accessorContent(p *readPath) {
	x, n := p.x, p.n
	s, c, ok := p.result()
	if !ok {
		return
	}
	count, ok1 := x.field(n.acr, "Count").(IntV)
	off, ok2 := x.field(n.acr, "ByteOffset").(IntV)
	view, ok3 := x.field(n.acr, "BufferView").(PtrV)
	sparse, ok4 := x.field(n.acr, "Sparse").(PtrV)
	if !ok1 || !ok2 || !ok3 || !ok4 {
		x.undecided("unknown accessor")
		return
	}
	r.expectEq(x, s.Len.Sub(count.P), "length", n.what, p.pos, fmt.Sprintf("the result has %s elements, not as many as the accessor's count", s.Len))
	rest := c
	isSparse := !x.decide(x.isNil(sparse))
	kind := x.choose(2)
	if isSparse {
		w, without, ok := sparseLoop(c)
		if !ok {
			x.undecided("unknown replacement of the sparse elements")
			return
		}
		rest = without
		if kind == 1 {
			r.sparseContent(p, s, w, sparse)
			return
		}
	} else if kind == 1 {
		return
	}
	i := x.skolem("i", count.P)
	v := x.seqAt(rest, s.Off.Add(i))
	if x.decide(x.isNil(view)) {
		p.isZero(v, "element", "element")
		return
	}
	idx, ok := x.load(view).(IntV)
	if !ok {
		x.undecided("unknown buffer view")
		return
	}
	p.sameElem(v, idx.P, off.P, i, "element", "element")
}

func (r *Report) sparseContent(p *readPath, s SliceV, w *SWrite, sparse PtrV) {
	x, n := p.x, p.n
	acr := n.acr
	sub := func(name string) PtrV {
		st := sparse.Elem.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return fieldPtr(sparse, i)
			}
		}
		x.undecided("no field " + name)
		panic(infeasible{})
	}
	ind, val := sub("Indices"), sub("Values")
	num := func(q PtrV, f string) *Poly {
		i, ok := x.field(q, f).(IntV)
		if !ok {
			x.undecided("unknown field " + f)
			panic(infeasible{})
		}
		return i.P
	}
	count := num(sparse, "Count")
	if w == nil {
		x.assume(bGe(count.AddI(-1)))
		p.fail("sparse", "sparse elements", "the sparse elements aren't stored in the result")
		return
	}
	r.expectEq(x, w.Loop.Upper.Sub(count), "sparse", n.what+": sparse count", p.pos, "the number of elements replaced isn't the sparse count")
	bv := x.skolem("k", w.Loop.Upper)
	alt := x.pick(w.Loop, bv)
	sb := newSubster(map[*Term]Arg{w.Loop.Bv: bv})
	if len(w.Alts[alt]) == 0 {
		p.fail("sparse", "sparse elements", "a sparse element isn't stored")
		return
	}
	if len(w.Alts[alt]) > 1 || w.Alts[alt][0].Kind != WPoint {
		x.undecided("unknown replacement of the sparse elements")
		return
	}
	q := w.Alts[alt][0].subst(sb)
	at := q.Idx.Sub(s.Off)
	index := func(k *Poly) (*Poly, bool) {
		ev, many := contractEv(p.o.st.ev.list(), "ReadIndices")
		if ev != nil && !many {
			res, ok := ev.Args[4].(SliceV)
			if !ok {
				return nil, false
			}
			v, ok := x.elemAt(res, k).(IntV)
			return v.P, ok
		}
		return nil, false
	}
	k := bv
	want, ok := index(k)
	if !ok {
		x.undecided("unknown sparse indices")
		return
	}
	if v, known := x.eval(bEq(at.Sub(want))); !known || !v {
		k2 := w.Loop.Upper.AddI(-1).Sub(bv)
		if w2, ok := index(k2); ok {
			if v, known := x.eval(bEq(at.Sub(w2))); known && v {
				k, want = k2, w2
			}
		}
	}
	r.expectEq(x, at.Sub(want), "sparse", n.what+": sparse index", p.pos, "an element isn't stored at the index that the sparse accessor gives")
	p.sameElem(q.V, num(val, "BufferView"), num(val, "ByteOffset"), k, "sparse", "sparse value")
	// The indices were read as the accessor says.
	ev, _ := contractEv(p.o.st.ev.list(), "ReadIndices")
	box, ok := ev.Args[3].(BoxV)
	got, ok2 := box.V.(StructV)
	if !ok || !ok2 {
		x.undecided("unknown accessor of the indices")
		return
	}
	st := got.T.Underlying().(*types.Struct)
	field := func(f string) Value {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == f {
				return got.F[i]
			}
		}
		return nil
	}
	same := func(f string, want *Poly) {
		g, ok := field(f).(IntV)
		if !ok {
			x.undecided("unknown " + f)
			return
		}
		r.expectEq(x, g.P.Sub(want), "sparse", n.what+": "+f+" of the indices", p.pos, f+" of the sparse indices is wrong")
	}
	same("ComponentType", num(ind, "ComponentType"))
	same("ByteOffset", num(ind, "ByteOffset"))
	same("Count", count)
	if sc, ok := r.codeOf("AccessorScalar"); ok {
		same("Type", sc.P)
	}
	bvp, ok := field("BufferView").(PtrV)
	if !ok || bvp.Obj == nil {
		p.fail("sparse", "view of the indices", "the sparse indices have no buffer view")
		return
	}
	if g, ok := x.load(bvp).(IntV); ok {
		r.expectEq(x, g.P.Sub(num(ind, "BufferView")), "sparse", n.what+": view of the indices", p.pos, "the sparse indices are read from another buffer view")
	}
	if a, ok := ev.Args[1].(PtrV); !ok || a.Obj != n.doc.Obj {
		x.undecided("the sparse indices are read from another document")
	}
	_ = acr
}

// success runs f on every path of a reader that returns no error.
func (r *Report) success(n *readRun, t binType, f func(p *readPath)) {
	ok := 0
	pos := posOf(r.P, n.fn)
	n.e.deepPick = true
	for _, o := range n.outs {
		if o.panic {
			continue
		}
		r.on(n.e, o.st, n.fn, func(x *X) {
			x.assume(x.isNil(o.ret[len(o.ret)-1]))
			ok++
			f(&readPath{r: r, n: n, x: x, t: t, o: o, pos: pos})
		})
	}
	if ok == 0 {
		r.Undec(n.what + ": no path without error")
	}
}

func checkR02(r *Report) {
	for _, t := range r.binTypes() {
		if _, named := t.elem.(*types.Named); named || binSkip(t.comp, t.acc) {
			continue
		}
		r.accessorElements(t)
		if len(r.Violations) > 20 {
			return
		}
	}
	r.guard("modeler.ReadBufferView", func() { r.bufferView(false) })
	for _, t := range typedReaders {
		if t.name == "ReadIndices" {
			r.typedReader(t)
		}
	}
	r.sliceLemma()
}

// accessorElements compares the result of ReadAccessor with the document.
func (r *Report) accessorElements(t binType) {
	r.guardFor(60*time.Second, "modeler.ReadAccessor of "+t.comp+" "+t.acc, func() {
		n := r.readRun("ReadAccessor", t.comp+" "+t.acc, r.accessorOf(t.comp, t.acc))
		if n == nil {
			return
		}
		r.success(n, t, r.accessorContent)
		r.readable(n)
		r.acceptsRead(n, t)
	})
}

// acceptsRead checks that accessors without sparse elements whose data lies in
// a buffer are read.
func (r *Report) acceptsRead(n *readRun, t binType) {
	for _, o := range n.outs {
		if l := o.st.ev.list(); o.panic || hasEv(l, "contracterr", "MakeSlice") || hasEv(l, "contracterr", "MakeSliceBuffer") {
			continue
		}
		r.on(n.e, o.st, n.fn, func(x *X) {
			isNil, ok := x.errKnown(o.ret[len(o.ret)-1])
			if ok && isNil {
				return
			}
			if !ok {
				x.assume(x.isNil(o.ret[len(o.ret)-1]).not())
			}
			count, ok1 := x.field(n.acr, "Count").(IntV)
			off, ok2 := x.field(n.acr, "ByteOffset").(IntV)
			view, ok3 := x.field(n.acr, "BufferView").(PtrV)
			if !ok1 || !ok2 || !ok3 {
				x.undecided("unknown accessor")
				return
			}
			x.assume(x.isNil(x.field(n.acr, "Sparse")))
			x.assume(bGe(count.P))
			x.assume(bGe(off.P))
			what := "no buffer view"
			if !x.decide(x.isNil(view)) {
				what = "data that lies in its buffer"
				idx, ok := x.load(view).(IntV)
				if !ok {
					x.undecided("unknown buffer view")
					return
				}
				views := x.docSlice(n.doc, "BufferViews")
				x.assume(bGe(idx.P))
				x.assume(bGe(views.Len.Sub(idx.P).AddI(-1)))
				q := x.elemPtr(views, idx.P)
				buffer, ok := x.field(q, "Buffer").(IntV)
				if !ok {
					x.undecided("unknown buffer")
					return
				}
				buffers := x.docSlice(n.doc, "Buffers")
				x.assume(bGe(buffer.P))
				x.assume(bGe(buffers.Len.Sub(buffer.P).AddI(-1)))
				x.elemPtr(buffers, buffer.P)
				vb, ok := x.viewAt(n.doc, q)
				if !ok {
					x.undecided("unknown buffer view")
					return
				}
				x.assume(bGe(vb.off))
				x.assume(bGe(vb.len.AddI(-1)))
				x.assume(bGe(vb.data.Len.Sub(vb.off).Sub(vb.len)))
				x.assume(bGe(vb.stride))
				stride := vb.stride
				if x.decide(bEq(stride)) {
					stride = PInt(t.size)
				}
				x.assume(bGe(count.P.AddI(-1)))
				x.assume(bGe(vb.len.Sub(off.P).AddI(-t.size).Sub(count.P.AddI(-1).Mul(stride))))
			}
			r.Check(false, "accept", n.what+": "+what, posOf(r.P, n.fn), "an error is returned for an accessor with "+what, statePath(x.st))
		})
	}
	r.OK("accept", n.what)
}

// readable checks that accessors of each form can be read at all, whatever
// they contain.
func (r *Report) readable(n *readRun) {
	for _, form := range [][2]bool{{false, false}, {false, true}, {true, false}, {true, true}} {
		found := false
		for _, o := range n.outs {
			if found || o.panic {
				continue
			}
			n.e.on(o.st, n.fn, func(x *X) {
				x.assume(x.isNil(o.ret[len(o.ret)-1]))
				count, ok := x.field(n.acr, "Count").(IntV)
				if !ok {
					return
				}
				x.assume(bGe(count.P.AddI(-2)))
				for k, f := range []string{"BufferView", "Sparse"} {
					b := x.isNil(x.field(n.acr, f))
					if form[k] {
						b = b.not()
					}
					x.assume(b)
				}
				found = true
			})
		}
		what := map[bool]string{true: "with", false: "without"}
		r.Check(found, "readable", n.what, posOf(r.P, n.fn), fmt.Sprintf("an accessor %s buffer view and %s sparse elements is never read", what[form[0]], what[form[1]]), nil)
	}
}

func pointee(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// sliceContracts gives the slice functions of package binary the behaviour
// that B03 verifies: an error, or a slice of the right type with count
// elements of unknown content, which may be backed by the buffer.
func (r *Report) sliceContracts(e *Engine) {
	for _, name := range []string{"MakeSlice", "MakeSliceBuffer"} {
		fn := r.fn("binary", name)
		if fn == nil {
			continue
		}
		e.Contracts[fn] = func(x *X, args []Value) Value {
			fail := TupleV{IfaceV{}, x.newErr(Lit("makeslice"))}
			c, ok1 := args[0].(IntV)
			a, ok2 := args[1].(IntV)
			n, ok3 := args[2].(IntV)
			if !ok1 || !ok2 || !ok3 {
				x.undecided("slice of unknown type")
				return fail
			}
			t := r.typeOfCodes(x, c, a)
			if t == nil || x.choose(2) == 1 {
				x.ev("contracterr", strConst(name))
				return fail
			}
			raw := t.csize * int64(t.rows*t.cols)
			x.assume(bGe(PConst(floorDiv(pow2(40), big.NewInt(raw))).Sub(n.P)))
			s := x.unknownSlice(t.elem, n.P)
			backed := false
			if name == "MakeSliceBuffer" {
				buf := x.sliceOf(args[3])
				if v, ok := x.eval(bEq(buf.Cap)); !ok || !v {
					backed = true
					x.ev("backing", s, buf)
				}
			}
			if !backed {
				x.st.put(s.Base.Obj, &SeqC{Elem: t.elem})
			}
			return TupleV{IfaceV{Dyn: types.NewSlice(t.elem), Val: s}, IfaceV{}}
		}
	}
}

// readContracts gives ReadIndices, or ReadAccessor, the behaviour that R02 and
// R03 verify: an error, or a slice with as many elements as the accessor's
// count, which may be backed by the buffer. Event "contract" tells the name,
// the document, the accessor and the result. The accessor must not be sparse
// if the contract is used for a recursive call.
func (r *Report) readContract(e *Engine, name string, recursive bool) {
	fn := r.fn("modeler", name)
	if fn == nil || len(fn.Params) != 3 {
		return
	}
	st, ok := fn.Params[2].Type().Underlying().(*types.Slice)
	if !ok {
		return
	}
	e.Contracts[fn] = func(x *X, args []Value) Value {
		acr, ok := args[1].(PtrV)
		if !ok {
			x.undecided("unknown accessor")
			return TupleV{IfaceV{T: x.freshTerm("data", SRef)}, x.newErr(Lit(name))}
		}
		x.oblige(x.isNil(acr).not(), "nil", "reading a nil accessor")
		x.oblige(x.isNil(args[0]).not(), "nil", "reading from a nil document")
		if sp, ok := x.field(acr, "Sparse").(PtrV); ok && recursive {
			x.oblige(x.isNil(sp), "recursion", "the recursion may not end: it reads a sparse accessor")
		}
		n, ok := x.field(acr, "Count").(IntV)
		if !ok {
			x.undecided("unknown count")
			return TupleV{IfaceV{T: x.freshTerm("data", SRef)}, x.newErr(Lit(name))}
		}
		t, known := st.Elem(), true
		if name == "ReadAccessor" {
			b := r.typeOfAccessor(x, acr)
			if known = b != nil; known {
				t = b.elem
			}
		}
		if !known || x.choose(2) == 1 {
			v := Value(SliceV{Elem: t, Off: &Poly{}, Len: &Poly{}, Cap: &Poly{}})
			if name == "ReadAccessor" {
				v = IfaceV{}
			}
			x.ev("contracterr", strConst(name))
			return TupleV{v, x.newErr(Lit(name))}
		}
		s := x.unknownSlice(t, n.P)
		buf := x.sliceOf(args[2])
		if v, ok := x.eval(bEq(buf.Cap)); !ok || !v {
			x.ev("backing", s, buf)
		}
		x.ev("contract", strConst(name), args[0], acr, BoxV{acr, x.load(acr)}, s)
		if name == "ReadAccessor" {
			return TupleV{IfaceV{Dyn: types.NewSlice(t), Val: s}, IfaceV{}}
		}
		return TupleV{s, IfaceV{}}
	}
}

// unknownSlice is a slice of n elements with unknown content.
func (x *X) unknownSlice(t types.Type, n *Poly) SliceV {
	x.assume(bGe(n))
	size := types.SizesFor("gc", "amd64").Sizeof(t)
	x.assume(bGe(PConst(floorDiv(pow2(40), big.NewInt(max(size, 1)))).Sub(n)))
	cp := PVar(x.freshTerm("cap", SInt))
	x.assume(bGe(cp.Sub(n)))
	s := x.newSlice(t, n, cp, "backing")
	x.st.put(s.Base.Obj, &SeqC{Elem: t, Base: s.Base.Obj.Term})
	return s
}

// typeOfAccessor decides the type of the elements of an accessor, nil if it's
// none of glTF.
func (r *Report) typeOfAccessor(x *X, acr PtrV) *binType {
	c, ok1 := x.field(acr, "ComponentType").(IntV)
	a, ok2 := x.field(acr, "Type").(IntV)
	if !ok1 || !ok2 {
		return nil
	}
	return r.typeOfCodes(x, c, a)
}

func (r *Report) typeOfCodes(x *X, c, a IntV) *binType {
	for ci := range binComps {
		cv, ok := r.codeOf(binComps[ci].name)
		if !ok || !x.decide(bEq(c.P.Sub(cv.P))) {
			continue
		}
		for ai := range binAccs {
			if av, ok := r.codeOf(binAccs[ai].name); ok && x.decide(bEq(a.P.Sub(av.P))) {
				b := binTypeOf(ci, ai)
				return &b
			}
		}
		break
	}
	return nil
}
