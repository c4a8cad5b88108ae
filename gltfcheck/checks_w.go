package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// writeRun is the analysis of a writer of package modeler.
type writeRun struct {
	e    *Engine
	fn   *ssa.Function
	base *State
	doc  PtrV
	old  oldDoc
	data []SliceV
	args []Value
	outs []Outcome
	what string
	pos  string
}

// oldDoc is the document before the call.
type oldDoc struct {
	accs, views, images, bufs SliceV
	last                      PtrV // last buffer, if there is one
	bytes                     SliceV
	length                    *Poly
}

func (n *writeRun) slices() map[string]SliceV {
	return map[string]SliceV{"Accessors": n.old.accs, "BufferViews": n.old.views, "Images": n.old.images, "Buffers": n.old.bufs}
}

// writes analyses a writer. args gives its arguments after the document, and
// the slices that it writes.
func (r *Report) writes(name, what string, args func(x *X, fn *ssa.Function) (vals []Value, data []SliceV)) *writeRun {
	fn := r.fn("modeler", name)
	if fn == nil {
		return nil
	}
	n := &writeRun{e: r.engine(), fn: fn, what: "modeler." + name + what, pos: posOf(r.P, fn)}
	if len(fn.Params) < 2 {
		r.Undec(n.what + ": unexpected signature")
		return nil
	}
	st := n.e.Base.clone()
	n.doc = nonNil(st, pointee(fn.Params[0].Type()), "doc")
	n.args, n.data = args(&X{e: n.e, st: st, fr: &Frame{fn: fn, env: map[ssa.Value]Value{}}}, fn)
	if n.args == nil {
		r.Undec(n.what + ": unexpected signature")
		return nil
	}
	r.writeContract(n.e)
	var sts []*State
	limit := PInt(1 << 40)
	for _, x := range n.e.on(st, fn, func(x *X) {
		for _, d := range n.data {
			x.assume(bGe(limit.Sub(d.Len)))
		}
		for _, f := range []string{"Accessors", "BufferViews", "Images", "Buffers"} {
			x.assume(bGe(limit.Sub(x.docSlice(n.doc, f).Len)))
		}
		n.old.accs, n.old.views = x.docSlice(n.doc, "Accessors"), x.docSlice(n.doc, "BufferViews")
		n.old.images, n.old.bufs = x.docSlice(n.doc, "Images"), x.docSlice(n.doc, "Buffers")
		if x.decide(bEq(n.old.bufs.Len)) {
			return
		}
		n.old.last = x.elemPtr(n.old.bufs, n.old.bufs.Len.AddI(-1))
		n.old.bytes = x.docSlice(n.old.last, "Data")
		l, ok := x.field(n.old.last, "ByteLength").(IntV)
		if !ok {
			x.undecided("buffer without length")
			return
		}
		n.old.length = l.P
		x.assume(bGe(limit.Sub(l.P)))
		x.assume(bGe(l.P))
		x.assume(bGe(limit.Sub(n.old.bytes.Len)))
	}) {
		sts = append(sts, x.st)
	}
	n.base = st
	for _, s := range sts {
		n.outs = append(n.outs, n.e.fn(s, fn, append([]Value{n.doc}, n.args...), nil)...)
	}
	r.absorb(n.e)
	r.unit(n.what)
	n.e.deepPick = true
	return n
}

// writeContract gives binary.Write the behaviour that B01 and B02 verify.
func (r *Report) writeContract(e *Engine) {
	fn := r.fn("binary", "Write")
	if fn == nil || len(fn.Params) != 3 {
		return
	}
	all := r.allBinTypes()
	e.Contracts[fn] = func(x *X, args []Value) Value {
		b := x.sliceOf(args[0])
		stride, ok1 := args[1].(IntV)
		data, ok2 := args[2].(IfaceV)
		s, ok3 := data.Val.(SliceV)
		var t *binType
		if ok2 && ok3 && data.Dyn != nil {
			for i := range all {
				if types.Identical(data.Dyn, types.NewSlice(all[i].elem)) {
					t = &all[i]
				}
			}
		}
		if !ok1 || t == nil {
			x.undecided("unknown data is written")
			x.writeSeq(b, SWrite{Kind: WHavoc, Idx: b.Off, N: b.Len, ID: x.freshTerm("encoded", SAny)})
			return x.newErr(Lit("write"))
		}
		if x.decide(bEq(s.Len)) {
			return IfaceV{}
		}
		eff := stride.P
		if x.decide(bEq(eff)) {
			eff = PInt(t.size)
		}
		n := eff.Mul(s.Len.AddI(-1)).AddI(t.span())
		if !x.decide(bGe(eff)) || !x.decide(bGe(b.Len.Sub(n))) {
			// Unspecified: it may have been written in part.
			x.writeSeq(b, SWrite{Kind: WHavoc, Idx: b.Off, N: b.Len, ID: x.freshTerm("encoded", SAny)})
			return x.newErr(Lit("write"))
		}
		if !x.decide(bGe(eff.AddI(-t.span()))) && !x.decide(bEq(s.Len.AddI(-1))) {
			x.writeSeq(b, SWrite{Kind: WHavoc, Idx: b.Off, N: n, ID: x.freshTerm("encoded", SAny)})
			return IfaceV{}
		}
		c, off := x.seqOf(s)
		x.writeSeq(b, SWrite{Kind: WEnc, Idx: b.Off, N: n, Src: c, SrcOff: off, Stride: eff, Enc: t})
		return IfaceV{}
	}
}

// allBinTypes are the types of binTypes, whatever is selected for debugging.
func (r *Report) allBinTypes() []binType {
	var l []binType
	for c := range binComps {
		for a := range binAccs {
			l = append(l, binTypeOf(c, a))
		}
	}
	for _, c := range []struct {
		name string
		c    int
	}{{"RGBA", 1}, {"RGBA64", 3}} {
		if n := r.engineType("image/color", c.name); n != nil {
			b := binTypeOf(c.c, 3)
			b.elem = n
			l = append(l, b)
		}
	}
	return l
}

// newPath is a path of a writer.
type newPath struct {
	r *Report
	n *writeRun
	x *X
	o Outcome
}

func (p *newPath) eq(a *Poly, rule, construct, msg string) {
	p.r.expectEq(p.x, a, rule, p.n.what+": "+construct, p.n.pos, msg)
}

func (p *newPath) ge(a *Poly, rule, construct, msg string) {
	p.r.expectGe(p.x, a, rule, p.n.what+": "+construct, p.n.pos, msg)
}

func (p *newPath) check(ok bool, rule, construct, msg string) bool {
	return p.r.Check(ok, rule, p.n.what+": "+construct, p.n.pos, msg, statePath(p.x.st))
}

func (p *newPath) num(q PtrV, f string) *Poly {
	v, ok := p.x.field(q, f).(IntV)
	if !ok {
		p.x.undecided("unknown " + f)
		panic(infeasible{})
	}
	return v.P
}

// index is the number behind a pointer field.
func (p *newPath) index(q PtrV, f, rule, construct string) *Poly {
	v, ok := p.x.field(q, f).(PtrV)
	if !ok {
		p.x.undecided("unknown " + f)
		panic(infeasible{})
	}
	if !p.check(!p.x.decide(p.x.isNil(v)), rule, construct, f+" isn't set") {
		panic(infeasible{})
	}
	i, ok := p.x.load(v).(IntV)
	if !ok {
		p.x.undecided("unknown " + f)
		panic(infeasible{})
	}
	return i.P
}

// returned runs f on every path that returns no error.
func (r *Report) returned(n *writeRun, f func(p *newPath)) {
	ok := 0
	for _, o := range n.outs {
		if o.panic {
			continue
		}
		r.on(n.e, o.st, n.fn, func(x *X) {
			if len(o.ret) > 1 {
				x.assume(x.isNil(o.ret[len(o.ret)-1]))
			}
			ok++
			f(&newPath{r: r, n: n, x: x, o: o})
		})
	}
	if ok == 0 {
		r.Undec(n.what + ": no path without error")
	}
}

// newElem returns the only new element of a list of the document.
func (p *newPath) newElem(field, rule string, k, added int64) PtrV {
	x := p.x
	old := p.n.slices()[field]
	now := x.docSlice(p.n.doc, field)
	if k == 0 {
		p.eq(now.Len.Sub(old.Len).AddI(-added), rule, field, fmt.Sprintf("%d elements aren't added to %s", added, field))
	}
	if !x.st.F.Entails(now.Len.Sub(old.Len).AddI(-k - 1)) {
		p.check(false, rule, field, "nothing is added to "+field)
		panic(infeasible{})
	}
	return x.elemPtr(now, old.Len.AddI(k))
}

// newView checks the new buffer view, which holds length bytes.
func (p *newPath) newView(rule string, length *Poly) (view PtrV, off, stride *Poly, bytes SliceV) {
	x := p.x
	view = p.newElem("BufferViews", rule, 0, 1)
	bufs := x.docSlice(p.n.doc, "Buffers")
	buf := p.num(view, "Buffer")
	p.eq(buf.Sub(bufs.Len.AddI(-1)), rule, "buffer of the view", "the new view isn't over the last buffer")
	off = p.num(view, "ByteOffset")
	p.eq(p.num(view, "ByteLength").Sub(length), rule, "length of the view", "the length of the new view isn't the size of the encoded data: "+p.num(view, "ByteLength").String())
	bytes = x.docSlice(x.elemPtr(bufs, bufs.Len.AddI(-1)), "Data")
	p.ge(off, rule, "offset of the view", "the new view has a negative offset")
	p.ge(bytes.Len.Sub(off).Sub(length), rule, "end of the view", "the new view ends after the data of the buffer")
	return view, off, p.num(view, "ByteStride"), bytes
}

// holds checks that element i of the data is encoded at the offset of the
// buffer's data.
func (p *newPath) holds(t binType, d, bytes SliceV, i, at *Poly, rule, construct string) {
	x := p.x
	c, off := x.seqOf(d)
	v := x.seqAt(c, off.Add(i))
	if bytes.Base.Obj == nil {
		p.check(false, rule, construct, "the buffer has no data")
		return
	}
	bc := x.arrayOf(bytes)
	for col := 0; col < t.cols; col++ {
		for row := 0; row < t.rows; row++ {
			comp, ok := t.part(v, row, col)
			if !ok {
				x.undecided("unknown element")
				return
			}
			for k := int64(0); k < t.csize; k++ {
				want := littleEndian(comp, k)
				got, ok := x.seqAt(bc, bytes.Off.Add(at).AddI(t.off(row, col)+k)).(IntV)
				if !ok || want == nil {
					x.undecided("unknown byte")
					return
				}
				p.eq(got.P.Sub(want), rule, construct+" "+compName(t, row, col), fmt.Sprintf("byte %d of the component isn't at offset %d of the element", k, t.off(row, col)+k))
			}
		}
	}
}

func oneSlice(t binType) func(x *X, fn *ssa.Function) ([]Value, []SliceV) {
	return func(x *X, fn *ssa.Function) (vals []Value, data []SliceV) {
		for _, q := range fn.Params[1:] {
			_, isIface := q.Type().Underlying().(*types.Interface)
			_, isSlice := q.Type().Underlying().(*types.Slice)
			switch {
			case isIface || isSlice:
				if data != nil {
					return nil, nil
				}
				s, _ := symIn(types.NewSlice(t.elem), "data").(SliceV)
				data = []SliceV{s}
				if isIface {
					vals = append(vals, IfaceV{Dyn: types.NewSlice(t.elem), Val: s})
				} else {
					vals = append(vals, s)
				}
			default:
				vals = append(vals, symIn(q.Type(), q.Name()))
			}
		}
		return vals, data
	}
}

// writer is an attribute writer: it accepts the listed types.
type attrWriter struct {
	name   string
	accept []string // types of the slices
	norm   []string
	target string
	any    bool // has a parameter of any type
}

var attrWriters = []attrWriter{
	{"WriteIndices", []string{"[]uint16", "[]uint32"}, nil, "TargetElementArrayBuffer", true},
	{"WriteNormal", []string{"[][3]float32"}, nil, "TargetArrayBuffer", false},
	{"WriteTangent", []string{"[][4]float32"}, nil, "TargetArrayBuffer", false},
	{"WriteTextureCoord", []string{"[][2]uint8", "[][2]uint16", "[][2]float32"}, []string{"[][2]uint8", "[][2]uint16"}, "TargetArrayBuffer", true},
	{"WriteWeights", []string{"[][4]uint8", "[][4]uint16", "[][4]float32"}, []string{"[][4]uint8", "[][4]uint16"}, "TargetArrayBuffer", true},
	{"WriteJoints", []string{"[][4]uint8", "[][4]uint16"}, nil, "TargetArrayBuffer", true},
	{"WritePosition", []string{"[][3]float32"}, nil, "TargetArrayBuffer", false},
	{"WriteColor", []string{"[]image/color.RGBA", "[]image/color.RGBA64", "[][3]uint8", "[][4]uint8", "[][3]uint16", "[][4]uint16", "[][3]float32", "[][4]float32"},
		[]string{"[]image/color.RGBA", "[]image/color.RGBA64", "[][3]uint8", "[][4]uint8", "[][3]uint16", "[][4]uint16"}, "TargetArrayBuffer", true},
	{"WriteInverseBindMatrices", []string{"[][4][4]float32"}, nil, "TargetArrayBuffer", false},
}

// sliceName is the name of the slice type of a binType, independent of the
// spelling of byte.
func (b binType) sliceName() string { return "[]" + typeKey(b.elem) }

var writeAssume = []string{
	"the document isn't nil, and its last buffer, if there is one, isn't nil and has a non-negative length; lengths are below 2^40, so that sums don't overflow",
	"the data doesn't share memory with the document",
}

func init() {
	register("W01", checkDef{run: checkW01,
		explain: "WriteAccessor and WriteBufferView are interpreted for each of the 44 slice types with symbolic elements, length, target and document, WriteImage with a symbolic reader; binary.Write is replaced by its contract (B01, B02). Rules: accessor (index, component type, type, count, view), view (over the last buffer, of exactly the encoded size, within its data), content (every byte of every component of an arbitrary element is at its place), image (index, name, MIME type, view, bytes).",
		assume:  writeAssume})
}

func checkW01(r *Report) {
	for _, t := range r.binTypes() {
		if len(r.Violations) > 20 {
			return
		}
		for _, name := range []string{"WriteAccessor", "WriteBufferView"} {
			name := name
			r.guardFor(60*time.Second, "modeler."+name+" of "+t.String(), func() {
				n := r.writes(name, " of "+t.String(), oneSlice(t))
				if n == nil {
					return
				}
				for _, o := range n.outs {
					if o.panic {
						r.Fail("accessor", n.what, n.pos, "panics", statePath(o.st))
					}
				}
				r.returned(n, func(p *newPath) { p.describes(t, name == "WriteAccessor") })
			})
		}
	}
	for _, known := range []bool{true, false} {
		r.guardFor(60*time.Second, "modeler.WriteImage", func() {
			if n := r.imageRun(known); n != nil {
				r.returned(n, func(p *newPath) { p.image() })
			}
		})
	}
}

// imageRun analyses WriteImage, with a *bytes.Buffer or another reader.
func (r *Report) imageRun(buffer bool) *writeRun {
	what := " of a reader"
	if buffer {
		what = " of a bytes.Buffer"
	}
	return r.writes("WriteImage", what, func(x *X, fn *ssa.Function) (vals []Value, data []SliceV) {
		for _, q := range fn.Params[1:] {
			if _, ok := q.Type().Underlying().(*types.Interface); !ok {
				vals = append(vals, symIn(q.Type(), q.Name()))
				continue
			}
			bt := types.NewPointer(x.e.stdType("bytes", "Buffer"))
			if buffer {
				b, _ := symIn(bt, "buffer").(PtrV)
				x.assume(x.isNil(b).not())
				vals = append(vals, IfaceV{Dyn: bt, Val: b})
				if s, ok := x.get(x.bufCell(b)).(CellC).V.(SliceV); ok {
					data = append(data, s)
				}
				continue
			}
			v, _ := symIn(q.Type(), "reader").(IfaceV)
			x.assume(x.isNil(v).not())
			x.assume(BoolV{K: BDyn, T: v.T, Typ: bt}.not())
			vals = append(vals, v)
		}
		return vals, data
	})
}

// image checks a new image.
func (p *newPath) image() {
	x, n := p.x, p.n
	idx, ok := p.o.ret[0].(IntV)
	if !ok {
		x.undecided("unknown index")
		return
	}
	img := p.newElem("Images", "image", 0, 1)
	p.eq(idx.P.Sub(n.old.images.Len), "image", "index", "the result isn't the index of the new image")
	p.eq(x.docSlice(n.doc, "Accessors").Len.Sub(n.old.accs.Len), "image", "accessors", "the number of accessors changes")
	p.eq(p.index(img, "BufferView", "image", "view").Sub(n.old.views.Len), "image", "view", "the image isn't in the new buffer view")
	var text []Value
	for k, a := range n.args {
		if _, ok := a.(StrV); ok && n.fn.Params[k+1].Name() != "" {
			text = append(text, a)
		}
	}
	if len(text) == 2 {
		p.check(x.decide(x.equal(x.field(img, "Name"), text[0])), "image", "name", "the name of the image is another one")
		p.check(x.decide(x.equal(x.field(img, "MimeType"), text[1])), "image", "MIME type", "the MIME type of the image is another one")
	}
	u, ok := x.field(img, "URI").(StrV)
	if ok {
		p.check(x.decide(bEq(lenOfStr(u.T))), "image", "URI", "the image has a URI and a buffer view")
	}
	// What was read.
	var c *SeqC
	var off, length *Poly
	for _, ev := range p.o.st.ev.list() {
		if ev.Kind == "read" {
			if c != nil {
				x.undecided("the image is read in parts")
				return
			}
			c = &SeqC{Elem: tByte, Base: mkTerm("stream", SRef, nil, readerTerm(ev.Args[0]))}
			off, length = ev.Args[1].(IntV).P, ev.Args[2].(IntV).P
			p.eq(off, "image", "start", "the image isn't read from the start")
		}
	}
	if c == nil {
		failed, other := false, false
		for _, ev := range flatEvents(p.o.st.ev.list()) {
			failed = failed || ev.Kind == "fallible"
			other = other || ev.Kind == "extern" || ev.Kind == "invoke"
		}
		if other && !failed {
			p.r.Undec(n.what + ": unknown way to read the image")
			return
		}
		if len(n.data) == 0 {
			p.check(false, "image", "data", "nothing is read")
			return
		}
		c = &SeqC{Elem: tByte, Base: x.arrayTerm(n.data[0])}
		off, length = n.data[0].Off, n.data[0].Len
	}
	_, at, _, bytes := p.newView("image", length)
	i := x.skolem("i", length)
	if bytes.Base.Obj == nil {
		p.check(false, "image", "bytes", "the buffer has no data")
		return
	}
	got, ok1 := x.seqAt(x.arrayOf(bytes), bytes.Off.Add(at).Add(i)).(IntV)
	want, ok2 := x.seqAt(c, off.Add(i)).(IntV)
	if !ok1 || !ok2 {
		x.undecided("unknown byte")
		return
	}
	p.eq(got.P.Sub(want.P), "image", "bytes", "a byte of the view isn't the one that was read")
}

// describes checks that the new objects of the document describe the data.
func (p *newPath) describes(t binType, accessor bool) {
	x, n := p.x, p.n
	d := n.data[0]
	view, off, stride, bytes := p.newView("view", d.Len.ScaleI(t.size))
	_ = view
	idx, ok := p.o.ret[0].(IntV)
	if !ok {
		x.undecided("unknown index")
		return
	}
	at := off
	if accessor {
		acr := p.newElem("Accessors", "accessor", 0, 1)
		p.eq(idx.P.Sub(n.old.accs.Len), "accessor", "index", "the result isn't the index of the new accessor")
		p.accessorIs(acr, t, d, n.old.views.Len, "accessor", "")
		at = off.Add(p.num(acr, "ByteOffset"))
		p.ge(p.num(acr, "ByteOffset"), "accessor", "offset", "the accessor has a negative offset")
		p.eq(x.docSlice(n.doc, "Images").Len.Sub(n.old.images.Len), "accessor", "images", "the number of images changes")
	} else {
		p.eq(idx.P.Sub(n.old.views.Len), "view", "index", "the result isn't the index of the new buffer view")
		p.eq(x.docSlice(n.doc, "Accessors").Len.Sub(n.old.accs.Len), "view", "accessors", "the number of accessors changes")
	}
	eff := stride
	if x.decide(bEq(stride)) {
		eff = PInt(t.size)
	}
	i := x.skolem("i", d.Len)
	p.holds(t, d, bytes, i, at.Add(eff.Mul(i)), "content", "element")
}

// accessorIs checks the fields of a new accessor.
func (p *newPath) accessorIs(acr PtrV, t binType, d SliceV, view *Poly, rule, which string) {
	x := p.x
	cv, ok1 := p.r.codeOf(t.comp)
	av, ok2 := p.r.codeOf(t.acc)
	if !ok1 || !ok2 {
		return
	}
	p.eq(p.num(acr, "ComponentType").Sub(cv.P), rule, which+"component type", "the component type of the accessor isn't that of the data")
	p.eq(p.num(acr, "Type").Sub(av.P), rule, which+"type", "the type of the accessor isn't that of the data")
	p.eq(p.num(acr, "Count").Sub(d.Len), rule, which+"count", "the count of the accessor isn't the length of the data")
	p.eq(p.index(acr, "BufferView", rule, which+"view").Sub(view), rule, which+"view", "the accessor isn't over the new buffer view")
	if sp, ok := x.field(acr, "Sparse").(PtrV); ok {
		p.check(x.decide(x.isNil(sp)), rule, which+"sparse", "the accessor is sparse")
	}
}

// ---- W02, W03

func init() {
	register("W02", checkDef{run: checkW02,
		explain: "Every writer of package modeler is interpreted for each slice type it accepts (WriteAccessor and WriteBufferView: each of the 44), the interleaved ones with up to three slices of unsigned or float types, WriteImage with a symbolic reader. Rules, on every path, whether it returns an error or not: kept (an arbitrary old accessor, view, image and buffer is at its index and is unchanged; nothing else of the document changes), bytes (an arbitrary old byte of the last buffer is unchanged), stale (a buffer that grows has no data URI, which the encoder would write instead of the data), external (nothing is put in a buffer whose external resource isn't loaded), grows (the declared length of the buffer grows as much as its data), error (a path with an error adds no accessor, view or image).",
		assume:  writeAssume})
	register("W03", checkDef{run: checkW03,
		explain: "The writers of accessors are interpreted as for W02. Rules: aligned (the offset of the new view is a multiple of 4), padding (at most 3 bytes lie between the old data and the view), stride (a view for vertex attributes with elements that are padded declares the size of the padded element).",
		assume:  writeAssume})
	register("W04", checkDef{run: checkW04,
		explain: "WriteAccessorsInterleaved and WriteBufferViewInterleaved are interpreted for one slice of each of the 44 types, for pairs of each with [3]float32 in both orders, and for triples; WritePrimitiveAttributes for pairs of attributes, with symbolic slices, possibly empty. Rules: layout (stride, length, start of each accessor), content (every byte of an arbitrary element of each slice is at its place), length (slices of different lengths are an error, others aren't), attributes (the map has the accessor of each non-empty attribute, and nothing for others).",
		assume:  append([]string{"at most three slices are interleaved"}, writeAssume...)})
	register("W06", checkDef{run: checkW06,
		explain: "All paths of every writer of package modeler are interpreted, for every kind of data it supports, on a symbolic document and data of symbolic lengths. Rule safe: every index, slice bound, conversion, division, allocation size and dereference on every path is in range, and no explicit panic is reachable.",
		assume:  writeAssume})
	register("W05", checkDef{run: checkW05,
		explain: "Each attribute writer is interpreted for each of the 44 slice types, for nil and for any other type; WritePrimitiveAttributes for each attribute name and type. Rules: accept (the types of glTF return normally), reject (others panic, or return an error, and the document isn't changed by then), normalized (exactly integer texture coordinates, weights and colors are), target (of the new view), bounds (minimum and maximum with three components for positions only).",
		assume:  writeAssume})
}

// interleaved are the arguments of the variadic writers.
func interleaved(ts []binType) func(x *X, fn *ssa.Function) ([]Value, []SliceV) {
	return func(x *X, fn *ssa.Function) ([]Value, []SliceV) {
		if len(fn.Params) != 2 {
			return nil, nil
		}
		sl, ok := fn.Params[1].Type().Underlying().(*types.Slice)
		if !ok {
			return nil, nil
		}
		var data []SliceV
		args := x.newSlice(sl.Elem(), PInt(int64(len(ts))), PInt(int64(len(ts))), "args")
		for k, t := range ts {
			d, _ := symIn(types.NewSlice(t.elem), fmt.Sprint("data", k)).(SliceV)
			data = append(data, d)
			x.writeSeq(args, SWrite{Kind: WPoint, Idx: PInt(int64(k)), V: IfaceV{Dyn: types.NewSlice(t.elem), Val: d}})
		}
		return []Value{args}, data
	}
}

// attribute is an argument of WritePrimitiveAttributes. The name may be
// unknown.
type attribute struct {
	name string
	t    binType
}

func (r *Report) attributes(as []attribute) func(x *X, fn *ssa.Function) ([]Value, []SliceV) {
	return func(x *X, fn *ssa.Function) ([]Value, []SliceV) {
		if len(fn.Params) != 2 {
			return nil, nil
		}
		sl, ok := fn.Params[1].Type().Underlying().(*types.Slice)
		if !ok {
			return nil, nil
		}
		st, ok := sl.Elem().Underlying().(*types.Struct)
		if !ok {
			return nil, nil
		}
		var data []SliceV
		args := x.newSlice(sl.Elem(), PInt(int64(len(as))), PInt(int64(len(as))), "args")
		for k, a := range as {
			d, _ := symIn(types.NewSlice(a.t.elem), fmt.Sprint("data", k)).(SliceV)
			data = append(data, d)
			v := StructV{T: sl.Elem()}
			for i := 0; i < st.NumFields(); i++ {
				switch st.Field(i).Name() {
				case "Name":
					v.F = append(v.F, strConst(r.attrName(a.name)))
				case "Data":
					v.F = append(v.F, IfaceV{Dyn: types.NewSlice(a.t.elem), Val: d})
				default:
					v.F = append(v.F, zeroValue(st.Field(i).Type()))
				}
			}
			x.writeSeq(args, SWrite{Kind: WPoint, Idx: PInt(int64(k)), V: v})
		}
		return []Value{args}, data
	}
}

// attrName is the name of an attribute, given the name of its constant.
func (r *Report) attrName(name string) string {
	if c := r.P.Const("", name); c != nil && c.Val().Kind() == constant.String {
		return constant.StringVal(c.Val())
	}
	return name
}

// sliceType is the type of the elements of a slice.
func (r *Report) sliceType(name string) binType {
	for _, t := range r.allBinTypes() {
		if t.sliceName() == name {
			return t
		}
	}
	panic("no type " + name)
}

func typesOf(l []binType) string {
	var s []string
	for _, t := range l {
		s = append(s, t.String())
	}
	return strings.Join(s, ", ")
}

// mixes are the combinations of types that are interleaved.
func (r *Report) mixes() [][]binType {
	f3 := r.sliceType("[][3]float32")
	b3, u := r.sliceType("[][3]uint8"), r.sliceType("[]uint16")
	l := [][]binType{{}}
	for _, t := range r.binTypes() {
		l = append(l, []binType{t}, []binType{t, f3}, []binType{f3, t}, []binType{b3, t, u})
	}
	return l
}

// attrMixes are the combinations of attributes that are written together.
func (r *Report) attrMixes() [][]attribute {
	pos := attribute{"POSITION", r.sliceType("[][3]float32")}
	l := [][]attribute{{}, {pos}}
	for _, a := range primitiveAttrs {
		for _, t := range a.accept {
			b := attribute{a.name, r.sliceType(t)}
			if a.name != pos.name {
				l = append(l, []attribute{b}, []attribute{pos, b}, []attribute{b, pos})
			}
		}
	}
	c, w := attribute{"COLOR_0", r.sliceType("[][3]uint8")}, attribute{"WEIGHTS_0", r.sliceType("[][4]float32")}
	return append(l, []attribute{{"_CUSTOM", r.sliceType("[]int8")}, {"NORMAL", r.sliceType("[][3]float32")}}, []attribute{c, pos, w}, []attribute{w, c, pos})
}

func attrsOf(l []attribute) string {
	var s []string
	for _, a := range l {
		s = append(s, a.name+" "+a.t.String())
	}
	return strings.Join(s, ", ")
}

// eachWriter runs f for the writers of all kinds and types.
func (r *Report) eachWriter(images bool, f func(n *writeRun, t []binType)) {
	do := func(name, what string, ts []binType, args func(x *X, fn *ssa.Function) ([]Value, []SliceV)) {
		if len(r.Violations) > 20 {
			return
		}
		r.guardFor(60*time.Second, "modeler."+name+what, func() {
			if n := r.writes(name, what, args); n != nil {
				f(n, ts)
			}
		})
	}
	for _, t := range r.binTypes() {
		do("WriteAccessor", " of "+t.String(), []binType{t}, oneSlice(t))
		if images {
			do("WriteBufferView", " of "+t.String(), []binType{t}, oneSlice(t))
		}
		for _, w := range attrWriters {
			if oneOf(t.sliceName(), w.accept) {
				do(w.name, " of "+t.String(), []binType{t}, oneSlice(t))
			}
		}
	}
	for _, ts := range r.mixes() {
		if other := func(t binType) bool {
			return oneOf(t.comp, []string{"ComponentByte", "ComponentShort", "ComponentUint"})
		}; len(ts) > 1 && (other(ts[0]) || other(ts[1])) {
			continue // Laid out like their unsigned or float counterparts: W04.
		}
		do("WriteAccessorsInterleaved", " of "+typesOf(ts), ts, interleaved(ts))
		if images {
			do("WriteBufferViewInterleaved", " of "+typesOf(ts), ts, interleaved(ts))
		}
	}
	for _, as := range r.attrMixes() {
		do("WritePrimitiveAttributes", " of "+attrsOf(as), nil, r.attributes(as))
	}
	if images {
		for _, known := range []bool{true, false} {
			r.guardFor(60*time.Second, "modeler.WriteImage", func() {
				if n := r.imageRun(known); n != nil {
					f(n, nil)
				}
			})
		}
	}
}

func checkW02(r *Report) {
	r.eachWriter(true, func(n *writeRun, _ []binType) {
		for _, o := range n.outs {
			if o.panic {
				r.Fail("kept", n.what, n.pos, "panics", statePath(o.st))
				continue
			}
			r.on(n.e, o.st, n.fn, func(x *X) {
				p := &newPath{r: r, n: n, x: x, o: o}
				p.kept()
			})
		}
	})
}

func checkW06(r *Report) {
	r.eachWriter(true, func(n *writeRun, _ []binType) {
		r.safety(n.e, "safe", n.what, nil)
		for _, o := range n.outs {
			if o.panic {
				r.Fail("safe", n.what+": panics", n.pos, "a panic is reachable", statePath(o.st))
				return
			}
		}
		r.OK("safe", n.what+": no panic")
	})
}

// kept checks that what was in the document still is.
func (p *newPath) kept() {
	x, n := p.x, p.n
	failed := false
	if len(p.o.ret) > 1 {
		failed = !x.decide(x.isNil(p.o.ret[len(p.o.ret)-1]))
	}
	lists := n.slices()
	var names []string
	for f := range lists {
		names = append(names, f)
	}
	sort.Strings(names)
	pick := x.choose(len(names) + 2)
	if pick < len(names) {
		f := names[pick]
		old, now := lists[f], x.docSlice(n.doc, f)
		p.ge(now.Len.Sub(old.Len), "kept", f, f+" gets shorter")
		if failed && f != "Buffers" {
			p.eq(now.Len.Sub(old.Len), "error", f, "a write that fails adds to "+f)
		}
		x.assume(bGe(now.Len.Sub(old.Len)))
		k := x.skolem("k", old.Len)
		was, ok1 := x.elemOfOld(old, k)
		is, ok2 := x.elemAt(now, k).(PtrV)
		if !ok1 || !ok2 {
			x.undecided("unknown element of " + f)
			return
		}
		p.check(x.decide(x.equal(is, was)), "kept", f, "an element of "+f+" isn't the same any more")
		return
	}
	if pick == len(names) {
		p.unchanged()
		return
	}
	// The data of the buffer.
	bufs := x.docSlice(n.doc, "Buffers")
	if !x.decide(bGe(bufs.Len.AddI(-1))) {
		p.check(failed || x.decide(bEq(n.old.bufs.Len)), "grows", "buffers", "the buffers are gone")
		return
	}
	last := x.elemPtr(bufs, bufs.Len.AddI(-1))
	now := x.docSlice(last, "Data")
	length := p.num(last, "ByteLength")
	if x.decide(bGe(bufs.Len.Sub(n.old.bufs.Len).AddI(-1))) {
		p.eq(length.Sub(now.Len), "grows", "new buffer", "the declared length of a new buffer isn't that of its data")
		if p.hadBuffer() {
			p.eq(p.num(n.old.last, "ByteLength").Sub(n.old.length), "grows", "other buffer", "the length of another buffer changes")
			p.eq(x.docSlice(n.old.last, "Data").Len.Sub(n.old.bytes.Len), "grows", "other buffer", "the data of another buffer changes")
		}
		return
	}
	if n.old.last.Obj == nil {
		x.undecided("unknown buffer")
		return
	}
	p.eq(length.Sub(n.old.length).Sub(now.Len.Sub(n.old.bytes.Len)), "grows", "length",
		"the declared length of the buffer doesn't grow as much as its data")
	p.ge(now.Len.Sub(n.old.bytes.Len), "bytes", "data", "the data of the buffer gets shorter")
	if c, ok := baseContent(n.old.last.Obj).(CellC); ok {
		y := &X{e: x.e, st: x.st.clone(), fr: x.fr}
		y.st.put(n.old.last.Obj, c)
		if uri, ok := y.field(n.old.last, "URI").(StrV); ok && !x.decide(strEq(uri, strConst(""))) && x.decide(bGe(n.old.length.AddI(-1))) && x.decide(bEq(n.old.bytes.Len)) {
			p.eq(now.Len, "external", "data", "the new data takes the place of that of an external buffer which isn't loaded")
			return
		}
	}
	x.assume(bGe(now.Len.Sub(n.old.bytes.Len)))
	if uri, ok := x.field(last, "URI").(StrV); ok && x.decide(bGe(now.Len.Sub(n.old.bytes.Len).AddI(-1))) {
		p.check(!x.decide(bAtom(mkTerm("prefix", SBool, nil, uri.T, strConst(dataURI).T))), "stale", "URI", "the buffer keeps a data URI that doesn't hold the new data")
	}
	i := x.skolem("b", n.old.bytes.Len)
	if now.Base.Obj == nil {
		p.check(false, "bytes", "data", "the data of the buffer is gone")
		return
	}
	got, ok1 := x.seqAt(x.arrayOf(now), now.Off.Add(i)).(IntV)
	want, ok2 := elemOf(n.old.bytes.Base.Obj.Term, n.old.bytes.Off.Add(i), tByte).(IntV)
	if !ok1 || !ok2 {
		x.undecided("unknown byte")
		return
	}
	p.eq(got.P.Sub(want.P), "bytes", "data", "a byte that was in the buffer changes")
}

// hadBuffer tells whether the original document has buffers.
func (p *newPath) hadBuffer() bool {
	return p.n.old.last.Obj != nil && !p.x.decide(bEq(p.n.old.bufs.Len))
}

// elemOfOld is an element of a slice in the original document.
func (x *X) elemOfOld(s SliceV, i *Poly) (PtrV, bool) {
	if s.Base.Obj == nil {
		return PtrV{}, false
	}
	p, ok := elemOf(s.Base.Obj.Term, s.Off.Add(i), s.Elem).(PtrV)
	return p, ok
}

// unchanged checks that nothing but the lists of the document and the data and
// length of its last buffer changes.
func (p *newPath) unchanged() {
	x, n := p.x, p.n
	may := map[string]bool{"Accessors": true, "BufferViews": true, "Images": true, "Buffers": true}
	p.sameFields(n.doc, may, "document")
	if p.hadBuffer() {
		p.sameFields(n.old.last, map[string]bool{"ByteLength": true, "Data": true, "URI": true}, "buffer")
	}
	l := x.changed(n.base, func(o *Obj) bool {
		if o == n.doc.Obj || n.old.last.Obj != nil && x.st.norm(o) == x.st.norm(n.old.last.Obj) {
			return false
		}
		if strings.HasPrefix(o.Term.Op, "ghost") || rooted(o.Term, "stream") {
			return false
		}
		// The elements of the lists, and the data, were compared.
		if c, ok := x.st.heap[o].(*SeqC); ok {
			for _, s := range append([]SliceV{n.old.bytes}, n.old.accs, n.old.views, n.old.images, n.old.bufs) {
				if s.Base.Obj != nil && s.Base.Obj.Term == o.Term {
					return p.writesBelow(c, s.Off.Add(s.Len))
				}
			}
		}
		return true
	})
	p.check(len(l) == 0, "kept", "other memory", fmt.Sprint("memory of the document is written: ", l))
}

// writesBelow tells whether an array may be written below an index.
func (p *newPath) writesBelow(c *SeqC, end *Poly) bool {
	for _, w := range c.W {
		if w.Idx == nil || w.Kind == WLoop || !p.x.st.F.Entails(w.Idx.Sub(end)) {
			return true
		}
	}
	return false
}

func (p *newPath) sameFields(q PtrV, may map[string]bool, what string) {
	x := p.x
	st, ok := q.Elem.Underlying().(*types.Struct)
	if !ok {
		return
	}
	old := baseContent(q.Obj)
	if b, ok := p.n.base.heap[q.Obj]; ok {
		old = b
	}
	oc, ok := old.(CellC)
	if !ok || len(q.Path) > 0 {
		x.undecided("unknown " + what)
		return
	}
	was, ok1 := oc.V.(StructV)
	is, ok2 := x.load(q).(StructV)
	if !ok1 || !ok2 {
		x.undecided("unknown " + what)
		return
	}
	for i := range is.F {
		f := st.Field(i).Name()
		if !may[f] {
			p.check(x.sameValue(is.F[i], was.F[i]), "kept", what, f+" of the "+what+" changes")
		}
	}
}

func checkW03(r *Report) {
	r.eachWriter(false, func(n *writeRun, ts []binType) {
		for _, o := range n.outs {
			if o.panic {
				continue
			}
			r.on(n.e, o.st, n.fn, func(x *X) {
				p := &newPath{r: r, n: n, x: x, o: o}
				if len(o.ret) > 1 {
					x.assume(x.isNil(o.ret[len(o.ret)-1]))
				}
				p.aligned(ts)
			})
		}
	})
	for _, t := range r.binTypes() {
		if t.csize*int64(t.rows*t.cols) == t.size {
			continue
		}
		r.guardFor(60*time.Second, "modeler.WriteBufferView of "+t.String(), func() {
			if n := r.writes("WriteBufferView", " of "+t.String(), oneSlice(t)); n != nil {
				r.returned(n, func(p *newPath) {
					p.strided(p.newElem("BufferViews", "stride", 0, 1), []binType{t})
				})
			}
		})
	}
}

func (p *newPath) aligned(ts []binType) {
	x, n := p.x, p.n
	view := p.newElem("BufferViews", "aligned", 0, 1)
	off := p.num(view, "ByteOffset")
	rest := Mod(x.st.F.Norm(off), big.NewInt(4))
	for k := int64(1); k < 4; k++ {
		if x.decide(bEq(rest.AddI(-k))) {
			p.check(false, "aligned", "offset", "the offset of the view may not be a multiple of 4: "+off.String())
			return
		}
	}
	p.r.OK("aligned", n.what)
	start := &Poly{}
	if bufs := x.docSlice(n.doc, "Buffers"); p.hadBuffer() && x.decide(bEq(bufs.Len.Sub(n.old.bufs.Len))) {
		start = n.old.bytes.Len
	}
	p.ge(off.Sub(start), "padding", "offset", "the view starts before the end of the old data")
	p.ge(start.AddI(3).Sub(off), "padding", "offset", "more than 3 bytes of padding")
	p.strided(view, ts)
}

// strided checks the stride of a view over one slice.
func (p *newPath) strided(view PtrV, ts []binType) {
	x := p.x
	if len(ts) != 1 || ts[0].csize*int64(ts[0].rows*ts[0].cols) == ts[0].size {
		return
	}
	c := p.r.P.Const("", "TargetArrayBuffer")
	if c == nil {
		p.r.Undec("no constant TargetArrayBuffer")
		return
	}
	v, _ := constant.Int64Val(c.Val())
	x.assume(bEq(p.num(view, "Target").AddI(-v)))
	p.eq(p.num(view, "ByteStride").AddI(-ts[0].size), "stride", "stride", "the view doesn't declare the size of the padded elements as its stride")
}

// ---- W04

func checkW04(r *Report) {
	for _, ts := range r.mixes() {
		for _, name := range []string{"WriteAccessorsInterleaved", "WriteBufferViewInterleaved"} {
			if len(r.Violations) > 20 {
				return
			}
			r.guardFor(60*time.Second, "modeler."+name+" of "+typesOf(ts), func() {
				n := r.writes(name, " of "+typesOf(ts), interleaved(ts))
				if n == nil {
					return
				}
				for _, o := range n.outs {
					if o.panic {
						r.Fail("layout", n.what, n.pos, "panics", statePath(o.st))
						continue
					}
					r.on(n.e, o.st, n.fn, func(x *X) {
						p := &newPath{r: r, n: n, x: x, o: o}
						if !p.lengths() {
							return
						}
						if name == "WriteBufferViewInterleaved" {
							p.slots(ts, nil)
							idx, ok := o.ret[0].(IntV)
							if !ok {
								x.undecided("unknown index")
								return
							}
							p.eq(idx.P.Sub(n.old.views.Len), "layout", "index", "the result isn't the index of the new buffer view")
							return
						}
						s := x.sliceOf(o.ret[0])
						p.eq(s.Len.AddI(-int64(len(ts))), "layout", "indices", "not one index per slice")
						var idx []*Poly
						for k := range ts {
							v, ok := x.elemAt(s, PInt(int64(k))).(IntV)
							if !ok {
								x.undecided("unknown index")
								return
							}
							idx = append(idx, v.P)
						}
						p.slots(ts, idx)
					})
				}
			})
		}
	}
	for _, as := range r.attrMixes() {
		if len(r.Violations) > 20 {
			return
		}
		r.guardFor(60*time.Second, "modeler.WritePrimitiveAttributes of "+attrsOf(as), func() {
			n := r.writes("WritePrimitiveAttributes", " of "+attrsOf(as), r.attributes(as))
			if n == nil {
				return
			}
			for _, o := range n.outs {
				if o.panic {
					r.Fail("attributes", n.what, n.pos, "panics", statePath(o.st))
					continue
				}
				r.on(n.e, o.st, n.fn, func(x *X) {
					p := &newPath{r: r, n: n, x: x, o: o}
					if kept, ok := p.present(as); ok {
						p.attributes(as, kept)
					}
				})
			}
		})
	}
}

// lengths tells whether the path returns no error, which it must when the
// slices have the same length, and only then.
func (p *newPath) lengths() bool {
	return p.sameLengths(p.n.data)
}

func (p *newPath) sameLengths(data []SliceV) bool {
	x := p.x
	same := true
	for k := 1; k < len(data) && same; k++ {
		same = x.decide(bEq(data[k].Len.Sub(data[0].Len)))
	}
	ok := x.decide(x.isNil(p.o.ret[len(p.o.ret)-1]))
	if ok && !same {
		p.check(false, "length", "lengths", "no error although the slices have different lengths")
	} else if !ok && same {
		p.check(false, "length", "lengths", "an error although the slices have the same length")
	} else {
		p.r.OK("length", p.n.what)
	}
	return ok && same
}

// present lists the attributes that aren't empty.
func (p *newPath) present(as []attribute) (kept []int, ok bool) {
	var data []SliceV
	for k := range as {
		if !p.x.decide(bEq(p.n.data[k].Len)) {
			kept = append(kept, k)
			data = append(data, p.n.data[k])
		}
	}
	return kept, p.sameLengths(data)
}

// slots checks the layout of interleaved slices, whose accessors have the
// given indices.
func (p *newPath) slots(ts []binType, idx []*Poly) {
	p.slotsOf(ts, p.n.data, idx)
}

func (p *newPath) slotsOf(ts []binType, data []SliceV, idx []*Poly) {
	x, n := p.x, p.n
	if len(ts) == 0 {
		return
	}
	size := int64(0)
	for _, t := range ts {
		size += t.size
	}
	_, off, stride, bytes := p.newView("layout", data[0].Len.ScaleI(size))
	if len(ts) > 1 || !x.decide(bEq(stride)) {
		p.eq(stride.AddI(-size), "layout", "stride", "the stride isn't the sum of the sizes of the elements")
	}
	start := int64(0)
	i := x.skolem("i", data[0].Len)
	pick := x.choose(len(ts))
	for k, t := range ts {
		at := off.AddI(start)
		which := fmt.Sprintf("slice %d: ", k)
		start += t.size
		if k != pick {
			continue
		}
		if idx != nil {
			p.eq(x.docSlice(n.doc, "Accessors").Len.Sub(n.old.accs.Len).AddI(-int64(len(ts))), "layout", "accessors", "not one new accessor per slice")
			p.eq(idx[k].Sub(n.old.accs.Len).AddI(-int64(k)), "layout", which+"index", "the index isn't that of the accessor")
			accs := x.docSlice(n.doc, "Accessors")
			if !x.st.F.Entails(accs.Len.Sub(idx[k]).AddI(-1)) || !x.st.F.Entails(idx[k].Sub(n.old.accs.Len)) {
				p.check(false, "layout", which+"index", "the index isn't that of a new accessor")
				return
			}
			acr := x.elemPtr(accs, idx[k])
			p.accessorIs(acr, t, data[k], n.old.views.Len, "layout", which)
			p.eq(off.Add(p.num(acr, "ByteOffset")).Sub(at), "layout", which+"start", "the accessor doesn't start after the elements of the previous slices")
		}
		p.holds(t, data[k], bytes, i, at.Add(PInt(size).Mul(i)), "content", which+"element")
	}
}

// attributes checks the attribute map.
func (p *newPath) attributes(as []attribute, kept []int) {
	x, n := p.x, p.n
	m, ok := p.o.ret[0].(MapV)
	if !ok {
		x.undecided("unknown map")
		return
	}
	mt, ok := n.fn.Signature.Results().At(0).Type().Underlying().(*types.Map)
	if !ok {
		return
	}
	var ts []binType
	var data []SliceV
	var idx []*Poly
	for k, a := range as {
		v, in := x.mapGet(m, strConst(p.r.attrName(a.name)), mt.Elem())
		used := false
		for _, q := range kept {
			used = used || q == k
		}
		if !p.check(in == used, "attributes", a.name, fmt.Sprintf("attribute in the map: %v, although it has elements: %v", in, used)) {
			return
		}
		if used {
			i, ok := v.(IntV)
			if !ok {
				x.undecided("unknown index")
				return
			}
			ts, data, idx = append(ts, a.t), append(data, n.data[k]), append(idx, i.P)
		}
	}
	p.slotsOf(ts, data, idx)
}

// ---- W05

// primitiveAttrs are the attributes whose types WritePrimitiveAttributes
// checks.
var primitiveAttrs = []attrWriter{
	{"POSITION", []string{"[][3]float32"}, nil, "", true},
	{"TEXCOORD_0", attrWriters[3].accept, attrWriters[3].norm, "", true},
	{"TEXCOORD_1", attrWriters[3].accept, attrWriters[3].norm, "", true},
	{"WEIGHTS_0", attrWriters[4].accept, attrWriters[4].norm, "", true},
	{"JOINTS_0", attrWriters[5].accept, nil, "", true},
	{"COLOR_0", attrWriters[7].accept, attrWriters[7].norm, "", true},
}

func checkW05(r *Report) {
	for _, w := range attrWriters {
		for _, t := range r.allBinTypes() {
			if !w.any && !oneOf(t.sliceName(), w.accept) || w.name == "WriteIndices" && t.sliceName() == "[]uint8" {
				continue
			}
			r.attrWriter(w, t)
		}
		if w.any {
			r.otherData(w, true)
			r.otherData(w, false)
		}
	}
	pos := attribute{"POSITION", r.sliceType("[][3]float32")}
	for _, w := range primitiveAttrs {
		for _, t := range r.allBinTypes() {
			as := []attribute{{w.name, t}}
			if w.name != pos.name {
				as = append(as, pos)
			}
			r.attrOf(w, t, as)
		}
	}
	r.attrOf(attrWriter{name: "NORMAL", accept: []string{"[][3]float32"}}, r.sliceType("[][3]float32"), []attribute{{"NORMAL", r.sliceType("[][3]float32")}})
}

func (r *Report) attrWriter(w attrWriter, t binType) {
	if len(r.Violations) > 20 {
		return
	}
	r.guardFor(60*time.Second, "modeler."+w.name+" of "+t.String(), func() {
		n := r.writes(w.name, " of "+t.String(), oneSlice(t))
		if n == nil {
			return
		}
		accepted := oneOf(t.sliceName(), w.accept)
		for _, o := range n.outs {
			r.on(n.e, o.st, n.fn, func(x *X) {
				p := &newPath{r: r, n: n, x: x, o: o}
				if !accepted {
					p.rejected()
					return
				}
				if !p.check(!o.panic, "accept", "panic", "panics although the type is allowed") {
					return
				}
				idx, ok := o.ret[0].(IntV)
				if !ok {
					x.undecided("unknown index")
					return
				}
				acr := p.newElem("Accessors", "accept", 0, 1)
				p.eq(idx.P.Sub(n.old.accs.Len), "accept", "index", "the result isn't the index of the new accessor")
				p.flags(acr, oneOf(t.sliceName(), w.norm), w.name == "WritePosition", "")
				p.target(w.target)
			})
		}
	})
}

func (p *newPath) target(name string) {
	c := p.r.P.Const("", name)
	if c == nil {
		p.r.Undec("no constant " + name)
		return
	}
	v, _ := constant.Int64Val(c.Val())
	view := p.newElem("BufferViews", "target", 0, 1)
	p.eq(p.num(view, "Target").AddI(-v), "target", "target", "the target of the view isn't "+name)
}

// rejected checks that the path panics or fails before anything is changed.
func (p *newPath) rejected() {
	x, n := p.x, p.n
	if !p.o.panic {
		ok := len(p.o.ret) > 1
		if ok {
			isNil, known := x.errKnown(p.o.ret[len(p.o.ret)-1])
			ok = known && !isNil
		}
		if !p.check(ok, "reject", "type", "a type that isn't allowed is accepted") {
			return
		}
	}
	l := x.changed(n.base, nil)
	p.check(len(l) == 0, "reject", "document", fmt.Sprint("the document is changed although the type isn't allowed: ", l))
}

// flags checks what a writer sets in an accessor.
func (p *newPath) flags(acr PtrV, norm, bounds bool, which string) {
	x := p.x
	b, ok := x.field(acr, "Normalized").(BoolV)
	if !ok {
		x.undecided("unknown flag")
		return
	}
	p.check(x.decide(b) == norm, "normalized", which+"normalized", fmt.Sprintf("normalized isn't %v", norm))
	for _, f := range []string{"Min", "Max"} {
		want := int64(0)
		if bounds {
			want = 3
		}
		p.eq(x.docSlice(acr, f).Len.AddI(-want), "bounds", which+f, fmt.Sprintf("%s doesn't have %d components", f, want))
	}
}

// otherData passes nil, or a value of a type which isn't one of the 44.
func (r *Report) otherData(w attrWriter, isNil bool) {
	what := map[bool]string{true: " of nil", false: " of another type"}[isNil]
	r.guardFor(60*time.Second, "modeler."+w.name+what, func() {
		n := r.writes(w.name, what, func(x *X, fn *ssa.Function) (vals []Value, data []SliceV) {
			for _, q := range fn.Params[1:] {
				if _, ok := q.Type().Underlying().(*types.Interface); !ok {
					vals = append(vals, symIn(q.Type(), q.Name()))
					continue
				}
				if isNil {
					vals = append(vals, IfaceV{})
					continue
				}
				v, _ := symIn(q.Type(), "data").(IfaceV)
				x.assume(x.isNil(v).not())
				for _, t := range r.allBinTypes() {
					x.assume(BoolV{K: BDyn, T: v.T, Typ: types.NewSlice(t.elem)}.not())
				}
				vals = append(vals, v)
			}
			return vals, nil
		})
		if n == nil {
			return
		}
		for _, o := range n.outs {
			r.on(n.e, o.st, n.fn, func(x *X) {
				(&newPath{r: r, n: n, x: x, o: o}).rejected()
			})
		}
	})
}

// attrOf checks WritePrimitiveAttributes, the first attribute of which may
// not have an allowed type.
func (r *Report) attrOf(w attrWriter, t binType, as []attribute) {
	if len(r.Violations) > 20 {
		return
	}
	r.guardFor(60*time.Second, "modeler.WritePrimitiveAttributes of "+attrsOf(as), func() {
		n := r.writes("WritePrimitiveAttributes", " of "+attrsOf(as), r.attributes(as))
		if n == nil {
			return
		}
		accepted := oneOf(t.sliceName(), w.accept)
		for _, o := range n.outs {
			r.on(n.e, o.st, n.fn, func(x *X) {
				p := &newPath{r: r, n: n, x: x, o: o}
				if !accepted {
					x.assume(bGe(n.data[0].Len.AddI(-1)))
					p.rejected()
					return
				}
				if !p.check(!o.panic, "accept", "panic", "panics although the type is allowed") {
					return
				}
				kept, ok := p.present(as)
				if !ok {
					return
				}
				for _, k := range kept {
					acr := x.elemPtr(x.docSlice(n.doc, "Accessors"), n.old.accs.Len.AddI(int64(indexIn(kept, k))))
					norm := k == 0 && oneOf(t.sliceName(), w.norm)
					p.flags(acr, norm, as[k].name == "POSITION", as[k].name+": ")
				}
				if len(kept) > 0 {
					p.target("TargetArrayBuffer")
				}
			})
		}
	})
}

func indexIn(l []int, v int) int {
	for i, w := range l {
		if w == v {
			return i
		}
	}
	return -1
}
