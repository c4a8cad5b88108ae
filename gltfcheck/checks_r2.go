package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"
)

// typedReader is a reader that converts the elements of an accessor.
type typedReader struct {
	name  string
	comps []string
	accs  []string
	to    types.BasicKind
}

var typedReaders = []typedReader{
	{"ReadIndices", []string{"ComponentUbyte", "ComponentUshort", "ComponentUint"}, []string{"AccessorScalar"}, types.Uint32},
	{"ReadNormal", []string{"ComponentFloat"}, []string{"AccessorVec3"}, types.Float32},
	{"ReadTangent", []string{"ComponentFloat"}, []string{"AccessorVec4"}, types.Float32},
	{"ReadTextureCoord", []string{"ComponentUbyte", "ComponentUshort", "ComponentFloat"}, []string{"AccessorVec2"}, types.Float32},
	{"ReadWeights", []string{"ComponentUbyte", "ComponentUshort", "ComponentFloat"}, []string{"AccessorVec4"}, types.Float32},
	{"ReadJoints", []string{"ComponentUbyte", "ComponentUshort"}, []string{"AccessorVec4"}, types.Uint16},
	{"ReadPosition", []string{"ComponentFloat"}, []string{"AccessorVec3"}, types.Float32},
	{"ReadColor", []string{"ComponentUbyte", "ComponentUshort", "ComponentFloat"}, []string{"AccessorVec3", "AccessorVec4"}, types.Uint8},
	{"ReadColor64", []string{"ComponentUbyte", "ComponentUshort", "ComponentFloat"}, []string{"AccessorVec3", "AccessorVec4"}, types.Uint16},
	{"ReadInverseBindMatrices", []string{"ComponentFloat"}, []string{"AccessorMat4"}, types.Float32},
}

func oneOf(s string, l []string) bool {
	for _, t := range l {
		if s == t {
			return true
		}
	}
	return false
}

// accessorTypes calls f with every combination of component and accessor
// type, and with those that are none of glTF.
func (r *Report) accessorTypes(f func(comp, acc string, restrict func(x *X, n *readRun))) {
	for _, c := range binComps {
		for _, a := range binAccs {
			if !binSkip(c.name, a.name) {
				f(c.name, a.name, r.accessorOf(c.name, a.name))
			}
		}
	}
	other := func(field string, names []string) func(x *X, n *readRun) {
		return func(x *X, n *readRun) {
			v, ok := x.field(n.acr, field).(IntV)
			if !ok {
				x.undecided("accessor without type")
				return
			}
			for _, c := range names {
				if w, ok := r.codeOf(c); ok {
					x.assume(bEq(v.P.Sub(w.P)).not())
				}
			}
		}
	}
	var comps, accs []string
	for _, c := range binComps {
		comps = append(comps, c.name)
	}
	for _, a := range binAccs {
		accs = append(accs, a.name)
	}
	f("other component", "any type", other("ComponentType", comps))
	f("any component", "other type", other("Type", accs))
}

// readerNames are the functions that read accessors.
func readerNames() []string {
	l := []string{"ReadAccessor"}
	for _, t := range typedReaders {
		l = append(l, t.name)
	}
	return l
}

// ---- R01

func init() {
	register("R01", checkDef{run: checkR01,
		explain: "Every reader of package modeler is interpreted for each of the 42 combinations of component and accessor type, for component and accessor types that don't exist, and with a symbolic document and accessor about which nothing is assumed. Rules: safe (every index, slice bound, nil dereference, division, conversion and type assertion on every path is proved; no panic is reachable), recursion (the nested reads of a sparse accessor aren't sparse), within (without error, the bytes of the elements lie within the buffer view, and the buffer view within the data of its buffer), unsupported (types which don't exist are errors). The typed readers use the contract of ReadAccessor, and all of them the contract of the slice functions, which are proved here too.",
		assume:  []string{"document and accessor aren't nil", "memory isn't exhausted: the elements of an accessor that could be allocated take less than 1 TiB", "64-bit platform"}})
}

func checkR01(r *Report) {
	for _, name := range readerNames() {
		name := name
		r.accessorTypes(func(comp, acc string, restrict func(x *X, n *readRun)) {
			if len(r.Violations) > 20 {
				return
			}
			what := "modeler." + name + " of " + comp + " " + acc
			r.guardFor(60*time.Second, what, func() {
				n := r.readRun(name, comp+" "+acc, restrict)
				if n == nil {
					return
				}
				r.safety(n.e, "safe", what, nil)
				pos := posOf(r.P, n.fn)
				t, known := binTypeNamed(comp, acc)
				n.e.deepPick = true
				for _, o := range n.outs {
					if o.panic {
						r.Fail("safe", what, pos, "panics", statePath(o.st))
						continue
					}
					r.on(n.e, o.st, n.fn, func(x *X) {
						x.assume(x.isNil(o.ret[len(o.ret)-1]))
						if !known {
							r.Check(false, "unsupported", what, pos, "no error although the type doesn't exist", statePath(x.st))
							return
						}
						if name == "ReadAccessor" {
							p := &readPath{r: r, n: n, x: x, t: t, o: o, pos: pos}
							p.inside()
						}
					})
				}
			})
		})
	}
	r.guard("modeler.ReadBufferView", func() { r.bufferView(true) })
	r.sliceLemma()
}

// inside checks that the elements of the accessor lie within the document.
func (p *readPath) inside() {
	x, n, r := p.x, p.n, p.r
	count, ok1 := x.field(n.acr, "Count").(IntV)
	off, ok2 := x.field(n.acr, "ByteOffset").(IntV)
	view, ok3 := x.field(n.acr, "BufferView").(PtrV)
	if !ok1 || !ok2 || !ok3 {
		x.undecided("unknown accessor")
		return
	}
	r.Check(x.decide(bGe(count.P)), "within", n.what+": count", p.pos, "no error although the count is negative", statePath(x.st))
	x.assume(x.isNil(view).not())
	x.assume(bGe(count.P.AddI(-1)))
	idx, ok := x.load(view).(IntV)
	if !ok {
		x.undecided("unknown buffer view")
		return
	}
	vb, ok := x.viewOf(n.doc, idx.P)
	if !ok {
		p.fail("within", "buffer view", "no error although the buffer view may not exist")
		return
	}
	stride := vb.stride
	if x.decide(bEq(stride)) {
		stride = PInt(p.t.size)
	}
	last := stride.Mul(count.P.AddI(-1)).Add(off.P).AddI(p.t.span())
	for _, c := range []struct {
		p    *Poly
		what string
	}{
		{vb.off, "the byte offset of the view is negative"},
		{vb.data.Len.Sub(vb.off).Sub(vb.len), "the view ends after the data of its buffer"},
		{off.P, "the byte offset of the accessor is negative"},
		{vb.len.Sub(last), "the last element ends after the buffer view"},
		{stride, "the stride is negative"},
	} {
		r.expectGe(x, c.p, "within", n.what+": "+c.what, p.pos, "no error although "+c.what)
	}
}

// expectGe reports a violation unless p >= 0 on all paths.
func (r *Report) expectGe(x *X, p *Poly, rule, construct, pos, msg string) {
	if v, ok := x.eval(bGe(p)); ok && v {
		r.OK(rule, construct)
		return
	}
	if containsFn(x.st.F.Norm(p), imprecise) {
		r.Undec(construct + ": " + msg)
		return
	}
	r.Check(x.decide(bGe(p)), rule, construct, pos, msg, statePath(x.st))
}

// bufferView verifies ReadBufferView: it doesn't panic, and returns the bytes
// that the view delimits.
func (r *Report) bufferView(safe bool) {
	fn := r.fn("modeler", "ReadBufferView")
	if fn == nil || len(fn.Params) != 2 {
		return
	}
	e := r.engine()
	st := e.Base.clone()
	doc := nonNil(st, pointee(fn.Params[0].Type()), "doc")
	bv, _ := symIn(fn.Params[1].Type(), "bv").(PtrV)
	outs := e.fn(st, fn, []Value{doc, bv}, nil)
	r.absorb(e)
	what, pos := "modeler.ReadBufferView", posOf(r.P, fn)
	r.unit(what)
	if safe {
		r.safety(e, "safe", what, nil)
	}
	ok := 0
	e.deepPick = true
	for _, o := range outs {
		if o.panic {
			if safe {
				r.Fail("safe", what, pos, "panics", statePath(o.st))
			}
			continue
		}
		r.on(e, o.st, fn, func(x *X) {
			x.assume(x.isNil(o.ret[1]))
			ok++
			if x.decide(x.isNil(bv)) {
				if safe {
					r.Check(false, "within", what, pos, "no error although there is no buffer view", statePath(x.st))
				}
				return
			}
			vb, in := x.viewAt(doc, bv)
			if !r.Check(in, map[bool]string{true: "within", false: "view"}[safe], what+": buffer", pos, "no error although the buffer may not exist", statePath(x.st)) {
				return
			}
			if safe {
				for _, c := range []struct {
					p    *Poly
					what string
				}{
					{vb.off, "the byte offset is negative"}, {vb.len, "the byte length is negative"},
					{vb.data.Len.Sub(vb.off).Sub(vb.len), "the view ends after the data of its buffer"},
				} {
					r.expectGe(x, c.p, "within", what+": "+c.what, pos, "no error although "+c.what)
				}
				return
			}
			s := x.sliceOf(o.ret[0])
			r.expectEq(x, s.Len.Sub(vb.len), "view", what+": length", pos, fmt.Sprintf("the result has %s bytes, not the length of the view", s.Len))
			arr := x.arrayTerm(vb.data)
			if arr == nil {
				x.undecided("unknown buffer")
				return
			}
			i := x.skolem("i", vb.len)
			if s.Base.Obj == nil {
				r.Check(false, "view", what+": bytes", pos, "no bytes", statePath(x.st))
				return
			}
			got, ok1 := x.seqAt(x.arrayOf(s), s.Off.Add(i)).(IntV)
			want, ok2 := x.seqAt(&SeqC{Elem: tByte, Base: arr}, vb.data.Off.Add(vb.off).Add(i)).(IntV)
			if !ok1 || !ok2 {
				x.undecided("unknown byte")
				return
			}
			r.expectEq(x, got.P.Sub(want.P), "view", what+": bytes", pos, "a byte isn't the one of the buffer")
		})
	}
	if ok == 0 {
		r.Undec(what + ": no path without error")
	}
}

// sliceLemma proves the contract of MakeSliceBuffer.
func (r *Report) sliceLemma() {
	for c := range binComps {
		for a := range binAccs {
			t := binTypeOf(c, a)
			cv, ok1 := r.codeOf(t.comp)
			av, ok2 := r.codeOf(t.acc)
			if !ok1 || !ok2 || binSkip(t.comp, t.acc) {
				continue
			}
			for _, name := range []string{"MakeSlice", "MakeSliceBuffer"} {
				r.guardFor(20*time.Second, "binary."+name+" of "+t.comp+" "+t.acc, func() { r.makeSlice(name, t, cv, av, false) })
			}
		}
	}
	for _, name := range []string{"MakeSlice", "MakeSliceBuffer"} {
		r.guardFor(20*time.Second, "binary."+name+" of unsupported types", func() {
			r.unsupported(name, false)
			r.unsupported(name, true)
		})
	}
}

func binTypeNamed(comp, acc string) (binType, bool) {
	for c := range binComps {
		for a := range binAccs {
			if binComps[c].name == comp && binAccs[a].name == acc {
				return binTypeOf(c, a), true
			}
		}
	}
	return binType{}, false
}

// ---- R03

func init() {
	register("R03", checkDef{run: checkR03,
		explain: "Each typed reader is interpreted for each of the 42 combinations of component and accessor type, and for types that don't exist, with a symbolic document, accessor and reused buffer; ReadAccessor is replaced by its contract (R02). Rules: reject (types not allowed by the documentation are errors on all paths), accept (the others aren't, unless ReadAccessor fails), length (as many elements as the accessor's count), channel (component k of element i of the result depends only on component k of element i that ReadAccessor returned), convert (it's the documented conversion of it). Conversions of floats to colors are the ones that M01 verifies.",
		assume:  []string{"document and accessor aren't nil", "real arithmetic in place of rounding when the conversions of normalized numbers are compared"}})
}

func checkR03(r *Report) {
	used := map[string]bool{}
	for _, t := range typedReaders {
		r.typedReader(t)
		for _, c := range t.comps {
			for _, a := range t.accs {
				used[c+" "+a] = true
			}
		}
	}
	// What they convert is what the document holds.
	for c := range binComps {
		for a := range binAccs {
			if t := binTypeOf(c, a); used[t.comp+" "+t.acc] {
				r.accessorElements(t)
			}
		}
	}
}

// typedReader verifies a typed reader, with the contract of ReadAccessor.
func (r *Report) typedReader(t typedReader) {
	{
		r.accessorTypes(func(comp, acc string, restrict func(x *X, n *readRun)) {
			what := "modeler." + t.name + " of " + comp + " " + acc
			r.guardFor(60*time.Second, what, func() {
				n := r.typedRun(t, comp, acc, restrict)
				if n == nil {
					return
				}
				pos := posOf(r.P, n.fn)
				accepted := oneOf(comp, t.comps) && oneOf(acc, t.accs)
				src, _ := binTypeNamed(comp, acc)
				n.e.deepPick = true
				ok := 0
				for _, o := range n.outs {
					if o.panic {
						continue
					}
					r.on(n.e, o.st, n.fn, func(x *X) {
						isNil, known := x.errKnown(o.ret[1])
						if !accepted {
							r.Check(known && !isNil, "reject", what, pos, "no error although the type isn't allowed", statePath(x.st))
							return
						}
						if !x.decide(x.isNil(o.ret[1])) {
							if !hasEv(o.st.ev.list(), "contracterr", "ReadAccessor") {
								if ev, _ := contractEv(o.st.ev.list(), "ReadAccessor"); ev == nil && hasCall(o.st.ev.list()) {
									r.Undec(what + ": doesn't use ReadAccessor")
									return
								}
								r.Check(false, "accept", what, pos, "an error although the type is allowed and the accessor could be read", statePath(x.st))
							}
							return
						}
						ok++
						r.typedContent(&readPath{r: r, n: n, x: x, t: src, o: o, pos: pos}, t)
					})
				}
				if accepted && ok == 0 {
					r.Check(false, "accept", what, pos, "never successful although the type is allowed", nil)
				}
			})
		})
	}
}

// typedRun analyses a typed reader.
func (r *Report) typedRun(t typedReader, comp, acc string, restrict func(x *X, n *readRun)) *readRun {
	return r.readRun(t.name, comp+" "+acc, func(x *X, n *readRun) {
		r.colorContracts(n.e)
		restrict(x, n)
	})
}

func hasEv(evs []*Ev, kind, name string) bool {
	for _, ev := range evs {
		if ev.Kind == kind {
			if s, ok := ev.Args[0].(StrV); ok {
				if c, _ := s.Const(); c == name {
					return true
				}
			}
		}
	}
	return false
}

// hasCall tells whether a reader got as far as reading something itself.
func hasCall(evs []*Ev) bool {
	for _, ev := range evs {
		if ev.Kind == "backing" || ev.Kind == "contract" {
			return true
		}
	}
	return false
}

// colorContracts gives the functions that convert colors to integers the
// behaviour that M01 verifies: the channels are converted one by one.
func (r *Report) colorContracts(e *Engine) {
	for _, c := range []struct {
		name string
		n    int
		kind types.BasicKind
	}{{"NormalizeRGB", 3, types.Uint8}, {"NormalizeRGBA", 4, types.Uint8}, {"NormalizeRGB64", 3, types.Uint16}, {"NormalizeRGBA64", 4, types.Uint16}} {
		c := c
		fn := r.P.Func("", c.name)
		if fn == nil || len(fn.Params) != 1 {
			continue
		}
		e.Contracts[fn] = func(x *X, args []Value) Value {
			a, ok := args[0].(ArrayV)
			if !ok || len(a.E) != c.n {
				x.undecided("unknown color")
				return x.fresh(fn.Signature.Results().At(0).Type(), "color")
			}
			out := ArrayV{T: fn.Signature.Results().At(0).Type()}
			for k, v := range a.E {
				out.E = append(out.E, colorChannel(v, k < 3, c.kind))
			}
			return out
		}
	}
}

// colorChannel is a channel of a color as an integer.
func colorChannel(v Value, color bool, kind types.BasicKind) IntV {
	op := "scaled"
	if color {
		op = "srgb"
	}
	return IntV{PVar(mkTerm(op, SInt, types.Typ[kind], argOf(v))), types.Typ[kind]}
}

// typedContent compares the result of a typed reader with what ReadAccessor
// returned.
func (r *Report) typedContent(p *readPath, t typedReader) {
	x, n := p.x, p.n
	ev, many := contractEv(p.o.st.ev.list(), "ReadAccessor")
	if ev == nil && hasEv(p.o.st.ev.list(), "contracterr", "ReadAccessor") {
		r.Check(false, "error", n.what, p.pos, "no error although the accessor can't be read", statePath(x.st))
		return
	}
	if ev == nil || many {
		r.Undec(n.what + ": doesn't call ReadAccessor once")
		return
	}
	acr, ok := ev.Args[2].(PtrV)
	src, ok2 := ev.Args[4].(SliceV)
	if !ok || !ok2 {
		x.undecided("unknown call of ReadAccessor")
		return
	}
	if !(acr.Obj == n.acr.Obj && len(acr.Path) == 0) {
		box, ok := ev.Args[3].(BoxV)
		if !ok || !x.sameAccessor(box.V, x.load(n.acr)) {
			r.Undec(n.what + ": reads another accessor")
			return
		}
	}
	s := x.sliceOf(p.o.ret[0])
	count, ok := x.field(n.acr, "Count").(IntV)
	if !ok {
		x.undecided("unknown accessor")
		return
	}
	r.expectEq(x, s.Len.Sub(count.P), "length", n.what+": length", p.pos, fmt.Sprintf("the result has %s elements, not as many as the accessor's count", s.Len))
	i := x.skolem("i", count.P)
	if s.Base.Obj == nil {
		return
	}
	got := x.seqAt(x.arrayOf(s), s.Off.Add(i))
	want := elemOf(src.Base.Obj.Term, src.Off.Add(i), p.t.elem)
	dst := p.t
	dst.kind = types.Typ[t.to]
	color := t.name == "ReadColor" || t.name == "ReadColor64"
	if color {
		dst.rows = 4
	}
	for c := 0; c < dst.cols; c++ {
		for w := 0; w < dst.rows; w++ {
			g, ok := dst.part(got, w, c)
			if !ok {
				x.undecided("unknown element")
				return
			}
			name := compName(dst, w, c)
			if w >= p.t.rows { // Alpha of a color without it.
				v, ok := g.(IntV)
				if !ok {
					x.undecided("unknown alpha")
					return
				}
				r.expectEq(x, v.P.Sub(PInt(1<<(8*uint(types.SizesFor("gc", "amd64").Sizeof(dst.kind)))-1)), "convert", n.what+": "+name, p.pos, "alpha isn't the maximum")
				continue
			}
			v, _ := p.t.part(want, w, c)
			p.converted(g, v, want, color && w < 3, n.what+": "+name, dst.kind)
		}
	}
}

func (x *X) sameAccessor(a, b Value) bool {
	p, ok1 := a.(StructV)
	q, ok2 := b.(StructV)
	if !ok1 || !ok2 || len(p.F) != len(q.F) {
		return false
	}
	st, ok := p.T.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := range p.F {
		switch st.Field(i).Name() {
		case "ComponentType", "Type", "Count", "ByteOffset", "BufferView", "Sparse":
			if vkey(p.F[i]) != vkey(q.F[i]) {
				return false
			}
		}
	}
	return true
}

// terms lists the component terms of an element.
func compTerms(v Value) map[*Term]bool {
	m := map[*Term]bool{}
	var walk func(v Value)
	walk = func(v Value) {
		switch v := v.(type) {
		case ArrayV:
			for _, e := range v.E {
				walk(e)
			}
		case IntV:
			for _, ms := range v.P.ms {
				for _, t := range ms.vs {
					m[t] = true
				}
			}
		case FloatV:
			m[v.T] = true
		}
	}
	walk(v)
	return m
}

// converted checks that got is the conversion of want, a component of the
// element from.
func (p *readPath) converted(got, want, from Value, srgb bool, construct string, kind *types.Basic) {
	x, r := p.x, p.r
	own := compTerms(want)
	all := compTerms(from)
	bits := func(v Value) Arg {
		switch v := v.(type) {
		case IntV:
			return x.st.F.Norm(v.P)
		case FloatV:
			return x.st.F.NormT(v.T)
		}
		return Lit("?")
	}
	foreign, depends := false, false
	var walk func(a Arg)
	walk = func(a Arg) {
		switch a := a.(type) {
		case *Poly:
			for _, m := range a.ms {
				for _, v := range m.vs {
					walk(v)
				}
			}
		case *Term:
			switch {
			case own[a]:
				depends = true
			case all[a] || a.Op == "elem":
				foreign = true
			default:
				for _, u := range a.Args {
					walk(u)
				}
			}
		}
	}
	walk(bits(got))
	if !r.Check(!foreign && depends, "channel", construct, p.pos, "the component isn't a conversion of the one stored at the same place: "+valString(got), statePath(x.st)) {
		return
	}
	switch w := want.(type) {
	case IntV:
		sbits := uint(8 * types.SizesFor("gc", "amd64").Sizeof(w.T))
		switch g := got.(type) {
		case IntV:
			dbits := uint(8 * types.SizesFor("gc", "amd64").Sizeof(kind))
			color := kind.Kind() == types.Uint8 || p.n.name == "ReadColor64"
			switch {
			case !color || dbits == sbits:
				r.expectEq(x, g.P.Sub(w.P), "convert", construct, p.pos, "the component isn't copied: "+g.P.String())
			case dbits > sbits:
				r.expectEq(x, g.P.Sub(w.P.ScaleI(257)), "convert", construct, p.pos, "the component isn't scaled to 16 bits: "+g.P.String())
			default:
				d := g.P.ScaleI(257).Sub(w.P)
				if v, ok := x.eval(bEq(g.P.Sub(Mod(w.P, big.NewInt(256))))); ok && v {
					r.Check(false, "low-byte", construct, p.pos, "the low byte of the component is kept in place of scaling it to 8 bits", statePath(x.st))
					return
				}
				r.expectGe(x, PInt(257).Add(d), "convert", construct, p.pos, "the component isn't scaled to 8 bits")
				r.expectGe(x, PInt(257).Sub(d), "convert", construct, p.pos, "the component isn't scaled to 8 bits")
			}
		case FloatV:
			f := normFloat(x, g.T)
			max := float64(int64(1)<<sbits - 1)
			k := w.P
			l, ok := f.scaleOf(k)
			if !ok {
				r.Undec(construct + ": conversion " + g.T.String())
				return
			}
			r.Check(nearly(l, 1/max), "convert", construct, p.pos, fmt.Sprintf("the component isn't divided by %g", max), statePath(x.st))
		}
	case FloatV:
		switch g := got.(type) {
		case FloatV:
			r.Check(x.st.F.NormT(g.T) == x.st.F.NormT(w.T), "convert", construct, p.pos, "the component isn't copied: "+g.T.String(), statePath(x.st))
		case IntV:
			c := colorChannel(w, srgb, kind.Kind())
			if eq, ok := x.eval(bEq(g.P.Sub(c.P))); ok && eq {
				r.OK("convert", construct)
			} else if containsFn(x.st.F.Norm(g.P), func(t *Term) bool { return t.Op == "srgb" || t.Op == "scaled" }) {
				r.Check(false, "convert", construct, p.pos, "another conversion of colors: "+g.P.String(), statePath(x.st))
			} else {
				r.Undec(construct + ": conversion " + g.P.String())
			}
		}
	}
}

func valString(v Value) string {
	switch v := v.(type) {
	case IntV:
		return v.P.String()
	case FloatV:
		return v.T.String()
	}
	return "unknown"
}

// ---- R04

func init() {
	register("R04", checkDef{run: checkR04,
		explain: "Every reader is interpreted for each combination of component and accessor type it accepts, and for one it doesn't, with a symbolic document, accessor and reused buffer. Rules: alias (the returned slice shares memory only with the caller's buffer, followed through the slices that the contracts make over buffers), pool (on every path each buffer got from a pool is put back exactly once), after (memory of a pool isn't read or written after it is put back), unchanged (no memory reachable from the document or the accessor is written), global (no package variable is written).",
		assume:  []string{"the caller's buffer doesn't share memory with the document"}})
}

func checkR04(r *Report) {
	run := func(name, comp, acc string, restrict func(x *X, n *readRun)) {
		what := "modeler." + name + " of " + comp + " " + acc
		r.guardFor(60*time.Second, what, func() {
			n := r.readRun(name, comp+" "+acc, restrict)
			if n == nil {
				return
			}
			r.shares(n)
		})
	}
	for c := range binComps {
		for a := range binAccs {
			t := binTypeOf(c, a)
			if !binSkip(t.comp, t.acc) {
				run("ReadAccessor", t.comp, t.acc, r.accessorOf(t.comp, t.acc))
			}
		}
	}
	for c := range binComps {
		for a := range binAccs {
			t := binTypeOf(c, a)
			if !binSkip(t.comp, t.acc) {
				r.guardFor(60*time.Second, "binary.MakeSliceBuffer of "+t.comp+" "+t.acc, func() { r.sliceAlias(t) })
			}
		}
	}
	for _, t := range typedReaders {
		for _, c := range t.comps {
			for _, a := range t.accs {
				run(t.name, c, a, r.accessorOf(c, a))
			}
		}
		run(t.name, "any", "type", func(x *X, n *readRun) {})
	}
	r.guard("modeler.ReadBufferView", func() {
		fn := r.fn("modeler", "ReadBufferView")
		if fn == nil {
			return
		}
		e := r.engine()
		st := e.Base.clone()
		outs := e.fn(st, fn, []Value{nonNil(st, pointee(fn.Params[0].Type()), "doc"), symIn(fn.Params[1].Type(), "bv")}, nil)
		r.absorb(e)
		for _, o := range outs {
			if !o.panic {
				r.on(e, o.st, fn, func(x *X) { r.unchanged(x, st, "modeler.ReadBufferView", posOf(r.P, fn)) })
			}
		}
	})
}

// unchanged checks that only fresh memory and that of the buffer were written.
func (r *Report) unchanged(x *X, base *State, what, pos string, except ...*Term) {
	var globals []string
	for o, c := range x.st.heap {
		if o.Term.Op == "global" && c.key() != baseContent(o).key() {
			if b, ok := base.heap[o]; !ok || b.key() != c.key() {
				globals = append(globals, o.Term.String())
			}
		}
	}
	sort.Strings(globals)
	r.Check(len(globals) == 0, "global", what, pos, fmt.Sprint("package variables are written: ", globals), statePath(x.st))
	l := x.changed(base, func(o *Obj) bool {
		for _, e := range except {
			if o.Term == e {
				return false
			}
		}
		return !rooted(o.Term, "pooled")
	})
	r.Check(len(l) == 0, "unchanged", what, pos, fmt.Sprint("memory of the document or the accessor is written: ", l), statePath(x.st))
}

// rooted tells whether the object is, or is reached from, an object with the
// operator.
func rooted(t *Term, op string) bool {
	return containsFn(t, func(u *Term) bool { return u.Op == op })
}

// shares checks the memory that a reader uses and returns.
func (r *Report) shares(n *readRun) {
	pos := posOf(r.P, n.fn)
	var buf *Term
	if n.buf.Base.Obj != nil {
		buf = n.buf.Base.Obj.Term
	}
	n.e.deepPick = true
	for _, o := range n.outs {
		if o.panic {
			continue
		}
		evs := o.st.ev.list()
		path := func() []string { return statePath(o.st) }
		if msg := poolBalance(evs); msg != "" {
			r.Check(false, "pool", n.what, pos, msg, path())
		} else {
			r.OK("pool", n.what)
		}
		r.on(n.e, o.st, n.fn, func(x *X) {
			r.unchanged(x, n.base, n.what, pos, buf)
			released := map[*Obj]bool{}
			for _, ev := range evs {
				if ev.Kind == "poolput" {
					valueObjs(ev.Args[1], func(q *Obj) { released[q] = true })
				}
			}
			after := ""
			for q := range released {
				if c, ok := x.st.heap[q].(*SeqC); ok && (len(c.W) > 0 || c.Base == nil || c.Base.Op != "released") && q.Term != buf {
					after = q.Term.String()
				}
			}
			r.Check(after == "", "after", n.what, pos, "memory of a pool is used after it's put back: "+after, path())
			if isNil, known := x.errKnown(o.ret[len(o.ret)-1]); known && !isNil {
				return
			}
			v := o.ret[0]
			if i, ok := v.(IfaceV); ok {
				if i.T != nil {
					x.undecided("unknown result")
					return
				}
				if v = i.Val; v == nil {
					return
				}
			}
			s, ok := v.(SliceV)
			if !ok {
				x.undecided("unknown result")
				return
			}
			if s.Base.Obj == nil {
				return
			}
			work, seen := []*Obj{s.Base.Obj}, map[*Obj]bool{}
			for len(work) > 0 {
				q := work[0]
				work = work[1:]
				if seen[q] {
					continue
				}
				seen[q] = true
				for _, ev := range evs {
					if ev.Kind == "backing" {
						a, _ := ev.Args[0].(SliceV)
						b, _ := ev.Args[1].(SliceV)
						if a.Base.Obj == q && b.Base.Obj != nil {
							work = append(work, b.Base.Obj)
						}
					}
				}
				msg := ""
				switch {
				case q.Term == buf:
					if released[q] {
						msg = "the caller's buffer is put in a pool"
					}
				case released[q]:
					msg = "the result shares memory with a pool"
				case rooted(q.Term, "pooled"):
					msg = "the result shares memory with a pool"
				case q.Fresh():
				case q.Term.Op == "galloc" || rooted(q.Term, "global"):
					msg = "the result shares memory with a package variable"
				default:
					msg = "the result shares memory with the document: " + q.Term.String()
				}
				r.Check(msg == "", "alias", n.what, pos, msg, path())
			}
			if c, ok := x.st.heap[s.Base.Obj].(*SeqC); ok {
				stale := false
				var look func(w []SWrite)
				look = func(w []SWrite) {
					for _, q := range w {
						if q.V != nil && containsFn(argOf(q.V), func(t *Term) bool { return t.Op == "released" }) {
							stale = true
						}
						if q.Src != nil && q.Src.Base != nil && q.Src.Base.Op == "released" {
							stale = true
						}
						for _, a := range q.Alts {
							look(a)
						}
					}
				}
				look(c.W)
				r.Check(!stale, "after", n.what+": content", pos, "the result has content of memory that was put back in a pool", path())
			}
		})
	}
}

// poolBalance checks that the buffers got from pools are put back once.
func poolBalance(evs []*Ev) string {
	n := map[string]int{}
	got := map[*Obj]int{}
	put := map[*Obj]int{}
	for _, ev := range evs {
		switch ev.Kind {
		case "poolget":
			n[vkey(ev.Args[0])]++
			if len(ev.Args) > 1 {
				if p, ok := ev.Args[1].(PtrV); ok {
					got[p.Obj]++
				}
			}
		case "poolput":
			n[vkey(ev.Args[0])]--
			if b, ok := ev.Args[1].(BoxV); ok {
				put[b.P.Obj]++
			}
		}
		for _, a := range ev.Alts {
			if msg := poolBalance(a); msg != "" {
				return msg
			}
		}
	}
	for _, k := range n {
		if k > 0 {
			return "a buffer got from a pool isn't put back"
		}
		if k < 0 {
			return "a buffer is put in a pool more often than got from it"
		}
	}
	for o, k := range put {
		if k > 1 {
			return "a buffer is put back in a pool twice"
		}
		_ = o
	}
	return ""
}

// release forgets the content of memory that is put in a pool, and of the
// slices that are made over it.
func (x *X) release(v Value) {
	if b, ok := v.(BoxV); ok {
		v = b.V
	}
	s, ok := v.(SliceV)
	if !ok || s.Base.Obj == nil || len(s.Base.Path) > 0 {
		return
	}
	work, seen := []*Obj{s.Base.Obj}, map[*Obj]bool{}
	evs := x.st.ev.list()
	for len(work) > 0 {
		q := work[0]
		work = work[1:]
		if seen[q] || q.Kind != OSeq {
			continue
		}
		seen[q] = true
		x.st.put(q, &SeqC{Elem: s.Elem, Base: mkTerm("released", SRef, nil, q.Term)})
		for _, ev := range evs {
			if ev.Kind == "backing" {
				a, _ := ev.Args[0].(SliceV)
				b, _ := ev.Args[1].(SliceV)
				if a.Base.Obj != nil && b.Base.Obj == q {
					work = append(work, a.Base.Obj)
				}
			}
		}
	}
}

// binSkip selects a type when debugging.
func binSkip(comp, acc string) bool {
	d := os.Getenv("GC_TYPE")
	return d != "" && d != comp+" "+acc && !strings.HasPrefix(d, "[]")
}

// sliceAlias proves that the slices of MakeSliceBuffer share memory with
// nothing but the buffer.
func (r *Report) sliceAlias(t binType) {
	fn := r.fn("binary", "MakeSliceBuffer")
	cv, ok1 := r.codeOf(t.comp)
	av, ok2 := r.codeOf(t.acc)
	if fn == nil || !ok1 || !ok2 || len(fn.Params) != 4 {
		return
	}
	e := r.engine()
	st := e.Base.clone()
	buf, _ := symIn(fn.Params[3].Type(), "buffer").(SliceV)
	outs := e.fn(st, fn, []Value{cv, av, symIn(tInt, "count"), buf}, nil)
	r.absorb(e)
	what, pos := "binary.MakeSliceBuffer of "+t.comp+" "+t.acc, posOf(r.P, fn)
	for _, o := range outs {
		if o.panic {
			continue
		}
		r.on(e, o.st, fn, func(x *X) {
			r.unchanged(x, st, what, pos, buf.Base.Obj.Term)
			i, ok := o.ret[0].(IfaceV)
			if isNil, known := x.errKnown(o.ret[1]); known && !isNil {
				return
			}
			if !ok || i.T != nil {
				x.undecided("unknown result")
				return
			}
			s, ok := i.Val.(SliceV)
			if !ok || s.Base.Obj == nil {
				return
			}
			q := s.Base.Obj
			under := q.Term
			for under.Op == "reinterp" {
				t, ok := under.Args[0].(*Term)
				if !ok {
					break
				}
				under = t
			}
			r.Check(under == buf.Base.Obj.Term || q.Fresh() && !rooted(q.Term, "pooled") && !rooted(q.Term, "global") && q.Term.Op != "galloc", "alias", what, pos, "the result shares memory with "+q.Term.String(), statePath(x.st))
		})
	}
}
