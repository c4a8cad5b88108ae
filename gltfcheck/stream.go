package main

import (
	"go/types"
)

// Input streams. A reader is identified by its object; its position and the
// number of bytes known to be buffered are ghost cells.

func readerTerm(v Value) *Term {
	switch a := v.(type) {
	case IfaceV:
		if a.T != nil {
			return a.T
		}
		return readerTerm(a.Val)
	case PtrV:
		if t, ok := argOf(a).(*Term); ok {
			return t
		}
	case StructV:
		if t, ok := argOf(a).(*Term); ok {
			return t
		}
	}
	return mkTerm("unknownreader", SRef, nil)
}

func readerKind(v Value) string {
	switch a := v.(type) {
	case IfaceV:
		if a.T == nil && a.Dyn != nil {
			return typeKey(a.Dyn)
		}
	case PtrV:
		return "*" + typeKey(a.Elem)
	}
	return ""
}

func readerPtr(v Value) PtrV {
	switch a := v.(type) {
	case IfaceV:
		p, _ := a.Val.(PtrV)
		return p
	case PtrV:
		return a
	}
	return PtrV{}
}

func (x *X) ghostInt(kind string, t *Term) (*Obj, *Poly) {
	o := ghost(kind, t, tInt)
	if _, ok := x.st.heap[x.st.norm(o)]; !ok {
		x.st.put(o, newCell(goIntC(0)))
	}
	return o, x.get(o).(CellC).V.(IntV).P
}

func (x *X) setGhost(kind string, t *Term, p *Poly) {
	x.st.put(ghost(kind, t, tInt), newCell(goInt(p)))
}

// limited returns the fields of an *io.LimitedReader.
func (x *X) limited(v Value) (r Value, n *Poly, p PtrV) {
	p = readerPtr(v)
	s, ok := x.load(p).(StructV)
	if !ok || len(s.F) != 2 {
		return v, &Poly{}, p
	}
	return s.F[0], s.F[1].(IntV).P, p
}

// avail is a lower bound of the bytes that can be read without an error.
func (x *X) avail(v Value) *Poly {
	t := readerTerm(v)
	switch readerKind(v) {
	case "*bytes.Reader":
		_, pos := x.ghostInt("pos", t)
		_, n := x.ghostInt("len", t)
		return n.Sub(pos)
	case "*bufio.Reader":
		_, n := x.ghostInt("peeked", t)
		return n
	case "*io.LimitedReader":
		r, n, _ := x.limited(v)
		a := x.avail(r)
		if x.st.F.Entails(n.Sub(a)) {
			return a
		}
		if x.st.F.Entails(a.Sub(n)) {
			return n
		}
	}
	return &Poly{}
}

// advance consumes n bytes of the stream and returns where they are.
func (x *X) advance(v Value, n *Poly) (*SeqC, *Poly) {
	t := readerTerm(v)
	switch readerKind(v) {
	case "*io.LimitedReader":
		r, left, p := x.limited(v)
		x.store(fieldPtr(p, 1), IntV{left.Sub(n), types.Typ[types.Int64]})
		return x.advance(r, n)
	case "*bytes.Reader":
		_, pos := x.ghostInt("pos", t)
		x.setGhost("pos", t, pos.Add(n))
		if c, ok := x.st.heap[ghostData(t)].(*SeqC); ok {
			return c, pos
		}
		return &SeqC{Elem: tByte, Base: mkTerm("stream", SRef, nil, t)}, pos
	}
	_, pos := x.ghostInt("pos", t)
	_, pk := x.ghostInt("peeked", t)
	x.setGhost("pos", t, pos.Add(n))
	if x.st.F.Entails(pk.Sub(n)) {
		x.setGhost("peeked", t, pk.Sub(n))
	} else {
		x.setGhost("peeked", t, &Poly{})
	}
	return &SeqC{Elem: tByte, Base: mkTerm("stream", SRef, nil, t)}, pos
}

func ghostData(t *Term) *Obj { return mkObj(mkTerm("ghostdata", SRef, nil, t), tByte, OSeq) }

func fieldPtr(p PtrV, i int) PtrV {
	return PtrV{Obj: p.Obj, Path: append(p.Path[:len(p.Path):len(p.Path)], PE{Field: i}), Elem: fieldType(p.Elem, i)}
}

// someInt is an unknown integer in [lo, hi].
func (x *X) someInt(tag string, lo, hi *Poly) *Poly {
	t := x.freshTerm(tag, SInt)
	if t.Lo == nil {
		t.Lo = lo.Const()
		t.Hi = maxLen
	}
	p := PVar(t)
	x.assume(bGe(p.Sub(lo)))
	if hi != nil {
		x.assume(bGe(hi.Sub(p)))
	}
	return p
}

// lose makes the position of the stream unknown.
func (x *X) lose(v Value) {
	x.advance(v, x.someInt("consumed", &Poly{}, nil))
}

// readFull reads exactly n bytes; ok tells whether it succeeded.
func (x *X) readFull(v Value, n *Poly, kind string) (c *SeqC, off *Poly, e IfaceV, ok bool) {
	if x.st.F.Entails(x.avail(v).Sub(n)) {
		c, off = x.advance(v, n)
		x.ev("read", v, goInt(off), goInt(n))
		return c, off, noErr, true
	}
	e, ok = x.fallible(kind, v)
	if !ok {
		x.lose(v)
		return nil, nil, e, false
	}
	if readerKind(v) == "*io.LimitedReader" {
		_, left, _ := x.limited(v)
		x.assume(bGe(left.Sub(n)))
	}
	if readerKind(v) == "*bytes.Reader" {
		x.assume(bGe(x.avail(v).Sub(n)))
	}
	c, off = x.advance(v, n)
	x.ev("read", v, goInt(off), goInt(n))
	return c, off, noErr, true
}

// readAll reads everything left.
func (x *X) readAll(v Value, kind string) (SliceV, IfaceV) {
	e, ok := x.fallible(kind, v)
	if !ok {
		x.lose(v)
		return x.fresh(types.NewSlice(tByte), "all").(SliceV), e
	}
	var n *Poly
	switch readerKind(v) {
	case "*bytes.Reader":
		n = x.avail(v)
	case "*io.LimitedReader":
		_, left, _ := x.limited(v)
		n = x.someInt("readall", &Poly{}, left)
		_, under, _ := x.limited(v)
		_ = under
	default:
		n = x.someInt("readall", &Poly{}, nil)
	}
	c, off := x.advance(v, n)
	x.ev("read", v, goInt(off), goInt(n))
	return x.byteSliceOf(c, off, n, "all"), noErr
}

func (x *X) sizeOfData(v Value) *Poly {
	switch a := v.(type) {
	case IfaceV:
		if a.T == nil {
			return x.sizeOfData(a.Val)
		}
	case PtrV:
		if a.Elem != nil {
			return x.sizeOfData(zeroValue(a.Elem))
		}
	case SliceV:
		if n := x.sizeOfData(zeroValue(a.Elem)); n != nil {
			return a.Len.Mul(n)
		}
	case IntV:
		if a.T.Kind() == types.Int || a.T.Kind() == types.Uint {
			return nil
		}
		n, _ := intBits(a.T)
		return PInt(int64(n / 8))
	case FloatV:
		return PInt(int64(a.Bits / 8))
	case BoolV:
		return PInt(1)
	case StructV:
		r := &Poly{}
		for _, f := range a.F {
			n := x.sizeOfData(f)
			if n == nil {
				return nil
			}
			r = r.Add(n)
		}
		return r
	case ArrayV:
		r := &Poly{}
		for _, f := range a.E {
			n := x.sizeOfData(f)
			if n == nil {
				return nil
			}
			r = r.Add(n)
		}
		return r
	}
	return nil
}

// dataBytes are the bytes of the fixed-size value.
func dataBytes(v Value, little bool, out *[]Value) bool {
	u8 := types.Typ[types.Uint8]
	put := func(p *Poly, n int) {
		bs := make([]Value, n)
		for k := 0; k < n; k++ {
			b := IntV{Mod(FDiv(p, pow2(uint(8*k))), pow2(8)), u8}
			if k == n-1 {
				b = IntV{FDiv(p, pow2(uint(8*k))), u8}
			}
			if little {
				bs[k] = b
			} else {
				bs[n-1-k] = b
			}
		}
		*out = append(*out, bs...)
	}
	switch a := v.(type) {
	case IntV, FloatV:
		p := bitsOf(a)
		if p == nil {
			return false
		}
		n := 8
		if i, ok := a.(IntV); ok {
			b, _ := intBits(i.T)
			n = int(b / 8)
		} else {
			n = a.(FloatV).Bits / 8
		}
		put(p, n)
		return true
	case StructV:
		for _, f := range a.F {
			if !dataBytes(f, little, out) {
				return false
			}
		}
		return true
	case ArrayV:
		for _, f := range a.E {
			if !dataBytes(f, little, out) {
				return false
			}
		}
		return true
	}
	return false
}

func isLittle(order Value) bool {
	i, ok := order.(IfaceV)
	return ok && i.T == nil && typeKey(i.Dyn) == "encoding/binary.littleEndian"
}

// fromBytes composes a value of type t from bytes.
func (x *X) fromBytes(t types.Type, next func() *Poly, little bool) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		n := int(x.e.P.Sizes.Sizeof(t))
		sum := &Poly{}
		for k := 0; k < n; k++ {
			sh := k
			if !little {
				sh = n - 1 - k
			}
			sum = sum.Add(next().Scale(pow2(uint(8 * sh))))
		}
		if u.Info()&(types.IsInteger|types.IsFloat) != 0 {
			return fromBits(sum, t)
		}
	case *types.Struct:
		r := StructV{T: t}
		for i := 0; i < u.NumFields(); i++ {
			r.F = append(r.F, x.fromBytes(u.Field(i).Type(), next, little))
		}
		return r
	case *types.Array:
		if u.Len() <= maxArr {
			r := ArrayV{T: t}
			for i := int64(0); i < u.Len(); i++ {
				r.E = append(r.E, x.fromBytes(u.Elem(), next, little))
			}
			return r
		}
	}
	return x.fresh(t, "frombytes")
}

func (x *X) newReader(typ types.Type, tag string) PtrV {
	return x.newCell(typ, tag)
}

func init() {
	reg(func(x *X, a []Value) Value {
		p := x.newReader(x.e.stdType("bufio", "Reader"), "bufio")
		x.setGhost("pos", p.Obj.Term, &Poly{})
		x.setGhost("peeked", p.Obj.Term, &Poly{})
		x.st.put(ghost("under", p.Obj.Term, types.NewInterfaceType(nil, nil)), newCell(a[0]))
		return p
	}, "bufio.NewReader", "bufio.NewReaderSize")
	reg(func(x *X, a []Value) Value {
		p := x.newReader(x.e.stdType("bytes", "Reader"), "bytesreader")
		s := x.sliceOf(a[0])
		c, off := x.seqOf(s)
		x.setGhost("pos", p.Obj.Term, off)
		x.setGhost("len", p.Obj.Term, off.Add(s.Len))
		x.st.put(ghostData(p.Obj.Term), c)
		return p
	}, "bytes.NewReader")
	reg(func(x *X, a []Value) Value {
		n := x.intOf(a[1])
		t := readerTerm(a[0])
		x.oblige(bGe(n), "panic", "Peek with a negative count")
		if x.st.F.Entails(x.avail(a[0]).Sub(n)) {
			// already buffered
		} else {
			switch x.choose(3) {
			case 1:
				x.ev("fallible", strConst("peek:EOF"), stdVar("io.EOF"))
				m := x.someInt("peeklen", &Poly{}, n.AddI(-1))
				return TupleV{x.byteSlice(mkTerm("stream", SRef, nil, t), m, "peek"), stdVar("io.EOF")}
			case 2:
				e := IfaceV{T: x.freshTerm("error:peek", SRef)}
				x.assume(x.isNil(e).not())
				x.assume(x.equal(e, stdVar("io.EOF")).not())
				x.ev("fallible", strConst("peek"), e)
				m := x.someInt("peeklen", &Poly{}, n.AddI(-1))
				return TupleV{x.byteSlice(mkTerm("stream", SRef, nil, t), m, "peek"), e}
			}
			x.ghostInt("peeked", t)
			x.setGhost("peeked", t, n)
		}
		_, pos := x.ghostInt("pos", t)
		return TupleV{x.byteSliceOf(&SeqC{Elem: tByte, Base: mkTerm("stream", SRef, nil, t)}, pos, n, "peek"), noErr}
	}, "(*bufio.Reader).Peek")
	read := func(x *X, a []Value) Value {
		s := x.sliceOf(a[1])
		if x.st.F.Entails(x.avail(a[0]).Sub(s.Len)) {
			c, off := x.advance(a[0], s.Len)
			x.ev("read", a[0], goInt(off), goInt(s.Len))
			x.copyTo(s, s.Off, c, off, s.Len)
			return TupleV{goInt(s.Len), noErr}
		}
		e, _ := x.fallible("read", a[0])
		n := x.someInt("nread", &Poly{}, s.Len)
		c, off := x.advance(a[0], n)
		x.ev("read", a[0], goInt(off), goInt(n))
		x.copyTo(s, s.Off, c, off, n)
		return TupleV{goInt(n), e}
	}
	reg(read, "(*bufio.Reader).Read", "(*bytes.Reader).Read", "(*io.LimitedReader).Read")
	reg(func(x *X, a []Value) Value {
		n := x.intOf(a[1])
		_, _, e, ok := x.readFull(a[0], n, "discard")
		if ok {
			return TupleV{goInt(n), noErr}
		}
		return TupleV{goInt(x.someInt("discarded", &Poly{}, n)), e}
	}, "(*bufio.Reader).Discard")
	reg(func(x *X, a []Value) Value {
		s := x.sliceOf(a[1])
		c, off, e, ok := x.readFull(a[0], s.Len, "io.ReadFull")
		if !ok {
			x.havocArg(s)
			return TupleV{goInt(x.someInt("nread", &Poly{}, s.Len)), e}
		}
		x.copyTo(s, s.Off, c, off, s.Len)
		return TupleV{goInt(s.Len), noErr}
	}, "io.ReadFull")
	reg(func(x *X, a []Value) Value {
		s := x.sliceOf(a[1])
		min := x.intOf(a[2])
		x.assume(bGe(s.Len.Sub(min)))
		c, off, e, ok := x.readFull(a[0], min, "io.ReadAtLeast")
		if !ok {
			x.havocArg(s)
			return TupleV{goInt(x.someInt("nread", &Poly{}, s.Len)), e}
		}
		x.copyTo(s, s.Off, c, off, min)
		extra := x.someInt("extra", &Poly{}, s.Len.Sub(min))
		c, off = x.advance(a[0], extra)
		x.copyTo(s, s.Off.Add(min), c, off, extra)
		return TupleV{goInt(min.Add(extra)), noErr}
	}, "io.ReadAtLeast")
	reg(func(x *X, a []Value) Value {
		s, e := x.readAll(a[0], "io.ReadAll")
		return TupleV{s, e}
	}, "io.ReadAll")
	copyN := func(x *X, dst, src Value) Value {
		// Reading to the end of a limited reader consumes what is left of it.
		if readerKind(src) == "*io.LimitedReader" {
			r, left, p := x.limited(src)
			_ = r
			_ = p
			e, ok := x.fallible("io.Copy", src)
			if !ok {
				x.lose(src)
				return TupleV{IntV{x.someInt("ncopied", &Poly{}, left), types.Typ[types.Int64]}, e}
			}
			// Past the end of the underlying stream nothing can be read, so
			// that its position may be considered to be after the limit.
			c, off := x.advance(src, left)
			x.ev("read", src, goInt(off), goInt(left))
			s := SliceV{Off: off, Len: left, Cap: left, Elem: tByte}
			if i, ok := dst.(IfaceV); !ok || i.T == nil || i.T.Op != "stdvar" {
				x.writeOut(dst, SnapV{s, c, off})
			}
			return TupleV{IntV{left, types.Typ[types.Int64]}, noErr}
		}
		s, e := x.readAll(src, "io.Copy")
		if i, ok := dst.(IfaceV); !ok || i.T == nil || i.T.Op != "stdvar" {
			x.writeOut(dst, x.snap(s))
		}
		return TupleV{IntV{s.Len, types.Typ[types.Int64]}, e}
	}
	reg(func(x *X, a []Value) Value { return copyN(x, a[0], a[1]) }, "io.Copy")
	reg(func(x *X, a []Value) Value {
		return copyN(x, IfaceV{Dyn: types.NewPointer(x.e.stdType("bytes", "Buffer")), Val: a[0]}, a[1])
	}, "(*bytes.Buffer).ReadFrom")
	reg(func(x *X, a []Value) Value {
		n := x.intOf(a[2])
		c, off, e, ok := x.readFull(a[1], n, "io.CopyN")
		if !ok {
			return TupleV{IntV{x.someInt("ncopied", &Poly{}, n), types.Typ[types.Int64]}, e}
		}
		if i, ok := a[0].(IfaceV); !ok || i.T == nil || i.T.Op != "stdvar" {
			x.writeOut(a[0], SnapV{SliceV{Off: off, Len: n, Cap: n, Elem: tByte}, c, off})
		}
		return TupleV{IntV{n, types.Typ[types.Int64]}, noErr}
	}, "io.CopyN")
	reg(func(x *X, a []Value) Value {
		t := x.e.stdType("io", "LimitedReader")
		p := x.newCell(t, "limited")
		x.st.put(p.Obj, newCell(StructV{t, []Value{a[0], IntV{x.intOf(a[1]), types.Typ[types.Int64]}}}))
		return IfaceV{Dyn: types.NewPointer(t), Val: p}
	}, "io.LimitReader")
	reg(func(x *X, a []Value) Value {
		i, _ := a[2].(IfaceV)
		if s, ok := i.Val.(SliceV); ok && i.T == nil && isByte(s.Elem) {
			c, off, e, ok := x.readFull(a[0], s.Len, "binary.Read")
			if !ok {
				x.havocArg(s)
				return e
			}
			x.copyTo(s, s.Off, c, off, s.Len)
			return noErr
		}
		p, ok := i.Val.(PtrV)
		if !ok || i.T != nil || p.Obj == nil {
			x.undecided("binary.Read into unknown data")
			e, _ := x.fallible("binary.Read")
			x.havocArg(a[2])
			x.lose(a[0])
			return e
		}
		n := x.sizeOfData(p)
		if n == nil {
			x.undecided("binary.Read into data without a fixed size")
			n = x.someInt("size", &Poly{}, nil)
		}
		c, off, e, ok := x.readFull(a[0], n, "binary.Read")
		if !ok {
			return e
		}
		i0 := int64(-1)
		x.store(p, x.fromBytes(p.Elem, func() *Poly {
			i0++
			return x.intOf(x.seqAt(c, off.AddI(i0)))
		}, isLittle(a[1])))
		return noErr
	}, "encoding/binary.Read")
	reg(func(x *X, a []Value) Value {
		i, _ := a[2].(IfaceV)
		v := i.Val
		if p, ok := v.(PtrV); ok && i.T == nil && p.Obj != nil {
			v = x.load(p)
		}
		if s, ok := v.(SliceV); ok && isByte(s.Elem) {
			r := x.writeOut(a[0], x.snap(s)).(TupleV)
			return r[1]
		}
		var bs []Value
		if s, ok := v.(SliceV); ok && x.st.F.EntailsEq(s.Len) {
			var l []leaf
			if x.e.leaves(s.Elem, 0, &l) {
				r := x.writeOut(a[0], SnapV{SliceV{Off: &Poly{}, Len: &Poly{}, Cap: &Poly{}, Elem: tByte}, &SeqC{Elem: tByte}, &Poly{}}).(TupleV)
				return r[1]
			}
		}
		if i.T != nil || !dataBytes(v, isLittle(a[1]), &bs) {
			x.undecided("binary.Write of unknown data")
			e, _ := x.fallible("binary.Write")
			return e
		}
		c := &SeqC{Elem: tByte}
		for k, b := range bs {
			c.W = append(c.W, SWrite{Kind: WPoint, Idx: PInt(int64(k)), V: b})
		}
		n := PInt(int64(len(bs)))
		r := x.writeOut(a[0], SnapV{SliceV{Off: &Poly{}, Len: n, Cap: n, Elem: tByte}, c, &Poly{}}).(TupleV)
		return r[1]
	}, "encoding/binary.Write")
	reg(func(x *X, a []Value) Value {
		if n := x.sizeOfData(a[0]); n != nil {
			return goInt(n)
		}
		return goInt(PVar(x.freshTerm("size", SInt)))
	}, "encoding/binary.Size")
	reg(func(x *X, a []Value) Value {
		p := x.newCell(x.e.stdType("encoding/json", "Decoder"), "jsondec")
		x.st.put(ghost("under", p.Obj.Term, types.NewInterfaceType(nil, nil)), newCell(a[0]))
		return p
	}, "encoding/json.NewDecoder")
	reg(func(x *X, a []Value) Value {
		p := a[0].(PtrV)
		r := x.get(ghost("under", p.Obj.Term, types.NewInterfaceType(nil, nil))).(CellC).V
		t := readerTerm(r)
		var hi *Poly
		src := mkTerm("jsonstream", SStr, nil, t)
		if readerKind(r) == "*io.LimitedReader" {
			under, left, _ := x.limited(r)
			hi = left
			_, pos := x.ghostInt("pos", readerTerm(under))
			src = mkTerm("jsonstream", SStr, nil, readerTerm(under), pos, left)
		} else {
			_, pos := x.ghostInt("pos", t)
			src = mkTerm("jsonstream", SStr, nil, t, pos)
		}
		e := x.jsonInto("json.Decode", src, a[1])
		if hi != nil {
			n := x.someInt("jsonread", &Poly{}, hi)
			x.advance(r, n)
		} else {
			x.lose(r)
		}
		return e
	}, "(*encoding/json.Decoder).Decode")
	reg(func(x *X, a []Value) Value { return nil }, "(*encoding/json.Decoder).DisallowUnknownFields", "(*encoding/json.Decoder).UseNumber")
	reg(func(x *X, a []Value) Value {
		return x.writeOut(a[0], func() SnapV {
			c, off, n := x.source(a[1])
			return SnapV{SliceV{Off: off, Len: n, Cap: n, Elem: tByte}, c, off}
		}())
	}, "io.WriteString")
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// invokeMethod is a call of an interface method on a value of unknown type.
func (x *X) invokeMethod(m *types.Func, recv IfaceV, args []Value, sig *types.Signature) Value {
	if rt, ok := recv.Val.(ReflTypeV); ok && recv.T == nil {
		return x.reflType(m.Name(), rt.T, args, sig)
	}
	switch m.Name() {
	case "Error", "String":
		if sig.Params().Len() == 0 {
			return StrV{mkTerm("call:"+m.Name(), SStr, nil, argOf(recv))}
		}
	case "Write":
		if len(args) == 1 {
			if s, ok := args[0].(SliceV); ok {
				return x.writeOut(recv, x.snap(s))
			}
		}
	case "Close":
		if sig.Params().Len() == 0 {
			x.ev("close", recv)
			e, _ := x.fallible("close", recv)
			return e
		}
	case "Read":
		if len(args) == 1 {
			return intrinsics["(*bufio.Reader).Read"](x, []Value{recv, args[0]})
		}
	case "Create":
		if len(args) == 1 && sig.Results().Len() == 2 {
			x.ev("create", recv, args[0])
			e, ok := x.fallible("create", recv, args[0])
			if !ok {
				return TupleV{IfaceV{}, e}
			}
			h := IfaceV{T: x.freshTerm("handle", SRef)}
			x.assume(x.isNil(h).not())
			x.ev("open", strConst("create"), args[0], h)
			return TupleV{h, noErr}
		}
	case "Open":
		if len(args) == 1 && sig.Results().Len() == 2 {
			x.ev("readfile", strConst("fs.Open"), recv, args[0])
			e, ok := x.fallible("fs.Open", recv, args[0])
			if !ok {
				return TupleV{IfaceV{}, e}
			}
			h := IfaceV{T: x.freshTerm("handle", SRef)}
			x.assume(x.isNil(h).not())
			x.ev("open", strConst("fs.Open"), args[0], h)
			return TupleV{h, noErr}
		}
	}
	x.ev("invoke", append([]Value{strConst(m.FullName()), recv}, args...)...)
	return x.results(sig, "invoke:"+m.Name())
}
