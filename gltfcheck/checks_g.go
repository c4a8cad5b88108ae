package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

func init() {
	common := []string{
		"the standard library behaves as documented; a write that returns no error wrote everything",
		"encoding/json.Marshal writes the JSON of the value it is given (its members are checked by J02, J03 and E04)",
		"the document isn't nil, isn't modified meanwhile, and its arrays hold no nil pointers",
	}
	register("G01", checkDef{run: checkG01,
		explain: "All paths of Encoder.Encode are interpreted; the writes to the stream are concatenated to a symbolic byte sequence. Rules, on every successful path with AsBinary: header (magic, version, total length), json-chunk (type, length a multiple of 4, text of the document, padded with spaces), bin-chunk (present if and only if the first buffer has no URI; type, length, data of exactly the buffer, at most 3 zeros); format (what Save writes starts with the JSON, what SaveBinary writes with the magic).",
		assume:  common})
	register("E04", checkDef{run: checkE04,
		explain: "All paths of Encoder.Encode are interpreted on a symbolic document with any number of buffers; a buffer with a symbolic index is followed. Rules, on every successful path: listed (the JSON lists all the buffers in order), described (name, extras, extensions, declared length and URI are those of the buffer, or the data URI with all the data if it must be embedded), bin (the data of the first buffer is in the stream once if it belongs there), file (a buffer with a relative URI is created, written in full and only once), no-file (a buffer without data creates no file).",
		assume:  common})
}

// stream is the concatenation of what is written to one writer.
type outStream struct {
	c     *SeqC
	total *Poly
	offs  []*Poly
	snaps []SnapV
}

// streamOf concatenates the writes to the writer with the given key. It fails
// if there are writes in loops.
func streamOf(evs []*Ev, key string) (outStream, bool) {
	s := outStream{c: &SeqC{Elem: tByte}, total: &Poly{}}
	for _, ev := range evs {
		if ev.Loop != nil {
			for _, f := range flatEvents([]*Ev{ev}) {
				if f.Kind == "write" && handleKey(f.Args[0]) == key {
					return s, false
				}
			}
			continue
		}
		if ev.Kind != "write" || handleKey(ev.Args[0]) != key {
			continue
		}
		w, ok := ev.Args[1].(SnapV)
		if !ok {
			return s, false
		}
		s.offs = append(s.offs, s.total)
		s.snaps = append(s.snaps, w)
		s.c.W = append(s.c.W, SWrite{Kind: WCopy, Idx: s.total, N: w.S.Len, Src: w.C, SrcOff: w.Off})
		s.total = s.total.Add(w.S.Len)
	}
	return s, true
}

func (x *X) byteAt(s outStream, i *Poly) *Poly {
	if v, ok := x.seqAt(s.c, i).(IntV); ok {
		return v.P
	}
	x.undecided("a byte of the stream isn't a number")
	return nil
}

func (x *X) u32At(s outStream, i *Poly) *Poly {
	p := &Poly{}
	for k := int64(0); k < 4; k++ {
		p = p.Add(x.byteAt(s, i.AddI(k)).Scale(new(big.Int).Lsh(bigOne, uint(8*k))))
	}
	return x.settle(p)
}

// skolem is a new unknown index in [0, n).
func (x *X) skolem(name string, n *Poly) *Poly {
	i := PVar(mkInt("skolem", nil, nil, Lit(name)))
	x.assume(bGe(i))
	x.assume(bGe(n.Sub(i).AddI(-1)))
	return i
}

// field returns a field of the struct a pointer refers to.
func (x *X) field(p PtrV, name string) Value {
	s, ok := p.Elem.Underlying().(*types.Struct)
	if !ok {
		x.undecided("not a struct")
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return x.load(fieldPtr(p, i))
		}
	}
	x.undecided("no field " + name)
	return nil
}

// docSlice returns the slice of a field of the document.
func (x *X) docSlice(doc PtrV, name string) SliceV {
	return x.sliceOf(x.field(doc, name))
}

// elemPtr returns the pointer at index i of a slice of pointers.
func (x *X) elemPtr(s SliceV, i *Poly) PtrV {
	p, ok := x.elemAt(s, i).(PtrV)
	if !ok {
		x.undecided("not a pointer")
	}
	x.assume(x.isNil(p).not())
	return p
}

type encPath struct {
	n    *ioRun
	r    *Report
	o    Outcome
	evs  []*Ev
	key  string // of the stream
	what string
	pos  string
}

// encodes runs f for every successful path of Encode.
func (r *Report) encodes(f func(x *X, p *encPath)) {
	n := r.ioEntry("Encode", nil)
	if n == nil {
		return
	}
	ok := 0
	n.e.deepPick = true
	r.each(n, func(x *X, o Outcome, good bool) {
		if !good {
			return
		}
		ok++
		p := &encPath{n: n, r: r, o: o, evs: o.st.ev.list(), what: fnName(n.fn), pos: posOf(r.P, n.fn)}
		c := r.P.Func("", "NewEncoderFS")
		p.key = handleKey(symIn(c.Params[0].Type(), "stream"))
		f(x, p)
	})
	if ok == 0 {
		r.Undec("no successful path of " + fnName(n.fn))
	}
	r.samples = append(r.samples, fmt.Sprintf("%s: %d paths, %d successful cases", fnName(n.fn), len(n.outs), ok))
}

// binary tells whether the document is encoded as GLB.
func (p *encPath) binary(x *X) bool {
	self, ok := p.n.self.(PtrV)
	if !ok {
		x.undecided("encoder isn't a pointer")
	}
	b, ok := x.field(self, "AsBinary").(BoolV)
	if !ok {
		x.undecided("AsBinary isn't a boolean")
	}
	return x.decide(b)
}

func (p *encPath) check(x *X, b BoolV, rule, construct, msg string) {
	if b.P != nil {
		x.settle(b.P)
	}
	v, known := x.eval(b)
	if known && v {
		p.r.OK(rule, construct)
		return
	}
	if known {
		p.r.Fail(rule, construct, p.pos, msg, statePath(x.st))
		return
	}
	// Both outcomes look possible: split, to see whether one really is.
	y := &X{e: x.e, st: x.st.clone(), fr: x.fr}
	if y.st.assume(b, false) {
		p.r.Fail(rule, construct, p.pos, msg, statePath(y.st))
		return
	}
	p.r.OK(rule, construct)
}

// jsonOf returns the marshalled value and its text.
func (p *encPath) jsonOf(x *X) (IfaceV, *Term) {
	var v IfaceV
	var t *Term
	for _, ev := range p.evs {
		if ev.Kind == "marshal" {
			if t != nil {
				x.undecided("several values are marshalled")
			}
			v, _ = ev.Args[0].(IfaceV)
			t = ev.Args[1].(StrV).T
		}
	}
	if t == nil {
		x.undecided("nothing is marshalled")
	}
	return v, t
}

// isTextByte tells whether the byte v is the byte i of the text t.
func (x *X) isTextByte(v Value, t *Term, i *Poly) bool {
	w, ok := v.(IntV)
	if !ok {
		return false
	}
	return x.st.F.EntailsEq(w.P.Sub(elemOf(textBytes(t), i, tByte).(IntV).P)) || x.st.F.EntailsEq(w.P.Sub(strIndex(t, i).(IntV).P))
}

func checkG01(r *Report) {
	r.encodes(func(x *X, p *encPath) {
		if !p.binary(x) {
			return
		}
		s, ok := streamOf(p.evs, p.key)
		if !ok {
			x.undecided("the stream is written in a loop")
		}
		_, text := p.jsonOf(x)
		L := lenOfStr(text)
		want := func(off *Poly, str, rule, msg string) {
			for k := 0; k < len(str); k++ {
				p.check(x, bEq(x.byteAt(s, off.AddI(int64(k))).AddI(-int64(str[k]))), rule, p.what, msg)
			}
		}
		if !x.st.F.Entails(s.total.AddI(-20)) {
			r.Fail("header", p.what, p.pos, "less than a header and a chunk header are written", statePath(x.st))
			return
		}
		want(&Poly{}, "glTF", "header", "the output doesn't start with the magic")
		want(PInt(4), "\x02\x00\x00\x00", "header", "the version isn't 2")
		p.check(x, bEq(x.u32At(s, PInt(8)).Sub(s.total)), "header", p.what, "the length in the header isn't that of the output")
		jl := x.u32At(s, PInt(12))
		want(PInt(16), "JSON", "json-chunk", "the type of the first chunk isn't JSON")
		p.check(x, bEq(Mod(jl, big.NewInt(4))), "json-chunk", p.what, "the length of the JSON chunk isn't a multiple of 4")
		p.check(x, bGe(jl.Sub(L)), "json-chunk", p.what, "the JSON chunk is shorter than the JSON")
		p.check(x, bGe(s.total.Sub(jl).AddI(-20)), "json-chunk", p.what, "the JSON chunk is longer than the output")
		// The text, then spaces.
		r.on(p.n.e, x.st, p.n.fn, func(x *X) {
			i := x.skolem("json", L)
			if !x.isTextByte(x.seqAt(s.c, i.AddI(20)), text, i) {
				r.Fail("json-chunk", p.what, p.pos, "the JSON chunk doesn't hold the JSON of the document", statePath(x.st))
				return
			}
			r.OK("json-chunk", p.what)
		})
		r.on(p.n.e, x.st, p.n.fn, func(x *X) {
			i := x.skolem("pad", jl.Sub(L)).Add(L).AddI(20)
			b := x.byteAt(s, i)
			p.check(x, bEq(b.AddI(-32)), "json-chunk", p.what, "the JSON chunk isn't padded with spaces")
		})
		// The binary chunk.
		bufs := x.docSlice(p.n.doc, "Buffers")
		has := false
		var buf PtrV
		if x.decide(bGe(bufs.Len.AddI(-1))) {
			buf = x.elemPtr(bufs, &Poly{})
			has = x.decide(strEq(x.field(buf, "URI").(StrV), strConst("")))
		}
		at := jl.AddI(20)
		if !has {
			p.check(x, bEq(s.total.Sub(at)), "bin-chunk", p.what, "something follows the JSON chunk although the first buffer isn't stored in the file")
			return
		}
		if !x.st.F.Entails(s.total.Sub(at).AddI(-8)) {
			r.Fail("bin-chunk", p.what, p.pos, "there is no binary chunk although the first buffer has no URI", statePath(x.st))
			return
		}
		bl := x.u32At(s, at)
		want(at.AddI(4), "BIN\x00", "bin-chunk", "the type of the second chunk isn't BIN")
		p.check(x, bEq(Mod(bl, big.NewInt(4))), "bin-chunk", p.what, "the length of the binary chunk isn't a multiple of 4")
		p.check(x, bEq(s.total.Sub(at).AddI(-8).Sub(bl)), "bin-chunk", p.what, "the length of the binary chunk isn't that of what follows")
		data := x.sliceOf(x.field(buf, "Data"))
		p.check(x, bGe(bl.Sub(data.Len)), "bin-chunk", p.what, "the binary chunk is shorter than the data of the buffer")
		p.check(x, bGe(data.Len.AddI(3).Sub(bl)), "bin-chunk", p.what, "the binary chunk is more than 3 bytes longer than the data of the buffer")
		if n, ok := x.field(buf, "ByteLength").(IntV); ok {
			p.check(x, bEq(n.P.Sub(data.Len)), "bin-chunk", p.what, "the declared length of the buffer isn't that of the data written")
		}
		r.on(p.n.e, x.st, p.n.fn, func(x *X) {
			i := x.skolem("data", data.Len)
			got, want := x.seqAt(s.c, at.AddI(8).Add(i)), x.elemAt(data, i)
			p.check(x, x.equal(got, want), "bin-chunk", p.what, "the binary chunk doesn't hold the data of the first buffer")
		})
		r.on(p.n.e, x.st, p.n.fn, func(x *X) {
			i := x.skolem("zero", bl.Sub(data.Len)).Add(data.Len).Add(at).AddI(8)
			p.check(x, bEq(x.byteAt(s, i)), "bin-chunk", p.what, "the binary chunk isn't padded with zeros")
		})
	})
	r.formats()
}

// formats checks that the saving functions write the format of their name.
func (r *Report) formats() {
	for _, name := range []string{"Save", "SaveBinary"} {
		n := r.ioEntry(name, nil)
		if n == nil {
			continue
		}
		n.e.deepPick = true
		ok := 0
		r.each(n, func(x *X, o Outcome, good bool) {
			if !good {
				return
			}
			ok++
			p := &encPath{n: n, r: r, o: o, evs: o.st.ev.list(), what: fnName(n.fn), pos: posOf(r.P, n.fn)}
			for _, ev := range p.evs {
				if ev.Loop != nil || ev.Kind != "write" {
					continue
				}
				p.key = handleKey(ev.Args[0])
				break
			}
			s, known := streamOf(p.evs, p.key)
			if p.key == "" || !known {
				x.undecided("unknown output")
				return
			}
			_, text := p.jsonOf(x)
			x.assume(bGe(lenOfStr(text).AddI(-1)))
			if name == "Save" {
				r.Check(x.isTextByte(x.seqAt(s.c, &Poly{}), text, &Poly{}), "format", p.what, p.pos, "the file doesn't start with the JSON of the document", statePath(x.st))
				return
			}
			for k, c := range []byte("glTF") {
				p.check(x, bEq(x.byteAt(s, PInt(int64(k))).AddI(-int64(c))), "format", p.what, "the file doesn't start with the magic of GLB")
			}
		})
		if ok == 0 {
			r.Undec("no successful path of " + fnName(n.fn))
		}
	}
}

// ---- E04

// countData counts how often the whole data is written to the stream.
func (x *X) sameSlice(w SnapV, data SliceV) bool {
	if !x.st.F.EntailsEq(w.S.Len.Sub(data.Len)) {
		return false
	}
	y := &X{e: x.e, st: x.st.clone(), fr: x.fr}
	i := PVar(mkInt("skolem", nil, nil, Lit("same")))
	if !y.st.assume(bGe(i), true) || !y.st.assume(bGe(data.Len.Sub(i).AddI(-1)), true) {
		return true
	}
	ok := true
	x.e.on(y.st, x.fr.fn, func(x *X) {
		b, known := x.eval(x.equal(x.seqAt(w.C, i.Add(w.Off)), x.elemAt(data, i)))
		if !known || !b {
			ok = false
		}
	})
	return ok
}

func checkE04(r *Report) {
	r.encodes(func(x *X, p *encPath) {
		bin := p.binary(x)
		e := p.n.e
		bufs := x.docSlice(p.n.doc, "Buffers")
		v, text := p.jsonOf(x)
		if !bin {
			if s, ok := streamOf(p.evs, p.key); ok {
				L := lenOfStr(text)
				p.check(x, bGe(s.total.Sub(L)), "listed", p.what, "the output is shorter than the JSON")
				r.on(e, x.st, p.n.fn, func(x *X) {
					i := x.skolem("json", L)
					if !x.isTextByte(x.seqAt(s.c, i), text, i) {
						r.Fail("listed", p.what, p.pos, "the output isn't the JSON of the document", statePath(x.st))
					}
				})
			}
		}
		// The list of buffers.
		val := x.jsonValue(v.Val)
		sv, ok := val.(StructV)
		if !ok {
			x.undecided("the document isn't encoded as a struct")
		}
		var list *jfield
		for _, f := range jsonFields(x, sv.T, sv) {
			if f.Name == "buffers" {
				f := f
				list = &f
			}
		}
		if list == nil || list.absent {
			r.Fail("listed", p.what, p.pos, "the JSON has no buffers", statePath(x.st))
			return
		}
		if x.jsonOmitted(*list) {
			p.check(x, bEq(bufs.Len), "listed", p.what, "the buffers are omitted")
			return
		}
		var c *SeqC
		var off, n *Poly
		switch l := list.Val.(type) {
		case SnapV:
			c, off, n = l.C, l.Off, l.S.Len
		case SliceV:
			c, off = x.seqOf(l)
			n = l.Len
		default:
			x.undecided("the buffers are not a slice")
		}
		p.check(x, bEq(n.Sub(bufs.Len)), "listed", p.what, "the JSON doesn't list all the buffers")
		if !x.st.F.EntailsEq(n.Sub(bufs.Len)) {
			return
		}
		for _, first := range []bool{true, false} {
			first := first
			r.on(e, x.st, p.n.fn, func(x *X) {
				var j *Poly
				if first {
					j = &Poly{}
					x.assume(bGe(bufs.Len.AddI(-1)))
				} else {
					j = x.skolem("buffer", bufs.Len)
					x.assume(bGe(j.AddI(-1)))
				}
				buf := x.elemPtr(bufs, j)
				uri := x.field(buf, "URI").(StrV)
				data := x.sliceOf(x.field(buf, "Data"))
				hasURI := !x.decide(strEq(uri, strConst("")))
				hasData := x.decide(bGe(data.Len.AddI(-1)))
				inBin := bin && first && !hasURI
				p.describe(x, buf, x.seqAt(c, off.Add(j)), hasData && !hasURI && !inBin, data)
				if inBin {
					p.inStream(x, data)
				} else if hasURI {
					p.file(x, bufs, j, uri, data, hasData)
				}
			})
		}
	})
}

// describe checks the JSON of a buffer.
func (p *encPath) describe(x *X, buf PtrV, v Value, embed bool, data SliceV) {
	q, ok := v.(PtrV)
	if !ok {
		x.undecided("the buffers are not listed as pointers")
	}
	if x.decide(x.isNil(q)) {
		p.r.Fail("described", p.what, p.pos, "a buffer is encoded as null", statePath(x.st))
		return
	}
	for _, f := range []string{"Name", "Extras", "Extensions", "ByteLength", "URI"} {
		got, want := x.field(q, f), x.field(buf, f)
		if f == "URI" && embed {
			p.r.Check(x.isDataURI(got.(StrV).T, data), "described", p.what+": "+f, p.pos, "the URI of a buffer without one is "+valStr(got)+", not the data URI with its data", statePath(x.st))
			continue
		}
		p.check(x, x.equal(got, want), "described", p.what+": "+f, "the "+f+" of a buffer is encoded as "+valStr(got))
	}
}

// isDataURI tells whether t is the data URI for data.
func (x *X) isDataURI(t *Term, data SliceV) bool {
	ps := splitCat(t)
	pre := ""
	for _, p := range ps[:len(ps)-1] {
		c, ok := (StrV{p}).Const()
		if !ok {
			return false
		}
		pre += c
	}
	b := ps[len(ps)-1]
	if pre != "data:application/octet-stream;base64," || b.Op != "b64enc" || !strings.Contains(b.Args[0].(*Term).String(), "base64.StdEncoding") {
		return false
	}
	u, ok := b.Args[1].(*Term)
	return ok && u == x.bytesTerm(data)
}

// inStream checks that the data is written once to the stream.
func (p *encPath) inStream(x *X, data SliceV) {
	s, ok := streamOf(p.evs, p.key)
	if !ok {
		x.undecided("the stream is written in a loop")
	}
	k := 0
	for _, w := range s.snaps {
		if x.sameSlice(w, data) && !x.st.F.Entails(w.S.Len.Neg()) {
			k++
		}
	}
	if !x.st.F.Entails(data.Len.AddI(-1)) {
		return
	}
	p.r.Check(k == 1, "bin", p.what, p.pos, fmt.Sprintf("the data of the first buffer is written %d times to the stream", k), statePath(x.st))
}

// file checks that the buffer is written once to its file.
func (p *encPath) file(x *X, bufs SliceV, j *Poly, uri StrV, data SliceV, hasData bool) {
	self := p.n.self.(PtrV)
	embedded := x.decide(bAtom(mkTerm("prefix", SBool, nil, uri.T, strConst("data:application/octet-stream;base64").T)))
	noFS := x.decide(x.isNil(x.field(self, "Fsys")))
	// Creations of a file named after the URI.
	n := 0
	whole := true
	absolute := false
	var visit func(x *X, evs []*Ev)
	visit = func(x *X, evs []*Ev) {
		for i, ev := range evs {
			if ev.Loop != nil {
				v, ok := loopIndexOf(x, ev, bufs, j)
				if !ok {
					for _, f := range flatEvents([]*Ev{ev}) {
						if f.Kind == "create" {
							x.undecided("files are created in a loop that isn't over the buffers")
						}
					}
					continue
				}
				if !x.inRange(v, &Poly{}, ev.Loop.Upper) {
					continue
				}
				a := x.pick(ev.Loop, v)
				s := newSubster(map[*Term]Arg{ev.Loop.Bv: v})
				var l []*Ev
				if a < len(ev.Alts) {
					for _, w := range ev.Alts[a] {
						l = append(l, w.subst(s))
					}
				}
				visit(x, l)
				continue
			}
			if ev.Kind != "create" || !containsFn(argOf(ev.Args[1]), func(t *Term) bool { return t == uri.T }) {
				continue
			}
			n++
			full := false
			for _, w := range evs[i:] {
				if w.Kind == "write" && w.Loop == nil && handleKey(w.Args[0]) != p.key {
					if s, ok := w.Args[1].(SnapV); ok && x.sameSlice(s, data) {
						full = true
					}
				}
			}
			if !full {
				whole = false
			}
		}
	}
	visit(x, p.evs)
	for _, f := range x.st.F.log {
		if f.K == FAtom && f.T != nil && !f.B && f.T.Op == "streq" && strings.HasSuffix(f.T.Args[0].(*Term).String(), ".Scheme") && contains(f.T, uri.T) {
			absolute = true
		}
	}
	what := p.what
	switch {
	case !hasData:
		p.r.Check(n == 0, "no-file", what, p.pos, "the file of a buffer whose data isn't loaded is overwritten", statePath(x.st))
	case embedded || absolute || noFS:
		p.r.Check(n <= 1, "file", what, p.pos, "a buffer is written several times", statePath(x.st))
	default:
		p.r.Check(n == 1, "file", what, p.pos, fmt.Sprintf("a buffer with data and a relative URI is written to %d files", n), statePath(x.st))
		if n > 0 {
			p.r.Check(whole, "file", what, p.pos, "not exactly the data of the buffer is written to its file", statePath(x.st))
		}
	}
}

// loopIndexOf returns the iteration of a loop that handles the element j.
func loopIndexOf(x *X, ev *Ev, s SliceV, j *Poly) (*Poly, bool) {
	var v *Poly
	find := func(a Arg) {
		containsFn(a, func(t *Term) bool {
			if t.Op != "fld" || t.Args[1] != Arg(Lit("URI")) {
				return false
			}
			if t, _ = t.Args[0].(*Term); t == nil || t.Op != "deref" {
				return false
			}
			if t, _ = t.Args[0].(*Term); t == nil {
				return false
			}
			if t.Op == "elem" && len(t.Args) == 2 && contains(t, ev.Loop.Bv) {
				if b, ok := t.Args[0].(*Term); ok && s.Base.Obj != nil && b == s.Base.Obj.Term {
					if i := polyArg(t.Args[1]); i != nil {
						k := i.coefOf(ev.Loop.Bv)
						rest := i.Sub(PVar(ev.Loop.Bv).ScaleI(k))
						if (k == 1 || k == -1) && !contains(rest, ev.Loop.Bv) {
							w := j.Sub(rest).ScaleI(k)
							if v != nil && !x.st.F.EntailsEq(v.Sub(w)) {
								x.undecided("a loop handles several buffers in each iteration")
							}
							v = w
						}
					}
				}
			}
			return false
		})
	}
	for _, a := range ev.Loop.Alts {
		for _, f := range a.Facts {
			if f.T != nil {
				find(f.T)
			}
			if f.P != nil {
				find(f.P)
			}
		}
	}
	for _, l := range ev.Alts {
		for _, w := range l {
			for _, a := range w.Args {
				find(argOf(a))
			}
		}
	}
	return v, v != nil
}

// settle computes the quotients in p that the facts determine to be zero, like
// those of the conversions that don't overflow.
func (x *X) settle(p *Poly) *Poly {
	for n := 0; n < 3; n++ {
		p = x.st.F.Norm(p)
		changed := false
		for _, m := range p.ms {
			for _, t := range m.vs {
				if t.Op != "fdiv" {
					continue
				}
				a := t.Args[0].(*Poly)
				c, _ := new(big.Int).SetString(string(t.Args[1].(Lit)), 10)
				if x.st.F.Entails(a) && x.st.F.Entails(PConst(c).AddI(-1).Sub(a)) {
					x.st.F.AddEq(PVar(t))
					changed = true
				}
			}
		}
		if !changed {
			break
		}
	}
	return x.st.F.Norm(p)
}
