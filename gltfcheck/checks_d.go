package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	common := []string{
		"the standard library behaves as documented: a bufio.Reader delivers the bytes of the stream in order, encoding/json reads any number of bytes after the value it decodes",
		"the arrays of the document that encoding/json made hold distinct pointers",
	}
	register("D02", checkDef{run: checkD02,
		explain: "All paths of Decoder.Decode are interpreted, with any document as the result of the JSON decoder and with failures of every operation; on each successful path the first buffer and another one with a symbolic index are followed. Rules: length (the declared length is positive), loaded (a buffer without URI is the first of a GLB), bin (it holds as many bytes of the stream as it declares), embedded (a buffer with a base64 data URI holds the decoded payload), file (a buffer with another URI without scheme holds, if there is a file system, the content of that file, cut to the declared length), open (Open returns a document exactly if it returns no error).",
		assume:  common})
	register("D01", checkDef{run: checkD01,
		explain: "Decoder.Decode (with and without a file system), Open, Image.MarshalData, every UnmarshalJSON of the repository and every registered extension decoder are interpreted on all paths, with symbolic input, any document as the result of the JSON decoder and failures of every operation. Rule safe: every index, slice bound, nil dereference, conversion, division, allocation size and type assertion is proved, and no panic is reachable.",
		assume:  append([]string{"registered extension decoders aren't nil, and extension decoders, readers and file systems of the caller don't panic", "memory isn't exhausted"}, common...)})
	register("D03", checkDef{run: checkD03,
		explain: "All successful paths of Decode are interpreted on a symbolic stream and file system, and all paths of every UnmarshalJSON method and registered extension decoder on a symbolic text. Rules: own (the data of the first and of any other buffer is nil, untouched, or an object allocated for that buffer: not by something outside of the iteration that handles it, not the memory of the reader, a pool or a package variable, and nothing that outlives the call refers to it; where that is undecided, at least no slice flows into a buffer from another buffer or from a map with names as keys), copy (nothing reachable from what is decoded, nor from package variables, is the text that was passed).",
		assume:  common})
	register("G02", checkDef{run: checkG02,
		explain: "All paths of Decoder.Decode are interpreted with a symbolic stream. Rules, on every successful path: magic (the stream is decoded as GLB if and only if it starts with the magic), json (the JSON is decoded from exactly the bytes of the first chunk, or from the start of the stream), header (the type of the first chunk is JSON and its end isn't after the declared total length), bin (when the first buffer has no URI, the second chunk header follows the first chunk, its type is BIN, its length isn't lower than that of the buffer), data (byte i of the buffer is byte i of the second chunk); on every other path: accept (if no operation failed, the stream isn't a well formed GLB of version 2, with one buffer in its binary chunk and no images).",
		assume:  append([]string{"fewer than 20 bytes aren't a GLB"}, common...)})
}

// decPath is a successful path of Decode.
type decPath struct {
	r      *Report
	n      *ioRun
	o      Outcome
	what   string
	pos    string
	evs    []*Ev
	src    *Term // of the stream
	at, jl *Poly // where the JSON is decoded from, and its limit, if any
}

func (r *Report) decodes(f func(x *X, p *decPath), rejected func(x *X, p *decPath)) {
	n := r.ioEntry("Decode", nil)
	if n == nil {
		return
	}
	n.e.deepPick = true
	ok := 0
	r.each(n, func(x *X, o Outcome, good bool) {
		p := &decPath{r: r, n: n, o: o, what: fnName(n.fn), pos: posOf(r.P, n.fn), evs: o.st.ev.list()}
		if !good {
			if rejected != nil {
				rejected(x, p)
			}
			return
		}
		ok++
		for _, ev := range flatEvents(p.evs) {
			if ev.Kind != "unmarshal" {
				continue
			}
			s, _ := ev.Args[0].(StrV)
			if s.T == nil || s.T.Op != "jsonstream" || p.src != nil {
				r.Undec(p.what + ": the JSON isn't decoded once from the stream")
				return
			}
			p.src, _ = s.T.Args[0].(*Term)
			p.at = polyArg(s.T.Args[1])
			if len(s.T.Args) > 2 {
				p.jl = polyArg(s.T.Args[2])
			}
		}
		if p.src == nil || p.at == nil {
			r.Undec(p.what + ": the JSON isn't decoded once from the stream")
			return
		}
		f(x, p)
	})
	if ok == 0 {
		r.Undec("no successful path of " + fnName(n.fn))
	}
	r.samples = append(r.samples, fmt.Sprintf("%s: %d paths, %d successful cases", fnName(n.fn), len(n.outs), ok))
}

// byteOf is a byte of the stream.
func (p *decPath) byteOf(i *Poly) *Poly {
	return elemOf(mkTerm("stream", SRef, nil, p.src), i, tByte).(IntV).P
}

func (p *decPath) u32(i *Poly) *Poly {
	s := &Poly{}
	for k := int64(0); k < 4; k++ {
		s = s.Add(p.byteOf(i.AddI(k)).Scale(new(big.Int).Lsh(bigOne, uint(8*k))))
	}
	return s
}

func le32(s string) int64 {
	return int64(s[0]) | int64(s[1])<<8 | int64(s[2])<<16 | int64(s[3])<<24
}

// check judges a condition on the path.
func (p *decPath) check(x *X, b BoolV, rule, construct, msg string) bool {
	if v, ok := x.eval(b); ok && v {
		p.r.OK(rule, construct)
		return true
	}
	if boolHas(b, imprecise) {
		p.r.Undec(construct + ": " + msg)
		return false
	}
	return p.r.Check(x.decide(b), rule, construct, p.pos, msg, statePath(x.st))
}

// glb tells whether the stream is a GLB on the path, as its bytes say.
func (p *decPath) glb(x *X) bool {
	for _, ev := range flatEvents(p.evs) {
		if ev.Kind == "fallible" {
			k, _ := ev.Args[0].(StrV).Const()
			if k == "peek:EOF" {
				return false
			}
		}
	}
	return x.decide(bEq(p.u32(&Poly{}).AddI(-le32("glTF"))))
}

// buffers runs f for the first buffer and for any other.
func (p *decPath) buffers(x *X, f func(x *X, buf PtrV, first bool)) {
	bufs := x.docSlice(p.n.doc, "Buffers")
	for _, first := range []bool{true, false} {
		first := first
		p.r.on(p.n.e, x.st, p.n.fn, func(x *X) {
			j := &Poly{}
			x.assume(bGe(bufs.Len.AddI(-1)))
			if !first {
				j = x.skolem("buffer", bufs.Len)
				x.assume(bGe(j.AddI(-1)))
			}
			f(x, x.elemPtr(bufs, j), first)
		})
	}
}

func checkD02(r *Report) {
	r.decodes(func(x *X, p *decPath) {
		glb := p.glb(x)
		p.buffers(x, func(x *X, buf PtrV, first bool) { p.loaded(x, buf, glb && first) })
	}, nil)
	n := r.ioEntry("Open", nil)
	if n == nil {
		return
	}
	for _, o := range n.outs {
		if o.panic {
			continue
		}
		r.on(n.e, o.st, n.fn, func(x *X) {
			doc, ok := o.ret[0].(PtrV)
			if !ok {
				x.undecided("unknown result of Open")
				return
			}
			isNil := x.isNil(doc)
			if x.decide(x.isNil(o.ret[n.errI])) {
				isNil = isNil.not()
			}
			v, known := x.eval(isNil)
			if !known {
				v = x.decide(isNil)
			}
			r.Check(v, "open", fnName(n.fn), posOf(r.P, n.fn), "a document is returned with an error, or none without", statePath(x.st))
		})
	}
}

// dataURI is how the URI of an embedded buffer starts.
const dataURI = "data:application/octet-stream;base64"

// loaded judges a buffer of a decoded document.
func (p *decPath) loaded(x *X, buf PtrV, bin bool) {
	n, ok1 := x.field(buf, "ByteLength").(IntV)
	uri, ok2 := x.field(buf, "URI").(StrV)
	if !ok1 || !ok2 {
		x.undecided("unknown buffer")
		return
	}
	p.check(x, bGe(n.P.AddI(-1)), "length", p.what, "a buffer without a positive length is accepted")
	data := x.sliceOf(x.field(buf, "Data"))
	if x.decide(strEq(uri, strConst(""))) {
		if !bin {
			if boolHas(strEq(uri, strConst("")), imprecise) {
				x.undecided("unknown URI")
				return
			}
			p.r.Fail("loaded", p.what, p.pos, "a buffer that has no URI and isn't the first of a GLB is accepted", statePath(x.st))
			return
		}
		p.r.OK("loaded", p.what)
		if !p.check(x, bEq(data.Len.Sub(n.P)), "bin", p.what+": length", "the data of the first buffer of a GLB isn't as long as declared") {
			return
		}
		i := x.skolem("i", data.Len)
		t := p.contentAt(x, data, i)
		switch {
		case t == nil:
		case t.Op == "stream":
			p.r.OK("bin", p.what)
		default:
			p.alien(x, t, "bin", "the first buffer of a GLB doesn't hold bytes of the stream")
		}
		return
	}
	const prefix = dataURI
	if x.decide(bAtom(mkTerm("prefix", SBool, nil, uri.T, strConst(prefix).T))) {
		p.embedded(x, uri, data, int64(len(prefix)+1))
		return
	}
	fsys := x.field(p.n.self.(PtrV), "Fsys")
	if x.decide(x.isNil(fsys)) {
		return
	}
	h, ok := x.hasScheme(uri)
	if !ok {
		x.undecided("unknown scheme")
		return
	}
	if x.decide(h) {
		return
	}
	p.file(x, uri, data, n.P)
}

// contentAt returns the term for a byte of the data, taken apart: the
// array it is from.
func (p *decPath) contentAt(x *X, data SliceV, i *Poly) *Term {
	if data.Base.Obj == nil {
		return nil
	}
	v, ok := x.seqAt(x.arrayOf(data), data.Off.Add(i)).(IntV)
	if !ok {
		p.r.Undec(p.what + ": unknown content")
		return nil
	}
	q := x.st.F.Norm(v.P)
	if c := q.Const(); c != nil {
		return mkTerm("const", SInt, nil, Lit(c.String()))
	}
	if len(q.ms) == 1 && len(q.ms[0].vs) == 1 && q.ms[0].c.Cmp(bigOne) == 0 {
		t := q.ms[0].vs[0]
		if t.Op == "elem" && len(t.Args) == 2 {
			if a, ok := t.Args[0].(*Term); ok {
				if at := polyArg(t.Args[1]); at != nil && x.st.F.EntailsEq(at.Sub(i)) || a.Op == "stream" {
					return a
				}
				return mkTerm("shifted", SRef, nil, a)
			}
		}
		return t
	}
	return mkTerm("expr", SRef, nil, q)
}

// alien reports content from elsewhere, unless the analysis doesn't know
// where it is from.
func (p *decPath) alien(x *X, t *Term, rule, msg string) {
	known := t.Op == "const" || t.Op == "shifted" || t.Op == "strbytes" || t.Op == "stream" || t.Op == "fld" || t.Op == "arr"
	if !known || containsFn(t, imprecise) {
		p.r.Undec(p.what + ": " + msg + ": " + t.String())
		return
	}
	p.r.Fail(rule, p.what, p.pos, msg, statePath(x.st))
}

// sourceText returns what text the data is, if it is one.
func (p *decPath) sourceText(x *X, data SliceV, rule, msg string) *Term {
	i := x.skolem("i", data.Len)
	t := p.contentAt(x, data, i)
	if t == nil {
		return nil
	}
	if t.Op != "strbytes" {
		p.alien(x, t, rule, msg)
		return nil
	}
	return t.Args[0].(*Term)
}

// embedded judges a buffer with a data URI.
func (p *decPath) embedded(x *X, uri StrV, data SliceV, start int64) {
	L := lenOfStr(uri.T)
	const msg = "a buffer with a base64 data URI doesn't hold the decoded payload"
	if x.decide(bGe(PInt(start).Sub(L))) {
		return // no payload
	}
	if !x.decide(bGe(data.Len.AddI(-1))) {
		// The payload may decode to nothing.
		for _, ev := range flatEvents(p.evs) {
			if ev.Kind == "fallible" {
				if k, _ := ev.Args[0].(StrV).Const(); k == "base64" {
					return
				}
			}
		}
		p.r.Fail("embedded", p.what, p.pos, msg, statePath(x.st))
		return
	}
	t := p.sourceText(x, data, "embedded", msg)
	if t == nil {
		return
	}
	if t.Op != "b64dec" {
		p.alien(x, mkTerm("strbytes", SRef, nil, t), "embedded", msg)
		return
	}
	enc, _ := t.Args[0].(*Term)
	if enc == nil || enc.Op != "global" {
		p.r.Undec(p.what + ": unknown encoding")
		return
	}
	if strings.Contains(string(enc.Args[0].(Lit)), "URLEncoding") {
		p.r.Fail("embedded", p.what, p.pos, "the payload of a base64 data URI is decoded with another alphabet", statePath(x.st))
		return
	}
	s, ok := t.Args[1].(*Term)
	if !ok {
		p.r.Undec(p.what + ": unknown payload")
		return
	}
	want := substr(uri.T, PInt(start), L, L).T
	if s != want {
		from := (*Poly)(nil)
		if s.Op == "substr" && s.Args[0] == Arg(uri.T) {
			from = polyArg(s.Args[1])
		}
		to := (*Poly)(nil)
		if from != nil {
			to = polyArg(s.Args[2])
		}
		switch {
		case from == nil || to == nil:
			p.r.Undec(p.what + ": unknown payload " + s.String())
			return
		case !x.st.F.EntailsEq(from.AddI(-start)) || !x.st.F.EntailsEq(to.Sub(L)):
			if from.Const() == nil {
				p.r.Undec(p.what + ": unknown payload " + s.String())
				return
			}
			p.r.Fail("embedded", p.what, p.pos, msg, statePath(x.st))
			return
		}
	}
	p.check(x, bEq(data.Len.Sub(lenOfStr(t))), "embedded", p.what+": length", "a buffer with a base64 data URI doesn't hold all of the payload")
}

// file judges a buffer with the name of a file.
func (p *decPath) file(x *X, uri StrV, data SliceV, n *Poly) {
	const msg = "a buffer with a relative URI doesn't hold the content of its file"
	var t *Term
	if x.decide(bGe(data.Len.AddI(-1))) {
		if t = p.sourceText(x, data, "file", msg); t == nil {
			return
		}
		if t.Op != "filedata" {
			p.alien(x, mkTerm("strbytes", SRef, nil, t), "file", msg)
			return
		}
		if t.Args[1] != argOf(uri) {
			if containsFn(t, imprecise) || containsFn(argOf(uri), imprecise) {
				p.r.Undec(p.what + ": unknown name")
				return
			}
			p.r.Fail("file", p.what, p.pos, "the data of a buffer is read from a file with another name than its URI", statePath(x.st))
			return
		}
	} else {
		// Read, and empty.
		name := ""
		for _, ev := range flatEvents(p.evs) {
			if ev.Kind == "readfile" {
				name = ev.Kind
			}
		}
		if name == "" || data.Base.Obj == nil {
			p.r.Fail("file", p.what, p.pos, msg, statePath(x.st))
			return
		}
		c := x.arrayOf(data)
		if c.Base == nil || c.Base.Op != "strbytes" {
			p.alien(x, mkTerm("arr", SRef, nil), "file", msg)
			return
		}
		t = c.Base.Args[0].(*Term)
		if t.Op != "filedata" {
			return
		}
	}
	L := lenOfStr(t)
	if x.decide(bGe(L.Sub(n))) {
		p.check(x, bEq(data.Len.Sub(n)), "file", p.what+": length", "the content of a file that isn't shorter than the buffer isn't cut to the declared length")
		return
	}
	p.check(x, bEq(data.Len.Sub(L)), "file", p.what+": length", "not the whole content of a file shorter than the buffer is kept")
}

// ---- G02

func checkG02(r *Report) {
	r.decodes(func(x *X, p *decPath) {
		glb := p.glb(x)
		binary := !x.st.F.EntailsEq(p.at)
		if binary && !x.st.F.EntailsEq(p.at.AddI(-20)) {
			if containsFn(p.at, imprecise) {
				r.Undec(p.what + ": unknown start of the JSON")
				return
			}
			r.Fail("json", p.what, p.pos, "the JSON isn't decoded from the start of the stream or of the first chunk", statePath(x.st))
			return
		}
		switch {
		case glb && !binary:
			r.Fail("magic", p.what, p.pos, "a stream that starts with the magic isn't decoded as a GLB", statePath(x.st))
			return
		case !glb && binary:
			r.Fail("magic", p.what, p.pos, "a stream that doesn't start with the magic is decoded as a GLB", statePath(x.st))
			return
		}
		r.OK("magic", p.what)
		if !glb {
			if p.jl != nil {
				r.Undec(p.what + ": JSON of limited size")
			}
			return
		}
		jl := p.u32(PInt(12))
		if p.jl == nil {
			r.Fail("json", p.what, p.pos, "the JSON of a GLB isn't limited to its chunk", statePath(x.st))
			return
		}
		p.check(x, bEq(p.jl.Sub(jl)), "json", p.what, "the JSON of a GLB isn't decoded from exactly its chunk")
		p.check(x, bEq(p.u32(PInt(16)).AddI(-le32("JSON"))), "header", p.what, "a GLB is accepted whose first chunk isn't JSON")
		p.check(x, bGe(p.u32(PInt(8)).Sub(jl).AddI(-20)), "header", p.what, "a GLB is accepted whose first chunk ends after the total length")
		p.buffers(x, func(x *X, buf PtrV, first bool) {
			if !first {
				return
			}
			uri, ok1 := x.field(buf, "URI").(StrV)
			n, ok2 := x.field(buf, "ByteLength").(IntV)
			if !ok1 || !ok2 {
				x.undecided("unknown buffer")
				return
			}
			if !x.decide(strEq(uri, strConst(""))) {
				return
			}
			at := jl.AddI(20)
			p.check(x, bEq(p.u32(at.AddI(4)).AddI(-le32("BIN\x00"))), "bin", p.what, "a GLB is accepted whose second chunk isn't BIN")
			p.check(x, bGe(p.u32(at).Sub(n.P)), "bin", p.what, "a GLB is accepted whose binary chunk is shorter than the buffer")
			data := x.sliceOf(x.field(buf, "Data"))
			i := x.skolem("i", data.Len)
			if data.Base.Obj == nil {
				x.undecided("unknown data")
				return
			}
			v, ok := x.seqAt(x.arrayOf(data), data.Off.Add(i)).(IntV)
			if !ok {
				x.undecided("unknown data")
				return
			}
			p.check(x, bEq(v.P.Sub(p.byteOf(at.AddI(8).Add(i)))), "data", p.what, "the first buffer of a GLB doesn't hold the bytes of the binary chunk")
		})
	}, func(x *X, p *decPath) { p.rejected(x) })
}

// rejected judges a path that returns an error though no operation on the
// stream failed: a well formed container with one buffer isn't rejected.
func (p *decPath) rejected(x *X) {
	var src *Term
	decoded := false
	for _, ev := range flatEvents(p.evs) {
		switch ev.Kind {
		case "fallible":
			if k, _ := ev.Args[0].(StrV).Const(); k == "peek:EOF" {
				return
			}
			v, ok := x.eval(x.isNil(ev.Args[1]))
			if !ok || !v {
				return
			}
		case "unmarshal":
			decoded = true
			if s, ok := ev.Args[0].(StrV); ok && s.T != nil && s.T.Op == "jsonstream" {
				src, _ = s.T.Args[0].(*Term)
			}
		case "read":
			if k := readerKind(ev.Args[0]); src == nil && strings.Contains(k, "bufio.Reader") {
				src = readerTerm(ev.Args[0])
			}
		}
	}
	if src == nil || src.Op != "alloc" {
		return
	}
	p.src = src
	jl := p.u32(PInt(12))
	x.assume(bEq(p.u32(&Poly{}).AddI(-le32("glTF"))))
	x.assume(bEq(p.u32(PInt(4)).AddI(-2)))
	x.assume(bEq(p.u32(PInt(16)).AddI(-le32("JSON"))))
	if !decoded {
		x.assume(bGe(p.u32(PInt(8)).Sub(jl).AddI(-20)))
		p.r.Fail("accept", p.what, p.pos, "a GLB is rejected although its header is valid and no operation failed", statePath(x.st))
		return
	}
	bufs, imgs := x.docSlice(p.n.doc, "Buffers"), x.docSlice(p.n.doc, "Images")
	x.assume(bEq(bufs.Len.AddI(-1)))
	x.assume(bEq(imgs.Len))
	x.pinFirst()
	buf := x.elemPtr(bufs, &Poly{})
	x.assume(x.isNil(buf).not())
	uri, ok1 := x.field(buf, "URI").(StrV)
	n, ok2 := x.field(buf, "ByteLength").(IntV)
	if !ok1 || !ok2 {
		return
	}
	x.assume(strEq(uri, strConst("")))
	x.assume(bGe(n.P.AddI(-1)))
	at := jl.AddI(20)
	x.assume(bEq(p.u32(at.AddI(4)).AddI(-le32("BIN\x00"))))
	x.assume(bGe(p.u32(at).Sub(n.P)))
	x.assume(bGe(n.P.AddI(3).Sub(p.u32(at))))
	x.assume(bEq(p.u32(PInt(8)).Sub(jl).Sub(p.u32(at)).AddI(-28)))
	if x.st.F.unsat {
		return
	}
	p.r.Fail("accept", p.what, p.pos, "a well formed GLB is rejected although no operation failed", statePath(x.st))
}

// pinFirst adds what follows for the iterations that can only be the first.
func (x *X) pinFirst() {
	var its []*Term
	seen := map[*Term]bool{}
	for a := range x.st.F.atoms {
		containsFn(a, func(t *Term) bool {
			if t.Op == "iter" && !seen[t] {
				seen[t] = true
				its = append(its, t)
			}
			return false
		})
	}
	sort.Slice(its, func(i, j int) bool { return its[i].ID < its[j].ID })
	for _, t := range its {
		if x.st.F.EntailsEq(PVar(t)) {
			if !x.st.assume(bEq(PVar(t)), true) {
				panic(infeasible{})
			}
		}
	}
}

// ---- D01

func checkD01(r *Report) {
	for _, name := range []string{"Decode", "Open", ".Image.MarshalData"} {
		var e *Engine
		n := r.ioEntry(name, func(g *Engine) { e = g; g.deepPick, g.noNilFuncs = true, true })
		if n == nil {
			continue
		}
		r.safety(e, "safe", name, nil)
		ends := 0
		for _, o := range n.outs {
			if !o.panic {
				ends++
			}
		}
		r.samples = append(r.samples, fmt.Sprintf("%s: %d paths", fnName(n.fn), ends))
	}
	if len(r.Undecided) > 0 {
		r.shared(r.method("", "Decoder", "Decode"), r.fn("", "Open"))
	}
	for _, t := range r.typesWith("UnmarshalJSON") {
		t := t
		r.guard("decoding of "+typeShort(t), func() {
			e := r.engine()
			e.noNilFuncs = true
			defer r.absorb(e)
			fn, _, _, outs := r.decodings(e, t)
			r.unit(fnName(fn))
			r.safety(e, "safe", fnName(fn), nil)
			r.noPanic(fn, outs)
		})
	}
	seen := map[*ssa.Function]bool{}
	for _, g := range r.engine().Registered {
		fn := g.Fn.Fn
		if fn == nil || seen[fn] || len(fn.Params) != 1 {
			continue
		}
		seen[fn] = true
		r.guard("decoder of "+g.Key, func() {
			e := r.engine()
			e.noNilFuncs = true
			defer r.absorb(e)
			outs := e.fn(e.Base.clone(), fn, []Value{symIn(fn.Params[0].Type(), "data")}, nil)
			r.outcomes += len(outs)
			r.unit(fnName(fn))
			r.safety(e, "safe", fnName(fn), nil)
			r.noPanic(fn, outs)
		})
	}
}

func (r *Report) noPanic(fn *ssa.Function, outs []Outcome) {
	for _, o := range outs {
		if o.panic {
			r.Fail("safe", fnName(fn)+": panics", posOf(r.P, fn), "a panic is reachable", statePath(o.st))
			return
		}
	}
	r.OK("safe", fnName(fn)+": no panic")
}

// ---- D03

func checkD03(r *Report) {
	r.decodes(func(x *X, p *decPath) {
		p.buffers(x, func(x *X, buf PtrV, first bool) { p.owned(x, x.sliceOf(x.field(buf, "Data")), buf, first) })
	}, nil)
	if len(r.Undecided) > 0 {
		r.shared(r.method("", "Decoder", "Decode"), r.fn("", "Open"))
	}
	for _, t := range r.typesWith("UnmarshalJSON") {
		t := t
		r.guard("decoding of "+typeShort(t), func() {
			e := r.engine()
			defer r.absorb(e)
			fn, recv, data, outs := r.decodings(e, t)
			r.unit(fnName(fn))
			for _, o := range outs {
				if !o.panic {
					r.copied(e, o, fn, data, recv)
				}
			}
		})
	}
	seen := map[*ssa.Function]bool{}
	for _, g := range r.engine().Registered {
		fn := g.Fn.Fn
		if fn == nil || seen[fn] || len(fn.Params) != 1 {
			continue
		}
		seen[fn] = true
		r.guard("decoder of "+g.Key, func() {
			e := r.engine()
			defer r.absorb(e)
			data, ok := symIn(fn.Params[0].Type(), "data").(SliceV)
			if !ok {
				r.Undec(fnName(fn) + ": unexpected signature")
				return
			}
			outs := e.fn(e.Base.clone(), fn, []Value{data}, nil)
			r.outcomes += len(outs)
			r.unit(fnName(fn))
			for _, o := range outs {
				if !o.panic {
					r.copied(e, o, fn, data, o.ret...)
				}
			}
		})
	}
}

// owned checks that the data of a buffer is memory that nothing else has.
func (p *decPath) owned(x *X, data SliceV, buf PtrV, first bool) {
	o := data.Base.Obj
	unloaded := false
	if c, ok := baseContent(buf.Obj).(CellC); ok {
		if s, ok := c.V.(StructV); ok {
			for _, v := range s.F {
				d, ok := v.(SliceV)
				unloaded = unloaded || ok && d.Base.Obj == o
			}
		}
	}
	if o == nil || unloaded {
		p.r.OK("own", p.what)
		return
	}
	if !o.Fresh() || rooted(o.Term, "pooled") || rooted(o.Term, "global") {
		p.r.Fail("own", p.what, p.pos, "the data of a buffer is memory of something else: "+o.Term.String(), statePath(x.st))
		return
	}
	if tag, ok := o.Term.Args[0].(Lit); ok && strings.HasPrefix(string(tag), "peek#") {
		p.r.Fail("own", p.what, p.pos, "the data of a buffer is the memory of the reader: "+o.Term.String(), statePath(x.st))
		return
	}
	if !first {
		// Different for each buffer.
		each, varies := false, false
		for _, a := range o.Term.Args {
			if q, ok := a.(*Poly); ok {
				for _, m := range q.ms {
					if len(m.vs) == 1 && m.vs[0].Op == "skolem" && m.c.CmpAbs(bigOne) == 0 {
						each = true
					} else if len(m.vs) > 0 {
						varies = true
					}
				}
			} else if containsFn(a, isSkolem) {
				varies = true
			}
		}
		switch {
		case each && !varies:
		case varies || containsFn(data.Off, isSkolem):
			p.r.Undec(p.what + ": it isn't known whether buffers share " + o.Term.String())
			return
		default:
			p.r.Fail("own", p.what, p.pos, "all buffers share "+o.Term.String(), statePath(x.st))
			return
		}
	}
	self, _ := p.n.self.(PtrV)
	for _, q := range survivors(x, p.n.e, self) {
		if sameSite(q.Term, o.Term) {
			p.r.Fail("own", p.what, p.pos, "the data of a buffer is retained elsewhere: "+o.Term.String(), statePath(x.st))
			return
		}
	}
	p.r.OK("own", p.what)
}

// copied checks that nothing of the decoded text is retained.
func (r *Report) copied(e *Engine, o Outcome, fn *ssa.Function, data SliceV, dst ...Value) {
	x := &X{e: e, st: o.st, fr: &Frame{fn: fn}}
	root, _ := dst[0].(PtrV)
	var objs []*Obj
	if root.Obj != nil {
		objs = append(objs, root.Obj)
	} else {
		for _, v := range dst {
			contentObjs(newCell(v), func(q *Obj) { objs = append(objs, q) })
		}
	}
	for _, q := range append(reach(x, objs), survivors(x, e, PtrV{})...) {
		if q == data.Base.Obj {
			r.Fail("copy", fnName(fn), posOf(r.P, fn), "the text that is decoded is retained", statePath(o.st))
			return
		}
	}
	r.OK("copy", fnName(fn))
}

// survivors are the objects that self and package variables refer to.
func survivors(x *X, e *Engine, self PtrV) []*Obj {
	var l []*Obj
	for _, ob := range sortedObjs(x.st) {
		if e.shared[ob.Term] || ob.Term.Op == "global" || ob.Term.Op == "galloc" || rooted(ob.Term, "pooled") || self.Obj != nil && ob == self.Obj {
			l = append(l, ob)
		}
	}
	return reach(x, l)
}

// reach lists the objects that can be reached from others.
func reach(x *X, l []*Obj) []*Obj {
	seen := map[*Obj]bool{}
	for k := 0; k < len(l); k++ {
		if seen[l[k]] {
			continue
		}
		seen[l[k]] = true
		if c, ok := x.st.heap[l[k]]; ok {
			contentObjs(c, func(q *Obj) {
				if !seen[q] {
					l = append(l, q)
				}
			})
		}
	}
	return l
}

func isSkolem(t *Term) bool { return t.Op == "skolem" }

// sameSite tells whether two objects are allocated at the same place.
func sameSite(a, b *Term) bool {
	if a == b {
		return true
	}
	if a.Op != "alloc" || b.Op != "alloc" || len(a.Args) < 2 || len(b.Args) < 2 {
		return false
	}
	return a.Args[0].argKey() == b.Args[0].argKey() && a.Args[1].argKey() == b.Args[1].argKey()
}
