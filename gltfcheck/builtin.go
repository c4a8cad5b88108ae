package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

// SnapV is the content of a slice at some point.
type SnapV struct {
	S   SliceV
	C   *SeqC
	Off *Poly
}

func (x *X) ev(kind string, args ...Value) {
	ev := &Ev{Kind: kind, Args: args, Pos: x.pos(), Fn: fnName(x.fr.fn)}
	if x.e.onEv != nil {
		x.e.onEv(x, ev)
	}
	x.st.addEv(ev)
}

// seqOf returns the content of the array a slice points to, and the offset of
// the slice in it.
func (x *X) seqOf(s SliceV) (*SeqC, *Poly) {
	if s.Base.Obj == nil {
		return &SeqC{Elem: s.Elem}, &Poly{}
	}
	if s.Base.Obj.Kind == OSeq && len(s.Base.Path) == 0 {
		if v, ok := x.e.viewOf[s.Base.Obj]; ok {
			if types.Identical(v.Typ, s.Base.Obj.Typ) {
				return x.seqContent(v), s.Off
			}
		}
		return x.seqContent(s.Base.Obj), s.Off
	}
	v := x.loadPath(PtrV{Obj: s.Base.Obj, Path: s.Base.Path, Elem: s.Elem})
	if a, ok := v.(ArrayV); ok {
		c := &SeqC{Elem: s.Elem}
		for i, e := range a.E {
			c.W = append(c.W, SWrite{Kind: WPoint, Idx: PInt(int64(i)), V: e})
		}
		return c, s.Off
	}
	return &SeqC{Elem: s.Elem, Base: mkTerm("arrayof", SRef, nil, argOf(v))}, s.Off
}

func (x *X) snap(s SliceV) SnapV {
	c, off := x.seqOf(s)
	return SnapV{s, c, off}
}

// writeSeq applies a write, in coordinates of the backing array.
func (x *X) writeSeq(dst SliceV, w SWrite) {
	o := dst.Base.Obj
	if o == nil {
		return
	}
	if o.Kind == OSeq && len(dst.Base.Path) == 0 {
		x.seqWrite(o, w)
		return
	}
	at := func(i *Poly, v Value) {
		x.store(PtrV{Obj: o, Path: append(dst.Base.Path[:len(dst.Base.Path):len(dst.Base.Path)], PE{Idx: i}), Elem: dst.Elem}, v)
	}
	switch w.Kind {
	case WPoint:
		at(w.Idx, w.V)
		return
	case WCopy, WZero:
		if n, ok := x.st.F.Norm(w.N).Int(); ok && n <= 64 {
			for i := int64(0); i < n; i++ {
				v := zeroValue(dst.Elem)
				if w.Kind == WCopy {
					v = x.seqAt(w.Src, w.SrcOff.AddI(i))
				}
				at(w.Idx.AddI(i), v)
			}
			return
		}
	}
	x.st.put(o, newCell(symOf(o.Typ, "sk", append(x.site(), Lit("havoc"))...)))
}

// copyTo copies n elements.
func (x *X) copyTo(dst SliceV, at *Poly, src *SeqC, srcOff, n *Poly) {
	if c, ok := x.st.F.Norm(n).Int(); ok {
		if c <= 0 {
			return
		}
		if c <= 8 {
			vs := make([]Value, c)
			for i := range vs {
				vs[i] = x.seqAt(src, srcOff.AddI(int64(i)))
			}
			for i, v := range vs {
				x.writeSeq(dst, SWrite{Kind: WPoint, Idx: at.AddI(int64(i)), V: v})
			}
			return
		}
	}
	if src.Base == nil && len(src.W) == 0 {
		x.writeSeq(dst, SWrite{Kind: WZero, Idx: at, N: n})
		return
	}
	x.writeSeq(dst, SWrite{Kind: WCopy, Idx: at, N: n, Src: src, SrcOff: srcOff})
}

// source is the content of the second operand of append and copy.
func (x *X) source(v Value) (c *SeqC, off, n *Poly) {
	switch s := v.(type) {
	case StrV:
		return &SeqC{Elem: types.Typ[types.Byte], Base: mkTerm("strbytes", SRef, nil, s.T)}, &Poly{}, lenOfStr(s.T)
	case SliceV:
		c, off = x.seqOf(s)
		return c, off, s.Len
	}
	return &SeqC{Elem: types.Typ[types.Byte], Base: x.freshTerm("src", SRef)}, &Poly{}, PVar(mkInt("sk", bigZero, maxLen, append(x.site(), Lit("srclen"))...))
}

func (x *X) appendTo(a, b Value, et types.Type) Value {
	s := x.sliceOf(a)
	src, srcOff, n := x.source(b)
	n = x.st.F.Norm(n)
	if c, ok := n.Int(); ok && c == 0 {
		return s
	}
	capFor := func(nl *Poly) *Poly {
		t := x.freshTerm("cap", SInt)
		if t.Lo == nil {
			t.Lo, t.Hi = bigZero, maxLen
		}
		c := PVar(t)
		x.assume(bGe(c.Sub(nl)))
		return c
	}
	if s.Base.Obj == nil {
		if n.Const() == nil && x.decide(bEq(n)) {
			return s
		}
		r := x.newSlice(et, n, capFor(n), "append")
		x.copyTo(r, &Poly{}, src, srcOff, n)
		return r
	}
	nl := s.Len.Add(n)
	x.assume(bGe(PConst(maxLen).Sub(nl)))
	if s.Base.Obj.Fresh() && s.Base.Obj.Kind == OSeq && len(s.Base.Path) == 0 {
		r := s
		r.Len = nl
		if !x.st.F.Entails(s.Cap.Sub(nl)) {
			r.Cap = capFor(nl)
		}
		x.copyTo(r, s.Off.Add(s.Len), src, srcOff, n)
		return r
	}
	if n.Const() == nil && x.decide(bEq(n)) {
		return s
	}
	r := x.newSlice(et, nl, capFor(nl), "append")
	old, oldOff := x.seqOf(s)
	if !x.st.F.EntailsEq(s.Len) {
		x.writeSeq(r, SWrite{Kind: WCopy, Idx: &Poly{}, N: s.Len, Src: old, SrcOff: oldOff})
	}
	x.copyTo(r, s.Len, src, srcOff, n)
	if !x.st.F.EntailsEq(s.Cap.Sub(s.Len)) {
		x.st.alias = cloneMap(x.st.alias)
		x.st.alias[r.Base.Obj] = s.Base.Obj
		x.ev("appendspare", s, n2v(n))
	}
	return r
}

func n2v(p *Poly) Value { return goInt(p) }

func (x *X) builtin(name string, c *ssa.CallCommon, args []Value) Value {
	switch name {
	case "len", "cap":
		return x.lenOf(name, args[0])
	case "append":
		st := c.Args[0].Type().Underlying().(*types.Slice)
		return x.appendTo(args[0], args[1], st.Elem())
	case "copy":
		d := x.sliceOf(args[0])
		src, off, n := x.source(args[1])
		m := n
		if !x.decide(bGe(d.Len.Sub(n))) {
			m = d.Len
		}
		x.copyTo(d, d.Off, src, off, m)
		return goInt(m)
	case "delete":
		if m, ok := args[0].(MapV); ok {
			x.mapDelete(m, args[1])
		}
		return nil
	case "clear":
		switch a := args[0].(type) {
		case SliceV:
			x.writeSeq(a, SWrite{Kind: WZero, Idx: a.Off, N: a.Len})
		case MapV:
			if a.Obj != nil {
				mt, _ := a.Obj.Typ.Underlying().(*types.Map)
				x.st.put(a.Obj, &MapC{T: mt})
			}
		}
		return nil
	case "min", "max":
		r := args[0]
		for _, b := range args[1:] {
			switch p := r.(type) {
			case IntV:
				if x.decide(bGe(b.(IntV).P.Sub(p.P))) == (name == "max") {
					r = b
				}
			default:
				r = symOf(c.Signature().Results().At(0).Type(), "call:"+name, argOf(r), argOf(b))
			}
		}
		return r
	case "print", "println":
		return nil
	case "recover":
		return IfaceV{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(PtrV); ok {
			x.oblige(x.isNil(p).not(), "nil", "nil receiver")
		}
		return args[0]
	case "Slice": // unsafe.Slice
		return x.unsafeSlice(args[0], x.intOf(args[1]), c.Signature().Results().At(0).Type().Underlying().(*types.Slice).Elem())
	case "SliceData":
		s := x.sliceOf(args[0])
		if s.Base.Obj == nil {
			return PtrV{Elem: s.Elem}
		}
		return sliceElem(s, &Poly{}, s.Elem)
	case "StringData", "String", "Add":
		x.undecided("unsafe." + name)
	}
	return x.fresh(c.Signature().Results(), name)
}

func (x *X) lenOf(name string, v Value) Value {
	switch s := v.(type) {
	case StrV:
		return goInt(lenOfStr(s.T))
	case SliceV:
		if name == "cap" {
			return goInt(s.Cap)
		}
		return goInt(s.Len)
	case MapV:
		if s.Obj == nil {
			return goIntC(0)
		}
		c := x.get(s.Obj).(*MapC)
		if conc := x.concreteEntries(c); c.Base == nil && (conc != nil || len(c.W) == 0) {
			return goIntC(int64(len(conc)))
		}
		if x.decide(x.isNil(s)) {
			return goIntC(0)
		}
		if len(c.W) == 0 {
			return goInt(PVar(mkInt("maplen", bigZero, maxLen, c.Base)))
		}
		return goInt(PVar(mkInt("maplen", bigZero, maxLen, mkTerm("mapcontent", SRef, nil, Lit(c.key())))))
	case ArrayV:
		return goIntC(int64(len(s.E)))
	case PtrV:
		if a, ok := s.Elem.Underlying().(*types.Array); ok {
			return goIntC(a.Len())
		}
	}
	return goInt(PVar(mkInt("sk", bigZero, maxLen, append(x.site(), Lit("len"))...)))
}

// unsafeSlice views n elements of type et from the location p.
func (x *X) unsafeSlice(v Value, n *Poly, et types.Type) Value {
	p, ok := v.(PtrV)
	if !ok {
		x.undecided("unsafe.Slice of unknown pointer")
		return symSlice(x.freshTerm("us", SRef), et)
	}
	x.oblige(bGe(n), "unsafe", "unsafe.Slice with a negative length")
	if p.Obj == nil {
		x.oblige(bEq(n), "unsafe", "unsafe.Slice of a nil pointer")
		return zeroValue(types.NewSlice(et))
	}
	mem := p.Elem
	if p.Cast != nil {
		mem = p.Cast
	}
	ms, es := x.e.P.Sizes.Sizeof(mem), x.e.P.Sizes.Sizeof(et)
	if len(p.Path) == 0 || p.Path[len(p.Path)-1].Idx == nil || p.Obj.Kind != OSeq || len(p.Path) > 1 {
		x.undecided("unsafe.Slice of a pointer that is not an array element")
		return symSlice(x.freshTerm("us", SRef), et)
	}
	off := p.Path[0].Idx
	// The elements must lie within the memory of the array.
	if c := x.extent(p.Obj); c != nil {
		x.oblige(bGe(c.Sub(off).ScaleI(ms).Sub(n.ScaleI(es))), "unsafe", "unsafe.Slice exceeds the memory of the array")
	} else {
		x.undecided("unsafe.Slice of memory of unknown size")
	}
	if types.Identical(mem, et) {
		return SliceV{Base: PtrV{Obj: p.Obj, Elem: et}, Off: off, Len: n, Cap: n, Elem: et}
	}
	view := mkObj(mkTerm("reinterp", SRef, nil, p.Obj.Term, Lit(typeKey(et)), off), et, OSeq)
	x.e.viewOf[view] = p.Obj
	if c, ok := x.st.heap[p.Obj].(*SeqC); ok && c.Base == nil && len(c.W) == 0 {
		x.st.put(view, &SeqC{Elem: et})
	} else if ok {
		x.st.put(view, &SeqC{Elem: et, Base: mkTerm("recast", SRef, nil, Lit(c.key()), Lit(typeKey(et)), off)})
	}
	return SliceV{Base: PtrV{Obj: view, Elem: et}, Off: &Poly{}, Len: n, Cap: n, Elem: et}
}

// extent is the number of elements of the array.
func (x *X) extent(o *Obj) *Poly {
	if o.Term.Op == "arr" {
		return PVar(arrCap(o.Term))
	}
	return x.e.extents[o]
}

// ---- globals

// globalValue is the value of a package variable outside of the repository.
func (x *X) globalValue(g *ssa.Global, t types.Type) (Value, bool) {
	if g.Pkg != nil && inRepo(g.Pkg.Pkg.Path()) {
		return nil, false
	}
	name := g.RelString(nil)
	term := mkTerm("stdvar", SRef, nil, Lit(name))
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return IfaceV{T: term}, true
	case *types.Struct:
		if u.NumFields() == 0 {
			return StructV{T: t}, true
		}
	case *types.Pointer:
		return PtrV{Obj: mkObj(mkTerm("global", SRef, nil, Lit("*"+name)), u.Elem(), OCell), Elem: u.Elem()}, true
	}
	return symOf(t, "stdval", Lit(name)), true
}

// inRepo reports whether a package belongs to the repository.
func inRepo(path string) bool {
	return path == modPath || len(path) > len(modPath) && path[:len(modPath)+1] == modPath+"/"
}

// ---- errors

func (x *X) newErr(args ...Arg) IfaceV {
	x.cnt++
	return IfaceV{T: mkTerm("err", SRef, nil, append(append(x.site(), Lit(strconv.Itoa(x.cnt))), args...)...)}
}

// fallible is the error of an operation of the environment, which may fail or
// not.
func (x *X) fallible(kind string, args ...Value) (IfaceV, bool) {
	e := IfaceV{T: x.freshTerm("error:"+kind, SRef)}
	ok := x.decide(x.isNil(e))
	x.ev("fallible", append([]Value{StrV{strConst(kind).T}, e}, args...)...)
	return e, ok
}

// deepArg names a value together with the content of slices.
func (x *X) deepArg(v Value) Arg {
	switch s := v.(type) {
	case SliceV:
		if s.Base.Obj == nil {
			return Lit("nilslice")
		}
		if n, ok := x.st.F.Norm(s.Len).Int(); ok && n <= 16 {
			args := []Arg{}
			c, off := x.seqOf(s)
			for i := int64(0); i < n; i++ {
				args = append(args, x.deepArg(x.seqAt(c, off.AddI(i))))
			}
			return mkTerm("list", SRef, nil, args...)
		}
		if b, ok := s.Elem.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return x.bytesTerm(s)
		}
		c, off := x.seqOf(s)
		return mkTerm("seqval", SRef, nil, Lit(c.key()), off, s.Len)
	case IfaceV:
		if s.T == nil && s.Dyn != nil {
			return mkTerm("iface", SRef, nil, Lit(typeKey(s.Dyn)), x.deepArg(s.Val))
		}
	}
	return argOf(v)
}

// pure names the results of a function that depends only on its arguments.
func (x *X) pure(name string, args []Value, sig *types.Signature) Value {
	var as []Arg
	for _, a := range args {
		as = append(as, x.deepArg(a))
	}
	n := sig.Results().Len()
	r := make(TupleV, n)
	for i := range r {
		r[i] = symOf(sig.Results().At(i).Type(), "call:"+name+"#"+strconv.Itoa(i), as...)
	}
	if n > 1 {
		if e, ok := r[n-1].(IfaceV); ok && isErrorType(sig.Results().At(n-1).Type()) {
			if x.decide(x.isNil(e)) {
				for i := range r[:n-1] {
					if p, ok := r[i].(PtrV); ok {
						x.assume(x.isNil(p).not())
					}
				}
			} else {
				for i := range r[:n-1] {
					r[i] = zeroValue(sig.Results().At(i).Type())
				}
			}
		}
	}
	if n == 1 {
		return r[0]
	}
	return r
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// havocArg forgets what is reachable directly from an argument passed to
// unknown code.
func (x *X) havocArg(v Value) {
	switch a := v.(type) {
	case PtrV:
		if a.Obj == nil {
			return
		}
		if a.Obj.Kind == OCell && len(a.Path) == 0 {
			x.st.put(a.Obj, newCell(x.fresh(a.Obj.Typ, "havoc")))
		} else if a.Obj.Kind == OCell {
			x.store(a, x.fresh(a.Elem, "havoc"))
		}
	case SliceV:
		if a.Base.Obj != nil && a.Base.Obj.Kind == OSeq && len(a.Base.Path) == 0 {
			x.writeSeq(a, SWrite{Kind: WHavoc, Idx: a.Off, N: a.Len, ID: x.freshTerm("hv", SAny)})
		}
	case MapV:
		if a.Obj != nil {
			mt, _ := a.Obj.Typ.Underlying().(*types.Map)
			x.st.put(a.Obj, &MapC{T: mt, Base: x.freshTerm("hvmap", SRef)})
		}
	case IfaceV:
		if a.T == nil && a.Dyn != nil {
			x.havocArg(a.Val)
		}
	}
}

func (x *X) results(sig *types.Signature, name string) Value {
	n := sig.Results().Len()
	if n == 0 {
		return nil
	}
	r := make(TupleV, n)
	for i := range r {
		t := sig.Results().At(i).Type()
		r[i] = x.fresh(t, name+"#"+strconv.Itoa(i))
	}
	if isErrorType(sig.Results().At(n - 1).Type()) {
		e, ok := x.fallible(name)
		r[n-1] = e
		if ok {
			for _, v := range r[:n-1] {
				switch v := v.(type) {
				case PtrV, IfaceV:
					x.assume(x.isNil(v).not())
				}
			}
		}
	}
	if n == 1 {
		return r[0]
	}
	return r
}

// external is a call of a function without a model.
func (x *X) external(fn *ssa.Function, args []Value, sig *types.Signature) Value {
	name := fnFull(fn)
	if fn.Synthetic == "package initializer" {
		return nil
	}
	pkg := ""
	if fn.Package() != nil {
		pkg = fn.Package().Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Package() != nil {
		pkg = o.Package().Pkg.Path()
	}
	switch pkg {
	case "strings", "strconv", "path", "path/filepath", "net/url", "math", "math/bits", "unicode", "unicode/utf8", "cmp", "mime", "hash/crc32":
		return x.pure(name, args, sig)
	}
	x.ev("extern", append([]Value{StrV{strConst(name).T}}, args...)...)
	x.e.External[name]++
	for _, a := range args {
		x.havocArg(a)
	}
	return x.results(sig, name)
}

// callUnknown is a call of a function value that is not known.
func (x *X) callUnknown(f FuncV, args []Value, sig *types.Signature) Value {
	n := sig.Results().Len()
	if n == 0 {
		x.ev("callback", append([]Value{f}, args...)...)
		return nil
	}
	r := make(TupleV, n)
	for i := range r {
		r[i] = x.fresh(sig.Results().At(i).Type(), "callback#"+strconv.Itoa(i))
	}
	if isErrorType(sig.Results().At(n - 1).Type()) {
		r[n-1], _ = x.fallible("callback", f)
	}
	x.ev("callback", append(append([]Value{f}, args...), r)...)
	if n == 1 {
		return r[0]
	}
	return r
}

// ---- package initialisation

// InitBase executes the initialisers of the packages of the repository.
func (e *Engine) InitBase() {
	st := newState()
	st.ctx = "init:"
	for _, pk := range e.P.Pkgs {
		sp := e.P.Prog.Package(pk.Types)
		if g, ok := sp.Members["init$guard"].(*ssa.Global); ok {
			st.put(globalPtr(g).Obj, newCell(bFalse))
		}
	}
	e.quiet++
	for _, pk := range e.P.Pkgs {
		sp := e.P.Prog.Package(pk.Types)
		in := sp.Func("init")
		if in == nil {
			continue
		}
		outs := e.fn(st, in, nil, nil)
		if len(outs) != 1 {
			e.quiet--
			panic(undecidedErr{fmt.Sprintf("initialisation of %s has %d outcomes", pk.PkgPath, len(outs))})
		}
		st = outs[0].st
	}
	e.quiet--
	m := map[*Term]Arg{}
	var note func(v Value)
	_ = note
	for _, t := range termList {
		if t.Op == "alloc" {
			m[t] = mkTerm("galloc", SRef, nil, t.Args...)
		}
	}
	s := newSubster(m)
	base := newState()
	for o, c := range st.heap {
		base.heap[substObj(o, s)] = substContent(c, s)
	}
	// Registered extensions, for instance, are not known.
	for g := range e.mutableGlobals() {
		p := globalPtr(g)
		if n, ok := p.Elem.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" {
			continue
		}
		var forget func(o *Obj)
		forget = func(o *Obj) {
			if o == nil || e.shared[o.Term] {
				return
			}
			e.shared[o.Term] = true
			c, ok := base.heap[o]
			delete(base.heap, o)
			if ok {
				contentObjs(c, forget)
			}
		}
		if !e.storedGlobal(g) {
			// The variable keeps what it refers to, whose content changes.
			if c, ok := base.heap[p.Obj]; ok {
				contentObjs(c, forget)
				continue
			}
		}
		forget(p.Obj)
	}
	e.Base = base
	for o, c := range st.heap {
		m, ok := c.(*MapC)
		if !ok {
			continue
		}
		for _, w := range m.W {
			k, isS := w.Key.(StrV)
			f, isF := w.Val.(FuncV)
			if isS && isF && w.Loop == nil && !w.Del {
				if key, ok := k.Const(); ok {
					e.Registered = append(e.Registered, Registration{substObj(o, s), key, f})
				}
			}
		}
	}
}

// contentObjs visits the objects a content refers to.
func contentObjs(c Content, f func(o *Obj)) {
	var val func(v Value)
	val = func(v Value) {
		switch v := v.(type) {
		case PtrV:
			if v.Obj != nil {
				f(v.Obj)
			}
		case SliceV:
			if v.Base.Obj != nil {
				f(v.Base.Obj)
			}
		case MapV:
			if v.Obj != nil {
				f(v.Obj)
			}
		case IfaceV:
			val(v.Val)
		case StructV:
			for _, w := range v.F {
				val(w)
			}
		case ArrayV:
			for _, w := range v.E {
				val(w)
			}
		case TupleV:
			for _, w := range v {
				val(w)
			}
		}
	}
	switch c := c.(type) {
	case CellC:
		val(c.V)
	case *SeqC:
		for _, w := range c.W {
			val(w.V)
		}
	case *MapC:
		for _, w := range c.W {
			val(w.Key)
			val(w.Val)
		}
	}
}

// storedGlobal tells whether code other than the initialisers changes the
// memory of the variable itself or lets its address escape.
func (e *Engine) storedGlobal(g *ssa.Global) bool {
	for _, f := range e.P.RepoFns {
		if f.Synthetic == "package initializer" || isInitFn(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == ssa.Value(g) && !addrRead(in, g, 0) {
						return true
					}
				}
			}
		}
	}
	return false
}

// addrRead tells whether the instruction only reads the memory at address v.
func addrRead(in ssa.Instruction, v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	all := func(a ssa.Value) bool {
		for _, u := range *a.Referrers() {
			if !addrRead(u, a, depth+1) {
				return false
			}
		}
		return true
	}
	switch in := in.(type) {
	case *ssa.UnOp:
		return in.Op == token.MUL
	case *ssa.FieldAddr:
		return all(in)
	case *ssa.IndexAddr:
		return all(in)
	case *ssa.DebugRef:
		return true
	case ssa.CallInstruction:
		f := in.Common().StaticCallee()
		if f == nil {
			return false
		}
		if f.Package() != nil && f.Package().Pkg.Path() == "sync" {
			return true
		}
		if f.Blocks == nil || f.Package() == nil || !inRepo(f.Package().Pkg.Path()) {
			return false
		}
		for i, a := range in.Common().Args {
			if a == v && !all(f.Params[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// Registration is a function stored by an initialiser in a map.
type Registration struct {
	Map *Obj
	Key string
	Fn  FuncV
}

// mutableGlobals returns the package variables that code other than the
// initialisers may modify, directly or through what they refer to.
func (e *Engine) mutableGlobals() map[*ssa.Global]bool {
	r := map[*ssa.Global]bool{}
	for _, f := range e.P.RepoFns {
		if f.Synthetic == "package initializer" || isInitFn(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && !r[g] {
						if !readOnlyUse(in, g, 0) {
							r[g] = true
						}
					}
				}
			}
		}
	}
	return r
}

func isInitFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		return false
	}
	return f.Name() == "init" || len(f.Name()) > 5 && f.Name()[:5] == "init#"
}

// readOnlyUse reports whether the instruction, and those that use its result,
// only read what v refers to.
func readOnlyUse(in ssa.Instruction, v ssa.Value, depth int) bool {
	if depth > 6 {
		return false
	}
	uses := func(r ssa.Value) bool {
		if !refersTo(r.Type()) {
			return true
		}
		if r.Referrers() == nil {
			return true
		}
		for _, u := range *r.Referrers() {
			if !readOnlyUse(u, r, depth+1) {
				return false
			}
		}
		return true
	}
	switch in := in.(type) {
	case *ssa.UnOp:
		return uses(in)
	case *ssa.FieldAddr:
		return uses(in)
	case *ssa.IndexAddr:
		return uses(in)
	case *ssa.Lookup, *ssa.Range, *ssa.Next, *ssa.BinOp, *ssa.If, *ssa.DebugRef, *ssa.Index:
		if x, ok := in.(ssa.Value); ok {
			return uses(x)
		}
		return true
	case *ssa.Extract, *ssa.Field, *ssa.ChangeType, *ssa.MakeInterface, *ssa.Phi, *ssa.Slice:
		return uses(in.(ssa.Value))
	case *ssa.Call:
		if b, ok := in.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap":
				return true
			case "copy", "append":
				return in.Call.Args[0] != v
			}
			return false
		}
		if f := in.Call.StaticCallee(); f != nil && f.Package() != nil && f.Package().Pkg.Path() == "strings" {
			return true
		}
		if _, ok := v.Type().Underlying().(*types.Signature); ok {
			return true
		}
		return false
	}
	return false
}

// refersTo reports whether values of the type give access to shared memory.
func refersTo(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Signature:
		return false
	case *types.Array:
		return refersTo(u.Elem())
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refersTo(u.Field(i).Type()) {
				return true
			}
		}
		return false
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refersTo(u.At(i).Type()) {
				return true
			}
		}
		return false
	case *types.Interface:
		return false
	}
	return true
}

var bigMaxLen = new(big.Int).Set(maxLen)
