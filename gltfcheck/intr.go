package main

import (
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic = func(x *X, args []Value) Value

var intrinsics = map[string]intrinsic{}

func reg(h intrinsic, names ...string) {
	for _, n := range names {
		intrinsics[n] = h
	}
}

var (
	tByte   = types.Typ[types.Byte]
	tString = types.Typ[types.String]
	noErr   = IfaceV{}
)

func stdVar(name string) IfaceV { return IfaceV{T: mkTerm("stdvar", SRef, nil, Lit(name))} }

// byteSlice returns a fresh slice of n bytes with the content named base.
func (x *X) byteSlice(base *Term, n *Poly, tag string) SliceV {
	o := x.alloc(tByte, OSeq, tag)
	x.e.extents[o] = n
	x.st.put(o, &SeqC{Elem: tByte, Base: base})
	return SliceV{Base: PtrV{Obj: o, Elem: tByte}, Off: &Poly{}, Len: n, Cap: n, Elem: tByte}
}

func (x *X) byteSliceOf(c *SeqC, off, n *Poly, tag string) SliceV {
	s := x.newSlice(tByte, n, n, tag)
	x.copyTo(s, &Poly{}, c, off, n)
	return s
}

func nilBytes() SliceV { return zeroValue(types.NewSlice(tByte)).(SliceV) }

func textBytes(t *Term) *Term { return mkTerm("strbytes", SRef, nil, t) }

func cstr(v Value) (string, bool) {
	if s, ok := v.(StrV); ok {
		return s.Const()
	}
	return "", false
}

// ---- strings

func (x *X) hasPrefix(a, b Value) bool {
	s, p := a.(StrV), b.(StrV)
	sc, ok1 := s.Const()
	pc, ok2 := p.Const()
	if ok1 && ok2 {
		return strings.HasPrefix(sc, pc)
	}
	if ok2 && s.T.Op == "cat" {
		if f := s.T.Args[0].(*Term); f.Op == "sc" {
			fs := string(f.Args[0].(Lit))
			if len(fs) >= len(pc) {
				return strings.HasPrefix(fs, pc)
			}
			if !strings.HasPrefix(pc, fs) {
				return false
			}
		}
	}
	n := lenOfStr(s.T).Sub(lenOfStr(p.T))
	if x.st.F.Entails(n.Neg().AddI(-1)) {
		return false
	}
	if x.st.F.EntailsEq(n) {
		return x.decide(strEq(s, p))
	}
	if !x.decide(bAtom(mkTerm("prefix", SBool, nil, s.T, p.T))) {
		return false
	}
	x.assume(bGe(n))
	return true
}

func init() {
	fold1 := func(name string, f func(a string) string) {
		reg(func(x *X, a []Value) Value {
			if s, ok := cstr(a[0]); ok {
				return strConst(f(s))
			}
			return StrV{mkTerm("call:"+name+"#0", SStr, nil, argOf(a[0]))}
		}, name)
	}
	fold1("strings.ToLower", strings.ToLower)
	fold1("strings.ToUpper", strings.ToUpper)
	fold1("strings.TrimSpace", strings.TrimSpace)
	reg(func(x *X, a []Value) Value { return bConst(x.hasPrefix(a[0], a[1])) }, "strings.HasPrefix")
	reg(func(x *X, a []Value) Value {
		s := a[0].(StrV)
		if x.hasPrefix(a[0], a[1]) {
			n := lenOfStr(s.T)
			return substr(s.T, lenOfStr(a[1].(StrV).T), n, n)
		}
		return s
	}, "strings.TrimPrefix")
	reg(func(x *X, a []Value) Value {
		s := a[0].(StrV)
		if x.hasPrefix(a[0], a[1]) {
			n := lenOfStr(s.T)
			return TupleV{substr(s.T, lenOfStr(a[1].(StrV).T), n, n), bTrue}
		}
		return TupleV{s, bFalse}
	}, "strings.CutPrefix")
	reg(func(x *X, a []Value) Value {
		s, ok1 := cstr(a[0])
		p, ok2 := cstr(a[1])
		if ok1 && ok2 {
			return bConst(strings.Contains(s, p))
		}
		return bAtom(mkTerm("contains", SBool, nil, argOf(a[0]), argOf(a[1])))
	}, "strings.Contains")
	reg(func(x *X, a []Value) Value {
		t := mkInt("call:strings.Index#0", nil, nil, argOf(a[0]), argOf(a[1]))
		i := PVar(t)
		in := bAtom(mkTerm("contains", SBool, nil, argOf(a[0]), argOf(a[1])))
		if x.decide(in) {
			x.assume(bGe(i))
			x.assume(bGe(lenOfStr(a[0].(StrV).T).Sub(i).Sub(lenOfStr(a[1].(StrV).T))))
		} else {
			x.assume(bEq(i.AddI(1)))
		}
		return goInt(i)
	}, "strings.Index")
	repl := func(x *X, s, o, n Value) Value {
		sc, ok1 := cstr(s)
		oc, ok2 := cstr(o)
		nc, ok3 := cstr(n)
		if ok1 && ok2 && ok3 {
			return strConst(strings.ReplaceAll(sc, oc, nc))
		}
		return StrV{mkTerm("replaceall", SStr, nil, argOf(s), argOf(o), argOf(n))}
	}
	reg(func(x *X, a []Value) Value { return repl(x, a[0], a[1], a[2]) }, "strings.ReplaceAll")
	reg(func(x *X, a []Value) Value {
		if i, ok := a[3].(IntV); ok {
			if c, ok := i.P.Int(); ok && c < 0 {
				return repl(x, a[0], a[1], a[2])
			}
		}
		return StrV{mkTerm("call:strings.Replace#0", SStr, nil, argOf(a[0]), argOf(a[1]), argOf(a[2]), argOf(a[3]))}
	}, "strings.Replace")
	reg(func(x *X, a []Value) Value { return a[0] }, "strings.Clone")

	// ---- errors and formatting
	reg(func(x *X, a []Value) Value { return x.newErr() }, "errors.New", "fmt.Errorf")
	reg(func(x *X, a []Value) Value {
		if x.decide(x.isNil(a[0])) {
			return x.equal(a[0], a[1])
		}
		if x.decide(x.equal(a[0], a[1])) {
			return bTrue
		}
		e, _ := a[0].(IfaceV)
		if e.T != nil && (e.T.Op == "stdvar") {
			return bFalse
		}
		return bAtom(mkTerm("erris", SBool, nil, argOf(a[0]), argOf(a[1])))
	}, "errors.Is")
	reg(func(x *X, a []Value) Value {
		s := x.sliceOf(a[0])
		if n, ok := x.st.F.Norm(s.Len).Int(); ok {
			any := false
			for i := int64(0); i < n; i++ {
				if !x.decide(x.isNil(x.elemAt(s, PInt(i)))) {
					any = true
				}
			}
			if !any {
				return noErr
			}
			return x.newErr()
		}
		return x.fresh(types.Universe.Lookup("error").Type(), "join")
	}, "errors.Join")
	for _, n := range []string{"fmt.Sprintf", "fmt.Sprint", "fmt.Sprintln"} {
		n := n
		reg(func(x *X, a []Value) Value {
			var as []Arg
			for _, v := range a {
				as = append(as, x.deepArg(v))
			}
			return StrV{mkTerm("call:"+n, SStr, nil, as...)}
		}, n)
	}
	reg(func(x *X, a []Value) Value { return TupleV{goInt(PVar(x.freshTerm("n", SInt))), noErr} }, "fmt.Println", "fmt.Printf", "fmt.Print")

	// ---- math
	reg(func(x *X, a []Value) Value {
		if c, ok := a[0].(IntV).P.Int(); ok {
			if c >= 0 {
				return floatConst(math.Inf(1), 64)
			}
			return floatConst(math.Inf(-1), 64)
		}
		return FloatV{mkTerm("call:math.Inf", SFloat, nil, argOf(a[0])), 64}
	}, "math.Inf")
	reg(func(x *X, a []Value) Value {
		f := a[0].(FloatV)
		i, ok2 := a[1].(IntV).P.Int()
		if c, ok := f.Const(); ok && ok2 {
			return bConst(math.IsInf(c, int(i)))
		}
		switch {
		case ok2 && i > 0:
			return x.equal(f, floatConst(math.Inf(1), 64))
		case ok2 && i < 0:
			return x.equal(f, floatConst(math.Inf(-1), 64))
		}
		return x.decideAny(x.equal(f, floatConst(math.Inf(1), 64)), x.equal(f, floatConst(math.Inf(-1), 64)))
	}, "math.IsInf")
	fold := func(name string, f func(float64) float64) {
		reg(func(x *X, a []Value) Value {
			if c, ok := a[0].(FloatV).Const(); ok {
				return floatConst(f(c), 64)
			}
			return FloatV{mkTerm("call:"+name, SFloat, nil, argOf(a[0])), 64}
		}, name)
	}
	fold("math.Round", math.Round)
	fold("math.Abs", math.Abs)
	fold("math.Floor", math.Floor)
	fold("math.Ceil", math.Ceil)
	fold("math.Trunc", math.Trunc)
	fold("math.Sqrt", math.Sqrt)
	for n, f := range map[string]func(a, b float64) float64{"math.Max": math.Max, "math.Min": math.Min, "math.Pow": math.Pow} {
		n, f := n, f
		reg(func(x *X, a []Value) Value {
			p, ok1 := a[0].(FloatV).Const()
			q, ok2 := a[1].(FloatV).Const()
			if ok1 && ok2 {
				return floatConst(f(p, q), 64)
			}
			return FloatV{mkTerm("call:"+n, SFloat, nil, argOf(a[0]), argOf(a[1])), 64}
		}, n)
	}
	reg(func(x *X, a []Value) Value {
		f := a[0].(FloatV)
		if c, ok := f.Const(); ok {
			return IntV{PInt(int64(math.Float32bits(float32(c)))), types.Typ[types.Uint32]}
		}
		return IntV{bitsOf(f), types.Typ[types.Uint32]}
	}, "math.Float32bits")
	reg(func(x *X, a []Value) Value { return fromBits(a[0].(IntV).P, types.Typ[types.Float32]) }, "math.Float32frombits")
	reg(func(x *X, a []Value) Value {
		f := a[0].(FloatV)
		return IntV{bitsOf(f), types.Typ[types.Uint64]}
	}, "math.Float64bits")

	// ---- sync
	for _, n := range []string{"Lock", "Unlock", "RLock", "RUnlock"} {
		n := n
		reg(func(x *X, a []Value) Value {
			x.ev("lock", strConst(n), a[0])
			return nil
		}, "(*sync.RWMutex)."+n, "(*sync.Mutex)."+n)
	}
	reg(func(x *X, a []Value) Value {
		p, _ := a[0].(PtrV)
		et := x.poolType(p)
		if et == nil {
			x.ev("poolget", p)
			return IfaceV{T: x.freshTerm("pooled", SRef)}
		}
		if pt, ok := et.Underlying().(*types.Pointer); ok {
			x.cnt++
			o := mkObj(mkTerm("pooled", SRef, nil, append(x.site(), Lit(strconv.Itoa(x.cnt)))...), pt.Elem(), OCell)
			x.ev("poolget", p, PtrV{Obj: o, Elem: pt.Elem()})
			return IfaceV{Dyn: et, Val: PtrV{Obj: o, Elem: pt.Elem()}}
		}
		x.ev("poolget", p)
		return IfaceV{Dyn: et, Val: x.fresh(et, "pooled")}
	}, "(*sync.Pool).Get")
	reg(func(x *X, a []Value) Value {
		var c Value
		if i, ok := a[1].(IfaceV); ok {
			c = i.Val
			if p, ok := c.(PtrV); ok && p.Obj != nil {
				c = BoxV{p, x.load(p)}
			}
		}
		x.ev("poolput", a[0], c)
		x.release(c)
		return nil
	}, "(*sync.Pool).Put")

	// ---- slices
	reg(func(x *X, a []Value) Value {
		s := x.sliceOf(a[0])
		n := x.intOf(a[1])
		x.oblige(bGe(n), "panic", "slices.Grow with a negative count")
		if s.Base.Obj == nil {
			if x.decide(bEq(n)) {
				return s
			}
		}
		if x.decide(bGe(s.Cap.Sub(s.Len).Sub(n))) {
			return s
		}
		r := x.newSlice(s.Elem, s.Len, s.Len.Add(n), "grow")
		c, off := x.seqOf(s)
		x.copyTo(r, &Poly{}, c, off, s.Len)
		return r
	}, "slices.Grow")
	reg(func(x *X, a []Value) Value {
		s := x.sliceOf(a[0])
		if x.decide(x.isNil(s)) {
			return SliceV{Off: &Poly{}, Len: &Poly{}, Cap: &Poly{}, Elem: s.Elem}
		}
		r := x.newSlice(s.Elem, s.Len, s.Len, "clone")
		c, off := x.seqOf(s)
		x.copyTo(r, &Poly{}, c, off, s.Len)
		return r
	}, "slices.Clone", "bytes.Clone")
	reg(func(x *X, a []Value) Value {
		s := x.sliceOf(a[0])
		s.Cap = s.Len
		return s
	}, "slices.Clip")
	reg(func(x *X, a []Value) Value {
		p, q := x.sliceOf(a[0]), x.sliceOf(a[1])
		if !x.decide(bEq(p.Len.Sub(q.Len))) {
			return bFalse
		}
		return bAtom(mkTerm("bytesequal", SBool, nil, x.bytesTerm(p), x.bytesTerm(q)))
	}, "bytes.Equal")
	reg(func(x *X, a []Value) Value {
		p, q := x.sliceOf(a[0]), x.sliceOf(a[1])
		return bAtom(mkTerm("bytescontain", SBool, nil, x.bytesTerm(p), x.bytesTerm(q)))
	}, "bytes.Contains")
	replace := func(x *X, src, old, nw *Term, n *Poly) *Term {
		o, ok1 := StrV{old}.Const()
		w, ok2 := StrV{nw}.Const()
		c, ok3 := n.Int()
		if d, ok := x.e.encOf[src]; ok {
			if i, isI := d.(IfaceV); isI {
				if t, ok := x.jsonText(i, i.Dyn); ok {
					src = t
				}
			}
		}
		if ok1 && ok2 && ok3 {
			if t, ok := x.replaceText(src, o, w, c); ok {
				return t
			}
		}
		return mkTerm("call:bytes.Replace", SStr, nil, src, old, nw, n)
	}
	reg(func(x *X, a []Value) Value {
		t := replace(x, x.bytesTerm(x.sliceOf(a[0])), x.bytesTerm(x.sliceOf(a[1])), x.bytesTerm(x.sliceOf(a[2])), x.intOf(a[3]))
		return x.byteSlice(textBytes(t), lenOfStr(t), "replaced")
	}, "bytes.Replace")
	reg(func(x *X, a []Value) Value {
		t := replace(x, x.bytesTerm(x.sliceOf(a[0])), x.bytesTerm(x.sliceOf(a[1])), x.bytesTerm(x.sliceOf(a[2])), PInt(-1))
		return x.byteSlice(textBytes(t), lenOfStr(t), "replaced")
	}, "bytes.ReplaceAll")
	reg(func(x *X, a []Value) Value {
		s := x.sliceOf(a[0])
		n := x.intOf(a[1])
		x.oblige(bGe(n), "panic", "bytes.Repeat with a negative count")
		t := mkTerm("call:bytes.Repeat", SStr, nil, x.bytesTerm(s), n)
		if c, ok := s.Len.Int(); ok && c == 1 {
			if b, ok := x.elemAt(s, &Poly{}).(IntV); ok {
				if v, ok := b.P.Int(); ok {
					r := x.newSlice(tByte, n, n, "repeat")
					if v != 0 {
						l := &LoopInst{ID: "repeat", Bv: mkInt("bv", bigZero, pow2(56), Lit("repeat")), Upper: n, Alts: []LoopAlt{{}}}
						x.seqWrite(r.Base.Obj, SWrite{Kind: WLoop, Loop: l, Alts: [][]SWrite{{{Kind: WPoint, Idx: PVar(l.Bv), V: b}}}})
					}
					return r
				}
			}
		}
		return x.byteSlice(textBytes(t), n.Mul(s.Len), "repeat")
	}, "bytes.Repeat")
	reg(func(x *X, a []Value) Value {
		return StrV{mkTerm("call:strings.Repeat", SStr, nil, argOf(a[0]), x.intOf(a[1]))}
	}, "strings.Repeat")
	strLenHook["call:strings.Repeat"] = func(t *Term) *Poly { return lenOfStr(t.Args[0].(*Term)).Mul(t.Args[1].(*Poly)) }

	// ---- base64
	reg(func(x *X, a []Value) Value {
		e, ok := x.fallible("base64", a[1])
		if !ok {
			return TupleV{x.fresh(types.NewSlice(tByte), "b64"), e}
		}
		t := mkTerm("b64dec", SStr, nil, argOf(a[0]), argOf(a[1]))
		return TupleV{x.byteSlice(textBytes(t), lenOfStr(t), "b64"), noErr}
	}, "(*encoding/base64.Encoding).DecodeString")
	reg(func(x *X, a []Value) Value {
		return StrV{mkTerm("b64enc", SStr, nil, argOf(a[0]), x.bytesTerm(x.sliceOf(a[1])))}
	}, "(*encoding/base64.Encoding).EncodeToString")
	reg(func(x *X, a []Value) Value {
		n := x.intOf(a[1])
		return goInt(FDiv(n.AddI(2), PInt(3).Const()).ScaleI(4))
	}, "(*encoding/base64.Encoding).EncodedLen")

	// ---- files
	reg(func(x *X, a []Value) Value {
		return IfaceV{T: mkTerm("err", SRef, nil, Lit("dirfs"), argOf(a[0]))}
	}, "os.DirFS")
	open := func(kind string, nonEmpty bool) intrinsic {
		return func(x *X, a []Value) Value {
			e, ok := x.fallible(kind, a[0])
			if !ok {
				return TupleV{PtrV{Elem: x.osFile()}, e}
			}
			x.cnt++
			o := mkObj(mkTerm("handle", SRef, nil, append(x.site(), Lit(strconv.Itoa(x.cnt)))...), x.osFile(), OCell)
			p := PtrV{Obj: o, Elem: x.osFile()}
			x.ev("open", strConst(kind), a[0], p)
			return TupleV{p, noErr}
		}
	}
	reg(open("os.Create", true), "os.Create")
	reg(open("os.Open", true), "os.Open")
	reg(open("os.OpenFile", true), "os.OpenFile")
	reg(func(x *X, a []Value) Value {
		x.ev("close", a[0])
		e, _ := x.fallible("close", a[0])
		return e
	}, "(*os.File).Close")
	reg(func(x *X, a []Value) Value {
		return x.writeOut(IfaceV{Dyn: types.NewPointer(x.osFile()), Val: a[0]}, x.snap(x.sliceOf(a[1])))
	}, "(*os.File).Write")
	reg(func(x *X, a []Value) Value {
		e, _ := x.fallible("sync", a[0])
		return e
	}, "(*os.File).Sync")
	readFile := func(kind string) intrinsic {
		return func(x *X, a []Value) Value {
			name := a[len(a)-1]
			if kind == "fs.ReadFile" {
				x.oblige(x.isNil(a[0]).not(), "nil", "nil file system")
			}
			x.ev("readfile", append([]Value{strConst(kind)}, a...)...)
			e, ok := x.fallible(kind, a...)
			if !ok {
				return TupleV{x.fresh(types.NewSlice(tByte), "file"), e}
			}
			var fsv Arg = Lit("os")
			if len(a) > 1 {
				fsv = argOf(a[0])
			}
			t := mkTerm("filedata", SStr, nil, fsv, argOf(name))
			return TupleV{x.byteSlice(textBytes(t), lenOfStr(t), "file"), noErr}
		}
	}
	reg(readFile("fs.ReadFile"), "io/fs.ReadFile")
	reg(readFile("os.ReadFile"), "os.ReadFile")
	reg(func(x *X, a []Value) Value {
		x.ev("open", strConst("os.WriteFile"), a[0], nil)
		e, _ := x.fallible("os.WriteFile", a[0])
		return e
	}, "os.WriteFile")
	reg(func(x *X, a []Value) Value {
		return bAtom(mkTerm("islocal", SBool, nil, argOf(a[0])))
	}, "path/filepath.IsLocal")
	reg(func(x *X, a []Value) Value {
		return bAtom(mkTerm("validpath", SBool, nil, argOf(a[0])))
	}, "io/fs.ValidPath")

	// ---- JSON
	reg(func(x *X, a []Value) Value {
		s := x.sliceOf(a[0])
		return x.jsonInto("json.Unmarshal", x.bytesTerm(s), a[1])
	}, "encoding/json.Unmarshal")
	marshal := func(x *X, a []Value) Value {
		d := x.deep(a[0], 3)
		var as []Arg
		as = append(as, argOf(d))
		for _, v := range a[1:] {
			as = append(as, argOf(v))
		}
		t := mkTerm("jsonenc", SStr, nil, as...)
		x.e.encOf[t] = d
		x.ev("marshal", d, StrV{t})
		e, ok := x.fallible("json.Marshal")
		if !ok {
			return TupleV{nilBytes(), e}
		}
		x.assume(bGe(lenOfStr(t).AddI(-1)))
		return TupleV{x.byteSlice(textBytes(t), lenOfStr(t), "json"), noErr}
	}
	reg(marshal, "encoding/json.Marshal", "encoding/json.MarshalIndent")
	reg(func(x *X, a []Value) Value {
		return bAtom(mkTerm("jsonvalid", SBool, nil, x.bytesTerm(x.sliceOf(a[0]))))
	}, "encoding/json.Valid")
}

func (x *X) decideAny(l ...BoolV) BoolV {
	for _, b := range l {
		if x.decide(b) {
			return bTrue
		}
	}
	return bFalse
}

func (x *X) osFile() types.Type { return x.e.stdType("os", "File") }

// stdType finds a named type of a package imported by the program.
func (e *Engine) stdType(pkg, name string) types.Type {
	for _, p := range e.P.Prog.AllPackages() {
		if p.Pkg.Path() == pkg {
			if o := p.Pkg.Scope().Lookup(name); o != nil {
				return o.Type()
			}
		}
	}
	return types.NewStruct(nil, nil)
}

// poolType is the type of the values made by the New function of a pool.
func (x *X) poolType(p PtrV) types.Type {
	if p.Obj == nil {
		return nil
	}
	v, ok := x.load(p).(StructV)
	if !ok {
		return nil
	}
	st := v.T.Underlying().(*types.Struct)
	for i := range v.F {
		if st.Field(i).Name() != "New" {
			continue
		}
		f, ok := v.F[i].(FuncV)
		if !ok || f.Fn == nil {
			return nil
		}
		for _, b := range f.Fn.Blocks {
			for _, in := range b.Instrs {
				if r, ok := in.(*ssa.Return); ok && len(r.Results) == 1 {
					if m, ok := r.Results[0].(*ssa.MakeInterface); ok {
						return m.X.Type()
					}
				}
			}
		}
	}
	return nil
}

// jsonInto models the decoding of a JSON value into the target.
func (x *X) jsonInto(kind string, src *Term, target Value) Value {
	e, ok := x.fallible(kind)
	i, _ := target.(IfaceV)
	p, isP := i.Val.(PtrV)
	if !isP || p.Obj == nil {
		if i.T != nil {
			// A pointer to a value of unknown type.
			x.ev("unmarshal", StrV{src}, target, nil)
			return e
		}
		x.oblige(bFalse, "json", "JSON decoded into something that is not a pointer")
		return e
	}
	if p.Elem == nil {
		return e
	}
	x.oblige(x.isNil(p).not(), "nil", "JSON decoded into a nil pointer")
	prev := x.load(p)
	op := "json"
	if !ok {
		op = "jsonpartial"
	}
	v := symOf(p.Elem, op, src, argOf(prev))
	if ok {
		x.ev("unmarshal", StrV{src}, i, BoxV{p, prev})
	}
	if p.Obj.Kind == OCell {
		x.store(p, v)
	}
	return e
}

// deep is a copy of a value with the values its pointers refer to.
func (x *X) deep(v Value, n int) Value {
	switch a := v.(type) {
	case IfaceV:
		if a.T == nil && a.Dyn != nil {
			return IfaceV{Dyn: a.Dyn, Val: x.deep(a.Val, n)}
		}
	case PtrV:
		if a.Obj == nil || n == 0 || a.Obj.Kind != OCell {
			return a
		}
		if !a.Obj.Fresh() && n < 2 {
			return a
		}
		if v, ok := x.eval(x.isNil(a)); ok && v {
			return PtrV{Elem: a.Elem}
		} else if !ok {
			return a
		}
		return BoxV{a, x.deep(x.load(a), n-1)}
	case StructV:
		f := make([]Value, len(a.F))
		for i := range f {
			f[i] = x.deep(a.F[i], n)
		}
		return StructV{a.T, f}
	case SliceV:
		if a.Base.Obj != nil && n > 0 {
			return x.snap(a)
		}
	}
	return v
}

// writeOut is a write of bytes to a stream.
func (x *X) writeOut(w Value, s SnapV) Value {
	if i, ok := w.(IfaceV); ok {
		x.oblige(x.isNil(i).not(), "nil", "write to a nil writer")
		if p, ok := i.Val.(PtrV); ok && i.T == nil {
			switch typeKey(i.Dyn) {
			case "*bytes.Buffer":
				x.bufWrite(p, s)
				return TupleV{goInt(s.S.Len), noErr}
			case "*bufio.Writer":
				x.bufWrite(p, s)
				e, _ := x.fallible("write", w)
				return TupleV{goInt(s.S.Len), e}
			}
		}
		if i.T != nil && i.T.Op == "stdvar" {
			return TupleV{goInt(s.S.Len), noErr}
		}
	}
	x.ev("write", w, s)
	e, ok := x.fallible("write", w)
	if ok {
		return TupleV{goInt(s.S.Len), noErr}
	}
	t := x.freshTerm("written", SInt)
	if t.Lo == nil {
		t.Lo, t.Hi = bigZero, maxLen
	}
	n := PVar(t)
	x.assume(bGe(s.S.Len.Sub(n)))
	return TupleV{goInt(n), e}
}

// ---- in-memory buffers

func ghost(kind string, t *Term, typ types.Type) *Obj {
	return mkObj(mkTerm("ghost", SRef, nil, Lit(kind), t), typ, OCell)
}

func (x *X) bufCell(p PtrV) *Obj {
	t, ok := argOf(p).(*Term)
	if !ok {
		t = p.Obj.Term
	}
	o := ghost("buf", t, types.NewSlice(tByte))
	if _, ok := x.st.heap[x.st.norm(o)]; !ok {
		if p.Obj.Fresh() {
			x.st.put(o, newCell(nilBytes()))
		} else {
			x.st.put(o, newCell(symOf(types.NewSlice(tByte), "bufdata", t)))
		}
	}
	return o
}

func (x *X) bufWrite(p PtrV, s SnapV) {
	o := x.bufCell(p)
	cur := x.get(o).(CellC).V.(SliceV)
	if cur.Base.Obj == nil {
		cur = x.newSlice(tByte, &Poly{}, &Poly{}, "buffer")
	}
	r := cur
	r.Len = cur.Len.Add(s.S.Len)
	r.Cap = r.Len
	x.copyTo(r, cur.Off.Add(cur.Len), s.C, s.Off, s.S.Len)
	x.st.put(o, newCell(r))
}

func init() {
	reg(func(x *X, a []Value) Value {
		x.bufWrite(a[0].(PtrV), x.snap(x.sliceOf(a[1])))
		return TupleV{goInt(x.sliceOf(a[1]).Len), noErr}
	}, "(*bytes.Buffer).Write")
	wstr := func(x *X, a []Value) Value {
		c, off, n := x.source(a[1])
		x.bufWrite(a[0].(PtrV), SnapV{SliceV{Off: off, Len: n, Cap: n, Elem: tByte}, c, off})
		return TupleV{goInt(n), noErr}
	}
	reg(wstr, "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString")
	wbyte := func(x *X, a []Value) Value {
		c := &SeqC{Elem: tByte, W: []SWrite{{Kind: WPoint, Idx: &Poly{}, V: a[1]}}}
		x.bufWrite(a[0].(PtrV), SnapV{SliceV{Off: &Poly{}, Len: PInt(1), Cap: PInt(1), Elem: tByte}, c, &Poly{}})
		return noErr
	}
	reg(wbyte, "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte")
	reg(func(x *X, a []Value) Value { return x.get(x.bufCell(a[0].(PtrV))).(CellC).V }, "(*bytes.Buffer).Bytes")
	reg(func(x *X, a []Value) Value {
		return StrV{x.bytesTerm(x.get(x.bufCell(a[0].(PtrV))).(CellC).V.(SliceV))}
	}, "(*bytes.Buffer).String", "(*strings.Builder).String")
	reg(func(x *X, a []Value) Value {
		return goInt(x.get(x.bufCell(a[0].(PtrV))).(CellC).V.(SliceV).Len)
	}, "(*bytes.Buffer).Len", "(*strings.Builder).Len")
	reg(func(x *X, a []Value) Value { return nil }, "(*bytes.Buffer).Grow", "(*strings.Builder).Grow")
	reg(func(x *X, a []Value) Value {
		x.st.put(x.bufCell(a[0].(PtrV)), newCell(nilBytes()))
		return nil
	}, "(*bytes.Buffer).Reset", "(*strings.Builder).Reset")
	reg(func(x *X, a []Value) Value {
		p := x.newCell(x.e.stdType("bufio", "Writer"), "bufwriter")
		x.st.put(ghost("under", p.Obj.Term, types.NewInterfaceType(nil, nil)), newCell(a[0]))
		return p
	}, "bufio.NewWriter")
	reg(func(x *X, a []Value) Value {
		p := a[0].(PtrV)
		o := x.bufCell(p)
		cur := x.get(o).(CellC).V.(SliceV)
		under := x.get(ghost("under", p.Obj.Term, types.NewInterfaceType(nil, nil))).(CellC).V
		r := x.writeOut(under, x.snap(cur)).(TupleV)
		x.st.put(o, newCell(nilBytes()))
		return r[1]
	}, "(*bufio.Writer).Flush")
	reg(func(x *X, a []Value) Value {
		s := x.sliceOf(a[1])
		return x.writeOut(IfaceV{Dyn: types.NewPointer(x.e.stdType("bufio", "Writer")), Val: a[0]}, x.snap(s))
	}, "(*bufio.Writer).Write")
	reg(func(x *X, a []Value) Value {
		p := x.newCell(x.e.stdType("bytes", "Buffer"), "buffer")
		s := x.sliceOf(a[0])
		if s.Base.Obj != nil && !s.Base.Obj.Fresh() {
			s = x.byteSliceOf(x.snap(s).C, s.Off, s.Len, "buffer")
		}
		x.st.put(x.bufCell(p), newCell(s))
		return p
	}, "bytes.NewBuffer")
}
