package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"os"
	"time"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("B01", checkDef{run: checkB01,
		explain: "binary.Read and binary.Write are interpreted for each of the 44 slice types with symbolic elements, buffer and stride, and the get and put methods of each component type with a symbolic buffer. Rules: write (every byte of every component of an arbitrary element is at its place), untouched (no other byte of the buffer changes), read (every component of an arbitrary element comes from its place), single-get, single-put.",
		assume:  []string{"on writing, a non-zero stride isn't lower than the distance from the first to the last byte of an element, so that elements don't overlap; buffer and slice don't share memory"}})
	register("B02", checkDef{run: checkB02,
		explain: "binary.Read and binary.Write are interpreted for each of the 44 slice types with symbolic slice, buffer and stride. Rules: safe (every index, slice bound, division and conversion is proved on all paths; no panic is reachable), accept (no path on which the elements fit returns an error), stays (no byte outside the buffer is written).",
		assume:  []string{"the slice is of a supported type"}})
}

// binType is a Go type for the elements of accessors.
type binType struct {
	comp, acc  string // names of the constants in package gltf
	kind       *types.Basic
	rows, cols int
	elem       types.Type
	csize      int64
	size       int64 // padded
}

func (b binType) String() string { return "[]" + typeShort(b.elem) }

func (b binType) colStride() int64 {
	if b.cols == 1 {
		return int64(b.rows) * b.csize
	}
	return (int64(b.rows)*b.csize + 3) / 4 * 4
}

// off is the offset of a component in an element.
func (b binType) off(row, col int) int64 { return int64(col)*b.colStride() + int64(row)*b.csize }

// part returns a component of an element.
func (b binType) part(v Value, row, col int) (Value, bool) {
	switch w := v.(type) {
	case ArrayV:
		if b.cols == 1 {
			return w.E[row], true
		}
		if row >= len(w.E) {
			return nil, false
		}
		r, ok := w.E[row].(ArrayV)
		if !ok {
			return nil, false
		}
		return r.E[col], true
	case StructV:
		return w.F[row], true
	case IntV, FloatV:
		return v, true
	}
	return nil, false
}

var binComps = []struct {
	name, v string
	kind    types.BasicKind
}{
	{"ComponentByte", "Byte", types.Int8}, {"ComponentUbyte", "Ubyte", types.Uint8}, {"ComponentShort", "Short", types.Int16},
	{"ComponentUshort", "Ushort", types.Uint16}, {"ComponentUint", "Uint", types.Uint32}, {"ComponentFloat", "Float", types.Float32},
}

var binAccs = []struct {
	name, short string
	rows, cols  int
}{
	{"AccessorScalar", "Scalar", 1, 1}, {"AccessorVec2", "Vec2", 2, 1}, {"AccessorVec3", "Vec3", 3, 1}, {"AccessorVec4", "Vec4", 4, 1},
	{"AccessorMat2", "Mat2", 2, 2}, {"AccessorMat3", "Mat3", 3, 3}, {"AccessorMat4", "Mat4", 4, 4},
}

func binTypeOf(c, a int) binType {
	k := types.Typ[binComps[c].kind]
	b := binType{comp: binComps[c].name, acc: binAccs[a].name, kind: k, rows: binAccs[a].rows, cols: binAccs[a].cols}
	b.csize = types.SizesFor("gc", "amd64").Sizeof(k)
	b.elem = k
	switch {
	case b.cols > 1:
		b.elem = types.NewArray(types.NewArray(k, int64(b.cols)), int64(b.rows))
	case b.rows > 1:
		b.elem = types.NewArray(k, int64(b.rows))
	}
	b.size = b.csize
	if b.rows > 1 {
		b.size = (b.colStride()*int64(b.cols) + 3) / 4 * 4
	}
	return b
}

// binTypes returns the 42 types, and the two color types.
func (r *Report) binTypes() []binType {
	var l []binType
	for c := range binComps {
		for a := range binAccs {
			l = append(l, binTypeOf(c, a))
		}
	}
	for _, c := range []struct {
		name string
		c    int
	}{{"RGBA", 1}, {"RGBA64", 3}} {
		if n := r.engineType("image/color", c.name); n != nil {
			b := binTypeOf(c.c, 3)
			b.elem = n
			l = append(l, b)
		} else {
			r.Undec("no type color." + c.name)
		}
	}
	if d := os.Getenv("GC_TYPE"); d != "" {
		for _, b := range l {
			if b.String() == d {
				return []binType{b}
			}
		}
	}
	return l
}

func (r *Report) engineType(pkg, name string) types.Type {
	if p := r.P.Prog.ImportedPackage(pkg); p != nil {
		if o := p.Pkg.Scope().Lookup(name); o != nil {
			return o.Type()
		}
	}
	return nil
}

// expectEq reports a violation unless p is zero on all paths.
func (r *Report) expectEq(x *X, p *Poly, rule, construct, pos, msg string) {
	if containsFn(x.st.F.Norm(p), imprecise) {
		if v, ok := x.eval(bEq(p)); !ok || !v {
			r.Undec(construct + ": " + msg)
			return
		}
	}
	r.Check(x.decide(bEq(p)), rule, construct, pos, msg, statePath(x.st))
}

// littleEndian is byte k of a component.
func littleEndian(v Value, k int64) *Poly {
	p := bitsOf(v)
	if p == nil {
		return nil
	}
	return Mod(FDiv(p, pow2(uint(8*k))), big.NewInt(256))
}

type binRun struct {
	e      *Engine
	fn     *ssa.Function
	b      SliceV
	stride *Poly
	data   SliceV
	base   *State
	outs   []Outcome
	what   string
}

// binRun analyses binary.Read or binary.Write for a type.
func (r *Report) binRun(name string, t binType, tune func(x *X, n *binRun)) *binRun {
	fn := r.fn("binary", name)
	if fn == nil {
		return nil
	}
	n := &binRun{e: r.engine(), fn: fn, what: "binary." + name + " of " + t.String()}
	if len(fn.Params) != 3 {
		r.Undec(n.what + ": unexpected signature")
		return nil
	}
	st := n.e.Base.clone()
	n.b, _ = symIn(types.NewSlice(tByte), "b").(SliceV)
	n.stride = symIn(tInt, "stride").(IntV).P
	st2 := types.NewSlice(t.elem)
	n.data, _ = symIn(st2, "data").(SliceV)
	n.e.on(st, fn, func(x *X) {
		x.st = st
		x.assume(bGe(n.b.Off))
	})
	var sts []*State
	for _, x := range n.e.on(st, fn, func(x *X) {
		if tune != nil {
			tune(x, n)
		}
	}) {
		sts = append(sts, x.st)
	}
	n.base = st.clone()
	for _, s := range sts {
		n.outs = append(n.outs, n.e.fn(s, fn, []Value{n.b, goInt(n.stride), IfaceV{Dyn: st2, Val: n.data}}, nil)...)
	}
	r.absorb(n.e)
	r.unit(n.what)
	return n
}

func checkB02(r *Report) {
	for _, t := range r.binTypes() {
		for _, name := range []string{"Read", "Write"} {
			r.guard("binary."+name+" of "+t.String(), func() {
				n := r.binRun(name, t, nil)
				if n == nil {
					return
				}
				pos := posOf(r.P, n.fn)
				r.safety(n.e, "safe", n.what, nil)
				for _, o := range n.outs {
					if o.panic {
						r.Fail("safe", n.what+" panics", pos, "a panic is reachable", statePath(o.st))
						continue
					}
					r.on(n.e, o.st, n.fn, func(x *X) {
						isNil, ok := x.errKnown(o.ret[0])
						if ok && isNil {
							return
						}
						if !ok {
							x.assume(x.isNil(o.ret[0]).not())
						}
						bad := ""
						if x.decide(bEq(n.data.Len)) {
							bad = "an empty slice"
						} else {
							x.assume(bGe(n.stride))
							e := n.stride
							if x.decide(bEq(n.stride)) {
								e = PInt(t.size)
							}
							x.assume(bGe(n.b.Len.AddI(-t.size).Sub(n.data.Len.AddI(-1).Mul(e))))
							bad = "elements that fit in the buffer"
						}
						r.Check(false, "accept", n.what+" rejects "+bad, pos, "an error is returned for "+bad, statePath(x.st))
					})
					r.OK("accept", n.what)
				}
			})
		}
	}
}

// cell returns the content of the array behind a slice in the state.
func (x *X) arrayOf(s SliceV) *SeqC {
	c, _ := x.get(s.Base.Obj).(*SeqC)
	if c == nil {
		x.undecided("unknown content of a slice")
		panic(infeasible{})
	}
	return c
}

// padding lists the offsets of an element that hold no component.
func (b binType) padding() []int64 {
	used := map[int64]bool{}
	for c := 0; c < b.cols; c++ {
		for w := 0; w < b.rows; w++ {
			for k := int64(0); k < b.csize; k++ {
				used[b.off(w, c)+k] = true
			}
		}
	}
	var l []int64
	for k := int64(0); k < b.size; k++ {
		if !used[k] {
			l = append(l, k)
		}
	}
	return l
}

// span is the number of bytes from the first component of an element to the
// end of its last one, without trailing padding.
func (t binType) span() int64 {
	return int64(t.off(t.rows-1, t.cols-1)) + int64(t.csize)
}

func (r *Report) binFit(x *X, n *binRun, t binType) *Poly {
	if x.decide(bEq(n.stride)) {
		return PInt(t.size)
	}
	return n.stride
}

func checkB01(r *Report) {
	for _, t := range r.binTypes() {
		if len(r.Violations) > 20 {
			break
		}
		r.guardFor(20*time.Second, "binary.Write of "+t.String(), func() { r.writeLayout(t) })
		r.guardFor(20*time.Second, "binary.Read of "+t.String(), func() { r.readLayout(t) })
	}
	for c := range binComps {
		for a := range binAccs {
			t := binTypeOf(c, a)
			r.guard(binComps[c].v+"."+binAccs[a].short, func() { r.single(t, binComps[c].v, binAccs[a].short) })
		}
	}
}

func (r *Report) writeLayout(t binType) {
	n := r.binRun("Write", t, func(x *X, n *binRun) {
		if !x.decide(bEq(n.stride)) {
			x.assume(bGe(n.stride.AddI(-t.span())))
		}
	})
	if n == nil {
		return
	}
	pos := posOf(r.P, n.fn)
	n.e.deepPick = true
	ok := 0
	for _, o := range n.outs {
		if o.panic {
			continue
		}
		on := func(f func(x *X, e *Poly)) {
			r.on(n.e, o.st, n.fn, func(x *X) {
				x.assume(x.isNil(o.ret[0]))
				f(x, r.binFit(x, n, t))
			})
		}
		ok++
		on(func(x *X, e *Poly) {
			i := x.skolem("i", n.data.Len)
			bc, dc := x.arrayOf(n.b), x.arrayOf(n.data)
			v := x.seqAt(dc, n.data.Off.Add(i))
			for c := 0; c < t.cols; c++ {
				for w := 0; w < t.rows; w++ {
					comp, ok := t.part(v, w, c)
					if !ok {
						x.undecided("unknown element")
						return
					}
					for k := int64(0); k < t.csize; k++ {
						want := littleEndian(comp, k)
						got, isInt := x.seqAt(bc, n.b.Off.Add(e.Mul(i)).AddI(t.off(w, c)+k)).(IntV)
						if want == nil || !isInt {
							x.undecided("unknown byte")
							return
						}
						r.expectEq(x, got.P.Sub(want), "write", n.what+": component "+compName(t, w, c), pos,
							fmt.Sprintf("byte %d of the component isn't at offset %d of the element", k, t.off(w, c)+k))
					}
				}
			}
		})
		same := func(what string, at func(x *X, e *Poly) *Poly) {
			on(func(x *X, e *Poly) {
				q := n.b.Off.Add(at(x, e))
				got, ok1 := x.seqAt(x.arrayOf(n.b), q).(IntV)
				old, ok2 := elemOf(n.b.Base.Obj.Term, q, tByte).(IntV)
				if !ok1 || !ok2 {
					x.undecided("unknown byte")
					return
				}
				r.expectEq(x, got.P.Sub(old.P), "untouched", n.what+": "+what, pos, "changes "+what)
			})
		}
		sk := func(x *X) *Poly {
			q := PVar(mkInt("skolem", nil, nil, Lit("q")))
			x.assume(bGe(q))
			return q
		}
		same("bytes before the buffer", func(x *X, e *Poly) *Poly { return sk(x).AddI(1).Neg() })
		same("bytes after the elements", func(x *X, e *Poly) *Poly {
			q := sk(x)
			if x.decide(bEq(n.data.Len)) {
				return q
			}
			return q.Add(n.data.Len.AddI(-1).Mul(e)).AddI(t.size)
		})
		same("bytes between the elements", func(x *X, e *Poly) *Poly {
			i := x.skolem("i", n.data.Len)
			q := sk(x)
			x.assume(bGe(e.AddI(-t.size).Sub(q).AddI(-1)))
			return e.Mul(i).AddI(t.size).Add(q)
		})
		for _, p := range t.padding() {
			same(fmt.Sprintf("the padding at offset %d of the elements", p), func(x *X, e *Poly) *Poly {
				if p >= t.span() {
					x.assume(bGe(e.AddI(-t.size))) // Otherwise it may belong to the next element.
				}
				return e.Mul(x.skolem("i", n.data.Len)).AddI(p)
			})
		}
	}
	if ok == 0 {
		r.Undec(n.what + ": no path without error")
	}
}

func compName(t binType, row, col int) string {
	switch {
	case t.cols > 1:
		return fmt.Sprintf("[%d][%d]", row, col)
	case t.rows > 1:
		return fmt.Sprintf("[%d]", row)
	}
	return "value"
}

// isComponent returns a number that is zero if v has the representation of
// the bytes from offset at of an array.
func (x *X) isComponent(t binType, v Value, c *SeqC, at *Poly) (*Poly, bool) {
	got := bitsOf(v)
	if got == nil {
		return nil, false
	}
	want := &Poly{}
	for k := int64(0); k < t.csize; k++ {
		b, ok := x.seqAt(c, at.AddI(k)).(IntV)
		if !ok {
			return nil, false
		}
		want = want.Add(b.P.Scale(pow2(uint(8 * k))))
	}
	return got.Sub(want), true
}

func (r *Report) readLayout(t binType) {
	n := r.binRun("Read", t, nil)
	if n == nil {
		return
	}
	pos := posOf(r.P, n.fn)
	n.e.deepPick = true
	ok := 0
	for _, o := range n.outs {
		if o.panic {
			continue
		}
		ok++
		r.on(n.e, o.st, n.fn, func(x *X) {
			x.assume(x.isNil(o.ret[0]))
			e := r.binFit(x, n, t)
			i := x.skolem("i", n.data.Len)
			v := x.seqAt(x.arrayOf(n.data), n.data.Off.Add(i))
			base := &SeqC{Elem: tByte, Base: n.b.Base.Obj.Term}
			for c := 0; c < t.cols; c++ {
				for w := 0; w < t.rows; w++ {
					comp, ok := t.part(v, w, c)
					if !ok {
						x.undecided("unknown element")
						return
					}
					eq, ok := x.isComponent(t, comp, base, n.b.Off.Add(e.Mul(i)).AddI(t.off(w, c)))
					if !ok {
						x.undecided("unknown element")
						return
					}
					r.expectEq(x, eq, "read", n.what+": component "+compName(t, w, c), pos,
						fmt.Sprintf("the component doesn't come from offset %d of the element", t.off(w, c)))
				}
			}
		})
		r.on(n.e, o.st, n.fn, func(x *X) {
			q := PVar(mkInt("skolem", nil, nil, Lit("q")))
			got, ok1 := x.seqAt(x.arrayOf(n.b), q).(IntV)
			old, ok2 := elemOf(n.b.Base.Obj.Term, q, tByte).(IntV)
			if ok1 && ok2 {
				r.expectEq(x, got.P.Sub(old.P), "read", n.what+": buffer", pos, "reading changes the buffer")
			}
		})
	}
	if ok == 0 {
		r.Undec(n.what + ": no path without error")
	}
}

// single checks the methods of a component type for one element.
func (r *Report) single(t binType, v, short string) {
	pkg := r.P.Prog.ImportedPackage(modPath + "/binary")
	if pkg == nil {
		r.Undec("no package binary")
		return
	}
	g, _ := pkg.Pkg.Scope().Lookup(v).(*types.Var)
	if g == nil {
		r.Undec("no variable binary." + v)
		return
	}
	method := func(name string) *ssa.Function {
		o, _, _ := types.LookupFieldOrMethod(g.Type(), true, pkg.Pkg, name)
		m, ok := o.(*types.Func)
		if !ok {
			r.Undec("no method binary." + v + "." + name)
			return nil
		}
		return r.P.Prog.FuncValue(m)
	}
	for _, put := range []bool{false, true} {
		name := short
		if put {
			name = "Put" + short
		}
		fn := method(name)
		if fn == nil {
			continue
		}
		e := r.engine()
		st := e.Base.clone()
		what := "binary." + v + "." + name
		b, _ := symIn(types.NewSlice(tByte), "b").(SliceV)
		e.on(st, fn, func(x *X) {
			x.st = st
			x.assume(bGe(b.Len.AddI(-t.size)))
		})
		args := []Value{symIn(fn.Params[0].Type(), "recv"), b}
		val := symIn(t.elem, "v")
		if put {
			args = append(args, val)
		}
		if len(fn.Params) != len(args) {
			r.Undec(what + ": unexpected signature")
			continue
		}
		outs := e.fn(st, fn, args, nil)
		r.absorb(e)
		r.unit(what)
		r.safety(e, "single-safe", what, nil)
		pos := posOf(r.P, fn)
		for _, o := range outs {
			if o.panic {
				r.Fail("single-safe", what, pos, "panics on a buffer of the size of the element", statePath(o.st))
				continue
			}
			r.on(e, o.st, fn, func(x *X) {
				cur := x.arrayOf(b)
				base := &SeqC{Elem: tByte, Base: b.Base.Obj.Term}
				from := base
				w := val
				rule, msg := "single-put", "isn't stored at"
				if put {
					from = cur
				} else {
					w, rule, msg = o.ret[0], "single-get", "isn't read from"
				}
				for c := 0; c < t.cols; c++ {
					for row := 0; row < t.rows; row++ {
						comp, ok := t.part(w, row, c)
						if !ok {
							x.undecided("unknown element")
							return
						}
						eq, ok := x.isComponent(t, comp, from, b.Off.AddI(t.off(row, c)))
						if !ok {
							x.undecided("unknown element")
							return
						}
						r.expectEq(x, eq, rule, what+": component "+compName(t, row, c), pos, fmt.Sprintf("the component %s offset %d", msg, t.off(row, c)))
					}
				}
			})
			used := map[int64]bool{}
			for _, p := range t.padding() {
				used[p] = true
			}
			check := func(what2 string, at func(x *X) *Poly) {
				r.on(e, o.st, fn, func(x *X) {
					q := b.Off.Add(at(x))
					got, ok1 := x.seqAt(x.arrayOf(b), q).(IntV)
					old, ok2 := elemOf(b.Base.Obj.Term, q, tByte).(IntV)
					if !ok1 || !ok2 {
						x.undecided("unknown byte")
						return
					}
					r.expectEq(x, got.P.Sub(old.P), "single-untouched", what+": "+what2, pos, "changes "+what2)
				})
			}
			sk := func(x *X) *Poly {
				q := PVar(mkInt("skolem", nil, nil, Lit("q")))
				x.assume(bGe(q))
				return q
			}
			check("bytes before the element", func(x *X) *Poly { return sk(x).AddI(1).Neg() })
			check("bytes after the element", func(x *X) *Poly { return sk(x).AddI(t.size) })
			for p := range used {
				check(fmt.Sprintf("the padding at offset %d", p), func(x *X) *Poly { return PInt(p) })
			}
		}
	}
}

func init() {
	register("B03", checkDef{run: checkB03,
		explain: "The size and type functions are interpreted for each of the 42 combinations of component and accessor type with a symbolic count and buffer. Rules: component-size, components, element-size (the numbers of glTF), make, make-buffer (without error, the result is a slice of the right Go type with exactly count elements, within the memory of the buffer; no error for a possible count, no panic), type-of (the Go type maps back to its codes), unsupported (error, no panic).",
		assume:  []string{"64-bit platform", "memory isn't exhausted"}})
}

// codeOf returns the value of a constant of package gltf.
func (r *Report) codeOf(name string) (IntV, bool) {
	c := r.P.Const("", name)
	if c == nil {
		r.Undec("no constant " + name)
		return IntV{}, false
	}
	v, _ := constant.Int64Val(c.Val())
	return IntV{PInt(v), c.Type().Underlying().(*types.Basic)}, true
}

// constResult is the result of a function without side effects, if it's the
// same number on all paths.
func (r *Report) number(fn *ssa.Function, want int64, rule, what string, args ...Value) {
	e := r.engine()
	outs := e.fn(e.Base.clone(), fn, args, nil)
	r.absorb(e)
	r.safety(e, rule, what, nil)
	for _, o := range outs {
		if o.panic {
			r.Fail(rule, what, posOf(r.P, fn), "panics", statePath(o.st))
			continue
		}
		r.on(e, o.st, fn, func(x *X) {
			v, ok := o.ret[0].(IntV)
			if !ok {
				x.undecided("not a number")
				return
			}
			r.expectEq(x, v.P.Sub(PInt(want)), rule, what, posOf(r.P, fn), fmt.Sprintf("%s is %s, not %d", what, v.P, want))
		})
	}
}

func checkB03(r *Report) {
	byteSize, components := r.method("", "ComponentType", "ByteSize"), r.method("", "AccessorType", "Components")
	size := r.fn("", "SizeOfElement")
	for _, c := range binComps {
		if cv, ok := r.codeOf(c.name); ok && byteSize != nil {
			r.unit(c.name)
			r.guard(c.name, func() {
				r.number(byteSize, r.P.Sizes.Sizeof(types.Typ[c.kind]), "component-size", "size of "+c.name, cv)
			})
		}
	}
	for _, a := range binAccs {
		if av, ok := r.codeOf(a.name); ok && components != nil {
			r.guard(a.name, func() {
				r.number(components, int64(a.rows*a.cols), "components", "components of "+a.name, av)
			})
		}
	}
	for _, t := range r.binTypes() {
		cv, ok1 := r.codeOf(t.comp)
		av, ok2 := r.codeOf(t.acc)
		if !ok1 || !ok2 {
			continue
		}
		what := t.comp + " " + t.acc
		r.unit(what)
		if size != nil {
			r.guard("element size of "+what, func() { r.number(size, t.size, "element-size", "element size of "+what, cv, av) })
		}
		r.guard("binary.Type of "+t.String(), func() { r.typeOf(t, cv, av) })
		if _, named := t.elem.(*types.Named); named {
			continue
		}
		for _, name := range []string{"MakeSlice", "MakeSliceBuffer"} {
			for nilBuf := 0; nilBuf < 2; nilBuf++ {
				if name == "MakeSlice" && nilBuf > 0 {
					continue
				}
				r.guard("binary."+name+" of "+what, func() { r.makeSlice(name, t, cv, av, nilBuf > 0) })
			}
		}
	}
	for _, name := range []string{"MakeSlice", "MakeSliceBuffer"} {
		for _, comp := range []bool{true, false} {
			r.guard("binary."+name+" of unsupported types", func() { r.unsupported(name, comp) })
		}
	}
}

func (r *Report) typeOf(t binType, cv, av IntV) {
	fn := r.fn("binary", "Type")
	if fn == nil {
		return
	}
	e := r.engine()
	st := types.NewSlice(t.elem)
	data, _ := symIn(st, "data").(SliceV)
	outs := e.fn(e.Base.clone(), fn, []Value{IfaceV{Dyn: st, Val: data}}, nil)
	r.absorb(e)
	what, pos := "binary.Type of "+t.String(), posOf(r.P, fn)
	r.safety(e, "type-of", what, nil)
	for _, o := range outs {
		if o.panic {
			r.Fail("type-of", what, pos, "panics", statePath(o.st))
			continue
		}
		r.on(e, o.st, fn, func(x *X) {
			for k, want := range []*Poly{cv.P, av.P, data.Len} {
				v, ok := o.ret[k].(IntV)
				if !ok {
					x.undecided("not a number")
					return
				}
				r.expectEq(x, v.P.Sub(want), "type-of", what, pos, fmt.Sprintf("%s of the slice: %s, not %s", []string{"component type", "accessor type", "length"}[k], v.P, want))
			}
		})
	}
}

func (r *Report) makeSlice(name string, t binType, cv, av IntV, nilBuf bool) {
	fn := r.fn("binary", name)
	if fn == nil {
		return
	}
	e := r.engine()
	n := symIn(tInt, "count").(IntV)
	args := []Value{cv, av, n}
	if name == "MakeSliceBuffer" {
		if nilBuf {
			args = append(args, zeroValue(types.NewSlice(tByte)))
		} else {
			args = append(args, symIn(types.NewSlice(tByte), "buffer"))
		}
	}
	if len(args) != len(fn.Params) {
		r.Undec(name + ": unexpected signature")
		return
	}
	outs := e.fn(e.Base.clone(), fn, args, nil)
	r.absorb(e)
	what, pos := "binary."+name+" of "+t.comp+" "+t.acc, posOf(r.P, fn)
	rule := "make"
	if name == "MakeSliceBuffer" {
		rule = "make-buffer"
	}
	r.safety(e, rule, what, nil)
	want := types.NewSlice(t.elem)
	made := false
	for _, o := range outs {
		if o.panic {
			r.Fail(rule, what, pos, "panics", statePath(o.st))
			continue
		}
		r.on(e, o.st, fn, func(x *X) {
			if !x.decide(x.isNil(o.ret[1])) {
				x.assume(bGe(n.P))
				x.assume(bGe(PInt(1<<31 - 1).Sub(n.P.ScaleI(int64(t.rows*t.cols) * t.csize))))
				r.Check(false, rule, what+": rejects a count", pos, "rejects a possible count", statePath(x.st))
				return
			}
			made = true
			i, ok := o.ret[0].(IfaceV)
			if !ok || i.T != nil {
				x.undecided("the type of the slice is unknown")
				return
			}
			if !r.Check(i.Dyn != nil && types.Identical(i.Dyn, want), rule, what+": type", pos, fmt.Sprintf("the result isn't a %s", typeShort(want)), statePath(x.st)) {
				return
			}
			s, ok := i.Val.(SliceV)
			if !ok {
				x.undecided("the slice is unknown")
				return
			}
			r.expectEq(x, s.Len.Sub(n.P), rule, what+": length", pos, fmt.Sprintf("the result has %s elements, not count", s.Len))
		})
	}
	if !made {
		r.Undec(what + ": never successful")
	}
}

func (r *Report) unsupported(name string, comp bool) {
	fn := r.fn("binary", name)
	if fn == nil {
		return
	}
	e := r.engine()
	st := e.Base.clone()
	c, a := symIn(fn.Params[0].Type(), "c"), symIn(fn.Params[1].Type(), "t")
	args := []Value{c, a, symIn(tInt, "count")}
	if name == "MakeSliceBuffer" {
		args = append(args, symIn(types.NewSlice(tByte), "buffer"))
	}
	what, pos := "binary."+name+" of unsupported accessor types", posOf(r.P, fn)
	v := a.(IntV).P
	var names []string
	for _, b := range binAccs {
		names = append(names, b.name)
	}
	if comp {
		what, v, names = "binary."+name+" of unsupported component types", c.(IntV).P, nil
		for _, b := range binComps {
			names = append(names, b.name)
		}
	}
	for _, k := range names {
		w, ok := r.codeOf(k)
		if !ok {
			return
		}
		st.F.AddNe(v.Sub(w.P))
	}
	outs := e.fn(st, fn, args, nil)
	r.absorb(e)
	r.unit(what)
	r.safety(e, "unsupported", what, nil)
	for _, o := range outs {
		if o.panic {
			r.Fail("unsupported", what, pos, "panics", statePath(o.st))
			continue
		}
		r.on(e, o.st, fn, func(x *X) {
			isNil, known := x.errKnown(o.ret[1])
			r.Check(known && !isNil, "unsupported", what, pos, "no error", statePath(x.st))
		})
	}
}
