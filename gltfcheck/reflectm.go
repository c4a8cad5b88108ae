package main

import (
	"go/types"
	"reflect"
)

// A model of the parts of package reflect that inspect slices.

func reflIface(t types.Type) Value {
	return IfaceV{Dyn: types.Typ[types.UnsafePointer], Val: ReflTypeV{t}}
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Pointer:
		return reflect.Pointer
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return reflect.Bool
		case types.Int:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64:
			return reflect.Float64
		case types.String:
			return reflect.String
		}
	}
	return reflect.Invalid
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func (x *X) reflType(name string, t types.Type, args []Value, sig *types.Signature) Value {
	switch name {
	case "Elem":
		if e := elemType(t); e != nil {
			return reflIface(e)
		}
		x.oblige(bFalse, "panic", "reflect: Elem of invalid type")
	case "Kind":
		return IntV{PInt(int64(kindOf(t))), types.Typ[types.Uint]}
	case "Len":
		if a, ok := t.Underlying().(*types.Array); ok {
			return goIntC(a.Len())
		}
		x.oblige(bFalse, "panic", "reflect: Len of non-array type")
	case "Size":
		return IntV{PInt(x.e.P.Sizes.Sizeof(t)), types.Typ[types.Uintptr]}
	case "String", "Name":
		return strConst(typeShort(t))
	}
	x.undecided("reflect.Type." + name)
	return x.results(sig, "reflect.Type."+name)
}

func (x *X) reflOf(v Value) ReflV {
	r, ok := v.(ReflV)
	if !ok {
		x.undecided("unknown reflect.Value")
		return ReflV{T: types.Typ[types.Int], V: goIntC(0)}
	}
	return r
}

func (x *X) reflVal(r ReflV) Value {
	if r.Ptr != nil {
		return x.load(*r.Ptr)
	}
	return r.V
}

func init() {
	reg(func(x *X, a []Value) Value {
		i, _ := a[0].(IfaceV)
		if i.T != nil {
			if d, ok := x.st.F.dyn[x.st.F.NormT(i.T)]; ok {
				return ReflV{T: d, V: unboxed(i.T, d)}
			}
			return ReflV{V: i}
		}
		if i.Dyn == nil {
			return ReflV{}
		}
		return ReflV{T: i.Dyn, V: i.Val}
	}, "reflect.ValueOf")
	reg(func(x *X, a []Value) Value {
		i, _ := a[0].(IfaceV)
		if i.T == nil && i.Dyn != nil {
			return reflIface(i.Dyn)
		}
		if i.T != nil {
			if d, ok := x.st.F.dyn[x.st.F.NormT(i.T)]; ok {
				return reflIface(d)
			}
		}
		return IfaceV{T: mkTerm("typeof", SRef, nil, argOf(i))}
	}, "reflect.TypeOf")
	reg(func(x *X, a []Value) Value {
		r := x.reflOf(a[0])
		if r.T != nil {
			return IntV{PInt(int64(kindOf(r.T))), types.Typ[types.Uint]}
		}
		if r.V == nil {
			return IntV{&Poly{}, types.Typ[types.Uint]}
		}
		return IntV{PVar(mkTerm("dynkind", SInt, types.Typ[types.Uint], argOf(r.V))), types.Typ[types.Uint]}
	}, "(reflect.Value).Kind")
	reg(func(x *X, a []Value) Value {
		r := x.reflOf(a[0])
		if r.T == nil {
			if r.V == nil {
				x.oblige(bFalse, "panic", "reflect: Len of the zero Value")
				return goIntC(0)
			}
			return goInt(PVar(mkInt("dynlen", bigZero, maxLen, argOf(r.V))))
		}
		switch v := x.reflVal(r).(type) {
		case SliceV:
			return goInt(v.Len)
		case StrV:
			return goInt(lenOfStr(v.T))
		case ArrayV:
			return goIntC(int64(len(v.E)))
		case MapV:
			return x.lenOf("len", v)
		}
		x.oblige(bFalse, "panic", "reflect: Len of "+typeShort(r.T))
		return goIntC(0)
	}, "(reflect.Value).Len")
	reg(func(x *X, a []Value) Value {
		r := x.reflOf(a[0])
		if r.T == nil {
			x.undecided("reflect.Value.Type of unknown value")
			return IfaceV{T: x.freshTerm("type", SRef)}
		}
		return reflIface(r.T)
	}, "(reflect.Value).Type")
	reg(func(x *X, a []Value) Value {
		r := x.reflOf(a[0])
		if r.T == nil {
			if i, ok := r.V.(IfaceV); ok {
				return i
			}
			return IfaceV{}
		}
		return IfaceV{Dyn: r.T, Val: x.reflVal(r)}
	}, "(reflect.Value).Interface")
	reg(func(x *X, a []Value) Value {
		r := x.reflOf(a[0])
		return bConst(r.T != nil || r.V != nil)
	}, "(reflect.Value).IsValid")
	reg(func(x *X, a []Value) Value {
		r := x.reflOf(a[0])
		i := x.intOf(a[1])
		if r.T == nil {
			x.undecided("reflect.Value.Index of unknown value")
			return ReflV{V: IfaceV{T: x.freshTerm("elem", SRef)}}
		}
		s, ok := x.reflVal(r).(SliceV)
		if !ok {
			x.undecided("reflect.Value.Index of " + typeShort(r.T))
			return ReflV{V: IfaceV{T: x.freshTerm("elem", SRef)}}
		}
		x.bound(i, s.Len, "index")
		if s.Base.Obj == nil {
			panic(infeasible{})
		}
		p := sliceElem(s, i, s.Elem)
		return ReflV{T: s.Elem, Ptr: &p}
	}, "(reflect.Value).Index")
	set := func(x *X, r ReflV, v ReflV) {
		if r.Ptr == nil || r.T == nil {
			x.oblige(bFalse, "panic", "reflect: Set of a value that is not addressable")
			return
		}
		if v.T == nil || !types.Identical(v.T, r.T) {
			x.oblige(bFalse, "panic", "reflect: Set with a value of another type")
			return
		}
		x.store(*r.Ptr, x.reflVal(v))
	}
	reg(func(x *X, a []Value) Value {
		set(x, x.reflOf(a[0]), x.reflOf(a[1]))
		return nil
	}, "(reflect.Value).Set")
	reg(func(x *X, a []Value) Value {
		r := x.reflOf(a[0])
		if r.T == nil {
			x.undecided("reflect.Value.SetZero of unknown value")
			return nil
		}
		set(x, r, ReflV{T: r.T, V: zeroValue(r.T)})
		return nil
	}, "(reflect.Value).SetZero")
	reg(func(x *X, a []Value) Value {
		r := x.reflOf(a[0])
		if s, ok := x.reflVal(r).(SliceV); ok && r.T != nil {
			if s.Base.Obj != nil {
				x.writeSeq(s, SWrite{Kind: WZero, Idx: s.Off, N: s.Len})
			}
			return nil
		}
		x.undecided("reflect.Value.Clear")
		return nil
	}, "(reflect.Value).Clear")
	reg(func(x *X, a []Value) Value {
		i, _ := a[0].(IfaceV)
		if t, ok := i.Val.(ReflTypeV); ok {
			return ReflV{T: t.T, V: zeroValue(t.T)}
		}
		x.undecided("reflect.Zero of unknown type")
		return ReflV{V: IfaceV{T: x.freshTerm("zero", SRef)}}
	}, "reflect.Zero")
	reg(func(x *X, a []Value) Value {
		r := x.reflOf(a[0])
		if r.T == nil {
			x.undecided("reflect.Value.Elem of unknown value")
			return ReflV{V: IfaceV{T: x.freshTerm("elem", SRef)}}
		}
		switch v := x.reflVal(r).(type) {
		case PtrV:
			p := v
			return ReflV{T: v.Elem, Ptr: &p}
		case IfaceV:
			if v.T == nil && v.Dyn != nil {
				return ReflV{T: v.Dyn, V: v.Val}
			}
		}
		x.undecided("reflect.Value.Elem")
		return ReflV{V: IfaceV{T: x.freshTerm("elem", SRef)}}
	}, "(reflect.Value).Elem")
	reg(func(x *X, a []Value) Value {
		r := x.reflOf(a[0])
		return x.isNil(x.reflVal(r))
	}, "(reflect.Value).IsNil")
	reg(func(x *X, a []Value) Value {
		i, _ := a[0].(IfaceV)
		if t, ok := i.Val.(ReflTypeV); ok {
			return reflIface(types.NewSlice(t.T))
		}
		x.undecided("reflect.SliceOf of unknown type")
		return IfaceV{T: x.freshTerm("type", SRef)}
	}, "reflect.SliceOf")
	reg(func(x *X, a []Value) Value {
		i, _ := a[0].(IfaceV)
		t, ok := i.Val.(ReflTypeV)
		l, c := x.intOf(a[1]), x.intOf(a[2])
		if !ok {
			x.undecided("reflect.MakeSlice of unknown type")
			return ReflV{V: IfaceV{T: x.freshTerm("slice", SRef)}}
		}
		et := elemType(t.T)
		x.checkMake(l, et)
		return ReflV{T: t.T, V: x.newSlice(et, l, c, "reflmake")}
	}, "reflect.MakeSlice")
	reg(func(x *X, a []Value) Value {
		d, s := x.reflOf(a[0]), x.reflOf(a[1])
		dv, ok1 := x.reflVal(d).(SliceV)
		sv, ok2 := x.reflVal(s).(SliceV)
		if !ok1 || !ok2 {
			x.undecided("reflect.Copy")
			return goInt(PVar(x.freshTerm("n", SInt)))
		}
		n := sv.Len
		if !x.decide(bGe(dv.Len.Sub(n))) {
			n = dv.Len
		}
		c, off := x.seqOf(sv)
		x.copyTo(dv, dv.Off, c, off, n)
		return goInt(n)
	}, "reflect.Copy")
}

func init() {
	reg(func(x *X, a []Value) Value {
		i, _ := a[1].(IfaceV)
		t, ok := i.Val.(ReflTypeV)
		n, isC := x.intOf(a[0]).Int()
		if !ok || !isC || n < 0 {
			x.undecided("reflect.ArrayOf of unknown type or length")
			return IfaceV{T: x.freshTerm("type", SRef)}
		}
		return reflIface(types.NewArray(t.T, n))
	}, "reflect.ArrayOf")
}
