package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an abstract value.
type Value interface{}

type IntV struct {
	P *Poly
	T *types.Basic
}

type BoolKind uint8

const (
	BConst BoolKind = iota
	BGe             // P >= 0
	BEq             // P == 0
	BAtom           // T
	BStr            // string T equal to constant S
	BDyn            // dynamic type of T is Typ
	BAnd
)

type BoolV struct {
	K   BoolKind
	B   bool // BConst: the value; others: true if negated
	P   *Poly
	T   *Term
	S   string
	Typ types.Type
	And []BoolV
}

type StrV struct{ T *Term }
type FloatV struct {
	T    *Term
	Bits int
}

// Obj is an abstract memory object, identified by a term: an input location
// or an allocation site with its calling context and iteration numbers.
type Obj struct {
	Term *Term
	Typ  types.Type // type of the content: element type for sequences, map type for maps
	Kind ObjKind
}

type ObjKind uint8

const (
	OCell ObjKind = iota
	OSeq
	OMap
)

func (o *Obj) Fresh() bool { return o.Term.Op == "alloc" }

type PE struct {
	Idx   *Poly // nil for a field
	Field int
}

type PtrV struct {
	Obj  *Obj // nil pointer if nil
	Path []PE
	Elem types.Type // static type of the pointee
	Cast types.Type // type of the pointee in memory when it was reached through unsafe.Pointer
}

type SliceV struct {
	Base PtrV // location of the backing array
	Off  *Poly
	Len  *Poly
	Cap  *Poly
	Elem types.Type
}

type MapV struct {
	Obj *Obj
	T   types.Type
}

type IfaceV struct {
	Dyn types.Type
	Val Value
	T   *Term
}

type FuncV struct {
	Fn      *ssa.Function
	Builtin *ssa.Builtin
	Bind    []Value
	T       *Term
	Method  *types.Func // bound interface method
	Recv    Value
}

type StructV struct {
	T types.Type
	F []Value
}

type ArrayV struct {
	T types.Type
	E []Value
}

type TupleV []Value

type OpaqueV struct {
	T   *Term
	Typ types.Type
}

// UnsafeV is an unsafe.Pointer.
type UnsafeV struct{ P PtrV }

// ReflTypeV is a reflect.Type with a known type.
type ReflTypeV struct{ T types.Type }

// ReflV is a reflect.Value: a value, or a location if Ptr is set.
type ReflV struct {
	T   types.Type
	V   Value
	Ptr *PtrV
}

// BoxV is a pointer together with what it pointed to at some point.
type BoxV struct {
	P PtrV
	V Value
}

// IterV is a map or string iterator.
type IterV struct {
	Map  Value
	Site *Term
	N    int
	Cell *Obj // ghost cell with the number of elements already visited
}

// ---- constructors

func intV(p *Poly, t types.Type) IntV {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		b = types.Typ[types.Int]
	}
	return IntV{p, b}
}

var tInt = types.Typ[types.Int]

func goInt(p *Poly) IntV  { return IntV{p, tInt} }
func goIntC(i int64) IntV { return IntV{PInt(i), tInt} }

func bConst(b bool) BoolV { return BoolV{K: BConst, B: b} }

var bTrue, bFalse = bConst(true), bConst(false)

func (b BoolV) not() BoolV {
	b.B = !b.B
	return b
}

func bGe(p *Poly) BoolV {
	if c := p.Const(); c != nil {
		return bConst(c.Sign() >= 0)
	}
	return BoolV{K: BGe, P: p}
}

func bEq(p *Poly) BoolV {
	if c := p.Const(); c != nil {
		return bConst(c.Sign() == 0)
	}
	return BoolV{K: BEq, P: p}
}

func bAtom(t *Term) BoolV { return BoolV{K: BAtom, T: t} }

func bAnd(l []BoolV) BoolV {
	var r []BoolV
	for _, b := range l {
		if b.K == BConst {
			if !b.B {
				return bFalse
			}
			continue
		}
		r = append(r, b)
	}
	switch len(r) {
	case 0:
		return bTrue
	case 1:
		return r[0]
	}
	return BoolV{K: BAnd, And: r}
}

func strConst(s string) StrV {
	return StrV{mkTerm("sc", SStr, nil, Lit(s))}
}

func (s StrV) Const() (string, bool) {
	if s.T.Op == "sc" {
		return string(s.T.Args[0].(Lit)), true
	}
	return "", false
}

func strCat(a, b *Term) *Term {
	var parts []*Term
	add := func(t *Term) {
		if t.Op == "cat" {
			for _, x := range t.Args {
				parts = append(parts, x.(*Term))
			}
			return
		}
		parts = append(parts, t)
	}
	add(a)
	add(b)
	var out []Arg
	for _, p := range parts {
		if p.Op == "sc" {
			s := string(p.Args[0].(Lit))
			if s == "" {
				continue
			}
			if n := len(out); n > 0 {
				if q := out[n-1].(*Term); q.Op == "sc" {
					out[n-1] = strConst(string(q.Args[0].(Lit)) + s).T
					continue
				}
			}
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return strConst("").T
	case 1:
		return out[0].(*Term)
	}
	return mkTerm("cat", SStr, nil, out...)
}

func floatConst(f float64, bits int) FloatV {
	if bits == 32 {
		f = float64(float32(f))
	}
	return FloatV{mkTerm("fc", SFloat, nil, Lit(strconv.FormatFloat(f, 'g', -1, 64)), Lit(strconv.FormatUint(math.Float64bits(f), 16))), bits}
}

func (f FloatV) Const() (float64, bool) {
	if f.T.Op == "fc" {
		u, _ := strconv.ParseUint(string(f.T.Args[1].(Lit)), 16, 64)
		return math.Float64frombits(u), true
	}
	return 0, false
}

func (f FloatV) constVal() float64 { v, _ := f.Const(); return v }

func floatBits(t types.Type) int {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
		return 32
	}
	return 64
}

var objTab = map[string]*Obj{}

func mkObj(t *Term, typ types.Type, kind ObjKind) *Obj {
	k := fmt.Sprintf("%d/%d/%s", t.ID, kind, typeKey(typ))
	if o := objTab[k]; o != nil {
		return o
	}
	o := &Obj{t, typ, kind}
	objTab[k] = o
	return o
}

func inTerm(name string, sort Sort, typ types.Type) *Term {
	return mkTerm("in", sort, typ, Lit(name))
}

func sortOf(t types.Type) Sort {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsFloat != 0:
			return SFloat
		case u.Info()&types.IsString != 0:
			return SStr
		}
		return SAny
	case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
		return SRef
	}
	return SAny
}

const maxArr = 64

// symValue is the value of type typ named by the location term loc(sort).
func symValue(typ types.Type, name func(Sort, types.Type) *Term) Value {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return UnsafeV{PtrV{Obj: mkObj(name(SRef, typ), types.Typ[types.Byte], OCell), Elem: types.Typ[types.Byte]}}
		case u.Info()&types.IsInteger != 0:
			return IntV{PVar(name(SInt, u)), u}
		case u.Info()&types.IsBoolean != 0:
			return bAtom(name(SBool, nil))
		case u.Info()&types.IsFloat != 0:
			return FloatV{name(SFloat, nil), floatBits(u)}
		case u.Info()&types.IsString != 0:
			return StrV{name(SStr, nil)}
		}
	case *types.Pointer:
		return symPtr(name(SRef, nil), u.Elem())
	case *types.Slice:
		return symSlice(name(SRef, nil), u.Elem())
	case *types.Map:
		return MapV{mkObj(name(SRef, nil), typ, OMap), typ}
	case *types.Interface:
		return IfaceV{T: name(SRef, nil)}
	case *types.Signature:
		return FuncV{T: name(SRef, nil)}
	case *types.Struct:
		if o := reflOpaque(typ); o {
			return OpaqueV{name(SAny, nil), typ}
		}
		base := name(SAny, nil)
		s := StructV{T: typ, F: make([]Value, u.NumFields())}
		for i := range s.F {
			f := u.Field(i)
			s.F[i] = symValue(f.Type(), func(so Sort, t types.Type) *Term {
				return mkTerm("fld", so, t, base, Lit(f.Name()))
			})
		}
		return s
	case *types.Array:
		if u.Len() <= maxArr {
			base := name(SAny, nil)
			a := ArrayV{T: typ, E: make([]Value, u.Len())}
			for i := range a.E {
				a.E[i] = symValue(u.Elem(), func(so Sort, t types.Type) *Term {
					return mkTerm("elem", so, t, base, PInt(int64(i)))
				})
			}
			return a
		}
	}
	return OpaqueV{name(SAny, nil), typ}
}

func reflOpaque(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect"
}

func symPtr(t *Term, elem types.Type) PtrV {
	if u, ok := elem.Underlying().(*types.Array); ok && u.Len() > maxArr {
		return PtrV{Obj: mkObj(t, u.Elem(), OSeq), Elem: elem}
	}
	return PtrV{Obj: mkObj(t, elem, OCell), Elem: elem}
}

func symSlice(t *Term, elem types.Type) SliceV {
	a := mkTerm("arr", SRef, nil, t)
	ln, cp := arrLen(a), arrCap(a)
	if ln.Lemmas == nil {
		l := []*Poly{PVar(cp).Sub(PVar(ln))}
		ln.Lemmas, cp.Lemmas = l, l
	}
	o := mkObj(a, elem, OSeq)
	return SliceV{Base: PtrV{Obj: o, Elem: elem}, Off: &Poly{}, Len: PVar(ln), Cap: PVar(cp), Elem: elem}
}

func symVal(typ types.Type, t func(Sort, types.Type) *Term) Value { return symValue(typ, t) }

// symOf names a value after an operation and its arguments.
func symOf(typ types.Type, op string, args ...Arg) Value {
	return symValue(typ, func(s Sort, t types.Type) *Term { return mkTerm(op, s, t, args...) })
}

func symIn(typ types.Type, name string) Value { return symOf(typ, "in", Lit(name)) }

func zeroValue(typ types.Type) Value {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return UnsafeV{}
		case u.Kind() == types.UntypedNil:
			return nil
		case u.Info()&types.IsInteger != 0:
			return IntV{&Poly{}, u}
		case u.Info()&types.IsBoolean != 0:
			return bFalse
		case u.Info()&types.IsFloat != 0:
			return floatConst(0, floatBits(u))
		case u.Info()&types.IsString != 0:
			return strConst("")
		}
	case *types.Pointer:
		return PtrV{Elem: u.Elem()}
	case *types.Slice:
		return SliceV{Off: &Poly{}, Len: &Poly{}, Cap: &Poly{}, Elem: u.Elem()}
	case *types.Map:
		return MapV{T: typ}
	case *types.Interface:
		return IfaceV{}
	case *types.Signature:
		return FuncV{}
	case *types.Struct:
		if reflOpaque(typ) {
			return OpaqueV{mkTerm("zero", SAny, nil, Lit(typeKey(typ))), typ}
		}
		s := StructV{T: typ, F: make([]Value, u.NumFields())}
		for i := range s.F {
			s.F[i] = zeroValue(u.Field(i).Type())
		}
		return s
	case *types.Array:
		if u.Len() <= maxArr {
			a := ArrayV{T: typ, E: make([]Value, u.Len())}
			for i := range a.E {
				a.E[i] = zeroValue(u.Elem())
			}
			return a
		}
	case *types.Tuple:
		r := make(TupleV, u.Len())
		for i := range r {
			r[i] = zeroValue(u.At(i).Type())
		}
		return r
	}
	return OpaqueV{mkTerm("zero", SAny, nil, Lit(typeKey(typ))), typ}
}

func constValue(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroValue(t)
	}
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return OpaqueV{mkTerm("const", SAny, nil, Lit(c.String())), t}
	}
	switch {
	case b.Info()&types.IsInteger != 0:
		v := constant.ToInt(c.Value)
		i, _ := new(big.Int).SetString(v.ExactString(), 10)
		return IntV{PConst(i), b}
	case b.Info()&types.IsBoolean != 0:
		return bConst(constant.BoolVal(c.Value))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if floatBits(b) == 32 {
			f32, _ := constant.Float32Val(constant.ToFloat(c.Value))
			f = float64(f32)
		}
		return floatConst(f, floatBits(b))
	case b.Info()&types.IsString != 0:
		return strConst(constant.StringVal(c.Value))
	}
	return OpaqueV{mkTerm("const", SAny, nil, Lit(c.String())), t}
}

// ---- conversion of values to term arguments

func argOf(v Value) Arg {
	switch v := v.(type) {
	case nil:
		return Lit("nil")
	case IntV:
		return v.P
	case StrV:
		return v.T
	case FloatV:
		return v.T
	case BoolV:
		return boolTerm(v)
	case PtrV:
		if v.Obj == nil {
			return Lit("nilptr")
		}
		args := []Arg{v.Obj.Term}
		for _, p := range v.Path {
			if p.Idx != nil {
				args = append(args, p.Idx)
			} else {
				args = append(args, Lit("."+strconv.Itoa(p.Field)))
			}
		}
		if len(args) == 1 {
			return v.Obj.Term
		}
		return mkTerm("ptr", SRef, nil, args...)
	case SliceV:
		if v.Base.Obj == nil {
			return Lit("nilslice")
		}
		return mkTerm("slice", SRef, nil, argOf(v.Base), v.Off, v.Len)
	case MapV:
		if v.Obj == nil {
			return Lit("nilmap")
		}
		return v.Obj.Term
	case IfaceV:
		if v.T != nil {
			return v.T
		}
		if v.Dyn == nil {
			return Lit("niliface")
		}
		return mkTerm("iface", SRef, nil, Lit(typeKey(v.Dyn)), argOf(v.Val))
	case FuncV:
		if v.T != nil {
			return v.T
		}
		if v.Fn != nil {
			args := []Arg{Lit(v.Fn.String())}
			for _, b := range v.Bind {
				args = append(args, argOf(b))
			}
			return mkTerm("func", SRef, nil, args...)
		}
		return Lit("nilfunc")
	case StructV:
		args := []Arg{Lit(typeKey(v.T))}
		for _, f := range v.F {
			args = append(args, argOf(f))
		}
		return mkTerm("struct", SAny, nil, args...)
	case ArrayV:
		args := []Arg{}
		for _, f := range v.E {
			args = append(args, argOf(f))
		}
		return mkTerm("array", SAny, nil, args...)
	case OpaqueV:
		return v.T
	case BoxV:
		return mkTerm("box", SAny, nil, argOf(v.V))
	case UnsafeV:
		return argOf(v.P)
	case ReflTypeV:
		return Lit("type:" + typeKey(v.T))
	case ReflV:
		if v.Ptr != nil {
			return mkTerm("rval", SAny, nil, argOf(*v.Ptr))
		}
		return mkTerm("rval", SAny, nil, argOf(v.V))
	case TupleV:
		args := []Arg{}
		for _, f := range v {
			args = append(args, argOf(f))
		}
		return mkTerm("tuple", SAny, nil, args...)
	case SnapV:
		return mkTerm("snap", SAny, nil, Lit(v.C.key()), v.Off, v.S.Len)
	case IterV:
		return mkTerm("iterator", SAny, nil, v.Site)
	}
	return Lit(fmt.Sprintf("?%T", v))
}

func boolTerm(b BoolV) Arg {
	var t *Term
	switch b.K {
	case BConst:
		return Lit(strconv.FormatBool(b.B))
	case BGe:
		t = mkTerm("ge0", SBool, nil, b.P)
	case BEq:
		t = mkTerm("eq0", SBool, nil, b.P)
	case BAtom:
		t = b.T
	case BStr:
		t = mkTerm("streq", SBool, nil, b.T, Lit(b.S))
	case BDyn:
		t = mkTerm("dyn", SBool, nil, b.T, Lit(typeKey(b.Typ)))
	case BAnd:
		args := []Arg{}
		for _, x := range b.And {
			args = append(args, boolTerm(x))
		}
		t = mkTerm("and", SBool, nil, args...)
	}
	if b.B {
		return mkTerm("not", SBool, nil, t)
	}
	return t
}

// ---- substitution

func substVal(v Value, s *subster) Value {
	switch v := v.(type) {
	case IntV:
		return IntV{s.poly(v.P), v.T}
	case StrV:
		return StrV{s.tm(v.T)}
	case FloatV:
		return FloatV{s.tm(v.T), v.Bits}
	case BoolV:
		return substBool(v, s)
	case PtrV:
		return substPtr(v, s)
	case SliceV:
		return SliceV{substPtr(v.Base, s), s.poly(v.Off), s.poly(v.Len), s.poly(v.Cap), v.Elem}
	case MapV:
		return MapV{substObj(v.Obj, s), v.T}
	case IfaceV:
		if v.T != nil {
			v.T = s.tm(v.T)
		}
		v.Val = substVal(v.Val, s)
		return v
	case FuncV:
		if v.T != nil {
			v.T = s.tm(v.T)
		}
		if len(v.Bind) > 0 {
			b := make([]Value, len(v.Bind))
			for i := range b {
				b[i] = substVal(v.Bind[i], s)
			}
			v.Bind = b
		}
		if v.Recv != nil {
			v.Recv = substVal(v.Recv, s)
		}
		return v
	case StructV:
		f := make([]Value, len(v.F))
		for i := range f {
			f[i] = substVal(v.F[i], s)
		}
		return StructV{v.T, f}
	case ArrayV:
		f := make([]Value, len(v.E))
		for i := range f {
			f[i] = substVal(v.E[i], s)
		}
		return ArrayV{v.T, f}
	case TupleV:
		f := make(TupleV, len(v))
		for i := range f {
			f[i] = substVal(v[i], s)
		}
		return f
	case OpaqueV:
		return OpaqueV{s.tm(v.T), v.Typ}
	case BoxV:
		return BoxV{substPtr(v.P, s), substVal(v.V, s)}
	case UnsafeV:
		return UnsafeV{substPtr(v.P, s)}
	case ReflV:
		if v.Ptr != nil {
			p := substPtr(*v.Ptr, s)
			v.Ptr = &p
		}
		v.V = substVal(v.V, s)
		return v
	case SnapV:
		return SnapV{substVal(v.S, s).(SliceV), v.C.subst(s), s.poly(v.Off)}
	case IterV:
		v.Map = substVal(v.Map, s)
		v.Site = s.tm(v.Site)
		if v.Cell != nil {
			v.Cell = substObj(v.Cell, s)
		}
		return v
	}
	return v
}

func (s *subster) tm(t *Term) *Term {
	switch r := s.term(t).(type) {
	case *Term:
		return r
	}
	return t
}

func substObj(o *Obj, s *subster) *Obj {
	if o == nil {
		return nil
	}
	t := s.tm(o.Term)
	if t == o.Term {
		return o
	}
	return mkObj(t, o.Typ, o.Kind)
}

func substPtr(p PtrV, s *subster) PtrV {
	if p.Obj == nil {
		return p
	}
	p.Obj = substObj(p.Obj, s)
	if len(p.Path) > 0 {
		path := make([]PE, len(p.Path))
		for i, e := range p.Path {
			if e.Idx != nil {
				e.Idx = s.poly(e.Idx)
			}
			path[i] = e
		}
		p.Path = path
	}
	return p
}

func substBool(b BoolV, s *subster) BoolV {
	switch b.K {
	case BGe:
		r := bGe(s.poly(b.P))
		if b.B {
			r = r.not()
		}
		return r
	case BEq:
		r := bEq(s.poly(b.P))
		if b.B {
			r = r.not()
		}
		return r
	case BAtom, BStr, BDyn:
		b.T = s.tm(b.T)
		return b
	case BAnd:
		l := make([]BoolV, len(b.And))
		for i := range l {
			l[i] = substBool(b.And[i], s)
		}
		r := bAnd(l)
		if b.B {
			r = r.not()
		}
		return r
	}
	return b
}

// ---- printing

func valStr(v Value) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case IntV:
		return v.P.String()
	case StrV:
		return v.T.String()
	case FloatV:
		return v.T.String()
	case BoolV:
		return v.String()
	case PtrV:
		if v.Obj == nil {
			return "nil"
		}
		return "&" + locStr(v)
	case SliceV:
		if v.Base.Obj == nil {
			return "nil[]"
		}
		return fmt.Sprintf("%s[%s:+%s]", locStr(v.Base), v.Off, v.Len)
	case MapV:
		if v.Obj == nil {
			return "nilmap"
		}
		return v.Obj.Term.String()
	case IfaceV:
		if v.T != nil {
			return v.T.String()
		}
		if v.Dyn == nil {
			return "nil"
		}
		return fmt.Sprintf("%s(%s)", typeShort(v.Dyn), valStr(v.Val))
	case StructV:
		var sb strings.Builder
		sb.WriteString(typeShort(v.T) + "{")
		for i, f := range v.F {
			if i > 0 {
				sb.WriteString(", ")
			}
			sb.WriteString(v.T.Underlying().(*types.Struct).Field(i).Name() + ": " + valStr(f))
		}
		return sb.String() + "}"
	case ArrayV:
		var l []string
		for _, e := range v.E {
			l = append(l, valStr(e))
		}
		return "[" + strings.Join(l, ", ") + "]"
	case TupleV:
		var l []string
		for _, e := range v {
			l = append(l, valStr(e))
		}
		return "(" + strings.Join(l, ", ") + ")"
	}
	if t, ok := argOf(v).(*Term); ok {
		return t.String()
	}
	return fmt.Sprintf("%v", argOf(v))
}

func locStr(p PtrV) string {
	s := p.Obj.Term.String()
	for _, e := range p.Path {
		if e.Idx != nil {
			s += "[" + e.Idx.String() + "]"
		} else {
			s += fmt.Sprintf(".#%d", e.Field)
		}
	}
	return s
}

func typeShort(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (b BoolV) String() string {
	n := ""
	if b.B && b.K != BConst {
		n = "!"
	}
	switch b.K {
	case BConst:
		return strconv.FormatBool(b.B)
	case BGe:
		return n + "(" + b.P.String() + " >= 0)"
	case BEq:
		return n + "(" + b.P.String() + " == 0)"
	case BAtom:
		return n + b.T.String()
	case BStr:
		return fmt.Sprintf("%s(%s == %q)", n, b.T, b.S)
	case BDyn:
		return fmt.Sprintf("%s(dyn(%s) == %s)", n, b.T, typeShort(b.Typ))
	}
	var l []string
	for _, x := range b.And {
		l = append(l, x.String())
	}
	return n + "(" + strings.Join(l, " && ") + ")"
}
