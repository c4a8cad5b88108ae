package main

import (
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// jfield is a member of the JSON object that encoding/json makes of a struct,
// following its rules for tags, embedding and name conflicts.
type jfield struct {
	Name    string
	Omit    bool // omitempty
	OmitZ   bool // omitzero
	Quote   bool // ,string
	Val     Value
	Type    types.Type
	GoName  string
	tagged  bool
	depth   int
	absent  bool // reached through a nil embedded pointer
	indexes []int
	viaPtr  bool // reached through an embedded pointer
}

func parseTag(tag string) (name string, opts []string, has bool) {
	v, ok := reflect.StructTag(tag).Lookup("json")
	if !ok {
		return "", nil, false
	}
	p := strings.Split(v, ",")
	return p[0], p[1:], true
}

func hasOpt(opts []string, o string) bool {
	for _, s := range opts {
		if s == o {
			return true
		}
	}
	return false
}

func validJSONName(s string) bool {
	for _, c := range s {
		if strings.ContainsRune("\"\\,", c) {
			return false
		}
	}
	return s != ""
}

// jsonFields lists the members that encoding/json considers for the struct
// type t. If v is not nil it also gives their values; x may be nil if v is.
func jsonFields(x *X, t types.Type, v Value) []jfield {
	type lvl struct {
		t      types.Type
		v      Value
		absent bool
		idx    []int
		ptr    bool
	}
	cur := []lvl{{t, v, false, nil, false}}
	seen := map[string]bool{}
	var all []jfield
	visited := map[types.Type]bool{}
	for depth := 0; len(cur) > 0; depth++ {
		var next []lvl
		for _, l := range cur {
			if visited[l.t] {
				continue
			}
			visited[l.t] = true
			st, ok := l.t.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			sv, _ := l.v.(StructV)
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				name, opts, has := parseTag(st.Tag(i))
				if has && name == "-" && len(opts) == 0 {
					continue
				}
				ft := f.Type()
				var fv Value
				if len(sv.F) > i {
					fv = sv.F[i]
				}
				et := ft
				isPtr := false
				if p, ok := ft.Underlying().(*types.Pointer); ok {
					et, isPtr = p.Elem(), true
				}
				_, isStruct := et.Underlying().(*types.Struct)
				if f.Embedded() {
					if !f.Exported() && !isStruct {
						continue
					}
				} else if !f.Exported() {
					continue
				}
				if !validJSONName(name) {
					name = ""
				}
				idx := append(l.idx[:len(l.idx):len(l.idx)], i)
				if f.Embedded() && name == "" && isStruct {
					absent := l.absent
					if fv != nil && isPtr {
						fv, absent = x.derefJSON(fv, absent)
					}
					next = append(next, lvl{et, fv, absent, idx, isPtr || l.ptr})
					continue
				}
				tagged := name != ""
				if name == "" {
					name = f.Name()
				}
				all = append(all, jfield{Name: name, Omit: hasOpt(opts, "omitempty"), OmitZ: hasOpt(opts, "omitzero"), Quote: hasOpt(opts, "string"),
					Val: fv, Type: ft, GoName: f.Name(), tagged: tagged, depth: depth, absent: l.absent, indexes: idx, viaPtr: l.ptr})
			}
		}
		cur = next
	}
	_ = seen
	byName := map[string][]jfield{}
	var names []string
	for _, f := range all {
		if byName[f.Name] == nil {
			names = append(names, f.Name)
		}
		byName[f.Name] = append(byName[f.Name], f)
	}
	var out []jfield
	for _, n := range names {
		l := byName[n]
		sort.SliceStable(l, func(i, j int) bool {
			if l[i].depth != l[j].depth {
				return l[i].depth < l[j].depth
			}
			return l[i].tagged && !l[j].tagged
		})
		if len(l) > 1 && l[0].depth == l[1].depth && l[0].tagged == l[1].tagged {
			continue // ambiguous
		}
		out = append(out, l[0])
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i].indexes, out[j].indexes
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	return out
}

// derefJSON loads the value an embedded pointer refers to.
func (x *X) derefJSON(v Value, absent bool) (Value, bool) {
	switch p := v.(type) {
	case BoxV:
		return p.V, absent
	case PtrV:
		if p.Obj == nil || x.decide(x.isNil(p)) {
			return zeroValue(p.Elem), true
		}
		return x.load(p), absent
	}
	return v, absent
}

// emptyJSON is the condition under which encoding/json omits v because of
// the omitempty option.
func (x *X) emptyJSON(v Value, t types.Type) BoolV {
	switch a := v.(type) {
	case IntV, FloatV, StrV:
		return x.equal(v, zeroValue(t))
	case BoolV:
		return a.not()
	case BoxV:
		return bFalse
	case SnapV:
		return bEq(a.S.Len)
	case SliceV:
		if a.Base.Obj == nil {
			return bTrue
		}
		return bEq(a.Len)
	case PtrV, IfaceV:
		return x.isNil(v)
	case MapV:
		if a.Obj == nil {
			return bTrue
		}
		if l, ok := x.lenOf("len", a).(IntV); ok {
			return bEq(l.P)
		}
	case ArrayV:
		return bConst(len(a.E) == 0)
	case StructV:
		return bFalse
	}
	return bFalse
}

// zeroJSON is the condition under which omitzero omits v.
func (x *X) zeroJSON(v Value, t types.Type) BoolV {
	switch v.(type) {
	case BoxV, SnapV:
		return bFalse
	}
	return x.equal(v, zeroValue(t))
}

// jsonOmitted is the condition under which the member isn't written.
func (x *X) jsonOmitted(f jfield) bool {
	if f.absent {
		return true
	}
	if f.Omit && x.decide(x.emptyJSON(f.Val, f.Type)) {
		return true
	}
	if f.OmitZ && x.decide(x.zeroJSON(f.Val, f.Type)) {
		return true
	}
	return false
}

// jsonValue follows the pointers of a value, to compare what is encoded.
func (x *X) jsonValue(v Value) Value {
	for i := 0; i < 4; i++ {
		switch p := v.(type) {
		case BoxV:
			v = p.V
			continue
		case SnapV:
			return p.S
		case PtrV:
			if p.Obj == nil || x.decide(x.isNil(p)) {
				return PtrV{Elem: p.Elem}
			}
			v = x.load(p)
			continue
		}
		break
	}
	return v
}

// stripPtr removes the pointers of a type.
func stripPtr(t types.Type) types.Type {
	for {
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			return t
		}
		t = p.Elem()
	}
}

// sameEncoding tells whether values of both types are encoded alike.
func sameEncoding(a, b types.Type) bool {
	a, b = stripPtr(a), stripPtr(b)
	if types.Identical(a, b) {
		return true
	}
	if hasJSON(a) || hasJSON(b) {
		return false
	}
	switch p := a.Underlying().(type) {
	case *types.Basic:
		q, ok := b.Underlying().(*types.Basic)
		if !ok {
			return false
		}
		fl := p.Info()&types.IsFloat != 0
		if fl || q.Info()&types.IsFloat != 0 {
			return p.Kind() == q.Kind()
		}
		k := types.IsInteger | types.IsString | types.IsBoolean
		return p.Info()&k == q.Info()&k
	case *types.Array:
		q, ok := b.Underlying().(*types.Array)
		return ok && p.Len() == q.Len() && sameEncoding(p.Elem(), q.Elem())
	case *types.Slice:
		q, ok := b.Underlying().(*types.Slice)
		return ok && sameEncoding(p.Elem(), q.Elem())
	case *types.Map:
		q, ok := b.Underlying().(*types.Map)
		return ok && sameEncoding(p.Elem(), q.Elem())
	}
	return types.Identical(a.Underlying(), b.Underlying())
}

func hasJSON(t types.Type) bool {
	return jsonMethod(t, "MarshalJSON") != nil || jsonMethod(t, "UnmarshalJSON") != nil || jsonMethod(t, "MarshalText") != nil || jsonMethod(t, "UnmarshalText") != nil
}

// jsonMethod returns the method of t or *t with the given name.
func jsonMethod(t types.Type, name string) *types.Func {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return nil
	}
	o, _, _ := types.LookupFieldOrMethod(types.NewPointer(stripPtr(t)), true, nil, name)
	f, _ := o.(*types.Func)
	return f
}

// ---- JSON texts

// jsonText expands the encoding of a value, named by a term, to the text that
// encoding/json writes: constants and numbers.
func (x *X) jsonText(v Value, t types.Type) (*Term, bool) {
	v = x.jsonValue(v)
	switch a := v.(type) {
	case IfaceV:
		if a.Dyn != nil && a.T == nil {
			return x.jsonText(a.Val, a.Dyn)
		}
	case PtrV:
		if a.Obj == nil {
			return strConst("null").T, true
		}
	case FloatV:
		return x.jsonNumber(a)
	case IntV:
		if jsonMethod(t, "MarshalJSON") != nil {
			return nil, false
		}
		if c, ok := x.st.F.Norm(a.P).Int(); ok {
			return strConst(strconv.FormatInt(c, 10)).T, true
		}
		return mkTerm("jnum", SStr, nil, a.P), true
	case ArrayV:
		r := strConst("[").T
		for i, el := range a.E {
			if i > 0 {
				r = strCat(r, strConst(",").T)
			}
			e, ok := x.jsonText(el, a.T.Underlying().(*types.Array).Elem())
			if !ok {
				return nil, false
			}
			r = strCat(r, e)
		}
		return strCat(r, strConst("]").T), true
	case StructV:
		st := stripPtr(t)
		if o := a.T; o != nil && !types.Identical(st.Underlying(), o.Underlying()) {
			st = o
		}
		if jsonMethod(st, "MarshalJSON") != nil || jsonMethod(st, "MarshalText") != nil {
			return nil, false
		}
		r := strConst("{").T
		first := true
		for _, f := range jsonFields(x, st, a) {
			if x.jsonOmitted(f) {
				continue
			}
			if f.Quote {
				return nil, false
			}
			e, ok := x.jsonText(f.Val, f.Type)
			if !ok {
				return nil, false
			}
			if !first {
				r = strCat(r, strConst(",").T)
			}
			first = false
			r = strCat(strCat(r, strConst(strconv.Quote(f.Name)+":").T), e)
		}
		return strCat(r, strConst("}").T), true
	}
	return nil, false
}

func (x *X) jsonNumber(a FloatV) (*Term, bool) {
	if c, ok := a.Const(); ok {
		if math.IsInf(c, 0) || math.IsNaN(c) || c != math.Trunc(c) || math.Abs(c) > 1e6 || c == 0 && math.Signbit(c) {
			return nil, false
		}
		return strConst(strconv.FormatFloat(c, 'f', -1, 64)).T, true
	}
	for _, c := range x.st.F.floatEq(x.st.F.NormT(a.T)) {
		v := (FloatV{T: c}).constVal()
		if v == 0 {
			if x.decide(bAtom(mkTerm("signbit", SBool, nil, a.T))) {
				return strConst("-0").T, true
			}
			return strConst("0").T, true
		}
		if v == math.Trunc(v) && math.Abs(v) < 1e6 {
			return strConst(strconv.FormatFloat(v, 'f', -1, 64)).T, true
		}
	}
	return mkTerm("jnum", SStr, nil, a.T), true
}

// pieces splits a text in constants and numbers.
func pieces(t *Term) ([]*Term, bool) {
	l := []*Term{t}
	if t.Op == "cat" {
		l = nil
		for _, a := range t.Args {
			l = append(l, a.(*Term))
		}
	}
	for _, p := range l {
		if p.Op != "sc" && p.Op != "jnum" && p.Op != "jrest" {
			return nil, false
		}
	}
	return l, true
}

const numChars = "0123456789+-.eE"

// jnumIs is the condition under which the number p has the text s.
func (x *X) jnumIs(p *Term, s string) BoolV {
	c, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return bFalse
	}
	switch a := p.Args[0].(type) {
	case *Poly:
		i, err := strconv.ParseInt(s, 10, 64)
		if err != nil || strconv.FormatInt(i, 10) != s {
			return bFalse
		}
		return bEq(a.AddI(-i))
	case *Term:
		if a.Sort == SFloat {
			if c != math.Trunc(c) || math.Abs(c) > 1e6 || strconv.FormatFloat(c, 'f', -1, 64) != s || s == "-0" {
				return bAtom(mkTerm("jnumtext", SBool, nil, p, Lit(s)))
			}
			return x.equal(FloatV{a, 64}, floatConst(c, 64))
		}
	}
	return bAtom(mkTerm("jnumtext", SBool, nil, p, Lit(s)))
}

// replaceText replaces the first n occurrences (all if negative) of a
// constant in a text.
func (x *X) replaceText(t *Term, old, new string, n int64) (*Term, bool) {
	ps, ok := pieces(t)
	if !ok || old == "" {
		return nil, false
	}
	out := strConst("").T
	emit := func(p *Term) { out = strCat(out, p) }
	var rest []*Term
	// tryMatch matches old at the start of the constant s followed by tail.
	tryMatch := func(s string, tail []*Term) (string, []*Term, bool) {
		o := old
		for {
			m := len(s)
			if len(o) < m {
				m = len(o)
			}
			if s[:m] != o[:m] {
				return "", nil, false
			}
			s, o = s[m:], o[m:]
			if o == "" {
				return s, tail, true
			}
			if len(tail) == 0 {
				return "", nil, false
			}
			p := tail[0]
			tail = tail[1:]
			if p.Op == "sc" {
				s = string(p.Args[0].(Lit))
				continue
			}
			k := 0
			for k < len(o) && strings.IndexByte(numChars, o[k]) >= 0 {
				k++
			}
			if k == 0 {
				return "", nil, false
			}
			if k == len(o) {
				// Only a prefix of the number has to match.
				if p.Op == "jnum" && x.decide(x.jnumIs(p, o)) {
					return "", tail, true
				}
				if _, isInt := p.Args[0].(*Poly); isInt && (o == "0" || o == "-0") || p.Op != "jnum" ||
					!x.decide(bAtom(mkTerm("jnumprefix", SBool, nil, p, Lit(o)))) {
					return "", nil, false
				}
				return "", append([]*Term{mkTerm("jrest", SStr, nil, p, Lit(o))}, tail...), true
			}
			if p.Op != "jnum" || !x.decide(x.jnumIs(p, o[:k])) {
				return "", nil, false
			}
			o = o[k:]
			s = ""
		}
	}
	rest = ps
	for len(rest) > 0 {
		p := rest[0]
		rest = rest[1:]
		if p.Op != "sc" {
			if strings.IndexByte(numChars, old[0]) >= 0 {
				return nil, false
			}
			emit(p)
			continue
		}
		s := string(p.Args[0].(Lit))
		for s != "" {
			if n != 0 {
				if s2, tail, ok := tryMatch(s, rest); ok {
					emit(strConst(new).T)
					n--
					s, rest = s2, tail
					continue
				}
			}
			emit(strConst(s[:1]).T)
			s = s[1:]
		}
	}
	return out, true
}

// jmember is a member of a JSON object parsed from its text.
type jmember struct {
	Name string
	Val  []*Term // tokens: constants of one character, or numbers
}

// parseObject parses the text of a JSON object made of constants and
// numbers; ok is false if it isn't valid.
func parseObject(t *Term) (ms []jmember, ok bool) {
	ps, ok := pieces(t)
	if !ok {
		return nil, false
	}
	var toks []*Term
	for _, p := range ps {
		if p.Op != "sc" {
			toks = append(toks, p)
			continue
		}
		for _, c := range string(p.Args[0].(Lit)) {
			toks = append(toks, strConst(string(c)).T)
		}
	}
	is := func(i int, s string) bool { return i < len(toks) && toks[i] == strConst(s).T }
	i := 0
	var value func() bool
	num := func() bool {
		if i >= len(toks) {
			return false
		}
		if toks[i].Op == "jnum" {
			i++
			return true
		}
		s := ""
		for i < len(toks) && toks[i].Op == "sc" && strings.Contains(numChars, string(toks[i].Args[0].(Lit))) {
			s += string(toks[i].Args[0].(Lit))
			i++
		}
		_, err := strconv.ParseFloat(s, 64)
		return err == nil
	}
	value = func() bool {
		if !is(i, "[") {
			return num()
		}
		i++
		if is(i, "]") {
			i++
			return true
		}
		for {
			if !value() {
				return false
			}
			if is(i, "]") {
				i++
				return true
			}
			if !is(i, ",") {
				return false
			}
			i++
		}
	}
	if !is(i, "{") {
		return nil, false
	}
	i++
	if is(i, "}") {
		return nil, i+1 == len(toks)
	}
	for {
		if !is(i, `"`) {
			return nil, false
		}
		i++
		name := ""
		for !is(i, `"`) {
			if i >= len(toks) || toks[i].Op != "sc" {
				return nil, false
			}
			name += string(toks[i].Args[0].(Lit))
			i++
		}
		i++
		if !is(i, ":") {
			return nil, false
		}
		i++
		s := i
		if !value() {
			return nil, false
		}
		ms = append(ms, jmember{name, toks[s:i]})
		if is(i, "}") {
			return ms, i+1 == len(toks)
		}
		if !is(i, ",") {
			return nil, false
		}
		i++
	}
}
