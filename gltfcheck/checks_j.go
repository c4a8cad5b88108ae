package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// on runs f in the state, splitting it as needed.
func (e *Engine) on(st *State, fn *ssa.Function, f func(x *X)) []*X {
	return e.run(st, &Frame{fn: fn, env: map[ssa.Value]Value{}}, nil, f)
}

// on runs f in the state. If that reports something, the state is split in
// those of the paths that were joined in it.
func (r *Report) on(e *Engine, st *State, fn *ssa.Function, f func(x *X)) {
	budget := 400
	st.leaves(&budget, func(st *State) bool {
		saved, nv, nu := *r, len(r.Violations), len(r.Undecided)
		rules := map[string]ruleCount{}
		for k, c := range r.rules {
			rules[k] = *c
		}
		e.on(st, fn, f)
		if len(r.Violations) == nv && len(r.Undecided) == nu {
			return true
		}
		if len(st.ors) > 0 && budget > 0 {
			*r = saved
			r.Violations, r.Undecided = r.Violations[:nv:nv], r.Undecided[:nu:nu]
			for k, c := range r.rules {
				*c = rules[k]
			}
		}
		return false
	})
}

// declared returns the method of the named type, and whether its receiver is
// a pointer. Methods promoted from embedded fields are not returned.
func (p *Program) declared(n *types.Named, name string) (*ssa.Function, bool) {
	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		if m.Name() == name {
			_, isPtr := m.Type().(*types.Signature).Recv().Type().(*types.Pointer)
			return p.Prog.FuncValue(m), isPtr
		}
	}
	return nil, false
}

func (r *Report) named(pkg, name string) *types.Named {
	n := r.P.Named(pkg, name)
	if n == nil {
		r.Undec("no type " + pkg + "." + name)
	}
	return n
}

// nonNil returns a symbolic pointer that is not nil.
func nonNil(st *State, t types.Type, name string) PtrV {
	p := symIn(types.NewPointer(t), name).(PtrV)
	st.assume(BoolV{K: BAtom, T: nilAtom(p.Obj.Term), B: true}, true)
	return p
}

// errKnown tells whether the error is nil, if that is known.
func (x *X) errKnown(v Value) (isNil, known bool) { return x.eval(x.isNil(v)) }

// ---- encoding

type jview struct {
	st   *State
	fn   *ssa.Function
	v    Value // encoded value, nil for a text
	t    types.Type
	text *Term
	err  bool
}

// encodings returns what the values of type T are encoded as: the value
// handed to encoding/json, or a text, on every path.
func (r *Report) encodings(e *Engine, n *types.Named, recv func(st *State) (ptr Value, val Value)) []jview {
	st := e.Base.clone()
	pv, vv := recv(st)
	fn, isPtr := r.P.declared(n, "MarshalJSON")
	if fn == nil {
		return []jview{{st: st, v: pv, t: types.NewPointer(n)}}
	}
	arg := vv
	if isPtr {
		arg = pv
	}
	outs := e.fn(st, fn, []Value{arg}, nil)
	r.outcomes += len(outs)
	var res []jview
	for _, o := range outs {
		if o.panic {
			continue
		}
		o := o
		r.on(e, o.st, fn, func(x *X) {
			isNil, known := x.errKnown(o.ret[1])
			if known && !isNil {
				res = append(res, jview{st: x.st, fn: fn, err: true})
				return
			}
			t := x.bytesTerm(x.sliceOf(o.ret[0]))
			t = x.st.F.NormT(t)
			for term, d := range e.encOf {
				if x.st.F.NormT(term) == t {
					if i, ok := d.(IfaceV); ok && i.Dyn != nil {
						res = append(res, jview{st: x.st, fn: fn, v: i.Val, t: i.Dyn})
						return
					}
				}
			}
			if _, ok := pieces(t); ok {
				res = append(res, jview{st: x.st, fn: fn, text: t})
				return
			}
			r.Undec(fnName(fn) + ": the encoded text isn't known to be the encoding of a value: " + t.String())
		})
	}
	return res
}

// members gives the JSON members of the view in the state of x, some of which
// may be omitted by encoding/json.
func (r *Report) members(x *X, w jview, what string) (map[string]jfield, map[string]jmember, bool) {
	if w.text != nil {
		ms, ok := parseObject(w.text)
		if !ok {
			r.Fail("valid-json", what, posOf(r.P, w.fn), "the output isn't valid JSON: "+w.text.String(), statePath(x.st))
			return nil, nil, false
		}
		m := map[string]jmember{}
		for _, k := range ms {
			if _, dup := m[k.Name]; dup {
				r.Fail("valid-json", what, posOf(r.P, w.fn), "the property "+k.Name+" is written twice", statePath(x.st))
			}
			m[k.Name] = k
		}
		return nil, m, true
	}
	t := stripPtr(w.t)
	v := x.jsonValue(w.v)
	st, ok := v.(StructV)
	if !ok {
		r.Undec(what + ": encoded value is not a struct: " + valStr(v))
		return nil, nil, false
	}
	m := map[string]jfield{}
	for _, f := range jsonFields(x, t, st) {
		m[f.Name] = f
	}
	return m, nil, true
}

func posOf(p *Program, fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	return p.Pos(fn.Pos())
}

// allEq is the condition that the numbers of v are those of d.
func (x *X) allEq(v Value, d []float64) BoolV {
	v = x.jsonValue(v)
	switch a := v.(type) {
	case ArrayV:
		if len(a.E) != len(d) {
			return bFalse
		}
		var l []BoolV
		for i, e := range a.E {
			l = append(l, x.equal(e, floatConst(d[i], 64)))
		}
		return bAnd(l)
	case FloatV:
		if len(d) == 1 {
			return x.equal(a, floatConst(d[0], 64))
		}
	}
	return bFalse
}

func allZero(n int) []float64 { return make([]float64, n) }

type expectation struct {
	unset, isDef bool
}

// expect tells whether the property is unset or has its default value.
func (x *X) expect(p specProp, cur Value, t types.Type) expectation {
	var e expectation
	if p.Zeros {
		e.unset = x.decide(x.allEq(cur, allZero(len(p.Def))))
		e.isDef = e.unset || x.decide(x.allEq(cur, p.Def))
		return e
	}
	e.unset = x.decide(x.emptyJSON(cur, t))
	if !e.unset && p.Def != nil {
		e.isDef = x.decide(x.allEq(cur, p.Def))
	}
	return e
}

// checkEncoding checks how values of the object type are encoded: rules
// names ("presence"), values and which properties to look at.
func (r *Report) checkEncoding(s specObj, rule string, sel func(p specProp) bool, names bool) {
	n := r.named(s.Pkg, s.Type)
	if n == nil {
		return
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return
	}
	r.unit(s.Type)
	what := "encoding of " + typeShort(n)
	e := r.engine()
	defer r.absorb(e)
	fields := map[string]*types.Var{}
	stt := n.Underlying().(*types.Struct)
	for i := 0; i < stt.NumFields(); i++ {
		fields[strings.ToLower(stt.Field(i).Name())] = stt.Field(i)
	}
	spec := map[string]specProp{}
	for _, p := range s.Props {
		spec[p.Name] = p
	}
	if !s.Ext {
		spec["extensions"] = specProp{Name: "extensions"}
		spec["extras"] = specProp{Name: "extras"}
	}
	var snames []string
	for k := range spec {
		snames = append(snames, k)
	}
	sort.Strings(snames)
	var ptr PtrV
	views := r.encodings(e, n, func(st *State) (Value, Value) {
		ptr = nonNil(st, n, "v")
		x := &X{e: e, st: st}
		return ptr, x.load(ptr)
	})
	base := baseContent(ptr.Obj).(CellC).V.(StructV)
	good := 0
	for _, w := range views {
		if w.err {
			continue
		}
		w := w
		pos := posOf(r.P, w.fn)
		r.on(e, w.st, w.fn, func(x *X) {
			ms, ts, ok := r.members(x, w, what)
			if !ok {
				return
			}
			good++
			if names {
				for k := range ms {
					_, ok := spec[k]
					r.Check(ok, "names", what+"/"+k, pos, "the property "+k+" is not defined by the specification", nil)
				}
				for k := range ts {
					_, ok := spec[k]
					r.Check(ok, "names", what+"/"+k, pos, "the property "+k+" is not defined by the specification", nil)
				}
			}
		})
		for _, name := range snames {
			p := spec[name]
			if !sel(p) {
				continue
			}
			g := fields[strings.ToLower(name)]
			if g == nil && !p.Synth {
				r.Fail(rule, what+"/"+name, r.P.Pos(n.Obj().Pos()), "no field for the property "+name, nil)
				continue
			}
			r.on(e, w.st, w.fn, func(x *X) {
				ms, ts, ok := r.members(x, w, what)
				if !ok {
					return
				}
				f, has := ms[name]
				if has && x.jsonOmitted(f) {
					has = false
				}
				tm, thas := ts[name]
				if p.Synth {
					r.Check(has, rule, what+"/"+name, pos, "the required property "+name+" isn't written", statePath(x.st))
					return
				}
				cur := base.F[fieldIndex(stt, g)]
				ex := x.expect(p, cur, g.Type())
				absent := (ex.unset || ex.isDef) && !p.Req
				construct := what + "/" + name
				if !has && !thas {
					r.Check(absent, rule, construct, pos, "the property "+name+" isn't written although it is required or has another value than the default", statePath(x.st))
					return
				}
				if inf := len(p.Def) > 0 && math.IsInf(p.Def[0], 0); inf && ex.isDef && !ex.unset {
					r.Fail(rule, construct, pos, "the property "+name+" is written although it may be infinite, which JSON cannot represent: a decoded value cannot be encoded", statePath(x.st))
					return
				}
				if absent && !thas && !s.Ext {
					r.Fail(rule, construct, pos, "the property "+name+" is written although it is unset or has its default value", statePath(x.st))
					return
				}
				if thas {
					want, ok := x.jsonText(cur, g.Type())
					if !ok {
						r.Undec(what + ": text of " + name)
						return
					}
					wp, _ := pieces(want)
					r.Check(tokStr(splitToks(wp)) == tokStr(tm.Val), rule, construct, pos, "the property "+name+" is written as "+tokStr(tm.Val), statePath(x.st))
					return
				}
				if p.Req && p.Str != "" && ex.unset {
					s, isS := f.Val.(StrV)
					c := ""
					if isS {
						c, isS = s.Const()
					}
					r.Check(isS && c == p.Str, rule, construct, pos, "the property "+name+" isn't written with its default "+p.Str, statePath(x.st))
					return
				}
				got, want := x.jsonValue(f.Val), x.jsonValue(cur)
				same := vkey(got) == vkey(want)
				if !same {
					if v, ok := x.eval(x.equal(got, want)); ok && v {
						same = true
					}
				}
				r.Check(same && sameEncoding(f.Type, g.Type()) && !f.Quote, rule, construct, pos,
					"the property "+name+" is written with the value "+valStr(got)+" of type "+typeShort(f.Type), statePath(x.st))
			})
		}
	}
	if good == 0 {
		r.Fail(rule, what, r.P.Pos(n.Obj().Pos()), "no value of this type can be encoded", nil)
	}
}

func splitToks(ps []*Term) []*Term {
	var t []*Term
	for _, p := range ps {
		if p.Op != "sc" {
			t = append(t, p)
			continue
		}
		for _, c := range string(p.Args[0].(Lit)) {
			t = append(t, strConst(string(c)).T)
		}
	}
	return t
}

func tokStr(l []*Term) string {
	s := ""
	for _, t := range l {
		if t.Op == "sc" {
			s += string(t.Args[0].(Lit))
		} else {
			s += "‹" + t.String() + "›"
		}
	}
	return s
}

func fieldIndex(st *types.Struct, f *types.Var) int {
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i) == f {
			return i
		}
	}
	return -1
}

// checkTags checks the names under which encoding/json encodes and decodes
// the fields of the Go type.
func (r *Report) checkTags(s specObj, pos string, t types.Type, what string) {
	spec := map[string]bool{}
	for _, p := range s.Props {
		if !p.Synth {
			spec[p.Name] = true
		}
	}
	if !s.Ext {
		spec["extensions"], spec["extras"] = true, true
	}
	seen := map[string]bool{}
	for _, f := range jsonFields(nil, t, nil) {
		r.Check(spec[f.Name], "names", what+"."+f.GoName, pos, "the field "+f.GoName+" is encoded as the property "+f.Name+", which the specification doesn't define", nil)
		r.Check(!spec[f.Name] || strings.EqualFold(f.Name, f.GoName), "names", what+"."+f.GoName, pos, "the field "+f.GoName+" is encoded as the property "+f.Name, nil)
		r.Check(!f.Quote, "names", what+"."+f.GoName, pos, "the property is encoded as a string", nil)
		seen[f.Name] = true
	}
	var names []string
	for k := range spec {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		r.Check(seen[k], "names", what+"/"+k, pos, "no field is decoded from the property "+k, nil)
	}
}

// ---- decoding

type jdec struct {
	o    Outcome
	fn   *ssa.Function
	recv PtrV
	x    *X
}

// decodings analyses the UnmarshalJSON method of a type.
func (r *Report) decodings(e *Engine, n *types.Named) (fn *ssa.Function, recv PtrV, data SliceV, outs []Outcome) {
	fn, _ = r.P.declared(n, "UnmarshalJSON")
	if fn == nil {
		return
	}
	st := e.Base.clone()
	recv = nonNil(st, n, "v")
	data = symIn(types.NewSlice(types.Typ[types.Byte]), "data").(SliceV)
	outs = e.fn(st, fn, []Value{recv, data}, nil)
	r.outcomes += len(outs)
	return
}

// checkDecoding checks that decoding sets every field from the property of
// the JSON text, or to its default.
func (r *Report) checkDecoding(s specObj) {
	n := r.named(s.Pkg, s.Type)
	if n == nil {
		return
	}
	stt, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	r.unit(s.Type)
	what := "decoding of " + typeShort(n)
	e := r.engine()
	defer r.absorb(e)
	byField := map[string]specProp{}
	for _, p := range s.Props {
		byField[strings.ToLower(p.Name)] = p
	}
	hasDef := func(p specProp) bool {
		if p.Str != "" {
			return true
		}
		for _, d := range p.Def {
			if d != 0 {
				return true
			}
		}
		return false
	}
	fn, recv, data, outs := r.decodings(e, n)
	if fn == nil {
		for _, p := range s.Props {
			r.Check(!hasDef(p), "decode-default", what+"/"+p.Name, r.P.Pos(n.Obj().Pos()), "the default of "+p.Name+" isn't set when it is absent", nil)
		}
		return
	}
	pos := posOf(r.P, fn)
	good := 0
	for _, o := range outs {
		if o.panic {
			continue
		}
		o := o
		r.on(e, o.st, fn, func(x *X) {
			isNil, known := x.errKnown(o.ret[0])
			if known && !isNil {
				return
			}
			src := x.bytesTerm(data)
			final, ok := x.load(recv).(StructV)
			if !ok {
				r.Undec(what + ": the decoded value is not a struct")
				return
			}
			var dec, prev StructV
			var at types.Type
			found := false
			for _, ev := range x.st.ev.list() {
				if ev.Kind != "unmarshal" {
					continue
				}
				tgt, _ := ev.Args[1].(IfaceV)
				box, _ := ev.Args[2].(BoxV)
				pt, isP := tgt.Dyn.(*types.Pointer)
				pr, isS := box.V.(StructV)
				if !isP || !isS || ev.Args[0].(StrV).T != src {
					continue
				}
				d, isS := symOf(pt.Elem(), "json", ev.Args[0].(StrV).T, argOf(box.V)).(StructV)
				if isS {
					dec, prev, at, found = d, pr, pt.Elem(), true
				}
			}
			if !found {
				r.Undec(what + ": the text isn't decoded into a struct")
				return
			}
			good++
			at = stripPtr(at)
			r.checkTags(s, pos, at, what)
			ast := at.Underlying().(*types.Struct)
			idx := map[string]int{}
			for i := 0; i < ast.NumFields(); i++ {
				idx[ast.Field(i).Name()] = i
			}
			base := baseContent(recv.Obj).(CellC).V.(StructV)
			for i := 0; i < stt.NumFields(); i++ {
				f := stt.Field(i)
				j, ok := idx[f.Name()]
				if !ok {
					r.Undec(what + ": no field " + f.Name() + " in the decoded struct")
					continue
				}
				r.Check(vkey(final.F[i]) == vkey(dec.F[j]) && types.Identical(f.Type(), ast.Field(j).Type()), "decode-store", what+"."+f.Name(), pos,
					"the decoded property isn't stored in the field "+f.Name(), statePath(x.st))
				p, ok := byField[strings.ToLower(f.Name())]
				if !ok {
					p = specProp{Name: f.Name()}
				}
				pv := prev.F[j]
				if hasDef(p) {
					good := false
					if p.Str != "" {
						s, isS := pv.(StrV)
						c := ""
						if isS {
							c, isS = s.Const()
						}
						good = isS && c == p.Str
					} else if pp, isP := pv.(PtrV); isP && pp.Obj == nil {
						good = false
					} else {
						v, known := x.eval(x.allEq(pv, p.Def))
						good = known && v
					}
					r.Check(good, "decode-default", what+"/"+p.Name, pos, "decoding doesn't start from the default of the property "+p.Name+": "+valStr(pv), statePath(x.st))
					continue
				}
				z := vkey(pv) == vkey(zeroValue(ast.Field(j).Type())) || vkey(pv) == vkey(base.F[i])
				r.Check(z, "decode-default", what+"/"+p.Name, pos, "decoding starts from "+valStr(pv)+" for the property "+p.Name, statePath(x.st))
			}
		})
	}
	if good == 0 && len(r.Undecided) == 0 {
		r.Fail("decode-store", what, pos, "no value of this type can be decoded", nil)
	}
}

// checkAccessors checks the XOrDefault methods.
func (r *Report) checkAccessors(s specObj) {
	n := r.named(s.Pkg, s.Type)
	if n == nil {
		return
	}
	stt, ok := n.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < n.NumMethods(); i++ {
		m := n.Method(i)
		name, ok := strings.CutSuffix(m.Name(), "OrDefault")
		if !ok || !m.Exported() {
			continue
		}
		var f *types.Var
		for j := 0; j < stt.NumFields(); j++ {
			if strings.EqualFold(stt.Field(j).Name(), name) {
				f = stt.Field(j)
			}
		}
		var p specProp
		for _, q := range s.Props {
			if strings.EqualFold(q.Name, name) {
				p = q
			}
		}
		if f == nil || p.Def == nil {
			continue
		}
		fn := r.P.Prog.FuncValue(m)
		what := fnName(fn)
		r.unit(what)
		e := r.engine()
		st := e.Base.clone()
		recv := nonNil(st, n, "v")
		var arg Value = recv
		if _, isP := m.Type().(*types.Signature).Recv().Type().(*types.Pointer); !isP {
			arg = (&X{e: e, st: st}).load(recv)
		}
		outs := e.fn(st, fn, []Value{arg}, nil)
		r.outcomes += len(outs)
		cur := baseContent(recv.Obj).(CellC).V.(StructV).F[fieldIndex(stt, f)]
		for _, o := range outs {
			if o.panic {
				r.Fail("accessor", what, posOf(r.P, fn), "panics", statePath(o.st))
				continue
			}
			o := o
			r.on(e, o.st, fn, func(x *X) {
				ex := x.expect(p, cur, f.Type())
				if ex.unset {
					v, ok := x.eval(x.allEq(o.ret[0], p.Def))
					r.Check(ok && v, "accessor", what, posOf(r.P, fn), "returns "+valStr(o.ret[0])+" when the property is unset", statePath(x.st))
					return
				}
				want := x.jsonValue(cur)
				same := vkey(want) == vkey(o.ret[0])
				if !same {
					v, ok := x.eval(x.equal(want, o.ret[0]))
					same = ok && v
				}
				r.Check(same, "accessor", what, posOf(r.P, fn), "returns "+valStr(o.ret[0])+" instead of the value that is set", statePath(x.st))
			})
		}
		r.absorb(e)
	}
}

// jsonTypes lists the types of the repository with a method.
func (r *Report) typesWith(method string) []*types.Named {
	var l []*types.Named
	for _, n := range r.namedTypes() {
		if fn, _ := r.P.declared(n, method); fn != nil {
			l = append(l, n)
		}
	}
	return l
}

// namedTypes are the types that the library declares.
func (r *Report) namedTypes() []*types.Named {
	var l []*types.Named
	for _, pk := range r.P.Pkgs {
		sc := pk.Types.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if n, ok := tn.Type().(*types.Named); ok {
				l = append(l, n)
			}
		}
	}
	return l
}

// changed lists the objects that existed before the analysis started and have
// another content now.
func (x *X) changed(base *State, only func(o *Obj) bool) []string {
	var l []string
	for o, c := range x.st.heap {
		if o.Fresh() || o.Term.Op == "galloc" || o.Term.Op == "global" || o.Term.Op == "pooled" || only != nil && !only(o) {
			continue
		}
		want := baseContent(o)
		if b, ok := base.heap[o]; ok {
			want = b
		}
		if c.key() == want.key() {
			continue
		}
		if x.sameContent(c, want) {
			continue
		}
		l = append(l, o.Term.String())
	}
	sort.Strings(l)
	return l
}

// sameContent tells whether two contents are equal in the facts of x.
func (x *X) sameContent(a, b Content) bool {
	switch p := a.(type) {
	case CellC:
		q, ok := b.(CellC)
		return ok && x.sameValue(p.V, q.V)
	case *SeqC:
		q, ok := b.(*SeqC)
		if !ok || p.Base != q.Base || len(p.W) < len(q.W) {
			return false
		}
		for _, w := range p.W {
			if w.Kind != WPoint {
				return false
			}
			old := x.seqAt(q, w.Idx)
			if !x.sameValue(w.V, old) {
				return false
			}
		}
		return true
	}
	return false
}

// sameValue tells whether two values are the same: maps with the same
// entries are.
func (x *X) sameValue(a, b Value) bool {
	if vkey(a) == vkey(b) {
		return true
	}
	switch p := a.(type) {
	case StructV:
		q, ok := b.(StructV)
		if !ok || len(p.F) != len(q.F) {
			return false
		}
		for i := range p.F {
			if !x.sameValue(p.F[i], q.F[i]) {
				return false
			}
		}
		return true
	case ArrayV:
		q, ok := b.(ArrayV)
		if !ok || len(p.E) != len(q.E) {
			return false
		}
		for i := range p.E {
			if !x.sameValue(p.E[i], q.E[i]) {
				return false
			}
		}
		return true
	case MapV:
		q, ok := b.(MapV)
		if ok && x.emptyMap(p) && x.emptyMap(q) {
			return true
		}
	}
	v, ok := x.eval(x.equal(a, b))
	return ok && v
}

func (x *X) emptyMap(m MapV) bool {
	if m.Obj == nil {
		return true
	}
	if v, ok := x.eval(x.isNil(m)); ok && v {
		return true
	}
	if l, ok := x.lenOf("len", m).(IntV); ok {
		return x.st.F.EntailsEq(l.P)
	}
	return false
}

func init() {
	common := []string{
		"encoding/json follows its documentation: struct tags, embedding, addressability and omitempty rules are reimplemented in the checker",
		"package-level variables that nothing in the repository assigns keep their initial value",
	}
	register("J01", checkDef{run: checkJ01, assume: common, explain: "Abstract interpretation (SSA) of MarshalJSON for each constant of each enumerated type and of UnmarshalJSON for a symbolic text; on every path the encoded or stored value is compared with the code table of the specification."})
	register("J02", checkDef{run: checkJ02, assume: common, explain: "Struct tags of every model type, and on every path of every MarshalJSON the members of the value handed to encoding/json, are compared with the property table of the specification: names, required properties, and when optional ones are omitted."})
	register("J03", checkDef{run: checkJ03, assume: common, explain: "Abstract interpretation of every UnmarshalJSON, MarshalJSON and ...OrDefault method with symbolic receivers: on every path, the starting value of the decoding, the condition of omission and the value written or returned are compared with the defaults of the specification."})
	register("J04", checkDef{run: checkJ04, assume: common, explain: "Type-level reachability: from the type of every value handed to encoding/json (and the exported model types), every type with its own encoding must be reached through an addressable location; no struct may inherit a JSON method from an embedded field, and no JSON method may hand encoding/json a value that leads back to itself."})
	register("J05", checkDef{run: checkJ05, assume: append(common, "a failed encoding/json decode may leave its target in any state"), explain: "Abstract interpretation of every UnmarshalJSON with a symbolic receiver and text: on every path that returns an error nothing reachable before is modified, and an error is returned exactly on the paths where a nested decode failed."})
	register("J06", checkDef{run: checkJ06, assume: common, explain: "Abstract interpretation of the decoding of extensions: the loop over the decoded members is summarised for all iterations, and in each alternative the member must be stored under its key, decoded or raw. Every model type has the extensions and extras properties."})
	register("J07", checkDef{run: checkJ07, assume: common, explain: "Abstract interpretation of the package initialisers (registrations), decoders, and of the encoding of the extension types, compared with the property tables of the extensions."})
}

func checkJ01(r *Report) {
	for _, en := range enums {
		n := r.named("", en.Type)
		if n == nil {
			continue
		}
		r.unit(en.Type)
		var names []string
		for k := range en.Vals {
			names = append(names, k)
		}
		sort.Strings(names)
		bt := n.Underlying().(*types.Basic)
		// The constants are distinct, and the zero value is the default.
		seen := map[int64]string{}
		for _, k := range append(names, en.Undefined) {
			if k == "" {
				continue
			}
			c := r.P.Const("", k)
			if c == nil {
				r.Undec("no constant " + k)
				continue
			}
			v, _ := constant.Int64Val(c.Val())
			o, dup := seen[v]
			r.Check(!dup, "distinct", k, r.P.Pos(c.Pos()), k+" and "+o+" have the same value", nil)
			seen[v] = k
		}
		if en.Zero != "" {
			r.Check(seen[0] == en.Zero, "zero-default", en.Type, r.P.Pos(n.Obj().Pos()), "the zero value is "+seen[0]+", not the default "+en.Zero, nil)
		}
		code := func(k string) Value {
			if en.Str {
				return strConst(en.Vals[k].(string))
			}
			return goInt(PInt(int64(en.Vals[k].(int))))
		}
		// Encoding.
		for _, k := range names {
			c := r.P.Const("", k)
			if c == nil {
				continue
			}
			cv, _ := constant.Int64Val(c.Val())
			k := k
			r.guard("encoding of "+k, func() {
				e := r.engine()
				defer r.absorb(e)
				fn, _ := r.P.declared(n, "MarshalJSON")
				what := "encoding of " + k
				if fn == nil {
					r.Fail("encode", what, r.P.Pos(n.Obj().Pos()), en.Type+" has no encoding of its own", nil)
					return
				}
				views := r.encodings(e, n, func(st *State) (Value, Value) {
					o := mkObj(mkTerm("alloc", SRef, nil, Lit("enum")), n, OCell)
					v := IntV{PInt(cv), bt}
					st.put(o, newCell(v))
					return PtrV{Obj: o, Elem: n}, v
				})
				ok := 0
				for _, w := range views {
					if w.err {
						continue
					}
					ok++
					r.on(e, w.st, w.fn, func(x *X) {
						got := x.jsonValue(w.v)
						if w.text != nil {
							got = StrV{w.text}
						}
						good := false
						switch g := got.(type) {
						case IntV:
							c, known := x.st.F.Norm(g.P).Int()
							good = known && !en.Str && c == int64(en.Vals[k].(int))
						case StrV:
							c, known := g.Const()
							good = known && en.Str && c == en.Vals[k].(string)
						}
						if hasJSON(stripPtr(w.t)) {
							good = false
						}
						r.Check(good, "encode", what, posOf(r.P, fn), fmt.Sprintf("%s is encoded as %s instead of %v", k, valStr(got), en.Vals[k]), statePath(x.st))
					})
				}
				if ok == 0 {
					r.Fail("encode", what, posOf(r.P, fn), k+" can't be encoded", nil)
				}
			})
		}
		// Decoding.
		r.guard("decoding of "+en.Type, func() {
			e := r.engine()
			defer r.absorb(e)
			fn, recv, data, outs := r.decodings(e, n)
			if fn == nil {
				r.Fail("decode", "decoding of "+en.Type, r.P.Pos(n.Obj().Pos()), en.Type+" has no decoding of its own", nil)
				return
			}
			hit := map[string]int{}
			other := 0
			for _, o := range outs {
				if o.panic {
					continue
				}
				o := o
				r.on(e, o.st, fn, func(x *X) {
					var dec Value
					var prev Value
					for _, ev := range x.st.ev.list() {
						if ev.Kind != "unmarshal" || ev.Args[0].(StrV).T != x.bytesTerm(data) {
							continue
						}
						tgt, _ := ev.Args[1].(IfaceV)
						box, _ := ev.Args[2].(BoxV)
						if pt, ok := tgt.Dyn.(*types.Pointer); ok {
							dec = symOf(pt.Elem(), "json", ev.Args[0].(StrV).T, argOf(box.V))
							prev = box.V
						}
					}
					_ = prev
					isNil, known := x.errKnown(o.ret[0])
					if dec == nil {
						if !known || isNil {
							r.Undec("decoding of " + en.Type + ": the text isn't decoded")
						}
						return
					}
					_, isStr := dec.(StrV)
					_, isInt := dec.(IntV)
					if isStr != en.Str || isInt == en.Str {
						r.Fail("decode", "decoding of "+en.Type, posOf(r.P, fn), "the code is decoded as "+valStr(dec), nil)
						return
					}
					which := x.choose(len(names) + 1)
					if which == len(names) {
						for _, k := range names {
							x.assume(x.equal(dec, code(k)).not())
						}
						if x.st.F.unsat {
							panic(infeasible{})
						}
						other++
						if en.Reject {
							r.Check(known && !isNil, "reject", "decoding of "+en.Type, posOf(r.P, fn), "an unknown name is accepted", statePath(x.st))
						}
						return
					}
					k := names[which]
					x.assume(x.equal(dec, code(k)))
					if x.st.F.unsat {
						panic(infeasible{})
					}
					hit[k]++
					c := r.P.Const("", k)
					cv, _ := constant.Int64Val(c.Val())
					got, isI := x.load(recv).(IntV)
					good := isI && x.st.F.EntailsEq(got.P.AddI(-cv)) && known && isNil
					r.Check(good, "decode", "decoding of "+k, posOf(r.P, fn), fmt.Sprintf("%v is decoded as %s", en.Vals[k], valStr(got)), statePath(x.st))
				})
			}
			if len(r.Undecided) > 0 {
				return
			}
			for _, k := range names {
				r.Check(hit[k] > 0, "decode", "decoding of "+k, posOf(r.P, fn), fmt.Sprintf("the code %v can't be decoded", en.Vals[k]), nil)
			}
		})
	}
	for k, v := range codeConsts {
		c := r.P.Const("", k)
		if c == nil {
			r.Undec("no constant " + k)
			continue
		}
		cv, _ := constant.Int64Val(c.Val())
		r.Check(cv == v, "code", k, r.P.Pos(c.Pos()), fmt.Sprintf("%s is %d", k, cv), nil)
	}
}

func checkJ02(r *Report) {
	for _, s := range glTFSpec {
		s := s
		n := r.named(s.Pkg, s.Type)
		if n == nil {
			continue
		}
		r.guard(s.Type, func() {
			r.checkTags(s, r.P.Pos(n.Obj().Pos()), n, typeShort(n))
			r.checkEncoding(s, "presence", func(p specProp) bool { return true }, true)
		})
	}
	checkCameraType(r)
}

// checkCameraType checks the type property of cameras, which has no field.
func checkCameraType(r *Report) {
	n := r.named("", "Camera")
	if n == nil {
		return
	}
	r.guard("Camera.type", func() {
		e := r.engine()
		defer r.absorb(e)
		var ptr PtrV
		views := r.encodings(e, n, func(st *State) (Value, Value) {
			ptr = nonNil(st, n, "v")
			return ptr, (&X{e: e, st: st}).load(ptr)
		})
		stt := n.Underlying().(*types.Struct)
		base := baseContent(ptr.Obj).(CellC).V.(StructV)
		for _, w := range views {
			if w.err {
				continue
			}
			w := w
			r.on(e, w.st, w.fn, func(x *X) {
				ms, _, ok := r.members(x, w, "encoding of Camera")
				if !ok {
					return
				}
				if f, has := ms["type"]; has && x.jsonOmitted(f) {
					delete(ms, "type")
				}
				s, _ := ms["type"].Val.(StrV)
				c := ""
				if s.T != nil {
					c, _ = s.Const()
				}
				good := false
				for i := 0; i < stt.NumFields(); i++ {
					if strings.EqualFold(stt.Field(i).Name(), c) && (c == "perspective" || c == "orthographic") {
						good = !x.decide(x.emptyJSON(base.F[i], stt.Field(i).Type()))
					}
				}
				r.Check(good, "camera-type", "encoding of Camera/type", posOf(r.P, w.fn), "the type is "+valStr(ms["type"].Val), statePath(x.st))
			})
		}
	})
}

func checkJ03(r *Report) {
	for _, s := range glTFSpec {
		s := s
		r.guard(s.Type, func() {
			r.checkEncoding(s, "encode-default", func(p specProp) bool { return p.Def != nil || p.Str != "" }, false)
		})
		r.guard(s.Type, func() { r.checkDecoding(s) })
		r.guard(s.Type, func() { r.checkAccessors(s) })
	}
	// The default values are exported too.
	want := map[string][]float64{"DefaultMatrix": identity16, "DefaultRotation": {0, 0, 0, 1}, "DefaultScale": {1, 1, 1}, "DefaultTranslation": {0, 0, 0}}
	var names []string
	for k := range want {
		names = append(names, k)
	}
	sort.Strings(names)
	e := r.engine()
	sp := r.P.Prog.Package(r.P.ByPath[modPath].Types)
	for _, k := range names {
		g, ok := sp.Members[k].(*ssa.Global)
		if !ok {
			r.Undec("no variable " + k)
			continue
		}
		e.on(e.Base.clone(), nil, func(x *X) {
			v, ok := x.eval(x.allEq(x.load(globalPtr(g)), want[k]))
			r.Check(ok && v, "default-value", k, r.P.Pos(g.Pos()), k+" isn't the default of the specification", nil)
		})
	}
}

func checkJ05(r *Report) {
	for _, n := range r.typesWith("UnmarshalJSON") {
		n := n
		r.guard("decoding of "+typeShort(n), func() {
			e := r.engine()
			defer r.absorb(e)
			fn, _, _, outs := r.decodings(e, n)
			r.unit(fnName(fn))
			base := e.Base
			ok := 0
			for _, o := range outs {
				if o.panic {
					r.Fail("panic", fnName(fn), posOf(r.P, fn), "panics", statePath(o.st))
					continue
				}
				o := o
				r.on(e, o.st, fn, func(x *X) {
					isNil, known := x.errKnown(o.ret[0])
					what := fnName(fn)
					if !known {
						isNil = x.decide(x.isNil(o.ret[0]))
					}
					if !isNil {
						ch := x.changed(base, nil)
						r.Check(len(ch) == 0, "untouched", what, posOf(r.P, fn), "an error is returned after "+strings.Join(ch, ", ")+" was modified", statePath(x.st))
						return
					}
					ok++
					bad := failures(x, x.st.ev.list(), decoderCallback)
					r.Check(len(bad) == 0, "error-returned", what, posOf(r.P, fn), "nil is returned although "+strings.Join(bad, ", ")+" may have failed", statePath(x.st))
				})
			}
			r.Check(ok > 0, "accepts", fnName(fn), posOf(r.P, fn), "valid texts are not accepted", nil)
		})
	}
	// What is decoded is stored.
	for _, s := range append(append([]specObj{}, glTFSpec...), extSpec...) {
		s := s
		r.guard(s.Type, func() {
			n := r.named(s.Pkg, s.Type)
			if n == nil {
				return
			}
			if fn, _ := r.P.declared(n, "UnmarshalJSON"); fn != nil {
				if _, ok := n.Underlying().(*types.Struct); ok {
					r.checkDecoding(s)
				}
			}
		})
	}
}

func decoderCallback(ev *Ev) bool {
	k, _ := ev.Args[0].(StrV).Const()
	return k == "callback"
}

// failures lists the operations whose error isn't known to be nil, except
// those that are exempt.
func failures(x *X, evs []*Ev, exempt func(ev *Ev) bool) []string {
	var l []string
	for _, ev := range evs {
		if ev.Loop != nil {
			for i, a := range ev.Alts {
				y := x
				if i < len(ev.Loop.Alts) {
					// The facts of the iteration hold for every index.
					y = &X{e: x.e, st: x.st.clone(), fr: x.fr}
					for _, f := range ev.Loop.Common {
						y.st.F.Add(f)
					}
					for _, f := range ev.Loop.Alts[i].Facts {
						y.st.F.Add(f)
					}
				}
				l = append(l, failures(y, a, exempt)...)
			}
			continue
		}
		if ev.Kind != "fallible" || exempt != nil && exempt(ev) {
			continue
		}
		isNil, known := x.errKnown(ev.Args[1])
		if !known || !isNil {
			k, _ := ev.Args[0].(StrV).Const()
			l = append(l, k+" at "+x.e.P.Pos(ev.Pos))
		}
	}
	return l
}

func checkJ06(r *Report) {
	// Every object keeps its extensions and extras.
	for _, s := range glTFSpec {
		n := r.named(s.Pkg, s.Type)
		if n == nil {
			continue
		}
		have := map[string]jfield{}
		for _, f := range jsonFields(nil, n, nil) {
			have[f.Name] = f
		}
		ext := r.P.Named("", "Extensions")
		f, ok := have["extensions"]
		r.Check(ok && ext != nil && types.Identical(f.Type, ext) && f.GoName == "Extensions", "has-extensions", typeShort(n), r.P.Pos(n.Obj().Pos()), "the extensions of "+s.Type+" are not kept", nil)
		f, ok = have["extras"]
		isAny := false
		if ok {
			i, isI := f.Type.Underlying().(*types.Interface)
			isAny = isI && i.Empty()
		}
		r.Check(ok && isAny && f.GoName == "Extras", "has-extras", typeShort(n), r.P.Pos(n.Obj().Pos()), "the extras of "+s.Type+" are not kept", nil)
		s := s
		r.guard(s.Type, func() {
			only := specObj{Pkg: s.Pkg, Type: s.Type, Props: s.Props}
			r.checkEncoding(only, "encode-extensions", func(p specProp) bool { return p.Name == "extensions" || p.Name == "extras" }, false)
		})
		r.guard(s.Type, func() { r.checkDecoding(s) })
	}
	n := r.named("", "Extensions")
	if n == nil {
		return
	}
	r.guard("Extensions", func() {
		e := r.engine()
		defer r.absorb(e)
		fn, recv, data, outs := r.decodings(e, n)
		if fn == nil {
			r.Fail("entries", "Extensions", r.P.Pos(n.Obj().Pos()), "extensions have no decoding of their own", nil)
			return
		}
		r.unit(fnName(fn))
		what := fnName(fn)
		good := 0
		for _, o := range outs {
			if o.panic {
				r.Fail("entries", what, posOf(r.P, fn), "panics", statePath(o.st))
				continue
			}
			o := o
			r.on(e, o.st, fn, func(x *X) {
				if !x.decide(x.isNil(o.ret[0])) {
					return
				}
				good++
				r.checkEntries(x, fn, recv, data, what)
			})
		}
		r.Check(good > 0, "entries", what, posOf(r.P, fn), "extensions are never decoded", nil)
	})
}

// checkEntries checks that the decoded map has an entry for every member.
func (r *Report) checkEntries(x *X, fn *ssa.Function, recv PtrV, data SliceV, what string) {
	pos := posOf(r.P, fn)
	m, ok := x.load(recv).(MapV)
	if !ok {
		r.Undec(what + ": the decoded value isn't a map")
		return
	}
	var raw MapV
	found := false
	for _, ev := range x.st.ev.list() {
		if ev.Kind != "unmarshal" || ev.Args[0].(StrV).T != x.bytesTerm(data) {
			continue
		}
		tgt, _ := ev.Args[1].(IfaceV)
		box, _ := ev.Args[2].(BoxV)
		if pt, ok := tgt.Dyn.(*types.Pointer); ok {
			if mv, ok := symOf(pt.Elem(), "json", ev.Args[0].(StrV).T, argOf(box.V)).(MapV); ok {
				raw, found = mv, true
			}
		}
	}
	if !found {
		r.Undec(what + ": the text isn't decoded into a map")
		return
	}
	n, _ := x.lenOf("len", raw).(IntV)
	if x.st.F.EntailsEq(n.P) {
		r.OK("entries", what+" (no members)")
		return
	}
	var c *MapC
	if m.Obj != nil {
		c, _ = x.get(m.Obj).(*MapC)
	}
	if c == nil || len(c.W) == 0 {
		r.Fail("entries", what, pos, "the members are not stored", statePath(x.st))
		return
	}
	w := c.W[len(c.W)-1]
	if w.Loop == nil {
		r.Undec(what + ": entries not written by a loop")
		return
	}
	if !x.st.F.EntailsEq(w.Loop.Upper.Sub(n.P)) {
		r.Fail("entries", what, pos, "not every member is visited", statePath(x.st))
		return
	}
	key := mkTerm("mapkey", SStr, nil, raw.Obj.Term, PVar(w.Loop.Bv))
	for i, alt := range w.Alts {
		var last *MWrite
		for j := range alt {
			if k, ok := alt[j].Key.(StrV); ok && k.T == key && !alt[j].Del {
				last = &alt[j]
			}
		}
		if last == nil {
			r.Fail("entries", what, pos, "a member isn't stored under its key", factPath(w.Loop, i))
			continue
		}
		iv, isI := last.Val.(IfaceV)
		rawVal := false
		if isI && iv.Dyn != nil {
			if s, ok := iv.Val.(SliceV); ok && s.Base.Obj != nil && vkey(s) == vkey(symOf(raw.T.Underlying().(*types.Map).Elem(), "mapval", raw.Obj.Term, StrV{key}.T)) {
				rawVal = true
			}
			if rawVal && !isRawMessage(iv.Dyn) {
				r.Fail("entries", what, pos, "the raw member is stored as "+typeShort(iv.Dyn), factPath(w.Loop, i))
			}
		}
		cb := false
		if isI && iv.T != nil && iv.T.Op == "sk" {
			cb = strings.Contains(iv.T.String(), "callback") || strings.Contains(iv.T.String(), "r0")
		}
		// Whether the decoder ran and failed in this alternative.
		y := &X{e: x.e, st: x.st.clone(), fr: x.fr}
		for _, f := range w.Loop.Common {
			y.st.F.Add(f)
		}
		if i < len(w.Loop.Alts) {
			for _, f := range w.Loop.Alts[i].Facts {
				y.st.F.Add(f)
			}
		}
		var errv Value
		called := false
		for _, ev := range loopEvents(x.st.ev.list(), w.Loop.ID, i) {
			if ev.Kind == "callback" {
				called = true
				if len(ev.Args) > 0 {
					if t, ok := ev.Args[len(ev.Args)-1].(TupleV); ok && len(t) == 2 {
						errv = t[1]
						cb = isI && vkey(t[0]) == vkey(iv)
					}
				}
			}
		}
		switch {
		case rawVal:
			if called && errv != nil {
				isNil, known := y.errKnown(errv)
				r.Check(!(known && isNil), "entries", what, pos, "the value decoded by the registered decoder is dropped", factPath(w.Loop, i))
			} else {
				r.OK("entries", what+" (raw)")
			}
		case cb:
			isNil, known := y.errKnown(errv)
			r.Check(known && isNil, "entries", what, pos, "the result of a decoder that failed replaces the raw member", factPath(w.Loop, i))
		default:
			r.Fail("entries", what, pos, "a member is stored as "+valStr(last.Val), factPath(w.Loop, i))
		}
	}
}

func isRawMessage(t types.Type) bool {
	_, isMarshaler := t.Underlying().(*types.Slice)
	return isMarshaler && jsonMethod(t, "MarshalJSON") != nil
}

func factPath(l *LoopInst, alt int) []string {
	var r []string
	for _, f := range l.Common {
		r = append(r, f.String())
	}
	if alt < len(l.Alts) {
		for _, f := range l.Alts[alt].Facts {
			r = append(r, f.String())
		}
	}
	return r
}

func loopEvents(evs []*Ev, id string, alt int) []*Ev {
	for _, ev := range evs {
		if ev.Loop != nil && ev.Loop.ID == id && alt < len(ev.Alts) {
			return ev.Alts[alt]
		}
	}
	return nil
}
