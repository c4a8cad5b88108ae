package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ownMethod returns the method with the name in the method set of T or *T,
// whether it's promoted from an embedded field and whether its receiver is a
// pointer.
func ownMethod(t types.Type, name string) (f *types.Func, promoted, ptr bool) {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return nil, false, false
	}
	if _, ok := t.(*types.Pointer); ok {
		return nil, false, false
	}
	o, idx, _ := types.LookupFieldOrMethod(types.NewPointer(t), true, nil, name)
	f, _ = o.(*types.Func)
	if f == nil {
		return nil, false, false
	}
	_, ptr = f.Type().(*types.Signature).Recv().Type().(*types.Pointer)
	if len(idx) > 1 {
		// Promoted: whether it is in the method set of T.
		ms := types.NewMethodSet(t)
		ptr = ms.Lookup(f.Pkg(), name) == nil
	}
	return f, len(idx) > 1, ptr
}

// jsonWalk visits the types encoding/json meets when it encodes or decodes a
// value of a type.
type jsonWalk struct {
	r      *Report
	method string // MarshalJSON or UnmarshalJSON
	self   *types.Named
	seen   map[string]bool
	where  string
	pos    string
}

func (w *jsonWalk) visit(t types.Type, addr bool, path string, root bool) {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		w.visit(p.Elem(), true, path, root)
		return
	}
	key := fmt.Sprint(types.TypeString(t, nil), addr)
	if w.seen[key] {
		return
	}
	w.seen[key] = true
	f, promoted, ptr := ownMethod(t, w.method)
	if f != nil && f.Pkg() != nil && inRepo(f.Pkg().Path()) {
		construct := w.where + ": " + path
		if promoted {
			w.r.Fail("inherited", construct, w.pos, "the "+w.method+" method of an embedded field, "+f.FullName()+", replaces the encoding of "+typeShort(t), nil)
			return
		}
		if n, ok := t.(*types.Named); ok && root && w.self != nil && n.Obj() == w.self.Obj() {
			w.r.Fail("reentry", construct, w.pos, w.method+" of "+typeShort(t)+" re-enters itself", nil)
			return
		}
		w.r.Check(!ptr || addr, "addressable", construct, w.pos, "the "+w.method+" method of "+typeShort(t)+" has a pointer receiver, but the value isn't addressable: its encoding is bypassed", nil)
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for _, f := range jsonFields(nil, t, nil) {
			w.visit(f.Type, addr || f.viaPtr, path+"."+f.GoName, false)
		}
	case *types.Slice:
		w.visit(u.Elem(), true, path+"[]", false)
	case *types.Array:
		w.visit(u.Elem(), addr, path+"[]", false)
	case *types.Map:
		// Values are copied to be encoded, but decoded into addressable memory.
		w.visit(u.Elem(), w.method == "UnmarshalJSON", path+"[]", false)
		kf, _, kp := ownMethod(u.Key(), "MarshalText")
		if kf != nil && inRepo(kf.Pkg().Path()) {
			w.r.Check(!kp, "addressable", w.where+": "+path+" keys", w.pos, "the text encoding of the keys is bypassed", nil)
		}
	}
}

func checkJ04(r *Report) {
	walk := func(where, pos, method string, self *types.Named, t types.Type) {
		r.unit(where)
		_, isPtr := t.Underlying().(*types.Pointer)
		if method == "UnmarshalJSON" && !isPtr {
			if _, isI := t.Underlying().(*types.Interface); !isI {
				r.Fail("addressable", where, pos, "JSON decoded into a value of type "+typeShort(t), nil)
			}
			return
		}
		w := &jsonWalk{r: r, method: method, self: self, seen: map[string]bool{}, where: where, pos: pos}
		w.visit(t, false, typeShort(t), true)
	}
	// The values encoded and decoded by the JSON methods.
	for _, m := range []string{"MarshalJSON", "UnmarshalJSON"} {
		kind := strings.ToLower(strings.TrimSuffix(m, "JSON"))
		for _, n := range r.typesWith(m) {
			n := n
			r.guard(m+" of "+typeShort(n), func() {
				fn, isPtr := r.P.declared(n, m)
				e := r.engine()
				defer r.absorb(e)
				st := e.Base.clone()
				recv := nonNil(st, n, "v")
				args := []Value{recv}
				if !isPtr {
					args[0] = (&X{e: e, st: st}).load(recv)
				}
				if m == "UnmarshalJSON" {
					args = append(args, symIn(types.NewSlice(types.Typ[types.Byte]), "data"))
				}
				outs := e.fn(st, fn, args, nil)
				r.outcomes += len(outs)
				found := map[string]bool{}
				for _, o := range outs {
					for _, ev := range flatEvents(o.st.ev.list()) {
						if ev.Kind != kind {
							continue
						}
						a := ev.Args[0]
						if kind == "unmarshal" {
							a = ev.Args[1]
						}
						i, ok := a.(IfaceV)
						if !ok || i.Dyn == nil {
							continue
						}
						k := types.TypeString(i.Dyn, nil)
						if found[k] {
							continue
						}
						found[k] = true
						walk(fnName(fn), r.P.Pos(ev.Pos), m, n, i.Dyn)
					}
				}
			})
		}
	}
	// The values handed to encoding/json by other functions.
	for _, f := range r.P.RepoFns {
		if f.Name() == "MarshalJSON" || f.Name() == "UnmarshalJSON" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				callee := c.Common().StaticCallee()
				if callee == nil {
					continue
				}
				m, arg := "", -1
				switch fnFull(callee) {
				case "encoding/json.Marshal", "encoding/json.MarshalIndent":
					m, arg = "MarshalJSON", 0
				case "encoding/json.Unmarshal":
					m, arg = "UnmarshalJSON", 1
				case "(*encoding/json.Encoder).Encode":
					m, arg = "MarshalJSON", 1
				case "(*encoding/json.Decoder).Decode":
					m, arg = "UnmarshalJSON", 1
				}
				if m == "" {
					continue
				}
				r.funcs[fnName(f)] = true
				for _, t := range dynTypes(r.P, c.Common().Args[arg], 0, map[ssa.Value]bool{}) {
					walk(fnName(f), r.P.Pos(in.Pos()), m, nil, t)
				}
			}
		}
	}
	// The types of the document model.
	for _, s := range append(append([]specObj{}, glTFSpec...), extSpec...) {
		n := r.named(s.Pkg, s.Type)
		if n == nil {
			continue
		}
		for _, m := range []string{"MarshalJSON", "UnmarshalJSON"} {
			walk("type "+typeShort(n), r.P.Pos(n.Obj().Pos()), m, nil, types.NewPointer(n))
		}
		s := s
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		nested := map[string]bool{}
		for i := 0; i < st.NumFields(); i++ {
			if reachesJSON(st.Field(i).Type(), map[types.Type]bool{}) {
				nested[strings.ToLower(st.Field(i).Name())] = true
			}
		}
		r.guard(s.Type, func() {
			r.checkEncoding(s, "bypass", func(p specProp) bool { return nested[strings.ToLower(p.Name)] }, false)
		})
		// A method that edits the encoded text could reach nested values: the
		// text domain rejects that as undecided or as another value.
	}
}

// reachesJSON tells whether values of the type hold values with an encoding
// of their own.
func reachesJSON(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	if f := jsonMethod(t, "MarshalJSON"); f != nil && f.Pkg() != nil && inRepo(f.Pkg().Path()) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return reachesJSON(u.Elem(), seen)
	case *types.Slice:
		return reachesJSON(u.Elem(), seen)
	case *types.Array:
		return reachesJSON(u.Elem(), seen)
	case *types.Map:
		return reachesJSON(u.Elem(), seen)
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if reachesJSON(u.Field(i).Type(), seen) {
				return true
			}
		}
	}
	return false
}

// dynTypes lists the types of the values an interface may hold, following
// parameters to the callers.
func dynTypes(p *Program, v ssa.Value, depth int, seen map[ssa.Value]bool) []types.Type {
	if seen[v] || depth > 6 {
		return nil
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return []types.Type{v.X.Type()}
	case *ssa.ChangeInterface:
		return dynTypes(p, v.X, depth, seen)
	case *ssa.Phi:
		var l []types.Type
		for _, e := range v.Edges {
			l = append(l, dynTypes(p, e, depth, seen)...)
		}
		return l
	case *ssa.Parameter:
		var l []types.Type
		fn := v.Parent()
		idx := -1
		for i, q := range fn.Params {
			if q == v {
				idx = i
			}
		}
		for _, f := range p.RepoFns {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == fn && idx < len(c.Common().Args) {
						l = append(l, dynTypes(p, c.Common().Args[idx], depth+1, seen)...)
					}
				}
			}
		}
		return l
	}
	return nil
}

// flatEvents lists the events with those of the loops.
func flatEvents(evs []*Ev) []*Ev {
	var l []*Ev
	for _, ev := range evs {
		if ev.Loop != nil {
			for _, a := range ev.Alts {
				l = append(l, flatEvents(a)...)
			}
			continue
		}
		l = append(l, ev)
	}
	return l
}

// ---- bundled extensions

func checkJ07(r *Report) {
	e := r.engine()
	// The registry is the map RegisterExtension stores into: registrations of
	// the initialisers are found there.
	for _, x := range khronosExt {
		x := x
		pos := "?"
		c := r.P.Const(x.Pkg, "ExtensionName")
		if c == nil {
			r.Undec("no constant " + x.Pkg + ".ExtensionName")
			continue
		}
		pos = r.P.Pos(c.Pos())
		name := constant.StringVal(c.Val())
		r.Check(name == x.Name, "name", x.Pkg+".ExtensionName", pos, "the extension is named "+name, nil)
		var fn *ssa.Function
		n := 0
		for _, g := range e.Registered {
			if g.Key == x.Name {
				fn = g.Fn.Fn
				n++
			}
		}
		if !r.Check(n > 0 && fn != nil, "registered", x.Pkg, pos, "the package doesn't register a decoder as "+x.Name, nil) {
			continue
		}
		for _, g := range e.Registered {
			if g.Key != x.Name && g.Fn.Fn != nil && g.Fn.Fn.Package() != nil && g.Fn.Fn.Package().Pkg.Path() == pkgPath(x.Pkg) {
				r.Fail("registered", x.Pkg+" "+g.Key, pos, "the package registers its decoder as "+g.Key, nil)
			}
		}
		r.guard("decoder of "+x.Name, func() { r.checkDecoder(x.Pkg, fn) })
	}
	for _, s := range extSpec {
		s := s
		n := r.named(s.Pkg, s.Type)
		if n == nil {
			continue
		}
		if _, ok := n.Underlying().(*types.Struct); !ok {
			continue
		}
		r.guard(s.Type, func() { r.checkTags(s, r.P.Pos(n.Obj().Pos()), n, typeShort(n)) })
		r.guard(s.Type, func() { r.checkEncoding(s, "encoding", func(p specProp) bool { return true }, true) })
		r.guard(s.Type, func() { r.checkDecoding(s) })
		r.guard(s.Type, func() { r.checkAccessors(s) })
	}
	r.checkEnvelope("Lights", "lights")
	r.checkEnvelope("LightIndex", "light")
	if n := r.named("ext/unlit", "Unlit"); n != nil {
		f, _, _ := ownMethod(n, "MarshalJSON")
		_, isMap := n.Underlying().(*types.Map)
		r.Check(f == nil && isMap, "encoding", "encoding of unlit.Unlit", r.P.Pos(n.Obj().Pos()), "unlit values are not encoded as the JSON object they are decoded from", nil)
	}
}

// decoderTypes are the types documented for the values of the extensions.
var decoderTypes = map[string][]string{
	"ext/specular":         {"*PBRSpecularGlossiness"},
	"ext/texturetransform": {"*TextureTranform"},
	"ext/lightspunctual":   {"Lights", "LightIndex"},
	"ext/unlit":            {"*Unlit"},
}

// checkDecoder checks the registered decoder of an extension.
func (r *Report) checkDecoder(pkg string, fn *ssa.Function) {
	e := r.engine()
	defer r.absorb(e)
	st := e.Base.clone()
	data := symIn(types.NewSlice(types.Typ[types.Byte]), "data").(SliceV)
	what := "decoder of " + pkg
	outs := e.fn(st, fn, []Value{data}, nil)
	r.outcomes += len(outs)
	r.unit(fnName(fn))
	pos := posOf(r.P, fn)
	want := map[string]types.Type{}
	for _, s := range decoderTypes[pkg] {
		n := r.named(pkg, strings.TrimPrefix(s, "*"))
		if n == nil {
			return
		}
		var t types.Type = n
		if s[0] == '*' {
			t = types.NewPointer(n)
		}
		want[s] = t
	}
	hit := map[string]bool{}
	for _, o := range outs {
		if o.panic {
			r.Fail("decoder", what, pos, "panics", statePath(o.st))
			continue
		}
		o := o
		r.on(e, o.st, fn, func(x *X) {
			if !x.decide(x.isNil(o.ret[1])) {
				return
			}
			bad := failures(x, x.st.ev.list(), nil)
			r.Check(len(bad) == 0, "decoder-error", what, pos, "nil is returned although "+strings.Join(bad, ", ")+" may have failed", statePath(x.st))
			iv, ok := o.ret[0].(IfaceV)
			if !ok || iv.Dyn == nil {
				r.Fail("decoder-type", what, pos, "the decoded value has no type: "+valStr(o.ret[0]), statePath(x.st))
				return
			}
			name := ""
			for s, t := range want {
				if types.Identical(iv.Dyn, t) {
					name = s
				}
			}
			if !r.Check(name != "", "decoder-type", what, pos, "values of type "+typeShort(iv.Dyn)+" are returned", statePath(x.st)) {
				return
			}
			hit[name] = true
			base := stripPtr(iv.Dyn)
			if f, _, ptr := ownMethod(base, "MarshalJSON"); f != nil {
				_, isP := iv.Dyn.(*types.Pointer)
				r.Check(!ptr || isP, "decoder-type", what+" "+name, pos, "the encoding of "+typeShort(base)+" is bypassed, values are not addressable", nil)
			}
			// The value is what the text decodes to.
			var dec Value
			var root types.Type
			for _, ev := range x.st.ev.list() {
				if ev.Kind != "unmarshal" || ev.Args[0].(StrV).T != x.bytesTerm(data) {
					continue
				}
				tgt, _ := ev.Args[1].(IfaceV)
				box, _ := ev.Args[2].(BoxV)
				if pt, ok := tgt.Dyn.(*types.Pointer); ok {
					root = pt.Elem()
					dec = symOf(root, "json", ev.Args[0].(StrV).T, argOf(box.V))
				}
			}
			if dec == nil {
				r.Undec(what + ": the text isn't decoded")
				return
			}
			got := iv.Val
			if p, ok := got.(PtrV); ok && name[0] == '*' {
				got = x.load(p)
			}
			if types.Identical(stripPtr(root), base) && name[0] == '*' {
				r.Check(vkey(got) == vkey(dec), "decoder-value", what, pos, "the value returned is not the decoded one", statePath(x.st))
				return
			}
			stt, ok := root.Underlying().(*types.Struct)
			sv, isS := dec.(StructV)
			if !ok || !isS {
				r.Undec(what + ": decoded into " + typeShort(root))
				return
			}
			// An envelope: a member for each alternative.
			match := map[string]Value{}
			ftypes := map[string]types.Type{}
			for _, f := range jsonFields(nil, root, nil) {
				for i := 0; i < stt.NumFields(); i++ {
					if stt.Field(i).Name() == f.GoName {
						match[strings.ToLower(f.Name)] = sv.F[i]
						ftypes[strings.ToLower(f.Name)] = stt.Field(i).Type()
					}
				}
			}
			member := map[string]string{"Lights": "lights", "LightIndex": "light"}[name]
			mv, ok := match[member]
			if !r.Check(ok, "decoder-value", what, pos, "the property "+member+" isn't decoded", nil) {
				return
			}
			lp := match["light"]
			has := lp != nil && !x.decide(x.isNil(lp))
			r.Check(has == (name == "LightIndex"), "decoder-value", what+" "+name, pos, "the value returned isn't that of the property present", statePath(x.st))
			mv = x.jsonValue(mv)
			same := vkey(mv) == vkey(got)
			if !same {
				v, ok := x.eval(x.equal(mv, got))
				same = ok && v
			}
			r.Check(same, "decoder-value", what, pos, "the value returned is not the decoded one: "+valStr(got), statePath(x.st))
		})
	}
	var names []string
	for s := range want {
		names = append(names, s)
	}
	sort.Strings(names)
	for _, s := range names {
		r.Check(hit[s], "decoder-type", what+" "+s, pos, "values of type "+s+" are never returned", nil)
	}
}

// checkEnvelope checks the encoding of the values of KHR_lights_punctual.
func (r *Report) checkEnvelope(typ, prop string) {
	n := r.named("ext/lightspunctual", typ)
	if n == nil {
		return
	}
	r.unit(typ)
	what := "encoding of " + typeShort(n)
	switch n.Underlying().(type) {
	case *types.Struct, *types.Map:
	default:
		if f, _ := r.P.declared(n, "MarshalJSON"); f == nil {
			r.Fail("encoding", what, r.P.Pos(n.Obj().Pos()), "the value isn't encoded as the JSON object it is decoded from", nil)
			return
		}
	}
	r.guard(typ, func() {
		e := r.engine()
		defer r.absorb(e)
		var cur Value
		views := r.encodings(e, n, func(st *State) (Value, Value) {
			ptr := nonNil(st, n, "v")
			cur = (&X{e: e, st: st}).load(ptr)
			return ptr, cur
		})
		good := 0
		for _, w := range views {
			if w.err {
				continue
			}
			w := w
			good++
			r.on(e, w.st, w.fn, func(x *X) {
				ms, ts, ok := r.members(x, w, what)
				if !ok {
					return
				}
				pos := posOf(r.P, w.fn)
				if ts != nil {
					r.Undec(what + ": written as text")
					return
				}
				for k := range ms {
					r.Check(k == prop, "encoding", what+"/"+k, pos, "the property "+k+" is not defined by the extension", nil)
				}
				f, has := ms[prop]
				if has && x.jsonOmitted(f) {
					has = false
				}
				if !has {
					empty := prop == "lights" && x.decide(x.emptyJSON(cur, n))
					r.Check(empty, "encoding", what+"/"+prop, pos, "the property "+prop+" isn't written", statePath(x.st))
					return
				}
				got := x.jsonValue(f.Val)
				same := vkey(got) == vkey(cur)
				if !same {
					v, ok := x.eval(x.equal(got, cur))
					same = ok && v
				}
				r.Check(same && !hasJSON(stripPtr(f.Type)) && !f.Quote, "encoding", what+"/"+prop, pos, "the property is written as "+valStr(got), statePath(x.st))
			})
		}
		r.Check(good > 0, "encoding", what, r.P.Pos(n.Obj().Pos()), "values can't be encoded", nil)
	})
}
