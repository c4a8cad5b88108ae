package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	common := []string{
		"standard library functions behave as documented; readers and writers honour the io contracts (a write of fewer bytes returns an error)",
		"the document, reader, writer and file names handed to the entry points are not nil, and the document isn't modified meanwhile",
	}
	register("E01", checkDef{run: checkE01,
		explain: "All paths of the functions that do I/O are interpreted; every operation that can fail is an event with a symbolic error. Rule reported: on every path that returns no error, the error of every operation performed on the path (loop iterations included) is known to be nil.",
		assume:  append(common, "the io.EOF of looking for a GLB header only means the input is short, and the error of an extension decoder keeps the raw payload (J06)")})
	register("E02", checkDef{run: checkE02,
		explain: "Every call that opens or creates a file, on every path of every entry point, is checked in the abstract state it happens in. Rules: local-name (the name handed to a file system is validated as local and without scheme), root (the file system is the directory of the file named by the caller), output (a file created or opened directly is the one named by the caller, or a validated name below its directory), mutator (no other function that changes files is called) and same-name (encoder and decoder derive the name from the URI in the same ways).",
		assume:  common})
	register("E03", checkDef{run: checkE03,
		explain: "All paths of the encoding functions and of every JSON encoding method are interpreted on a symbolic document. Rules: unmodified (at every exit, each object reachable from the document has its original content) and not-retained (no surviving object refers to the document).",
		assume:  common})
	register("E06", checkDef{run: checkE06,
		explain: "Encoder.Encode (both formats, with and without a file system), Save and SaveBinary are interpreted on all paths with a symbolic document and failures of every operation, and every exported method of the library without parameters (JSON encodings, accessors of defaults, names and sizes of codes) with a symbolic receiver. Rule safe: every index, slice bound, nil dereference, conversion, division, allocation size and type assertion is proved, and no panic is reachable.",
		assume:  []string{"the document, the receivers, the writer and the buffers of the document aren't nil; its lists have fewer than 2^40 elements", "writers and file systems of the caller and the encoders of extension payloads don't panic; memory isn't exhausted"}})
	register("E05", checkDef{run: checkE05,
		explain: "Typestate of every opened or created file on all paths of the I/O entry points. Rules: closed (closed when the function returns, error paths and loop iterations included), once (not closed twice), use-after-close and close-error (the error of closing what was written is returned if nothing failed before).",
		assume:  common})
}

// ioRun is an analysed entry point.
type ioRun struct {
	name string
	e    *Engine
	fn   *ssa.Function
	outs []Outcome
	base *State
	doc  PtrV
	self Value // encoder or decoder
	args []Value
	errI int
}

// construct returns the state after calling a constructor on symbolic
// arguments.
func (r *Report) construct(e *Engine, st *State, fn *ssa.Function, args []Value) (*State, Value) {
	outs := e.fn(st, fn, args, nil)
	if len(outs) != 1 || outs[0].panic || len(outs[0].ret) != 1 {
		panic(undecidedErr{fmt.Sprintf("%s has %d outcomes", fnName(fn), len(outs))})
	}
	return outs[0].st, outs[0].ret[0]
}

func assumeNonNil(e *Engine, st *State, v Value) {
	x := &X{e: e, st: st}
	x.assume(x.isNil(v).not())
}

// freshen gives the exported fields of the struct behind p symbolic values.
func freshen(e *Engine, st *State, p PtrV, name string) {
	s, ok := p.Elem.Underlying().(*types.Struct)
	if !ok {
		return
	}
	x := &X{e: e, st: st}
	v, ok := x.load(p).(StructV)
	if !ok {
		return
	}
	f := append([]Value{}, v.F...)
	for i := range f {
		if s.Field(i).Exported() {
			f[i] = symIn(s.Field(i).Type(), name+"."+s.Field(i).Name())
		}
	}
	x.store(p, StructV{v.T, f})
}

// ioEntry analyses an entry point: "Open", "Save", "SaveBinary", "Encode",
// "Decode", "WriteImage" and the like.
func (r *Report) ioEntry(name string, tune func(e *Engine)) (run *ioRun) {
	r.guard(name, func() {
		e := r.engine()
		if tune != nil {
			tune(e)
		}
		st := e.Base.clone()
		n := &ioRun{name: name, e: e}
		docT := r.named("", "Document")
		sym := func(p *ssa.Parameter, as string) Value {
			v := symIn(p.Type(), as)
			switch v.(type) {
			case PtrV, IfaceV:
				assumeNonNil(e, st, v)
			}
			return v
		}
		switch name {
		case "Encode", "Decode":
			cons, typ, meth := "NewEncoderFS", "Encoder", "Encode"
			if name == "Decode" {
				cons, typ, meth = "NewDecoderFS", "Decoder", "Decode"
			}
			c := r.fn("", cons)
			n.fn = r.method("", typ, meth)
			if c == nil || n.fn == nil {
				return
			}
			var self Value
			stream := sym(c.Params[0], "stream")
			st, self = r.construct(e, st, c, []Value{stream, symIn(c.Params[1].Type(), "fsys")})
			n.self = self
			if p, ok := self.(PtrV); ok {
				freshen(e, st, p, name)
			}
			if ind := r.P.Method("", typ, "SetJSONIndent"); ind != nil {
				outs := e.fn(st, ind, []Value{self, symIn(ind.Params[1].Type(), "prefix"), symIn(ind.Params[2].Type(), "indent")}, nil)
				if len(outs) == 1 {
					st = outs[0].st
				}
			}
			n.doc = symIn(types.NewPointer(docT), "doc").(PtrV)
			assumeNonNil(e, st, n.doc)
			n.args = []Value{self, n.doc}
		default:
			pkg, f, _ := strings.Cut(name, ".")
			if f == "" {
				pkg, f = "", name
			}
			if typ, m, ok := strings.Cut(f, "."); ok {
				n.fn = r.method(pkg, typ, m)
			} else {
				n.fn = r.fn(pkg, f)
			}
			if n.fn == nil {
				return
			}
			for i, p := range n.fn.Params {
				v := sym(p, fmt.Sprint("arg", i))
				n.args = append(n.args, v)
				if pt, ok := p.Type().(*types.Pointer); ok && docT != nil && types.Identical(pt.Elem(), docT) {
					n.doc = v.(PtrV)
				}
			}
		}
		if e.entry != nil && n.doc.Obj != nil {
			e.entry(&X{e: e, st: st, fr: &Frame{fn: n.fn, env: map[ssa.Value]Value{}}}, n)
		}
		n.base = st.clone()
		n.outs = e.fn(st, n.fn, n.args, nil)
		r.outcomes += len(n.outs)
		r.absorb(e)
		n.errI = n.fn.Signature.Results().Len() - 1
		r.unit(fnName(n.fn))
		run = n
	})
	return run
}

// each runs f for every outcome, with whether it returns an error.
func (r *Report) each(n *ioRun, f func(x *X, o Outcome, ok bool)) {
	for _, o := range n.outs {
		if o.panic {
			continue
		}
		o := o
		r.guard(n.name, func() {
			r.on(n.e, o.st, n.fn, func(x *X) {
				f(x, o, x.decide(x.isNil(o.ret[n.errI])))
			})
		})
	}
}

var ioEntries = []string{"Open", "Decode", "Save", "SaveBinary", "Encode", "modeler.WriteImage", ".Image.MarshalData"}

// ---- E01

func peekEOF(ev *Ev) bool {
	k, _ := ev.Args[0].(StrV).Const()
	return k == "peek:EOF" || k == "callback"
}

// readOnlyClose tells whether an event is the failure of closing something
// that was only read.
func readOnlyClose(evs []*Ev) func(ev *Ev) bool {
	written := map[string]bool{}
	for _, ev := range flatEvents(evs) {
		if ev.Kind == "open" && len(ev.Args) > 2 {
			k, _ := ev.Args[0].(StrV).Const()
			if k != "os.Open" && k != "fs.Open" {
				written[handleKey(ev.Args[2])] = true
			}
		}
	}
	return func(ev *Ev) bool {
		if peekEOF(ev) {
			return true
		}
		k, _ := ev.Args[0].(StrV).Const()
		return k == "close" && len(ev.Args) > 2 && !written[handleKey(ev.Args[2])]
	}
}

func handleKey(v Value) string {
	if i, ok := v.(IfaceV); ok && i.T == nil && i.Val != nil {
		v = i.Val
	}
	switch a := v.(type) {
	case PtrV:
		if a.Obj != nil {
			return a.Obj.Term.String()
		}
	case IfaceV:
		if a.T != nil {
			return a.T.String()
		}
	}
	return valStr(v)
}

func checkE01(r *Report) {
	entries := append([]string{}, ioEntries...)
	for _, m := range []string{"MarshalJSON"} {
		for _, n := range r.typesWith(m) {
			entries = append(entries, strings.TrimPrefix(strings.TrimPrefix(n.Obj().Pkg().Path(), pkgPath("")), "/")+"."+n.Obj().Name()+"."+m)
		}
	}
	for _, name := range entries {
		n := r.ioEntry(name, nil)
		if n == nil {
			continue
		}
		nOK, nEv := 0, 0
		what := fnName(n.fn)
		r.each(n, func(x *X, o Outcome, ok bool) {
			evs := o.st.ev.list()
			for _, ev := range flatEvents(evs) {
				if ev.Kind == "fallible" {
					nEv++
				}
			}
			if !ok {
				return
			}
			nOK++
			bad := failures(x, evs, readOnlyClose(evs))
			if len(bad) == 0 {
				r.OK("reported", what+": a path without error")
				return
			}
			for _, b := range bad {
				r.Fail("reported", what+": "+strings.SplitN(b, " at ", 2)[0], b[strings.LastIndex(b, " ")+1:], "the failure of "+b+" is reported as success by "+what, statePath(o.st))
			}
		})
		if nOK == 0 {
			r.Undec(what + " has no path that succeeds")
		}
		r.samples = append(r.samples, fmt.Sprintf("%s: %d paths, %d successful, %d failable operations on them", what, len(n.outs), nOK, nEv))
	}
}

// ---- E02

// hasScheme is the condition that a name is a URI with a scheme.
func (x *X) hasScheme(name Value) (BoolV, bool) {
	u := x.e.stdType("net/url", "URL")
	if u == nil {
		return BoolV{}, false
	}
	sig := types.NewSignatureType(nil, nil, nil, types.NewTuple(types.NewVar(token.NoPos, nil, "s", types.Typ[types.String])),
		types.NewTuple(types.NewVar(token.NoPos, nil, "", types.NewPointer(u)), types.NewVar(token.NoPos, nil, "", types.Universe.Lookup("error").Type())), false)
	_ = sig
	a := x.deepArg(name)
	p := symOf(types.NewPointer(u), "call:net/url.Parse#0", a).(PtrV)
	e := symOf(types.Universe.Lookup("error").Type(), "call:net/url.Parse#1", a)
	s := u.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Scheme" {
			c := x.load(PtrV{Obj: p.Obj, Elem: u})
			if sv, ok := c.(StructV); ok {
				return bAnd([]BoolV{x.isNil(e), x.equal(sv.F[i], StrV{strConst("").T}).not()}), true
			}
		}
	}
	return BoolV{}, false
}

func isLocalName(name Value) BoolV {
	l := bAtom(mkTerm("islocal", SBool, nil, argOf(name)))
	v := bAtom(mkTerm("validpath", SBool, nil, argOf(name)))
	return bAnd([]BoolV{l.not(), v.not()}).not()
}

// dirOf tells whether a text is the directory of a name.
func dirOf(t *Term, name Value) bool {
	want := argOf(name).argKey()
	for t != nil {
		switch {
		case t.Op == "call:path/filepath.Dir#0", t.Op == "call:path.Dir#0", t.Op == "call:path/filepath.Split#0", t.Op == "call:path.Split#0":
			if t.Args[0].argKey() == want {
				return true
			}
			u, ok := t.Args[0].(*Term)
			if !ok {
				return false
			}
			t = u
		case t.Op == "call:path/filepath.Clean#0", t.Op == "call:path/filepath.ToSlash#0", t.Op == "call:path/filepath.FromSlash#0", t.Op == "call:path/filepath.Abs#0":
			u, ok := t.Args[0].(*Term)
			if !ok {
				return false
			}
			t = u
		default:
			return t.argKey() == want
		}
	}
	return false
}

var fileMutators = map[string]bool{}

func init() {
	for _, n := range strings.Fields("Remove RemoveAll Rename Mkdir MkdirAll MkdirTemp CreateTemp Truncate Chmod Chown Lchown Chtimes Link Symlink Chdir") {
		fileMutators["os."+n] = true
	}
	for _, n := range strings.Fields("Truncate Chmod Chown Chdir") {
		fileMutators["(*os.File)."+n] = true
	}
}

func checkE02(r *Report) {
	// Functions that change files.
	known := map[string]bool{"os.Create": true, "os.OpenFile": true, "os.WriteFile": true, "os.Open": true, "os.ReadFile": true, "os.DirFS": true}
	for _, f := range r.P.RepoFns {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var g *ssa.Function
				if c, ok := in.(ssa.CallInstruction); ok {
					g = c.Common().StaticCallee()
				}
				if g == nil {
					continue
				}
				n := fnFull(g)
				if strings.HasPrefix(n, "os/exec.") || strings.HasPrefix(n, "syscall.") || fileMutators[n] {
					r.Fail("mutator", fnName(f)+": "+n, r.P.Pos(in.Pos()), fnName(f)+" calls "+n, nil)
				} else if known[n] {
					r.OK("mutator", fnName(f)+": "+n)
				}
			}
		}
	}
	var enc []uriName // of the encoder
	for _, name := range ioEntries {
		var entryFn *ssa.Function
		check := func(x *X, b BoolV, msg string) { x.oblige(b, "file-name", msg) }
		tune := func(e *Engine) {
			e.onEv = func(x *X, ev *Ev) {
				var nm, root Value
				direct := false
				switch ev.Kind {
				case "create":
					nm = ev.Args[1]
				case "readfile":
					k, _ := ev.Args[0].(StrV).Const()
					nm = ev.Args[len(ev.Args)-1]
					if k == "os.ReadFile" {
						direct = true
					} else {
						root = ev.Args[1]
					}
				case "open":
					k, _ := ev.Args[0].(StrV).Const()
					if !strings.HasPrefix(k, "os.") {
						return
					}
					nm = ev.Args[1]
					direct = true
				case "extern":
					k, _ := ev.Args[0].(StrV).Const()
					if k == "os.OpenRoot" || strings.HasPrefix(k, "(*os.Root)") {
						x.undecided("os.Root isn't modelled")
					}
					return
				default:
					return
				}
				s, ok := nm.(StrV)
				if !ok {
					return
				}
				if direct {
					for i := range entryFn.Params {
						if vkey(symIn(entryFn.Params[i].Type(), fmt.Sprint("arg", i))) == vkey(nm) {
							return // the caller's file
						}
					}
					// directory + "/" + validated name, or a join of them
					dir, rest := splitDir(s.T)
					okDir := false
					if dir != nil {
						for i, p := range entryFn.Params {
							if isBasic(p.Type()) && dirOf(dir, symIn(p.Type(), fmt.Sprint("arg", i))) {
								okDir = true
							}
						}
					}
					if !okDir {
						check(x, bFalse, "file "+s.T.String()+" is neither the one named by the caller nor below its directory")
						return
					}
					nm = StrV{rest}
				}
				check(x, isLocalName(nm), "the name of the resource isn't validated to be local when the file is accessed")
				if h, ok := x.hasScheme(nm); ok {
					check(x, h.not(), "the name of the resource isn't checked to have no scheme when the file is accessed")
				}
				if i, ok := root.(IfaceV); ok && i.T != nil && i.T.Op == "err" {
					okDir := false
					for k, p := range entryFn.Params {
						if d, ok := i.T.Args[len(i.T.Args)-1].(*Term); ok && isBasic(p.Type()) && dirOf(d, symIn(p.Type(), fmt.Sprint("arg", k))) {
							okDir = true
						}
					}
					if !okDir {
						check(x, bFalse, "resources are looked up in "+i.T.String()+", not in the directory of the file")
					}
				}
				if t := nm.(StrV).T; t != nil {
					if name == "Encode" {
						enc = x.namesOf(enc, t, x.e.P.Pos(ev.Pos))
					}
				}
			}
		}
		entryFn = r.entryFn(name)
		if entryFn == nil {
			continue
		}
		n := r.ioEntry(name, tune)
		if n == nil {
			continue
		}
		r.safety(n.e, "local-name", name, func(a Alarm) bool { return a.Kind == "file-name" })
	}
	// Encoder and decoder agree. The names of the decoder are those of its
	// documents: D02 relates them to the files that are read.
	var dec []uriName
	r.decodes(func(x *X, p *decPath) {
		p.buffers(x, func(x *X, buf PtrV, _ bool) {
			uri, ok := x.field(buf, "URI").(StrV)
			if !ok || x.decide(strEq(uri, strConst(""))) {
				return
			}
			if x.decide(bAtom(mkTerm("prefix", SBool, nil, uri.T, strConst("data:application/octet-stream;base64").T))) {
				return
			}
			if h, ok := x.hasScheme(uri); !ok || x.decide(h) {
				return
			}
			x.deepen()
			dec = x.namesOf(dec, uri.T, r.P.Pos(p.n.fn.Pos()))
		})
	}, nil)
	for _, d := range dec {
		for _, e := range enc {
			what := "URI as " + d.name.String() + " and as " + e.name.String()
			if d.name == e.name || !d.meets(e) {
				r.OK("same-name", what)
				continue
			}
			r.Fail("same-name", "URI", e.pos, "a URI that the decoder resolves to "+d.name.String()+" may be resolved to "+e.name.String()+" by the encoder", append(append([]string{"decoder:"}, d.path()...), append([]string{"encoder:"}, e.path()...)...))
		}
	}
	if len(dec) == 0 || len(enc) == 0 {
		r.Undec("no names of resources found")
	}
}

// uriName is a name derived from the URI of a buffer, and what is known about
// that URI where it is used.
type uriName struct {
	name  *Term
	facts []Fact
	pos   string
}

var theURI = mkTerm("URI", SStr, nil)

// namesOf adds how a name is computed from the URI of a buffer, on each of
// the paths that were joined.
func (x *X) namesOf(l []uriName, t *Term, pos string) []uriName {
	var src *Term
	containsFn(t, func(u *Term) bool {
		if u.Sort == SStr && (u.Op == "f" || strings.HasSuffix(u.String(), ".URI")) && (src == nil || contains(src, u)) {
			src = u
		}
		return false
	})
	if src == nil {
		return l
	}
	about := func(a Arg) bool { return containsFn(a, func(u *Term) bool { return u == src }) }
	var relevant func(ors []*Or) []*Or
	relevant = func(ors []*Or) []*Or {
		var l []*Or
		for _, o := range ors {
			n, some := &Or{}, false
			for _, a := range o.Alts {
				b := OrAlt{Ors: relevant(a.Ors)}
				for _, f := range a.Facts {
					if f.T != nil && about(f.T) || f.P != nil && about(f.P) {
						b.Facts = append(b.Facts, f)
					}
				}
				some = some || len(b.Facts) > 0 || len(b.Ors) > 0
				n.Alts = append(n.Alts, b)
			}
			if some {
				l = append(l, n)
			}
		}
		return l
	}
	st := x.st.clone()
	st.ors = relevant(st.ors)
	budget := 200
	st.leaves(&budget, func(st *State) bool {
		if len(st.ors) > 0 && budget > 0 {
			return false
		}
		if budget <= 0 {
			x.undecided("too many ways to a name")
		}
		y := *x
		y.st = st
		if n, ok := y.nameOf(t, src, pos); ok {
			l = addName(l, n)
		}
		return true
	})
	return l
}

// nameOf describes how a name is computed from the URI of a buffer.
func (x *X) nameOf(t, src *Term, pos string) (uriName, bool) {
	s := newSubster(map[*Term]Arg{src: theURI})
	name, ok := s.term(t).(*Term)
	if !ok {
		return uriName{}, false
	}
	n := uriName{name: name, pos: pos}
	seen := map[string]bool{}
	about := func(a Arg) bool {
		return containsFn(a, func(u *Term) bool { return u == theURI }) && !containsFn(a, func(u *Term) bool {
			if u == theURI || u.Op == "sc" {
				return false
			}
			for _, a := range u.Args {
				if _, ok := a.(Lit); !ok {
					return false
				}
			}
			return true
		})
	}
	for _, f := range x.st.F.log {
		g := f.subst(s)
		if g.T != nil && !about(g.T) || g.P != nil && !about(g.P) || g.L != nil || g.T == nil && g.P == nil {
			continue
		}
		if k := g.key(); !seen[k] {
			seen[k] = true
			n.facts = append(n.facts, g)
		}
	}
	return n, true
}

func (n uriName) key() string {
	k := fmt.Sprint(n.name.ID)
	for _, f := range n.facts {
		k += ";" + f.key()
	}
	return k
}

func (n uriName) path() []string {
	var l []string
	for _, f := range n.facts {
		l = append(l, f.String())
	}
	return l
}

// meets tells whether both may be the names of one URI.
func (n uriName) meets(m uriName) bool {
	f := newFacts()
	for _, l := range [][]Fact{n.facts, m.facts} {
		for _, g := range l {
			if !f.Add(g) {
				return false
			}
		}
	}
	return true
}

func addName(l []uriName, n uriName) []uriName {
	k := n.key()
	for _, m := range l {
		if m.key() == k {
			return l
		}
	}
	return append(l, n)
}

// entryFn finds the function of an entry.
func (r *Report) entryFn(name string) *ssa.Function {
	switch name {
	case "Encode":
		return r.method("", "Encoder", "Encode")
	case "Decode":
		return r.method("", "Decoder", "Decode")
	}
	pkg, f, _ := strings.Cut(name, ".")
	if f == "" {
		pkg, f = "", name
	}
	if typ, m, ok := strings.Cut(f, "."); ok {
		return r.method(pkg, typ, m)
	}
	return r.fn(pkg, f)
}

// splitDir splits a path in the directory and the rest.
func splitDir(t *Term) (dir, rest *Term) {
	switch t.Op {
	case "call:path/filepath.Join#0", "call:path.Join#0":
		if l, ok := t.Args[0].(*Term); ok && l.Op == "list" && len(l.Args) == 2 {
			a, ok1 := l.Args[0].(*Term)
			b, ok2 := l.Args[1].(*Term)
			if ok1 && ok2 {
				return a, b
			}
		}
	case "cat":
		ps := splitCat(t)
		if len(ps) == 3 {
			if c, ok := (StrV{ps[1]}).Const(); ok && c == "/" {
				return ps[0], ps[2]
			}
		}
		if len(ps) == 2 {
			// A separator that ends the directory.
			return ps[0], ps[1]
		}
	}
	return nil, nil
}

func splitCat(t *Term) []*Term {
	if t.Op != "cat" {
		return []*Term{t}
	}
	var l []*Term
	for _, a := range t.Args {
		if u, ok := a.(*Term); ok {
			l = append(l, splitCat(u)...)
		}
	}
	return l
}

// ---- E03

func checkE03(r *Report) {
	entries := []string{"Encode", "Save", "SaveBinary"}
	for _, n := range r.typesWith("MarshalJSON") {
		entries = append(entries, strings.TrimPrefix(strings.TrimPrefix(n.Obj().Pkg().Path(), pkgPath("")), "/")+"."+n.Obj().Name()+".MarshalJSON")
	}
	for _, name := range entries {
		n := r.ioEntry(name, nil)
		if n == nil {
			continue
		}
		what := fnName(n.fn)
		var root *Term
		if n.doc.Obj != nil {
			root = n.doc.Obj.Term
		} else if p, ok := n.args[0].(PtrV); ok {
			root = p.Obj.Term
		}
		ofDoc := func(o *Obj) bool {
			if root == nil {
				// A receiver passed by value: whatever it refers to.
				return true
			}
			return contains(o.Term, root)
		}
		r.each(n, func(x *X, o Outcome, ok bool) {
			ch := x.changed(n.base, ofDoc)
			if len(ch) == 0 {
				r.OK("unmodified", what)
			}
			for _, c := range ch {
				r.Fail("unmodified", what+": "+c, posOf(r.P, n.fn), what+" modifies "+c, statePath(o.st))
			}
			for _, ev := range flatEvents(o.st.ev.list()) {
				switch ev.Kind {
				case "unmarshal":
					if i, ok := ev.Args[1].(IfaceV); ok {
						if p, ok := i.Val.(PtrV); ok && p.Obj != nil && !p.Obj.Fresh() && ofDoc(p.Obj) {
							r.Fail("unmodified", what, r.P.Pos(ev.Pos), what+" decodes into the document", statePath(o.st))
						}
					}
				case "appendspare":
					if s, ok := ev.Args[0].(SliceV); ok && s.Base.Obj != nil && !s.Base.Obj.Fresh() && ofDoc(s.Base.Obj) {
						r.Fail("unmodified", what, r.P.Pos(ev.Pos), what+" appends in the spare capacity of a slice of the document", statePath(o.st))
					}
				}
			}
			if root == nil {
				return
			}
			// What survives the call: the encoder and package variables.
			for _, ob := range sortedObjs(o.st) {
				keep := n.e.shared[ob.Term] || ob.Term.Op == "global" || ob.Term.Op == "galloc"
				if p, ok := n.self.(PtrV); ok && p.Obj == ob {
					keep = true
				}
				if !keep {
					continue
				}
				contentObjs(o.st.heap[ob], func(q *Obj) {
					if contains(q.Term, root) {
						r.Fail("not-retained", what, posOf(r.P, n.fn), what+" retains "+q.Term.String()+" in "+ob.Term.String(), statePath(o.st))
					}
				})
			}
			r.OK("not-retained", what)
		})
		r.samples = append(r.samples, fmt.Sprintf("%s: %d paths", what, len(n.outs)))
	}
}

// ---- E05

type fileWalk struct {
	r    *Report
	n    *ioRun
	st   *State
	seen int
}

// run follows the typestate of the handles along the events.
func (w *fileWalk) run(evs []*Ev, open map[string]*Ev, closed map[string]bool, inLoop bool) {
	what := fnName(w.n.fn)
	path := func() []string { return statePath(w.st) }
	for _, ev := range evs {
		pos := w.r.P.Pos(ev.Pos)
		if ev.Loop != nil {
			for _, a := range ev.Alts {
				o2 := map[string]*Ev{}
				for k, v := range open {
					o2[k] = v
				}
				c2 := cloneMap(closed)
				w.run(a, o2, c2, true)
				for k, v := range o2 {
					if _, ok := open[k]; !ok {
						w.r.Fail("closed", what+": "+v.Fn, w.r.P.Pos(v.Pos), "a file opened in an iteration is not closed in it", path())
					}
				}
				for k := range c2 {
					if _, ok := open[k]; ok && !closed[k] {
						w.r.Fail("once", what+": "+ev.Fn, pos, "a loop closes a file opened before it", path())
					}
				}
			}
			continue
		}
		switch ev.Kind {
		case "open":
			if len(ev.Args) < 3 || ev.Args[2] == nil {
				continue
			}
			w.seen++
			open[handleKey(ev.Args[2])] = ev
		case "close":
			k := handleKey(ev.Args[0])
			if closed[k] {
				w.r.Fail("once", what+": "+ev.Fn, pos, "a file is closed twice", path())
			}
			if _, ok := open[k]; ok {
				delete(open, k)
				closed[k] = true
				w.r.OK("once", what)
			} else if !closed[k] {
				w.r.Fail("once", what+": "+ev.Fn, pos, "closes something it didn't open", path())
			}
		case "read", "write":
			if closed[handleKey(ev.Args[0])] {
				w.r.Fail("use-after-close", what+": "+ev.Fn, pos, "a file is used after it was closed", path())
			}
		}
	}
}

func checkE05(r *Report) {
	for _, name := range ioEntries {
		n := r.ioEntry(name, nil)
		if n == nil {
			continue
		}
		what := fnName(n.fn)
		seen := 0
		r.each(n, func(x *X, o Outcome, ok bool) {
			w := &fileWalk{r: r, n: n, st: o.st}
			open := map[string]*Ev{}
			evs := o.st.ev.list()
			w.run(evs, open, map[string]bool{}, false)
			seen += w.seen
			for _, ev := range open {
				r.Fail("closed", what+": "+ev.Fn, r.P.Pos(ev.Pos), "a file is left open on a path of "+what, statePath(o.st))
			}
			r.OK("closed", what)
			if ok {
				ex := readOnlyClose(evs)
				for _, f := range failures(x, evs, func(ev *Ev) bool {
					k, _ := ev.Args[0].(StrV).Const()
					return k != "close" || ex(ev)
				}) {
					r.Fail("close-error", what, f[strings.LastIndex(f, " ")+1:], "the failure of "+f+" after writing is reported as success", statePath(o.st))
				}
				r.OK("close-error", what)
			}
		})
		r.samples = append(r.samples, fmt.Sprintf("%s: %d paths, %d files opened on them", what, len(n.outs), seen))
	}
}

// ---- E06

func checkE06(r *Report) {
	docT := r.named("", "Document")
	var elem types.Type
	if b := r.named("", "Buffer"); b != nil {
		elem = types.NewPointer(b)
	}
	tune := func(e *Engine) {
		e.deepPick, e.nonNilElem = true, elem
		e.entry = func(x *X, n *ioRun) {
			s, ok := docT.Underlying().(*types.Struct)
			if !ok {
				return
			}
			for i := 0; i < s.NumFields(); i++ {
				if _, ok := s.Field(i).Type().Underlying().(*types.Slice); ok {
					x.assume(bGe(PInt(1 << 40).Sub(x.docSlice(n.doc, s.Field(i).Name()).Len)))
				}
			}
		}
	}
	for _, name := range []string{"Encode", "Save", "SaveBinary"} {
		if n := r.ioEntry(name, tune); n != nil {
			r.safety(n.e, "safe", name, nil)
			r.noPanic(n.fn, n.outs)
		}
	}
	run := func(t *types.Named, fn *ssa.Function, isPtr bool) {
		r.guard(fnName(fn), func() {
			e := r.engine()
			tune(e)
			defer r.absorb(e)
			st := e.Base.clone()
			p := nonNil(st, t, "v")
			arg := Value(p)
			if !isPtr {
				arg = (&X{e: e, st: st}).load(p)
			}
			args := []Value{arg}
			for i, q := range fn.Params[1:] {
				args = append(args, symIn(q.Type(), fmt.Sprint("arg", i)))
			}
			outs := e.fn(st, fn, args, nil)
			r.outcomes += len(outs)
			r.unit(fnName(fn))
			r.safety(e, "safe", fnName(fn), nil)
			r.noPanic(fn, outs)
		})
	}
	for _, t := range r.namedTypes() {
		for i := 0; i < t.NumMethods(); i++ {
			m := t.Method(i)
			if !m.Exported() || m.Type().(*types.Signature).Params().Len() > 0 {
				continue
			}
			if fn, isPtr := r.P.declared(t, m.Name()); fn != nil && fnName(fn) != "(*gltf.Image).MarshalData" {
				run(t, fn, isPtr)
			}
		}
	}
}
