package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type gset map[*ssa.Global]bool

// globalFlow follows references to the memory of package variables.
type globalFlow struct {
	r       *Report
	val     map[ssa.Value]gset // the value refers to memory of the variables
	content map[ssa.Value]gset // the local memory holds such references
	results map[*ssa.Function][]gset
	addrOf  map[*ssa.Function]bool // used as a value
	changed bool
}

func (t *globalFlow) add(m map[ssa.Value]gset, v ssa.Value, s gset) {
	if len(s) == 0 {
		return
	}
	d := m[v]
	if d == nil {
		d = gset{}
		m[v] = d
	}
	for g := range s {
		if !d[g] {
			d[g] = true
			t.changed = true
		}
	}
}

// of is the set of variables whose memory a value refers to.
func (t *globalFlow) of(v ssa.Value) gset {
	if g, ok := v.(*ssa.Global); ok {
		if g.Pkg == nil || !inRepo(g.Pkg.Pkg.Path()) || isSyncType(g.Type().(*types.Pointer).Elem()) || g.Name() == "init$guard" {
			return nil
		}
		return gset{g: true}
	}
	return t.val[v]
}

// root is the variable or value whose memory an address is in.
func rootOf(v ssa.Value) ssa.Value {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		case *ssa.Slice:
			v = a.X
		case *ssa.ChangeType:
			v = a.X
		default:
			return v
		}
	}
}

func refOrIface(tt types.Type) bool {
	if _, ok := tt.Underlying().(*types.Interface); ok {
		return true
	}
	return refersTo(tt)
}

func (t *globalFlow) fn(f *ssa.Function) {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			t.instr(f, in)
		}
	}
}

func (t *globalFlow) instr(f *ssa.Function, in ssa.Instruction) {
	pass := func(to ssa.Value, from ssa.Value) {
		if refOrIface(to.Type()) {
			t.add(t.val, to, t.of(from))
			t.add(t.content, to, t.content[from])
		}
	}
	switch in := in.(type) {
	case *ssa.FieldAddr:
		if !isSyncType(in.Type().(*types.Pointer).Elem()) {
			pass(in, in.X)
		}
	case *ssa.IndexAddr:
		pass(in, in.X)
	case *ssa.UnOp:
		if in.Op == token.MUL {
			pass(in, in.X)
			if refOrIface(in.Type()) {
				t.add(t.val, in, t.content[rootOf(in.X)])
			}
		}
	case *ssa.Slice:
		pass(in, in.X)
	case *ssa.ChangeType:
		pass(in, in.X)
	case *ssa.ChangeInterface:
		pass(in, in.X)
	case *ssa.Convert:
		if refersTo(in.X.Type()) {
			if _, ok := in.X.Type().Underlying().(*types.Basic); ok || !isBasic(in.Type()) {
				pass(in, in.X)
			}
		}
	case *ssa.MakeInterface:
		if refOrIface(in.X.Type()) {
			pass(in, in.X)
		}
	case *ssa.TypeAssert:
		pass2(t, in, in.X)
	case *ssa.Phi:
		for _, e := range in.Edges {
			pass(in, e)
		}
	case *ssa.Field:
		pass(in, in.X)
	case *ssa.Index:
		pass(in, in.X)
	case *ssa.Extract:
		if c, ok := in.Tuple.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && in.Index < len(t.results[g]) {
				t.add(t.val, in, t.results[g][in.Index])
			}
			return
		}
		pass(in, in.Tuple)
	case *ssa.Lookup:
		pass2(t, in, in.X)
	case *ssa.Range:
		t.add(t.val, in, t.of(in.X))
	case *ssa.Next:
		t.add(t.val, in, t.of(in.Iter))
	case *ssa.Store:
		if refOrIface(in.Val.Type()) {
			t.add(t.content, rootOf(in.Addr), t.of(in.Val))
		}
	case *ssa.MapUpdate:
		if refOrIface(in.Value.Type()) {
			t.add(t.content, rootOf(in.Map), t.of(in.Value))
		}
	case *ssa.MakeClosure:
		g := in.Fn.(*ssa.Function)
		for i, b := range in.Bindings {
			t.add(t.val, g.FreeVars[i], t.of(b))
			t.add(t.content, g.FreeVars[i], t.content[b])
		}
	case *ssa.Return:
		rs := t.results[f]
		if rs == nil {
			rs = make([]gset, len(in.Results))
			for i := range rs {
				rs[i] = gset{}
			}
			t.results[f] = rs
		}
		for i, v := range in.Results {
			if !refOrIface(v.Type()) || isErrorType(v.Type()) {
				continue
			}
			for _, s := range []gset{t.of(v), t.content[rootOf(v)]} {
				for g := range s {
					if !rs[i][g] {
						rs[i][g] = true
						t.changed = true
					}
				}
			}
		}
	case ssa.CallInstruction:
		c := in.Common()
		g := c.StaticCallee()
		if b, ok := c.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			if v, ok := in.(*ssa.Call); ok {
				pass(v, c.Args[0])
			}
			return
		}
		if g == nil {
			return
		}
		if g.Blocks != nil && g.Package() != nil && inRepo(g.Package().Pkg.Path()) {
			for i, a := range c.Args {
				if i < len(g.Params) && refOrIface(a.Type()) {
					t.add(t.val, g.Params[i], t.of(a))
					t.add(t.content, g.Params[i], t.content[rootOf(a)])
				}
			}
			if v, ok := in.(*ssa.Call); ok && len(t.results[g]) == 1 {
				t.add(t.val, v, t.results[g][0])
			}
		}
	}
}

func pass2(t *globalFlow, to, from ssa.Value) {
	tt := to.Type()
	if tu, ok := tt.(*types.Tuple); ok {
		tt = tu.At(0).Type()
	}
	if refOrIface(tt) {
		t.add(t.val, to, t.of(from))
	}
}

func isBasic(t types.Type) bool { _, ok := t.Underlying().(*types.Basic); return ok }

// initOnly tells whether a function only runs during initialisation, or once.
func (t *globalFlow) initOnly(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if f.Synthetic == "package initializer" || isInitFn(f) {
		return true
	}
	if seen[f] {
		return true
	}
	seen[f] = true
	if f.Parent() != nil {
		// A closure handed to sync.Once or sync.OnceFunc runs once.
		for _, b := range f.Parent().Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
					n := fnFull(c.Common().StaticCallee())
					if n == "(*sync.Once).Do" {
						for _, a := range c.Common().Args {
							if a == ssa.Value(f) {
								return true
							}
							if mc, ok := a.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(f) {
								return true
							}
						}
					}
				}
			}
		}
		return false
	}
	if f.Object() != nil && f.Object().Exported() {
		return false
	}
	l, only := t.r.P.staticCallers(f)
	if !only || len(l) == 0 {
		return false
	}
	for _, g := range l {
		if !t.initOnly(g, seen) {
			return false
		}
	}
	return true
}

func (s gset) names() []string {
	var l []string
	for g := range s {
		l = append(l, g.RelString(nil))
	}
	sort.Strings(l)
	return l
}

// writers modify the argument with the index.
var writers = map[string]int{
	"encoding/json.Unmarshal": 1, "sort.Slice": 0, "sort.SliceStable": 0, "sort.Strings": 0, "sort.Ints": 0, "sort.Float64s": 0,
	"io.ReadFull": 1, "io.ReadAtLeast": 1, "(*encoding/json.Decoder).Decode": 1, "slices.Sort": 0, "slices.SortFunc": 0, "slices.Reverse": 0,
	"(*sync.Map).Store": 0, "(*sync.Map).LoadOrStore": 0, "(*sync.Map).Delete": 0, "(*sync.Map).Swap": 0,
}

func checkC02(r *Report) {
	t := &globalFlow{r: r, val: map[ssa.Value]gset{}, content: map[ssa.Value]gset{}, results: map[*ssa.Function][]gset{}, addrOf: map[*ssa.Function]bool{}}
	for n := 0; n < 50; n++ {
		t.changed = false
		for _, f := range r.P.RepoFns {
			t.fn(f)
		}
		if !t.changed {
			break
		}
	}
	for _, f := range r.P.RepoFns {
		r.funcs[fnName(f)] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						if mc, ok2 := (*op).(*ssa.MakeClosure); ok2 {
							g, _ = mc.Fn.(*ssa.Function)
						}
						if g == nil {
							continue
						}
					}
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == *op {
						continue
					}
					if _, ok := in.(*ssa.MakeClosure); ok {
						continue
					}
					t.addrOf[g] = true
				}
			}
		}
	}
	// What RegisterExtension may modify.
	registry := gset{}
	reach := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || reach[f] {
			return
		}
		reach[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					visit(c.Common().StaticCallee())
				}
				for s := range t.writes(in) {
					registry[s] = true
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	if f := r.fn("", "RegisterExtension"); f != nil {
		visit(f)
	}
	nvars, nrefs := 0, 0
	for _, pk := range r.P.Pkgs {
		for _, m := range r.P.Prog.Package(pk.Types).Members {
			if g, ok := m.(*ssa.Global); ok && g.Name() != "init$guard" {
				nvars++
				r.unit(g.RelString(nil))
			}
		}
	}
	for _, f := range r.P.RepoFns {
		if t.initOnly(f, map[*ssa.Function]bool{}) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				pos := r.P.Pos(in.Pos())
				if w := t.writes(in); len(w) > 0 {
					nrefs++
					for g := range w {
						r.Check(registry[g] && len(registry) == 1, "no-write", fnName(f)+": "+g.RelString(nil), pos, "modifies memory of the package variable "+g.RelString(nil)+" after initialisation", nil)
					}
				}
				switch in := in.(type) {
				case *ssa.Return:
					exported := f.Object() != nil && f.Object().Exported()
					if !exported && !t.addrOf[f] && f.Parent() == nil {
						continue
					}
					for i, v := range in.Results {
						if i < len(t.results[f]) && len(t.results[f][i]) > 0 && refOrIface(v.Type()) {
							r.Fail("no-share", fnName(f), pos, fmt.Sprint("returns a reference to memory of the package variables ", t.results[f][i].names()), nil)
						}
					}
					r.OK("no-share", fnName(f)+": result")
				case *ssa.Store:
					s := t.of(in.Val)
					if len(s) == 0 || !refOrIface(in.Val.Type()) || isErrorType(in.Val.Type()) {
						continue
					}
					nrefs++
					switch root := rootOf(in.Addr).(type) {
					case *ssa.Alloc, *ssa.Global:
						_ = root
						r.OK("no-share", fnName(f)+": local store")
					default:
						r.Fail("no-share", fnName(f), pos, fmt.Sprint("stores a reference to memory of the package variables ", s.names()), nil)
					}
				case *ssa.MapUpdate:
					if s := t.of(in.Value); len(s) > 0 && refOrIface(in.Value.Type()) && !isErrorType(in.Value.Type()) {
						r.Fail("no-share", fnName(f), pos, fmt.Sprint("stores a reference to memory of the package variables ", s.names()), nil)
					}
				case ssa.CallInstruction:
					c := in.Common()
					g := c.StaticCallee()
					if _, ok := c.Value.(*ssa.Builtin); ok {
						continue
					}
					if g != nil && g.Package() != nil && inRepo(g.Package().Pkg.Path()) {
						continue
					}
					for _, a := range c.Args {
						if s := t.of(a); len(s) > 0 && refersTo(a.Type()) {
							name := "a function value"
							if g != nil {
								name = fnFull(g)
							}
							if harmless(name) {
								continue
							}
							if _, w := writers[name]; w {
								continue
							}
							r.Undec(pos + ": memory of " + fmt.Sprint(s.names()) + " is passed to " + name)
						}
					}
				}
			}
		}
	}
	for g := range registry {
		r.OK("no-write", "the registry "+g.RelString(nil)+" is the only package state modified")
	}
	r.samples = append(r.samples, fmt.Sprintf("%d package variables", nvars))
}

func harmless(name string) bool {
	for _, p := range []string{"strings.", "bytes.", "fmt.", "errors.", "math.", "unicode/utf8.", "strconv.", "slices.Contains", "slices.Index", "slices.Equal", "slices.Clone", "maps.Clone", "(*sync.", "sync/atomic.", "(*sync/atomic.", "reflect.TypeOf"} {
		if len(name) >= len(p) && name[:len(p)] == p {
			return true
		}
	}
	return false
}

// writes is the set of variables whose memory an instruction modifies.
func (t *globalFlow) writes(in ssa.Instruction) gset {
	switch in := in.(type) {
	case *ssa.Store:
		if g, ok := rootOf(in.Addr).(*ssa.Global); ok && g.Pkg != nil && inRepo(g.Pkg.Pkg.Path()) {
			return gset{g: true}
		}
		return t.of(in.Addr)
	case *ssa.MapUpdate:
		return t.of(in.Map)
	case ssa.CallInstruction:
		c := in.Common()
		if b, ok := c.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "copy", "clear", "delete":
				return t.of(c.Args[0])
			case "append":
				if len(c.Args) > 1 {
					return t.of(c.Args[0])
				}
			}
			return nil
		}
		g := c.StaticCallee()
		if g == nil {
			return nil
		}
		name := fnFull(g)
		if i, ok := writers[name]; ok && i < len(c.Args) {
			if v, ok := rootOf(c.Args[i]).(*ssa.Global); ok && v.Pkg != nil && inRepo(v.Pkg.Pkg.Path()) {
				return gset{v: true}
			}
			if mi, ok := c.Args[i].(*ssa.MakeInterface); ok {
				return t.of(mi.X)
			}
			return t.of(c.Args[i])
		}
		if g.Package() != nil && g.Package().Pkg.Path() == "sync/atomic" || len(name) > 14 && name[:14] == "(*sync/atomic." {
			switch g.Name() {
			case "Load", "LoadInt32", "LoadInt64", "LoadPointer", "LoadUint32", "LoadUint64":
				return nil
			}
			if len(c.Args) > 0 {
				if v, ok := rootOf(c.Args[0]).(*ssa.Global); ok && v.Pkg != nil && inRepo(v.Pkg.Pkg.Path()) {
					return gset{v: true}
				}
			}
		}
	}
	return nil
}
