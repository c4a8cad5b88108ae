package main

import (
	"fmt"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// reachable is the functions of the repository that entry functions can call
// statically, closures and functions used as values included.
func (p *Program) reachable(entry ...*ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f == nil || seen[f] || !inRepo(fnPkg(f)) || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			visit(g)
		}
	}
	for _, f := range entry {
		visit(f)
	}
	return out
}

// fnPkg is the path of the package of a function.
func fnPkg(f *ssa.Function) string {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil {
		return ""
	}
	return f.Pkg.Pkg.Path()
}

// byteFlow follows where slices are from, without copying.
type byteFlow struct {
	fns   []*ssa.Function
	calls map[*ssa.Function][]*ssa.CallCommon // in these functions
	bound map[*ssa.FreeVar]ssa.Value

	appended map[*ssa.Function]map[int]bool // memo of appends
	judged   []*ssa.BasicBlock              // loops over slices in the order of a map
}

func newByteFlow(fns []*ssa.Function) *byteFlow {
	b := &byteFlow{fns: fns, calls: map[*ssa.Function][]*ssa.CallCommon{}, bound: map[*ssa.FreeVar]ssa.Value{}}
	for _, f := range fns {
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				switch c := in.(type) {
				case ssa.CallInstruction:
					if g := c.Common().StaticCallee(); g != nil {
						b.calls[g] = append(b.calls[g], c.Common())
					}
				case *ssa.MakeClosure:
					for i, v := range c.Fn.(*ssa.Function).FreeVars {
						b.bound[v] = c.Bindings[i]
					}
				}
			}
		}
	}
	return b
}

// sources calls f for all values that v can be, through calls, conversions,
// reslicing and local variables.
func (b *byteFlow) sources(v ssa.Value, seen map[ssa.Value]bool, f func(leaf ssa.Value)) {
	if v == nil || seen[v] {
		return
	}
	seen[v] = true
	next := func(v ssa.Value) { b.sources(v, seen, f) }
	switch a := v.(type) {
	case *ssa.Slice:
		if _, ok := a.X.Type().Underlying().(*types.Slice); ok {
			next(a.X)
			return
		}
	case *ssa.Phi:
		for _, e := range a.Edges {
			next(e)
		}
		return
	case *ssa.ChangeType:
		next(a.X)
		return
	case *ssa.MakeInterface:
		next(a.X)
		return
	case *ssa.ChangeInterface:
		next(a.X)
		return
	case *ssa.TypeAssert:
		next(a.X)
		return
	case *ssa.Parameter:
		cs := b.calls[a.Parent()]
		for _, c := range cs {
			for i, p := range a.Parent().Params {
				if p == a && i < len(c.Args) {
					next(c.Args[i])
				}
			}
		}
		if len(cs) > 0 {
			return
		}
	case *ssa.FreeVar:
		if w := b.bound[a]; w != nil {
			next(w)
			return
		}
	case *ssa.Extract:
		switch c := a.Tuple.(type) {
		case *ssa.Call:
			if b.results(c, a.Index, next) {
				return
			}
		case *ssa.TypeAssert:
			if a.Index == 0 {
				next(c.X)
			}
			return
		case *ssa.Lookup:
			f(c)
			return
		}
	case *ssa.Call:
		if bi, ok := a.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			next(a.Call.Args[0])
			return
		}
		if b.results(a, 0, next) {
			return
		}
	case *ssa.UnOp:
		if a.Op != token.MUL {
			return
		}
		if al := b.local(a.X); al != nil {
			b.stores(al, next)
			return
		}
		f(a)
		return
	}
	f(v)
}

func (b *byteFlow) local(v ssa.Value) *ssa.Alloc {
	switch a := v.(type) {
	case *ssa.Alloc:
		return a
	case *ssa.FreeVar:
		if w := b.bound[a]; w != nil {
			return b.local(w)
		}
	}
	return nil
}

// stores runs f for what is stored in a local variable.
func (b *byteFlow) stores(al *ssa.Alloc, f func(ssa.Value)) {
	for _, g := range b.fns {
		for _, bl := range g.Blocks {
			for _, in := range bl.Instrs {
				if s, ok := in.(*ssa.Store); ok && b.local(s.Addr) == al {
					f(s.Val)
				}
			}
		}
	}
}

// results runs f for a result of a call in the repository.
func (b *byteFlow) results(c *ssa.Call, i int, f func(ssa.Value)) bool {
	g := c.Call.StaticCallee()
	if g == nil || !inRepo(fnPkg(g)) || len(g.Blocks) == 0 {
		return false
	}
	for _, bl := range g.Blocks {
		for _, in := range bl.Instrs {
			if ret, ok := in.(*ssa.Return); ok && i < len(ret.Results) {
				f(ret.Results[i])
			}
		}
	}
	return true
}

// pathKey names what an address or a value is, so that values with the same
// name in a function are the same unless it was changed in between.
func pathKey(v ssa.Value) string {
	switch a := v.(type) {
	case *ssa.FieldAddr:
		return fmt.Sprintf("%s.%d", pathKey(a.X), a.Field)
	case *ssa.Field:
		return fmt.Sprintf("%s.%d", pathKey(a.X), a.Field)
	case *ssa.IndexAddr:
		return fmt.Sprintf("%s[%s]", pathKey(a.X), pathKey(a.Index))
	case *ssa.Lookup:
		return fmt.Sprintf("%s{%s}", pathKey(a.X), pathKey(a.Index))
	case *ssa.UnOp:
		return a.Op.String() + pathKey(a.X)
	case *ssa.BinOp:
		return "(" + pathKey(a.X) + a.Op.String() + pathKey(a.Y) + ")"
	case *ssa.Const:
		return a.String()
	case *ssa.Convert:
		return pathKey(a.X)
	case *ssa.ChangeType:
		return pathKey(a.X)
	case *ssa.Extract:
		return fmt.Sprintf("%s#%d", pathKey(a.Tuple), a.Index)
	}
	return fmt.Sprintf("%s@%p", v.Name(), v)
}

// lookedUp is the map, if any, that an access path goes through by a key that
// isn't a number.
func (b *byteFlow) lookedUp(v ssa.Value) ssa.Value {
	for {
		switch a := v.(type) {
		case *ssa.Lookup:
			if m, ok := a.X.Type().Underlying().(*types.Map); ok {
				if k, ok := m.Key().Underlying().(*types.Basic); ok && k.Info()&types.IsString != 0 {
					return a.X
				}
			}
			return nil
		case *ssa.Extract:
			v = a.Tuple
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.Field:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		case *ssa.Phi:
			for _, e := range a.Edges {
				if _, ok := e.(*ssa.Phi); !ok {
					if m := b.lookedUp(e); m != nil {
						return m
					}
				}
			}
			return nil
		case *ssa.UnOp:
			v = a.X
		case *ssa.Call:
			if g := a.Call.StaticCallee(); g != nil && fnPkg(g) == "sync" && g.Name() == "Load" && len(a.Call.Args) == 2 {
				if k, ok := a.Call.Args[1].(*ssa.MakeInterface); ok {
					if t, ok := k.X.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsString != 0 {
						return a.Call.Args[0]
					}
				}
			}
			return nil
		case *ssa.TypeAssert:
			v = a.X
		default:
			return nil
		}
	}
}

// shared looks for buffers whose data is, without copying, that of another
// buffer, or what a map holds by name.
func (r *Report) shared(entry ...*ssa.Function) {
	fns := r.P.reachable(entry...)
	b := newByteFlow(fns)
	isData := func(v ssa.Value) *ssa.FieldAddr {
		f, ok := v.(*ssa.FieldAddr)
		if !ok {
			return nil
		}
		n, ok := f.X.Type().Underlying().(*types.Pointer).Elem().(*types.Named)
		if !ok || n.Obj().Name() != "Buffer" || !inRepo(n.Obj().Pkg().Path()) {
			return nil
		}
		s, ok := n.Underlying().(*types.Struct)
		if !ok || s.Field(f.Field).Name() != "Data" {
			return nil
		}
		return f
	}
	sites := 0
	for _, fn := range fns {
		for _, bl := range fn.Blocks {
			for _, in := range bl.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				to := isData(st.Addr)
				if to == nil {
					continue
				}
				sites++
				construct := fnName(fn)
				pos := r.P.Pos(st.Pos())
				bad := ""
				b.sources(st.Val, map[ssa.Value]bool{}, func(leaf ssa.Value) {
					if m := b.lookedUp(leaf); m != nil {
						bad = "the data of a buffer is what a map holds by name, without copying: buffers with the same name share it"
						return
					}
					ld, ok := leaf.(*ssa.UnOp)
					if !ok {
						return
					}
					if from := isData(ld.X); from != nil && ld.Parent() == fn && pathKey(from) != pathKey(to) {
						bad = "the data of a buffer is that of another, without copying"
					}
				})
				if bad != "" {
					r.Fail("own", construct, pos, bad, nil)
				} else {
					r.OK("own", construct)
				}
			}
		}
	}
	r.samples = append(r.samples, fmt.Sprintf("flow of slices into Buffer.Data: %d functions, %d stores", len(fns), sites))
}
