package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The functions below keep the number of outcomes of a call small in engines
// with the option compact: objects that a call allocates and that can't be
// reached afterwards are dropped, and the errors of the outcomes that return
// one aren't told apart.

// valueObjs calls f with the objects a value refers to. It returns false if
// the kind of value is unknown.
func valueObjs(v Value, f func(o *Obj)) bool {
	obj := func(o *Obj) bool {
		if o != nil {
			f(o)
		}
		return true
	}
	list := func(l []Value) bool {
		for _, w := range l {
			if !valueObjs(w, f) {
				return false
			}
		}
		return true
	}
	switch v := v.(type) {
	case nil, IntV, BoolV, StrV, FloatV, OpaqueV, ReflTypeV:
		return true
	case PtrV:
		return obj(v.Obj)
	case UnsafeV:
		return obj(v.P.Obj)
	case SliceV:
		return obj(v.Base.Obj)
	case MapV:
		return obj(v.Obj)
	case IfaceV:
		return valueObjs(v.Val, f)
	case StructV:
		return list(v.F)
	case ArrayV:
		return list(v.E)
	case TupleV:
		return list(v)
	case FuncV:
		return list(v.Bind) && valueObjs(v.Recv, f)
	case ReflV:
		if v.Ptr != nil {
			obj(v.Ptr.Obj)
		}
		return valueObjs(v.V, f)
	case BoxV:
		return obj(v.P.Obj) && valueObjs(v.V, f)
	case IterV:
		return obj(v.Cell) && valueObjs(v.Map, f)
	}
	return false
}

func contentRefs(c Content, f func(o *Obj)) bool {
	switch c := c.(type) {
	case nil:
		return true
	case CellC:
		return valueObjs(c.V, f)
	case *SeqC:
		var writes func(l []SWrite) bool
		writes = func(l []SWrite) bool {
			for _, w := range l {
				if !valueObjs(w.V, f) || w.Src != nil && !contentRefs(w.Src, f) {
					return false
				}
				for _, a := range w.Alts {
					if !writes(a) {
						return false
					}
				}
			}
			return true
		}
		return writes(c.W)
	case *MapC:
		var writes func(l []MWrite) bool
		writes = func(l []MWrite) bool {
			for _, w := range l {
				if !valueObjs(w.Key, f) || !valueObjs(w.Val, f) {
					return false
				}
				for _, a := range w.Alts {
					if !writes(a) {
						return false
					}
				}
			}
			return true
		}
		return writes(c.W)
	}
	return false
}

// collect drops the objects allocated since entry that the results and the
// older objects don't refer to.
func (st *State) collect(entry map[*Obj]bool, ret []Value) {
	live := map[*Obj]bool{}
	var work []*Obj
	mark := func(o *Obj) {
		if !live[o] {
			live[o] = true
			work = append(work, o)
		}
	}
	for _, v := range ret {
		if !valueObjs(v, mark) {
			return
		}
	}
	for o := range st.heap {
		if entry[o] || !o.Fresh() {
			mark(o)
		}
	}
	for _, f := range st.fams {
		mark(f.Pat)
		for _, c := range f.Alts {
			if c != nil && !contentRefs(c, mark) {
				return
			}
		}
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		if c, ok := st.heap[o]; ok && !contentRefs(c, mark) {
			return
		}
	}
	var dead []*Obj
	for o := range st.heap {
		if !live[o] {
			dead = append(dead, o)
		}
	}
	if len(dead) == 0 {
		return
	}
	st.heap = cloneMap(st.heap)
	st.shared = false
	for _, o := range dead {
		delete(st.heap, o)
	}
}

// compactOutcomes prepares the outcomes of a call to be joined.
func (e *Engine) compactOutcomes(fn *ssa.Function, entry map[*Obj]bool, outs []Outcome) {
	res := fn.Signature.Results()
	last := res.Len() - 1
	isErr := last >= 0 && types.Identical(res.At(last).Type(), types.Universe.Lookup("error").Type())
	for i := range outs {
		o := &outs[i]
		if o.panic {
			o.st.collect(entry, []Value{o.pval})
			continue
		}
		o.st.sync()
		if isErr {
			if v, ok := o.ret[last].(IfaceV); ok {
				x := &X{e: e, st: o.st}
				if isNil, known := x.eval(x.isNil(v)); known && !isNil {
					o.ret = append([]Value{}, o.ret...)
					o.ret[last] = IfaceV{T: mkTerm("err", SRef, nil, append([]Arg{Lit("of " + fnName(fn) + o.st.ctx)}, o.st.iters...)...)}
				}
			}
		}
		o.st.collect(entry, o.ret)
	}
}
