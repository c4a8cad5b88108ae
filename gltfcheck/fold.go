package main

import (
	"sort"
	"strconv"
)

// A loopFold says how a floating point variable of a loop changes in an
// iteration: in each of the cases it is one of the values given.
type loopFold struct {
	init  Value            // before the loop
	k     *Term            // the iteration
	cur   *Term            // the variable at the start of the iteration
	next  []*Term          // at its end, by case
	atoms []map[*Term]bool // conditions known in the case
	mixed bool             // different for different paths
}

func (f *loopFold) key() string {
	s := vkey(f.init)
	for _, n := range f.next {
		s += "|" + n.String()
	}
	return s
}

// findFolds records what happens to the floating point variables of the loop
// that are unknown.
func (s *summary) findFolds(start item, back []item) {
	var walk func(key string, init, cur Value, next []Value)
	walk = func(key string, init, cur Value, next []Value) {
		for _, n := range next {
			if n == nil {
				return
			}
		}
		switch c := cur.(type) {
		case FloatV:
			if h := s.hyps[key]; h == nil || h.kind != hUnk || c.T == nil || c.T.Op != "sk" {
				return
			}
			f := &loopFold{init: init, k: s.k, cur: c.T}
			for i, n := range next {
				v, ok := n.(FloatV)
				if !ok || v.T == nil {
					return
				}
				f.next = append(f.next, v.T)
				f.atoms = append(f.atoms, back[i].st.F.atoms)
			}
			if len(c.T.Args) == 0 {
				return
			}
			id, ok := c.T.Args[0].(Lit)
			if !ok {
				return
			}
			if s.e.folds == nil {
				s.e.folds = map[string]*loopFold{}
			}
			if o := s.e.folds[string(id)]; o != nil && o.key() != f.key() {
				f.mixed = true
			}
			s.e.folds[string(id)] = f
		case StructV:
			in, ok := init.(StructV)
			if !ok {
				return
			}
			for i := range c.F {
				walk(key+"."+strconv.Itoa(i), in.F[i], c.F[i], pluck(next, func(v Value) Value {
					if n, ok := v.(StructV); ok {
						return n.F[i]
					}
					return nil
				}))
			}
		case ArrayV:
			in, ok := init.(ArrayV)
			if !ok {
				return
			}
			for i := range c.E {
				walk(key+"["+strconv.Itoa(i)+"]", in.E[i], c.E[i], pluck(next, func(v Value) Value {
					if n, ok := v.(ArrayV); ok {
						return n.E[i]
					}
					return nil
				}))
			}
		}
	}
	for _, p := range s.phis {
		var next []Value
		for _, b := range back {
			next = append(next, b.fr.env[p])
		}
		walk("phi:"+p.Name(), s.initFr.env[p], start.fr.env[p], next)
	}
	var objs []*Obj
	for o := range s.objs {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Term.ID < objs[j].Term.ID })
	at := func(st *State, o *Obj) Value {
		c, ok := st.heap[o]
		if !ok {
			c = baseContent(o)
		}
		if c, ok := c.(CellC); ok {
			return c.V
		}
		return nil
	}
	for _, o := range objs {
		if v := at(s.init, o); v != nil {
			var next []Value
			for _, b := range back {
				next = append(next, at(b.st, o))
			}
			walk(objKey(o), v, at(start.st, o), next)
		}
	}
}

func pluck(l []Value, f func(Value) Value) []Value {
	r := make([]Value, len(l))
	for i, v := range l {
		r[i] = f(v)
	}
	return r
}
