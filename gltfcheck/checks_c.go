package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C01", checkDef{run: checkC01,
		explain: "Every function that refers to a package variable that changes after initialisation (or to its lock) is interpreted on all paths with a trace of lock operations and accesses; a function whose locking isn't balanced by itself is judged in its callers. Rules: held (access only under a lock common to all accesses, exclusive for writes), released (no lock is held when a function that others can call returns or panics), no-reacquire, no-foreign-call (callbacks, I/O or calls outside the repository while holding), escape (the registry itself isn't handed out), registers (RegisterExtension stores exactly key and decoder, unconditionally) and lookup (the decoder applied to a payload is the registry's entry for its key).",
		assume:  []string{"package sync and the Go memory model behave as documented", "the registry is only reached through Go code of this repository"}})
	register("C02", checkDef{run: checkC02,
		explain: "An interprocedural, flow-insensitive analysis of the compiler's intermediate representation follows every reference to the memory of a package-level variable of the repository (its address, and slices, maps and pointers loaded from it) through locals, fields, parameters, closures and results. Rules: no-write (no instruction outside initialisation modifies such memory, except that of the registry RegisterExtension stores into and the sync.Pool and lock types) and no-share (no such reference is returned by an exported function or a function used as a value, or stored in memory that isn't local).",
		assume:  []string{"functions outside the repository modify only arguments they are documented to modify", "the memory held by the pools is the subject of R04 and the locking of the registry of C01"}})
}

// sharedRefs lists the functions that refer to the variables.
func (r *Report) sharedRefs(vars map[*ssa.Global]bool) []*ssa.Function {
	var l []*ssa.Function
	for _, f := range r.P.RepoFns {
		if f.Synthetic == "package initializer" || isInitFn(f) {
			continue
		}
		found := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && vars[g] {
						found = true
					}
				}
			}
		}
		if found {
			l = append(l, f)
		}
	}
	return l
}

// staticCallers lists the functions that call f, and tells whether f is only
// used in such calls.
func (p *Program) staticCallers(f *ssa.Function) (l []*ssa.Function, only bool) {
	only = true
	seen := map[*ssa.Function]bool{}
	for _, g := range p.RepoFns {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != ssa.Value(f) {
						continue
					}
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().Value == ssa.Value(f) {
						n := 0
						for _, a := range c.Common().Args {
							if a == ssa.Value(f) {
								n++
							}
						}
						if n == 0 {
							if !seen[g] {
								seen[g] = true
								l = append(l, g)
							}
							continue
						}
					}
					if _, ok := in.(*ssa.MakeClosure); ok {
						if !seen[g] {
							seen[g] = true
							l = append(l, g)
						}
						continue
					}
					only = false
				}
			}
		}
	}
	return l, only
}

func isSyncType(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Pkg() != nil && (n.Obj().Pkg().Path() == "sync" || n.Obj().Pkg().Path() == "sync/atomic")
}

func isLockType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync" && strings.HasSuffix(n.Obj().Name(), "Mutex") {
		return true
	}
	if s, ok := t.Underlying().(*types.Struct); ok && !isSyncType(t) {
		for i := 0; i < s.NumFields(); i++ {
			if isLockType(s.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

type lockProblem struct {
	rule, what, pos, msg string
	path                 []string
}

type lockWalk struct {
	r        *Report
	fn       *ssa.Function
	st       *State
	problems []lockProblem
	guards   map[*Term]map[string]bool
	nAcc     int
	nLock    int
}

func (w *lockWalk) bad(rule, pos, msg string) {
	w.problems = append(w.problems, lockProblem{rule, fnName(w.fn), pos, msg, statePath(w.st)})
}

// run follows the events with the locks held, and returns those held after.
func (w *lockWalk) run(evs []*Ev, held map[string]string) map[string]string {
	h := cloneMap(held)
	for _, ev := range evs {
		pos := w.r.P.Pos(ev.Pos)
		if ev.Loop != nil {
			for _, a := range ev.Alts {
				g := w.run(a, h)
				if fmt.Sprint(g) != fmt.Sprint(h) {
					w.bad("released", pos, "an iteration of the loop leaves locks in another state")
				}
			}
			continue
		}
		switch ev.Kind {
		case "lock":
			w.nLock++
			op, _ := ev.Args[0].(StrV).Const()
			key := valStr(ev.Args[1])
			switch op {
			case "Lock", "RLock":
				if h[key] != "" {
					w.bad("no-reacquire", pos, op+" of a lock that is already held")
				} else if len(h) > 0 {
					w.bad("no-foreign-call", pos, op+" while another lock is held")
				}
				h[key] = op
			case "Unlock":
				if h[key] != "Lock" {
					w.bad("released", pos, "Unlock without Lock")
				}
				delete(h, key)
			case "RUnlock":
				if h[key] != "RLock" {
					w.bad("released", pos, "RUnlock without RLock")
				}
				delete(h, key)
			}
		case "access":
			w.nAcc++
			how, _ := ev.Args[0].(StrV).Const()
			p := ev.Args[1].(PtrV)
			g := map[string]bool{}
			for k, m := range h {
				if how == "r" || m == "Lock" {
					g[k] = true
				}
			}
			if old, ok := w.guards[p.Obj.Term]; ok {
				for k := range old {
					if !g[k] {
						delete(old, k)
					}
				}
				if len(old) == 0 && len(g) > 0 {
					w.bad("held", pos, "the accesses of "+p.Obj.Term.String()+" hold no lock in common")
				}
			} else {
				w.guards[p.Obj.Term] = g
			}
			if len(g) == 0 {
				what := "read"
				if how == "w" {
					what = "modified"
				}
				msg := p.Obj.Term.String() + " is " + what + " without holding its lock"
				if how == "w" && len(h) > 0 {
					msg += " for writing"
				}
				w.bad("held", pos, msg)
			}
		case "callback", "invoke", "extern", "open", "create", "close", "read", "write", "readfile", "marshal", "unmarshal":
			if len(h) > 0 {
				w.bad("no-foreign-call", pos, ev.Kind+" while a lock is held")
			}
		}
	}
	return h
}

func checkC01(r *Report) {
	e := r.engine()
	e.trace = true
	defer r.absorb(e)
	vars := map[*ssa.Global]bool{}
	for g := range e.mutableGlobals() {
		if t := g.Type().(*types.Pointer).Elem(); !isSyncType(t) && inRepo(g.Pkg.Pkg.Path()) {
			vars[g] = true
		}
	}
	for _, pk := range r.P.Pkgs {
		for _, m := range r.P.Prog.Package(pk.Types).Members {
			if g, ok := m.(*ssa.Global); ok && isLockType(g.Type().(*types.Pointer).Elem()) {
				vars[g] = true
			}
		}
	}
	guards := map[*Term]map[string]bool{}
	nAcc, nLock := 0, 0
	todo := r.sharedRefs(vars)
	sort.Slice(todo, func(i, j int) bool { return fnName(todo[i]) < fnName(todo[j]) })
	seen := map[*ssa.Function]bool{}
	depth := map[*ssa.Function]int{}
	for len(todo) > 0 {
		fn := todo[0]
		todo = todo[1:]
		if seen[fn] {
			continue
		}
		seen[fn] = true
		climb := func() bool {
			if depth[fn] > 8 {
				return false
			}
			if fn.Parent() != nil {
				todo = append(todo, fn.Parent())
				depth[fn.Parent()] = depth[fn] + 1
				return true
			}
			if fn.Object() == nil || fn.Object().Exported() {
				return false
			}
			l, only := r.P.staticCallers(fn)
			if !only || len(l) == 0 {
				return false
			}
			for _, g := range l {
				depth[g] = depth[fn] + 1
				todo = append(todo, g)
			}
			return true
		}
		if fn.Parent() != nil {
			climb()
			continue
		}
		r.unit(fnName(fn))
		r.guard(fnName(fn), func() {
			st := e.Base.clone()
			var args []Value
			for _, p := range fn.Params {
				args = append(args, symIn(p.Type(), p.Name()))
			}
			outs := e.fn(st, fn, args, nil)
			r.outcomes += len(outs)
			var problems []lockProblem
			tmp := map[*Term]map[string]bool{}
			for k, v := range guards {
				tmp[k] = cloneMap(v)
			}
			for _, o := range outs {
				w := &lockWalk{r: r, fn: fn, st: o.st, guards: tmp}
				h := w.run(o.st.ev.list(), map[string]string{})
				nAcc += w.nAcc
				nLock += w.nLock
				if len(h) > 0 {
					how := "returns"
					if o.panic {
						how = "panics"
					}
					w.bad("released", posOf(r.P, fn), how+" with a lock held")
				}
				for _, v := range o.ret {
					contentObjs(newCell(v), func(ob *Obj) {
						if e.shared[ob.Term] {
							w.bad("escape", posOf(r.P, fn), "hands out the shared "+ob.Term.String())
						}
					})
				}
				problems = append(problems, w.problems...)
			}
			if len(problems) > 0 && climb() {
				return
			}
			guards = tmp
			for _, p := range problems {
				r.Fail(p.rule, p.what, p.pos, p.msg, p.path)
			}
			if len(problems) == 0 {
				for _, rule := range []string{"held", "released", "no-reacquire", "no-foreign-call", "escape"} {
					r.OK(rule, fmt.Sprintf("%s: %d paths", fnName(fn), len(outs)))
				}
			}
		})
	}
	r.samples = append(r.samples, fmt.Sprintf("%d accesses and %d lock operations on all paths", nAcc, nLock))

	// Registering stores the decoder for the key, on every path.
	var reg *Term
	if fn := r.fn("", "RegisterExtension"); fn != nil && len(fn.Params) == 2 {
		r.guard("RegisterExtension", func() {
			st := e.Base.clone()
			key, f := symIn(fn.Params[0].Type(), "key"), symIn(fn.Params[1].Type(), "f")
			outs := e.fn(st, fn, []Value{key, f}, nil)
			for _, o := range outs {
				if o.panic {
					continue
				}
				o := o
				n := 0
				for _, ob := range sortedObjs(o.st) {
					m, ok := o.st.heap[ob].(*MapC)
					if !ok || len(m.W) == 0 || !e.shared[ob.Term] {
						continue
					}
					if b, ok := e.Base.heap[ob]; ok && b.key() == m.key() {
						continue
					}
					last := m.W[len(m.W)-1]
					if last.Loop != nil || last.Del {
						continue
					}
					r.on(e, o.st, fn, func(x *X) {
						if v, known := x.eval(x.equal(last.Key, key)); known && v && vkey(last.Val) == vkey(f) {
							n++
							reg = ob.Term
						}
					})
				}
				ext := false
				for _, ev := range flatEvents(o.st.ev.list()) {
					ext = ext || ev.Kind == "extern"
				}
				if n == 0 && ext {
					r.Undec("RegisterExtension uses a container that isn't modelled")
					continue
				}
				r.Check(n > 0, "registers", fnName(fn), posOf(r.P, fn), "a path doesn't register the decoder for the key", statePath(o.st))
			}
			if len(outs) == 0 {
				r.Undec("RegisterExtension has no outcome")
			}
		})
	}
	n := r.named("", "Extensions")
	if reg == nil || n == nil {
		return
	}
	r.guard("lookup", func() {
		fn, _, _, outs := r.decodings(e, n)
		if fn == nil {
			return
		}
		seen := 0
		for _, o := range outs {
			for _, ev := range flatEvents(o.st.ev.list()) {
				if ev.Kind != "callback" {
					continue
				}
				f, ok := ev.Args[0].(FuncV)
				if !ok || f.T == nil || f.T.Op != "mapval" {
					r.Undec("the decoder applied to extensions isn't a plain lookup: " + valStr(ev.Args[0]))
					continue
				}
				seen++
				good := f.T.Args[0] == Arg(reg)
				r.Check(good, "lookup", fnName(fn), r.P.Pos(ev.Pos), "the decoder applied to a payload, "+f.T.String()+", isn't one of those registered", statePath(o.st))
				if s, ok := ev.Args[1].(SliceV); ok && s.Base.Obj != nil {
					if t := s.Base.Obj.Term; t.Op == "arr" && len(t.Args) == 1 {
						if mv, ok := t.Args[0].(*Term); ok && mv.Op == "mapval" {
							same := mv.Args[1].argKey() == f.T.Args[1].argKey()
							r.Check(same, "lookup", fnName(fn)+" key", r.P.Pos(ev.Pos), "a payload is decoded by the decoder of another key", statePath(o.st))
						}
					}
				}
			}
		}
		if seen == 0 {
			r.Undec("no decoder is applied in " + fnName(fn))
		}
	})
}

func sortedObjs(st *State) []*Obj {
	var l []*Obj
	for o := range st.heap {
		l = append(l, o)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Term.ID < l[j].Term.ID })
	return l
}
