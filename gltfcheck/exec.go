package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"os"
	"runtime"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type infeasible struct{}
type forkReq struct{ n int }
type undecidedErr struct{ msg string }

// Alarm is a proof obligation that could not be discharged.
type Alarm struct {
	Kind string // index, slice, nil, assert, div, make, panic, undecided
	Msg  string
	Pos  string
	Fn   string
	Path []string
}

func (a Alarm) key() string { return a.Kind + "|" + a.Pos + "|" + a.Fn + "|" + a.Msg }

// Engine is the abstract interpreter of one analysis run.
type Engine struct {
	P         *Program
	Alarms    map[string]Alarm
	quiet     int
	steps     int
	maxSteps  int
	viewOf    map[*Obj]*Obj
	extents   map[*Obj]*Poly
	External  map[string]int
	Contracts map[*ssa.Function]func(x *X, args []Value) Value
	compact   bool   // see compact.go
	Base      *State // after package initialisation
	ImmGlob   map[*ssa.Global]bool
	// coverage
	Funcs   map[*ssa.Function]bool
	Oblig   map[string]int
	Calls   int
	Loops   int
	callers []*ssa.Function
	info    map[*ssa.Function]*fnInfo
	debug   bool
	// nofork, when set, makes choices fail instead of forking.
	lets map[string]bool
	// encOf maps the text of an encoded value to the value.
	encOf map[*Term]Value
	// Registered are the functions that initialisers store in maps.
	Registered []Registration
	// shared are the objects of package variables that change after
	// initialisation; with trace set, accesses to them are events.
	shared map[*Term]bool
	trace  bool
	// onEv, when set, sees every event in the state it happens in.
	noNilFuncs bool                 // functions in maps of package variables aren't nil
	nonNilElem types.Type           // elements of this type of the lists of the arguments are not nil
	entry      func(x *X, n *ioRun) // adds assumptions to the start of an entry point
	deepPick   bool                 // pick also chooses among joined paths
	onEv       func(x *X, ev *Ev)
	folds      map[string]*loopFold // by loop and variable
}

func NewEngine(p *Program) *Engine {
	e := &Engine{P: p, Alarms: map[string]Alarm{}, maxSteps: 10000000, viewOf: map[*Obj]*Obj{}, extents: map[*Obj]*Poly{}, External: map[string]int{}, shared: map[*Term]bool{},
		Contracts: map[*ssa.Function]func(x *X, args []Value) Value{}, Funcs: map[*ssa.Function]bool{},
		Oblig: map[string]int{}, info: map[*ssa.Function]*fnInfo{}, encOf: map[*Term]Value{}, debug: os.Getenv("GC_DEBUG") != ""}
	return e
}

// Frame is the activation of a function in a state.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	shared bool
	defers []deferred
	bind   []Value
	unroll map[*ssa.BasicBlock]int
}

type deferred struct {
	call ssa.CallInstruction
	fn   Value
	args []Value
	loop bool
}

func (f *Frame) clone() *Frame {
	n := *f
	f.shared, n.shared = true, true
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return &n
}

func (f *Frame) set(v ssa.Value, x Value) {
	if f.shared {
		f.env = cloneMap(f.env)
		f.shared = false
	}
	f.env[v] = x
}

// X is the context of the abstract execution of one instruction.
type X struct {
	e      *Engine
	st     *State
	fr     *Frame
	script []int
	n      int
	instr  ssa.Instruction
	cnt    int
	follow func(*X) // continuation run with the callee outcomes
}

func (x *X) pos() token.Pos {
	if x.instr != nil {
		return x.instr.Pos()
	}
	return token.NoPos
}

// site identifies the instruction, its calling context and its iteration.
func (x *X) site() []Arg {
	id := "?"
	if x.instr != nil {
		id = x.e.instrID(x.instr)
	}
	return append([]Arg{Lit(x.st.ctx + "@" + id)}, x.st.iters...)
}

func (x *X) freshTerm(op string, s Sort) *Term {
	x.cnt++
	return mkTerm("sk", s, nil, append([]Arg{Lit(op + "#" + strconv.Itoa(x.cnt))}, x.site()...)...)
}

// fresh returns an unknown value of type t.
func (x *X) fresh(t types.Type, op string) Value {
	x.cnt++
	args := append([]Arg{Lit(op + "#" + strconv.Itoa(x.cnt))}, x.site()...)
	return freshVal(t, args)
}

func freshVal(t types.Type, args []Arg) Value {
	if tp, ok := t.(*types.Tuple); ok {
		r := make(TupleV, tp.Len())
		for i := range r {
			r[i] = freshVal(tp.At(i).Type(), append(args[:len(args):len(args)], Lit("r"+strconv.Itoa(i))))
		}
		return r
	}
	return symOf(t, "sk", args...)
}

func (x *X) alloc(typ types.Type, kind ObjKind, tag string) *Obj {
	x.cnt++
	args := append([]Arg{Lit(tag + "#" + strconv.Itoa(x.cnt))}, x.site()...)
	return mkObj(mkTerm("alloc", SRef, nil, args...), typ, kind)
}

func (x *X) choose(n int) int {
	if x.n < len(x.script) {
		c := x.script[x.n]
		x.n++
		return c
	}
	panic(forkReq{n})
}

func (x *X) undecided(msg string) {
	x.e.alarm(x, "undecided", msg)
}

func (x *X) eval(b BoolV) (val, known bool) {
	r := func(v bool) (bool, bool) { return v != b.B, true }
	f := x.st.F
	switch b.K {
	case BConst:
		return b.B, true
	case BGe:
		if f.Entails(b.P) {
			return r(true)
		}
		if f.Entails(b.P.Neg().AddI(-1)) {
			return r(false)
		}
	case BEq:
		if f.EntailsEq(b.P) {
			return r(true)
		}
		if f.EntailsNe(b.P) {
			return r(false)
		}
	case BAtom:
		if v, ok := f.Atom(b.T); ok {
			return r(v)
		}
	case BStr:
		t := f.NormT(b.T)
		if t.Op == "sc" {
			return r(string(t.Args[0].(Lit)) == b.S)
		}
		if s, ok := f.strs[t]; ok {
			return r(s == b.S)
		}
		if f.EntailsNe(lenOfStr(t).AddI(-int64(len(b.S)))) {
			return r(false)
		}
		if v, ok := f.Atom(strAtom(t, b.S)); ok {
			return r(v)
		}
	case BDyn:
		t := f.NormT(b.T)
		if d, ok := f.dyn[t]; ok {
			return r(types.Identical(d, b.Typ))
		}
		if v, ok := f.Atom(nilAtom(t)); ok && v {
			return r(false)
		}
		for _, n := range f.notDyn[t] {
			if types.Identical(n, b.Typ) {
				return r(false)
			}
		}
	case BAnd:
		all := true
		for _, c := range b.And {
			v, ok := x.eval(c)
			if ok && !v {
				return r(false)
			}
			if !ok {
				all = false
			}
		}
		if all {
			return r(true)
		}
		if f.notAll(b.And) {
			return r(false)
		}
	}
	return false, false
}

// clausal reports whether the literals of a conjunction can make a clause.
func clausal(b BoolV) bool {
	for _, l := range b.And {
		if l.K != BAtom {
			return false
		}
	}
	return len(b.And) > 1
}

func strAtom(t *Term, s string) *Term { return mkTerm("streq", SBool, nil, t, Lit(s)) }

// assume adds b to the facts; it must not be a negated conjunction.
func (st *State) assume(b BoolV, val bool) bool {
	if b.K == BConst {
		return b.B == val
	}
	val = val != b.B
	f := st.F
	switch b.K {
	case BGe:
		if val {
			return f.AddGe(b.P)
		}
		return f.AddGe(b.P.Neg().AddI(-1))
	case BEq:
		if val {
			return f.AddEq(b.P)
		}
		return f.AddNe(b.P)
	case BAtom:
		return f.AddAtom(b.T, val)
	case BStr:
		if val {
			if b.S == "" {
				// The empty string is the only one of length zero.
				return f.AddStr(b.T, "")
			}
			return f.AddStr(b.T, b.S)
		}
		if b.S == "" {
			f.AddGe(lenOfStr(b.T).AddI(-1))
		}
		return f.AddAtom(strAtom(f.NormT(b.T), b.S), false)
	case BDyn:
		if val {
			return f.AddDyn(b.T, b.Typ)
		}
		return f.AddNotDyn(b.T, b.Typ)
	case BAnd:
		if val {
			for _, c := range b.And {
				if !st.assume(c, true) {
					return false
				}
			}
			return true
		}
		if clausal(b) {
			return f.AddClause(b.And)
		}
	}
	return true
}

// decide returns the truth value of b, splitting the state if it is unknown.
func (x *X) decide(b BoolV) bool {
	if v, ok := x.eval(b); ok {
		return v
	}
	if b.K == BAnd && !clausal(b) {
		res := true
		for _, c := range b.And {
			if !x.decide(c) {
				res = false
				break
			}
		}
		return res != b.B
	}
	c := x.choose(2) == 0
	if !x.st.assume(b, c) {
		panic(infeasible{})
	}
	return c
}

// assume restricts the state.
func (x *X) assume(b BoolV) {
	if v, ok := x.eval(b); ok {
		if !v {
			panic(infeasible{})
		}
		return
	}
	if b.K == BAnd && b.B && !clausal(b) {
		if x.decide(b) != true {
			panic(infeasible{})
		}
		return
	}
	if !x.st.assume(b, true) {
		panic(infeasible{})
	}
}

// imprecise tells whether a term stands for a value that the analysis lost,
// such as one that changes irregularly in a loop.
func imprecise(t *Term) bool {
	switch t.Op {
	case "loopval", "upd", "cast", "encoded":
		return true
	case "sk":
		if l, ok := t.Args[0].(Lit); ok {
			tag, _, _ := strings.Cut(string(l), "#")
			return lostTags[tag] || strings.HasPrefix(tag, "loop:")
		}
	}
	return false
}

var lostTags = map[string]bool{"int": true, "slice": true, "cond": true, "bytes": true, "us": true, "arrval": true, "upd": true, "elem": true,
	"size": true, "hv": true, "hvmap": true, "zero": true, "type": true}

// oblige records the obligation b, and assumes it.
// recall adds what the finished loops say, for each of their iterations, about
// the atoms of b. It reports whether there is something.
func (x *X) recall(b BoolV) bool {
	found := false
	for _, c := range b.And {
		if x.recall(c) {
			found = true
		}
	}
	if b.K != BAtom {
		return found
	}
	t := x.st.F.NormT(b.T)
	for _, l := range x.st.loops {
		for _, f := range l.Common {
			if f.K != FAtom {
				continue
			}
			v, ok := unify(f.T, t, l.Bv)
			if ok && v != nil && x.st.F.Entails(v) && x.st.F.Entails(l.Upper.Sub(v).AddI(-1)) {
				found = true
				if !x.st.instantiate(l, v) {
					panic(infeasible{})
				}
			}
		}
	}
	return found
}

func (x *X) oblige(b BoolV, kind, msg string) {
	x.e.Oblig[kind]++
	v, ok := x.eval(b)
	if ok && v {
		return
	}
	if !ok && len(x.st.ors) > 0 {
		x.st.prune()
		v, ok = x.eval(b)
	}
	if !ok && (b.K == BGe || b.K == BEq) && b.P != nil {
		b.P = x.settle(b.P)
		v, ok = x.eval(b)
	}
	if ok && v {
		return
	}
	if !ok && len(x.st.ors) > 0 {
		// Decide it on each of the paths joined in this state.
		budget := 400
		if x.st.leaves(&budget, func(st *State) bool {
			v, ok := (&X{e: x.e, st: st, fr: x.fr, instr: x.instr}).eval(b)
			return ok && v
		}) {
			return
		}
	}
	if !ok && x.recall(b) {
		if v, ok = x.eval(b); ok && v {
			return
		}
	}
	if !ok && boolHas(b, imprecise) {
		x.e.alarm(x, "undecided", kind+": "+msg)
	} else {
		x.e.alarm(x, kind, msg)
	}
	if ok && !v {
		panic(infeasible{})
	}
	x.assume(b)
}

func (e *Engine) alarm(x *X, kind, msg string) {
	if e.quiet > 0 {
		return
	}
	fn, pos := "?", "?"
	var path []string
	if x != nil && x.fr != nil {
		fn = fnName(x.fr.fn)
		pos = e.P.Pos(x.pos())
		if pos == "?" && x.instr != nil {
			for _, in := range x.instr.Block().Instrs {
				if in.Pos().IsValid() {
					pos = e.P.Pos(in.Pos())
					break
				}
			}
			if pos == "?" {
				pos = e.P.Pos(x.fr.fn.Pos())
			}
		}
		for _, f := range x.st.F.log {
			path = append(path, f.String())
		}
		if len(path) > 40 {
			path = path[len(path)-40:]
		}
	}
	a := Alarm{kind, msg, pos, fn, path}
	if _, ok := e.Alarms[a.key()]; !ok {
		e.Alarms[a.key()] = a
		if e.debug {
			fmt.Fprintf(os.Stderr, "ALARM %s %s %s %s\n", kind, pos, fn, msg)
			if x != nil {
				for _, p := range x.st.F.ge {
					fmt.Fprintln(os.Stderr, "   ge", p)
				}
			}
			for _, p := range path {
				fmt.Fprintln(os.Stderr, "    ", p)
			}
		}
	}
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	return strings.ReplaceAll(f.RelString(nil), modPath, "gltf")
}

// ---- function information

type fnInfo struct {
	rpo    map[*ssa.BasicBlock]int
	loops  map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
	live   map[*ssa.BasicBlock]map[ssa.Value]bool
	ids    map[ssa.Instruction]string
	irred  bool
	escape map[*ssa.Alloc]bool
}

func (e *Engine) fi(fn *ssa.Function) *fnInfo {
	if i := e.info[fn]; i != nil {
		return i
	}
	in := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}, ids: map[ssa.Instruction]string{}}
	e.info[fn] = in
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if !seen[b.Succs[i]] {
				dfs(b.Succs[i])
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		in.rpo[b] = len(post) - 1 - i
	}
	for _, b := range post {
		for _, s := range b.Succs {
			if in.rpo[s] <= in.rpo[b] {
				if !s.Dominates(b) {
					in.irred = true
					continue
				}
				body := in.loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					in.loops[s] = body
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					w := work[len(work)-1]
					work = work[:len(work)-1]
					if body[w] {
						continue
					}
					body[w] = true
					work = append(work, w.Preds...)
				}
			}
		}
	}
	for bi, b := range fn.Blocks {
		for ii, ins := range b.Instrs {
			in.ids[ins] = fmt.Sprintf("%s:%d.%d", fnName(fn), bi, ii)
		}
	}
	// Liveness.
	in.live = map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range fn.Blocks {
		in.live[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			l := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				pi := -1
				for k, p := range s.Preds {
					if p == b {
						pi = k
					}
				}
				for v := range in.live[s] {
					l[v] = true
				}
				for _, ins := range s.Instrs {
					if phi, ok := ins.(*ssa.Phi); ok {
						delete(l, phi)
					}
				}
				for _, ins := range s.Instrs {
					phi, ok := ins.(*ssa.Phi)
					if !ok {
						break
					}
					if trackable(phi.Edges[pi]) {
						l[phi.Edges[pi]] = true
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				ins := b.Instrs[k]
				if v, ok := ins.(ssa.Value); ok {
					delete(l, v)
				}
				if phi, ok := ins.(*ssa.Phi); ok {
					l[phi] = true // live at entry: set by the edge
					continue
				}
				for _, op := range ins.Operands(nil) {
					if *op != nil && trackable(*op) {
						l[*op] = true
					}
				}
			}
			if len(l) != len(in.live[b]) {
				in.live[b] = l
				changed = true
			}
		}
	}
	return in
}

func trackable(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Const, *ssa.Global, *ssa.Function, *ssa.Builtin:
		return false
	}
	return true
}

func (e *Engine) instrID(in ssa.Instruction) string {
	return e.fi(in.Parent()).ids[in]
}

// ---- outcomes

// Outcome is a state at the exit of a function.
type Outcome struct {
	st    *State
	ret   []Value
	panic bool
	pval  Value
}

type item struct {
	st   *State
	fr   *Frame
	from *ssa.BasicBlock
	to   *ssa.BasicBlock
}

// result of executing a region.
type result struct {
	edges   []item // edges leaving the region, or back to its header
	returns []Outcome
}

// deadline is the time at which the current unit of analysis is given up as
// undecided.
var deadline time.Time

// maxHeap is how much memory an analysis may use before it is given up.
const maxHeap = 12 << 30

var heapSample = []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}

// checkHeap gives up when too much memory is used, live or not.
func checkHeap() {
	metrics.Read(heapSample)
	if heapSample[0].Value.Uint64() < maxHeap {
		return
	}
	runtime.GC()
	metrics.Read(heapSample)
	if heapSample[0].Value.Uint64() > maxHeap*2/3 {
		panic(undecidedErr{"memory budget exhausted"})
	}
}

func checkTime() {
	if !deadline.IsZero() && time.Now().After(deadline) {
		panic(undecidedErr{"time budget exhausted"})
	}
}

func (e *Engine) step(x *X) {
	e.steps++
	checkTime()
	if e.steps%256 == 0 {
		checkHeap()
	}
	if e.steps > e.maxSteps {
		panic(undecidedErr{"analysis budget exhausted"})
	}
}

// run executes f in copies of st and fr for every sequence of choices.
func (e *Engine) run(st *State, fr *Frame, in ssa.Instruction, f func(x *X)) []*X {
	var done []*X
	work := [][]int{nil}
	for len(work) > 0 {
		s := work[len(work)-1]
		work = work[:len(work)-1]
		x := &X{e: e, script: s, instr: in}
		if len(work) == 0 && len(done) == 0 && len(s) == 0 {
			x.st, x.fr = st.clone(), fr.clone()
		} else {
			x.st, x.fr = st.clone(), fr.clone()
		}
		e.step(x)
		n, ok := func() (n int, ok bool) {
			defer func() {
				if r := recover(); r != nil {
					switch r := r.(type) {
					case infeasible:
						n, ok = 0, false
					case forkReq:
						n, ok = r.n, false
					default:
						panic(r)
					}
				}
			}()
			f(x)
			return 0, true
		}()
		if ok {
			if !x.st.F.unsat {
				done = append(done, x)
			}
			continue
		}
		for i := n - 1; i >= 0; i-- {
			work = append(work, append(s[:len(s):len(s)], i))
		}
		if len(done)+len(work) > 4096 {
			panic(undecidedErr{"too many cases in " + fnName(fr.fn)})
		}
	}
	return done
}

// enter evaluates the phis of the edge and returns the item.
func (e *Engine) edge(st *State, fr *Frame, from, to *ssa.BasicBlock) item {
	pi := -1
	for k, p := range to.Preds {
		if p == from {
			pi = k
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, ins := range to.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, e.val(fr, phi.Edges[pi]))
	}
	for i, p := range phis {
		fr.set(p, vals[i])
	}
	return item{st, fr, from, to}
}

func (e *Engine) liveKey(it item) string {
	fi := e.fi(it.fr.fn)
	live := fi.live[it.to]
	var ks []string
	for v := range live {
		if y, ok := it.fr.env[v]; ok {
			ks = append(ks, v.Name()+"="+vkey(y))
		}
	}
	sort.Strings(ks)
	for _, d := range it.fr.defers {
		ks = append(ks, "defer"+e.instrID(d.call.(ssa.Instruction)))
		for _, a := range d.args {
			ks = append(ks, vkey(a))
		}
	}
	return strings.Join(ks, ";") + "#" + it.st.key()
}

// key identifies everything in the state but its facts.
func (st *State) key() string {
	st.sync()
	var objs []*Obj
	for o := range st.heap {
		objs = append(objs, o)
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].Term.ID < objs[j].Term.ID })
	var sb strings.Builder
	for _, o := range objs {
		sb.WriteString(strconv.Itoa(o.Term.ID) + "/" + strconv.Itoa(int(o.Kind)) + st.heap[o].key() + ";")
	}
	sb.WriteString("#")
	sb.WriteString(st.ev.key())
	sb.WriteString("#" + st.ctx)
	for _, l := range st.loops {
		sb.WriteString(l.ID + l.Upper.argKey())
	}
	var ps []string
	for k, v := range st.picked {
		ps = append(ps, k+strconv.Itoa(v))
	}
	sort.Strings(ps)
	sb.WriteString(strings.Join(ps, ","))
	for _, f := range st.fams {
		sb.WriteString(f.key())
	}
	return sb.String()
}

// replayed holds the facts of common prefixes of paths.
var replayed = map[string]*Facts{}

// replay returns the facts of a common prefix; ks are the keys of its
// prefixes.
func replay(ks []string, log []Fact) *Facts {
	n := len(ks)
	for n > 0 && replayed[ks[n-1]] == nil {
		n--
	}
	f := newFacts()
	if n > 0 {
		f = replayed[ks[n-1]].clone()
	}
	if len(replayed) > 4000 {
		clear(replayed)
	}
	for i := n; i < len(ks); i++ {
		f.Add(log[i])
		if i%8 == 0 && i+1 < len(ks) {
			replayed[ks[i]] = f.clone()
		}
	}
	if n < len(ks) {
		replayed[ks[len(ks)-1]] = f.clone()
	}
	return f
}

// joinFacts keeps the facts common to both states.
func joinFacts(a, b *State) *State {
	n := *a
	i, pk, ks := 0, "", []string(nil)
	for i < len(a.F.log) && i < len(b.F.log) {
		k := a.F.log[i].key()
		if k != b.F.log[i].key() {
			break
		}
		pk = intern(pk + k)
		ks = append(ks, pk)
		i++
	}
	xa, xb := &X{st: a}, &X{st: b}
	var ra, rb []Fact
	var f *Facts
	var keep []Fact
	for _, y := range a.F.log[i:] {
		if xb.holds(y) {
			keep = append(keep, y)
		} else {
			ra = append(ra, y)
		}
	}
	for _, y := range b.F.log[i:] {
		if xa.holds(y) {
			keep = append(keep, y)
		} else {
			rb = append(rb, y)
		}
	}
	switch {
	case len(ra) == 0:
		f = a.F.clone()
	case len(rb) == 0:
		f = b.F.clone()
	default:
		f = replay(ks, a.F.log[:i])
		for _, y := range keep {
			f.Add(y)
		}
	}
	k := 0
	for k < len(a.ors) && k < len(b.ors) && a.ors[k] == b.ors[k] {
		k++
	}
	n.ors = a.ors[:k:k]
	if (len(ra) > 0 || len(a.ors) > k) && (len(rb) > 0 || len(b.ors) > k) {
		n.ors = append(n.ors, &Or{Alts: []OrAlt{{ra, a.ors[k:len(a.ors):len(a.ors)]}, {rb, b.ors[k:len(b.ors):len(b.ors)]}}})
	}
	a.shared = true
	n.F = f
	n.normAt = nil
	n.sync()
	return &n
}

// holds reports whether a fact is entailed.
func (x *X) holds(y Fact) bool {
	v, ok := x.eval(y.boolV())
	return ok && v
}

func (y Fact) boolV() BoolV {
	switch y.K {
	case FGe:
		return bGe(y.P)
	case FEq:
		return bEq(y.P)
	case FNe:
		return bEq(y.P).not()
	case FAtom:
		b := bAtom(y.T)
		b.B = !y.B
		return b
	case FClause:
		return bAnd(y.L).not()
	case FDyn:
		return BoolV{K: BDyn, T: y.T, Typ: y.Typ}
	case FNotDyn:
		return BoolV{K: BDyn, T: y.T, Typ: y.Typ, B: true}
	}
	return BoolV{K: BStr, T: y.T, S: y.S}
}

// region executes the blocks of the region (nil: the whole function) from the
// given items until they leave it or come back to header.
func (e *Engine) region(region map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, start []item) result {
	var res result
	work := start
	fi := (*fnInfo)(nil)
	for len(work) > 0 {
		if fi == nil {
			fi = e.fi(work[0].fr.fn)
		}
		// The next block in reverse postorder.
		best := 0
		for i := range work {
			if fi.rpo[work[i].to] < fi.rpo[work[best].to] {
				best = i
			}
		}
		to := work[best].to
		var batch, rest []item
		for _, it := range work {
			if it.to == to {
				batch = append(batch, it)
			} else {
				rest = append(rest, it)
			}
		}
		work = rest
		batch = e.join(batch)
		for _, it := range batch {
			var r result
			if body := fi.loops[to]; body != nil {
				r = e.loop(it, body)
			} else {
				r = e.block(it)
			}
			res.returns = append(res.returns, r.returns...)
			for _, o := range r.edges {
				if o.to == header || region != nil && !region[o.to] {
					res.edges = append(res.edges, o)
				} else {
					work = append(work, o)
				}
			}
		}
	}
	return res
}

func (e *Engine) join(batch []item) []item {
	if len(batch) < 2 {
		return batch
	}
	idx := map[string]int{}
	var out []item
	for _, it := range batch {
		k := e.liveKey(it)
		if i, ok := idx[k]; ok {
			out[i].st = joinFacts(out[i].st, it.st)
			continue
		}
		idx[k] = len(out)
		out = append(out, it)
	}
	return out
}

// block executes one block (its phis are already set).
func (e *Engine) block(it item) result {
	var res result
	type cur struct {
		st *State
		fr *Frame
	}
	states := []cur{{it.st, it.fr}}
	b := it.to
	for _, ins := range b.Instrs {
		if _, ok := ins.(*ssa.Phi); ok {
			continue
		}
		var next []cur
		for _, c := range states {
			switch ins := ins.(type) {
			case *ssa.Jump:
				res.edges = append(res.edges, e.edge(c.st, c.fr, b, b.Succs[0]))
			case *ssa.If:
				for _, x := range e.run(c.st, c.fr, ins, func(x *X) {
					v, ok := x.val(ins.Cond).(BoolV)
					if !ok {
						v = bAtom(x.freshTerm("cond", SBool))
					}
					if x.decide(v) {
						x.cnt = -1
					} else {
						x.cnt = -2
					}
				}) {
					res.edges = append(res.edges, e.edge(x.st, x.fr, b, b.Succs[-1-x.cnt]))
				}
			case *ssa.Return:
				var vals []Value
				for _, r := range ins.Results {
					vals = append(vals, e.val(c.fr, r))
				}
				res.returns = append(res.returns, Outcome{st: c.st, ret: vals})
			case *ssa.Panic:
				v := e.val(c.fr, ins.X)
				if e.quiet == 0 {
					x := &X{e: e, st: c.st, fr: c.fr, instr: ins}
					e.alarm(x, "panic", "explicit panic reachable")
				}
				res.returns = append(res.returns, Outcome{st: c.st, panic: true, pval: v})
			case *ssa.RunDefers:
				for _, o := range e.runDefers(c.st, c.fr, ins) {
					next = append(next, cur{o.st, o.fr})
				}
			case *ssa.Call:
				rs, outs := e.call(c.st, c.fr, ins, ins)
				for _, r := range rs {
					next = append(next, cur{r.st, r.fr})
				}
				res.returns = append(res.returns, outs...)
			default:
				for _, x := range e.run(c.st, c.fr, ins, func(x *X) { x.exec(ins) }) {
					next = append(next, cur{x.st, x.fr})
				}
			}
		}
		states = next
		if len(states) == 0 {
			break
		}
	}
	return res
}

type stfr struct {
	st *State
	fr *Frame
}

func (e *Engine) runDefers(st *State, fr *Frame, in ssa.Instruction) []stfr {
	cur := []stfr{{st, fr}}
	for len(cur) > 0 && len(cur[0].fr.defers) > 0 {
		var next []stfr
		for _, c := range cur {
			n := len(c.fr.defers)
			if n == 0 {
				next = append(next, c)
				continue
			}
			d := c.fr.defers[n-1]
			nf := c.fr.clone()
			nf.defers = nf.defers[:n-1]
			rs, _ := e.invoke(c.st, nf, d.call.(ssa.Instruction), d.call.Common(), d.fn, d.args)
			for _, r := range rs {
				next = append(next, stfr{r.st, r.fr})
			}
		}
		cur = next
	}
	return cur
}

type callRes struct {
	st  *State
	fr  *Frame
	ret []Value
}

// call executes a call instruction and binds its result.
func (e *Engine) call(st *State, fr *Frame, in ssa.Instruction, ci ssa.CallInstruction) ([]stfr, []Outcome) {
	c := ci.Common()
	fnv, args := e.callee(fr, c)
	rs, outs := e.invoke(st, fr, in, c, fnv, args)
	var out []stfr
	v, isV := in.(ssa.Value)
	for _, r := range rs {
		if isV {
			switch len(r.ret) {
			case 0:
			case 1:
				r.fr.set(v, r.ret[0])
			default:
				r.fr.set(v, TupleV(r.ret))
			}
		}
		out = append(out, stfr{r.st, r.fr})
	}
	return out, outs
}

// callee evaluates the function and the arguments of a call.
func (e *Engine) callee(fr *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	var fnv Value
	if c.IsInvoke() {
		fnv = FuncV{Method: c.Method, Recv: e.val(fr, c.Value)}
	} else {
		fnv = e.val(fr, c.Value)
	}
	for _, a := range c.Args {
		args = append(args, e.val(fr, a))
	}
	return fnv, args
}

func (e *Engine) invoke(st *State, fr *Frame, in ssa.Instruction, c *ssa.CallCommon, fnv Value, args []Value) ([]callRes, []Outcome) {
	e.Calls++
	f, ok := fnv.(FuncV)
	if !ok {
		f = FuncV{T: mkTerm("unknownfunc", SRef, nil)}
	}
	sig := c.Signature()
	// Interface method on a known dynamic type.
	if f.Method != nil {
		recv, _ := f.Recv.(IfaceV)
		if recv.T != nil {
			if d, ok := st.F.dyn[st.F.NormT(recv.T)]; ok {
				recv = IfaceV{Dyn: d, Val: unboxed(recv.T, d)}
			}
		}
		if recv.T == nil && recv.Dyn == nil {
			x := &X{e: e, st: st, fr: fr, instr: in}
			e.alarm(x, "nil", "method call on a nil interface")
			return nil, nil
		}
		if recv.Dyn != nil {
			ms := e.P.Prog.MethodSets.MethodSet(recv.Dyn)
			sel := ms.Lookup(f.Method.Pkg(), f.Method.Name())
			if sel != nil {
				if m := e.P.Prog.MethodValue(sel); m != nil {
					return e.invoke(st, fr, in, c, FuncV{Fn: m}, append([]Value{recv.Val}, args...))
				}
			}
		}
		var res []callRes
		for _, x := range e.run(st, fr, in, func(x *X) {
			x.oblige(x.isNil(recv).not(), "nil", "method call on a nil interface")
			x.fr.set(retKey, x.invokeMethod(f.Method, recv, args, sig))
		}) {
			res = append(res, x.takeRet(sig))
		}
		return res, nil
	}
	if f.Builtin != nil {
		var res []callRes
		for _, x := range e.run(st, fr, in, func(x *X) {
			v := x.builtin(f.Builtin.Name(), c, args)
			x.fr.set(retKey, v)
		}) {
			v := x.fr.env[retKey]
			res = append(res, callRes{x.st, x.fr, []Value{v}})
		}
		return res, nil
	}
	if f.Fn == nil {
		var res []callRes
		for _, x := range e.run(st, fr, in, func(x *X) {
			x.oblige(x.isNil(f).not(), "nil", "call of a nil function")
			x.fr.set(retKey, x.callUnknown(f, args, sig))
		}) {
			res = append(res, x.takeRet(sig))
		}
		return res, nil
	}
	fn := f.Fn
	if len(f.Bind) > 0 || len(fn.FreeVars) > 0 {
		return e.inline(st, fr, in, fn, args, f.Bind)
	}
	if ct := e.Contracts[fn]; ct != nil {
		return e.special(st, fr, in, sig, func(x *X) Value { return ct(x, args) })
	}
	name := fnFull(fn)
	if h := intrinsics[name]; h != nil {
		return e.special(st, fr, in, sig, func(x *X) Value { return h(x, args) })
	}
	if e.inlinable(fn) {
		return e.inline(st, fr, in, fn, args, nil)
	}
	return e.special(st, fr, in, sig, func(x *X) Value { return x.external(fn, args, sig) })
}

// fnFull is the name of a function, its generic origin if it is an instance.
func fnFull(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Object() != nil {
		if f, ok := fn.Object().(*types.Func); ok {
			return f.FullName()
		}
	}
	return fn.String()
}

func (e *Engine) special(st *State, fr *Frame, in ssa.Instruction, sig *types.Signature, h func(x *X) Value) ([]callRes, []Outcome) {
	var res []callRes
	for _, x := range e.run(st, fr, in, func(x *X) {
		x.fr.set(retKey, h(x))
	}) {
		res = append(res, x.takeRet(sig))
	}
	return res, nil
}

// retKey is the pseudo register holding the result of a modelled call.
var retKey ssa.Value = ssa.NewConst(constant.MakeInt64(424242), types.Typ[types.Int])

func (x *X) takeRet(sig *types.Signature) callRes {
	v := x.fr.env[retKey]
	n := sig.Results().Len()
	switch {
	case n == 0:
		return callRes{x.st, x.fr, nil}
	case n == 1:
		return callRes{x.st, x.fr, []Value{v}}
	}
	return callRes{x.st, x.fr, []Value(v.(TupleV))}
}

func (e *Engine) inlinable(fn *ssa.Function) bool {
	pkg := fn.Package()
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Package()
	}
	if pkg == nil && fn.Signature.Recv() != nil {
		// Synthesised wrappers.
		if len(fn.Blocks) > 0 {
			return true
		}
	}
	if pkg == nil {
		return len(fn.Blocks) > 0 && fn.Synthetic != ""
	}
	path := pkg.Pkg.Path()
	if path == modPath || strings.HasPrefix(path, modPath+"/") {
		e.P.build(pkg)
		return len(fn.Blocks) > 0
	}
	name := fnFull(fn)
	for _, p := range inlineStd {
		if strings.HasPrefix(name, p) {
			e.P.build(pkg)
			return len(fn.Blocks) > 0
		}
	}
	return false
}

var inlineStd = []string{
	"(encoding/binary.littleEndian)", "(encoding/binary.bigEndian)", "math.Float32bits", "math.Float32frombits",
	"math.Float64bits", "math.Float64frombits", "slices.Grow", "slices.Clone", "slices.Clip", "slices.Contains", "slices.Index",
	"cmp.",
}

func (e *Engine) inline(st *State, fr *Frame, in ssa.Instruction, fn *ssa.Function, args []Value, bind []Value) ([]callRes, []Outcome) {
	rec := 0
	for _, c := range e.callers {
		if c == fn {
			rec++
		}
	}
	if rec > 3 || len(e.callers) > 60 {
		x := &X{e: e, st: st, fr: fr, instr: in}
		x.undecided("recursion too deep in " + fnName(fn))
		return nil, nil
	}
	ctx := st.ctx
	ns := st.clone()
	ns.ctx = ctx + "/" + e.instrID(in)
	outs := e.fn(ns, fn, args, bind)
	var res []callRes
	var pan []Outcome
	for _, o := range outs {
		o.st.ctx = ctx
		if o.panic {
			pan = append(pan, o)
			continue
		}
		res = append(res, callRes{o.st, fr.clone(), o.ret})
	}
	return res, pan
}

// fn executes a function and returns its outcomes.
func (e *Engine) fn(st *State, fn *ssa.Function, args []Value, bind []Value) (res []Outcome) {
	if len(fn.Blocks) == 0 {
		e.P.build(fn.Package())
	}
	if len(fn.Blocks) == 0 {
		panic(undecidedErr{"no body: " + fnName(fn)})
	}
	e.Funcs[fn] = true
	e.callers = append(e.callers, fn)
	defer func() { e.callers = e.callers[:len(e.callers)-1] }()
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, bind: bind}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		fr.env[v] = bind[i]
	}
	if e.fi(fn).irred {
		x := &X{e: e, st: st, fr: fr}
		x.undecided("irreducible control flow in " + fnName(fn))
		return nil
	}
	if traceCalls {
		t := time.Now()
		fmt.Fprintf(os.Stderr, "%*s> %s\n", len(e.callers), "", fnName(fn))
		defer func() {
			fmt.Fprintf(os.Stderr, "%*s< %s %d %.2fs\n", len(e.callers)+1, "", fnName(fn), len(res), time.Since(t).Seconds())
		}()
	}
	entry := map[*Obj]bool{}
	if e.compact {
		for o := range st.heap {
			entry[o] = true
		}
	}
	r := e.region(nil, nil, []item{{st, fr, nil, fn.Blocks[0]}})
	if e.compact {
		e.compactOutcomes(fn, entry, r.returns)
	}
	return e.joinOutcomes(r.returns)
}

var traceCalls = os.Getenv("GC_CALLS") != ""

func (e *Engine) joinOutcomes(outs []Outcome) []Outcome {
	if len(outs) < 2 {
		return outs
	}
	idx := map[string]int{}
	var res []Outcome
	for _, o := range outs {
		k := fmt.Sprint(o.panic) + vkey(TupleV(o.ret)) + "#" + o.st.key()
		if i, ok := idx[k]; ok {
			res[i].st = joinFacts(res[i].st, o.st)
			continue
		}
		idx[k] = len(res)
		res = append(res, o)
	}
	return res
}

// ---- values

func (x *X) val(v ssa.Value) Value { return x.e.val(x.fr, v) }

func (e *Engine) val(fr *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return constValue(v)
	case *ssa.Function:
		return FuncV{Fn: v}
	case *ssa.Builtin:
		return FuncV{Builtin: v}
	case *ssa.Global:
		return globalPtr(v)
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(undecidedErr{"unset register " + v.Name() + " in " + fnName(fr.fn)})
}

func globalPtr(g *ssa.Global) PtrV {
	elem := g.Type().(*types.Pointer).Elem()
	return symPtr(mkTerm("global", SRef, nil, Lit(g.RelString(nil))), elem)
}

// isNil is the condition that v is nil.
func (x *X) isNil(v Value) BoolV {
	switch v := v.(type) {
	case nil:
		return bTrue
	case PtrV:
		if v.Obj == nil {
			return bTrue
		}
		if len(v.Path) > 0 || v.Obj.Fresh() || nonNilOp(v.Obj.Term.Op) {
			return bFalse
		}
		return bAtom(nilAtom(v.Obj.Term))
	case SliceV:
		if v.Base.Obj == nil {
			return bTrue
		}
		if v.Base.Obj.Fresh() || len(v.Base.Path) > 0 {
			return bFalse
		}
		if v.Base.Obj.Term.Op == "arr" || v.Base.Obj.Term.Op == "reinterp" {
			return bAtom(nilAtom(v.Base.Obj.Term))
		}
		return bFalse
	case MapV:
		if v.Obj == nil {
			return bTrue
		}
		if v.Obj.Fresh() || nonNilOp(v.Obj.Term.Op) {
			return bFalse
		}
		return bAtom(nilAtom(v.Obj.Term))
	case IfaceV:
		if v.T != nil {
			if v.T.Op == "err" || v.T.Op == "stdvar" {
				return bFalse
			}
			return bAtom(nilAtom(v.T))
		}
		return bConst(v.Dyn == nil)
	case FuncV:
		if v.Fn != nil || v.Builtin != nil || v.Method != nil {
			return bFalse
		}
		if v.T != nil {
			return bAtom(nilAtom(v.T))
		}
		return bTrue
	case UnsafeV:
		return x.isNil(v.P)
	case OpaqueV:
		if v.T.Op == "zero" {
			return bTrue
		}
		return bAtom(nilAtom(v.T))
	}
	return bFalse
}

func nonNilOp(op string) bool {
	switch op {
	case "global", "galloc", "pooled", "handle":
		return true
	}
	return false
}

func unboxed(t *Term, d types.Type) Value {
	return symValue(d, func(s Sort, ty types.Type) *Term { return mkTerm("unbox", s, ty, t, Lit(typeKey(d))) })
}

func (x *X) exec(in ssa.Instruction) {
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := in.Type().(*types.Pointer).Elem()
		x.fr.set(in, x.newCell(t, "new"))
	case *ssa.BinOp:
		x.fr.set(in, x.binop(in.Op, x.val(in.X), x.val(in.Y), in.X.Type(), in.Type()))
	case *ssa.UnOp:
		x.fr.set(in, x.unop(in))
	case *ssa.ChangeInterface:
		x.fr.set(in, x.val(in.X))
	case *ssa.ChangeType:
		x.fr.set(in, retype(x.val(in.X), in.Type()))
	case *ssa.Convert:
		x.fr.set(in, x.convert(x.val(in.X), in.X.Type(), in.Type()))
	case *ssa.MultiConvert:
		x.fr.set(in, x.convert(x.val(in.X), in.X.Type(), in.Type()))
	case *ssa.Extract:
		tv, ok := x.val(in.Tuple).(TupleV)
		if !ok || in.Index >= len(tv) {
			x.fr.set(in, x.fresh(in.Type(), "extract"))
			return
		}
		x.fr.set(in, tv[in.Index])
	case *ssa.Field:
		if s, ok := x.val(in.X).(StructV); ok {
			x.fr.set(in, s.F[in.Field])
		} else {
			x.fr.set(in, symOf(in.Type(), "part", argOf(x.val(in.X)), Lit(strconv.Itoa(in.Field))))
		}
	case *ssa.FieldAddr:
		p, ok := x.val(in.X).(PtrV)
		et := in.Type().(*types.Pointer).Elem()
		if !ok {
			x.fr.set(in, x.fresh(in.Type(), "fieldaddr"))
			return
		}
		x.oblige(x.isNil(p).not(), "nil", "nil pointer dereference")
		x.fr.set(in, PtrV{Obj: p.Obj, Path: append(p.Path[:len(p.Path):len(p.Path)], PE{Field: in.Field}), Elem: et})
	case *ssa.Index:
		i := x.intOf(x.val(in.Index))
		switch a := x.val(in.X).(type) {
		case ArrayV:
			x.bound(i, PInt(int64(len(a.E))), "index")
			x.fr.set(in, x.arrayAt(a, i, in.Type()))
		case StrV:
			x.bound(i, lenOfStr(a.T), "index")
			x.fr.set(in, strIndex(a.T, i))
		default:
			x.fr.set(in, symOf(in.Type(), "at", argOf(a), i))
		}
	case *ssa.IndexAddr:
		x.indexAddr(in)
	case *ssa.Lookup:
		x.lookup(in)
	case *ssa.MakeClosure:
		f := FuncV{Fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			f.Bind = append(f.Bind, x.val(b))
		}
		x.fr.set(in, f)
	case *ssa.MakeInterface:
		x.fr.set(in, IfaceV{Dyn: in.X.Type(), Val: x.val(in.X)})
	case *ssa.MakeMap:
		o := x.alloc(in.Type(), OMap, "map")
		mt, _ := in.Type().Underlying().(*types.Map)
		x.st.put(o, &MapC{T: mt})
		x.fr.set(in, MapV{o, in.Type()})
	case *ssa.MakeSlice:
		l, c := x.intOf(x.val(in.Len)), x.intOf(x.val(in.Cap))
		et := in.Type().Underlying().(*types.Slice).Elem()
		x.checkMake(l, et)
		if !l.Eq(c) {
			x.oblige(bGe(c.Sub(l)), "make", "make: len larger than cap")
		}
		x.fr.set(in, x.newSlice(et, l, c, "make"))
	case *ssa.MapUpdate:
		m, _ := x.val(in.Map).(MapV)
		x.mapStore(m, x.val(in.Key), x.val(in.Value))
	case *ssa.Next:
		x.next(in)
	case *ssa.Range:
		x.rangeStart(in)
	case *ssa.Slice:
		x.slice(in)
	case *ssa.SliceToArrayPointer:
		s := x.sliceOf(x.val(in.X))
		at := in.Type().(*types.Pointer).Elem().Underlying().(*types.Array)
		x.oblige(bGe(s.Len.AddI(-at.Len())), "slice", "slice shorter than array")
		if s.Base.Obj != nil && s.Off.Eq(&Poly{}) && len(s.Base.Path) == 0 {
			x.fr.set(in, PtrV{Obj: s.Base.Obj, Elem: at})
		} else {
			x.undecided("slice to array pointer conversion")
			x.fr.set(in, x.fresh(in.Type(), "s2a"))
		}
	case *ssa.Store:
		p, ok := x.val(in.Addr).(PtrV)
		if !ok {
			x.undecided("store through unknown pointer")
			return
		}
		x.oblige(x.isNil(p).not(), "nil", "nil pointer dereference")
		if p.Obj != nil {
			x.store(p, x.val(in.Val))
		}
	case *ssa.TypeAssert:
		x.typeAssert(in)
	case *ssa.Defer:
		fnv, args := x.e.callee(x.fr, &in.Call)
		x.fr.defers = append(x.fr.defers[:len(x.fr.defers):len(x.fr.defers)], deferred{call: in, fn: fnv, args: args})
	case *ssa.Go:
		x.undecided("goroutine started")
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		x.undecided("channel operation")
		if v, ok := in.(ssa.Value); ok {
			x.fr.set(v, x.fresh(v.Type(), "chan"))
		}
	default:
		panic(undecidedErr{fmt.Sprintf("unsupported instruction %T", in)})
	}
}

func (x *X) newCell(t types.Type, tag string) PtrV {
	if u, ok := t.Underlying().(*types.Array); ok && u.Len() > maxArr {
		o := x.alloc(u.Elem(), OSeq, tag)
		x.st.put(o, &SeqC{Elem: u.Elem()})
		return PtrV{Obj: o, Elem: t}
	}
	o := x.alloc(t, OCell, tag)
	x.st.put(o, newCell(zeroValue(t)))
	return PtrV{Obj: o, Elem: t}
}

func (x *X) newSlice(et types.Type, l, c *Poly, tag string) SliceV {
	o := x.alloc(et, OSeq, tag)
	x.e.extents[o] = c
	x.st.put(o, &SeqC{Elem: et})
	return SliceV{Base: PtrV{Obj: o, Elem: et}, Off: &Poly{}, Len: l, Cap: c, Elem: et}
}

func (x *X) checkMake(l *Poly, et types.Type) {
	x.oblige(bGe(l), "make", "make with a negative length")
	sz := x.e.P.Sizes.Sizeof(et)
	if sz > 0 {
		// Sizes that cannot be allocated panic or exhaust the memory; only
		// the former is checked: lengths come from existing objects or are
		// bounded by a check. The objects exist at the same time, so that a
		// sum of a few of their lengths doesn't exceed 2^48 either.
		max := floorDiv(pow2(52), big.NewInt(sz))
		x.oblige(bGe(PConst(max).Sub(l)), "make", "make with a length out of range")
	}
}

func (x *X) intOf(v Value) *Poly {
	if i, ok := v.(IntV); ok {
		return i.P
	}
	return PVar(x.freshTerm("int", SInt))
}

func (x *X) sliceOf(v Value) SliceV {
	if s, ok := v.(SliceV); ok {
		return s
	}
	return symSlice(x.freshTerm("slice", SRef), types.Typ[types.Byte])
}

func (x *X) bound(i, n *Poly, kind string) {
	x.oblige(bGe(i), kind, "index may be negative")
	x.oblige(bGe(n.Sub(i).AddI(-1)), kind, "index may be out of range")
}

func strIndex(t *Term, i *Poly) Value {
	if t.Op == "sc" {
		if c, ok := i.Int(); ok {
			s := string(t.Args[0].(Lit))
			if c >= 0 && c < int64(len(s)) {
				return IntV{PInt(int64(s[c])), types.Typ[types.Uint8]}
			}
		}
	}
	return symOf(types.Typ[types.Uint8], "stridx", t, i)
}

func (x *X) indexAddr(in *ssa.IndexAddr) {
	i := x.intOf(x.val(in.Index))
	et := in.Type().(*types.Pointer).Elem()
	switch a := x.val(in.X).(type) {
	case SliceV:
		x.bound(i, a.Len, "index")
		if a.Base.Obj == nil {
			panic(infeasible{})
		}
		x.fr.set(in, sliceElem(a, i, et))
	case PtrV:
		x.oblige(x.isNil(a).not(), "nil", "nil pointer dereference")
		at, ok := a.Elem.Underlying().(*types.Array)
		if ok {
			x.bound(i, PInt(at.Len()), "index")
		}
		if a.Cast != nil {
			x.undecided("indexing of a reinterpreted array")
			x.fr.set(in, x.fresh(in.Type(), "idx"))
			return
		}
		x.fr.set(in, PtrV{Obj: a.Obj, Path: append(a.Path[:len(a.Path):len(a.Path)], PE{Idx: i}), Elem: et})
	default:
		x.undecided("index of unknown value")
		x.fr.set(in, x.fresh(in.Type(), "idx"))
	}
}

// sliceElem is the address of the element i of a slice.
func sliceElem(a SliceV, i *Poly, et types.Type) PtrV {
	p := a.Base
	return PtrV{Obj: p.Obj, Path: append(p.Path[:len(p.Path):len(p.Path)], PE{Idx: a.Off.Add(i)}), Elem: et}
}

func (x *X) slice(in *ssa.Slice) {
	opt := func(v ssa.Value) *Poly {
		if v == nil {
			return nil
		}
		return x.intOf(x.val(v))
	}
	lo, hi, max := opt(in.Low), opt(in.High), opt(in.Max)
	if lo == nil {
		lo = &Poly{}
	}
	switch a := x.val(in.X).(type) {
	case StrV:
		n := lenOfStr(a.T)
		if hi == nil {
			hi = n
		}
		x.oblige(bGe(lo), "slice", "slice bound may be negative")
		x.oblige(bGe(hi.Sub(lo)), "slice", "slice bounds may be inverted")
		x.oblige(bGe(n.Sub(hi)), "slice", "slice bound may be out of range")
		x.fr.set(in, substr(a.T, lo, hi, n))
		return
	case SliceV:
		if hi == nil {
			hi = a.Len
		}
		c := a.Cap
		if max != nil {
			x.oblige(bGe(a.Cap.Sub(max)), "slice", "slice capacity may be out of range")
			x.oblige(bGe(max.Sub(hi)), "slice", "slice bounds may be inverted")
			c = max
		}
		if !lo.Eq(&Poly{}) || !hi.Eq(a.Len) {
			x.oblige(bGe(lo), "slice", "slice bound may be negative")
			x.oblige(bGe(hi.Sub(lo)), "slice", "slice bounds may be inverted")
			if max == nil {
				x.oblige(bGe(a.Cap.Sub(hi)), "slice", "slice bound may be out of range")
			}
		}
		r := a
		r.Off, r.Len, r.Cap = a.Off.Add(lo), hi.Sub(lo), c.Sub(lo)
		x.fr.set(in, r)
		return
	case PtrV:
		x.oblige(x.isNil(a).not(), "nil", "nil pointer dereference")
		at, ok := a.Elem.Underlying().(*types.Array)
		if !ok || a.Obj == nil {
			break
		}
		n := PInt(at.Len())
		if hi == nil {
			hi = n
		}
		c := n
		if max != nil {
			c = max
			x.oblige(bGe(n.Sub(max)), "slice", "slice capacity may be out of range")
			x.oblige(bGe(max.Sub(hi)), "slice", "slice bounds may be inverted")
		}
		x.oblige(bGe(lo), "slice", "slice bound may be negative")
		x.oblige(bGe(hi.Sub(lo)), "slice", "slice bounds may be inverted")
		x.oblige(bGe(n.Sub(hi)), "slice", "slice bound may be out of range")
		base := PtrV{Obj: a.Obj, Path: a.Path, Elem: at.Elem()}
		x.fr.set(in, SliceV{Base: base, Off: lo, Len: hi.Sub(lo), Cap: c.Sub(lo), Elem: at.Elem()})
		return
	}
	x.undecided("slice of unknown value")
	x.fr.set(in, x.fresh(in.Type(), "slice"))
}

func substr(t *Term, lo, hi, n *Poly) StrV {
	if c, ok := lo.Int(); ok && c == 0 && hi.Eq(n) {
		return StrV{t}
	}
	if t.Op == "sc" {
		l, ok1 := lo.Int()
		h, ok2 := hi.Int()
		s := string(t.Args[0].(Lit))
		if ok1 && ok2 && l >= 0 && l <= h && h <= int64(len(s)) {
			return strConst(s[l:h])
		}
	}
	return StrV{mkTerm("substr", SStr, nil, t, lo, hi)}
}

func init() {
	strLenHook["substr"] = func(t *Term) *Poly { return t.Args[2].(*Poly).Sub(t.Args[1].(*Poly)) }
}

// loadByte returns the element i of a slice without bounds obligations.
func (x *X) elemAt(s SliceV, i *Poly) Value {
	if s.Base.Obj == nil {
		panic(infeasible{})
	}
	return x.load(sliceElem(s, i, s.Elem))
}

func (x *X) typeAssert(in *ssa.TypeAssert) {
	v := x.val(in.X)
	i, ok := v.(IfaceV)
	if !ok {
		x.undecided("type assertion on unknown value")
		x.fr.set(in, x.fresh(in.Type(), "ta"))
		return
	}
	set := func(v Value, ok bool) {
		if in.CommaOk {
			x.fr.set(in, TupleV{v, bConst(ok)})
		} else {
			x.fr.set(in, v)
		}
	}
	if i.T != nil {
		if d, ok := x.st.F.dyn[x.st.F.NormT(i.T)]; ok {
			i = IfaceV{Dyn: d, Val: unboxed(i.T, d)}
		}
	}
	toIface := types.IsInterface(in.AssertedType)
	if i.T == nil {
		if i.Dyn == nil {
			if in.CommaOk {
				set(zeroValue(in.AssertedType), false)
				return
			}
			x.oblige(bFalse, "assert", "type assertion on nil interface")
			return
		}
		var holds bool
		if toIface {
			holds = types.Implements(i.Dyn, in.AssertedType.Underlying().(*types.Interface))
		} else {
			holds = types.Identical(i.Dyn, in.AssertedType)
		}
		if holds {
			if toIface {
				set(i, true)
			} else {
				set(i.Val, true)
			}
			return
		}
		if in.CommaOk {
			set(zeroValue(in.AssertedType), false)
			return
		}
		x.oblige(bFalse, "assert", "type assertion may fail")
		return
	}
	var cond BoolV
	if toIface {
		cond = bAtom(mkTerm("implements", SBool, nil, i.T, Lit(typeKey(in.AssertedType))))
		if in.AssertedType.Underlying().(*types.Interface).NumMethods() == 0 {
			cond = x.isNil(i).not()
		}
	} else {
		cond = BoolV{K: BDyn, T: i.T, Typ: in.AssertedType}
	}
	if !in.CommaOk {
		x.oblige(cond, "assert", "type assertion may fail")
		if toIface {
			set(i, true)
		} else {
			set(unboxed(i.T, in.AssertedType), true)
		}
		return
	}
	if x.decide(cond) {
		if toIface {
			set(i, true)
		} else {
			set(unboxed(i.T, in.AssertedType), true)
		}
	} else {
		set(zeroValue(in.AssertedType), false)
	}
}

func (x *X) unop(in *ssa.UnOp) Value {
	v := x.val(in.X)
	switch in.Op {
	case token.MUL:
		p, ok := v.(PtrV)
		if !ok {
			x.undecided("load through unknown pointer")
			return x.fresh(in.Type(), "load")
		}
		if g, ok := in.X.(*ssa.Global); ok {
			if r, ok := x.globalValue(g, in.Type()); ok {
				return r
			}
		}
		x.oblige(x.isNil(p).not(), "nil", "nil pointer dereference")
		return x.load(p)
	case token.NOT:
		if b, ok := v.(BoolV); ok {
			return b.not()
		}
	case token.SUB:
		switch v := v.(type) {
		case IntV:
			return x.wrap(v.P.Neg(), v.T)
		case FloatV:
			if c, ok := v.Const(); ok {
				return floatConst(-c, v.Bits)
			}
			return FloatV{mkTerm("fneg", SFloat, nil, v.T), v.Bits}
		}
	case token.XOR:
		if i, ok := v.(IntV); ok {
			return x.wrap(i.P.Neg().AddI(-1), i.T)
		}
	case token.ARROW:
		x.undecided("channel receive")
	}
	return x.fresh(in.Type(), "unop")
}

// wrap reduces p to the range of its type. Within the range, according to the
// facts, it is p itself.
func (x *X) wrap(p *Poly, b *types.Basic) IntV {
	lo, hi := intRange(b)
	if lo == nil {
		return IntV{p, b}
	}
	plo, phi := p.Bounds()
	if plo != nil && phi != nil && plo.Cmp(lo) >= 0 && phi.Cmp(hi) <= 0 {
		return IntV{p, b}
	}
	fits := func() bool {
		return x.st.F.Entails(p.Sub(PConst(lo))) && x.st.F.Entails(PConst(hi).Sub(p))
	}
	if fits() {
		return IntV{p, b}
	}
	if len(x.st.ors) > 0 {
		n := len(x.st.F.log)
		x.st.prune()
		if len(x.st.F.log) > n && fits() {
			return IntV{p, b}
		}
	}
	return IntV{WrapTo(p, b), b}
}

func (x *X) binop(op token.Token, a, b Value, at, rt types.Type) Value {
	switch op {
	case token.EQL, token.NEQ:
		r := x.equal(a, b)
		if op == token.NEQ {
			return r.not()
		}
		return r
	}
	switch a := a.(type) {
	case IntV:
		if b, ok := b.(IntV); ok {
			return x.intOp(op, a, b, rt)
		}
	case FloatV:
		if b, ok := b.(FloatV); ok {
			return floatOp(op, a, b)
		}
	case StrV:
		if b, ok := b.(StrV); ok {
			switch op {
			case token.ADD:
				return StrV{strCat(a.T, b.T)}
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				return bAtom(mkTerm("str"+op.String(), SBool, nil, a.T, b.T))
			}
		}
	case BoolV:
		if b, ok := b.(BoolV); ok {
			switch op {
			case token.AND, token.LAND:
				return bAnd([]BoolV{a, b})
			case token.OR, token.LOR:
				return bAnd([]BoolV{a.not(), b.not()}).not()
			}
		}
	}
	return symOf(rt, "op"+op.String(), argOf(a), argOf(b))
}

func isPow2(c *big.Int) (uint, bool) {
	if c.Sign() <= 0 {
		return 0, false
	}
	n := uint(c.BitLen() - 1)
	return n, pow2(n).Cmp(c) == 0
}

func (x *X) intOp(op token.Token, a, b IntV, rt types.Type) Value {
	p, q := x.st.F.Norm(a.P), x.st.F.Norm(b.P)
	pc, qc := p.Const(), q.Const()
	bits, signed := intBits(a.T)
	switch op {
	case token.ADD:
		return x.wrap(p.Add(q), a.T)
	case token.SUB:
		return x.wrap(p.Sub(q), a.T)
	case token.MUL:
		return x.wrap(p.Mul(q), a.T)
	case token.LSS:
		return bGe(q.Sub(p).AddI(-1))
	case token.LEQ:
		return bGe(q.Sub(p))
	case token.GTR:
		return bGe(p.Sub(q).AddI(-1))
	case token.GEQ:
		return bGe(p.Sub(q))
	case token.QUO, token.REM:
		x.oblige(bEq(q).not(), "div", "division by zero")
		return x.divide(op, IntV{p, a.T}, IntV{q, b.T})
	case token.SHL:
		if qc != nil && qc.IsInt64() {
			if qc.Cmp(big.NewInt(int64(bits))) >= 0 {
				return IntV{&Poly{}, a.T}
			}
			return x.wrap(p.Scale(pow2(uint(qc.Int64()))), a.T)
		}
		x.shiftCheck(q, b.T)
	case token.SHR:
		if qc != nil && qc.IsInt64() {
			if qc.Cmp(big.NewInt(int64(bits))) >= 0 && !signed {
				return IntV{&Poly{}, a.T}
			}
			return IntV{FDiv(p, pow2(uint(qc.Int64()))), a.T}
		}
		x.shiftCheck(q, b.T)
	case token.AND:
		if pc != nil && qc == nil {
			p, q, pc, qc = q, p, qc, pc
		}
		if pc != nil && qc != nil {
			return IntV{PConst(new(big.Int).And(pc, qc)), a.T}
		}
		if qc != nil && qc.Sign() >= 0 {
			if n, ok := isPow2(new(big.Int).Add(qc, bigOne)); ok {
				return x.wrap(Mod(p, pow2(n)), a.T)
			}
		}
		if qc != nil && qc.Sign() < 0 {
			// x &^ (2^n-1)
			if n, ok := isPow2(new(big.Int).Neg(qc)); ok {
				return x.wrap(p.Sub(Mod(p, pow2(n))), a.T)
			}
		}
	case token.OR, token.XOR:
		if pc != nil && qc != nil {
			r := new(big.Int)
			if op == token.OR {
				r.Or(pc, qc)
			} else {
				r.Xor(pc, qc)
			}
			return IntV{PConst(r), a.T}
		}
		if pc != nil && pc.Sign() == 0 {
			return b
		}
		if qc != nil && qc.Sign() == 0 {
			return a
		}
		if disjointBits(p, q) || disjointBits(q, p) {
			return x.wrap(p.Add(q), a.T)
		}
	case token.AND_NOT:
		if qc != nil && qc.Sign() >= 0 {
			if pc != nil {
				return IntV{PConst(new(big.Int).AndNot(pc, qc)), a.T}
			}
			if n, ok := isPow2(new(big.Int).Add(qc, bigOne)); ok {
				return x.wrap(p.Sub(Mod(p, pow2(n))), a.T)
			}
		}
	}
	t := mkTerm("op"+op.String(), SInt, a.T, p, q)
	return IntV{PVar(t), a.T}
}

func (x *X) shiftCheck(q *Poly, b *types.Basic) {
	if _, signed := intBits(b); signed {
		x.oblige(bGe(q), "shift", "negative shift")
	}
}

// disjointBits reports that p is a multiple of 2^n and 0 <= q < 2^n.
func disjointBits(p, q *Poly) bool {
	lo, hi := q.Bounds()
	if lo == nil || hi == nil || lo.Sign() < 0 {
		return false
	}
	if plo, _ := p.Bounds(); plo == nil || plo.Sign() < 0 {
		return false
	}
	n := uint(hi.BitLen())
	m := pow2(n)
	for _, t := range p.ms {
		if new(big.Int).Mod(t.c, m).Sign() != 0 {
			return false
		}
	}
	return true
}

func (x *X) divide(op token.Token, a, b IntV) Value {
	p, q := a.P, b.P
	c := q.Const()
	rem := func(d *Poly) Value {
		if op == token.QUO {
			return x.wrap(d, a.T)
		}
		return x.wrap(p.Sub(d.Mul(q)), a.T)
	}
	if c != nil && c.Sign() > 0 {
		if x.st.F.Entails(p) {
			return rem(FDiv(p, c))
		}
		if pc := p.Const(); pc != nil {
			return rem(PConst(new(big.Int).Quo(pc, c)))
		}
		// Truncation towards zero.
		if x.decide(bGe(p)) {
			return rem(FDiv(p, c))
		}
		return rem(FDiv(p.Neg(), c).Neg())
	}
	// Symbolic divisor: d = p / q with q > 0 and p >= 0 is bounded by
	// d*q <= p < d*q + q.
	if x.decide(bGe(q.AddI(-1))) {
		neg := false
		if !x.decide(bGe(p)) {
			neg = true
			p = p.Neg()
		}
		t := mkInt("div", bigZero, nil, x.st.F.Norm(p), x.st.F.Norm(q))
		d := PVar(t)
		x.st.F.AddGe(p.Sub(d.Mul(q)))
		x.st.F.AddGe(d.Mul(q).Add(q).Sub(p).AddI(-1))
		x.st.F.AddGe(d)
		x.st.F.AddGe(p.Sub(d))
		if neg {
			p = a.P
			d = d.Neg()
		}
		if op == token.QUO {
			return x.wrap(d, a.T)
		}
		return x.wrap(p.Sub(d.Mul(q)), a.T)
	}
	return IntV{PVar(mkTerm("op"+op.String(), SInt, a.T, p, q)), a.T}
}

func floatOp(op token.Token, a, b FloatV) Value {
	ac, ok1 := a.Const()
	bc, ok2 := b.Const()
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return floatConst(ac+bc, a.Bits)
		case token.SUB:
			return floatConst(ac-bc, a.Bits)
		case token.MUL:
			return floatConst(ac*bc, a.Bits)
		case token.QUO:
			return floatConst(ac/bc, a.Bits)
		case token.LSS:
			return bConst(ac < bc)
		case token.LEQ:
			return bConst(ac <= bc)
		case token.GTR:
			return bConst(ac > bc)
		case token.GEQ:
			return bConst(ac >= bc)
		}
	}
	switch op {
	case token.LSS, token.LEQ:
		return bAtom(mkTerm("f"+op.String(), SBool, nil, a.T, b.T))
	case token.GTR:
		return bAtom(mkTerm("f<", SBool, nil, b.T, a.T))
	case token.GEQ:
		return bAtom(mkTerm("f<=", SBool, nil, b.T, a.T))
	}
	return FloatV{mkTerm("f"+op.String()+strconv.Itoa(a.Bits), SFloat, nil, a.T, b.T), a.Bits}
}

// equal is the condition a == b.
func (x *X) equal(a, b Value) BoolV {
	switch p := a.(type) {
	case IntV:
		if q, ok := b.(IntV); ok {
			return bEq(p.P.Sub(q.P))
		}
	case BoolV:
		if q, ok := b.(BoolV); ok {
			if q.K == BConst {
				if q.B {
					return p
				}
				return p.not()
			}
			if p.K == BConst {
				if p.B {
					return q
				}
				return q.not()
			}
			return x.decideEqBool(p, q)
		}
	case FloatV:
		if q, ok := b.(FloatV); ok {
			pc, ok1 := p.Const()
			qc, ok2 := q.Const()
			if ok1 && ok2 {
				return bConst(pc == qc)
			}
			if ok1 {
				p, q = q, p
			}
			if !ok1 && !ok2 && p.T.ID > q.T.ID {
				p, q = q, p
			}
			return bAtom(mkTerm("feq", SBool, nil, p.T, q.T))
		}
	case StrV:
		if q, ok := b.(StrV); ok {
			return strEq(p, q)
		}
	case StructV:
		if q, ok := b.(StructV); ok {
			var l []BoolV
			for i := range p.F {
				l = append(l, x.equal(p.F[i], q.F[i]))
			}
			return bAnd(l)
		}
	case ArrayV:
		if q, ok := b.(ArrayV); ok {
			var l []BoolV
			for i := range p.E {
				l = append(l, x.equal(p.E[i], q.E[i]))
			}
			return bAnd(l)
		}
	case PtrV:
		if q, ok := b.(PtrV); ok {
			if q.Obj == nil {
				return x.isNil(p)
			}
			if p.Obj == nil {
				return x.isNil(q)
			}
			if vkey(p) == vkey(q) {
				return bTrue
			}
			if p.Obj.Fresh() || q.Obj.Fresh() {
				if p.Obj != q.Obj {
					return bFalse
				}
			}
			return bAtom(mkTerm("ptreq", SBool, nil, argOf(p), argOf(q)))
		}
	case SliceV:
		if q, ok := b.(SliceV); ok && q.Base.Obj == nil {
			return x.isNil(p)
		}
		if q, ok := b.(SliceV); ok && p.Base.Obj == nil {
			return x.isNil(q)
		}
	case MapV:
		if q, ok := b.(MapV); ok && q.Obj == nil {
			return x.isNil(p)
		}
		if q, ok := b.(MapV); ok && p.Obj == nil {
			return x.isNil(q)
		}
	case FuncV:
		if q, ok := b.(FuncV); ok && q.Fn == nil && q.T == nil {
			return x.isNil(p)
		}
		if q, ok := b.(FuncV); ok && p.Fn == nil && p.T == nil {
			return x.isNil(q)
		}
	case IfaceV:
		switch q := b.(type) {
		case IfaceV:
			if q.T == nil && q.Dyn == nil {
				return x.isNil(p)
			}
			if p.T == nil && p.Dyn == nil {
				return x.isNil(q)
			}
			if p.T != nil && p.T == q.T {
				return bTrue
			}
			if p.T == nil && q.T == nil {
				if !types.Identical(p.Dyn, q.Dyn) {
					return bFalse
				}
				return x.equal(p.Val, q.Val)
			}
			if (p.T == nil || p.T.Op == "err") && (q.T == nil || q.T.Op == "err" || q.T.Op == "stdvar") || q.T != nil && q.T.Op == "err" && p.T != nil && p.T.Op == "stdvar" {
				// A new error is different from every other one.
				if p.T != nil && q.T != nil {
					return bFalse
				}
			}
			if p.T != nil && q.T != nil {
				if p.T.Op == "stdvar" && q.T.Op == "stdvar" {
					return bFalse
				}
				a, b := p.T, q.T
				if a.ID > b.ID {
					a, b = b, a
				}
				return bAtom(mkTerm("ifeq", SBool, nil, a, b))
			}
		default:
			if b == nil {
				return x.isNil(p)
			}
		}
	case nil:
		if b == nil {
			return bTrue
		}
		return x.isNil(b)
	case ReflTypeV:
		if q, ok := b.(ReflTypeV); ok {
			return bConst(types.Identical(p.T, q.T))
		}
	}
	ka, kb := argOf(a), argOf(b)
	if ka.argKey() == kb.argKey() {
		return bTrue
	}
	return bAtom(mkTerm("eq", SBool, nil, ka, kb))
}

func (x *X) decideEqBool(p, q BoolV) BoolV {
	return bConst(x.decide(p) == x.decide(q))
}

func strEq(p, q StrV) BoolV {
	pc, ok1 := p.Const()
	qc, ok2 := q.Const()
	switch {
	case ok1 && ok2:
		return bConst(pc == qc)
	case p.T == q.T:
		return bTrue
	case ok2:
		return BoolV{K: BStr, T: p.T, S: qc}
	case ok1:
		return BoolV{K: BStr, T: q.T, S: pc}
	}
	a, b := p.T, q.T
	if a.ID > b.ID {
		a, b = b, a
	}
	return bAtom(mkTerm("strsame", SBool, nil, a, b))
}

func (x *X) convert(v Value, from, to types.Type) Value {
	ub, _ := to.Underlying().(*types.Basic)
	switch a := v.(type) {
	case IntV:
		if ub != nil {
			switch {
			case ub.Info()&types.IsInteger != 0:
				return x.wrap(a.P, ub)
			case ub.Info()&types.IsFloat != 0:
				bits := floatBits(ub)
				if c := x.st.F.Norm(a.P).Const(); c != nil {
					f, _ := new(big.Float).SetInt(c).Float64()
					return floatConst(f, bits)
				}
				return FloatV{mkTerm("i2f"+strconv.Itoa(bits), SFloat, nil, a.P), bits}
			case ub.Info()&types.IsString != 0:
				return StrV{mkTerm("runestr", SStr, nil, a.P)}
			}
		}
	case FloatV:
		if ub != nil {
			switch {
			case ub.Info()&types.IsFloat != 0:
				bits := floatBits(ub)
				if c, ok := a.Const(); ok {
					return floatConst(c, bits)
				}
				if bits == a.Bits {
					return a
				}
				return FloatV{mkTerm("f2f"+strconv.Itoa(bits), SFloat, nil, a.T), bits}
			case ub.Info()&types.IsInteger != 0:
				if c, ok := a.Const(); ok && !math.IsNaN(c) && math.Abs(c) < 1e15 {
					return x.wrap(PInt(int64(c)), ub)
				}
				return IntV{PVar(mkTerm("f2i", SInt, ub, a.T)), ub}
			}
		}
	case StrV:
		if ub != nil && ub.Info()&types.IsString != 0 {
			return a
		}
		if st, ok := to.Underlying().(*types.Slice); ok {
			n := lenOfStr(a.T)
			s := x.newSlice(st.Elem(), n, n, "bytesof")
			if bk, ok := st.Elem().Underlying().(*types.Basic); ok && bk.Kind() == types.Uint8 {
				x.st.put(s.Base.Obj, &SeqC{Elem: st.Elem(), Base: mkTerm("strbytes", SRef, nil, a.T)})
			} else {
				l := PVar(mkInt("runelen", bigZero, maxLen, a.T))
				s.Len, s.Cap = l, l
				x.st.put(s.Base.Obj, &SeqC{Elem: st.Elem(), Base: mkTerm("strrunes", SRef, nil, a.T)})
			}
			return s
		}
	case SliceV:
		if ub != nil && ub.Info()&types.IsString != 0 {
			return StrV{x.bytesTerm(a)}
		}
		return retype(a, to)
	case PtrV:
		if ub != nil && ub.Kind() == types.UnsafePointer {
			return UnsafeV{a}
		}
		return retype(a, to)
	case UnsafeV:
		if pt, ok := to.Underlying().(*types.Pointer); ok {
			p := a.P
			if p.Obj == nil {
				return PtrV{Elem: pt.Elem()}
			}
			mem := p.Elem
			if p.Cast != nil {
				mem = p.Cast
			}
			if types.Identical(mem, pt.Elem()) {
				p.Elem, p.Cast = pt.Elem(), nil
				return p
			}
			p.Elem, p.Cast = pt.Elem(), mem
			return p
		}
		if ub != nil && ub.Kind() == types.UnsafePointer {
			return a
		}
		return symOf(to, "uintptr", argOf(a))
	}
	return symOf(to, "conv", argOf(v))
}

// bytesTerm names the content of a byte slice.
func (x *X) bytesTerm(s SliceV) *Term {
	if s.Base.Obj == nil {
		return strConst("").T
	}
	if n := x.st.F.Norm(s.Len); n.Const() != nil && n.Const().Sign() == 0 {
		return strConst("").T
	}
	c, ok := x.get(s.Base.Obj).(*SeqC)
	if !ok || len(s.Base.Path) > 0 {
		return x.freshTerm("bytes", SStr)
	}
	if len(c.W) == 0 && c.Base != nil && c.Base.Op == "strbytes" {
		t := c.Base.Args[0].(*Term)
		if s.Off.Eq(&Poly{}) && x.st.F.EntailsEq(s.Len.Sub(lenOfStr(t))) {
			return t
		}
		return substr(t, s.Off, s.Off.Add(s.Len), lenOfStr(t)).T
	}
	if len(c.W) > 0 {
		// Content made of consecutive copies.
		if t := x.copiedText(c, s); t != nil {
			return t
		}
	}
	var base Arg = Lit("zero")
	if c.Base != nil {
		base = c.Base
	}
	if len(c.W) > 0 {
		base = Lit(c.key())
	}
	return mkTerm("text", SStr, nil, base, s.Off, s.Len)
}

func init() {
	strLenHook["text"] = func(t *Term) *Poly { return t.Args[2].(*Poly) }
}

// copiedText recognises sequences written as adjacent copies of texts.
func (x *X) copiedText(c *SeqC, s SliceV) *Term {
	if !x.st.F.EntailsEq(s.Off) {
		return nil
	}
	pos := &Poly{}
	var out *Term
	for _, w := range c.W {
		if w.Kind != WCopy && w.Kind != WPoint {
			return nil
		}
		if !x.st.F.EntailsEq(w.Idx.Sub(pos)) {
			return nil
		}
		var t *Term
		if w.Kind == WPoint {
			i, ok := w.V.(IntV)
			if !ok {
				return nil
			}
			b, ok := i.P.Int()
			if !ok {
				return nil
			}
			t = strConst(string([]byte{byte(b)})).T
			pos = pos.AddI(1)
		} else {
			if len(w.Src.W) > 0 || w.Src.Base == nil {
				if len(w.Src.W) > 0 {
					sub := SliceV{Off: &Poly{}, Len: w.N}
					if !x.st.F.EntailsEq(w.SrcOff) {
						return nil
					}
					t = x.copiedText(w.Src, sub)
				}
				if t == nil {
					return nil
				}
			} else if w.Src.Base.Op == "strbytes" {
				u := w.Src.Base.Args[0].(*Term)
				t = substr(u, w.SrcOff, w.SrcOff.Add(w.N), lenOfStr(u)).T
			} else {
				t = mkTerm("text", SStr, nil, w.Src.Base, w.SrcOff, w.N)
			}
			pos = pos.Add(w.N)
		}
		if out == nil {
			out = t
		} else {
			out = strCat(out, t)
		}
	}
	if out == nil || !x.st.F.EntailsEq(s.Len.Sub(pos)) {
		return nil
	}
	return out
}

// ---- maps

func (x *X) mapStore(m MapV, k, v Value) {
	x.oblige(x.isNil(m).not(), "nil", "assignment to a nil map")
	if m.Obj == nil {
		panic(infeasible{})
	}
	x.touch(m.Obj, "w")
	c := x.get(m.Obj).(*MapC)
	n := &MapC{T: c.T, Base: c.Base, W: append(c.W[:len(c.W):len(c.W)], MWrite{Key: k, Val: v})}
	x.st.put(m.Obj, n)
}

func (x *X) mapDelete(m MapV, k Value) {
	if m.Obj == nil {
		return
	}
	x.touch(m.Obj, "w")
	c := x.get(m.Obj).(*MapC)
	n := &MapC{T: c.T, Base: c.Base, W: append(c.W[:len(c.W):len(c.W)], MWrite{Key: k, Del: true})}
	x.st.put(m.Obj, n)
}

func (x *X) mapGet(m MapV, k Value, et types.Type) (Value, bool) {
	if m.Obj == nil {
		return zeroValue(et), false
	}
	if x.decide(x.isNil(m)) {
		return zeroValue(et), false
	}
	x.touch(m.Obj, "r")
	c := x.get(m.Obj).(*MapC)
	for i := len(c.W) - 1; i >= 0; i-- {
		w := c.W[i]
		if w.Loop != nil {
			return x.mapLoopGet(c, w, k, et)
		}
		if x.decide(x.equal(k, w.Key)) {
			if w.Del {
				return zeroValue(et), false
			}
			return w.Val, true
		}
	}
	if c.Base == nil {
		return zeroValue(et), false
	}
	if !x.decide(bAtom(mkTerm("mapok", SBool, nil, c.Base, argOf(k)))) {
		return zeroValue(et), false
	}
	v := symOf(et, "mapval", c.Base, argOf(k))
	if f, ok := v.(FuncV); ok && x.e.noNilFuncs && rooted(c.Base, "galloc") {
		x.assume(x.isNil(f).not())
	}
	return v, true
}

// mapLoopGet looks a key up among the entries written by a summarised loop:
// either the last entry written with that key, by some iteration, or none.
func (x *X) mapLoopGet(c *MapC, w MWrite, k Value, et types.Type) (Value, bool) {
	in := mkTerm("loopkey", SBool, nil, Lit(w.key()), argOf(k))
	if !x.decide(bAtom(in)) {
		rest := &MapC{T: c.T, Base: c.Base}
		for _, y := range c.W {
			if y.Loop == w.Loop {
				break
			}
			rest.W = append(rest.W, y)
		}
		for i := len(rest.W) - 1; i >= 0; i-- {
			if rest.W[i].Loop != nil {
				return x.mapLoopGet(rest, rest.W[i], k, et)
			}
			if x.decide(x.equal(k, rest.W[i].Key)) {
				return rest.W[i].Val, !rest.W[i].Del
			}
		}
		if rest.Base == nil {
			return zeroValue(et), false
		}
		if !x.decide(bAtom(mkTerm("mapok", SBool, nil, rest.Base, argOf(k)))) {
			return zeroValue(et), false
		}
		return symOf(et, "mapval", rest.Base, argOf(k)), true
	}
	t := mkInt("sk", bigZero, maxLen, Lit("keyiter"), Lit(w.key()), argOf(k))
	v := PVar(t)
	x.assume(bGe(v))
	x.assume(bGe(w.Loop.Upper.Sub(v).AddI(-1)))
	a := x.pick(w.Loop, v)
	alt := w.Alts[a]
	if len(alt) == 0 {
		panic(infeasible{})
	}
	s := newSubster(map[*Term]Arg{w.Loop.Bv: v})
	q := alt[len(alt)-1].subst(s)
	if q.Loop != nil {
		x.undecided("nested map writes")
		return x.fresh(et, "maploop"), true
	}
	x.assume(x.equal(k, q.Key))
	return q.Val, !q.Del
}

func (x *X) lookup(in *ssa.Lookup) {
	if s, ok := x.val(in.X).(StrV); ok {
		i := x.intOf(x.val(in.Index))
		x.bound(i, lenOfStr(s.T), "index")
		x.fr.set(in, strIndex(s.T, i))
		return
	}
	m, _ := x.val(in.X).(MapV)
	et := in.X.Type().Underlying().(*types.Map).Elem()
	v, ok := x.mapGet(m, x.val(in.Index), et)
	if in.CommaOk {
		x.fr.set(in, TupleV{v, bConst(ok)})
	} else {
		x.fr.set(in, v)
	}
}

// Iteration over a map or a string: the n-th element is named by the content
// of the map at the start, which is required not to change meanwhile.
func (x *X) rangeStart(in *ssa.Range) {
	v := x.val(in.X)
	cell := x.newCell(types.Typ[types.Int], "iter")
	it := IterV{Map: v, Site: cell.Obj.Term, Cell: cell.Obj}
	x.fr.set(in, it)
}

func (x *X) next(in *ssa.Next) {
	it, _ := x.val(in.Iter).(IterV)
	tt := in.Type().(*types.Tuple)
	kt, vt := tt.At(1).Type(), tt.At(2).Type()
	n := x.get(it.Cell).(CellC).V.(IntV).P
	var base *Term
	var length *Poly
	switch m := it.Map.(type) {
	case StrV:
		if in.IsString {
			base = mkTerm("strrange", SRef, nil, m.T)
			length = PVar(mkInt("runelen", bigZero, maxLen, m.T))
		}
	case MapV:
		if m.Obj == nil {
			x.fr.set(in, TupleV{bFalse, zeroIf(kt), zeroIf(vt)})
			return
		}
		x.touch(m.Obj, "r")
		c := x.get(m.Obj).(*MapC)
		if len(c.W) == 0 && c.Base == nil {
			x.fr.set(in, TupleV{bFalse, zeroIf(kt), zeroIf(vt)})
			return
		}
		if conc := x.concreteEntries(c); conc != nil {
			if i, ok := n.Int(); ok && i <= int64(len(conc)) {
				if i == int64(len(conc)) {
					x.fr.set(in, TupleV{bFalse, zeroIf(kt), zeroIf(vt)})
					return
				}
				x.st.put(it.Cell, newCell(goIntC(i+1)))
				x.fr.set(in, TupleV{bTrue, conc[i].Key, conc[i].Val})
				return
			}
		}
		if len(c.W) == 0 {
			base = c.Base
		} else {
			base = mkTerm("mapcontent", SRef, nil, Lit(c.key()))
		}
		length = PVar(mkInt("maplen", bigZero, maxLen, base))
		if v, ok := x.st.F.Atom(nilAtom(m.Obj.Term)); ok && v {
			x.st.F.AddEq(length)
		}
	}
	if base == nil {
		x.undecided("iteration over unknown value")
		x.fr.set(in, x.fresh(in.Type(), "next"))
		return
	}
	if x.decide(bGe(length.Sub(n).AddI(-1))) {
		x.st.put(it.Cell, newCell(goInt(n.AddI(1))))
		k := symIfValid(kt, it.Map, "mapkey", base, n)
		v := Value(goIntC(0))
		if b, ok := vt.(*types.Basic); !ok || b.Kind() != types.Invalid {
			if in.IsString {
				v = symOf(vt, "strrune", base, n)
			} else {
				if b, ok := kt.(*types.Basic); ok && b.Kind() == types.Invalid {
					if m, ok := it.Map.(MapV); ok {
						k = symOf(m.T.Underlying().(*types.Map).Key(), "mapkey", base, n)
					}
				}
				v = symOf(vt, "mapval", base, argOf(k))
			}
		}
		x.fr.set(in, TupleV{bTrue, k, v})
		return
	}
	x.fr.set(in, TupleV{bFalse, zeroIf(kt), zeroIf(vt)})
}

func symIfValid(t types.Type, m Value, op string, base *Term, n *Poly) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return goIntC(0)
	}
	return symOf(t, op, base, n)
}

func zeroIf(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return goIntC(0)
	}
	return zeroValue(t)
}

// concreteEntries returns the entries of a map with constant keys.
func (x *X) concreteEntries(c *MapC) []MWrite {
	if c.Base != nil {
		return nil
	}
	var out []MWrite
	idx := map[string]int{}
	for _, w := range c.W {
		if w.Loop != nil || w.Del {
			return nil
		}
		switch k := w.Key.(type) {
		case IntV:
			if k.P.Const() == nil {
				return nil
			}
		case StrV:
			if _, ok := k.Const(); !ok {
				return nil
			}
		default:
			return nil
		}
		if i, ok := idx[vkey(w.Key)]; ok {
			out[i] = w
			continue
		}
		idx[vkey(w.Key)] = len(out)
		out = append(out, w)
	}
	return out
}
