package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("P01", checkDef{run: checkP01,
		explain: "Query over the SSA of every function of the repository, tests excluded. Rules: source (no call to a clock, a random source, the environment, process or machine properties, or formatting of an address), order (each loop over a map is insensitive to the order of iteration: no value that depends on which keys came first or last, such as a slice or text in that order which isn't sorted, the last element seen, or the first one found, flows into a result, into memory that outlives the loop or into a writer, and nothing is written or appended to such memory in that order; entries of other maps under the key of the iteration, flags, sums of integers, searches for one key, minima and errors are insensitive).",
		assume:  []string{"functions of the caller (readers, writers, file systems, registered extensions) are functions of their inputs", "which of several errors is returned isn't part of the result"}})
}

// impure is the functions whose results aren't functions of their arguments.
var impure = map[string]string{
	"time.Now": "the clock", "time.Since": "the clock", "time.Until": "the clock", "time.After": "the clock", "time.Tick": "the clock", "time.NewTimer": "the clock", "time.NewTicker": "the clock",
	"os.Getenv": "the environment", "os.LookupEnv": "the environment", "os.Environ": "the environment", "os.ExpandEnv": "the environment",
	"os.Getpid": "the process", "os.Getppid": "the process", "os.Hostname": "the machine", "os.Executable": "the process",
	"os.UserHomeDir":       "the environment",
	"runtime.NumGoroutine": "scheduling", "runtime.ReadMemStats": "the allocator",
	"hash/maphash.MakeSeed": "random numbers", "hash/maphash.String": "random numbers", "hash/maphash.Bytes": "random numbers",
}

func impureCall(g *ssa.Function) string {
	pkg := fnPkg(g)
	if s := impure[pkg+"."+g.Name()]; s != "" && g.Signature.Recv() == nil {
		return s
	}
	switch {
	case pkg == "math/rand" || pkg == "math/rand/v2":
		if g.Signature.Recv() == nil && !strings.HasPrefix(g.Name(), "New") {
			return "random numbers"
		}
	case pkg == "crypto/rand":
		return "random numbers"
	}
	return ""
}

func checkP01(r *Report) {
	var fns []*ssa.Function
	for _, f := range r.P.RepoFns {
		fns = append(fns, f)
	}
	b := newByteFlow(fns)
	calls, loops := 0, 0
	for _, f := range fns {
		r.funcs[fnName(f)] = true
		what := fnName(f)
		for _, bl := range f.Blocks {
			for _, in := range bl.Instrs {
				switch c := in.(type) {
				case ssa.CallInstruction:
					calls++
					if _, ok := in.(*ssa.Go); ok {
						r.Undec(what + ": the results may depend on how a goroutine is scheduled")
					}
					g := c.Common().StaticCallee()
					if g == nil {
						continue
					}
					if s := impureCall(g); s != "" {
						r.Fail("source", what, r.P.Pos(in.Pos()), "the result of "+g.String()+" depends on "+s, nil)
						continue
					}
					r.OK("source", what)
					for _, a := range c.Common().Args {
						if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && fnPkg(g) == "fmt" && strings.Contains(constant.StringVal(k.Value), "%p") {
							r.Fail("source", what, r.P.Pos(in.Pos()), "an address is formatted, which is different each time", nil)
						}
					}
					if keysCall(g) && !b.sortedOnly(c) {
						r.Undec(what + ": order of the keys of " + g.String())
					}
				case *ssa.Select:
					if len(c.States) > 1 || !c.Blocking {
						r.Undec(what + ": the results may depend on scheduling")
					}
				case *ssa.Range:
					if _, ok := c.X.Type().Underlying().(*types.Map); ok {
						loops++
						r.mapLoop(b, f, c)
					}
				}
			}
		}
	}
	r.samples = append(r.samples, fmt.Sprintf("%d functions, %d calls, %d loops over maps", len(fns), calls, loops))
}

// keysCall tells whether a function delivers entries of a map in any order.
func keysCall(g *ssa.Function) bool {
	if o := g.Origin(); o != nil {
		g = o
	}
	switch fnPkg(g) {
	case "maps":
		return g.Name() == "Keys" || g.Name() == "Values" || g.Name() == "All"
	case "reflect":
		return g.Name() == "MapKeys" || g.Name() == "MapRange"
	case "sync":
		return g.Name() == "Range"
	}
	return false
}

func sortCall(g *ssa.Function) bool {
	if o := g.Origin(); o != nil {
		g = o
	}
	return fnPkg(g) == "sort" || fnPkg(g) == "slices" && strings.HasPrefix(g.Name(), "Sort")
}

// sortedOnly tells whether a sequence is only used sorted.
func (b *byteFlow) sortedOnly(c ssa.CallInstruction) bool {
	v, ok := c.(ssa.Value)
	if !ok {
		return false
	}
	o := &orderFlow{b: b, seen: map[ssa.Value]bool{}}
	o.flow(v)
	return o.sorted || o.sink == nil && !o.lost && len(o.elems) == 0
}

// mapLoop is a loop over a map, or over a slice in the order of one.
type mapLoop struct {
	r      *Report
	b      *byteFlow
	fn     *ssa.Function
	pos    token.Pos
	head   *ssa.BasicBlock
	next   *ssa.Next
	elem   *ssa.IndexAddr           // the element of a slice
	keys   bool                     // which holds keys
	cycle  map[*ssa.BasicBlock]bool // blocks that lead to the next iteration
	blocks map[*ssa.BasicBlock]bool
	iter   map[ssa.Value]bool // depends on the iteration
}

func (r *Report) mapLoop(b *byteFlow, fn *ssa.Function, rng *ssa.Range) {
	l := &mapLoop{r: r, b: b, fn: fn, pos: rng.Pos()}
	for _, u := range *rng.Referrers() {
		if n, ok := u.(*ssa.Next); ok {
			l.next = n
		}
	}
	if l.next == nil {
		return
	}
	l.run(l.next.Block(), l.next)
}

// naturalLoop is the blocks of the loop with a header, nil if it has none.
func naturalLoop(head *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	blocks := map[*ssa.BasicBlock]bool{head: true}
	var up func(bl *ssa.BasicBlock)
	up = func(bl *ssa.BasicBlock) {
		if blocks[bl] {
			return
		}
		blocks[bl] = true
		for _, p := range bl.Preds {
			up(p)
		}
	}
	back := false
	for _, p := range head.Preds {
		if head.Dominates(p) {
			back = true
			up(p)
		}
	}
	if !back {
		return nil
	}
	return blocks
}

// run judges the loop with a header, given the value for the element.
func (l *mapLoop) run(head *ssa.BasicBlock, elem ssa.Value) {
	l.head = head
	l.blocks, l.cycle = naturalLoop(head), naturalLoop(head)
	if l.blocks == nil {
		l.blocks = map[*ssa.BasicBlock]bool{head: true}
	}
	// With what an iteration runs before it leaves the loop early.
	for i, body := range head.Succs {
		if len(body.Preds) != 1 || !(l.blocks[body] || len(l.blocks) == 1 && i == 0) {
			continue
		}
		for _, bl := range head.Parent().Blocks {
			if body.Dominates(bl) {
				l.blocks[bl] = true
			}
		}
		break
	}
	l.iter = map[ssa.Value]bool{elem: true}
	for changed := true; changed; {
		changed = false
		for bl := range l.blocks {
			for _, in := range bl.Instrs {
				v, ok := in.(ssa.Value)
				if !ok || l.iter[v] {
					continue
				}
				for _, op := range in.Operands(nil) {
					if l.iter[*op] {
						l.iter[v] = true
						changed = true
					}
				}
			}
		}
	}
	fails := len(l.r.Violations)
	l.judge(head)
	if len(l.r.Violations) == fails {
		l.r.OK("order", fnName(l.fn))
	}
}

// sliceLoop judges the loop, if any, in which an element is used of a slice
// that is in the order of a loop over a map.
func (l *mapLoop) sliceLoop(e *ssa.IndexAddr, keys bool) bool {
	var head *ssa.BasicBlock
	var best map[*ssa.BasicBlock]bool
	for _, h := range e.Parent().Blocks {
		if bl := naturalLoop(h); bl != nil && bl[e.Block()] && (best == nil || len(bl) < len(best)) {
			head, best = h, bl
		}
	}
	if head == nil {
		return false
	}
	if _, ok := e.Index.(*ssa.Const); ok {
		return false
	}
	for _, j := range l.b.judged {
		if j == head {
			return true
		}
	}
	l.b.judged = append(l.b.judged, head)
	m := &mapLoop{r: l.r, b: l.b, fn: e.Parent(), pos: e.Pos(), elem: e, keys: keys}
	m.run(head, e)
	return true
}

func (l *mapLoop) fail(pos token.Pos, msg string) {
	if !pos.IsValid() {
		pos = l.pos
	}
	l.r.Fail("order", fnName(l.fn), l.r.P.Pos(pos), msg+", in the order of a loop over a map, which is different each time", nil)
}

func (l *mapLoop) undec(msg string) { l.r.Undec(fnName(l.fn) + ": loop over a map: " + msg) }

// key is the key of the iteration.
func (l *mapLoop) key(v ssa.Value) bool {
	switch a := v.(type) {
	case *ssa.Extract:
		return l.next != nil && a.Tuple == l.next && a.Index == 1
	case *ssa.MakeInterface:
		return l.key(a.X)
	case *ssa.ChangeType:
		return l.key(a.X)
	case *ssa.UnOp:
		if l.elem != nil && a.Op == token.MUL && a.X == l.elem {
			return l.keys
		}
		// A variable that holds it.
		if al, ok := a.X.(*ssa.Alloc); ok && a.Op == token.MUL {
			n, is := 0, true
			l.b.stores(al, func(w ssa.Value) {
				n++
				is = is && l.key(w)
			})
			return n > 0 && is
		}
	}
	return false
}

// once tells whether a block runs for one key at most.
func (l *mapLoop) once(bl *ssa.BasicBlock) bool {
	for d := bl; d != nil && l.blocks[d]; d = d.Idom() {
		p := d.Idom()
		if p == nil || !l.blocks[p] || len(p.Instrs) == 0 {
			break
		}
		i, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
		if !ok || len(d.Preds) != 1 || d.Preds[0] != p {
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok {
			continue
		}
		eq := c.Op == token.EQL && p.Succs[0] == d || c.Op == token.NEQ && p.Succs[1] == d
		if eq && (l.key(c.X) && !l.iter[c.Y] || l.key(c.Y) && !l.iter[c.X]) {
			return true
		}
	}
	return false
}

// compared tells whether a block runs depending on a comparison with the value.
func (l *mapLoop) compared(bl *ssa.BasicBlock, v func(ssa.Value) bool) bool {
	for d := bl; d != nil && l.blocks[d]; d = d.Idom() {
		if len(d.Instrs) == 0 {
			continue
		}
		if i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If); ok && d != l.head {
			found := false
			seen := map[ssa.Value]bool{}
			var visit func(w ssa.Value)
			visit = func(w ssa.Value) {
				if w == nil || seen[w] || found {
					return
				}
				seen[w] = true
				if v(w) {
					found = true
					return
				}
				if in, ok := w.(ssa.Instruction); ok && l.blocks[in.Block()] {
					for _, op := range in.Operands(nil) {
						visit(*op)
					}
				}
			}
			visit(i.Cond)
			if found {
				return true
			}
		}
	}
	return false
}

func isErr(t types.Type) bool { return types.Implements(t, errorType.Underlying().(*types.Interface)) }

var errorType = types.Universe.Lookup("error").Type()

func (l *mapLoop) judge(head *ssa.BasicBlock) {
	for bl := range l.cycle {
		for _, s := range bl.Succs {
			if bl != head && !l.cycle[s] {
				l.truncated(bl, s)
			}
		}
	}
	for bl := range l.blocks {
		for _, in := range bl.Instrs {
			switch a := in.(type) {
			case *ssa.Phi:
				if bl == head {
					l.accumulator(a)
				}
			case *ssa.Store:
				l.store(a)
			case *ssa.MapUpdate:
				l.update(a)
			case ssa.CallInstruction:
				l.call(a)
			case *ssa.Send:
				l.fail(a.Pos(), "values are sent")
			case *ssa.Return:
				for i, v := range a.Results {
					l.early(a, bl, v, i)
				}
			}
		}
		// Ways out other than the end of the map.
		for _, s := range bl.Succs {
			if l.blocks[s] || bl == head {
				continue
			}
			l.exit(bl, s)
		}
	}
}

// exit judges a way out of the loop.
func (l *mapLoop) exit(from, to *ssa.BasicBlock) {
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range to.Preds {
			if pr == from && l.iter[p.Edges[i]] && !isErr(p.Type()) && !l.once(from) && !l.accumulated(p.Edges[i]) {
				l.visible(p, p.Pos(), "the first element found is used")
			}
		}
	}
}

// truncated judges a way out of the loop that leaves elements unhandled.
func (l *mapLoop) truncated(from, to *ssa.BasicBlock) {
	// An entry set for each key.
	maps := map[string]bool{}
	for bl := range l.blocks {
		for _, in := range bl.Instrs {
			if m, ok := in.(*ssa.MapUpdate); ok && l.iter[m.Value] && !l.fresh(m.Map) && !l.iterAddr(m.Map) && !l.once(bl) {
				maps[pathKey(m.Map)] = true
			}
		}
	}
	if len(maps) == 0 {
		return
	}
	// The condition, which counts the elements handled.
	d := from
	for d != l.head && (len(d.Succs) < 2 || d.Succs[0] != to && d.Succs[1] != to && !l.only(d, from)) && d.Idom() != nil {
		d = d.Idom()
	}
	i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
	if !ok || d == l.head {
		return
	}
	c, ok := i.Cond.(*ssa.BinOp)
	if !ok || l.failing(to, from, map[*ssa.BasicBlock]bool{}) {
		return
	}
	for _, v := range []ssa.Value{c.X, c.Y} {
		if k, ok := v.(*ssa.Convert); ok {
			v = k.X
		}
		counts := false
		if b, ok := v.(*ssa.BinOp); ok && b.Op == token.ADD {
			v = b.X
		}
		if p, ok := v.(*ssa.Phi); ok && p.Block() == l.head {
			t, ok := p.Type().Underlying().(*types.Basic)
			counts = ok && t.Info()&types.IsInteger != 0 && l.next != nil
		}
		if k, ok := v.(*ssa.Call); ok {
			if bi, ok := k.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" && maps[pathKey(k.Call.Args[0])] {
				counts = true
			}
		}
		if counts {
			l.fail(c.Pos(), "only some of the elements are handled")
			return
		}
	}
}

// only tells whether a block is entered by a branch only.
func (l *mapLoop) only(d, bl *ssa.BasicBlock) bool {
	for _, s := range d.Succs {
		if s == bl && len(bl.Preds) == 1 {
			return true
		}
	}
	return false
}

// failing tells whether the way from a block leads to a non-nil error or a panic.
func (l *mapLoop) failing(bl, from *ssa.BasicBlock, seen map[*ssa.BasicBlock]bool) bool {
	if seen[bl] {
		return true
	}
	seen[bl] = true
	switch a := bl.Instrs[len(bl.Instrs)-1].(type) {
	case *ssa.Panic:
		return true
	case *ssa.Return:
		for _, v := range a.Results {
			if !isErr(v.Type()) {
				continue
			}
			if p, ok := v.(*ssa.Phi); ok && p.Block() == bl {
				for i, pr := range bl.Preds {
					if pr == from {
						v = p.Edges[i]
					}
				}
			}
			if k, ok := v.(*ssa.Const); ok && k.IsNil() {
				return false
			}
			if p, ok := v.(*ssa.Phi); ok && p.Block() == l.head {
				return false
			}
			if in, ok := v.(ssa.Instruction); ok && in.Block().Dominates(l.head) {
				return false // from before the loop, so it is nil or the loop wouldn't run
			}
			return true
		}
		return false
	}
	for _, s := range bl.Succs {
		if !l.failing(s, bl, seen) {
			return false
		}
	}
	return true
}

// accumulated tells whether a value is one of the accumulators, which are
// judged on their own.
func (l *mapLoop) accumulated(v ssa.Value) bool {
	p, ok := v.(*ssa.Phi)
	return ok && p.Block() == l.head
}

// early judges what is returned from within the loop.
func (l *mapLoop) early(ret *ssa.Return, bl *ssa.BasicBlock, v ssa.Value, i int) {
	if !l.iter[v] || isErr(v.Type()) || l.once(bl) || l.accumulated(v) {
		return
	}
	if p, ok := v.(*ssa.Phi); ok && !l.blocks[p.Block()] {
		return // judged as one
	}
	if in, ok := v.(ssa.Instruction); ok && !l.blocks[in.Block()] && in.Block() != ret.Block() {
		return
	}
	o := &orderFlow{b: l.b, seen: map[ssa.Value]bool{}, loop: l}
	o.returned(ret, i)
	l.result(o, ret.Pos(), "the first element found is used")
}

// accumulator judges a variable of the loop.
func (l *mapLoop) accumulator(p *ssa.Phi) {
	if isErr(p.Type()) {
		return
	}
	head := p.Block()
	self := map[ssa.Value]bool{p: true}
	// Phis within the body that merge it.
	var leaves []ssa.Value
	var at []*ssa.BasicBlock
	var expand func(v ssa.Value, from *ssa.BasicBlock)
	expand = func(v ssa.Value, from *ssa.BasicBlock) {
		if q, ok := v.(*ssa.Phi); ok && l.blocks[q.Block()] && q.Block() != head {
			if self[q] {
				return
			}
			self[q] = true
			for i, e := range q.Edges {
				expand(e, q.Block().Preds[i])
			}
			return
		}
		leaves = append(leaves, v)
		at = append(at, from)
	}
	for i, e := range p.Edges {
		if l.blocks[head.Preds[i]] {
			expand(e, head.Preds[i])
		}
	}
	for i, v := range leaves {
		l.step(p, v, at[i], self)
	}
}

// step judges one way in which an iteration changes a variable.
func (l *mapLoop) step(p *ssa.Phi, v ssa.Value, from *ssa.BasicBlock, self map[ssa.Value]bool) {
	bl := from
	if in, ok := v.(ssa.Instruction); ok && l.blocks[in.Block()] && !l.blocksOnly(from) {
		bl = in.Block()
	}
	switch a := v.(type) {
	case *ssa.Const:
		return
	case *ssa.BinOp:
		if self[a.X] || self[a.Y] {
			t, _ := a.Type().Underlying().(*types.Basic)
			switch {
			case t == nil:
			case t.Info()&types.IsString != 0:
				if l.iter[a.X] && l.iter[a.Y] {
					l.visible(p, a.Pos(), "a text is put together")
				}
			case t.Info()&types.IsInteger != 0 && (a.Op == token.ADD || a.Op == token.OR || a.Op == token.AND || a.Op == token.XOR || a.Op == token.MUL || a.Op == token.SUB && self[a.X]):
			case t.Info()&types.IsBoolean != 0:
			default:
				l.undec("a number is accumulated")
			}
			return
		}
	case *ssa.Call:
		if bi, ok := a.Call.Value.(*ssa.Builtin); ok {
			switch bi.Name() {
			case "append":
				if self[a.Call.Args[0]] {
					if l.once(a.Block()) {
						return
					}
					for _, w := range a.Call.Args[1:] {
						if l.iterElems(w) {
							l.visible(p, a.Pos(), "elements are appended", l.keyElems(w))
							return
						}
					}
					return
				}
			case "min", "max":
				return
			}
		}
	}
	if !l.iter[v] || self[v] {
		return
	}
	if l.once(bl) || l.once(from) || l.compared(from, func(w ssa.Value) bool { return self[w] }) || l.compared(bl, func(w ssa.Value) bool { return self[w] }) {
		return
	}
	for _, op := range valueOperands(v) {
		if self[op] {
			l.undec("a value is accumulated")
			return
		}
	}
	if t, ok := v.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsBoolean != 0 {
		l.undec("the last condition is kept")
		return
	}
	l.visible(p, v.Pos(), "the last element is kept")
}

func (l *mapLoop) blocksOnly(bl *ssa.BasicBlock) bool { return !l.blocks[bl] }

func valueOperands(v ssa.Value) []ssa.Value {
	in, ok := v.(ssa.Instruction)
	if !ok {
		return nil
	}
	var out []ssa.Value
	for _, op := range in.Operands(nil) {
		if *op != nil {
			out = append(out, *op)
		}
	}
	return out
}

// keyElems tells whether what is appended is the key.
func (l *mapLoop) keyElems(w ssa.Value) bool {
	s, ok := w.(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	n, keys := 0, true
	for _, u := range *al.Referrers() {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			for _, u2 := range *ia.Referrers() {
				if st, ok := u2.(*ssa.Store); ok {
					n++
					keys = keys && l.key(st.Val)
				}
			}
		}
	}
	return n == 1 && keys
}

// iterElems tells whether appended elements depend on the iteration.
func (l *mapLoop) iterElems(w ssa.Value) bool {
	if l.iter[w] {
		return true
	}
	s, ok := w.(*ssa.Slice)
	if !ok {
		return false
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, u := range *al.Referrers() {
		if ia, ok := u.(*ssa.IndexAddr); ok {
			for _, u2 := range *ia.Referrers() {
				if st, ok := u2.(*ssa.Store); ok && l.iter[st.Val] {
					return true
				}
			}
		}
	}
	return false
}

// fresh tells whether memory is allocated within the iteration.
func (l *mapLoop) fresh(addr ssa.Value) bool {
	switch a := rootOf(addr).(type) {
	case *ssa.Alloc:
		return l.blocks[a.Block()]
	case *ssa.MakeSlice:
		return l.blocks[a.Block()]
	case *ssa.MakeMap:
		return l.blocks[a.Block()]
	}
	return false
}

// store judges an assignment in the loop.
func (l *mapLoop) store(s *ssa.Store) {
	if l.fresh(s.Addr) || isErr(s.Val.Type()) || l.once(s.Block()) {
		return
	}
	if l.iterAddr(s.Addr) {
		// The element with the key, or memory reached from it.
		return
	}
	if c, ok := s.Val.(*ssa.Call); ok {
		if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
			dep := false
			for _, w := range c.Call.Args[1:] {
				dep = dep || l.iterElems(w)
			}
			if dep {
				l.cell(s, "elements are appended")
			}
			return
		}
	}
	if !l.iter[s.Val] {
		return
	}
	key := pathKey(s.Addr)
	reads := func(w ssa.Value) bool {
		u, ok := w.(*ssa.UnOp)
		return ok && u.Op == token.MUL && pathKey(u.X) == key
	}
	if l.compared(s.Block(), reads) {
		return
	}
	if b, ok := s.Val.(*ssa.BinOp); ok && (reads(b.X) || reads(b.Y)) {
		t, _ := b.Type().Underlying().(*types.Basic)
		if t != nil && t.Info()&types.IsString != 0 {
			l.cell(s, "a text is put together")
		} else if t == nil || t.Info()&types.IsInteger == 0 {
			l.undec("a number is accumulated")
		}
		return
	}
	if ia, ok := s.Addr.(*ssa.IndexAddr); ok {
		if _, ok := ia.Index.(*ssa.Const); !ok {
			// A position that advances with the iteration.
			l.cell(s, "elements are stored at consecutive positions")
			return
		}
	}
	l.cell(s, "the last element is kept")
}

// iterAddr tells whether an address is in memory reached from the element.
func (l *mapLoop) iterAddr(v ssa.Value) bool {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			if l.key(a.Index) || a == l.elem {
				return true
			}
			v = a.X
		case *ssa.UnOp:
			v = a.X
		case *ssa.Extract:
			return l.next != nil && a.Tuple == l.next
		default:
			return false
		}
	}
}

// cell judges memory that holds something that depends on the order.
func (l *mapLoop) cell(s *ssa.Store, msg string) {
	root := rootOf(s.Addr)
	if u, ok := root.(*ssa.UnOp); ok && u.Op == token.MUL {
		if al := l.b.local(u.X); al != nil {
			root = al
		}
	}
	switch a := root.(type) {
	case *ssa.Alloc, *ssa.FreeVar:
		if al := l.b.local(a); al != nil {
			o := &orderFlow{b: l.b, seen: map[ssa.Value]bool{}, loop: l}
			o.memory(al)
			l.result(o, s.Pos(), msg)
			return
		}
	case *ssa.MakeSlice, *ssa.Phi:
		l.visible(a, s.Pos(), msg)
		return
	}
	// Memory of someone else; unless it is sorted.
	for _, bl := range l.fn.Blocks {
		for _, in := range bl.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && sortCall(g) {
					return
				}
			}
		}
	}
	l.fail(s.Pos(), msg)
}

// update judges an entry set in another map.
func (l *mapLoop) update(m *ssa.MapUpdate) {
	if l.key(m.Key) || l.fresh(m.Map) || l.iterAddr(m.Map) || l.once(m.Block()) || !l.iter[m.Value] {
		return
	}
	if !l.iter[m.Key] {
		l.fail(m.Pos(), "the last element is kept in an entry")
		return
	}
	l.undec("entries under other keys, which may collide")
}

// call judges a call in the loop.
func (l *mapLoop) call(c ssa.CallInstruction) {
	com := c.Common()
	dep := false
	for _, a := range com.Args {
		dep = dep || l.iterElems(a)
	}
	if !dep {
		return
	}
	if com.IsInvoke() {
		if writes(com.Method.Name()) && !l.fresh(com.Value) {
			if l.once(c.Block()) {
				return
			}
			l.fail(c.Pos(), "elements are written")
		}
		return
	}
	g := com.StaticCallee()
	if g == nil || l.once(c.Block()) {
		return
	}
	if inRepo(fnPkg(g)) {
		for i := range l.b.appends(g) {
			if i < 0 || i < len(com.Args) && !l.iter[com.Args[i]] && !l.fresh(com.Args[i]) {
				l.fail(c.Pos(), "elements are appended by "+fnName(g))
				return
			}
		}
		if sideEffects(g, map[*ssa.Function]bool{}) {
			// To a position that advances with the iteration?
			for _, a := range com.Args {
				if l.advances(a, map[ssa.Value]bool{}) {
					l.fail(c.Pos(), "elements are stored at consecutive positions by "+fnName(g))
					return
				}
			}
			l.undec("calls of " + fnName(g) + ", which has side effects")
		}
		return
	}
	switch pkg := fnPkg(g); {
	case (pkg == "fmt" && strings.HasPrefix(g.Name(), "Fprint") || pkg == "io" && g.Name() == "WriteString" || pkg == "encoding/binary" && g.Name() == "Write") && len(com.Args) > 0:
		if !l.freshArg(com.Args[0]) {
			l.fail(c.Pos(), "elements are written")
		}
	case g.Signature.Recv() != nil && writes(g.Name()) && len(com.Args) > 0:
		if !l.freshArg(com.Args[0]) {
			l.fail(c.Pos(), "elements are written")
		}
	}
}

// advances tells whether memory is at a position that advances with the iteration.
func (l *mapLoop) advances(v ssa.Value, seen map[ssa.Value]bool) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || !l.blocks[s.Block()] || s.Low == nil {
		return false
	}
	var visit func(w ssa.Value) bool
	visit = func(w ssa.Value) bool {
		if seen[w] {
			return false
		}
		seen[w] = true
		if p, ok := w.(*ssa.Phi); ok && p.Block() == l.head {
			return true
		}
		if b, ok := w.(*ssa.BinOp); ok && l.blocks[b.Block()] {
			return visit(b.X) || visit(b.Y)
		}
		return false
	}
	return visit(s.Low)
}

// deepRoot is the parameter that memory is reached from, -1 for memory of
// something else and -2 for memory of the function.
func (b *byteFlow) deepRoot(v ssa.Value, n int) int {
	for n < 50 {
		n++
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		case *ssa.Slice:
			v = a.X
		case *ssa.Lookup:
			v = a.X
		case *ssa.Extract:
			v = a.Tuple
		case *ssa.ChangeType:
			v = a.X
		case *ssa.UnOp:
			v = a.X
		case *ssa.Phi:
			best := -2
			for _, e := range a.Edges {
				if e != ssa.Value(a) {
					if k := b.deepRoot(e, n+10); k > best || k == -1 {
						best = k
					}
				}
			}
			return best
		case *ssa.Call:
			// What a function of the repository returns is reached from its arguments.
			if g := a.Call.StaticCallee(); g != nil && inRepo(fnPkg(g)) {
				best := -2
				for _, e := range a.Call.Args {
					if _, ok := e.Type().Underlying().(*types.Pointer); ok {
						if k := b.deepRoot(e, n+10); k > best {
							best = k
						}
					}
				}
				return best
			}
			return -2
		case *ssa.Parameter:
			for i, p := range a.Parent().Params {
				if p == a {
					return i
				}
			}
			return -1
		case *ssa.Global, *ssa.FreeVar:
			return -1
		default:
			return -2
		}
	}
	return -2
}

// appends is the parameters (-1 for other memory) whose memory a function
// appends to or that it writes to.
func (b *byteFlow) appends(f *ssa.Function) map[int]bool {
	if b.appended == nil {
		b.appended = map[*ssa.Function]map[int]bool{}
	}
	if m, ok := b.appended[f]; ok {
		return m
	}
	m := map[int]bool{}
	b.appended[f] = m
	for _, bl := range f.Blocks {
		for _, in := range bl.Instrs {
			switch a := in.(type) {
			case *ssa.Store:
				c, ok := a.Val.(*ssa.Call)
				if !ok {
					continue
				}
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					if k := b.deepRoot(a.Addr, 0); k > -2 {
						m[k] = true
					}
				}
			case ssa.CallInstruction:
				com := a.Common()
				if com.IsInvoke() {
					if writes(com.Method.Name()) {
						if k := b.deepRoot(com.Value, 0); k > -2 {
							m[k] = true
						}
					}
					continue
				}
				g := com.StaticCallee()
				if g == nil || !inRepo(fnPkg(g)) {
					continue
				}
				for i := range b.appends(g) {
					k := -1
					if i >= 0 && i < len(com.Args) {
						k = b.deepRoot(com.Args[i], 0)
					}
					if k > -2 {
						m[k] = true
					}
				}
			}
		}
	}
	return m
}

func (l *mapLoop) freshArg(v ssa.Value) bool {
	if m, ok := v.(*ssa.MakeInterface); ok {
		v = m.X
	}
	if l.fresh(v) || l.iterAddr(v) {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if c, ok2 := v.(*ssa.Call); ok2 {
		return l.blocks[c.Block()]
	}
	return ok && l.blocks[in.Block()] && l.iter[v]
}

func writes(name string) bool {
	switch name {
	case "Write", "WriteString", "WriteByte", "WriteRune", "WriteAt", "Encode", "EncodeToken":
		return true
	}
	return false
}

// sideEffects tells whether a function may modify memory that it doesn't allocate.
func sideEffects(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, bl := range f.Blocks {
		for _, in := range bl.Instrs {
			switch a := in.(type) {
			case *ssa.Store:
				if _, ok := rootOf(a.Addr).(*ssa.Alloc); !ok {
					return true
				}
			case *ssa.MapUpdate:
				if _, ok := a.Map.(*ssa.MakeMap); !ok {
					return true
				}
			case *ssa.Send:
				return true
			case ssa.CallInstruction:
				g := a.Common().StaticCallee()
				if a.Common().IsInvoke() && writes(a.Common().Method.Name()) {
					return true
				}
				if g != nil && inRepo(fnPkg(g)) && sideEffects(g, seen) {
					return true
				}
				if g != nil && !inRepo(fnPkg(g)) && g.Signature.Recv() != nil && writes(g.Name()) {
					return true
				}
			}
		}
	}
	return false
}

// visible fails if a value that depends on the order of iteration gets out.
func (l *mapLoop) visible(v ssa.Value, pos token.Pos, msg string, keys ...bool) {
	o := &orderFlow{b: l.b, seen: map[ssa.Value]bool{}, loop: l, keys: len(keys) > 0 && keys[0]}
	o.flow(v)
	l.result(o, pos, msg)
}

func (l *mapLoop) result(o *orderFlow, pos token.Pos, msg string) {
	switch {
	case o.sorted:
	case o.sink != nil:
		l.fail(pos, fmt.Sprintf("%s, and reach %s", msg, o.sinkWhat))
	default:
		for _, e := range o.elems {
			// The store of an element, or its use.
			stored := true
			for _, u := range *e.Referrers() {
				if st, ok := u.(*ssa.Store); !ok || st.Addr != ssa.Value(e) {
					stored = false
				}
			}
			if !stored && !l.sliceLoop(e, o.keys) {
				o.lost = true
			}
		}
		if o.lost {
			l.undec(msg)
		}
	}
}

// orderFlow follows a value that depends on an order.
type orderFlow struct {
	b        *byteFlow
	loop     *mapLoop
	seen     map[ssa.Value]bool
	mem      map[*ssa.Alloc]bool
	sorted   bool
	lost     bool // the analysis doesn't know where it goes
	keys     bool // elements are keys
	elems    []*ssa.IndexAddr
	sink     ssa.Instruction
	sinkWhat string
}

func (o *orderFlow) reach(in ssa.Instruction, what string) {
	if o.sink == nil {
		o.sink, o.sinkWhat = in, what
	}
}

// memory follows what a local variable holds.
func (o *orderFlow) memory(al *ssa.Alloc) {
	if o.mem == nil {
		o.mem = map[*ssa.Alloc]bool{}
	}
	if o.mem[al] {
		return
	}
	o.mem[al] = true
	for _, g := range o.b.fns {
		for _, bl := range g.Blocks {
			for _, in := range bl.Instrs {
				switch a := in.(type) {
				case *ssa.UnOp:
					if a.Op == token.MUL && o.b.local(rootOf(a.X)) == al {
						o.flow(a)
					}
				case *ssa.Slice:
					if o.b.local(rootOf(a.X)) == al {
						o.flow(a)
					}
				case *ssa.MakeInterface:
					if o.b.local(a.X) == al {
						o.flow(a)
					}
				case ssa.CallInstruction:
					for i, w := range a.Common().Args {
						if o.b.local(w) == al {
							o.arg(a, i)
						}
					}
				case *ssa.Return:
					for _, w := range a.Results {
						if o.b.local(w) == al {
							o.flow(al)
						}
					}
				}
			}
		}
	}
}

func (o *orderFlow) flow(v ssa.Value) {
	if v == nil || o.seen[v] || isErr(v.Type()) {
		return
	}
	o.seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return
	}
	for _, u := range *refs {
		switch a := u.(type) {
		case *ssa.Slice, *ssa.Phi, *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Convert, *ssa.TypeAssert, *ssa.Extract, *ssa.Field:
			if s, ok := a.(*ssa.Slice); ok && s.X != v {
				continue
			}
			o.flow(a.(ssa.Value))
		case *ssa.FieldAddr, *ssa.UnOp:
			// The value is a pointer to, or a part of, an element.
			o.lost = true
		case *ssa.BinOp:
			if t, ok := a.Type().Underlying().(*types.Basic); ok && t.Info()&types.IsString != 0 {
				o.flow(a)
			}
		case *ssa.IndexAddr:
			o.elems = append(o.elems, a)
		case *ssa.Index, *ssa.Lookup, *ssa.Range:
			o.lost = true
		case *ssa.Store:
			if a.Val != v {
				continue
			}
			if al := o.b.local(rootOf(a.Addr)); al != nil {
				o.memory(al)
				continue
			}
			o.reach(a, "memory that outlives the loop")
		case *ssa.MapUpdate:
			if a.Value == v {
				if _, ok := a.Map.(*ssa.MakeMap); ok {
					o.lost = true
				} else {
					o.reach(a, "an entry of a map")
				}
			}
		case *ssa.Return:
			for i, w := range a.Results {
				if w == v {
					o.returned(a, i)
				}
			}
		case ssa.CallInstruction:
			for i, w := range a.Common().Args {
				if w == v {
					o.arg(a, i)
				}
			}
		}
	}
}

// returned follows a result.
func (o *orderFlow) returned(ret *ssa.Return, i int) {
	f := ret.Parent()
	if f.Object() != nil && f.Object().Exported() || len(o.b.calls[f]) == 0 {
		o.reach(ret, "a result")
		return
	}
	o.callers(f, i)
}

// callers follows a result to the callers of a function.
func (o *orderFlow) callers(f *ssa.Function, i int) {
	for _, g := range o.b.fns {
		for _, bl := range g.Blocks {
			for _, in := range bl.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Call.StaticCallee() != f {
					continue
				}
				if f.Signature.Results().Len() == 1 {
					o.flow(c)
					continue
				}
				for _, u := range *c.Referrers() {
					if e, ok := u.(*ssa.Extract); ok && e.Index == i {
						o.flow(e)
					}
				}
			}
		}
	}
}

// arg follows an argument.
func (o *orderFlow) arg(c ssa.CallInstruction, i int) {
	com := c.Common()
	v, _ := c.(ssa.Value)
	if bi, ok := com.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "append":
			o.flow(v)
		case "copy":
			if i == 1 {
				o.lost = true
			}
		}
		return
	}
	if com.IsInvoke() {
		if writes(com.Method.Name()) {
			o.reach(c, "a writer")
		} else {
			o.lost = true
		}
		return
	}
	g := com.StaticCallee()
	if g == nil {
		o.lost = true
		return
	}
	if sortCall(g) {
		o.sorted = true
		return
	}
	pkg := fnPkg(g)
	switch {
	case inRepo(pkg):
		if i < len(g.Params) {
			o.flow(g.Params[i])
		}
	case pkg == "errors" || pkg == "fmt" && g.Name() == "Errorf":
	case pkg == "fmt" && strings.HasPrefix(g.Name(), "Fprint"), pkg == "io" && g.Name() == "WriteString", g.Signature.Recv() != nil && writes(g.Name()):
		o.reach(c, "a writer")
	case pkg == "fmt", pkg == "strings", pkg == "bytes", pkg == "slices", pkg == "encoding/json" && strings.HasPrefix(g.Name(), "Marshal"):
		if v != nil {
			o.flow(v)
		} else {
			o.lost = true
		}
	default:
		o.lost = true
	}
}
