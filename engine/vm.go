package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type deferRec struct {
	next *deferRec
	in   *Instr
	fn   *Closure // resolved callee (nil: builtin)
	args []Value
}

type panicRec struct {
	val   Value
	rt    bool // runtime error
	where string
	goex  bool
}

type retMode uint8

const (
	retNormal retMode = iota
	retDefer          // called from RunDefers
	retUnwind         // called while unwinding a panic
	retRecov          // remaining defers after a recovered panic
)

type Frame struct {
	fn     *Fn
	regs   []Value
	blk    int
	pc     int
	epoch  int
	defers *deferRec
	pan    *panicRec
	recov  bool
	mode   retMode
}

type undoEnt struct {
	c   *Value
	old Value
	fn  func()
}

// ---- control transfers out of the interpreter ----

type forkReq struct {
	alts   []*Term
	val    uint64
	hasVal bool
}
type goPanicReq struct{ rec *panicRec }
type uncaught struct{ rec *panicRec }
type unsupported struct{ what string }
type pathKill struct{ kind string }
type specStop struct{}
type vmBug struct{ what string }

// dec is one recorded decision.
type dec struct {
	Idx    int
	Val    uint64
	HasVal bool
}

type choice struct {
	stack []*Frame
	undo  int
	pcm   pcMark
	alts  []*Term
	next  int
	ndec  int
	val   uint64
	has   bool
	path  pathState
}

type obs struct {
	name string
	v    Value
}

type inputRec struct {
	name string
	kind string
	v    Value // Value as handed out (Term or concrete)
	opts []string
}

// pathState is everything a path accumulates besides the heap.
type pathState struct {
	steps    int
	obs      []obs
	inputs   []inputRec
	findings []string
	reached  []string
	asserts  int
	trace    []string
	thread   uint8 // sym.Thread
	raceLen  int   // events in the race log
	pend     int32 // variable of the instruction being restarted, plus 1
}

type VM struct {
	tc      *TermCtx
	pc      *PathCond
	z       *Z3
	globals []*Value
	stack   []*Frame
	epoch   int
	undo    []undoEnt
	imark   int
	idepth  int
	nested  int
	choices []*choice
	decs    []dec
	prefix  []dec
	path    pathState
	spec    *specRun
	ret     Value
	limit   int
	free    []*Frame
	job     *Job
	ev      events
	inited  map[string]bool
	initing bool
	total   int64 // instructions executed
	nFork   int
	nSpec   int
	nMerge  int
	pools   map[*Value][]Value
	misc    map[string]any
	race    *raceLog
	noSpec  bool
	startPC string
}

type events interface {
	assertFail(vm *VM, msg string, cond *Term, model map[int32]uint64)
	pathEnd(vm *VM, kind, detail string)
	excluded(vm *VM, cond *Term)
	query(kind string)
}

func newVM(z *Z3) *VM {
	tc := newTermCtx()
	vm := &VM{tc: tc, z: z, pc: newPathCond(tc, z), limit: 20_000_000, inited: map[string]bool{}, pools: map[*Value][]Value{}, misc: map[string]any{}}
	return vm
}

// ---- heap ----

func (vm *VM) log(c *Value) {
	if vm.spec != nil {
		panic(specStop{})
	}
	vm.undo = append(vm.undo, undoEnt{c: c, old: *c})
}

func (vm *VM) logFn(f func()) {
	if vm.spec != nil {
		panic(specStop{})
	}
	vm.undo = append(vm.undo, undoEnt{fn: f})
}

// impure marks a native operation with effects that speculation must not repeat.
func (vm *VM) impure() {
	if vm.spec != nil {
		panic(specStop{})
	}
}

func (vm *VM) rollback(m int) {
	for len(vm.undo) > m {
		u := &vm.undo[len(vm.undo)-1]
		if u.fn != nil {
			u.fn()
		} else {
			*u.c = u.old
		}
		u.fn, u.c, u.old = nil, nil, Value{}
		vm.undo = vm.undo[:len(vm.undo)-1]
	}
}

func (vm *VM) store(c *Value, v Value) {
	if s, ok := v.p.(*Struct); ok {
		if d, ok := c.p.(*Struct); ok {
			if d == s {
				return
			}
			for i := range s.f {
				vm.store(&d.f[i], s.f[i])
			}
			return
		}
		vm.log(c)
		*c = clone(v)
		return
	}
	vm.log(c)
	*c = v
}

func (vm *VM) global(i int) *Value {
	for i >= len(vm.globals) {
		vm.globals = append(vm.globals, nil)
	}
	if vm.globals[i] == nil {
		g := globalAt(i)
		vm.globals[i] = &Value{}
		*vm.globals[i] = zero(deref(g.Type()))
	}
	return vm.globals[i]
}

func (vm *VM) get(f *Frame, x int32) Value {
	if x >= 0 {
		return f.regs[x]
	}
	if x > glBase {
		return f.fn.consts[-x-1]
	}
	return Value{p: vm.global(int(glBase - x))}
}

// ---- frames ----

func (vm *VM) newFrame(fn *Fn) *Frame {
	fn.compile()
	if !fn.entered.Load() {
		fn.entered.Store(true)
	}
	var f *Frame
	if n := len(vm.free); n > 0 {
		f = vm.free[n-1]
		vm.free = vm.free[:n-1]
		regs := f.regs
		if cap(regs) >= fn.nregs {
			regs = regs[:fn.nregs]
		} else {
			regs = make([]Value, fn.nregs)
		}
		*f = Frame{regs: regs}
	} else {
		f = &Frame{regs: make([]Value, fn.nregs)}
	}
	f.fn = fn
	f.epoch = vm.epoch
	return f
}

func (vm *VM) release(f *Frame) {
	if f.epoch == vm.epoch && len(vm.free) < 64 {
		for i := range f.regs {
			f.regs[i] = Value{}
		}
		f.defers, f.pan = nil, nil
		vm.free = append(vm.free, f)
	}
}

// top returns the writable top frame.
func (vm *VM) top() *Frame {
	i := len(vm.stack) - 1
	f := vm.stack[i]
	if f.epoch != vm.epoch {
		n := *f
		n.regs = append([]Value(nil), f.regs...)
		n.epoch = vm.epoch
		f = &n
		vm.stack[i] = f
	}
	return f
}

func (vm *VM) snapshot() []*Frame {
	s := append([]*Frame(nil), vm.stack...)
	vm.epoch++
	return s
}

const maxDepth = 3000

func (vm *VM) push(fn *Fn, args []Value, bind []Value, mode retMode) {
	if len(vm.stack) > maxDepth {
		panic(pathKill{"stack overflow"})
	}
	if fn.ssa.Blocks == nil {
		panic(unsupported{"no body: " + fn.name})
	}
	f := vm.newFrame(fn)
	copy(f.regs, args)
	copy(f.regs[fn.nparams:], bind)
	f.mode = mode
	vm.stack = append(vm.stack, f)
}

// callSync runs a function to completion from native code.
func (vm *VM) callSync(fn *Fn, args []Value, bind []Value) Value {
	if fn.native != nil {
		return vm.callNative(fn, args)
	}
	base := len(vm.stack)
	vm.push(fn, args, bind, retNormal)
	vm.nested++
	vm.loop(base)
	vm.nested--
	return vm.ret
}

func (vm *VM) callClosure(c *Closure, args []Value) Value {
	if c.native != nil {
		return c.native(vm, args)
	}
	return vm.callSync(c.fn, args, c.bind)
}

// ---- decisions ----

// decide resolves a condition, forking when both outcomes are possible.
func (vm *VM) decide(t *Term) bool {
	canT, canF := vm.pc.status(t)
	if !canF {
		return true
	}
	if !canT {
		return false
	}
	panic(forkReq{alts: []*Term{t, vm.tc.not(t)}})
}

func (vm *VM) decideV(v Value) bool {
	if t, ok := v.p.(*Term); ok {
		return vm.decide(t)
	}
	return v.n != 0
}

// groupsOf partitions the feasible values of v by key.
func groupsOf(dom Bits256, key func(i int) any) ([]any, []Bits256) {
	var keys []any
	var sets []Bits256
	idx := map[any]int{}
	for i := 0; i < 256; i++ {
		if !dom.has(i) {
			continue
		}
		k := key(i)
		g, ok := idx[k]
		if !ok {
			g = len(keys)
			idx[k] = g
			keys = append(keys, k)
			sets = append(sets, Bits256{})
		}
		sets[g].set(i)
	}
	return keys, sets
}

func (vm *VM) forkSets(v int32, sets []Bits256) {
	alts := make([]*Term, len(sets))
	for i, s := range sets {
		alts[i] = newSet(v, s)
	}
	panic(forkReq{alts: alts})
}

func (vm *VM) concretize(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.c
	case OpTbl:
		keys, sets := groupsOf(vm.pc.doms[t.v], func(i int) any { return t.at(i) })
		if len(keys) == 1 {
			return keys[0].(uint64)
		}
		vm.forkSets(t.v, sets)
	}
	if t.op == OpVar && t.w == 8 {
		panic("8 bit OpVar")
	}
	var val uint64
	if k := len(vm.decs); k < len(vm.prefix) && vm.prefix[k].HasVal {
		val = vm.prefix[k].Val
	} else {
		val = vm.pc.evalWit(t)
	}
	eq := vm.tc.mk(OpEq, 1, t, vm.tc.konst(t.w, val), nil)
	canT, canF := vm.pc.status(eq)
	if canT && !canF {
		return val
	}
	if !canT {
		val = vm.pc.evalWit(t)
		eq = vm.tc.mk(OpEq, 1, t, vm.tc.konst(t.w, val), nil)
		if _, cf := vm.pc.status(eq); !cf {
			return val
		}
	}
	panic(forkReq{alts: []*Term{eq, vm.tc.not(eq)}, val: val, hasVal: true})
}

func (vm *VM) conc(v Value) uint64 {
	if t, ok := v.p.(*Term); ok {
		return vm.concretize(t)
	}
	return v.n
}

func (vm *VM) concInt(v Value) int { return int(int64(vm.conc(v))) }

// str resolves choice strings.
func (vm *VM) str(v Value) Value {
	if c, ok := v.p.(*ChoiceStr); ok {
		return strVal(c.strs[vm.concretize(c.idx)])
	}
	return v
}

// concStr makes a string concrete.
func (vm *VM) concStr(v Value) string {
	v = vm.str(v)
	switch s := v.p.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i := range s.b {
			b[i] = byte(vm.conc(s.b[i]))
		}
		return string(b)
	}
	panic(vmBug{fmt.Sprintf("concStr %T", v.p)})
}

// term turns a scalar value into a term.
func (vm *VM) term(v Value, w uint8) *Term {
	if t, ok := v.p.(*Term); ok {
		return t
	}
	return vm.tc.konst(w, v.n)
}

// doFork handles a fork request at the current instruction.
func (vm *VM) doFork(r forkReq) {
	vm.nFork++
	var feas []int
	for i, a := range r.alts {
		if canT, _ := vm.pc.status(a); canT {
			feas = append(feas, i)
		}
	}
	if len(feas) == 0 {
		panic(vmBug{"fork without feasible alternative"})
	}
	if len(feas) == 1 {
		if !vm.pc.assume(r.alts[feas[0]]) {
			panic(vmBug{"assume failed"})
		}
		return
	}
	alts := make([]*Term, len(feas))
	for i, k := range feas {
		alts[i] = r.alts[k]
	}
	k := len(vm.decs)
	if slowLog != "" && k >= len(vm.prefix) {
		w := strings.SplitN(vm.where(), " < ", 4)
		forkStat(fmt.Sprint(r.hasVal, " ", w[:min(len(w), 3)]))
	}
	if k < len(vm.prefix) {
		d := vm.prefix[k]
		if d.Idx >= len(alts) {
			panic(vmBug{"prefix does not replay"})
		}
		vm.decs = append(vm.decs, d)
		if !vm.pc.assume(alts[d.Idx]) {
			panic(pathKill{"infeasible"})
		}
		if len(vm.decs) == len(vm.prefix) {
			vm.startPC = vm.pc.smtPC()
		}
		return
	}
	ch := &choice{stack: vm.snapshot(), undo: len(vm.undo), pcm: vm.pc.mark(), alts: alts, next: 1, ndec: k, val: r.val, has: r.hasVal, path: vm.path}
	vm.choices = append(vm.choices, ch)
	vm.decs = append(vm.decs, dec{0, r.val, r.hasVal})
	if !vm.pc.assume(alts[0]) {
		panic(pathKill{"infeasible"})
	}
}

// backtrack moves to the next unexplored alternative; false when done.
func (vm *VM) backtrack() bool {
	for len(vm.choices) > 0 {
		ch := vm.choices[len(vm.choices)-1]
		vm.rollback(ch.undo)
		vm.pc.restore(ch.pcm)
		vm.decs = vm.decs[:ch.ndec]
		vm.path = ch.path
		if ch.next >= len(ch.alts) {
			vm.choices = vm.choices[:len(vm.choices)-1]
			continue
		}
		i := ch.next
		ch.next++
		vm.stack = append(vm.stack[:0], ch.stack...)
		vm.epoch++
		vm.nested = 0
		vm.decs = append(vm.decs, dec{i, ch.val, ch.has})
		if !vm.pc.assume(ch.alts[i]) {
			continue
		}
		if ch.next >= len(ch.alts) {
			// last alternative: the choice point can be dropped when it is not needed for undo
			vm.choices = vm.choices[:len(vm.choices)-1]
		}
		return true
	}
	return false
}

// ---- panics of the interpreted program ----

func (vm *VM) rtPanic(msg string) {
	panic(goPanicReq{&panicRec{val: Value{p: &Iface{t: rtypeOf(types.Typ[types.String]), v: strVal("runtime error: " + msg)}}, rt: true}})
}

func (vm *VM) where() string {
	var sb strings.Builder
	for i := len(vm.stack) - 1; i >= 0 && i > len(vm.stack)-9; i-- {
		f := vm.stack[i]
		pos := token.NoPos
		if f.blk < len(f.fn.blocks) && f.pc < len(f.fn.blocks[f.blk].ins) {
			pos = f.fn.blocks[f.blk].ins[f.pc].pos
		}
		p := ""
		if pos.IsValid() {
			ps := theProg.Fset.Position(pos)
			p = fmt.Sprintf("%s:%d", shortFile(ps.Filename), ps.Line)
		}
		fmt.Fprintf(&sb, "%s(%s) < ", f.fn.name, p)
	}
	return sb.String()
}

func shortFile(s string) string {
	if i := strings.LastIndex(s, "/repo/"); i >= 0 {
		return s[i+6:]
	}
	if i := strings.LastIndex(s, "/"); i >= 0 {
		return s[i+1:]
	}
	return s
}

func (vm *VM) goPanic(rec *panicRec, base int) {
	vm.impure()
	if rec.where == "" {
		rec.where = vm.where()
	}
	f := vm.top()
	f.pan = rec
	f.recov = false
	vm.unwind(base)
}

// unwind runs deferred calls of the panicking top frame and pops frames.
func (vm *VM) unwind(base int) {
	for {
		f := vm.top()
		if d := f.defers; d != nil {
			f.defers = d.next
			if vm.startDeferred(d, retUnwind) {
				return
			}
			continue
		}
		rec := f.pan
		vm.stack = vm.stack[:len(vm.stack)-1]
		vm.release(f)
		if len(vm.stack) == base {
			panic(uncaught{rec})
		}
		c := vm.top()
		c.pan = rec
		c.recov = false
	}
}

// startDeferred invokes a deferred call; true if a frame was pushed.
func (vm *VM) startDeferred(d *deferRec, mode retMode) bool {
	if d.fn == nil {
		vm.builtin(d.in, d.args)
		return false
	}
	if d.fn.native != nil {
		d.fn.native(vm, d.args)
		return false
	}
	if d.fn.fn.native != nil {
		vm.callNative(d.fn.fn, d.args)
		return false
	}
	vm.push(d.fn.fn, d.args, d.fn.bind, mode)
	return true
}

// doReturn pops the top frame with the given result.
func (vm *VM) doReturn(res Value, base int) {
	n := len(vm.stack) - 1
	f := vm.stack[n]
	vm.stack = vm.stack[:n]
	mode := f.mode
	vm.release(f)
	if n == base {
		vm.ret = res
		return
	}
	c := vm.top()
	switch mode {
	case retNormal:
		in := &c.fn.blocks[c.blk].ins[c.pc]
		if in.dst >= 0 {
			c.regs[in.dst] = res
		}
		c.pc++
	case retDefer:
		// the caller re-executes RunDefers
	case retUnwind:
		if c.recov {
			c.pan, c.recov = nil, false
			vm.finishRecovered(base)
		} else {
			vm.unwind(base)
		}
	case retRecov:
		vm.finishRecovered(base)
	}
}

func (vm *VM) finishRecovered(base int) {
	for {
		c := vm.top()
		d := c.defers
		if d == nil {
			break
		}
		c.defers = d.next
		if vm.startDeferred(d, retRecov) {
			return
		}
	}
	c := vm.top()
	if c.fn.recover >= 0 {
		c.blk, c.pc = c.fn.recover, 0
		return
	}
	var res Value
	if c.fn.results == 1 {
		res = zero(c.fn.resT[0].t)
	} else if c.fn.results > 1 {
		s := &Struct{}
		for _, t := range c.fn.resT {
			s.f = append(s.f, zero(t.t))
		}
		res = Value{p: s}
	}
	vm.doReturn(res, base)
}

// jump moves a frame along an edge, evaluating phis.
func (vm *VM) jump(f *Frame, e edge) {
	b := &f.fn.blocks[e.to]
	switch len(b.phis) {
	case 0:
	case 1:
		f.regs[b.phis[0].dst] = vm.get(f, b.phis[0].edges[e.pred])
	default:
		var tmp [16]Value
		t := tmp[:0]
		for i := range b.phis {
			t = append(t, vm.get(f, b.phis[i].edges[e.pred]))
		}
		for i := range b.phis {
			f.regs[b.phis[i].dst] = t[i]
		}
	}
	f.blk, f.pc = e.to, 0
}

// runPath runs until the harness returns or the path ends in another way.
// It returns the kind of end and a detail.
func (vm *VM) runPath() (kind, detail string) {
	for {
		k, d, again := vm.runProtected()
		if !again {
			return k, d
		}
	}
}

func (vm *VM) runProtected() (kind, detail string, again bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		kind, detail, again = vm.handle(r)
	}()
	vm.nested = 0
	vm.loop(0)
	return "ok", "", false
}

func (vm *VM) handle(r any) (kind, detail string, again bool) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case uncaught:
				kind, detail, again = "panic", vm.panicText(x.rec)+" at "+x.rec.where, false
			case pathKill:
				kind, detail, again = x.kind, vm.where(), false
			case vmBug:
				kind, detail, again = "vmbug", x.what+" "+vm.where(), false
			case unsupported:
				kind, detail, again = "unsupported", x.what+" "+vm.where(), false
			default:
				kind, detail, again = "vmbug", fmt.Sprint(r)+" "+vm.where()+string(debug.Stack()), false
			}
		}
	}()
	switch x := r.(type) {
	case forkReq:
		vm.rollback(vm.imark)
		vm.stack = vm.stack[:vm.idepth]
		vm.nested = 0
		vm.doFork(x)
		return "", "", true
	case goPanicReq:
		vm.stack = vm.stack[:vm.idepth]
		vm.nested = 0
		vm.goPanic(x.rec, 0)
		return "", "", true
	case uncaught:
		if vm.nested > 0 && len(vm.stack) > 0 {
			vm.stack = vm.stack[:vm.idepth]
			vm.nested = 0
			vm.goPanic(x.rec, 0)
			return "", "", true
		}
		return "panic", vm.panicText(x.rec) + " at " + x.rec.where, false
	case unsupported:
		return "unsupported", x.what + " at " + vm.where(), false
	case pathKill:
		return x.kind, vm.where(), false
	case vmBug:
		return "vmbug", x.what + " at " + vm.where() + string(debug.Stack()), false
	case specStop:
		return "vmbug", "stray specStop", false
	}
	return "vmbug", fmt.Sprint(r) + " at " + vm.where() + "\n" + string(debug.Stack()), false
}

func (vm *VM) panicText(rec *panicRec) string {
	if rec == nil {
		return "?"
	}
	if i, ok := rec.val.p.(*Iface); ok {
		if s, ok := i.v.p.(string); ok && i.t.kind == kString {
			return s
		}
		return "panic value of type " + i.t.t.String()
	}
	return "panic"
}

// ---- the interpreter loop ----

func (vm *VM) loop(base int) {
	for {
		f := vm.top()
		code := f.fn.blocks[f.blk].ins
	frameLoop:
		for {
			in := &code[f.pc]
			if vm.nested == 0 {
				vm.imark = len(vm.undo)
				vm.idepth = len(vm.stack)
			}
			if vm.spec != nil {
				vm.spec.steps++
				if vm.spec.steps > specLimit {
					panic(specStop{})
				}
			} else {
				vm.path.steps++
				if vm.path.steps > vm.limit {
					panic(pathKill{"steplimit"})
				}
			}
			switch in.op {
			case iMove:
				f.regs[in.dst] = vm.get(f, in.a)
			case iAlloc:
				c := new(Value)
				if in.flag {
					*c = clone(in.zero)
				}
				f.regs[in.dst] = Value{p: c}
			case iLoad:
				f.regs[in.dst] = vm.load(vm.get(f, in.a), in)
			case iStore:
				vm.storeTo(vm.get(f, in.a), vm.get(f, in.b))
			case iBin:
				a, b := vm.get(f, in.a), vm.get(f, in.b)
				if in.t.kind == kInt && a.p == nil && b.p == nil {
					f.regs[in.dst] = Value{n: vm.intBin(in, a.n, b.n)}
				} else {
					f.regs[in.dst] = vm.bin(in, a, b)
				}
			case iEq:
				a, b := vm.get(f, in.a), vm.get(f, in.b)
				var r Value
				if in.t.kind == kInt && a.p == nil && b.p == nil {
					r = boolVal(a.n == b.n)
				} else {
					r = vm.eq(a, b, in.t)
				}
				if in.tok == token.NEQ {
					r = vm.notV(r)
				}
				f.regs[in.dst] = r
			case iNot:
				f.regs[in.dst] = vm.notV(vm.get(f, in.a))
			case iNeg:
				a := vm.get(f, in.a)
				switch {
				case in.t.kind == kFloat:
					f.regs[in.dst] = f64Val(-a.f64())
				case a.p != nil:
					f.regs[in.dst] = termVal(vm.tc.mk(OpSub, in.w, vm.tc.konst(in.w, 0), a.p.(*Term), nil))
				default:
					f.regs[in.dst] = Value{n: -a.n & mask(in.w)}
				}
			case iCompl:
				a := vm.get(f, in.a)
				if a.p != nil {
					f.regs[in.dst] = termVal(vm.tc.mk(OpXor, in.w, a.p.(*Term), vm.tc.konst(in.w, ^uint64(0)), nil))
				} else {
					f.regs[in.dst] = Value{n: ^a.n & mask(in.w)}
				}
			case iJump:
				e := f.fn.blocks[f.blk].succ[0]
				vm.jump(f, e)
				if vm.spec != nil && vm.nested == 0 {
					if vm.specBlock(f) {
						return
					}
				}
				code = f.fn.blocks[f.blk].ins
				continue frameLoop
			case iIf:
				c := vm.get(f, in.a)
				taken := c.n != 0
				if t, ok := c.p.(*Term); ok {
					canT, canF := vm.pc.status(t)
					switch {
					case !canF:
						taken = true
					case !canT:
						taken = false
					default:
						if vm.nested == 0 && vm.spec == nil && t.op == OpTbl && !vm.noSpec {
							if r := vm.trySpec(f, t, base); r != specNo {
								if r == specReturned && len(vm.stack) == base {
									return
								}
								break frameLoop
							}
						}
						panic(forkReq{alts: []*Term{t, vm.tc.not(t)}})
					}
				}
				e := f.fn.blocks[f.blk].succ[0]
				if !taken {
					e = f.fn.blocks[f.blk].succ[1]
				}
				vm.jump(f, e)
				if vm.spec != nil && vm.nested == 0 {
					if vm.specBlock(f) {
						return
					}
				}
				code = f.fn.blocks[f.blk].ins
				continue frameLoop
			case iReturn:
				var res Value
				switch len(in.args) {
				case 0:
				case 1:
					res = vm.get(f, in.args[0])
				default:
					s := &Struct{f: make([]Value, len(in.args))}
					for i, a := range in.args {
						s.f[i] = vm.get(f, a)
					}
					res = Value{p: s}
				}
				if vm.spec != nil && vm.nested == 0 && len(vm.stack)-1 == vm.spec.base {
					vm.spec.returned(res)
					return
				}
				vm.doReturn(res, base)
				if len(vm.stack) == base {
					return
				}
				break frameLoop
			case iCall:
				if vm.call(f, in, in.fn, nil) {
					break frameLoop
				}
			case iCallVal:
				c := vm.get(f, in.a)
				if c.p == nil {
					vm.rtPanic("invalid memory address or nil pointer dereference (nil func)")
				}
				cl := c.p.(*Closure)
				if cl.native != nil {
					args := make([]Value, len(in.args))
					for i, a := range in.args {
						args[i] = vm.get(f, a)
					}
					r := cl.native(vm, args)
					if in.dst >= 0 {
						f.regs[in.dst] = r
					}
					break
				}
				if vm.call(f, in, cl.fn, cl.bind) {
					break frameLoop
				}
			case iInvoke:
				recv := vm.get(f, in.a)
				if recv.p == nil {
					vm.rtPanic("invalid memory address or nil pointer dereference (nil interface)")
				}
				ifc := recv.p.(*Iface)
				fn := vm.method(ifc.t, in.aux.(*types.Func))
				args := make([]Value, len(in.args)+1)
				args[0] = ifc.v
				for i, a := range in.args {
					args[i+1] = vm.get(f, a)
				}
				if fn.native != nil {
					r := vm.callNative(fn, args)
					if in.dst >= 0 {
						f.regs[in.dst] = r
					}
					break
				}
				vm.push(fn, args, nil, retNormal)
				break frameLoop
			case iBuiltin:
				var abuf [4]Value
				args := abuf[:0]
				for _, a := range in.args {
					args = append(args, vm.get(f, a))
				}
				r := vm.builtin(in, args)
				if in.dst >= 0 {
					f.regs[in.dst] = r
				}
			case iExtract:
				f.regs[in.dst] = vm.get(f, in.a).p.(*Struct).f[in.n]
			case iField:
				f.regs[in.dst] = vm.get(f, in.a).p.(*Struct).f[in.n]
			case iFieldAddr:
				a := vm.get(f, in.a)
				switch p := a.p.(type) {
				case *Value:
					f.regs[in.dst] = Value{p: &p.p.(*Struct).f[in.n]}
				case nil:
					vm.rtPanic("invalid memory address or nil pointer dereference")
				case *SymPtr:
					c := vm.ptrCell(a)
					f.regs[in.dst] = Value{p: &c.p.(*Struct).f[in.n]}
				default:
					panic(unsupported{fmt.Sprintf("FieldAddr of %T", a.p)})
				}
			case iIndexAddr:
				f.regs[in.dst] = vm.indexAddr(in, vm.get(f, in.a), vm.get(f, in.b))
			case iIndex:
				f.regs[in.dst] = vm.index(in, vm.get(f, in.a), vm.get(f, in.b))
			case iSlice:
				f.regs[in.dst] = vm.slice(f, in)
			case iConvInt:
				a := vm.get(f, in.a)
				if a.p != nil {
					f.regs[in.dst] = termVal(vm.convTerm(a.p.(*Term), in.w, in.sgn, in.w2))
				} else {
					n := a.n
					if in.w2 > in.w && in.sgn {
						n = uint64(sext64(n, in.w))
					}
					f.regs[in.dst] = Value{n: n & mask(in.w2)}
				}
			case iConvert:
				f.regs[in.dst] = vm.convert(in, vm.get(f, in.a))
			case iMakeIface:
				f.regs[in.dst] = Value{p: &Iface{t: in.t, v: vm.get(f, in.a)}}
			case iTypeAssert:
				f.regs[in.dst] = vm.typeAssert(in, vm.get(f, in.a))
			case iMakeClosure:
				bind := make([]Value, len(in.args))
				for i, a := range in.args {
					bind[i] = vm.get(f, a)
				}
				f.regs[in.dst] = Value{p: &Closure{fn: in.fn, bind: bind}}
			case iMakeMap:
				f.regs[in.dst] = Value{p: &Map{idx: map[any]int{}, kt: in.t}}
			case iMakeSlice:
				n := int(sext64(vm.conc(vm.get(f, in.a)), in.w))
				c := int(sext64(vm.conc(vm.get(f, in.b)), in.w2))
				if n < 0 || n > c || c > 1<<26 {
					vm.rtPanic("makeslice: len out of range")
				}
				s := make([]Value, n, c)
				if in.flag {
					s = s[:c]
					for i := range s {
						s[i] = clone(in.zero)
					}
					s = s[:n]
				}
				f.regs[in.dst] = Value{p: s}
			case iLookup:
				f.regs[in.dst] = vm.lookup(in, vm.get(f, in.a), vm.get(f, in.b))
			case iMapUpdate:
				vm.mapUpdate(vm.get(f, in.a), vm.get(f, in.b), vm.get(f, in.c), in.t)
			case iRange:
				f.regs[in.dst] = vm.rangeOver(in, vm.get(f, in.a))
			case iNext:
				f.regs[in.dst] = vm.next(in, vm.get(f, in.a))
			case iDefer:
				vm.impure()
				vm.deferCall(f, in)
			case iRunDefers:
				if d := f.defers; d != nil {
					vm.impure()
					f.defers = d.next
					if vm.startDeferred(d, retDefer) {
						break frameLoop
					}
					continue frameLoop
				}
			case iPanic:
				v := vm.get(f, in.a)
				vm.goPanic(&panicRec{val: v}, base)
				break frameLoop
			case iSliceToArr:
				s := sliceOf(vm.get(f, in.a))
				if len(s) < in.n {
					vm.rtPanic("cannot convert slice to array pointer")
				}
				f.regs[in.dst] = Value{p: &Value{p: &Struct{f: s[:in.n:in.n]}}}
			case iGo:
				panic(unsupported{"go statement"})
			case iUnsup:
				panic(unsupported{fmt.Sprint(in.aux)})
			case iNop:
			default:
				panic(vmBug{fmt.Sprintf("op %d", in.op)})
			}
			f.pc++
		}
	}
}

// call handles a static call; true if a frame was pushed.
func (vm *VM) call(f *Frame, in *Instr, fn *Fn, bind []Value) bool {
	if fn.native != nil {
		var abuf [6]Value
		args := abuf[:0]
		for _, a := range in.args {
			args = append(args, vm.get(f, a))
		}
		r := vm.callNative(fn, args)
		if in.dst >= 0 {
			f.regs[in.dst] = r
		}
		return false
	}
	if len(vm.stack) > maxDepth {
		panic(pathKill{"stack overflow"})
	}
	if fn.ssa.Blocks == nil {
		panic(unsupported{"no body: " + fn.name})
	}
	nf := vm.newFrame(fn)
	for i, a := range in.args {
		nf.regs[i] = vm.get(f, a)
	}
	copy(nf.regs[fn.nparams:], bind)
	vm.stack = append(vm.stack, nf)
	return true
}

func (vm *VM) deferCall(f *Frame, in *Instr) {
	sub := in.aux.(*Instr)
	d := &deferRec{in: sub, next: f.defers}
	for _, a := range sub.args {
		d.args = append(d.args, vm.get(f, a))
	}
	switch sub.op {
	case iBuiltin:
	case iCall:
		d.fn = &Closure{fn: sub.fn}
	case iCallVal:
		c := vm.get(f, sub.a)
		d.fn, _ = c.p.(*Closure)
		if d.fn == nil {
			vm.rtPanic("nil func in defer")
		}
	case iInvoke:
		recv := vm.get(f, sub.a)
		if recv.p == nil {
			vm.rtPanic("nil interface in defer")
		}
		ifc := recv.p.(*Iface)
		d.fn = &Closure{fn: vm.method(ifc.t, sub.aux.(*types.Func))}
		d.args = append([]Value{ifc.v}, d.args...)
	}
	f.defers = d
}

func (vm *VM) method(t *RType, m *types.Func) *Fn {
	key := m.Name()
	if !m.Exported() && m.Pkg() != nil {
		key = m.Pkg().Path() + "." + key
	}
	t.mu.Lock()
	fn, ok := t.methods[key]
	t.mu.Unlock()
	if ok {
		return fn
	}
	sel := theProg.MethodSets.MethodSet(t.t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		panic(unsupported{"method " + m.Name() + " of " + t.t.String()})
	}
	progMu.Lock()
	sf := theProg.MethodValue(sel)
	progMu.Unlock()
	if sf == nil {
		panic(unsupported{"abstract method " + m.Name()})
	}
	fn = fnOf(sf)
	t.mu.Lock()
	t.methods[key] = fn
	t.mu.Unlock()
	return fn
}

// ---- memory access ----

// ptrCell resolves a pointer to a concrete memory cell.
func (vm *VM) ptrCell(v Value) *Value {
	switch p := v.p.(type) {
	case *Value:
		return p
	case *SymPtr:
		return &p.a[vm.concretize(p.idx)]
	case *ElemPtr:
		if len(p.a) == 0 {
			if cap(p.a) > 0 {
				return &p.a[:1][0]
			}
			panic(unsupported{"deref of empty data pointer"})
		}
		return &p.a[0]
	case nil:
		vm.rtPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported{fmt.Sprintf("deref of %T", v.p)})
}

func allScalar(a []Value) bool {
	for i := range a {
		if a[i].p != nil {
			if _, ok := a[i].p.(*Term); !ok {
				return false
			}
		}
	}
	return true
}

func (vm *VM) load(v Value, in *Instr) Value {
	switch p := v.p.(type) {
	case *Value:
		if vm.race != nil {
			vm.race.access(vm, p, false)
		}
		if in.flag {
			return clone(*p)
		}
		return *p
	case *SymPtr:
		if vm.race != nil {
			vm.race.reads(vm, p.a)
		}
		return vm.selectElem(p.a, p.idx, elemWidth(in.t.t))
	}
	c := vm.ptrCell(v)
	if vm.race != nil {
		vm.race.access(vm, c, false)
	}
	return clone(*c)
}

func elemWidth(ptr types.Type) uint8 {
	if p, ok := ptr.Underlying().(*types.Pointer); ok {
		k, w, _ := kindOf(p.Elem())
		if k == kInt || k == kBool {
			return w
		}
	}
	return 0
}

// selectElem reads a[idx] for a symbolic index that is known to be in range.
func (vm *VM) selectElem(a []Value, idx *Term, w uint8) Value {
	if idx.op == OpTbl {
		dom := vm.pc.doms[idx.v]
		conc := w > 0
		if conc {
			for i := 0; i < 256; i++ {
				if dom.has(i) {
					k := idx.at(i)
					if k >= uint64(len(a)) || a[k].p != nil {
						conc = false
						break
					}
				}
			}
		}
		if conc {
			var tbl [256]uint64
			var set Bits256
			first := a[idx.at(dom.first())].n
			same := true
			for i := 0; i < 256; i++ {
				tbl[i] = first
				if dom.has(i) {
					tbl[i] = a[idx.at(i)].n
				}
				if tbl[i] != first {
					same = false
				}
				if tbl[i] != 0 {
					set.set(i)
				}
			}
			if same {
				return Value{n: first}
			}
			if w == 1 {
				return termVal(vm.tc.mkSet(idx.v, set))
			}
			return Value{p: newTbl(idx.v, w, &tbl)}
		}
		// group by identical element
		var reps []Value
		var sets []Bits256
		for i := 0; i < 256; i++ {
			if !dom.has(i) {
				continue
			}
			k := idx.at(i)
			if k >= uint64(len(a)) {
				continue
			}
			e := a[k]
			found := false
			for g := range reps {
				if identical(reps[g], e) {
					sets[g].set(i)
					found = true
					break
				}
			}
			if !found {
				reps = append(reps, e)
				var s Bits256
				s.set(i)
				sets = append(sets, s)
			}
		}
		if len(reps) == 1 {
			return clone(reps[0])
		}
		vm.forkSets(idx.v, sets)
	}
	if w > 0 && len(a) <= 32 && allScalar(a) {
		t := vm.term(a[0], w)
		for i := 1; i < len(a); i++ {
			t = vm.tc.mk(OpIte, w, vm.tc.mk(OpEq, 1, idx, vm.tc.konst(idx.w, uint64(i)), nil), vm.term(a[i], w), t)
		}
		return termVal(t)
	}
	if w > 0 && len(a) <= 4096 {
		if v, ok := vm.selectRuns(a, idx, w); ok {
			return v
		}
	}
	return clone(a[vm.concretize(idx)])
}

// selectRuns reads an element of a table with few runs of equal values.
func (vm *VM) selectRuns(a []Value, idx *Term, w uint8) (Value, bool) {
	lo, hi := vm.pc.interval(idx, 0)
	if hi >= uint64(len(a)) {
		hi = uint64(len(a)) - 1
	}
	type run struct{ lo, hi, v uint64 }
	var runs []run
	cnt := map[uint64]int{}
	for i := lo; i <= hi; i++ {
		if a[i].p != nil {
			return Value{}, false
		}
		if n := len(runs); n > 0 && runs[n-1].v == a[i].n {
			runs[n-1].hi = i
		} else {
			runs = append(runs, run{i, i, a[i].n})
			cnt[a[i].n]++
			if len(runs) > 60 {
				return Value{}, false
			}
		}
	}
	def, best := uint64(0), -1
	for _, r := range runs {
		if cnt[r.v] > best {
			def, best = r.v, cnt[r.v]
		}
	}
	acc := vm.tc.konst(w, def)
	for _, r := range runs {
		if r.v != def {
			acc = vm.tc.mk(OpIte, w, vm.rangeTerm(idx, r.lo, r.hi), vm.tc.konst(w, r.v), acc)
		}
	}
	return termVal(acc), true
}

func (vm *VM) storeTo(p, v Value) {
	c, ok := p.p.(*Value)
	if !ok {
		c = vm.ptrCell(p)
	}
	if vm.race != nil {
		vm.race.access(vm, c, true)
	}
	vm.store(c, v)
}

// boundIdx normalises an index value to a 64 bit signed one.
func (vm *VM) idx64(in *Instr, i Value) Value {
	if t, ok := i.p.(*Term); ok {
		if t.w == 64 {
			return i
		}
		return termVal(vm.convTerm(t, in.w2, in.sgn2, 64))
	}
	if in.w2 < 64 && in.sgn2 {
		return Value{n: uint64(sext64(i.n, in.w2))}
	}
	return i
}

func (vm *VM) checkIdx(i Value, n int) {
	if t, ok := i.p.(*Term); ok {
		if !vm.decide(vm.tc.mk(OpUlt, 1, t, vm.tc.konst(64, uint64(n)), nil)) {
			vm.rtPanic(fmt.Sprintf("index out of range with length %d", n))
		}
		return
	}
	if i.n >= uint64(n) {
		vm.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.n), n))
	}
}

func (vm *VM) indexAddr(in *Instr, a, i Value) Value {
	var s []Value
	switch p := a.p.(type) {
	case []Value:
		s = p
	case nil:
		if in.t.kind == kPtr {
			vm.rtPanic("invalid memory address or nil pointer dereference")
		}
	case *Value:
		s = p.p.(*Struct).f
	default:
		if in.t.kind == kPtr {
			s = vm.ptrCell(a).p.(*Struct).f
			break
		}
		panic(unsupported{fmt.Sprintf("IndexAddr of %T", a.p)})
	}
	if i.p == nil && in.w2 == 64 {
		if i.n >= uint64(len(s)) {
			vm.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.n), len(s)))
		}
		return Value{p: &s[i.n]}
	}
	i = vm.idx64(in, i)
	vm.checkIdx(i, len(s))
	if t, ok := i.p.(*Term); ok {
		return Value{p: &SymPtr{a: s, idx: t}}
	}
	return Value{p: &s[i.n]}
}

func (vm *VM) index(in *Instr, a, i Value) Value {
	i = vm.idx64(in, i)
	if in.t.kind == kString {
		a = vm.str(a)
		n := strLen(a)
		vm.checkIdx(i, n)
		if t, ok := i.p.(*Term); ok {
			return vm.selectElem(strBytes(a), t, 8)
		}
		return strAt(a, int(i.n))
	}
	s := a.p.(*Struct)
	vm.checkIdx(i, len(s.f))
	if t, ok := i.p.(*Term); ok {
		return vm.selectElem(s.f, t, in.w)
	}
	return s.f[i.n]
}

func (vm *VM) slice(f *Frame, in *Instr) Value {
	x := vm.get(f, in.a)
	opt := func(r int32, def int) int {
		if r == noOp {
			return def
		}
		return vm.concInt(vm.get(f, r))
	}
	if in.t.kind == kString {
		x = vm.str(x)
		n := strLen(x)
		lo := opt(in.b, 0)
		hi := opt(in.c, n)
		if lo < 0 || hi < lo || hi > n {
			vm.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return subStr(x, lo, hi)
	}
	var s []Value
	isNil := false
	switch p := x.p.(type) {
	case nil:
		if in.t.kind == kPtr {
			vm.rtPanic("invalid memory address or nil pointer dereference")
		}
		isNil = true
	case []Value:
		s = p
	default:
		c := vm.ptrCell(x)
		s = c.p.(*Struct).f
	}
	lo := opt(in.b, 0)
	hi := opt(in.c, len(s))
	mx := opt(in.d, cap(s))
	if lo < 0 || hi < lo || mx < hi || mx > cap(s) {
		vm.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(s)))
	}
	if isNil {
		return Value{}
	}
	return Value{p: s[lo:hi:mx]}
}

func subStr(x Value, lo, hi int) Value {
	if lo == hi {
		return Value{}
	}
	switch s := x.p.(type) {
	case string:
		return strVal(s[lo:hi])
	case *SymStr:
		return bytesStr(s.b[lo:hi])
	}
	return Value{}
}

// ---- operators ----

func (vm *VM) notV(v Value) Value {
	if t, ok := v.p.(*Term); ok {
		return termVal(vm.tc.not(t))
	}
	return Value{n: v.n ^ 1}
}

func (vm *VM) intBin(in *Instr, a, b uint64) uint64 {
	w := in.w
	m := mask(w)
	switch in.tok {
	case token.ADD:
		return (a + b) & m
	case token.SUB:
		return (a - b) & m
	case token.MUL:
		return (a * b) & m
	case token.QUO:
		if b == 0 {
			vm.rtPanic("integer divide by zero")
		}
		if in.sgn {
			x, y := sext64(a, w), sext64(b, w)
			if y == -1 {
				return uint64(-x) & m
			}
			return uint64(x/y) & m
		}
		return a / b
	case token.REM:
		if b == 0 {
			vm.rtPanic("integer divide by zero")
		}
		if in.sgn {
			x, y := sext64(a, w), sext64(b, w)
			if y == -1 {
				return 0
			}
			return uint64(x%y) & m
		}
		return a % b
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return a ^ b
	case token.AND_NOT:
		return a &^ b
	case token.SHL:
		if in.sgn2 && sext64(b, in.w2) < 0 {
			vm.rtPanic("negative shift amount")
		}
		if b >= 64 {
			return 0
		}
		return a << b & m
	case token.SHR:
		if in.sgn2 && sext64(b, in.w2) < 0 {
			vm.rtPanic("negative shift amount")
		}
		if in.sgn {
			x := sext64(a, w)
			if b > 63 {
				b = 63
			}
			return uint64(x>>b) & m
		}
		if b >= 64 {
			return 0
		}
		return a >> b
	}
	var r bool
	if in.sgn {
		x, y := sext64(a, w), sext64(b, w)
		switch in.tok {
		case token.LSS:
			r = x < y
		case token.LEQ:
			r = x <= y
		case token.GTR:
			r = x > y
		case token.GEQ:
			r = x >= y
		default:
			panic(unsupported{"int op " + in.tok.String()})
		}
	} else {
		switch in.tok {
		case token.LSS:
			r = a < b
		case token.LEQ:
			r = a <= b
		case token.GTR:
			r = a > b
		case token.GEQ:
			r = a >= b
		default:
			panic(unsupported{"int op " + in.tok.String()})
		}
	}
	if r {
		return 1
	}
	return 0
}

func (vm *VM) bin(in *Instr, a, b Value) Value {
	switch in.t.kind {
	case kInt:
		return vm.symBin(in, a, b)
	case kString:
		a, b = vm.str(a), vm.str(b)
		switch in.tok {
		case token.ADD:
			return concat(a, b)
		case token.LSS:
			return boolVal(vm.strCmp(a, b) < 0)
		case token.LEQ:
			return boolVal(vm.strCmp(a, b) <= 0)
		case token.GTR:
			return boolVal(vm.strCmp(a, b) > 0)
		case token.GEQ:
			return boolVal(vm.strCmp(a, b) >= 0)
		}
	case kFloat:
		x, y := a.f64(), b.f64()
		rnd := func(f float64) Value {
			if in.w == 32 {
				f = float64(float32(f))
			}
			return f64Val(f)
		}
		switch in.tok {
		case token.ADD:
			return rnd(x + y)
		case token.SUB:
			return rnd(x - y)
		case token.MUL:
			return rnd(x * y)
		case token.QUO:
			return rnd(x / y)
		case token.LSS:
			return boolVal(x < y)
		case token.LEQ:
			return boolVal(x <= y)
		case token.GTR:
			return boolVal(x > y)
		case token.GEQ:
			return boolVal(x >= y)
		}
	case kBool:
		x, y := vm.term(a, 1), vm.term(b, 1)
		switch in.tok {
		case token.AND, token.LAND:
			return termVal(vm.tc.and(x, y))
		case token.OR, token.LOR:
			return termVal(vm.tc.or(x, y))
		}
	}
	panic(unsupported{fmt.Sprintf("binop %s on %s", in.tok, in.t.t)})
}

func (vm *VM) symBin(in *Instr, a, b Value) Value {
	tc := vm.tc
	w := in.w
	switch in.tok {
	case token.SHL, token.SHR:
		if b.p != nil {
			if a.p == nil || b.p.(*Term).op != OpTbl {
				// keep tables as tables, otherwise make the count concrete
			}
			bt := b.p.(*Term)
			if at, ok := a.p.(*Term); (ok && (at.op != OpTbl || at.v != bt.v)) || bt.op != OpTbl {
				b = Value{n: vm.concretize(bt)}
				return vm.symBin(in, a, b)
			}
		}
		x := vm.term(a, w)
		var y *Term
		if b.p != nil {
			// saturate the count into the width of x
			bt := b.p.(*Term)
			lim := tc.konst(bt.w, uint64(w))
			big := tc.not(tc.mk(OpUlt, 1, bt, lim, nil))
			var cnt *Term
			if bt.w == w {
				cnt = bt
			} else if bt.w > w {
				cnt = tc.mk(OpTrunc, w, bt, nil, nil)
			} else {
				cnt = tc.mk(OpZext, w, bt, nil, nil)
			}
			over := tc.konst(w, 0)
			op := OpShl
			if in.tok == token.SHR {
				op = OpLshr
				if in.sgn {
					op = OpAshr
					over = tc.mk(OpAshr, w, x, tc.konst(w, uint64(w-1)), nil)
				}
			}
			return termVal(tc.mk(OpIte, w, big, over, tc.mk(op, w, x, cnt, nil)))
		}
		n := b.n
		if in.sgn2 && sext64(b.n, in.w2) < 0 {
			vm.rtPanic("negative shift amount")
		}
		if in.tok == token.SHL {
			if n >= uint64(w) {
				return Value{}
			}
			y = tc.konst(w, n)
			return termVal(tc.mk(OpShl, w, x, y, nil))
		}
		if in.sgn {
			if n >= uint64(w) {
				n = uint64(w - 1)
			}
			return termVal(tc.mk(OpAshr, w, x, tc.konst(w, n), nil))
		}
		if n >= uint64(w) {
			return Value{}
		}
		return termVal(tc.mk(OpLshr, w, x, tc.konst(w, n), nil))
	}
	x, y := vm.term(a, w), vm.term(b, w)
	var op Op
	switch in.tok {
	case token.ADD:
		op = OpAdd
	case token.SUB:
		op = OpSub
	case token.MUL:
		op = OpMul
	case token.QUO, token.REM:
		z := tc.mk(OpEq, 1, y, tc.konst(w, 0), nil)
		if vm.decide(z) {
			vm.rtPanic("integer divide by zero")
		}
		switch {
		case in.tok == token.QUO && in.sgn:
			op = OpSDiv
		case in.tok == token.QUO:
			op = OpUDiv
		case in.sgn:
			op = OpSRem
		default:
			op = OpURem
		}
	case token.AND:
		op = OpAnd
	case token.OR:
		op = OpOr
	case token.XOR:
		op = OpXor
	case token.AND_NOT:
		return termVal(tc.mk(OpAnd, w, x, tc.mk(OpXor, w, y, tc.konst(w, ^uint64(0)), nil), nil))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		lt := OpUlt
		if in.sgn {
			lt = OpSlt
		}
		switch in.tok {
		case token.LSS:
			return termVal(tc.mk(lt, 1, x, y, nil))
		case token.GTR:
			return termVal(tc.mk(lt, 1, y, x, nil))
		case token.LEQ:
			return termVal(tc.not(tc.mk(lt, 1, y, x, nil)))
		default:
			return termVal(tc.not(tc.mk(lt, 1, x, y, nil)))
		}
	default:
		panic(unsupported{"int op " + in.tok.String()})
	}
	return termVal(tc.mk(op, w, x, y, nil))
}

func (vm *VM) convTerm(t *Term, w uint8, sgn bool, w2 uint8) *Term {
	switch {
	case w2 == t.w:
		return t
	case w2 < t.w:
		return vm.tc.mk(OpTrunc, w2, t, nil, nil)
	case sgn:
		return vm.tc.mk(OpSext, w2, t, nil, nil)
	}
	return vm.tc.mk(OpZext, w2, t, nil, nil)
}

func concat(a, b Value) Value {
	if a.p == nil {
		return b
	}
	if b.p == nil {
		return a
	}
	x, ok1 := a.p.(string)
	y, ok2 := b.p.(string)
	if ok1 && ok2 {
		return strVal(x + y)
	}
	ab, bb := strBytes(a), strBytes(b)
	out := make([]Value, 0, len(ab)+len(bb))
	out = append(append(out, ab...), bb...)
	return Value{p: &SymStr{b: out}}
}

// strCmp compares byte by byte, forking where needed.
func (vm *VM) strCmp(a, b Value) int {
	if x, ok := a.p.(string); ok {
		if y, ok := b.p.(string); ok {
			return strings.Compare(x, y)
		}
	}
	x, y := strBytes(a), strBytes(b)
	return vm.bytesCmp(x, y)
}

func (vm *VM) bytesCmp(x, y []Value) int {
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i].p == nil && y[i].p == nil {
			if x[i].n != y[i].n {
				if x[i].n < y[i].n {
					return -1
				}
				return 1
			}
			continue
		}
		a, b := vm.term(x[i], 8), vm.term(y[i], 8)
		if !vm.decide(vm.tc.mk(OpEq, 1, a, b, nil)) {
			if vm.decide(vm.tc.mk(OpUlt, 1, a, b, nil)) {
				return -1
			}
			return 1
		}
	}
	switch {
	case len(x) < len(y):
		return -1
	case len(x) > len(y):
		return 1
	}
	return 0
}

func (vm *VM) byteEq(a, b Value) bool {
	if a.p == nil && b.p == nil {
		return a.n == b.n
	}
	return vm.decide(vm.tc.mk(OpEq, 1, vm.term(a, 8), vm.term(b, 8), nil))
}

func (vm *VM) bytesEq(x, y []Value) bool {
	if len(x) != len(y) {
		return false
	}
	// concrete differences first: no need to fork
	for i := range x {
		if x[i].p == nil && y[i].p == nil && x[i].n != y[i].n {
			return false
		}
	}
	for i := range x {
		if !vm.byteEq(x[i], y[i]) {
			return false
		}
	}
	return true
}

func (vm *VM) strEq(a, b Value) Value {
	if ca, ok := a.p.(*ChoiceStr); ok {
		if _, ok := b.p.(*ChoiceStr); !ok {
			return vm.choiceEq(ca, b)
		}
	}
	if cb, ok := b.p.(*ChoiceStr); ok {
		if _, ok := a.p.(*ChoiceStr); !ok {
			return vm.choiceEq(cb, a)
		}
	}
	a, b = vm.str(a), vm.str(b)
	if strLen(a) != strLen(b) {
		return Value{}
	}
	if x, ok := a.p.(string); ok {
		if y, ok := b.p.(string); ok {
			return boolVal(x == y)
		}
	}
	if strLen(a) == 1 {
		return termVal(vm.tc.mk(OpEq, 1, vm.term(strAt(a, 0), 8), vm.term(strAt(b, 0), 8), nil))
	}
	return boolVal(vm.bytesEq(strBytes(a), strBytes(b)))
}

func (vm *VM) choiceEq(c *ChoiceStr, b Value) Value {
	s, conc := b.p.(string)
	if b.p == nil {
		conc = true
	}
	if !conc {
		return vm.strEq(vm.str(Value{p: c}), b)
	}
	var set Bits256
	for i := 0; i < 256; i++ {
		if k := c.idx.at(i); k < uint64(len(c.strs)) && c.strs[k] == s {
			set.set(i)
		}
	}
	if c.idx.op == OpConst {
		return boolVal(!set.empty())
	}
	return termVal(vm.tc.mkSet(c.idx.v, set))
}

func (vm *VM) eq(a, b Value, t *RType) Value {
	switch t.kind {
	case kInt, kBool:
		return termVal(vm.tc.mk(OpEq, 1, vm.term(a, t.w), vm.term(b, t.w), nil))
	case kFloat:
		return boolVal(a.f64() == b.f64())
	case kString:
		return vm.strEq(a, b)
	case kPtr, kChan, kUnsafe, kMap, kFunc:
		return boolVal(ptrEq(a, b))
	case kSlice:
		// comparison with nil only
		return boolVal((a.p == nil) == (b.p == nil))
	case kIface:
		x, _ := a.p.(*Iface)
		y, _ := b.p.(*Iface)
		if x == nil || y == nil {
			return boolVal(x == nil && y == nil)
		}
		if x.t != y.t {
			return boolVal(false)
		}
		return vm.eq(x.v, y.v, x.t)
	case kStruct, kArray:
		x, y := a.p.(*Struct), b.p.(*Struct)
		r := boolVal(true)
		for i := range x.f {
			var ft *RType
			if st, ok := t.t.Underlying().(*types.Struct); ok {
				ft = rtypeOf(st.Field(i).Type())
			} else {
				ft = rtypeOf(t.t.Underlying().(*types.Array).Elem())
			}
			e := vm.eq(x.f[i], y.f[i], ft)
			r = termVal(vm.tc.and(vm.term(r, 1), vm.term(e, 1)))
			if r.p == nil && r.n == 0 {
				return r
			}
		}
		return r
	}
	panic(unsupported{"== on " + t.t.String()})
}

func ptrEq(a, b Value) bool {
	switch x := a.p.(type) {
	case nil:
		return b.p == nil && a.n == b.n
	case *Value, *Map, *Closure:
		return a.p == b.p
	case *SymPtr:
		panic(unsupported{"comparison of symbolic pointers"})
	case *ElemPtr:
		y, ok := b.p.(*ElemPtr)
		return ok && cap(x.a) > 0 && cap(y.a) > 0 && &x.a[:1][0] == &y.a[:1][0]
	}
	return a.p == b.p
}

// ---- conversions ----

func (vm *VM) convert(in *Instr, a Value) Value {
	from, to := in.t, in.t2
	switch {
	case to.kind == kString:
		switch from.kind {
		case kInt:
			if a.p != nil {
				return bytesStr(vm.encodeRune(a.p.(*Term), from))
			}
			return strVal(string(rune(sext64(a.n, from.w))))
		case kSlice:
			s := sliceOf(a)
			if vm.race != nil {
				vm.race.reads(vm, s)
			}
			et := rtypeOf(from.t.Underlying().(*types.Slice).Elem())
			if et.w == 8 {
				return bytesStr(s)
			}
			var out []Value
			for i := range s {
				if s[i].p != nil {
					out = append(out, vm.encodeRune(s[i].p.(*Term), et)...)
				} else {
					for _, c := range []byte(string(rune(sext64(s[i].n, 32)))) {
						out = append(out, Value{n: uint64(c)})
					}
				}
			}
			return bytesStr(out)
		case kString:
			return a
		}
	case from.kind == kString && to.kind == kSlice:
		a = vm.str(a)
		et := rtypeOf(to.t.Underlying().(*types.Slice).Elem())
		if et.w == 8 {
			b := strBytes(a)
			n := len(b)
			out := make([]Value, n, roundup(n))
			copy(out, b)
			return Value{p: out}
		}
		b := strBytes(a)
		var out []Value
		for i := 0; i < len(b); {
			r, sz := vm.decodeRune(b[i:])
			out = append(out, r)
			i += sz
		}
		if out == nil {
			out = []Value{}
		}
		return Value{p: out}
	case from.kind == kInt && to.kind == kFloat:
		n := vm.conc(a)
		var f float64
		if from.sgn {
			f = float64(sext64(n, from.w))
		} else {
			f = float64(n)
		}
		if to.w == 32 {
			f = float64(float32(f))
		}
		return f64Val(f)
	case from.kind == kFloat && to.kind == kInt:
		f := a.f64()
		if to.sgn {
			return Value{n: uint64(int64(f)) & mask(to.w)}
		}
		if f >= 1<<63 {
			return Value{n: uint64(f) & mask(to.w)}
		}
		return Value{n: uint64(int64(f)) & mask(to.w)}
	case from.kind == kFloat && to.kind == kFloat:
		if to.w == 32 {
			return f64Val(float64(float32(a.f64())))
		}
		return a
	case from.kind == kUnsafe || to.kind == kUnsafe:
		if from.kind == kInt || to.kind == kInt {
			if a.p == nil {
				return a
			}
			panic(unsupported{"unsafe.Pointer arithmetic"})
		}
		return a
	case from.kind == to.kind:
		return a
	}
	panic(unsupported{"conversion " + from.t.String() + " to " + to.t.String()})
}

func (vm *VM) typeAssert(in *Instr, a Value) Value {
	ifc, _ := a.p.(*Iface)
	ok := false
	var v Value
	if ifc != nil {
		if in.t.kind == kIface {
			ok = implements(ifc.t, in.t)
			v = a
		} else {
			ok = ifc.t == in.t
			v = ifc.v
		}
	}
	if in.flag {
		if !ok {
			v = in.zero
		}
		return tuple(v, boolVal(ok))
	}
	if !ok {
		what := "nil"
		if ifc != nil {
			what = ifc.t.t.String()
		}
		vm.rtPanic("interface conversion: " + what + " is not " + in.t.t.String())
	}
	return v
}

func implements(t, iface *RType) bool {
	t.mu.Lock()
	r, ok := t.impl[iface]
	t.mu.Unlock()
	if ok {
		return r
	}
	r = types.Implements(t.t, iface.t.Underlying().(*types.Interface))
	t.mu.Lock()
	t.impl[iface] = r
	t.mu.Unlock()
	return r
}

// ---- maps ----

func (vm *VM) lookup(in *Instr, m, k Value) Value {
	res := func(v Value, ok bool) Value {
		if in.flag {
			return tuple(v, boolVal(ok))
		}
		return v
	}
	mm, _ := m.p.(*Map)
	if vm.race != nil && mm != nil {
		vm.race.accessMap(vm, mm, false)
	}
	if mm == nil || mm.live == 0 {
		return res(in.zero, false)
	}
	hk, ok := mapKey(k, mm.kt)
	if ok {
		if i, ok := mm.idx[hk]; ok {
			return res(clone(mm.ents[i].val), true)
		}
		return res(in.zero, false)
	}
	// symbolic key
	if t, ok := k.p.(*Term); ok {
		if t.op == OpTbl {
			dom := vm.pc.doms[t.v]
			vt := in.aux.(*RType)
			scalar := vt.kind == kInt || vt.kind == kBool
			type r struct {
				v  Value
				ok bool
			}
			at := func(i int) r {
				if j, ok := mm.idx[any(t.at(i))]; ok {
					return r{mm.ents[j].val, true}
				}
				return r{in.zero, false}
			}
			if scalar {
				var okS, bS Bits256
				var tbl [256]uint64
				conc := true
				for i := 0; i < 256; i++ {
					if dom.has(i) {
						x := at(i)
						if x.v.p != nil {
							conc = false
							break
						}
						tbl[i] = x.v.n
						if x.v.n != 0 {
							bS.set(i)
						}
						if x.ok {
							okS.set(i)
						}
					}
				}
				if conc {
					okS = okS.or(Bits256{}.complementOf(dom, okS))
					bS2 := bS.or(Bits256{}.complementOf(dom, bS))
					var v Value
					if vt.kind == kBool {
						v = termVal(vm.tc.mkSet(t.v, bS2))
					} else {
						first := tbl[dom.first()]
						same := true
						for i := range tbl {
							if !dom.has(i) {
								tbl[i] = first
							}
							if tbl[i] != first {
								same = false
							}
						}
						if same {
							v = Value{n: first}
						} else {
							v = Value{p: newTbl(t.v, vt.w, &tbl)}
						}
					}
					if in.flag {
						return tuple(v, termVal(vm.tc.mkSet(t.v, okS)))
					}
					return v
				}
			}
			var reps []r
			var sets []Bits256
			for i := 0; i < 256; i++ {
				if !dom.has(i) {
					continue
				}
				x := at(i)
				found := false
				for g := range reps {
					if reps[g].ok == x.ok && identical(reps[g].v, x.v) {
						sets[g].set(i)
						found = true
						break
					}
				}
				if !found {
					reps = append(reps, x)
					var s Bits256
					s.set(i)
					sets = append(sets, s)
				}
			}
			if len(reps) == 1 {
				return res(clone(reps[0].v), reps[0].ok)
			}
			vm.forkSets(t.v, sets)
		}
		for _, e := range mm.ents {
			if e.del || e.key.p != nil {
				continue
			}
			if vm.decide(vm.tc.mk(OpEq, 1, t, vm.tc.konst(t.w, e.key.n), nil)) {
				return res(clone(e.val), true)
			}
		}
		return res(in.zero, false)
	}
	if mm.kt.kind == kString {
		k = vm.str(k)
		if hk, ok := mapKey(k, mm.kt); ok {
			if i, ok := mm.idx[hk]; ok {
				return res(clone(mm.ents[i].val), true)
			}
			return res(in.zero, false)
		}
		kb := strBytes(k)
		for _, e := range mm.ents {
			if e.del {
				continue
			}
			if vm.bytesEq(kb, strBytes(e.key)) {
				return res(clone(e.val), true)
			}
		}
		return res(in.zero, false)
	}
	for _, e := range mm.ents {
		if e.del {
			continue
		}
		if vm.decideV(vm.eq(k, e.key, mm.kt)) {
			return res(clone(e.val), true)
		}
	}
	return res(in.zero, false)
}

// complementOf returns nothing outside dom unless everything inside dom is set,
// so that constant results are recognised as constants.
func (Bits256) complementOf(dom, s Bits256) Bits256 {
	if s.and(dom) == dom {
		return fullBits.andNot(dom)
	}
	return Bits256{}
}

func (vm *VM) concKey(k Value, kt *RType) Value {
	switch p := k.p.(type) {
	case *Term:
		return Value{n: vm.concretize(p)}
	case *SymStr, *ChoiceStr:
		return strVal(vm.concStr(k))
	case *Iface:
		return Value{p: &Iface{t: p.t, v: vm.concKey(p.v, p.t)}}
	case *Struct:
		n := &Struct{f: make([]Value, len(p.f))}
		for i := range p.f {
			n.f[i] = vm.concKey(p.f[i], nil)
		}
		return Value{p: n}
	}
	return k
}

func (vm *VM) mapUpdate(m, k, v Value, kt *RType) {
	mm, _ := m.p.(*Map)
	if mm == nil {
		vm.rtPanic("assignment to entry in nil map")
	}
	k = vm.concKey(k, kt)
	hk, ok := mapKey(k, mm.kt)
	if !ok {
		panic(unsupported{"symbolic map key"})
	}
	if vm.race != nil {
		vm.race.accessMap(vm, mm, true)
	}
	v = clone(v)
	if i, ok := mm.idx[hk]; ok {
		e := mm.ents[i]
		old := e.val
		vm.logFn(func() { e.val = old })
		e.val = v
		return
	}
	vm.logFn(func() {
		delete(mm.idx, hk)
		mm.ents = mm.ents[:len(mm.ents)-1]
		mm.live--
	})
	mm.idx[hk] = len(mm.ents)
	mm.ents = append(mm.ents, &MapEnt{key: k, hk: hk, val: v})
	mm.live++
}

func (vm *VM) mapDelete(m, k Value) {
	mm, _ := m.p.(*Map)
	if mm == nil {
		return
	}
	k = vm.concKey(k, mm.kt)
	hk, _ := mapKey(k, mm.kt)
	i, ok := mm.idx[hk]
	if vm.race != nil {
		vm.race.accessMap(vm, mm, true)
	}
	if !ok {
		return
	}
	e := mm.ents[i]
	vm.logFn(func() { e.del = false; mm.idx[hk] = i; mm.live++ })
	e.del = true
	delete(mm.idx, hk)
	mm.live--
}

func (vm *VM) rangeOver(in *Instr, x Value) Value {
	if in.t.kind == kString {
		return Value{p: &MapIter{str: true, s: vm.str(x), pos: new(Value)}}
	}
	it := &MapIter{pos: new(Value)}
	if mm, ok := x.p.(*Map); ok {
		if vm.race != nil {
			vm.race.accessMap(vm, mm, false)
		}
		it.m = mm
		for _, e := range mm.ents {
			if !e.del {
				it.ents = append(it.ents, e)
			}
		}
		if in.flag && len(it.ents) > 1 && vm.mapOrder(len(it.ents)) {
			for i, j := 0, len(it.ents)-1; i < j; i, j = i+1, j-1 {
				it.ents[i], it.ents[j] = it.ents[j], it.ents[i]
			}
		}
	}
	return Value{p: it}
}

// mapOrder decides whether this iteration over a map runs backwards. Go leaves
// the order open; both the insertion order and its reverse are explored.
func (vm *VM) mapOrder(n int) bool {
	if vm.job == nil || !vm.job.MapOrder {
		return false
	}
	vm.impure()
	id := vm.freshVar("maporder", "maporder", Bits256{3}, nil)
	r := vm.decide(newSet(id, Bits256{2}))
	vm.path.pend = 0
	return r
}

// freshVar creates an 8 bit variable for an instruction that may be restarted
// before it is done with it; the caller clears path.pend when it is.
func (vm *VM) freshVar(name, kind string, dom Bits256, opts []string) int32 {
	if vm.path.pend > 0 {
		return vm.path.pend - 1
	}
	vm.impure()
	id := vm.pc.newVar(&SymVar{name: name, w: 8, kind: kind, opts: opts}, fullBits)
	vm.narrow(id, dom)
	vm.path.pend = id + 1
	return id
}

func (vm *VM) next(in *Instr, x Value) Value {
	it := x.p.(*MapIter)
	if it.str {
		i := int(it.pos.n)
		n := strLen(it.s)
		if i >= n {
			return in.zero
		}
		if s, ok := it.s.p.(string); ok {
			for _, r := range s[i:] {
				sz := len(string(r))
				if r == 0xFFFD {
					_, sz = decodeRuneString(s[i:])
				}
				vm.log(it.pos)
				it.pos.n = uint64(i + sz)
				return tuple(boolVal(true), intVal(i), Value{n: uint64(uint32(r))})
			}
		}
		r, sz := vm.decodeRune(strBytes(it.s)[i:])
		vm.log(it.pos)
		it.pos.n = uint64(i + sz)
		return tuple(boolVal(true), intVal(i), r)
	}
	for {
		i := int(it.pos.n)
		if i >= len(it.ents) {
			return in.zero
		}
		e := it.ents[i]
		vm.log(it.pos)
		it.pos.n++
		if e.del {
			continue
		}
		return tuple(boolVal(true), e.key, clone(e.val))
	}
}

// ---- builtins ----

func (vm *VM) builtin(in *Instr, args []Value) Value {
	switch in.aux.(string) {
	case "len":
		switch in.t.kind {
		case kString:
			if c, ok := args[0].p.(*ChoiceStr); ok && c.idx.op == OpTbl {
				var tbl [256]uint64
				same := true
				for i := range tbl {
					if k := c.idx.at(i); k < uint64(len(c.strs)) {
						tbl[i] = uint64(len(c.strs[k]))
					}
					if tbl[i] != tbl[0] {
						same = false
					}
				}
				if same {
					return Value{n: tbl[0]}
				}
				return Value{p: newTbl(c.idx.v, 64, &tbl)}
			}
			return intVal(strLen(vm.str(args[0])))
		case kSlice:
			return intVal(len(sliceOf(args[0])))
		case kMap:
			if args[0].p == nil {
				return Value{}
			}
			if vm.race != nil {
				vm.race.accessMap(vm, args[0].p.(*Map), false)
			}
			return intVal(args[0].p.(*Map).live)
		case kArray:
			return intVal(len(args[0].p.(*Struct).f))
		case kPtr:
			return intVal(int(deref(in.t.t).Underlying().(*types.Array).Len()))
		case kChan:
			return Value{}
		}
	case "cap":
		switch in.t.kind {
		case kSlice:
			return intVal(cap(sliceOf(args[0])))
		case kArray:
			return intVal(len(args[0].p.(*Struct).f))
		case kPtr:
			return intVal(int(deref(in.t.t).Underlying().(*types.Array).Len()))
		}
	case "append":
		return vm.appendTo(in, args)
	case "copy":
		dst := sliceOf(args[0])
		var src []Value
		if in.t2.kind == kString {
			src = strBytes(vm.str(args[1]))
		} else {
			src = sliceOf(args[1])
		}
		n := min(len(dst), len(src))
		if n == 0 {
			return Value{}
		}
		vm.copySlice(dst[:n], src[:n])
		return intVal(n)
	case "delete":
		vm.mapDelete(args[0], args[1])
		return Value{}
	case "panic":
		panic(goPanicReq{&panicRec{val: args[0]}})
	case "recover":
		vm.impure()
		// the caller of recover is the deferred function, its caller panics
		n := len(vm.stack)
		if n >= 2 {
			f := vm.stack[n-1]
			if f.mode == retUnwind {
				p := vm.stack[n-2]
				if p.pan != nil && !p.recov {
					if p.epoch != vm.epoch {
						c := *p
						c.regs = append([]Value(nil), p.regs...)
						c.epoch = vm.epoch
						p = &c
						vm.stack[n-2] = p
					}
					p.recov = true
					return p.pan.val
				}
			}
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			r = vm.minmax(in, r, a, in.aux.(string) == "min")
		}
		return r
	case "clear":
		if in.t.kind == kMap {
			mm, _ := args[0].p.(*Map)
			if mm == nil {
				return Value{}
			}
			for _, e := range append([]*MapEnt(nil), mm.ents...) {
				if !e.del {
					vm.mapDelete(args[0], e.key)
				}
			}
			return Value{}
		}
		s := sliceOf(args[0])
		et := in.t.t.Underlying().(*types.Slice).Elem()
		for i := range s {
			if vm.race != nil {
				vm.race.access(vm, &s[i], true)
			}
			vm.store(&s[i], zero(et))
		}
		return Value{}
	case "close":
		return Value{}
	case "ssa:wrapnilchk":
		if args[0].p == nil {
			vm.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		n := vm.concInt(args[1])
		if n == 0 {
			return Value{}
		}
		switch p := args[0].p.(type) {
		case *ElemPtr:
			return bytesStr(p.a[:n])
		case *StrPtr:
			return subStr(p.s, 0, n)
		}
		panic(unsupported{fmt.Sprintf("unsafe.String of %T", args[0].p)})
	case "SliceData":
		if args[0].p == nil {
			return Value{}
		}
		return Value{p: &ElemPtr{a: sliceOf(args[0])}}
	case "StringData":
		return Value{p: &StrPtr{s: vm.str(args[0])}}
	case "Slice": // unsafe.Slice
		n := vm.concInt(args[1])
		switch p := args[0].p.(type) {
		case nil:
			return Value{}
		case *ElemPtr:
			return Value{p: p.a[:n:n]}
		case *StrPtr:
			// read only by contract
			b := strBytes(p.s)[:n]
			return Value{p: append([]Value(nil), b...)}
		}
		panic(unsupported{fmt.Sprintf("unsafe.Slice of %T", args[0].p)})
	}
	panic(unsupported{fmt.Sprint("builtin ", in.aux)})
}

func (vm *VM) minmax(in *Instr, a, b Value, isMin bool) Value {
	switch in.t.kind {
	case kInt:
		lt := OpUlt
		if in.sgn {
			lt = OpSlt
		}
		x, y := vm.term(a, in.w), vm.term(b, in.w)
		c := vm.tc.mk(lt, 1, x, y, nil)
		if !isMin {
			x, y = y, x
		}
		return termVal(vm.tc.mk(OpIte, in.w, c, x, y))
	case kFloat:
		if isMin {
			return f64Val(math.Min(a.f64(), b.f64()))
		}
		return f64Val(math.Max(a.f64(), b.f64()))
	case kString:
		c := vm.strCmp(vm.str(a), vm.str(b))
		if (c <= 0) == isMin {
			return a
		}
		return b
	}
	panic(unsupported{"min/max"})
}

func (vm *VM) copySlice(dst, src []Value) {
	n := len(dst)
	if n == 0 {
		return
	}
	if vm.race != nil {
		vm.race.reads(vm, src)
		for i := range dst {
			vm.race.access(vm, &dst[i], true)
		}
	}
	// overlapping?
	if _, agg := src[0].p.(*Struct); agg {
		tmp := make([]Value, n)
		for i := range tmp {
			tmp[i] = clone(src[i])
		}
		for i := range tmp {
			vm.store(&dst[i], tmp[i])
		}
		return
	}
	for i := range dst {
		vm.log(&dst[i])
	}
	copy(dst, src)
}

func (vm *VM) appendTo(in *Instr, args []Value) Value {
	s := sliceOf(args[0])
	var add []Value
	if in.t2 != nil && in.t2.kind == kString {
		add = strBytes(vm.str(args[1]))
	} else {
		add = sliceOf(args[1])
	}
	if len(add) == 0 {
		return args[0]
	}
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		vm.copySlice(r[len(s):], add)
		return Value{p: r}
	}
	et := in.t.t.Underlying().(*types.Slice).Elem()
	if vm.race != nil {
		vm.race.reads(vm, s)
		vm.race.reads(vm, add)
	}
	c := growCap(cap(s), n, elemSize(et))
	r := make([]Value, n, c)
	agg := isAgg(et)
	if agg {
		for i := range s {
			r[i] = clone(s[i])
		}
		for i := range add {
			r[len(s)+i] = clone(add[i])
		}
		full := r[:c]
		z := zero(et)
		for i := n; i < c; i++ {
			full[i] = clone(z)
		}
	} else {
		copy(r, s)
		copy(r[len(s):], add)
	}
	return Value{p: r}
}

var gcSizes = types.SizesFor("gc", "amd64")

func elemSize(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.Uint8 {
			return 1
		}
	}
	return int(gcSizes.Sizeof(t))
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundup(n int) int {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if c >= n {
				return c
			}
		}
	}
	return (n + 8191) &^ 8191
}

func growCap(old, n, size int) int {
	c := old
	if n > 2*old {
		c = n
	} else if old < 256 {
		c = 2 * old
	} else {
		for c < n {
			c += (c + 3*256) >> 2
		}
	}
	if size == 0 {
		return n
	}
	return roundup(c*size) / size
}

var _ = ssa.NewProgram

var (
	forkMu    sync.Mutex
	forkSites = map[string]int{}
)

func forkStat(s string) {
	forkMu.Lock()
	forkSites[s]++
	forkMu.Unlock()
}

func printForks() {
	type kv struct {
		k string
		n int
	}
	var l []kv
	for k, n := range forkSites {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
	for i, e := range l {
		if i > 40 {
			break
		}
		fmt.Fprintf(os.Stderr, "fork %6d %s\n", e.n, strings.ReplaceAll(e.k, "github.com/JohannesKaufmann/html-to-markdown/v2", "v2"))
	}
}
