package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// The SSA form of every function that is executed is translated, on first
// use, into compact instructions for the virtual machine.

type IOp uint8

const (
	iNop IOp = iota
	iAlloc
	iBin
	iEq
	iLoad
	iNot
	iNeg
	iCompl
	iCall    // static
	iCallVal // closure
	iInvoke
	iBuiltin
	iChangeIface
	iMove
	iConvInt
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeClosure
	iMakeIface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSlice
	iStore
	iTypeAssert
	iSliceToArr
	iUnsup
)

type Instr struct {
	op   IOp
	tok  token.Token
	w    uint8
	sgn  bool
	flag bool // CommaOk, etc.
	w2   uint8
	sgn2 bool
	dst  int32
	a    int32
	b    int32
	c    int32
	d    int32
	n    int
	args []int32
	t    *RType
	t2   *RType
	fn   *Fn
	aux  any
	zero Value
	pos  token.Pos
}

type phi struct {
	dst   int32
	edges []int32
}

type edge struct {
	to   int
	pred int
}

type Block struct {
	ins   []Instr
	phis  []phi
	succ  []edge
	ipdom int // block index, -1 = function exit
	live  []uint64
}

type Fn struct {
	ssa      *ssa.Function
	name     string
	native   nativeFn
	once     sync.Once
	compiled atomic.Bool
	nregs    int
	nparams  int
	blocks   []Block
	consts   []Value
	regT     []*RType
	recover  int
	results  int
	resT     []*RType
	repo     bool // function of the code under test
	err      string
	entered  atomic.Bool
	id       int
}

type nativeFn func(vm *VM, args []Value) Value

var (
	fnMu    sync.Mutex
	fnMap   = map[*ssa.Function]*Fn{}
	fnList  []*Fn
	glMu    sync.Mutex
	glMap   = map[*ssa.Global]int{}
	glList  []*ssa.Global
	glBase  = int32(-1 << 20)
	repoPfx = "github.com/JohannesKaufmann/"
)

func fnOf(f *ssa.Function) *Fn {
	fnMu.Lock()
	defer fnMu.Unlock()
	if x, ok := fnMap[f]; ok {
		return x
	}
	name := fnName(f)
	x := &Fn{ssa: f, name: name, id: len(fnList)}
	x.native = lookupNative(f, name)
	x.nparams = len(f.Params)
	if f.Pkg != nil {
		p := f.Pkg.Pkg.Path()
		x.repo = len(p) >= len(repoPfx) && p[:len(repoPfx)] == repoPfx
	} else if f.Origin() != nil && f.Origin().Pkg != nil {
		p := f.Origin().Pkg.Pkg.Path()
		x.repo = len(p) >= len(repoPfx) && p[:len(repoPfx)] == repoPfx
	}
	sig := f.Signature.Results()
	x.results = sig.Len()
	fnMap[f] = x
	fnList = append(fnList, x)
	return x
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.String()
	}
	return f.String()
}

func globalIdx(g *ssa.Global) int32 {
	glMu.Lock()
	defer glMu.Unlock()
	i, ok := glMap[g]
	if !ok {
		i = len(glList)
		glMap[g] = i
		glList = append(glList, g)
	}
	return glBase - int32(i)
}

func globalAt(i int) *ssa.Global {
	glMu.Lock()
	defer glMu.Unlock()
	return glList[i]
}

func (fn *Fn) compile() {
	if fn.compiled.Load() {
		return
	}
	fn.once.Do(func() {
		c := &compiler{fn: fn, regs: map[ssa.Value]int32{}, cs: map[any]int32{}}
		c.run()
		fn.compiled.Store(true)
	})
}

type compiler struct {
	fn   *Fn
	regs map[ssa.Value]int32
	cs   map[any]int32
}

func (c *compiler) newReg(v ssa.Value) int32 {
	r := int32(c.fn.nregs)
	c.fn.nregs++
	c.regs[v] = r
	var t *RType
	if v.Type() != nil {
		t = rtypeOf(v.Type())
	}
	c.fn.regT = append(c.fn.regT, t)
	return r
}

func (c *compiler) run() {
	f := c.fn.ssa
	fn := c.fn
	for i := 0; i < f.Signature.Results().Len(); i++ {
		fn.resT = append(fn.resT, rtypeOf(f.Signature.Results().At(i).Type()))
	}
	for _, p := range f.Params {
		c.newReg(p)
	}
	for _, p := range f.FreeVars {
		c.newReg(p)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.newReg(v)
			}
		}
	}
	fn.recover = -1
	if f.Recover != nil {
		fn.recover = f.Recover.Index
	}
	fn.blocks = make([]Block, len(f.Blocks))
	for i, b := range f.Blocks {
		bl := &fn.blocks[i]
		for _, in := range b.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				p := phi{dst: c.regs[ph]}
				for _, e := range ph.Edges {
					p.edges = append(p.edges, c.opnd(e))
				}
				bl.phis = append(bl.phis, p)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			bl.ins = append(bl.ins, c.instr(in))
		}
		seen := map[*ssa.BasicBlock]int{}
		for _, s := range b.Succs {
			k := seen[s]
			seen[s]++
			pi := -1
			for j, p := range s.Preds {
				if p == b {
					if k == 0 {
						pi = j
						break
					}
					k--
				}
			}
			bl.succ = append(bl.succ, edge{s.Index, pi})
		}
	}
	c.postdom()
	c.liveness()
}

// postdom computes immediate post-dominators (with a virtual exit).
func (c *compiler) postdom() {
	bl := c.fn.blocks
	n := len(bl)
	// reverse graph order
	preds := make([][]int, n+1)
	succs := make([][]int, n+1)
	for i := range bl {
		if len(bl[i].succ) == 0 {
			succs[i] = append(succs[i], n)
			preds[n] = append(preds[n], i)
		}
		for _, s := range bl[i].succ {
			succs[i] = append(succs[i], s.to)
			preds[s.to] = append(preds[s.to], i)
		}
	}
	order := []int{}
	num := make([]int, n+1)
	for i := range num {
		num[i] = -1
	}
	var dfs func(x int)
	dfs = func(x int) {
		num[x] = 0
		for _, p := range preds[x] {
			if num[p] == -1 {
				dfs(p)
			}
		}
		order = append(order, x)
	}
	dfs(n)
	for i, x := range order {
		num[x] = i
	}
	idom := make([]int, n+1)
	for i := range idom {
		idom[i] = -1
	}
	idom[n] = n
	inter := func(a, b int) int {
		for a != b {
			for num[a] < num[b] {
				a = idom[a]
			}
			for num[b] < num[a] {
				b = idom[b]
			}
		}
		return a
	}
	for changed := true; changed; {
		changed = false
		for i := len(order) - 1; i >= 0; i-- {
			x := order[i]
			if x == n {
				continue
			}
			nd := -1
			for _, s := range succs[x] {
				if num[s] == -1 || idom[s] == -1 {
					continue
				}
				if nd == -1 {
					nd = s
				} else {
					nd = inter(nd, s)
				}
			}
			if nd != idom[x] {
				idom[x] = nd
				changed = true
			}
		}
	}
	for i := range bl {
		if idom[i] == n || idom[i] == -1 {
			bl[i].ipdom = -1
		} else {
			bl[i].ipdom = idom[i]
		}
	}
}

func (in *Instr) uses(f func(int32)) {
	f(in.a)
	f(in.b)
	f(in.c)
	f(in.d)
	for _, a := range in.args {
		f(a)
	}
}

const noOp = int32(-1 << 30) // "no operand"

// liveness computes the registers live at the entry of each block (after phis).
func (c *compiler) liveness() {
	fn := c.fn
	words := (fn.nregs + 63) / 64
	bl := fn.blocks
	use := make([][]uint64, len(bl))
	def := make([][]uint64, len(bl))
	for i := range bl {
		bl[i].live = make([]uint64, words)
		use[i] = make([]uint64, words)
		def[i] = make([]uint64, words)
		for k := range bl[i].ins {
			in := &bl[i].ins[k]
			in.uses(func(r int32) {
				if r >= 0 && def[i][r>>6]>>(uint(r)&63)&1 == 0 {
					use[i][r>>6] |= 1 << (uint(r) & 63)
				}
			})
			if in.dst >= 0 {
				def[i][in.dst>>6] |= 1 << (uint(in.dst) & 63)
			}
		}
	}
	tmp := make([]uint64, words)
	for changed := true; changed; {
		changed = false
		for i := len(bl) - 1; i >= 0; i-- {
			for k := range tmp {
				tmp[k] = 0
			}
			for _, s := range bl[i].succ {
				sb := &bl[s.to]
				// live-in before phis of successor: live minus phi dsts plus edge operand
				for k := range tmp {
					tmp[k] |= sb.live[k]
				}
			}
			for _, s := range bl[i].succ {
				for _, p := range bl[s.to].phis {
					_ = p
				}
			}
			// remove phi destinations (they are defined at the edge), then add operands
			for _, s := range bl[i].succ {
				for _, p := range bl[s.to].phis {
					other := false
					for _, s2 := range bl[i].succ {
						if s2.to != s.to && bl[s2.to].live[p.dst>>6]>>(uint(p.dst)&63)&1 != 0 {
							other = true
						}
					}
					if !other {
						tmp[p.dst>>6] &^= 1 << (uint(p.dst) & 63)
					}
				}
			}
			for _, s := range bl[i].succ {
				for _, p := range bl[s.to].phis {
					if e := p.edges[s.pred]; e >= 0 {
						tmp[e>>6] |= 1 << (uint(e) & 63)
					}
				}
			}
			for k := range tmp {
				nv := use[i][k] | tmp[k]&^def[i][k]
				if nv != bl[i].live[k] {
					bl[i].live[k] = nv
					changed = true
				}
			}
		}
	}
}

func constValue(k *ssa.Const) Value {
	if k.Value == nil {
		return zero(k.Type())
	}
	t := k.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		// type parameter typed constants after instantiation have basic types
		return Value{}
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return boolVal(constant.BoolVal(k.Value))
	case b.Info()&types.IsString != 0:
		if k.Value.Kind() == constant.Int {
			n, _ := constant.Int64Val(k.Value)
			return strVal(string(rune(n)))
		}
		return strVal(constant.StringVal(k.Value))
	case b.Info()&types.IsInteger != 0:
		_, w, _ := kindOf(b)
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return Value{n: uint64(i) & mask(w)}
		}
		u, _ := constant.Uint64Val(v)
		return Value{n: u & mask(w)}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(k.Value))
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return Value{n: math.Float64bits(f)}
	}
	return Value{}
}

func (c *compiler) konst(key any, v Value) int32 {
	if i, ok := c.cs[key]; ok {
		return i
	}
	c.fn.consts = append(c.fn.consts, v)
	i := int32(-len(c.fn.consts))
	c.cs[key] = i
	return i
}

func (c *compiler) opnd(v ssa.Value) int32 {
	switch x := v.(type) {
	case nil:
		return noOp
	case *ssa.Const:
		return c.konst(x, constValue(x))
	case *ssa.Global:
		return globalIdx(x)
	case *ssa.Function:
		return c.konst(x, Value{p: &Closure{fn: fnOf(x)}})
	case *ssa.Builtin:
		return noOp
	}
	r, ok := c.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %s", v, c.fn.name))
	}
	return r
}

func (c *compiler) opnds(vs []ssa.Value) []int32 {
	out := make([]int32, len(vs))
	for i, v := range vs {
		out[i] = c.opnd(v)
	}
	return out
}

func deref(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func (c *compiler) instr(in ssa.Instruction) Instr {
	I := Instr{dst: -1, a: noOp, b: noOp, c: noOp, d: noOp, pos: in.Pos()}
	if v, ok := in.(ssa.Value); ok {
		I.dst = c.regs[v]
	}
	unsup := func(s string) Instr {
		I.op = iUnsup
		I.aux = s
		return I
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		I.op = iAlloc
		I.t = rtypeOf(deref(x.Type()))
		I.zero = zero(I.t.t)
		_, I.flag = I.zero.p.(*Struct)
	case *ssa.BinOp:
		I.a, I.b = c.opnd(x.X), c.opnd(x.Y)
		I.tok = x.Op
		I.t = rtypeOf(x.X.Type())
		I.t2 = rtypeOf(x.Y.Type())
		I.w, I.sgn = I.t.w, I.t.sgn
		I.w2, I.sgn2 = I.t2.w, I.t2.sgn
		switch x.Op {
		case token.EQL, token.NEQ:
			I.op = iEq
			// comparison with nil of the other operand's type
			if isNilConst(x.X) {
				I.t = I.t2
			}
		default:
			I.op = iBin
		}
	case *ssa.UnOp:
		I.a = c.opnd(x.X)
		I.t = rtypeOf(x.X.Type())
		I.w, I.sgn = I.t.w, I.t.sgn
		switch x.Op {
		case token.MUL:
			I.op = iLoad
			I.flag = isAgg(x.Type())
		case token.NOT:
			I.op = iNot
		case token.SUB:
			I.op = iNeg
		case token.XOR:
			I.op = iCompl
		default:
			return unsup("unop " + x.Op.String())
		}
	case *ssa.Call:
		c.call(&I, x.Common())
	case *ssa.Go:
		I.op = iGo
	case *ssa.Defer:
		var sub Instr
		sub = Instr{dst: -1, a: noOp, b: noOp, c: noOp, d: noOp, pos: in.Pos()}
		c.call(&sub, x.Common())
		I.op = iDefer
		I.aux = &sub
		I.args = sub.args
		I.a = sub.a
	case *ssa.ChangeInterface:
		I.op = iMove
		I.a = c.opnd(x.X)
	case *ssa.ChangeType:
		I.op = iMove
		I.a = c.opnd(x.X)
	case *ssa.Convert:
		c.convert(&I, x.X, x.X.Type(), x.Type())
	case *ssa.MultiConvert:
		return unsup("multiconvert")
	case *ssa.Extract:
		I.op = iExtract
		I.a = c.opnd(x.Tuple)
		I.n = x.Index
	case *ssa.Field:
		I.op = iField
		I.a = c.opnd(x.X)
		I.n = x.Field
	case *ssa.FieldAddr:
		I.op = iFieldAddr
		I.a = c.opnd(x.X)
		I.n = x.Field
	case *ssa.If:
		I.op = iIf
		I.a = c.opnd(x.Cond)
	case *ssa.Jump:
		I.op = iJump
	case *ssa.Index:
		I.op = iIndex
		I.a, I.b = c.opnd(x.X), c.opnd(x.Index)
		I.t = rtypeOf(x.X.Type())
		I.t2 = rtypeOf(x.Index.Type())
		I.w2, I.sgn2 = I.t2.w, I.t2.sgn
		I.w = rtypeOf(x.Type()).w
	case *ssa.IndexAddr:
		I.op = iIndexAddr
		I.a, I.b = c.opnd(x.X), c.opnd(x.Index)
		I.t = rtypeOf(x.X.Type())
		I.t2 = rtypeOf(x.Index.Type())
		I.w2, I.sgn2 = I.t2.w, I.t2.sgn
	case *ssa.Lookup:
		I.a, I.b = c.opnd(x.X), c.opnd(x.Index)
		I.t = rtypeOf(x.X.Type())
		I.t2 = rtypeOf(x.Index.Type())
		I.w2, I.sgn2 = I.t2.w, I.t2.sgn
		I.flag = x.CommaOk
		if I.t.kind == kString {
			I.op = iIndex
			I.w = 8
		} else {
			I.op = iLookup
			m := x.X.Type().Underlying().(*types.Map)
			I.zero = zero(m.Elem())
			I.t2 = rtypeOf(m.Key())
			I.aux = rtypeOf(m.Elem())
		}
	case *ssa.MakeClosure:
		I.op = iMakeClosure
		I.fn = fnOf(x.Fn.(*ssa.Function))
		I.args = c.opnds(x.Bindings)
	case *ssa.MakeInterface:
		I.op = iMakeIface
		I.a = c.opnd(x.X)
		I.t = rtypeOf(x.X.Type())
	case *ssa.MakeMap:
		I.op = iMakeMap
		I.t = rtypeOf(x.Type().Underlying().(*types.Map).Key())
	case *ssa.MakeSlice:
		I.op = iMakeSlice
		I.a, I.b = c.opnd(x.Len), c.opnd(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		I.zero = zero(et)
		I.flag = isAgg(et)
		I.w = rtypeOf(x.Len.Type()).w
		I.w2 = rtypeOf(x.Cap.Type()).w
	case *ssa.MapUpdate:
		I.op = iMapUpdate
		I.a, I.b, I.c = c.opnd(x.Map), c.opnd(x.Key), c.opnd(x.Value)
		I.t = rtypeOf(x.Map.Type().Underlying().(*types.Map).Key())
	case *ssa.Next:
		I.op = iNext
		I.a = c.opnd(x.Iter)
		I.flag = x.IsString
		tt := x.Type().(*types.Tuple)
		I.zero = tuple(Value{}, zeroOrNil(tt.At(1).Type()), zeroOrNil(tt.At(2).Type()))
	case *ssa.Panic:
		I.op = iPanic
		I.a = c.opnd(x.X)
	case *ssa.Range:
		I.op = iRange
		I.a = c.opnd(x.X)
		I.t = rtypeOf(x.X.Type())
		I.flag = c.fn.repo
	case *ssa.Return:
		I.op = iReturn
		I.args = c.opnds(x.Results)
	case *ssa.RunDefers:
		I.op = iRunDefers
	case *ssa.Slice:
		I.op = iSlice
		I.a, I.b, I.c, I.d = c.opnd(x.X), c.opnd(x.Low), c.opnd(x.High), c.opnd(x.Max)
		I.t = rtypeOf(x.X.Type())
	case *ssa.SliceToArrayPointer:
		I.op = iSliceToArr
		I.a = c.opnd(x.X)
		I.n = int(deref(x.Type()).Underlying().(*types.Array).Len())
	case *ssa.Store:
		I.op = iStore
		I.a, I.b = c.opnd(x.Addr), c.opnd(x.Val)
	case *ssa.TypeAssert:
		I.op = iTypeAssert
		I.a = c.opnd(x.X)
		I.t = rtypeOf(x.AssertedType)
		I.flag = x.CommaOk
		I.zero = zero(x.AssertedType)
	case *ssa.MakeChan:
		// only stored, never used on the explored paths
		I.op = iMove
		I.a = c.konst("chan", Value{})
	case *ssa.Select, *ssa.Send:
		return unsup(fmt.Sprintf("%T", in))
	default:
		return unsup(fmt.Sprintf("%T", in))
	}
	return I
}

func zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return Value{}
	}
	return zero(t)
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value == nil
}

func (c *compiler) call(I *Instr, cc *ssa.CallCommon) {
	I.args = c.opnds(cc.Args)
	if cc.IsInvoke() {
		I.op = iInvoke
		I.a = c.opnd(cc.Value)
		I.aux = cc.Method
		return
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		I.op = iBuiltin
		I.aux = f.Name()
		if len(cc.Args) > 0 {
			I.t = rtypeOf(cc.Args[0].Type())
			I.w, I.sgn = I.t.w, I.t.sgn
		}
		if len(cc.Args) > 1 {
			I.t2 = rtypeOf(cc.Args[1].Type())
		}
	case *ssa.Function:
		I.op = iCall
		I.fn = fnOf(f)
	default:
		I.op = iCallVal
		I.a = c.opnd(cc.Value)
	}
}

func (c *compiler) convert(I *Instr, xv ssa.Value, from, to types.Type) {
	I.a = c.opnd(xv)
	I.op = iConvert
	I.t, I.t2 = rtypeOf(from), rtypeOf(to)
	I.w, I.sgn = I.t.w, I.t.sgn
	I.w2, I.sgn2 = I.t2.w, I.t2.sgn
	if I.t.kind == kInt && I.t2.kind == kInt {
		I.op = iConvInt
	}
}
