package main

// Merging of side-effect free regions. When a branch depends on one symbolic
// byte, both sides are run without effects up to the point where they meet
// (or to the first instruction with an effect), and the outcomes are merged
// into table terms. The path then forks only where the outcomes cannot be
// merged.

const specLimit = 400

type specOutKind uint8

const (
	soBlock specOutKind = iota
	soReturn
)

type specOut struct {
	dom  Bits256
	kind specOutKind
	blk  int
	regs []Value
	res  Value
}

type specState struct {
	stack []*Frame
	dom   Bits256
	chk   specOut
	steps int
}

type specRun struct {
	v     int32
	base  int // index of the start frame
	ipdom int
	steps int
	cur   *specState
	done  bool
	work  []*specState
	outs  []specOut
}

type specResult uint8

const (
	specNo specResult = iota
	specMerged
	specReturned
)

// specBlock is called on entry to a block during speculation; true ends the run.
func (vm *VM) specBlock(f *Frame) bool {
	s := vm.spec
	if len(vm.stack)-1 != s.base {
		return false
	}
	s.cur.chk = specOut{kind: soBlock, blk: f.blk, regs: append([]Value(nil), f.regs...)}
	if f.blk == s.ipdom {
		s.done = true
		return true
	}
	return false
}

func (s *specRun) returned(res Value) {
	s.cur.chk = specOut{kind: soReturn, res: res}
	s.done = true
}

func (vm *VM) trySpec(f *Frame, t *Term, base int) specResult {
	if base != 0 {
		return specNo
	}
	vm.nSpec++
	v := t.v
	dom := vm.pc.doms[v]
	mark := vm.pc.mark()
	saved := append([]*Frame(nil), vm.stack...)
	undoLen := len(vm.undo)
	path := vm.path
	imark, idepth := vm.imark, vm.idepth
	vm.epoch++
	s := &specRun{v: v, base: len(vm.stack) - 1, ipdom: f.fn.blocks[f.blk].ipdom}
	vm.spec = s
	restore := func() {
		vm.spec = nil
		vm.pc.restore(mark)
		vm.stack = append(vm.stack[:0], saved...)
		vm.epoch++
		vm.nested = 0
		vm.path = path
		vm.imark, vm.idepth = imark, idepth
		if len(vm.undo) != undoLen {
			panic(vmBug{"speculation wrote to the heap"})
		}
	}
	for side := 0; side < 2; side++ {
		d := dom.and(t.set)
		if side == 1 {
			d = dom.andNot(t.set)
		}
		// start state: the successor block
		vm.stack = append(vm.stack[:0], saved...)
		vm.epoch++
		nf := vm.top()
		vm.pc.restore(mark)
		vm.pc.setDom(v, d)
		st := &specState{dom: d}
		s.cur = st
		vm.jump(nf, nf.fn.blocks[nf.blk].succ[side])
		if vm.specBlock(nf) {
			s.done = false
			o := st.chk
			o.dom = d
			s.outs = append(s.outs, o)
			continue
		}
		st.stack = append([]*Frame(nil), vm.stack...)
		vm.epoch++
		s.work = append(s.work, st)
	}
	ok := true
	for len(s.work) > 0 {
		st := s.work[len(s.work)-1]
		s.work = s.work[:len(s.work)-1]
		if len(s.outs)+len(s.work) > 48 {
			ok = false
			break
		}
		vm.pc.restore(mark)
		vm.pc.setDom(v, st.dom)
		vm.stack = append(vm.stack[:0], st.stack...)
		vm.epoch++
		s.cur = st
		s.steps = st.steps
		s.done = false
		vm.nested = 0
		vm.specRunState(st)
	}
	restore()
	if !ok {
		return specNo
	}
	return vm.specMerge(s, t, base)
}

// specRunState runs one state until it stops; splits add to the work list.
func (vm *VM) specRunState(st *specState) {
	s := vm.spec
	finish := func() {
		o := st.chk
		o.dom = st.dom
		s.outs = append(s.outs, o)
	}
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			if q, ok := r.(forkReq); ok {
				single := true
				for _, a := range q.alts {
					if a.op != OpTbl || a.v != s.v {
						single = false
					}
				}
				if single && len(s.work) < 48 {
					vm.stack = vm.stack[:vm.idepth]
					vm.nested = 0
					snap := append([]*Frame(nil), vm.stack...)
					vm.epoch++
					any := false
					for _, a := range q.alts {
						d := st.dom.and(a.set)
						if d.empty() {
							continue
						}
						any = true
						s.work = append(s.work, &specState{stack: snap, dom: d, chk: st.chk, steps: s.steps})
					}
					if any {
						return
					}
				}
			}
			// anything else ends this outcome at its last checkpoint
			finish()
		}()
		vm.loop(0)
		finish()
	}()
}

type specGroup struct {
	dom  Bits256
	kind specOutKind
	blk  int
	outs []specOut
}

func (vm *VM) specMerge(s *specRun, t *Term, base int) specResult {
	fn := vm.stack[s.base].fn
	orig := vm.stack[s.base].regs
	var groups []*specGroup
	for _, o := range s.outs {
		placed := false
		for _, g := range groups {
			if g.kind != o.kind || g.kind == soBlock && g.blk != o.blk {
				continue
			}
			if vm.canMerge(fn, g, o, orig) {
				g.outs = append(g.outs, o)
				g.dom = g.dom.or(o.dom)
				placed = true
				break
			}
		}
		if !placed {
			groups = append(groups, &specGroup{dom: o.dom, kind: o.kind, blk: o.blk, outs: []specOut{o}})
		}
	}
	if len(groups) == 1 {
		g := groups[0]
		vm.nMerge++
		if g.kind == soReturn {
			var res Value
			switch fn.results {
			case 0:
			case 1:
				res = vm.mergeVals(s.v, g, func(o *specOut) Value { return o.res }, fn.resT[0])
			default:
				st := &Struct{f: make([]Value, fn.results)}
				for i := range st.f {
					i := i
					st.f[i] = vm.mergeVals(s.v, g, func(o *specOut) Value { return o.res.p.(*Struct).f[i] }, fn.resT[i])
				}
				res = Value{p: st}
			}
			vm.doReturn(res, base)
			return specReturned
		}
		f := vm.top()
		live := fn.blocks[g.blk].live
		for r := range f.regs {
			if live[r>>6]>>(uint(r)&63)&1 == 0 {
				continue
			}
			r := r
			f.regs[r] = vm.mergeVals(s.v, g, func(o *specOut) Value { return o.regs[r] }, fn.regT[r])
		}
		f.blk, f.pc = g.blk, 0
		return specMerged
	}
	alts := make([]*Term, len(groups))
	for i, g := range groups {
		alts[i] = newSet(s.v, g.dom)
	}
	panic(forkReq{alts: alts})
}

func (vm *VM) canMerge(fn *Fn, g *specGroup, o specOut, orig []Value) bool {
	a := &g.outs[0]
	if g.kind == soReturn {
		switch fn.results {
		case 0:
			return true
		case 1:
			return mergeable(a.res, o.res, fn.resT[0])
		}
		for i := 0; i < fn.results; i++ {
			if !mergeable(a.res.p.(*Struct).f[i], o.res.p.(*Struct).f[i], fn.resT[i]) {
				return false
			}
		}
		return true
	}
	live := fn.blocks[g.blk].live
	for r := range o.regs {
		if live[r>>6]>>(uint(r)&63)&1 == 0 {
			continue
		}
		if !mergeable(a.regs[r], o.regs[r], fn.regT[r]) {
			return false
		}
	}
	return true
}

// mergeable says whether two outcomes of a register can become one value.
// The relation only looks at the kind of the values, so that it can be
// checked against the first member of a group.
func mergeable(a, b Value, t *RType) bool {
	if identical(a, b) {
		return true
	}
	if t == nil {
		return false
	}
	switch t.kind {
	case kBool, kInt:
		return smallScalar(a) && smallScalar(b)
	case kString:
		return concStrVal(a) && concStrVal(b)
	case kTuple:
		x, ok1 := a.p.(*Struct)
		y, ok2 := b.p.(*Struct)
		if !ok1 || !ok2 || len(x.f) != len(y.f) {
			return false
		}
		tt := t.t.(interface{ Len() int })
		_ = tt
		for i := range x.f {
			if !mergeable(x.f[i], y.f[i], tupleElem(t, i)) {
				return false
			}
		}
		return true
	}
	return false
}

func smallScalar(v Value) bool {
	t, ok := v.p.(*Term)
	return v.p == nil || ok && t.size < 40
}

func concStrVal(v Value) bool {
	if v.p == nil {
		return true
	}
	_, ok := v.p.(string)
	return ok
}

func (vm *VM) mergeVals(v int32, g *specGroup, get func(*specOut) Value, t *RType) Value {
	first := get(&g.outs[0])
	same := true
	for i := range g.outs[1:] {
		if !identical(first, get(&g.outs[i+1])) {
			same = false
			break
		}
	}
	if same {
		return first
	}
	switch t.kind {
	case kBool, kInt:
		simple := true
		for i := range g.outs {
			if x, ok := get(&g.outs[i]).p.(*Term); ok && (x.op != OpTbl || x.v != v) {
				simple = false
			}
		}
		if simple {
			var tbl [256]uint64
			var set Bits256
			val := func(o *specOut, i int) uint64 {
				x := get(o)
				if tt, ok := x.p.(*Term); ok {
					return tt.at(i)
				}
				return x.n
			}
			def := val(&g.outs[0], g.outs[0].dom.first())
			for i := range tbl {
				tbl[i] = def
			}
			for k := range g.outs {
				o := &g.outs[k]
				for i := 0; i < 256; i++ {
					if o.dom.has(i) {
						tbl[i] = val(o, i)
					}
				}
			}
			allSame := true
			for i := range tbl {
				if tbl[i] != 0 {
					set.set(i)
				}
				if tbl[i] != def {
					allSame = false
				}
			}
			if allSame {
				return Value{n: def}
			}
			if t.w == 1 {
				return termVal(vm.tc.mkSet(v, set))
			}
			return Value{p: newTbl(v, t.w, &tbl)}
		}
		r := vm.term(get(&g.outs[len(g.outs)-1]), t.w)
		for i := len(g.outs) - 2; i >= 0; i-- {
			r = vm.tc.mk(OpIte, t.w, vm.tc.mkSet(v, g.outs[i].dom), vm.term(get(&g.outs[i]), t.w), r)
		}
		return termVal(r)
	case kString:
		var strs []string
		var tbl [256]uint64
		idx := map[string]int{}
		for k := range g.outs {
			x, _ := get(&g.outs[k]).p.(string)
			j, ok := idx[x]
			if !ok {
				j = len(strs)
				idx[x] = j
				strs = append(strs, x)
			}
			for i := 0; i < 256; i++ {
				if g.outs[k].dom.has(i) {
					tbl[i] = uint64(j)
				}
			}
		}
		n := len(strs[0])
		sameLen := n > 0
		for _, x := range strs {
			if len(x) != n {
				sameLen = false
			}
		}
		if sameLen {
			b := make([]Value, n)
			for p := 0; p < n; p++ {
				var bt [256]uint64
				diff := false
				for i := range bt {
					bt[i] = uint64(strs[tbl[i]][p])
					if bt[i] != bt[0] {
						diff = true
					}
				}
				if diff {
					b[p] = Value{p: newTbl(v, 8, &bt)}
				} else {
					b[p] = Value{n: bt[0]}
				}
			}
			return bytesStr(b)
		}
		return Value{p: &ChoiceStr{idx: newTbl(v, 8, &tbl), strs: strs}}
	case kTuple:
		st := &Struct{f: make([]Value, len(first.p.(*Struct).f))}
		for i := range st.f {
			i := i
			st.f[i] = vm.mergeVals(v, g, func(o *specOut) Value { return get(o).p.(*Struct).f[i] }, tupleElem(t, i))
		}
		return Value{p: st}
	}
	panic(vmBug{"mergeVals"})
}
