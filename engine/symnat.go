package main

import (
	"encoding/hex"
	"fmt"
	"strconv"
)

const symPkg = "github.com/JohannesKaufmann/html-to-markdown/v2/internal/zzverif/sym"

func (vm *VM) addInput(name, kind string, v Value, opts []string) {
	vm.path.inputs = append(vm.path.inputs[:len(vm.path.inputs):len(vm.path.inputs)], inputRec{name: name, kind: kind, v: v, opts: opts})
}

func (vm *VM) newByte(name string, dom Bits256) Value {
	vm.impure()
	id := vm.pc.newVar(&SymVar{name: name, w: 8, kind: "byte"}, fullBits)
	vm.narrow(id, dom)
	return Value{p: newTbl(id, 8, identTbl)}
}

// narrow restricts a new variable to dom; the certificate lists the rest as excluded.
func (vm *VM) narrow(id int32, dom Bits256) {
	if dom == fullBits {
		return
	}
	if vm.ev != nil {
		vm.ev.excluded(vm, newSet(id, fullBits.andNot(dom)))
	}
	vm.pc.assume(newSet(id, dom))
}

func alphabet(s string) Bits256 {
	var d Bits256
	for i := 0; i < len(s); i++ {
		d.set(int(s[i]))
	}
	return d
}

// newWide makes a 64 bit variable.
func (vm *VM) newWide(name string) *Term {
	vm.impure()
	id := vm.pc.newVar(&SymVar{name: name, w: 64, kind: "int"}, fullBits)
	k := nodeKey{op: OpVar, w: 64, a: id}
	if t, ok := vm.tc.nodes[k]; ok {
		return t
	}
	vm.tc.nextID++
	t := &Term{op: OpVar, w: 64, v: id, id: vm.tc.nextID, vars: []int32{id}, size: 1}
	vm.tc.nodes[k] = t
	return t
}

func strSlice(vm *VM, v Value) []string {
	var out []string
	for _, s := range sliceOf(v) {
		out = append(out, vm.concStr(s))
	}
	return out
}

func init() {
	s := func(name string, f nativeFn) { natives[symPkg+"."+name] = f }
	s("Symbolic", func(vm *VM, a []Value) Value { return boolVal(true) })
	s("Byte", func(vm *VM, a []Value) Value {
		n := vm.concStr(a[0])
		v := vm.newByte(n, fullBits)
		vm.addInput(n, "byte", v, nil)
		return v
	})
	s("ByteIn", func(vm *VM, a []Value) Value {
		n := vm.concStr(a[0])
		v := vm.newByte(n, alphabet(vm.concStr(a[1])))
		vm.addInput(n, "byte", v, nil)
		return v
	})
	s("Str", func(vm *VM, a []Value) Value {
		n := vm.concStr(a[0])
		k := vm.concInt(a[1])
		b := make([]Value, k)
		for i := range b {
			b[i] = vm.newByte(n+"["+strconv.Itoa(i)+"]", fullBits)
		}
		v := bytesStr(b)
		vm.addInput(n, "str", v, nil)
		return v
	})
	s("StrIn", func(vm *VM, a []Value) Value {
		n := vm.concStr(a[0])
		k := vm.concInt(a[1])
		d := alphabet(vm.concStr(a[2]))
		b := make([]Value, k)
		for i := range b {
			b[i] = vm.newByte(n+"["+strconv.Itoa(i)+"]", d)
		}
		v := bytesStr(b)
		vm.addInput(n, "str", v, nil)
		return v
	})
	s("Bool", func(vm *VM, a []Value) Value {
		n := vm.concStr(a[0])
		b := vm.newByte(n, Bits256{3})
		v := termVal(newSet(b.p.(*Term).v, Bits256{2}))
		vm.addInput(n, "bool", v, nil)
		return v
	})
	s("Int", func(vm *VM, a []Value) Value {
		n := vm.concStr(a[0])
		lo, hi := int64(vm.conc(a[1])), int64(vm.conc(a[2]))
		var v Value
		if hi >= lo && uint64(hi-lo) <= 255 {
			var dom Bits256
			for i := 0; i <= int(hi-lo); i++ {
				dom.set(i)
			}
			b := vm.newByte(n, dom).p.(*Term)
			if hi == lo {
				v = Value{n: uint64(lo)}
			} else {
				var tbl [256]uint64
				for i := range tbl {
					tbl[i] = uint64(lo + int64(i))
				}
				v = Value{p: newTbl(b.v, 64, &tbl)}
			}
		} else {
			t := vm.newWide(n)
			k := func(c int64) *Term { return vm.tc.konst(64, uint64(c)) }
			in := vm.tc.and(vm.tc.not(vm.tc.mk(OpSlt, 1, t, k(lo), nil)), vm.tc.not(vm.tc.mk(OpSlt, 1, k(hi), t, nil)))
			if in.op != OpConst {
				vm.ev.excluded(vm, vm.tc.not(in))
				if !vm.pc.assume(in) {
					panic(pathKill{"infeasible"})
				}
			}
			v = Value{p: t}
		}
		vm.addInput(n, "int", v, nil)
		return v
	})
	// Pick chooses one of the strings and forks on the choice.
	s("Pick", func(vm *VM, a []Value) Value {
		n := vm.concStr(a[0])
		opts := strSlice(vm, a[1])
		if len(opts) == 1 {
			vm.addInput(n, "pick", Value{}, opts)
			return strVal(opts[0])
		}
		var dom Bits256
		for i := range opts {
			dom.set(i)
		}
		id := vm.freshVar(n, "pick", dom, opts)
		t := newTbl(id, 8, identTbl)
		i := vm.concretize(t)
		vm.path.pend = 0
		vm.addInput(n, "pick", Value{p: t}, opts)
		return strVal(opts[i])
	})
	// Index chooses a number in [0,n) and forks on it.
	s("Index", func(vm *VM, a []Value) Value {
		n := vm.concStr(a[0])
		k := vm.concInt(a[1])
		if k == 1 {
			vm.addInput(n, "int", Value{}, nil)
			return Value{}
		}
		var dom Bits256
		for i := 0; i < k; i++ {
			dom.set(i)
		}
		id := vm.freshVar(n, "index", dom, nil)
		t := newTbl(id, 8, identTbl)
		i := vm.concretize(t)
		vm.path.pend = 0
		vm.addInput(n, "int", Value{p: t}, nil)
		return Value{n: i}
	})
	// Choice is one of the strings; the choice stays symbolic.
	s("Choice", func(vm *VM, a []Value) Value {
		n := vm.concStr(a[0])
		opts := strSlice(vm, a[1])
		var dom Bits256
		for i := range opts {
			dom.set(i)
		}
		b := vm.newByte(n, dom).p.(*Term)
		vm.addInput(n, "pick", Value{p: b}, opts)
		return Value{p: &ChoiceStr{idx: b, strs: opts}}
	})
	s("Assume", func(vm *VM, a []Value) Value {
		vm.impure()
		if t, ok := a[0].p.(*Term); ok {
			canT, canF := vm.pc.status(t)
			if canF {
				vm.ev.excluded(vm, vm.tc.not(t))
			}
			if !canT {
				panic(pathKill{"excluded"})
			}
			if !vm.pc.assume(t) {
				panic(pathKill{"excluded"})
			}
			return Value{}
		}
		if a[0].n == 0 {
			panic(pathKill{"excluded"})
		}
		return Value{}
	})
	s("Assert", func(vm *VM, a []Value) Value {
		vm.impure()
		msg := vm.concStr(a[1])
		vm.path.asserts++
		if t, ok := a[0].p.(*Term); ok {
			vm.ev.query("assert")
			neg := vm.tc.not(t)
			r, m := vm.pc.query(neg)
			if r == "unsat" {
				return Value{}
			}
			if r == "sat" {
				vm.ev.assertFail(vm, msg, neg, m)
				if canT, _ := vm.pc.status(t); canT && vm.pc.assume(t) {
					return Value{}
				}
				panic(pathKill{"violated"})
			}
			vm.pc.incomplete = true
			return Value{}
		}
		if a[0].n == 0 {
			vm.ev.assertFail(vm, msg, nil, nil)
			panic(pathKill{"violated"})
		}
		return Value{}
	})
	s("Known", func(vm *VM, a []Value) Value {
		id := vm.concStr(a[0])
		if vm.decideV(a[1]) {
			vm.impure()
			vm.path.findings = append(vm.path.findings[:len(vm.path.findings):len(vm.path.findings)], id)
		}
		return Value{}
	})
	s("Reach", func(vm *VM, a []Value) Value {
		vm.impure()
		vm.path.reached = append(vm.path.reached[:len(vm.path.reached):len(vm.path.reached)], vm.concStr(a[0]))
		return Value{}
	})
	s("Observe", func(vm *VM, a []Value) Value {
		vm.impure()
		vm.path.obs = append(vm.path.obs[:len(vm.path.obs):len(vm.path.obs)], obs{vm.concStr(a[0]), a[1]})
		return Value{}
	})
	s("Param", func(vm *VM, a []Value) Value {
		n := vm.concStr(a[0])
		if vm.job != nil {
			if x, ok := vm.job.Params[n]; ok {
				return Value{n: uint64(int64(x))}
			}
		}
		return a[1]
	})
	s("ParamStr", func(vm *VM, a []Value) Value {
		n := vm.concStr(a[0])
		if vm.job != nil {
			if x, ok := vm.job.SParams[n]; ok {
				return strVal(x)
			}
		}
		return a[1]
	})
	s("Thread", func(vm *VM, a []Value) Value {
		vm.impure()
		vm.path.thread = uint8(vm.concInt(a[0]))
		return Value{}
	})
	s("NoRace", func(vm *VM, a []Value) Value {
		vm.impure()
		vm.path.asserts++
		if vm.race == nil {
			panic(unsupported{"NoRace outside a race job"})
		}
		kind, info := vm.race.verdict(vm)
		switch kind {
		case "":
			return Value{}
		case "unknown":
			panic(unsupported{"the solver does not decide the schedules"})
		}
		vm.race.info = info
		vm.ev.assertFail(vm, kind, nil, nil)
		vm.race.info = ""
		panic(pathKill{"violated"})
	})
	s("Concrete", func(vm *VM, a []Value) Value { return strVal(vm.concStr(a[0])) })
	s("ConcreteInt", func(vm *VM, a []Value) Value { return Value{n: vm.conc(a[0])} })
}

// ---- evaluation under an assignment ----

func evalVal(v Value, asg []uint64) uint64 {
	if t, ok := v.p.(*Term); ok {
		for len(asg) <= int(maxVar(t)) {
			asg = append(asg, 0)
		}
		return t.eval(asg, map[*Term]uint64{})
	}
	return v.n
}

func maxVar(t *Term) int32 {
	if len(t.vars) == 0 {
		return 0
	}
	return t.vars[len(t.vars)-1]
}

func evalStr(v Value, asg []uint64) string {
	switch s := v.p.(type) {
	case nil:
		return ""
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i := range b {
			b[i] = byte(evalVal(s.b[i], asg))
		}
		return string(b)
	case *ChoiceStr:
		return s.strs[evalVal(Value{p: s.idx}, asg)]
	}
	return fmt.Sprintf("?%T", v.p)
}

// ReplayInput is one input value for the native run.
type ReplayInput struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Hex  string `json:"hex,omitempty"`
	Int  int64  `json:"int,omitempty"`
	Show string `json:"show,omitempty"`
}

func (vm *VM) inputsUnder(asg []uint64) []ReplayInput {
	var out []ReplayInput
	for _, in := range vm.path.inputs {
		r := ReplayInput{Name: in.name, Kind: in.kind}
		switch in.kind {
		case "str":
			s := evalStr(in.v, asg)
			r.Hex = hex.EncodeToString([]byte(s))
			r.Show = strconv.Quote(s)
		case "pick":
			i := evalVal(in.v, asg)
			r.Int = int64(i)
			if int(i) < len(in.opts) {
				r.Show = strconv.Quote(in.opts[i])
			}
		case "byte":
			r.Int = int64(evalVal(in.v, asg))
			r.Show = strconv.Quote(string(rune(r.Int)))
		default:
			r.Int = int64(evalVal(in.v, asg))
		}
		out = append(out, r)
	}
	return out
}

type ReplayObs struct {
	Name string `json:"name"`
	Val  string `json:"val"`
}

func (vm *VM) obsUnder(asg []uint64) []ReplayObs {
	var out []ReplayObs
	for _, o := range vm.path.obs {
		ifc, _ := o.v.p.(*Iface)
		val := "nil"
		if ifc != nil {
			switch ifc.t.kind {
			case kString:
				val = hex.EncodeToString([]byte(evalStr(ifc.v, asg)))
			case kSlice:
				val = hex.EncodeToString([]byte(evalStr(bytesStr(sliceOf(ifc.v)), asg)))
			case kInt:
				val = strconv.FormatInt(sext64(evalVal(ifc.v, asg), ifc.t.w), 10)
			case kBool:
				val = strconv.FormatBool(evalVal(ifc.v, asg) != 0)
			}
		}
		out = append(out, ReplayObs{o.name, val})
	}
	return out
}
