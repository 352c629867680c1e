package main

import (
	"sync"
	"unicode"
	"unicode/utf8"
)

func decodeRuneString(s string) (rune, int) { return utf8.DecodeRuneInString(s) }

func (vm *VM) inRange(b Value, lo, hi uint64) bool {
	if b.p == nil {
		return b.n >= lo && b.n <= hi
	}
	t := b.p.(*Term)
	if t.op == OpTbl {
		var s Bits256
		for i := 0; i < 256; i++ {
			if x := t.at(i); x >= lo && x <= hi {
				s.set(i)
			}
		}
		return vm.decide(vm.tc.mkSet(t.v, s))
	}
	return vm.decide(vm.rangeTerm(t, lo, hi))
}

func (vm *VM) rangeTerm(t *Term, lo, hi uint64) *Term {
	tc := vm.tc
	if lo == hi {
		return tc.mk(OpEq, 1, t, tc.konst(t.w, lo), nil)
	}
	// lo <= t <= hi  <=>  t - lo <= hi - lo
	return tc.and(tc.not(tc.mk(OpUlt, 1, t, tc.konst(t.w, lo), nil)), tc.not(tc.mk(OpUlt, 1, tc.konst(t.w, hi), t, nil)))
}

// decodeRune decodes the first rune of b (len(b) > 0).
func (vm *VM) decodeRune(b []Value) (Value, int) {
	n := min(len(b), 4)
	conc := true
	var buf [4]byte
	for i := 0; i < n; i++ {
		if b[i].p != nil {
			if i == 0 || buf[0] >= 0x80 {
				conc = false
			}
			break
		}
		buf[i] = byte(b[i].n)
		if i == 0 && buf[0] < 0x80 {
			return Value{n: uint64(buf[0])}, 1
		}
	}
	if conc {
		r, sz := utf8.DecodeRune(buf[:n])
		return Value{n: uint64(uint32(r))}, sz
	}
	bad := Value{n: utf8.RuneError}
	if vm.inRange(b[0], 0, 0x7f) {
		return termVal(vm.tc.mk(OpZext, 32, vm.term(b[0], 8), nil, nil)), 1
	}
	var need int
	lo, hi := uint64(0x80), uint64(0xbf)
	var msk uint64
	switch {
	case vm.inRange(b[0], 0xc2, 0xdf):
		need, msk = 2, 0x1f
	case vm.inRange(b[0], 0xe0, 0xef):
		need, msk = 3, 0x0f
		if n > 1 {
			if vm.inRange(b[0], 0xe0, 0xe0) {
				lo = 0xa0
			} else if vm.inRange(b[0], 0xed, 0xed) {
				hi = 0x9f
			}
		}
	case vm.inRange(b[0], 0xf0, 0xf4):
		need, msk = 4, 0x07
		if n > 1 {
			if vm.inRange(b[0], 0xf0, 0xf0) {
				lo = 0x90
			} else if vm.inRange(b[0], 0xf4, 0xf4) {
				hi = 0x8f
			}
		}
	default:
		return bad, 1
	}
	if n < need {
		return bad, 1
	}
	if !vm.inRange(b[1], lo, hi) {
		return bad, 1
	}
	for i := 2; i < need; i++ {
		if !vm.inRange(b[i], 0x80, 0xbf) {
			return bad, 1
		}
	}
	tc := vm.tc
	ext := func(v Value, m uint64) *Term {
		return tc.mk(OpAnd, 32, tc.mk(OpZext, 32, vm.term(v, 8), nil, nil), tc.konst(32, m), nil)
	}
	r := ext(b[0], msk)
	for i := 1; i < need; i++ {
		r = tc.mk(OpOr, 32, tc.mk(OpShl, 32, r, tc.konst(32, 6), nil), ext(b[i], 0x3f), nil)
	}
	return termVal(r), need
}

func (vm *VM) decodeLastRune(b []Value) (Value, int) {
	end := len(b)
	if end == 0 {
		return Value{n: utf8.RuneError}, 0
	}
	start := end - 1
	if vm.inRange(b[start], 0, 0x7f) {
		if b[start].p == nil {
			return b[start], 1
		}
		return termVal(vm.tc.mk(OpZext, 32, vm.term(b[start], 8), nil, nil)), 1
	}
	lim := end - 4
	if lim < 0 {
		lim = 0
	}
	for start--; start >= lim; start-- {
		if !vm.inRange(b[start], 0x80, 0xbf) {
			break
		}
	}
	if start < 0 {
		start = 0
	}
	r, size := vm.decodeRune(b[start:end])
	if start+size != end {
		return Value{n: utf8.RuneError}, 1
	}
	return r, size
}

// encodeRune gives the UTF-8 bytes of a symbolic rune.
func (vm *VM) encodeRune(t *Term, rt *RType) []Value {
	tc := vm.tc
	if t.w != 32 {
		t = vm.convTerm(t, t.w, rt.sgn, 32)
	}
	v := Value{p: t}
	if t.op == OpConst {
		var out []Value
		for _, c := range []byte(string(rune(int32(t.c)))) {
			out = append(out, Value{n: uint64(c)})
		}
		return out
	}
	b := func(shift, or, msk uint64) Value {
		x := tc.mk(OpLshr, 32, t, tc.konst(32, shift), nil)
		if shift == 0 {
			x = t
		}
		x = tc.mk(OpAnd, 32, x, tc.konst(32, msk), nil)
		x = tc.mk(OpOr, 32, x, tc.konst(32, or), nil)
		return termVal(tc.mk(OpTrunc, 8, x, nil, nil))
	}
	switch {
	case vm.inRange(v, 0, 0x7f):
		return []Value{termVal(tc.mk(OpTrunc, 8, t, nil, nil))}
	case vm.inRange(v, 0x80, 0x7ff):
		return []Value{b(6, 0xc0, 0x1f), b(0, 0x80, 0x3f)}
	case vm.inRange(v, 0xd800, 0xdfff), !vm.inRange(v, 0, 0x10ffff):
		return []Value{{n: 0xef}, {n: 0xbf}, {n: 0xbd}}
	case vm.inRange(v, 0x800, 0xffff):
		return []Value{b(12, 0xe0, 0x0f), b(6, 0x80, 0x3f), b(0, 0x80, 0x3f)}
	}
	return []Value{b(18, 0xf0, 0x07), b(12, 0x80, 0x3f), b(6, 0x80, 0x3f), b(0, 0x80, 0x3f)}
}

// ---- predicates and mappings on runes ----

type runeRun struct{ lo, hi uint64 }

var (
	runMu    sync.Mutex
	runCache = map[string][]runeRun{}
)

func runsOf(name string, f func(rune) bool) []runeRun {
	runMu.Lock()
	defer runMu.Unlock()
	if r, ok := runCache[name]; ok {
		return r
	}
	var out []runeRun
	for r := rune(0); r <= unicode.MaxRune; r++ {
		if f(r) {
			if n := len(out); n > 0 && out[n-1].hi == uint64(r)-1 {
				out[n-1].hi = uint64(r)
			} else {
				out = append(out, runeRun{uint64(r), uint64(r)})
			}
		}
	}
	runCache[name] = out
	return out
}

func (vm *VM) runePred(name string, v Value, f func(rune) bool) Value {
	t, ok := v.p.(*Term)
	if !ok {
		return boolVal(f(rune(int32(v.n))))
	}
	if t.op == OpTbl {
		var s Bits256
		for i := 0; i < 256; i++ {
			if f(rune(int32(t.at(i)))) {
				s.set(i)
			}
		}
		return termVal(vm.tc.mkSet(t.v, s))
	}
	lo, hi := vm.pc.interval(t, 0)
	acc := vm.tc.konst(1, 0)
	for _, r := range runsOf(name, f) {
		if r.hi < lo || r.lo > hi {
			continue
		}
		acc = vm.tc.or(acc, vm.rangeTerm(t, r.lo, r.hi))
	}
	return termVal(acc)
}

func (vm *VM) runeMap(v Value, f func(rune) rune) Value {
	t, ok := v.p.(*Term)
	if !ok {
		return Value{n: uint64(uint32(f(rune(int32(v.n)))))}
	}
	if t.op == OpTbl {
		var tbl [256]uint64
		same := true
		for i := range tbl {
			tbl[i] = uint64(uint32(f(rune(int32(t.at(i))))))
			if tbl[i] != tbl[0] {
				same = false
			}
		}
		if same {
			return Value{n: tbl[0]}
		}
		return Value{p: newTbl(t.v, 32, &tbl)}
	}
	return Value{n: uint64(uint32(f(rune(int32(vm.concretize(t))))))}
}
