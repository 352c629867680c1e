package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms are bit-vector expressions over symbolic variables. Width 1 is used
// for booleans. A term that depends on exactly one 8-bit variable is kept in
// canonical form: a table with its value for each of the 256 values of the
// variable. Everything else is an expression DAG (hash-consed per VM).

type Op uint8

const (
	OpConst Op = iota
	OpVar      // wide variable (w > 8)
	OpTbl      // table over one 8-bit variable
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpShl
	OpLshr
	OpAshr
	OpEq
	OpUlt
	OpSlt
	OpIte
	OpZext
	OpSext
	OpTrunc
)

type Bits256 [4]uint64

func (b *Bits256) has(i int) bool { return b[i>>6]>>(uint(i)&63)&1 != 0 }
func (b *Bits256) set(i int)      { b[i>>6] |= 1 << (uint(i) & 63) }
func (b Bits256) count() int {
	return bits.OnesCount64(b[0]) + bits.OnesCount64(b[1]) + bits.OnesCount64(b[2]) + bits.OnesCount64(b[3])
}
func (b Bits256) and(c Bits256) Bits256 {
	return Bits256{b[0] & c[0], b[1] & c[1], b[2] & c[2], b[3] & c[3]}
}
func (b Bits256) or(c Bits256) Bits256 {
	return Bits256{b[0] | c[0], b[1] | c[1], b[2] | c[2], b[3] | c[3]}
}
func (b Bits256) andNot(c Bits256) Bits256 {
	return Bits256{b[0] &^ c[0], b[1] &^ c[1], b[2] &^ c[2], b[3] &^ c[3]}
}
func (b Bits256) empty() bool { return b == Bits256{} }
func (b Bits256) first() int {
	for i := 0; i < 4; i++ {
		if b[i] != 0 {
			return i*64 + bits.TrailingZeros64(b[i])
		}
	}
	return -1
}

var fullBits = Bits256{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}

type Term struct {
	op   Op
	w    uint8
	c    uint64 // constant value
	v    int32  // variable (OpVar, OpTbl)
	id   int32  // >0 once interned
	set  Bits256
	tbl  *[256]uint64 // OpTbl with w > 1
	a    *Term
	b    *Term
	d    *Term
	vars []int32 // sorted support
	size int32
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func sext64(x uint64, w uint8) int64 {
	if w >= 64 {
		return int64(x)
	}
	sh := 64 - w
	return int64(x<<sh) >> sh
}

type SymVar struct {
	id   int32
	name string
	w    uint8
	// for choice variables: the option strings, for reports
	opts []string
	kind string
}

type TermCtx struct {
	vars   []*SymVar
	consts map[[2]uint64]*Term
	nodes  map[nodeKey]*Term
	tbls   map[uint64][]*Term
	nextID int32
}

type nodeKey struct {
	op      Op
	w       uint8
	a, b, d int32
}

func newTermCtx() *TermCtx {
	return &TermCtx{consts: map[[2]uint64]*Term{}, nodes: map[nodeKey]*Term{}, tbls: map[uint64][]*Term{}}
}

func (tc *TermCtx) konst(w uint8, c uint64) *Term {
	c &= mask(w)
	k := [2]uint64{uint64(w), c}
	if t, ok := tc.consts[k]; ok {
		return t
	}
	tc.nextID++
	t := &Term{op: OpConst, w: w, c: c, id: tc.nextID, size: 1}
	tc.consts[k] = t
	return t
}

var identTbl = func() *[256]uint64 {
	var t [256]uint64
	for i := range t {
		t[i] = uint64(i)
	}
	return &t
}()

func (t *Term) at(i int) uint64 {
	switch t.op {
	case OpConst:
		return t.c
	case OpTbl:
		if t.w == 1 {
			if t.set.has(i) {
				return 1
			}
			return 0
		}
		return t.tbl[i]
	}
	panic("at: not a table")
}

func (t *Term) isTblOrConst() bool { return t.op == OpConst || t.op == OpTbl }

// intern gives the term an id (tables are only interned on demand).
func (tc *TermCtx) intern(t *Term) *Term {
	if t.id > 0 {
		return t
	}
	if t.op != OpTbl {
		panic("intern")
	}
	h := uint64(t.v)*1099511628211 + uint64(t.w)
	if t.w == 1 {
		for _, x := range t.set {
			h = (h ^ x) * 1099511628211
		}
	} else {
		for _, x := range t.tbl {
			h = (h ^ x) * 1099511628211
		}
	}
	for _, o := range tc.tbls[h] {
		if o.v == t.v && o.w == t.w && o.set == t.set && (t.w == 1 || *o.tbl == *t.tbl) {
			return o
		}
	}
	tc.nextID++
	t.id = tc.nextID
	tc.tbls[h] = append(tc.tbls[h], t)
	return t
}

func newTbl(v int32, w uint8, tbl *[256]uint64) *Term {
	t := &Term{op: OpTbl, w: w, v: v, tbl: tbl, vars: []int32{v}, size: 1}
	return t
}
func newSet(v int32, s Bits256) *Term {
	return &Term{op: OpTbl, w: 1, v: v, set: s, vars: []int32{v}, size: 1}
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	return append(out, b[j:]...)
}

func (tc *TermCtx) node(op Op, w uint8, a, b, d *Term) *Term {
	k := nodeKey{op: op, w: w}
	var vars []int32
	size := int32(1)
	if a != nil {
		a = tc.intern(a)
		k.a = a.id
		vars = a.vars
		size += a.size
	}
	if b != nil {
		b = tc.intern(b)
		k.b = b.id
		vars = mergeVars(vars, b.vars)
		size += b.size
	}
	if d != nil {
		d = tc.intern(d)
		k.d = d.id
		vars = mergeVars(vars, d.vars)
		size += d.size
	}
	if t, ok := tc.nodes[k]; ok {
		return t
	}
	tc.nextID++
	t := &Term{op: op, w: w, a: a, b: b, d: d, vars: vars, id: tc.nextID, size: size}
	tc.nodes[k] = t
	return t
}

func evalOp(op Op, w, aw uint8, a, b, d uint64) uint64 {
	var r uint64
	switch op {
	case OpAdd:
		r = a + b
	case OpSub:
		r = a - b
	case OpMul:
		r = a * b
	case OpUDiv:
		if b == 0 {
			r = ^uint64(0)
		} else {
			r = a / b
		}
	case OpSDiv:
		x, y := sext64(a, aw), sext64(b, aw)
		if y == 0 {
			if x >= 0 {
				r = ^uint64(0)
			} else {
				r = 1
			}
		} else if y == -1 {
			r = uint64(-x)
		} else {
			r = uint64(x / y)
		}
	case OpURem:
		if b == 0 {
			r = a
		} else {
			r = a % b
		}
	case OpSRem:
		x, y := sext64(a, aw), sext64(b, aw)
		if y == 0 {
			r = a
		} else if y == -1 {
			r = 0
		} else {
			r = uint64(x % y)
		}
	case OpAnd:
		r = a & b
	case OpOr:
		r = a | b
	case OpXor:
		r = a ^ b
	case OpShl:
		if b >= 64 {
			r = 0
		} else {
			r = a << b
		}
	case OpLshr:
		if b >= 64 {
			r = 0
		} else {
			r = a >> b
		}
	case OpAshr:
		x := sext64(a, aw)
		if b >= 63 {
			b = 63
		}
		r = uint64(x >> b)
	case OpEq:
		if a == b {
			r = 1
		}
	case OpUlt:
		if a < b {
			r = 1
		}
	case OpSlt:
		if sext64(a, aw) < sext64(b, aw) {
			r = 1
		}
	case OpIte:
		if a != 0 {
			r = b
		} else {
			r = d
		}
	case OpZext, OpTrunc:
		r = a
	case OpSext:
		r = uint64(sext64(a, aw))
	default:
		panic("evalOp")
	}
	return r & mask(w)
}

// mk builds op(a,b,d) of width w with simplification.
func (tc *TermCtx) mk(op Op, w uint8, a, b, d *Term) *Term {
	// all const / single variable?
	v := int32(-1)
	single := true
	allConst := true
	for _, x := range [3]*Term{a, b, d} {
		if x == nil {
			continue
		}
		if x.op == OpConst {
			continue
		}
		allConst = false
		if x.op != OpTbl {
			single = false
			break
		}
		if v == -1 {
			v = x.v
		} else if v != x.v {
			single = false
			break
		}
	}
	get := func(x *Term, i int) uint64 {
		if x == nil {
			return 0
		}
		return x.at(i)
	}
	if allConst {
		return tc.konst(w, evalOp(op, w, a.w, get(a, 0), get(b, 0), get(d, 0)))
	}
	if single {
		if w == 1 {
			// boolean ops on sets
			if a.w == 1 && (op == OpAnd || op == OpOr || op == OpXor) {
				sa, sb := a.boolSet(), b.boolSet()
				var s Bits256
				for i := range s {
					switch op {
					case OpAnd:
						s[i] = sa[i] & sb[i]
					case OpOr:
						s[i] = sa[i] | sb[i]
					default:
						s[i] = sa[i] ^ sb[i]
					}
				}
				return tc.mkSet(v, s)
			}
			var s Bits256
			for i := 0; i < 256; i++ {
				if evalOp(op, 1, a.w, get(a, i), get(b, i), get(d, i)) != 0 {
					s.set(i)
				}
			}
			return tc.mkSet(v, s)
		}
		var tbl [256]uint64
		same := true
		for i := 0; i < 256; i++ {
			tbl[i] = evalOp(op, w, a.w, get(a, i), get(b, i), get(d, i))
			if tbl[i] != tbl[0] {
				same = false
			}
		}
		if same {
			return tc.konst(w, tbl[0])
		}
		return newTbl(v, w, &tbl)
	}
	// multi-variable: algebraic simplification
	isC := func(x *Term, c uint64) bool { return x != nil && x.op == OpConst && x.c == c&mask(x.w) }
	switch op {
	case OpAdd, OpOr, OpXor:
		if isC(a, 0) {
			return b
		}
		if isC(b, 0) {
			return a
		}
		if op == OpOr && w == 1 {
			if isC(a, 1) || isC(b, 1) {
				return tc.konst(1, 1)
			}
		}
		if op == OpOr && a == b {
			return a
		}
	case OpSub:
		if isC(b, 0) {
			return a
		}
		if a == b {
			return tc.konst(w, 0)
		}
	case OpShl, OpLshr, OpAshr:
		if isC(b, 0) {
			return a
		}
	case OpAnd:
		if isC(a, 0) || isC(b, 0) {
			return tc.konst(w, 0)
		}
		if isC(a, ^uint64(0)) {
			return b
		}
		if isC(b, ^uint64(0)) {
			return a
		}
		if a == b {
			return a
		}
	case OpMul:
		if isC(a, 0) || isC(b, 0) {
			return tc.konst(w, 0)
		}
		if isC(a, 1) {
			return b
		}
		if isC(b, 1) {
			return a
		}
	case OpEq:
		if a == b {
			return tc.konst(1, 1)
		}
		if a.w == 1 {
			if isC(a, 1) {
				return b
			}
			if isC(b, 1) {
				return a
			}
			if isC(a, 0) {
				return tc.not(b)
			}
			if isC(b, 0) {
				return tc.not(a)
			}
		}
		// eq(ite(c, k1, k2), k)
		if b.op == OpConst && a.op == OpIte {
			a, b = b, a
		}
		if a.op == OpConst && b.op == OpIte && (b.b.op == OpConst || b.d.op == OpConst) {
			return tc.mk(OpIte, 1, b.a, tc.mk(OpEq, 1, a, b.b, nil), tc.mk(OpEq, 1, a, b.d, nil))
		}
		if a.op == OpConst && b.op == OpZext {
			if a.c > mask(b.a.w) {
				return tc.konst(1, 0)
			}
			return tc.mk(OpEq, 1, tc.konst(b.a.w, a.c), b.a, nil)
		}
	case OpUlt:
		if a == b {
			return tc.konst(1, 0)
		}
	case OpSlt:
		if a == b {
			return tc.konst(1, 0)
		}
	case OpIte:
		if a.op == OpConst {
			if a.c != 0 {
				return b
			}
			return d
		}
		if b == d {
			return b
		}
		if w == 1 {
			if isC(b, 1) && isC(d, 0) {
				return a
			}
			if isC(b, 0) && isC(d, 1) {
				return tc.not(a)
			}
			if isC(b, 1) {
				return tc.mk(OpOr, 1, a, d, nil)
			}
			if isC(b, 0) {
				return tc.mk(OpAnd, 1, tc.not(a), d, nil)
			}
			if isC(d, 0) {
				return tc.mk(OpAnd, 1, a, b, nil)
			}
			if isC(d, 1) {
				return tc.mk(OpOr, 1, tc.not(a), b, nil)
			}
		}
	case OpZext, OpSext, OpTrunc:
		if a.w == w {
			return a
		}
		if op == OpTrunc && (a.op == OpZext || a.op == OpSext) {
			if a.a.w == w {
				return a.a
			}
			if a.a.w > w {
				return tc.mk(OpTrunc, w, a.a, nil, nil)
			}
			return tc.mk(a.op, w, a.a, nil, nil)
		}
		if op == OpZext && a.op == OpZext {
			return tc.mk(OpZext, w, a.a, nil, nil)
		}
	}
	// canonical order for commutative operators
	switch op {
	case OpAdd, OpMul, OpAnd, OpOr, OpXor, OpEq:
		a, b = tc.intern(a), tc.intern(b)
		if a.id > b.id {
			a, b = b, a
		}
	}
	return tc.node(op, w, a, b, d)
}

func (t *Term) boolSet() Bits256 {
	if t.op == OpConst {
		if t.c != 0 {
			return fullBits
		}
		return Bits256{}
	}
	return t.set
}

func (tc *TermCtx) mkSet(v int32, s Bits256) *Term {
	if s.empty() {
		return tc.konst(1, 0)
	}
	if s == fullBits {
		return tc.konst(1, 1)
	}
	return newSet(v, s)
}

func (tc *TermCtx) not(t *Term) *Term {
	switch t.op {
	case OpConst:
		return tc.konst(1, 1-t.c)
	case OpTbl:
		return newSet(t.v, Bits256{^t.set[0], ^t.set[1], ^t.set[2], ^t.set[3]})
	case OpXor:
		if t.w == 1 && t.a.op == OpConst && t.a.c == 1 {
			return t.b
		}
		if t.w == 1 && t.b.op == OpConst && t.b.c == 1 {
			return t.a
		}
	}
	return tc.mk(OpXor, 1, t, tc.konst(1, 1), nil)
}
func (tc *TermCtx) and(a, b *Term) *Term { return tc.mk(OpAnd, 1, a, b, nil) }
func (tc *TermCtx) or(a, b *Term) *Term  { return tc.mk(OpOr, 1, a, b, nil) }

// eval evaluates t under a total assignment.
func (t *Term) eval(asg []uint64, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OpConst:
		return t.c
	case OpVar:
		return asg[t.v] & mask(t.w)
	case OpTbl:
		return t.at(int(asg[t.v] & 255))
	}
	if t.size > 20 {
		if r, ok := memo[t]; ok {
			return r
		}
	}
	a := t.a.eval(asg, memo)
	var b, d uint64
	if t.op == OpIte {
		var r uint64
		if a != 0 {
			r = t.b.eval(asg, memo)
		} else {
			r = t.d.eval(asg, memo)
		}
		if t.size > 20 {
			memo[t] = r
		}
		return r
	}
	if t.b != nil {
		b = t.b.eval(asg, memo)
	}
	r := evalOp(t.op, t.w, t.a.w, a, b, d)
	if t.size > 20 {
		memo[t] = r
	}
	return r
}

// ---- SMT-LIB printing ----

func bvlit(w uint8, c uint64) string {
	if w == 1 {
		if c != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", c&mask(w), w)
}

func (tc *TermCtx) varName(v int32) string { return fmt.Sprintf("v%d", v) }

func setSMT(name string, s Bits256) string {
	if s == fullBits {
		return "true"
	}
	if s.empty() {
		return "false"
	}
	neg := false
	if s.count() > 128 {
		neg = true
		s = Bits256{^s[0], ^s[1], ^s[2], ^s[3]}
	}
	var parts []string
	for i := 0; i < 256; {
		if !s.has(i) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && s.has(j+1) {
			j++
		}
		if i == j {
			parts = append(parts, fmt.Sprintf("(= %s (_ bv%d 8))", name, i))
		} else if i == 0 {
			parts = append(parts, fmt.Sprintf("(bvule %s (_ bv%d 8))", name, j))
		} else if j == 255 {
			parts = append(parts, fmt.Sprintf("(bvuge %s (_ bv%d 8))", name, i))
		} else {
			parts = append(parts, fmt.Sprintf("(and (bvuge %s (_ bv%d 8)) (bvule %s (_ bv%d 8)))", name, i, name, j))
		}
		i = j + 1
	}
	r := parts[0]
	if len(parts) > 1 {
		r = "(or " + strings.Join(parts, " ") + ")"
	}
	if neg {
		r = "(not " + r + ")"
	}
	return r
}

func tblSMT(name string, t *Term) string {
	if t.w == 1 {
		return setSMT(name, t.set)
	}
	// runs where f(x) = x + off, or constant
	type run struct {
		lo, hi int
		isc    bool
		c      uint64
	}
	m := mask(t.w)
	var runs []run
	for i := 0; i < 256; {
		// constant run
		j := i
		for j+1 < 256 && t.tbl[j+1] == t.tbl[i] {
			j++
		}
		k := i
		for k+1 < 256 && t.tbl[k+1] == (t.tbl[k]+1)&m {
			k++
		}
		if k > j {
			runs = append(runs, run{i, k, false, (t.tbl[i] - uint64(i)) & m})
			i = k + 1
		} else {
			runs = append(runs, run{i, j, true, t.tbl[i]})
			i = j + 1
		}
	}
	ext := name
	if t.w > 8 {
		ext = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-8, name)
	} else if t.w < 8 {
		ext = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, name)
	}
	expr := func(r run) string {
		if r.isc {
			return bvlit(t.w, r.c)
		}
		if r.c == 0 {
			return ext
		}
		return fmt.Sprintf("(bvadd %s %s)", ext, bvlit(t.w, r.c))
	}
	s := expr(runs[len(runs)-1])
	for i := len(runs) - 2; i >= 0; i-- {
		s = fmt.Sprintf("(ite (bvule %s (_ bv%d 8)) %s %s)", name, runs[i].hi, expr(runs[i]), s)
	}
	return s
}

// smt prints a term; terms with id are emitted through define so that sharing is kept.
func (tc *TermCtx) smt(t *Term, ref func(*Term) string) string {
	switch t.op {
	case OpConst:
		return bvlit(t.w, t.c)
	case OpVar:
		return tc.varName(t.v)
	case OpTbl:
		return tblSMT(tc.varName(t.v), t)
	}
	a := ref(t.a)
	var b, d string
	if t.b != nil {
		b = ref(t.b)
	}
	if t.d != nil {
		d = ref(t.d)
	}
	isBool := t.a.w == 1
	two := func(n string) string { return "(" + n + " " + a + " " + b + ")" }
	switch t.op {
	case OpAdd:
		return two("bvadd")
	case OpSub:
		return two("bvsub")
	case OpMul:
		return two("bvmul")
	case OpUDiv:
		return two("bvudiv")
	case OpSDiv:
		return two("bvsdiv")
	case OpURem:
		return two("bvurem")
	case OpSRem:
		return two("bvsrem")
	case OpAnd:
		if isBool {
			return two("and")
		}
		return two("bvand")
	case OpOr:
		if isBool {
			return two("or")
		}
		return two("bvor")
	case OpXor:
		if isBool {
			return two("xor")
		}
		return two("bvxor")
	case OpShl, OpLshr, OpAshr:
		n := map[Op]string{OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr"}[t.op]
		// operands have the same width by construction
		return two(n)
	case OpEq:
		return two("=")
	case OpUlt:
		return two("bvult")
	case OpSlt:
		return two("bvslt")
	case OpIte:
		return "(ite " + a + " " + b + " " + d + ")"
	case OpZext:
		if isBool {
			return "(ite " + a + " " + bvlit(t.w, 1) + " " + bvlit(t.w, 0) + ")"
		}
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, a)
	case OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, a)
	case OpTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, a)
	}
	panic("smt op")
}
