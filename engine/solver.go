package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Z3 is one incremental solver process.
type Z3 struct {
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	defined map[int32]bool
	decl    map[int32]bool
	queries int
	dur     time.Duration
	unknown int
	errors  int
	log     io.Writer
}

var z3Path, z3Name = findZ3()

// findZ3 prefers the newer release.
func findZ3() (string, string) {
	for _, n := range []string{"z3-new", "z3"} {
		if f, err := exec.LookPath(n); err == nil {
			b, _ := exec.Command(f, "--version").Output()
			if v := strings.TrimSpace(string(b)); v != "" {
				return f, v
			}
		}
	}
	return "z3", "z3"
}

func startZ3() (*Z3, error) {
	cmd := exec.Command(z3Path, "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	z := &Z3{cmd: cmd, in: bufio.NewWriterSize(in, 1<<16), out: bufio.NewReaderSize(out, 1<<16), defined: map[int32]bool{}, decl: map[int32]bool{}}
	if d := os.Getenv("GOSYM_Z3LOG"); d != "" {
		z.log, _ = os.CreateTemp(d, "z3-*.smt2")
	}
	z.send("(set-option :print-success false)\n(set-option :timeout 20000)\n")
	return z, nil
}

func (z *Z3) send(s string) {
	z.in.WriteString(s)
	if z.log != nil {
		io.WriteString(z.log, s)
	}
}

func (z *Z3) close() {
	z.send("(exit)\n")
	z.in.Flush()
	z.cmd.Process.Kill()
	z.cmd.Wait()
}

func (z *Z3) readLine() string {
	for {
		l, err := z.out.ReadString('\n')
		if err != nil {
			return "(error eof)"
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

// readSexp reads one balanced s-expression.
func (z *Z3) readSexp() string {
	var b strings.Builder
	depth := 0
	started := false
	for {
		c, err := z.out.ReadByte()
		if err != nil {
			return b.String()
		}
		b.WriteByte(c)
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
			if started && depth == 0 {
				return b.String()
			}
		}
	}
}

func (z *Z3) declareVar(tc *TermCtx, v int32, w uint8) {
	if z.decl[v] {
		return
	}
	z.decl[v] = true
	z.send(fmt.Sprintf("(declare-const %s (_ BitVec %d))\n", tc.varName(v), w))
}

// ref returns the SMT name of a term, defining it at the base level if needed.
func (z *Z3) ref(tc *TermCtx, t *Term) string {
	for _, v := range t.vars {
		z.declareVar(tc, v, tc.vars[v].w)
	}
	switch t.op {
	case OpConst, OpVar:
		return tc.smt(t, nil)
	case OpTbl:
		if t.w == 1 {
			return tc.smt(t, nil)
		}
	}
	t = tc.intern(t)
	name := fmt.Sprintf("t%d", t.id)
	if z.defined[t.id] {
		return name
	}
	body := tc.smt(t, func(x *Term) string { return z.ref(tc, x) })
	sort := fmt.Sprintf("(_ BitVec %d)", t.w)
	if t.w == 1 {
		sort = "Bool"
	}
	z.send(fmt.Sprintf("(define-fun %s () %s %s)\n", name, sort, body))
	z.defined[t.id] = true
	return name
}

// check runs one query; vars lists the variables wanted in the model.
func (z *Z3) check(tc *TermCtx, asserts []string, vars []int32) (string, map[int32]uint64) {
	t0 := time.Now()
	z.queries++
	z.send("(push 1)\n")
	for _, a := range asserts {
		z.send("(assert ")
		z.send(a)
		z.send(")\n")
	}
	z.send("(check-sat)\n")
	z.in.Flush()
	res := z.readLine()
	for strings.HasPrefix(res, "(error") {
		z.errors++
		if strings.Contains(res, "eof") {
			res = "unknown"
			break
		}
		res = z.readLine()
		res = "unknown:" + res
		if res == "unknown:sat" || res == "unknown:unsat" || res == "unknown:unknown" {
			res = "unknown"
			break
		}
	}
	var model map[int32]uint64
	if res == "sat" && len(vars) > 0 {
		var b strings.Builder
		b.WriteString("(get-value (")
		for _, v := range vars {
			b.WriteString(tc.varName(v))
			b.WriteByte(' ')
		}
		b.WriteString("))\n")
		z.send(b.String())
		z.in.Flush()
		model = parseModel(z.readSexp())
	}
	z.send("(pop 1)\n")
	z.dur += time.Since(t0)
	if slowLog != "" && time.Since(t0) > 500*time.Millisecond {
		fmt.Fprintf(os.Stderr, "slow query %.2fs %s asserts=%d vars=%d\n", time.Since(t0).Seconds(), res, len(asserts), len(vars))
	}
	if res != "sat" && res != "unsat" {
		z.unknown++
	}
	return res, model
}

func parseModel(s string) map[int32]uint64 {
	m := map[int32]uint64{}
	f := strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i+1 < len(f); {
		if f[i][0] == 'v' {
			v, _ := strconv.Atoi(f[i][1:])
			x := f[i+1]
			var val uint64
			if strings.HasPrefix(x, "#x") {
				val, _ = strconv.ParseUint(x[2:], 16, 64)
				i += 2
			} else if strings.HasPrefix(x, "#b") {
				val, _ = strconv.ParseUint(x[2:], 2, 64)
				i += 2
			} else if x == "_" && i+3 < len(f) {
				val, _ = strconv.ParseUint(strings.TrimPrefix(f[i+2], "bv"), 10, 64)
				i += 4
			} else {
				i++
				continue
			}
			m[int32(v)] = val
		} else {
			i++
		}
	}
	return m
}

// ---- path condition ----

type domUndo struct {
	v   int32
	old Bits256
}

type PathCond struct {
	tc    *TermCtx
	z     *Z3
	doms  []Bits256
	dlog  []domUndo
	res   []*Term
	known map[int32]bool
	wit   []uint64
	cache map[string]cacheEnt
	// statistics
	nFast, nWit, nEnum, nIntv, nZ3, nCache int
	incomplete                             bool
}

var slowLog = os.Getenv("GOSYM_SLOW")

type cacheEnt struct {
	res   string
	model map[int32]uint64
}

type pcMark struct {
	nd, nr int
	nv     int
	wit    []uint64
}

func newPathCond(tc *TermCtx, z *Z3) *PathCond {
	return &PathCond{tc: tc, z: z, known: map[int32]bool{}, cache: map[string]cacheEnt{}}
}

func (p *PathCond) mark() pcMark { return pcMark{len(p.dlog), len(p.res), len(p.doms), p.wit} }

func (p *PathCond) restore(m pcMark) {
	for len(p.dlog) > m.nd {
		u := p.dlog[len(p.dlog)-1]
		p.doms[u.v] = u.old
		p.dlog = p.dlog[:len(p.dlog)-1]
	}
	for len(p.res) > m.nr {
		t := p.res[len(p.res)-1]
		delete(p.known, t.id)
		p.res = p.res[:len(p.res)-1]
	}
	p.doms = p.doms[:m.nv]
	p.wit = m.wit
}

func (p *PathCond) setDom(v int32, d Bits256) {
	p.dlog = append(p.dlog, domUndo{v, p.doms[v]})
	p.doms[v] = d
}

func (p *PathCond) inResidual(v int32) bool {
	for _, t := range p.res {
		for _, x := range t.vars {
			if x == v {
				return true
			}
		}
	}
	return false
}

// component returns the residual constraints connected to vars and the closure of vars.
func (p *PathCond) component(vars []int32) ([]*Term, []int32) {
	in := map[int32]bool{}
	for _, v := range vars {
		in[v] = true
	}
	used := make([]bool, len(p.res))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, t := range p.res {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range t.vars {
				if in[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, t)
				for _, v := range t.vars {
					if !in[v] {
						in[v] = true
						changed = true
					}
				}
			}
		}
	}
	var vs []int32
	for v := range in {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	return out, vs
}

// query asks z3 for pc-component ∧ cond.
func (p *PathCond) query(cond *Term) (string, map[int32]uint64) {
	cons, vs := p.component(cond.vars)
	var asserts []string
	for _, v := range vs {
		p.z.declareVar(p.tc, v, p.tc.vars[v].w)
		if p.tc.vars[v].w == 8 && p.doms[v] != fullBits {
			asserts = append(asserts, setSMT(p.tc.varName(v), p.doms[v]))
		}
	}
	for _, t := range cons {
		asserts = append(asserts, p.z.ref(p.tc, t))
	}
	asserts = append(asserts, p.z.ref(p.tc, cond))
	key := strings.Join(asserts, "&")
	if e, ok := p.cache[key]; ok {
		p.nCache++
		return e.res, e.model
	}
	p.nZ3++
	r, m := p.z.check(p.tc, asserts, vs)
	if qstat != nil {
		qstat(r, len(vs), len(cons), cond)
	}
	if len(p.cache) > 200000 {
		p.cache = map[string]cacheEnt{}
	}
	p.cache[key] = cacheEnt{r, m}
	return r, m
}

func (p *PathCond) evalWit(t *Term) uint64 { return t.eval(p.wit, map[*Term]uint64{}) }

// status reports whether cond can be true / false under the path condition.
func (p *PathCond) status(cond *Term) (canT, canF bool) {
	switch cond.op {
	case OpConst:
		return cond.c != 0, cond.c == 0
	case OpTbl:
		d := p.doms[cond.v]
		t := d.and(cond.set)
		f := d.andNot(cond.set)
		if t.empty() {
			return false, true
		}
		if f.empty() {
			return true, false
		}
		if len(p.res) == 0 || !p.inResidual(cond.v) {
			p.nFast++
			return true, true
		}
	default:
		if v, ok := p.known[cond.id]; ok {
			return v, !v
		}
		if n := p.tc.not(cond); n.op != OpConst && n.op != OpTbl {
			if v, ok := p.known[n.id]; ok {
				return !v, v
			}
		}
		if lo, hi := p.interval(cond, 0); lo == hi {
			p.nIntv++
			return lo == 1, lo == 0
		}
		if r, ok := p.enumerate(cond); ok {
			p.nEnum++
			return r&1 != 0, r&2 != 0
		}
	}
	w := p.evalWit(cond) != 0
	p.nWit++
	if w {
		r, _ := p.query(p.tc.not(cond))
		if r == "unknown" || strings.HasPrefix(r, "unknown") {
			p.incomplete = true
		}
		return true, r != "unsat"
	}
	r, _ := p.query(cond)
	if strings.HasPrefix(r, "unknown") {
		p.incomplete = true
	}
	return r != "unsat", true
}

// enumerate evaluates a term over few unconstrained small domains.
func (p *PathCond) enumerate(t *Term) (int, bool) {
	if len(t.vars) > 2 || t.size > 60 {
		return 0, false
	}
	n := 1
	for _, v := range t.vars {
		if p.tc.vars[v].w != 8 {
			return 0, false
		}
		n *= p.doms[v].count()
		if n > 1024 || (len(p.res) > 0 && p.inResidual(v)) {
			return 0, false
		}
	}
	asg := make([]uint64, len(p.wit))
	r := 0
	var rec func(i int)
	rec = func(i int) {
		if r == 3 {
			return
		}
		if i == len(t.vars) {
			if t.eval(asg, map[*Term]uint64{}) != 0 {
				r |= 1
			} else {
				r |= 2
			}
			return
		}
		d := p.doms[t.vars[i]]
		for x := 0; x < 256; x++ {
			if d.has(x) {
				asg[t.vars[i]] = uint64(x)
				rec(i + 1)
			}
		}
	}
	rec(0)
	return r, true
}

// interval computes an unsigned range of t under the current domains.
func (p *PathCond) interval(t *Term, depth int) (uint64, uint64) {
	m := mask(t.w)
	if depth > 30 {
		return 0, m
	}
	switch t.op {
	case OpConst:
		return t.c, t.c
	case OpTbl:
		d := p.doms[t.v]
		lo, hi := m, uint64(0)
		for i := 0; i < 256; i++ {
			if d.has(i) {
				x := t.at(i)
				if x < lo {
					lo = x
				}
				if x > hi {
					hi = x
				}
			}
		}
		if lo > hi {
			return 0, m
		}
		return lo, hi
	case OpAdd:
		a, b := p.interval(t.a, depth+1)
		c, d := p.interval(t.b, depth+1)
		if b+d >= b && b+d <= m {
			return a + c, b + d
		}
	case OpSub:
		a, b := p.interval(t.a, depth+1)
		c, d := p.interval(t.b, depth+1)
		if a >= d {
			return a - d, b - c
		}
	case OpMul:
		a, b := p.interval(t.a, depth+1)
		c, d := p.interval(t.b, depth+1)
		if b < 1<<31 && d < 1<<31 && b*d <= m {
			return a * c, b * d
		}
	case OpShl:
		if t.b.op == OpConst && t.b.c < 64 {
			a, b := p.interval(t.a, depth+1)
			if b <= m>>t.b.c {
				return a << t.b.c, b << t.b.c
			}
		}
	case OpLshr:
		if t.b.op == OpConst && t.b.c < 64 {
			a, b := p.interval(t.a, depth+1)
			return a >> t.b.c, b >> t.b.c
		}
	case OpAnd:
		if t.w == 1 {
			a, b := p.interval(t.a, depth+1)
			c, d := p.interval(t.b, depth+1)
			return a & c, b & d
		}
		_, b := p.interval(t.a, depth+1)
		_, d := p.interval(t.b, depth+1)
		if d < b {
			b = d
		}
		return 0, b
	case OpOr:
		if t.w == 1 {
			a, b := p.interval(t.a, depth+1)
			c, d := p.interval(t.b, depth+1)
			return a | c, b | d
		}
		a, b := p.interval(t.a, depth+1)
		c, d := p.interval(t.b, depth+1)
		lo := a
		if c > lo {
			lo = c
		}
		// x|y <= x+y
		if b+d >= b && b+d <= m {
			return lo, b + d
		}
		return lo, m
	case OpXor:
		if t.w == 1 {
			a, b := p.interval(t.a, depth+1)
			c, d := p.interval(t.b, depth+1)
			if a == b && c == d {
				return a ^ c, a ^ c
			}
		}
	case OpZext:
		return p.interval(t.a, depth+1)
	case OpSext:
		a, b := p.interval(t.a, depth+1)
		if b <= mask(t.a.w)>>1 {
			return a, b
		}
	case OpTrunc:
		a, b := p.interval(t.a, depth+1)
		if b <= m {
			return a, b
		}
	case OpIte:
		c0, c1 := p.interval(t.a, depth+1)
		a, b := p.interval(t.b, depth+1)
		c, d := p.interval(t.d, depth+1)
		if c0 == 1 {
			return a, b
		}
		if c1 == 0 {
			return c, d
		}
		return min(a, c), max(b, d)
	case OpEq:
		a, b := p.interval(t.a, depth+1)
		c, d := p.interval(t.b, depth+1)
		if b < c || d < a {
			return 0, 0
		}
		if a == b && c == d && a == c {
			return 1, 1
		}
	case OpUlt:
		a, b := p.interval(t.a, depth+1)
		c, d := p.interval(t.b, depth+1)
		if b < c {
			return 1, 1
		}
		if a >= d {
			return 0, 0
		}
	case OpSlt:
		a, b := p.interval(t.a, depth+1)
		c, d := p.interval(t.b, depth+1)
		h := mask(t.a.w) >> 1
		if b <= h && d <= h {
			if b < c {
				return 1, 1
			}
			if a >= d {
				return 0, 0
			}
		}
	}
	return 0, m
}

// assume adds cond, which must be satisfiable with the path condition.
func (p *PathCond) assume(cond *Term) bool {
	switch cond.op {
	case OpConst:
		return cond.c != 0
	case OpTbl:
		d := p.doms[cond.v].and(cond.set)
		if d.empty() {
			return false
		}
		if d == p.doms[cond.v] {
			return true
		}
		p.setDom(cond.v, d)
		if p.wit != nil && !d.has(int(p.wit[cond.v])) {
			if len(p.res) == 0 || !p.inResidual(cond.v) {
				p.setWit(map[int32]uint64{cond.v: uint64(d.first())})
			} else {
				r, m := p.query(cond)
				if r == "unsat" {
					return false
				}
				if m == nil {
					p.incomplete = true
					m = map[int32]uint64{cond.v: uint64(d.first())}
				}
				p.setWit(m)
			}
		}
		return true
	}
	// conjunctions are split so that single-variable parts narrow the domains
	if cond.op == OpAnd && cond.w == 1 {
		if !p.assume(cond.a) {
			return false
		}
		return p.assume(cond.b)
	}
	if _, ok := p.known[cond.id]; ok {
		return p.known[cond.id]
	}
	need := p.evalWit(cond) == 0
	var m map[int32]uint64
	if need {
		var r string
		r, m = p.query(cond)
		if r == "unsat" {
			return false
		}
		if m == nil {
			p.incomplete = true
		}
	}
	p.res = append(p.res, cond)
	p.known[cond.id] = true
	if m != nil {
		p.setWit(m)
	}
	return true
}

func (p *PathCond) setWit(m map[int32]uint64) {
	w := append([]uint64(nil), p.wit...)
	for v, x := range m {
		for int(v) >= len(w) {
			w = append(w, 0)
		}
		w[v] = x
	}
	p.wit = w
}

func (p *PathCond) newVar(v *SymVar, dom Bits256) int32 {
	// variables created on a path that was backtracked are replaced
	id := int32(len(p.doms))
	v.id = id
	if int(id) < len(p.tc.vars) {
		if p.tc.vars[id].w != v.w {
			// same slot with another width: use a fresh slot
			for int(id) < len(p.tc.vars) && p.tc.vars[id].w != v.w {
				p.doms = append(p.doms, fullBits)
				p.wit = append(append([]uint64(nil), p.wit...), 0)
				id++
			}
			v.id = id
		}
		if int(id) < len(p.tc.vars) {
			p.tc.vars[id] = v
		} else {
			p.tc.vars = append(p.tc.vars, v)
		}
	} else {
		p.tc.vars = append(p.tc.vars, v)
	}
	p.doms = append(p.doms, dom)
	w := append([]uint64(nil), p.wit...)
	x := uint64(0)
	if v.w == 8 {
		x = uint64(dom.first())
	}
	p.wit = append(w, x)
	return id
}

// smtPC renders the whole path condition (for certificates).
func (p *PathCond) smtPC() string {
	var parts []string
	for v := range p.doms {
		if p.tc.vars[v].w == 8 && p.doms[v] != fullBits {
			p.z.declareVar(p.tc, int32(v), 8)
			parts = append(parts, setSMT(p.tc.varName(int32(v)), p.doms[v]))
		}
	}
	for _, t := range p.res {
		parts = append(parts, p.z.ref(p.tc, t))
	}
	switch len(parts) {
	case 0:
		return "true"
	case 1:
		return parts[0]
	}
	return "(and " + strings.Join(parts, " ") + ")"
}

var qstat func(r string, nv, nc int, cond *Term)
