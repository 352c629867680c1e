package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"
)

// Data races and deadlocks of two threads.
//
// The threads of a harness (sym.Thread) run one after the other and leave a
// log of their memory accesses and of their lock operations. sym.NoRace then
// asks the solver for a reordering of the two logs, with a time for every lock
// operation and every access, that keeps the order within a thread and the
// exclusion of the locks but has two conflicting accesses to one location at
// the same time: a data race. Without one (unsat) no schedule of these two
// operations has a race on this path. A second query looks for a reordering
// that leaves both threads waiting for each other's locks.

type raceLog struct {
	events []raceEv
	nq     int // queries
	npair  int // pairs of conflicting accesses given to the solver
	nev    int64
	info   string
}

type raceEv struct {
	kind byte // r, w: access; L, U, l, u: locks (lower case shared); a: atomic read, A: atomic write
	thr  uint8
	loc  any // *Value or *Map
	fn   *Fn
	pos  token.Pos
}

func (r *raceLog) add(vm *VM, kind byte, loc any) {
	p := &vm.path
	if p.thread == 0 {
		return
	}
	ev := raceEv{kind: kind, thr: p.thread, loc: loc}
	if n := len(vm.stack); n > 0 {
		// the innermost frame inside the repository says most
		for i := n - 1; i >= 0 && i > n-6; i-- {
			f := vm.stack[i]
			if i < n-1 && !f.fn.repo {
				continue
			}
			ev.fn = f.fn
			if f.blk < len(f.fn.blocks) && f.pc < len(f.fn.blocks[f.blk].ins) {
				ev.pos = f.fn.blocks[f.blk].ins[f.pc].pos
			}
			if f.fn.repo {
				break
			}
		}
	}
	if p.raceLen > 0 {
		// a restarted instruction, or a loop over one location
		l := &r.events[p.raceLen-1]
		if l.kind == kind && l.loc == loc && l.thr == ev.thr && (kind == 'r' || kind == 'w') {
			return
		}
	}
	r.events = append(r.events[:p.raceLen], ev)
	p.raceLen++
	r.nev++
}

func (r *raceLog) access(vm *VM, c *Value, write bool) {
	if vm.path.thread == 0 {
		return
	}
	if s, ok := c.p.(*Struct); ok {
		for i := range s.f {
			r.access(vm, &s.f[i], write)
		}
		return
	}
	if write {
		r.add(vm, 'w', c)
	} else {
		r.add(vm, 'r', c)
	}
}

func (r *raceLog) reads(vm *VM, s []Value) {
	if vm.path.thread == 0 {
		return
	}
	for i := range s {
		r.access(vm, &s[i], false)
	}
}

func (r *raceLog) accessMap(vm *VM, m *Map, write bool) {
	if m == nil || m.sync {
		return
	}
	if write {
		r.add(vm, 'w', m)
	} else {
		r.add(vm, 'r', m)
	}
}

func (r *raceLog) atomic(vm *VM, c *Value, write bool) {
	if write {
		r.add(vm, 'A', c)
	} else {
		r.add(vm, 'a', c)
	}
}

func (r *raceLog) lock(vm *VM, c *Value, kind string) {
	k := map[string]byte{"L": 'L', "U": 'U', "RL": 'l', "RU": 'u'}[kind]
	// a lock operation that is restarted must not count twice
	r.add(vm, k, c)
}

func (e *raceEv) where() string {
	if e.fn == nil {
		return "?"
	}
	p := ""
	if e.pos.IsValid() {
		ps := theProg.Fset.Position(e.pos)
		p = fmt.Sprintf(" %s:%d", shortFile(ps.Filename), ps.Line)
	}
	return strings.ReplaceAll(e.fn.name, "github.com/JohannesKaufmann/html-to-markdown/v2", "v2") + p
}

// rthread is the log of one thread: synchronisation operations, and between
// them segments of accesses.
type rthread struct {
	sync []raceEv
	acc  map[any][]racc
	held []map[any]byte // locks held before each operation
}

type racc struct {
	seg   int
	write bool
	pos   int // in the log
	ev    *raceEv
}

func (r *raceLog) thread(vm *VM, t uint8) *rthread {
	th := &rthread{acc: map[any][]racc{}}
	held := map[any]byte{}
	ev := r.events[:vm.path.raceLen]
	for i := range ev {
		e := &ev[i]
		if e.thr != t {
			continue
		}
		if e.kind == 'r' || e.kind == 'w' {
			l := th.acc[e.loc]
			n, w := len(th.sync), e.kind == 'w'
			dup := false
			for j := len(l) - 1; j >= 0 && l[j].seg == n; j-- {
				dup = dup || l[j].write == w || l[j].write
			}
			if !dup {
				th.acc[e.loc] = append(l, racc{n, w, i, e})
			}
			continue
		}
		h := map[any]byte{}
		for k, v := range held {
			h[k] = v
		}
		th.held = append(th.held, h)
		th.sync = append(th.sync, *e)
		switch e.kind {
		case 'L', 'l':
			held[e.loc] = e.kind
		case 'U', 'u':
			delete(held, e.loc)
		}
	}
	return th
}

// raceQuery writes the schedules of two threads for the solver. A schedule is
// given by p_j, the number of operations of the longer thread (lo) that are
// done when operation j of the shorter one (sh) is; q_j is the same for the
// accesses in segment j of the shorter one.
type raceQuery struct {
	th     [2]*rthread
	lo, sh int
	n      [2]int // operations of each thread that are part of the schedule
	pre    map[int][]racePre
	decl   []string
	cons   []string
}

func newRaceQuery(th [2]*rthread, n [2]int) *raceQuery {
	q := &raceQuery{th: th, n: n, lo: 0, sh: 1}
	if n[0] < n[1] {
		q.lo, q.sh = 1, 0
	}
	nl, ns := n[q.lo], n[q.sh]
	for j := 0; j <= ns; j++ {
		q.decl = append(q.decl, fmt.Sprintf("q%d", j))
		lo, hi := "0", fmt.Sprint(nl)
		if j > 0 {
			lo = fmt.Sprintf("p%d", j-1)
		}
		if j < ns {
			hi = fmt.Sprintf("p%d", j)
			q.decl = append(q.decl, hi)
		}
		q.cons = append(q.cons, fmt.Sprintf("(<= %s q%d %s)", lo, j, hi))
	}
	type sec struct {
		from, to int // to -1: never released
		ex       bool
	}
	secs := [2]map[any][]sec{{}, {}}
	for t := 0; t < 2; t++ {
		open := map[any]sec{}
		for i := 0; i < n[t]; i++ {
			e := th[t].sync[i]
			switch e.kind {
			case 'L', 'l':
				open[e.loc] = sec{i, -1, e.kind == 'L'}
			case 'U', 'u':
				s := open[e.loc]
				delete(open, e.loc)
				s.to = i
				secs[t][e.loc] = append(secs[t][e.loc], s)
			}
		}
		for l, s := range open {
			secs[t][l] = append(secs[t][l], s)
		}
	}
	var ls []string
	for l, s1 := range secs[q.lo] {
		for _, a := range s1 {
			for _, b := range secs[q.sh][l] {
				if !a.ex && !b.ex {
					continue
				}
				c := "(or false"
				if a.to >= 0 {
					c += fmt.Sprintf(" (<= %d p%d)", a.to+1, b.from)
				}
				if b.to >= 0 {
					c += fmt.Sprintf(" (<= p%d %d)", b.to, a.from)
				}
				ls = append(ls, c+")")
			}
		}
	}
	sort.Strings(ls)
	q.cons = append(q.cons, ls...)
	// what an atomic read saw was written before
	w := map[any]int{}
	for i := 0; i < n[0]; i++ {
		if e := th[0].sync[i]; e.kind == 'A' {
			w[e.loc] = i
		}
	}
	for j := 0; j < n[1]; j++ {
		e := th[1].sync[j]
		if e.kind != 'a' && e.kind != 'A' {
			continue
		}
		if i, ok := w[e.loc]; ok {
			if q.lo == 0 {
				q.cons = append(q.cons, fmt.Sprintf("(<= %d p%d)", i+1, j))
			} else {
				q.cons = append(q.cons, fmt.Sprintf("(<= p%d %d)", i, j))
			}
			delete(w, e.loc)
		}
	}
	return q
}

// before says that an access in segment i of the first thread comes before one
// in segment j of the second; with rev after it.
func (q *raceQuery) before(i, j int, rev bool) string {
	a, b := fmt.Sprint(i), fmt.Sprintf("q%d", j)
	if q.lo == 1 {
		a, b = fmt.Sprintf("q%d", i), fmt.Sprint(j)
	}
	if rev {
		a, b = b, a
	}
	return "(<= " + a + " " + b + ")"
}

// readsFrom adds that what comes before the race (segments S and T) reads what
// it read in the run: the second thread the last write of the first one, and
// the first thread nothing the second one wrote.
func (q *raceQuery) readsFrom() {
	var out []string
	seen := map[string]bool{}
	add := func(s string) {
		if !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	for l, as := range q.th[0].acc {
		bs := q.th[1].acc[l]
		if len(bs) == 0 {
			continue
		}
		lastW, lastR := -1, -1
		own := false
		for _, a := range as {
			if a.write {
				lastW, own = a.seg, true
			} else if !own {
				lastR = a.seg
			}
		}
		if lastW >= 0 && !bs[0].write {
			add(fmt.Sprintf("(or (<= T %d) %s)", bs[0].seg, q.before(lastW, bs[0].seg, false)))
		}
		if lastR >= 0 {
			for _, b := range bs {
				if b.write {
					add(fmt.Sprintf("(or (<= S %d) (<= T %d) %s)", lastR, b.seg, q.before(lastR, b.seg, false)))
					break
				}
			}
		}
	}
	sort.Strings(out)
	q.cons = append(q.cons, out...)
}

func (r *raceLog) ask(vm *VM, q *raceQuery, extra ...string) string {
	z := vm.z
	z.send("(push 1)\n")
	for _, d := range append(q.decl, "S", "T") {
		z.send("(declare-const " + d + " Int)\n")
	}
	r.nq++
	res, _ := z.check(vm.tc, append(q.cons[:len(q.cons):len(q.cons)], extra...), nil)
	z.send("(pop 1)\n")
	return res
}

// verdict is "", or what is wrong.
func (r *raceLog) verdict(vm *VM) (string, string) {
	th := [2]*rthread{r.thread(vm, 1), r.thread(vm, 2)}
	n := [2]int{len(th[0].sync), len(th[1].sync)}
	q := newRaceQuery(th, n)
	q.readsFrom()
	type pair struct {
		a, b racc
	}
	byTerm := map[string]pair{}
	var terms []string
	for l, as := range th[0].acc {
		for _, a := range as {
			for _, b := range th[1].acc[l] {
				if !a.write && !b.write {
					continue
				}
				// earlier reads of this segment of what the other thread wrote
				t := fmt.Sprintf("(and (= S %d) (= T %d) %s %s%s)", a.seg, b.seg, q.before(a.seg, b.seg, false), q.before(a.seg, b.seg, true), q.sameSeg(b))
				if _, ok := byTerm[t]; !ok {
					byTerm[t] = pair{a, b}
					terms = append(terms, t)
				}
				r.npair++
			}
		}
	}
	sort.Strings(terms)
	if slowLog != "" {
		fmt.Fprintln(os.Stderr, "race", n, len(terms), r.npair)
	}
	res := r.ask(vm, q, "(or false "+strings.Join(terms, " ")+")")
	switch {
	case res == "sat":
		for _, t := range terms {
			if r.ask(vm, q, t) == "sat" {
				p := byTerm[t]
				acc := func(a racc) string {
					k := "read"
					if a.write {
						k = "write"
					}
					return k + " at " + a.ev.where()
				}
				return "race", acc(p.a) + " and " + acc(p.b)
			}
		}
		return "race", ""
	case res != "unsat":
		return "unknown", ""
	}
	// locks
	conflict := func(held, want byte) bool { return held != 0 && (held == 'L' || want == 'L') }
	for i, a := range th[0].sync {
		if a.kind != 'L' && a.kind != 'l' {
			continue
		}
		for j, b := range th[1].sync {
			if b.kind != 'L' && b.kind != 'l' {
				continue
			}
			h1, h2 := th[0].held[i], th[1].held[j]
			// who waits for a lock of the other one; a waiting writer also
			// stops new readers
			bBlocked := conflict(h1[b.loc], b.kind)
			aBlocked := conflict(h2[a.loc], a.kind)
			if a.loc == b.loc {
				aBlocked, bBlocked = aBlocked || bBlocked && b.kind == 'L', bBlocked || aBlocked && a.kind == 'L'
			}
			if aBlocked && bBlocked {
				if res := r.ask(vm, newRaceQuery(th, [2]int{i, j})); res == "sat" {
					return "deadlock", a.where() + " and " + b.where()
				} else if res != "unsat" {
					return "unknown", ""
				}
			}
		}
	}
	return "", ""
}

// sameSeg adds what the reads between the last operation and access b of the
// second thread saw.
func (q *raceQuery) sameSeg(b racc) string {
	if q.pre == nil {
		q.pre = map[int][]racePre{}
		for l, bs := range q.th[1].acc {
			if bs[0].write {
				continue
			}
			lastW := -1
			for _, a := range q.th[0].acc[l] {
				if a.write {
					lastW = a.seg
				}
			}
			if lastW >= 0 {
				q.pre[bs[0].seg] = append(q.pre[bs[0].seg], racePre{bs[0].pos, lastW})
			}
		}
	}
	w := -1
	for _, p := range q.pre[b.seg] {
		if p.pos < b.pos && p.w > w {
			w = p.w
		}
	}
	if w < 0 {
		return ""
	}
	// a write in segment w is over when the segment is
	return " (< " + fmt.Sprint(w) + " S)"
}

type racePre struct{ pos, w int }

func (vm *VM) raceAtomic(c *Value, write bool) {
	if vm.race != nil {
		vm.race.atomic(vm, c, write)
	}
}

// callNative runs a function the engine implements itself; it may read what
// its slices hold.
func (vm *VM) callNative(fn *Fn, args []Value) Value {
	if vm.race != nil {
		for i := range args {
			if s, ok := args[i].p.([]Value); ok {
				vm.race.reads(vm, s)
			}
		}
	}
	return fn.native(vm, args)
}
