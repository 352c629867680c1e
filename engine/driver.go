package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Tier struct {
	Params  map[string]int    `json:"params"`
	SParams map[string]string `json:"sparams"`
	Steps   int               `json:"steps"`
}

type Job struct {
	Fn       string            `json:"fn"`
	Name     string            `json:"name"`
	Params   map[string]int    `json:"params"`
	SParams  map[string]string `json:"sparams"`
	Steps    int               `json:"steps"`
	MapOrder bool              `json:"map_order"`
	Thorough bool              `json:"thorough"` // only in the thorough tier
	TParams  map[string]int    `json:"tparams"`  // overrides for the thorough tier
	TSParams map[string]string `json:"tsparams"`
	Bounds   string            `json:"bounds"`
	NoSpec   bool              `json:"nospec"`
	NoReplay bool              `json:"noreplay"`
	Race     bool              `json:"race"` // logs memory accesses; replayed under the race detector

	mu       sync.Mutex
	paths    int64
	asserts  int64
	ends     map[string]int64
	reached  map[string]int64
	steps    int64
	sec      float64
	detail   map[string]string
	viol     []*Violation
	nViol    int
	aborted  bool
	items    int
	certs    [3]int // proved, failed, unknown
	outputs  map[string]bool
	outSplit bool
}

type CheckCfg struct {
	Jobs        []*Job   `json:"jobs"`
	Assumptions []string `json:"assumptions"`
	Bounds      string   `json:"bounds"`
	Pkg         string   `json:"pkg"`
	QuickSec    int      `json:"quick_s"`
	ThoroughSec int      `json:"thorough_s"`
}

type Violation struct {
	Job      *Job
	Msg      string
	Kind     string
	Detail   string
	Inputs   []ReplayInput
	Obs      []ReplayObs
	Findings []string
	status   string
	native   string
}

type sample struct {
	job    *Job
	inputs []ReplayInput
	obs    []ReplayObs
}

type item struct {
	job    *Job
	prefix []dec
}

type Check struct {
	prop    string
	tier    string
	cfg     *CheckCfg
	mu      sync.Mutex
	cond    *sync.Cond
	queue   []item
	active  int
	idle    atomic.Int32
	stop    atomic.Bool
	done    bool
	samples []sample
	start   time.Time
	nSample int
	dead    time.Time

	paths, forks, steps, queries, fast, wit, enum, intv, cached, z3q, specs, merges, undecided, certOK, certFail, certUnk, raceQ, racePairs, raceEvents int64
	z3dur                                                                                                                                               time.Duration
	unknown                                                                                                                                             int64
	vmErr                                                                                                                                               []string
	known                                                                                                                                               []KnownFinding
}

type KnownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

// worker is one VM exploring work items; it implements events.
type worker struct {
	c             *Check
	vm            *VM
	job           *Job
	leafs         []string
	startPC       string
	nleaf         int
	term          int
	lastViolation bool
	rng           uint64
	race          raceLog
	nSamp         int
}

func (w *worker) query(kind string) { atomic.AddInt64(&w.c.queries, 1) }

func (w *worker) excluded(vm *VM, cond *Term) {
	s := vm.pc.smtPC()
	c := vm.z.ref(vm.tc, cond)
	w.leafs = append(w.leafs, "(and "+s+" "+c+")")
}

func (w *worker) assertFail(vm *VM, msg string, cond *Term, model map[int32]uint64) {
	asg := append([]uint64(nil), vm.pc.wit...)
	for v, x := range model {
		for int(v) >= len(asg) {
			asg = append(asg, 0)
		}
		asg[v] = x
	}
	where := vm.where()
	if vm.race != nil && vm.race.info != "" {
		where = vm.race.info
	}
	w.violation("assert", msg, where, asg)
}

// maxShown is the number of counterexamples kept per job and message.
var maxShown = func() int {
	n := 6
	fmt.Sscan(os.Getenv("GOSYM_V"), &n)
	return n
}()

func (w *worker) violation(kind, msg, detail string, asg []uint64) {
	vm := w.vm
	v := &Violation{Job: w.job, Msg: msg, Kind: kind, Detail: detail, Inputs: vm.inputsUnder(asg), Obs: vm.obsUnder(asg), Findings: append([]string(nil), vm.path.findings...)}
	j := w.job
	j.mu.Lock()
	defer j.mu.Unlock()
	if !w.c.isKnown(v) {
		j.nViol++
	}
	n := 0
	for _, o := range j.viol {
		if o.Msg == msg && o.Kind == kind && strings.Join(o.Findings, ",") == strings.Join(v.Findings, ",") {
			n++
		}
	}
	if n < maxShown {
		j.viol = append(j.viol, v)
	}
}

func (w *worker) pathEnd(vm *VM, kind, detail string) {
	j := w.job
	w.nleaf++
	if kind == "panic" {
		w.violation("panic", "panic: "+firstLine(detail), detail, vm.pc.wit)
	}
	if kind == "steplimit" || kind == "stack overflow" || kind == "deadlock" || kind == "memory" {
		w.violation(kind, "does not terminate ("+kind+")", detail, vm.pc.wit)
	}
	if kind != "infeasible" {
		w.leafs = append(w.leafs, vm.pc.smtPC())
	}
	j.mu.Lock()
	j.paths++
	j.ends[kind]++
	j.asserts += int64(vm.path.asserts)
	j.steps += int64(vm.path.steps)
	for _, r := range vm.path.reached {
		j.reached[r]++
	}
	if kind == "unsupported" || kind == "vmbug" {
		if len(j.detail) < 8 {
			j.detail[kind+": "+detail] = ""
		}
	}
	j.mu.Unlock()
	atomic.AddInt64(&w.c.paths, 1)
	if kind == "ok" && len(vm.path.findings) == 0 {
		w.rng = w.rng*6364136223846793005 + 1442695040888963407
		if w.nSamp < 2 || (w.rng>>33)%211 == 0 {
			w.nSamp++
			s := sample{j, vm.inputsUnder(vm.pc.wit), vm.obsUnder(vm.pc.wit)}
			w.c.mu.Lock()
			w.c.nSample++
			if len(w.c.samples) < 400 {
				w.c.samples = append(w.c.samples, s)
			} else {
				w.c.samples[int(w.rng>>20)%400] = s
			}
			w.c.mu.Unlock()
		}
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func (vm *VM) initPackages() error {
	fn, err := harnessFn("init")
	if err != nil {
		return err
	}
	vm.limit = 500_000_000
	vm.noSpec = true
	vm.stack = vm.stack[:0]
	vm.push(fnOf(fn), nil, nil, retNormal)
	k, d := vm.runPath()
	if k != "ok" {
		return fmt.Errorf("package initialisation: %s %s", k, d)
	}
	vm.undo = nil
	vm.noSpec = false
	vm.path = pathState{}
	vm.free = nil
	return nil
}

func (w *worker) newSolver() error {
	if w.vm.z != nil {
		w.collectSolver()
		w.vm.z.close()
	}
	z, err := startZ3()
	if err != nil {
		return err
	}
	w.vm.z = z
	w.vm.tc = newTermCtx()
	old := w.vm.pc
	w.vm.pc = newPathCond(w.vm.tc, z)
	if old != nil {
		w.collectPC(old)
	}
	return nil
}

func (w *worker) collectSolver() {
	c := w.c
	c.mu.Lock()
	c.z3q += int64(w.vm.z.queries)
	c.z3dur += w.vm.z.dur
	c.unknown += int64(w.vm.z.unknown)
	c.raceQ += int64(w.race.nq)
	c.racePairs += int64(w.race.npair)
	c.raceEvents += w.race.nev
	w.race.nq, w.race.npair, w.race.nev = 0, 0, 0
	c.mu.Unlock()
}
func (w *worker) collectPC(p *PathCond) {
	c := w.c
	c.mu.Lock()
	c.fast += int64(p.nFast)
	c.wit += int64(p.nWit)
	c.enum += int64(p.nEnum)
	c.intv += int64(p.nIntv)
	c.cached += int64(p.nCache)
	c.mu.Unlock()
	p.nFast, p.nWit, p.nEnum, p.nIntv, p.nCache = 0, 0, 0, 0, 0
}

const leafSplit = 800

// runItem explores one work item.
func (w *worker) runItem(it item) {
	vm := w.vm
	if len(vm.z.defined) > 30000 || len(vm.tc.nodes) > 200000 {
		if err := w.newSolver(); err != nil {
			panic(err)
		}
	}
	w.job = it.job
	w.leafs = w.leafs[:0]
	w.nleaf = 0
	w.nSamp = 0
	w.startPC = "true"
	vm.job = it.job
	vm.ev = w
	vm.prefix = it.prefix
	vm.decs = vm.decs[:0]
	vm.choices = vm.choices[:0]
	vm.rollback(0)
	vm.pc.restore(pcMark{})
	vm.pc.wit = nil
	vm.pc.incomplete = false
	vm.path = pathState{}
	vm.epoch++
	vm.stack = vm.stack[:0]
	vm.noSpec = it.job.NoSpec || it.job.Race
	vm.race = nil
	if it.job.Race {
		vm.race = &w.race
		w.race.events = w.race.events[:0]
	}
	vm.limit = it.job.Steps
	if vm.limit == 0 {
		vm.limit = 4_000_000
	}
	vm.startPC = "true"
	fn, err := harnessFn(it.job.Fn)
	if err != nil {
		panic(err)
	}
	t0 := time.Now()
	vm.push(fnOf(fn), nil, nil, retNormal)
	for {
		kind, detail := vm.runPath()
		w.pathEnd(vm, kind, detail)
		if w.c.stop.Load() || it.job.aborted {
			// undecided rest
			break
		}
		if it.job.nViol > 60 {
			it.job.aborted = true
			break
		}
		if time.Now().After(w.c.dead) {
			w.c.stop.Store(true)
			break
		}
		if w.c.idle.Load() > 0 && len(w.c.queue) == 0 {
			w.donate(1)
		}
		if w.nleaf >= leafSplit {
			w.donate(1 << 30)
		}
		if !vm.backtrack() {
			break
		}
	}
	left := 0
	for _, ch := range vm.choices {
		left += len(ch.alts) - ch.next
	}
	vm.rollback(0)
	vm.pc.restore(pcMark{})
	if left > 0 {
		atomic.AddInt64(&w.c.undecided, int64(left))
	} else {
		w.certify()
	}
	if slowLog != "" && time.Since(t0) > 2*time.Second {
		fmt.Fprintf(os.Stderr, "item %.1fs at %.1f leaves=%d prefix=%d q=%d\n", time.Since(t0).Seconds(), time.Since(w.c.start).Seconds(), w.nleaf, len(it.prefix), len(w.c.queue))
	}
	it.job.mu.Lock()
	it.job.items++
	it.job.sec += time.Since(t0).Seconds()
	it.job.mu.Unlock()
}

// certify asks the solver whether the leaves cover the whole work item.
func (w *worker) certify() {
	vm := w.vm
	start := vm.startPC
	asserts := make([]string, 0, len(w.leafs)+1)
	asserts = append(asserts, start)
	seen := map[string]bool{}
	for _, l := range w.leafs {
		if seen[l] {
			continue
		}
		seen[l] = true
		asserts = append(asserts, "(not "+l+")")
	}
	for v := range vm.tc.vars {
		vm.z.declareVar(vm.tc, int32(v), vm.tc.vars[v].w)
	}
	r, _ := vm.z.check(vm.tc, asserts, nil)
	j := w.job
	j.mu.Lock()
	switch r {
	case "unsat":
		j.certs[0]++
	case "sat":
		j.certs[1]++
	default:
		j.certs[2]++
	}
	j.mu.Unlock()
	if os.Getenv("GOSYM_CERT") != "" && r != "unsat" {
		os.WriteFile(fmt.Sprintf("/tmp/cert-%s.txt", j.Fn), []byte(strings.Join(asserts, "\n")), 0o644)
	}
}

// donate moves unexplored alternatives of the oldest choice points to the queue.
func (w *worker) donate(max int) {
	vm := w.vm
	n := 0
	for i, ch := range vm.choices {
		if ch.next >= len(ch.alts) {
			continue
		}
		for ; ch.next < len(ch.alts); ch.next++ {
			p := append(append([]dec(nil), vm.decs[:ch.ndec]...), dec{ch.next, ch.val, ch.has})
			alt := ch.alts[ch.next]
			w.leafs = append(w.leafs, "(and "+vm.pc.smtAt(ch.pcm)+" "+vm.z.ref(vm.tc, alt)+")")
			w.c.push(item{w.job, p})
		}
		n++
		_ = i
		if n >= max {
			break
		}
	}
}

func (c *Check) push(it item) {
	c.mu.Lock()
	c.queue = append(c.queue, it)
	c.cond.Signal()
	c.mu.Unlock()
}

func (c *Check) pop() (item, bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.active--
	c.idle.Add(1)
	for {
		if c.stop.Load() {
			c.undecided += int64(len(c.queue))
			c.queue = nil
		}
		if len(c.queue) > 0 {
			it := c.queue[0]
			c.queue = c.queue[1:]
			c.active++
			c.idle.Add(-1)
			return it, true
		}
		if c.active == 0 {
			c.done = true
			c.cond.Broadcast()
			return item{}, false
		}
		c.cond.Wait()
		if c.done {
			return item{}, false
		}
	}
}

func (c *Check) worker(i int) {
	w := &worker{c: c, rng: uint64(i)*77777 + 12345}
	w.vm = &VM{inited: map[string]bool{}, pools: map[*Value][]Value{}, misc: map[string]any{}}
	w.vm.ev = w
	if err := w.newSolver(); err != nil {
		c.fail("solver: " + err.Error())
		return
	}
	if err := w.vm.initPackages(); err != nil {
		c.fail(err.Error())
		c.stop.Store(true)
	}
	w.vm.misc = map[string]any{}
	for {
		it, ok := c.pop()
		if !ok {
			break
		}
		if it.job.aborted {
			continue
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.fail(fmt.Sprintf("engine: %v\n%s", r, debug.Stack()))
					c.stop.Store(true)
				}
			}()
			w.runItem(it)
		}()
	}
	w.collectSolver()
	w.collectPC(w.vm.pc)
	c.mu.Lock()
	c.forks += int64(w.vm.nFork)
	c.specs += int64(w.vm.nSpec)
	c.merges += int64(w.vm.nMerge)
	c.mu.Unlock()
	w.vm.z.close()
}

func (c *Check) fail(s string) {
	c.mu.Lock()
	if len(c.vmErr) < 3 {
		c.vmErr = append(c.vmErr, s)
	}
	c.mu.Unlock()
}

// smtAt renders the path condition as it was at a mark.
func (p *PathCond) smtAt(m pcMark) string {
	doms := append([]Bits256(nil), p.doms...)
	for i := len(p.dlog) - 1; i >= m.nd; i-- {
		doms[p.dlog[i].v] = p.dlog[i].old
	}
	var parts []string
	for v := 0; v < m.nv; v++ {
		if p.tc.vars[v].w == 8 && doms[v] != fullBits {
			p.z.declareVar(p.tc, int32(v), 8)
			parts = append(parts, setSMT(p.tc.varName(int32(v)), doms[v]))
		}
	}
	for _, t := range p.res[:m.nr] {
		parts = append(parts, p.z.ref(p.tc, t))
	}
	switch len(parts) {
	case 0:
		return "true"
	case 1:
		return parts[0]
	}
	return "(and " + strings.Join(parts, " ") + ")"
}

// ---- replay ----

type replayCase struct {
	Fn      string            `json:"fn"`
	Params  map[string]int    `json:"params"`
	SParams map[string]string `json:"sparams"`
	Inputs  []ReplayInput     `json:"inputs"`
}

type replayResult struct {
	Status string      `json:"status"`
	Msg    string      `json:"msg"`
	Obs    []ReplayObs `json:"obs"`
}

func (c *Check) replay(runner, work string, cases []replayCase, timeout time.Duration, env ...string) []replayResult {
	res := make([]replayResult, len(cases))
	f := filepath.Join(work, fmt.Sprintf("cases-%d.json", time.Now().UnixNano()))
	b, _ := json.Marshal(cases)
	os.WriteFile(f, b, 0o644)
	defer os.Remove(f)
	cmd := exec.Command(runner, f)
	sc := filepath.Join(work, "scratch")
	os.MkdirAll(sc, 0o755)
	cmd.Dir = sc
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=2GiB", "GORACE=atexit_sleep_ms=0", "VERIF_SCRATCH="+sc)
	cmd.Env = append(cmd.Env, env...)
	var out strings.Builder
	var errb strings.Builder
	cmd.Stdout = &out
	cmd.Stderr = &errb
	if err := cmd.Start(); err != nil {
		for i := range res {
			res[i] = replayResult{Status: "error", Msg: err.Error()}
		}
		return res
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	to := false
	select {
	case <-done:
	case <-time.After(timeout):
		to = true
		cmd.Process.Kill()
		<-done
	}
	lines := strings.Split(out.String(), "\n")
	for i := range res {
		res[i].Status = "none"
		if i < len(lines) && lines[i] != "" {
			if json.Unmarshal([]byte(lines[i]), &res[i]) != nil {
				res[i].Status = "none"
			}
		}
		if res[i].Status == "none" {
			if to {
				res[i].Status = "timeout"
			} else {
				res[i].Status = "crash"
				res[i].Msg = firstLine(errb.String())
			}
		}
	}
	return res
}

func mkCase(j *Job, in []ReplayInput) replayCase {
	return replayCase{Fn: j.Fn, Params: j.Params, SParams: j.SParams, Inputs: in}
}

// ---- one check ----

func runCheck(verif, prop, tier string, only string, maxSec int) int {
	start := time.Now()
	runtime.GOMAXPROCS(8)
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(24 << 30)
	cfgs := map[string]*CheckCfg{}
	b, err := os.ReadFile(filepath.Join(verif, "checks.json"))
	if err == nil {
		err = json.Unmarshal(b, &cfgs)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "checks.json:", err)
		return 2
	}
	cfg := cfgs[prop]
	if cfg == nil {
		fmt.Fprintln(os.Stderr, "no such check:", prop)
		return 2
	}
	work, err := os.MkdirTemp("", "gosym-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(work)
	c := &Check{prop: prop, tier: tier, cfg: cfg, start: start}
	c.cond = sync.NewCond(&c.mu)
	if cfg.Pkg != "" {
		hDir = cfg.Pkg
	}
	var jobs []*Job
	fnset := map[string]bool{}
	for _, j := range cfg.Jobs {
		if j.Thorough && tier != "thorough" {
			continue
		}
		if only != "" && j.Name != only && j.Fn != only {
			continue
		}
		if tier == "thorough" {
			p := map[string]int{}
			for k, v := range j.Params {
				p[k] = v
			}
			for k, v := range j.TParams {
				p[k] = v
			}
			j.Params = p
			sp := map[string]string{}
			for k, v := range j.SParams {
				sp[k] = v
			}
			for k, v := range j.TSParams {
				sp[k] = v
			}
			j.SParams = sp
		}
		j.ends, j.reached, j.detail = map[string]int64{}, map[string]int64{}, map[string]string{}
		jobs = append(jobs, j)
		fnset[j.Fn] = true
	}
	var fns []string
	for f := range fnset {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	ov, err := overlayFiles(verif, work, fns)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	ovFile := filepath.Join(work, "overlay.json")
	writeOverlay(ov, ovFile)
	runner := filepath.Join(work, "runner")
	built := make(chan error, 1)
	race := false
	for _, j := range jobs {
		race = race || j.Race
	}
	go func() { built <- buildRunner(ovFile, runner, race) }()
	if err := loadProgram(ov); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	loadS := time.Since(start).Seconds()
	sec := cfg.QuickSec
	if sec == 0 {
		sec = 240
	}
	if tier == "thorough" {
		sec = cfg.ThoroughSec
		if sec == 0 {
			sec = 780
		}
	}
	if maxSec > 0 {
		sec = maxSec
	}
	c.loadKnown(verif)
	c.dead = start.Add(time.Duration(sec) * time.Second)
	for _, j := range jobs {
		c.queue = append(c.queue, item{j, nil})
	}
	n := 8
	if s := os.Getenv("GOSYM_WORKERS"); s != "" {
		fmt.Sscan(s, &n)
	}
	c.active = n
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) { defer wg.Done(); c.worker(i) }(i)
	}
	wg.Wait()
	expl := time.Since(start).Seconds()
	if err := <-built; err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return c.report(verif, work, runner, jobs, loadS, expl)
}

func (c *Check) isKnown(v *Violation) bool {
	for _, k := range c.known {
		if k.Status == "known" && k.Property == c.prop {
			for _, f := range v.Findings {
				if f == k.ID {
					return true
				}
			}
		}
	}
	return false
}

func (c *Check) loadKnown(verif string) {
	b, err := os.ReadFile(filepath.Join(verif, "known_findings.json"))
	if err != nil {
		return
	}
	json.Unmarshal(b, &c.known)
}

func (c *Check) report(verif, work, runner string, jobs []*Job, loadS, expl float64) int {
	// replay the counterexamples against the real code
	unconfirmed := []string{}
	var viols []*Violation
	knownHit := map[string]string{}
	for _, j := range jobs {
		for _, v := range j.viol {
			if j.Race && len(viols) > 0 && viols[0].Job.Race {
				continue // one confirmed schedule is enough: confirming takes long
			}
			if j.NoReplay {
				v.status = "confirmed"
				v.native = "(no native replay for this property: the history is a schedule)"
			} else {
				to := 20 * time.Second
				r := c.replay(runner, work, []replayCase{mkCase(j, v.Inputs)}, to, "VERIF_CONFIRM=1")[0]
				v.native = r.Status + ": " + r.Msg
				switch r.Status {
				case "assert", "panic", "timeout", "crash":
					v.status = "confirmed"
				default:
					v.status = "unconfirmed"
					unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s %v native=%s %s", j.Fn, v.Msg, show(v.Inputs), v.native, v.Detail))
				}
			}
			if v.status != "confirmed" {
				continue
			}
			kf := ""
			for _, k := range c.known {
				if k.Status == "known" && k.Property == c.prop {
					for _, f := range v.Findings {
						if f == k.ID {
							kf = k.ID
							knownHit[k.ID] = k.What
						}
					}
				}
			}
			if kf == "" {
				viols = append(viols, v)
			}
		}
	}
	// translation validation: sampled paths
	validated, mismatched := 0, []string{}
	var samplesOut []any
	if len(c.samples) > 0 && !(len(viols) > 0 && viols[0].Job.Race) {
		cases := make([]replayCase, len(c.samples))
		for i, s := range c.samples {
			cases[i] = mkCase(s.job, s.inputs)
		}
		for i, r := range c.replay(runner, work, cases, 120*time.Second) {
			s := c.samples[i]
			if s.job.NoReplay {
				continue
			}
			if r.Status == "ok" && sameObs(r.Obs, s.obs) {
				validated++
				if len(samplesOut) < 6 && i%7 == 0 {
					samplesOut = append(samplesOut, map[string]any{"harness": s.job.Fn, "inputs": show(s.inputs), "observed": showObs(s.obs)})
				}
			} else {
				mismatched = append(mismatched, fmt.Sprintf("%s %s: vm=%v native=%s %s %v", s.job.Fn, show(s.inputs), showObs(s.obs), r.Status, r.Msg, showObs(r.Obs)))
				// the real code fails on an input the model passed: report it as a violation
				if r.Status == "assert" || r.Status == "panic" || r.Status == "timeout" || r.Status == "crash" {
					v := &Violation{Job: s.job, Msg: "found by replay: " + r.Msg, Kind: r.Status, Inputs: s.inputs, native: r.Status + ": " + r.Msg, status: "confirmed"}
					viols = append(viols, v)
				}
			}
		}
	}
	if len(samplesOut) == 0 && len(c.samples) > 0 {
		s := c.samples[0]
		samplesOut = append(samplesOut, map[string]any{"harness": s.job.Fn, "inputs": show(s.inputs), "observed": showObs(s.obs)})
	}
	if samplesOut == nil {
		samplesOut = []any{}
	}
	var totalAsserts, steps int64
	jobsOut := []any{}
	certs := [3]int{}
	undecPaths := int64(0)
	for _, j := range jobs {
		totalAsserts += j.asserts
		steps += j.steps
		for i := range certs {
			certs[i] += j.certs[i]
		}
		for k, n := range j.ends {
			if k == "unsupported" || k == "vmbug" {
				undecPaths += n
			}
		}
		det := []string{}
		for d := range j.detail {
			det = append(det, firstLine(d))
		}
		jobsOut = append(jobsOut, map[string]any{"harness": j.Fn, "name": j.Name, "params": j.Params, "sparams": j.SParams, "bounds": j.Bounds, "paths": j.paths, "path_ends": j.ends, "assertions_evaluated": j.asserts, "reached": j.reached, "instructions": j.steps, "cpu_s": round2(j.sec), "work_items": j.items, "coverage_certificates": map[string]int{"proved": j.certs[0], "refuted": j.certs[1], "unknown": j.certs[2]}, "undecided_detail": det})
	}
	wall := time.Since(c.start).Seconds()
	exhausted := c.undecided == 0 && undecPaths == 0 && len(c.vmErr) == 0 && certs[1] == 0 && certs[2] == 0
	cov := map[string]any{
		"states":                        c.paths,
		"transitions":                   c.forks,
		"traces_validated_against_impl": validated,
		"samples":                       samplesOut,
		"exhaustive":                    exhausted,
		"bounds":                        c.cfg.Bounds,
		"explanation":                   "states = symbolic paths run to their end, transitions = symbolic branch decisions; every value within the bounds follows one of the paths, which the solver confirms per work item (coverage_certificates: start condition and no path condition holds is unsat)",
		"jobs":                          jobsOut,
		"assertions_evaluated":          totalAsserts,
		"assertion_queries":             c.queries,
		"solver":                        map[string]any{"name": z3Name, "queries": c.z3q, "seconds": round2(c.z3dur.Seconds()), "unknown": c.unknown, "answered_from_cache": c.cached},
		"branch_feasibility":            map[string]any{"byte_domains": c.fast, "witness_plus_query": c.wit, "two_byte_enumeration": c.enum, "intervals": c.intv},
		"region_merges":                 map[string]any{"attempted": c.specs, "merged": c.merges},
		"undecided":                     map[string]any{"unexplored_alternatives": c.undecided, "paths_with_unsupported_code": undecPaths, "unconfirmed_counterexamples": unconfirmed, "engine_errors": c.vmErr},
		"translation_validation":        map[string]any{"replayed": len(c.samples), "agree": validated, "disagree": mismatched},
		"functions_encoded":             repoFunctions(),
		"instructions_interpreted":      steps,
		"schedules":                     map[string]any{"queries": c.raceQ, "conflicting_access_pairs": c.racePairs, "logged_events": c.raceEvents},
		"load_s":                        round2(loadS),
		"explore_s":                     round2(expl),
	}
	nviol := len(viols)
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{"property": c.prop, "tier": c.tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round2(wall), "violations": nviol, "assumptions": append([]string{}, c.cfg.Assumptions...)}
	os.MkdirAll(filepath.Join(verif, "evidence", "replays"), 0o755)
	eb, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", c.prop+".json"), eb, 0o644)
	fmt.Printf("%s %s: %d paths, %d assertions, %d solver queries (%.1f s), %d/%d samples agree, exhaustive=%v, %.1f s (load %.1f, explore %.1f)\n", c.prop, c.tier, c.paths, totalAsserts, c.z3q, c.z3dur.Seconds(), validated, len(c.samples), exhausted, wall, loadS, expl)
	for _, j := range jobs {
		fmt.Printf("  %-28s %-12s paths=%d ends=%v asserts=%d certs=%v cpu=%.1f reached=%v\n", j.Fn, j.Name, j.paths, j.ends, j.asserts, j.certs, j.sec, j.reached)
		for d := range j.detail {
			fmt.Println("    undecided:", d)
		}
	}
	if c.undecided > 0 {
		fmt.Println("  unexplored alternatives:", c.undecided)
	}
	for _, u := range unconfirmed {
		fmt.Println("  unconfirmed:", u)
	}
	for _, m := range mismatched {
		fmt.Println("  mismatch:", m)
	}
	for _, e := range c.vmErr {
		fmt.Println("  engine error:", e)
	}
	var ks []string
	for k := range knownHit {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Printf("KNOWN-FINDING: property=%s %s %s\n", c.prop, k, knownHit[k])
	}
	if nviol > 0 {
		seen := map[string]bool{}
		i := 0
		for _, v := range viols {
			k := v.Job.Fn + v.Msg
			if maxShown > 6 {
				k += v.Job.Name + show(v.Inputs)
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			f := filepath.Join(verif, "evidence", "replays", fmt.Sprintf("%s-%d.json", c.prop, i))
			i++
			rb, _ := json.MarshalIndent(map[string]any{"property": c.prop, "message": v.Msg, "kind": v.Kind, "where": v.Detail, "native": v.native, "case": mkCase(v.Job, v.Inputs), "observed": showObs(v.Obs)}, "", " ")
			os.WriteFile(f, rb, 0o644)
			fmt.Printf("  %s: %s\n    inputs: %s\n    observed: %s\n    native: %s\n    at: %s\n", v.Job.Fn, v.Msg, show(v.Inputs), showObs(v.Obs), v.native, firstLine(v.Detail))
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, f)
		}
		return 1
	}
	if totalAsserts == 0 {
		fmt.Println("error: no assertion was evaluated")
		return 2
	}
	return 0
}

func round2(f float64) float64 { return float64(int(f*100)) / 100 }

func sameObs(a, b []ReplayObs) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func show(in []ReplayInput) string {
	var p []string
	for _, i := range in {
		s := i.Show
		if s == "" {
			s = fmt.Sprint(i.Int)
		}
		p = append(p, i.Name+"="+s)
	}
	return strings.Join(p, " ")
}

func showObs(o []ReplayObs) string {
	var p []string
	for _, x := range o {
		v := x.Val
		var b []byte
		if _, err := fmt.Sscanf(v, "%x", &b); err == nil && len(b)*2 == len(v) {
			v = fmt.Sprintf("%q", b)
		}
		p = append(p, x.Name+"="+v)
	}
	return strings.Join(p, " ")
}
