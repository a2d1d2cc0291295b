package main

// Path exploration: re-execution from decision prefixes, branch feasibility
// decided by the solver.

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type dec struct {
	kind   uint8 // 0 branch, 1 concretised value
	val    bool
	forced bool
	u      uint64
}

type Task struct {
	prefix []dec
	model  Model
}

type Violation struct {
	Harness string
	Kind    string // assert, panic, steps, race
	Msg     string
	Model   Model
	Where   string
}

type pathSample struct {
	model  Model
	obs    []string
	result string
	exact  bool // no unmodelled text observed
}

// HarnessRun accumulates the exploration of one harness.
type HarnessRun struct {
	name          string
	fn            *ssa.Function
	tier          string
	mu            sync.Mutex
	cond          *sync.Cond
	stack         []*Task
	active        int
	stop          bool
	paths         int
	aborted       map[string]int
	incompl       map[string]int
	cover         map[string]int
	violations    []*Violation
	samples       []pathSample
	maxSamples    int
	nAbortS       int
	pops          int
	abortModels   []Model // inputs of paths that were given up
	decisions     int64
	forks         int64
	steps         int64
	maxSteps      int
	deadline      time.Time
	pathLimit     int
	encFns        map[string]bool
	vars          map[string]int
	asserts       int64
	assertsProved int64
	maxViol       int
	rng           uint64
	t0            time.Time
	dur           time.Duration
	stats         SolverStats
	solverErrs    []string
}

// ---- decisions ----

func (i *Interp) noteLit(t *Term, v bool) {
	if v {
		i.lits[t] = true
		i.lits[i.bank.Not(t)] = false
	} else {
		i.lits[t] = false
		i.lits[i.bank.Not(t)] = true
	}
}

func (i *Interp) literal(t *Term, v bool) *Term {
	if v {
		return t
	}
	return i.bank.Not(t)
}

func (i *Interp) decide(t *Term) bool {
	if t.isConst() {
		return t.u != 0
	}
	if v, ok := i.lits[t]; ok {
		return v
	}
	if i.initing {
		// library initialisation must be concrete
		panic(unsupported("symbolic branch in library initialisation"))
	}
	if i.pos < len(i.prefix) {
		d := i.prefix[i.pos]
		if d.kind != 0 {
			panic(pathAbort{"internal", "replay divergence (branch)"})
		}
		i.pos++
		i.trace = append(i.trace, d)
		i.noteLit(t, d.val)
		if !d.forced {
			i.solver.Assert(i.literal(t, d.val))
		}
		return d.val
	}
	v := i.bank.Eval(t, i.model) != 0
	forced := i.branch(t, v, dec{kind: 0, val: !v})
	i.trace = append(i.trace, dec{kind: 0, val: v, forced: forced})
	i.noteLit(t, v)
	if !forced {
		i.solver.Assert(i.literal(t, v))
	}
	i.hctxDecisions()
	return v
}

func (i *Interp) hctxDecisions() {
	if i.hctx != nil {
		atomic.AddInt64(&i.hctx.decisions, 1)
	}
}

// branch checks the side of t opposite to v; feasible sides are queued.
// It reports whether v is implied by the path condition.
func (i *Interp) branch(t *Term, v bool, other dec) bool {
	res, m := i.solver.Check(i.literal(t, !v), true)
	switch res {
	case Unsat:
		return true
	case Sat:
		p := make([]dec, len(i.trace)+1)
		copy(p, i.trace)
		p[len(i.trace)] = other
		i.enqueue(&Task{prefix: p, model: m})
		atomic.AddInt64(&i.hctx.forks, 1)
	default:
		i.incompl["solver unknown on a branch (other side not explored)"]++
	}
	return false
}

// concretize fixes t to a concrete value, forking over all feasible values.
func (i *Interp) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.u
	}
	if t.w == 0 {
		if i.decide(t) {
			return 1
		}
		return 0
	}
	n := 0
	for {
		n++
		if i.pos < len(i.prefix) {
			d := i.prefix[i.pos]
			if d.kind != 1 {
				panic(pathAbort{"internal", "replay divergence (value)"})
			}
			i.pos++
			i.trace = append(i.trace, d)
			eq := i.bank.Eq(t, i.bank.Const(t.w, d.u))
			if !eq.isConst() {
				i.noteLit(eq, d.val)
				if !d.forced {
					i.solver.Assert(i.literal(eq, d.val))
				}
			}
			if d.val {
				return d.u
			}
			continue
		}
		if n > i.concLimit {
			i.incompl["concretisation limit (remaining values not explored)"]++
			u := i.bank.Eval(t, i.model)
			i.trace = append(i.trace, dec{kind: 1, val: true, u: u})
			i.solver.Assert(i.bank.Eq(t, i.bank.Const(t.w, u)))
			return u
		}
		u := i.bank.Eval(t, i.model)
		eq := i.bank.Eq(t, i.bank.Const(t.w, u))
		if eq.isConst() || i.lits[eq] {
			i.trace = append(i.trace, dec{kind: 1, val: true, u: u, forced: true})
			return u
		}
		forced := i.branch(eq, true, dec{kind: 1, val: false, u: u})
		i.trace = append(i.trace, dec{kind: 1, val: true, u: u, forced: forced})
		i.noteLit(eq, true)
		if !forced {
			i.solver.Assert(eq)
		}
		i.hctxDecisions()
		return u
	}
}

// choice forks over 0..n-1.
func (i *Interp) choice(n int) int {
	if n <= 1 {
		return 0
	}
	i.choiceN++
	v := i.newVar(fmt.Sprintf("!c%d", i.choiceN), 16, 0, uint64(n-1), nil)
	return int(i.concretize(v))
}

func (i *Interp) newVar(name string, w int, lo, hi uint64, dom *[4]uint64) *Term {
	if v, ok := i.pathVars[name]; ok {
		return v
	}
	v := i.bank.Var(name, w, lo, hi, dom)
	if v.lo != lo || v.hi != hi {
		panic(unsupported("variable %s redeclared with another range", name))
	}
	i.pathVars[name] = v
	i.solver.UseVar(v)
	return v
}

func (i *Interp) assume(v value) {
	t := i.boolTerm(v)
	if t.isConst() {
		if t.u == 0 {
			panic(pathAbort{"infeasible", ""})
		}
		return
	}
	if l, ok := i.lits[t]; ok {
		if !l {
			panic(pathAbort{"infeasible", ""})
		}
		return
	}
	if i.bank.Eval(t, i.model) == 0 {
		if i.pos < len(i.prefix) {
			panic(pathAbort{"internal", "assumption violated on replay"})
		}
		res, m := i.solver.Check(t, true)
		switch res {
		case Unsat:
			panic(pathAbort{"infeasible", ""})
		case Unknown:
			i.incompl["solver unknown on an assumption"]++
			panic(pathAbort{"infeasible", ""})
		}
		i.setModel(m)
	}
	i.noteLit(t, true)
	i.solver.Assert(t)
}

func (i *Interp) setModel(m Model) {
	i.model = m
	i.bank.BeginEval()
}

func (i *Interp) assertProp(v value, msg string) {
	t := i.boolTerm(v)
	i.asserts++
	if i.pos < len(i.prefix) && !t.isConst() {
		// already decided by the parent path under a weaker condition
		if l, ok := i.lits[t]; ok && !l {
			panic(pathAbort{"stopped", "assertion failed on parent"})
		}
		i.noteLit(t, true)
		i.solver.Assert(t)
		return
	}
	atomic.AddInt64(&i.hctx.asserts, 1)
	if t.isConst() {
		if t.u == 0 {
			i.violate(&Violation{Kind: "assert", Msg: msg, Model: i.fullModel(i.model)})
			panic(pathAbort{"violation", msg})
		}
		return
	}
	if l, ok := i.lits[t]; ok {
		if !l {
			i.violate(&Violation{Kind: "assert", Msg: msg, Model: i.fullModel(i.model)})
			panic(pathAbort{"violation", msg})
		}
		return
	}
	if i.bank.Eval(t, i.model) == 0 {
		i.violate(&Violation{Kind: "assert", Msg: msg, Model: i.fullModel(i.model)})
		panic(pathAbort{"violation", msg})
	}
	res, m := i.solver.Check(i.bank.Not(t), true)
	switch res {
	case Sat:
		i.violate(&Violation{Kind: "assert", Msg: msg, Model: i.fullModel(m)})
		i.solver.Assert(t)
		i.noteLit(t, true)
	case Unknown:
		i.incompl["solver unknown on an assertion"]++
		i.solver.Assert(t)
	default:
		atomic.AddInt64(&i.hctx.assertsProved, 1)
		i.noteLit(t, true)
	}
}

// fullModel completes a model with defaults for the variables of the path.
func (i *Interp) fullModel(m Model) Model {
	r := Model{}
	for n, v := range i.pathVars {
		if u, ok := m[n]; ok {
			r[n] = u
		} else {
			r[n] = v.defaultVal()
		}
	}
	return r
}

// ---- running one path ----

func (i *Interp) resetPath(t *Task) {
	if i.bank.next > 400000 {
		// keep memory bounded: start over with an empty term bank
		i.bank = NewTermBank()
		i.solver.Reset(i.bank)
		i.libGlobals = map[*ssa.Global]*value{}
		i.libInit = map[*ssa.Package]bool{}
	} else {
		i.solver.NewPath()
	}
	i.prefix, i.pos, i.trace = t.prefix, 0, nil
	i.trace = make([]dec, 0, len(t.prefix)+64)
	i.lits = map[*Term]bool{}
	i.pathVars = map[string]*Term{}
	i.userGlobals = map[*ssa.Global]*value{}
	i.steps, i.depth, i.choiceN, i.mapSeq = 0, 0, 0, 0
	i.obs = nil
	i.mapOrder = false
	i.mon = nil
	i.initing = false
	i.hooks = map[string]value{}
	i.nameSeq = map[string]int{}
	i.setModel(t.model)
}

func (i *Interp) runPath(t *Task) (result string) {
	i.resetPath(t)
	result = "ok"
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathAbort:
				switch r.kind {
				case "infeasible", "violation", "stopped":
					result = r.kind
				case "steps", "depth":
					result = r.kind
					i.violate(&Violation{Kind: "nonterm", Msg: r.msg, Model: i.fullModel(i.model)})
				default:
					result = r.kind
					i.incompl[r.kind+": "+r.msg]++
				}
			case targetPanic:
				result = "panic"
				msg := i.panicText(r.v)
				i.violate(&Violation{Kind: "panic", Msg: msg, Model: i.fullModel(i.model)})
			default:
				if i.debug {
					panic(r)
				}
				result = "internal"
				i.incompl[fmt.Sprintf("internal error: %v", r)]++
			}
		}
	}()
	i.maxSteps = 200_000_000
	i.initUser(i.P.userOrder)
	i.steps = 0
	i.maxSteps = i.hctx.maxSteps
	i.callFn(nil, i.hctx.fn, nil, nil)
	return
}

func (i *Interp) panicText(v iface) string {
	if v.t == nil {
		return "nil"
	}
	switch x := v.v.(type) {
	case string:
		return x
	}
	defer func() { recover() }()
	s := i.fmtValue(v, 'v', "")
	if c, ok := s.(string); ok {
		return c
	}
	return fmt.Sprintf("%v", v.t)
}

// ---- the worker pool ----

func (h *HarnessRun) push(t *Task) {
	h.mu.Lock()
	h.stack = append(h.stack, t)
	h.cond.Signal()
	h.mu.Unlock()
}

func (h *HarnessRun) pop() *Task {
	h.mu.Lock()
	defer h.mu.Unlock()
	for {
		if h.stop {
			return nil
		}
		if len(h.stack) > 0 {
			n := len(h.stack) - 1
			h.pops++
			if n > 0 && h.pops%3 == 0 {
				// not only depth first: one large subtree must not starve the others
				h.rng = h.rng*6364136223846793005 + 1442695040888963407
				k := int((h.rng >> 33) % uint64(n))
				h.stack[k], h.stack[n] = h.stack[n], h.stack[k]
			}
			t := h.stack[n]
			h.stack[n] = nil
			h.stack = h.stack[:n]
			h.active++
			return t
		}
		if h.active == 0 {
			h.cond.Broadcast()
			return nil
		}
		h.cond.Wait()
	}
}

func (h *HarnessRun) done() {
	h.mu.Lock()
	h.active--
	if h.active == 0 && len(h.stack) == 0 {
		h.cond.Broadcast()
	}
	h.mu.Unlock()
}

func (h *HarnessRun) finish() {
	h.mu.Lock()
	h.stop = true
	h.cond.Broadcast()
	h.mu.Unlock()
}

func (h *HarnessRun) worker(i *Interp) {
	i.hctx = h
	i.encFns = map[*ssa.Function]bool{}
	i.incompl = map[string]int{}
	i.cover = map[string]int{}
	i.enqueue = h.push
	i.thorough = h.tier == "thorough"
	i.violate = func(v *Violation) {
		v.Harness = h.name
		h.mu.Lock()
		h.violations = append(h.violations, v)
		n := len(h.violations)
		if d := time.Now().Add(10 * time.Second); n == 1 && d.Before(h.deadline) {
			h.deadline = d
		}
		h.mu.Unlock()
		if n >= h.maxViol {
			h.finish()
		}
	}
	s0 := i.solver.Stats
	for {
		t := h.pop()
		if t == nil {
			break
		}
		h.mu.Lock()
		late := time.Now().After(h.deadline)
		h.mu.Unlock()
		if late {
			i.incompl["time budget exhausted"]++
			h.done()
			h.finish()
			break
		}
		res := i.runPath(t)
		h.mu.Lock()
		h.paths++
		h.steps += int64(i.steps)
		if res != "ok" {
			h.aborted[res]++
		}
		for n, v := range i.pathVars {
			h.vars[n] = v.w
		}
		if res == "ok" {
			h.rng = h.rng*6364136223846793005 + 1442695040888963407
			keep := len(h.samples) < h.maxSamples
			slot := len(h.samples)
			if !keep {
				k := int((h.rng >> 33) % uint64(h.paths))
				if k < h.maxSamples {
					keep, slot = true, k
				}
			}
			if keep {
				ps := pathSample{model: i.fullModel(i.model), exact: true}
				for _, o := range i.obs {
					s, ok := i.obsText(o.v)
					if !ok {
						ps.exact = false
					}
					ps.obs = append(ps.obs, o.label+"="+s)
				}
				ps.result = res
				if slot == len(h.samples) {
					h.samples = append(h.samples, ps)
				} else {
					h.samples[slot] = ps
				}
			}
		}
		if (res == "unsupported" || res == "internal") && h.nAbortS < 40 {
			h.nAbortS++
			h.samples = append(h.samples, pathSample{model: i.fullModel(i.model), result: res})
		}
		if res == "unsupported" || res == "internal" {
			if len(h.abortModels) < 3000 {
				h.abortModels = append(h.abortModels, i.fullModel(i.model))
			}
			if n := h.aborted["unsupported"] + h.aborted["internal"]; n >= 3000 && n > h.paths*3/4 {
				h.incompl["exploration stopped: most paths are not supported"]++
				h.stop = true
				h.cond.Broadcast()
			}
		}
		if h.paths >= h.pathLimit {
			h.incompl["path limit"]++
			h.stop = true
			h.cond.Broadcast()
		}
		h.mu.Unlock()
		h.done()
	}
	h.mu.Lock()
	for k, n := range i.incompl {
		h.incompl[k] += n
	}
	for k, n := range i.cover {
		h.cover[k] += n
	}
	for f := range i.encFns {
		h.encFns[f.String()] = true
	}
	st := i.solver.Stats
	h.stats.Queries += st.Queries - s0.Queries
	h.stats.Sat += st.Sat - s0.Sat
	h.stats.Unsat += st.Unsat - s0.Unsat
	h.stats.Unknown += st.Unknown - s0.Unknown
	h.stats.Time += st.Time - s0.Time
	if st.MaxTime > h.stats.MaxTime {
		h.stats.MaxTime = st.MaxTime
	}
	h.solverErrs = append(h.solverErrs, i.solver.errs...)
	i.solver.errs = nil
	h.mu.Unlock()
}

func (i *Interp) obsText(v value) (string, bool) {
	switch v := v.(type) {
	case string:
		return fmt.Sprintf("%q", v), !strings.Contains(v, opaqueMark)
	case *SymStr:
		buf := make([]byte, len(v.b))
		for k, t := range v.b {
			buf[k] = byte(i.bank.Eval(t, i.model))
		}
		return fmt.Sprintf("%q", string(buf)), !strings.Contains(string(buf), opaqueMark)
	case bool:
		return fmt.Sprint(v), true
	case uint64:
		return fmt.Sprint(int64(v)), true
	case *Term:
		if v.w == 0 {
			return fmt.Sprint(i.bank.Eval(v, i.model) != 0), true
		}
		return fmt.Sprint(sext64(i.bank.Eval(v, i.model), v.w)), true
	}
	return fmt.Sprintf("?%T", v), false
}

func (h *HarnessRun) explore(workers []*Interp) {
	h.cond = sync.NewCond(&h.mu)
	h.aborted, h.incompl, h.cover = map[string]int{}, map[string]int{}, map[string]int{}
	h.encFns, h.vars = map[string]bool{}, map[string]int{}
	h.t0 = time.Now()
	h.rng = 12345
	h.stack = []*Task{{model: Model{}}}
	var wg sync.WaitGroup
	for _, w := range workers {
		wg.Add(1)
		go func(w *Interp) {
			defer wg.Done()
			h.worker(w)
		}(w)
	}
	wg.Wait()
	if len(h.stack) > 0 && len(h.violations) < h.maxViol {
		h.incompl[fmt.Sprintf("%d pending paths not explored", len(h.stack))]++
	}
	h.dur = time.Since(h.t0)
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---- access monitor (data races between logical threads) ----

type access struct {
	write bool
	locks string
	vc    int // index of the last release before the access (ordering)
	where string
}

type monitor struct {
	tid    int
	held   []string
	cells  map[*value][2][]access
	fresh  map[*value]int // cells allocated inside a monitored thread
	exempt map[*value]bool
	sync   map[string]bool // synchronisation objects released by thread 0 so far
	acq    map[string]bool // acquired by thread 1 after a release by thread 0
	frame  func() string
}

func (m *monitor) alloc(p *value) {
	m.fresh[p] = m.tid
	switch v := (*p).(type) {
	case structV:
		for k := range v {
			m.alloc(&v[k])
		}
	case arrayV:
		for k := range v {
			m.alloc(&v[k])
		}
	}
}

func (m *monitor) add(p *value, w bool) {
	if m.exempt[p] {
		return
	}
	e := m.cells[p]
	l := strings.Join(m.held, ",")
	for _, a := range e[m.tid] {
		if a.write == w && a.locks == l {
			return
		}
	}
	wh := ""
	if m.frame != nil {
		wh = m.frame()
	}
	e[m.tid] = append(e[m.tid], access{write: w, locks: l, where: wh})
	m.cells[p] = e
}

func (m *monitor) read(i *Interp, p *value) {
	switch v := (*p).(type) {
	case structV:
		for k := range v {
			m.read(i, &v[k])
		}
		return
	case arrayV:
		for k := range v {
			m.read(i, &v[k])
		}
		return
	}
	m.add(p, false)
}

func (m *monitor) write(i *Interp, p *value) {
	switch v := (*p).(type) {
	case structV:
		for k := range v {
			m.write(i, &v[k])
		}
		return
	case arrayV:
		for k := range v {
			m.write(i, &v[k])
		}
		return
	}
	m.add(p, true)
}

func (m *monitor) conflict() string {
	for p, e := range m.cells {
		if t, ok := m.fresh[p]; ok {
			_ = t
			// allocated inside a monitored thread: only reachable by the other
			// one through a synchronised publication (unsynchronised
			// publications conflict on the publishing cell itself)
			continue
		}
		for _, a := range e[0] {
			for _, b := range e[1] {
				if !a.write && !b.write {
					continue
				}
				if disjoint(a, b) {
					return fmt.Sprintf("unsynchronised accesses: %s / %s", a.where, b.where)
				}
			}
		}
	}
	return ""
}

// locks are written "w:id" (exclusive) or "r:id" (shared)
func disjoint(a, b access) bool {
	if a.locks == "" || b.locks == "" {
		return true
	}
	for _, x := range strings.Split(a.locks, ",") {
		for _, y := range strings.Split(b.locks, ",") {
			if x[2:] == y[2:] && (x[0] == 'w' || y[0] == 'w') {
				return false
			}
		}
	}
	return true
}
