package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Options of one exploration.
type Options struct {
	MaxDepth int
	MaxSteps int64
	MapPerm  bool
	MaxPaths int64
	MaxConc  int
	Workers  int
	Deadline time.Time
	Solver   string
	MaxViol  int
	NoMerge  bool
	MaxSched int
}

// Decision is one recorded nondeterministic choice of a path.
type Decision struct {
	K      byte // 'b' branch, 'c' concretise, 'n' n-way choice
	Forced bool
	Alt    int32
	Val    uint64
}

// Item is an unexplored path prefix with a model of its path condition.
type Item struct {
	prefix []Decision
	model  Model
}

// OutEv is one observation made by a harness.
type OutEv struct {
	Label string   `json:"label"`
	Vals  []string `json:"vals"`
	uf    bool
}

// PathEnd describes the end of one explored path.
type PathEnd struct {
	Kind    string            `json:"kind"`
	Label   string            `json:"label"`
	Msg     string            `json:"msg"`
	Inputs  map[string]uint64 `json:"inputs"`
	Sched   []SchedEv         `json:"sched,omitempty"`
	Outs    []OutEv           `json:"outs"`
	Depth   int               `json:"depth"`
	Delays  map[string]int64  `json:"delays,omitempty"`
	NSel    int               `json:"nselect,omitempty"`
	hasUF   bool
	schedOn bool
}

// SchedEv records one scheduling decision.
type SchedEv struct {
	G    int    `json:"g"`
	Why  string `json:"why"`
	Site string `json:"site"`
}

// Result of exploring one harness.
type Result struct {
	Harness   string
	Paths     int64
	Kinds     map[string]int64
	Steps     int64
	Branches  int64
	Decisions int64
	Queries   int64
	CacheHits int64
	ByteQ     int64
	Unknowns  int64
	SolverT   time.Duration
	Asserts   int64 // assertions checked with a solver query
	AssertsT  int64 // assertions decided by simplification
	Viol      []*PathEnd
	ViolKeys  map[string]int
	Samples   []*PathEnd
	Reach     map[string]int64
	Funcs     map[string]*FuncStat
	Unsup     map[string]int64
	Complete  bool
	Why       string
	Wall      time.Duration
	Merged    int64
	Errors    []string
	MaxDepthB int
}

// FuncStat counts activity in one function.
type FuncStat struct {
	Hits, Sym int64
	Target    bool
}

// Engine holds the program and the shared exploration state.
type Engine struct {
	prog           *ssa.Program
	pkgs           map[string]*ssa.Package
	opt            Options
	tier           int
	mu             sync.Mutex
	targetPaths    map[string]bool
	redirect       map[string]*ssa.Function
	runtimeErrType types.Type
	canonMap       typeutil.Map
	canonFast      sync.Map
	notes          map[string]bool
	ipd            sync.Map
	godebug        map[string]string
	allFns         map[*ssa.Function]bool
	mutOnce        sync.Once
	mut            map[*types.Var]bool

	// exploration
	qmu     sync.Mutex
	qcond   *sync.Cond
	queue   []Item
	active  int
	stop    bool
	stopWhy string
	res     *Result
	rmu     sync.Mutex
	sampled map[string]int
}

func (e *Engine) note(s string) {
	e.mu.Lock()
	if e.notes == nil {
		e.notes = map[string]bool{}
	}
	if !e.notes[s] && os.Getenv("SYM_NOTES") != "" {
		fmt.Fprintln(os.Stderr, "note:", s)
	}
	e.notes[s] = true
	e.mu.Unlock()
}

func (e *Engine) canon(t types.Type) types.Type {
	if r, ok := e.canonFast.Load(t); ok {
		return r.(types.Type)
	}
	e.mu.Lock()
	defer e.mu.Unlock()
	if r := e.canonMap.At(t); r != nil {
		e.canonFast.Store(t, r)
		return r.(types.Type)
	}
	e.canonMap.Set(t, t)
	e.canonFast.Store(t, t)
	return t
}

func (e *Engine) isTarget(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Origin() != nil {
		p = fn.Origin().Pkg
	}
	if p == nil {
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return e.targetPaths[o.Pkg().Path()]
		}
		return false
	}
	if !e.targetPaths[p.Pkg.Path()] {
		return false
	}
	f := e.prog.Fset.Position(fn.Pos()).Filename
	return !strings.Contains(f, "/zz_vh_")
}

func (e *Engine) lookupFn(pkg, name string) *ssa.Function {
	p := e.pkgs[pkg]
	if p == nil {
		panic(engineErr{"package not loaded: " + pkg})
	}
	f := p.Func(name)
	if f == nil {
		panic(engineErr{"function not found: " + pkg + "." + name})
	}
	return f
}

// Worker executes paths.
type Worker struct {
	uniq    map[string]*Value
	uniqN   int
	E       *Engine
	id      int
	c       *Ctx
	s       *Solver
	fns     map[*ssa.Function]*FnInfo
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
	tiCache map[types.Type]tinfo
	methods map[methKey]*ssa.Function
	impl    map[implKey]bool

	// path state
	cur       *Goroutine
	gs        []*Goroutine
	main      *Goroutine
	gseq      int
	runq      []*Goroutine
	yocc      map[string]int
	delays    map[string]*Term
	nselect   int
	journal   []jent
	journalOn bool
	writes    int64
	steps     int64
	spec      int
	enum      *enumState
	initDepth int
	unwound   bool
	yield     bool
	nextG     *Goroutine
	sched     bool
	budget    int
	chanSeq   int
	now       *Term
	timers    []*timer
	tseq      int
	tbl       map[interface{}]interface{} // path-local side tables of intrinsics

	pc     []*Term
	dom    map[int]byteSet // values of byte variables allowed by the path condition
	facts  map[*Term]bool  // decided from dom
	factl  []*Term
	multi  []uint64 // variables in conditions on several variables
	pcset  map[*Term]bool
	known  map[*Term]uint64
	dec    []Decision
	pos    int
	model  Model
	occ    map[string]int
	inputs []inputVar
	chosen map[string]uint64
	outs   []outRec
	schedT []SchedEv
	reach  map[string]bool
	incomp string

	// counters
	branches, decisions, asserts, assertsT, merged, npaths, totSteps int64
}

type inputVar struct {
	name string
	t    *Term
}

type outRec struct {
	label string
	vals  []Value
}

func newWorker(e *Engine, id int) *Worker {
	c := NewCtx()
	w := &Worker{E: e, id: id, c: c, fns: map[*ssa.Function]*FnInfo{}, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		tiCache: map[types.Type]tinfo{}, methods: map[methKey]*ssa.Function{}, impl: map[implKey]bool{}}
	switch e.opt.Solver {
	case "cvc5":
		w.s = NewSolver(c, "cvc5", "--incremental", "--lang=smt2", "--tlimit-per=30000")
	case "z3":
		w.s = NewSolver(c, "z3", "-in", "-smt2")
	default:
		w.s = NewSolver(c, "z3-new", "-in", "-smt2")
	}
	return w
}

func (w *Worker) resetPath(it Item) {
	w.cur, w.gs, w.main, w.gseq = nil, nil, nil, 0
	w.runq, w.yocc, w.delays, w.nselect = nil, map[string]int{}, map[string]*Term{}, 0
	w.journal = w.journal[:0]
	w.journalOn = true
	w.steps, w.spec, w.enum = 0, 0, nil
	w.unwound, w.yield, w.nextG, w.sched, w.budget = false, false, nil, false, 0
	w.chanSeq, w.now, w.timers, w.tseq = 0, w.c.Const(64, 0), nil, 0
	w.tbl = map[interface{}]interface{}{}
	w.pc = w.pc[:0]
	w.pcset = map[*Term]bool{}
	w.known = map[*Term]uint64{}
	w.dec = append(w.dec[:0], it.prefix...)
	w.pos = 0
	w.model = it.model
	w.c.evGen++
	w.dom = map[int]byteSet{}
	w.facts = map[*Term]bool{}
	w.factl = w.factl[:0]
	w.multi = nil
	w.occ = map[string]int{}
	w.inputs = w.inputs[:0]
	w.chosen = map[string]uint64{}
	w.outs = nil
	w.schedT = nil
	w.reach = map[string]bool{}
	w.incomp = ""
}

// ---- decisions

func (w *Worker) addPC(t *Term, implied bool) {
	if t.isTrue() || w.pcset[t] {
		return
	}
	if !implied && w.c.singleByte(t) < 0 {
		w.multi = unionVars(w.multi, t.vars)
	}
	w.know(t)
	// conjunctions also imply their parts
	if t.op == OAnd {
		w.know(t.a)
		w.know(t.b)
	} else if t.op == ONot && t.a.op == OOr {
		w.know(w.c.Not(t.a.a))
		w.know(w.c.Not(t.a.b))
	}
	if !implied {
		w.pc = append(w.pc, t)
	}
}

// know records a fact implied by the path condition.
func (w *Worker) know(t *Term) {
	w.pcset[t] = true
	if v := w.c.singleByte(t); v >= 0 {
		tt := w.c.truth(t, v)
		d, ok := w.dom[v]
		if !ok {
			d = *tt
		} else {
			for i := range d {
				d[i] &= tt[i]
			}
		}
		w.dom[v] = d
	}
	if t.op == OEq {
		if t.b.isConst() {
			w.known[t.a] = t.b.k
		} else if t.a.isConst() {
			w.known[t.b] = t.a.k
		}
	}
}

// fact notes a condition that was decided from the allowed values of its byte.
func (w *Worker) fact(t *Term) {
	if !t.isConst() && !w.facts[t] {
		w.facts[t] = true
		w.factl = append(w.factl, t)
	}
}

// confirm has the solver check that the path condition is satisfiable and implies all facts.
func (w *Worker) confirm() string {
	if len(w.pc) > 0 {
		if r, _ := w.s.Check(w.pc); r == Unsat {
			return "path condition is contradictory"
		}
	}
	if len(w.factl) > 0 {
		all := w.c.True
		for _, t := range w.factl {
			all = w.c.And(all, t)
		}
		if r, _ := w.s.Check(append([]*Term{w.c.Not(all)}, w.pc...)); r == Sat {
			return "fact not implied by the path condition"
		}
	}
	return ""
}

func (w *Worker) query(t *Term) (SatResult, Model) {
	// conditions on one byte are decided for all its values
	if v := w.c.singleByte(t); v >= 0 {
		s := *w.c.truth(t, v)
		if d, ok := w.dom[v]; ok {
			for i := range s {
				s[i] &= d[i]
			}
		}
		if s.empty() {
			w.s.ByteQ++
			w.fact(w.c.Not(t))
			return Unsat, nil
		}
		if v/64 >= len(w.multi) || w.multi[v/64]>>(uint(v)%64)&1 == 0 {
			w.s.ByteQ++
			nm := make(Model, len(w.model)+1)
			for k, x := range w.model {
				nm[k] = x
			}
			k := uint64(0)
			for !s.has(k) {
				k++
			}
			nm[w.c.vars[v].name] = k
			return Sat, nm
		}
	}
	// slice the path condition to what shares variables with t
	vars := t.vars
	sel := []*Term{t}
	if t.uf {
		sel = append(sel, w.pc...)
	} else {
		used := make([]bool, len(w.pc))
		for changed := true; changed; {
			changed = false
			for i := len(w.pc) - 1; i >= 0; i-- {
				if !used[i] && intersectVars(vars, w.pc[i].vars) {
					used[i] = true
					sel = append(sel, w.pc[i])
					nv := unionVars(vars, w.pc[i].vars)
					if len(nv) != len(vars) || !subsetVars(nv, vars) {
						vars = nv
						changed = true
					}
				}
			}
		}
	}
	r, m := w.s.Check(sel)
	if r != Sat {
		return r, nil
	}
	nm := make(Model, len(w.model)+len(m))
	for k, v := range w.model {
		nm[k] = v
	}
	for k, v := range m {
		nm[k] = v
	}
	return r, nm
}

func (w *Worker) push(d Decision, m Model) {
	if forkStat != nil {
		forkMu.Lock()
		forkStat[w.where()]++
		forkMu.Unlock()
	}
	p := make([]Decision, len(w.dec)+1)
	copy(p, w.dec)
	p[len(w.dec)] = d
	w.E.enqueue(Item{p, m})
}

func (w *Worker) setModel(m Model) {
	w.model = m
	w.c.evGen++
}

func b2i(b bool) int32 {
	if b {
		return 1
	}
	return 0
}

// branch decides a boolean term on this path, forking the other side.
func (w *Worker) branch(t *Term) bool {
	if t.isConst() {
		return t.k == 1
	}
	neg := w.c.Not(t)
	if w.pcset[t] {
		return true
	}
	if w.pcset[neg] {
		return false
	}
	if v, ok := w.domDecide(t); ok {
		return v
	}
	if w.enum != nil {
		return w.enumBranch(t)
	}
	if w.spec > 0 {
		panic(specAbort{"branch"})
	}
	if w.initDepth > 0 {
		w.unsupported("symbolic branch in initialiser")
	}
	w.branches++
	if w.pos < len(w.dec) {
		d := w.dec[w.pos]
		w.pos++
		if d.K != 'b' {
			panic(engineErr{"replay mismatch: branch vs " + string(d.K) + " at " + w.where()})
		}
		if d.Alt == 1 {
			w.addPC(t, d.Forced)
			return true
		}
		w.addPC(neg, d.Forced)
		return false
	}
	w.decisions++
	side := true
	forced := false
	if !t.uf {
		side = w.c.eval(t, w.model) == 1
		other := neg
		if !side {
			other = t
		}
		r, m := w.query(other)
		switch r {
		case Sat:
			w.push(Decision{K: 'b', Alt: b2i(!side)}, m)
		case Unsat:
			forced = true
		default:
			w.incomp = "solver returned unknown at " + w.where()
		}
	} else {
		r1, m1 := w.query(t)
		r0, m0 := w.query(neg)
		if r1 == Unknown || r0 == Unknown {
			w.incomp = "solver returned unknown at " + w.where()
		}
		switch {
		case r1 == Sat && r0 == Sat:
			w.push(Decision{K: 'b', Alt: 0}, m0)
			w.setModel(m1)
		case r1 == Sat:
			forced = r0 == Unsat
			w.setModel(m1)
		case r0 == Sat:
			side = false
			forced = r1 == Unsat
			w.setModel(m0)
		default:
			w.end("assume", "", "infeasible")
		}
	}
	w.dec = append(w.dec, Decision{K: 'b', Alt: b2i(side), Forced: forced})
	w.pos++
	if side {
		w.addPC(t, forced)
	} else {
		w.addPC(neg, forced)
	}
	return side
}

// assume restricts the path to t.
func (w *Worker) assume(t *Term) {
	if t.isTrue() || w.pcset[t] {
		return
	}
	if t.isFalse() {
		w.end("assume", "", "")
	}
	if w.spec > 0 {
		panic(specAbort{"assume"})
	}
	if t.uf || w.c.eval(t, w.model) != 1 {
		r, m := w.query(t)
		if r != Sat {
			if r == Unknown {
				w.incomp = "solver returned unknown at " + w.where()
			}
			w.end("assume", "", "")
		}
		w.setModel(m)
	}
	w.addPC(t, false)
}

// concretize picks a value for t on this path, forking the others.
func (w *Worker) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.k
	}
	if w.spec > 0 {
		panic(specAbort{"concretize"})
	}
	if w.initDepth > 0 {
		w.unsupported("symbolic value in initialiser")
	}
	if k, ok := w.known[t]; ok {
		return k
	}
	if t.w == 0 {
		if w.branch(t) {
			return 1
		}
		return 0
	}
	for n := 0; ; n++ {
		if w.pos < len(w.dec) {
			d := w.dec[w.pos]
			w.pos++
			if d.K != 'c' {
				panic(engineErr{"replay mismatch: concretize vs " + string(d.K) + " at " + w.where()})
			}
			eq := w.c.Eq(t, w.c.Const(t.w, d.Val))
			if d.Alt == 1 {
				w.addPC(eq, d.Forced)
				return d.Val
			}
			w.addPC(w.c.Not(eq), d.Forced)
			continue
		}
		if n > w.E.opt.MaxConc {
			w.end("bound", "concretize", fmt.Sprintf("more than %d values at %s", w.E.opt.MaxConc, w.where()))
		}
		if t.uf {
			w.unsupported("concretising an uninterpreted value")
		}
		w.decisions++
		v := w.c.eval(t, w.model)
		eq := w.c.Eq(t, w.c.Const(t.w, v))
		ne := w.c.Not(eq)
		forced := false
		if !w.pcset[ne] {
			r, m := w.query(ne)
			switch r {
			case Sat:
				w.push(Decision{K: 'c', Alt: 0, Val: v}, m)
			case Unsat:
				forced = true
			default:
				w.incomp = "solver returned unknown at " + w.where()
			}
		}
		w.dec = append(w.dec, Decision{K: 'c', Alt: 1, Val: v, Forced: forced})
		w.pos++
		w.addPC(eq, forced)
		return v
	}
}

// choose makes an n-way nondeterministic choice.
func (w *Worker) choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	if w.spec > 0 {
		panic(specAbort{"choose"})
	}
	if w.initDepth > 0 {
		return 0
	}
	if w.pos < len(w.dec) {
		d := w.dec[w.pos]
		w.pos++
		if d.K != 'n' {
			panic(engineErr{"replay mismatch: choose vs " + string(d.K) + " at " + w.where()})
		}
		return int(d.Alt)
	}
	w.decisions++
	for i := n - 1; i >= 1; i-- {
		w.push(Decision{K: 'n', Alt: int32(i)}, w.model)
	}
	w.dec = append(w.dec, Decision{K: 'n', Alt: 0})
	w.pos++
	return 0
}

// ---- inputs

func (w *Worker) inputName(base string) string {
	n := w.occ[base]
	w.occ[base] = n + 1
	return base + "#" + strconv.Itoa(n)
}

func (w *Worker) input(name string, width uint8) *Term {
	t := w.c.Var(name, width)
	w.inputs = append(w.inputs, inputVar{name, t})
	return t
}

// ---- exploration

func (e *Engine) enqueue(it Item) {
	e.qmu.Lock()
	e.queue = append(e.queue, it)
	e.qmu.Unlock()
	e.qcond.Signal()
}

func (e *Engine) halt(why string) {
	e.qmu.Lock()
	if !e.stop {
		e.stop = true
		e.stopWhy = why
	}
	e.qmu.Unlock()
	e.qcond.Broadcast()
}

func (e *Engine) take() (Item, bool) {
	e.qmu.Lock()
	defer e.qmu.Unlock()
	for {
		if e.stop {
			return Item{}, false
		}
		if n := len(e.queue); n > 0 {
			it := e.queue[n-1]
			e.queue = e.queue[:n-1]
			e.active++
			return it, true
		}
		if e.active == 0 {
			e.qcond.Broadcast()
			return Item{}, false
		}
		e.qcond.Wait()
	}
}

func (e *Engine) release() {
	e.qmu.Lock()
	e.active--
	done := e.active == 0 && len(e.queue) == 0
	e.qmu.Unlock()
	if done {
		e.qcond.Broadcast()
	}
}

var violKinds = map[string]bool{"assert": true, "panic": true, "exit": true, "deadlock": true, "overflow": true, "steps": true}

// Explore runs harness fn over all paths.
func (e *Engine) Explore(name string, fn *ssa.Function, workers []*Worker) *Result {
	e.qcond = sync.NewCond(&e.qmu)
	e.queue = []Item{{nil, Model{}}}
	e.active, e.stop, e.stopWhy = 0, false, ""
	e.sampled = map[string]int{}
	e.res = &Result{Harness: name, Kinds: map[string]int64{}, ViolKeys: map[string]int{}, Reach: map[string]int64{}, Funcs: map[string]*FuncStat{}, Unsup: map[string]int64{}}
	t0 := time.Now()
	tm := time.AfterFunc(time.Until(e.opt.Deadline), func() { e.halt("time limit") })
	var wg sync.WaitGroup
	for _, w := range workers {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			w.branches, w.decisions, w.asserts, w.assertsT, w.merged, w.npaths, w.totSteps = 0, 0, 0, 0, 0, 0, 0
			b0 := w.s.ByteQ
			q0, c0, u0, t0 := w.s.Queries, w.s.CacheHits, w.s.Unknowns, w.s.Time
			for _, fi := range w.fns {
				fi.hits, fi.symHits = 0, 0
			}
			for {
				it, ok := e.take()
				if !ok {
					break
				}
				w.runPath(fn, it)
				e.release()
				if w.npaths%256 == 0 {
					w.maybeReset()
				}
			}
			e.rmu.Lock()
			r := e.res
			r.Branches += w.branches
			r.Decisions += w.decisions
			r.Asserts += w.asserts
			r.AssertsT += w.assertsT
			r.Merged += w.merged
			r.Steps += w.totSteps
			r.Queries += w.s.Queries - q0
			r.CacheHits += w.s.CacheHits - c0
			r.ByteQ += w.s.ByteQ - b0
			r.Unknowns += w.s.Unknowns - u0
			r.SolverT += w.s.Time - t0
			r.Errors = append(r.Errors, w.s.Errors...)
			for _, fi := range w.fns {
				if fi.hits > 0 {
					st := r.Funcs[fi.name]
					if st == nil {
						st = &FuncStat{Target: fi.target}
						r.Funcs[fi.name] = st
					}
					st.Hits += fi.hits
					st.Sym += fi.symHits
				}
			}
			e.rmu.Unlock()
		}(w)
	}
	wg.Wait()
	tm.Stop()
	r := e.res
	r.Wall = time.Since(t0)
	r.Complete = !e.stop
	if e.stop {
		r.Why = e.stopWhy
	}
	if r.Kinds["bound"] > 0 || r.Kinds["unsupported"] > 0 || r.Kinds["unknown"] > 0 || r.Kinds["engine"] > 0 {
		r.Complete = false
		if r.Why == "" {
			r.Why = "some paths ended outside the encoding"
		}
	}
	return r
}

// maybeReset drops the term table when it has grown large.
func (w *Worker) maybeReset() {
	if w.c.nextID < 6000000 {
		return
	}
	nw := newWorker(w.E, w.id)
	nw.s.ByteQ, nw.s.Queries, nw.s.CacheHits, nw.s.Unknowns, nw.s.Time, nw.s.Errors = w.s.ByteQ, w.s.Queries, w.s.CacheHits, w.s.Unknowns, w.s.Time, w.s.Errors
	nw.branches, nw.decisions, nw.asserts, nw.assertsT, nw.merged, nw.npaths, nw.totSteps = w.branches, w.decisions, w.asserts, w.assertsT, w.merged, w.npaths, w.totSteps
	w.s.stop()
	old := w.fns
	*w = *nw
	w.s.c = w.c
	for f, fi := range old {
		if fi.hits > 0 {
			n := w.fnInfo(f)
			n.hits += fi.hits
			n.symHits += fi.symHits
		}
	}
}

func (w *Worker) runPath(fn *ssa.Function, it Item) {
	e := w.E
	w.resetPath(it)
	var pe endPath
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			switch x := r.(type) {
			case endPath:
				pe = x
			case engineErr:
				pe = endPath{"engine", "", x.msg + " at " + w.where()}
			case specAbort:
				pe = endPath{"engine", "", "stray specAbort " + x.why}
			case nestedPanic:
				pe = endPath{"panic", "panic", x.p.msg}
			default:
				pe = endPath{"engine", "", fmt.Sprintf("%v at %s\n%s", r, w.where(), debug.Stack())}
			}
		}()
		g := w.newG()
		w.main = g
		w.pushFrame(g, w.fnInfo(fn), nil, nil, -1)
		w.runAll()
		pe = endPath{"ok", "", ""}
	}()
	if pe.kind == "ok" || pe.kind == "assume" {
		if e := w.confirm(); e != "" {
			pe = endPath{"engine", "", e}
		}
	}
	w.npaths++
	w.totSteps += w.steps
	if w.incomp != "" && !violKinds[pe.kind] {
		pe = endPath{"unknown", "", w.incomp}
	}
	end := &PathEnd{Kind: pe.kind, Label: pe.label, Msg: pe.msg, Depth: len(w.dec), schedOn: w.sched}
	isV := violKinds[pe.kind]
	key := pe.kind + "|" + pe.label
	if isV {
		key += "|" + stripSym(pe.msg)
	}
	e.rmu.Lock()
	r := e.res
	r.Paths++
	r.Kinds[pe.kind]++
	if len(w.dec) > r.MaxDepthB {
		r.MaxDepthB = len(w.dec)
	}
	for k := range w.reach {
		r.Reach[k]++
	}
	want := false
	if pe.kind == "unsupported" || pe.kind == "engine" || pe.kind == "bound" || pe.kind == "unknown" {
		if len(r.Unsup) < 50 {
			r.Unsup[pe.kind+": "+pe.msg]++
		}
	}
	if isV {
		r.ViolKeys[key]++
		want = r.ViolKeys[key] <= 4
	} else if pe.kind == "ok" {
		sk := sigOf(w.reach)
		if e.sampled[sk] < 3 || (e.sampled["*"] < 40 && r.Paths%37 == 0) {
			e.sampled[sk]++
			e.sampled["*"]++
			want = true
		}
	}
	e.rmu.Unlock()
	if want {
		w.fillEnd(end)
		e.rmu.Lock()
		if isV {
			r.Viol = append(r.Viol, end)
			if len(r.ViolKeys) >= e.opt.MaxViol {
				e.rmu.Unlock()
				e.halt("violation limit")
				e.rmu.Lock()
			}
		} else if len(r.Samples) < 200 {
			r.Samples = append(r.Samples, end)
		}
		e.rmu.Unlock()
	}
	if e.opt.MaxPaths > 0 && r.Paths > e.opt.MaxPaths {
		e.halt("path limit")
	}
	w.rollback(0)
	w.journalOn = false
	w.cur = nil
}

func stripSym(s string) string {
	if i := strings.Index(s, "\n"); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func sigOf(m map[string]bool) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return strings.Join(ks, ",")
}

func (w *Worker) fillEnd(p *PathEnd) {
	p.Inputs = map[string]uint64{}
	for _, iv := range w.inputs {
		p.Inputs[iv.name] = w.c.eval(iv.t, w.model)
	}
	for k, v := range w.chosen {
		p.Inputs[k] = v
	}
	for _, t := range w.pc {
		if t.uf {
			p.hasUF = true
		}
	}
	p.Delays, p.NSel = map[string]int64{}, w.nselect
	for k, t := range w.delays {
		p.Delays[k] = int64(w.c.eval(t, w.model))
	}
	p.Sched = append([]SchedEv(nil), w.schedT...)
	for _, o := range w.outs {
		ev := OutEv{Label: o.label}
		for _, v := range o.vals {
			s, uf := w.render(v)
			ev.Vals = append(ev.Vals, s)
			ev.uf = ev.uf || uf
		}
		p.Outs = append(p.Outs, ev)
	}
}

// render formats a value observed by vsym.Out under the current model; must match vsym's native rendering.
func (w *Worker) render(v Value) (string, bool) {
	i, ok := v.(Iface)
	if !ok {
		return "?", false
	}
	if i.t == nil {
		return "nil", false
	}
	switch x := i.v.(type) {
	case *Term:
		val := w.c.eval(x, w.model)
		if x.w == 0 {
			return strconv.FormatBool(val == 1), x.uf
		}
		if w.ti(i.t).signed {
			return strconv.FormatInt(sext64(val, x.w), 10), x.uf
		}
		return strconv.FormatUint(val, 10), x.uf
	case *Str:
		uf := false
		ts := w.strTerms(x)
		b := make([]byte, len(ts))
		for j, t := range ts {
			b[j] = byte(w.c.eval(t, w.model))
			uf = uf || t.uf
		}
		return strconv.Quote(string(b)), uf
	case Slice:
		if x.isNil() {
			return "nil", false
		}
		uf := false
		b := make([]byte, x.len)
		for j := range b {
			t := x.t.get(x.off + j)
			b[j] = byte(w.c.eval(t, w.model))
			uf = uf || t.uf
		}
		return strconv.Quote(string(b)), uf
	}
	if types.Implements(i.t, errorIface) {
		return "error", false
	}
	return "?", false
}

var errorIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

// forkStat counts forks per place, for debugging.
var forkStat map[string]int
var forkMu sync.Mutex

func init() {
	if os.Getenv("SYM_FORKS") != "" {
		forkStat = map[string]int{}
	}
}

func printForks() {
	var ks []string
	for k := range forkStat {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return forkStat[ks[i]] > forkStat[ks[j]] })
	for i, k := range ks {
		if i < 25 {
			fmt.Printf("  fork %d %s\n", forkStat[k], k)
		}
	}
}
