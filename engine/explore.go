package main

import (
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Exploration is by re-execution: a work item is a prefix of decisions plus a model of the path condition.
// Every path runs the harness from its start, follows the prefix, then follows the model; at each new
// symbolic branch the solver is asked for the other side and, if it is feasible, a new item is queued.

const (
	dBranch uint8 = iota
	dEq
	dChoose
	dAssert
	dPin
)

type Dec struct {
	kind    uint8
	taken   bool
	implied bool
	val     uint64
	h       uint64
}

type Item struct {
	prefix []Dec
	model  []uint64
}

// Input is one value handed to the harness, in creation order.
type Input struct {
	name string
	e    *Expr // nil: concrete choice
	val  uint64
	w    uint8
}

type InVal struct {
	Name string `json:"n"`
	V    uint64 `json:"v"`
	W    uint8  `json:"w"`
}

type Violation struct {
	Harness  string   `json:"harness"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"msg"`
	Where    string   `json:"where"`
	Tier     string   `json:"tier"`
	Inputs   []InVal  `json:"inputs"`
	Log      []string `json:"log"`
	maporder bool
}

type Trace struct {
	Harness string   `json:"harness"`
	Tier    string   `json:"tier"`
	Inputs  []InVal  `json:"inputs"`
	Log     []string `json:"log"`
	End     string   `json:"end"`
}

type HarnessResult struct {
	Name       string
	Paths      int64
	Decisions  int64
	Instrs     int64
	Asserts    int64 // assertion queries (per path evaluation)
	AssertsSat int64
	Ends       map[string]int64
	Notes      map[string]int64
	Reached    map[string]int64
	Violations []*Violation
	Traces     []*Trace
	Touched    map[string]int
	Pending    int
	Incomplete string
	Wall       time.Duration
}

type Explorer struct {
	eng     *Engine
	fn      *ssa.Function
	name    string
	mu      sync.Mutex
	cond    *sync.Cond
	queue   []*Item
	active  int
	stop    string
	deadl   time.Time
	maxPath int64
	res     *HarnessResult
	vkeys   map[string]int
	ntrace  int
}

type Worker struct {
	cx      *Ctx
	eng     *Engine
	ex      *Explorer
	solver  *Solver
	fnCache map[*ssa.Function]*FnInfo
	touched map[*FnInfo]int
	meths   map[methKey]*ssa.Function
	impls   map[implKey]bool

	fuel       int
	maxDepth   int
	allocLimit int
	maxAlloc   int64
	mapOrder   bool

	// persistent (standard library) globals
	stdGlobals map[*ssa.Global]*Value
	stdInit    map[*ssa.Package]int
	// per path
	usrGlobals map[*ssa.Global]*Value
	usrInit    map[*ssa.Package]int

	prefix       []Dec
	pos          int
	trail        []Dec
	model        []uint64
	nvars        int32
	vars         []*Expr
	inputs       []Input
	pc           []*Expr
	known        map[*Expr]bool
	pinned       varset
	log          []Value
	memos        []*memo
	refine       []*Expr // exact meaning of contract results, used only to confirm counterexamples
	inInit       int
	sched        *sched
	reached      map[string]int64
	notes        map[string]int64
	asserts      int64
	tierThorough bool
	orderSeen    bool
	unkAtEnd     bool
}

func newWorker(ex *Explorer) *Worker {
	w := &Worker{eng: ex.eng, ex: ex}
	w.cx = newCtx()
	w.solver = newSolver(ex.eng.queryTimeout)
	w.fnCache = map[*ssa.Function]*FnInfo{}
	w.touched = map[*FnInfo]int{}
	w.meths = map[methKey]*ssa.Function{}
	w.impls = map[implKey]bool{}
	w.stdGlobals = map[*ssa.Global]*Value{}
	w.stdInit = map[*ssa.Package]int{}
	w.reached = map[string]int64{}
	w.notes = map[string]int64{}
	return w
}

func (w *Worker) note(s string) { w.notes[s]++ }

// ---- symbolic inputs ----

func (w *Worker) freshVar(width uint8) *Expr {
	i := w.nvars
	w.nvars++
	for int(i) >= len(w.model) {
		w.model = append(w.model, 0)
	}
	w.model[i] &= mask(width)
	w.cx.setModel(w.model)
	e := w.cx.Var(i, width)
	w.vars = append(w.vars, e)
	return e
}

func (w *Worker) input(name string, width uint8) *Expr {
	e := w.freshVar(width)
	w.inputs = append(w.inputs, Input{name: name, e: e, w: width})
	return e
}

// ---- path condition ----

func (w *Worker) addPC(c *Expr) {
	if c.op == OConst {
		return
	}
	if w.known[c] {
		return
	}
	if c.op == OAnd {
		w.known[c] = true
		w.addPC(c.a)
		w.addPC(c.b)
		return
	}
	w.known[c] = true
	w.pc = append(w.pc, c)
	// pin variables equal to constants
	if c.op == OEq {
		if c.a.op == OVar && c.b.op == OConst {
			w.pin1(c.a)
		} else if c.b.op == OVar && c.a.op == OConst {
			w.pin1(c.b)
		}
	}
	if c.op == OVar || (c.op == ONot && c.a.op == OVar) {
		if c.op == ONot {
			w.pin1(c.a)
		} else {
			w.pin1(c)
		}
	}
}

func (w *Worker) pin1(v *Expr) { w.pinned = w.pinned.union(v.vars) }

func (w *Worker) allPinned(e *Expr) bool {
	for i, x := range e.vars {
		var p uint64
		if i < len(w.pinned) {
			p = w.pinned[i]
		}
		if x&^p != 0 {
			return false
		}
	}
	return true
}

// lookup decides c without the solver when it can.
func (w *Worker) lookup(c *Expr) (bool, bool) {
	if c.op == OConst {
		return c.val != 0, true
	}
	if w.known[c] {
		return true, true
	}
	if w.known[w.cx.Not(c)] {
		return false, true
	}
	if w.allPinned(c) {
		return w.cx.Eval(c) != 0, true
	}
	return false, false
}

// query asks for pc ∧ extra (sliced to the connected constraints) and returns a model extending the current one.
func (w *Worker) query(extra *Expr) (SatResult, []uint64) {
	if extra.op == OConst {
		if extra.val == 0 {
			return Unsat, nil
		}
		return Sat, w.model
	}
	vs := extra.vars
	used := make([]bool, len(w.pc))
	cs := []*Expr{extra}
	for changed := true; changed; {
		changed = false
		for i, c := range w.pc {
			if !used[i] && c.vars.intersects(vs) {
				used[i] = true
				cs = append(cs, c)
				n := vs.union(c.vars)
				vs = n
				changed = true
			}
		}
	}
	return w.solve(cs, vs)
}

func (w *Worker) solve(cs []*Expr, vs varset) (SatResult, []uint64) {
	key := cacheKey(cs)
	qc := w.eng.cache
	qc.mu.Lock()
	v, ok := qc.m[key]
	qc.mu.Unlock()
	if ok {
		w.solver.Hits++
	} else {
		var vars []*Expr
		for _, x := range w.vars {
			if vs.has(x.vi) {
				vars = append(vars, x)
			}
		}
		r, m := w.solver.Check(cs, vars)
		v = cacheVal{r, m}
		qc.mu.Lock()
		if len(qc.m) < 2000000 {
			qc.m[key] = v
		}
		qc.mu.Unlock()
	}
	if v.res != Sat {
		return v.res, nil
	}
	nm := make([]uint64, len(w.model))
	copy(nm, w.model)
	for i, x := range v.model {
		for int(i) >= len(nm) {
			nm = append(nm, 0)
		}
		nm[i] = x
	}
	// the model must satisfy what it was asked for
	old := w.model
	w.cx.setModel(nm)
	for _, c := range cs {
		if w.cx.Eval(c) == 0 {
			w.note("solver model rejected")
			w.cx.setModel(old)
			return Unknown, nil
		}
	}
	w.cx.setModel(old)
	return Sat, nm
}

func (w *Worker) useModel(m []uint64) {
	w.model = append([]uint64(nil), m...)
	for len(w.model) < int(w.nvars) {
		w.model = append(w.model, 0)
	}
	w.cx.setModel(w.model)
}

func (w *Worker) record(d Dec) { w.trail = append(w.trail, d) }

func (w *Worker) push(d Dec, m []uint64) {
	p := make([]Dec, len(w.trail)+1)
	copy(p, w.trail)
	p[len(w.trail)] = d
	w.ex.add(&Item{p, append([]uint64(nil), m...)})
}

func (w *Worker) replayDec(kind uint8, h uint64) (Dec, bool) {
	if w.pos >= len(w.prefix) {
		return Dec{}, false
	}
	d := w.prefix[w.pos]
	if d.kind != kind || d.h != h {
		panic(internalErr{fmt.Sprintf("divergence: decision %d of %d is kind %d, expected %d (hash %v)", w.pos, len(w.prefix), d.kind, kind, d.h == h)})
	}
	w.pos++
	w.record(d)
	return d, true
}

type internalErr struct{ msg string }

func (w *Worker) branch(c *Expr) bool {
	if r, ok := w.lookup(c); ok {
		return r
	}
	if w.inInit > 0 {
		panic(internalErr{"symbolic branch during initialisation"})
	}
	if d, ok := w.replayDec(dBranch, c.h); ok {
		t := c
		if !d.taken {
			t = w.cx.Not(c)
		}
		if d.implied {
			w.known[t] = true
		} else {
			w.addPC(t)
		}
		return d.taken
	}
	taken := w.cx.Eval(c) != 0
	t, o := c, w.cx.Not(c)
	if !taken {
		t, o = o, t
	}
	d := Dec{kind: dBranch, taken: taken, h: c.h}
	r, m := w.query(o)
	switch r {
	case Sat:
		w.push(Dec{kind: dBranch, taken: !taken, h: c.h}, m)
		w.record(d)
		w.addPC(t)
	case Unsat:
		d.implied = true
		w.record(d)
		w.known[t] = true
	default:
		w.note("unknown branch (one side not explored)")
		w.record(d)
		w.addPC(t)
	}
	return taken
}

const maxAlternatives = 300

// concretize forks over the feasible values of e.
func (w *Worker) concretize(e *Expr) uint64 {
	if e.op == OConst {
		return e.val
	}
	if w.allPinned(e) {
		return w.cx.Eval(e)
	}
	for n := 0; ; n++ {
		if d, ok := w.replayDec(dEq, e.h); ok {
			c := w.cx.Eq(e, w.cx.Const(e.w, d.val))
			if d.taken {
				if !d.implied {
					w.addPC(c)
				} else {
					w.known[c] = true
				}
				return d.val
			}
			w.addPC(w.cx.Not(c))
			continue
		}
		v := w.cx.Eval(e)
		c := w.cx.Eq(e, w.cx.Const(e.w, v))
		if r, ok := w.lookup(c); ok && r {
			w.record(Dec{kind: dEq, taken: true, implied: true, val: v, h: e.h})
			return v
		}
		d := Dec{kind: dEq, taken: true, val: v, h: e.h}
		if n >= maxAlternatives {
			w.note("value enumeration stopped at " + fmt.Sprint(maxAlternatives))
		} else {
			r, m := w.query(w.cx.Not(c))
			switch r {
			case Sat:
				w.push(Dec{kind: dEq, taken: false, val: v, h: e.h}, m)
			case Unsat:
				d.implied = true
			default:
				w.note("unknown value enumeration")
			}
		}
		w.record(d)
		if d.implied {
			w.known[c] = true
			if e.op == OVar {
				w.pin1(e)
			}
		} else {
			w.addPC(c)
		}
		return v
	}
}

// pin keeps one value of e (a stated reduction of the bound).
func (w *Worker) pin(e *Expr) uint64 {
	if d, ok := w.replayDec(dPin, e.h); ok {
		w.addPC(w.cx.Eq(e, w.cx.Const(e.w, d.val)))
		return d.val
	}
	v := w.cx.Eval(e)
	w.record(Dec{kind: dPin, val: v, h: e.h})
	w.addPC(w.cx.Eq(e, w.cx.Const(e.w, v)))
	return v
}

// choose forks over 0..n-1.
func (w *Worker) choose(what string, n int) int {
	if what == "maporder" {
		w.orderSeen = true
	}
	if n <= 1 {
		return 0
	}
	if d, ok := w.replayDec(dChoose, uint64(n)); ok {
		return int(d.val)
	}
	for i := n - 1; i >= 1; i-- {
		w.push(Dec{kind: dChoose, val: uint64(i), h: uint64(n)}, w.model)
	}
	w.record(Dec{kind: dChoose, val: 0, h: uint64(n)})
	return 0
}

func (w *Worker) assume(v Value) {
	var c *Expr
	switch x := v.(type) {
	case Conc:
		if x == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	case *Expr:
		c = x
	}
	if r, ok := w.lookup(c); ok {
		if !r {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if w.cx.Eval(c) == 0 {
		r, m := w.query(c)
		switch r {
		case Sat:
			w.useModel(m)
		case Unsat:
			panic(pathEnd{"assume", ""})
		default:
			w.note("unknown assumption")
			panic(pathEnd{"unknown", "assumption"})
		}
	}
	w.addPC(c)
}

func (w *Worker) assert(v Value, msg, where string) {
	var c *Expr
	switch x := v.(type) {
	case Conc:
		w.asserts++
		if x == 0 {
			w.violation("assert", msg, where, nil)
			panic(pathEnd{"assertfail", msg})
		}
		return
	case *Expr:
		c = x
	default:
		panic(unsupported{fmt.Sprintf("assertion on %T", v)})
	}
	if r, ok := w.lookup(c); ok && r {
		w.asserts++
		return
	} else if ok && !r {
		w.asserts++
		w.violation("assert", msg, where, nil)
		panic(pathEnd{"assertfail", msg})
	}
	if w.pos < len(w.prefix) {
		if d := w.prefix[w.pos]; d.kind == dAssert && d.h == c.h {
			w.pos++
			w.record(d)
			if d.implied {
				w.known[c] = true
			} else {
				w.addPC(c)
			}
		}
		return // decided by the path this prefix was taken from
	}
	w.asserts++
	n := w.cx.Not(c)
	r, m := w.query(n)
	switch r {
	case Unsat:
		w.record(Dec{kind: dAssert, taken: true, implied: true, h: c.h})
		w.known[c] = true
		return
	case Sat:
		w.violation("assert", msg, where, n, m...)
		r2, m2 := w.query(c)
		if r2 != Sat {
			panic(pathEnd{"assertfail", msg})
		}
		w.useModel(m2)
		w.record(Dec{kind: dAssert, taken: true, h: c.h})
		w.addPC(c)
	default:
		w.note("undecided assertion: " + msg)
		w.record(Dec{kind: dAssert, taken: true, h: c.h})
		if w.cx.Eval(c) == 0 {
			r2, m2 := w.query(c)
			if r2 != Sat {
				panic(pathEnd{"unknown", "assertion"})
			}
			w.useModel(m2)
		}
		w.addPC(c)
	}
}

// violation records a counterexample under the given model (default: the current one).
func (w *Worker) violation(kind, msg, where string, extra *Expr, m ...uint64) {
	ex := w.ex
	key := kind + "|" + msg + "|" + where
	ex.mu.Lock()
	n := ex.vkeys[key]
	ex.vkeys[key]++
	ex.mu.Unlock()
	if n >= 12 {
		return
	}
	save := w.model
	if m != nil {
		w.useModel(m)
	}
	if len(w.refine) > 0 {
		// make contract results exact
		cs := append([]*Expr(nil), w.pc...)
		if extra != nil {
			cs = append(cs, extra)
		}
		cs = append(cs, w.refine...)
		var vs varset
		for _, c := range cs {
			vs = vs.union(c.vars)
		}
		r, rm := w.solve(cs, vs)
		if r == Unsat {
			// spurious: excluded by the exact meaning of the contract
			w.note("contract counterexample excluded by refinement")
			w.useModel(save)
			return
		}
		if r == Sat {
			w.useModel(rm)
		}
	}
	v := &Violation{Harness: ex.name, Kind: kind, Msg: msg, Where: where, Inputs: w.inputVals(), Log: w.renderLog(), Tier: w.eng.tier(), maporder: w.orderSeen}
	w.useModel(save)
	ex.mu.Lock()
	ex.res.Violations = append(ex.res.Violations, v)
	ex.mu.Unlock()
}

func (w *Worker) inputVals() []InVal {
	out := make([]InVal, len(w.inputs))
	for i, in := range w.inputs {
		v := in.val
		if in.e != nil {
			v = w.cx.Eval(in.e)
		}
		out[i] = InVal{in.name, v, in.w}
	}
	return out
}

// ---- one path ----

func (w *Worker) runItem(it *Item) {
	w.prefix, w.pos = it.prefix, 0
	w.trail = w.trail[:0]
	w.model = append([]uint64(nil), it.model...)
	if w.cx.next > 1500000 {
		w.cx.reset()
		w.solver.restart()
	}
	w.cx.setModel(w.model)
	w.nvars = 0
	w.vars = w.vars[:0]
	w.inputs = nil
	w.pc = w.pc[:0]
	w.known = map[*Expr]bool{}
	w.pinned = nil
	w.log = nil
	w.memos = nil
	w.refine = nil
	w.usrGlobals = map[*ssa.Global]*Value{}
	w.usrInit = map[*ssa.Package]int{}
	w.fuel = w.eng.fuel
	w.maxDepth = 900
	w.allocLimit = 40
	w.maxAlloc = 1 << 22
	w.mapOrder = false
	w.orderSeen = false
	end, msg, where := w.runPath()
	switch end {
	case "panic", "deadlock", "fuel", "depth":
		k := end
		if end == "fuel" || end == "depth" {
			k = "hang"
		}
		w.violation(k, msg, where, nil)
	}
	ex := w.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	res := ex.res
	res.Paths++
	res.Decisions += int64(len(w.trail))
	res.Instrs += int64(w.eng.fuel - w.fuel)
	k := end
	if end == "unsupported" || end == "internal" || end == "cut" {
		k = end + ": " + msg
		if where != "" {
			k += " @" + where
		}
	}
	res.Ends[k]++
	if end == "ok" || end == "panic" {
		if ex.ntrace < w.eng.maxTraces && (res.Paths < 8 || (it.hash()%7 == 0)) && len(w.refine) == 0 && len(w.memos) == 0 && !w.orderSeen && end == "ok" {
			ex.ntrace++
			res.Traces = append(res.Traces, &Trace{ex.name, w.eng.tier(), w.inputVals(), w.renderLog(), end})
		}
	}
}

func (it *Item) hash() uint64 {
	h := uint64(17)
	for _, d := range it.prefix {
		h = mix(h, d.val+uint64(d.kind)*3+b2u(d.taken))
	}
	return h
}

func (w *Worker) runPath() (end, msg, where string) {
	s := &sched{w: w}
	w.sched = s
	defer s.killAll()
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		end, msg, where = w.classify(r)
	}()
	s.main(func() {
		w.callFn(nil, w.ex.fn, nil, nil)
	})
	return "ok", "", ""
}

func (w *Worker) classify(r any) (end, msg, where string) {
	switch x := r.(type) {
	case pathEnd:
		return x.kind, x.msg, ""
	case targetPanic:
		return "panic", w.panicText(x.v), ""
	case unsupported:
		return "unsupported", x.msg, w.curFn()
	case internalErr:
		return "internal", x.msg, ""
	case error:
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "engine error %v\n%s\n", x, debug.Stack())
		}
		return "internal", x.Error(), w.curFn()
	case string:
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "engine error %v\n%s\n", x, debug.Stack())
		}
		return "internal", x, w.curFn()
	}
	return "internal", fmt.Sprintf("%T", r), w.curFn()
}

func (w *Worker) curFn() string { return "" }

func (w *Worker) panicText(v Value) string {
	if i, ok := v.(Iface); ok {
		if i.t == w.eng.rtErrType {
			if s, ok := i.v.(Struct); ok && len(s) > 0 {
				if t, ok := s[0].(string); ok {
					return t
				}
			}
		}
		switch s := i.v.(type) {
		case string:
			return s
		}
		return "panic(" + typeStr(i.t) + ")"
	}
	return "panic"
}

// ---- explorer ----

func (ex *Explorer) add(it *Item) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, it)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Explorer) next(id int) *Item {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop != "" {
			return nil
		}
		if time.Now().After(ex.deadl) {
			ex.stop = "time budget"
			ex.cond.Broadcast()
			return nil
		}
		if ex.res.Paths >= ex.maxPath {
			ex.stop = "path budget"
			ex.cond.Broadcast()
			return nil
		}
		if n := len(ex.queue); n > 0 {
			// most workers go depth first, one breadth first, so that a cut-off exploration is spread
			i := n - 1
			if id == 0 {
				i = 0
			}
			it := ex.queue[i]
			if i == 0 {
				ex.queue = ex.queue[1:]
			} else {
				ex.queue = ex.queue[:n-1]
			}
			ex.active++
			return it
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return nil
		}
		ex.cond.Wait()
	}
}

func (e *Engine) explore(fn *ssa.Function, budget time.Duration, maxPaths int64) *HarnessResult {
	ex := &Explorer{eng: e, fn: fn, name: fn.Name(), deadl: time.Now().Add(budget), maxPath: maxPaths, vkeys: map[string]int{}}
	ex.cond = sync.NewCond(&ex.mu)
	ex.res = &HarnessResult{Name: fn.Name(), Ends: map[string]int64{}, Notes: map[string]int64{}, Reached: map[string]int64{}, Touched: map[string]int{}}
	ex.queue = []*Item{{}}
	t0 := time.Now()
	var wg sync.WaitGroup
	timer := time.AfterFunc(budget+time.Second, func() { ex.cond.Broadcast() })
	defer timer.Stop()
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			w := e.worker(id, ex)
			for {
				it := ex.next(id)
				if it == nil {
					break
				}
				w.runItem(it)
				ex.mu.Lock()
				ex.active--
				if ex.active == 0 && len(ex.queue) == 0 {
					ex.cond.Broadcast()
				}
				ex.mu.Unlock()
			}
			ex.mu.Lock()
			for k, v := range w.notes {
				ex.res.Notes[k] += v
			}
			for k, v := range w.reached {
				ex.res.Reached[k] += v
			}
			for f, n := range w.touched {
				if f.intr == nil {
					ex.res.Touched[f.name] += n
				} else {
					ex.res.Touched["~"+f.name] += n
				}
			}
			ex.res.Asserts += w.asserts
			w.asserts = 0
			w.notes = map[string]int64{}
			w.reached = map[string]int64{}
			w.touched = map[*FnInfo]int{}
			ex.mu.Unlock()
		}(i)
	}
	wg.Wait()
	ex.res.Pending = len(ex.queue)
	if ex.res.Pending > 0 {
		ex.res.Incomplete = ex.stop
	}
	ex.res.Wall = time.Since(t0)
	sort.SliceStable(ex.res.Violations, func(i, j int) bool {
		a, b := ex.res.Violations[i], ex.res.Violations[j]
		if a.Msg != b.Msg {
			return a.Msg < b.Msg
		}
		return len(a.Inputs) < len(b.Inputs)
	})
	return ex.res
}

func (e *Engine) worker(id int, ex *Explorer) *Worker {
	e.wmu.Lock()
	defer e.wmu.Unlock()
	for len(e.pool) <= id {
		e.pool = append(e.pool, nil)
	}
	if e.pool[id] == nil {
		e.pool[id] = newWorker(ex)
	}
	w := e.pool[id]
	w.ex = ex
	return w
}

// ---- globals ----

func (w *Worker) globalAddr(g *ssa.Global) *Value {
	pkg := g.Pkg
	usr := w.eng.user[pkg]
	m, ini := w.stdGlobals, w.stdInit
	if usr {
		m, ini = w.usrGlobals, w.usrInit
	}
	if p, ok := m[g]; ok && (ini[pkg] != 0) {
		return p
	}
	if ini[pkg] == 0 && !(strings.HasPrefix(g.Name(), "init$")) {
		w.initPkg(pkg, ini)
	}
	p, ok := m[g]
	if !ok {
		p = new(Value)
		*p = zero(g.Type().Underlying().(*types.Pointer).Elem())
		m[g] = p
	}
	if w.eng.denied(pkg.Pkg.Path()) && !w.eng.allowGlobal(g) {
		panic(unsupported{"global " + g.String()})
	}
	return p
}

func (w *Worker) globalReady(g *ssa.Global) bool {
	if w.eng.user[g.Pkg] {
		return w.usrInit[g.Pkg] == 2
	}
	return w.stdInit[g.Pkg] == 2
}

func (w *Worker) initPkg(pkg *ssa.Package, ini map[*ssa.Package]int) {
	ini[pkg] = 1
	if w.eng.denied(pkg.Pkg.Path()) {
		ini[pkg] = 2
		return
	}
	fn := pkg.Func("init")
	if fn == nil {
		ini[pkg] = 2
		return
	}
	fi := w.fnCache[fn]
	if fi == nil {
		fi = getFn(fn)
		w.fnCache[fn] = fi
	}
	if fi.blocks == nil {
		panic(unsupported{"no init body for " + pkg.Pkg.Path()})
	}
	saveFuel, saveMerge := w.fuel, w.mapOrder
	w.fuel = 1 << 40
	w.mapOrder = false
	w.inInit++
	done := false
	defer func() {
		if !done {
			w.fuel, w.mapOrder = saveFuel, saveMerge
			w.inInit--
			ini[pkg] = 0
		}
	}()
	f := &frame{fi: fi, regs: make([]Value, fi.nregs)}
	w.run(f)
	done = true
	w.inInit--
	w.fuel = saveFuel
	w.mapOrder = saveMerge
	ini[pkg] = 2
}
