package main

// Path exploration: every path is executed from the start; a path is
// identified by the list of decisions taken at its symbolic branch points.

import (
	"fmt"
	"go/token"
	"math/big"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type pathEnd struct {
	kind string // infeasible | unsupported | bound | violation | stop
	msg  string
}

// NDValue is one nondeterministic input, in creation order.
type NDValue struct {
	Name string
	Kind string // bool u8 u16 u32 u64 i32 i64 bytes choice big
	Term *Term
	Byts []*Term
	Conc int64
	W    int32
}

type NDJSON struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  string `json:"val"` // decimal, or hex for bytes
}

type Observation struct {
	Label string
	Val   value
}

type ObsJSON struct {
	Label string `json:"label"`
	Val   string `json:"val"`
}

// Case is a concrete assignment for one path.
type Case struct {
	Harness string    `json:"harness"`
	Pkg     string    `json:"pkg"`
	Tier    int       `json:"tier"`
	Inputs  []NDJSON  `json:"inputs"`
	Obs     []ObsJSON `json:"observations"`
	Message string    `json:"message,omitempty"`
	Where   string    `json:"where,omitempty"`
	Sched   []int32   `json:"decisions,omitempty"`
}

type Job struct {
	prefix []int32
	warm   []*big.Int // a model of the prefix, by variable creation order
}

// Harness is one entry point to explore.
type Harness struct {
	Name string
	Pkg  string
	Fn   *ssa.Function
	Tier int
}

// HResult is what exploring one harness gave.
type HResult struct {
	Harness     string
	Pkg         string
	Paths       int
	Done        int
	Infeasible  int
	Unsupported map[string]int
	Bounded     map[string]int
	Decisions   int64
	Forced      int64
	Steps       int64
	Asserts     int64 // assertion instances discharged
	AssertSites map[string]int64
	Reached     map[string]int64
	Labels      []string // statically declared reach labels
	Funcs       map[string]bool
	Violations  []*Case
	Samples     []*Case
	Unknown     int64
	TimedOut    bool
	Wall        float64
}

type Explorer struct {
	prog     *Program
	h        *Harness
	res      *HResult
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []Job
	active   int
	stopped  bool
	deadline time.Time
	maxPaths int
	maxSteps int64
	nSamples int
	stopOnV  bool
	qTimeout int
}

func (ex *Explorer) push(j Job) {
	ex.mu.Lock()
	ex.queue = append(ex.queue, j)
	ex.cond.Signal()
	ex.mu.Unlock()
}

func (ex *Explorer) pop() (Job, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stopped {
			return Job{}, false
		}
		if len(ex.queue) > 0 {
			if time.Now().After(ex.deadline) || ex.res.Paths >= ex.maxPaths {
				ex.res.TimedOut = true
				ex.stopped = true
				ex.cond.Broadcast()
				return Job{}, false
			}
			j := ex.queue[len(ex.queue)-1]
			ex.queue = ex.queue[:len(ex.queue)-1]
			ex.active++
			ex.res.Paths++
			return j, true
		}
		if ex.active == 0 {
			ex.stopped = true
			ex.cond.Broadcast()
			return Job{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 && len(ex.queue) == 0 {
		ex.stopped = true
	}
	ex.cond.Broadcast()
	ex.mu.Unlock()
}

func (ex *Explorer) run(workers int, solvers []*Solver) *HResult {
	t0 := time.Now()
	ex.cond = sync.NewCond(&ex.mu)
	ex.res = &HResult{
		Harness: ex.h.Name, Pkg: ex.h.Pkg,
		Unsupported: map[string]int{}, Bounded: map[string]int{},
		AssertSites: map[string]int64{}, Reached: map[string]int64{}, Funcs: map[string]bool{},
	}
	ex.queue = []Job{{}}
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for {
				j, ok := ex.pop()
				if !ok {
					return
				}
				ex.runPath(j, solvers[i])
				ex.done()
			}
		}(i)
	}
	wg.Wait()
	ex.res.Wall = time.Since(t0).Seconds()
	return ex.res
}

func (ex *Explorer) runPath(j Job, s *Solver) {
	in := newInterp(ex, s, j.prefix)
	in.warm = j.warm
	s.newPath()
	end := in.execute()
	ex.mu.Lock()
	defer ex.mu.Unlock()
	r := ex.res
	r.Decisions += int64(len(in.trace))
	r.Forced += in.forced
	r.Steps += in.steps
	r.Asserts += in.nAsserts
	r.Unknown += in.unknown
	for k, v := range in.sites {
		r.AssertSites[k] += v
	}
	for f := range in.funcs {
		r.Funcs[f] = true
	}
	if end.kind == "done" || end.kind == "violation" || end.kind == "stop" {
		for l := range in.reached {
			r.Reached[l]++
		}
	}
	switch end.kind {
	case "done":
		r.Done++
		if len(r.Samples) < ex.nSamples || (r.Done%97 == 0 && len(r.Samples) < 4*ex.nSamples) {
			if in.haveModel {
				r.Samples = append(r.Samples, in.mkCase(in.model, "", ""))
			}
		}
	case "infeasible":
		if len(in.violations) == 0 {
			r.Infeasible++
		} else {
			r.Done++
		}
	case "unsupported":
		r.Unsupported[end.msg]++
	case "bound":
		r.Bounded[end.msg]++
	case "violation":
		r.Done++
	}
	if len(in.violations) > 0 {
		r.Violations = append(r.Violations, in.violations...)
		if ex.stopOnV && len(r.Violations) >= 200 {
			ex.stopped = true
			ex.cond.Broadcast()
		}
	}
}

// ---------- per-path services of the interpreter

func (in *Interp) execute() (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case pathEnd:
				end = r
			case targetPanic:
				end = in.uncaught(r)
			default:
				msg := fmt.Sprint(r)
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "engine panic: %v at %s\n%s\n", r, in.where(), debug.Stack())
				}
				end = pathEnd{"unsupported", "engine: " + msg + " at " + in.where()}
			}
		}
	}()
	defer in.killCoros()
	in.callFn(in.ex.h.Fn, nil, nil)
	// a model for the finished path
	if len(in.violations) > 0 {
		return pathEnd{"violation", ""}
	}
	return pathEnd{"done", ""}
}

func (in *Interp) uncaught(p targetPanic) (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(pathEnd); ok {
				end = pe
				return
			}
			end = pathEnd{"unsupported", fmt.Sprint("engine: ", r)}
		}
	}()
	in.report("panic: "+in.panicText(p.v), p.at)
	return pathEnd{"violation", ""}
}

func (in *Interp) panicText(v value) string {
	switch v := v.(type) {
	case iface:
		if v.t == nil {
			return "nil"
		}
		if s, ok := v.v.(Str); ok {
			return s.String()
		}
		return v.t.String()
	case Str:
		return v.String()
	}
	return fmt.Sprintf("%T", v)
}

// report records a violation on the current path condition.
func (in *Interp) report(msg, where string) {
	in.record(msg, where)
	panic(pathEnd{"violation", msg})
}

func (in *Interp) record(msg, where string) {
	m := in.ensureModel()
	in.debugPC(m)
	in.violations = append(in.violations, in.mkCase(m, msg, where))
}

// ensureModel returns a model of the path condition.
func (in *Interp) ensureModel() Model {
	if in.haveModel {
		return in.model
	}
	r, m := in.solver.check(nil, in.ctx.vars)
	switch r {
	case Unsat:
		panic(pathEnd{"infeasible", ""})
	case Unknown:
		panic(pathEnd{"bound", "solver gave no answer for the path condition"})
	}
	in.setModel(m)
	return m
}

func (in *Interp) setModel(m Model) {
	in.model = m
	in.haveModel = true
	in.ev = newEval(m)
}

func (in *Interp) mkCase(m Model, msg, where string) *Case {
	c := &Case{Harness: in.ex.h.Name, Pkg: in.ex.h.Pkg, Tier: in.ex.h.Tier, Message: msg, Where: where}
	e := newEval(m)
	for _, n := range in.nd {
		j := NDJSON{Name: n.Name, Kind: n.Kind}
		switch n.Kind {
		case "bytes":
			b := make([]byte, len(n.Byts))
			for i, t := range n.Byts {
				b[i] = byte(e.eval(t).Uint64())
			}
			j.Val = fmt.Sprintf("%x", b)
		case "choice":
			j.Val = fmt.Sprint(n.Conc)
		case "i32", "i64", "big":
			j.Val = toSigned(e.eval(n.Term), n.Term.w).String()
		default:
			j.Val = e.eval(n.Term).String()
		}
		c.Inputs = append(c.Inputs, j)
	}
	for _, o := range in.obs {
		c.Obs = append(c.Obs, ObsJSON{o.Label, showVal(e, o.Val)})
	}
	c.Sched = append([]int32{}, in.trace...)
	return c
}

func showVal(e *evaluator, v value) string {
	switch v := v.(type) {
	case *Term:
		if v.w == 0 {
			if e.eval(v).Sign() != 0 {
				return "true"
			}
			return "false"
		}
		return e.eval(v).String()
	case Str:
		b := make([]byte, v.len())
		for i := range b {
			b[i] = byte(e.eval(v.at(i)).Uint64())
		}
		return fmt.Sprintf("x%x", b)
	case slice:
		b := make([]byte, len(v))
		for i := range b {
			t, ok := v[i].(*Term)
			if !ok {
				return "?"
			}
			b[i] = byte(e.eval(t).Uint64())
		}
		return fmt.Sprintf("x%x", b)
	case bigV:
		return toSigned(e.eval(v.t), v.t.w).String()
	case *value:
		if v == nil {
			return "nil"
		}
		return showVal(e, *v)
	case iface:
		if v.t == nil {
			return "nil"
		}
		return showVal(e, v.v)
	}
	return fmt.Sprintf("?%T", v)
}

func (in *Interp) debugPC(m Model) {
	if os.Getenv("GOSYM_DEBUG") == "" {
		return
	}
	e := newEval(m)
	for _, t := range in.pcDbg {
		if e.eval(t).Sign() == 0 {
			var sb strings.Builder
			pr := &printer{done: map[*Term]bool{}, sb: &sb}
			pr.emit(t)
			fmt.Fprintln(os.Stderr, "MODEL VIOLATES PC:\n", sb.String(), pr.ref(t))
		}
	}
}

func (in *Interp) addPC(t *Term) {
	if t.isConst() {
		return
	}
	if os.Getenv("GOSYM_DEBUG") != "" {
		in.pcDbg = append(in.pcDbg, t)
	}
	in.pcN++
	in.solver.assert(t)
	in.ctx.learn(t)
}

// decide resolves a symbolic condition, forking when both sides are feasible.
func (in *Interp) decide(c *Term) bool {
	if c.isConst() {
		return c.k == 1
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	if b, ok := in.known[c]; ok {
		return b
	}
	if c.op == OpNot {
		if b, ok := in.known[c.a[0]]; ok {
			return !b
		}
	}
	pos := len(in.trace)
	if pos < len(in.prefix) {
		d := in.prefix[pos]
		in.trace = append(in.trace, d)
		b := d&1 == 1
		in.take(c, b, d&2 != 0)
		return b
	}
	if len(in.trace) > in.maxDecisions {
		panic(pathEnd{"bound", "more than " + fmt.Sprint(in.maxDecisions) + " symbolic decisions on one path"})
	}
	in.checkTime()
	// which side does the current model take?
	m := in.ensureModel()
	_ = m
	b := in.ev.eval(c).Sign() != 0
	other := c
	if b {
		other = in.ctx.Not(c)
	}
	r, om := in.solver.check(other, in.ctx.vars)
	switch r {
	case Unsat:
		in.forced++
		in.trace = append(in.trace, bit(b)|2)
		in.known[c] = b
		return b
	case Unknown:
		in.unknown++
		fallthrough
	case Sat:
		alt := make([]int32, len(in.trace)+1)
		copy(alt, in.trace)
		alt[len(in.trace)] = bit(!b)
		j := Job{prefix: alt}
		if om != nil {
			j.warm = in.warmOf(om)
		}
		in.ex.push(j)
	}
	in.trace = append(in.trace, bit(b))
	// the current model still satisfies the taken side
	in.known[c] = b
	if b {
		in.addPC(c)
	} else {
		in.addPC(in.ctx.Not(c))
	}
	return b
}

func (in *Interp) warmOf(m Model) []*big.Int {
	w := make([]*big.Int, len(in.ctx.vars))
	for i, v := range in.ctx.vars {
		w[i] = m[v]
	}
	return w
}

// newVar makes a fresh symbolic variable, seeded from the warm model.
func (in *Interp) newVar(name string, w int32) *Term {
	if in.spec > 0 {
		panic(specAbort{})
	}
	t := in.ctx.Var(name, w)
	i := len(in.ctx.vars) - 1
	if i < len(in.warm) && in.warm[i] != nil && in.haveModel {
		in.model[t] = in.warm[i]
	}
	return t
}

func bit(b bool) int32 {
	if b {
		return 1
	}
	return 0
}

func (in *Interp) take(c *Term, b, forced bool) {
	in.known[c] = b
	if forced {
		return
	}
	t := c
	if !b {
		t = in.ctx.Not(c)
	}
	in.addPC(t)
	if in.haveModel && in.ev.eval(t).Sign() == 0 {
		in.haveModel = false
	}
}

// choose forks over n alternatives without constraints.
func (in *Interp) choose(n int, what string) int {
	if n <= 1 {
		return 0
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	pos := len(in.trace)
	if pos < len(in.prefix) {
		d := in.prefix[pos]
		in.trace = append(in.trace, d)
		return int(d)
	}
	for i := n - 1; i >= 1; i-- {
		alt := make([]int32, len(in.trace)+1)
		copy(alt, in.trace)
		alt[len(in.trace)] = int32(i)
		j := Job{prefix: alt}
		if in.haveModel {
			j.warm = in.warmOf(in.model)
		}
		in.ex.push(j)
	}
	in.trace = append(in.trace, 0)
	return 0
}

// concretize forks over every feasible value of t (at most max values).
func (in *Interp) concretize(t *Term, max int, what string) uint64 {
	if t.isConst() {
		if t.w > 64 {
			in.unsupported("wide concretize")
		}
		return t.k
	}
	in.noSpec()
	for i := 0; i < max; i++ {
		m := in.ensureModelSafe()
		_ = m
		var v *big.Int
		if len(in.trace) < len(in.prefix) {
			// replaying: the value tried is recorded in the trace
			v = in.replayVal(t)
		} else {
			v = in.ev.eval(t)
		}
		k := KB(t.w, v)
		in.recordVal(v)
		if in.decide(in.ctx.Eq(t, k)) {
			return v.Uint64()
		}
	}
	panic(pathEnd{"bound", fmt.Sprintf("%s: more than %d values", what, max)})
}

// concretization values are recorded as two trace entries (low/high words) so a
// replayed prefix tries the same values.
func (in *Interp) recordVal(v *big.Int) {
	if len(in.trace) < len(in.prefix) {
		return
	}
	u := v.Uint64()
	in.trace = append(in.trace, int32(uint32(u)), int32(uint32(u>>32)))
}

func (in *Interp) replayVal(t *Term) *big.Int {
	p := len(in.trace)
	u := uint64(uint32(in.prefix[p])) | uint64(uint32(in.prefix[p+1]))<<32
	in.trace = append(in.trace, in.prefix[p], in.prefix[p+1])
	return new(big.Int).SetUint64(u)
}

func (in *Interp) ensureModelSafe() Model {
	if len(in.trace) < len(in.prefix) {
		return nil
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	return in.ensureModel()
}

func (in *Interp) assume(c *Term) {
	if c.isConst() {
		if c.k == 0 {
			panic(pathEnd{"infeasible", ""})
		}
		return
	}
	in.addPC(c)
	in.known[c] = true
	if in.haveModel && in.ev.eval(c).Sign() == 0 {
		in.haveModel = false
	}
	if len(in.trace) >= len(in.prefix) {
		in.ensureModel()
	}
}

// assert checks that c holds for every input of this path.
func (in *Interp) assert(c *Term, msg, where string) {
	in.sites[where+": "+msg]++
	if len(in.trace) < len(in.prefix) {
		// decided when the parent path passed here: only continue under it
		if c.isConst() {
			if c.k == 0 {
				in.report(msg, where)
			}
			return
		}
		in.addPC(c)
		in.known[c] = true
		return
	}
	in.nAsserts++
	if c.isConst() {
		if c.k == 1 {
			return
		}
		in.report(msg, where)
	}
	in.checkTime()
	in.ensureModel()
	if in.ev.eval(c).Sign() == 0 {
		in.record(msg, where)
		in.assume(c)
		return
	}
	r, m := in.solver.check(in.ctx.Not(c), in.ctx.vars)
	switch r {
	case Sat:
		in.setModel(m)
		in.record(msg, where)
		// go on under the assertion, so that later ones are checked too
		in.assume(c)
		return
	case Unknown:
		in.unknown++
		panic(pathEnd{"bound", "solver gave no answer for an assertion: " + msg})
	}
	// holds: keep it as a lemma for later queries
	in.known[c] = true
}

func (in *Interp) checkTime() {
	if time.Now().After(in.ex.deadline) {
		in.ex.mu.Lock()
		in.ex.res.TimedOut = true
		in.ex.mu.Unlock()
		panic(pathEnd{"bound", "time budget of the harness"})
	}
}

func (in *Interp) unsupported(msg string) {
	if os.Getenv("GOSYM_DEBUG") != "" {
		for i := len(in.stack) - 1; i >= 0 && i > len(in.stack)-15; i-- {
			f := in.stack[i]
			w := ""
			if f.instr != nil && f.instr.Pos() != token.NoPos {
				w = in.prog.fset.Position(f.instr.Pos()).String()
			}
			fmt.Fprintln(os.Stderr, "  unsupported", msg, "in", f.fn, w)
		}
	}
	panic(pathEnd{"unsupported", msg + " at " + in.where()})
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func shortFn(s string) string {
	return strings.ReplaceAll(s, modPath+"/", "")
}
