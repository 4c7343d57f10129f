package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Dec is one decision of a path: which branch, option or goroutine.
type Dec struct {
	label string
	val   int
}

// pathEnd is the engine-level panic that ends a path.
type pathEnd struct {
	kind string // "assume", "unsupported", "bound", "violation", "deadlock", "killed", "done"
	msg  string
}

func unsupported(f string, a ...interface{}) pathEnd {
	return pathEnd{"unsupported", fmt.Sprintf(f, a...)}
}

// Violation is a failed assertion with the model that breaks it.
type Violation struct {
	Harness  string            `json:"harness"`
	Property string            `json:"property"`
	Kind     string            `json:"kind"`
	Msg      string            `json:"msg"`
	Where    string            `json:"where"`
	Stack    []string          `json:"stack,omitempty"`
	Inputs   []InputVal        `json:"inputs"`
	Sched    []string          `json:"schedule,omitempty"`
	Decs     []int             `json:"decisions"`
	Model    map[string]uint64 `json:"model,omitempty"`
	Extra    map[string]string `json:"extra,omitempty"`
	Sig      string            `json:"signature"`
	Params   map[string]int    `json:"params,omitempty"`
}

// InputVal is one value handed to the harness, in order of creation.
type InputVal struct {
	Kind string `json:"kind"`
	Name string `json:"name"`
	Val  string `json:"val"`
	term *Term
	fix  string
	str  Value
}

// Exploration is one harness run over all its paths.
type Exploration struct {
	prog     *Program
	fn       *ssa.Function
	prop     string
	name     string
	opt      Options
	mu       sync.Mutex
	stack    [][]int
	active   int
	cond     *sync.Cond
	stop     bool
	deadline time.Time

	paths, done, assumed, bounded, unsup int64
	maxDecs, redundant                   int64
	steps                                int64
	decisions                            int64
	asserts, assertsDischarged           int64
	unknownAsserts                       int64
	branchesSym                          int64
	schedPoints                          int64
	notes                                map[string]int
	unsupMsgs                            map[string]int
	boundMsgs                            map[string]int
	reach                                map[string]int
	funcs                                map[string]int
	viol                                 map[string]*Violation
	witnesses                            []*Violation
	ends                                 int64
	known                                *Known
	samples                              []string
	gaveUp                               bool
}

type Options struct {
	MaxPaths    int64
	MaxSteps    int64
	MaxDecs     int
	Preempt     int
	Points      []string // with Delay: a running goroutine is interrupted only in functions whose name contains one of these
	Delay       int      // 1 + deviations from the round-robin schedule; 0: Preempt applies
	TimerFires  int
	MapPerm     int
	Timeout     time.Duration
	Workers     int
	MaxViol     int
	EarlyTimers int
	NoSleep     bool
	Witness     int
	Params      map[string]int
}

func (o Options) def() Options {
	if o.MaxPaths == 0 {
		o.MaxPaths = 400000
	}
	if o.MaxSteps == 0 {
		o.MaxSteps = 4000000
	}
	if o.MaxDecs == 0 {
		o.MaxDecs = 600
	}
	if o.Workers == 0 {
		o.Workers = 8
	}
	if o.MaxViol == 0 {
		o.MaxViol = 24
	}
	if o.Timeout == 0 {
		o.Timeout = 240 * time.Second
	}
	return o
}

func (ex *Exploration) push(prefix []int) {
	if onePath != nil {
		return
	}
	ex.mu.Lock()
	ex.stack = append(ex.stack, prefix)
	ex.mu.Unlock()
	ex.cond.Signal()
}

func (ex *Exploration) take() ([]int, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop {
			return nil, false
		}
		if n := len(ex.stack); n > 0 {
			if ex.paths >= ex.opt.MaxPaths || time.Now().After(ex.deadline) {
				ex.gaveUp = true
				ex.stop = true
				ex.cond.Broadcast()
				return nil, false
			}
			p := ex.stack[n-1]
			ex.stack = ex.stack[:n-1]
			ex.active++
			ex.paths++
			return p, true
		}
		if ex.active == 0 {
			ex.cond.Broadcast()
			return nil, false
		}
		ex.cond.Wait()
	}
}

func (ex *Exploration) finish() {
	ex.mu.Lock()
	ex.active--
	if ex.active == 0 && len(ex.stack) == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

func (ex *Exploration) run() {
	ex.cond = sync.NewCond(&ex.mu)
	ex.notes = map[string]int{}
	ex.unsupMsgs = map[string]int{}
	ex.boundMsgs = map[string]int{}
	ex.reach = map[string]int{}
	ex.funcs = map[string]int{}
	ex.viol = map[string]*Violation{}
	ex.witnesses, ex.ends = nil, 0
	ex.deadline = time.Now().Add(ex.opt.Timeout)
	ex.stack = [][]int{onePath}
	var wg sync.WaitGroup
	for i := 0; i < ex.opt.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := getWorker(ex.prog)
			defer putWorker(w)
			for {
				prefix, ok := ex.take()
				if !ok {
					return
				}
				w.runPath(ex, prefix)
				ex.finish()
			}
		}()
	}
	wg.Wait()
}

// Worker owns a term table, a solver and the frozen (init-once) globals.
type Worker struct {
	prog    *Program
	tb      *TB
	sol     *Solver
	frozen  map[*ssa.Global]*Value
	initial map[*ssa.Global]Value // what they were after initialisation
	fstate  map[*ssa.Package]int
	paths   int
	fnCount map[*ssa.Function]int
	initErr string // a package could not be initialised
}

var workerMu sync.Mutex
var workerPool []*Worker

func getWorker(pr *Program) *Worker {
	workerMu.Lock()
	defer workerMu.Unlock()
	if n := len(workerPool); n > 0 {
		w := workerPool[n-1]
		workerPool = workerPool[:n-1]
		return w
	}
	s, err := NewSolver(solverName)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot start solver:", err)
		os.Exit(3)
	}
	return &Worker{prog: pr, tb: NewTB(), sol: s, frozen: map[*ssa.Global]*Value{}, initial: map[*ssa.Global]Value{}, fstate: map[*ssa.Package]int{}, fnCount: map[*ssa.Function]int{}}
}

func putWorker(w *Worker) {
	workerMu.Lock()
	workerPool = append(workerPool, w)
	workerMu.Unlock()
}

// Path is the state of one execution.
type Path struct {
	w      *Worker
	ex     *Exploration
	tb     *TB
	prefix []int
	trail  []Dec
	pc     []*Term
	pcSet  map[*Term]bool
	axioms map[*Term]bool

	globals map[*ssa.Global]*Value
	touched map[*ssa.Global]bool // frozen globals that are as this path left them
	initSt  map[*ssa.Package]int
	initDep int

	steps    int64
	names    map[string]int
	packs    []*Doc
	cats     map[string]*Rope
	catKeys  []string
	inputs   []*InputVal
	notes    map[string]bool
	reached  map[string]bool
	violated bool
	extra    map[string]string

	sch     *Sched
	now     *Term
	nowN    int
	timers  []*Timer
	locks   map[*Value]*lockState
	side    map[interface{}]interface{}
	endErr  *pathEnd
	kv      map[string]Value
	noBound bool
}

func (w *Worker) runPath(ex *Exploration, prefix []int) {
	w.paths++
	p := &Path{w: w, ex: ex, tb: w.tb, prefix: prefix, pcSet: map[*Term]bool{}, axioms: map[*Term]bool{},
		globals: map[*ssa.Global]*Value{}, touched: map[*ssa.Global]bool{}, initSt: map[*ssa.Package]int{}, names: map[string]int{},
		notes: map[string]bool{}, reached: map[string]bool{}, locks: map[*Value]*lockState{}, side: map[interface{}]interface{}{},
		extra: map[string]string{}, kv: map[string]Value{}}
	p.sch = newSched(p)
	p.sch.runMain(ex.fn)
	if frozenDebug {
		w.frozenReport()
	}
	end := p.endErr
	if (end == nil || end.kind == "done") && !p.violated && ex.opt.Witness > 0 {
		n := atomic.AddInt64(&ex.ends, 1)
		if n&(n-1) == 0 {
			if v, _ := p.witness(nil); v != nil {
				v.Kind = "held"
				ex.mu.Lock()
				ex.witnesses = append(ex.witnesses, v)
				ex.mu.Unlock()
			}
		}
	}
	ex.mu.Lock()
	defer ex.mu.Unlock()
	ex.steps += p.steps
	ex.decisions += int64(len(p.trail))
	if int64(len(p.trail)) > ex.maxDecs {
		ex.maxDecs = int64(len(p.trail))
	}
	for n := range p.notes {
		ex.notes[n]++
	}
	for f, n := range w.fnCount {
		ex.funcs[f.String()] += n
		delete(w.fnCount, f)
	}
	kind := "done"
	if end != nil {
		kind = end.kind
	}
	switch kind {
	case "done", "violation", "deadlock":
		ex.done++
		for r := range p.reached {
			ex.reach[r]++
		}
	case "redundant":
		ex.redundant++
	case "assume":
		ex.assumed++
	case "bound":
		ex.bounded++
		ex.boundMsgs[end.msg]++
	default:
		ex.unsup++
		ex.unsupMsgs[end.msg]++
	}
	if len(ex.samples) < 4 && kind == "done" && (ex.done == 1 || ex.done == 7 || ex.done == 50 || ex.done == 300) {
		ex.samples = append(ex.samples, p.sample())
	}
	if traceOn {
		fmt.Printf("path %v end=%s decs=%d steps=%d pc=%d\n", p.trailInts(), kind, len(p.trail), p.steps, len(p.pc))
		if end != nil {
			fmt.Println("   ", end.msg)
		}
	}
}

// onePath, for debugging, is the only path to run, read from a replay file.
var onePath = func() []int {
	f := os.Getenv("GOSYM_PATH")
	if f == "" {
		return nil
	}
	var v Violation
	b, err := os.ReadFile(f)
	if err == nil {
		err = json.Unmarshal(b, &v)
	}
	if err != nil {
		fatal(err)
	}
	return v.Decs
}()

// traceFns, for debugging, are functions whose calls are printed.
var traceFns = func() []string {
	if s := os.Getenv("GOSYM_CALLS"); s != "" {
		return strings.Split(s, ",")
	}
	return nil
}()

var traceOn = os.Getenv("GOSYM_TRACE") != ""

func (p *Path) sample() string {
	var sb strings.Builder
	sb.WriteString("decisions[")
	for i, d := range p.trail {
		if i > 40 {
			fmt.Fprintf(&sb, " …+%d", len(p.trail)-i)
			break
		}
		if i > 0 {
			sb.WriteByte(' ')
		}
		fmt.Fprintf(&sb, "%s=%d", d.label, d.val)
	}
	fmt.Fprintf(&sb, "] path-condition conjuncts=%d", len(p.pc))
	if len(p.pc) > 0 {
		fmt.Fprintf(&sb, " e.g. %.200s", p.pc[len(p.pc)-1].String())
	}
	return sb.String()
}

func (p *Path) trailInts() []int {
	r := make([]int, len(p.trail))
	for i, d := range p.trail {
		r[i] = d.val
	}
	return r
}

func (p *Path) note(s string) { p.notes[s] = true }

// assume adds a constraint known feasible.
func (p *Path) addPC(t *Term) {
	if t.isConst() {
		return
	}
	if p.pcSet[t] {
		return
	}
	p.pcSet[t] = true
	p.pc = append(p.pc, t)
}

// axiom adds a definitional fact.
func (p *Path) axiom(t *Term) {
	if t.isConst() || p.axioms[t] {
		return
	}
	p.axioms[t] = true
	p.addPC(t)
}

// decide takes option among the feasible ones; opts(i) is the constraint of i
// (nil: none).
func (p *Path) decide(label string, n int, cons func(i int) *Term) int {
	if p.initDep > 0 {
		for i := 0; i < n; i++ {
			if cons == nil {
				return 0
			}
			c := cons(i)
			if c.isConst() && c.k == 0 {
				continue
			}
			if c.isConst() {
				return i
			}
			panic(unsupported("symbolic decision during package initialisation"))
		}
	}
	pos := len(p.trail)
	if pos < len(p.prefix) {
		v := p.prefix[pos]
		p.trail = append(p.trail, Dec{label, v})
		if cons != nil {
			p.addPC(cons(v))
		}
		return v
	}
	if pos >= p.ex.opt.MaxDecs {
		panic(pathEnd{"bound", fmt.Sprintf("more than %d decisions on one path", p.ex.opt.MaxDecs)})
	}
	first := -1
	var rest []int
	for i := 0; i < n; i++ {
		ok := true
		if cons != nil {
			c := cons(i)
			if i == n-1 && first == -1 && len(rest) == 0 {
				ok = true // the constraints are exhaustive and the path is feasible
				if c.isConst() && c.k == 0 {
					ok = false
				}
			} else {
				var known bool
				ok, known = p.w.sol.feasible(p.pc, c)
				if !known {
					p.note("solver answered unknown for a branch; both sides explored")
				}
			}
		}
		if !ok {
			continue
		}
		if first == -1 {
			first = i
		} else {
			rest = append(rest, i)
		}
	}
	if first == -1 {
		panic(pathEnd{"assume", "no feasible option"})
	}
	base := p.trailInts()
	for k := len(rest) - 1; k >= 0; k-- {
		np := make([]int, len(base)+1)
		copy(np, base)
		np[len(base)] = rest[k]
		p.ex.push(np)
	}
	p.trail = append(p.trail, Dec{label, first})
	if cons != nil {
		p.addPC(cons(first))
	}
	return first
}

// branch decides a boolean term.
func (p *Path) branch(c *Term) bool {
	if c.isConst() {
		return c.k != 0
	}
	if p.pcSet[c] {
		return true
	}
	nc := p.tb.Not(c)
	if p.pcSet[nc] {
		return false
	}
	if len(p.trail) >= len(p.prefix) {
		atomic.AddInt64(&p.ex.branchesSym, 1)
		// Only record a decision when both sides are feasible.
		t, k1 := p.w.sol.feasible(p.pc, c)
		if !t && k1 {
			p.addForced(nc)
			return false
		}
		f, k2 := p.w.sol.feasible(p.pc, nc)
		if !f && k2 {
			p.addForced(c)
			return true
		}
		v := p.decide("br", 2, nil)
		if v == 0 {
			p.addPC(c)
			return true
		}
		p.addPC(nc)
		return false
	}
	// replay: forced branches are re-derived by the (cached) solver
	t, k1 := p.w.sol.feasible(p.pc, c)
	if !t && k1 {
		p.addForced(nc)
		return false
	}
	f, k2 := p.w.sol.feasible(p.pc, nc)
	if !f && k2 {
		p.addForced(c)
		return true
	}
	v := p.decide("br", 2, nil)
	if v == 0 {
		p.addPC(c)
		return true
	}
	p.addPC(nc)
	return false
}

// addForced records an implied fact for fast lookup without growing the pc.
func (p *Path) addForced(t *Term) { p.pcSet[t] = true }

// choose takes one of n unconstrained options.
func (p *Path) choose(label string, n int) int {
	if n <= 1 {
		return 0
	}
	return p.decide(label, n, nil)
}

// concretize forks over the feasible values of t in [lo,hi].
func (p *Path) concretize(t *Term, lo, hi int64, label string) int64 {
	if t.isConst() {
		return t.sval()
	}
	if hi-lo > 4096 {
		panic(unsupported("concretize range %d..%d at %s", lo, hi, label))
	}
	i := p.decide(label, int(hi-lo+1), func(i int) *Term { return p.tb.Eq(t, p.tb.Const(t.w, uint64(lo+int64(i)))) })
	return lo + int64(i)
}

func (p *Path) fresh(name string, w uint8) *Term {
	k := p.names[name]
	p.names[name]++
	return p.tb.Var(fmt.Sprintf("%s!%d", name, k), w)
}

// assume drops the path when c cannot hold.
func (p *Path) assume(c *Term) {
	if c.isConst() {
		if c.k == 0 {
			panic(pathEnd{"assume", "assumption false"})
		}
		return
	}
	ok, _ := p.w.sol.feasible(p.pc, c)
	if !ok {
		panic(pathEnd{"assume", "assumption unsatisfiable"})
	}
	p.addPC(c)
}

// assert asks the solver for a violation of c on this path.
func (p *Path) assert(fr *frame, c *Term, msg string) {
	atomic.AddInt64(&p.ex.asserts, 1)
	if c.isConst() {
		if c.k == 0 {
			p.violate(fr, "assert", msg, p.tb.tt)
			panic(pathEnd{"violation", msg})
		}
		atomic.AddInt64(&p.ex.assertsDischarged, 1)
		return
	}
	nc := p.tb.Not(c)
	bad, known := p.w.sol.feasible(p.pc, nc)
	if !known {
		atomic.AddInt64(&p.ex.unknownAsserts, 1)
		p.note("solver answered unknown for an assertion: not decided")
		return
	}
	if bad {
		p.violate(fr, "assert", msg, nc)
	} else {
		atomic.AddInt64(&p.ex.assertsDischarged, 1)
	}
	ok, _ := p.w.sol.feasible(p.pc, c)
	if !ok {
		panic(pathEnd{"violation", msg})
	}
	p.addPC(c)
}

// witness solves the path (and goal, if any) for concrete inputs.
func (p *Path) witness(goal *Term) (*Violation, string) {
	var want []*Term
	for _, in := range p.inputs {
		if in.term != nil {
			want = append(want, in.term)
		}
		want = append(want, atomsIn(in.str)...)
	}
	cs := append([]*Term(nil), p.pc...)
	if goal != nil {
		cs = append(cs, goal)
	}
	res, vals := p.w.sol.check(cs, want)
	if os.Getenv("GOSYM_DUMP") != "" {
		for _, c := range cs {
			fmt.Println("PC", c)
		}
	}
	if res != "sat" {
		return nil, res
	}
	// A literal of the program is seldom what an input of some kind may be:
	// prefer other values.
	for _, in := range p.inputs {
		if in.term == nil || in.str == nil {
			continue
		}
		for try := 0; try < 8; try++ {
			k := -1
			for i, t := range want {
				if t == in.term && i < len(vals) {
					k = i
				}
			}
			if k < 0 || vals[k] == 0 {
				break
			}
			if _, lit := internGet(vals[k]); !lit {
				break
			}
			more := append(append([]*Term(nil), cs...), p.w.tb.Not(p.w.tb.Eq(in.term, p.w.tb.Const(in.term.w, vals[k]))))
			r, vs := p.w.sol.check(more, want)
			if r != "sat" {
				break
			}
			cs, vals = more, vs
		}
	}
	model := map[string]uint64{}
	for i, t := range want {
		if i < len(vals) {
			model[t.String()] = vals[i]
		}
	}
	ex := p.ex
	v := &Violation{Harness: ex.name, Property: ex.prop, Decs: p.trailInts(), Model: model, Extra: p.extra, Params: ex.opt.Params}
	for _, in := range p.inputs {
		o := *in
		switch {
		case in.term != nil && in.str != nil:
			n := model[in.term.String()]
			o.Val = fmt.Sprintf("#%d", n)
			if l, ok := internGet(n); ok && n != 0 {
				o.Val = "=" + l
			}
		case in.term != nil:
			o.Val = fmt.Sprint(model[in.term.String()])
		case in.str != nil:
			o.Val = concreteStr(in.str, model)
		default:
			o.Val = in.fix
		}
		v.Inputs = append(v.Inputs, o)
	}
	return v, ""
}

func (p *Path) violate(fr *frame, kind, msg string, goal *Term) {
	p.violated = true
	var stack []string
	where := ""
	for f := fr; f != nil; f = f.caller {
		s := f.fn.String()
		if f.cur != nil {
			s += " " + shortPos(p.w.prog, f.cur)
		}
		stack = append(stack, s)
		if where == "" {
			where = s
		}
	}
	sig := kind + "|" + msg
	ex := p.ex
	ex.mu.Lock()
	_, dup := ex.viol[sig]
	if !dup && len(ex.viol) >= ex.opt.MaxViol {
		dup = true
	}
	ex.mu.Unlock()
	if dup {
		return
	}
	v, res := p.witness(goal)
	if v == nil {
		p.note("violation model not reproduced by the unsliced query (" + res + ")")
		if res != "unsat" {
			atomic.AddInt64(&ex.unknownAsserts, 1)
		}
		return
	}
	v.Kind, v.Msg, v.Where, v.Stack, v.Sig = kind, msg, where, stack, sig
	v.Sched = append([]string(nil), p.sch.log...)
	ex.mu.Lock()
	if _, dup := ex.viol[sig]; !dup {
		ex.viol[sig] = v
		if ex.known == nil || ex.known.match(ex.prop, v) == "" {
			// Look for a few more counterexamples, but not for long.
			if d := time.Now().Add(15 * time.Second); d.Before(ex.deadline) {
				ex.deadline = d
			}
		}
		if len(ex.viol) >= ex.opt.MaxViol {
			ex.stop = true
		}
	}
	ex.mu.Unlock()
}

func atomsIn(v Value) []*Term {
	r, ok := v.(*Rope)
	if !ok {
		return nil
	}
	var out []*Term
	for _, s := range r.segs {
		if s.t != nil && !s.t.isConst() {
			out = append(out, s.t)
		}
	}
	return out
}

func concreteStr(v Value, m map[string]uint64) string {
	switch v := v.(type) {
	case string:
		return fmt.Sprintf("%q", v)
	case *Rope:
		var sb strings.Builder
		for _, s := range v.segs {
			switch s.k {
			case segLit:
				sb.WriteString(s.lit)
			case segByte:
				val := m[s.t.String()]
				if s.t.isConst() {
					val = s.t.k
				}
				sb.WriteByte(byte(val))
			default:
				val := m[s.t.String()]
				if l, ok := internGet(val); ok {
					sb.WriteString(l)
				} else {
					fmt.Fprintf(&sb, "<%s#%d>", s.kind, val)
				}
			}
		}
		return fmt.Sprintf("%q", sb.String())
	}
	return fmt.Sprintf("%T", v)
}

func (ex *Exploration) sortedViol() []*Violation {
	var ks []string
	for k := range ex.viol {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []*Violation
	for _, k := range ks {
		r = append(r, ex.viol[k])
	}
	return r
}
