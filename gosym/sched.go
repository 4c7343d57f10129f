package main

// Scheduler: every interpreted goroutine is a host goroutine, but only the one
// holding the baton runs. Scheduling decisions are path decisions.

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type gState uint8

const (
	gRunnable gState = iota
	gBlocked
	gDone
)

// chanCase is one pending channel operation.
type chanCase struct {
	ch   *Chan
	send bool
	val  Value
}

type G struct {
	low   bool // put off until no other can run
	lowAt int

	id      int
	name    string
	state   gState
	ready   func() bool // for gBlocked: may it go on?
	why     string
	wake    chan struct{}
	cases   []chanCase // pending channel operation
	hasDef  bool
	done    bool // pending op was completed by a partner
	doneIdx int
	doneVal Value
	doneOK  bool
	fr      *frame // innermost frame, for reports
	daemon  bool
	panics  *goPanicVal
	pend    []interface{} // synchronisation objects of the pending operation
}

type Sched struct {
	p       *Path
	gs      []*G
	cur     *G
	killing bool
	finish  chan struct{}
	preempt int
	lows    int
	delay   int // deviations from the default schedule left; -1: not counted
	log     []string
	fires   int
	early   int
	atomicN int
	sleep   map[*G]bool // sleep set: goroutines whose next step was explored in an equivalent order
}

type clockObj struct{}

// touch wakes sleeping goroutines whose pending operation is on one of objs.
func (s *Sched) touch(objs []interface{}) {
	if len(s.sleep) == 0 {
		return
	}
	for z := range s.sleep {
		for _, a := range z.pend {
			for _, b := range objs {
				if a == b {
					delete(s.sleep, z)
				}
			}
		}
	}
}

func newSched(p *Path) *Sched {
	return &Sched{p: p, finish: make(chan struct{}), preempt: p.ex.opt.Preempt, delay: p.ex.opt.Delay - 1, fires: p.ex.opt.TimerFires, early: p.ex.opt.EarlyTimers}
}

// runMain runs the harness as goroutine 0 and returns when the path is over
// and every host goroutine has unwound.
func (s *Sched) runMain(fn *ssa.Function) {
	g := &G{id: 0, name: "main", wake: make(chan struct{}, 1)}
	s.gs = append(s.gs, g)
	s.cur = g
	exited := make(chan struct{})
	go func() {
		defer close(exited)
		s.body(g, func() {
			if e := s.p.w.initErr; e != "" {
				panic(unsupported("%s", e))
			}
			s.p.call(nil, fn, nil, g)
			if s.p.endErr == nil {
				s.p.endErr = &pathEnd{"done", ""}
			}
		})
	}()
	<-exited
	// kill the rest
	s.killing = true
	for _, o := range s.gs {
		if o != g && o.state != gDone {
			o.wake <- struct{}{}
			<-s.finish
		}
	}
}

// body runs f on g, turning engine panics into the end of the path.
func (s *Sched) body(g *G, f func()) {
	defer func() {
		r := recover()
		g.state = gDone
		if r == nil {
			return
		}
		if s.killing {
			return
		}
		switch e := r.(type) {
		case pathEnd:
			s.fail(e)
		case *goPanicVal:
			// uncaught Go panic: the process would crash
			msg := "uncaught panic: " + s.p.panicString(e)
			if s.p.w.prog.panicOK(s.p, e) {
				s.fail(pathEnd{"done", ""})
				return
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if pe, ok := r.(pathEnd); ok {
							s.fail(pe)
							return
						}
						panic(r)
					}
				}()
				s.p.violate(e.fr, "panic", msg, s.p.tb.tt)
			}()
			s.fail(pathEnd{"violation", msg})
		default:
			if debugPanic {
				panic(r)
			}
			msg := fmt.Sprintf("engine: %v", r)
			if g.fr != nil {
				msg += " in " + g.fr.where()
			}
			s.fail(pathEnd{"unsupported", msg})
		}
	}()
	f()
}

var traceSched = os.Getenv("GOSYM_SCHED") != ""

var debugPanic = false

// fail records the end of the path.
func (s *Sched) fail(e pathEnd) {
	if s.p.endErr == nil {
		x := e
		s.p.endErr = &x
	}
}

// spawn starts an interpreted goroutine (not yet scheduled).
func (s *Sched) spawn(name string, f func(g *G)) *G {
	g := &G{id: len(s.gs), name: name, wake: make(chan struct{}, 1)}
	s.gs = append(s.gs, g)
	if len(s.gs) > 64 {
		panic(pathEnd{"bound", "more than 64 goroutines"})
	}
	go func() {
		<-g.wake
		if !s.killing {
			s.body(g, func() { f(g) })
		}
		g.state = gDone
		if s.killing {
			s.finish <- struct{}{}
			return
		}
		// hand the baton on
		if s.p.endErr != nil {
			s.wakeMainForEnd()
			return
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if e, ok := r.(pathEnd); ok {
						s.fail(e)
					} else {
						s.fail(pathEnd{"unsupported", fmt.Sprint("engine: ", r)})
					}
					s.wakeMainForEnd()
				}
			}()
			n := s.pick(g, "exit")
			s.cur = n
			n.wake <- struct{}{}
		}()
	}()
	return g
}

// wakeMainForEnd lets goroutine 0 unwind because the path ended elsewhere.
func (s *Sched) wakeMainForEnd() {
	m := s.gs[0]
	s.cur = m
	m.wake <- struct{}{}
}

// switchTo parks g and resumes n.
func (s *Sched) switchTo(g, n *G) {
	if g == n {
		return
	}
	s.cur = n
	n.wake <- struct{}{}
	<-g.wake
	s.cur = g
	if s.killing {
		panic(pathEnd{"killed", ""})
	}
	if s.p.endErr != nil {
		panic(*s.p.endErr)
	}
}

func (s *Sched) enabled(g *G) bool {
	switch g.state {
	case gRunnable:
		return true
	case gBlocked:
		return g.done || g.ready()
	}
	return false
}

// pick chooses the goroutine to run next. g is the current one (which may be
// blocked or done).
func (s *Sched) pick(g *G, why string) *G {
	for {
		var opts []*G
		curOK := s.enabled(g)
		if curOK {
			opts = append(opts, g)
		}
		for _, o := range s.gs {
			if o != g && s.enabled(o) {
				opts = append(opts, o)
			}
		}
		if len(opts) == 0 {
			if s.fireTimer(why) {
				continue
			}
			s.deadlock(g)
		}
		// When all wait for Idle, timers may fire as long as there is budget.
		idle := s.early > 0 && s.fires > 0 && (s.p.ex.opt.Preempt < 0 || curOK && s.preempt <= 0)
		for _, o := range opts {
			idle = idle && o.state == gBlocked && o.why == "Idle"
		}
		if idle && len(s.p.armed()) > 0 && s.p.choose("idle-timer", 2) == 1 {
			s.early--
			s.fireTimer(why)
			continue
		}
		if s.p.ex.opt.Delay > 0 {
			return s.pickDelay(g, why, opts, curOK)
		}
		if curOK && (s.preempt <= 0 || s.p.initDep > 0 || s.atomicN > 0) {
			s.touch(g.pend)
			return g
		}
		if s.p.ex.opt.Preempt < 0 {
			// One fixed schedule: for histories whose interleavings are not the
			// question.
			s.touch(opts[0].pend)
			return opts[0]
		}
		if len(s.sleep) > 0 {
			aw := opts[:0:0]
			for _, o := range opts {
				if !s.sleep[o] {
					aw = append(aw, o)
				}
			}
			opts = aw
		}
		n := len(opts)
		extra := 0
		if s.early > 0 && s.fires > 0 && len(s.p.armed()) > 0 {
			extra = 1
		}
		if n+extra == 0 {
			panic(pathEnd{"redundant", "equivalent order explored elsewhere"})
		}
		i := 0
		if n+extra > 1 {
			atomic.AddInt64(&s.p.ex.schedPoints, 1)
			i = s.p.choose("sched:"+why, n+extra)
		}
		if !s.p.ex.opt.NoSleep {
			for j := 0; j < i && j < n; j++ {
				if s.sleep == nil {
					s.sleep = map[*G]bool{}
				}
				s.sleep[opts[j]] = true
			}
		}
		if i == n {
			s.early--
			s.fireTimer(why)
			continue
		}
		s.touch(opts[i].pend)
		if curOK && opts[i] != g {
			s.preempt--
		}
		if opts[i] != g && len(s.log) < 400 {
			s.log = append(s.log, fmt.Sprintf("%s: g%d(%s) -> g%d(%s)", why, g.id, g.name, opts[i].id, opts[i].name))
		}
		return opts[i]
	}
}

// pointAt tells whether a goroutine may be interrupted where it is.
func (s *Sched) pointAt(g *G) bool {
	pts := s.p.ex.opt.Points
	if len(pts) == 0 || g.fr == nil || g.fr.fn == nil {
		return true
	}
	name := g.fr.fn.String()
	for _, x := range pts {
		if strings.Contains(name, x) {
			return true
		}
	}
	return false
}

// pickDelay follows a round-robin schedule in which at most delay times the
// goroutine whose turn it is, be it in the middle of something or about to be
// resumed, is put off until no other can run.
func (s *Sched) pickDelay(g *G, why string, opts []*G, curOK bool) *G {
	for {
		var c *G
		if curOK && !g.low {
			c = g
		} else {
			for _, o := range opts {
				if !o.low && (c == nil || c.id < g.id && o.id > g.id) {
					c = o
				}
			}
			if c == nil {
				c = opts[0]
				for _, o := range opts {
					if o.lowAt < c.lowAt {
						c = o
					}
				}
				c.low = false
				s.delayLog(g, c, why)
				return c
			}
		}
		if s.delay > 0 && len(opts) > 1 && s.p.initDep == 0 && s.atomicN == 0 && (c != g || s.pointAt(g)) {
			atomic.AddInt64(&s.p.ex.schedPoints, 1)
			if traceSched {
				fmt.Fprintln(os.Stderr, "SCHED", why, g.fr.where(), len(opts))
			}
			if s.p.choose("sched:"+why, 2) == 1 {
				s.delay--
				s.lows++
				c.low, c.lowAt = true, s.lows
				if len(s.log) < 400 {
					s.log = append(s.log, fmt.Sprintf("%s: g%d(%s) is put off", why, c.id, c.name))
				}
				continue
			}
		}
		s.delayLog(g, c, why)
		return c
	}
}

func (s *Sched) delayLog(g, c *G, why string) {
	if c != g && len(s.log) < 400 {
		s.log = append(s.log, fmt.Sprintf("%s: g%d(%s) -> g%d(%s)", why, g.id, g.name, c.id, c.name))
	}
}

// yield is a scheduling point of a runnable goroutine.
func (s *Sched) yield(g *G, why string, objs ...interface{}) {
	if s.p.initDep > 0 || len(s.gs) == 1 && len(s.p.timers) == 0 {
		return
	}
	g.pend = objs
	s.switchTo(g, s.pick(g, why))
	g.pend = nil
}

// block parks g until ready() holds and it is scheduled.
func (s *Sched) block(g *G, why string, ready func() bool, objs ...interface{}) {
	if s.p.initDep > 0 {
		if !ready() {
			panic(unsupported("blocking during package initialisation: %s", why))
		}
		return
	}
	g.state = gBlocked
	g.ready = ready
	g.why = why
	g.pend = objs
	n := s.pick(g, why)
	s.switchTo(g, n)
	g.state = gRunnable
	g.pend = nil
	g.ready = nil
}

func (s *Sched) deadlock(g *G) {
	p := s.p
	if len(p.armed()) > 0 && p.kv["no-timers"] == nil {
		panic(pathEnd{"bound", "timer budget exhausted while every goroutine waits"})
	}
	desc := ""
	for _, o := range s.gs {
		if o.state == gBlocked {
			w := ""
			if o.fr != nil {
				w = " at " + o.fr.where()
			}
			desc += fmt.Sprintf("g%d(%s) blocked in %s%s; ", o.id, o.name, o.why, w)
		}
	}
	msg := "deadlock: " + desc
	if p.kv["allow-deadlock"] != nil {
		panic(pathEnd{"done", ""})
	}
	sig := "deadlock"
	for _, o := range s.gs {
		if o.state == gBlocked && o.fr != nil {
			sig += fmt.Sprintf("; %s in %s", o.why, o.fr.repoWhere())
		}
	}
	p.extra["deadlock"] = msg
	p.violate(s.gs[0].fr, "deadlock", sig, p.tb.tt)
	panic(pathEnd{"violation", msg})
}

// ---------------------------------------------------------------- channels

type Chan struct {
	buf    []Value
	cap    int
	closed bool
	elem   types.Type
	id     int
	timer  *Timer
}

// caseReady reports whether c can complete now for g, and the partner for an
// unbuffered rendezvous.
func (s *Sched) caseReady(g *G, c chanCase) (bool, *G, int) {
	ch := c.ch
	if ch == nil {
		return false, nil, 0
	}
	if c.send {
		if ch.closed {
			return true, nil, 0
		}
		if len(ch.buf) < ch.cap {
			return true, nil, 0
		}
		if ch.cap > 0 {
			// full; a receiver about to take a value has not taken it yet
			return false, nil, 0
		}
		for _, o := range s.gs {
			if o != g && o.state == gBlocked && !o.done {
				for i, oc := range o.cases {
					if oc.ch == ch && !oc.send {
						return true, o, i
					}
				}
			}
		}
		return false, nil, 0
	}
	if len(ch.buf) > 0 || ch.closed {
		return true, nil, 0
	}
	for _, o := range s.gs {
		if o != g && o.state == gBlocked && !o.done {
			for i, oc := range o.cases {
				if oc.ch == ch && oc.send {
					return true, o, i
				}
			}
		}
	}
	return false, nil, 0
}

func chans(cs []chanCase) []interface{} {
	r := make([]interface{}, 0, len(cs))
	for _, c := range cs {
		if c.ch != nil {
			r = append(r, c.ch)
		}
	}
	return r
}

// chanOp performs a select over cases. It returns the chosen index (-1: the
// default), the received value and ok.
func (s *Sched) chanOp(fr *frame, cases []chanCase, hasDef bool, why string) (int, Value, bool) {
	g := fr.g
	p := s.p
	g.fr = fr
	if !hasDef {
		g.cases = cases
		g.done = false
		ready := func() bool {
			for _, c := range cases {
				if ok, _, _ := s.caseReady(g, c); ok {
					return true
				}
			}
			return false
		}
		s.block(g, why, ready, chans(cases)...)
		g.cases = nil
		if g.done {
			g.done = false
			return g.doneIdx, g.doneVal, g.doneOK
		}
	} else {
		s.yield(g, why, chans(cases)...)
	}
	var en []int
	for i, c := range cases {
		if ok, _, _ := s.caseReady(g, c); ok {
			en = append(en, i)
		}
	}
	if len(en) == 0 {
		if hasDef {
			return -1, nil, false
		}
		panic(unsupported("select woke with nothing ready"))
	}
	i := en[0]
	if len(en) > 1 && s.p.ex.opt.Delay > 0 {
		if s.delay > 0 {
			if k := p.choose("select", len(en)); k > 0 {
				s.delay--
				i = en[k]
			}
		}
	} else {
		i = en[p.choose("select", len(en))]
	}
	c := cases[i]
	_, partner, pi := s.caseReady(g, c)
	ch := c.ch
	if c.send {
		if ch.closed {
			panic(p.goPanic("send on closed channel"))
		}
		if partner != nil && len(ch.buf) == 0 {
			partner.done, partner.doneIdx, partner.doneVal, partner.doneOK = true, pi, c.val, true
			partner.pend = nil
			return i, nil, true
		}
		ch.buf = append(ch.buf, c.val)
		return i, nil, true
	}
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value(nil), ch.buf[1:]...)
		// a blocked sender may now proceed by itself (buffer space)
		return i, v, true
	}
	if ch.closed {
		return i, p.zero(ch.elem), false
	}
	v := partner.cases[pi].val
	partner.done, partner.doneIdx, partner.doneVal, partner.doneOK = true, pi, nil, true
	partner.pend = nil
	return i, v, true
}

// ---------------------------------------------------------------- locks

type lockState struct {
	w       bool
	r       int
	writers int // waiting writers (block new readers)
	owner   int
}

func (p *Path) lock(a *Value) *lockState {
	l := p.locks[a]
	if l == nil {
		l = &lockState{}
		p.locks[a] = l
	}
	return l
}

// ---------------------------------------------------------------- timers

type Timer struct {
	ch       *Chan
	fn       Value
	deadline *Term // nanoseconds, may be nil
	armed    bool
	period   *Term
}

func (p *Path) armed() []*Timer {
	var r []*Timer
	for _, t := range p.timers {
		if t.armed {
			r = append(r, t)
		}
	}
	return r
}

// fireTimer lets time pass until some armed timer fires.
func (s *Sched) fireTimer(why string) bool {
	p := s.p
	if s.fires <= 0 {
		return false
	}
	ts := p.armed()
	if len(ts) == 0 {
		return false
	}
	s.fires--
	t := ts[p.choose("timer", len(ts))]
	s.touch([]interface{}{clockObj{}, t, t.ch})
	now := p.timeNow()
	if t.deadline != nil {
		p.assume(p.tb.Bin(OSLe, t.deadline, now))
	}
	if t.period == nil {
		t.armed = false
	} else {
		t.deadline = p.tb.Bin(OAdd, now, t.period)
	}
	if t.fn != nil {
		f := t.fn
		s.spawn("timer", func(g *G) { p.callValue(&frame{g: g, p: p}, f, nil) })
		return true
	}
	if len(t.ch.buf) < t.ch.cap {
		t.ch.buf = append(t.ch.buf, p.mkTime(now))
	}
	return true
}

// timeNow is a fresh instant not before the previous one.
func (p *Path) timeNow() *Term {
	if p.initDep > 0 {
		return p.tb.Const(64, 1<<60)
	}
	n := p.fresh("now", 64)
	lo := p.tb.Const(64, 1<<60)
	if p.now != nil {
		lo = p.now
	}
	p.addPC(p.tb.And(p.tb.Bin(OSLe, lo, n), p.tb.Bin(OSLt, n, p.tb.Const(64, 1<<61))))
	p.now = n
	return n
}

func (p *Path) mkTime(ns *Term) Value {
	return Struct{p.tb.Const(64, 0), ns, (*Value)(nil)}
}
