// Package rt is the controlled runtime under which the code being checked is executed.
//
// The sources of the driver are rewritten (package gen) so that every goroutine, lock, atomic
// operation, channel operation, select, timer, clock reading and network operation becomes an
// operation of this package.  Exactly one goroutine of the execution runs at any time; at each
// operation the runtime decides, by asking the explorer, which goroutine performs its pending
// operation next.  Time is virtual and advances only when no goroutine can run.
//
// In race-detector builds all state of the models is touched by one separate controller
// goroutine, and the hand-overs between goroutines are hidden from the detector, so that the
// only happens-before edges it sees are those of the program itself.
package rt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// Kind classifies a decision.
type Kind uint8

const (
	// Free decisions are enumerated without limit.
	Free Kind = iota
	// Preempt decisions deviate from running the current goroutine on; bounded.
	Preempt
	// Fault decisions deviate from the fault-free environment; bounded.
	Fault
)

// Chooser resolves decisions; the explorer implements it.
type Chooser interface {
	// Choose returns a value in [0,n). It is only called with n > 1.
	Choose(kind Kind, n int, what string) int
}

// Op is a pending operation of a goroutine.
type op struct {
	what     string
	yield    bool
	enabled  func() bool  // nil: always
	deadline func() int64 // virtual time at which enabled may change; nil or <0: none
	exec     func()
	sel      *selOp
	seq      int
}

// G is a goroutine of the execution.
type G struct {
	ID      int
	Name    string
	wake    chan struct{}
	op      *op
	done    bool
	aborted bool
	exited  chan struct{}
	daemon  bool
	root    bool
}

// Stop says how an execution ended.
type Stop int

const (
	// Finished: the root goroutine returned.
	Finished Stop = iota
	// Deadlock: no goroutine can run and nothing is scheduled to happen.
	Deadlock
	// Horizon: the virtual-time limit was passed.
	Horizon
	// Steps: the operation limit was passed.
	Steps
	// Panicked: a goroutine panicked.
	Panicked
	// Failed: Fail was called.
	Failed
	// Aborted: the chooser cut the execution short.
	Aborted
)

func (s Stop) String() string {
	return [...]string{"finished", "deadlock", "time horizon", "step limit", "panic", "failed", "aborted"}[s]
}

// Config bounds an execution.
type Config struct {
	Chooser  Chooser
	Horizon  time.Duration // default 1h
	MaxSteps int           // default 200000
	IOYield  bool          // network operations are scheduling points
	OneOrder bool          // one schedule only: the first goroutine that can run
	Trace    func(string)
	Scratch  map[string]interface{}
}

// Result describes how an execution ended.
type Result struct {
	Stop    Stop
	Msg     string
	Key     string
	Blocked []string // goroutines blocked at the end and what they wait for
	Steps   int
	Virtual time.Duration
	Stack   string
}

type timer struct {
	at   int64
	seq  int
	fire func()
	dead bool
}

type sched struct {
	cfg     Config
	gs      []*G
	nextID  int
	cur     *G
	now     int64
	timers  []*timer
	tseq    int
	steps   int
	opSeq   int
	ptrs    map[uintptr]int
	rnd     uint64
	over    bool
	res     Result
	doneCh  chan struct{}
	reqCh   chan *G // race builds: requests to the controller
	inCtl   bool
	chans   map[uintptr]*mchan
	objs    map[interface{}]interface{}
	pending func() // follow-up executed before the next dispatch
}

// S is the current execution, nil outside.
var s *sched

var raceCtl [8]byte

// epoch is the virtual time origin.
var epoch = time.Date(2021, 3, 14, 12, 0, 0, 0, time.UTC)

var runID uint64

// RunID distinguishes executions within a process.
func RunID() uint64 { return runID }

// Active reports whether an execution is in progress.
func Active() bool { return s != nil }

// Run executes root under the controller.
func Run(cfg Config, root func()) Result {
	if s != nil {
		panic("rt: nested Run")
	}
	if cfg.Horizon == 0 {
		cfg.Horizon = time.Hour
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 200000
	}
	sc := &sched{cfg: cfg, doneCh: make(chan struct{}, 1), chans: map[uintptr]*mchan{}, objs: map[interface{}]interface{}{}}
	runID++
	s = sc
	if RaceBuild {
		sc.reqCh = make(chan *G)
		go sc.controller()
	}
	g := sc.newG("main", root)
	g.root = true
	g.op = &op{what: "start", exec: func() {}}
	raceRelease(unsafe.Pointer(&raceCtl))
	raceDisable()
	if RaceBuild {
		sc.reqCh <- g
	} else {
		sc.dispatch(nil)
	}
	<-sc.doneCh
	raceEnable()
	raceAcquire(unsafe.Pointer(&raceCtl))
	// unwind what is left
	for i := 0; i < len(sc.gs); i++ {
		g := sc.gs[i]
		if g.done {
			continue
		}
		g.aborted = true
		sc.cur = g
		raceDisable()
		g.wake <- struct{}{}
		<-g.exited
		raceEnable()
	}
	if RaceBuild {
		raceDisable()
		sc.reqCh <- nil
		raceEnable()
	}
	sc.res.Steps = sc.steps
	sc.res.Virtual = time.Duration(sc.now)
	s = nil
	return sc.res
}

func (sc *sched) newG(name string, f func()) *G {
	g := &G{ID: sc.nextID, Name: name, wake: make(chan struct{}, 1), exited: make(chan struct{}, 1)}
	sc.nextID++
	sc.gs = append(sc.gs, g)
	go sc.gmain(g, f)
	return g
}

func (sc *sched) gmain(g *G, f func()) {
	raceDisable()
	<-g.wake
	raceEnable()
	normal := false
	defer func() {
		if g.aborted {
			recover()
			g.done = true
			raceRelease(unsafe.Pointer(&raceCtl))
			raceDisable()
			g.exited <- struct{}{}
			raceEnable()
			return
		}
		var stop *Result
		if !normal {
			r := recover()
			if r == nil {
				// runtime.Goexit by the program itself: an ordinary end of the goroutine
			} else {
				stop = &Result{Stop: Panicked, Msg: fmt.Sprintf("%v", r), Stack: string(debug.Stack())}
			}
		}
		g.op = &op{what: "exit", exec: func() {
			g.done = true
			if stop != nil {
				sc.finish(*stop)
			} else if g.root {
				sc.finish(Result{Stop: Finished})
			}
		}}
		raceRelease(unsafe.Pointer(&raceCtl))
		raceDisable()
		if RaceBuild {
			sc.reqCh <- g
		} else {
			sc.dispatch(g)
		}
		raceEnable()
	}()
	if g.aborted {
		return
	}
	f()
	normal = true
}

func (sc *sched) controller() {
	raceDisable()
	for {
		g := <-sc.reqCh
		if g == nil {
			break
		}
		raceEnable()
		raceAcquire(unsafe.Pointer(&raceCtl))
		raceDisable()
		sc.dispatch(g)
	}
	raceEnable()
}

// finish ends the execution (called from exec context).
func (sc *sched) finish(r Result) {
	if sc.over {
		return
	}
	sc.over = true
	for _, g := range sc.gs {
		if !g.done && g.op != nil && g.op.what != "exit" {
			r.Blocked = append(r.Blocked, fmt.Sprintf("%s(g%d): %s", g.Name, g.ID, g.op.what))
		}
	}
	sc.res = r
}

func (o *op) ready() bool { return o.enabled == nil || o.enabled() }

// dispatch picks and performs the next operation. by is the goroutine that just posted an
// operation (nil at start). In non-race builds it runs on by's goroutine and returns when by may
// continue; in race builds it runs on the controller and wakes the chosen goroutine.
func (sc *sched) dispatch(by *G) {
	sc.inCtl = true
	next := sc.pick(by)
	sc.inCtl = false
	if next == nil { // over
		if RaceBuild {
			raceEnable()
			raceRelease(unsafe.Pointer(&raceCtl))
			raceDisable()
		}
		sc.doneCh <- struct{}{}
		if !RaceBuild && by != nil && !by.done {
			<-by.wake
		}
		return
	}
	if RaceBuild {
		next.wake <- struct{}{}
		return
	}
	if next == by {
		return
	}
	next.wake <- struct{}{}
	if by != nil && !by.done {
		<-by.wake
	}
}

// pick performs operations until one leaves a goroutine to be resumed.
func (sc *sched) pick(by *G) *G {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abortExec); ok {
				return
			}
			if !sc.over {
				sc.finish(Result{Stop: Panicked, Msg: fmt.Sprintf("model: %v", r), Stack: string(debug.Stack())})
			}
		}
	}()
	cur := by
	for {
		if sc.over {
			return nil
		}
		sc.steps++
		Heartbeat.Add(1)
		if sc.steps > sc.cfg.MaxSteps {
			sc.finish(Result{Stop: Steps, Msg: fmt.Sprintf("no end after %d operations", sc.cfg.MaxSteps)})
			return nil
		}
		var next *G
		if cur != nil && !cur.done && !cur.op.yield && cur.op.ready() {
			next = cur
		} else {
			var en []*G
			curEn := false
			for _, g := range sc.gs {
				if g.done || g.op == nil {
					continue
				}
				if g.op.ready() {
					if g == cur {
						curEn = true
						en = append([]*G{g}, en...)
					} else {
						en = append(en, g)
					}
				}
			}
			switch {
			case len(en) == 0:
				if !sc.advance() {
					sc.finish(Result{Stop: Deadlock, Msg: "no goroutine can run and nothing is scheduled"})
					return nil
				}
				continue
			case len(en) == 1:
				next = en[0]
			default:
				if sc.cfg.OneOrder {
					next = en[0]
					break
				}
				k := Free
				if curEn {
					k = Preempt
				}
				i := sc.choose(k, len(en), "run")
				next = en[i]
			}
		}
		sc.cur = next
		o := next.op
		if sc.cfg.Trace != nil && o.what != "" {
			sc.cfg.Trace(fmt.Sprintf("%8.3fs %s(g%d) %s", time.Duration(sc.now).Seconds(), next.Name, next.ID, o.what))
		}
		next.op = nil
		o.exec()
		if sc.over {
			if next.op == nil && !next.done {
				next.op = o // for unwinding it stays parked
			}
			return nil
		}
		if next.done { // exit op
			// drop finished goroutines
			for i, g := range sc.gs {
				if g == next {
					sc.gs = append(sc.gs[:i], sc.gs[i+1:]...)
					break
				}
			}
			cur = nil
			continue
		}
		return next
	}
}

type abortExec struct{}

func (sc *sched) choose(k Kind, n int, what string) int {
	if n <= 1 {
		return 0
	}
	v := sc.cfg.Chooser.Choose(k, n, what)
	if v < 0 {
		sc.finish(Result{Stop: Aborted})
		panic(abortExec{})
	}
	if sc.cfg.Trace != nil && what != "run" {
		sc.cfg.Trace(fmt.Sprintf("         choose %s = %d of %d", what, v, n))
	}
	return v
}

// advance moves virtual time to the next event.
func (sc *sched) advance() bool {
	best := int64(-1)
	for _, g := range sc.gs {
		if g.done || g.op == nil || g.op.deadline == nil {
			continue
		}
		if d := g.op.deadline(); d >= 0 && d > sc.now && (best < 0 || d < best) {
			best = d
		}
	}
	for _, t := range sc.timers {
		if !t.dead && (best < 0 || t.at < best) {
			best = t.at
		}
	}
	if best < 0 {
		return false
	}
	if best > int64(sc.cfg.Horizon) {
		sc.finish(Result{Stop: Horizon, Msg: fmt.Sprintf("not finished after %v of virtual time", sc.cfg.Horizon)})
		panic(abortExec{})
	}
	if best > sc.now {
		sc.now = best
	}
	// fire due timers in order
	for {
		var due *timer
		di := -1
		for i, t := range sc.timers {
			if t.at <= sc.now && (due == nil || t.at < due.at || (t.at == due.at && t.seq < due.seq)) {
				due, di = t, i
			}
		}
		if due == nil {
			break
		}
		sc.timers = append(sc.timers[:di], sc.timers[di+1:]...)
		if !due.dead {
			due.fire()
		}
	}
	return true
}

func (sc *sched) addTimer(d int64, fire func()) *timer {
	if d < 0 {
		d = 0
	}
	sc.tseq++
	t := &timer{at: sc.now + d, seq: sc.tseq, fire: fire}
	sc.timers = append(sc.timers, t)
	return t
}

func (sc *sched) delTimer(t *timer) bool {
	if t == nil || t.dead {
		return false
	}
	for i, x := range sc.timers {
		if x == t {
			sc.timers = append(sc.timers[:i], sc.timers[i+1:]...)
			t.dead = true
			return true
		}
	}
	return false
}

// do posts an operation of the calling goroutine and returns when it has been performed.
func do(o *op) bool {
	sc := s
	if sc == nil {
		if o.enabled != nil && !o.enabled() {
			panic("rt: blocking operation outside an execution: " + o.what)
		}
		o.exec()
		return true
	}
	if sc.inCtl {
		// called by model code itself
		if o.enabled != nil && !o.enabled() {
			panic("rt: blocking operation in a model: " + o.what)
		}
		o.exec()
		return true
	}
	g := sc.cur
	if g.aborted {
		if !g.done {
			g.done = true
			runtime.Goexit()
		}
		return false // deferred code while unwinding
	}
	sc.opSeq++
	o.seq = sc.opSeq
	g.op = o
	if RaceBuild {
		raceRelease(unsafe.Pointer(&raceCtl))
		raceDisable()
		sc.reqCh <- g
		<-g.wake
		raceEnable()
	} else {
		sc.dispatch(g)
	}
	if g.aborted {
		g.done = true
		raceAcquire(unsafe.Pointer(&raceCtl)) // unwinding is serial: not part of the execution
		runtime.Goexit()
	}
	return true
}

// Do performs f in the controller, without being a scheduling point.
func Do(f func()) { do(&op{exec: f}) }

// DoYield performs f in the controller at a scheduling point.
func DoYield(what string, f func()) { do(&op{what: what, yield: true, exec: f}) }

// Wait blocks the calling goroutine until cond holds.
func Wait(what string, cond func() bool) {
	do(&op{what: what, yield: true, enabled: cond, exec: func() {}})
}

// DoIO performs a network operation.
func DoIO(what string, enabled func() bool, deadline func() int64, exec func()) bool {
	y := false
	if s != nil {
		y = s.cfg.IOYield
	}
	return do(&op{what: what, yield: y, enabled: enabled, deadline: deadline, exec: exec})
}

// Choose takes a decision.
func Choose(k Kind, n int, what string) int {
	if n <= 1 || s == nil {
		return 0
	}
	if s.inCtl {
		return s.choose(k, n, what)
	}
	r := 0
	Do(func() { r = s.choose(k, n, what) })
	return r
}

// Fail ends the execution with a property violation.
func Fail(key, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	sc := s
	if sc == nil {
		panic("rt: Fail outside an execution: " + msg)
	}
	f := func() {
		sc.finish(Result{Stop: Failed, Key: key, Msg: msg})
	}
	if sc.inCtl {
		f()
		return
	}
	Do(f)
}

// NowNS is the virtual time since the start of the execution.
func NowNS() int64 {
	if s == nil {
		return 0
	}
	return s.now
}

// NowInCtl reads the clock through the controller.
func Now() time.Time {
	var t int64
	if s != nil {
		if s.inCtl {
			t = s.now
		} else {
			Do(func() { t = s.now })
		}
	}
	return epoch.Add(time.Duration(t))
}

// ToVirtual converts a time to virtual nanoseconds (zero time: -1, none).
func ToVirtual(t time.Time) int64 {
	if t.IsZero() {
		return -1
	}
	return int64(t.Sub(epoch))
}

// After schedules f (in the controller) at d from now; for model code.
func AfterModel(d time.Duration, f func()) { s.addTimer(int64(d), f) }

// Tracef writes to the execution trace.
func Tracef(format string, a ...interface{}) {
	if s != nil && s.cfg.Trace != nil {
		s.cfg.Trace("         " + fmt.Sprintf(format, a...))
	}
}

// Tracing reports whether a trace is being recorded.
func Tracing() bool { return s != nil && s.cfg.Trace != nil }

// Go starts a goroutine of the execution.
func Go(f func()) { GoName("go", f) }

// GoName starts a named goroutine.
func GoName(name string, f func()) {
	sc := s
	if sc == nil {
		go f()
		return
	}
	if !sc.inCtl && sc.cur.aborted {
		return
	}
	var g *G
	// registered by the controller, started by the parent (so that the detector sees the edge)
	var id int
	Do(func() {
		id = sc.nextID
		sc.nextID++
		g = &G{ID: id, Name: name, wake: make(chan struct{}, 1), exited: make(chan struct{}, 1)}
		g.op = &op{what: "start", exec: func() {}}
		sc.gs = append(sc.gs, g)
	})
	go sc.gmain(g, f)
}

// Gosched lets every other runnable goroutine proceed first.
func Gosched() { Sleep(1) }

// Sleep blocks for d of virtual time.
func Sleep(d time.Duration) {
	if s == nil {
		return
	}
	var at int64
	Do(func() { at = s.now + int64(d) })
	do(&op{what: "sleep", yield: true, enabled: func() bool { return s.now >= at }, deadline: func() int64 { return at }, exec: func() {}})
}

// Blocked lists the goroutines that cannot run now (model context).
func Blocked() []string {
	var out []string
	for _, g := range s.gs {
		if !g.done && g.op != nil && !g.op.ready() {
			out = append(out, g.Name+": "+g.op.what)
		}
	}
	sort.Sort(sort.StringSlice(out))
	return out
}

// LiveGoroutines counts goroutines that have not finished.
func LiveGoroutines() int {
	n := 0
	Do(func() {
		for _, g := range s.gs {
			if !g.done {
				n++
			}
		}
	})
	return n
}

// Alive names the goroutines that have not finished, without the calling one.
func Alive() []string {
	var out []string
	Do(func() {
		for _, g := range s.gs {
			if !g.done && g != s.cur {
				out = append(out, g.Name)
			}
		}
	})
	return out
}

// Obj returns the model state attached to key, creating it on first use (controller context).
func Obj(key interface{}, mk func() interface{}) interface{} {
	if s == nil {
		return mk()
	}
	o, ok := s.objs[key]
	if !ok {
		o = mk()
		s.objs[key] = o
	}
	return o
}

// Heartbeat counts executions/operations for watchdogs.
var Heartbeat atomic.Int64

// TrimStack keeps the interesting part of a panic stack.
func TrimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "runtime/") || strings.Contains(l, "/mc/rt/") {
			continue
		}
		out = append(out, l)
		if len(out) > 40 {
			break
		}
	}
	return strings.Join(out, "\n")
}
