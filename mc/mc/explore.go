// Package mc enumerates the executions of scenarios: a depth-first search over all decisions
// (schedules, environment choices, faults, inputs) a scenario takes, within stated bounds,
// spread over worker processes.
package mc

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"
	"sync/atomic"
	"time"

	"verif/rt"
)

// Scenario is a closed program whose executions are enumerated.
type Scenario struct {
	ID      string
	Plain   bool     // runs without scheduler: a pure enumeration of inputs
	Race    bool     // runs in the build with the race detector
	Env     []string // environment of the worker process, e.g. TZ=...
	Preempt int      // bound on preemptive context switches
	Fault   int      // bound on injected faults
	Cap     int      // bound on executions, 0: none
	Horizon time.Duration
	Steps   int
	IOYield bool
	// OneOrder restricts the exploration to one schedule (for inputs and faults around servers
	// that are goroutines).
	OneOrder bool
	Body     func(x *X)
	// StopKey names the violation for an execution that does not finish ("" : not a violation).
	StopKey func(r rt.Result) string
}

// X is what a scenario body gets.
type X struct {
	mute    bool
	sc      *Scenario
	ch      *chooser
	classes map[string]int
	wg      rt.WaitGroup
	trace   func(string)
}

// Failure is a violated property.
type Failure struct {
	Key string
	Msg string
}

// Choose enumerates n alternatives.
func (x *X) Choose(n int, what string) int {
	if x.sc.Plain {
		if n <= 1 {
			return 0
		}
		v := x.ch.Choose(rt.Free, n, what)
		if v < 0 {
			panic(abort{})
		}
		return v
	}
	return rt.Choose(rt.Free, n, what)
}

// Range enumerates 0..n-1 for large n, in several decisions.
func (x *X) Range(n int, what string) int {
	const base = 64
	if n <= base {
		return x.Choose(n, what)
	}
	hi := x.Range((n+base-1)/base, what)
	m := base
	if r := n - hi*base; r < m {
		m = r
	}
	return hi*base + x.Choose(m, what)
}

// Taken is a number determined by the decisions taken so far.
func (x *X) Taken() int {
	n := 0
	for i, r := range x.ch.recs {
		n += (i + 1) * r.v
	}
	return n
}

// Bool enumerates both truth values (false first).
func (x *X) Bool(what string) bool { return x.Choose(2, what) == 1 }

// Fault enumerates n alternatives of which all but the first count as a fault.
func (x *X) Fault(n int, what string) int {
	if x.sc.Plain {
		if n <= 1 {
			return 0
		}
		v := x.ch.Choose(rt.Fault, n, what)
		if v < 0 {
			panic(abort{})
		}
		return v
	}
	return rt.Choose(rt.Fault, n, what)
}

// Mute makes violations end the execution only: they are not what a check is about.
func (x *X) Mute(on bool) { x.mute = on }

// Fail reports a violation and ends the execution.
func (x *X) Fail(key, format string, a ...interface{}) {
	if x.mute && !x.sc.Plain {
		x.Quit(key + " breaks another property")
	}
	if x.sc.Plain {
		panic(Failure{key, fmt.Sprintf(format, a...)})
	}
	rt.Fail(key, format, a...)
}

const quit = "\x00quit"

// Quit ends an execution that can not be judged any further, without a violation.
func (x *X) Quit(why string) { rt.Fail(quit, "%s", why) }

// Check is Fail unless ok.
func (x *X) Check(ok bool, key, format string, a ...interface{}) {
	if !ok {
		x.Fail(key, format, a...)
	}
}

// Class counts the execution in a class of outcomes (for the evidence).
func (x *X) Class(format string, a ...interface{}) {
	s := format
	if len(a) > 0 {
		s = fmt.Sprintf(format, a...)
	}
	f := func() {
		if len(x.classes) < 4000 || x.classes[s] > 0 {
			x.classes[s]++
		}
	}
	if x.sc.Plain {
		f()
	} else {
		rt.Do(f)
	}
}

// Tracef writes to the trace of a replay.
func (x *X) Tracef(format string, a ...interface{}) {
	if x.trace != nil {
		x.trace("         " + fmt.Sprintf(format, a...))
	}
}

// Go starts a user goroutine; Join waits for all of them.
func (x *X) Go(name string, f func()) {
	x.wg.Add(1)
	rt.GoName(name, func() {
		f()
		x.wg.Done()
	})
}

// Join waits for the goroutines started with Go.
func (x *X) Join() { x.wg.Wait() }

type abort struct{}

type rec struct {
	kind rt.Kind
	n    int
	v    int
}

type chooser struct {
	prefix   []int
	recs     []rec
	pre      int
	fault    int
	sc       *Scenario
	diverged bool
	cur      *curBuf
	quit     func() bool
}

func (c *chooser) Choose(k rt.Kind, n int, what string) int {
	switch k {
	case rt.Preempt:
		if c.pre >= c.sc.Preempt {
			return 0
		}
	case rt.Fault:
		if c.fault >= c.sc.Fault {
			return 0
		}
	}
	v := 0
	i := len(c.recs)
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= n {
			c.diverged = true
			return -1
		}
	}
	if v > 0 {
		switch k {
		case rt.Preempt:
			c.pre++
		case rt.Fault:
			c.fault++
		}
	}
	c.recs = append(c.recs, rec{k, n, v})
	if c.cur != nil {
		c.cur.push(v)
	}
	return v
}

func (c *chooser) values() []int {
	out := make([]int, len(c.recs))
	for i, r := range c.recs {
		out[i] = r.v
	}
	// trailing zeros are implied
	for len(out) > 0 && out[len(out)-1] == 0 {
		out = out[:len(out)-1]
	}
	return out
}

// Exec is the outcome of one execution.
type Exec struct {
	Fail     *Failure
	Steps    int
	Stop     string
	Diverged bool
	recs     []rec
}

var heartbeat atomic.Int64

// runOne performs the execution given by prefix (zeros after it).
func runOne(sc *Scenario, prefix []int, classes map[string]int, cur *curBuf, trace func(string)) (ex Exec) {
	ch := &chooser{prefix: prefix, sc: sc, cur: cur}
	if cur != nil {
		cur.start(sc.ID)
	}
	heartbeat.Add(1)
	x := &X{sc: sc, ch: ch, classes: classes, trace: trace}
	if sc.Plain {
		func() {
			defer func() {
				r := recover()
				switch r := r.(type) {
				case nil:
				case Failure:
					ex.Fail = &r
				case abort:
				default:
					st := string(debug.Stack())
					ex.Fail = &Failure{panicKey(fmt.Sprint(r), st), fmt.Sprintf("panic: %v\n%s", r, rt.TrimStack(st))}
				}
			}()
			sc.Body(x)
		}()
		ex.Steps = 1 + len(ch.recs)
		ex.Stop = "finished"
		ex.Diverged = ch.diverged
		ex.recs = ch.recs
		return ex
	}
	races := rt.RaceErrors()
	res := rt.Run(rt.Config{Chooser: ch, Horizon: sc.Horizon, MaxSteps: sc.Steps, IOYield: sc.IOYield, OneOrder: sc.OneOrder, Trace: trace}, func() {
		sc.Body(x)
	})
	ex.Steps = res.Steps
	ex.Stop = res.Stop.String()
	ex.Diverged = ch.diverged
	ex.recs = ch.recs
	switch res.Stop {
	case rt.Finished, rt.Aborted:
	case rt.Failed:
		if res.Key == quit {
			classes["given up: "+res.Msg]++
			break
		}
		ex.Fail = &Failure{res.Key, res.Msg}
	default:
		key := ""
		if res.Stop == rt.Panicked {
			key = panicKey(res.Msg, res.Stack)
		} else {
			key = "stop:" + res.Stop.String()
		}
		if sc.StopKey != nil {
			key = sc.StopKey(res)
		}
		if key != "" {
			m := res.Stop.String() + ": " + res.Msg
			if len(res.Blocked) > 0 {
				m += "\n  blocked: " + strings.Join(res.Blocked, "\n  blocked: ")
			}
			if res.Stack != "" {
				m += "\n" + rt.TrimStack(res.Stack)
			}
			ex.Fail = &Failure{key, m}
		}
	}
	if n := rt.RaceErrors(); n > races && ex.Fail == nil {
		ex.Fail = &Failure{"race", "data race\n" + raceReport()}
	}
	return ex
}

// panicKey identifies a panic by its message class and the innermost function of the driver.
func panicKey(msg, stack string) string {
	site := ""
	seen := false
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.HasPrefix(l, "verif/gen/") {
			site = l
			if i := strings.LastIndex(site, "("); i > 0 {
				site = site[:i]
			}
			site = strings.TrimPrefix(site, "verif/gen/")
			break
		}
	}
	if i := strings.IndexByte(msg, '\n'); i >= 0 {
		msg = msg[:i]
	}
	return "panic in " + site + ": " + msg
}

func raceReport() string {
	p := os.Getenv("VERIF_RACELOG")
	if p == "" {
		return ""
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
	if err != nil {
		return ""
	}
	s := string(b)
	if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	return s
}

// AllocBytes is the number of heap bytes allocated so far by the process.
func AllocBytes() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

// Task is a subtree of a scenario.
type Task struct {
	Scenario string `json:"s"`
	Prefix   []int  `json:"p,omitempty"`
}

// Viol is a violation found.
type Viol struct {
	Task    Task   `json:"task"` // complete choices
	Key     string `json:"key"`
	Msg     string `json:"msg"`
	Ordinal int    `json:"ordinal"` // position within the item
}

// Result is what a worker returns for an item.
type Result struct {
	Execs    map[string]int  `json:"execs"`
	Nodes    int             `json:"nodes"`
	Steps    int             `json:"steps"`
	MaxDepth int             `json:"maxdepth"`
	Diverged int             `json:"diverged"`
	Frontier []Task          `json:"frontier"`
	Viols    []Viol          `json:"viols"`
	Known    map[string]Viol `json:"known"`
	Classes  map[string]int  `json:"classes"`
	Samples  []Task          `json:"samples"`
	Fatal    string          `json:"fatal,omitempty"`
}

// Item is a piece of work for a worker process.
type Item struct {
	Tasks []Task          `json:"tasks"`
	Quota int             `json:"quota"`
	Time  time.Duration   `json:"time"`
	Known map[string]bool `json:"known"`
	// Upto, if positive, stops after that many executions (to reproduce a history).
	Upto int `json:"upto"`
}

func explore(find func(string) *Scenario, it Item, cur *curBuf) Result {
	res := Result{Execs: map[string]int{}, Classes: map[string]int{}, Known: map[string]Viol{}}
	start := time.Now()
	total := 0
	for ti, t := range it.Tasks {
		sc := find(t.Scenario)
		if sc == nil {
			res.Fatal = "no scenario " + t.Scenario
			return res
		}
		prefix := append([]int(nil), t.Prefix...)
		floor := len(prefix)
		first := true
		for {
			if first && total > 0 && (total >= it.Quota || time.Since(start) > it.Time) {
				res.Frontier = append(res.Frontier, it.Tasks[ti:]...)
				return res
			}
			first = false
			ex := runOne(sc, prefix, res.Classes, cur, nil)
			total++
			res.Execs[sc.ID]++
			res.Steps += ex.Steps
			if len(ex.recs) > len(prefix) {
				res.Nodes += len(ex.recs) - len(prefix)
			}
			res.Nodes++
			if len(ex.recs) > res.MaxDepth {
				res.MaxDepth = len(ex.recs)
			}
			if ex.Diverged {
				res.Diverged++
			}
			if len(res.Samples) < 2 {
				res.Samples = append(res.Samples, Task{sc.ID, (&chooser{recs: ex.recs}).values()})
			}
			if ex.Fail != nil {
				v := Viol{Task: Task{sc.ID, (&chooser{recs: ex.recs}).values()}, Key: ex.Fail.Key, Msg: ex.Fail.Msg, Ordinal: total}
				if it.Known[v.Key] {
					if _, ok := res.Known[v.Key]; !ok {
						res.Known[v.Key] = v
					}
				} else {
					res.Viols = append(res.Viols, v)
					return res
				}
			}
			// next: alternatives are explored from the deepest decision upwards, so that what
			// remains can be handed back as a list of prefixes
			recs := ex.recs
			i := len(recs) - 1
			for ; i >= floor; i-- {
				if next(sc, recs, i) {
					break
				}
			}
			if i < floor {
				break
			}
			np := make([]int, i+1)
			for j := 0; j < i; j++ {
				np[j] = recs[j].v
			}
			np[i] = recs[i].v + 1
			prefix = np
			// split off the siblings above when the quota is nearly used
			if total >= it.Quota || time.Since(start) > it.Time {
				for j := floor; j < i; j++ {
					if !next(sc, recs, j) {
						continue
					}
					for v := recs[j].v + 1; v < recs[j].n; v++ {
						q := make([]int, j+1)
						for k := 0; k < j; k++ {
							q[k] = recs[k].v
						}
						q[j] = v
						res.Frontier = append(res.Frontier, Task{sc.ID, q})
					}
				}
				// the remaining siblings at i itself
				for v := recs[i].v + 1; v < recs[i].n; v++ {
					q := append([]int(nil), np...)
					q[i] = v
					res.Frontier = append(res.Frontier, Task{sc.ID, q})
				}
				res.Frontier = append(res.Frontier, it.Tasks[ti+1:]...)
				return res
			}
		}
	}
	return res
}

// next reports whether decision i has an untried alternative within the budgets.
func next(sc *Scenario, recs []rec, i int) bool {
	r := recs[i]
	if r.v+1 >= r.n {
		return false
	}
	if r.kind == rt.Free || r.v > 0 {
		return true
	}
	pre, fault := 0, 0
	for _, q := range recs[:i] {
		if q.v > 0 {
			switch q.kind {
			case rt.Preempt:
				pre++
			case rt.Fault:
				fault++
			}
		}
	}
	if r.kind == rt.Preempt {
		return pre < sc.Preempt
	}
	return fault < sc.Fault
}

// watchdog ends the process when one execution makes no progress in real time.
func watchdog(limit time.Duration, cur *curBuf) {
	go func() {
		last, since := heartbeat.Load(), time.Now()
		for {
			time.Sleep(200 * time.Millisecond)
			h := heartbeat.Load() + rt.Heartbeat.Load()
			if h != last {
				last, since = h, time.Now()
				continue
			}
			if time.Since(since) > limit {
				buf := make([]byte, 1<<18)
				n := runtime.Stack(buf, true)
				cur.hang()
				fmt.Fprintf(os.Stderr, "HANG: no progress for %v\n%s\n", limit, trimAll(string(buf[:n])))
				os.Exit(7)
			}
		}
	}()
}

func trimAll(s string) string {
	var out []string
	for _, g := range strings.Split(s, "\n\n") {
		if strings.Contains(g, "verif/gen/") {
			out = append(out, rt.TrimStack(g))
		}
	}
	r := strings.Join(out, "\n\n")
	if len(r) > 6000 {
		r = r[:6000]
	}
	return r
}

func scratch(root string) string {
	d := filepath.Join(root, ".build", "work")
	os.MkdirAll(d, 0o755)
	return d
}
