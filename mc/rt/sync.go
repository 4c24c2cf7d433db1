package rt

import (
	"fmt"
	"reflect"
	"sort"
	"sync"
	"time"
	"unsafe"
)

// Mutex is the model of sync.Mutex. After the model has granted the lock the real one is taken
// as well (it never blocks), which gives the race detector its happens-before edges.
type Mutex struct {
	real   sync.Mutex
	run    *sched
	locked bool
}

func (m *Mutex) fresh() {
	if m.run != s {
		m.run, m.locked = s, false
		m.real = sync.Mutex{}
	}
}

// Lock locks m.
func (m *Mutex) Lock() {
	if !Active() {
		m.real.Lock()
		return
	}
	if do(&op{what: "Mutex.Lock", yield: true,
		enabled: func() bool { m.fresh(); return !m.locked },
		exec:    func() { m.fresh(); m.locked = true }}) {
		m.real.Lock()
	}
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	if !Active() {
		return m.real.TryLock()
	}
	got := false
	if do(&op{what: "Mutex.TryLock", yield: true, exec: func() {
		m.fresh()
		if !m.locked {
			m.locked, got = true, true
		}
	}}) && got {
		m.real.Lock()
	}
	return got
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if !Active() {
		m.real.Unlock()
		return
	}
	if unwinding() {
		return
	}
	bad := false
	Do(func() { m.fresh(); bad = !m.locked })
	if bad {
		panic("sync: unlock of unlocked mutex")
	}
	m.real.Unlock()
	Do(func() { m.locked = false })
}

func unwinding() bool { return !s.inCtl && s.cur.aborted }

// RWMutex is the model of sync.RWMutex, with writer preference as in Go.
type RWMutex struct {
	real      sync.RWMutex
	run       *sched
	announced bool
	writer    bool
	readers   int
}

func (m *RWMutex) fresh() {
	if m.run != s {
		m.run, m.announced, m.writer, m.readers = s, false, false, 0
		m.real = sync.RWMutex{}
	}
}

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	if !Active() {
		m.real.Lock()
		return
	}
	if !do(&op{what: "RWMutex.Lock(announce)", yield: true,
		enabled: func() bool { m.fresh(); return !m.announced },
		exec:    func() { m.fresh(); m.announced = true }}) {
		return
	}
	if do(&op{what: "RWMutex.Lock", yield: false,
		enabled: func() bool { return m.readers == 0 },
		exec:    func() { m.writer = true }}) {
		m.real.Lock()
	}
}

// TryLock tries to lock m for writing.
func (m *RWMutex) TryLock() bool {
	if !Active() {
		return m.real.TryLock()
	}
	got := false
	if do(&op{what: "RWMutex.TryLock", yield: true, exec: func() {
		m.fresh()
		if !m.announced && m.readers == 0 {
			m.announced, m.writer, got = true, true, true
		}
	}}) && got {
		m.real.Lock()
	}
	return got
}

// Unlock unlocks m for writing.
func (m *RWMutex) Unlock() {
	if !Active() {
		m.real.Unlock()
		return
	}
	if unwinding() {
		return
	}
	bad := false
	Do(func() { m.fresh(); bad = !m.writer })
	if bad {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.real.Unlock()
	Do(func() { m.writer, m.announced = false, false })
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	if !Active() {
		m.real.RLock()
		return
	}
	if do(&op{what: "RWMutex.RLock", yield: true,
		enabled: func() bool { m.fresh(); return !m.announced },
		exec:    func() { m.fresh(); m.readers++ }}) {
		m.real.RLock()
	}
}

// TryRLock tries to lock m for reading.
func (m *RWMutex) TryRLock() bool {
	if !Active() {
		return m.real.TryRLock()
	}
	got := false
	if do(&op{what: "RWMutex.TryRLock", yield: true, exec: func() {
		m.fresh()
		if !m.announced {
			m.readers++
			got = true
		}
	}}) && got {
		m.real.RLock()
	}
	return got
}

// RUnlock undoes a single RLock.
func (m *RWMutex) RUnlock() {
	if !Active() {
		m.real.RUnlock()
		return
	}
	if unwinding() {
		return
	}
	bad := false
	Do(func() { m.fresh(); bad = m.readers <= 0 })
	if bad {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.real.RUnlock()
	Do(func() { m.readers-- })
}

// RLocker returns a Locker whose methods are RLock and RUnlock.
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// WaitGroup is the model of sync.WaitGroup.
type WaitGroup struct {
	real sync.WaitGroup
	run  *sched
	n    int
}

func (w *WaitGroup) fresh() {
	if w.run != s {
		w.run, w.n = s, 0
		w.real = sync.WaitGroup{}
	}
}

// Add adds delta.
func (w *WaitGroup) Add(delta int) {
	if !Active() {
		w.real.Add(delta)
		return
	}
	if unwinding() {
		return
	}
	bad := false
	do(&op{what: "WaitGroup.Add", yield: true, exec: func() {
		w.fresh()
		bad = w.n+delta < 0
	}})
	if unwinding() {
		return
	}
	if bad {
		panic("sync: negative WaitGroup counter")
	}
	w.real.Add(delta)
	Do(func() { w.n += delta })
}

// Done is Add(-1).
func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f in a new goroutine of the group.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

// Wait waits for the counter to be zero.
func (w *WaitGroup) Wait() {
	if !Active() {
		w.real.Wait()
		return
	}
	if do(&op{what: "WaitGroup.Wait", yield: true, enabled: func() bool { w.fresh(); return w.n == 0 }, exec: func() {}}) {
		w.real.Wait()
	}
}

// Once is the model of sync.Once.
type Once struct {
	m    Mutex
	done bool
	tok  [8]byte
}

// Do calls f if it is the first call.
func (o *Once) Do(f func()) {
	d := false
	DoYield("Once.Do", func() { d = o.done })
	if d {
		raceAcquire(unsafe.Pointer(&o.tok))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			raceRelease(unsafe.Pointer(&o.tok))
			Do(func() { o.done = true })
		}()
		f()
	}
}

// Cond is the model of sync.Cond.
type Cond struct {
	L sync.Locker
	q []*condW
	_ [0]func()
}

type condW struct {
	hit bool
	tok [8]byte
}

// NewCond returns a new Cond.
func NewCond(l sync.Locker) *Cond { return &Cond{L: l} }

// Wait waits for Signal or Broadcast.
func (c *Cond) Wait() {
	w := &condW{}
	Do(func() { c.q = append(c.q, w) })
	c.L.Unlock()
	do(&op{what: "Cond.Wait", yield: true, enabled: func() bool { return w.hit }, exec: func() {}})
	raceAcquire(unsafe.Pointer(&w.tok))
	c.L.Lock()
}

// Signal wakes one waiter.
func (c *Cond) Signal() {
	var w *condW
	DoYield("Cond.Signal", func() {
		if len(c.q) > 0 {
			w = c.q[0]
			c.q = c.q[1:]
		}
	})
	if w != nil {
		raceRelease(unsafe.Pointer(&w.tok))
		Do(func() { w.hit = true })
	}
}

// Broadcast wakes all waiters.
func (c *Cond) Broadcast() {
	var ws []*condW
	DoYield("Cond.Broadcast", func() { ws, c.q = c.q, nil })
	for _, w := range ws {
		raceRelease(unsafe.Pointer(&w.tok))
	}
	Do(func() {
		for _, w := range ws {
			w.hit = true
		}
	})
}

// Pool is a deterministic model of sync.Pool.
type Pool struct {
	New   func() interface{}
	run   *sched
	items []poolItem
}

type poolItem struct {
	v   interface{}
	tok *[8]byte
}

// Get takes an item.
func (p *Pool) Get() interface{} {
	var it poolItem
	ok := false
	DoYield("Pool.Get", func() {
		if p.run != s {
			p.run, p.items = s, nil
		}
		if n := len(p.items); n > 0 {
			it, ok = p.items[n-1], true
			p.items = p.items[:n-1]
		}
	})
	if ok {
		raceAcquire(unsafe.Pointer(it.tok))
		return it.v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

// Put returns an item.
func (p *Pool) Put(v interface{}) {
	if v == nil {
		return
	}
	tok := new([8]byte)
	raceRelease(unsafe.Pointer(tok))
	Do(func() {
		if p.run != s {
			p.run, p.items = s, nil
		}
		p.items = append(p.items, poolItem{v, tok})
	})
}

// AtomicPoint is the scheduling point before an atomic operation.
func AtomicPoint() {
	if Active() && !s.inCtl {
		DoYield("atomic", func() {})
	}
}

// Timer is the model behind time.Timer and time.Ticker.
type Timer struct {
	t       *timer
	ch      chan time.Time
	period  int64
	fn      func()
	fnFired int
	fnRun   int
}

// NewTimer makes a timer that sends on its channel.
func NewTimer(d time.Duration) (*Timer, <-chan time.Time) {
	t := &Timer{ch: make(chan time.Time, 1)}
	Do(func() { t.arm(int64(d)) })
	return t, t.ch
}

// NewTicker makes a periodic timer.
func NewTicker(d time.Duration) (*Timer, <-chan time.Time) {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Timer{ch: make(chan time.Time, 1), period: int64(d)}
	Do(func() { t.arm(int64(d)) })
	return t, t.ch
}

// NewFuncTimer makes a timer that runs f in its own goroutine.
func NewFuncTimer(d time.Duration, f func()) *Timer {
	t := &Timer{fn: f}
	Do(func() { t.arm(int64(d)) })
	t.spawn()
	return t
}

func (t *Timer) spawn() {
	GoName("timerfunc", func() {
		do(&op{what: "timer func", yield: true, enabled: func() bool { return t.fnFired > t.fnRun }, exec: func() { t.fnRun++ }})
		t.fn()
	})
}

func (t *Timer) arm(d int64) {
	if s == nil {
		return
	}
	t.t = s.addTimer(d, t.fire)
}

func (t *Timer) fire() {
	if t.fn != nil {
		t.fnFired++
		t.t = nil
		return
	}
	v := epoch.Add(time.Duration(s.now))
	trySend(t.ch, &v)
	t.t = nil
	if t.period > 0 {
		t.t = s.addTimer(t.period, t.fire)
	}
}

// Stop stops the timer.
func (t *Timer) Stop() bool {
	r := false
	DoYield("Timer.Stop", func() {
		if t.t != nil && s != nil {
			r = s.delTimer(t.t)
			t.t = nil
		}
	})
	return r
}

// Reset re-arms the timer.
func (t *Timer) Reset(d time.Duration) bool {
	r := false
	DoYield("Timer.Reset", func() {
		if t.t != nil && s != nil {
			r = s.delTimer(t.t)
		}
		if t.period > 0 {
			t.period = int64(d)
		}
		t.arm(int64(d))
	})
	if !r && t.fn != nil {
		t.spawn()
	}
	return r
}

// Iter iterates over a map in a deterministic order with the semantics of range: entries
// deleted before they are reached are not produced.
type Iter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

// MapIter starts an iteration; it also returns zero values that declare the loop variables.
func MapIter[M ~map[K]V, K comparable, V any](m M) (*Iter[K, V], K, V) {
	var k K
	var v V
	it := &Iter[K, V]{m: m}
	for key := range m {
		it.keys = append(it.keys, key)
	}
	sortKeys(it.keys)
	return it, k, v
}

func sortKeys[K comparable](keys []K) {
	if len(keys) < 2 {
		return
	}
	names := make([]string, len(keys))
	idx := make([]int, len(keys))
	for i, k := range keys {
		names[i] = keyName(k)
		idx[i] = i
	}
	sort.SliceStable(idx, func(a, b int) bool { return names[idx[a]] < names[idx[b]] })
	out := make([]K, len(keys))
	for i, j := range idx {
		out[i] = keys[j]
	}
	copy(keys, out)
}

// keyName orders keys by kind-specific text; pointers are ordered by first use.
func keyName(k interface{}) string {
	v := reflect.ValueOf(k)
	switch v.Kind() {
	case reflect.String:
		return "s" + v.String()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprintf("i%020d", uint64(v.Int())+1<<63)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return fmt.Sprintf("u%020d", v.Uint())
	case reflect.Ptr:
		return fmt.Sprintf("p%08d", ptrOrder(v.Pointer()))
	}
	return fmt.Sprintf("x%v", k)
}

func ptrOrder(p uintptr) int {
	if s == nil {
		return 0
	}
	n := 0
	Do(func() {
		if s.ptrs == nil {
			s.ptrs = map[uintptr]int{}
		}
		v, ok := s.ptrs[p]
		if !ok {
			v = len(s.ptrs)
			s.ptrs[p] = v
		}
		n = v
	})
	return n
}

// Next advances the iteration.
func (it *Iter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		if val, ok := it.m[key]; ok {
			*k, *v = key, val
			return true
		}
	}
	return false
}

// RandInt63 is the deterministic random source: a counter-based mix.
func RandInt63() int64 {
	var n uint64
	if s == nil {
		n = 1
	} else {
		Do(func() { s.rnd++; n = s.rnd })
	}
	n *= 0x9E3779B97F4A7C15
	n ^= n >> 29
	n *= 0xBF58476D1CE4E5B9
	n ^= n >> 32
	return int64(n >> 1)
}
