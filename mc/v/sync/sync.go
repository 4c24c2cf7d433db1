// Package sync is the controlled version of the standard package.
package sync

import (
	std "sync"
	"verif/rt"
)

type (
	Mutex     = rt.Mutex
	RWMutex   = rt.RWMutex
	WaitGroup = rt.WaitGroup
	Once      = rt.Once
	Cond      = rt.Cond
	Pool      = rt.Pool
	Locker    = std.Locker
)

// NewCond returns a new Cond with Locker l.
func NewCond(l Locker) *Cond { return rt.NewCond(l) }

// OnceFunc is sync.OnceFunc without its panic replay.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

// OnceValues is sync.OnceValues.
func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var o Once
	var v1 T1
	var v2 T2
	return func() (T1, T2) { o.Do(func() { v1, v2 = f() }); return v1, v2 }
}

// Map is sync.Map with a scheduling point before each operation.
type Map struct{ m std.Map }

func (m *Map) Load(k any) (any, bool)           { rt.AtomicPoint(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { rt.AtomicPoint(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { rt.AtomicPoint(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { rt.AtomicPoint(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { rt.AtomicPoint(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { rt.AtomicPoint(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, old, new any) bool {
	rt.AtomicPoint()
	return m.m.CompareAndSwap(k, old, new)
}
func (m *Map) CompareAndDelete(k, old any) bool {
	rt.AtomicPoint()
	return m.m.CompareAndDelete(k, old)
}
func (m *Map) Clear() { rt.AtomicPoint(); m.m.Clear() }
func (m *Map) Range(f func(k, v any) bool) {
	rt.AtomicPoint()
	all := map[any]any{}
	m.m.Range(func(k, v any) bool { all[k] = v; return true })
	for it, k, v := rt.MapIter(all); it.Next(&k, &v); {
		if !f(k, v) {
			return
		}
	}
}
