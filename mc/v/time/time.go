// Package time is the controlled version of the standard package: the clock is virtual.
package time

import (
	std "time"
	"verif/rt"
)

// Now is the virtual time.
func Now() Time { return rt.Now() }

// Since is Now().Sub(t).
func Since(t Time) Duration { return Now().Sub(t) }

// Until is t.Sub(Now()).
func Until(t Time) Duration { return t.Sub(Now()) }

// Sleep blocks in virtual time.
func Sleep(d Duration) { rt.Sleep(d) }

// Timer is time.Timer.
type Timer struct {
	C <-chan Time
	t *rt.Timer
}

func conv(c <-chan std.Time) <-chan Time { return c }

// NewTimer creates a timer.
func NewTimer(d Duration) *Timer {
	t, c := rt.NewTimer(d)
	return &Timer{C: conv(c), t: t}
}

// AfterFunc runs f in its own goroutine after d.
func AfterFunc(d Duration, f func()) *Timer { return &Timer{t: rt.NewFuncTimer(d, f)} }

// After is NewTimer(d).C.
func After(d Duration) <-chan Time { return NewTimer(d).C }

// Stop stops the timer.
func (t *Timer) Stop() bool { return t.t.Stop() }

// Reset re-arms the timer.
func (t *Timer) Reset(d Duration) bool { return t.t.Reset(d) }

// Ticker is time.Ticker.
type Ticker struct {
	C <-chan Time
	t *rt.Timer
}

// NewTicker creates a ticker.
func NewTicker(d Duration) *Ticker {
	t, c := rt.NewTicker(d)
	return &Ticker{C: conv(c), t: t}
}

// Stop stops the ticker.
func (t *Ticker) Stop() { t.t.Stop() }

// Reset changes the period.
func (t *Ticker) Reset(d Duration) { t.t.Reset(d) }

// Tick is NewTicker(d).C.
func Tick(d Duration) <-chan Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
