package rt

import (
	"reflect"
	"unsafe"
)

// Channels keep their real identity (a Go channel value), but all communication goes through
// this table; the real channel stays empty and is only used for its address, type and capacity.

type msg struct {
	val  interface{}
	from *selOp
}

type mchan struct {
	ref    interface{} // keeps the channel (and so its address) alive
	cap    int
	buf    []msg
	closed bool
	closer *selOp
	// receivers that freed buffer slots, for happens-before edges
	freed []*selOp
}

type selCase struct {
	ch   *mchan // nil: nil channel
	send bool
	val  interface{}
}

type selOp struct {
	g     *G
	cases []selCase
	dflt  bool
	done  bool
	idx   int
	val   interface{}
	ok    bool
	panik string
	tok   [8]byte
	acq   []*selOp
}

func chanKey(ch interface{}) uintptr { return reflect.ValueOf(ch).Pointer() }

// chanOf returns the model of ch (controller context).
func chanOf(ch interface{}) *mchan {
	v := reflect.ValueOf(ch)
	p := v.Pointer()
	if p == 0 {
		return nil
	}
	m := s.chans[p]
	if m == nil {
		m = &mchan{ref: ch, cap: v.Cap()}
		s.chans[p] = m
	}
	return m
}

func (sc *sched) partner(self *G, ch *mchan, send bool) (*op, int) {
	var best *op
	bi := -1
	for _, g := range sc.gs {
		if g == self || g.done || g.op == nil || g.op.sel == nil || g.op.sel.done {
			continue
		}
		for i, c := range g.op.sel.cases {
			if c.ch == ch && c.send == send {
				if best == nil || g.op.seq < best.seq {
					best, bi = g.op, i
				}
				break
			}
		}
	}
	return best, bi
}

func (sc *sched) caseReady(g *G, c selCase) bool {
	if c.ch == nil {
		return false
	}
	if c.send {
		if c.ch.closed || len(c.ch.buf) < c.ch.cap {
			return true
		}
		if c.ch.cap == 0 {
			p, _ := sc.partner(g, c.ch, false)
			return p != nil
		}
		return false
	}
	if len(c.ch.buf) > 0 || c.ch.closed {
		return true
	}
	if c.ch.cap == 0 {
		p, _ := sc.partner(g, c.ch, true)
		return p != nil
	}
	return false
}

func (so *selOp) ready() bool {
	if so.done || so.dflt {
		return true
	}
	for _, c := range so.cases {
		if s.caseReady(so.g, c) {
			return true
		}
	}
	return false
}

func (so *selOp) exec() {
	if so.done {
		return
	}
	sc := s
	var rd []int
	for i, c := range so.cases {
		if sc.caseReady(so.g, c) {
			rd = append(rd, i)
		}
	}
	so.done = true
	if len(rd) == 0 {
		so.idx = -1
		return
	}
	i := rd[sc.choose(Free, len(rd), "select")]
	so.idx = i
	c := so.cases[i]
	ch := c.ch
	if c.send {
		switch {
		case ch.closed:
			so.panik = "send on closed channel"
		case ch.cap > 0:
			if len(ch.freed) > 0 {
				so.acq = append(so.acq, ch.freed[0])
				ch.freed = ch.freed[1:]
			}
			ch.buf = append(ch.buf, msg{c.val, so})
		default:
			p, pi := sc.partner(so.g, ch, false)
			p.sel.done, p.sel.idx, p.sel.val, p.sel.ok = true, pi, c.val, true
			p.sel.acq = append(p.sel.acq, so)
			so.acq = append(so.acq, p.sel)
		}
		return
	}
	switch {
	case len(ch.buf) > 0:
		m := ch.buf[0]
		ch.buf = ch.buf[1:]
		so.val, so.ok = m.val, true
		if m.from != nil {
			so.acq = append(so.acq, m.from)
		}
		if RaceBuild {
			ch.freed = append(ch.freed, so)
		}
	case ch.closed:
		so.val, so.ok = nil, false
		if ch.closer != nil {
			so.acq = append(so.acq, ch.closer)
		}
	default:
		p, pi := sc.partner(so.g, ch, true)
		so.val, so.ok = p.sel.cases[pi].val, true
		p.sel.done, p.sel.idx = true, pi
		p.sel.acq = append(p.sel.acq, so)
		so.acq = append(so.acq, p.sel)
	}
}

type rawCase struct {
	ch   interface{}
	send bool
	val  interface{}
}

func doSel(what string, dflt bool, cases []rawCase) *selOp {
	so := &selOp{dflt: dflt}
	sc := s
	if sc == nil {
		panic("rt: channel operation outside an execution")
	}
	if sc.inCtl {
		panic("rt: channel operation in model code")
	}
	so.g = sc.cur
	// resolve the channel models in the controller, then block
	Do(func() {
		for _, c := range cases {
			so.cases = append(so.cases, selCase{chanOf(c.ch), c.send, c.val})
		}
	})
	raceRelease(unsafe.Pointer(&so.tok))
	if !do(&op{what: what, yield: true, enabled: so.ready, exec: so.exec, sel: so}) {
		so.idx = -1
		return so
	}
	for _, a := range so.acq {
		raceAcquire(unsafe.Pointer(&a.tok))
	}
	if so.panik != "" {
		panic(so.panik)
	}
	return so
}

func sendAny(ch, v interface{}) { doSel("chan send", false, []rawCase{{ch, true, v}}) }

func recvAny(ch interface{}) (interface{}, bool) {
	so := doSel("chan receive", false, []rawCase{{ch, false, nil}})
	return so.val, so.ok
}

// Send returns the send operation of ch (curried so that the element type is inferred from the
// channel alone).
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		if !Active() {
			ch <- v
			return
		}
		sendAny(ch, box(v))
	}
}

func box[T any](v T) interface{} { return &v }

func unbox[T any](i interface{}) T {
	if i == nil {
		var z T
		return z
	}
	return *(i.(*T))
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	if !Active() {
		return <-ch
	}
	v, _ := recvAny(ch)
	return unbox[T](v)
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	if !Active() {
		v, ok := <-ch
		return v, ok
	}
	v, ok := recvAny(ch)
	return unbox[T](v), ok
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	if !Active() {
		close(ch)
		return
	}
	closeAny(ch)
}

func closeAny(ch interface{}) {
	if s.cur.aborted && !s.inCtl {
		return
	}
	so := &selOp{}
	raceRelease(unsafe.Pointer(&so.tok))
	p := ""
	do(&op{what: "chan close", yield: true, exec: func() {
		m := chanOf(ch)
		switch {
		case m == nil:
			p = "close of nil channel"
		case m.closed:
			p = "close of closed channel"
		default:
			m.closed = true
			m.closer = so
		}
	}})
	if p != "" {
		panic(p)
	}
}

// Len is len(ch).
func Len(ch interface{}) int {
	if !Active() {
		return reflect.ValueOf(ch).Len()
	}
	n := 0
	do(&op{what: "chan len", yield: true, exec: func() {
		if m := chanOf(ch); m != nil {
			n = len(m.buf)
		}
	}})
	return n
}

// Case is a case of a select statement.
type Case interface{ raw() rawCase }

// RecvCase is a receive case.
type RecvCase[T any] struct {
	ch <-chan T
	v  interface{}
	ok bool
}

func (c *RecvCase[T]) raw() rawCase { return rawCase{ch: c.ch} }

func (c *RecvCase[T]) set(v interface{}, ok bool) { c.v, c.ok = v, ok }

// V is the value received.
func (c *RecvCase[T]) V() T { return unbox[T](c.v) }

// V2 is the value received and whether the channel was open.
func (c *RecvCase[T]) V2() (T, bool) { return unbox[T](c.v), c.ok }

type setter interface{ set(interface{}, bool) }

// CaseRecv builds a receive case.
func CaseRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

// SendCase is a send case.
type SendCase struct{ r rawCase }

func (c *SendCase) raw() rawCase { return c.r }

// CaseSend builds a send case.
func CaseSend[T any](ch chan<- T) func(T) *SendCase {
	return func(v T) *SendCase { return &SendCase{rawCase{ch, true, box(v)}} }
}

// Select performs a select statement and returns the index of the chosen case (-1: default).
func Select(dflt bool, cases ...Case) int {
	if !Active() {
		panic("rt: select outside an execution")
	}
	rc := make([]rawCase, len(cases))
	for i, c := range cases {
		rc[i] = c.raw()
	}
	so := doSel("select", dflt, rc)
	if so.idx >= 0 {
		if st, ok := cases[so.idx].(setter); ok {
			st.set(so.val, so.ok)
		}
	}
	return so.idx
}

// BlockForever is select {}.
func BlockForever() {
	do(&op{what: "select {}", yield: true, enabled: func() bool { return false }, exec: func() {}})
}

// trySend puts v in a buffered channel if there is room (controller context).
func trySend(ch interface{}, v interface{}) {
	m := chanOf(ch)
	if m == nil || m.closed || len(m.buf) >= m.cap {
		return
	}
	m.buf = append(m.buf, msg{v, nil})
}
