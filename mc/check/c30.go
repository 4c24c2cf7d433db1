package check

import (
	"fmt"
	"strings"
	"time"

	"verif/boltsrv"
	"verif/gen/bolt/bolt_mode"
	"verif/mc"
	"verif/rt"
	"verif/vnet"
)

const poolHold = time.Hour

// poolConc is what goroutines share that use a pool.
type poolConc struct {
	*poolRun
	dials, refused int
	failed         int // borrows that failed
	uses           []*use
	freed          []time.Duration // when a connection was returned
}

// use is a borrow from its begin to the end of the return.
type use struct {
	mode bolt_mode.AccessMode
	peak int // at most so many of the same mode at once
}

func (c *poolConc) using(m bolt_mode.AccessMode) int {
	n := 0
	for _, u := range c.uses {
		if u.mode == m {
			n++
		}
	}
	return n
}

func (c *poolConc) done(u *use) {
	for i, o := range c.uses {
		if o == u {
			c.uses = append(c.uses[:i:i], c.uses[i+1:]...)
			return
		}
	}
}

// take borrows in a goroutine.
func (c *poolConc) take(m bolt_mode.AccessMode) *loan {
	var closed bool
	u := &use{mode: m}
	rt.Do(func() {
		closed = c.closed
		c.uses = append(c.uses, u)
		for _, o := range c.uses {
			if n := c.using(o.mode); n > o.peak {
				o.peak = n
			}
		}
	})
	start := now()
	var opened time.Duration
	l, err := c.borrow(m, func() { opened = now() })
	rt.Do(func() {
		if err == nil {
			l.use = u
			return
		}
		c.done(u)
		c.failed++
		c.freed = append(c.freed, opened)
		switch {
		case c.closing:
		case c.routed && u.peak > c.caps(m):
			// it does not wait
		case c.failed > c.refused:
			c.fails("C30 C32 C41", "borrow-fails", "a borrow fails: %s", short(err))
		}
	})
	if err == nil && closed {
		c.fails("C32 C42", "borrow-after-close", "a borrow that began after closing was done succeeds")
	}
	if t := opened; err == nil && !c.routed {
		// if it waited, somebody gave something back just now
		rt.Do(func() {
			ok := t <= start+time.Second
			for _, f := range c.freed {
				if t >= f && t <= f+time.Second {
					ok = true
				}
			}
			if !ok {
				c.fails("C32", "served-late", "a borrow is served at %v although connections were returned at %v", t, c.freed)
			}
		})
	}
	return l
}

func (c *poolConc) give(l *loan) {
	err := c.giveBack(l)
	rt.Do(func() {
		c.done(l.use)
		c.freed = append(c.freed, time.Duration(rt.NowNS()))
		if err != nil && !l.dead && !c.closing {
			c.fails("C30 C32 C41 C43", "return-fails", "returning a working connection fails: %s", short(err))
		}
		if c.closed && l.c != nil && !l.c.IsClosed() {
			c.fails("C32 C42", "returned-open", "a connection returned after closing is still open")
		}
	})
}

// poolWorker is what a goroutine does with a pool; upper case letters are steps.
func (c *poolConc) worker(prog string) {
	m := bolt_mode.WriteMode
	for _, step := range prog {
		switch step {
		case 'r':
			m = bolt_mode.ReadMode
		case 'w':
			m = bolt_mode.WriteMode
		case 'U', 'K', 'R', 'T', 'L', 'C', 'F':
			l := c.take(m)
			if l == nil {
				continue
			}
			switch step {
			case 'K', 'R':
				c.kill(l.c, map[rune]boltsrv.Then{'K': boltsrv.FIN, 'R': boltsrv.RST}[step])
				c.probe(l)
			case 'T':
				c.begin(l, "W")
			case 'F':
				l.conn.Query("FAIL Neo.ClientError.Test.F", nil)
			case 'L':
				rt.Sleep(poolHold)
			case 'C':
				l.conn.Close()
				l.dead = true
			}
			c.give(l)
		case 'X':
			rt.Do(func() { c.closing = true })
			if err := c.pool.Close(); err != nil && !c.props["closes twice"] {
				c.fails("C32 C42", "close-fails", "closing the pool fails: %s", short(err))
			}
			rt.Do(func() { c.closed = true })
		case '0', '1':
			rt.Do(func() { c.cl.members = clusters[step-'0'].ms })
		case 'h':
			rt.Sleep(poolHold / 2)
		case 't':
			rt.Sleep(2 * time.Minute)
		}
	}
}

// poolWaiting explores the schedules of goroutines that borrow while everything is lent to one
// that returns nothing before they are done, and that close the pool.
func poolWaiting(id, props string, ver, size int, mix string, preempt int) mc.Scenario {
	return mc.Scenario{ID: id, Preempt: preempt, IOYield: true, Horizon: 100 * time.Hour, Body: func(x *mc.X) {
		c := &poolConc{poolRun: newPoolRun(x, props, ver, size, false)}
		c.props["closes twice"] = strings.Count(mix, "X") > 1
		c.arm(0)
		if err := c.make(); err != nil {
			c.fails(props, "pool", "the pool can not be made: %s", short(err))
			return
		}
		var held []*loan
		for i := 0; i < size; i++ {
			if l := c.take(bolt_mode.WriteMode); l != nil {
				held = append(held, l)
			}
		}
		for _, prog := range strings.Fields(mix) {
			prog := prog
			x.Go(prog, func() { c.worker(prog) })
		}
		x.Join()
		for _, l := range held {
			c.give(l)
		}
		c.over("C30 C32")
		c.quiet()
	}}
}

// poolScenario explores the schedules of goroutines that use a plain pool.
func poolScenario(id, props string, ver, size int, mix string, preempt, faults int, race bool) mc.Scenario {
	progs := strings.Fields(mix)
	return mc.Scenario{ID: id, Preempt: preempt, Fault: faults, Race: race, IOYield: true, Horizon: 100 * time.Hour, Body: func(x *mc.X) {
		c := &poolConc{poolRun: newPoolRun(x, props, ver, size, false)}
		if strings.Count(mix, "X") > 1 {
			c.props["closes twice"] = true
		}
		c.arm(faults)
		if err := c.make(); err != nil {
			c.fails(props, "pool", "the pool can not be made: %s", short(err))
			return
		}
		for _, prog := range progs {
			prog := prog
			x.Go(prog, func() { c.worker(prog) })
		}
		x.Join()
		c.sockets()
		c.faulty = false
		c.arm(0)
		c.over("C30 C32")
		if c.closing {
			c.quiet()
		}
	}}
}

// arm makes connection attempts fail.
func (c *poolConc) arm(faults int) {
	for _, s := range c.cl.servers {
		s.Dial = func() vnet.Outcome {
			if faults == 0 {
				return vnet.Accept
			}
			k := c.x.Fault(3, "dial")
			if k > 0 {
				c.refused++
			}
			return []vnet.Outcome{vnet.Accept, vnet.Refuse, vnet.Blackhole}[k]
		}
	}
}

func (c *poolConc) over(props string, modes ...bolt_mode.AccessMode) {
	if len(modes) == 0 {
		modes = []bolt_mode.AccessMode{bolt_mode.WriteMode}
	}
	var order string
	rt.Do(func() {
		order = fmt.Sprintf("%d sockets, %d failed borrows", len(c.net.Conns), c.failed)
	})
	c.x.Class("%s", order)
	if c.closing {
		for _, m := range modes {
			if conn, err := c.pool.Open(m); err == nil || !nilConn(conn) {
				c.fails("C32 C42", "borrow-after-close", "a borrow after closing returns %s", short(err))
			}
		}
		rt.Do(func() {
			if n := c.net.OpenCount(); n != 0 {
				c.fails("C30 C32 C42", "left-open", "%d sockets are open after closing and returning everything", n)
			}
		})
	} else {
		c.finish(props, modes...)
	}
	rt.Do(func() {
		for _, t := range c.never {
			if c.cl.db.Has(t) != 0 {
				c.fails("C30", "leaked-work", "work %q that was never committed is durable", t)
			}
		}
	})
}

func poolMixes(prop, tier string) (mixes []string) {
	if prop == "C30" {
		return []string{"U U", "UU UU", "U K", "T U", "F UU", "K K", "R T", "U C", "UU X", "T X", "U U U", "U K T", "UU X U"}
	}
	return []string{"U X", "UU X", "L U", "L K", "LU UL", "K U", "T X", "K X", "X X", "L U X", "L U hX", "K U U", "L hX", "U U U", "C U U", "L U K"}
}

func poolConcScenarios(prop, tier string) []mc.Scenario {
	var out []mc.Scenario
	pre := 2
	if tier == "thorough" {
		pre = 3
	}
	for _, size := range []int{1, 2} {
		for _, mix := range poolMixes(prop, tier) {
			for _, ver := range []int{1, 4} {
				p := pre
				if len(strings.Fields(mix)) > 2 {
					p--
				}
				name := strings.ReplaceAll(mix, " ", "+")
				out = append(out, poolScenario(fmt.Sprintf("v%d/size%d/%s/preempt%d", ver, size, name, p), prop, ver, size, mix, p, 0, false))
				if prop == "C32" {
					out = append(out, poolScenario(fmt.Sprintf("v%d/size%d/%s/preempt%d/faults1", ver, size, name, p-1), prop, ver, size, mix, p-1, 1, false))
				}
				if ver == 4 {
					out = append(out, poolScenario(fmt.Sprintf("race/v%d/size%d/%s/preempt%d", ver, size, name, p-1), prop, ver, size, mix, p-1, 0, true))
				}
			}
		}
	}
	// many goroutines
	for _, size := range []int{2, 3} {
		for _, mix := range []string{"U U U U", "UU K T U", "U U U U U", "K F U U", "C K U X", "hX U L K"} {
			if size == 3 && len(strings.Fields(mix)) > 4 {
				continue
			}
			out = append(out, poolScenario(fmt.Sprintf("v4/many/size%d/%s/preempt%d", size, strings.ReplaceAll(mix, " ", "+"), pre-2), prop, 4, size, mix, pre-2, 0, false))
		}
	}
	for _, b := range bulkSizes(tier) {
		out = append(out, bulkHistory(fmt.Sprintf("v4/size%d/all at once/depth%d", b[0], b[1]-1), prop, 4, b[0], 0, b[1]-1))
	}
	if prop == "C32" {
		for _, size := range []int{1, 2} {
			for _, mix := range []string{"U X", "UU X", "U U X", "U hX", "U U hX", "U X X", "U tX U"} {
				p := pre
				if len(strings.Fields(mix)) > 2 {
					p--
				}
				out = append(out, poolWaiting(fmt.Sprintf("waiting/size%d/%s/preempt%d", size, strings.ReplaceAll(mix, " ", "+"), p), prop, 4, size, mix, p))
			}
		}
	}
	return out
}

func init() {
	for _, p := range []string{"C30", "C32"} {
		p := p
		b := "versions 1 and 4, pool sizes 1 and 2, 13 mixes of two or three goroutines that borrow, use, break, leave in a transaction, close and return connections and close the pool: all interleavings at synchronisation and socket operations with at most 2 (three goroutines: 1; thorough: one more) preemptions; the same mixes under the race detector with one preemption less; 7 mixes of four and five goroutines, sizes 2 and 3, without (thorough: with one) preemption; pools of 16 sizes from 3 to 257: all histories of 1 to 4 (5) operations on all their connections at once (borrowing, returning in three ways, transactions, closed and dead ones, an outage, hours)"
		if p == "C32" {
			b = "versions 1 and 4, pool sizes 1 and 2, 16 mixes of two or three goroutines of which some hold a connection for an hour, break it or close the pool: all interleavings at synchronisation and socket operations with at most 2 (three goroutines: 1; thorough: one more) preemptions, and with one less but one connection attempt refused or lost, at any position; seven mixes of borrowers and closers while everything is lent and stays so until they have ended; the mixes under the race detector with one preemption less; 7 mixes of four and five goroutines, sizes 2 and 3, without (thorough: with one) preemption; pools of 16 sizes from 3 to 257: all histories of 1 to 4 (5) operations on all their connections at once (borrowing, returning in three ways, transactions, closed and dead ones, an outage, hours)"
		}
		register(&mc.Check{Property: p, Scenarios: func(tier string) []mc.Scenario { return poolConcScenarios(p, tier) },
			Bounds:      b,
			Assumptions: []string{"a borrower returns each connection once, and only what it borrowed", "a waiting borrow counts as served at once if less than a second of virtual time passes"}})
	}
}
