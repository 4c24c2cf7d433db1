package check

import (
	"fmt"
	"strings"
	"time"

	"verif/gen/bolt/bolt_mode"
	"verif/gen/bolt/connection"
	"verif/gen/bolt/routing"
	"verif/mc"
	"verif/rt"

	"verif/boltsrv"
)

// routedDirect is a routed pool that is used without a client, and can be started again.
type routedDirect struct{ routing.IRoutingPool }

func (r routedDirect) Open(m bolt_mode.AccessMode) (connection.IConnection, error) {
	if m == bolt_mode.ReadMode {
		return r.BorrowRConnection()
	}
	return r.BorrowRWConnection()
}

func (r routedDirect) Close() error { return r.Stop() }

// restartHistory enumerates histories of one user of a routed pool that is stopped and started again.
func restartHistory(id, props string, ver, size, depth int, faults bool, loanAl string) mc.Scenario {
	return mc.Scenario{ID: id, Horizon: 1000 * time.Hour, Body: func(x *mc.X) {
		p := newRouted(x, props, ver, size)
		auth, tail := usr+":"+pwd, fmt.Sprintf("?timeout=%d", int(poolT/time.Second))
		r, err := routing.NewRoutingPool(fmt.Sprintf("bolt+routing://%s@%s%s", auth, addr1, tail), size, refreshEvery, auth, tail)
		if err != nil {
			p.fails(props, "pool", "the pool can not be made: %s", short(err))
			return
		}
		p.pool = routedDirect{r}
		running := false
		start := func() {
			err := r.Start()
			if running {
				if err == nil {
					p.fails("C42 C43", "started-twice", "a running pool is started again")
				}
				return
			}
			if err == nil {
				running = true
				rt.Do(func() { p.closing, p.closed = false, false })
				return
			}
			if p.out == "" && len(p.down) == 0 {
				p.fails("C43", "start-fails", "starting the pool fails: %s", short(err))
			}
			rt.Do(func() {
				if n := p.net.OpenCount(); n > len(p.lent) {
					p.fails("C42", "failed-start", "%d sockets are open after a failed start with %d connections lent", n, len(p.lent))
				}
			})
		}
		stop := func() {
			err := r.Stop()
			if (err == nil) != running {
				p.fails("C42", "stop", "stopping a pool (running: %v) returns %s", running, short(err))
			}
			running = false
			rt.Do(func() {
				p.closing, p.closed = true, true
				if n := p.net.OpenCount(); n > len(p.lent) {
					p.fails("C42", "idle-open", "%d sockets are open after stopping with %d connections lent", n, len(p.lent))
				}
			})
		}
		start()
		for i := 0; i < depth; i++ {
			ops := []poolOp{{"start", start}, {"stop", stop}}
			if running {
				ops = append(ops, p.routedOps("wrt", loanAl, false)...)
			} else {
				for _, m := range bothModes {
					m := m
					ops = append(ops, poolOp{"refused borrow to " + modeName(m), func() {
						if c, err := p.pool.Open(m); err == nil || !nilConn(c) {
							p.fails("C42", "borrow-after-close", "a borrow from a stopped pool returns %s", short(err))
						}
					}})
				}
				ops = append(ops, poolOp{"time passes", func() {
					n := 0
					rt.Do(func() { n = len(p.net.Dials) })
					rt.Sleep(refreshEvery + time.Second)
					rt.Do(func() {
						if k := len(p.net.Dials); k != n {
							p.fails("C42", "dial-after-stop", "the stopped pool connects to %v", p.net.Dials[n:])
						}
					})
				}})
				for i, l := range p.lent {
					l := l
					ops = append(ops, poolOp{fmt.Sprintf("return %d", i), func() {
						p.giveBack(l)
						rt.Do(func() {
							if l.c != nil && !l.c.IsClosed() {
								p.fails("C42", "returned-open", "a connection returned to a stopped pool is still open")
							}
						})
					}})
				}
			}
			if faults {
				if p.out == "" {
					ops = append(ops, poolOp{"outage", func() {
						rt.Do(func() {
							p.out = "refuse"
							for _, c := range p.net.Open() {
								if s, ok := c.User.(*boltsrv.Session); ok && !s.Dead() {
									s.Kill(boltsrv.RST)
								}
							}
						})
					}})
				} else {
					ops = append(ops, poolOp{"end of the outage", p.recover})
				}
			}
			k := x.Choose(len(ops)+1, "op")
			if k == 0 {
				break
			}
			op := ops[k-1]
			p.note("%s", op.name)
			op.do()
			p.sockets()
		}
		p.note("recovery")
		p.recover()
		if !running {
			start()
		}
		p.change(0)
		p.finish("C43", bothModes...)
		x.Class("%d sockets were opened, %d sessions failed, %d overviews", len(p.net.Dials), len(p.dead), p.fetched)
	}}
}

// restartConc lets several goroutines start and stop a routed pool.
func restartConc(id, props string, ver int, mix string, preempt int, race bool) mc.Scenario {
	return mc.Scenario{ID: id, Preempt: preempt, Race: race, IOYield: true, Horizon: 100 * time.Hour, Body: func(x *mc.X) {
		p := newRouted(x, props, ver, 2)
		p.conc = true
		auth, tail := usr+":"+pwd, fmt.Sprintf("?timeout=%d", int(poolT/time.Second))
		r, err := routing.NewRoutingPool(fmt.Sprintf("bolt+routing://%s@%s%s", auth, addr1, tail), 2, refreshEvery, auth, tail)
		if err != nil {
			p.fails(props, "pool", "the pool can not be made: %s", short(err))
			return
		}
		p.pool = routedDirect{r}
		running := 0 // starts less stops
		if x.Bool("started before") {
			if err := r.Start(); err != nil {
				p.fails(props, "start-fails", "starting the pool fails: %s", short(err))
				return
			}
			running++
		}
		starts := running
		for _, prog := range strings.Fields(mix) {
			prog := prog
			x.Go(prog, func() {
				for _, op := range prog {
					switch op {
					case 'S':
						if err := r.Start(); err == nil {
							rt.Do(func() { running++; starts++ })
						}
					case 'X':
						if err := r.Stop(); err == nil {
							rt.Do(func() { running-- })
						}
					case 't':
						rt.Sleep(refreshEvery)
					case 'w':
						if conn, err := r.BorrowRWConnection(); err == nil {
							if err := r.Reclaim(conn); err != nil {
								p.fails("C41 C43", "return-fails", "returning a connection fails: %s", short(err))
							}
						}
					}
				}
			})
		}
		x.Join()
		p.socketsBut(1)
		n := 0
		rt.Do(func() { n = running })
		if n != 0 && n != 1 {
			p.fails("C42", "started-twice", "the pool was started %d times more often than it was stopped", n)
		}
		if n == 0 {
			rt.Do(func() {
				if k := p.net.OpenCount(); k != 0 {
					p.fails("C42", "idle-open", "%d sockets are open after the pool was stopped", k)
				}
			})
			if err := r.Start(); err != nil {
				p.fails("C42 C43", "start-fails", "starting the stopped pool fails: %s", short(err))
			}
		}
		rt.Do(func() { p.conc = false })
		p.change(0)
		p.finish("C43", bothModes...)
		x.Class("%d starts, running %d", starts, n)
	}}
}
