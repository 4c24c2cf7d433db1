package check

import (
	"fmt"
	"time"

	"verif/boltsrv"
	"verif/gen/bolt/bolt_mode"
	"verif/mc"
	"verif/rt"
)

// crowd is a cluster of n servers, of which k leads (and, if there are many, its third follower too).
func crowd(n, k int) []member {
	var out []member
	for i := 0; i < n; i++ {
		m := member{addr: fmt.Sprintf("s%d:7687", i), role: "FOLLOWER"}
		if i == 0 {
			m.addr = addr1
		}
		if i%3 == 2 {
			m.role = "READ_REPLICA"
		}
		if i == k%n || n > 6 && i == (k+3)%n {
			m.role = "LEADER"
		}
		out = append(out, m)
	}
	return out
}

// modes are the modes in which the pool lends.
func (p *poolRun) modes() []bolt_mode.AccessMode {
	if p.routed {
		return []bolt_mode.AccessMode{bolt_mode.WriteMode, bolt_mode.ReadMode}
	}
	return []bolt_mode.AccessMode{bolt_mode.WriteMode}
}

// bulkOps are operations on all connections of a large pool.
func (p *poolRun) bulkOps(n int) []poolOp {
	var ops []poolOp
	add := func(name string, f func()) { ops = append(ops, poolOp{name, f}) }
	room := false
	for _, m := range p.modes() {
		room = room || p.lentIn(m) < p.caps(m)
	}
	if room {
		add("borrow all", func() {
			for _, m := range p.modes() {
				for i := p.caps(m) - p.lentIn(m); i > 0; i-- {
					p.mustBorrow("C31 C40 C43", m)
				}
			}
		})
	}
	ret := func(pick func(i int) bool, last bool) {
		all := append([]*loan(nil), p.lent...)
		for i := range all {
			l := all[i]
			if last {
				l = all[len(all)-1-i]
			}
			if pick(i) {
				p.giveBack(l)
				p.sockets()
			}
		}
	}
	odd := func(i int) bool { return i%2 == 1 }
	every := func(int) bool { return true }
	if len(p.lent) > 0 {
		add("return all", func() { ret(every, false) })
		add("return all, last first", func() { ret(every, true) })
		add("return every other", func() { ret(odd, false) })
		add("transactions on every other", func() {
			for i, l := range p.lent {
				if odd(i) && l.tx == nil && !l.dead {
					p.begin(l, "W")
				}
			}
		})
		add("close and return every other", func() {
			for i, l := range append([]*loan(nil), p.lent...) {
				if odd(i) {
					l.conn.Close()
					l.dead = true
					rt.Do(func() { p.dead[l.conn] = true })
					p.giveBack(l)
				}
			}
		})
	}
	if idle := p.idle(); len(idle) > 0 {
		add("idle connections die", func() {
			for _, c := range idle {
				p.kill(c, boltsrv.FIN)
			}
		})
		add("every other idle connection dies", func() {
			for i, c := range idle {
				if odd(i) {
					p.kill(c, boltsrv.RST)
				}
			}
		})
	}
	if p.out == "" {
		add("outage", func() { rt.Do(func() { p.out = "refuse" }) })
	} else {
		add("recovery", p.recover)
	}
	add("hours pass", func() {
		if p.routed {
			p.tick()
			return
		}
		rt.Sleep(5 * time.Hour)
	})
	if p.routed {
		role := func(name string, ms []member) {
			add("refresh: "+name, func() {
				rt.Do(func() { p.cl.members = ms })
				p.tick()
			})
		}
		role("other leaders", crowd(n, 1))
		role("half of the servers", crowd((n+1)/2, 0))
	}
	return ops
}

// bulkHistory enumerates histories of operations on all connections of a large pool, of a cluster of n servers if it is routed.
func bulkHistory(id, props string, ver, size, n, depth int) mc.Scenario {
	return mc.Scenario{ID: id, Horizon: 100000 * time.Hour, Steps: 40000000, Body: func(x *mc.X) {
		var p *poolRun
		last := "C31"
		if n == 0 {
			p = newPoolRun(x, props, ver, size, false)
		} else {
			last = "C43"
			p = newPoolRun(x, props, ver, size, true, crowd(n, 0)...)
		}
		if err := p.make(); err != nil {
			p.fails(props, "pool", "the pool can not be made: %s", short(err))
			return
		}
		for i := 0; i < depth; i++ {
			ops := p.bulkOps(n)
			k := x.Choose(len(ops)+1, "op")
			if k == 0 {
				break
			}
			op := ops[k-1]
			p.note("%s", op.name)
			op.do()
			p.sockets()
		}
		if x.Bool("close at once") {
			p.shut()
			x.Class("closed after %d sockets", len(p.net.Dials))
			return
		}
		p.recover()
		if n > 0 {
			rt.Do(func() { p.cl.members = crowd(n, 0) })
			p.tick()
		}
		p.finish(last, p.modes()...)
		x.Class("%d sockets were opened", len(p.net.Dials))
	}}
}

// crowdScenario: every server of a large cluster is used for its role.
func crowdScenario(id string, ver, n int) mc.Scenario {
	return mc.Scenario{ID: id, Horizon: 1000 * time.Hour, Steps: 40000000, Body: func(x *mc.X) {
		p := newPoolRun(x, "C40", ver, 4, true, crowd(n, 0)...)
		if err := p.make(); err != nil {
			p.fails("C40", "pool", "the pool can not be made: %s", short(err))
			return
		}
		ms := crowd(n, x.Choose(n, "leader"))
		rt.Do(func() { p.cl.members = ms })
		p.tick()
		for _, m := range p.modes() {
			used := map[string]bool{}
			for i := 0; i < 2*n; i++ {
				l, err := p.borrow(m)
				if err != nil {
					p.fails("C40", "borrow-fails", "a %s borrow fails: %s", modeName(m), short(err))
				}
				rt.Do(func() { used[l.c.Addr] = true })
				p.kill(l.c, boltsrv.FIN)
				p.probe(l)
				p.giveBack(l)
			}
			for _, s := range ms {
				if serves(ms, s.addr, m) && !used[s.addr] {
					p.fails("C40", "unused-server", "of %d %s connections none goes to %s", 2*n, modeName(m), s.addr)
				}
			}
		}
		x.Class("all servers of the role are used")
	}}
}

// bulkSizes are the sizes of large pools and the depths of their histories.
func bulkSizes(tier string) [][2]int {
	out := [][2]int{{3, 5}, {5, 5}, {6, 4}, {8, 4}, {9, 4}, {10, 4}, {12, 4}, {16, 3}, {17, 3}, {20, 3}, {33, 3}, {64, 2}, {65, 2}, {101, 2}, {129, 2}, {257, 2}}
	if tier == "thorough" {
		for i := range out {
			out[i][1]++
		}
	}
	return out
}
