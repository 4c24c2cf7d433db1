package check

import (
	"fmt"
	"strings"
	"time"

	"verif/boltsrv"
	"verif/gen/bolt/bolt_mode"
	"verif/mc"
	"verif/rt"
	"verif/v/rand"
)

const (
	// some are prefixes of others
	hA, hB, hC, hD = addr1, addr1 + "1", "h3:7687", "h3:76879"
	refreshEvery   = 2 * time.Minute
)

// overviews that a history may contain; the first is in force at the start.
var clusters = []struct {
	name string
	ms   []member
}{
	{"A leads B C", []member{{addr: hA, role: "LEADER"}, {addr: hB, role: "FOLLOWER"}, {addr: hC, role: "READ_REPLICA"}}},
	{"B leads A C", []member{{addr: hC, role: "FOLLOWER"}, {addr: hA, role: "follower"}, {addr: hB, role: "leader"}}},
	{"A leads D, B C are gone", []member{{addr: hA, role: "Leader"}, {addr: hD, role: "Read_Replica"}}},
	{"C leads B, A is gone", []member{{addr: hB, role: "FOLLOWER"}, {addr: hC, role: "LEADER"}}},
	{"A leads, B replica, D new", []member{{addr: hD, role: "FOLLOWER"}, {addr: hA, role: "LEADER"}, {addr: hB, role: "READ_REPLICA"}}},
	{"no readers", []member{{addr: hA, role: "LEADER"}}},
	{"no leader", []member{{addr: hA, role: "FOLLOWER"}, {addr: hB, role: "FOLLOWER"}, {addr: hC, role: "READ_REPLICA"}}},
	{"two leaders", []member{{addr: hA, role: "LEADER"}, {addr: hD, role: "LEADER"}, {addr: hC, role: "FOLLOWER"}}},
	{"B has no bolt address", []member{{addr: hB, role: "LEADER", url: "http://h1:7474", more: []interface{}{"https://h1:7473"}}, {addr: hA, role: "LEADER"}, {addr: hC, role: "FOLLOWER", url: "https://h3:7473", more: []interface{}{"bolt://h3:7687", "http://h3:7474"}}}},
}

// usable are the members of an overview that can be reached by bolt.
func usable(ms []member) []member {
	var out []member
	for _, m := range ms {
		for _, a := range m.addresses() {
			if a == "bolt://"+m.addr {
				out = append(out, m)
				break
			}
		}
	}
	return out
}

// garbles spoil a row of an overview so that it does not tell a role or an address.
var garbles = []struct {
	name string
	f    func(ver int, row []interface{}) []interface{}
}{
	{"an empty row", func(int, []interface{}) []interface{} { return anys() }},
	{"a row of one column", func(_ int, r []interface{}) []interface{} { return r[:1] }},
	{"a row of two columns", func(_ int, r []interface{}) []interface{} { return r[:2] }},
	{"no addresses", func(_ int, r []interface{}) []interface{} { return with(r, 1, nil) }},
	{"a string as addresses", func(_ int, r []interface{}) []interface{} { return with(r, 1, "bolt://h2:7687") }},
	{"an integer as address", func(_ int, r []interface{}) []interface{} { return with(r, 1, anys(int64(7687))) }},
	{"a map as addresses", func(_ int, r []interface{}) []interface{} {
		return with(r, 1, map[string]interface{}{"bolt": "bolt://h2:7687"})
	}},
	{"no role", func(_ int, r []interface{}) []interface{} { return with(r, 2, nil) }},
	{"an integer as role", func(v int, r []interface{}) []interface{} { return with(r, 2, roleOf(v, int64(1))) }},
	{"a list as role", func(v int, r []interface{}) []interface{} { return with(r, 2, roleOf(v, anys("LEADER"))) }},
	{"an integer instead of the role or the databases", func(_ int, r []interface{}) []interface{} { return with(r, 2, int64(3)) }},
	{"no role for the system database", func(v int, r []interface{}) []interface{} {
		if v >= 4 {
			return with(r, 2, map[string]interface{}{"neo4j": "LEADER", "systems": "LEADER"})
		}
		return with(r, 2, map[string]interface{}{"system": "LEADER"})
	}},
	{"no databases", func(_ int, r []interface{}) []interface{} { return with(r, 2, map[string]interface{}{}) }},
	{"an unknown role", func(v int, r []interface{}) []interface{} { return with(r, 2, roleOf(v, "ARBITER")) }},
	{"an empty role", func(v int, r []interface{}) []interface{} { return with(r, 2, roleOf(v, "")) }},
}

func roleOf(ver int, role interface{}) interface{} {
	if ver >= 4 {
		return map[string]interface{}{"system": role, "neo4j": "LEADER"}
	}
	return role
}

func with(row []interface{}, i int, v interface{}) []interface{} {
	out := append([]interface{}(nil), row...)
	out[i] = v
	return out
}

// tick lets time pass until the pool has asked for the roles, if somebody answers.
func (p *poolRun) tick() {
	var asked, n int
	state := func() int {
		rt.Do(func() { n = p.cl.asked })
		return n
	}
	asked = state()
	rt.Sleep(refreshEvery + 2*poolT)
	if p.outage(hA) != "" || p.hits > 0 {
		return
	}
	if state() == asked {
		rt.Sleep(5 * refreshEvery)
		if state() == asked && p.hits == 0 {
			p.fails("C40", "no-refresh", "the roles were not asked for in %v", 6*refreshEvery)
		}
	}
}

// change changes the roles and lets the pool learn them.
func (p *poolRun) change(k int) {
	rt.Do(func() {
		p.cl.members = clusters[k].ms
		p.next = nil
	})
	p.tick()
}

// garble lets the pool receive an overview that it can not understand.
func (p *poolRun) garble(k int) {
	rt.Do(func() {
		at := p.x.Choose(3, "row")
		g := p.x.Choose(len(garbles), "what is wrong")
		rows := overview(p.ver, clusters[k].ms)
		if at >= len(rows) {
			at = len(rows) - 1
		}
		rows[at] = garbles[g].f(p.ver, rows[at])
		rt.Tracef("%s in row %d", garbles[g].name, at)
		p.log = append(p.log, garbles[g].name)
		p.next = func(int) [][]interface{} { return rows }
	})
	p.tick()
	rt.Do(func() { p.next = nil })
}

// faultyTick lets a refresh fail at any request.
func (p *poolRun) faultyTick(k int) {
	rt.Do(func() {
		p.cl.members = clusters[k].ms
		n := len(p.net.Conns)
		p.only = func(s *boltsrv.Session) bool { return s.C.ID >= n }
		p.faulty, p.hits, p.broke = true, 0, false
	})
	p.tick()
	rt.Do(func() { p.faulty, p.hits, p.broke, p.only = false, 0, false, nil })
}

// routedOps are the operations of a history on a routed pool:
// w r: borrow; 0-8: roles change; m: malformed overview; f: refresh with faults; t: time passes;
// i: an idle connection dies; d: a server fails; o: all servers fail; upper case and the others: see loanOps
func (p *poolRun) routedOps(alphabet, loanAl string, faults bool) []poolOp {
	var ops []poolOp
	for _, c := range alphabet {
		c := c
		switch c {
		case 'w':
			ops = append(ops, poolOp{"borrow to write", func() { p.mustBorrow("C40 C43", bolt_mode.WriteMode) }})
		case 'r':
			ops = append(ops, poolOp{"borrow to read", func() { p.mustBorrow("C40 C43", bolt_mode.ReadMode) }})
		case '0', '1', '2', '3', '4', '5', '6', '7', '8':
			k := int(c - '0')
			ops = append(ops, poolOp{"refresh: " + clusters[k].name, func() { p.change(k) }})
		case 'm':
			if p.garbled > 0 {
				continue // one is enough
			}
			ops = append(ops, poolOp{"malformed refresh", func() { p.garble(1) }})
		case 'e':
			ops = append(ops, poolOp{"empty refresh", func() {
				rt.Do(func() { p.next = func(int) [][]interface{} { return nil } })
				p.tick()
				rt.Do(func() { p.next = nil })
			}})
		case 'f':
			ops = append(ops, poolOp{"refresh with a fault: " + clusters[1].name, func() { p.faultyTick(1) }})
		case 't':
			ops = append(ops, poolOp{"time passes", p.tick})
		case 'H':
			ops = append(ops, poolOp{"hours pass", func() { rt.Sleep(3 * time.Hour); p.tick() }})
		case 'Y':
			ops = append(ops, poolOp{"weeks pass", func() { rt.Sleep(300 * time.Hour); p.tick() }})
		case 'i':
			for i, c := range p.idle() {
				c := c
				ops = append(ops, poolOp{fmt.Sprintf("idle connection %d dies", i), func() { p.kill(c, boltsrv.FIN) }})
			}
		case 'z':
			for i, c := range p.idle() {
				c := c
				ops = append(ops, poolOp{fmt.Sprintf("idle connection %d gets an unasked message", i), func() { p.blurt(c) }})
			}
		case 'd':
			for _, a := range []string{hA, hB} {
				a := a
				if p.down[a] != "" {
					ops = append(ops, poolOp{a + " is back", func() { rt.Do(func() { delete(p.down, a) }) }})
					continue
				}
				for _, how := range []string{"refuse", "blackhole"} {
					how := how
					ops = append(ops, poolOp{a + " fails: " + how, func() { p.crash(a, how) }})
				}
			}
		case 'o':
			if p.out == "" {
				ops = append(ops, poolOp{"outage", func() { rt.Do(func() { p.out = "refuse" }) }})
			} else {
				ops = append(ops, poolOp{"end of the outage", func() { rt.Do(func() { p.out = "" }) }})
			}
		}
	}
	for i, l := range p.lent {
		ops = append(ops, p.loanOps(l, i, faults, loanAl)...)
	}
	return ops
}

// crash ends all sessions of a server and makes it unreachable.
func (p *poolRun) crash(a, how string) {
	rt.Do(func() {
		p.down[a] = how
		then := boltsrv.RST
		if how == "blackhole" {
			then = boltsrv.Silence
		}
		for _, c := range p.net.Open() {
			if s, ok := c.User.(*boltsrv.Session); ok && c.Addr == a && !s.Dead() {
				s.Kill(then)
			}
		}
	})
}

func newRouted(x *mc.X, props string, ver, size int) *poolRun {
	p := newPoolRun(x, props, ver, size, true, clusters[0].ms...)
	p.hook(p.cl.listen(hD, usr, pwd))
	p.net.OnDial = func(a string) {
		if a == addr1 {
			return // to ask for the roles
		}
		for _, m := range usable(p.known) {
			if m.addr == a {
				return
			}
		}
		if p.fetched > 0 {
			p.fails("C40", "wrong-server", "a connection to %s is made, which the overview does not name", a)
		}
	}
	return p
}

// routedHistory enumerates histories of one user of a routed pool.
func routedHistory(id, props string, ver, size, depth, faults int, alphabet, loanAl string) mc.Scenario {
	return mc.Scenario{ID: id, Fault: faults, Horizon: 10000 * time.Hour, Steps: 40000000, Body: func(x *mc.X) {
		p := newRouted(x, props, ver, size)
		if err := p.make(); err != nil {
			p.fails(props, "pool", "the pool can not be made: %s", short(err))
			return
		}
		for i := 0; i < depth; i++ {
			ops := p.routedOps(alphabet, loanAl, faults > 0)
			k := x.Choose(len(ops)+1, "op")
			if k == 0 {
				break
			}
			op := ops[k-1]
			p.note("%s", op.name)
			op.do()
			p.sockets()
		}
		p.recover()
		p.note("recovery")
		p.change(0)
		p.finish("C43", bolt_mode.WriteMode, bolt_mode.ReadMode)
		x.Class("%d sockets were opened, %d sessions failed, %d overviews", len(p.net.Dials), len(p.dead), p.fetched)
	}}
}

// routedAgain enumerates the histories of one user of a routed pool that repeat a word.
func routedAgain(id, props string, ver, size, length, n int, alphabet, loanAl string) mc.Scenario {
	return mc.Scenario{ID: id, Horizon: 100000 * time.Hour, Steps: 40000000, Body: func(x *mc.X) {
		p := newRouted(x, props, ver, size)
		if err := p.make(); err != nil {
			p.fails(props, "pool", "the pool can not be made: %s", short(err))
			return
		}
		p.again(length, n, func() []poolOp { return p.routedOps(alphabet, loanAl, false) })
		p.recover()
		p.change(0)
		p.finish("C43", bolt_mode.WriteMode, bolt_mode.ReadMode)
		x.Class("%d sockets were opened, %d sessions failed, %d overviews", len(p.net.Dials), len(p.dead), p.fetched)
	}}
}

// unlucky is a scenario in which random numbers hardly vary.
func unlucky(s mc.Scenario) mc.Scenario {
	s.ID += "/unlucky"
	body := s.Body
	s.Body = func(x *mc.X) {
		rt.Do(rand.Unlucky)
		body(x)
	}
	return s
}

// rotationScenario: a server that joins a role is used for further connections.
func rotationScenario(id string, ver int) mc.Scenario {
	return mc.Scenario{ID: id, Horizon: 1000 * time.Hour, Body: func(x *mc.X) {
		p := newRouted(x, "C40", ver, 4)
		if err := p.make(); err != nil {
			p.fails("C40", "pool", "the pool can not be made: %s", short(err))
			return
		}
		k := []int{4, 7, 1}[x.Choose(3, "overview")]
		p.change(k)
		for _, m := range []bolt_mode.AccessMode{bolt_mode.WriteMode, bolt_mode.ReadMode} {
			used := map[string]bool{}
			for i := 0; i < 8; i++ {
				l, err := p.borrow(m)
				if err != nil {
					p.fails("C40", "borrow-fails", "a %s borrow fails: %s", modeName(m), short(err))
				}
				rt.Do(func() { used[l.c.Addr] = true })
				p.kill(l.c, boltsrv.FIN)
				p.probe(l)
				p.giveBack(l)
			}
			for _, s := range clusters[k].ms {
				if serves(clusters[k].ms, s.addr, m) && !used[s.addr] {
					p.fails("C40", "unused-server", "of 8 %s connections none goes to %s", modeName(m), s.addr)
				}
			}
		}
		x.Class("all servers of the role are used")
	}}
}

func c40(tier string) []mc.Scenario {
	var out []mc.Scenario
	d := 0
	if tier == "thorough" {
		d = 1
	}
	for ver := 1; ver <= 4; ver++ {
		dv := d
		if ver == 2 || ver == 1 {
			dv--
		}
		out = append(out, rotationScenario(fmt.Sprintf("v%d/rotation", ver), ver))
		for size := 2; size <= 4; size++ {
			ds := dv
			if size > 2 {
				ds--
			}
			out = append(out,
				routedHistory(fmt.Sprintf("v%d/size%d/roles/depth%d", ver, size, 4+ds), "C40", ver, size, 4+ds, 0, "wr012345678", "r"),
				routedHistory(fmt.Sprintf("v%d/size%d/failing refreshes/depth%d", ver, size, 4+ds), "C40", ver, size, 4+ds, 1, "wrf13", "r"),
				routedHistory(fmt.Sprintf("v%d/size%d/malformed/depth%d", ver, size, 4+ds), "C40", ver, size, 4+ds, 0, "wrm13", "r"))
		}
		out = append(out, routedHistory(fmt.Sprintf("v%d/size2/long/depth%d", ver, 6+dv), "C40", ver, 2, 6+dv, 0, "wr13", "r"),
			routedAgain(fmt.Sprintf("v%d/size2/again/length%d", ver, 3+d), "C40", ver, 2, 3+d, 70, "wr134", "r"),
			routedHistory(fmt.Sprintf("v%d/size2/outages/depth%d", ver, 4+dv), "C40", ver, 2, 4+dv, 0, "wrd13", "r"))
	}
	out = append(out, routedHistory(fmt.Sprintf("v4/size2/hours/depth%d", 4+d), "C40", 4, 2, 4+d, 0, "wrH13", "r"),
		routedHistory("v4/size2/weeks/depth2", "C40", 4, 2, 2, 0, "Y13", ""),
		routedHistory("v3/size2/weeks/depth2", "C40", 3, 2, 2, 0, "Y1", ""))
	for _, n := range []int{5, 7, 9, 12, 17, 33} {
		out = append(out, crowdScenario(fmt.Sprintf("v4/%d servers", n), 4, n))
		out = append(out, bulkHistory(fmt.Sprintf("v4/%d servers/all at once/depth3", n), "C40", 4, 7, n, 3))
	}
	return out
}

func c43(tier string) []mc.Scenario {
	var out []mc.Scenario
	d := 0
	if tier == "thorough" {
		d = 1
	}
	for ver := 1; ver <= 4; ver++ {
		dv := d
		if ver == 2 || ver == 1 {
			dv--
		}
		for size := 2; size <= 4; size++ {
			ds := dv
			if size > 2 {
				ds--
			}
			out = append(out,
				routedHistory(fmt.Sprintf("v%d/size%d/loans/depth%d", ver, size, 5+ds), "C43", ver, size, 5+ds, 0, "wriz", "rxqfbBkKS"),
				routedHistory(fmt.Sprintf("v%d/size%d/return faults/depth%d", ver, size, 5+ds), "C43", ver, size, 5+ds, 1, "wr", "rbBf"),
				routedHistory(fmt.Sprintf("v%d/size%d/outages/depth%d", ver, size, 4+ds), "C43", ver, size, 4+ds, 0, "wridot", "rk"),
				unlucky(routedHistory(fmt.Sprintf("v%d/size%d/loans/depth%d", ver, size, 4+ds), "C43", ver, size, 4+ds, 0, "wri", "r")),
				routedHistory(fmt.Sprintf("v%d/size%d/refreshes/depth%d", ver, size, 4+ds), "C43", ver, size, 4+ds, 1, "wrif13", "rbk"))
		}
	}
	out = append(out, routedHistory(fmt.Sprintf("v4/size2/hours/depth%d", 4+d), "C43", 4, 2, 4+d, 0, "wrH", "rbk"),
		routedHistory("v4/size2/weeks/depth2", "C43", 4, 2, 2, 0, "wY", ""))
	for size := 2; size <= 3; size++ {
		out = append(out, restartHistory(fmt.Sprintf("v4/size%d/restart/depth%d", size, 5+d), "C43", 4, size, 5+d, false, "rb"),
			restartHistory(fmt.Sprintf("v3/size%d/restart with outages/depth%d", size, 4+d), "C43", 3, size, 4+d, true, "rk"))
	}
	out = append(out, routedAgain(fmt.Sprintf("v4/size2/again/length%d", 3+d), "C43", 4, 2, 3+d, 130, "writ", "rxqfbBkz"))
	for _, s := range bulkSizes(tier) {
		n := 3
		if s[0] > 8 {
			n = 7
		}
		out = append(out, bulkHistory(fmt.Sprintf("v4/size%d/all at once/depth%d", s[0], s[1]-1), "C43", 4, s[0], n, s[1]-1))
	}
	// several goroutines at a time
	for _, mix := range []string{"wU wU", "rU rU", "wK wU", "wT wU", "wC rUrU", "wUwU rU", "twU rU", "wU wU rU"} {
		p := budget(2+d, mix)
		out = append(out, routedConc(fmt.Sprintf("v4/size2/%s/preempt%d", strings.ReplaceAll(mix, " ", "+"), p), "C43", 4, 2, mix, p, false))
		if len(strings.Fields(mix)) == 2 {
			out = append(out, routedConc(fmt.Sprintf("v4/size4/%s/preempt%d", strings.ReplaceAll(mix, " ", "+"), p-1), "C43", 4, 4, mix, p-1, false))
		}
	}
	return out
}

func init() {
	register(&mc.Check{Property: "C40", Scenarios: c40,
		Bounds:      "a model cluster of four servers, row formats of all four versions, pool sizes 2 to 4: all histories of 4 (versions 1 and 2 and sizes above 2: 3; thorough: one more) operations from borrowing to read or write, returning and a refresh with one of nine overviews (leader moved, servers added, removed, in other roles, no reader, no leader, two leaders, several or no bolt addresses); of as many operations among which are a refresh with one of five faults at any of its requests, one overview that is spoilt in one of 14 ways in any of its rows, or servers that fail and come back; size 2 with 6 (7) operations from a smaller set; of 4 (5) with pauses of 90 refreshes and of 2 with pauses of 9000; all words of up to 3 (4) of them repeated 70 times; eight new connections per role after servers joined; clusters of 5 to 33 servers: two new connections per server after any of them became the leader, and all histories of 3 operations on all 7 connections at once with changing roles",
		Assumptions: []string{"an overview with a row that gives no role or no list of addresses can not be understood", "among several bolt addresses of a server any is right, the cluster has one each", "one goroutine uses the pool (C41 covers concurrency)"}})
	register(&mc.Check{Property: "C43", Scenarios: c43,
		Bounds:      "a model cluster of four servers, four versions, pool sizes 2 to 4: all histories of 4-5 (versions 1 and 2 and sizes above 2: one less; thorough: one more) operations from borrowing to read or write, using, failing, leaving a transaction open, returning, closing and returning, sessions of lent and idle connections ended by the server (FIN, RST, silence), unasked messages on idle ones, single servers and the whole cluster failing (refusing, blackhole) and coming back, refreshes with other roles and with faults at any request, one of five faults at any request made while a connection is returned, all words of up to 3 (4) operations repeated 130 times; all histories of 4 (5) operations with pauses of 90 refreshes, of 2 with 9000; all histories of 5 (6) operations among which are stopping and starting again, of 4 (5) also with outages; random numbers of which only each eighth differs; 16 sizes from 3 to 257 in clusters of 3 and 7: all histories of 1 to 4 (5) operations on all connections at once; eight mixes of two or three goroutines that borrow, use, break and return (one beside a refresh), all interleavings with at most 2 preemptions, one less for three goroutines or size 4 (thorough: one more); every history ends with recovery, borrowing the full number for both roles at once and using it, and stopping",
		Assumptions: []string{"the concurrent programs are fewer than those of C41", "a borrower returns each connection once, and only what it borrowed"}})
}
