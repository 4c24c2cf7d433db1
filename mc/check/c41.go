package check

import (
	"fmt"
	"strings"
	"time"

	"verif/boltsrv"
	"verif/gen/bolt/bolt_mode"
	"verif/mc"
	"verif/rt"
	"verif/vnet"
)

var bothModes = []bolt_mode.AccessMode{bolt_mode.WriteMode, bolt_mode.ReadMode}

// routedConc explores the schedules of goroutines that use a routed pool.
func routedConc(id, props string, ver, size int, mix string, preempt int, race bool) mc.Scenario {
	progs := strings.Fields(mix)
	return mc.Scenario{ID: id, Preempt: preempt, Race: race, IOYield: true, Horizon: 100 * time.Hour, Body: func(x *mc.X) {
		c := &poolConc{poolRun: newRouted(x, props, ver, size)}
		c.conc = true
		c.net.OnDial = func(a string) {
			if c.closed && a != addr1 {
				c.fails("C42", "dial-after-stop", "the stopped pool connects to %s", a)
			}
		}
		if strings.Count(mix, "X") > 1 {
			c.props["closes twice"] = true
		}
		if err := c.make(); err != nil {
			c.fails(props, "pool", "the pool can not be made: %s", short(err))
			return
		}
		for _, prog := range progs {
			prog := prog
			x.Go(prog, func() { c.worker(prog) })
		}
		x.Join()
		c.sockets()
		if !c.closing {
			c.change(0)
		}
		c.over("C41", bothModes...)
		if c.closing {
			c.quiet()
		}
	}}
}

// startScenario lets making a routed pool fail at any step.
func startScenario(id string, ver, size, faults int, props string) mc.Scenario {
	return mc.Scenario{ID: id, Fault: faults, Horizon: 1000 * time.Hour, Body: func(x *mc.X) {
		p := newRouted(x, props, ver, size)
		switch k := x.Choose(6, "cluster"); k {
		case 0:
		case 1, 2:
			p.cl.members = clusters[4+k].ms // no reader, no leader
		case 3:
			rows := overview(ver, clusters[0].ms)
			at := x.Choose(len(rows), "row")
			rows[at] = garbles[x.Choose(len(garbles), "what is wrong")].f(ver, rows[at])
			p.next = func(int) [][]interface{} { return rows }
		case 4:
			p.next = func(int) [][]interface{} { return nil }
		case 5:
			p.down[[]string{hA, hB, hC}[x.Choose(3, "server")]] = outages[x.Choose(len(outages), "outage")]
		}
		p.faulty = true
		p.only = func(*boltsrv.Session) bool { return true }
		for _, s := range p.cl.servers {
			s := s
			old := s.Dial
			s.Dial = func() vnet.Outcome {
				if o := old(); o != vnet.Accept || !p.faulty {
					return o
				}
				return []vnet.Outcome{vnet.Accept, vnet.Refuse, vnet.Blackhole}[x.Fault(3, "dial")]
			}
			shake := s.Handshake
			s.Handshake = func(s *boltsrv.Session, offers [4]uint32) []boltsrv.Piece {
				if p.faulty {
					switch x.Fault(3, "handshake") {
					case 1:
						return []boltsrv.Piece{{Then: boltsrv.FIN}}
					case 2:
						return []boltsrv.Piece{{Then: boltsrv.Silence}}
					}
				}
				return shake(s, offers)
			}
		}
		err := p.make()
		p.faulty, p.hits, p.broke, p.only, p.next = false, 0, false, nil, nil
		p.recover()
		if err != nil {
			rt.Do(func() {
				if n := p.net.OpenCount(); n != 0 {
					p.fails("C42 C33", "failed-start", "%d sockets are open after the pool could not be started: %s", n, short(err))
				}
			})
			p.quiet()
			x.Class("not started")
			return
		}
		x.Class("started")
		for _, m := range bothModes {
			p.mustBorrow("C42", m)
		}
		for len(p.lent) > 0 {
			p.giveBack(p.lent[0])
		}
		p.change(0)
		p.finish("C42", bothModes...)
	}}
}

// stopHistory stops a routed pool after every history.
func stopHistory(id string, ver, size, depth, faults int, alphabet, loanAl, props string) mc.Scenario {
	return mc.Scenario{ID: id, Fault: faults, Horizon: 1000 * time.Hour, Body: func(x *mc.X) {
		p := newRouted(x, props, ver, size)
		if err := p.make(); err != nil {
			p.fails("C42", "pool", "the pool can not be made: %s", short(err))
			return
		}
		for i := 0; i < depth; i++ {
			ops := p.routedOps(alphabet, loanAl, faults > 0)
			k := x.Choose(len(ops)+1, "op")
			if k == 0 {
				break
			}
			op := ops[k-1]
			p.note("%s", op.name)
			op.do()
		}
		if x.Bool("wait") {
			// just before, at and after the next refresh
			rt.Sleep([]time.Duration{refreshEvery - time.Second, refreshEvery, refreshEvery + time.Second}[x.Choose(3, "moment")])
		}
		if faults > 0 {
			// requests made when the pool is stopped and connections are returned may be hit
			rt.Do(func() { p.faulty = true })
		}
		n := 0
		rt.Do(func() { n = len(p.lent) })
		p.shut()
		x.Class("stopped with %d connections lent", n)
	}}
}

// budget is the number of preemptions for a mix: one less for each goroutine beyond two, the one
// that refreshes included if others run at the same time.
func budget(pre int, mix string) int {
	n := len(strings.Fields(mix))
	if strings.Contains(mix, "tX") || strings.Contains(mix, "tw") || strings.Contains(mix, "tr") {
		n++
	}
	for ; n > 2 && pre > 0; n-- {
		pre--
	}
	return pre
}

func c41(tier string) []mc.Scenario {
	var out []mc.Scenario
	pre := 2
	if tier == "thorough" {
		pre = 3
	}
	mixes := []string{"wU wU", "wU rU", "rUwU wUrU", "wK wU", "wT rU", "wC rU", "wUU X", "wU twU", "twU trU", "twK twU", "1twU trU", "1wLwU wU", "tX twU", "tX wU", "wU rU wU", "1twU twU trU", "tX wLwU"}
	for _, size := range []int{2, 4} {
		for _, ver := range []int{1, 4} {
			if size == 4 && ver == 1 {
				continue
			}
			for _, mix := range mixes {
				p := budget(pre, mix)
				name := strings.ReplaceAll(mix, " ", "+")
				out = append(out, routedConc(fmt.Sprintf("v%d/size%d/%s/preempt%d", ver, size, name, p), "C41", ver, size, mix, p, false))
				if ver == 4 && size == 2 {
					out = append(out, routedConc(fmt.Sprintf("race/v%d/size%d/%s/preempt%d", ver, size, name, max(p-1, 0)), "C41", ver, size, mix, max(p-1, 0), true))
				}
			}
		}
	}
	for _, mix := range []string{"wU wU rU rU", "wU wK rU rK", "wT rUwU wU rU", "tX wU rU"} {
		for _, size := range []int{2, 4} {
			if size == 4 && mix[0] != 't' {
				continue
			}
			out = append(out, routedConc(fmt.Sprintf("v4/many/size%d/%s/preempt%d", size, strings.ReplaceAll(mix, " ", "+"), pre-2), "C41", 4, size, mix, pre-2, false))
		}
	}
	for _, mix := range []string{"wU wU", "rU rU", "wU rUrU"} {
		out = append(out, unlucky(routedConc(fmt.Sprintf("v4/size4/%s/preempt%d", strings.ReplaceAll(mix, " ", "+"), pre), "C41", 4, 4, mix, pre, false)))
	}
	return out
}

func c42(tier string) []mc.Scenario {
	var out []mc.Scenario
	pre, d := 2, 0
	if tier == "thorough" {
		pre, d = 3, 1
	}
	for ver := 1; ver <= 4; ver++ {
		for size := 2; size <= 3; size++ {
			out = append(out, startScenario(fmt.Sprintf("v%d/size%d/start/faults%d", ver, size, 1+d), ver, size, 1+d, "C42"),
				stopHistory(fmt.Sprintf("v%d/size%d/stop/depth%d", ver, size, 4+d), ver, size, 4+d, 0, "wri1td", "rxbk", "C42"),
				restartHistory(fmt.Sprintf("v%d/size%d/restart/depth%d", ver, size, (15+ver)/4+d), "C42", ver, size, (15+ver)/4+d, false, "rbk"),
				restartHistory(fmt.Sprintf("v%d/size%d/restart with outages/depth%d", ver, size, (13+ver)/4+d), "C42", ver, size, (13+ver)/4+d, true, "rk"),
				stopHistory(fmt.Sprintf("v%d/size%d/stop with faults/depth%d", ver, size, 4+d), ver, size, 4+d, 1, "wr", "rbf", "C42"))
		}
	}
	for _, b := range bulkSizes(tier) {
		out = append(out, bulkHistory(fmt.Sprintf("v4/size%d/all at once/depth%d", b[0], max(b[1]-2, 1)), "C42", 4, b[0], 7, max(b[1]-2, 1)))
	}
	for _, ver := range []int{1, 4} {
		for _, mix := range []string{"X", "tX", "hX", "X wU", "X rUwU", "X wK", "X wT", "tX wLwU", "tX twU", "1tX twU", "1tX tU", "X X", "tX tX", "hX wLrU", "X wU rU", "tX twU trU", "X wLwU"} {
			p := budget(pre, mix)
			out = append(out, routedConc(fmt.Sprintf("v%d/%s/preempt%d", ver, strings.ReplaceAll(mix, " ", "+"), p), "C42", ver, 2, mix, p, false))
			if ver == 4 {
				out = append(out, routedConc(fmt.Sprintf("race/v%d/%s/preempt%d", ver, strings.ReplaceAll(mix, " ", "+"), max(p-1, 0)), "C42", ver, 2, mix, max(p-1, 0), true))
			}
		}
	}
	for _, mix := range []string{"S S", "S X", "X X", "SX SX", "XS XS", "XS w", "tX S", "tXS w"} {
		p := pre - 1
		name := strings.ReplaceAll(mix, " ", "+")
		out = append(out, restartConc(fmt.Sprintf("v4/restart/%s/preempt%d", name, p), "C42", 4, mix, p, false),
			restartConc(fmt.Sprintf("race/v4/restart/%s/preempt%d", name, max(p-1, 0)), "C42", 4, mix, max(p-1, 0), true))
	}
	return out
}

func init() {
	register(&mc.Check{Property: "C41", Scenarios: c41,
		Bounds:      "a model cluster, versions 1 and 4, pool sizes 2 and 4, 17 mixes of two or three goroutines that borrow to read or write, use, break, leave in a transaction, close, hold for an hour and return connections, start at the moment of a refresh that keeps or moves the roles, and stop the pool: all interleavings at synchronisation and socket operations with at most 2 preemptions, one less for each goroutine beyond two including the one that refreshes (thorough: one more), some of them with random numbers of which only each eighth differs; 4 mixes of three (besides a refresh) and four goroutines without (thorough: with one) preemption; the mixes under the race detector with one preemption less; afterwards the full number is borrowed",
		Assumptions: []string{"a borrower returns each connection once, and only what it borrowed", "a borrow may fail if at some moment from its begin to its end as many others had begun and not returned as can be lent"}})
	register(&mc.Check{Property: "C42", Scenarios: c42,
		Bounds:      "a model cluster, four versions, pool sizes 2 and 3: making the pool with six kinds of clusters and overviews (14 ways to spoil a row) and one fault (thorough: two) at any dial, handshake or request; all histories of 4 (5) operations (borrowing, returning, transactions left open, dead connections, refreshes, failing servers) after which the pool is stopped at once or around the next refresh, and connections are returned; the same with one of five faults at any request from then on; all histories of 4 (versions 1 to 3 with outages: 3-4; thorough: one more) operations among which are stopping, starting again and outages; 16 sizes from 3 to 257 in a cluster of 7: all histories of 1 to 3 (4) operations on all connections at once; 17 mixes of goroutines that stop the pool, borrow and return around a refresh and 8 that also start it again: all interleavings with at most 2 preemptions, one less for each goroutine beyond two (thorough: one more); version 4 of them under the race detector with one preemption less",
		Assumptions: []string{"a refresh that is in progress when the pool is stopped may still connect to the configured server"}})
}
