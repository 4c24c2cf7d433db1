package check

import (
	"fmt"
	"strings"
	"time"

	"verif/gen/bolt/bolt_mode"
	"verif/mc"
	"verif/rt"

	"verif/boltsrv"
)

// poolHistory enumerates histories of one user of the plain pool.
func poolHistory(id, props string, ver, size, depth, faults int, which string, outs []string) mc.Scenario {
	return mc.Scenario{ID: id, Fault: faults, Horizon: 100000 * time.Hour, Body: func(x *mc.X) {
		p := newPoolRun(x, props, ver, size, false)
		if err := p.make(); err != nil {
			p.fails(props, "pool", "the pool can not be made: %s", short(err))
			return
		}
		for i := 0; i < depth; i++ {
			ops := p.plainOps(faults > 0, which, outs)
			k := x.Choose(len(ops)+1, "op")
			if k == 0 {
				break
			}
			op := ops[k-1]
			p.note("%s", op.name)
			op.do()
			p.sockets()
		}
		p.recover()
		p.finish("C31", bolt_mode.WriteMode)
		x.Class("%d sockets were opened, %d sessions failed", len(p.net.Dials), len(p.dead))
	}}
}

// again repeats a word of operations n times.
func (p *poolRun) again(length, n int, ops func() []poolOp) {
	var word []string
	for i := 0; i < n; i++ {
		for j := 0; j < length && (i == 0 || j < len(word)); j++ {
			all := ops()
			if i == 0 {
				k := p.x.Choose(len(all)+1, "op")
				if k == 0 {
					break
				}
				word = append(word, all[k-1].name)
			}
			for _, op := range all {
				if op.name == word[j] {
					if i < 2 || i == n-1 {
						p.note("%s", op.name)
					}
					op.do()
					p.sockets()
					break
				}
			}
		}
	}
}

// poolAgain enumerates the histories of one user of the plain pool that repeat a word.
func poolAgain(id, props string, ver, size, length, n int, which string, outs []string) mc.Scenario {
	return mc.Scenario{ID: id, Horizon: 100000 * time.Hour, Steps: 40000000, Body: func(x *mc.X) {
		p := newPoolRun(x, props, ver, size, false)
		if err := p.make(); err != nil {
			p.fails(props, "pool", "the pool can not be made: %s", short(err))
			return
		}
		p.again(length, n, func() []poolOp { return p.plainOps(false, which, outs) })
		p.recover()
		p.finish("C31", bolt_mode.WriteMode)
		x.Class("%d sockets were opened, %d sessions failed", len(p.net.Dials), len(p.dead))
	}}
}

func (p *poolRun) plainOps(faults bool, which string, outs []string) []poolOp {
	var ops []poolOp
	if len(p.lent) < p.size {
		ops = append(ops, poolOp{"borrow", func() { p.mustBorrow("C31", bolt_mode.WriteMode) }})
	}
	for i, l := range p.lent {
		ops = append(ops, p.loanOps(l, i, faults, which)...)
	}
	if strings.Contains(which, "H") {
		for _, d := range []time.Duration{31 * time.Minute, 1000 * time.Hour} {
			d := d
			ops = append(ops, poolOp{fmt.Sprintf("%v pass", d), func() { rt.Sleep(d) }})
		}
	}
	for i, c := range p.idle() {
		i, c := i, c
		ops = append(ops, poolOp{fmt.Sprintf("idle connection %d dies", i), func() { p.kill(c, boltsrv.FIN) }})
		if strings.Contains(which, "z") {
			ops = append(ops, poolOp{fmt.Sprintf("idle connection %d gets an unasked message", i), func() { p.blurt(c) }})
		}
		if which != "" && i == 0 {
			ops = append(ops, poolOp{fmt.Sprintf("idle connection %d dies (RST)", i), func() { p.kill(c, boltsrv.RST) }})
		}
	}
	if p.out == "" {
		for _, o := range outs {
			o := o
			ops = append(ops, poolOp{"outage: " + o, func() { rt.Do(func() { p.out = o }) }})
		}
	} else {
		ops = append(ops, poolOp{"recovery", p.recover})
	}
	return ops
}

// mustBorrow borrows where nothing but an outage may be in the way.
func (p *poolRun) mustBorrow(props string, m bolt_mode.AccessMode) {
	full := p.lentIn(m) >= p.caps(m)
	_, err := p.borrow(m)
	if err != nil && !full && p.reachable(m) {
		p.fails(props, "borrow-fails", "a borrow with %d of %d lent fails: %s", p.lentIn(m), p.caps(m), short(err))
	}
}

func c31(tier string) []mc.Scenario {
	var out []mc.Scenario
	d, f := 0, 1
	if tier == "thorough" {
		d, f = 1, 2
	}
	for ver := 1; ver <= 4; ver++ {
		for size := 1; size <= 2; size++ {
			all := 6 - size + d
			out = append(out,
				poolHistory(fmt.Sprintf("v%d/size%d/all/depth%d", ver, size, all), "C31", ver, size, all, 0, "rxqfbBkKSz", outages),
				poolHistory(fmt.Sprintf("v%d/size%d/deep/depth%d", ver, size, 7-size+2*d), "C31", ver, size, 7-size+2*d, 0, "rbfkz", []string{"refuse"}),
				poolHistory(fmt.Sprintf("v%d/size%d/faults/depth%d", ver, size, 5+d), "C31", ver, size, 5+d, f, "rbBf", nil),
				poolHistory(fmt.Sprintf("v%d/size%d/hours/depth%d", ver, size, 5+d), "C31", ver, size, 5+d, 0, "rbH", nil))
		}
	}
	for size := 1; size <= 2; size++ {
		out = append(out, poolAgain(fmt.Sprintf("v4/size%d/again/length%d", size, 3+d), "C31", 4, size, 3+d, 270, "rxqfbBkz", []string{"refuse"}))
	}
	out = append(out, poolHistory(fmt.Sprintf("v4/size3/depth%d", 6+2*d), "C31", 4, 3, 6+2*d, 0, "rbk", nil))
	for _, b := range bulkSizes(tier) {
		out = append(out, bulkHistory(fmt.Sprintf("v4/size%d/all at once/depth%d", b[0], b[1]), "C31", 4, b[0], 0, b[1]))
	}
	return out
}

func init() {
	register(&mc.Check{Property: "C31", Scenarios: c31,
		Bounds:      "four versions, pool sizes 1 and 2: all histories of 5 and 4 (thorough: one more) operations from borrowing, querying, failing, leaving a transaction open (after work or a failure), returning, closing and returning, the server ending a lent or an idle connection (FIN, RST, silence), sending an unasked message on an idle one, and five kinds of outage and recovery; of 6 and 5 (8 and 7) operations from a smaller set; of 5 (6) operations with one (two) of five faults at any request made while a connection is returned; size 3 with 6 (8) operations; all words of up to 3 (4) operations repeated 270 times; all histories of 5 (6) borrows, returns, open transactions and pauses of half an hour or six weeks; 16 sizes from 3 to 257: all histories of 2 to 5 (6) operations on all connections at once; every history ends with recovery, borrowing the full number at once and using it, and closing",
		Assumptions: []string{"one goroutine uses the pool (C30 and C32 cover concurrency)", "a borrower returns each connection once, and only what it borrowed"}})
}
