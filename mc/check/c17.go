package check

import (
	"fmt"
	"reflect"
	"strings"

	"verif/gen/bolt/connection"
	"verif/mc"
	"verif/rt"
)

// concurrent callers of one connection
type caller struct {
	name string
	do   func(c *conc, g int)
}

type conc struct {
	x    *mc.X
	h    *hist
	ver  int
	kept []func()
	mode map[string]bool // what else happens: close, tx
}

func (c *conc) fail(key, format string, a ...interface{}) {
	c.x.Fail(key, "v%d: %s\n%s", c.ver, fmt.Sprintf(format, a...), c.h.srv.Dump())
}

// own judges that a query has its own result.
func (c *conc) own(tok, text string, n int, rows [][]interface{}, res connection.IResult, err error, exec bool) {
	if c.mode["close"] && err != nil {
		if len(rows) != 0 {
			c.fail("rows-with-error", "%s: %d rows and error %s", text, len(rows), short(err))
		}
		return
	}
	if c.mode["tx"] && err != nil {
		// a failure of the transaction around it is possible, but nothing else
		if _, ok := failureOf(err); ok {
			return
		}
	}
	if err != nil {
		c.fail("spurious-error", "%s fails: %s", text, short(err))
	}
	var uid interface{}
	rt.Do(func() {
		if _, r := c.h.srv.Find(text); r != nil {
			uid = r.UID
		}
	})
	if uid == nil {
		c.fail("success-without-request", "%s reports success, but was never sent", text)
	}
	if got := res.Metadata()["uid"]; got != uid {
		c.fail("foreign-summary", "%s got the summary of %v instead of %v", text, got, uid)
	}
	if !exec {
		want := rowsFor(uid.(string), tok, n)
		if !reflect.DeepEqual(rows, want) {
			c.fail("foreign-rows", "%s got %v instead of %v", text, rows, want)
		}
		rt.Do(func() {
			c.kept = append(c.kept, func() {
				if !reflect.DeepEqual(rows, want) {
					c.fail("rows-change", "later calls turn what %s got into %v instead of %v", text, rows, want)
				}
			})
		})
	}
}

func (c *conc) ownFailure(text string, rows [][]interface{}, err error) {
	if c.mode["close"] {
		if err == nil {
			c.fail("failure-swallowed", "%s reports success", text)
		}
		return
	}
	f, ok := failureOf(err)
	if !ok {
		c.fail("failure-lost", "%s: %T %s", text, innermost(err), short(err))
	}
	w := strings.Fields(text)
	if !strings.Contains(f.GetCode(), w[len(w)-1]) || len(rows) != 0 {
		c.fail("foreign-failure", "%s got the failure %v and %d rows", text, f, len(rows))
	}
}

var callers = map[string]caller{
	"Q": {"Q", func(c *conc, g int) {
		tok := fmt.Sprintf("g%d", g)
		text := "RETURN 2 " + tok
		rows, res, err := c.h.conn.Query(text, connection.QueryParams{"a": tok})
		c.own(tok, text, 2, rows, res, err, false)
	}},
	"QB": {"QB", func(c *conc, g int) {
		tok := fmt.Sprintf("g%d", g)
		text := "RETURN 1100 " + tok
		rows, res, err := c.h.conn.Query(text, connection.QueryParams{"a": strings.Repeat(tok, 30000)})
		c.own(tok, text, 1100, rows, res, err, false)
	}},
	"PB": {"PB", func(c *conc, g int) {
		text := fmt.Sprintf("FAILPULL 1100 Neo.ClientError.g%d g%d", g, g)
		rows, _, err := c.h.conn.Query(text, nil)
		c.ownFailure(text, rows, err)
	}},
	"E": {"E", func(c *conc, g int) {
		text := fmt.Sprintf("W g%d", g)
		res, err := c.h.conn.Exec(text, nil)
		c.own("", text, 0, nil, res, err, true)
	}},
	"QQ": {"QQ", func(c *conc, g int) {
		for i := 0; i < 2; i++ {
			tok := fmt.Sprintf("g%d.%d", g, i)
			text := "RETURN 1 " + tok
			rows, res, err := c.h.conn.Query(text, nil)
			c.own(tok, text, 1, rows, res, err, false)
		}
	}},
	"F": {"F", func(c *conc, g int) {
		text := fmt.Sprintf("FAIL Neo.ClientError.g%d", g)
		rows, _, err := c.h.conn.Query(text, nil)
		c.ownFailure(text, rows, err)
	}},
	"P": {"P", func(c *conc, g int) {
		text := fmt.Sprintf("FAILPULL 1 Neo.ClientError.g%d g%d", g, g)
		rows, _, err := c.h.conn.Query(text, nil)
		c.ownFailure(text, rows, err)
	}},
	"val": {"val", func(c *conc, g int) {
		if !c.h.conn.ValidateOpen() && !c.mode["close"] {
			c.fail("reports-closed", "a healthy connection reports itself not open")
		}
	}},
	"idle": {"idle", func(c *conc, g int) {
		if err := c.h.conn.MakeIdle(); err != nil && !c.mode["close"] {
			c.fail("idle-fails", "MakeIdle fails: %s", short(err))
		}
	}},
	"T": {"T", func(c *conc, g int) {
		tx, err := c.h.conn.Begin()
		if err != nil {
			if c.mode["close"] || c.mode["tx2"] {
				return
			}
			c.fail("begin-fails", "begin fails: %s", short(err))
		}
		tok := fmt.Sprintf("g%d", g)
		text := "RETURN 1 " + tok
		rows, res, err := tx.Query(text, nil)
		if err == nil {
			c.own(tok, text, 1, rows, res, err, false)
		}
		if err == nil {
			err = tx.Commit()
		}
		if err != nil && !c.mode["close"] && !c.mode["fail"] && !c.mode["idle"] && !c.mode["tx2"] {
			c.fail("tx-fails", "the transaction fails: %s", short(err))
		}
	}},
	"x": {"x", func(c *conc, g int) {
		if err := c.h.conn.Close(); err != nil && !c.mode["close2"] {
			c.fail("close-fails", "closing fails: %s", short(err))
		}
	}},
}

func concScenario(id string, ver int, names string, preempt int, race bool, cap int) mc.Scenario {
	ns := strings.Fields(names)
	return mc.Scenario{ID: id, Preempt: preempt, Race: race, IOYield: !strings.Contains(names, "B"), Cap: cap, Body: func(x *mc.X) {
		h := newHist(x, "C17", ver, planNone)
		c := &conc{x: x, h: h, ver: ver, mode: map[string]bool{}}
		closes, txs := 0, 0
		for _, n := range ns {
			switch n {
			case "x":
				c.mode["close"] = true
				closes++
			case "T":
				c.mode["tx"] = true
				txs++
			case "F", "P":
				c.mode["fail"] = true
			case "idle":
				c.mode["idle"] = true
			}
		}
		c.mode["close2"], c.mode["tx2"] = closes > 1, txs > 1
		if !h.open() {
			return
		}
		for i, n := range ns {
			i, n := i, n
			x.Go(n, func() { callers[n].do(c, i) })
		}
		x.Join()
		if !c.mode["close"] {
			if !h.conn.ValidateOpen() {
				c.fail("reports-closed", "the connection reports itself not open afterwards")
			}
			rows, res, err := h.conn.Query("RETURN 1 z", nil)
			c.mode = map[string]bool{}
			c.own("z", "RETURN 1 z", 1, rows, res, err, false)
			if err := h.conn.Close(); err != nil {
				c.fail("close-fails", "closing fails: %s", short(err))
			}
		}
		for _, f := range c.kept {
			f()
		}
		var v []string
		var open, closed int
		order := ""
		rt.Do(func() {
			v, open, closed = h.srv.Violations(), h.net.OpenCount(), h.sess.C.Closes
			for _, r := range h.sess.Log {
				if r.Query != "" {
					order += r.Query[:1] + r.Query[len(r.Query)-2:] + " "
				}
			}
		})
		if len(v) > 0 {
			c.fail("illegal-request", "the client broke the protocol: %s", strings.Join(v, "; "))
		}
		if open != 0 || closed != 1 {
			c.fail("socket", "%d sockets open, closed %d times", open, closed)
		}
		x.Class("%s", order)
	}}
}

func c17(tier string) []mc.Scenario {
	var out []mc.Scenario
	mixes := []string{"Q Q", "Q E", "Q F", "F F", "P Q", "P F", "QQ QQ", "Q val", "Q x", "F x", "x x", "T Q", "T T", "T x", "T F", "T idle", "Q idle x", "Q Q Q", "Q F E", "P Q val", "Q T x"}
	pre := 2
	if tier == "thorough" {
		pre = 3
	}
	for ver := 1; ver <= 4; ver++ {
		for _, mix := range mixes {
			p := pre
			if len(strings.Fields(mix)) > 2 && tier == "quick" {
				p = 1
			}
			out = append(out, concScenario(fmt.Sprintf("v%d/%s/preempt%d", ver, strings.ReplaceAll(mix, " ", "+"), p), ver, mix, p, false, 0))
		}
	}
	for ver := 1; ver <= 4; ver++ {
		for _, mix := range []string{"QB Q", "QB QB", "QB F", "PB Q", "QB T", "QB val", "QB Q Q", "QB PB E"} {
			p := pre
			out = append(out, concScenario(fmt.Sprintf("v%d/%s/preempt%d", ver, strings.ReplaceAll(mix, " ", "+"), p), ver, mix, p, false, 0))
		}
	}
	for _, ver := range []int{1, 3, 4} {
		for _, mix := range mixes {
			p := 1
			if tier == "thorough" {
				p = 2
			}
			out = append(out, concScenario(fmt.Sprintf("race/v%d/%s/preempt%d", ver, strings.ReplaceAll(mix, " ", "+"), p), ver, mix, p, true, 0))
		}
	}
	return out
}

func init() {
	register(&mc.Check{Property: "C17", Scenarios: c17,
		Bounds:      "four versions x 21 mixes of two or three goroutines that query, fail, run transactions, validate, make idle and close one connection: all interleavings at synchronisation and socket operations with at most 2 (three goroutines: 1; thorough: 3) preemptions; eight mixes with statements that return 1100 records, 2 (3) preemptions at synchronisation operations and where one waits for the server; the first mixes under the race detector with 1 (2)",
		Assumptions: []string{"a transaction into which another goroutine's failing statement falls fails with it"}})
}
