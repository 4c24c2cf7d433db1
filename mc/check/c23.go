package check

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"time"

	"verif/gen/bolt/connection"
	"verif/mc"
	"verif/rt"
)

// refusal is a call that the driver has to refuse by itself.
type refusal struct {
	name string
	can  func(p *party) bool
	one  bool                                // like others of which one is enough beside another refused call
	do   func(p *party) (interface{}, error) // what must be nil, and what must not
}

// values that no version of the protocol can transport
var unencodable = []struct {
	name string
	v    interface{}
}{
	{"a struct", struct{ A int }{1}},
	{"a pointer", new(int)},
	{"a channel", make(chan int)},
	{"a function", func() {}},
	{"a complex number", complex(1, 2)},
	{"too large an integer", uint64(math.MaxInt64) + 1},
	{"a map with integers as keys", map[int]interface{}{1: 2}},
	{"a struct in a list", []interface{}{int64(1), "x", struct{}{}}},
	{"a struct in a typed list", []struct{ B string }{{"b"}}},
	{"a pointer deep within maps", map[string]interface{}{"a": map[string]interface{}{"b": []interface{}{map[string]interface{}{"c": new(string)}}}}},
	{"too large an integer after 70000 bytes", []interface{}{strings.Repeat("z", 70000), uint64(math.MaxUint64)}},
	{"an array", [2]int{1, 2}},
	{"a function after megabytes", []interface{}{huge, "y", func() {}}},
	{"a channel after many values", append(append(make([]interface{}, 150000), "y"), make(chan int))},
}

var huge = strings.Repeat("h", 5000000)

func noRows(rows [][]interface{}, res connection.IResult, err error) (interface{}, error) {
	if len(rows) > 0 {
		return rows, err
	}
	return noRes(res, err)
}

func noRes(res connection.IResult, err error) (interface{}, error) {
	if res != nil && !reflect.ValueOf(res).IsNil() {
		return res, err
	}
	return nil, err
}

func noTxn(tx connection.ITransaction, err error) (interface{}, error) {
	if tx != nil && !reflect.ValueOf(tx).IsNil() {
		return tx, err
	}
	return nil, err
}

func refusals() []refusal {
	var out []refusal
	add := func(name string, can func(p *party) bool, do func(p *party) (interface{}, error)) {
		out = append(out, refusal{name: name, can: can, do: do})
	}
	opened := func(p *party) bool { return p.conn != nil }
	inTx := func(p *party) bool { return p.tx != nil }
	ended := func(p *party) bool { return p.old != nil }
	for i, u := range unencodable {
		u := u
		add("a query with "+u.name+" as parameter", opened, func(p *party) (interface{}, error) {
			return noRows(p.conn.Query("W refused", connection.QueryParams{"a": "x", "p": u.v}))
		})
		out[len(out)-1].one = i > 0
	}
	add("a statement with a struct as parameter", opened, func(p *party) (interface{}, error) {
		return noRes(p.conn.Exec("W refused", connection.QueryParams{"p": struct{}{}}))
	})
	add("a query in the transaction with a struct as parameter", inTx, func(p *party) (interface{}, error) {
		return noRows(p.tx.Query("W refused", connection.QueryParams{"p": struct{}{}}))
	})
	add("a statement in the transaction with a pointer as parameter", inTx, func(p *party) (interface{}, error) {
		return noRes(p.tx.Exec("W refused", connection.QueryParams{"l": []interface{}{new(int)}}))
	})
	// a named database without support for several
	single := func(p *party) bool { return p.conn != nil && p.ver < 4 }
	add("a query on a named database", single, func(p *party) (interface{}, error) {
		return noRows(p.conn.QueryWithDb("W refused", nil, "other"))
	})
	add("a statement on a named database", single, func(p *party) (interface{}, error) {
		return noRes(p.conn.ExecWithDb("W refused", nil, "other"))
	})
	add("a transaction on a named database", single, func(p *party) (interface{}, error) {
		return noTxn(p.conn.BeginWithDatabase("other"))
	})
	// another database than that of the transaction
	add("a query on another database in the transaction", inTx, func(p *party) (interface{}, error) {
		return noRows(p.tx.QueryWithDb("W refused", nil, "other"))
	})
	add("a statement on another database in the transaction", inTx, func(p *party) (interface{}, error) {
		return noRes(p.tx.ExecWithDb("W refused", nil, "other"))
	})
	add("a statement on another database beside the transaction", inTx, func(p *party) (interface{}, error) {
		return noRes(p.conn.ExecWithDb("W refused", nil, "other"))
	})
	add("a second transaction", inTx, func(p *party) (interface{}, error) { return noTxn(p.conn.Begin()) })
	add("a second transaction on a named database", inTx, func(p *party) (interface{}, error) {
		return noTxn(p.conn.BeginWithDatabase("other"))
	})
	// a transaction that has ended
	add("a query in a transaction that has ended", ended, func(p *party) (interface{}, error) {
		return noRows(p.old.Query("W refused", nil))
	})
	add("a statement in a transaction that has ended", ended, func(p *party) (interface{}, error) {
		return noRes(p.old.Exec("W refused", nil))
	})
	add("a statement on a named database in a transaction that has ended", ended, func(p *party) (interface{}, error) {
		return noRes(p.old.ExecWithDb("W refused", nil, "other"))
	})
	add("the commit of a transaction that has ended", ended, func(p *party) (interface{}, error) { return nil, p.old.Commit() })
	add("the rollback of a transaction that has ended", ended, func(p *party) (interface{}, error) { return nil, p.old.Rollback() })
	// a connection that is closed
	shut := func(p *party) bool { return p.conn != nil && p.shut }
	add("a query on the closed connection", shut, func(p *party) (interface{}, error) { return noRows(p.conn.Query("W refused", nil)) })
	add("a statement on the closed connection", shut, func(p *party) (interface{}, error) { return noRes(p.conn.Exec("W refused", nil)) })
	add("a transaction on the closed connection", shut, func(p *party) (interface{}, error) { return noTxn(p.conn.Begin()) })
	add("closing the closed connection", shut, func(p *party) (interface{}, error) { return nil, p.conn.Close() })
	return out
}

// refusedScripts are what the caller does besides calls that are refused.
var refusedScripts = []string{"o Q W", "o b W c Q", "o b W r W", "o F W", "o b W F b W c", "o P Q X", "o b Q i W", "o k X W", "o W x", "o b W x", "o b c b r Q"}

// refuse makes a call that has to be refused.
func (p *party) refuse(x *mc.X, r refusal, how string) {
	var sent, reqs, closes int
	var now int64
	look := func() (s, q, c int, t int64) {
		rt.Do(func() {
			for _, k := range p.net.Conns {
				if k.Addr == p.addr {
					s += k.Sent
					c += k.Closes
				}
			}
			q, t = p.srv.Requests(), rt.NowNS()
		})
		return
	}
	sent, reqs, closes, now = look()
	open := p.conn.ValidateOpen()
	t := p.tx
	_, _, _, now = look()
	got, err := r.do(p)
	s, q, c, n := look()
	x.Check(err != nil, "not-refused", "version %d: %s%s is not refused", p.ver, how, r.name)
	x.Check(got == nil, "refused-with-result", "version %d: %s%s is refused, but returns %v", p.ver, how, r.name, got)
	x.Check(s == sent && q == reqs && c == closes, "refused-with-traffic", "version %d: %s%s is refused, but %d bytes are sent and the socket is closed %d times", p.ver, how, r.name, s-sent, c-closes)
	x.Check(n == now, "refused-late", "version %d: %s%s is refused after %v", p.ver, how, r.name, time.Duration(n-now))
	x.Check(p.conn.ValidateOpen() == open, "refused-state", "version %d: %s%s is refused, the connection was open: %v, and is open: %v", p.ver, how, r.name, open, !open)
	if t != nil {
		x.Check(!t.IsClosed(), "refused-ends-transaction", "version %d: %s%s is refused, but the transaction reports itself closed", p.ver, how, r.name)
	}
	if p.old != nil {
		x.Check(p.old.IsClosed(), "refused-reopens", "version %d: %s%s is refused, but the transaction that has ended reports itself open", p.ver, how, r.name)
	}
}

// refusedScenario inserts calls that are refused at all places into scripts.
func refusedScenario(id string, ver, max int, scripts []string) mc.Scenario {
	all := refusals()
	return mc.Scenario{ID: id, Horizon: time.Hour, Body: func(x *mc.X) {
		script := strings.Fields(scripts[x.Choose(len(scripts), "script")])
		vers := []int{ver}
		want := alone(vers, 0, script, false)
		p := newWorld(vers, []int{0}, false).own()
		how, n, one := "after", 0, false
		for i := 0; ; {
			if i > 0 && n < max {
				var can []refusal
				for _, r := range all {
					if r.can(p) && !(n > 0 && r.one) && !one {
						can = append(can, r)
					}
				}
				if k := x.Choose(len(can)+1, "refused call"); k > 0 {
					r := can[k-1]
					x.Tracef("REFUSED %s", r.name)
					p.refuse(x, r, how+": ")
					how += " (" + r.name + ")"
					n++
					one = r.one
					continue
				}
			}
			if i == len(script) {
				break
			}
			p.do(script[i])
			how += " " + script[i]
			i++
		}
		p.end()
		p.sameAs(x, want, "refused-with-effect", how+", without the refused calls")
		x.Class("%d refused calls in %v", n, script)
	}}
}

func (w *world) own() *party { return w.ps[0] }

// sameAs compares what can be seen with what it has to be.
func (p *party) sameAs(x *mc.X, want []string, key, how string) {
	for i := 0; i < len(want) || i < len(p.obs); i++ {
		g, w := "nothing", "nothing"
		if i < len(p.obs) {
			g = p.obs[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			x.Fail(key, "version %d: %s: %.600s\ninstead of: %.600s", p.ver, how, g, w)
		}
	}
}

func c23(tier string) []mc.Scenario {
	max := 2
	if tier == "thorough" {
		max = 3
	}
	var out []mc.Scenario
	for ver := 1; ver <= 4; ver++ {
		for _, s := range refusedScripts {
			out = append(out, refusedScenario(fmt.Sprintf("v%d/%s/refused%d", ver, strings.ReplaceAll(s, " ", "-"), max), ver, max, []string{s}))
		}
	}
	return out
}

func init() {
	register(&mc.Check{Property: "C23", Scenarios: c23,
		Bounds:      "four versions x 11 scripts of calls (queries, rejections, transactions, other chunk sizes, returning to idle, closing) into which at most 2 (thorough: 3) of 34 kinds of calls that must be refused are inserted at all places: 12 kinds of parameters that can not be encoded, on the connection and in a transaction, named databases without support for them, other databases than that of the transaction, nested transactions, ended transactions, the closed connection; each compared with the script without them",
		Assumptions: []string{"one goroutine uses the connection"}})
}
