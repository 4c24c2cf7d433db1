package check

import (
	"fmt"
	"time"

	"verif/boltsrv"
	"verif/gen/bolt/connection"
	"verif/mc"
	"verif/rt"
	"verif/vnet"
)

// quiet is a server that accepts, sends some bytes and is silent.
type quiet struct{ hello []byte }

func (q *quiet) Connect(c *vnet.Conn) (vnet.Outcome, vnet.Handler) {
	if q.hello != nil {
		c.Push(q.hello)
	}
	return vnet.Accept, q
}
func (q *quiet) Data([]byte) {}
func (q *quiet) Closed()     {}

func c18(tier string) []mc.Scenario {
	var out []mc.Scenario
	d := 0
	if tier == "thorough" {
		d = 1
	}
	for ver := 1; ver <= 4; ver++ {
		ver := ver
		id := func(s string, depth int) string { return fmt.Sprintf("v%d/%s/depth%d", ver, s, depth) }
		out = append(out, openScenario(fmt.Sprintf("v%d/open", ver), "C18", ver, openCases(tier), []int{0, 1}))
		silence := faultPlan{fail: true, silence: true, reset: true, cuts: 5, closing: true}
		out = append(out, histScenario(id("silence", 2+d), "C18", ver, "Q1 E F P2 b tE tF c r idle st1 st9 x", 2+d, 1, silence, nil))
		out = append(out, histScenario(id("silence after failure", 2), "C18", ver, "Q1 F P2 b tF c st1", 2, 2, silence, nil))
		out = append(out, histScenario(id("pause", 3+d), "C18", ver, "Q1 X3 F b tE c r val pause wait x", 3+d, 0, planNone, nil))
		out = append(out, histScenario(id("stall", 3+d), "C18", ver, "Q1 F b tE c r idle val st1 stall x", 3+d, 0, planNone, nil))
		for _, slow := range []time.Duration{4500 * time.Millisecond, 900 * time.Millisecond} {
			slow := slow
			out = append(out, histScenario(id(fmt.Sprintf("slow %v", slow), 3+d), "C18", ver, "Q3 F P2 b tQ tF c r idle st1 st9", 3+d, 0, planNone, func(h *hist) { h.slow = slow }))
			drib := histScenario(id(fmt.Sprintf("dribble %v", slow), 2+d), "C18", ver, "Q1 F b tQ c r st9", 2+d, 0, planNone, func(h *hist) { h.slow, h.drib = slow, true })
			drib.Horizon = 20 * time.Hour
			out = append(out, drib)
		}
	}
	// through the pools
	for ver := 1; ver <= 4; ver++ {
		for size := 1; size <= 2; size++ {
			out = append(out, poolHistory(fmt.Sprintf("v%d/pool of %d/depth%d", ver, size, 4+d), "C18", ver, size, 4+d, 0, "rbkS", outages),
				poolHistory(fmt.Sprintf("v%d/pool of %d/depth%d/faults1", ver, size, 4+d), "C18", ver, size, 4+d, 1, "rbf", nil))
		}
		out = append(out, startScenario(fmt.Sprintf("v%d/starting a routed pool/faults1", ver), ver, 3, 1, "C18"),
			routedHistory(fmt.Sprintf("v%d/routed pool/depth%d", ver, 3+d), "C18", ver, 2, 3+d, 0, "wridt1", "rbkS"),
			routedHistory(fmt.Sprintf("v%d/routed pool/depth%d/faults1", ver, 3+d), "C18", ver, 2, 3+d, 1, "wrf1", "rbf"),
			stopHistory(fmt.Sprintf("v%d/stopping a routed pool/depth%d/faults1", ver, 3+d), ver, 2, 3+d, 1, "wr", "rbf", "C18"))
	}
	tlsServers := []struct {
		name string
		srv  vnet.Server
	}{
		{"silence", &quiet{}},
		{"a record header, then silence", &quiet{hello: []byte{0x16, 3, 3, 0, 100}}},
		{"half a record header, then silence", &quiet{hello: []byte{0x16, 3}}},
		{"an alert warning, then silence", &quiet{hello: []byte{0x15, 3, 3, 0, 2, 1, 90}}},
		{"no answer to the connection attempt", vnet.ServerFunc(func(c *vnet.Conn) (vnet.Outcome, vnet.Handler) { return vnet.Blackhole, nil })},
	}
	for _, useTLS := range []bool{true, false} {
		useTLS := useTLS
		name := "plain"
		if useTLS {
			name = "tls"
		}
		out = append(out, mc.Scenario{ID: name + "/silent server", Horizon: time.Hour, Body: func(x *mc.X) {
			net := vnet.New()
			s := tlsServers[x.Choose(len(tlsServers), "server")]
			T := []int{1, 5, 60}[x.Choose(3, "timeout")]
			net.Listen(addr1, s.srv)
			str := fmt.Sprintf("bolt://%s:%s@%s?timeout=%d", usr, pwd, addr1, T)
			if useTLS {
				str += "&tls=true"
				if x.Bool("verify") {
					str += "&tls_no_verify=true"
				}
			}
			c, err := connection.CreateBoltConn(str)
			var now int64
			var open int
			rt.Do(func() { now, open = rt.NowNS(), net.OpenCount() })
			x.Check(err != nil && c == nil, "opened", "%s, %s: opened a connection", name, s.name)
			took := time.Duration(now)
			lim := 3*time.Duration(T)*time.Second + time.Second
			x.Check(took <= lim, "open-too-long", "%s, %s: opening failed after %v with a timeout of %d s", name, s.name, took, T)
			x.Check(open == 0, "socket-left-open", "%s, %s: a socket is left open", name, s.name)
			x.Class("%s %s", name, s.name)
		}})
	}
	_ = boltsrv.Go
	return out
}

func init() {
	register(&mc.Check{Property: "C18", Scenarios: c18,
		Bounds: "four versions: every catalogue behaviour of a server while opening; every history of 2 (thorough 3) calls from 12 with one silence before any request or at 5+ positions of any reply; failure followed by silence; servers that stop reading after 0, 1 or 3 bytes at every point of histories of 3 (4); servers delaying every half message or every byte by 0.9 of the timeout in histories of 3 (4) with changes of the timeout in between; silent plain and TLS servers and unanswered dials with three timeouts; all histories of 4 (5) operations on pools of 1 and 2 with all outages or one fault, of 3 (4) on a routed pool with servers failing, refreshes and stopping, and making a routed pool with one fault: no call waits for longer than the timeout without a byte or a connection attempt"})
}
