package check

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"verif/boltsrv"
	"verif/gen/bolt/connection"
	"verif/gen/bolt/encoding"
	"verif/gen/bolt/encoding/encoding_v1"
	"verif/gen/bolt/encoding/encoding_v2"
	"verif/gen/bolt/structures/messages"
	"verif/mc"
	"verif/ps"
	"verif/rt"
	"verif/vnet"
)

// party is one connection with its own server; what can be seen of it must not depend on what
// other connections do.
type party struct {
	name  string
	ver   int
	user  string
	pass  string
	T     time.Duration
	addr  string
	net   *vnet.Net
	srv   *boltsrv.Server
	conn  connection.IConnection
	tx    connection.ITransaction
	old   connection.ITransaction // the last one that has ended
	n     int
	obs   []string
	raw   []byte
	shut  bool // closed by the caller
	mute  bool // the server does not answer any more
	timed bool // durations are observed
}

func newParty(net *vnet.Net, i, ver int, timed bool) *party {
	p := &party{name: string(rune('A' + i)), ver: ver, user: "neo4j", T: time.Duration(3+2*i) * time.Second,
		addr: fmt.Sprintf("h%d:7687", i+1), net: net, timed: timed, pass: fmt.Sprintf("secret%d", i)}
	p.srv = &boltsrv.Server{Ver: ver, DB: &boltsrv.DB{}, User: p.user, Pass: p.pass}
	p.srv.OnRequest = func(s *boltsrv.Session, r *boltsrv.Req) boltsrv.Verdict {
		if p.mute {
			return boltsrv.Verdict{Before: boltsrv.Silence}
		}
		return boltsrv.Verdict{}
	}
	net.Listen(p.addr, p.srv)
	return p
}

func (p *party) note(format string, a ...interface{}) {
	p.obs = append(p.obs, fmt.Sprintf(format, a...))
}

func errText(err error) string {
	if err == nil {
		return "ok"
	}
	if f, ok := failureOf(err); ok {
		return "failure " + ps.String(f.Metadata)
	}
	if badConn(err) {
		return "bad connection"
	}
	return fmt.Sprintf("%T", innermost(err))
}

func (p *party) rows(what string, rows [][]interface{}, res connection.IResult, err error) {
	s := what + ": " + errText(err)
	if res != nil && !reflect.ValueOf(res).IsNil() {
		s += " " + ps.String(res.Metadata())
	}
	l := make([]interface{}, len(rows))
	for i, r := range rows {
		l[i] = r
	}
	p.note("%s %s", s, ps.String(l))
}

// do performs one operation of a script.
func (p *party) do(op string) {
	var t0 int64
	rt.Do(func() { t0 = rt.NowNS() })
	if p.conn == nil && op != "o" {
		p.note("%s: no connection", op)
		return
	}
	var q querier = p.conn
	if p.tx != nil {
		q = p.tx
	}
	p.n++
	tok := fmt.Sprintf("%s%d", p.name, p.n)
	switch op {
	case "o":
		c, err := connection.CreateBoltConn(fmt.Sprintf("bolt://%s:%s@%s?timeout=%d", p.user, p.pass, p.addr, int(p.T/time.Second)))
		if err == nil {
			p.conn = c
			c.SetConnectionId("id " + p.name)
			p.note("open: version %d", c.GetProtocolVersionNumber())
		} else {
			p.note("open: %s", errText(err))
		}
	case "Q":
		rows, res, err := q.Query("RETURN 2 "+tok, connection.QueryParams{"a": tok, p.name: int64(p.n)})
		p.rows(op, rows, res, err)
	case "X":
		rows, res, err := q.Query("ECHO "+tok, connection.QueryParams{"tok": tok, "rich": richParams(p.n % 3), "t": []interface{}{tok, strings.Repeat(p.name, 40)}})
		p.rows(op, rows, res, err)
	case "W":
		res, err := q.Exec("W "+tok, nil)
		p.rows(op, nil, res, err)
	case "F":
		rows, res, err := q.Query("FAIL Neo.ClientError."+tok, nil)
		p.rows(op, rows, res, err)
		p.over()
	case "P":
		rows, res, err := q.Query("FAILPULL 1 Neo.ClientError."+tok+" "+tok, nil)
		p.rows(op, rows, res, err)
		p.over()
	case "B":
		rows, res, err := q.Query("RETURN 1 "+tok, connection.QueryParams{"p": struct{ A int }{1}})
		p.rows(op, rows, res, err)
	case "b":
		tx, err := p.conn.Begin()
		if err == nil {
			p.tx = tx
		}
		p.note("begin: %s", errText(err))
	case "c", "r":
		if p.tx == nil {
			return
		}
		f := p.tx.Commit
		if op == "r" {
			f = p.tx.Rollback
		}
		p.note("%s: %s, %v", op, errText(f()), p.tx.IsClosed())
		p.old, p.tx = p.tx, nil
	case "s":
		p.conn.SetTimeout(time.Second)
	case "k":
		p.conn.SetChunkSize(uint16(5 + len(p.name)))
	case "v":
		p.note("open: %v, %s", p.conn.ValidateOpen(), p.conn.GetConnectionId())
	case "i":
		p.note("idle: %s", errText(p.conn.MakeIdle()))
		p.over()
	case "D":
		rt.Do(func() { p.srv.Sessions[len(p.srv.Sessions)-1].Kill(boltsrv.FIN) })
	case "S":
		p.mute = true
	case "x":
		p.note("close: %s", errText(p.conn.Close()))
		p.shut = true
		p.over()
	default:
		panic("no operation " + op)
	}
	var t1 int64
	rt.Do(func() { t1 = rt.NowNS() })
	if p.timed {
		p.note("took %v", time.Duration(t1-t0))
	}
}

func (p *party) over() {
	if p.tx != nil && p.tx.IsClosed() {
		p.old, p.tx = p.tx, nil
	}
}

// end collects what the server saw.
func (p *party) end() {
	if p.conn != nil && p.conn.Close() == nil {
		p.note("closed at the end")
	}
	rt.Do(func() {
		for _, s := range p.srv.Sessions {
			for _, r := range s.Log {
				p.note("request %s %s in %v", r.Name, ps.String(anys(r.Fields...)), r.Query)
			}
		}
		for _, v := range p.srv.Violations() {
			p.note("violation %s", v)
		}
		p.note("durable %v", p.srv.DB.Durable)
		open := 0
		for _, c := range p.net.Conns {
			if c.Addr == p.addr {
				p.note("sent %d bytes, closed %d times", c.Sent, c.Closes)
				if c.CloseCount == 0 {
					open++
				}
			}
		}
		p.note("%d open", open)
		if len(p.raw) > 20 {
			_, sizes, err := ps.Dechunk(p.raw[20:])
			p.note("chunks %v %v", sizes, err != nil)
		}
	})
}

type world struct {
	net *vnet.Net
	ps  []*party
}

func newWorld(vers []int, which []int, timed bool) *world {
	w := &world{net: vnet.New()}
	for _, i := range which {
		w.ps = append(w.ps, newParty(w.net, i, vers[i], timed))
	}
	w.net.OnWrite = func(c *vnet.Conn, b []byte) {
		for _, p := range w.ps {
			if p.addr == c.Addr {
				p.raw = append(p.raw, b...)
			}
		}
	}
	return w
}

// alone is what can be seen of a connection that is the only one.
func alone(vers []int, i int, script []string, timed bool) []string {
	w := newWorld(vers, []int{i}, timed)
	for _, op := range script {
		w.ps[0].do(op)
	}
	w.ps[0].end()
	return w.ps[0].obs
}

func (p *party) same(x *mc.X, want []string, how string) {
	for i := 0; i < len(want) || i < len(p.obs); i++ {
		g, w := "nothing", "nothing"
		if i < len(p.obs) {
			g = p.obs[i]
		}
		if i < len(want) {
			w = want[i]
		}
		if g != w {
			x.Fail("influence", "connection %s (version %d) behaves differently %s: %.600s\ninstead of: %.600s", p.name, p.ver, how, g, w)
		}
	}
}

// scripts of one connection; all begin with opening
var soloScripts = []string{"o Q", "o X Q", "o F Q", "o P Q", "o b W c", "o b W F", "o b Q r", "o W k X", "o s S Q", "o D Q", "o D v", "o x v", "o B Q", "o b W i Q", "o b W x", "o S o"}

func interleavings(id string, va, vb int, scripts []string) mc.Scenario {
	return mc.Scenario{ID: id, Horizon: time.Hour, Body: func(x *mc.X) {
		vers := []int{va, vb}
		a := strings.Fields(scripts[x.Choose(len(scripts), "script A")])
		b := strings.Fields(scripts[x.Choose(len(scripts), "script B")])
		wantA, wantB := alone(vers, 0, a, true), alone(vers, 1, b, true)
		w := newWorld(vers, []int{0, 1}, true)
		how := ""
		for i, j := 0, 0; i < len(a) || j < len(b); {
			first := j == len(b)
			if i < len(a) && j < len(b) {
				first = x.Choose(2, "next") == 0
			}
			if first {
				w.ps[0].do(a[i])
				how += " A." + a[i]
				i++
			} else {
				w.ps[1].do(b[j])
				how += " B." + b[j]
				j++
			}
		}
		w.ps[0].end()
		w.ps[1].end()
		how = "in" + how + " than alone"
		w.ps[0].same(x, wantA, how)
		w.ps[1].same(x, wantB, how)
		x.Class("%s | %s", strings.Join(a, " "), strings.Join(b, " "))
	}}
}

func together(id string, vers []int, scripts []string, preempt int, race bool) mc.Scenario {
	return mc.Scenario{ID: id, Preempt: preempt, Race: race, IOYield: true, Horizon: time.Hour, Body: func(x *mc.X) {
		var want [][]string
		for i := range scripts {
			want = append(want, alone(vers, i, strings.Fields(scripts[i]), false))
		}
		var which []int
		for i := range scripts {
			which = append(which, i)
		}
		w := newWorld(vers, which, false)
		for i := range scripts {
			p, ops := w.ps[i], strings.Fields(scripts[i])
			x.Go(p.name, func() {
				for _, op := range ops {
					p.do(op)
				}
			})
		}
		x.Join()
		for i, p := range w.ps {
			p.end()
			p.same(x, want[i], fmt.Sprintf("beside %v at the same time than alone", scripts))
		}
		x.Class("done")
	}}
}

// slowPipe is a writer or reader at which other goroutines may run.
type slowPipe struct {
	b  []byte
	at int
}

func (s *slowPipe) Write(p []byte) (int, error) {
	rt.DoYield("write", func() { s.b = append(s.b, p...) })
	return len(p), nil
}

func (s *slowPipe) Read(p []byte) (n int, err error) {
	rt.DoYield("read", func() {
		// piecewise
		n = len(p)
		if n > 3 {
			n = 3
		}
		n = copy(p[:n], s.b[s.at:])
		s.at += n
	})
	if n == 0 && len(p) > 0 {
		err = fmt.Errorf("nothing left")
	}
	return
}

func codecsTogether(id string, preempt int, race bool) mc.Scenario {
	return mc.Scenario{ID: id, Preempt: preempt, Race: race, Body: func(x *mc.X) {
		vals := func(i int) []interface{} {
			s := strings.Repeat(string(rune('a'+i)), 20)
			return []interface{}{
				[]interface{}{int64(1000 + i), s, float64(i) + 0.5, nil, true},
				map[string]interface{}{s: []interface{}{s, int64(-i)}},
			}
		}
		kind := [2]int{x.Choose(4, "A"), x.Choose(4, "B")}
		for i := 0; i < 2; i++ {
			i := i
			x.Go(fmt.Sprintf("%c", 'A'+i), func() {
				switch kind[i] {
				case 0, 1: // encode
					p := &slowPipe{}
					var e encoding.IEncoder = encoding_v1.NewEncoder(p, 6)
					if kind[i] == 1 {
						e = encoding_v2.NewEncoder(p, 6)
					}
					for _, v := range vals(i) {
						if err := e.Encode(v); err != nil {
							x.Fail("encode", "encoding %v fails beside another encoder: %s", v, short(err))
						}
					}
					ms, _, err := ps.Dechunk(p.b)
					if err != nil || len(ms) != 2 {
						x.Fail("framing", "an encoder used beside another one wrote % x", p.b)
					}
					for k, m := range ms {
						if got, err := ps.Decode(m); err != nil || !ps.Equal(got, vals(i)[k]) {
							x.Fail("encode", "an encoder used beside another one wrote %v instead of %v", got, vals(i)[k])
						}
					}
				default: // decode
					p := &slowPipe{}
					for _, v := range vals(i) {
						p.b = append(p.b, ps.Chunk(ps.Encode(v), 6)...)
					}
					var d encoding.IDecoder = encoding_v1.NewDecoder(p)
					if kind[i] == 3 {
						d = encoding_v2.NewDecoder(p)
					}
					for _, v := range vals(i) {
						if got, err := d.Decode(); err != nil || !ps.Equal(got, v) {
							x.Fail("decode", "a decoder used beside another one reads %v (%v) instead of %v", got, short(err), v)
						}
					}
				}
			})
		}
		x.Join()
		x.Class("%v", kind)
	}}
}

// the values a builder returns belong to the caller alone
func builders(x *mc.X) {
	mk := []func() map[string]interface{}{
		func() map[string]interface{} { return messages.BuildAuthTokenBasic("u", "p") },
		func() map[string]interface{} { return messages.BuildAuthTokenBasicWithRealm("u", "p", "r") },
		func() map[string]interface{} { return messages.BuildAuthTokenKerberos("t") },
	}
	i, j := x.Choose(len(mk), "first"), x.Choose(len(mk), "second")
	ref := ps.String(mk[j]())
	m := mk[i]()
	m["scheme"], m["more"] = "changed", true
	got := ps.String(mk[j]())
	x.Check(got == ref, "shared-token", "changing a credential map changes the next one: %s instead of %s", got, ref)
	x.Class("%d %d", i, j)
}

func c22(tier string) []mc.Scenario {
	out := []mc.Scenario{plain("builders", builders)}
	some := []string{"o X", "o F Q", "o P", "o b W c", "o k X", "o S Q", "o D Q", "o x", "o B Q", "o s W"}
	pairs := [][2]int{{1, 1}, {2, 2}, {3, 3}, {4, 4}, {1, 4}, {4, 1}, {3, 2}}
	for _, v := range pairs {
		sc := some
		if tier == "thorough" || v == [2]int{1, 4} || v == [2]int{3, 3} || v == [2]int{4, 4} {
			sc = soloScripts
		}
		out = append(out, interleavings(fmt.Sprintf("v%d+v%d/turns", v[0], v[1]), v[0], v[1], sc))
	}
	mixes := [][]string{{"o X", "o X"}, {"o Q", "o F Q"}, {"o P", "o b W c"}, {"o W", "o S Q"}, {"o k X", "o Q"}, {"o Q", "o x"}, {"o B Q", "o W"}, {"o Q", "o Q", "o F"}}
	for _, v := range [][]int{{1, 1, 1}, {2, 2, 2}, {3, 3, 3}, {4, 4, 4}, {1, 4, 2}} {
		for _, mx := range mixes {
			p := 1
			if tier == "thorough" {
				p = 2
			}
			name := strings.ReplaceAll(strings.Join(mx, "|"), " ", ".")
			out = append(out, together(fmt.Sprintf("v%d+v%d/together/%s", v[0], v[1], name), v, mx, p, false))
			rp := 0
			if tier == "thorough" {
				rp = 1
			}
			out = append(out, together(fmt.Sprintf("race/v%d+v%d/together/%s", v[0], v[1], name), v, mx, rp, true))
		}
	}
	out = append(out, codecsTogether("codecs", 2, false), codecsTogether("race/codecs", 1, true))
	return out
}

func init() {
	register(&mc.Check{Property: "C22", Scenarios: c22,
		Bounds:      "two connections of 7 pairs of versions: all interleavings, call by call, of 10 x 10 (three pairs and thorough: 16 x 16) call sequences of up to 4 calls (queries, rejections, transactions, changed settings, lost and silent servers, closing), each compared with the same calls on a connection alone; 8 mixes of two or three connections in goroutines of their own, 5 version combinations: all interleavings at synchronisation and socket operations with at most 1 (thorough 2) preemptions, and under the race detector with 0 (1); two encoders or decoders of each generation at the same time, all interleavings at reads and writes with 2 preemptions and under the race detector with 1; all pairs of credential builders",
		Assumptions: []string{"a connection that is the only one in its process behaves as the other properties say"}})
}
