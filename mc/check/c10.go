package check

import (
	"fmt"
	"reflect"
	"time"

	"verif/boltsrv"
	"verif/gen/bolt/connection"
	"verif/mc"
	"verif/ps"
	"verif/rt"
	"verif/vnet"
)

// openCase is one behaviour of a server while a connection is opened.
type openCase struct {
	name string
	// handshake: the reply, nil: by the version
	hs func(ver int) []boltsrv.Piece
	// initial request: verdict and reply
	verdict boltsrv.Verdict
	reply   func(s *boltsrv.Session, ok []byte) []boltsrv.Piece
	reset   func(s *boltsrv.Session, ok []byte) []boltsrv.Piece
	dial    vnet.Outcome
	badPwd  bool
	good    bool          // opening must succeed
	failure bool          // the server's failure must be reported
	meta    func(m md) md // changes the metadata of the failure
	instant bool          // no waiting: the outcome is immediate
	only    func(ver int) bool
}

func piecesOf(b []byte, cut int, d time.Duration, t boltsrv.Then) []boltsrv.Piece {
	return []boltsrv.Piece{{Bytes: b[:cut], Delay: 0}, {Bytes: b[cut:], Delay: d, Then: t}}
}

func openCases(tier string) []openCase {
	var out []openCase
	add := func(c openCase) { out = append(out, c) }
	thens := []boltsrv.Then{boltsrv.FIN, boltsrv.RST, boltsrv.Silence}
	v34 := func(v int) bool { return v >= 3 }
	v12 := func(v int) bool { return v < 3 }
	add(openCase{name: "healthy", good: true, instant: true})
	add(openCase{name: "refused", dial: vnet.Refuse, instant: true})
	add(openCase{name: "no such host", dial: vnet.NoHost, instant: true})
	add(openCase{name: "blackhole", dial: vnet.Blackhole})
	// handshake
	var odd [][]byte
	for v := 5; v <= 20; v++ {
		odd = append(odd, []byte{0, 0, 0, byte(v)})
	}
	for _, b := range [][]byte{{0, 0, 0, 0}, {0, 0, 0, 255}, {1, 0, 0, 0}, {1, 0, 0, 4}, {0, 1, 0, 3}, {0, 0, 1, 4}, {0, 0, 4, 4}, {4, 0, 0, 0}, {3, 0, 0, 0}, {0, 4, 0, 0}, {0, 0, 4, 0}, []byte("HTTP"), {0xff, 0xff, 0xff, 0xff}, {0x60, 0x60, 0xB0, 0x17}, {0x16, 0x03, 0x01, 0x00}, {0, 0, 0, 0x84}, {0x80, 0, 0, 1}} {
		odd = append(odd, b)
	}
	for _, b := range odd {
		b := b
		for _, t := range []boltsrv.Then{boltsrv.Go, boltsrv.FIN} {
			t := t
			add(openCase{name: fmt.Sprintf("handshake answered with % x %v", b, t), hs: func(int) []boltsrv.Piece {
				return []boltsrv.Piece{{Bytes: b, Then: t}}
			}})
		}
	}
	for k := 0; k < 4; k++ {
		k := k
		for _, t := range thens {
			t := t
			add(openCase{name: fmt.Sprintf("handshake reply breaks after %d bytes: %v", k, t), hs: func(ver int) []boltsrv.Piece {
				return []boltsrv.Piece{{Bytes: []byte{0, 0, 0, byte(ver)}[:k], Then: t}}
			}})
		}
		for _, d := range []time.Duration{0, time.Second, 4 * time.Second} {
			d := d
			add(openCase{name: fmt.Sprintf("handshake reply in two pieces %d %v", k, d), good: true, hs: func(ver int) []boltsrv.Piece {
				return piecesOf([]byte{0, 0, 0, byte(ver)}, k, d, boltsrv.Go)
			}})
		}
	}
	for _, t := range thens {
		t := t
		add(openCase{name: fmt.Sprintf("the version is agreed, then %v", t), hs: func(ver int) []boltsrv.Piece {
			return []boltsrv.Piece{{Bytes: []byte{0, 0, 0, byte(ver)}, Then: t}}
		}})
		add(openCase{name: fmt.Sprintf("%v before authentication is processed", t), verdict: boltsrv.Verdict{Before: t}})
	}
	// authentication
	add(openCase{name: "wrong password", badPwd: true, failure: true, instant: true})
	add(openCase{name: "rejected", verdict: boltsrv.Verdict{Fail: "Neo.ClientError.Security.AuthenticationRateLimit"}, failure: true, instant: true})
	add(openCase{name: "ignored", verdict: boltsrv.Verdict{Ignored: true}})
	reply := func(name string, c openCase, f func(s *boltsrv.Session, ok []byte) []boltsrv.Piece) {
		c.name = name
		c.reply = f
		add(c)
	}
	bytesReply := func(name string, b []byte) {
		for _, t := range []boltsrv.Then{boltsrv.Go, boltsrv.FIN} {
			t := t
			reply(fmt.Sprintf("answered with %s %v", name, t), openCase{}, func(*boltsrv.Session, []byte) []boltsrv.Piece {
				return []boltsrv.Piece{{Bytes: b, Then: t}}
			})
		}
	}
	ch := func(v interface{}) []byte { return ps.Chunk(ps.Encode(v), 65535) }
	bytesReply("a record", ch(ps.S(0x71, anys("x"))))
	bytesReply("IGNORED with metadata", ch(ps.S(0x7E, m{})))
	bytesReply("an unknown structure", ch(ps.S(0x41, "x")))
	bytesReply("a node", ch(ps.S(0x4E, int64(1), anys("L"), m{})))
	bytesReply("nothing known", ch(nil))
	bytesReply("an integer", ch(int64(5)))
	bytesReply("a string", ch("SUCCESS"))
	bytesReply("a map", ch(m{"server": "Neo4j"}))
	bytesReply("a list", ch(anys(m{})))
	bytesReply("SUCCESS without metadata", ps.Chunk([]byte{0xB0, 0x70}, 100))
	bytesReply("SUCCESS with a wrong field", ps.Chunk([]byte{0xB1, 0x70, 0x01}, 100))
	bytesReply("SUCCESS with two fields", ps.Chunk([]byte{0xB2, 0x70, 0xA0, 0xA0}, 100))
	bytesReply("a truncated SUCCESS", ps.Chunk([]byte{0xB1, 0x70, 0xA1, 0x81, 0x61}, 100))
	bytesReply("FAILURE without metadata", ps.Chunk([]byte{0xB0, 0x7F}, 100))
	bytesReply("FAILURE with a wrong field", ps.Chunk([]byte{0xB1, 0x7F, 0x81, 0x61}, 100))
	bytesReply("an undefined marker", ps.Chunk([]byte{0xDF, 0x00}, 100))
	bytesReply("HTTP", []byte("HTTP/1.1 400 Bad Request\r\n\r\n"))
	bytesReply("a huge chunk header", []byte{0xFF, 0xFF, 0xB1})
	bytesReply("a lone header byte", []byte{0x00})
	add(openCase{name: "a failure whose metadata is empty", instant: true, reply: func(s *boltsrv.Session, b []byte) []boltsrv.Piece {
		return []boltsrv.Piece{{Bytes: ch(ps.S(0x7F, m{})), Then: boltsrv.FIN}}
	}})
	step := 4
	if tier == "thorough" {
		step = 1
	}
	for k := 0; k < 70; k += step {
		k := k
		for _, t := range thens {
			t := t
			reply(fmt.Sprintf("the reply breaks %d bytes before its end: %v", k+1, t), openCase{}, func(s *boltsrv.Session, b []byte) []boltsrv.Piece {
				n := len(b) - k - 1
				if n < 0 {
					n = 0
				}
				return []boltsrv.Piece{{Bytes: b[:n], Then: t}}
			})
		}
		for _, d := range []time.Duration{0, 4 * time.Second} {
			d := d
			reply(fmt.Sprintf("the reply comes in two pieces: %d bytes after %v", k+1, d), openCase{good: true}, func(s *boltsrv.Session, b []byte) []boltsrv.Piece {
				n := len(b) - k - 1
				if n < 0 {
					n = 0
				}
				return piecesOf(b, n, d, boltsrv.Go)
			})
		}
	}
	reply("no-op chunks before the reply", openCase{}, func(s *boltsrv.Session, b []byte) []boltsrv.Piece {
		return []boltsrv.Piece{{Bytes: []byte{0, 0, 0, 0}}, {Bytes: b}}
	})
	out[len(out)-1].only = func(int) bool { return false } // leading end markers are not judged
	reply("the reply in chunks of one byte", openCase{good: true}, func(s *boltsrv.Session, b []byte) []boltsrv.Piece {
		var all []byte
		for _, ms := range must(ps.Dechunk(b)) {
			all = append(all, ps.Chunk(ms, 1)...)
		}
		return []boltsrv.Piece{{Bytes: all}}
	})
	// versions 1 and 2 recover after a rejected INIT
	rst := func(name string, f func(s *boltsrv.Session, ok []byte) []boltsrv.Piece) {
		add(openCase{name: "rejected; the recovery " + name, only: v12, failure: true,
			verdict: boltsrv.Verdict{Fail: "Neo.ClientError.Security.Unauthorized"}, reset: f})
	}
	for _, t := range thens {
		t := t
		rst(fmt.Sprintf("breaks: %v", t), func(s *boltsrv.Session, b []byte) []boltsrv.Piece { return []boltsrv.Piece{{Then: t}} })
		rst(fmt.Sprintf("breaks in its reply: %v", t), func(s *boltsrv.Session, b []byte) []boltsrv.Piece {
			return []boltsrv.Piece{{Bytes: b[:len(b)-1], Then: t}}
		})
		rst(fmt.Sprintf("is answered, then %v", t), func(s *boltsrv.Session, b []byte) []boltsrv.Piece {
			return []boltsrv.Piece{{Bytes: b, Then: t}}
		})
	}
	rst("is refused", func(s *boltsrv.Session, b []byte) []boltsrv.Piece {
		return []boltsrv.Piece{{Bytes: ch(boltsrv.Failure("Neo.X", "no", "u"))}}
	})
	rst("is ignored first", func(s *boltsrv.Session, b []byte) []boltsrv.Piece {
		return []boltsrv.Piece{{Bytes: ch(ps.S(0x7E))}, {Bytes: b}}
	})
	rst("is answered with a record", func(s *boltsrv.Session, b []byte) []boltsrv.Piece {
		return []boltsrv.Piece{{Bytes: ch(ps.S(0x71, anys()))}}
	})
	rst("is answered with garbage", func(s *boltsrv.Session, b []byte) []boltsrv.Piece {
		return []boltsrv.Piece{{Bytes: ps.Chunk([]byte{0xDF}, 10)}}
	})
	_ = v34
	for _, sh := range failShapes {
		if sh.name == "long message" {
			continue // too long for reads of single bytes
		}
		add(openCase{name: "rejected with metadata " + sh.name, failure: true, meta: sh.f,
			verdict: boltsrv.Verdict{Fail: "Neo.ClientError.Security.Unauthorized"}})
	}
	return out
}

func must(ms [][]byte, _ [][]int, err error) [][]byte {
	if err != nil {
		panic(err)
	}
	return ms
}

// openScenario enumerates server behaviours during opening; props are the properties asserted.
func openScenario(id, props string, ver int, cases []openCase, sizes []int) mc.Scenario {
	return mc.Scenario{ID: id, Horizon: time.Hour, Body: func(x *mc.X) {
		c := cases[x.Range(len(cases), "server")]
		if c.only != nil && !c.only(ver) {
			return
		}
		h := newHist(x, props, ver, faultPlan{})
		h.net.MaxRead = sizes[x.Choose(len(sizes), "read size")]
		h.log = append(h.log, c.name)
		if c.hs != nil {
			h.srv.Handshake = func(*boltsrv.Session, [4]uint32) []boltsrv.Piece { return c.hs(ver) }
		}
		h.srv.FailMeta = c.meta
		h.srv.Dial = func() vnet.Outcome { return c.dial }
		if c.badPwd {
			h.srv.Pass = "other"
		}
		h.srv.OnRequest = func(s *boltsrv.Session, r *boltsrv.Req) boltsrv.Verdict {
			if r.Tag == boltsrv.TagInit {
				return c.verdict
			}
			return boltsrv.Verdict{}
		}
		var sentMeta map[string]interface{}
		h.srv.OnReply = func(s *boltsrv.Session, r *boltsrv.Req, ms []ps.Struct) []boltsrv.Piece {
			p := s.Pieces(ms)
			var all []byte
			for _, k := range p {
				all = append(all, k.Bytes...)
			}
			for _, k := range ms {
				if k.Tag == boltsrv.TagFailure && sentMeta == nil {
					sentMeta, _ = k.Fields[0].(map[string]interface{})
				}
			}
			if r.Tag == boltsrv.TagInit && c.reply != nil {
				return c.reply(s, all)
			}
			if (r.Tag == boltsrv.TagReset || r.Tag == boltsrv.TagAck) && c.reset != nil {
				return c.reset(s, all)
			}
			return p
		}
		ctx := h.before("open")
		conn, err := connection.CreateBoltConn(h.connStr())
		var now int64
		var open, dials int
		var authed bool
		rt.Do(func() {
			now, open, dials = rt.NowNS(), h.net.OpenCount(), len(h.net.Dials)
			if n := len(h.srv.Sessions); n > 0 {
				authed = h.srv.Sessions[n-1].Authed
			}
		})
		took := time.Duration(now - ctx.start)
		h.log[len(h.log)-1] += " = " + classOf(err)
		h.check("C10", (conn == nil || reflect.ValueOf(conn).IsNil()) == (err != nil), "both-or-none", "opening returns connection %v and error %s", conn != nil, short(err))
		h.check("C10 C18", took <= 3*h.T+time.Second || c.good, "too-long", "opening took %v with a timeout of %v", took, h.T)
		if h.muted {
			return
		}
		if !c.good {
			h.check("C10", err != nil, "opened", "a connection was opened although: %s (server says authenticated: %v)", c.name, authed)
			h.check("C10 C16", open == 0, "socket-left-open", "opening failed (%s), but a socket is left open", short(err))
			h.check("C10", dials <= 1, "dialled-again", "%d connection attempts", dials)
			if c.failure {
				f, ok := failureOf(err)
				h.check("C13", ok, "failure-lost", "the server's failure cannot be obtained from the error: innermost %T: %s", innermost(err), short(err))
				h.check("C13", !ok || reflect.DeepEqual(f.Metadata, sentMeta), "failure-metadata", "the failure carries %v instead of %v", f.Metadata, sentMeta)
			}
			if c.instant {
				h.check("C10 C18", took == 0, "waits", "opening took %v although the outcome was known", took)
			}
			h.rest()
			x.Class("v%d %s", ver, short(err))
			return
		}
		h.check("C10 C12 C18", err == nil, "not-opened", "opening failed although the server agreed: %s", short(err))
		if h.muted || err != nil {
			return
		}
		h.conn = conn
		h.sess = h.srv.Sessions[0]
		v := []byte{0, 0, 0, byte(ver)}
		h.check("C10", conn.GetProtocolVersionNumber() == ver && reflect.DeepEqual(conn.GetProtocolVersionBytes(), v), "version", "the connection reports version %d, % x", conn.GetProtocolVersionNumber(), conn.GetProtocolVersionBytes())
		h.check("C10", authed, "not-authenticated", "a connection was handed out before the server authenticated it")
		h.check("C11", h.sess.Offers == [4]uint32{4, 3, 2, 1}, "offers", "versions offered: %v", h.sess.Offers)
		tok := h.sess.AuthTok
		h.check("C11", tok["scheme"] == "basic" && tok["principal"] == usr && tok["credentials"] == pwd, "auth", "auth token %v", tok)
		h.srv.OnRequest, h.srv.OnReply = nil, nil
		h.query(conn, false, 'R', 2, false, "")
		h.finish()
		h.rest()
		x.Class("v%d opened", ver)
	}}
}

func c10(tier string) []mc.Scenario {
	var out []mc.Scenario
	sizes := []int{0, 1, 3}
	if tier == "thorough" {
		sizes = []int{0, 1, 2, 3, 4, 5, 7}
	}
	for ver := 1; ver <= 4; ver++ {
		out = append(out, openScenario(fmt.Sprintf("v%d/open", ver), "C10", ver, openCases(tier), sizes))
	}
	return out
}

func init() {
	register(&mc.Check{Property: "C10", Scenarios: c10,
		Bounds:      "four server versions x every behaviour of a catalogue (dial outcomes; 33 other handshake answers; handshake and authentication replies cut after every byte by FIN, reset or silence, or delivered in two pieces with delays below the timeout; 20 replies of wrong kind or form; rejected credentials with every outcome of the recovery) x read sizes",
		Assumptions: []string{"a server that answers the recovery with IGNORED for ever is not considered", "no-op chunks before the first reply are not judged"}})
}
