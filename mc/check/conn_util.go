package check

import (
	"database/sql/driver"
	stderrors "errors"
	"fmt"
	"reflect"
	"strings"
	"time"

	"verif/boltsrv"
	"verif/gen/bolt/connection"
	"verif/gen/bolt/errors"
	"verif/gen/bolt/structures/messages"
	"verif/mc"
	"verif/ps"
	"verif/rt"
	"verif/vnet"
)

const (
	addr1 = "h1:7687"
	usr   = "neo4j"
	pwd   = "secret"
)

// innermost follows all ways in which the driver wraps errors.
func innermost(err error) error {
	for i := 0; i < 100; i++ {
		if e, ok := err.(*errors.Error); ok {
			in := e.InnerMost()
			if in == error(e) {
				return e
			}
			err = in
			continue
		}
		u := stderrors.Unwrap(err)
		if u == nil {
			return err
		}
		err = u
	}
	return err
}

func failureOf(err error) (messages.FailureMessage, bool) {
	f, ok := innermost(err).(messages.FailureMessage)
	if !ok {
		if p, isP := innermost(err).(*messages.FailureMessage); isP && p != nil {
			return *p, true
		}
	}
	return f, ok
}

func badConn(err error) bool { return innermost(err) == driver.ErrBadConn }

func short(err error) string {
	if err == nil {
		return "<nil>"
	}
	s := err.Error()
	if i := strings.Index(s, "\n\n Stack Trace"); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

// faultPlan says what may go wrong in a scenario.
type faultPlan struct {
	fail    bool // the server rejects a request
	drop    bool // the transport breaks before or after a request is processed, or within its reply
	silence bool // ... or stops
	reset   bool // also requests sent for recovery and closing are hit
	tamper  bool // replies of the wrong kind and garbage
	cuts    int  // number of cut positions within a reply (0: none)
	closing bool // faults may hit the final close
}

// hist executes a history of client calls on one connection against a model.
type hist struct {
	x     *mc.X
	props map[string]bool
	net   *vnet.Net
	srv   *boltsrv.Server
	ver   int
	conn  connection.IConnection
	sess  *boltsrv.Session
	T     time.Duration
	plan  faultPlan
	armed bool

	tx      connection.ITransaction
	txm     *txModel
	oldTx   connection.ITransaction
	olds    []connection.ITransaction // all of them
	txs     []*txModel
	n       int
	autoW   []string // auto-commit writes reported as successful
	noW     []string // auto-commit writes that certainly did not happen
	closed  bool     // by the driver or the caller
	broken  bool     // the driver has seen that the transport is unusable
	gone    bool     // the peer is gone, which the driver may not have noticed
	faults  []*fault // of the current call
	log     []string
	slow    time.Duration
	drib    bool // every byte is delayed by slow
	stalled bool // the server reads nothing
	paused  bool // the peer will read again
	sawGot  int
	tol     time.Duration
	pre     string // calls made before the enumerated ones
	noBig   bool   // leave out big messages
	muted   bool
	kept    []func() // checks that what calls returned is still what it was
}

type txModel struct {
	db        string
	toks      []string
	state     string // open, committed, ended, unknown
	committed bool
}

type fault struct {
	kind   string // fail, failreset, transport, tamper
	req    *boltsrv.Req
	meta   map[string]interface{}
	sure   bool // the call cannot have succeeded
	undone bool // ... as the server did not do what was asked
	then   boltsrv.Then
}

func newHist(x *mc.X, props string, ver int, plan faultPlan) *hist {
	h := &hist{x: x, props: map[string]bool{}, ver: ver, plan: plan, T: 5 * time.Second}
	for _, p := range strings.Fields(props) {
		h.props[p] = true
	}
	h.net = vnet.New()
	h.srv = &boltsrv.Server{Ver: ver, DB: &boltsrv.DB{}, User: usr, Pass: pwd}
	h.srv.OnRequest = h.onRequest
	h.srv.OnReply = h.onReply
	h.net.Listen(addr1, h.srv)
	return h
}

// check asserts for the given properties.
func (h *hist) check(props string, ok bool, key, format string, a ...interface{}) {
	if ok {
		return
	}
	for _, p := range strings.Fields(props) {
		if h.props[p] {
			log := h.log
			if n := len(log); n > 30 {
				log = append(append(append([]string(nil), log[:10]...), fmt.Sprintf("... (%d)", n-20)), log[n-10:]...)
			}
			h.x.Fail(key, "v%d: %s\nhistory: %s\n%s", h.ver, fmt.Sprintf(format, a...), strings.Join(log, " ; "), h.srv.Dump())
		}
	}
	// for another property: nothing that follows can be judged
	h.muted = true
}

func (h *hist) connStr() string {
	return fmt.Sprintf("bolt://%s:%s@%s?timeout=%d", usr, pwd, addr1, int(h.T/time.Second))
}

// open opens the connection without faults.
func (h *hist) open() bool {
	c, err := connection.CreateBoltConn(h.connStr())
	if err != nil || c == nil {
		h.check("C10 C11 C12 C13 C14 C15 C16 C18", false, "open", "opening a connection to a healthy server failed: %v", short(err))
		return false
	}
	h.conn = c
	h.sess = h.srv.Sessions[len(h.srv.Sessions)-1]
	h.check("C10", c.GetProtocolVersionNumber() == h.ver, "version", "connection reports version %d", c.GetProtocolVersionNumber())
	h.armed = true
	return true
}

func recovery(r *boltsrv.Req) bool {
	return r.Tag == boltsrv.TagReset || r.Tag == boltsrv.TagAck || r.Tag == boltsrv.TagGoodbye
}

// onRequest runs in the controller.
func (h *hist) onRequest(s *boltsrv.Session, r *boltsrv.Req) boltsrv.Verdict {
	if !h.armed || r.Tag == boltsrv.TagInit {
		return boltsrv.Verdict{}
	}
	if recovery(r) && !h.plan.reset {
		return boltsrv.Verdict{}
	}
	type alt struct {
		v boltsrv.Verdict
		f *fault
	}
	alts := []alt{{}}
	code := fmt.Sprintf("Neo.ClientError.Test.F%d", len(h.faults))
	if h.plan.fail && r.Tag != boltsrv.TagGoodbye && s.St != boltsrv.Failed {
		if r.Tag == boltsrv.TagReset {
			alts = append(alts, alt{boltsrv.Verdict{Fail: code}, &fault{kind: "failreset"}})
		} else {
			alts = append(alts, alt{boltsrv.Verdict{Fail: code}, &fault{kind: "fail"}})
			if r.Tag == boltsrv.TagPull {
				alts = append(alts, alt{boltsrv.Verdict{Fail: code, After: 1}, &fault{kind: "fail"}})
			}
		}
	}
	if h.plan.fail && r.Tag == boltsrv.TagReset && s.St == boltsrv.Failed {
		alts = append(alts, alt{boltsrv.Verdict{Fail: code}, &fault{kind: "failreset"}})
	}
	if h.plan.drop {
		alts = append(alts, alt{boltsrv.Verdict{Before: boltsrv.FIN}, &fault{kind: "transport", then: boltsrv.FIN, sure: r.Tag != boltsrv.TagGoodbye}},
			alt{boltsrv.Verdict{Before: boltsrv.RST}, &fault{kind: "transport", then: boltsrv.RST, sure: r.Tag != boltsrv.TagGoodbye}})
	}
	if h.plan.silence {
		alts = append(alts, alt{boltsrv.Verdict{Before: boltsrv.Silence}, &fault{kind: "transport", then: boltsrv.Silence, sure: r.Tag != boltsrv.TagGoodbye}})
	}
	if h.plan.tamper && s.St != boltsrv.Failed && r.Tag != boltsrv.TagReset && r.Tag != boltsrv.TagGoodbye {
		alts = append(alts, alt{boltsrv.Verdict{Ignored: true}, &fault{kind: "tamper", sure: true, undone: true}})
	}
	c := h.x.Fault(len(alts), "fault at "+r.Name)
	if c == 0 {
		return boltsrv.Verdict{}
	}
	f := alts[c].f
	f.req = r
	h.faults = append(h.faults, f)
	rt.Tracef("FAULT %s %v at %s", f.kind, f.then, r.Name)
	return alts[c].v
}

type tamper struct {
	name string
	f    func(ms []ps.Struct) [][]byte
}

func frames(ms []ps.Struct) [][]byte {
	var out [][]byte
	for _, m := range ms {
		out = append(out, ps.Chunk(ps.Encode(m), 65535))
	}
	return out
}

var tampers = []tamper{
	{"IGNORED instead of the first reply", func(ms []ps.Struct) [][]byte {
		return append([][]byte{ps.Chunk(ps.Encode(ps.S(0x7E)), 65535)}, frames(ms[1:])...)
	}},
	{"unknown structure instead of the last reply", func(ms []ps.Struct) [][]byte {
		return append(frames(ms[:len(ms)-1]), ps.Chunk(ps.Encode(ps.S(0x55, "x")), 65535))
	}},
	{"an integer instead of the first reply", func(ms []ps.Struct) [][]byte {
		return append([][]byte{ps.Chunk([]byte{0x07}, 65535)}, frames(ms[1:])...)
	}},
	{"an undefined marker in the last reply", func(ms []ps.Struct) [][]byte {
		return append(frames(ms[:len(ms)-1]), ps.Chunk([]byte{0xB1, 0x70, 0xDF}, 65535))
	}},
	{"a message that ends early instead of the last reply", func(ms []ps.Struct) [][]byte {
		return append(frames(ms[:len(ms)-1]), ps.Chunk([]byte{0xB1, 0x70, 0xA1, 0x81}, 65535))
	}},
	{"a record where a summary is due", func(ms []ps.Struct) [][]byte {
		if len(ms) > 1 {
			return nil
		}
		return [][]byte{ps.Chunk(ps.Encode(ps.S(0x71, anys(int64(1)))), 65535)}
	}},
}

func (h *hist) onReply(s *boltsrv.Session, r *boltsrv.Req, msgs []ps.Struct) []boltsrv.Piece {
	for i := len(msgs) - 1; i >= 0; i-- {
		if msgs[i].Tag == boltsrv.TagFailure {
			for _, f := range h.faults {
				if f.req == r && f.meta == nil {
					f.meta, _ = msgs[i].Fields[0].(map[string]interface{})
				}
			}
			if len(h.faults) == 0 || h.faults[len(h.faults)-1].req != r {
				m, _ := msgs[i].Fields[0].(map[string]interface{})
				h.faults = append(h.faults, &fault{kind: "fail", req: r, meta: m})
			}
		}
	}
	pieces := s.Pieces(msgs)
	if h.slow > 0 {
		pieces = nil
		for _, p := range s.Pieces(msgs) {
			k := len(p.Bytes) / 2
			if h.drib {
				for i := range p.Bytes {
					pieces = append(pieces, boltsrv.Piece{Bytes: p.Bytes[i : i+1], Delay: h.slow})
				}
				continue
			}
			pieces = append(pieces, boltsrv.Piece{Bytes: p.Bytes[:k], Delay: h.slow}, boltsrv.Piece{Bytes: p.Bytes[k:], Delay: h.slow})
		}
	}
	if !h.armed || r.Tag == boltsrv.TagInit || (recovery(r) && !h.plan.reset) || len(msgs) == 0 {
		return pieces
	}
	var all []byte
	for _, p := range pieces {
		all = append(all, p.Bytes...)
	}
	type alt struct {
		p []boltsrv.Piece
		f *fault
	}
	alts := []alt{{p: pieces}}
	if h.plan.cuts > 0 {
		// cut positions: 0, 1, ..., then the end
		pos := map[int]bool{}
		var order []int
		add := func(p int) {
			if p >= 0 && p <= len(all) && !pos[p] {
				pos[p] = true
				order = append(order, p)
			}
		}
		add(0)
		add(len(all))
		off := 0
		for _, p := range pieces {
			if len(order) < h.plan.cuts {
				add(off + 1)
				add(off + len(p.Bytes)/2)
				add(off + len(p.Bytes) - 1)
				add(off + len(p.Bytes))
			}
			off += len(p.Bytes)
		}
		if h.plan.cuts >= 1000 {
			for i := range all {
				add(i)
			}
		}
		for _, p := range order {
			for _, t := range []boltsrv.Then{boltsrv.FIN, boltsrv.RST, boltsrv.Silence} {
				if t == boltsrv.Silence && !h.plan.silence || t != boltsrv.Silence && !h.plan.drop {
					continue
				}
				if t == boltsrv.RST && p > 0 && p < len(all) && p != len(all)/2 {
					continue // what was sent is lost anyway
				}
				alts = append(alts, alt{[]boltsrv.Piece{{Bytes: all[:p], Then: t}}, &fault{kind: "transport", then: t, sure: p < len(all)}})
			}
		}
	}
	if h.plan.tamper && s.St != boltsrv.Failed {
		for _, t := range tampers {
			if t.name == "a record where a summary is due" && r.Tag == boltsrv.TagPull && r.Query == "" && s.Ver >= 3 {
				continue
			}
			if fs := t.f(msgs); fs != nil {
				if t.name == "a record where a summary is due" && r.Tag == boltsrv.TagPull {
					continue
				}
				var p []boltsrv.Piece
				for _, b := range fs {
					p = append(p, boltsrv.Piece{Bytes: b})
				}
				alts = append(alts, alt{p, &fault{kind: "tamper", sure: true}})
			}
		}
	}
	c := h.x.Fault(len(alts), "fault in the reply to "+r.Name)
	f := alts[c].f
	if f != nil {
		f.req = r
		h.faults = append(h.faults, f)
		rt.Tracef("FAULT %s %v in the reply to %s", f.kind, f.then, r.Name)
	}
	return alts[c].p
}

// callCtx is the situation before a call.
type callCtx struct {
	sent, reqs, dials int
	start             int64
	usable            bool
}

func (h *hist) before(format string, a ...interface{}) callCtx {
	s := fmt.Sprintf(format, a...)
	h.log = append(h.log, s)
	h.x.Tracef("CALL %s", s)
	h.faults = nil
	var c callCtx
	rt.Do(func() {
		for _, k := range h.net.Conns {
			c.sent += k.Sent
		}
		c.reqs = h.srv.Requests()
		c.dials = len(h.net.Dials)
		c.start = rt.NowNS()
	})
	c.usable = !h.closed && !h.broken
	for i, t := range h.olds {
		if !h.muted && !t.IsClosed() {
			h.check("C14", false, "tx-not-closed", "transaction %d of the connection, long over, does not report itself closed any more", i)
		}
	}
	return c
}

func (h *hist) untouched(c callCtx) bool {
	ok := false
	rt.Do(func() {
		sent := 0
		for _, k := range h.net.Conns {
			sent += k.Sent
		}
		ok = sent == c.sent && len(h.net.Dials) == c.dials
	})
	return ok
}

// outcome of the faults of a call: what the call must do.
func (h *hist) verdict() (fail *fault, transport *fault, tamper *fault, recovered bool) {
	recovered = true
	for _, f := range h.faults {
		switch f.kind {
		case "fail":
			if fail == nil {
				fail = f
			}
		case "failreset":
			recovered = false
		case "transport":
			if transport == nil {
				transport = f
			}
		case "tamper":
			if tamper == nil {
				tamper = f
			}
		}
	}
	return
}

// after judges a call that talks to the server, given its error. It returns whether the call
// counts as successful.
func (h *hist) after(c callCtx, what string, err error) bool {
	h.log[len(h.log)-1] += " = " + classOf(err)
	var now int64
	var st boltsrv.State
	rt.Do(func() { now = rt.NowNS(); st = h.sess.St })
	took := time.Duration(now - c.start)
	fail, tr, tm, recovered := h.verdict()
	if !c.usable {
		k := "used-after-break"
		p := "C15"
		if h.closed {
			p, k = "C13 C15 C16", "used-after-close"
		}
		h.check(p, err != nil, k, "%s succeeds on a connection that is closed or broken", what)
		h.check(p, h.untouched(c), k+"-traffic", "%s exchanges data on a connection that is closed or broken", what)
		return false
	}
	limit := 3*h.T + time.Second
	h.check("C18 C15 C16", took <= limit || h.slow > 0, "too-long", "%s took %v with a timeout of %v", what, took, h.T)
	if h.stalled || h.slow >= h.T {
		h.check("C18 C15", err != nil, "success-without-server", "%s reports success although the server did not answer in time", what)
		h.check("C18 C15", badConn(err), "not-bad-conn", "%s: a timeout is reported as %T: %s", what, innermost(err), short(err))
		h.check("C18", took >= h.T, "too-early", "%s gave up after %v with a timeout of %v", what, took, h.T)
		h.check("C18", took <= limit, "too-long", "%s took %v with a timeout of %v", what, took, h.T)
		h.broke(err)
		return false
	}
	if fail == nil && tr == nil && tm == nil && recovered && !h.gone {
		h.check("C12 C13 C14 C18", err == nil, "spurious-error", "%s failed although the server answered properly: %s", what, short(err))
		if err != nil {
			// also unexpected for the properties not asserted: stop judging
			h.muted = true
		}
		return err == nil
	}
	// which event came first decides
	first := h.firstEvent()
	if first != nil && first.kind == "fail" && tr != nil && !recovery(tr.req) && err != nil {
		// the transport may break before the client reads the failure
		if _, ok := failureOf(err); !ok {
			h.check("C15", badConn(err), "not-bad-conn", "%s: a broken transport is reported as %T: %s", what, innermost(err), short(err))
			h.broke(err)
			return false
		}
	}
	if first != nil && first.kind == "tamper" && fail != nil && recovered {
		// an unexpected message was passed over in favour of the failure that followed, and the
		// server has reset the conversation
		if _, ok := failureOf(err); ok {
			first, tm = fail, nil
		}
	}
	lostRefusal := false
	for _, f := range h.faults {
		if f != nil && (f.kind == "transport" && (f.sure || f.then == boltsrv.RST) || f.kind == "tamper") && recovery(f.req) {
			lostRefusal = true
		}
	}
	if lostRefusal {
		recovered = true // as far as the client can know: the stream broke
	}
	switch {
	case first == nil || h.gone && first.kind != "fail":
		// the peer was gone before this call
		h.check("C12 C15", err != nil, "success-without-server", "%s reports success although the server is gone", what)
		h.check("C15", err == nil || badConn(err), "not-bad-conn", "%s on a lost connection fails with %s", what, short(err))
		h.broke(err)
		return false
	case first.kind == "fail":
		h.check("C12 C13 C14", err != nil, "failure-swallowed", "%s reports success although the server rejected it", what)
		fm, ok := failureOf(err)
		h.check("C13", ok, "failure-lost", "%s: the server's failure cannot be obtained from the error: innermost %T: %s", what, innermost(err), short(err))
		if ok {
			h.check("C13 C12", reflect.DeepEqual(fm.Metadata, first.meta), "failure-metadata", "%s: the failure carries %v instead of %v", what, fm.Metadata, first.meta)
			meta := first.meta
			h.kept = append(h.kept, func() {
				h.check("C13", reflect.DeepEqual(fm.Metadata, meta), "failure-changes", "later calls turn the failure of %s into %v instead of %v", what, fm.Metadata, meta)
			})
			cd, isCd := first.meta["code"].(string)
			ms, isMs := first.meta["message"].(string)
			// what the accessors say where the server sent no text is not judged
			gc, gm := fm.GetCode(), fm.GetMessage()
			h.check("C13", (gc == cd || !isCd) && (gm == ms || !isMs), "failure-accessors", "%s: code %q, message %q", what, gc, gm)
			h.check("C13 C50", strings.Contains(err.Error(), ms), "failure-text", "%s: the error text lacks the failure message: %s", what, short(err))
		}
		switch {
		case !recovered:
			h.closed = true
			rt.Do(func() {
				if h.net.OpenCount() != 0 {
					h.faults = append(h.faults, nil)
				}
			})
			h.check("C13", len(h.faults) == 0 || h.faults[len(h.faults)-1] != nil, "not-closed-after-refused-recovery", "the recovery was refused, but the connection is not closed")
		case tr != nil:
			if tr.then != boltsrv.RST && !tr.sure {
				h.gone = true // only after the recovery
			} else {
				h.broken = true
			}
		case tm != nil:
			h.broken = true
		default:
			h.check("C13", st == boltsrv.Ready, "not-recovered", "after the failure of %s the server is in state %v", what, st)
		}
		return false
	case first.kind == "tamper":
		if first.undone {
			h.check("C12 C14 C15", err != nil, "undone-but-success", "%s reports success although the server ignored it", what)
		}
		h.check("C12 C15", err != nil, "tampered-accepted", "%s reports success although a reply was not understandable", what)
		h.broke(err)
		return false
	}
	// transport
	if first.sure {
		h.check("C12 C15", err != nil, "lost-but-success", "%s reports success although its reply never arrived completely", what)
	}
	if err != nil {
		_, isF := failureOf(err)
		h.check("C15 C13", !isF, "transport-as-failure", "%s: a broken transport is reported as a server failure: %s", what, short(err))
		h.check("C15", badConn(err), "not-bad-conn", "%s: a broken transport is reported as %T: %s", what, innermost(err), short(err))
		if first.then == boltsrv.Silence {
			h.check("C18", took >= h.T, "too-early", "%s gave up after %v with a timeout of %v", what, took, h.T)
		}
		h.broke(err)
		return false
	}
	h.gone = true
	return true
}

func (h *hist) firstEvent() *fault {
	for _, f := range h.faults {
		if f != nil && f.kind != "failreset" {
			return f
		}
	}
	return nil
}

func (h *hist) broke(err error) {
	h.broken = true
}

func classOf(err error) string {
	switch {
	case err == nil:
		return "ok"
	case badConn(err):
		return "badconn"
	}
	if _, ok := failureOf(err); ok {
		return "failure"
	}
	return "error"
}

// refusedLocally judges a call that must be refused before anything is sent.
func (h *hist) refusedLocally(c callCtx, props, what string, err error) {
	h.log[len(h.log)-1] += " = " + classOf(err)
	h.check(props, err != nil, "not-refused", "%s is not refused", what)
	h.check(props, h.untouched(c), "refused-after-sending", "%s is refused, but something was sent", what)
}

// ended notes the end of the open transaction.
func (h *hist) ended(state string) {
	if h.txm != nil {
		h.txm.state = state
		h.oldTx = h.tx
		h.olds = append(h.olds, h.tx)
		h.tx, h.txm = nil, nil
	}
}

// syncTx applies what a failed call means for the open transaction, and checks that it
// reports itself closed.
func (h *hist) syncTx(err error) {
	if err == nil || h.txm == nil {
		return
	}
	fail, _, _, _ := h.verdict()
	if fail != nil || h.broken || h.closed {
		t := h.tx
		h.ended("ended")
		if !h.muted {
			h.check("C14", t.IsClosed(), "tx-not-closed", "the transaction is over but does not report itself closed")
		}
	}
}

// rowsFor are the rows the server produces for a RETURN.
func rowsFor(uid, tok string, n int) [][]interface{} {
	out := [][]interface{}{}
	for i := 0; i < n; i++ {
		out = append(out, []interface{}{uid, tok, int64(i)})
	}
	return out
}

// querier is a connection or transaction.
type querier interface {
	Exec(query string, params connection.QueryParams) (connection.IResult, error)
	ExecWithDb(query string, params connection.QueryParams, db string) (connection.IResult, error)
	Query(query string, params connection.QueryParams) ([][]interface{}, connection.IResult, error)
	QueryWithDb(query string, params connection.QueryParams, db string) ([][]interface{}, connection.IResult, error)
}

// query performs one statement and judges it. kind: R rows, W write, F failure at run, P failure
// at pull after n records, B parameters that cannot be encoded.
func (h *hist) query(q querier, stale bool, kind byte, n int, exec bool, db string) {
	h.n++
	tok := fmt.Sprintf("t%d", h.n)
	inTx := q != querier(h.conn)
	var text string
	params := connection.QueryParams{"p": tok, "l": []interface{}{int64(1), "x"}}
	if n == 2 {
		params = nil
	}
	switch kind {
	case 'X':
		text = "ECHO " + tok
		params = connection.QueryParams{"tok": tok, "rich": richParams(n)}
	case 'T':
		text = fmt.Sprintf(oddTexts[n].form, tok) + oddTexts[n].more
		params = connection.QueryParams{"p": tok}
	case 'R', 'B':
		text = fmt.Sprintf("RETURN %d %s", n, tok)
		if kind == 'B' {
			params = connection.QueryParams{"p": struct{ A int }{1}}
		}
	case 'Z':
		text = fmt.Sprintf("SHAPES %d %s", n, tok)
	case 'W':
		text = "W " + tok
	case 'F':
		text = "FAIL Neo.ClientError." + tok
	case 'P':
		text = fmt.Sprintf("FAILPULL %d Neo.ClientError.%s %s", n, tok, tok)
	}
	who := "conn"
	if inTx {
		who = "tx"
	}
	if stale {
		who = "old-tx"
	}
	c := h.before("%s.%c(%s)%s", who, kind, text, db)
	var rows [][]interface{}
	var res connection.IResult
	var err error
	switch {
	case exec && db == "":
		res, err = q.Exec(text, params)
	case exec:
		res, err = q.ExecWithDb(text, params, db)
	case db == "":
		rows, res, err = q.Query(text, params)
	default:
		rows, res, err = q.QueryWithDb(text, params, db)
	}
	if h.muted {
		return
	}
	if stale {
		p := "C14"
		if h.closed {
			p = "C14 C16"
		}
		h.log[len(h.log)-1] += " = " + classOf(err)
		h.check(p, err != nil, "ended-tx-used", "a statement of a transaction that has ended reports success")
		h.check(p, h.untouched(c), "ended-tx-executes", "a statement of a transaction that has ended is sent to the server")
		return
	}
	// a statement on the connection while a transaction is open runs inside of it
	if db != "" && h.ver < 4 && c.usable {
		h.refusedLocally(c, "C11", "a statement on a named database", err)
		return
	}
	if db != "" && h.txm != nil && h.txm.db != db && c.usable {
		h.refusedLocally(c, "C11", "a statement on another database than that of the transaction", err)
		return
	}
	if kind == 'B' && c.usable {
		h.refusedLocally(c, "C11 C12", "a statement with parameters that cannot be encoded", err)
		return
	}
	okk := h.after(c, "statement", err)
	var sr *boltsrv.Req
	rt.Do(func() { _, sr = h.srv.Find(text) })
	if h.muted {
		return
	}
	if c.usable && sr != nil {
		h.checkRun(sr, params, db)
	}
	if kind == 'W' && h.txm == nil {
		if okk {
			h.autoW = append(h.autoW, tok)
		} else if sr == nil || !c.usable {
			h.noW = append(h.noW, tok)
		}
	}
	if kind == 'W' && h.txm != nil {
		h.txm.toks = append(h.txm.toks, tok)
	}
	if err == nil && c.usable {
		h.check("C11 C12", sr != nil, "success-without-request", "a statement the server never saw reports success")
		if sr == nil || h.muted {
			return
		}
		if !exec {
			want := [][]interface{}{}
			if kind == 'R' {
				want = rowsFor(sr.UID, tok, n)
			}
			if kind == 'Z' {
				want = boltsrv.Shapes(n, sr.UID, tok)
			}
			if kind == 'X' || kind == 'T' {
				want = [][]interface{}{{sr.UID, map[string]interface{}(params), int64(0)}}
			}
			h.check("C12 C15", len(rows) == 0 && len(want) == 0 || reflect.DeepEqual(rows, want), "wrong-rows", "%s returned %v instead of %v", text, rows, want)
			if len(want) > 0 && !h.muted {
				h.kept = append(h.kept, func() {
					h.check("C12", reflect.DeepEqual(rows, want), "rows-change", "later calls turn what %s returned into %v instead of %v", text, rows, want)
				})
			}
		}
		if res == nil || reflect.ValueOf(res).IsNil() {
			h.check("C12", false, "no-summary", "%s returned no summary", text)
			return
		}
		sent := sr.Summary
		h.check("C12", sent != nil && sameMap(res.Metadata(), sent), "wrong-summary", "%s returned the summary %v instead of %v", text, ps.String(res.Metadata()), ps.String(sent))
		h.kept = append(h.kept, func() {
			h.check("C12", sameMap(res.Metadata(), sent), "summary-changes", "later calls turn the summary of %s, %v, into %v", text, ps.String(sent), ps.String(res.Metadata()))
		})
	} else if err != nil {
		h.check("C12 C15", len(rows) == 0, "rows-with-error", "%s returned an error and %d rows", text, len(rows))
	}
	h.syncTx(err)
}

func sameMap(a, b map[string]interface{}) bool {
	return len(a) == 0 && len(b) == 0 || ps.Equal(a, b)
}

// richParams are parameter values of all kinds and sizes, as they come back.
func richParams(n int) interface{} {
	big := n >= 3
	out := map[string]interface{}{
		"": nil, "t": true, "f": false, "i": []interface{}{int64(0), int64(-1), int64(-17), int64(127), int64(128), int64(-129), int64(40000), int64(1) << 40, int64(-1) << 63},
		"d": []interface{}{1.5, -0.25}, "s": []interface{}{"", "a", "世界🚀\x00", strings.Repeat("x", 16), strings.Repeat("y", 256)},
		"m": map[string]interface{}{"k": map[string]interface{}{"l": []interface{}{[]interface{}{}, map[string]interface{}{}}}},
	}
	if big {
		l := make([]interface{}, 300)
		for i := range l {
			l[i] = int64(i)
		}
		out["long"] = l
		out["big"] = strings.Repeat("z", 70000)
	}
	switch n {
	case 4:
		out["huge"] = strings.Repeat("h", 1<<20+7)
	case 5:
		out["huge"] = strings.Repeat("h", 5000000)
	case 6:
		out["huge"] = strings.Repeat("h", 1<<24+7)
	case 7:
		l := make([]interface{}, 200000)
		for i := range l {
			l[i] = int64(i)
		}
		out["huge"] = l
	}
	return out
}

// checkRun judges the request of a statement.
func (h *hist) checkRun(r *boltsrv.Req, params connection.QueryParams, db string) {
	got, _ := r.Fields[1].(map[string]interface{})
	want := map[string]interface{}{}
	for k, v := range params {
		want[k] = v
	}
	h.check("C11", ps.Equal(got, want), "wrong-parameters", "parameters %s were sent instead of %s", ps.String(got), ps.String(want))
	if h.ver >= 3 {
		g, _ := r.Meta["db"].(string)
		if h.txm != nil {
			db = ""
		}
		h.check("C11", g == db, "wrong-database", "%q was sent as database instead of %q", g, db)
		h.check("C11", r.Meta["mode"] != "r", "wrong-mode", "read access was requested for a connection with write access")
		_, tm := r.Meta["tx_timeout"]
		_, md := r.Meta["tx_metadata"]
		h.check("C11", !tm && !md, "uncalled-metadata", "transaction settings nobody asked for: %v", r.Meta)
	}
}

func (h *hist) begin(db string) {
	c := h.before("begin(%s)", db)
	n0 := len(h.sess.Log)
	tx, err := h.conn.Begin, error(nil)
	var t connection.ITransaction
	if db == "" {
		t, err = tx()
	} else {
		t, err = h.conn.BeginWithDatabase(db)
	}
	if h.muted {
		return
	}
	if h.txm != nil && c.usable {
		h.log[len(h.log)-1] += " = " + classOf(err)
		h.check("C14 C11", err != nil, "nested-begin", "a second transaction was started inside the open one")
		h.check("C14 C11", h.untouched(c), "nested-begin-sent", "starting a second transaction inside the open one sends something")
		return
	}
	if db != "" && h.ver < 4 && c.usable {
		h.refusedLocally(c, "C11", "beginning on a named database", err)
		return
	}
	okk := h.after(c, "begin", err)
	if h.muted {
		return
	}
	if okk {
		h.check("C14", t != nil && !reflect.ValueOf(t).IsNil(), "no-tx", "begin returned no transaction")
		if h.muted {
			return
		}
		var dirty bool
		var mode, gdb interface{}
		rt.Do(func() {
			dirty = h.sess.InTx()
			for _, r := range h.sess.Log[n0:] {
				if r.Tag == boltsrv.TagBegin {
					mode, gdb = r.Meta["mode"], r.Meta["db"]
				}
			}
		})
		h.check("C14", dirty || h.gone, "not-begun", "begin reports success, but the server has no transaction")
		h.check("C11", mode != "r", "wrong-mode", "read access was requested for a transaction with write access")
		if h.ver >= 4 {
			g, _ := gdb.(string)
			h.check("C11", g == db, "wrong-database", "transaction begun on %q instead of %q", g, db)
		}
		h.check("C14", !t.IsClosed(), "new-tx-closed", "a new transaction reports itself closed")
		h.tx = t
		h.txm = &txModel{db: db, state: "open"}
		h.txs = append(h.txs, h.txm)
	} else {
		h.check("C12 C14", t == nil || reflect.ValueOf(t).IsNil(), "tx-with-error", "begin returned an error and a transaction")
	}
}

func (h *hist) end(commit bool, stale bool) {
	name := "rollback"
	t := h.tx
	if stale {
		t = h.oldTx
	}
	f := t.Rollback
	if commit {
		name = "commit"
		f = t.Commit
	}
	if stale {
		name = "old-tx." + name
	}
	c := h.before("%s", name)
	err := f()
	if h.muted {
		return
	}
	if stale {
		h.log[len(h.log)-1] += " = " + classOf(err)
		h.check("C14", err != nil, "ended-tx-ended-again", "%s of a transaction that has ended reports success", name)
		h.check("C14", h.untouched(c), "ended-tx-executes", "%s of a transaction that has ended is sent to the server", name)
		return
	}
	okk := h.after(c, name, err)
	if h.muted {
		return
	}
	if h.txm == nil {
		return
	}
	m := h.txm
	if okk {
		if commit {
			m.committed = true
		}
		var dirty string
		rt.Do(func() {
			if h.sess.InTx() {
				dirty = "open"
			}
		})
		h.check("C14", dirty == "", "not-ended", "%s reports success, but the server's transaction is still open", name)
		h.ended("done")
		h.check("C14", t.IsClosed(), "tx-not-closed", "after %s the transaction does not report itself closed", name)
		return
	}
	if commit && !h.muted {
		// the server may have processed it
		for _, fl := range h.faults {
			if fl != nil && (fl.kind == "tamper" || fl.kind == "transport") {
				m.state = "unknown"
			}
		}
		st := m.state
		h.syncTx(err)
		if st == "unknown" {
			m.state = st
		}
		return
	}
	h.syncTx(err)
}

func (h *hist) validate() {
	c := h.before("validate")
	got := h.conn.ValidateOpen()
	h.log[len(h.log)-1] += fmt.Sprintf(" = %v", got)
	if h.muted {
		return
	}
	switch {
	case !c.usable:
		p := "C15"
		if h.closed {
			p = "C16 C13"
		}
		h.check(p, !got, "reports-open", "a closed or broken connection reports itself open")
	case h.gone:
		fin := false
		rt.Do(func() { fin = h.sess.C.Gone() })
		if fin {
			h.check("C31 C15 C43", !got, "dead-reports-open", "a connection whose peer has closed it reports itself open")
			h.broken = true
			if h.txm != nil {
				h.ended("ended")
			}
		}
	default:
		h.check("C13 C15 C16 C12", got, "healthy-reports-closed", "a healthy connection reports itself not open")
	}
	h.check("C11 C12", h.untouched(c), "validate-sends", "asking whether the connection is open sends something")
}

func (h *hist) makeIdle() {
	c := h.before("makeIdle")
	had := h.txm
	err := h.conn.MakeIdle()
	if h.muted {
		return
	}
	if had == nil {
		h.log[len(h.log)-1] += " = " + classOf(err)
		return
	}
	t := h.tx
	okk := h.after(c, "makeIdle", err)
	if h.muted {
		return
	}
	if okk {
		h.ended("done")
		h.check("C14", t.IsClosed(), "tx-not-closed", "after the rollback the transaction does not report itself closed")
		return
	}
	h.syncTx(err)
}

// close performs a close and judges it.
func (h *hist) close() {
	c := h.before("close")
	was := h.closed
	var saidBefore, dead, unclean bool
	var st boltsrv.State
	rt.Do(func() {
		saidBefore = h.sess.Said
		dead = h.sess.Dead()
		st = h.sess.St
		unclean = h.sess.Dirty() != "" && !h.sess.InTx()
	})
	err := h.conn.Close()
	h.log[len(h.log)-1] += " = " + classOf(err)
	if h.muted {
		return
	}
	var took time.Duration
	var open, closes int
	var said bool
	rt.Do(func() {
		took = time.Duration(rt.NowNS() - c.start)
		open = h.net.OpenCount()
		closes = h.sess.C.Closes
		said = h.sess.Said
	})
	if was {
		h.check("C16", err == errors.ErrClosed || innermost(err) == error(errors.ErrClosed), "second-close", "closing a closed connection returns %s", short(err))
		h.check("C16", h.untouched(c), "close-traffic", "closing a closed connection sends something")
		h.check("C16", closes <= 1, "closed-twice", "the socket was closed %d times", closes)
		return
	}
	h.check("C16 C18", took <= 2*h.T+time.Second || h.slow > 0, "close-too-long", "closing took %v with a timeout of %v", took, h.T)
	h.check("C16 C10", open == 0, "socket-left-open", "the connection was closed, but its socket is still open")
	h.check("C16", closes == 1, "closed-twice", "the socket was closed %d times", closes)
	healthy := c.usable && !h.gone && !h.stalled && (h.slow < h.T || h.oldTx == nil && len(h.txs) == 0) && !dead && h.firstEvent() == nil && !unclean
	if healthy {
		h.check("C16", err == nil, "close-error", "closing a healthy connection returns %s", short(err))
		if h.ver >= 3 {
			h.check("C16 C11", said && !saidBefore, "no-goodbye", "closing a healthy connection (server in state %v) does not say goodbye", st)
		}
	}
	t := h.tx
	h.closed = true
	if h.txm != nil {
		h.ended("ended")
		h.check("C14 C16", t.IsClosed(), "tx-not-closed", "the connection was closed, but its transaction does not report itself closed")
	}
}

// finish closes the connection and judges the whole execution.
func (h *hist) finish() {
	if h.muted {
		return
	}
	if !h.plan.closing {
		h.armed = false
	}
	if h.closed {
		// the driver gave it up: it is closed
		open := 0
		rt.Do(func() { open = h.net.OpenCount() })
		h.check("C16 C13", open == 0, "socket-left-open", "the connection is closed, but its socket is open")
	} else {
		h.close()
	}
	if h.muted {
		return
	}
	h.close()
	h.validate()
	h.query(h.conn, false, 'R', 1, false, "")
	if !h.muted {
		c := h.before("begin")
		_, err := h.conn.Begin()
		h.after(c, "begin", err)
	}
	if h.oldTx != nil && !h.muted {
		h.query(h.oldTx, true, 'W', 0, true, "")
		if !h.muted {
			h.end(true, true)
		}
	}
	for _, f := range h.kept {
		if !h.muted {
			f()
		}
	}
	h.judgeDB()
	if h.muted {
		return
	}
	var v []string
	rt.Do(func() { v = h.srv.Violations() })
	h.check("C11", len(v) == 0, "illegal-request", "the client broke the protocol: %s", strings.Join(v, "; "))
}

// rest judges that nothing of the driver runs any more.
func (h *hist) rest() {
	if !h.props["C33"] || h.muted {
		return
	}
	rt.Sleep(2 * time.Minute)
	l := rt.Alive()
	h.check("C33", len(l) == 0, "still-running", "long after everything was closed %d goroutines have not ended: %s", len(l), strings.Join(l, ", "))
}

func (h *hist) judgeDB() {
	if h.muted {
		return
	}
	var durable []string
	rt.Do(func() { durable = append(durable, h.srv.DB.Durable...) })
	count := map[string]int{}
	for _, d := range durable {
		count[d]++
	}
	for _, t := range h.txs {
		if t.state == "unknown" {
			n := -1
			for _, tok := range t.toks {
				if n >= 0 && count[tok] != n {
					h.check("C14", false, "not-atomic", "part of a transaction is durable")
				}
				n = count[tok]
			}
			continue
		}
		for _, tok := range t.toks {
			if t.committed {
				h.check("C14", count[tok] == 1, "committed-lost", "%s was committed, but is %d times durable", tok, count[tok])
			} else {
				h.check("C14", count[tok] == 0, "uncommitted-durable", "%s was never committed, but is durable", tok)
			}
		}
	}
	for _, tok := range h.autoW {
		h.check("C12 C14", count[tok] == 1, "reported-not-done", "%s was reported as done, but is %d times durable", tok, count[tok])
	}
	for _, tok := range h.noW {
		h.check("C12 C14 C15", count[tok] == 0, "refused-but-done", "%s was refused, but is durable", tok)
	}
}

func (h *hist) setTimeout(d time.Duration) {
	h.before("setTimeout(%v)", d)
	h.conn.SetTimeout(d)
	h.T = d
}

// step is one alternative of a history.
type step struct {
	name string
	can  func(h *hist) bool
	do   func(h *hist)
}

func always(h *hist) bool { return true }
func hasTx(h *hist) bool  { return h.txm != nil }
func noTx(h *hist) bool   { return h.txm == nil }
func hasOld(h *hist) bool { return h.oldTx != nil }
func hasTx4(h *hist) bool { return h.txm != nil && h.ver >= 4 }

// numbers of records around those at which a driver could fetch in batches or overflow something
// oddTexts are statements that look unusual.
var oddTexts = []struct{ form, more string }{
	{"ECHO %s", ""},
	{" ECHO %s", ""},
	{"ECHO %s ", ""},
	{"\n\tECHO\t%s\r\n", ""},
	{"ECHO  %s", " ; "},
	{"ECHO %s", ";"},
	{"ECHO %s", " 100%d %s %!v %%"},
	{"ECHO %s", " 'it''s' \"q\" \\n \\u0041 `b` $tok {tok} // c\n/* d */"},
	{"ECHO %s", " 世界🚀 é\x00\u2028\ufffd"},
	{"ECHO %s", " call dbms.cluster.overview()"},
	{"ECHO %s", " :begin BEGIN COMMIT ROLLBACK"},
	{"ECHO %s", " " + strings.Repeat("x", 300)},
	{"ECHO %s", " " + strings.Repeat("y\n", 35000)},
	{"ECHO %s", " " + strings.Repeat("é", 600000)},
}

// oddDbs are names of databases that look unusual.
var oddDbs = []string{"db1", "neo4j", "system", "My-Db.x_1", "DB1", " db1 ", "bäse", "a/b?c=d&e", strings.Repeat("d", 63), strings.Repeat("d", 300)}

var largeResults = []int{255, 256, 257, 999, 1000, 1001, 4097, 10000, 10001, 16385, 32768, 65535, 65536, 65537, 100001}

var stepsAll = map[string]step{
	"Q0": {"Q0", always, func(h *hist) { h.query(h.conn, false, 'R', 0, false, "") }},
	"Q1": {"Q1", always, func(h *hist) { h.query(h.conn, false, 'R', 1, false, "") }},
	"Q3": {"Q3", always, func(h *hist) { h.query(h.conn, false, 'R', 3, false, "") }},
	"Q9": {"Q9", always, func(h *hist) { h.query(h.conn, false, 'R', 300, false, "") }},
	"X2": {"X2", always, func(h *hist) { h.query(h.conn, false, 'X', 2, false, "") }},
	"X3": {"X3", func(h *hist) bool { return !h.noBig }, func(h *hist) { h.query(h.conn, false, 'X', 3, false, "") }},
	"tX": {"tX", hasTx, func(h *hist) { h.query(h.tx, false, 'X', 2, false, "") }},
	"Z": {"Z", always, func(h *hist) {
		h.query(h.conn, false, 'Z', h.x.Choose(boltsrv.NShapes, "shapes"), false, "")
	}},
	"tZ": {"tZ", hasTx, func(h *hist) {
		h.query(h.tx, false, 'Z', h.x.Choose(boltsrv.NShapes, "shapes"), false, "")
	}},
	"XL":  {"XL", always, func(h *hist) { h.query(h.conn, false, 'X', 4+h.x.Choose(4, "size"), false, "") }},
	"tXL": {"tXL", hasTx, func(h *hist) { h.query(h.tx, false, 'X', 4+h.x.Choose(4, "size"), false, "") }},
	"T":   {"T", always, func(h *hist) { h.query(h.conn, false, 'T', h.x.Choose(len(oddTexts), "text"), h.x.Bool("exec"), "") }},
	"tT":  {"tT", hasTx, func(h *hist) { h.query(h.tx, false, 'T', h.x.Choose(len(oddTexts), "text"), h.x.Bool("exec"), "") }},
	"TD": {"TD", func(h *hist) bool { return h.ver >= 4 && h.txm == nil }, func(h *hist) {
		h.query(h.conn, false, 'T', 0, h.x.Bool("exec"), oddDbs[h.x.Choose(len(oddDbs), "db")])
	}},
	"bO": {"bO", func(h *hist) bool { return h.ver >= 4 && h.txm == nil }, func(h *hist) { h.begin(oddDbs[h.x.Choose(len(oddDbs), "db")]) }},
	"QL": {"QL", always, func(h *hist) {
		h.query(h.conn, false, 'R', largeResults[h.x.Choose(len(largeResults), "rows")], false, "")
	}},
	"tL": {"tL", hasTx, func(h *hist) {
		h.query(h.tx, false, 'R', largeResults[h.x.Choose(len(largeResults), "rows")], false, "")
	}},
	"PL": {"PL", always, func(h *hist) {
		h.query(h.conn, false, 'P', largeResults[h.x.Choose(len(largeResults), "rows")], false, "")
	}},
	"E":    {"E", noTx, func(h *hist) { h.query(h.conn, false, 'W', 0, true, "") }},
	"ER":   {"ER", always, func(h *hist) { h.query(h.conn, false, 'R', 2, true, "") }},
	"F":    {"F", always, func(h *hist) { h.query(h.conn, false, 'F', 0, false, "") }},
	"P0":   {"P0", always, func(h *hist) { h.query(h.conn, false, 'P', 0, false, "") }},
	"P2":   {"P2", always, func(h *hist) { h.query(h.conn, false, 'P', 2, false, "") }},
	"B":    {"B", always, func(h *hist) { h.query(h.conn, false, 'B', 1, false, "") }},
	"QD":   {"QD", always, func(h *hist) { h.query(h.conn, false, 'R', 1, false, "other") }},
	"ED":   {"ED", noTx, func(h *hist) { h.query(h.conn, false, 'W', 1, true, "other") }},
	"b":    {"b", always, func(h *hist) { h.begin("") }},
	"bD":   {"bD", always, func(h *hist) { h.begin("db1") }},
	"tE":   {"tE", hasTx, func(h *hist) { h.query(h.tx, false, 'W', 0, true, "") }},
	"tW":   {"tW", hasTx, func(h *hist) { h.query(h.tx, false, 'W', 0, false, "") }},
	"tQ":   {"tQ", hasTx, func(h *hist) { h.query(h.tx, false, 'R', 2, false, "") }},
	"tF":   {"tF", hasTx, func(h *hist) { h.query(h.tx, false, 'F', 0, true, "") }},
	"tP":   {"tP", hasTx, func(h *hist) { h.query(h.tx, false, 'P', 1, false, "") }},
	"tB":   {"tB", hasTx, func(h *hist) { h.query(h.tx, false, 'B', 1, false, "") }},
	"tD":   {"tD", hasTx, func(h *hist) { h.query(h.tx, false, 'W', 1, true, "db1") }},
	"tDo":  {"tDo", hasTx, func(h *hist) { h.query(h.tx, false, 'W', 1, false, "other") }},
	"c":    {"c", hasTx, func(h *hist) { h.end(true, false) }},
	"r":    {"r", hasTx, func(h *hist) { h.end(false, false) }},
	"oQ":   {"oQ", hasOld, func(h *hist) { h.query(h.oldTx, true, 'W', 0, false, "") }},
	"oE":   {"oE", hasOld, func(h *hist) { h.query(h.oldTx, true, 'W', 0, true, "") }},
	"oc":   {"oc", hasOld, func(h *hist) { h.end(true, true) }},
	"or":   {"or", hasOld, func(h *hist) { h.end(false, true) }},
	"idle": {"idle", always, func(h *hist) { h.makeIdle() }},
	"val":  {"val", always, func(h *hist) { h.validate() }},
	"st1":  {"st1", always, func(h *hist) { h.setTimeout(time.Second) }},
	"st9":  {"st9", always, func(h *hist) { h.setTimeout(9 * time.Second) }},
	"stall": {"stall", func(h *hist) bool { return !h.stalled }, func(h *hist) {
		w := []int{0, 1, 3}[h.x.Choose(3, "window")]
		h.before("stall after %d bytes", w)
		h.stalled = true
		rt.Do(func() { h.sess.C.Window = w })
	}},
	// the peer does not read for a while
	"pause": {"pause", func(h *hist) bool { return !h.stalled && !h.paused }, func(h *hist) {
		w := []int{0, 1, 3}[h.x.Choose(3, "window")]
		d := []time.Duration{h.T / 2, h.T + time.Second}[h.x.Choose(2, "how long")]
		h.before("%d more bytes are read for %v", w, d)
		h.stalled, h.paused = d > h.T, true
		c := h.sess.C
		rt.Do(func() { c.Window = w })
		h.x.Go("peer", func() {
			rt.Sleep(d)
			rt.Do(func() {
				c.Window = -1
				h.stalled, h.paused = false, false
			})
		})
	}},
	"wait": {"wait", func(h *hist) bool { return h.paused }, func(h *hist) {
		h.before("time passes")
		rt.Sleep(2*h.T + time.Second)
	}},
	// the caller takes a long time to think
	"hours": {"hours", always, func(h *hist) {
		d := []time.Duration{5 * time.Minute, 3 * time.Hour, 1000 * time.Hour}[h.x.Choose(3, "how long")]
		h.before("%v pass", d)
		rt.Sleep(d)
	}},
	"x": {"x", always, func(h *hist) { h.close() }},
}

func steps(names string) []step {
	var out []step
	for _, n := range strings.Fields(names) {
		s, ok := stepsAll[n]
		if !ok {
			panic("no step " + n)
		}
		out = append(out, s)
	}
	return out
}

// histScenario enumerates all histories of a length over an alphabet, with faults.
func histScenario(id, props string, ver int, alphabet string, depth, faults int, plan faultPlan, tune func(h *hist)) mc.Scenario {
	al := steps(alphabet)
	horizon := 30 * time.Minute
	if strings.Contains(alphabet, "hours") {
		horizon = 100000 * time.Hour
	}
	return mc.Scenario{ID: id, Fault: faults, Horizon: horizon, Steps: 4000000, Body: func(x *mc.X) {
		h := newHist(x, props, ver, plan)
		if tune != nil {
			tune(h)
		}
		if !h.open() {
			return
		}
		for _, s := range steps(h.pre) {
			if h.muted || !s.can(h) {
				return
			}
			h.armed = false
			s.do(h)
			h.armed = true
		}
		for i := 0; i < depth && !h.muted; i++ {
			var can []step
			for _, s := range al {
				if s.can(h) {
					can = append(can, s)
				}
			}
			k := x.Choose(len(can)+1, "call")
			if k == len(can) {
				break
			}
			can[k].do(h)
		}
		h.finish()
		h.rest()
		x.Class("%d calls, closed %v broken %v gone %v muted %v", len(h.log), h.closed, h.broken, h.gone, h.muted)
	}}
}

// endureScenario enumerates the histories that repeat a word of calls n times.
func endureScenario(id, props string, ver int, alphabet string, length, n int, tune func(h *hist)) mc.Scenario {
	al := steps(alphabet)
	return mc.Scenario{ID: id, Horizon: 30 * time.Minute, Steps: 40000000, Body: func(x *mc.X) {
		h := newHist(x, props, ver, planNone)
		if tune != nil {
			tune(h)
		}
		if !h.open() {
			return
		}
		var word []step
		for i := 0; i < n && !h.muted; i++ {
			for j := 0; j < length && !h.muted; j++ {
				if i > 0 {
					if j < len(word) && word[j].can(h) {
						word[j].do(h)
					}
					// handles that ended long ago
					if k := len(h.olds) - 256 + i%3; k >= 0 && k < len(h.olds) && h.props["C14"] && !h.muted {
						last := h.oldTx
						h.oldTx = h.olds[k]
						h.query(h.oldTx, true, 'W', 0, true, "")
						h.oldTx = last
					}
					continue
				}
				var can []step
				for _, s := range al {
					if s.can(h) {
						can = append(can, s)
					}
				}
				k := x.Choose(len(can)+1, "call")
				if k == len(can) {
					break
				}
				word = append(word, can[k])
				can[k].do(h)
			}
		}
		h.finish()
		h.rest()
		x.Class("%d calls of a word of %d, closed %v broken %v gone %v", len(h.log), len(word), h.closed, h.broken, h.gone)
	}}
}
