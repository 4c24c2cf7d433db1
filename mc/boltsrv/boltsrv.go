// Package boltsrv is a Bolt server (versions 1 to 4) with a small transactional database,
// written from the protocol specification and independent of the driver. It judges every byte
// a client sends against the legal conversations of the negotiated version, and gives every
// result a unique identity.
package boltsrv

import (
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/ps"
	"verif/rt"
	"verif/vnet"
)

// State of a session.
type State int

// The states of the protocol.
const (
	Handshaking State = iota
	Connected
	Ready
	Streaming
	TxReady
	TxStreaming
	Failed
	Defunct
)

func (s State) String() string {
	return [...]string{"HANDSHAKE", "CONNECTED", "READY", "STREAMING", "TX_READY", "TX_STREAMING", "FAILED", "DEFUNCT"}[s]
}

// Message tags.
const (
	TagInit     = 0x01 // INIT, HELLO
	TagGoodbye  = 0x02
	TagAck      = 0x0E
	TagReset    = 0x0F
	TagRun      = 0x10
	TagBegin    = 0x11
	TagCommit   = 0x12
	TagRollback = 0x13
	TagDiscard  = 0x2F
	TagPull     = 0x3F
	TagSuccess  = 0x70
	TagRecord   = 0x71
	TagIgnored  = 0x7E
	TagFailure  = 0x7F
)

var tagNames = map[byte]string{1: "INIT/HELLO", 2: "GOODBYE", 0x0E: "ACK_FAILURE", 0x0F: "RESET", 0x10: "RUN", 0x11: "BEGIN", 0x12: "COMMIT", 0x13: "ROLLBACK", 0x2F: "DISCARD", 0x3F: "PULL"}

// DB is the database of a cluster.
type DB struct {
	Durable []string // tokens of committed work
	nextUID int
}

// Has reports how often tok has been committed.
func (d *DB) Has(tok string) int {
	n := 0
	for _, t := range d.Durable {
		if t == tok {
			n++
		}
	}
	return n
}

// Req is a request of the client.
type Req struct {
	N       int // index in the session
	Tag     byte
	Fields  []interface{}
	Name    string // e.g. RUN, RUN BEGIN, PULL
	Query   string
	UID     string // of the result this request produces or pulls
	InTx    bool
	State   State // state in which it arrived
	At      int64 // virtual time
	Meta    map[string]interface{}
	Summary map[string]interface{} // sent at the end of the records
	// outcome
	Replied string // tags of the replies
}

// Verdict is what a hook decides about a request.
type Verdict struct {
	Fail    string // failure code: reply FAILURE
	After   int    // for PULL: after this many records
	Before  Then   // what happens to the connection before the request is processed
	Ignored bool   // reply IGNORED without failure (a session that was interrupted)
}

// Then is what happens to the transport.
type Then int

// Transport events.
const (
	Go Then = iota
	FIN
	RST
	Silence
)

func (t Then) String() string { return [...]string{"-", "FIN", "RST", "silence"}[t] }

// Piece is a part of the bytes the server sends.
type Piece struct {
	Bytes []byte
	Delay time.Duration // before sending
	Then  Then          // after sending
}

// Server is the behaviour behind an address.
type Server struct {
	Ver        int // highest version spoken
	DB         *DB
	User, Pass string // required credentials if User is set
	Name       string

	// Handshake, if set, makes the answer to the handshake.
	Handshake func(s *Session, offers [4]uint32) []Piece
	// Dial, if set, decides about connection attempts.
	Dial func() vnet.Outcome
	// OnRequest decides about a request before it is processed.
	OnRequest func(s *Session, r *Req) Verdict
	// OnReply makes the bytes out of the replies to a request.
	OnReply func(s *Session, r *Req, msgs []ps.Struct) []Piece
	// Custom answers queries of its own.
	Custom func(s *Session, r *Req, query string) (rows [][]interface{}, ok bool)
	// FailMeta, if set, makes the metadata of a failure out of the usual one.
	FailMeta func(m map[string]interface{}) map[string]interface{}
	// RunMeta and SumMeta, if set, do so with those of the replies to a statement and to pulling its result.
	RunMeta, SumMeta func(m map[string]interface{}) map[string]interface{}
	Chunk            int // maximal chunk size of replies, 0: 65535
	Sessions         []*Session
	// Seen is called for every session after it authenticated.
}

// Session is one connection.
type Session struct {
	Srv        *Server
	C          *vnet.Conn
	ID         int
	Ver        int
	Offers     [4]uint32
	St         State
	Log        []*Req
	Violations []string
	Authed     bool
	AuthTok    map[string]interface{}
	UserAgent  interface{}
	Said       bool // goodbye
	dead       bool // the server does nothing any more
	in         []byte
	dech       ps.Dechunker
	tx         *tx
	stream     *stream
	queue      []Piece
	sending    bool
	sentFrames int
	ClosedBy   string
}

type tx struct{ writes []string }

type stream struct {
	uid    string
	rows   [][]interface{}
	failAt int // -1: none
	code   string
	write  string
	req    *Req
	inTx   bool
	end    string // COMMIT / ROLLBACK / BEGIN text statements of versions 1 and 2
}

// Connect implements vnet.Server.
func (v *Server) Connect(c *vnet.Conn) (vnet.Outcome, vnet.Handler) {
	if v.Dial != nil {
		if o := v.Dial(); o != vnet.Accept {
			return o, nil
		}
	}
	if v.DB == nil {
		v.DB = &DB{}
	}
	s := &Session{Srv: v, C: c, ID: len(v.Sessions)}
	c.User = s
	v.Sessions = append(v.Sessions, s)
	return vnet.Accept, s
}

// InTx reports whether the session has an open transaction.
func (s *Session) InTx() bool { return s.tx != nil }

// Dirty reports whether a new borrower of this session would notice its predecessor.
func (s *Session) Dirty() string {
	switch {
	case s.tx != nil:
		return "open transaction"
	case s.stream != nil:
		return "open result"
	case s.St == Failed:
		return "unrecovered failure"
	case s.C.Unread() > 0:
		return fmt.Sprintf("%d unread response bytes", s.C.Unread())
	}
	return ""
}

// Dead reports whether the server side is gone.
func (s *Session) Dead() bool { return s.dead }

func (s *Session) violate(f string, a ...interface{}) {
	m := fmt.Sprintf("session %d (v%d, %v): ", s.ID, s.Ver, s.St) + fmt.Sprintf(f, a...)
	rt.Tracef("PROTOCOL %s", m)
	s.Violations = append(s.Violations, m)
}

// Closed implements vnet.Handler.
func (s *Session) Closed() {
	s.end("client")
}

func (s *Session) end(by string) {
	if s.ClosedBy == "" {
		s.ClosedBy = by
	}
	s.tx, s.stream = nil, nil
	s.dead = true
}

// Kill ends the session from the server side.
func (s *Session) Kill(t Then) {
	switch t {
	case FIN:
		s.C.FIN()
	case RST:
		s.C.RST()
	}
	if t != Go {
		s.end(t.String())
	}
}

// Data implements vnet.Handler.
func (s *Session) Data(p []byte) {
	if s.dead {
		return
	}
	if s.St == Handshaking {
		s.in = append(s.in, p...)
		if len(s.in) < 20 {
			return
		}
		p = s.in[20:]
		s.handshake(s.in[:20])
		s.in = nil
		if len(p) == 0 || s.dead {
			return
		}
		s.violate("data sent before the version was agreed")
	}
	for _, m := range s.dech.Feed(p) {
		if s.dead {
			return
		}
		if len(m) == 0 {
			continue
		}
		v, err := ps.Decode(m)
		st, ok := v.(ps.Struct)
		if err != nil || !ok {
			s.violate("malformed message %x: %v", m, err)
			s.St = Defunct
			s.Kill(FIN)
			return
		}
		s.request(st)
	}
}

func (s *Session) handshake(b []byte) {
	if binary.BigEndian.Uint32(b) != 0x6060B017 {
		s.violate("bad preamble %x", b[:4])
		s.Kill(FIN)
		return
	}
	best := 0
	for i := range s.Offers {
		s.Offers[i] = binary.BigEndian.Uint32(b[4+4*i:])
		if v := int(s.Offers[i]); v <= s.Srv.Ver && v > best {
			best = v
		}
	}
	s.Ver = best
	s.St = Connected
	pieces := []Piece{{Bytes: []byte{0, 0, 0, byte(best)}}}
	if best == 0 {
		pieces[0].Then = FIN
	}
	if s.Srv.Handshake != nil {
		pieces = s.Srv.Handshake(s, s.Offers)
	}
	s.send(pieces)
}

func (s *Session) send(ps []Piece) {
	s.queue = append(s.queue, ps...)
	if !s.sending {
		s.pump()
	}
}

func (s *Session) pump() {
	s.sending = true
	for len(s.queue) > 0 {
		p := s.queue[0]
		if p.Delay > 0 {
			s.queue[0].Delay = 0
			rt.AfterModel(p.Delay, s.pump)
			return
		}
		s.queue = s.queue[1:]
		s.C.Push(p.Bytes)
		if p.Then != Go {
			s.Kill(p.Then)
			s.queue = nil
			break
		}
	}
	s.sending = false
}

func str(v interface{}) (string, bool) { s, ok := v.(string); return s, ok }
func mp(v interface{}) (map[string]interface{}, bool) {
	m, ok := v.(map[string]interface{})
	return m, ok
}

func (s *Session) request(st ps.Struct) {
	r := &Req{N: len(s.Log), Tag: st.Tag, Fields: st.Fields, State: s.St, InTx: s.tx != nil, At: rt.NowNS()}
	r.Name = tagNames[st.Tag]
	if r.Name == "" {
		r.Name = fmt.Sprintf("0x%02x", st.Tag)
	}
	if st.Tag == TagRun && len(st.Fields) > 0 {
		r.Query, _ = str(st.Fields[0])
		if s.Ver < 3 && (r.Query == "BEGIN" || r.Query == "COMMIT" || r.Query == "ROLLBACK") {
			r.Name = "RUN " + r.Query
		}
	}
	s.Log = append(s.Log, r)
	if rt.Tracing() {
		rt.Tracef("server s%d <- %s %s", s.ID, r.Name, ps.String(st))
	}
	s.conform(r)
	var v Verdict
	if s.Srv.OnRequest != nil {
		v = s.Srv.OnRequest(s, r)
	}
	if v.Before != Go {
		s.Kill(v.Before)
		if v.Before != Silence {
			s.queue = nil
		}
		return
	}
	msgs, then := s.process(r, v)
	var tags []string
	for _, m := range msgs {
		tags = append(tags, fmt.Sprintf("%02x", m.Tag))
	}
	r.Replied = strings.Join(tags, " ")
	if rt.Tracing() {
		for _, m := range msgs {
			rt.Tracef("server s%d -> %s", s.ID, ps.String(m))
		}
	}
	var pieces []Piece
	if s.Srv.OnReply != nil {
		pieces = s.Srv.OnReply(s, r, msgs)
	} else {
		pieces = s.Pieces(msgs)
	}
	if then != Go {
		pieces = append(pieces, Piece{Then: then})
	}
	s.send(pieces)
}

// Pieces is the plain encoding of replies.
func (s *Session) Pieces(msgs []ps.Struct) []Piece {
	var out []Piece
	for _, m := range msgs {
		out = append(out, Piece{Bytes: s.Frame(m)})
	}
	return out
}

// Frame encodes one reply.
func (s *Session) Frame(m ps.Struct) []byte {
	c := s.Srv.Chunk
	if c == 0 {
		c = 65535
	}
	return ps.Chunk(ps.Encode(m), c)
}

// conform checks form and state of a request.
func (s *Session) conform(r *Req) {
	nf := func(n int) bool {
		if len(r.Fields) != n {
			s.violate("%s with %d fields instead of %d", r.Name, len(r.Fields), n)
			return false
		}
		return true
	}
	mapAt := func(i int, what string) map[string]interface{} {
		m, ok := mp(r.Fields[i])
		if !ok {
			s.violate("%s: %s is %s, not a map", r.Name, what, ps.String(r.Fields[i]))
		}
		return m
	}
	v3 := s.Ver >= 3
	switch r.Tag {
	case TagInit:
		var tok map[string]interface{}
		if v3 {
			if !nf(1) {
				return
			}
			tok = mapAt(0, "metadata")
			ua, ok := str(tok["user_agent"])
			if !ok || ua == "" {
				s.violate("HELLO without user_agent: %s", ps.String(r.Fields[0]))
			}
			s.UserAgent = ua
		} else {
			if !nf(2) {
				return
			}
			if ua, ok := str(r.Fields[0]); !ok || ua == "" {
				s.violate("INIT: client name is %s", ps.String(r.Fields[0]))
			}
			s.UserAgent = r.Fields[0]
			tok = mapAt(1, "auth token")
		}
		s.AuthTok = tok
		for k, v := range tok {
			switch k {
			case "scheme", "principal", "credentials", "realm", "user_agent":
				if _, ok := str(v); !ok {
					s.violate("%s: %s is %s", r.Name, k, ps.String(v))
				}
			case "parameters":
			default:
				s.violate("%s: unknown key %q", r.Name, k)
			}
			if k == "user_agent" && !v3 {
				s.violate("INIT: user_agent in the auth token")
			}
		}
		if sch, _ := str(tok["scheme"]); sch != "" && sch != "basic" && sch != "none" && sch != "kerberos" {
			s.violate("%s: unknown scheme %q", r.Name, sch)
		} else if sch == "" {
			s.violate("%s: no scheme", r.Name)
		} else if sch == "basic" {
			if _, ok := tok["principal"]; !ok {
				s.violate("%s: no principal", r.Name)
			}
			if _, ok := tok["credentials"]; !ok {
				s.violate("%s: no credentials", r.Name)
			}
		}
	case TagRun:
		n := 2
		if v3 {
			n = 3
		}
		if !nf(n) {
			return
		}
		if _, ok := str(r.Fields[0]); !ok {
			s.violate("RUN: statement is %s", ps.String(r.Fields[0]))
		}
		mapAt(1, "parameters")
		if v3 {
			r.Meta = mapAt(2, "metadata")
			s.txMeta(r)
			if s.tx != nil && len(r.Meta) > 0 && s.St != Failed {
				s.violate("RUN in an explicit transaction with metadata %s", ps.String(r.Fields[2]))
			}
		}
	case TagBegin:
		if !v3 {
			s.violate("BEGIN does not exist in version %d", s.Ver)
			return
		}
		if nf(1) {
			r.Meta = mapAt(0, "metadata")
			s.txMeta(r)
		}
	case TagCommit, TagRollback, TagGoodbye:
		if !v3 {
			s.violate("%s does not exist in version %d", r.Name, s.Ver)
			return
		}
		nf(0)
	case TagReset:
		nf(0)
	case TagAck:
		if v3 {
			s.violate("ACK_FAILURE does not exist in version %d", s.Ver)
		}
		nf(0)
	case TagPull, TagDiscard:
		if s.Ver < 4 {
			nf(0)
			return
		}
		if !nf(1) {
			return
		}
		m := mapAt(0, "metadata")
		for k, v := range m {
			i, ok := v.(int64)
			switch k {
			case "n":
				if !ok || (i != -1 && i <= 0) {
					s.violate("%s: n is %s", r.Name, ps.String(v))
				}
			case "qid":
				if !ok || i < -1 {
					s.violate("%s: qid is %s", r.Name, ps.String(v))
				}
			default:
				s.violate("%s: unknown key %q", r.Name, k)
			}
		}
		if _, ok := m["n"]; !ok {
			s.violate("%s without n", r.Name)
		}
	default:
		s.violate("unknown request %s", r.Name)
	}
}

func (s *Session) txMeta(r *Req) {
	for k, v := range r.Meta {
		ok := true
		switch k {
		case "bookmarks":
			_, ok = v.([]interface{})
		case "tx_timeout":
			i, isInt := v.(int64)
			ok = isInt && i >= 0
		case "tx_metadata":
			_, ok = mp(v)
		case "mode":
			ok = v == "r" || v == "w"
		case "db":
			_, ok = str(v)
			if s.Ver < 4 {
				ok = false
			}
		default:
			ok = false
		}
		if !ok {
			s.violate("%s: metadata %q: %s", r.Name, k, ps.String(v))
		}
	}
}

// NewUID makes a fresh identity.
func (s *Session) NewUID() string {
	s.Srv.DB.nextUID++
	return "u" + strconv.Itoa(s.Srv.DB.nextUID)
}

// Success makes a SUCCESS message.
func Success(kv ...interface{}) ps.Struct {
	m := map[string]interface{}{}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	return ps.S(TagSuccess, m)
}

// Failure makes a FAILURE message.
func Failure(code, msg string, uid string) ps.Struct {
	return ps.S(TagFailure, map[string]interface{}{"code": code, "message": msg, "uid": uid})
}

// FailureMessage is the text that goes with a failure.
func FailureMessage(code, uid string) string { return "failed " + uid + " 100%d %s: " + code }

func (s *Session) fail(r *Req, code string) []ps.Struct {
	r.UID = s.NewUID()
	s.St = Failed
	s.stream = nil
	f := Failure(code, FailureMessage(code, r.UID), r.UID)
	if s.Srv.FailMeta != nil {
		f = ps.S(TagFailure, s.Srv.FailMeta(f.Fields[0].(map[string]interface{})))
	}
	return []ps.Struct{f}
}

func (s *Session) illegal(r *Req) ([]ps.Struct, Then) {
	s.violate("%s is not allowed in this state", r.Name)
	m := s.fail(r, "Neo.ClientError.Request.Invalid")
	if s.Ver >= 3 {
		s.St = Defunct
		return m, FIN
	}
	return m, Go
}

func one(m ps.Struct) []ps.Struct { return []ps.Struct{m} }

func (s *Session) process(r *Req, v Verdict) ([]ps.Struct, Then) {
	if v.Ignored {
		if s.St != Connected {
			s.St = Failed // until it is reset
			s.stream = nil
		}
		return one(ps.S(TagIgnored)), Go
	}
	switch r.Tag {
	case TagInit:
		if s.St != Connected {
			return s.illegal(r)
		}
		if s.Srv.User != "" && (s.AuthTok["principal"] != s.Srv.User || s.AuthTok["credentials"] != s.Srv.Pass) && v.Fail == "" {
			v.Fail = "Neo.ClientError.Security.Unauthorized"
		}
		if v.Fail != "" {
			m := s.fail(r, v.Fail)
			if s.Ver >= 3 {
				s.St = Defunct
				return m, FIN
			}
			return m, Go
		}
		s.St = Ready
		s.Authed = true
		if s.Ver >= 3 {
			return one(Success("server", "Neo4j/4.0", "connection_id", "bolt-"+strconv.Itoa(s.ID))), Go
		}
		return one(Success("server", "Neo4j/3.0")), Go
	case TagGoodbye:
		s.Said = true
		return nil, FIN
	case TagReset:
		if s.St == Connected || s.St == Handshaking {
			return s.illegal(r)
		}
		s.stream = nil
		if v.Fail != "" {
			m := s.fail(r, v.Fail)
			s.St = Defunct
			s.tx = nil
			return m, FIN
		}
		s.tx = nil
		s.St = Ready
		return one(Success()), Go
	case TagAck:
		if s.St != Failed {
			return s.illegal(r)
		}
		if v.Fail != "" {
			return s.fail(r, v.Fail), Go
		}
		s.St = Ready
		if s.tx != nil {
			s.St = TxReady
		}
		return one(Success()), Go
	}
	if s.St == Connected || s.St == Defunct {
		return s.illegal(r)
	}
	if s.St == Failed {
		return one(ps.S(TagIgnored)), Go
	}
	switch r.Tag {
	case TagRun:
		if s.St != Ready && s.St != TxReady {
			return s.illegal(r)
		}
		if len(r.Fields) < 2 {
			return s.illegal(r)
		}
		if v.Fail == "" && strings.HasPrefix(r.Query, "FAIL ") {
			v.Fail = strings.TrimPrefix(r.Query, "FAIL ")
		}
		if v.Fail != "" {
			if s.tx != nil {
				s.tx.writes = nil
			}
			return s.fail(r, v.Fail), Go
		}
		return s.run(r), Go
	case TagPull, TagDiscard:
		if s.St != Streaming && s.St != TxStreaming {
			return s.illegal(r)
		}
		return s.pull(r, v), Go
	case TagBegin:
		if s.St != Ready {
			return s.illegal(r)
		}
		if v.Fail != "" {
			return s.fail(r, v.Fail), Go
		}
		s.tx = &tx{}
		s.St = TxReady
		return one(Success()), Go
	case TagCommit:
		if s.St != TxReady {
			return s.illegal(r)
		}
		if v.Fail != "" {
			s.tx = nil
			return s.fail(r, v.Fail), Go
		}
		s.commit()
		s.St = Ready
		return one(Success("bookmark", "bm:"+s.NewUID())), Go
	case TagRollback:
		if s.St != TxReady {
			return s.illegal(r)
		}
		if v.Fail != "" {
			s.tx = nil
			return s.fail(r, v.Fail), Go
		}
		s.tx = nil
		s.St = Ready
		return one(Success()), Go
	}
	return s.illegal(r)
}

func (s *Session) commit() {
	if s.tx != nil {
		s.Srv.DB.Durable = append(s.Srv.DB.Durable, s.tx.writes...)
	}
	s.tx = nil
}

// run starts a statement:
//
//	RETURN n token        n records [uid, token, i]
//	W token               a write
//	FAIL code             failure of RUN
//	FAILPULL n code token n records, then a failure
//	ECHO                  one record with the parameters
//	BEGIN COMMIT ROLLBACK transactions of versions 1 and 2
func (s *Session) run(r *Req) []ps.Struct {
	r.UID = s.NewUID()
	st := &stream{uid: r.UID, failAt: -1, req: r, inTx: s.tx != nil}
	w := strings.Fields(r.Query)
	op := ""
	if len(w) > 0 {
		op = w[0]
	}
	fields := []interface{}{"uid", "token", "i"}
	if s.Srv.Custom != nil {
		if rows, ok := s.Srv.Custom(s, r, r.Query); ok {
			op = "-"
			st.rows = rows
			fields = nil
			if len(rows) > 0 {
				for i := range rows[0] {
					fields = append(fields, "c"+strconv.Itoa(i))
				}
			} else {
				fields = []interface{}{}
			}
		}
	}
	switch {
	case op == "-":
	case op == "RETURN" && len(w) == 3:
		n, _ := strconv.Atoi(w[1])
		for i := 0; i < n; i++ {
			st.rows = append(st.rows, []interface{}{r.UID, w[2], int64(i)})
		}
	case op == "W" && len(w) == 2:
		st.write = w[1]
		fields = []interface{}{}
	case op == "FAILPULL" && len(w) == 4:
		n, _ := strconv.Atoi(w[1])
		for i := 0; i < n; i++ {
			st.rows = append(st.rows, []interface{}{r.UID, w[3], int64(i)})
		}
		st.failAt, st.code = n, w[2]
	case op == "SHAPES" && len(w) == 3:
		k, _ := strconv.Atoi(w[1])
		st.rows = Shapes(k, r.UID, w[2])
	case op == "ECHO":
		st.rows = [][]interface{}{{r.UID, r.Fields[1], int64(0)}}
	case s.Ver < 3 && (op == "BEGIN" || op == "COMMIT" || op == "ROLLBACK") && len(w) == 1:
		if (op == "BEGIN") == (s.tx != nil) {
			s.violate("%s with transaction open: %v", op, s.tx != nil)
			return s.fail(r, "Neo.ClientError.Transaction.Invalid")
		}
		st.end = op
		fields = []interface{}{}
	default:
		s.violate("unknown statement %q", r.Query)
		return s.fail(r, "Neo.ClientError.Statement.SyntaxError")
	}
	s.stream = st
	s.St = Streaming
	if s.tx != nil {
		s.St = TxStreaming
	}
	m := map[string]interface{}{"fields": fields, "uid": r.UID}
	if s.Ver >= 3 {
		m["t_first"] = int64(1)
		if s.Ver >= 4 && s.tx != nil {
			m["qid"] = int64(0)
		}
	} else {
		m["result_available_after"] = int64(1)
	}
	if s.Srv.RunMeta != nil {
		m = s.Srv.RunMeta(m)
	}
	return one(ps.S(TagSuccess, m))
}

func (s *Session) pull(r *Req, v Verdict) []ps.Struct {
	st := s.stream
	r.UID = st.uid
	var out []ps.Struct
	if v.Fail != "" {
		st.failAt, st.code = v.After, v.Fail
	}
	n := -1
	if s.Ver >= 4 && len(r.Fields) == 1 {
		if m, ok := mp(r.Fields[0]); ok {
			if i, ok := m["n"].(int64); ok {
				n = int(i)
			}
		}
	}
	for i, row := range st.rows {
		if st.failAt == i {
			break
		}
		if n >= 0 && i >= n {
			st.rows = st.rows[i:]
			if st.failAt >= 0 {
				st.failAt -= i
			}
			return append(out, Success("has_more", true))
		}
		if r.Tag == TagPull {
			out = append(out, ps.S(TagRecord, row))
		}
	}
	if st.failAt >= 0 {
		if s.tx != nil {
			s.tx.writes = nil
		}
		if st.end != "" {
			s.tx = nil
		}
		return append(out, s.fail(r, st.code)...)
	}
	s.stream = nil
	m := map[string]interface{}{"type": "r", "uid": st.uid}
	if st.write != "" {
		if s.tx != nil {
			s.tx.writes = append(s.tx.writes, st.write)
		} else {
			s.Srv.DB.Durable = append(s.Srv.DB.Durable, st.write)
		}
		m["type"] = "w"
		m["stats"] = map[string]interface{}{"nodes-created": int64(1)}
	}
	switch st.end {
	case "BEGIN":
		s.tx = &tx{}
	case "COMMIT":
		s.commit()
	case "ROLLBACK":
		s.tx = nil
	}
	if s.Ver >= 3 {
		m["t_last"] = int64(2)
		m["bookmark"] = "bm:" + st.uid
		if s.Ver >= 4 {
			m["db"] = "neo4j"
		}
	} else {
		m["result_consumed_after"] = int64(2)
	}
	s.St = Ready
	if s.tx != nil {
		s.St = TxReady
	}
	if s.Srv.SumMeta != nil && st.end == "" {
		m = s.Srv.SumMeta(m)
	}
	st.req.Summary = m
	return append(out, ps.S(TagSuccess, m))
}

// NShapes is the number of unusual sets of records.
const NShapes = 9

// Shapes are records of unusual forms.
func Shapes(k int, uid, tok string) [][]interface{} {
	e := []interface{}{}
	switch k {
	case 0:
		return [][]interface{}{e}
	case 1:
		return [][]interface{}{e, {uid}, e, {tok}, e}
	case 2:
		return [][]interface{}{{nil}, {nil, nil}, {nil, uid, nil}}
	case 3:
		return [][]interface{}{{uid, tok}, {uid, tok}, {uid, tok}}
	case 4:
		return [][]interface{}{{uid, e}, {map[string]interface{}{}}, {map[string]interface{}{"": map[string]interface{}{tok: e}}}, {[]interface{}{e, []interface{}{e}}}}
	case 5:
		var out [][]interface{}
		for i := 0; i <= 40; i++ {
			row := []interface{}{}
			for j := 0; j < i; j++ {
				row = append(row, int64(j))
			}
			out = append(out, row)
		}
		return append(out, []interface{}{uid})
	case 6:
		return [][]interface{}{{strings.Repeat(tok, 40000/len(tok))}, {false, true}, {""}, {int64(math.MinInt64), int64(math.MaxInt64)}, {0.0, -1.5e300}, {uid}}
	case 7:
		row := make([]interface{}, 300)
		for i := range row {
			row[i] = uid + strconv.Itoa(i)
		}
		return [][]interface{}{row, {uid}, row}
	default:
		return [][]interface{}{{"success"}, {map[string]interface{}{"code": "Neo.ClientError.X", "message": tok}}, {map[string]interface{}{"has_more": true}}, {int64(0x70)}}
	}
}

// Violations of all sessions.
func (v *Server) Violations() []string {
	var out []string
	for _, s := range v.Sessions {
		out = append(out, s.Violations...)
	}
	return out
}

// Find returns the RUN request with the given query text (the last one).
func (v *Server) Find(query string) (*Session, *Req) {
	for i := len(v.Sessions) - 1; i >= 0; i-- {
		s := v.Sessions[i]
		for j := len(s.Log) - 1; j >= 0; j-- {
			if s.Log[j].Tag == TagRun && s.Log[j].Query == query {
				return s, s.Log[j]
			}
		}
	}
	return nil, nil
}

// Requests counts all requests of all sessions.
func (v *Server) Requests() int {
	n := 0
	for _, s := range v.Sessions {
		n += len(s.Log)
	}
	return n
}

// Dump describes the sessions.
func (v *Server) Dump() string {
	var out []string
	for _, s := range v.Sessions {
		var l []string
		for _, r := range s.Log {
			l = append(l, r.Name+"["+r.Query+"]")
		}
		out = append(out, fmt.Sprintf("s%d %v closed by %q: %s", s.ID, s.St, s.ClosedBy, strings.Join(l, " ")))
	}
	sort.Sort(sort.StringSlice(out))
	return strings.Join(out, "\n")
}
