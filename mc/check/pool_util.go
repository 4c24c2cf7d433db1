package check

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"
	"time"

	"verif/boltsrv"
	goBolt "verif/gen/bolt"
	"verif/gen/bolt/bolt_mode"
	"verif/gen/bolt/connection"
	"verif/mc"
	"verif/ps"
	"verif/rt"
	"verif/vnet"
)

const poolT = 5 * time.Second

// loan is a connection that is lent.
type loan struct {
	conn connection.IConnection
	c    *vnet.Conn
	mode bolt_mode.AccessMode
	tx   connection.ITransaction
	dead bool // its borrower knows
	use  *use
	seen [2]int // overviews the pool had received and asked for
}

func (l *loan) sess() *boltsrv.Session {
	if l.c == nil {
		return nil
	}
	s, _ := l.c.User.(*boltsrv.Session)
	return s
}

// poolRun is an execution around a pool of connections. What it knows is read and written in the
// controller only (rt.Do), as several goroutines may use it.
type poolRun struct {
	x      *mc.X
	props  map[string]bool
	ver    int
	routed bool
	size   int
	net    *vnet.Net
	cl     *cluster
	pool   goBolt.IDriverPool

	socks   map[connection.IConnection]*vnet.Conn
	dead    map[connection.IConnection]bool // known to a borrower
	lent    []*loan
	n       int
	stray   map[*vnet.Conn]bool   // the server said something unasked
	probes  map[string]*vnet.Conn // what was written where
	last    *vnet.Conn            // of the last write
	never   []string              // work that must not become durable
	log     []string
	out     string                        // outage
	down    map[string]string             // of single servers
	only    func(s *boltsrv.Session) bool // which sessions are hit
	pending map[*boltsrv.Session][]member // overviews being served
	faulty  bool                          // requests may be hit
	hits    int
	broke   bool // ... and the transport broke
	fetched int  // overviews the pool has received
	garbled int  // overviews it can not understand
	conc    bool // several goroutines use the pool
	closing bool // closing the pool was begun
	closed  bool // ... and is done

	// what the pool may know about the cluster
	known []member
	next  func(ver int) [][]interface{} // a malformed overview
}

func newPoolRun(x *mc.X, props string, ver, size int, routed bool, ms ...member) *poolRun {
	p := &poolRun{x: x, props: map[string]bool{}, ver: ver, routed: routed, size: size, net: vnet.New(),
		socks: map[connection.IConnection]*vnet.Conn{}, dead: map[connection.IConnection]bool{}, probes: map[string]*vnet.Conn{}, stray: map[*vnet.Conn]bool{},
		down: map[string]string{}, pending: map[*boltsrv.Session][]member{}}
	for _, s := range strings.Fields(props) {
		p.props[s] = true
	}
	if len(ms) == 0 {
		ms = []member{{addr: addr1, role: "LEADER"}}
	}
	p.cl = newCluster(p.net, ver, usr, pwd, ms...)
	p.known = ms
	p.cl.serve = p.serve
	for _, s := range p.cl.servers {
		p.hook(s)
	}
	p.net.OnTry = func(c *vnet.Conn, b []byte) {
		p.last = c
		if i := bytes.Index(b, []byte("probe")); i >= 0 {
			j := i + 5
			for j < len(b) && b[j] >= '0' && b[j] <= '9' {
				j++
			}
			p.probes[string(b[i:j])] = c
		}
	}
	return p
}

// outage tells what is wrong with a server.
func (p *poolRun) outage(name string) string {
	if p.out != "" {
		return p.out
	}
	return p.down[name]
}

func (p *poolRun) hook(s *boltsrv.Server) {
	s.Dial = func() vnet.Outcome {
		switch p.outage(s.Name) {
		case "refuse":
			return vnet.Refuse
		case "blackhole":
			return vnet.Blackhole
		}
		return vnet.Accept
	}
	s.Handshake = func(s *boltsrv.Session, offers [4]uint32) []boltsrv.Piece {
		switch p.outage(s.Srv.Name) {
		case "dies":
			return []boltsrv.Piece{{Then: boltsrv.FIN}}
		case "mute":
			return []boltsrv.Piece{{Then: boltsrv.Silence}}
		}
		return []boltsrv.Piece{{Bytes: []byte{0, 0, 0, byte(s.Srv.Ver)}}}
	}
	s.OnRequest = p.onRequest
	s.OnReply = p.onReply
}

func (p *poolRun) onRequest(s *boltsrv.Session, r *boltsrv.Req) boltsrv.Verdict {
	if r.Tag == boltsrv.TagInit && p.outage(s.Srv.Name) == "auth" {
		return boltsrv.Verdict{Fail: "Neo.ClientError.Security.Unauthorized"}
	}
	if !p.faulty || (p.only == nil && r.Tag == boltsrv.TagInit) || (p.only != nil && !p.only(s)) {
		return boltsrv.Verdict{}
	}
	k := p.x.Fault(6, "fault at "+r.Name)
	if k > 0 {
		p.hits++
		p.broke = p.broke || k > 1 && k < 5
		rt.Tracef("FAULT %d at %s", k, r.Name)
	}
	switch k {
	case 1:
		return boltsrv.Verdict{Fail: "Neo.TransientError.Test.Refused"}
	case 2:
		return boltsrv.Verdict{Before: boltsrv.FIN}
	case 3:
		return boltsrv.Verdict{Before: boltsrv.RST}
	case 4:
		return boltsrv.Verdict{Before: boltsrv.Silence}
	case 5:
		return boltsrv.Verdict{Ignored: true}
	}
	return boltsrv.Verdict{}
}

// onReply notes which overview the client has received.
func (p *poolRun) onReply(s *boltsrv.Session, r *boltsrv.Req, msgs []ps.Struct) []boltsrv.Piece {
	if ms, ok := p.pending[s]; ok && r.Tag == boltsrv.TagPull {
		delete(p.pending, s)
		if len(msgs) > 0 && msgs[len(msgs)-1].Tag == boltsrv.TagSuccess {
			p.known = ms
			p.fetched++
		}
	}
	return s.Pieces(msgs)
}

// serve makes the rows of an overview.
func (p *poolRun) serve(s *boltsrv.Session) [][]interface{} {
	if p.next != nil {
		p.garbled++
		return p.next(p.ver)
	}
	p.pending[s] = append([]member(nil), p.cl.members...)
	return overview(p.ver, p.cl.members)
}

// fails reports a violation of one of the properties.
func (p *poolRun) fails(props, key, format string, a ...interface{}) {
	for _, s := range strings.Fields(props) {
		if p.props[s] {
			p.x.Fail(key, "v%d, size %d: %s\nhistory: %s\n%s", p.ver, p.size, fmt.Sprintf(format, a...), strings.Join(p.log, " ; "), p.cl.dump())
		}
	}
	p.x.Quit(key + " breaks another property")
}

func (p *poolRun) note(format string, a ...interface{}) {
	s := fmt.Sprintf(format, a...)
	p.x.Tracef("CALL %s", s)
	rt.Do(func() { p.log = append(p.log, s) })
}

// timed judges that a call does not wait for longer than the timeout without progress.
func (p *poolRun) timed(what string, f func()) {
	if !p.props["C18"] {
		f()
		return
	}
	rt.Do(p.net.Mark)
	f()
	rt.Do(func() {
		if g := p.net.Gap(); g > poolT+time.Second {
			p.fails("C18", "too-long", "%s waits for %v without any progress, the timeout is %v", what, g, poolT)
		}
	})
}

// conform judges the conversations of all connections.
func (p *poolRun) conform() {
	rt.Do(func() {
		for _, s := range sortedServers(p.cl.servers) {
			for _, v := range s.Violations() {
				p.fails("C11", "protocol", "%s: %s", s.Name, v)
			}
		}
	})
}

// make makes the pool.
func (p *poolRun) make() error {
	scheme := "bolt"
	if p.routed {
		scheme = "bolt+routing"
	}
	client, err := goBolt.NewClient(goBolt.WithConnectionString(fmt.Sprintf("%s://%s:%s@%s?timeout=%d", scheme, usr, pwd, addr1, int(poolT/time.Second))))
	if err != nil {
		return err
	}
	p.timed("making the pool", func() { p.pool, err = client.NewDriverPool(p.size) })
	return err
}

// caps is the number of connections lent at once in a mode.
func (p *poolRun) caps(m bolt_mode.AccessMode) int {
	if !p.routed {
		return p.size
	}
	if m == bolt_mode.WriteMode {
		return (p.size + 1) / 2
	}
	return p.size / 2
}

func (p *poolRun) lentIn(m bolt_mode.AccessMode) int {
	if !p.routed {
		return len(p.lent)
	}
	n := 0
	for _, l := range p.lent {
		if l.mode == m {
			n++
		}
	}
	return n
}

// serves reports whether a server may serve a mode according to an overview.
func serves(ms []member, addr string, m bolt_mode.AccessMode) bool {
	for _, s := range ms {
		if s.addr != addr {
			continue
		}
		switch strings.ToUpper(s.role) {
		case "LEADER":
			if m == bolt_mode.WriteMode {
				return true
			}
		case "FOLLOWER", "READ_REPLICA":
			if m == bolt_mode.ReadMode {
				return true
			}
		}
	}
	return false
}

func modeName(m bolt_mode.AccessMode) string {
	if m == bolt_mode.WriteMode {
		return "write"
	}
	return "read"
}

func (p *poolRun) id() int {
	n := 0
	rt.Do(func() { p.n++; n = p.n })
	return n
}

// borrow borrows a connection and judges it. It returns nil and the error if that fails.
func (p *poolRun) borrow(m bolt_mode.AccessMode, then ...func()) (*loan, error) {
	var conn connection.IConnection
	var err error
	p.timed("borrowing", func() { conn, err = p.pool.Open(m) })
	for _, f := range then {
		f()
	}
	if err != nil {
		if !nilConn(conn) {
			p.fails("C30 C31 C41 C43", "connection-with-error", "a failing borrow returns a connection: %s", short(err))
		}
		return nil, err
	}
	if nilConn(conn) {
		p.fails("C30 C31 C41 C43", "nil-connection", "a borrow returns neither a connection nor an error")
		return nil, fmt.Errorf("no connection")
	}
	l := &loan{conn: conn, mode: m}
	rt.Do(func() {
		l.seen = [2]int{p.fetched, p.garbled}
		for _, o := range p.lent {
			if o.conn == conn {
				p.fails("C30 C31 C41 C43", "lent-twice", "a connection is lent to two borrowers")
			}
		}
		p.lent = append(p.lent, l)
		if n, c := p.lentIn(m), p.caps(m); n > c {
			p.fails("C30 C41 C43", "too-many-lent", "%d connections are lent for %s", n, modeName(m))
		}
		if p.dead[conn] {
			p.fails("C30 C31 C43", "lent-dead", "a connection that is known dead is lent")
		}
		l.c = p.socks[conn]
		if p.stray[l.c] && !p.conc {
			p.fails("C30 C31 C43", "lent-unread", "a connection is lent on which an unread message of the server waits")
		}
		if s := l.sess(); s != nil && !s.Dead() {
			if d := s.Dirty(); d != "" {
				p.fails("C30 C31 C43", "lent-dirty", "a connection is lent that has an %s", d)
			}
		}
	})
	if !conn.ValidateOpen() {
		p.fails("C30 C31 C41 C43", "lent-closed", "a connection is lent that reports itself not open")
	}
	p.probe(l)
	rt.Do(func() {
		// a server that had visibly ended the session before
		if l.dead && !p.conc && l.c != nil && (l.sess().ClosedBy == "FIN" || l.sess().ClosedBy == "RST") && l.c.Gone() {
			p.fails("C31 C43", "lent-gone", "a connection is lent that the server had ended before")
		}
	})
	return l, nil
}

func nilConn(c connection.IConnection) bool {
	if c == nil {
		return true
	}
	v := reflect.ValueOf(c)
	return v.Kind() == reflect.Ptr && v.IsNil()
}

// probe runs a query that a connection in order answers.
func (p *poolRun) probe(l *loan) {
	tok := fmt.Sprintf("probe%d", p.id())
	rt.Do(func() { p.last = nil })
	var rows [][]interface{}
	var err error
	p.timed("a query", func() { rows, _, err = l.conn.Query("RETURN 1 "+tok, nil) })
	rt.Do(func() {
		c := p.probes[tok]
		if c == nil && err != nil && p.last != nil && p.last.Gone() {
			// not even the first byte was accepted
			c = p.last
		}
		if c == nil {
			p.fails("C30 C31 C41 C43", "unused", "a query on a lent connection returns (%s) without having been sent", short(err))
			return
		}
		if l.c == nil {
			for conn, o := range p.socks {
				if o == c && conn != l.conn {
					p.fails("C30 C41", "shared-socket", "two connections share a socket")
				}
			}
			for _, o := range p.lent {
				if o != l && o.c == c {
					p.fails("C30 C41", "shared-socket", "two lent connections share a socket")
				}
			}
			l.c = c
			p.socks[l.conn] = c
		} else if l.c != c {
			p.fails("C30 C41", "moved", "a connection uses another socket than before")
		}
		if p.routed && !p.conc && !serves(usable(p.known), c.Addr, l.mode) {
			p.fails("C40", "wrong-role", "a %s connection to %s is lent, which is not in that role", modeName(l.mode), c.Addr)
		}
		s := l.sess()
		gone := s == nil || s.Dead() || c.Gone()
		if err != nil {
			if !gone && p.hits == 0 {
				p.fails("C30 C31 C41 C43", "lent-broken", "a query on a lent connection fails: %s", short(err))
			}
			if gone || badConn(err) {
				l.dead = true
				p.dead[l.conn] = true
			}
			return
		}
		if len(rows) != 1 {
			p.fails("C30 C31 C41 C43", "lent-broken", "a query on a lent connection returns %d rows", len(rows))
		}
	})
}

// inOrder tells whether there is nothing about a lent connection for which it might be dropped.
func (p *poolRun) inOrder(l *loan) bool {
	if p.conc || p.closing || p.hits > 0 || p.broke || l.dead || l.tx != nil || l.c == nil || l.c.Gone() || p.stray[l.c] {
		return false
	}
	s := l.sess()
	if s == nil || s.Dead() || s.Dirty() != "" || p.out != "" || len(p.down) > 0 {
		return false
	}
	return !p.routed || l.seen == [2]int{p.fetched, p.garbled} && serves(usable(p.known), l.c.Addr, l.mode)
}

// giveBack returns a connection and judges what becomes of it.
func (p *poolRun) giveBack(l *loan) error {
	rt.Do(func() {
		for i, o := range p.lent {
			if o == l {
				p.lent = append(p.lent[:i:i], p.lent[i+1:]...)
				break
			}
		}
	})
	var keep bool
	rt.Do(func() { keep = p.inOrder(l) })
	var err error
	p.timed("returning a connection", func() { err = p.pool.Reclaim(l.conn) })
	rt.Do(func() {
		if keep && p.hits == 0 && !p.closing && l.c.IsClosed() {
			p.fails("C31 C43", "wasted", "a connection in order is closed when it is returned (%s)", short(err))
		}
		if p.broke {
			l.dead = true
			p.dead[l.conn] = true
		}
		if l.dead && l.c != nil && !l.c.IsClosed() {
			p.fails("C31 C32 C42 C43", "dropped-open", "the socket of a dead connection is still open after the connection was returned (%s)", short(err))
		}
	})
	return err
}

// sockets judges how many sockets are open.
func (p *poolRun) sockets() { p.socketsBut(1) }

// settled judges the open sockets at a moment at which no refresh can be in progress.
func (p *poolRun) settled() { p.socketsBut(0) }

func (p *poolRun) socketsBut(refreshing int) {
	rt.Do(func() {
		max := p.size
		if p.routed {
			max += refreshing // the one that refreshes
		}
		if n := p.net.OpenCount(); n > max {
			p.fails("C30 C31 C41 C43", "too-many-sockets", "%d sockets are open", n)
		}
	})
}

// reachable reports whether a borrow has to find a server.
func (p *poolRun) reachable(m bolt_mode.AccessMode) bool {
	if p.out != "" {
		return false
	}
	if !p.routed {
		return true
	}
	for _, s := range p.known {
		if serves(usable(p.known), s.addr, m) && p.cl.servers[s.addr] != nil && p.down[s.addr] == "" {
			return true
		}
	}
	return false
}

// full borrows the full number of connections at once and judges that they work.
func (p *poolRun) full(m bolt_mode.AccessMode, props string) []*loan {
	var got []*loan
	for tries := 0; len(got) < p.caps(m); tries++ {
		if tries > 4*p.size+4 {
			p.fails(props, "capacity", "the pool keeps lending dead connections")
			return got
		}
		p.note("borrow for %s", modeName(m))
		l, err := p.borrow(m)
		if err != nil {
			p.fails(props, "capacity", "only %d of %d %s connections can be borrowed: %s", len(got), p.caps(m), modeName(m), short(err))
			return got
		}
		if l.dead {
			p.note("return it dead")
			p.giveBack(l)
			continue
		}
		got = append(got, l)
	}
	for _, l := range got {
		tok := fmt.Sprintf("end%d", p.id())
		tx, err := l.conn.Begin()
		if err == nil {
			_, err = tx.Exec("W "+tok, nil)
		}
		if err == nil {
			err = tx.Commit()
		}
		n := 0
		rt.Do(func() { n = p.cl.db.Has(tok) })
		if err != nil || n != 1 {
			p.fails("C30 C31 C41 C43", "lent-broken", "a transaction on a lent connection: %s, durable %d times", short(err), n)
		}
	}
	return got
}

// finish judges the end of a history: full capacity, nothing left over, nothing open after closing.
func (p *poolRun) finish(props string, modes ...bolt_mode.AccessMode) {
	for len(p.lent) > 0 {
		p.note("return")
		p.giveBack(p.lent[0])
	}
	p.settled()
	var all []*loan
	for _, m := range modes {
		all = append(all, p.full(m, props)...)
	}
	p.settled()
	for i, l := range all {
		// some are returned after closing
		if i%2 == 1 {
			continue
		}
		p.note("return")
		if err := p.giveBack(l); err != nil {
			p.fails(props, "return-fails", "returning a working connection fails: %s", short(err))
		}
	}
	p.shut()
	rt.Do(func() {
		for _, t := range p.never {
			if p.cl.db.Has(t) != 0 {
				p.fails("C31 C43", "leaked-work", "work %q that was never committed is durable", t)
			}
		}
	})
}

// shut closes the pool with connections still lent and judges what is left.
func (p *poolRun) shut() {
	p.note("close")
	rt.Do(func() { p.closing = true })
	var err error
	p.timed("closing the pool", func() { err = p.pool.Close() })
	if err != nil {
		p.fails("C32 C42", "close-fails", "closing the pool fails: %s", short(err))
	}
	rt.Do(func() { p.closed = true })
	rt.Do(func() {
		if n := p.net.OpenCount(); n > len(p.lent) {
			p.fails("C31 C32 C42 C43", "idle-open", "%d sockets are open after closing with %d connections lent", n, len(p.lent))
		}
	})
	for _, m := range []bolt_mode.AccessMode{bolt_mode.WriteMode, bolt_mode.ReadMode} {
		conn, err := p.pool.Open(m)
		if err == nil || !nilConn(conn) {
			p.fails("C32 C42", "borrow-after-close", "a borrow after closing returns %s", short(err))
		}
	}
	for len(p.lent) > 0 {
		p.note("return after closing")
		l := p.lent[0]
		p.giveBack(l)
		rt.Do(func() {
			if l.c != nil && !l.c.IsClosed() {
				p.fails("C32 C42", "returned-open", "a connection returned after closing is still open")
			}
		})
	}
	rt.Do(func() {
		if n := p.net.OpenCount(); n != 0 {
			p.fails("C31 C32 C42 C43", "left-open", "%d sockets are open after closing and returning everything", n)
		}
	})
	p.quiet()
}

// quiet judges that nothing happens any more.
func (p *poolRun) quiet() {
	p.conform()
	if !p.routed && !p.props["C33"] {
		return
	}
	n := 0
	rt.Do(func() { n = len(p.net.Dials) })
	rt.Sleep(5 * refreshEvery)
	rt.Do(func() {
		if k := len(p.net.Dials); k != n {
			p.fails("C42 C33", "dial-after-stop", "the stopped pool connects to %v", p.net.Dials[n:])
		}
		if k := p.net.OpenCount(); k != 0 {
			p.fails("C42 C33", "left-open", "%d sockets are open long after stopping and returning everything", k)
		}
	})
	if l := rt.Alive(); p.props["C33"] && len(l) > 0 {
		p.fails("C33", "still-running", "long after everything was closed and returned %d goroutines have not ended: %s", len(l), strings.Join(l, ", "))
	}
}

// reach gives every server its health back.
func (p *poolRun) recover() {
	rt.Do(func() { p.out, p.down = "", map[string]string{} })
}

// ops of histories
type poolOp struct {
	name string
	do   func()
}

// kill ends the session of a socket from the server's side.
func (p *poolRun) kill(c *vnet.Conn, then boltsrv.Then) {
	rt.Do(func() {
		if s, ok := c.User.(*boltsrv.Session); ok && !s.Dead() {
			s.Kill(then)
		}
	})
}

// blurt makes the server say something unasked, as when it ends a session for its own reasons.
func (p *poolRun) blurt(c *vnet.Conn) {
	rt.Do(func() {
		if s, ok := c.User.(*boltsrv.Session); ok && !s.Dead() {
			p.stray[c] = true
			c.Push(s.Frame(ps.Struct{Tag: boltsrv.TagFailure, Fields: []interface{}{map[string]interface{}{"code": "Neo.TransientError.General.DatabaseUnavailable", "message": "stray"}}}))
		}
	})
}

func (p *poolRun) idle() []*vnet.Conn {
	var out []*vnet.Conn
	rt.Do(func() {
		for _, c := range p.net.Open() {
			lent := false
			for _, l := range p.lent {
				if l.c == c {
					lent = true
				}
			}
			if s, ok := c.User.(*boltsrv.Session); ok && !s.Dead() && !lent {
				out = append(out, c)
			}
		}
	})
	return out
}

// loanOps are the operations on a lent connection.
func (p *poolRun) loanOps(l *loan, i int, faults bool, which string) []poolOp {
	var ops []poolOp
	add := func(code, name string, f func()) {
		if strings.Contains(which, code) {
			ops = append(ops, poolOp{fmt.Sprintf("%s %d", name, i), f})
		}
	}
	ret := func(faults bool) {
		rt.Do(func() { p.faulty, p.hits, p.broke = faults, 0, false })
		p.giveBack(l)
		rt.Do(func() { p.faulty, p.hits, p.broke = false, 0, false })
	}
	add("r", "return", func() { ret(faults) })
	add("x", "close and return", func() {
		l.conn.Close()
		l.dead = true
		rt.Do(func() { p.dead[l.conn] = true })
		ret(false)
	})
	if l.dead {
		return ops
	}
	if l.tx == nil {
		add("q", "query", func() { p.probe(l) })
		add("f", "failing query", func() { l.conn.Query("FAIL Neo.ClientError.Test.F", nil); p.after(l) })
		add("b", "begin and write", func() { p.begin(l, "W") })
		add("B", "begin and fail", func() { p.begin(l, "FAILPULL") })
	}
	if s := l.sess(); s != nil && !s.Dead() {
		add("k", "kill (FIN)", func() { p.kill(l.c, boltsrv.FIN) })
		add("K", "kill (RST)", func() { p.kill(l.c, boltsrv.RST) })
		add("S", "server stops answering", func() { p.kill(l.c, boltsrv.Silence) })
	}
	return ops
}

// after notes whether the borrower has noticed that a connection is dead.
func (p *poolRun) after(l *loan) {
	rt.Do(func() {
		if s := l.sess(); s != nil && s.Dead() {
			l.dead = true
			p.dead[l.conn] = true
		}
	})
}

func (p *poolRun) begin(l *loan, stmt string) {
	tx, err := l.conn.Begin()
	if err != nil {
		p.after(l)
		return
	}
	l.tx = tx
	tok := fmt.Sprintf("t%d", p.id())
	rt.Do(func() { p.never = append(p.never, tok) })
	if _, err := tx.Exec("W "+tok, nil); err != nil {
		p.after(l)
		return
	}
	if stmt == "FAILPULL" {
		tx.Query("FAILPULL 1 Neo.ClientError.Test.F "+tok, nil)
	}
}

// outages that a history may contain
var outages = []string{"refuse", "dies", "blackhole", "mute", "auth"}
