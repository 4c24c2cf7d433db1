package check

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"verif/boltsrv"
	goBolt "verif/gen/bolt"
	"verif/gen/bolt/bolt_mode"
	"verif/gen/bolt/connection"
	"verif/mc"
	"verif/rt"
	"verif/vnet"
)

// config is one way to configure a client.
type config struct {
	kind    int // 0 driver, 1 pool, 2 routed pool
	via     int
	order   int // permutation of the options
	enc     int // how credentials are escaped in a connection string
	ver     int
	host    string
	port    int
	user    string
	pass    string
	noUser  bool
	timeout time.Duration // 0: not given
	direct  bool          // connection.CreateBoltConn
	scheme  string        // of the connection string, "": the usual one
	more    int           // another option, see others
}

// others are options that make no difference to a client of a server of the version.
func (c config) others() []goBolt.Opt {
	out := []goBolt.Opt{goBolt.WithProtocolVersionNegotiation(), goBolt.WithChunkSize(1), goBolt.WithChunkSize(100), goBolt.WithChunkSize(65535), goBolt.WithStrictProtocolVersion(c.ver)}
	for v := 1; v < c.ver; v++ {
		out = append(out, goBolt.WithProtocolVersionGreaterThan(v))
	}
	for v := c.ver + 1; v <= 4; v++ {
		out = append(out, goBolt.WithProtocolVersionLessThan(v))
	}
	return out
}

var kinds = []string{"driver", "pool", "routed pool"}
var vias = []string{"options", "string", "string and WithBasicAuth", "string and WithTimeout", "string and other options", "options and other options"}

func (c config) addr() string {
	h := c.host
	if strings.Contains(h, ":") {
		h = "[" + strings.Trim(h, "[]") + "]"
	}
	return h + ":" + strconv.Itoa(c.port)
}

func (c config) T() time.Duration {
	if c.timeout == 0 {
		return time.Minute
	}
	return c.timeout
}

func (c config) String() string {
	if c.direct {
		return fmt.Sprintf("a connection by %q, version %d", c.str(), c.ver)
	}
	return fmt.Sprintf("%s from %s (order %d, escaping %d), %s, user %q, password %q, no user: %v, timeout %v, other option %d, version %d", kinds[c.kind], vias[c.via], c.order, c.enc, c.addr(), c.user, c.pass, c.noUser, c.timeout, c.more, c.ver)
}

func escape(s string, how int) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		ch := s[i]
		alnum := ch >= '0' && ch <= '9' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z'
		switch {
		case how == 0 && alnum:
			b.WriteByte(ch)
		case how == 2 && (alnum || strings.IndexByte("-._~$&+,;=!*'()", ch) >= 0):
			b.WriteByte(ch)
		case how == 1:
			fmt.Fprintf(&b, "%%%02x", ch)
		default:
			fmt.Fprintf(&b, "%%%02X", ch)
		}
	}
	return b.String()
}

// str is the connection string.
func (c config) str() string {
	str := "bolt://"
	if c.kind == 2 {
		str = "bolt+routing://"
	}
	if c.scheme != "" {
		str = c.scheme
	}
	if !c.noUser && c.via != 2 {
		str += escape(c.user, c.enc) + ":" + escape(c.pass, c.enc) + "@"
	}
	str += c.addr()
	if c.timeout != 0 && c.via != 3 {
		if c.timeout%time.Second == 0 {
			str += "?timeout=" + strconv.Itoa(int(c.timeout/time.Second))
		} else {
			str += "?timeout=" + c.timeout.String()
		}
	}
	return str
}

// direct makes connections without a client.
type direct string

func (d direct) Open(bolt_mode.AccessMode) (connection.IConnection, error) {
	return connection.CreateBoltConn(string(d))
}

func (c config) opts() []goBolt.Opt {
	var opts []goBolt.Opt
	str := c.str()
	if c.via == 0 || c.via == 5 {
		opts = append(opts, goBolt.WithHostPort(c.host, c.port), goBolt.WithBasicAuth(c.user, c.pass))
		if c.timeout != 0 {
			opts = append(opts, goBolt.WithTimeout(c.timeout))
		}
		if c.kind == 2 {
			opts = append(opts, goBolt.WithRouting())
		}
	} else {
		opts = append(opts, goBolt.WithConnectionString(str))
	}
	switch c.via {
	case 2:
		opts = append(opts, goBolt.WithBasicAuth(c.user, c.pass))
	case 3:
		if c.timeout != 0 {
			opts = append(opts, goBolt.WithTimeout(c.timeout))
		}
	case 4, 5:
		opts = append(opts, goBolt.WithChunkSize(1000), goBolt.WithProtocolVersionNegotiation(), goBolt.WithProtocolVersionGreaterThan(1), goBolt.WithProtocolVersionLessThan(4))
	}
	if c.more > 0 {
		opts = append(opts, c.others()[c.more-1])
	}
	// a rotation and possibly a reversal
	n := len(opts)
	out := make([]goBolt.Opt, n)
	for i := range opts {
		out[i] = opts[(i+c.order/2)%n]
	}
	if c.order%2 == 1 {
		for i := 0; i < n/2; i++ {
			out[i], out[n-1-i] = out[n-1-i], out[i]
		}
	}
	return out
}

type opener interface {
	Open(mode bolt_mode.AccessMode) (connection.IConnection, error)
}

// phases at which a server is silent
var phases = []string{"connecting", "handshake", "authentication", "query", "transaction", "members connecting", "members handshake"}

// configScenario runs a client made from a configuration.
func configScenario(id string, pick func(x *mc.X) config, timeouts bool) mc.Scenario {
	return mc.Scenario{ID: id, Horizon: 10000 * time.Hour, Body: func(x *mc.X) {
		c := pick(x)
		if c.kind == 3 {
			return
		}
		phase := ""
		if timeouts {
			n := 5
			if c.kind == 2 {
				n = 7
			}
			phase = phases[x.Choose(n, "silent while")]
		}
		runConfig(x, c, phase)
	}}
}

func runConfig(x *mc.X, c config, phase string) {
	fail := func(key, f string, a ...interface{}) { x.Fail(key, "%s\n%s", fmt.Sprintf(f, a...), c) }
	net := vnet.New()
	lead, f1, f2 := member{addr: c.addr(), role: "LEADER"}, member{addr: "db2.example:7688", role: "FOLLOWER"}, member{addr: "[fe80::1]:7689", role: "READ_REPLICA"}
	cl := newCluster(net, c.ver, "", "", lead, f1, f2)
	ok := map[string]bool{c.addr(): true}
	if c.kind == 2 {
		ok[f1.addr], ok[f2.addr] = true, true
	}
	armed := phase != "query" && phase != "transaction" && !strings.HasPrefix(phase, "members")
	for _, s := range sortedServers(cl.servers) {
		s := s
		cfg := s.Name == c.addr()
		s.Dial = func() vnet.Outcome {
			if armed && (phase == "connecting" || phase == "members connecting" && !cfg) {
				return vnet.Blackhole
			}
			return vnet.Accept
		}
		s.Handshake = nil
		if phase == "handshake" || phase == "members handshake" && !cfg {
			s.Handshake = func(ss *boltsrv.Session, _ [4]uint32) []boltsrv.Piece {
				return []boltsrv.Piece{{Then: boltsrv.Silence}}
			}
		}
		s.OnRequest = func(ss *boltsrv.Session, r *boltsrv.Req) boltsrv.Verdict {
			quietNow := phase == "authentication" && r.Tag == boltsrv.TagInit || armed && (phase == "query" || phase == "transaction") && r.Tag != boltsrv.TagInit
			if quietNow {
				return boltsrv.Verdict{Before: boltsrv.Silence}
			}
			return boltsrv.Verdict{}
		}
	}
	if strings.HasPrefix(phase, "members") {
		armed = true
	}
	timed := func(what string, start time.Duration, err error) {
		took := now() - start
		if err == nil {
			fail("no-timeout", "%s succeeds although the server is silent", what)
		}
		limit := c.T() + c.T()/2
		if strings.HasPrefix(phase, "members") {
			limit *= 3 // one after another
		}
		if took < c.T() || took > limit {
			fail("timeout", "%s fails after %v with a timeout of %v", what, took, c.T())
		}
	}
	client, err := goBolt.NewClient(c.opts()...)
	if err != nil {
		fail("client", "NewClient: %s", short(err))
	}
	var d opener
	var pool goBolt.IDriverPool
	start := now()
	if c.direct {
		d = direct(c.str())
	} else if c.kind == 0 {
		d, err = client.NewDriver()
	} else {
		pool, err = client.NewDriverPool(1 + c.kind)
		d = pool
	}
	opening := phase == "connecting" || phase == "handshake" || phase == "authentication"
	if c.kind == 2 && (opening || strings.HasPrefix(phase, "members")) {
		// the leader is asked while the pool is made, or a member is not reached
		if err == nil && opening {
			fail("pool-without-cluster", "a routed pool was made although the server does not answer")
		}
		if err != nil {
			timed("NewDriverPool", start, err)
			x.Class("%s %s", kinds[c.kind], phase)
			return
		}
	}
	if err != nil {
		fail("driver", "making the %s: %s", kinds[c.kind], short(err))
	}
	if c.kind == 2 {
		if conn, err := client.NewDriver(); err == nil || !reflect.ValueOf(&conn).Elem().IsNil() {
			fail("unpooled-routing", "an unpooled driver was made from a client with routing: %v", err)
		}
	}
	var conns []connection.IConnection
	modes := []bolt_mode.AccessMode{bolt_mode.WriteMode, bolt_mode.ReadMode}
	if c.kind == 2 {
		modes = append(modes, bolt_mode.WriteMode)
	}
	for i, m := range modes {
		start := now()
		conn, err := d.Open(m)
		if phase == "connecting" || phase == "handshake" || phase == "authentication" {
			timed("Open", start, err)
			continue
		}
		if err != nil {
			if strings.HasPrefix(phase, "members") {
				timed("Open", start, err)
				continue
			}
			fail("open", "Open fails: %s\n%s", short(err), cl.dump())
		}
		conns = append(conns, conn)
		tok := fmt.Sprintf("c%d", i)
		text := "RETURN 1 " + tok
		rows, _, err := conn.Query(text, nil)
		if err != nil || len(rows) != 1 {
			fail("query", "a query fails: %s", short(err))
		}
		rt.Do(func() {
			for _, s := range sortedServers(cl.servers) {
				if _, r := s.Find(text); r != nil && !ok[s.Name] {
					x.Fail("address", "a connection goes to %s\n%s", s.Name, c)
				}
			}
		})
	}
	rt.Do(func() {
		for _, a := range net.Dials {
			if !ok[a] {
				x.Fail("address", "the client dials %q\n%s", a, c)
			}
		}
		if c.kind != 2 && len(net.Dials) != len(modes) {
			x.Fail("dials", "%d connections were dialled for %d\n%s", len(net.Dials), len(modes), c)
		}
		u, p := c.user, c.pass
		if c.noUser {
			u, p = "", ""
		}
		for _, s := range cl.sessions() {
			if !s.Authed {
				continue
			}
			if got := s.AuthTok; got["principal"] != u || got["credentials"] != p || got["scheme"] != "basic" {
				x.Fail("credentials", "the server at %s receives the user %q and the password %q\n%s", s.Srv.Name, got["principal"], got["credentials"], c)
			}
		}
	})
	if phase == "query" || phase == "transaction" {
		armed = true
		for _, conn := range conns {
			start := now()
			if phase == "query" {
				_, _, err := conn.Query("RETURN 1 z", nil)
				timed("Query", start, err)
			} else {
				_, err := conn.Begin()
				timed("Begin", start, err)
			}
		}
	}
	for _, conn := range conns {
		if pool == nil {
			conn.Close()
		}
	}
	x.Class("%s %s", kinds[c.kind], phase)
}

func now() time.Duration {
	var n int64
	rt.Do(func() { n = rt.NowNS() })
	return time.Duration(n)
}

var reserved = "@:/?#[]%&=+ \"'<>\\^`{|}~!$()*,;-._"

// secrets are user names and passwords to try.
func secrets(tier string) []string {
	var out []string
	for ch := 1; ch < 128; ch++ {
		out = append(out, "a"+string(rune(ch))+"b")
	}
	for i := range reserved {
		out = append(out, reserved[i:i+1], reserved[i:i+1]+"x", "x"+reserved[i:i+1])
		for j := range reserved {
			if tier == "thorough" || strings.IndexByte("@:/?#%+&", reserved[i]) >= 0 && strings.IndexByte("@:/?#%+&", reserved[j]) >= 0 {
				out = append(out, reserved[i:i+1]+reserved[j:j+1], "a"+reserved[i:i+1]+"b"+reserved[j:j+1]+"c")
			}
		}
	}
	out = append(out, "neo4j", "p@ss:w/or?d#1", "bolt://x:y@z:1", "+routing", "bolt+routing", "%2B", "%41", "100%", "a b", "密码", "é", "😀", "?tls=true", "&timeout=1", "://", strings.Repeat("x", 300), "user:password@", "\u00a0", "\u2028")
	return out
}

func c20(tier string) []mc.Scenario {
	var out []mc.Scenario
	sec := secrets(tier)
	orders := func(x *mc.X, via int) int {
		switch via {
		case 1:
			return 0
		case 2, 3:
			return x.Choose(2, "order")
		}
		return x.Choose(8, "order")
	}
	for ver := 1; ver <= 4; ver++ {
		ver := ver
		for k := range kinds {
			k := k
			base := config{kind: k, ver: ver, host: "db.example", port: 7687, user: usr, pass: pwd}
			if ver == 4 || tier == "thorough" {
				out = append(out, configScenario(fmt.Sprintf("v%d/%s/credentials", ver, kinds[k]), func(x *mc.X) config {
					c := base
					c.via = x.Choose(3, "via")
					if c.via > 0 {
						c.enc = x.Choose(3, "escaping")
					}
					s := sec[x.Range(len(sec), "secret")]
					switch x.Choose(4, "where") {
					case 0:
						c.user = s
					case 1:
						c.pass = s
					case 2:
						c.user, c.pass = s, s
					case 3:
						c.pass = s + s
					}
					if x.Bool("empty password") {
						if c.pass != pwd {
							c.kind = 3
						}
						c.pass = ""
					}
					return c
				}, false))
			}
			out = append(out, configScenario(fmt.Sprintf("v%d/%s/addresses", ver, kinds[k]), func(x *mc.X) config {
				c := base
				c.via = x.Choose(len(vias), "via")
				c.order = orders(x, c.via)
				c.host = []string{"db.example", "10.0.0.1", "::1", "[::1]", "localhost", "xn--bcher-kva.example", "a-b_c.d", "routing.bolt", "fe80::1:2", "UPPER.Example"}[x.Choose(10, "host")]
				c.port = []int{7687, 1, 80, 443, 65535}[x.Choose(5, "port")]
				c.timeout = []time.Duration{0, 7 * time.Second}[x.Choose(2, "timeout")]
				return c
			}, false))
			out = append(out, configScenario(fmt.Sprintf("v%d/%s/no user", ver, kinds[k]), func(x *mc.X) config {
				c := base
				c.via = []int{1, 3, 4}[x.Choose(3, "via")]
				c.order = orders(x, c.via)
				c.noUser = true
				c.timeout = []time.Duration{0, 7 * time.Second}[x.Choose(2, "timeout")]
				return c
			}, false))
			out = append(out, configScenario(fmt.Sprintf("v%d/%s/timeouts", ver, kinds[k]), func(x *mc.X) config {
				c := base
				c.via = x.Choose(len(vias), "via")
				c.order = orders(x, c.via)
				c.timeout = []time.Duration{0, time.Second, 1500 * time.Millisecond, 90 * time.Second, 300 * time.Millisecond, time.Hour, 61 * time.Second, 2*time.Minute + 500*time.Millisecond, 2 * time.Hour, 30 * time.Hour, 1000000 * time.Second, time.Millisecond}[x.Choose(12, "timeout")]
				return c
			}, true))
		}
	}
	for ver := 1; ver <= 4; ver++ {
		pick := func(x *mc.X) config {
			c := config{direct: true, via: 1, ver: ver, host: "db.example", port: 7687, user: usr, pass: pwd}
			c.scheme = []string{"", "Bolt://", "bolt+routing://", "BOLT+Routing://"}[x.Choose(4, "scheme")]
			c.timeout = []time.Duration{0, time.Second, 1500 * time.Millisecond, 90 * time.Second, 300 * time.Millisecond, time.Hour, 61 * time.Second, 2*time.Minute + 500*time.Millisecond, 2 * time.Hour, 30 * time.Hour, 1000000 * time.Second, time.Millisecond}[x.Choose(12, "timeout")]
			switch x.Choose(4, "user") {
			case 1:
				c.noUser = true
			case 2:
				c.user, c.pass, c.enc = "a:b@c/d?e#f%g h", "p&q=r+s%20:@/", x.Choose(3, "escaping")
			case 3:
				c.pass = ""
			}
			switch x.Choose(3, "host") {
			case 1:
				c.host, c.port = "::1", 1
			case 2:
				c.host, c.port = "10.0.0.1", 65535
			}
			return c
		}
		out = append(out, configScenario(fmt.Sprintf("v%d/direct", ver), pick, false),
			configScenario(fmt.Sprintf("v%d/direct/timeouts", ver), pick, true))
	}
	out = append(out, directRejected())
	for ver := 1; ver <= 4; ver++ {
		for k := range kinds {
			base := config{kind: k, ver: ver, host: "db.example", port: 7687, user: usr, pass: pwd}
			out = append(out, configScenario(fmt.Sprintf("v%d/%s/other options", ver, kinds[k]), func(x *mc.X) config {
				c := base
				c.via = x.Choose(4, "via")
				c.order = x.Choose(8, "order")
				c.more = 1 + x.Choose(len(c.others()), "other option")
				return c
			}, false))
		}
	}
	out = append(out, rejectedConfigs())
	return out
}

type badConfig struct {
	name string
	opts []goBolt.Opt
	// what is made of the client: 0: driver, >0: pool of that size; nil: everything must fail
	pools []int
}

func rejectedConfigs() mc.Scenario {
	hp := goBolt.WithHostPort("h1", 7687)
	auth := goBolt.WithBasicAuth(usr, pwd)
	str := goBolt.WithConnectionString("bolt://u:p@h1:7687")
	rstr := goBolt.WithConnectionString("bolt+routing://u:p@h1:7687")
	rt_ := goBolt.WithRouting()
	o := func(os ...goBolt.Opt) []goBolt.Opt { return os }
	var bad []badConfig
	add := func(name string, opts []goBolt.Opt, pools ...int) { bad = append(bad, badConfig{name, opts, pools}) }
	add("no options", nil)
	add("a nil option", o(nil))
	add("a nil option first", o(nil, hp, auth))
	add("a nil option between", o(hp, nil, auth))
	add("a nil option last", o(hp, auth, nil))
	add("a nil option after a string", o(str, nil))
	add("no user", o(hp))
	add("no address", o(auth))
	add("only routing", o(rt_))
	add("only a timeout", o(goBolt.WithTimeout(time.Second)))
	add("no address, routing", o(auth, rt_))
	add("no host", o(goBolt.WithHostPort("", 7687), auth))
	for _, p := range []int{0, -1, -7687} {
		add(fmt.Sprintf("port %d", p), o(goBolt.WithHostPort("h1", p), auth))
		add(fmt.Sprintf("port %d, reversed", p), o(auth, goBolt.WithHostPort("h1", p)))
	}
	add("empty user", o(hp, goBolt.WithBasicAuth("", pwd)))
	add("string, then host and port", o(str, hp))
	add("host and port, then string", o(hp, str))
	add("host and port, auth, string", o(hp, auth, str))
	add("string, auth, host and port", o(str, auth, hp))
	add("host, then string", o(goBolt.WithHostPort("h2", 0), str))
	add("port, then string", o(goBolt.WithHostPort("", 7), str))
	add("string, then routing", o(str, rt_))
	add("routing, then string", o(rt_, str))
	add("routing, auth, string", o(rt_, auth, str))
	add("string, auth, routing", o(str, auth, rt_))
	add("routing string, then host and port", o(rstr, hp))
	add("host and port, then routing string", o(hp, rstr))
	add("empty string", o(goBolt.WithConnectionString("")))
	for _, s := range []string{"http://u:p@h1:7687", "bolts://u:p@h1:7687", "neo4j://u:p@h1:7687", "bolt+ssc://u:p@h1:7687", "bolt+routingx://u:p@h1:7687", "boltrouting://u:p@h1:7687", "+routing://u:p@h1:7687", "u:p@h1:7687", "h1:7687", "//u:p@h1:7687", "/h1", "://h1:7687", "bolt", "bolt+routing+routing://u:p@h1:7687",
		"bolt://u:%zz@h1:7687", "bolt://u:p@h1:port", "bolt://u:p@h1:76x", "bolt://u:p@[::1:7687", "bolt://u@h1:7687", "bolt+routing://u@h1:7687", "bolt://u@h1:7687?timeout=5",
		"bolt://u:p@h1:7687?timeout=abc", "bolt://u:p@h1:7687?timeout=5x", "bolt://u:p@h1:7687?timeout=5+s", "bolt+routing://u:p@h1:7687?timeout=abc", "bolt://u:p@h1:7687?timeout=--1", "bolt://u:p@h1:7687?timeout=1.5"} {
		add("string "+s, o(goBolt.WithConnectionString(s)))
		add("string with auth "+s, o(auth, goBolt.WithConnectionString(s)))
	}
	for _, v := range []int{0, 4, -1, 100} {
		add(fmt.Sprintf("version greater than %d", v), o(hp, auth, goBolt.WithProtocolVersionGreaterThan(v)))
	}
	for _, v := range []int{1, 5, 0, -1} {
		add(fmt.Sprintf("version less than %d", v), o(goBolt.WithProtocolVersionLessThan(v), hp, auth))
	}
	for _, v := range []int{0, 5, -1} {
		add(fmt.Sprintf("version strictly %d", v), o(hp, goBolt.WithStrictProtocolVersion(v), auth))
	}
	add("unpooled routing", o(hp, auth, rt_), 0)
	add("unpooled routing by string", o(rstr), 0)
	add("unpooled routing by upper case string", o(goBolt.WithConnectionString("BOLT+ROUTING://u:p@h1:7687")), 0)
	add("pools without capacity", o(hp, auth), -999, -1, 0)
	add("pools without capacity by string", o(str), -999, -1, 0)
	add("routed pools without capacity", o(hp, auth, rt_), -999, -2, -1, 0, 1)
	add("routed pools without capacity by string", o(rstr), -999, -2, -1, 0, 1)
	return mc.Scenario{ID: "rejected", Horizon: time.Hour, Body: func(x *mc.X) {
		b := bad[x.Range(len(bad), "configuration")]
		net := vnet.New()
		newCluster(net, 4, "", "", member{addr: "h1:7687", role: "LEADER"}, member{addr: "h2:7687", role: "FOLLOWER"}, member{addr: "h2:7", role: "FOLLOWER"})
		client, err := goBolt.NewClient(b.opts...)
		if b.pools == nil {
			x.Check(err != nil, "accepted", "NewClient accepts: %s", b.name)
			x.Check(err == nil || reflect.ValueOf(&client).Elem().IsNil(), "client-with-error", "NewClient returns a client with an error: %s", b.name)
			x.Class("%s", short(err))
			return
		}
		if err != nil {
			return // rejected early
		}
		for _, n := range b.pools {
			if n == 0 && !strings.Contains(b.name, "pools") {
				_, err = client.NewDriver()
			} else if n == -999 {
				continue
			} else {
				_, err = client.NewDriverPool(n)
			}
			x.Check(err != nil, "accepted", "%s, %d: accepted", b.name, n)
			x.Class("%s", short(err))
		}
		var d int
		rt.Do(func() { d = len(net.Dials) })
		x.Check(d == 0, "dialled", "%s: %d connections attempted", b.name, d)
	}}
}

// directRejected: strings by which no connection is made.
func directRejected() mc.Scenario {
	strs := []string{"", "h1:7687", "//u:p@h1:7687", "http://u:p@h1:7687", "bolts://u:p@h1:7687", "neo4j://u:p@h1:7687", "bolt+routing2://u:p@h1:7687", "boltx://u:p@h1:7687",
		"bolt://u@h1:7687", "bolt://u:p@h1:port", "bolt://u:p@h1:7687%zz", "bolt://u:%zz@h1:7687", "bolt://[::1:7687", "bolt://u:p@h1:7687?timeout=x", "bolt://u:p@h1:7687?timeout=5x", "bolt://u:p@h1:7687?timeout=1.5",
		"bolt://u:p@h1:7687?timeout=1m5", "bolt://u:p@h1:7687?timeout=s", "bolt://u:p@h1:7687?timeout=five", "bolt+routing://u:p@h1:7687?timeout=5 s", "bolt://u:p@h1:7687?timeout=99999999999999999999"}
	return mc.Scenario{ID: "direct/rejected", Horizon: time.Hour, Body: func(x *mc.X) {
		s := strs[x.Choose(len(strs), "string")]
		net := vnet.New()
		newCluster(net, 4, "", "", member{addr: "h1:7687", role: "LEADER"})
		conn, err := connection.CreateBoltConn(s)
		x.Check(err != nil, "accepted", "CreateBoltConn accepts %q", s)
		x.Check(nilConn(conn), "connection-with-error", "CreateBoltConn returns a connection with an error: %q", s)
		var d int
		rt.Do(func() { d = len(net.Dials) })
		x.Check(d == 0, "dialled", "%q: %d connections attempted", s, d)
		x.Class("%s", short(err))
	}}
}

func init() {
	register(&mc.Check{Property: "C20", Scenarios: c20,
		Bounds: "driver, pool and routed pool x options, connection string and mixtures in up to eight orders: 500+ (thorough 2,600+) user names and passwords made of every ASCII character and pairs of reserved characters, three ways of escaping; ten hosts incl. IPv6 x five ports; twelve timeouts (1 ms to 278 h) measured in virtual time against a server silent at five (routed: seven) stages; strings without user; every other option; connections made directly by a string (four schemes, twelve timeouts, three hosts, four kinds of credentials, silence at five stages) and 21 strings by which none is made; about 110 incomplete or contradictory configurations"})
}
