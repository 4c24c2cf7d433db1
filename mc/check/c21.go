package check

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"io"
	"math/big"
	stdnet "net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verif/boltsrv"
	goBolt "verif/gen/bolt"
	"verif/gen/bolt/bolt_mode"
	"verif/gen/bolt/connection"
	"verif/mc"
	"verif/rt"
	"verif/vnet"
)

// pki is the set of certificates, made once per worker.
type pki struct {
	dir    string
	server map[string]tls.Certificate
	ca     map[string]*x509.CertPool
	client map[string][]byte // certificates of clients (DER)
}

var thePKI *pki

func (p *pki) file(name string) string { return filepath.Join(p.dir, name) }

// the names of the files are awkward on purpose
const (
	fileCA    = "ca a+b&c=%41#?.pem"
	fileCAB   = "ca b.pem"
	fileBad   = "not pem.pem"
	fileCert  = "cert ;+&=%2F#é.pem"
	fileKey   = "key @:+&=%#?.pem"
	fileCert2 = "cert2.pem"
	fileKey2  = "key2.pem"
	fileSys   = "sys.pem"
)

var tlsHosts = []string{"db.example", "10.1.2.3", "::1", "db2.example", "db3.example"}

func getPKI() *pki {
	if thePKI != nil {
		return thePKI
	}
	chk := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	dir := os.Getenv("VERIF_SCRATCH")
	if dir == "" {
		panic("no scratch directory")
	}
	chk(os.MkdirAll(dir, 0o700))
	p := &pki{dir: dir, server: map[string]tls.Certificate{}, ca: map[string]*x509.CertPool{}, client: map[string][]byte{}}
	serial := int64(1)
	write := func(name, typ string, der []byte) {
		chk(os.WriteFile(p.file(name), pem.EncodeToMemory(&pem.Block{Type: typ, Bytes: der}), 0o600))
	}
	type authority struct {
		cert *x509.Certificate
		key  *ecdsa.PrivateKey
	}
	mk := func(t *x509.Certificate, by *authority) (*x509.Certificate, *ecdsa.PrivateKey) {
		serial++
		t.SerialNumber = big.NewInt(serial)
		if t.NotBefore.IsZero() {
			t.NotBefore, t.NotAfter = time.Unix(0, 0), time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC)
		}
		key, err := ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		chk(err)
		parent, pk := t, key
		if by != nil {
			parent, pk = by.cert, by.key
		}
		der, err := x509.CreateCertificate(rand.Reader, t, parent, &key.PublicKey, pk)
		chk(err)
		c, err := x509.ParseCertificate(der)
		chk(err)
		return c, key
	}
	newCA := func(name, file string) *authority {
		c, k := mk(&x509.Certificate{Subject: pkix.Name{CommonName: name}, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign}, nil)
		write(file, "CERTIFICATE", c.Raw)
		p.ca[name] = x509.NewCertPool()
		p.ca[name].AddCert(c)
		return &authority{c, k}
	}
	a, b, sys := newCA("A", fileCA), newCA("B", fileCAB), newCA("S", fileSys)
	leaf := func(by *authority, hosts []string, t *x509.Certificate) tls.Certificate {
		t.Subject = pkix.Name{CommonName: hosts[0]}
		t.KeyUsage = x509.KeyUsageDigitalSignature
		for _, h := range hosts {
			if ip := stdnet.ParseIP(h); ip != nil {
				t.IPAddresses = append(t.IPAddresses, ip)
			} else {
				t.DNSNames = append(t.DNSNames, h)
			}
		}
		if t.ExtKeyUsage == nil {
			t.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}
		}
		c, k := mk(t, by)
		return tls.Certificate{Certificate: [][]byte{c.Raw}, PrivateKey: k}
	}
	p.server["good"] = leaf(a, tlsHosts, &x509.Certificate{})
	p.server["of the system's authority"] = leaf(sys, tlsHosts, &x509.Certificate{})
	p.server["of another authority"] = leaf(b, tlsHosts, &x509.Certificate{})
	p.server["self-signed"] = leaf(nil, tlsHosts, &x509.Certificate{})
	p.server["for another host"] = leaf(a, []string{"other.example", "10.9.9.9", "*.db.example", "example"}, &x509.Certificate{})
	p.server["expired"] = leaf(a, tlsHosts, &x509.Certificate{NotBefore: time.Unix(0, 0), NotAfter: time.Unix(1000, 0)})
	p.server["for clients"] = leaf(a, tlsHosts, &x509.Certificate{ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}})
	for _, f := range [][2]string{{fileCert, fileKey}, {fileCert2, fileKey2}} {
		c := leaf(a, []string{"client"}, &x509.Certificate{ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth}})
		der, err := x509.MarshalECPrivateKey(c.PrivateKey.(*ecdsa.PrivateKey))
		chk(err)
		write(f[0], "CERTIFICATE", c.Certificate[0])
		write(f[1], "EC PRIVATE KEY", der)
		p.client[f[0]] = c.Certificate[0]
	}
	chk(os.WriteFile(p.file(fileBad), []byte("nothing here\n"), 0o600))
	// the authorities of the system
	os.Setenv("SSL_CERT_FILE", p.file(fileSys))
	os.Setenv("SSL_CERT_DIR", filepath.Join(p.dir, "none"))
	thePKI = p
	return p
}

// tlsServer speaks TLS in front of a Bolt server.
type tlsServer struct {
	x    *mc.X
	bolt *boltsrv.Server
	cfg  *tls.Config
	cut  int // the server's side ends after this many bytes, <0: never
	then boltsrv.Then
	// what clients presented, per connection
	peers [][]byte
	sni   []string
	done  int // handshakes completed
}

type cutStream struct {
	*vnet.Stream
	left int
	then boltsrv.Then
}

func (c *cutStream) Write(p []byte) (int, error) {
	if c.left >= 0 && len(p) > c.left {
		p = p[:c.left]
		c.Stream.Write(p)
		rt.Do(func() {
			switch c.then {
			case boltsrv.FIN:
				c.C.FIN()
			case boltsrv.RST:
				c.C.RST()
			}
		})
		c.left = 0
		return 0, io.ErrClosedPipe
	}
	if c.left >= 0 {
		c.left -= len(p)
	}
	return c.Stream.Write(p)
}

// Connect implements vnet.Server.
func (t *tlsServer) Connect(c *vnet.Conn) (vnet.Outcome, vnet.Handler) {
	return vnet.Accept, vnet.Serve(c, func(s *vnet.Stream) { t.serve(c, s) })
}

func (t *tlsServer) serve(c *vnet.Conn, s *vnet.Stream) {
	inner := vnet.Loose(c.Addr)
	tc := tls.Server(&cutStream{s, t.cut, t.then}, t.cfg)
	if tc.Handshake() != nil {
		if t.cut < 0 {
			s.Close()
		}
		return
	}
	var h vnet.Handler
	rt.Do(func() {
		t.done++
		var peer []byte
		if cs := tc.ConnectionState().PeerCertificates; len(cs) > 0 {
			peer = cs[0].Raw
		}
		t.peers = append(t.peers, peer)
		_, h = t.bolt.Connect(inner)
	})
	buf := make([]byte, 4096)
	for {
		n, err := tc.Read(buf)
		if err != nil {
			rt.Do(h.Closed)
			s.Close()
			return
		}
		var out []byte
		var gone bool
		rt.Do(func() {
			h.Data(append([]byte{}, buf[:n]...))
			out = inner.Take()
			gone = inner.Gone()
		})
		if len(out) > 0 {
			tc.Write(out)
		}
		if gone {
			s.Close()
			return
		}
	}
}

// noTLS has what servers that speak Bolt only may make of a TLS client hello.
var noTLS = map[string]string{
	"plain, ends":     "",
	"plain, resets":   "RST",
	"plain, silent":   "silence",
	"plain, HTTP":     "HTTP/1.1 400 Bad Request\r\nConnection: close\r\n\r\n",
	"plain, refusal":  "\x00\x00\x00\x00",
	"plain, version":  "\x00\x00\x00\x04",
	"plain, failure":  "\x00\x06\xb1\x7f\xa1\x81a\x01\x00\x00",
	"alert, failure":  "\x15\x03\x01\x00\x02\x02\x28",
	"alert, version":  "\x15\x03\x01\x00\x02\x02\x46",
	"alert, unwanted": "\x15\x03\x01\x00\x02\x02\x70",
	"alert, closing":  "\x15\x03\x01\x00\x02\x01\x00",
}

// sniffer answers a client hello with a and everything else as a Bolt server.
type sniffer struct {
	c   *vnet.Conn
	a   string
	h   vnet.Handler
	tls bool
}

func (s *sniffer) Data(p []byte) {
	if p[0] == 0x16 {
		s.tls = true
		switch s.a {
		case "silence":
		case "RST":
			s.c.RST()
		default:
			s.c.Push([]byte(s.a))
			s.c.FIN()
		}
	}
	if !s.tls {
		s.h.Data(p)
	}
}

func (s *sniffer) Closed() { s.h.Closed() }

type tlsCase struct {
	kind     int
	via      int // 0 options, 1 string, 2 string and WithTLS
	on       bool
	off      string // how TLS is off, or on, in a string
	host     string
	ca       string // file
	cert     string
	key      string
	noVerify bool
	server   string // certificate, "plain", or one of noTLS
	client   string // what the server wants: "", "request", "require"
	odd      string // which server is odd: "all", "members", "configured"
	cut      int
	then     boltsrv.Then
	maxVer   uint16
}

func (c tlsCase) String() string {
	return fmt.Sprintf("%s from %s, TLS %v %q, host %s, authorities %q, certificate %q, key %q, verification off: %v; server %q (%s), client certificates %q, cut %d %v, version %x",
		kinds[c.kind], []string{"options", "string", "string and WithTLS"}[c.via], c.on, c.off, c.host, c.ca, c.cert, c.key, c.noVerify, c.server, c.odd, c.client, c.cut, c.then, c.maxVer)
}

func runTLS(x *mc.X, c tlsCase) {
	p := getPKI()
	const user, pass = "theuser", "thepassword"
	path := func(f string) string {
		if f == "" {
			return ""
		}
		return p.file(f)
	}
	net := vnet.New()
	lead := member{addr: config{host: c.host, port: 7687}.addr(), role: "LEADER"}
	fol := member{addr: "db2.example:7688", role: "FOLLOWER"}
	cl := newCluster(net, 4, user, pass, lead, fol)
	servers := map[string]*tlsServer{}
	for _, m := range []member{lead, fol} {
		odd := c.odd == "all" || c.odd == "members" && m.addr == fol.addr || c.odd == "configured" && m.addr == lead.addr
		name, cut := "good", -1
		if odd {
			name, cut = c.server, c.cut
		}
		if name == "plain" {
			continue // as it is
		}
		if a, ok := noTLS[name]; ok {
			net.Listen(m.addr, vnet.ServerFunc(func(k *vnet.Conn) (vnet.Outcome, vnet.Handler) {
				_, h := cl.servers[k.Addr].Connect(k)
				return vnet.Accept, &sniffer{c: k, a: a, h: h}
			}))
			continue
		}
		cfg := &tls.Config{Certificates: []tls.Certificate{p.server[name]}, MaxVersion: c.maxVer}
		switch c.client {
		case "request":
			cfg.ClientAuth = tls.RequestClientCert
		case "require":
			cfg.ClientAuth, cfg.ClientCAs = tls.RequireAndVerifyClientCert, p.ca["A"]
		}
		s := &tlsServer{x: x, bolt: cl.servers[m.addr], cfg: cfg, cut: cut, then: c.then}
		servers[m.addr] = s
		net.Listen(m.addr, s)
	}
	sent := map[int][]byte{}
	net.OnWrite = func(k *vnet.Conn, b []byte) { sent[k.ID] = append(sent[k.ID], b...) }
	fail := func(key, f string, a ...interface{}) { x.Fail(key, "%s\n%s", fmt.Sprintf(f, a...), c) }

	// expectation
	unjudged := false
	bad := ""
	oddReached := c.odd == "all" || c.odd == "configured" || c.kind == 2
	if c.on {
		switch {
		case c.ca == "missing.pem":
			bad = "no such file of authorities"
		case c.cert != "" && c.key == "":
			bad = "a certificate without key"
		case c.cert == "" && c.key != "":
			unjudged = true
		case c.cert == "missing.pem" || c.key == "missing.pem" || c.cert == fileBad || c.key == fileBad || (c.cert == fileCert) != (c.key == fileKey):
			bad = "certificate and key do not fit"
		}
		if c.ca == fileBad {
			unjudged = true
		}
		trusted := func(server string) bool {
			if c.noVerify {
				return true
			}
			switch server {
			case "good":
				return c.ca == fileCA
			case "of the system's authority":
				return c.ca == ""
			case "of another authority":
				return c.ca == fileCAB
			}
			return false
		}
		names := []string{"good"}
		if c.odd == "all" || c.odd == "configured" && c.kind != 2 {
			names = []string{c.server}
		} else if oddReached {
			names = append(names, c.server)
		}
		for _, n := range names {
			if _, ok := noTLS[n]; ok || n == "plain" {
				bad = "a server without TLS"
			} else if !trusted(n) {
				bad = "a certificate " + n
			}
		}
		if c.client == "require" && c.cert == "" {
			bad = "no certificate for a server that requires one"
		}
		if c.cut >= 0 && oddReached {
			bad = "the session breaks"
		}
		if c.maxVer != 0 && c.maxVer < tls.VersionTLS10 {
			bad = "no common version"
		}
	} else if servers[lead.addr] != nil || c.kind == 2 && len(servers) > 0 {
		bad = "a server with TLS"
	}
	if c.ca == fileBad && c.on && !c.noVerify {
		bad, unjudged = "authorities that are no certificates", false
	}

	// the client
	var opts []goBolt.Opt
	scheme := "bolt"
	if c.kind == 2 {
		scheme = "bolt+routing"
	}
	str := fmt.Sprintf("%s://%s:%s@%s?timeout=5", scheme, user, pass, lead.addr)
	q := func(name, v string) {
		if v != "" {
			str += "&" + name + "=" + escape(v, 0)
		}
	}
	if c.via == 1 {
		q("tls", c.off)
		q("tls_ca_cert_file", path(c.ca))
		q("tls_cert_file", path(c.cert))
		q("tls_key_file", path(c.key))
		if c.noVerify {
			q("tls_no_verify", "true")
		}
	}
	if c.via == 0 {
		opts = append(opts, goBolt.WithHostPort(c.host, 7687), goBolt.WithBasicAuth(user, pass), goBolt.WithTimeout(5*time.Second))
		if c.kind == 2 {
			opts = append(opts, goBolt.WithRouting())
		}
	} else {
		opts = append(opts, goBolt.WithConnectionString(str))
	}
	if c.on && c.via != 1 {
		opts = append(opts, goBolt.WithTLS(path(c.ca), path(c.cert), path(c.key), c.noVerify))
		if x.Bool("WithTLS first") {
			opts[0], opts[len(opts)-1] = opts[len(opts)-1], opts[0]
		}
	}
	client, err := goBolt.NewClient(opts...)
	var d opener
	if err == nil {
		if c.kind == 0 {
			d, err = client.NewDriver()
		} else {
			d, err = client.NewDriverPool(1 + c.kind)
		}
	}
	var conns []connection.IConnection
	if err == nil {
		modes := []bolt_mode.AccessMode{bolt_mode.WriteMode, bolt_mode.ReadMode}
		for i, m := range modes {
			var conn connection.IConnection
			conn, err = d.Open(m)
			if err != nil {
				break
			}
			conns = append(conns, conn)
			rows, _, qerr := conn.Query(fmt.Sprintf("RETURN 2 q%d", i), nil)
			if c.cut < 0 && (qerr != nil || len(rows) != 2) {
				fail("query", "a query on the connection fails: %s", short(qerr))
			}
		}
	}
	if c.cut >= 0 && oddReached {
		// the session may have been established before
		est := 0
		for a, s := range servers {
			if s.cut >= 0 && (c.odd == "all" || a == fol.addr) {
				rt.Do(func() { est += s.done })
			}
		}
		if est > 0 {
			unjudged, bad = true, ""
		}
	}
	switch {
	case unjudged:
	case bad != "":
		if err == nil {
			fail("opened", "connections are opened in spite of %s", bad)
		}
	case err != nil:
		fail("not-opened", "opening fails: %s", short(err))
	}
	rt.Do(func() {
		if err != nil && c.kind != 1 && len(conns) == 0 && net.OpenCount() != 0 {
			x.Fail("socket-left-open", "opening failed (%s), but %d sockets are open\n%s", short(err), net.OpenCount(), c)
		}
		for id, b := range sent {
			if len(b) == 0 {
				continue
			}
			if c.on && b[0] != 0x16 {
				x.Fail("clear", "connection %d starts with % x instead of a TLS handshake\n%s", id, b[:min(len(b), 8)], c)
			}
			if !c.on && b[0] != 0x60 {
				x.Fail("tls-unasked", "connection %d starts with % x\n%s", id, b[:min(len(b), 8)], c)
			}
			if c.on && (bytes.Contains(b, []byte(pass)) || bytes.Contains(b, []byte(user))) {
				x.Fail("credentials-in-clear", "the credentials can be read on connection %d\n%s", id, c)
			}
		}
		if c.on && bad == "" && !unjudged {
			for a, s := range servers {
				if len(s.peers) != s.done {
					x.Fail("internal", "%d %d", len(s.peers), s.done)
				}
				for _, peer := range s.peers {
					want := p.client[c.cert]
					if c.client == "" {
						want = nil
					}
					if !bytes.Equal(peer, want) {
						x.Fail("client-certificate", "%s was shown a client certificate of %d bytes instead of %d\n%s", a, len(peer), len(want), c)
					}
				}
			}
		}
	})
	out := "refused: " + bad
	if err == nil {
		out = "opened"
	}
	x.Class("%s tls %v %s", kinds[c.kind], c.on, out)
}

func c21(tier string) []mc.Scenario {
	var out []mc.Scenario
	add := func(id string, pick func(x *mc.X) (tlsCase, bool)) {
		out = append(out, mc.Scenario{ID: id, Horizon: time.Hour, OneOrder: true, Body: func(x *mc.X) {
			if c, ok := pick(x); ok {
				runTLS(x, c)
			}
		}})
	}
	str := func(x *mc.X, name string, vs ...string) string { return vs[x.Choose(len(vs), name)] }
	var odd []string
	for n := range noTLS {
		odd = append(odd, n)
	}
	sort.Sort(sort.StringSlice(odd))
	certs := []string{"good", "of the system's authority", "of another authority", "self-signed", "for another host", "expired", "for clients", "plain"}
	for k := range kinds {
		k := k
		for via := 0; via < 3; via++ {
			via := via
			base := tlsCase{kind: k, via: via, on: true, off: "true", host: "db.example", ca: fileCA, server: "good", odd: "all", cut: -1}
			id := func(s string) string {
				return kinds[k] + "/" + []string{"options", "string", "string and option"}[via] + "/" + s
			}
			add(id("server certificates"), func(x *mc.X) (tlsCase, bool) {
				c := base
				c.host = str(x, "host", "db.example", "10.1.2.3", "::1")
				c.ca = str(x, "authorities", fileCA, "", fileCAB, "missing.pem", fileBad)
				c.noVerify = x.Bool("no verification")
				c.server = certs[x.Choose(len(certs), "server")]
				c.odd = str(x, "which", "all", "members", "configured")
				return c, true
			})
			add(id("client certificates"), func(x *mc.X) (tlsCase, bool) {
				c := base
				c.cert = str(x, "certificate", fileCert, "", fileCert2, "missing.pem", fileBad)
				c.key = str(x, "key", fileKey, "", fileKey2, "missing.pem", fileBad)
				c.client = str(x, "server", "", "request", "require")
				c.noVerify = x.Bool("no verification")
				c.ca = str(x, "authorities", fileCA, "")
				c.server = str(x, "certificate of the server", "good", "of the system's authority")
				return c, true
			})
			add(id("servers without TLS"), func(x *mc.X) (tlsCase, bool) {
				c := base
				c.server = odd[x.Choose(len(odd), "answer")]
				c.ca = str(x, "authorities", fileCA, "")
				c.noVerify = x.Bool("no verification")
				c.cert, c.key = fileCert, fileKey
				if x.Bool("no client certificate") {
					c.cert, c.key = "", ""
				}
				c.odd = str(x, "which", "all", "members", "configured")
				return c, c.kind == 2 || c.odd == "all"
			})
			if via == 1 {
				add(id("spelling"), func(x *mc.X) (tlsCase, bool) {
					c := base
					c.off = str(x, "tls", "true", "True", "TRUE", "t", "T", "1")
					c.host = str(x, "host", "db.example", "::1")
					c.server = str(x, "server", "good", "self-signed", "plain")
					return c, true
				})
				add(id("off"), func(x *mc.X) (tlsCase, bool) {
					c := base
					c.on = false
					c.off = str(x, "tls", "", "false", "False", "f", "0", "no")
					c.ca = str(x, "authorities", "", fileCA, "missing.pem")
					c.noVerify = x.Bool("no verification")
					c.server = str(x, "server", "plain", "good")
					return c, true
				})
			} else {
				add(id("off"), func(x *mc.X) (tlsCase, bool) {
					c := base
					c.on, c.off = false, ""
					c.ca = ""
					c.server = str(x, "server", "plain", "good")
					return c, true
				})
			}
			step := 24
			if tier == "thorough" {
				step = 1
			}
			add(id("broken sessions"), func(x *mc.X) (tlsCase, bool) {
				c := base
				c.cut = x.Range(960/step, "cut") * step
				c.then = []boltsrv.Then{boltsrv.FIN, boltsrv.RST, boltsrv.Silence}[x.Choose(3, "then")]
				c.odd = str(x, "which", "all", "members")
				c.noVerify = x.Bool("no verification")
				return c, c.odd == "all" || c.kind == 2
			})
			some := func(x *mc.X) tlsCase {
				c := base
				c.ca = str(x, "authorities", fileCA, "", fileCAB)
				c.noVerify = x.Bool("no verification")
				c.server = str(x, "server", "good", "of the system's authority", "of another authority")
				c.client = "request"
				if x.Bool("client certificate") {
					c.cert, c.key = fileCert, fileKey
				}
				return c
			}
			add(id("combined"), func(x *mc.X) (tlsCase, bool) {
				c := some(x)
				c.host = str(x, "host", "db.example", "::1")
				c.maxVer = []uint16{tls.VersionTLS12, tls.VersionTLS13}[x.Choose(2, "version")]
				c.odd = str(x, "which", "all", "members")
				return c, true
			})
			// what one client was configured with is nothing to another
			out = append(out, mc.Scenario{ID: id("two clients"), Horizon: time.Hour, OneOrder: true, Body: func(x *mc.X) {
				first := some(x)
				second := some(x)
				if first.server != second.server && via != 1 {
					return
				}
				runTLS(x, first)
				runTLS(x, second)
			}})
			add(id("versions"), func(x *mc.X) (tlsCase, bool) {
				c := base
				c.maxVer = []uint16{tls.VersionTLS12, tls.VersionTLS13}[x.Choose(2, "version")]
				c.noVerify = x.Bool("no verification")
				return c, true
			})
		}
	}
	return out
}

func init() {
	register(&mc.Check{Property: "C21", Scenarios: c21,
		Bounds:      "driver, pool and routed pool x options, connection string, both x (eight kinds of server incl. plain text and eleven answers of servers without TLS to the client hello, at all, the configured or the other servers, x five kinds of authorities x verification x three forms of host; 25 combinations of client certificate and key x three demands of the server x verification x the system's or configured authorities x a server of either; six spellings of on, six of off; products of the main settings, and two clients with different ones after each other; the server's side of the session cut after every 24th (thorough: every) byte of the handshake by FIN, reset or silence); the real TLS implementation on virtual connections, every byte the client sends is looked at",
		Assumptions: []string{"the TLS implementation of the Go standard library is correct"}})
}

var _ = strings.Contains
