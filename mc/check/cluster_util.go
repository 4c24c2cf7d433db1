package check

import (
	"strings"

	"verif/boltsrv"
	"verif/vnet"
)

const overviewCall = "call dbms.cluster.overview()"

// member is a server of a cluster as the overview describes it.
type member struct {
	addr string // host:port at which it listens
	role string // as it appears in the overview
	url  string // as it appears in the overview, "": bolt://addr
	more []interface{}
}

func (m member) addresses() []interface{} {
	u := m.url
	if u == "" {
		u = "bolt://" + m.addr
	}
	if m.more != nil {
		return append([]interface{}{u}, m.more...)
	}
	return []interface{}{u, "http://" + strings.Replace(m.addr, "76", "74", 1)}
}

// row is the member's row of an overview.
func (m member) row(ver int, id string) []interface{} {
	groups, database := anys(), "default"
	if len(m.addr)%2 == 1 {
		groups, database = anys("eu-west", "replicas"), "neo4j"
	}
	if ver >= 4 {
		// the role that counts is the one for the database that was asked
		other := "LEADER"
		if strings.EqualFold(m.role, "leader") {
			other = "FOLLOWER"
		}
		return []interface{}{id, m.addresses(), map[string]interface{}{"system": m.role, "neo4j": other, "a": "READ_REPLICA", "zz": other}, groups}
	}
	return []interface{}{id, m.addresses(), m.role, groups, database}
}

func overview(ver int, ms []member) [][]interface{} {
	rows := [][]interface{}{}
	for i, m := range ms {
		rows = append(rows, m.row(ver, "id-"+string(rune('a'+i))))
	}
	return rows
}

// isOverview reports whether a query asks for the cluster overview.
func isOverview(q string) bool {
	return strings.EqualFold(strings.Join(strings.Fields(q), " "), overviewCall)
}

// cluster is a set of servers with one database.
type cluster struct {
	ver     int
	net     *vnet.Net
	db      *boltsrv.DB
	members []member // what the overview says
	servers map[string]*boltsrv.Server
	asked   int // overviews served
	// serve, if set, makes the rows of an overview
	serve func(s *boltsrv.Session) [][]interface{}
}

func newCluster(net *vnet.Net, ver int, user, pass string, ms ...member) *cluster {
	c := &cluster{ver: ver, net: net, db: &boltsrv.DB{}, members: ms, servers: map[string]*boltsrv.Server{}}
	for _, m := range ms {
		c.listen(m.addr, user, pass)
	}
	return c
}

func (c *cluster) listen(addr, user, pass string) *boltsrv.Server {
	if s := c.servers[addr]; s != nil {
		return s
	}
	srv := &boltsrv.Server{Ver: c.ver, DB: c.db, User: user, Pass: pass, Name: addr}
	srv.Custom = func(s *boltsrv.Session, r *boltsrv.Req, q string) ([][]interface{}, bool) {
		if !isOverview(q) {
			return nil, false
		}
		c.asked++
		if c.serve != nil {
			return c.serve(s), true
		}
		return overview(c.ver, c.members), true
	}
	c.servers[addr] = srv
	c.net.Listen(addr, srv)
	return srv
}

func (c *cluster) sessions() []*boltsrv.Session {
	var out []*boltsrv.Session
	for _, k := range c.net.Conns {
		if s, ok := k.User.(*boltsrv.Session); ok {
			out = append(out, s)
		}
	}
	return out
}

func (c *cluster) dump() string {
	var b strings.Builder
	for _, s := range sortedServers(c.servers) {
		b.WriteString(s.Name + ":\n" + s.Dump())
	}
	return b.String()
}

func sortedServers(m map[string]*boltsrv.Server) []*boltsrv.Server {
	var names []string
	for n := range m {
		names = append(names, n)
	}
	sortStrings(names)
	var out []*boltsrv.Server
	for _, n := range names {
		out = append(out, m[n])
	}
	return out
}

func sortStrings(s []string) {
	for i := range s {
		for j := i; j > 0 && s[j] < s[j-1]; j-- {
			s[j], s[j-1] = s[j-1], s[j]
		}
	}
}
