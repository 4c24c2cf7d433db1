package check

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strings"

	"verif/gen/bolt/encoding"
	"verif/gen/bolt/protocol"
	"verif/gen/bolt/structures/graph"
	"verif/gen/bolt/structures/messages"
	"verif/gen/bolt/structures/types"
	"verif/mc"
	"verif/ps"
)

// Checks are the registered checks.
var Checks = map[string]*mc.Check{}

func register(c *mc.Check) { Checks[c.Property] = c }

var protos []protocol.IBoltProtocol

func init() {
	for v := byte(1); v <= 4; v++ {
		p, n, err := protocol.GetProtocol([]byte{0, 0, 0, v})
		if err != nil || n != int(v) {
			continue
		}
		protos = append(protos, p)
	}
}

func protoOf(x *mc.X, v int) protocol.IBoltProtocol {
	p, n, err := protocol.GetProtocol([]byte{0, 0, 0, byte(v)})
	if err != nil || n != v || p == nil {
		x.Fail("protocol-lookup", "GetProtocol(%d) = %v, %d, %v", v, p, n, err)
	}
	return p
}

// val is a Go value with what it must be on the wire; bad: it must be refused.
type val struct {
	name string
	g    interface{}
	e    interface{}
	bad  bool
	v2   bool // only defined for protocol versions 2 and later
	fwd  bool // a message, which the client only sends
}

func ok(name string, g, e interface{}) val { return val{name: name, g: g, e: e} }
func bad(name string, g interface{}) val   { return val{name: name, g: g, bad: true} }

func edges() []int64 {
	m := map[int64]bool{}
	var out []int64
	add := func(v int64) {
		if !m[v] {
			m[v] = true
			out = append(out, v)
		}
	}
	for i := int64(-300); i <= 300; i++ {
		add(i)
	}
	for k := uint(0); k < 63; k++ {
		p := int64(1) << k
		for d := int64(-2); d <= 2; d++ {
			add(p + d)
			add(-p + d)
		}
	}
	add(math.MaxInt64)
	add(math.MaxInt64 - 1)
	add(math.MinInt64)
	add(math.MinInt64 + 1)
	return out
}

// intsAs returns v in every Go integer type that holds it.
func intsAs(v int64) []interface{} {
	out := []interface{}{v}
	if int64(int(v)) == v {
		out = append(out, int(v))
	}
	if int64(int8(v)) == v {
		out = append(out, int8(v))
	}
	if int64(int16(v)) == v {
		out = append(out, int16(v))
	}
	if int64(int32(v)) == v {
		out = append(out, int32(v))
	}
	if v >= 0 {
		out = append(out, uint(v), uint64(v))
		if v <= math.MaxUint8 {
			out = append(out, uint8(v))
		}
		if v <= math.MaxUint16 {
			out = append(out, uint16(v))
		}
		if v <= math.MaxUint32 {
			out = append(out, uint32(v))
		}
	}
	return out
}

func floats() []float64 {
	out := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, math.Pi, -math.E, math.MaxFloat64, -math.MaxFloat64,
		math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), math.NaN(),
		float64(math.MaxFloat32), float64(math.SmallestNonzeroFloat32), 1 << 53, 1<<53 + 2, -(1 << 53), math.MaxInt64, math.MinInt64}
	for e := uint64(0); e < 2048; e += 1 {
		for _, m := range []uint64{0, 1, 1<<52 - 1, 0x5555555555555} {
			out = append(out, math.Float64frombits(e<<52|m))
		}
	}
	return out
}

// str is a string of n bytes without repetitions that would hide a shift.
func str(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (i*7+i/26)%26)
	}
	return string(b)
}

func list(n int) ([]interface{}, []interface{}) {
	g, e := make([]interface{}, n), make([]interface{}, n)
	for i := range g {
		g[i] = i % 100
		e[i] = int64(i % 100)
	}
	return g, e
}

func dict(n int) (map[string]interface{}, map[string]interface{}) {
	g, e := make(map[string]interface{}, n), make(map[string]interface{}, n)
	for i := 0; i < n; i++ {
		k := fmt.Sprintf("k%d", i)
		g[k] = i % 100
		e[k] = int64(i % 100)
	}
	return g, e
}

// rec is a structure of the user.
type rec struct {
	Tag    int
	Fields []interface{}
}

func (r rec) Signature() int           { return r.Tag }
func (r rec) AllFields() []interface{} { return r.Fields }

func anys(v ...interface{}) []interface{} {
	if v == nil {
		return []interface{}{}
	}
	return v
}

type m = map[string]interface{}

// leaves are the values without interesting substructure.
func leaves() []val {
	return []val{
		ok("nil", nil, nil),
		ok("true", true, true),
		ok("false", false, false),
		ok("0", 0, int64(0)),
		ok("-16", int8(-16), int64(-16)),
		ok("-17", int16(-17), int64(-17)),
		ok("127", uint8(127), int64(127)),
		ok("128", uint16(128), int64(128)),
		ok("40000", uint32(40000), int64(40000)),
		ok("-40000", int64(-40000), int64(-40000)),
		ok("2^40", uint64(1<<40), int64(1<<40)),
		ok("min", int64(math.MinInt64), int64(math.MinInt64)),
		ok("1.5", 1.5, 1.5),
		ok("f32", float32(-0.25), -0.25),
		ok("empty", "", ""),
		ok("s", "héé\x00\"", "héé\x00\""),
		ok("s20", str(20), str(20)),
		ok("s200", str(200), str(200)),
		ok("s300", str(300), str(300)),
		ok("[]", []interface{}{}, anys()),
		ok("nil list", []interface{}(nil), anys()),
		ok("{}", m{}, m{}),
		ok("nil map", m(nil), m{}),
	}
}

// refused are values that PackStream has no representation for.
func refused() []val {
	type named struct{ A int }
	i := 5
	var nilErr error
	_ = nilErr
	return []val{
		bad("uint64 2^63", uint64(1)<<63),
		bad("uint64 max", uint64(math.MaxUint64)),
		bad("struct", named{1}),
		bad("pointer", &i),
		bad("chan", make(chan int)),
		bad("func", func() {}),
		bad("complex", complex(1, 2)),
		bad("map[int]", map[int]interface{}{1: 2}),
		bad("array", [2]int{1, 2}),
		bad("pointer to struct", &named{1}),
	}
}

func typedSlices() []val {
	gm := graph.Node{NodeIdentity: 3, Labels: []string{"A"}, Properties: m{"p": 1}}
	em := ps.S('N', int64(3), anys("A"), m{"p": int64(1)})
	return []val{
		ok("[]string", []string{"a", "", "bc"}, anys("a", "", "bc")),
		ok("[]int", []int{1, -200, 70000}, anys(int64(1), int64(-200), int64(70000))),
		ok("[]int8", []int8{-128, 127}, anys(int64(-128), int64(127))),
		ok("[]int64", []int64{1, math.MinInt64}, anys(int64(1), int64(math.MinInt64))),
		ok("[]uint16", []uint16{65535}, anys(int64(65535))),
		ok("[]float64", []float64{1.5}, anys(1.5)),
		ok("[]float32", []float32{1.5}, anys(1.5)),
		ok("[]bool", []bool{true, false}, anys(true, false)),
		ok("[]map", []map[string]interface{}{{"a": 1}, {}}, anys(m{"a": int64(1)}, m{})),
		ok("[][]int", [][]int{{1}, {}, {2, 3}}, anys(anys(int64(1)), anys(), anys(int64(2), int64(3)))),
		ok("[]node", []graph.Node{gm}, anys(em)),
		ok("nil []string", []string(nil), anys()),
		bad("[]uint64 big", []uint64{1, 1 << 63}),
		bad("[]struct", []struct{}{{}}),
	}
}

func graphValues() []val {
	n := func(id int64, l []string, p m) graph.Node {
		return graph.Node{NodeIdentity: id, Labels: l, Properties: p}
	}
	u := func(id int64, t string, p m) graph.UnboundRelationship {
		return graph.UnboundRelationship{RelIdentity: id, Type: t, Properties: p}
	}
	_, d16 := dict(16)
	g16, _ := dict(16)
	var out []val
	for _, id := range []int64{0, -1, 127, 128, -129, 70000, math.MaxInt64, math.MinInt64} {
		out = append(out,
			ok(fmt.Sprintf("node %d", id), n(id, []string{"A", "Bé"}, m{"x": 1.5, "y": []interface{}{id}}), ps.S('N', id, anys("A", "Bé"), m{"x": 1.5, "y": anys(id)})),
			ok(fmt.Sprintf("rel %d", id), graph.Relationship{RelIdentity: id, StartNodeIdentity: id ^ 1, EndNodeIdentity: id ^ 2, Type: "T", Properties: m{"x": "y"}},
				ps.S('R', id, id^1, id^2, "T", m{"x": "y"})),
			ok(fmt.Sprintf("urel %d", id), u(id, "KNOWS", m{"k": nil}), ps.S('r', id, "KNOWS", m{"k": nil})),
		)
	}
	out = append(out,
		ok("node empty", n(1, []string{}, m{}), ps.S('N', int64(1), anys(), m{})),
		ok("node nil", n(1, nil, nil), ps.S('N', int64(1), anys(), m{})),
		ok("node 16", n(1, strings.Split("a b c d e f g h i j k l m n o p q", " "), g16), ps.S('N', int64(1), anys("a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p", "q"), d16)),
		ok("rel nil", graph.Relationship{}, ps.S('R', int64(0), int64(0), int64(0), "", m{})),
		ok("urel nil", u(0, "", nil), ps.S('r', int64(0), "", m{})),
		ok("path empty", graph.Path{}, ps.S('P', anys(), anys(), anys())),
		ok("path", graph.Path{
			Nodes:         []graph.Node{n(1, []string{"A"}, m{}), n(2, []string{}, m{"p": true}), n(300, nil, nil)},
			Relationships: []graph.UnboundRelationship{u(7, "X", m{}), u(-8, "Y", m{"q": int64(1) << 40})},
			Sequence:      []int{1, 1, -2, 2, 300, -40000}},
			ps.S('P', anys(ps.S('N', int64(1), anys("A"), m{}), ps.S('N', int64(2), anys(), m{"p": true}), ps.S('N', int64(300), anys(), m{})),
				anys(ps.S('r', int64(7), "X", m{}), ps.S('r', int64(-8), "Y", m{"q": int64(1) << 40})),
				anys(int64(1), int64(1), int64(-2), int64(2), int64(300), int64(-40000)))),
	)
	return out
}

func pointValues() []val {
	var out []val
	for _, srid := range []int{7203, 4326, 0, -1, 1 << 40} {
		for _, c := range []float64{0, -0.5, math.MaxFloat64, math.NaN(), math.Inf(-1)} {
			p2 := types.Point2D{SRID: srid, X: c, Y: 2.25}
			p3 := types.Point3D{SRID: srid, X: 2.25, Y: c, Z: -c}
			e2 := ps.S('X', int64(srid), c, 2.25)
			e3 := ps.S('Y', int64(srid), 2.25, c, -c)
			out = append(out,
				val{name: "point2d ptr", g: &p2, e: e2, v2: true}, val{name: "point2d", g: p2, e: e2, v2: true},
				val{name: "point3d ptr", g: &p3, e: e3, v2: true}, val{name: "point3d", g: p3, e: e3, v2: true})
		}
	}
	return out
}

func messageValues() []val {
	f := func(name string, g, e interface{}) val { return val{name: name, g: g, e: e, fwd: true} }
	return []val{
		f("init", messages.NewInitMessage("c/1", m{"scheme": "none"}), ps.S(1, "c/1", m{"scheme": "none"})),
		f("hello", messages.NewHelloMessage(m{"a": 1}), ps.S(1, m{"a": int64(1)})),
		f("goodbye", messages.NewGoodbyeMessage(), ps.S(2)),
		f("reset", messages.NewResetMessage(), ps.S(0x0f)),
		f("run", messages.NewRunMessage("Q", m{"p": []string{"x"}}), ps.S(0x10, "Q", m{"p": anys("x")})),
		f("run nil", messages.NewRunMessage("", nil), ps.S(0x10, "", m{})),
		f("unmanaged run", messages.NewUnmanagedTxRunMessage("Q", nil), ps.S(0x10, "Q", m{}, m{})),
		f("begin", messages.NewBeginMessage(m{"db": "x"}), ps.S(0x11, m{"db": "x"})),
		f("commit", messages.NewCommitMessage(), ps.S(0x12)),
		f("rollback", messages.NewRollbackMessage(), ps.S(0x13)),
		f("discard all", messages.NewDiscardAllMessage(), ps.S(0x2f)),
		f("pull all", messages.NewPullAllMessage(), ps.S(0x3f)),
		f("pull", messages.NewPullMessage(-1, 3), ps.S(0x3f, m{"n": int64(-1), "qid": int64(3)})),
		f("success", messages.NewSuccessMessage(m{"fields": []interface{}{"a"}}), ps.S(0x70, m{"fields": anys("a")})),
		f("record", messages.NewRecordMessage([]interface{}{1, nil, "x"}), ps.S(0x71, anys(int64(1), nil, "x"))),
		f("ignored", messages.NewIgnoredMessage(), ps.S(0x7e)),
		f("failure", messages.NewFailureMessage(m{"code": "C", "message": "M"}), ps.S(0x7f, m{"code": "C", "message": "M"})),
	}
}

// wraps are the one-level constructors for nested values.
var wraps = []struct {
	name string
	f    func(v val) val
}{
	{"list1", func(v val) val { return val{g: anys(v.g), e: anys(v.e)} }},
	{"list3", func(v val) val { return val{g: anys(1, v.g, "z"), e: anys(int64(1), v.e, "z")} }},
	{"list16", func(v val) val {
		g, e := list(17)
		g[11], e[11] = v.g, v.e
		return val{g: g, e: e}
	}},
	{"list256", func(v val) val {
		g, e := list(257)
		g[255], e[255] = v.g, v.e
		return val{g: g, e: e}
	}},
	{"map1", func(v val) val { return val{g: m{"k": v.g}, e: m{"k": v.e}} }},
	{"map16", func(v val) val {
		g, e := dict(16)
		g["k7"], e["k7"] = v.g, v.e
		return val{g: g, e: e}
	}},
	{"map130", func(v val) val {
		g, e := dict(130)
		g["k99"], e["k99"] = v.g, v.e
		return val{g: g, e: e}
	}},
	{"node", func(v val) val {
		return val{g: graph.Node{NodeIdentity: 200, Labels: []string{"L"}, Properties: m{"a": v.g, "b": 1}}, e: ps.S('N', int64(200), anys("L"), m{"a": v.e, "b": int64(1)})}
	}},
	{"path", func(v val) val {
		return val{g: graph.Path{Nodes: []graph.Node{{NodeIdentity: 1}}, Relationships: []graph.UnboundRelationship{{RelIdentity: 2, Type: "T", Properties: m{"a": v.g}}}, Sequence: []int{1}},
			e: ps.S('P', anys(ps.S('N', int64(1), anys(), m{})), anys(ps.S('r', int64(2), "T", m{"a": v.e})), anys(int64(1)))}
	}},
	{"record", func(v val) val {
		return val{g: messages.NewRecordMessage([]interface{}{v.g, 5}), e: ps.S(0x71, anys(v.e, int64(5))), fwd: true}
	}},
	{"run", func(v val) val {
		return val{g: messages.NewRunMessage("Q", m{"x": v.g, "y": 300}), e: ps.S(0x10, "Q", m{"x": v.e, "y": int64(300)}), fwd: true}
	}},
	{"struct", func(v val) val {
		return val{g: rec{0x66 + 0x20, []interface{}{v.g, 1000}}, e: ps.S(0x86, v.e, int64(1000)), fwd: true}
	}},
}

func wrap(i int, v val) val {
	w := wraps[i]
	r := w.f(v)
	r.name = w.name + "(" + v.name + ")"
	r.bad = v.bad
	r.v2 = v.v2
	r.fwd = r.fwd || v.fwd
	return r
}

// toPS converts what the driver decoded to the values of ps.
func toPS(v interface{}) (interface{}, error) {
	switch v := v.(type) {
	case nil, bool, int64, float64, string:
		return v, nil
	case []interface{}:
		out := make([]interface{}, len(v))
		for i := range v {
			x, err := toPS(v[i])
			if err != nil {
				return nil, err
			}
			out[i] = x
		}
		return out, nil
	case map[string]interface{}:
		out := make(map[string]interface{}, len(v))
		for k := range v {
			x, err := toPS(v[k])
			if err != nil {
				return nil, err
			}
			out[k] = x
		}
		return out, nil
	case graph.Node:
		return st('N', v.NodeIdentity, strs(v.Labels), v.Properties)
	case graph.Relationship:
		return st('R', v.RelIdentity, v.StartNodeIdentity, v.EndNodeIdentity, v.Type, v.Properties)
	case graph.UnboundRelationship:
		return st('r', v.RelIdentity, v.Type, v.Properties)
	case graph.Path:
		ns, rs, sq := anys(), anys(), anys()
		for _, n := range v.Nodes {
			ns = append(ns, n)
		}
		for _, r := range v.Relationships {
			rs = append(rs, r)
		}
		for _, s := range v.Sequence {
			sq = append(sq, int64(s))
		}
		return st('P', ns, rs, sq)
	case types.Point2D:
		return st('X', int64(v.SRID), v.X, v.Y)
	case types.Point3D:
		return st('Y', int64(v.SRID), v.X, v.Y, v.Z)
	case messages.SuccessMessage:
		return st(0x70, v.Metadata)
	case messages.FailureMessage:
		return st(0x7f, v.Metadata)
	case messages.RecordMessage:
		return st(0x71, v.Fields)
	case messages.IgnoredMessage:
		return st(0x7e)
	case messages.DiscardAllMessage:
		return st(0x2f)
	case messages.PullAllMessage:
		return st(0x3f)
	case messages.ResetMessage:
		return st(0x0f)
	}
	return nil, fmt.Errorf("decoded to a %T", v)
}

func strs(s []string) []interface{} {
	out := anys()
	for _, x := range s {
		out = append(out, x)
	}
	return out
}

func st(tag byte, f ...interface{}) (interface{}, error) {
	out := ps.Struct{Tag: tag, Fields: anys()}
	for _, v := range f {
		if mm, ok := v.(map[string]interface{}); ok && mm == nil {
			return nil, fmt.Errorf("nil map in structure %x", tag)
		}
		x, err := toPS(v)
		if err != nil {
			return nil, err
		}
		out.Fields = append(out.Fields, x)
	}
	return out, nil
}

// reader delivers a stream in pieces of the given sizes (then whole), as a socket does.
type reader struct {
	b     []byte
	sizes []int
	max   int
	reads int
	last  bool // deliver the end of the stream together with the last bytes
	err   error
}

func (r *reader) Read(p []byte) (int, error) {
	r.reads++
	if r.reads > 200000 {
		panic("reader: endless loop of reads")
	}
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.b) == 0 {
		return 0, r.err
	}
	n := len(p)
	if n > len(r.b) {
		n = len(r.b)
	}
	if len(r.sizes) > 0 {
		if n >= r.sizes[0] {
			n = r.sizes[0]
			r.sizes = r.sizes[1:]
		} else {
			r.sizes[0] -= n
		}
	}
	if r.max > 0 && n > r.max {
		n = r.max
	}
	copy(p, r.b[:n])
	r.b = r.b[n:]
	if r.last && len(r.b) == 0 {
		return n, r.err
	}
	return n, nil
}

// encodeStream encodes values one after the other through one encoder.
func encodeStream(p protocol.IBoltProtocol, chunk uint16, vs ...interface{}) ([]byte, []error) {
	var w bytes.Buffer
	e := p.NewEncoder(&w, chunk)
	var errs []error
	for _, v := range vs {
		errs = append(errs, e.Encode(v))
	}
	return w.Bytes(), errs
}

var _ encoding.IEncoder

func typeName(v interface{}) string {
	if v == nil {
		return "nil"
	}
	return reflect.TypeOf(v).String()
}

func hexs(b []byte) string {
	if len(b) > 80 {
		return fmt.Sprintf("%x...%x (%d bytes)", b[:60], b[len(b)-16:], len(b))
	}
	return fmt.Sprintf("%x", b)
}
