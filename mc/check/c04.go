package check

import (
	"encoding/binary"
	"fmt"
	"io"
	"math"
	"strings"

	"verif/gen/bolt/protocol"
	"verif/mc"
	"verif/ps"
)

// kinds of the fields of the known structures.
var known = map[byte]string{ // i int, s string, f float, l list, L list of strings, m map, n nodes, u unbound relationships, I list of ints
	'N': "iLm", 'R': "iiism", 'r': "ism", 'P': "nuI", 0x70: "m", 0x7f: "m", 0x71: "l",
}

var knownV2 = map[byte]string{'X': "iff", 'Y': "ifff", 'D': "i", 'T': "ii", 't': "i", 'd': "ii", 'F': "iii", 'f': "iis", 'E': "iiii"}

// lenient structures may carry any number of fields, which are ignored.
var lenient = map[byte]bool{0x7e: true, 0x2f: true, 0x3f: true, 0x0f: true}

// wellTyped reports whether all structures in v are known ones with fields of the right types:
// yes, no, or unknown structure.
func wellTyped(ver int, v interface{}) int {
	const no, unknown, yes = 0, 1, 2
	min := func(a, b int) int {
		if a < b {
			return a
		}
		return b
	}
	switch v := v.(type) {
	case []interface{}:
		r := yes
		for _, e := range v {
			r = min(r, wellTyped(ver, e))
		}
		return r
	case map[string]interface{}:
		r := yes
		for _, e := range v {
			r = min(r, wellTyped(ver, e))
		}
		return r
	case ps.Struct:
		if lenient[v.Tag] {
			return unknown
		}
		ks, ok := known[v.Tag]
		if !ok && ver >= 2 {
			ks, ok = knownV2[v.Tag]
		}
		if !ok {
			return unknown
		}
		if len(ks) != len(v.Fields) {
			return no
		}
		r := yes
		for i, f := range v.Fields {
			r = min(r, wellTyped(ver, f))
			good := false
			all := func(p func(e interface{}) bool) bool {
				l, ok := f.([]interface{})
				for _, e := range l {
					ok = ok && p(e)
				}
				return ok
			}
			switch ks[i] {
			case 'i':
				_, good = f.(int64)
			case 's':
				_, good = f.(string)
			case 'f':
				_, good = f.(float64)
			case 'l':
				_, good = f.([]interface{})
			case 'm':
				_, good = f.(map[string]interface{})
			case 'L':
				good = all(func(e interface{}) bool { _, ok := e.(string); return ok })
			case 'I':
				good = all(func(e interface{}) bool { _, ok := e.(int64); return ok })
			case 'n':
				good = all(func(e interface{}) bool { s, ok := e.(ps.Struct); return ok && s.Tag == 'N' })
			case 'u':
				good = all(func(e interface{}) bool { s, ok := e.(ps.Struct); return ok && s.Tag == 'r' })
			}
			if !good {
				r = no
			}
		}
		return r
	}
	return yes
}

func hasTemporal(v interface{}) bool {
	switch v := v.(type) {
	case []interface{}:
		for _, e := range v {
			if hasTemporal(e) {
				return true
			}
		}
	case map[string]interface{}:
		for _, e := range v {
			if hasTemporal(e) {
				return true
			}
		}
	case ps.Struct:
		if strings.IndexByte("DTtdFfE", v.Tag) >= 0 {
			return true
		}
		return hasTemporal(v.Fields)
	}
	return false
}

// decodeChecked decodes stream and checks termination, allocation and absence of panics (which
// end the execution); it returns what came out.
func decodeChecked(x *mc.X, ver int, p protocol.IBoltProtocol, stream []byte) (interface{}, error) {
	before := mc.AllocBytes()
	r := &reader{b: stream, err: io.EOF}
	v, err := p.NewDecoder(r).Decode()
	if used := mc.AllocBytes() - before; used > 1<<20+2000*uint64(len(stream)) {
		x.Fail("allocation", "v%d: decoding %d bytes (%s) allocates %d bytes", ver, len(stream), hexs(stream), used)
	}
	return v, err
}

// checkMessage decodes one message and compares with the reference.
func checkMessage(x *mc.X, ver int, msg []byte) {
	p := protoOf(x, ver)
	got, err := decodeChecked(x, ver, p, ps.Chunk(msg, math.MaxUint16))
	ref, rest, rerr := ps.DecodeOne(msg)
	if rerr == ps.ErrDup {
		return // what a repeated key means is not defined
	}
	if rerr != nil {
		x.Check(err != nil, "accepts-malformed", "v%d: %s (%v) decodes to %T %v", ver, hexs(msg), rerr, got, got)
		x.Class("malformed")
		return
	}
	if hasBytes(ref) {
		return
	}
	if err != nil {
		x.Class("refused")
		x.Check(len(rest) > 0 || wellTyped(ver, ref) != 2 || hasTemporal(ref), "rejects-valid", "v%d: %s = %s: %v", ver, hexs(msg), ps.String(ref), err)
		return
	}
	x.Check(wellTyped(ver, ref) != 0, "accepts-ill-typed", "v%d: %s = %s decodes to %T %v", ver, hexs(msg), ps.String(ref), got, got)
	if wellTyped(ver, ref) == 2 && !hasTemporal(ref) {
		g, err := toPS(got)
		x.Check(err == nil && ps.Equal(g, ref), "wrong-value", "v%d: %s decodes to %s instead of %s", ver, hexs(msg), ps.String(g), ps.String(ref))
	}
	x.Class("value")
}

func hasBytes(v interface{}) bool {
	switch v := v.(type) {
	case []byte:
		return true
	case []interface{}:
		for _, e := range v {
			if hasBytes(e) {
				return true
			}
		}
	case map[string]interface{}:
		for _, e := range v {
			if hasBytes(e) {
				return true
			}
		}
	case ps.Struct:
		return hasBytes(v.Fields)
	}
	return false
}

// alphabet has every marker class, structure tags and some payload bytes.
var alphabet = []byte{0x00, 0x01, 0x02, 0x03, 0x05, 0x10, 0x7f, 0x80, 0x81, 0x82, 0x8f, 0x90, 0x91, 0x92, 0x93, 0x9f, 0xa0, 0xa1, 0xa2, 0xaf,
	0xb0, 0xb1, 0xb2, 0xb3, 0xb4, 0xb5, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xd0, 0xd1, 0xd2, 0xd4, 0xd5, 0xd6, 0xd8, 0xd9, 0xda, 0xdc, 0xdd, 0xdf, 0xef, 0xf0, 0xff,
	'N', 'R', 'r', 'P', 'X', 'D', 'T', 't', 'd', 'F', 'f', 'E', 0x70, 0x71, 0x7e, 0x2f}

func structSamples(ver int) []ps.Struct {
	n := ps.S('N', int64(1), anys("A"), m{"p": int64(300)})
	u := ps.S('r', int64(7), "T", m{})
	out := []ps.Struct{n, ps.S('R', int64(1), int64(2), int64(3), "T", m{"x": "y"}), u, ps.S('P', anys(n), anys(u), anys(int64(1), int64(0))),
		ps.S(0x70, m{"fields": anys("a")}), ps.S(0x7f, m{"code": "c", "message": "m"}), ps.S(0x71, anys(int64(1), "x"))}
	if ver >= 2 {
		out = append(out, ps.S('X', int64(4326), 1.5, -2.5), ps.S('Y', int64(4979), 1.5, -2.5, 0.5), ps.S('D', int64(18000)), ps.S('T', int64(3600e9), int64(3600)),
			ps.S('t', int64(5)), ps.S('d', int64(1e9), int64(7)), ps.S('F', int64(1e9), int64(7), int64(-3600)), ps.S('f', int64(1e9), int64(7), "Europe/Stockholm"),
			ps.S('E', int64(0), int64(1), int64(2), int64(3)))
	}
	return out
}

var fieldKinds = []interface{}{nil, true, int64(1), int64(-70000), 1.5, "", "x", anys(), anys(int64(1)), anys("s"), anys(nil), anys(1.5), m{}, m{"k": "v"},
	ps.S('N', int64(1), anys(), m{}), anys(ps.S('N', int64(1), anys(), m{})), anys(ps.S('r', int64(1), "T", m{})), ps.S('r', int64(1), "T", m{}), anys(ps.S('R', int64(1), int64(2), int64(3), "T", m{})), anys(int64(1), "x")}

func c04(tier string) []mc.Scenario {
	depth := 3
	if tier == "thorough" {
		depth = 4
	}
	var out []mc.Scenario
	for ver := 1; ver <= 4; ver++ {
		if ver > 2 && tier == "quick" {
			break
		}
		ver := ver
		name := func(s string) string { return fmt.Sprintf("v%d/%s", ver, s) }
		out = append(out, plain(name("bytes2"), func(x *mc.X) {
			n := x.Choose(3, "length")
			var msg []byte
			for i := 0; i < n; i++ {
				msg = append(msg, byte(x.Range(256, "byte")))
			}
			checkMessage(x, ver, msg)
		}))
		out = append(out, plain(name("alphabet"), func(x *mc.X) {
			if ver > 2 {
				return
			}
			var msg []byte
			for i := 0; i < depth; i++ {
				msg = append(msg, alphabet[x.Range(len(alphabet), "byte")])
			}
			// the tail lets sizes be satisfied
			switch x.Choose(3, "tail") {
			case 1:
				msg = append(msg, 0x01, 0x90, 0xa0)
			case 2:
				msg = append(msg, 0x81, 'k', 0x01, 0x80, 0x80, 0xa0, 0x02, 0x03)
			}
			checkMessage(x, ver, msg)
		}))
		out = append(out, plain(name("raw"), func(x *mc.X) {
			// unframed streams: chunk headers too are arbitrary
			al := []byte{0, 1, 2, 3, 0x7f, 0x80, 0xff, 0x91, 0xb1, 0x70, 0xa0, 0xc0, 0xd0}
			n := x.Choose(6, "length")
			var b []byte
			for i := 0; i < n; i++ {
				b = append(b, al[x.Choose(len(al), "byte")])
			}
			got, err := decodeChecked(x, ver, protoOf(x, ver), b)
			ms, _, derr := ps.Dechunk(b)
			if len(ms) == 0 || len(ms[0]) == 0 {
				x.Check(err != nil, "accepts-truncated", "v%d: stream %x (%v) decodes to %v", ver, b, derr, got)
			}
		}))
		samples := structSamples(ver)
		valid := append([]interface{}{}, "a string", str(200), anys(int64(1), "x", anys(m{"k": nil})), m{"key": anys(1.5, int64(-40000)), "k2": m{}})
		for _, s := range samples {
			valid = append(valid, s, anys(s, int64(5)))
		}
		out = append(out, plain(name("prefixes"), func(x *mc.X) {
			v := valid[x.Choose(len(valid), "value")]
			msg := ps.EncodeForm(v, allForms(x.Choose(3, "form")))
			cut := x.Range(len(msg), "cut")
			got, err := decodeChecked(x, ver, protoOf(x, ver), ps.Chunk(msg[:cut], math.MaxUint16))
			x.Check(err != nil, "accepts-truncated", "v%d: the first %d of %d bytes of %s (%s) decode to %T %v", ver, cut, len(msg), ps.String(v), hexs(msg), got, got)
		}))
		out = append(out, plain(name("corruptions"), func(x *mc.X) {
			v := valid[x.Choose(len(valid), "value")]
			msg := append([]byte(nil), ps.EncodeForm(v, allForms(x.Choose(2, "form")))...)
			i := x.Range(len(msg), "position")
			if x.Bool("any byte") {
				msg[i] = byte(x.Range(256, "byte"))
			} else {
				msg[i] ^= 1 << uint(x.Choose(8, "bit"))
			}
			checkMessage(x, ver, msg)
		}))
		out = append(out, plain(name("fields"), func(x *mc.X) {
			// each field of each structure replaced by a value of another type
			s := samples[x.Choose(len(samples), "structure")]
			fs := append([]interface{}{}, s.Fields...)
			switch k := x.Choose(4, "change"); k {
			case 0, 1:
				i := x.Choose(len(fs), "field")
				fs[i] = fieldKinds[x.Choose(len(fieldKinds), "value")]
				if k == 1 && len(fs) > 1 {
					fs[x.Choose(len(fs), "field")] = fieldKinds[x.Choose(len(fieldKinds), "value")]
				}
			case 2:
				fs = fs[:x.Choose(len(fs), "fields left")]
			case 3:
				fs = append(fs, fieldKinds[x.Choose(len(fieldKinds), "extra")])
			}
			var v interface{} = ps.Struct{Tag: s.Tag, Fields: fs}
			switch x.Choose(3, "in") {
			case 1:
				v = anys(v, int64(1), anys("L"), m{}, "T", m{}, 1.5, 1.5, 1.5)
			case 2:
				v = ps.S(0x71, anys(m{"k": v}))
			}
			checkMessage(x, ver, ps.Encode(v))
		}))
		out = append(out, plain(name("declared"), func(x *mc.X) {
			// declared sizes beyond the content
			mk := []byte{0xd4, 0xd0, 0xd8, 0xd5, 0xd1, 0xd9, 0xd6, 0xd2, 0xda, 0xdc, 0xdd, 0xcc, 0xcd, 0xce}[x.Choose(14, "marker")]
			w := []int{1, 1, 1, 2, 2, 2, 4, 4, 4, 1, 2, 1, 2, 4}
			wi := 1
			for i, b := range []byte{0xd4, 0xd0, 0xd8, 0xd5, 0xd1, 0xd9, 0xd6, 0xd2, 0xda, 0xdc, 0xdd, 0xcc, 0xcd, 0xce} {
				if b == mk {
					wi = w[i]
				}
			}
			sz := []uint64{2, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}[x.Choose(14, "size")]
			if sz >= 1<<uint(8*wi) {
				return
			}
			var b [8]byte
			binary.BigEndian.PutUint64(b[:], sz)
			msg := append([]byte{mk}, b[8-wi:]...)
			for i := x.Choose(4, "content"); i > 0; i-- {
				msg = append(msg, 0x01)
			}
			switch x.Choose(5, "in") {
			case 1:
				msg = append([]byte{0x91}, msg...)
			case 2:
				msg = append([]byte{0xb1, 0x71}, msg...)
			case 3:
				msg = append([]byte{0xb1, 0x70, 0xa1, 0x81, 'k'}, msg...)
			case 4:
				msg = append([]byte{0xb3, 'N', 0x01, 0x90}, msg...)
			}
			checkMessage(x, ver, msg)
		}))
		out = append(out, plain(name("amplify"), func(x *mc.X) {
			// every level of a nesting declares a large size that the bytes left would cover
			n := []int{10, 1000, 9990, 60000}[x.Choose(4, "levels")]
			lvl := [][]byte{{0x91}, {0xd5, 0xff, 0xff}, {0xd6, 0, 0, 0xff, 0xff}, {0xa1, 0x81, 'k'}, {0xd9, 0x7f, 0xff, 0x80}, {0xb1, 0x71}, {0xb1, 0x70, 0xa1, 0x80}, {0xb3, 'N', 1, 0x90, 0xa1, 0x80}}[x.Choose(8, "level")]
			msg := []byte(strings.Repeat(string(lvl), n))
			if x.Bool("padded") {
				msg = append(msg, make([]byte, 70000)...)
			}
			if _, err := decodeChecked(x, ver, protoOf(x, ver), ps.Chunk(msg, math.MaxUint16)); err == nil && n > 9990 {
				x.Class("deep value accepted")
			}
		}))
		out = append(out, plain(name("deep"), func(x *mc.X) {
			// nesting that would exhaust the stack
			n := []int{100000, 3000000}[x.Choose(2, "levels")]
			lvl := []string{"\x91", "\xa1\x80", "\xb1\x71", "\xb3N"}[x.Choose(4, "level")]
			_, err := decodeChecked(x, ver, protoOf(x, ver), ps.Chunk([]byte(strings.Repeat(lvl, n)), math.MaxUint16))
			x.Check(err != nil, "accepts-truncated", "v%d: %d unfinished levels are accepted", ver, n)
		}))
	}
	return out
}

func init() {
	register(&mc.Check{Property: "C04", Scenarios: c04,
		Bounds:      "all messages of up to 2 arbitrary bytes, all of 3 (4) bytes over a 68-byte alphabet of all marker classes and structure tags with 3 tails, all raw streams of up to 5 bytes over 13; every prefix and every single-byte corruption of 36 valid messages in several forms; every replacement of one or two fields of each known structure by values of 20 kinds and every wrong field count; every declared size class over its content; nestings to 3 million levels. Oracle: the reference decoder, heap bytes allocated, no panic or crash",
		Assumptions: []string{"trailing bytes after a complete value within a message are not judged"}})
}
