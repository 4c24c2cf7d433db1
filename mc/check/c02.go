package check

import (
	"fmt"
	"math"

	"verif/gen/bolt/protocol"
	"verif/mc"
	"verif/ps"
)

// decodeOne has a protocol version decode one message.
func decodeOne(p protocol.IBoltProtocol, msg []byte) (interface{}, error) {
	return p.Unmarshal(ps.Chunk(msg, math.MaxUint16))
}

func checkDecoded(x *mc.X, ver int, p protocol.IBoltProtocol, name string, e interface{}, msg []byte) {
	got, err := decodeOne(p, msg)
	x.Check(err == nil, "rejected", "v%d: decoding %s (%s) fails: %v", ver, name, hexs(msg), err)
	g, err := toPS(got)
	x.Check(err == nil, "wrong-type", "v%d: decoding %s (%s): %v", ver, name, hexs(msg), err)
	x.Check(ps.Equal(e, g), "wrong-value", "v%d: decoding %s: %s\n gives %s\n expected %s", ver, name, hexs(msg), ps.String(g), ps.String(e))
	x.Class("%T", e)
}

// forms enumerates encoding widths by decisions: at most limit deviations from the minimal form.
func forms(x *mc.X, limit int) ps.Form {
	used := 0
	return func(kind byte, min, max int) int {
		if used >= limit || max == min {
			return min
		}
		w := min + x.Choose(max-min+1, "width")
		if w != min {
			used++
		}
		return w
	}
}

// allForms uses the k-th wider form everywhere.
func allForms(k int) ps.Form {
	return func(kind byte, min, max int) int {
		if min+k > max {
			return max
		}
		return min + k
	}
}

// data are the values a server may send (by version).
func serverValues() []val {
	var out []val
	for _, v := range append(append(leaves(), graphValues()...), pointValues()...) {
		out = append(out, v)
	}
	for _, v := range []val{
		ok("success", nil, ps.S(0x70, m{})),
		ok("success fields", nil, ps.S(0x70, m{"fields": anys("a", "b"), "result_available_after": int64(12)})),
		ok("success big", nil, ps.S(0x70, m{"stats": m{"nodes-created": int64(300)}, "plan": m{"children": anys(m{})}, "type": "rw"})),
		ok("failure", nil, ps.S(0x7f, m{"code": "Neo.X", "message": "m\u00e9ssage"})),
		ok("ignored", nil, ps.S(0x7e)),
		ok("record", nil, ps.S(0x71, anys())),
		ok("record 3", nil, ps.S(0x71, anys(int64(1), "x", anys(nil, 1.5, m{"k": false})))),
		ok("record node", nil, ps.S(0x71, anys(ps.S('N', int64(3), anys("A"), m{"p": anys(int64(400))}), ps.S('P', anys(ps.S('N', int64(3), anys(), m{})), anys(), anys())))),
	} {
		out = append(out, v)
	}
	return out
}

func c02(tier string) []mc.Scenario {
	vals := serverValues()
	_, d3 := dict(3)
	szs := sizes(tier)
	limit := 2
	if tier == "thorough" {
		limit = 4
	}
	var out []mc.Scenario
	for ver := 1; ver <= 4; ver++ {
		ver := ver
		name := func(s string) string { return fmt.Sprintf("v%d/%s", ver, s) }
		out = append(out, plain(name("forms"), func(x *mc.X) {
			v := vals[x.Range(len(vals), "value")]
			if v.v2 && ver < 2 {
				return
			}
			checkDecoded(x, ver, protoOf(x, ver), v.name, v.e, ps.EncodeForm(v.e, forms(x, limit)))
		}))
		out = append(out, plain(name("wide"), func(x *mc.X) {
			// nested values with everything in the k-th wider form
			v := vals[x.Range(len(vals), "value")]
			if v.v2 && ver < 2 {
				return
			}
			switch x.Choose(4, "in") {
			case 1:
				v.e = anys(v.e, int64(7))
			case 2:
				v.e = m{"k": v.e, "l": "x"}
			case 3:
				v.e = ps.S('N', int64(1), anys("L"), m{"p": v.e, "q": d3})
			}
			checkDecoded(x, ver, protoOf(x, ver), v.name, v.e, ps.EncodeForm(v.e, allForms(x.Choose(5, "form"))))
		}))
		out = append(out, plain(name("roundtrip"), func(x *mc.X) {
			vs := append(append(append(leaves(), typedSlices()...), graphValues()...), pointValues()...)
			v := vs[x.Range(len(vs), "value")]
			if v.bad || v.v2 && ver < 2 {
				return
			}
			if k := x.Choose(len(wraps)-2, "in"); k > 0 {
				v = wrap(k-1, v)
			}
			if v.fwd {
				return
			}
			p := protoOf(x, ver)
			b, err := p.Marshal(v.g)
			x.Check(err == nil, "refused", "v%d: Marshal(%s): %v", ver, v.name, err)
			got, err := p.Unmarshal(b)
			x.Check(err == nil, "rejected", "v%d: Unmarshal(Marshal(%s)): %v", ver, v.name, err)
			g, err := toPS(got)
			x.Check(err == nil && ps.Equal(g, v.e), "roundtrip", "v%d: %s comes back as %s (%v)", ver, v.name, ps.String(g), err)
		}))
		if ver > 2 && tier == "quick" {
			continue
		}
		out = append(out, plain(name("ints"), func(x *mc.X) {
			es := edges()
			v := es[x.Range(len(es), "value")]
			checkDecoded(x, ver, protoOf(x, ver), fmt.Sprint(v), v, ps.EncodeForm(v, forms(x, 1)))
		}))
		out = append(out, plain(name("int16"), func(x *mc.X) {
			v := int64(x.Range(1<<17, "value") - 1<<16)
			checkDecoded(x, ver, protoOf(x, ver), fmt.Sprint(v), v, ps.EncodeForm(v, forms(x, 1)))
		}))
		out = append(out, plain(name("floats"), func(x *mc.X) {
			fs := floats()
			v := fs[x.Range(len(fs), "value")]
			checkDecoded(x, ver, protoOf(x, ver), fmt.Sprint(v), v, ps.Encode(v))
		}))
		out = append(out, plain(name("sizes"), func(x *mc.X) {
			n := szs[x.Range(len(szs), "size")]
			var e interface{}
			nm := ""
			switch x.Choose(4, "kind") {
			case 0:
				nm, e = "string", str(n)
			case 1:
				_, l := list(n)
				nm, e = "list", l
			case 2:
				if n > 1000 && tier == "quick" && n != 32768 && n != 65535 && n != 65536 {
					return
				}
				_, d := dict(n)
				nm, e = "map", d
			case 3:
				_, l := list(n)
				nm, e = "record", ps.S(0x71, l)
			}
			used := false
			msg := ps.EncodeForm(e, func(kind byte, min, max int) int {
				if used || kind == 'S' {
					return min
				}
				used = true
				return min + x.Choose(max-min+1, "width")
			})
			checkDecoded(x, ver, protoOf(x, ver), fmt.Sprintf("%s of %d", nm, n), e, msg)
		}))
		out = append(out, plain(name("large"), func(x *mc.X) {
			v := largeValue(x)
			checkDecoded(x, ver, protoOf(x, ver), v.name, v.e, ps.Encode(v.e))
		}))
		out = append(out, plain(name("deep"), func(x *mc.X) {
			v := deepValue(x)
			checkDecoded(x, ver, protoOf(x, ver), v.name, v.e, ps.EncodeForm(v.e, allForms(x.Choose(5, "form"))))
		}))
		out = append(out, plain(name("nested"), func(x *mc.X) {
			checkDecodedNested(x, ver, limit)
		}))
	}
	return out
}

// checkDecodedNested enumerates value trees.
func checkDecodedNested(x *mc.X, ver, limit int) {
	small := []interface{}{nil, true, int64(5), int64(-70000), 1.5, "", "k\u00e9y", anys(), m{}}
	var gen func(d int) interface{}
	gen = func(d int) interface{} {
		n := len(small)
		k := 0
		if d > 0 {
			k = x.Choose(n+5, "node")
		} else {
			k = x.Choose(n, "leaf")
		}
		if k < n {
			return small[k]
		}
		switch k - n {
		case 0:
			return anys(gen(d - 1))
		case 1:
			return anys(gen(d-1), gen(0))
		case 2:
			return m{"a": gen(d - 1)}
		case 3:
			return ps.S('N', int64(200), anys("L"), m{"p": gen(d - 1)})
		default:
			return ps.S('r', int64(-3), "T", m{"p": gen(d - 1), "q": gen(0)})
		}
	}
	e := gen(limit)
	checkDecoded(x, ver, protoOf(x, ver), ps.String(e), e, ps.EncodeForm(e, allForms(x.Choose(3, "form"))))
}

func init() {
	register(&mc.Check{Property: "C02", Scenarios: c02,
		Bounds:      "all integers in [-65536,65535] and around powers of two in every legal width; floats of every exponent; strings, lists, maps and records of every size 0..300 (600) and around 2^15, 2^16 (2^17) in every legal size class; 7 values of 250 KB to 17 MB in 3 places; values nested up to 1000 deep; composite and message values in all combinations of up to 2 (4) non-minimal forms and uniformly widened; all value trees to depth 2 (4) over 9 leaves and 5 constructors; encode-decode round trips",
		Assumptions: []string{"the reference encoder (package ps) implements PackStream 1", "byte arrays, which the versions' type table does not define for the driver, are outside the enumerated values"}})
}
