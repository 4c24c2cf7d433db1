package check

import (
	"fmt"
	"math"

	"verif/gen/bolt/protocol"
	"verif/mc"
	"verif/ps"
)

// checkEncoded compares what a protocol version writes for v with what it must be.
func checkEncoded(x *mc.X, ver int, p protocol.IBoltProtocol, v val, chunk uint16) {
	if v.v2 && ver < 2 {
		v = bad(v.name, v.g)
		return // whether version 1 refuses or encodes points is not specified
	}
	one, err := p.Marshal(v.g)
	str, errs := encodeStream(p, chunk, v.g)
	if v.bad {
		x.Class("refused")
		x.Check(err != nil, "not-refused "+v.name, "v%d: Marshal(%s) (%T) gives %s without an error", ver, v.name, v.g, hexs(one))
		x.Check(errs[0] != nil, "not-refused-stream "+v.name, "v%d: Encode(%s) (%T) gives %s without an error", ver, v.name, v.g, hexs(str))
		// the encoder stays usable and what it refused leaves no trace in the next message
		more, errs := encodeStream(p, chunk, v.g, "next")
		x.Check(errs[1] == nil, "encoder-dead", "v%d: Encode after a refused value fails: %v", ver, errs[1])
		ms, _, derr := ps.Dechunk(more)
		x.Check(derr == nil && len(ms) == 1 && string(ms[0]) == "\x84next", "refused-residue", "v%d: a refused %s followed by \"next\" (chunk size %d) writes %s", ver, v.name, chunk, hexs(more))
		return
	}
	x.Check(err == nil, "refused", "v%d: Marshal(%s) (%T) fails: %v", ver, v.name, v.g, err)
	x.Check(errs[0] == nil, "refused", "v%d: Encode(%s) (%T) fails: %v", ver, v.name, v.g, errs[0])
	for i, b := range [][]byte{one, str} {
		how := []string{"Marshal", fmt.Sprintf("Encode (chunk size %d)", chunk)}[i]
		ms, _, derr := ps.Dechunk(b)
		x.Check(derr == nil && len(ms) == 1, "framing", "v%d: %s of %s writes %d messages, %v: %s", ver, how, v.name, len(ms), derr, hexs(b))
		got, derr := ps.Decode(ms[0])
		x.Check(derr == nil, "undecodable", "v%d: %s of %s is not PackStream (%v): %s", ver, how, v.name, derr, hexs(ms[0]))
		x.Check(ps.Equal(v.e, got), "wrong-value", "v%d: %s of %s: %s\n reads as %s\n expected %s", ver, how, v.name, hexs(ms[0]), ps.String(got), ps.String(v.e))
	}
	x.Class("%T", v.e)
}

func plain(id string, body func(x *mc.X)) mc.Scenario {
	return mc.Scenario{ID: id, Plain: true, Body: body}
}

var (
	allInts = func() []val {
		var out []val
		for _, v := range edges() {
			for _, g := range intsAs(v) {
				out = append(out, ok(fmt.Sprintf("%T %d", g, v), g, v))
			}
		}
		return out
	}()
	allFloats = func() []val {
		var out []val
		for _, f := range floats() {
			out = append(out, ok(fmt.Sprintf("float64 %v", f), f, f))
			if g := float32(f); !math.IsInf(float64(g), 0) {
				out = append(out, ok(fmt.Sprintf("float32 %v", f), g, float64(g)))
			}
		}
		return out
	}()
)

// sizes are the sizes at which strings, lists and maps are tried.
func sizes(tier string) []int {
	var out []int
	add := func(a, b int) {
		for i := a; i <= b; i++ {
			out = append(out, i)
		}
	}
	if tier == "thorough" {
		add(0, 600)
		add(32760, 32775)
		add(65520, 65560)
		add(131065, 131080)
	} else {
		add(0, 300)
		add(32766, 32769)
		add(65533, 65538)
	}
	return out
}

var chunkSizes = []uint16{math.MaxUint16, 1, 2, 3, 7, 16, 255, 256, 4096, 65534, 0}

func c01(tier string) []mc.Scenario {
	leaf := append(append(append(leaves(), typedSlices()...), graphValues()...), pointValues()...)
	leaf = append(leaf, messageValues()...)
	leaf = append(leaf, refused()...)
	small := append(leaves(), refused()...)
	small = append(small, typedSlices()...)
	deep := append(leaves()[:16:16], refused()[:4]...)
	szs := sizes(tier)
	var out []mc.Scenario
	for ver := 1; ver <= 4; ver++ {
		ver := ver
		name := func(s string) string { return fmt.Sprintf("v%d/%s", ver, s) }
		set := func(id string, vals []val, chunks []uint16) {
			out = append(out, plain(name(id), func(x *mc.X) {
				v := vals[x.Range(len(vals), "value")]
				c := chunks[x.Choose(len(chunks), "chunk size")]
				checkEncoded(x, ver, protoOf(x, ver), v, c)
			}))
		}
		set("values", leaf, chunkSizes)
		out = append(out, plain(name("nested1"), func(x *mc.X) {
			v := leaf[x.Range(len(leaf), "leaf")]
			if v.fwd {
				return
			}
			checkEncoded(x, ver, protoOf(x, ver), wrap(x.Choose(len(wraps), "in"), v), chunkSizes[x.Choose(4, "chunk size")])
		}))
		out = append(out, plain(name("nested2"), func(x *mc.X) {
			v := wrap(x.Choose(len(wraps)-3, "in"), small[x.Range(len(small), "leaf")])
			checkEncoded(x, ver, protoOf(x, ver), wrap(x.Choose(len(wraps), "in"), v), chunkSizes[2*x.Choose(2, "chunk size")])
		}))
		if ver > 2 && tier == "quick" {
			continue // versions 2 to 4 share their codec; the rest is tried on two of them
		}
		out = append(out, plain(name("nested3"), func(x *mc.X) {
			v := wrap(x.Choose(len(wraps)-3, "in"), deep[x.Range(len(deep), "leaf")])
			v = wrap(x.Choose(len(wraps)-3, "in"), v)
			checkEncoded(x, ver, protoOf(x, ver), wrap(x.Choose(len(wraps), "in"), v), math.MaxUint16)
		}))
		if tier == "thorough" {
			out = append(out, plain(name("nested4"), func(x *mc.X) {
				v := wrap(x.Choose(len(wraps)-3, "in"), deep[x.Range(len(deep), "leaf")])
				v = wrap(x.Choose(len(wraps)-3, "in"), v)
				v = wrap(x.Choose(len(wraps)-3, "in"), v)
				checkEncoded(x, ver, protoOf(x, ver), wrap(x.Choose(len(wraps), "in"), v), math.MaxUint16)
			}))
		}
		set("ints", allInts, chunkSizes[:2])
		set("floats", allFloats, chunkSizes[:1])
		out = append(out, plain(name("int16"), func(x *mc.X) {
			v := x.Range(1<<17, "value") - 1<<16
			gs := intsAs(int64(v))
			checkEncoded(x, ver, protoOf(x, ver), ok(fmt.Sprint(v), gs[x.Choose(len(gs), "type")], int64(v)), math.MaxUint16)
		}))
		// A uint above the signed maximum wraps; the project's own tests demand it.
		out = append(out, plain(name("uint"), func(x *mc.X) {
			vs := []uint{1 << 63, 1<<63 + 1, math.MaxUint64}
			u := vs[x.Choose(len(vs), "value")]
			p := protoOf(x, ver)
			b, err := p.Marshal(u)
			if x.Bool("nested") {
				b, err = p.Marshal([]interface{}{u})
			}
			x.Check(err != nil, "uint above MaxInt64 is encoded as a negative integer", "v%d: Marshal(uint(%d)) = %x", ver, u, b)
		}))
		out = append(out, plain(name("sizes"), func(x *mc.X) {
			n := szs[x.Range(len(szs), "size")]
			var v val
			switch x.Choose(4, "kind") {
			case 0:
				v = ok(fmt.Sprintf("string of %d bytes", n), str(n), str(n))
			case 1:
				g, e := list(n)
				v = ok(fmt.Sprintf("list of %d", n), g, e)
			case 2:
				if n > 1000 && tier == "quick" && n != 32768 && n != 65535 && n != 65536 {
					return
				}
				g, e := dict(n)
				v = ok(fmt.Sprintf("map of %d", n), g, e)
			case 3:
				g, e := list(n)
				if n > 65535 {
					v = bad(fmt.Sprintf("structure of %d fields", n), rec{0x55, g})
				} else {
					v = ok(fmt.Sprintf("structure of %d fields", n), rec{0x55, g}, ps.Struct{Tag: 0x55, Fields: e})
				}
			}
			chunk := uint16(math.MaxUint16)
			if n < 600 {
				chunk = chunkSizes[[]int{0, 2, 6}[x.Choose(3, "chunk size")]]
			}
			checkEncoded(x, ver, protoOf(x, ver), v, chunk)
		}))
		out = append(out, plain(name("large"), func(x *mc.X) {
			v := largeValue(x)
			checkEncoded(x, ver, protoOf(x, ver), v, []uint16{math.MaxUint16, 1000}[x.Choose(2, "chunk size")])
		}))
		out = append(out, plain(name("deep"), func(x *mc.X) {
			v := deepValue(x)
			checkEncoded(x, ver, protoOf(x, ver), v, chunkSizes[x.Choose(4, "chunk size")])
		}))
		out = append(out, plain(name("strings"), func(x *mc.X) {
			// all strings up to three characters over an alphabet of awkward ones
			al := []string{"", "a", "\x00", "\n", "é", "世", "🚀", "%", "\u2028", "\ufffd"}
			s := al[x.Choose(len(al), "c")] + al[x.Choose(len(al), "c")] + al[x.Choose(len(al), "c")]
			v := ok(fmt.Sprintf("%q", s), s, s)
			if x.Bool("as key") {
				v = ok(fmt.Sprintf("key %q", s), m{s: 1}, m{s: int64(1)})
			}
			checkEncoded(x, ver, protoOf(x, ver), v, math.MaxUint16)
		}))
	}
	return out
}

// largeValue chooses a value of megabytes.
func largeValue(x *mc.X) val {
	in := func(v val) val {
		switch x.Choose(3, "in") {
		case 1:
			v.g, v.e = rec{0x71, []interface{}{[]interface{}{v.g, 5}}}, ps.S(0x71, anys(v.e, int64(5)))
		case 2:
			v.g, v.e = m{"k": v.g, "l": 1}, m{"k": v.e, "l": int64(1)}
		}
		return v
	}
	switch k := x.Choose(7, "value"); k {
	case 0, 1, 2, 3:
		n := []int{1<<18 + 1, 1<<20 + 3, 5000000, 1<<24 + 5}[k]
		s := str(n)
		return in(ok(fmt.Sprintf("string of %d bytes", n), s, s))
	case 4:
		g, e := list(400000)
		return in(ok("list of 400000", g, e))
	case 5:
		var g, e []interface{}
		for i := 0; i < 40; i++ {
			s := str(50000 + i)
			g, e = append(g, s), append(e, s)
		}
		return in(ok("40 strings of 50000 bytes", g, e))
	}
	g, e := dict(70000)
	return in(ok("map of 70000", g, e))
}

// deepValue chooses a value nested deeply.
func deepValue(x *mc.X) val {
	d := []int{5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 1000}[x.Choose(30, "depth")]
	k := x.Choose(4, "kind")
	var g, e interface{} = 7, int64(7)
	for i := 0; i < d; i++ {
		kind := k
		if k == 3 {
			kind = i % 3
		}
		switch kind {
		case 0:
			g, e = []interface{}{g}, []interface{}{e}
		case 1:
			g, e = m{"k": g}, m{"k": e}
		case 2:
			g, e = []interface{}{1, m{"k": g}, "x"}, []interface{}{int64(1), m{"k": e}, "x"}
		}
	}
	return ok(fmt.Sprintf("value nested %d deep", d), g, e)
}

func init() {
	register(&mc.Check{Property: "C01", Scenarios: c01,
		Bounds:      "both encoder generations (all four protocol versions for composite values), Marshal and streaming with 11 chunk sizes: every integer in [-65536,65535] and within 2 of every power of two in every Go integer type; floats of every exponent with 4 mantissas; every size 0..300 (thorough 0..600) and around 2^15, 2^16 (2^17) of strings, lists, maps and structures; 7 values of 250 KB to 17 MB in 3 places; values nested up to 1000 deep; all nestings to depth 3 (thorough 4) of 12 constructors over 30 leaves, supported and unsupported; all message structures; all strings of up to 3 characters over a 10-character alphabet",
		Assumptions: []string{"the reference decoder (package ps) implements PackStream 1", "a []byte is a list of integers (the versions covered define no byte arrays for it)"}})
}
