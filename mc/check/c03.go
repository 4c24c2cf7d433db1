package check

import (
	"bytes"
	"fmt"
	"io"
	"math"

	"verif/mc"
	"verif/ps"
)

// writeLog records the writes of an encoder.
type writeLog struct {
	bytes.Buffer
}

func checkChunked(x *mc.X, ver int, chunk uint16, msgs []interface{}, want [][]byte) {
	p := protoOf(x, ver)
	b, errs := encodeStream(p, chunk, msgs...)
	for i, err := range errs {
		x.Check(err == nil, "refused", "v%d: message %d: %v", ver, i, err)
	}
	ms, sizes, err := ps.Dechunk(b)
	x.Check(err == nil, "framing", "v%d: chunk size %d: the stream ends within a chunk or message (%v): %s", ver, chunk, err, hexs(b))
	x.Check(len(ms) == len(want), "framing", "v%d: chunk size %d: %d messages instead of %d: %s", ver, chunk, len(ms), len(want), hexs(b))
	for i := range ms {
		x.Check(bytes.Equal(ms[i], want[i]), "payload", "v%d: chunk size %d: message %d is %s instead of %s", ver, chunk, i, hexs(ms[i]), hexs(want[i]))
		for _, n := range sizes[i] {
			x.Check(chunk == 0 || n <= int(chunk), "chunk-too-large", "v%d: chunk of %d bytes with chunk size %d", ver, n, chunk)
		}
	}
	x.Class("written in %d chunks", len(sizes[0]))
}

// compositions: bit i of mask set means a boundary after byte i+1.
func compose(n, mask int) []int {
	var out []int
	k := 1
	for i := 0; i < n-1; i++ {
		if mask>>uint(i)&1 == 1 {
			out = append(out, k)
			k = 0
		}
		k++
	}
	return append(out, k)
}

func checkReassembled(x *mc.X, ver int, stream []byte, want []interface{}, sizes []int, max int) {
	p := protoOf(x, ver)
	r := &reader{b: stream, sizes: append([]int(nil), sizes...), max: max, err: io.EOF, last: x.Bool("end with last bytes")}
	total := len(stream)
	used := 0
	for i, w := range want {
		got, err := p.NewDecoder(r).Decode()
		x.Check(err == nil, "rejected", "v%d: message %d of stream %s read in %v: %v", ver, i, hexs(stream), sizes, err)
		g, err := toPS(got)
		x.Check(err == nil && ps.Equal(g, w), "wrong-message", "v%d: message %d of stream %s read in %v gives %s instead of %s", ver, i, hexs(stream), sizes, ps.String(g), ps.String(w))
		// it has read exactly this message
		d := ps.Dechunker{}
		n := used
		for ; n < total; n++ {
			if len(d.Feed(stream[n:n+1])) > 0 {
				n++
				break
			}
		}
		used = n
		x.Check(total-len(r.b) == used, "over-read", "v%d: after message %d, %d bytes of the stream %s were consumed instead of %d", ver, i, total-len(r.b), hexs(stream), used)
	}
	_, err := p.NewDecoder(r).Decode()
	x.Check(err != nil, "invented-message", "v%d: a message is read from an exhausted stream", ver)
}

func c03(tier string) []mc.Scenario {
	var out []mc.Scenario
	cs := []int{1, 2, 3, 4, 5, 8, 15, 16, 17, 100, 127, 128, 255, 256, 257, 1000, 4096, 32767, 32768, 65534, 65535, 0}
	maxBytes := 9
	if tier == "thorough" {
		maxBytes = 14
		for i := 6; i < 64; i++ {
			cs = append(cs, i)
		}
	}
	for ver := 1; ver <= 4; ver++ {
		ver := ver
		name := func(s string) string { return fmt.Sprintf("v%d/%s", ver, s) }
		out = append(out, plain(name("write"), func(x *mc.X) {
			// payload sizes around all multiples of the chunk size up to 3 and around the 16 bit limit
			c := cs[x.Range(len(cs), "chunk size")]
			base := 0
			switch x.Choose(6, "size near") {
			case 1:
				base = c
			case 2:
				base = 2 * c
			case 3:
				base = 3 * c
			case 4:
				base = 65535
			case 5:
				base = 131070
			}
			n := base + x.Choose(15, "offset") - 8
			if n < 0 || n > 140000 {
				return
			}
			s := str(n)
			v := interface{}(s)
			want := ps.Encode(s)
			if x.Bool("as record field") {
				v = rec{0x71, []interface{}{s, 5}}
				want = ps.Encode(ps.S(0x71, s, int64(5)))
			}
			checkChunked(x, ver, uint16(c), []interface{}{v}, [][]byte{want})
		}))
		out = append(out, plain(name("write-many"), func(x *mc.X) {
			// sequences of messages of different sizes through one encoder
			szs := []int{0, 1, 13, 14, 15, 16, 17, 30, 31, 32, 33, 40000, 65534, 65536, 70000}
			c := []uint16{16, 1, 17, 65535, 255, 0}[x.Choose(6, "chunk size")]
			var vs []interface{}
			var ws [][]byte
			for i := 0; i < 3; i++ {
				n := szs[x.Choose(len(szs), "size")]
				vs = append(vs, str(n))
				ws = append(ws, ps.Encode(str(n)))
			}
			checkChunked(x, ver, c, vs, ws)
		}))
		out = append(out, plain(name("write-pieces"), func(x *mc.X) {
			// many small values: every write boundary inside the chunk
			c := uint16(1 + x.Choose(40, "chunk size"))
			n := x.Choose(60, "items")
			g, e := list(n)
			checkChunked(x, ver, c, []interface{}{g, "end"}, [][]byte{ps.Encode(e), ps.Encode("end")})
		}))
		if ver > 2 && tier == "quick" {
			continue
		}
		out = append(out, plain(name("read-chunked"), func(x *mc.X) {
			// all ways to split a small message into chunks, all ways to split the result into reads
			var v interface{}
			switch x.Choose(4, "message") {
			case 0:
				v = int64(300)
			case 1:
				v = "abcd"
			case 2:
				v = ps.S(0x71, anys(int64(1), "x"))
			case 3:
				v = m{"k": int64(-200)}
			}
			msg := ps.Encode(v)
			chunks := compose(len(msg), x.Range(1<<uint(len(msg)-1), "chunks"))
			stream := ps.ChunkAt(msg, chunks)
			k := x.Choose(4, "reads")
			if k == 0 && len(stream) <= maxBytes {
				checkReassembled(x, ver, stream, []interface{}{v}, compose(len(stream), x.Range(1<<uint(len(stream)-1), "splits")), 0)
				return
			}
			checkReassembled(x, ver, stream, []interface{}{v}, nil, k)
		}))
		out = append(out, plain(name("read-many"), func(x *mc.X) {
			// several messages back to back, chunked at a fixed size, delivered in reads of a fixed size
			// or cut at one or two points
			vals := []interface{}{int64(1), "hello world, this is a string", ps.S(0x70, m{"fields": anys("a", "b")}), ps.S(0x7e), ps.S(0x71, anys(nil, 2.5))}
			var stream []byte
			var want []interface{}
			c := 0
			for i := 0; i < 3; i++ {
				v := vals[x.Choose(len(vals), "message")]
				if i == 0 || tier == "thorough" {
					c = []int{65535, 1, 2, 5, 16}[x.Choose(5, "chunk size")]
				}
				stream = append(stream, ps.Chunk(ps.Encode(v), c)...)
				want = append(want, v)
			}
			k := x.Choose(8, "reads")
			if k == 0 {
				a := 1 + x.Range(len(stream)-1, "cut")
				checkReassembled(x, ver, stream, want, []int{a, len(stream) - a}, 0)
				return
			}
			checkReassembled(x, ver, stream, want, nil, []int{0, 0, 1, 2, 3, 5, 17, 64}[k])
		}))
		out = append(out, plain(name("read-large"), func(x *mc.X) {
			n := []int{300, 65530, 65532, 65533, 65535, 65536, 65540, 131070, 140000}[x.Choose(9, "size")]
			v := str(n)
			c := []int{65535, 65534, 32768, 32767, 1000, 256, 255}[x.Choose(7, "chunk size")]
			mx := []int{0, 1, 7, 1460, 4096, 65535}[x.Choose(6, "reads")]
			if mx == 1 && n > 70000 || mx == 7 && n > 140000 {
				return
			}
			checkReassembled(x, ver, append(ps.Chunk(ps.Encode(v), c), ps.Chunk(ps.Encode(int64(7)), 1)...), []interface{}{v, int64(7)}, nil, mx)
		}))
		out = append(out, plain(name("megabytes"), func(x *mc.X) {
			n := []int{1<<20 + 3, 3000000, 1<<24 + 5}[x.Choose(3, "size")]
			s := str(n)
			c := []int{65535, 32768, 1000}[x.Choose(3, "chunk size")]
			if x.Bool("write") {
				checkChunked(x, ver, uint16(c), []interface{}{s, "end"}, [][]byte{ps.Encode(s), ps.Encode("end")})
				return
			}
			stream := append(ps.Chunk(ps.Encode(s), c), ps.Chunk(ps.Encode("end"), 1)...)
			r := &reader{b: stream, max: []int{0, 1460, 65535}[x.Choose(3, "reads")], err: io.EOF}
			p := protoOf(x, ver)
			for _, w := range []string{s, "end"} {
				got, err := p.NewDecoder(r).Decode()
				g, _ := got.(string)
				x.Check(err == nil && g == w, "wrong-message", "v%d: a string of %d bytes in chunks of %d, read by %d: %T of %d bytes, %v", ver, len(w), c, r.max, got, len(g), err)
			}
		}))
		out = append(out, plain(name("cut"), func(x *mc.X) {
			// a stream that ends anywhere within a message is an error
			v := ps.S(0x71, anys(int64(1), "some text", m{"k": anys(true)}))
			stream := ps.Chunk(ps.Encode(v), []int{65535, 1, 2, 5, 16}[x.Choose(5, "chunk size")])
			cut := x.Range(len(stream), "cut")
			r := &reader{b: stream[:cut], err: io.EOF, last: x.Bool("end with last bytes")}
			got, err := protoOf(x, ver).NewDecoder(r).Decode()
			x.Check(err != nil, "cut-message", "v%d: the first %d of %d bytes of %s decode to %v", ver, cut, len(stream), hexs(stream), got)
		}))
	}
	_ = math.MaxUint16
	return out
}

func init() {
	register(&mc.Check{Property: "C03", Scenarios: c03,
		Bounds:      "writing: 22 (80) chunk sizes x payload sizes within 8 of 0, 1, 2, 3 chunks, of 65535 and of 131070, sequences of three messages, lists of 0..59 items with chunk sizes 1..40; reading: every composition into chunks of 4 small messages x every composition into reads (streams to 9 (14) bytes) or fixed read sizes, three messages back to back cut anywhere, messages around the 16 bit limits and of 1 to 17 MB; every truncation",
		Assumptions: []string{"a transport read returns at least one byte or an error"}})
}
