// Package ps is an implementation of PackStream (version 1) and of Bolt message chunking that is
// independent of the driver's: it serves as the oracle for what the driver writes and as the
// source of what it reads.
package ps

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"sort"
	"strings"
	"unicode/utf8"
)

// The values: nil, bool, int64, float64, string, []byte, []interface{}, map[string]interface{},
// Struct.

// Struct is a PackStream structure.
type Struct struct {
	Tag    byte
	Fields []interface{}
}

// S makes a structure.
func S(tag byte, fields ...interface{}) Struct {
	if fields == nil {
		fields = []interface{}{}
	}
	return Struct{tag, fields}
}

// ErrShort reports that the bytes end within a value.
var ErrShort = errors.New("ps: short input")

// ErrDup reports a map with two entries for a key.
var ErrDup = errors.New("ps: duplicate map key")

// Decode reads exactly one value from b.
func Decode(b []byte) (interface{}, error) {
	v, rest, err := DecodeOne(b)
	if err != nil {
		return nil, err
	}
	if len(rest) != 0 {
		return nil, fmt.Errorf("ps: %d trailing bytes", len(rest))
	}
	return v, nil
}

// DecodeOne reads one value from the front of b.
func DecodeOne(b []byte) (interface{}, []byte, error) {
	if len(b) == 0 {
		return nil, nil, ErrShort
	}
	m := b[0]
	b = b[1:]
	num := func(n int) (uint64, error) {
		if len(b) < n {
			return 0, ErrShort
		}
		var u uint64
		for _, c := range b[:n] {
			u = u<<8 | uint64(c)
		}
		b = b[n:]
		return u, nil
	}
	switch {
	case m < 0x80:
		return int64(m), b, nil
	case m >= 0xF0:
		return int64(m) - 256, b, nil
	}
	switch m {
	case 0xC0:
		return nil, b, nil
	case 0xC1:
		u, err := num(8)
		return math.Float64frombits(u), b, err
	case 0xC2:
		return false, b, nil
	case 0xC3:
		return true, b, nil
	case 0xC8:
		u, err := num(1)
		return int64(int8(u)), b, err
	case 0xC9:
		u, err := num(2)
		return int64(int16(u)), b, err
	case 0xCA:
		u, err := num(4)
		return int64(int32(u)), b, err
	case 0xCB:
		u, err := num(8)
		return int64(u), b, err
	}
	kind := byte(0)
	var size uint64
	var err error
	switch {
	case m&0xF0 == 0x80:
		kind, size = 's', uint64(m&15)
	case m&0xF0 == 0x90:
		kind, size = 'l', uint64(m&15)
	case m&0xF0 == 0xA0:
		kind, size = 'm', uint64(m&15)
	case m&0xF0 == 0xB0:
		kind, size = 'S', uint64(m&15)
	case m >= 0xCC && m <= 0xCE:
		kind = 'b'
		size, err = num(1 << (m - 0xCC))
	case m >= 0xD0 && m <= 0xD2:
		kind = 's'
		size, err = num(1 << (m - 0xD0))
	case m >= 0xD4 && m <= 0xD6:
		kind = 'l'
		size, err = num(1 << (m - 0xD4))
	case m >= 0xD8 && m <= 0xDA:
		kind = 'm'
		size, err = num(1 << (m - 0xD8))
	case m == 0xDC || m == 0xDD:
		kind = 'S'
		size, err = num(1 << (m - 0xDC))
	default:
		return nil, nil, fmt.Errorf("ps: bad marker %02x", m)
	}
	if err != nil {
		return nil, nil, err
	}
	if size > uint64(len(b)) {
		if kind == 'S' && size == uint64(len(b))+1 {
			// cannot be: the tag needs a byte too
		}
		return nil, nil, ErrShort
	}
	switch kind {
	case 's', 'b':
		d := b[:size]
		b = b[size:]
		if kind == 's' {
			return string(d), b, nil
		}
		return append([]byte{}, d...), b, nil
	case 'l':
		l := make([]interface{}, 0, size)
		for i := uint64(0); i < size; i++ {
			var v interface{}
			if v, b, err = DecodeOne(b); err != nil {
				return nil, nil, err
			}
			l = append(l, v)
		}
		return l, b, nil
	case 'm':
		mm := make(map[string]interface{}, size)
		for i := uint64(0); i < size; i++ {
			var k, v interface{}
			if k, b, err = DecodeOne(b); err != nil {
				return nil, nil, err
			}
			ks, ok := k.(string)
			if !ok {
				return nil, nil, fmt.Errorf("ps: map key %T", k)
			}
			if v, b, err = DecodeOne(b); err != nil {
				return nil, nil, err
			}
			if _, dup := mm[ks]; dup {
				return nil, nil, ErrDup
			}
			mm[ks] = v
		}
		return mm, b, nil
	}
	// structure
	if len(b) == 0 {
		return nil, nil, ErrShort
	}
	st := Struct{Tag: b[0], Fields: make([]interface{}, 0, size)}
	b = b[1:]
	for i := uint64(0); i < size; i++ {
		var v interface{}
		if v, b, err = DecodeOne(b); err != nil {
			return nil, nil, err
		}
		st.Fields = append(st.Fields, v)
	}
	return st, b, nil
}

// Form chooses the encoding of sizes and integers: for each it is asked, given the minimal width
// index (0: tiny, 1: 8 bit, ...), for the width index to use; kind is one of 'i' (ints: 0 tiny, 1:
// 8, 2: 16, 3: 32, 4: 64 bits), 's', 'l', 'm' (0 tiny, 1..3), 'S' (0 tiny, 1, 2).
type Form func(kind byte, min, max int) int

// Encode encodes v minimally.
func Encode(v interface{}) []byte { return EncodeForm(v, nil) }

// EncodeForm encodes v in the widths chosen by f.
func EncodeForm(v interface{}, f Form) []byte {
	e := enc{f: f}
	e.val(v)
	return e.b
}

// Map is a map with a given order of keys.
type Map []KV

// KV is an entry.
type KV struct {
	K string
	V interface{}
}

type enc struct {
	b []byte
	f Form
}

func (e *enc) width(kind byte, min, max int) int {
	if e.f == nil {
		return min
	}
	w := e.f(kind, min, max)
	if w < min || w > max {
		panic("ps: form out of range")
	}
	return w
}

func (e *enc) be(u uint64, n int) {
	for i := n - 1; i >= 0; i-- {
		e.b = append(e.b, byte(u>>(8*uint(i))))
	}
}

func (e *enc) size(kind byte, n int) {
	var tiny, big byte
	max := 3
	switch kind {
	case 's':
		tiny, big = 0x80, 0xD0
	case 'l':
		tiny, big = 0x90, 0xD4
	case 'm':
		tiny, big = 0xA0, 0xD8
	case 'S':
		tiny, big = 0xB0, 0xDC
		max = 2
	}
	min := 0
	switch {
	case n < 16:
	case n < 256:
		min = 1
	case n < 65536:
		min = 2
	default:
		min = 3
	}
	w := e.width(kind, min, max)
	if w == 0 {
		e.b = append(e.b, tiny|byte(n))
		return
	}
	e.b = append(e.b, big+byte(w-1))
	e.be(uint64(n), 1<<uint(w-1))
}

func (e *enc) val(v interface{}) {
	switch v := v.(type) {
	case nil:
		e.b = append(e.b, 0xC0)
	case bool:
		if v {
			e.b = append(e.b, 0xC3)
		} else {
			e.b = append(e.b, 0xC2)
		}
	case int:
		e.val(int64(v))
	case int64:
		min := 4
		switch {
		case v >= -16 && v <= 127:
			min = 0
		case v >= -128 && v <= 127:
			min = 1
		case v >= -32768 && v <= 32767:
			min = 2
		case v >= math.MinInt32 && v <= math.MaxInt32:
			min = 3
		}
		w := e.width('i', min, 4)
		if w == 0 {
			e.b = append(e.b, byte(v))
			return
		}
		e.b = append(e.b, 0xC7+byte(w))
		e.be(uint64(v), 1<<uint(w-1))
	case float64:
		e.b = append(e.b, 0xC1)
		e.be(math.Float64bits(v), 8)
	case string:
		e.size('s', len(v))
		e.b = append(e.b, v...)
	case []byte:
		switch n := len(v); {
		case n < 256:
			e.b = append(e.b, 0xCC)
			e.be(uint64(n), 1)
		case n < 65536:
			e.b = append(e.b, 0xCD)
			e.be(uint64(n), 2)
		default:
			e.b = append(e.b, 0xCE)
			e.be(uint64(n), 4)
		}
		e.b = append(e.b, v...)
	case []interface{}:
		e.size('l', len(v))
		for _, x := range v {
			e.val(x)
		}
	case []string:
		e.size('l', len(v))
		for _, x := range v {
			e.val(x)
		}
	case map[string]interface{}:
		e.size('m', len(v))
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Sort(sort.StringSlice(keys))
		for _, k := range keys {
			e.val(k)
			e.val(v[k])
		}
	case Map:
		e.size('m', len(v))
		for _, kv := range v {
			e.val(kv.K)
			e.val(kv.V)
		}
	case Struct:
		e.size('S', len(v.Fields))
		e.b = append(e.b, v.Tag)
		for _, x := range v.Fields {
			e.val(x)
		}
	default:
		panic(fmt.Sprintf("ps: cannot encode %T", v))
	}
}

// Equal compares two values; floats are compared by their bits (NaN equals NaN).
func Equal(a, b interface{}) bool {
	switch a := a.(type) {
	case nil:
		return b == nil
	case bool:
		v, ok := b.(bool)
		return ok && v == a
	case int64:
		v, ok := b.(int64)
		return ok && v == a
	case float64:
		v, ok := b.(float64)
		return ok && (math.Float64bits(v) == math.Float64bits(a) || v != v && a != a)
	case string:
		v, ok := b.(string)
		return ok && v == a
	case []byte:
		v, ok := b.([]byte)
		return ok && string(v) == string(a)
	case []interface{}:
		v, ok := b.([]interface{})
		if !ok || len(v) != len(a) {
			return false
		}
		for i := range a {
			if !Equal(a[i], v[i]) {
				return false
			}
		}
		return true
	case map[string]interface{}:
		v, ok := b.(map[string]interface{})
		if !ok || len(v) != len(a) {
			return false
		}
		for k, x := range a {
			y, ok := v[k]
			if !ok || !Equal(x, y) {
				return false
			}
		}
		return true
	case Struct:
		v, ok := b.(Struct)
		return ok && v.Tag == a.Tag && Equal(a.Fields, v.Fields)
	}
	return false
}

// String renders a value compactly.
func String(v interface{}) string {
	var sb strings.Builder
	render(&sb, v)
	s := sb.String()
	if len(s) > 400 {
		s = s[:300] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func render(sb *strings.Builder, v interface{}) {
	switch v := v.(type) {
	case string:
		if len(v) > 60 {
			fmt.Fprintf(sb, "%q...(len %d)", v[:40], len(v))
		} else if utf8.ValidString(v) {
			fmt.Fprintf(sb, "%q", v)
		} else {
			fmt.Fprintf(sb, "%+q", v)
		}
	case []interface{}:
		sb.WriteByte('[')
		for i, x := range v {
			if i > 0 {
				sb.WriteByte(' ')
			}
			if i > 20 {
				fmt.Fprintf(sb, "...(len %d)", len(v))
				break
			}
			render(sb, x)
		}
		sb.WriteByte(']')
	case map[string]interface{}:
		sb.WriteByte('{')
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Sort(sort.StringSlice(keys))
		for i, k := range keys {
			if i > 0 {
				sb.WriteByte(' ')
			}
			if i > 20 {
				fmt.Fprintf(sb, "...(len %d)", len(v))
				break
			}
			fmt.Fprintf(sb, "%s:", k)
			render(sb, v[k])
		}
		sb.WriteByte('}')
	case Struct:
		fmt.Fprintf(sb, "S%02x", v.Tag)
		render(sb, v.Fields)
	case int64:
		fmt.Fprintf(sb, "%d", v)
	default:
		fmt.Fprintf(sb, "%T(%v)", v, v)
	}
}

// Chunk frames a message in chunks of at most max bytes.
func Chunk(msg []byte, max int) []byte {
	if max <= 0 || max > 65535 {
		max = 65535
	}
	var out []byte
	for len(msg) > 0 {
		n := len(msg)
		if n > max {
			n = max
		}
		out = append(out, byte(n>>8), byte(n))
		out = append(out, msg[:n]...)
		msg = msg[n:]
	}
	return append(out, 0, 0)
}

// ChunkAt frames a message in chunks of the given sizes (which must add up).
func ChunkAt(msg []byte, sizes []int) []byte {
	var out []byte
	for _, n := range sizes {
		out = append(out, byte(n>>8), byte(n))
		out = append(out, msg[:n]...)
		msg = msg[n:]
	}
	if len(msg) != 0 {
		panic("ps: chunk sizes")
	}
	return append(out, 0, 0)
}

// Dechunker reassembles messages from a byte stream.
type Dechunker struct {
	buf    []byte
	msg    []byte
	chunks int
	// Empty counts end markers without a message.
	Empty int
}

// Feed adds bytes and returns the complete messages; sizes has the chunk sizes of each.
func (d *Dechunker) Feed(p []byte) [][]byte {
	d.buf = append(d.buf, p...)
	var out [][]byte
	for len(d.buf) >= 2 {
		n := int(binary.BigEndian.Uint16(d.buf))
		if n == 0 {
			d.buf = d.buf[2:]
			if d.chunks == 0 {
				d.Empty++
				continue
			}
			out = append(out, d.msg)
			d.msg, d.chunks = nil, 0
			continue
		}
		if len(d.buf) < 2+n {
			break
		}
		d.msg = append(d.msg, d.buf[2:2+n]...)
		d.chunks++
		d.buf = d.buf[2+n:]
	}
	return out
}

// Pending reports whether a message is incomplete.
func (d *Dechunker) Pending() bool { return len(d.buf) > 0 || d.chunks > 0 }

// Dechunk splits a complete stream into messages with their chunk sizes.
func Dechunk(b []byte) (msgs [][]byte, sizes [][]int, err error) {
	var cur []byte
	var cs []int
	for len(b) > 0 {
		if len(b) < 2 {
			return msgs, sizes, ErrShort
		}
		n := int(binary.BigEndian.Uint16(b))
		b = b[2:]
		if n == 0 {
			msgs = append(msgs, cur)
			sizes = append(sizes, cs)
			cur, cs = nil, nil
			continue
		}
		if len(b) < n {
			return msgs, sizes, ErrShort
		}
		cur = append(cur, b[:n]...)
		cs = append(cs, n)
		b = b[n:]
	}
	if len(cs) > 0 {
		return msgs, sizes, ErrShort
	}
	return msgs, sizes, nil
}
