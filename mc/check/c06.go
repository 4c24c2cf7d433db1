package check

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"

	"verif/gen/dep/github.com/mindstand/gotime"

	"verif/boltsrv"
	"verif/gen/bolt/connection"
	"verif/mc"
	"verif/ps"
	"verif/rt"
)

// print writes everything that can be seen of a value, with the spare room of its slices and the
// identity of what it refers to.
func print(b *strings.Builder, v reflect.Value) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	b.WriteString(v.Type().String())
	switch v.Kind() {
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprintf(b, "%d", v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprintf(b, "%x", math.Float64bits(v.Float()))
	case reflect.Complex64, reflect.Complex128:
		fmt.Fprintf(b, "%v", v.Complex())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		fmt.Fprintf(b, "%x", v.Pointer())
	case reflect.Interface:
		print(b, v.Elem())
	case reflect.Ptr:
		fmt.Fprintf(b, "%x", v.Pointer())
		if !v.IsNil() && v.Type() != reflect.TypeOf(time.UTC) {
			print(b, v.Elem())
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			print(b, v.Index(i))
		}
	case reflect.Slice:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "%x %d %d[", v.Pointer(), v.Len(), v.Cap())
		for i, w := 0, v.Slice(0, v.Cap()); i < w.Len(); i++ {
			print(b, w.Index(i))
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case reflect.Map:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "%x {", v.Pointer())
		var l []string
		for _, k := range v.MapKeys() {
			var e strings.Builder
			print(&e, k)
			e.WriteByte(':')
			print(&e, v.MapIndex(k))
			l = append(l, e.String())
		}
		sort.Sort(sort.StringSlice(l))
		b.WriteString(strings.Join(l, ","))
		b.WriteByte('}')
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			print(b, v.Field(i))
			b.WriteByte(';')
		}
		b.WriteByte('}')
	}
}

func fingerprint(v interface{}) string {
	var b strings.Builder
	print(&b, reflect.ValueOf(v))
	return b.String()
}

const stray = "stray"

// roomy is a copy of a value whose slices have room behind their ends, with something in it.
func roomy(v interface{}) interface{} {
	r := reflect.ValueOf(v)
	if !r.IsValid() {
		return v
	}
	return roomyOf(r).Interface()
}

func roomyOf(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		c := reflect.New(v.Type()).Elem()
		c.Set(roomyOf(v.Elem()))
		return c
	case reflect.Ptr:
		if v.IsNil() || v.Type() == reflect.TypeOf(time.UTC) {
			return v
		}
		c := reflect.New(v.Type().Elem())
		c.Elem().Set(roomyOf(v.Elem()))
		return c
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		c := reflect.MakeSlice(v.Type(), v.Len()+3, v.Len()+3)
		for i := 0; i < v.Len(); i++ {
			c.Index(i).Set(roomyOf(v.Index(i)))
		}
		for i := v.Len(); i < c.Len(); i++ {
			e := c.Index(i)
			switch {
			case e.Kind() == reflect.String:
				e.SetString(stray)
			case e.Kind() == reflect.Interface && e.NumMethod() == 0:
				e.Set(reflect.ValueOf(stray))
			case e.Kind() >= reflect.Int && e.Kind() <= reflect.Int64:
				e.SetInt(99)
			}
		}
		return c.Slice(0, v.Len())
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		c := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			c.SetMapIndex(k, roomyOf(v.MapIndex(k)))
		}
		return c
	case reflect.Struct:
		c := reflect.New(v.Type()).Elem()
		c.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if c.Field(i).CanSet() {
				c.Field(i).Set(roomyOf(v.Field(i)))
			}
		}
		return c
	}
	return v
}

// region is memory that its holder can write to.
type region struct {
	a, b uintptr
	path string
}

func regions(out []region, path string, v reflect.Value) []region {
	if !v.IsValid() {
		return out
	}
	switch v.Kind() {
	case reflect.Interface:
		return regions(out, path, v.Elem())
	case reflect.Ptr:
		if !v.IsNil() && v.Type() != reflect.TypeOf(time.UTC) {
			if n := v.Type().Elem().Size(); n > 0 {
				out = append(out, region{v.Pointer(), v.Pointer() + n, path})
			}
			out = regions(out, path, v.Elem())
		}
	case reflect.Slice:
		if n := uintptr(v.Cap()) * v.Type().Elem().Size(); n > 0 {
			out = append(out, region{v.Pointer(), v.Pointer() + n, path})
		}
		for i := 0; i < v.Len(); i++ {
			out = regions(out, fmt.Sprintf("%s[%d]", path, i), v.Index(i))
		}
	case reflect.Map:
		if !v.IsNil() {
			out = append(out, region{v.Pointer(), v.Pointer() + 1, path})
		}
		for _, k := range v.MapKeys() {
			out = regions(out, fmt.Sprintf("%s[%v]", path, k), v.MapIndex(k))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			out = regions(out, path+"."+v.Type().Field(i).Name, v.Field(i))
		}
	}
	return out
}

// shared finds two parts of values that share memory.
func shared(vs ...interface{}) string {
	var out []region
	for i, v := range vs {
		out = regions(out, fmt.Sprintf("value %d", i+1), reflect.ValueOf(v))
	}
	sort.Sort(byAddress(out))
	for i := 1; i < len(out); i++ {
		if out[i].a < out[i-1].b {
			return out[i-1].path + " and " + out[i].path
		}
	}
	return ""
}

type byAddress []region

func (r byAddress) Len() int           { return len(r) }
func (r byAddress) Less(i, j int) bool { return r[i].a < r[j].a }
func (r byAddress) Swap(i, j int)      { r[i], r[j] = r[j], r[i] }

// scribble overwrites everything that the holder of a value can write to.
func scribble(v reflect.Value) {
	if !v.IsValid() {
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		scribble(v.Elem())
	case reflect.Ptr:
		if !v.IsNil() && v.Type() != reflect.TypeOf(time.UTC) {
			scribble(v.Elem())
			v.Elem().Set(reflect.Zero(v.Type().Elem()))
		}
	case reflect.Slice:
		w := v.Slice(0, v.Cap())
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
		for i := 0; i < w.Len(); i++ {
			if e := w.Index(i); e.Kind() == reflect.Interface && e.NumMethod() == 0 {
				e.Set(reflect.ValueOf(stray))
			} else if e.Kind() == reflect.Uint8 {
				e.SetUint(0xee)
			} else {
				e.Set(reflect.Zero(e.Type()))
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k))
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
		if v.Type().Key().Kind() == reflect.String {
			v.SetMapIndex(reflect.ValueOf(stray).Convert(v.Type().Key()), reflect.Zero(v.Type().Elem()))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scribble(v.Field(i))
			}
		}
	}
}

// encodeUntouched encodes a value in every way and judges that it stays as it is.
func encodeUntouched(x *mc.X, ver int, v val, chunk uint16) {
	p := protoOf(x, ver)
	g := roomy(v.g)
	before := fingerprint(g)
	same := func(what string) {
		if after := fingerprint(g); after != before {
			x.Fail("argument-changed", "v%d: %s (chunk size %d) changes the %s it is given from\n%s\nto\n%s", ver, what, chunk, v.name, clip(before), clip(after))
		}
	}
	b1, err1 := p.Marshal(g)
	same("Marshal")
	keep := string(b1)
	var w bytes.Buffer
	e := p.NewEncoder(&w, chunk)
	err := e.Encode(g)
	same("Encode")
	// an encoder that fails while it writes
	for _, n := range []int{0, 1, 3} {
		p.NewEncoder(&failAfter{n: n}, chunk).Encode(g)
		same(fmt.Sprintf("Encode to a writer that fails after %d bytes", n))
	}
	x.Check((err1 == nil) == (err == nil), "uneven", "v%d: Marshal(%s): %v, Encode: %v", ver, v.name, err1, err)
	if err1 != nil {
		return
	}
	stream := w.String()
	// what was returned belongs to the caller
	b2, _ := p.Marshal(g)
	x.Check(string(b1) == keep, "bytes-change", "v%d: a second Marshal of %s turns the bytes of the first one into %s", ver, v.name, hexs(b1))
	if s := shared(b1, b2); s != "" {
		x.Fail("bytes-shared", "v%d: two calls of Marshal(%s) return overlapping bytes", ver, v.name)
	}
	scribble(reflect.ValueOf(b1))
	same("Marshal, whose bytes are overwritten,")
	b3, err := p.Marshal(g)
	x.Check(err == nil && len(b3) == len(keep), "bytes-reused", "v%d: overwriting what Marshal(%s) returned changes the next one to %s (%v)", ver, v.name, hexs(b3), err)
	got, err := unwrap(b3)
	x.Check(err == nil && ps.Equal(got, v.e), "bytes-reused", "v%d: overwriting what Marshal(%s) returned changes the next one to %s", ver, v.name, hexs(b3))
	// nothing is kept: what the caller does to it later is not seen
	scribble(reflect.ValueOf(g))
	x.Check(w.String() == stream, "stream-changes", "v%d: the encoded %s changes with the value", ver, v.name)
	err = e.Encode("next")
	x.Check(err == nil, "next-message", "v%d: after %s the encoder refuses the next message: %v", ver, v.name, err)
	tail := w.Bytes()[len(stream):]
	got, err = unwrap(tail)
	x.Check(err == nil && ps.Equal(got, "next"), "next-message", "v%d: after %s, which the caller has changed, the next message is %s", ver, v.name, hexs(tail))
}

// unwrap is the value of a stream of one message.
func unwrap(b []byte) (interface{}, error) {
	ms, _, err := ps.Dechunk(b)
	if err != nil {
		return nil, err
	}
	if len(ms) != 1 {
		return nil, fmt.Errorf("%d messages", len(ms))
	}
	return ps.Decode(ms[0])
}

type failAfter struct{ n int }

func (w *failAfter) Write(p []byte) (int, error) {
	if len(p) > w.n {
		n := w.n
		w.n = 0
		return n, io.ErrClosedPipe
	}
	w.n -= len(p)
	return len(p), nil
}

func clip(s string) string {
	if len(s) > 600 {
		return s[:600] + "..."
	}
	return s
}

// decodeOwned decodes the bytes and judges that the caller has the value for itself.
func decodeOwned(x *mc.X, ver int, name string, want interface{}, msg []byte) {
	p := protoOf(x, ver)
	raw := msg
	msg = ps.Chunk(raw, 60000)
	is := func(what string, got interface{}) {
		g, err := toPS(got)
		x.Check(err == nil && ps.Equal(g, want), "value-changes", "v%d: %s %s to %s (%v)", ver, what, name, ps.String(g), err)
	}
	in := append(make([]byte, 0, len(msg)+8), msg...)
	got, err := p.Unmarshal(in)
	x.Check(err == nil, "rejected", "v%d: Unmarshal(%s): %v", ver, name, err)
	x.Check(bytes.Equal(in, msg), "input-changed", "v%d: Unmarshal of %s changes the bytes it is given to %s", ver, name, hexs(in))
	for i := range in[:cap(in)] {
		in[:cap(in)][i] = 0xc3
	}
	is("overwriting the bytes it was decoded from changes", got)
	if s := shared(got); s != "" {
		x.Fail("parts-shared", "v%d: in the decoded %s, %s share memory", ver, name, s)
	}
	other, err := p.Unmarshal(msg)
	x.Check(err == nil, "rejected", "v%d: Unmarshal(%s) again: %v", ver, name, err)
	if s := shared(got, other); s != "" {
		x.Fail("values-shared", "v%d: two decodings of %s share memory: %s", ver, name, s)
	}
	scribble(reflect.ValueOf(got))
	is("changing one decoded value changes another decoding of", other)
	again, err := p.Unmarshal(msg)
	x.Check(err == nil, "rejected", "v%d: Unmarshal(%s) after the value was changed: %v", ver, name, err)
	is("changing what was decoded changes the next decoding of", again)

	// the same in a stream
	var stream []byte
	frame := func(b []byte) { stream = append(stream, ps.Chunk(b, 5000)...) }
	noise := ps.Encode(anys(strings.Repeat("\x7f", len(raw)+3), m{"": anys()}))
	frame(raw)
	frame(noise)
	frame(raw)
	frame(raw)
	d := p.NewDecoder(&reader{b: stream, err: io.EOF})
	var vs []interface{}
	for i := 0; i < 4; i++ {
		v, err := d.Decode()
		x.Check(err == nil, "rejected", "v%d: Decode(%s): %v", ver, name, err)
		vs = append(vs, v)
		if i > 0 {
			is("decoding the next message changes", vs[0])
		} else {
			is("decoding gives", vs[0])
		}
		if i == 2 {
			is("decoding gives", v)
			scribble(reflect.ValueOf(v))
			is("changing the third value changes the first,", vs[0])
		}
	}
	is("changing the value before changes the fourth,", vs[3])
	if s := shared(vs...); s != "" {
		x.Fail("values-shared", "v%d: messages of one stream share memory: %s of %s", ver, s, name)
	}
}

// params of the caller, with everything that can be sent
func callerParams(k int) connection.QueryParams {
	switch k {
	case 0:
		return connection.QueryParams{}
	case 1:
		return connection.QueryParams{"a": int64(1), "l": anys(int64(1), "x", anys(nil), m{}), "m": m{"k": anys(m{"z": 1.5})}}
	case 2:
		return connection.QueryParams{"ints": []int{1, -200, 70000}, "strs": []string{"b", "a", ""}, "maps": []map[string]interface{}{{"x": int8(3)}, {}}, "f": []float32{0.5},
			"i8": int8(-5), "u": uint16(7), "f32": float32(2.5), "n": nil, "big": strings.Repeat("b", 300)}
	}
	return richParams(0).(map[string]interface{})
}

func paramsOnWire(k int) m {
	if k == 2 {
		return m{"ints": anys(int64(1), int64(-200), int64(70000)), "strs": anys("b", "a", ""), "maps": anys(m{"x": int64(3)}, m{}), "f": anys(0.5),
			"i8": int64(-5), "u": int64(7), "f32": 2.5, "n": nil, "big": strings.Repeat("b", 300)}
	}
	return callerParams(k)
}

// calls that are given parameters; the statement ends with the token
var paramCalls = []struct {
	name string
	fail bool
	text string
	do   func(h *hist, text string, p connection.QueryParams) ([][]interface{}, connection.IResult, error)
}{
	{"a query", false, "ECHO ", func(h *hist, text string, p connection.QueryParams) ([][]interface{}, connection.IResult, error) {
		return h.conn.Query(text, p)
	}},
	{"a statement", false, "W ", func(h *hist, text string, p connection.QueryParams) ([][]interface{}, connection.IResult, error) {
		res, err := h.conn.Exec(text, p)
		return nil, res, err
	}},
	{"a failing query", true, "FAIL Neo.ClientError.", func(h *hist, text string, p connection.QueryParams) ([][]interface{}, connection.IResult, error) {
		return h.conn.Query(text, p)
	}},
	{"a query failing late", true, "FAILPULL 1 Neo.ClientError.X ", func(h *hist, text string, p connection.QueryParams) ([][]interface{}, connection.IResult, error) {
		return h.conn.Query(text, p)
	}},
	{"a query in a transaction", false, "ECHO ", func(h *hist, text string, p connection.QueryParams) ([][]interface{}, connection.IResult, error) {
		tx, err := h.conn.Begin()
		if err != nil {
			return nil, nil, err
		}
		rows, res, err := tx.Query(text, p)
		if err != nil {
			return nil, nil, err
		}
		return rows, res, tx.Commit()
	}},
	{"a statement in a transaction", false, "W ", func(h *hist, text string, p connection.QueryParams) ([][]interface{}, connection.IResult, error) {
		tx, err := h.conn.Begin()
		if err != nil {
			return nil, nil, err
		}
		res, err := tx.Exec(text, p)
		if err != nil {
			return nil, nil, err
		}
		return nil, res, tx.Rollback()
	}},
}

// sharedParams: one map of parameters for several calls, changed by the caller in between.
func sharedParams(ver int) mc.Scenario {
	return mc.Scenario{ID: fmt.Sprintf("v%d/params", ver), Preempt: 0, Body: func(x *mc.X) {
		h := newHist(x, "C06", ver, planNone)
		if !h.open() {
			return
		}
		h.conn.SetChunkSize([]uint16{math.MaxUint16, 5}[x.Choose(2, "chunk size")])
		k := x.Choose(4, "parameters")
		params := roomy(callerParams(k)).(connection.QueryParams)
		want := paramsOnWire(k)
		var kept []func()
		for i := 0; i < 3; i++ {
			c := paramCalls[x.Choose(len(paramCalls), "call")]
			text := fmt.Sprintf("%st%d", c.text, i)
			before := fingerprint(params)
			rows, res, err := c.do(h, text, params)
			if after := fingerprint(params); after != before {
				x.Fail("params-changed", "v%d: %s (call %d) changes its parameters from\n%s\nto\n%s", ver, c.name, i+1, clip(before), clip(after))
			}
			x.Check((err != nil) == c.fail, "outcome", "v%d: %s: %v", ver, c.name, err)
			var r *boltsrv.Req
			rt.Do(func() { _, r = h.srv.Find(text) })
			x.Check(r != nil && ps.Equal(r.Fields[1], want), "wrong-parameters", "v%d: %s (call %d) sends %s instead of %s", ver, c.name, i+1, reqParams(r), ps.String(want))
			if s := shared(params, rows); s != "" {
				x.Fail("params-in-rows", "v%d: the rows of %s share memory with its parameters: %s", ver, c.name, s)
			}
			if c.text == "ECHO " {
				is := [][]interface{}{{r.UID, want, int64(0)}}
				x.Check(ps.Equal(psRows(rows), psRows(is)), "wrong-rows", "v%d: %s returns %s instead of %s", ver, c.name, ps.String(psRows(rows)), ps.String(psRows(is)))
				rows := rows
				kept = append(kept, func() {
					x.Check(ps.Equal(psRows(rows), psRows(is)), "rows-change", "v%d: the rows of call %d become %s", ver, i+1, ps.String(psRows(rows)))
				})
			}
			if res != nil && !reflect.ValueOf(res).IsNil() {
				if s := shared(params, res.Metadata()); s != "" {
					x.Fail("params-in-summary", "v%d: the summary of %s shares memory with its parameters", ver, c.name)
				}
			}
			// the caller changes them
			switch x.Choose(3, "change") {
			case 1:
				nw := m{}
				for k, v := range want {
					nw[k] = v
				}
				params["a"], nw["a"] = int64(i)+7, int64(i)+7
				params["new"], nw["new"] = anys(stray), anys(stray)
				want = nw
			case 2:
				for k := range params {
					delete(params, k)
				}
				params["only"] = "this"
				want = m{"only": "this"}
			}
			for _, f := range kept {
				f()
			}
		}
		before := fingerprint(params)
		h.conn.Close()
		x.Check(fingerprint(params) == before, "params-changed", "v%d: closing the connection changes the parameters of an earlier call", ver)
	}}
}

func reqParams(r *boltsrv.Req) string {
	if r == nil {
		return "nothing"
	}
	return ps.String(r.Fields[1])
}

func psRows(rows [][]interface{}) []interface{} {
	l := make([]interface{}, len(rows))
	for i, r := range rows {
		c := make([]interface{}, len(r))
		for j := range r {
			v, err := toPS(r[j])
			if err != nil {
				v = err.Error()
			}
			c[j] = v
		}
		l[i] = c
	}
	return l
}

func graphRows(uid, tok string) [][]interface{} {
	a := ps.S('N', int64(1), anys("A", tok), m{"uid": uid, "l": anys(int64(1), anys())})
	b := ps.S('N', int64(2), anys(), m{})
	p := ps.S('P', anys(a, b), anys(ps.S('r', int64(3), "T", m{"m": m{}})), anys(int64(1), int64(1)))
	return [][]interface{}{{a, b, a}, {p}, {ps.S('R', int64(3), int64(1), int64(2), "T", m{}), anys(a, p), m{"x": b, "y": b}}, {a, p}}
}

// ownRows: what a query returns belongs to the caller, who changes it; nothing else changes.
func ownRows(ver int) mc.Scenario {
	type kind struct {
		text string
		rows func(uid, tok string) [][]interface{}
	}
	kinds := []kind{
		{"RETURN 0 %s", func(uid, tok string) [][]interface{} { return rowsFor(uid, tok, 0) }},
		{"RETURN 3 %s", func(uid, tok string) [][]interface{} { return rowsFor(uid, tok, 3) }},
		{"GRAPH %s", graphRows},
	}
	for k := 0; k < boltsrv.NShapes; k++ {
		k := k
		kinds = append(kinds, kind{fmt.Sprintf("SHAPES %d %%s", k), func(uid, tok string) [][]interface{} { return boltsrv.Shapes(k, uid, tok) }})
	}
	return mc.Scenario{ID: fmt.Sprintf("v%d/results", ver), Preempt: 0, Body: func(x *mc.X) {
		h := newHist(x, "C06", ver, planNone)
		if !h.open() {
			return
		}
		h.srv.SumMeta = func(m map[string]interface{}) map[string]interface{} {
			m["stats"] = map[string]interface{}{"nodes-created": int64(1), "x": []interface{}{int64(1)}}
			m["plan"] = map[string]interface{}{"args": map[string]interface{}{}, "children": []interface{}{map[string]interface{}{"l": []interface{}{}}}}
			return m
		}
		h.srv.Custom = func(_ *boltsrv.Session, r *boltsrv.Req, query string) ([][]interface{}, bool) {
			if w := strings.Fields(query); w[0] == "GRAPH" {
				return graphRows(r.UID, w[1]), true
			}
			return nil, false
		}
		first, second := kinds[x.Choose(len(kinds), "query")], kinds[x.Choose(len(kinds), "query")]
		mode := x.Choose(3, "what is changed")
		fin := x.Choose(3, "in between")
		type result struct {
			rows [][]interface{}
			md   map[string]interface{}
			want []interface{}
			what string
			mds  string
		}
		var all []result
		run := func(k kind) {
			tok := fmt.Sprintf("t%d", len(all))
			text := fmt.Sprintf(k.text, tok)
			rows, res, err := h.conn.Query(text, nil)
			if err != nil {
				x.Fail("outcome", "v%d: %s: %s", ver, text, short(err))
			}
			var r *boltsrv.Req
			rt.Do(func() { _, r = h.srv.Find(text) })
			want := psRowsPS(k.rows(r.UID, tok))
			got := psRows(rows)
			x.Check(ps.Equal(got, want), "wrong-rows", "v%d: %s (query %d) returns %s instead of %s", ver, text, len(all)+1, ps.String(got), ps.String(want))
			md := res.Metadata()
			x.Check(md["uid"] == r.UID, "wrong-summary", "v%d: %s (query %d) has the summary %v", ver, text, len(all)+1, md)
			c, cok := res.GetNodesCreated()
			x.Check(c == 1 && cok, "wrong-summary", "v%d: %s (query %d) has created %v %v nodes", ver, text, len(all)+1, c, cok)
			all = append(all, result{rows, md, want, text, ps.String(md)})
			var vs []interface{}
			for _, a := range all {
				vs = append(vs, a.rows, a.md)
			}
			if s := shared(vs...); s != "" {
				x.Fail("results-shared", "v%d: results share memory: %s of %v (values are rows and summary of each in turn)", ver, s, texts(len(all), func(i int) string { return all[i].what }))
			}
		}
		check := func(from int, what string) {
			for _, a := range all[from:] {
				x.Check(ps.Equal(psRows(a.rows), a.want), "rows-change", "v%d: %s turns the rows of %s into %s", ver, what, a.what, ps.String(psRows(a.rows)))
				x.Check(ps.String(a.md) == a.mds, "summary-changes", "v%d: %s turns the summary of %s into %s", ver, what, a.what, ps.String(a.md))
			}
		}
		run(first)
		run(second)
		check(0, "a later query")
		switch mode {
		case 0:
			scribble(reflect.ValueOf(all[0].rows))
			scribble(reflect.ValueOf(all[0].md))
		case 1:
			scribble(reflect.ValueOf(all[0].rows))
			x.Check(ps.String(all[0].md) == all[0].mds, "summary-changes", "v%d: changing the rows changes the summary", ver)
			scribble(reflect.ValueOf(all[0].md))
		case 2:
			scribble(reflect.ValueOf(all[0].md))
			x.Check(ps.Equal(psRows(all[0].rows), all[0].want), "rows-change", "v%d: changing the summary changes the rows", ver)
		}
		check(1, "changing the first result")
		switch fin {
		case 1:
			h.conn.Query("FAIL Neo.ClientError.X", nil)
		case 2:
			h.conn.MakeIdle()
		}
		run(first)
		run(second)
		h.conn.Close()
		check(1, "closing the connection")
		x.Class("%d rows", len(all[0].want))
	}}
}

func psRowsPS(rows [][]interface{}) []interface{} {
	l := make([]interface{}, len(rows))
	for i, r := range rows {
		l[i] = r
	}
	return l
}

func texts(n int, f func(i int) string) []string {
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, f(i))
	}
	return out
}

// failures share nothing either
func ownFailures(ver int) mc.Scenario {
	return mc.Scenario{ID: fmt.Sprintf("v%d/failures", ver), Preempt: 0, Body: func(x *mc.X) {
		h := newHist(x, "C06", ver, planNone)
		if !h.open() {
			return
		}
		kinds := []string{"FAIL Neo.ClientError.A", "FAILPULL 1 Neo.ClientError.A t", "FAIL Neo.ClientError.B"}
		var mds []interface{}
		for i := 0; i < 3; i++ {
			_, _, err := h.conn.Query(kinds[x.Choose(len(kinds), "failure")], nil)
			f, ok := failureOf(err)
			x.Check(ok, "outcome", "v%d: %v", ver, err)
			code := f.GetCode()
			x.Check(strings.HasPrefix(code, "Neo.ClientError"), "failure-changed", "v%d: failure %d has the code %q", ver, i+1, code)
			mds = append(mds, f.Metadata)
			if s := shared(mds...); s != "" {
				x.Fail("failures-shared", "v%d: failures share memory: %s", ver, s)
			}
			if x.Bool("changed by the caller") {
				scribble(reflect.ValueOf(f.Metadata))
			}
		}
		h.conn.Close()
	}}
}

// sameParams: several goroutines with connections of their own are given the same parameters.
func sameParams(id string, ver, k int, names string, preempt int, race bool) mc.Scenario {
	return mc.Scenario{ID: id, Preempt: preempt, Race: race, IOYield: true, Body: func(x *mc.X) {
		h := newHist(x, "C06", ver, planNone)
		params := roomy(callerParams(k)).(connection.QueryParams)
		want := paramsOnWire(k)
		before := fingerprint(params)
		ns := strings.Fields(names)
		conns := make([]connection.IConnection, len(ns))
		for i := range ns {
			c, err := connection.CreateBoltConn(h.connStr())
			if err != nil {
				x.Fail("open-fails", "v%d: %s", ver, short(err))
			}
			conns[i] = c
		}
		for i, n := range ns {
			i, n := i, n
			x.Go(fmt.Sprintf("%s%d", n, i), func() {
				text := map[string]string{"Q": "ECHO ", "E": "W ", "F": "FAIL Neo.ClientError."}[n] + fmt.Sprintf("t%d", i)
				var err error
				var rows [][]interface{}
				if n == "E" {
					_, err = conns[i].Exec(text, params)
				} else {
					rows, _, err = conns[i].Query(text, params)
				}
				x.Check((err != nil) == (n == "F"), "outcome", "v%d: %s: %v", ver, text, err)
				same, sent := false, ""
				rt.Do(func() { // what the server has is only looked at here
					_, r := h.srv.Find(text)
					same, sent = r != nil && ps.Equal(r.Fields[1], want), reqParams(r)
				})
				x.Check(same, "wrong-parameters", "v%d: %s sends %s instead of %s", ver, text, sent, ps.String(want))
				if n == "Q" {
					x.Check(len(rows) == 1 && len(rows[0]) == 3 && ps.Equal(rows[0][1], want), "wrong-rows", "v%d: %s returns %v", ver, text, rows)
					scribble(reflect.ValueOf(rows))
				}
			})
		}
		x.Join()
		x.Check(fingerprint(params) == before, "params-changed", "v%d: the shared parameters are changed", ver)
		for _, c := range conns {
			c.Close()
		}
	}}
}

// sameValue: one value is encoded, and one message decoded, by several goroutines at once.
func sameValue(id string, ver int, vals []val, race bool) mc.Scenario {
	return mc.Scenario{ID: id, Preempt: 0, Race: race, Body: func(x *mc.X) {
		v := vals[x.Range(len(vals), "value")]
		p := protoOf(x, ver)
		g := roomy(v.g)
		msg := []byte(nil)
		if !v.bad {
			msg = ps.Chunk(ps.Encode(v.e), 60000)
		}
		for i := 0; i < 2; i++ {
			x.Go(fmt.Sprintf("g%d", i), func() {
				b, err := p.Marshal(g)
				rt.Gosched()
				x.Check((err != nil) == v.bad, "outcome", "v%d: Marshal(%s): %v", ver, v.name, err)
				var w bytes.Buffer
				p.NewEncoder(&w, 5).Encode(g)
				if v.bad {
					return
				}
				got, err := unwrap(b)
				x.Check(err == nil && ps.Equal(got, v.e), "wrong-bytes", "v%d: Marshal(%s) gives %s", ver, v.name, hexs(b))
				scribble(reflect.ValueOf(b))
				if v.fwd || strings.HasPrefix(v.name, "temporal ") {
					return
				}
				d, err := p.Unmarshal(msg)
				x.Check(err == nil, "rejected", "v%d: Unmarshal(%s): %v", ver, v.name, err)
				rt.Gosched()
				q, err := toPS(d)
				x.Check(err == nil && ps.Equal(q, v.e), "wrong-value", "v%d: Unmarshal(%s) gives %s", ver, v.name, ps.String(q))
				scribble(reflect.ValueOf(d))
			})
		}
		x.Join()
	}}
}

func temporalValues() []val {
	z := time.FixedZone("", 5*3600+1800)
	t := time.Date(2020, 2, 29, 13, 14, 15, 16, z)
	nanos := clockNanos(13, 14, 15, 16)
	day := daysFromCivil(2020, 2, 29)
	v := func(name string, g, e interface{}) val { return val{name: "temporal " + name, g: g, e: e, v2: true} }
	return []val{
		v("date", gotime.NewDate(2020, 2, 29), ps.S('D', day)),
		v("local clock", gotime.NewLocalClock(13, 14, 15, 16), ps.S('t', nanos)),
		v("clock", gotime.NewClock(13, 14, 15, 16, z), ps.S('T', nanos, int64(5*3600+1800))),
		v("local time", gotime.NewLocalTimeFromTime(time.Date(2020, 2, 29, 13, 14, 15, 16, time.Local)), ps.S('d', day*86400+nanos/1e9, int64(16))),
		v("time", t, ps.S('F', day*86400+nanos/1e9, int64(16), int64(5*3600+1800))),
		v("duration", 90*time.Second+5, ps.S('E', int64(0), int64(0), int64(90), int64(5))),
	}
}

func c06(tier string) []mc.Scenario {
	leaf := append(append(append(leaves(), typedSlices()...), graphValues()...), pointValues()...)
	leaf = append(leaf, messageValues()...)
	leaf = append(leaf, refused()...)
	small := append(append(leaves(), refused()...), typedSlices()...)
	vals := serverValues()
	temporal := temporalValues()
	var out []mc.Scenario
	for ver := 1; ver <= 4; ver++ {
		ver := ver
		name := func(s string) string { return fmt.Sprintf("v%d/%s", ver, s) }
		out = append(out, plain(name("encode"), func(x *mc.X) {
			vs := leaf
			if ver > 1 {
				vs = append(append([]val{}, leaf...), temporal...)
			}
			v := vs[x.Range(len(vs), "value")]
			if v.v2 && ver < 2 {
				return
			}
			if k := x.Choose(len(wraps)+1, "in"); k > 0 && !v.fwd {
				v = wrap(k-1, v)
			} else if k > 0 {
				return
			}
			encodeUntouched(x, ver, v, chunkSizes[2*x.Choose(2, "chunk size")])
		}))
		out = append(out, plain(name("encode nested"), func(x *mc.X) {
			v := wrap(x.Choose(len(wraps)-3, "in"), small[x.Range(len(small), "leaf")])
			encodeUntouched(x, ver, wrap(x.Choose(len(wraps), "in"), v), math.MaxUint16)
		}))
		out = append(out, plain(name("decode"), func(x *mc.X) {
			v := vals[x.Range(len(vals), "value")]
			if v.v2 && ver < 2 {
				return
			}
			switch x.Choose(5, "in") {
			case 1:
				v.e = anys(v.e, int64(7), v.e)
			case 2:
				v.e = m{"k": v.e, "l": "x", "m": v.e}
			case 3:
				v.e = ps.S('N', int64(1), anys("L"), m{"p": v.e, "q": v.e})
			case 4:
				v.e = ps.S(0x71, anys(v.e, anys(v.e), m{"": v.e}))
			}
			decodeOwned(x, ver, v.name, v.e, ps.EncodeForm(v.e, allForms(x.Choose(3, "form"))))
		}))
		out = append(out, sharedParams(ver), ownRows(ver), ownFailures(ver))
	}
	pre := 1
	if tier == "thorough" {
		pre = 2
	}
	for _, ver := range []int{1, 2, 3, 4} {
		for _, mix := range []string{"Q Q", "Q E", "Q F"} {
			for k := 1; k < 4; k++ {
				out = append(out, sameParams(fmt.Sprintf("v%d/same %s/%d/preempt%d", ver, strings.ReplaceAll(mix, " ", "+"), k, pre), ver, k, mix, pre, false))
			}
		}
	}
	for _, ver := range []int{1, 4} {
		for k := 1; k < 4; k++ {
			out = append(out, sameParams(fmt.Sprintf("race/v%d/same Q+E/%d", ver, k), ver, k, "Q E", pre-1, true))
		}
	}
	for _, ver := range []int{1, 2} {
		vs := append(append([]val{}, leaf...), graphValues()...)
		if ver > 1 {
			vs = append(vs, temporal...)
		} else {
			var l []val
			for _, v := range vs {
				if !v.v2 {
					l = append(l, v)
				}
			}
			vs = l
		}
		for i := range wraps {
			vs = append(vs, wrap(i, ok("list", anys(int64(1), "x", m{"k": anys()}), anys(int64(1), "x", m{"k": anys()}))))
		}
		out = append(out, sameValue(fmt.Sprintf("race/v%d/values", ver), ver, vs, true))
	}
	return out
}

func init() {
	register(&mc.Check{Property: "C06", Scenarios: c06,
		Bounds:      "",
		Assumptions: []string{}})
}
