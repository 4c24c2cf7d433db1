package check

import (
	"bytes"
	"fmt"
	l "log"
	"os"
	"runtime"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verif/gen/bolt/encoding/encoding_v1"
	"verif/gen/bolt/encoding/encoding_v2"
	"verif/gen/bolt/log"
	"verif/gen/bolt/structures/graph"
	"verif/gen/bolt/structures/messages"
	"verif/mc"
)

// capture redirects standard output and standard error to files in memory while f runs.
type capture struct {
	fd    [2]int // memory files
	saved [2]int
}

func newCapture() *capture {
	c := &capture{}
	for i := range c.fd {
		name := [...]string{"stdout\x00", "stderr\x00"}[i]
		c.fd[i] = memfd(name)
		s, err := syscall.Dup(i + 1)
		if err != nil {
			panic(err)
		}
		c.saved[i] = s
	}
	return c
}

var capt *capture

// silent runs f with both streams captured and returns what was written.
func silent(f func()) (string, string) {
	if capt == nil {
		capt = newCapture()
	}
	c := capt
	for i := range c.fd {
		syscall.Ftruncate(c.fd[i], 0)
		syscall.Seek(c.fd[i], 0, 0)
		syscall.Dup3(c.fd[i], i+1, 0)
	}
	defer func() {
		for i := range c.fd {
			syscall.Dup3(c.saved[i], i+1, 0)
		}
	}()
	f()
	return c.text(0), c.text(1)
}

func (c *capture) text(i int) string {
	var st syscall.Stat_t
	syscall.Fstat(c.fd[i], &st)
	if st.Size == 0 {
		return ""
	}
	if st.Size > 2000 {
		st.Size = 2000
	}
	b := make([]byte, st.Size)
	n, _ := syscall.Pread(c.fd[i], b, 0)
	if n < 0 {
		n = 0
	}
	return string(b[:n])
}

type sinks struct {
	buf [4]bytes.Buffer // error, info, trace, bytes
}

func (s *sinks) install() {
	log.ErrorLog = l.New(&s.buf[0], "E", 0)
	log.InfoLog = l.New(&s.buf[1], "I", 0)
	log.TraceLog = l.New(&s.buf[2], "T", 0)
	log.TraceBytesLog = l.New(&s.buf[3], "B", 0)
}

var originals = [4]*l.Logger{log.ErrorLog, log.InfoLog, log.TraceLog, log.TraceBytesLog}

func restoreLogs() {
	log.ErrorLog, log.InfoLog, log.TraceLog, log.TraceBytesLog = originals[0], originals[1], originals[2], originals[3]
	log.SetLevel("")
}

var (
	levelNames = []string{"", "error", "info", "trace", "trace-bytes"}
	sinkNames  = []string{"error", "info", "trace", "trace-bytes"}
)

// hushed is a scenario's body run with logging at each level: nothing may reach the standard
// streams, and nothing the loggers of levels that are off.
func hushed(sc mc.Scenario, levels []int) mc.Scenario {
	body := sc.Body
	sc.Body = func(x *mc.X) {
		lv := levels[x.Choose(len(levels), "level")]
		var s sinks
		restoreLogs()
		if lv > 0 {
			s.install()
			log.SetLevel(levelNames[lv])
		}
		var o, e string
		o, e = silent(func() {
			defer func() {
				// what else is wrong is the business of other checks
				switch r := recover().(type) {
				case nil:
				case mc.Failure, runtime.Error:
				default:
					panic(r)
				}
			}()
			x.Mute(true)
			body(x)
		})
		x.Mute(false)
		restoreLogs()
		x.Check(o == "", "stdout", "logging level %q: written to standard output: %q", levelNames[lv], o)
		x.Check(e == "", "stderr", "logging level %q: written to standard error: %q", levelNames[lv], e)
		for i := range s.buf {
			x.Check(i < lv || s.buf[i].Len() == 0, "level", "logging level %q: the %s logger gets %.300q", levelNames[lv], sinkNames[i], s.buf[i].String())
		}
	}
	return sc
}

// atLevel runs f with logging at a level, into buffers.
func atLevel(lv int, f func()) {
	var s sinks
	restoreLogs()
	if lv > 0 {
		s.install()
		log.SetLevel(levelNames[lv])
	}
	defer restoreLogs()
	f()
}

// neutralCodec compares what encoders and decoders do at each level with what they do without logging.
func neutralCodec() mc.Scenario {
	vals := []interface{}{nil, true, int64(1), int64(1) << 40, 1.5, "", "text", strings.Repeat("long", 100), strings.Repeat("x", 70000),
		anys(), anys(int64(1), "a", anys(nil)), map[string]interface{}{"k": anys("v")}, messages.NewRunMessage("RETURN 1", map[string]interface{}{"a": "%s%d"}),
		messages.NewResetMessage(), graph.Node{NodeIdentity: 1, Labels: []string{"L"}, Properties: map[string]interface{}{"p": int64(1)}}, struct{ A int }{1}, anys("before", struct{}{})}
	raw := [][]byte{{}, {0}, {0, 0}, {0, 1, 0xc3, 0, 0}, {0, 1, 0xdf, 0, 0}, {0, 2, 0xb1, 0x55, 0, 0}, {0, 2, 0x93, 1, 0, 0}, {0, 1, 0x81, 0, 1, 'a', 0, 0}, {0xff, 0xff, 1}, {0, 0, 0, 0, 0, 1, 5, 0, 0}}
	enc := func(gen, chunk int, v interface{}) string {
		var b bytes.Buffer
		var err error
		if gen == 1 {
			err = encoding_v1.NewEncoder(&b, uint16(chunk)).Encode(v)
		} else {
			err = encoding_v2.NewEncoder(&b, uint16(chunk)).Encode(v)
		}
		var m []byte
		if gen == 1 {
			m, _ = encoding_v1.Marshal(v)
		} else {
			m, _ = encoding_v2.Marshal(v)
		}
		return fmt.Sprintf("% x, %v, % x", b.Bytes(), err != nil, m)
	}
	dec := func(gen int, b []byte) string {
		var v interface{}
		var err error
		if gen == 1 {
			v, err = encoding_v1.Unmarshal(b)
		} else {
			v, err = encoding_v2.Unmarshal(b)
		}
		if err != nil {
			return "error"
		}
		return fmt.Sprintf("%#v", v)
	}
	return plain("neutral/codec", func(x *mc.X) {
		gen, lv := 1+x.Choose(2, "generation"), 1+x.Choose(4, "level")
		var got, want, what string
		if k := x.Choose(len(vals)+len(raw), "value"); k < len(vals) {
			chunk := []int{0, 7, 65535}[x.Choose(3, "chunk size")]
			what = fmt.Sprintf("encoding %.60T", vals[k])
			atLevel(0, func() { want = enc(gen, chunk, vals[k]) })
			atLevel(lv, func() { got = enc(gen, chunk, vals[k]) })
		} else {
			b := raw[k-len(vals)]
			what = fmt.Sprintf("decoding % x", b)
			atLevel(0, func() { want = dec(gen, b) })
			atLevel(lv, func() { got = dec(gen, b) })
		}
		x.Check(got == want, "level-changes", "generation %d, logging level %q: %s gives %.300s instead of %.300s", gen, levelNames[lv], what, got, want)
		x.Class("%s", what)
	})
}

// neutralConn does so with calls on a connection.
func neutralConn(ver int) mc.Scenario {
	return mc.Scenario{ID: fmt.Sprintf("v%d/neutral", ver), Horizon: time.Hour, Body: func(x *mc.X) {
		s := soloScripts[x.Choose(len(soloScripts), "calls")]
		lv := 1 + x.Choose(4, "level")
		var got, want []string
		atLevel(0, func() { want = alone([]int{ver}, 0, strings.Fields(s), true) })
		atLevel(lv, func() { got = alone([]int{ver}, 0, strings.Fields(s), true) })
		for i := 0; i < len(want) || i < len(got); i++ {
			g, w := "nothing", "nothing"
			if i < len(got) {
				g = got[i]
			}
			if i < len(want) {
				w = want[i]
			}
			x.Check(g == w, "level-changes", "v%d, logging level %q, calls %s: %.400s\ninstead of: %.400s", ver, levelNames[lv], s, g, w)
		}
		x.Class("%s", s)
	}}
}

func c51(tier string) []mc.Scenario {
	var out []mc.Scenario
	type fn struct {
		name string
		sink int
		call func(tok string)
		want string
	}
	fns := []fn{
		{"Error", 0, func(t string) { log.Error(t, 1) }, "%s 1"},
		{"Errorf", 0, func(t string) { log.Errorf("<%s>%d", t, 2) }, "<%s>2"},
		{"Info", 1, func(t string) { log.Info(t, 1) }, "%s 1"},
		{"Infof", 1, func(t string) { log.Infof("<%s>%d", t, 2) }, "<%s>2"},
		{"Trace", 2, func(t string) { log.Trace(t, 1) }, "%s 1"},
		{"Tracef", 2, func(t string) { log.Tracef("<%s>%d", t, 2) }, "<%s>2"},
		{"TraceBytes", 3, func(t string) { log.TraceBytes([]byte(t)) }, "%s"},
		{"TraceBytesFromBuf", 3, func(t string) { log.TraceBytesFromBuf(bytes.NewBufferString(t)) }, "%s"},
		{"TraceBytesFromBuf(nil)", 3, func(t string) { log.TraceBytesFromBuf(nil) }, ""},
	}
	spell := []struct {
		s  string
		lv int
	}{{"", 0}, {"none", 0}, {"nonsense", 0}, {"error", 1}, {"ERROR", 1}, {"Error", 1}, {"info", 2}, {"INFO", 2}, {"trace", 3}, {"Trace", 3}, {"trace-bytes", 4}, {"TRACE-BYTES", 4}}
	// which logger gets what at which level, whatever levels were set before
	logCase := func(x *mc.X, deflt bool) {
		restoreLogs()
		defer restoreLogs()
		var s sinks
		if !deflt {
			s.install()
		}
		lv := 0
		n := x.Choose(3, "levels set")
		set := "none"
		for i := 0; i < n; i++ {
			sp := spell[x.Choose(len(spell), "level")]
			lv = sp.lv
			set = fmt.Sprintf("%q", sp.s)
			log.SetLevel(sp.s)
		}
		x.Check(int(log.GetLevel()) == lv, "getlevel", "level set %s: GetLevel() = %d", set, log.GetLevel())
		var o, e string
		var want [4]string
		o, e = silent(func() {
			for i := 0; i < 2; i++ {
				f := fns[x.Choose(len(fns), "function")]
				tok := fmt.Sprintf("tok%d%%", i)
				f.call(tok)
				if f.sink < lv && f.want != "" {
					want[f.sink] += fmt.Sprintf(f.want, tok) + "\x00"
				}
			}
		})
		got := [4]string{}
		if deflt {
			// the default loggers: bytes to standard output, everything else to standard error
			x.Check(lv > 0 || o == "" && e == "", "default-silent", "level %s: %q to standard output, %q to standard error", set, o, e)
			x.Check(o == "" || want[3] != "", "default-stdout", "level %s: %q to standard output", set, o)
			x.Check(e == "" || want[0]+want[1]+want[2] != "", "default-stderr", "level %s: %q to standard error", set, e)
			got = [4]string{e, e, e, o}
		} else {
			x.Check(o == "" && e == "", "override", "level %s, all loggers replaced: %q to standard output, %q to standard error", set, o, e)
			for i := range s.buf {
				got[i] = s.buf[i].String()
				x.Check(want[i] != "" || got[i] == "", "wrong-logger", "level %s: the %s logger gets %q", set, sinkNames[i], got[i])
			}
		}
		for i := range want {
			for _, t := range strings.Split(want[i], "\x00") {
				x.Check(strings.Contains(got[i], t), "lost", "level %s: the %s logger gets %q without %q", set, sinkNames[i], got[i], t)
			}
		}
		x.Class("level %d", lv)
	}
	out = append(out,
		plain("log/replaced", func(x *mc.X) { logCase(x, false) }),
		plain("log/default", func(x *mc.X) { logCase(x, true) }))

	out = append(out, neutralCodec())
	for ver := 1; ver <= 4; ver++ {
		out = append(out, neutralConn(ver))
	}
	// the codecs
	lvls := []int{0, 1, 2, 3, 4}
	for _, src := range []struct {
		name string
		f    func(string) []mc.Scenario
		pick []string
	}{
		{"C01", c01, []string{"/values", "/nested1"}},
		{"C02", c02, []string{"v1/forms", "v2/forms", "roundtrip"}},
		{"C04", c04, []string{"fields", "prefixes", "corruptions"}},
		{"C05", c05, []string{"/UTC/"}},
	} {
		for _, s := range src.f("quick") {
			ok := false
			for _, p := range src.pick {
				ok = ok || strings.Contains(s.ID, p)
			}
			if !ok {
				continue
			}
			s.ID = src.name + "/" + s.ID
			out = append(out, hushed(s, []int{0}))
		}
	}
	// connections
	d := 1
	if tier == "thorough" {
		d = 2
	}
	for ver := 1; ver <= 4; ver++ {
		h := func(name, al string, depth, faults int, plan faultPlan, levels []int) {
			out = append(out, hushed(histScenario(fmt.Sprintf("v%d/%s", ver, name), "C51", ver, al, depth, faults, plan, nil), levels))
		}
		h("calls", alAll, 1+d, 1, planAll, []int{0})
		h("levels", alDeep, d, 1, planAll, lvls)
		h("failures", "Q1 F b tE tF c r", 2, 2, planFail, []int{0})
		out = append(out, hushed(openScenario(fmt.Sprintf("v%d/open", ver), "C51", ver, openCases("quick"), []int{0}), lvls))
		// the pools
		q := func(sc mc.Scenario, levels []int) {
			sc.ID = fmt.Sprintf("v%d/%s", ver, sc.ID)
			out = append(out, hushed(sc, levels))
		}
		q(poolHistory("pool", "C51", ver, 1, 3+d, 0, "rxqfbBkKSz", outages), []int{0})
		q(poolHistory("pool/faults", "C51", ver, 2, 2+d, 1, "rbBf", nil), lvls)
		q(startScenario("start", ver, 2, 1, "C51"), []int{0})
		q(startScenario("start/levels", ver, 3, 0, "C51"), lvls)
		q(routedHistory("routed pool", "C51", ver, 2, 2+d, 0, "wrid01234m", "rxbfk"), []int{0})
		q(routedHistory("routed pool/faults", "C51", ver, 2, 1+d, 1, "wrfd1", "rbf"), lvls)
		q(stopHistory("stop", ver, 2, 2+d, 1, "wri", "rxbf", "C51"), []int{0, 2})
		q(restartHistory("restart", "C51", ver, 2, 2+d, true, "rbk"), []int{0, 3})
	}
	// larger pools
	for _, size := range []int{3, 4, 9} {
		q := func(id string, ver, n, depth int) {
			out = append(out, hushed(bulkHistory(fmt.Sprintf("v%d/size%d/%s", ver, size, id), "C51", ver, size, n, depth), []int{0}))
		}
		for _, ver := range []int{3, 4} {
			q("pool", ver, 0, 1+d)
			q("routed pool", ver, 3, 1+d)
			out = append(out, hushed(restartHistory(fmt.Sprintf("v%d/size%d/restart", ver, size), "C51", ver, size, 1+d, true, "r"), []int{0}))
		}
	}
	out = append(out, hushed(routedHistory("v4/weeks", "C51", 4, 2, 1, 0, "wY1", ""), []int{0}))
	for _, k := range []int{0, 1, 2} {
		out = append(out, hushed(configScenario(fmt.Sprintf("client/%s", kinds[k]), func(x *mc.X) config {
			c := config{kind: k, ver: 4, host: "db.example", port: 7687, user: usr, pass: "p%s%d"}
			c.via = x.Choose(len(vias), "via")
			c.noUser = (c.via == 1 || c.via > 2) && x.Bool("no user")
			return c
		}, false), lvls))
	}
	out = append(out, hushed(rejectedConfigs(), []int{0}))
	return out
}

func memfd(name string) int {
	b := []byte(name)
	fd, _, e := syscall.Syscall(319, bptr(b), 0, 0)
	if e != 0 {
		f, err := os.CreateTemp("", "verif")
		if err != nil {
			panic(err)
		}
		os.Remove(f.Name())
		d, _ := syscall.Dup(int(f.Fd()))
		f.Close()
		return d
	}
	return int(fd)
}

func init() {
	register(&mc.Check{Property: "C51", Scenarios: c51,
		Bounds:      "all sequences of up to 2 level settings from 12 spellings and of 2 calls of the 9 log functions, default and replaced loggers; encoding and decoding the values, structures and malformed messages of C01, C02, C04 and C05 with logging off; all histories of 2 (thorough 3) calls of 30 kinds with one fault of any kind, of 2 with two rejections, with logging off; of 1 (2) calls of 9 kinds at all five levels; opening against the whole catalogue of C10 at all levels; all histories of 4 (5) operations on a pool, of 3 (4) on a routed pool that is refreshed, stopped or restarted, and making one, with one fault or from spoilt overviews, with logging off or at some levels; pools of 3, 4 and 9, plain, routed and restarted: all histories of 2 (3) operations on all connections; 9000 refreshes; clients configured in 5 ways and those of C20 that are refused; encoding 17 values with 3 chunk sizes, decoding 10 inputs, and 16 call sequences on a connection of each version at each level, compared with the same without logging",
		Assumptions: []string{"what Fatal and Panic do is not specified (the driver calls neither)"}})
}

func bptr(b []byte) uintptr { return uintptr(unsafe.Pointer(&b[0])) }
