package check

import (
	"fmt"
	"strings"

	"verif/mc"
	"verif/vnet"
)

const (
	alBasic  = "Q1 E F P2 b tE tQ tF tP c r oQ oc val x"
	alDeep   = "Q1 F P2 b tE tF c r idle"
	alAll    = "Q0 Q1 Q3 E ER F P0 P2 B QD ED b bD tE tW tQ tF tP tB tD tDo c r oQ oE oc or idle val x"
	connAssu = "one goroutine uses the connection (C17 covers concurrency)"
)

var (
	planNone = faultPlan{}
	planFail = faultPlan{fail: true, reset: true}
	planNet  = faultPlan{drop: true, silence: true, cuts: 5, closing: true}
	planAll  = faultPlan{fail: true, drop: true, silence: true, reset: true, tamper: true, cuts: 5, closing: true}
	planCut  = faultPlan{drop: true, silence: true, cuts: 1000}
)

// failShape changes the metadata of failures.
type failShape struct {
	name string
	f    func(m map[string]interface{}) map[string]interface{}
}

type md = map[string]interface{}

var failShapes = []failShape{
	{"empty", func(m md) md { return md{} }},
	{"without code", func(m md) md { delete(m, "code"); return m }},
	{"without message", func(m md) md { delete(m, "message"); return m }},
	{"null code", func(m md) md { m["code"] = nil; return m }},
	{"null message", func(m md) md { m["message"] = nil; return m }},
	{"number as code", func(m md) md { m["code"] = int64(7); return m }},
	{"number as message", func(m md) md { m["message"] = int64(-7); return m }},
	{"list as message", func(m md) md { m["message"] = []interface{}{"a", nil}; return m }},
	{"map as code", func(m md) md { m["code"] = md{"code": "x"}; return m }},
	{"empty texts", func(m md) md { m["message"], m["code"] = "", ""; return m }},
	{"more entries", func(m md) md {
		m["cause"] = md{"code": "Other", "message": "inner", "list": []interface{}{int64(1), 2.5, true, nil}}
		m["diagnostic"] = []interface{}{md{}, "x"}
		return m
	}},
	{"long message", func(m md) md { m["message"] = m["message"].(string) + strings.Repeat(" long%s\n", 9000); return m }},
	{"strange code", func(m md) md { m["code"] = "not.a.neo4j code\x00%d"; return m }},
	{"transient", func(m md) md { m["code"] = "Neo.TransientError.Transaction.Terminated"; return m }},
	{"session expired", func(m md) md { m["code"] = "Neo.ClientError.Cluster.NotALeader"; return m }},
	{"unauthorized", func(m md) md { m["code"] = "Neo.ClientError.Security.Unauthorized"; return m }},
	{"database error", func(m md) md { m["code"] = "Neo.DatabaseError.General.UnknownError"; return m }},
}

// metadata of replies that succeed
var metaShapes = []struct {
	name string
	f    func(m md) md
}{
	{"empty", func(m md) md { return md{} }},
	{"more entries", func(m md) md {
		m["notifications"] = []interface{}{md{"code": "Neo.ClientNotification.X", "position": md{"offset": int64(1)}}, nil}
		m["plan"], m["x"], m[""] = md{"children": []interface{}{md{}, md{}}, "rows": 1.5}, nil, true
		return m
	}},
	{"like a failure", func(m md) md { m["code"], m["message"] = "Neo.ClientError.X.Y", "no failure"; return m }},
	{"mistyped", func(m md) md {
		for _, k := range []string{"type", "stats", "fields", "t_first", "t_last", "qid", "bookmark", "result_available_after", "result_consumed_after"} {
			m[k] = []interface{}{k}
		}
		return m
	}},
	{"nothing more", func(m md) md { m["has_more"] = false; return m }},
	{"large", func(m md) md { m["plan"] = strings.Repeat("plan", 20000); return m }},
}

// connScenarios are the histories on one connection that decide a property.
func connScenarios(prop string, tier string) []mc.Scenario {
	var out []mc.Scenario
	add := func(ver int, name, alphabet string, depth, faults int, plan faultPlan, tune func(h *hist)) {
		out = append(out, histScenario(fmt.Sprintf("v%d/%s/depth%d/faults%d", ver, name, depth, faults), prop, ver, alphabet, depth, faults, plan, tune))
	}
	d := 0
	if tier == "thorough" {
		d = 1
	}
	for ver := 1; ver <= 4; ver++ {
		if prop == "C11" {
			out = append(out, builderScenarios(ver)...)
			out = append(out, openScenario(fmt.Sprintf("v%d/open", ver), prop, ver, openCases(tier), []int{0}))
			// what the pools say
			out = append(out, poolHistory(fmt.Sprintf("v%d/pool/depth%d", ver, 4+d), prop, ver, 1, 4+d, 0, "rxqfbBk", []string{"refuse", "auth"}),
				poolHistory(fmt.Sprintf("v%d/pool/depth%d/faults1", ver, 3+d), prop, ver, 2, 3+d, 1, "rbBf", nil),
				routedHistory(fmt.Sprintf("v%d/routed pool/depth%d", ver, 4+d), prop, ver, 2, 4+d, 0, "wri1m", "rbB"),
				routedHistory(fmt.Sprintf("v%d/routed pool/depth%d/faults1", ver, 3+d), prop, ver, 2, 3+d, 1, "wrf1", "rbf"),
				stopHistory(fmt.Sprintf("v%d/stopping/depth%d", ver, 3+d), ver, 2, 3+d, 0, "wri1", "rxb", prop),
				restartHistory(fmt.Sprintf("v%d/restart/depth%d", ver, 3+d), prop, ver, 2, 3+d, false, "rb"))
		}
		if prop == "C13" || prop == "C16" {
			out = append(out, openScenario(fmt.Sprintf("v%d/open", ver), prop, ver, openCases(tier), []int{0, 1}))
		}
		add(ver, "all", alAll, 2+d, 1, planAll, nil)
		add(ver, "basic", alBasic, 4, 0, planNone, nil)
		if d == 1 {
			add(ver, "long", alDeep, 6, 0, planNone, nil)
		}
		add(ver, "deep", alDeep, 3+d, 1, planAll, nil)
		add(ver, "two", alDeep, 2+d, 2, planFail, nil)
		add(ver, "two of all", "Q1 F b tE c r", 2, 2, planAll, nil)
		// replies lost at every byte
		cut := planCut
		add(ver, "cut", "Q1 X2 F P2 b tE tF c r", 1+d, 1, cut, nil)
		add(ver, "cut in a transaction", "tE tQ tF c r", 1, 1, cut, func(h *hist) { h.pre = "b tE" })
		// segmentation of the responses by sender and transport
		for _, seg := range [][2]int{{0, 1}, {1, 0}, {3, 2}, {7, 5}, {2, 255}, {0, 16}, {4096, 0}} {
			seg := seg
			add(ver, fmt.Sprintf("segments %d %d", seg[0], seg[1]), "Q0 Q3 Q9 X2 X3 E F P2 b tX tF c r", 2, 0, planNone, func(h *hist) {
				h.net.MaxRead, h.srv.Chunk = seg[0], seg[1]
				h.noBig = seg[0] > 0 && seg[0] < 16 || seg[1] > 0 && seg[1] < 16
			})
		}
		// long pauses
		add(ver, "hours", "Q1 F b tE tF c r hours val x", 4+d, 0, planNone, nil)
		// the same again and again
		if prop != "C15" {
			l, al := 2, "Q1 X2 E F P2 b tE tF tQ c r idle val"
			if prop == "C14" {
				l, al = 3, "Q1 E F b tE tF c r"
			}
			out = append(out, endureScenario(fmt.Sprintf("v%d/again/length%d", ver, l+d), prop, ver, al, l+d, 270, nil))
		}
		if prop == "C12" {
			add(ver, "shapes", "Z Q1 P2 b tZ r", 2+d, 0, planNone, nil)
			for _, sh := range metaShapes {
				sh := sh
				add(ver, "summary "+sh.name, "Q0 Q3 E P2 b tE tQ c", 2+d, 0, planNone, func(h *hist) { h.srv.SumMeta = sh.f })
				add(ver, "head "+sh.name, "Q0 Q3 E P2 b tE tQ c", 2+d, 0, planNone, func(h *hist) { h.srv.RunMeta = sh.f })
			}
			add(ver, "large results", "QL PL", 1, 0, planNone, nil)
			add(ver, "large results in a transaction", "tL", 1, 0, planNone, func(h *hist) { h.pre = "b" })
		}
		if prop == "C11" || prop == "C12" {
			add(ver, "unusual statements", "T TD bO tT", 2, 0, planNone, nil)
			add(ver, "large values", "XL Q1", 2, 0, planNone, nil)
			add(ver, "large values in a transaction", "tXL", 1, 0, planNone, func(h *hist) { h.pre = "b" })
		}
		if prop == "C15" || prop == "C11" || prop == "C14" || prop == "C16" {
			// the peer does not read for a while
			n := 3 + d
			if prop == "C15" {
				n++
			}
			add(ver, "pause", "Q1 F b tE c r val pause wait x", n, 0, planNone, nil)
		}
		if prop == "C12" || prop == "C13" {
			// failures whose metadata are not what servers usually send
			for _, sh := range failShapes {
				sh := sh
				add(ver, "metadata "+sh.name, "Q1 F P2 b tE tF c r", 1+d, 1, planFail, func(h *hist) { h.srv.FailMeta = sh.f })
			}
		}
		add(ver, "reads", "Q1 F P2 b tQ c", 2, 2+d, planNone, func(h *hist) {
			h.net.ReadSize = func(c *vnet.Conn, avail int) int {
				if !h.armed {
					return avail
				}
				if k := h.x.Fault(3, "read size"); k > 0 {
					return []int{0, 1, avail - 1}[k]
				}
				return avail
			}
		})
	}
	return out
}

func init() {
	for _, p := range []string{"C11", "C12", "C13", "C14", "C15", "C16"} {
		p := p
		b := "one connection, four versions: all histories of 2 (thorough 3) calls from 30 and of 3 (4) calls from 9 kinds (queries, writes, failures at RUN and PULL, unencodable parameters, other databases, transactions, stale transaction handles, idling, validation, closing) with one fault of any kind at any request or position of a reply (rejection, request ignored, disconnect, reset, silence, replies of a wrong kind, garbage), of 4 calls from 15 kinds (thorough: 6 from 9) without fault, of 2 (3) calls with two rejections or with two faults of any kind; replies cut at every byte; all words of up to 2 (C14: 3 of 8 kinds; thorough: one more) of 13 kinds of calls repeated 270 times (not for C15); seven segmentations by sender and transport including single bytes; all placements of 2 (3) short reads; for C11, C14, C15 and C16 all histories of 3 (4; C15: one more) calls around pauses, shorter and longer than the timeout, in which the peer does not read; for C12 and C13 failures with 17 other shapes of metadata (missing, null or mistyped code and message, more entries, long texts, other classes of codes); for C12 records of 9 unusual forms (empty, of different widths, equal ones, ...), heads and summaries of 6 other forms, results of 15 sizes up to 100001 records; for C11 and C12 values of 1 to 17 MB in parameters and records, 14 unusual texts of statements and 10 of names of databases; every history ends with closing, a second close and use after close, and compares the database"
		switch p {
		case "C11":
			b += "; request builders over products of their arguments; opening against the whole catalogue of C10"
		case "C13", "C16":
			b += "; opening against the whole catalogue of C10"
		}
		register(&mc.Check{
			Property:    p,
			Scenarios:   func(tier string) []mc.Scenario { return connScenarios(p, tier) },
			Bounds:      b,
			Assumptions: []string{connAssu, "a transaction whose commit reply was lost may be durable or not"},
		})
	}
}
