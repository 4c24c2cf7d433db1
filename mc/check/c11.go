package check

import (
	"fmt"
	"time"

	"verif/gen/bolt/bolt_mode"
	"verif/gen/bolt/structures"
	"verif/gen/bolt/structures/messages"
	"verif/mc"
	"verif/ps"
)

// sent is a request as the server reads it.
func sent(x *mc.X, ver int, s structures.Structure) ps.Struct {
	b, err := protoOf(x, ver).Marshal(s)
	x.Check(err == nil, "builder-unencodable", "v%d: %T cannot be encoded: %v", ver, s, err)
	ms, _, err := ps.Dechunk(b)
	x.Check(err == nil && len(ms) == 1, "builder-framing", "v%d: %T: %d messages, %v", ver, s, len(ms), err)
	v, err := ps.Decode(ms[0])
	r, ok := v.(ps.Struct)
	x.Check(err == nil && ok, "builder-malformed", "v%d: %T: %x: %v", ver, s, ms[0], err)
	return r
}

func builderScenarios(ver int) []mc.Scenario {
	var out []mc.Scenario
	name := func(s string) string { return fmt.Sprintf("v%d/builders/%s", ver, s) }
	texts := []string{"", "neo4j", "ünï", "a:b@c/?%20", "\x00"}
	amounts := []int64{-1, 1, 2, 127, 128, 1000, 1 << 40, 9223372036854775807}
	ids := []int64{-1, 0, 1, 16, 127, 128, 70000, 1 << 40}
	is := func(x *mc.X, what string, got ps.Struct, tag byte, fields ...interface{}) {
		want := ps.Struct{Tag: tag, Fields: fields}
		if len(fields) == 0 {
			want.Fields = []interface{}{}
		}
		x.Check(ps.Equal(want, got), "builder", "v%d: %s is %s instead of %s", ver, what, ps.String(got), ps.String(want))
	}
	out = append(out, plain(name("auth"), func(x *mc.X) {
		u, p, r := texts[x.Choose(len(texts), "user")], texts[x.Choose(len(texts), "password")], texts[x.Choose(len(texts), "realm")]
		cl := texts[x.Choose(len(texts), "client")]
		tok := messages.BuildAuthTokenBasicWithRealm(u, p, r)
		if r == "" && x.Bool("plain") {
			tok = messages.BuildAuthTokenBasic(u, p)
		}
		want := m{"scheme": "basic", "principal": u, "credentials": p}
		if r != "" {
			want["realm"] = r
		}
		got := sent(x, ver, protoOf(x, ver).GetInitMessage(cl, tok))
		if ver >= 3 {
			want["user_agent"] = cl
			is(x, "the initial message", got, 0x01, want)
		} else {
			is(x, "the initial message", got, 0x01, cl, want)
		}
	}))
	out = append(out, plain(name("kerberos"), func(x *mc.X) {
		p := texts[x.Choose(len(texts), "ticket")]
		got := sent(x, ver, messages.NewInitMessage("c", messages.BuildAuthTokenKerberos(p)))
		is(x, "the initial message", got, 0x01, "c", m{"scheme": "kerberos", "principal": "", "credentials": p})
	}))
	if ver >= 3 {
		timeouts := []time.Duration{-1, 0, time.Millisecond, 7 * time.Millisecond, 999 * time.Millisecond, time.Second, 1500 * time.Millisecond, time.Minute, 2 * time.Hour, 100 * 24 * time.Hour}
		metas := []map[string]interface{}{nil, {}, {"a": int64(1)}, {"app": "x", "l": anys(int64(1), "b"), "m": m{"k": nil}}}
		modes := []bolt_mode.AccessMode{bolt_mode.ReadMode, bolt_mode.WriteMode}
		dbs := []string{"", "neo4j", "sys-tem"}
		expect := func(to time.Duration, md map[string]interface{}, db string, mode bolt_mode.AccessMode, got interface{}, x *mc.X, what string) {
			g, ok := got.(map[string]interface{})
			x.Check(ok, "builder", "v%d: %s: metadata is %s", ver, what, ps.String(got))
			want := m{}
			if to > 0 {
				want["tx_timeout"] = int64(to / time.Millisecond)
			}
			if len(md) > 0 {
				want["tx_metadata"] = md
			}
			if db != "" {
				want["db"] = db
			}
			if mode == bolt_mode.ReadMode {
				want["mode"] = "r"
			} else if g["mode"] == "w" {
				want["mode"] = "w" // the default may be spelled out
			}
			x.Check(ps.Equal(want, g), "builder", "v%d: %s: metadata is %s instead of %s", ver, what, ps.String(g), ps.String(want))
		}
		out = append(out, plain(name("transaction metadata"), func(x *mc.X) {
			to, md, mode := timeouts[x.Choose(len(timeouts), "timeout")], metas[x.Choose(len(metas), "metadata")], modes[x.Choose(2, "mode")]
			db := ""
			if ver >= 4 {
				db = dbs[x.Choose(len(dbs), "db")]
			}
			var tp *time.Duration
			if to >= 0 {
				tp = &to
			}
			var meta map[string]interface{}
			if db == "" && x.Bool("without database") {
				meta = messages.BuildTxMetadata(tp, md, mode, nil)
			} else {
				meta = messages.BuildTxMetadataWithDatabase(tp, md, db, mode, nil)
			}
			got := sent(x, ver, messages.NewBeginMessage(meta))
			x.Check(got.Tag == 0x11 && len(got.Fields) == 1, "builder", "v%d: BEGIN is %s", ver, ps.String(got))
			expect(to, md, db, mode, got.Fields[0], x, "BEGIN")
			if to < 0 {
				to = 0
			}
			got = sent(x, ver, messages.NewAutoCommitTxRunMessage("RETURN 1", m{"p": int64(1)}, to, md, db, mode))
			x.Check(got.Tag == 0x10 && len(got.Fields) == 3 && ps.Equal(got.Fields[0], "RETURN 1") && ps.Equal(got.Fields[1], m{"p": int64(1)}), "builder", "v%d: RUN is %s", ver, ps.String(got))
			expect(to, md, db, mode, got.Fields[2], x, "RUN")
		}))
		out = append(out, plain(name("requests of the protocol"), func(x *mc.X) {
			p := protoOf(x, ver)
			mode := modes[x.Choose(2, "mode")]
			db := ""
			if ver >= 4 {
				db = dbs[x.Choose(len(dbs), "db")]
			}
			got := sent(x, ver, p.GetTxBeginMessage(db, mode))
			x.Check(got.Tag == 0x11 && len(got.Fields) == 1, "builder", "v%d: BEGIN is %s", ver, ps.String(got))
			expect(0, nil, db, mode, got.Fields[0], x, "BEGIN")
			q := texts[x.Choose(len(texts), "query")]
			par := []map[string]interface{}{{}, {"a": int64(1)}, {"l": anys(), "m": m{}}}[x.Choose(3, "parameters")]
			got = sent(x, ver, p.GetRunMessage(q, par, db, mode, true))
			x.Check(got.Tag == 0x10 && len(got.Fields) == 3 && ps.Equal(got.Fields[0], q) && ps.Equal(got.Fields[1], par), "builder", "v%d: RUN is %s", ver, ps.String(got))
			expect(0, nil, db, mode, got.Fields[2], x, "RUN")
			is(x, "RUN in a transaction", sent(x, ver, p.GetRunMessage(q, par, db, mode, false)), 0x10, q, par, m{})
			is(x, "COMMIT", sent(x, ver, p.GetTxCommitMessage()), 0x12)
			is(x, "ROLLBACK", sent(x, ver, p.GetTxRollbackMessage()), 0x13)
			c, ok := p.GetCloseMessage()
			x.Check(ok, "builder", "v%d: no GOODBYE", ver)
			is(x, "GOODBYE", sent(x, ver, c), 0x02)
		}))
	} else {
		out = append(out, plain(name("requests of the protocol"), func(x *mc.X) {
			p := protoOf(x, ver)
			q := texts[x.Choose(len(texts), "query")]
			par := []map[string]interface{}{{}, {"a": int64(1)}, {"l": anys(), "m": m{}}}[x.Choose(3, "parameters")]
			mode := []bolt_mode.AccessMode{bolt_mode.ReadMode, bolt_mode.WriteMode}[x.Choose(2, "mode")]
			is(x, "RUN", sent(x, ver, p.GetRunMessage(q, par, "", mode, x.Bool("auto commit"))), 0x10, q, par)
			is(x, "BEGIN", sent(x, ver, p.GetTxBeginMessage("", mode)), 0x10, "BEGIN", m{})
			is(x, "COMMIT", sent(x, ver, p.GetTxCommitMessage()), 0x10, "COMMIT", m{})
			is(x, "ROLLBACK", sent(x, ver, p.GetTxRollbackMessage()), 0x10, "ROLLBACK", m{})
			_, ok := p.GetCloseMessage()
			x.Check(!ok, "builder", "v%d: GOODBYE does not exist", ver)
		}))
	}
	out = append(out, plain(name("amounts"), func(x *mc.X) {
		p := protoOf(x, ver)
		n, id := amounts[x.Choose(len(amounts), "n")], ids[x.Choose(len(ids), "qid")]
		is(x, "RESET", sent(x, ver, messages.NewResetMessage()), 0x0F)
		is(x, "PULL_ALL", sent(x, ver, messages.NewPullAllMessage()), 0x3F)
		is(x, "DISCARD_ALL", sent(x, ver, messages.NewDiscardAllMessage()), 0x2F)
		if ver < 4 {
			is(x, "pull", sent(x, ver, p.GetPullAllMessage()), 0x3F)
			is(x, "discard all", sent(x, ver, p.GetDiscardAllMessage()), 0x2F)
			is(x, "discard", sent(x, ver, p.GetDiscardMessage(id)), 0x2F)
			return
		}
		want := func(n, id int64) m {
			w := m{"n": n}
			if id != -1 {
				w["qid"] = id
			}
			return w
		}
		// -1 may be sent or left out
		isn := func(what string, got ps.Struct, tag byte, n, id int64) {
			if len(got.Fields) == 1 && id == -1 {
				if g, ok := got.Fields[0].(map[string]interface{}); ok && ps.Equal(g["qid"], int64(-1)) {
					delete(g, "qid")
				}
			}
			is(x, what, got, tag, want(n, id))
		}
		isn("PULL", sent(x, ver, messages.NewPullMessage(n, id)), 0x3F, n, id)
		isn("DISCARD", sent(x, ver, messages.NewDiscardMessage(n, id)), 0x2F, n, id)
		isn("pull all", sent(x, ver, p.GetPullAllMessage()), 0x3F, -1, -1)
		isn("discard all", sent(x, ver, p.GetDiscardAllMessage()), 0x2F, -1, -1)
		isn("discard", sent(x, ver, p.GetDiscardMessage(id)), 0x2F, -1, id)
	}))
	return out
}
