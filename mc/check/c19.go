package check

import (
	"fmt"
	"reflect"

	"verif/boltsrv"
	"verif/gen/bolt/connection"
	"verif/mc"
	"verif/ps"
)

type counterOf struct {
	key string
	get func(connection.IResult) (int64, bool)
}

var counters = []counterOf{
	{"nodes-created", connection.IResult.GetNodesCreated},
	{"nodes-deleted", connection.IResult.GetNodesDeleted},
	{"relationships-created", connection.IResult.GetRelationshipsCreated},
	{"relationships-deleted", connection.IResult.GetRelationshipsDeleted},
}

// judgeSummary compares the accessors of a result with the summary the server sent.
func judgeSummary(x *mc.X, ver int, r connection.IResult, meta map[string]interface{}) {
	got, err := toPS(r.Metadata())
	x.Check(err == nil && ps.Equal(got, meta), "metadata", "v%d: Metadata() is %v instead of %v", ver, r.Metadata(), meta)
	stats, has := meta["stats"].(map[string]interface{})
	gs, ok := r.GetStats()
	x.Check(ok == has, "stats", "v%d: GetStats() of %v reports %v", ver, meta, ok)
	if has {
		g, err := toPS(gs)
		x.Check(err == nil && ps.Equal(g, stats), "stats", "v%d: GetStats() is %v instead of %v", ver, gs, stats)
	}
	for _, c := range counters {
		v, ok := c.get(r)
		w, has := stats[c.key].(int64)
		x.Check(ok == has, "counter-presence", "v%d: %s of %v: reports %v", ver, c.key, meta, ok)
		x.Check(!ok || v == w, "counter", "v%d: %s of %v is %d", ver, c.key, meta, v)
	}
}

func c19(tier string) []mc.Scenario {
	vals := []interface{}{nil, int64(0), int64(1), int64(-1), int64(42), int64(300), int64(1) << 40, "3", 3.5, true, anys(int64(1)), m{"a": int64(1)}, int64(-9223372036854775808)}
	if tier == "quick" {
		vals = vals[:9]
	}
	var out []mc.Scenario
	for ver := 1; ver <= 4; ver++ {
		ver := ver
		summary := func(x *mc.X, h *hist, meta func() map[string]interface{}) {
			var sent map[string]interface{}
			h.srv.OnReply = func(s *boltsrv.Session, r *boltsrv.Req, ms []ps.Struct) []boltsrv.Piece {
				if r.Tag == boltsrv.TagPull && r.Query == "" && len(ms) > 0 {
					sent = meta()
					ms[len(ms)-1] = ps.S(boltsrv.TagSuccess, sent)
				}
				return s.Pieces(ms)
			}
			if !h.open() {
				return
			}
			rows := x.Choose(2, "rows")
			q := fmt.Sprintf("RETURN %d t", rows)
			var res connection.IResult
			var err error
			if x.Bool("exec") {
				res, err = h.conn.Exec(q, nil)
			} else {
				_, res, err = h.conn.Query(q, nil)
			}
			x.Check(err == nil, "summary-refused", "v%d: a query with the summary %v fails: %s", ver, sent, short(err))
			x.Check(res != nil && !reflect.ValueOf(res).IsNil(), "no-result", "v%d: no result for the summary %v", ver, sent)
			judgeSummary(x, ver, res, sent)
			x.Class("%d keys", len(sent))
			// the accessors do not change the answer
			judgeSummary(x, ver, res, sent)
			// an earlier result is not touched by a later one
			first := sent
			res2, err := h.conn.Exec("RETURN 0 u", nil)
			x.Check(err == nil, "summary-refused", "v%d: the second query fails: %s", ver, short(err))
			judgeSummary(x, ver, res2, sent)
			judgeSummary(x, ver, res, first)
			h.conn.Close()
		}
		out = append(out, mc.Scenario{ID: fmt.Sprintf("v%d/counters", ver), Body: func(x *mc.X) {
			h := newHist(x, "C19", ver, faultPlan{})
			n := 0
			summary(x, h, func() map[string]interface{} {
				n++
				if n > 1 {
					return m{"stats": m{"nodes-deleted": int64(77)}}
				}
				stats := m{}
				dev := 0
				for i, c := range counters {
					// two counters take all values, the others a distinct one or none
					k := 0
					if dev < 2 {
						k = x.Choose(len(vals)+1, c.key)
					} else {
						k = x.Choose(2, c.key)
						if k == 1 {
							k = len(vals) + 1
						}
					}
					switch {
					case k == 0:
					case k <= len(vals):
						stats[c.key] = vals[k-1]
						if k-1 != 2 {
							dev++
						}
					default:
						stats[c.key] = int64(1000 + i)
					}
				}
				if x.Bool("other counters") {
					stats["properties-set"] = int64(5)
					stats["labels-added"] = int64(6)
				}
				return m{"type": "w", "stats": stats, "t_last": int64(1)}
			})
		}})
		out = append(out, mc.Scenario{ID: fmt.Sprintf("v%d/summaries", ver), Body: func(x *mc.X) {
			h := newHist(x, "C19", ver, faultPlan{})
			metas := []map[string]interface{}{
				{}, {"stats": nil}, {"stats": int64(3)}, {"stats": "nodes-created"}, {"stats": anys()}, {"stats": anys(m{"nodes-created": int64(1)})},
				{"stats": m{}}, {"stats": 1.5}, {"stats": true}, {"stats": ps.S(0x4E, int64(1), anys("L"), m{"nodes-created": int64(3)})},
				{"nodes-created": int64(4)}, {"Stats": m{"nodes-created": int64(4)}}, {"stats": m{"stats": m{"nodes-created": int64(4)}}},
				{"stats": m{"Nodes-Created": int64(4)}}, {"stats": m{"nodes_created": int64(4), "nodescreated": int64(2)}},
				{"plan": m{"stats": m{"nodes-created": int64(2)}}, "type": "r"},
				{"stats": m{"": int64(1)}}, {"": m{"nodes-created": int64(1)}},
			}
			n := 0
			summary(x, h, func() map[string]interface{} {
				n++
				if n > 1 {
					return m{}
				}
				return metas[x.Choose(len(metas), "summary")]
			})
		}})
	}
	return out
}

func init() {
	register(&mc.Check{Property: "C19", Scenarios: c19,
		Bounds: "four versions x Exec/Query: summaries with every combination of the four counters, each absent, or (two at a time) of 13 values of all types; 18 shapes of summaries with stats of other types or places"})
}
