package check

import (
	"fmt"
	"strings"

	"verif/mc"
)

// c33: when everything is closed, stopped and returned, or could not be opened or started, nothing
// of the driver runs any more.
func c33(tier string) []mc.Scenario {
	var out []mc.Scenario
	pre, d := 1, 0
	if tier == "thorough" {
		pre, d = 2, 1
	}
	for ver := 1; ver <= 4; ver++ {
		out = append(out, openScenario(fmt.Sprintf("v%d/open", ver), "C33", ver, openCases(tier), []int{0}))
		out = append(out, histScenario(fmt.Sprintf("v%d/calls/depth%d/faults1", ver, 2+d), "C33", ver, alBasic, 2+d, 1, planAll, nil))
		for size := 1; size <= 2; size++ {
			out = append(out, poolHistory(fmt.Sprintf("v%d/size%d/pool/depth%d", ver, size, 4+d), "C33", ver, size, 4+d, 0, "rbBf", outages),
				poolHistory(fmt.Sprintf("v%d/size%d/pool with faults/depth%d", ver, size, 3+d), "C33", ver, size, 3+d, 1, "rbBf", nil))
		}
		out = append(out, startScenario(fmt.Sprintf("v%d/start/faults%d", ver, 1+d), ver, 2, 1+d, "C33"),
			stopHistory(fmt.Sprintf("v%d/routed/depth%d", ver, 4+d), ver, 2, 4+d, 0, "wri1td", "rxbk", "C33"),
			stopHistory(fmt.Sprintf("v%d/routed with faults/depth%d", ver, 3+d), ver, 2, 3+d, 1, "wr", "rbf", "C33"))
	}
	for _, size := range []int{5, 9, 20} {
		out = append(out, bulkHistory(fmt.Sprintf("v4/size%d/all at once/depth%d", size, 3+d), "C33", 4, size, 0, 3+d),
			bulkHistory(fmt.Sprintf("v4/size%d/routed all at once/depth%d", size, 2+d), "C33", 4, size, 7, 2+d))
	}
	for _, ver := range []int{1, 4} {
		for _, mix := range []string{"U X", "UU X", "LU X", "K X", "T X", "X X", "L U hX", "C X"} {
			p := pre + 1
			if len(strings.Fields(mix)) > 2 {
				p--
			}
			out = append(out, poolScenario(fmt.Sprintf("v%d/%s/preempt%d", ver, strings.ReplaceAll(mix, " ", "+"), p), "C33", ver, 1, mix, p, 0, false))
			out = append(out, poolScenario(fmt.Sprintf("v%d/%s/preempt%d/faults1", ver, strings.ReplaceAll(mix, " ", "+"), p-1), "C33", ver, 1, mix, p-1, 1, false))
		}
		for _, mix := range []string{"X", "tX", "hX", "X wU", "X rUwU", "X wK", "tX wLwU", "tX twU", "1tX twU", "X X", "tX tX", "hX wLrU"} {
			p := budget(pre+1, mix)
			out = append(out, routedConc(fmt.Sprintf("v%d/routed %s/preempt%d", ver, strings.ReplaceAll(mix, " ", "+"), p), "C33", ver, 2, mix, p, false))
		}
	}
	return out
}

func init() {
	register(&mc.Check{Property: "C33", Scenarios: c33,
		Bounds:      "four versions: opening against the whole catalogue of C10; all histories of 2 (thorough: 3) calls from 15 kinds on a connection with one fault of any kind; all histories of 4 (5) operations on a pool, of 3 (4) with one fault; making a routed pool from the clusters and overviews of C42 with one (two) faults, stopping it after all histories of 4 (5) operations, of 3 (4) with a fault; 8 and 12 mixes of goroutines that use and close a pool or a routed pool: all interleavings with at most 2 (thorough: 3) preemptions, one less for each goroutine beyond two or with a refused or lost connection attempt; sizes 5, 9 and 20: all histories of 3 (4), routed 2 (3), operations on all connections at once; at the end of each, everything closed and returned and minutes later, no goroutine but the caller's is alive and nothing connects any more",
		Assumptions: []string{"a goroutine may take minutes to end, e.g. while its connection attempt is unanswered"}})
}
