package mc

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif/rt"
)

// Check decides one property.
type Check struct {
	Property string
	// Scenarios lists the scenarios of a tier ("quick" or "thorough").
	Scenarios func(tier string) []Scenario
	// Bounds describes what is enumerated, for the evidence.
	Bounds      string
	Assumptions []string
}

type config struct {
	prop, tier, root, replay string
	raceBin                  string
	budget                   time.Duration
	jobs                     int
	list                     bool
	only                     string
}

// Main is the entry point of the runner.
func Main(checks map[string]*Check) {
	var c config
	worker := flag.Bool("worker", false, "internal")
	flag.StringVar(&c.prop, "prop", "", "property")
	flag.StringVar(&c.tier, "tier", "quick", "tier")
	flag.StringVar(&c.root, "root", "/verif", "root of the verification tree")
	flag.StringVar(&c.replay, "replay", "", "replay file")
	flag.StringVar(&c.raceBin, "racebin", "", "runner with the race detector")
	norace := flag.Bool("norace", false, "leave out the scenarios run with the race detector")
	flag.DurationVar(&c.budget, "budget", 0, "time budget")
	flag.IntVar(&c.jobs, "j", runtime.NumCPU(), "worker processes")
	flag.BoolVar(&c.list, "list", false, "list scenarios")
	flag.StringVar(&c.only, "only", "", "regexp of scenarios")
	flag.Parse()
	ck := checks[c.prop]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check:", c.prop)
		os.Exit(2)
	}
	scs := ck.Scenarios(c.tier)
	if c.only != "" {
		re := regexp.MustCompile(c.only)
		var keep []Scenario
		for _, s := range scs {
			if re.MatchString(s.ID) {
				keep = append(keep, s)
			}
		}
		scs = keep
	}
	if *norace {
		var keep []Scenario
		for _, s := range scs {
			if !s.Race {
				keep = append(keep, s)
			}
		}
		scs = keep
	}
	byID := map[string]*Scenario{}
	for i := range scs {
		if byID[scs[i].ID] != nil {
			fmt.Fprintln(os.Stderr, "duplicate scenario", scs[i].ID)
			os.Exit(2)
		}
		byID[scs[i].ID] = &scs[i]
	}
	find := func(id string) *Scenario { return byID[id] }
	if c.list {
		for _, s := range scs {
			fmt.Println(s.ID)
		}
		return
	}
	if *worker {
		workerMain(find)
		return
	}
	if c.replay != "" {
		os.Exit(replayMain(&c, find))
	}
	os.Exit(coordinate(&c, ck, scs, find))
}

// NeedsRace reports whether a check has scenarios for the race-detector build.
func NeedsRace(ck *Check) bool {
	for _, s := range ck.Scenarios("thorough") {
		if s.Race {
			return true
		}
	}
	return false
}

type workReq struct {
	Item  Item   `json:"item"`
	Trace bool   `json:"trace"` // single traced execution of the first task
	Cur   string `json:"cur"`
	Hang  time.Duration
}

type workRes struct {
	Result Result
	Trace  []string
	Ok     bool
}

func workerMain(find func(string) *Scenario) {
	// a child does not outlive its coordinator
	syscall.RawSyscall(syscall.SYS_PRCTL, 1 /* PR_SET_PDEATHSIG */, uintptr(syscall.SIGKILL), 0)
	var req workReq
	if err := json.NewDecoder(os.Stdin).Decode(&req); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out := os.NewFile(3, "result")
	cur, err := openCur(req.Cur)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	watchdog(req.Hang, cur)
	if os.Getenv("VERIF_RACELOG") == "" {
		// runaway allocations end this process, not the machine
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 8 << 30, Max: 8 << 30})
	}
	var res workRes
	if req.Trace {
		t := req.Item.Tasks[0]
		sc := find(t.Scenario)
		if sc == nil {
			fmt.Fprintln(os.Stderr, "no scenario", t.Scenario)
			os.Exit(3)
		}
		ex := runOne(sc, t.Prefix, map[string]int{}, cur, func(l string) {
			if len(res.Trace) < 5000 {
				res.Trace = append(res.Trace, l)
			}
		})
		if ex.Fail != nil {
			res.Result.Viols = []Viol{{Task: t, Key: ex.Fail.Key, Msg: ex.Fail.Msg, Ordinal: 1}}
		}
		if ex.Diverged {
			res.Result.Diverged = 1
		}
	} else {
		res.Result = explore(find, req.Item, cur)
	}
	res.Ok = true
	json.NewEncoder(out).Encode(res)
	os.Exit(0)
}

// spawn runs one worker process.
func spawn(c *config, sc *Scenario, req workReq, id string) (workRes, Task, string, int, error) {
	dir := scratch(c.root)
	req.Cur = filepath.Join(dir, fmt.Sprintf("cur-%d-%s", os.Getpid(), id))
	os.Remove(req.Cur)
	defer os.Remove(req.Cur)
	if req.Hang == 0 {
		req.Hang = 40 * time.Second
	}
	bin, _ := os.Executable()
	files := filepath.Join(dir, fmt.Sprintf("files-%d-%s", os.Getpid(), id))
	defer os.RemoveAll(files)
	env := append(os.Environ(), "GOMEMLIMIT=3GiB", "VERIF_SCRATCH="+files)
	env = append(env, sc.Env...)
	raceLog := ""
	if sc.Race {
		bin = c.raceBin
		raceLog = filepath.Join(dir, fmt.Sprintf("race-%d-%s", os.Getpid(), id))
		env = append(env, "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+raceLog, "VERIF_RACELOG="+raceLog, "GOMAXPROCS=2")
	} else {
		env = append(env, "GOMAXPROCS=2")
	}
	cmd := exec.Command(bin, "-worker", "-prop", c.prop, "-tier", c.tier, "-root", c.root)
	cmd.Env = env
	in, _ := json.Marshal(req)
	cmd.Stdin = bytes.NewReader(in)
	var errb tail
	cmd.Stderr = &errb
	r, w, err := os.Pipe()
	if err != nil {
		return workRes{}, Task{}, "", 0, err
	}
	cmd.ExtraFiles = []*os.File{w}
	if err := cmd.Start(); err != nil {
		r.Close()
		w.Close()
		return workRes{}, Task{}, "", 0, err
	}
	w.Close()
	var res workRes
	derr := json.NewDecoder(bufio.NewReaderSize(r, 1<<16)).Decode(&res)
	r.Close()
	werr := cmd.Wait()
	if raceLog != "" {
		if fs, _ := filepath.Glob(raceLog + ".*"); fs != nil {
			for _, f := range fs {
				os.Remove(f)
			}
		}
	}
	if derr == nil && res.Ok {
		return res, Task{}, "", 0, nil
	}
	t, ord, _, ok := readCur(req.Cur)
	if !ok {
		return workRes{}, Task{}, "", 0, fmt.Errorf("worker failed before its first execution: %v\n%s", werr, errb.String())
	}
	return workRes{}, t, errb.String(), ord, nil
}

type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append(append([]byte{}, t.b[:1<<14]...), t.b[len(t.b)-1<<15:]...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }

func crashKey(out string) (string, string) {
	l := ""
	for _, s := range strings.Split(out, "\n") {
		if strings.HasPrefix(s, "fatal error:") || strings.HasPrefix(s, "panic:") || strings.HasPrefix(s, "HANG:") || strings.HasPrefix(s, "runtime:") {
			l = s
			break
		}
	}
	if strings.HasPrefix(l, "HANG:") {
		return "hang", out
	}
	if l == "" {
		l = "worker died"
	}
	if len(out) > 8000 {
		out = out[:8000]
	}
	return "crash: " + l, out
}

type replayFile struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Task     Task     `json:"task"`
	History  *Item    `json:"history,omitempty"` // when it needs the executions before it
	Key      string   `json:"key"`
	Msg      string   `json:"msg"`
	Race     bool     `json:"race"`
	Trace    []string `json:"trace"`
	How      string   `json:"how"`
}

func replayMain(c *config, find func(string) *Scenario) int {
	b, err := os.ReadFile(c.replay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	sc := find(rf.Task.Scenario)
	if sc == nil {
		fmt.Fprintln(os.Stderr, "no scenario", rf.Task.Scenario, "in tier", c.tier)
		return 2
	}
	req := workReq{Item: Item{Tasks: []Task{rf.Task}}, Trace: true}
	if rf.History != nil {
		req = workReq{Item: *rf.History}
	}
	res, _, out, _, err := spawn(c, sc, req, "replay")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for _, l := range res.Trace {
		fmt.Println(l)
	}
	if out != "" {
		k, m := crashKey(out)
		fmt.Printf("reproduced: %s\n%s\n", k, m)
		return 1
	}
	if len(res.Result.Viols) > 0 {
		fmt.Printf("reproduced: %s\n%s\n", res.Result.Viols[0].Key, res.Result.Viols[0].Msg)
		return 1
	}
	fmt.Println("not reproduced")
	return 0
}

type knownFinding struct {
	prop, key, desc string
}

// loadKnown reads known_findings.txt: lines
//
//	known: property=C01 key=<key> :: <description>
//	fixed: property=C01 <commit> <description>
func loadKnown(root, prop string) ([]knownFinding, error) {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property="+prop+" key=")
		i := strings.Index(l, " :: ")
		if i < 0 {
			return nil, fmt.Errorf("bad known-findings line: %s", l)
		}
		out = append(out, knownFinding{prop, l[:i], l[i+4:]})
	}
	return out, nil
}

type coord struct {
	mu      sync.Mutex
	cond    *sync.Cond
	queue   map[string][]Task
	order   []string
	running int
	execs   map[string]int
	stop    bool
	viols   []Viol
	vitem   []Item
	known   map[string]Viol
	total   Result
	errs    []string
	capped  map[string]bool
	used    map[string]time.Duration
}

func coordinate(c *config, ck *Check, scs []Scenario, find func(string) *Scenario) int {
	start := time.Now()
	budget := c.budget
	if budget == 0 {
		budget = 300 * time.Second
		if c.tier == "thorough" {
			budget = 780 * time.Second
		}
	}
	known, err := loadKnown(c.root, c.prop)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	kn := map[string]bool{}
	for _, k := range known {
		kn[k.key] = true
	}
	co := &coord{queue: map[string][]Task{}, execs: map[string]int{}, known: map[string]Viol{}, capped: map[string]bool{}, used: map[string]time.Duration{}}
	co.cond = sync.NewCond(&co.mu)
	co.total = Result{Execs: co.execs, Classes: map[string]int{}}
	for _, s := range scs {
		co.queue[s.ID] = []Task{{Scenario: s.ID}}
		co.order = append(co.order, s.ID)
	}
	deadline := start.Add(budget)
	var wg sync.WaitGroup
	for w := 0; w < c.jobs; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for n := 0; ; n++ {
				it, sc := co.take(find, deadline, kn, c.jobs)
				if it == nil {
					return
				}
				res, crash, out, ord, err := spawn(c, sc, workReq{Item: *it}, fmt.Sprintf("%d-%d", w, n))
				co.done(it, sc, res, crash, out, ord, err, kn)
			}
		}(w)
	}
	wg.Wait()
	left := 0
	for _, q := range co.queue {
		left += len(q)
	}
	if len(co.errs) > 0 && len(co.viols) == 0 {
		fmt.Fprintln(os.Stderr, "machinery error:", co.errs[0])
		return 2
	}
	// confirm violations
	rc := 0
	unconfirmed := 0
	var nviol int
	sort.SliceStable(co.viols, func(i, j int) bool { return len(co.viols[i].Task.Prefix) < len(co.viols[j].Task.Prefix) })
	for i, v := range co.viols {
		if nviol >= 1 && i > 3 {
			break
		}
		sc := find(v.Task.Scenario)
		rf := replayFile{Property: c.prop, Tier: c.tier, Task: v.Task, Key: v.Key, Msg: v.Msg, Race: sc.Race,
			How: fmt.Sprintf("cd %s && ./check %s %s --replay <this file>", c.root, c.prop, c.tier)}
		res, _, out, _, err := spawn(c, sc, workReq{Item: Item{Tasks: []Task{v.Task}}, Trace: true}, fmt.Sprintf("confirm-%d", i))
		ok := false
		switch {
		case err != nil:
		case out != "":
			k, m := crashKey(out)
			rf.Key, rf.Msg, ok = k, m, true
		case len(res.Result.Viols) > 0:
			rf.Key, rf.Msg, rf.Trace, ok = res.Result.Viols[0].Key, res.Result.Viols[0].Msg, res.Trace, true
		}
		if ok && kn[rf.Key] {
			continue
		}
		if !ok && i < len(co.vitem) {
			// perhaps it needs the executions before it in the same process
			it := co.itemOf(v)
			if it != nil {
				res, _, out, _, err := spawn(c, sc, workReq{Item: *it}, fmt.Sprintf("confirmh-%d", i))
				if err == nil && (out != "" || len(res.Result.Viols) > 0) {
					ok = true
					rf.History = it
				}
			}
		}
		if !ok {
			unconfirmed++
			fmt.Printf("note: not reproduced: property=%s scenario=%s key=%s\n", c.prop, v.Task.Scenario, v.Key)
			continue
		}
		nviol++
		os.MkdirAll(filepath.Join(c.root, "replays"), 0o755)
		path := filepath.Join(c.root, "replays", fmt.Sprintf("%s-%d.json", c.prop, nviol))
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("scenario %s choices %v\nkey %s\n%s\n", rf.Task.Scenario, rf.Task.Prefix, rf.Key, rf.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, path)
		rc = 1
	}
	for _, k := range known {
		if v, ok := co.known[k.key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (scenario %s)\n", c.prop, k.desc, v.Task.Scenario)
		}
	}
	writeEvidence(c, ck, scs, co, left, nviol, unconfirmed, time.Since(start))
	execs := 0
	for _, n := range co.execs {
		execs += n
	}
	fmt.Printf("%s %s: %d scenarios, %d executions, %d states, %d transitions, %d unexplored subtrees, %d diverged, %.1fs\n",
		c.prop, c.tier, len(scs), execs, co.total.Nodes, co.total.Steps, left, co.total.Diverged, time.Since(start).Seconds())
	return rc
}

func (co *coord) itemOf(v Viol) *Item {
	for i := range co.viols {
		if co.viols[i].Ordinal == v.Ordinal && co.viols[i].Key == v.Key && fmt.Sprint(co.viols[i].Task) == fmt.Sprint(v.Task) {
			for j := range co.vitem {
				for _, t := range co.vitem[j].Tasks {
					if t.Scenario == v.Task.Scenario {
						it := co.vitem[j]
						return &it
					}
				}
			}
		}
	}
	return nil
}

// take builds the next item, preferring the scenarios explored least.
func (co *coord) take(find func(string) *Scenario, deadline time.Time, kn map[string]bool, jobs int) (*Item, *Scenario) {
	co.mu.Lock()
	defer co.mu.Unlock()
	for {
		if co.stop || time.Now().After(deadline) {
			co.cond.Broadcast()
			return nil, nil
		}
		var ids []string
		n := 0
		for _, id := range co.order {
			if sc := find(id); sc.Cap > 0 && co.execs[id] >= sc.Cap && !co.capped[id] {
				co.capped[id] = true
			}
			if len(co.queue[id]) > 0 && !co.capped[id] {
				ids = append(ids, id)
				n += len(co.queue[id])
			}
		}
		if len(ids) == 0 {
			if co.running == 0 {
				co.cond.Broadcast()
				return nil, nil
			}
			co.cond.Wait()
			continue
		}
		sort.SliceStable(ids, func(i, j int) bool { return co.used[ids[i]] < co.used[ids[j]] })
		first := find(ids[0])
		it := &Item{Quota: 100000, Time: 2 * time.Second, Known: kn}
		if n < jobs*4 {
			it.Time = 300 * time.Millisecond
		}
		want := n/(jobs*2) + 1
		if want > 64 {
			want = 64
		}
		for _, id := range ids {
			if find(id).Race != first.Race || fmt.Sprint(find(id).Env) != fmt.Sprint(first.Env) {
				continue
			}
			q := co.queue[id]
			take := want - len(it.Tasks)
			if len(ids) > want {
				take = 1
			}
			for take > 0 && len(q) > 0 {
				it.Tasks = append(it.Tasks, q[0])
				q = q[1:]
				take--
			}
			co.queue[id] = q
			if len(it.Tasks) >= want {
				break
			}
		}
		co.running++
		return it, first
	}
}

func (co *coord) done(it *Item, sc *Scenario, res workRes, crash Task, out string, ord int, err error, kn map[string]bool) {
	co.mu.Lock()
	defer co.mu.Unlock()
	defer co.cond.Broadcast()
	co.running--
	if err != nil {
		co.errs = append(co.errs, err.Error())
		co.stop = true
		return
	}
	if out != "" || !res.Ok {
		k, m := crashKey(out)
		v := Viol{Task: crash, Key: k, Msg: m, Ordinal: ord}
		if kn[k] {
			co.known[k] = v
			return
		}
		co.viols = append(co.viols, v)
		co.vitem = append(co.vitem, *it)
		co.stop = true
		return
	}
	r := res.Result
	if r.Fatal != "" {
		co.errs = append(co.errs, r.Fatal)
		co.stop = true
		return
	}
	for k, n := range r.Execs {
		co.execs[k] += n
	}
	for _, t := range it.Tasks {
		co.used[t.Scenario] += it.Time / time.Duration(len(it.Tasks))
	}
	co.total.Nodes += r.Nodes
	co.total.Steps += r.Steps
	co.total.Diverged += r.Diverged
	if r.MaxDepth > co.total.MaxDepth {
		co.total.MaxDepth = r.MaxDepth
	}
	for k, n := range r.Classes {
		if len(co.total.Classes) < 20000 || co.total.Classes[k] > 0 {
			co.total.Classes[k] += n
		}
	}
	if len(co.total.Samples) < 40 {
		co.total.Samples = append(co.total.Samples, r.Samples...)
	}
	for k, v := range r.Known {
		if _, ok := co.known[k]; !ok {
			co.known[k] = v
		}
	}
	for _, t := range r.Frontier {
		co.queue[t.Scenario] = append(co.queue[t.Scenario], t)
	}
	if len(r.Viols) > 0 {
		co.viols = append(co.viols, r.Viols...)
		for range r.Viols {
			co.vitem = append(co.vitem, *it)
		}
		co.stop = true
	}
	_ = rt.Free
}

func writeEvidence(c *config, ck *Check, scs []Scenario, co *coord, left, nviol, unconfirmed int, wall time.Duration) {
	execs := 0
	for _, n := range co.execs {
		execs += n
	}
	pre, fault := 0, 0
	for _, s := range scs {
		if s.Preempt > pre {
			pre = s.Preempt
		}
		if s.Fault > fault {
			fault = s.Fault
		}
	}
	var samples []interface{}
	for i, t := range co.total.Samples {
		if i >= 12 {
			break
		}
		samples = append(samples, map[string]interface{}{"scenario": t.Scenario, "choices": t.Prefix})
	}
	if len(samples) == 0 {
		samples = append(samples, map[string]interface{}{"scenario": "none"})
	}
	type kv struct {
		k string
		n int
	}
	var cl []kv
	for k, n := range co.total.Classes {
		cl = append(cl, kv{k, n})
	}
	sort.Slice(cl, func(i, j int) bool { return cl[i].n > cl[j].n || cl[i].n == cl[j].n && cl[i].k < cl[j].k })
	classes := map[string]int{}
	for i, x := range cl {
		if i >= 60 {
			break
		}
		classes[x.k] = x.n
	}
	ev := map[string]interface{}{
		"property": c.prop,
		"tier":     c.tier,
		"seed":     1,
		"level":    "model_checking",
		"coverage": map[string]interface{}{
			"states":                        co.total.Nodes,
			"transitions":                   co.total.Steps,
			"traces_validated_against_impl": execs,
			"scenarios":                     len(scs),
			"max_decisions":                 co.total.MaxDepth,
			"preemption_bound":              pre,
			"fault_bound":                   fault,
			"exhaustive":                    left == 0,
			"unexplored_subtrees":           left,
			"diverged":                      co.total.Diverged,
			"unconfirmed":                   unconfirmed,
			"distinct_outcome_classes":      len(co.total.Classes),
			"outcome_classes":               classes,
			"samples":                       samples,
			"bounds":                        ck.Bounds,
			"rule":                          "states are the distinct decision points (schedule, environment, fault and input choices) reached; transitions are the runtime operations executed; every execution runs the real driver code, so every trace is validated against the implementation",
		},
		"assumptions": ck.Assumptions,
		"wall_s":      wall.Seconds(),
		"violations":  nviol,
	}
	dir := filepath.Join(c.root, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, c.prop+".json"), append(b, '\n'), 0o644)
}
