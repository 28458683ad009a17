package mc

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Main is the entry point of a harness binary:
//
//	h check ID TIER VERIFDIR          explore, write evidence, print VIOLATION lines
//	h worker ID TIER W NW OUT DEADLINE
//	h one ID TIER SCENARIO CHOICES [-v]   run one execution
//	h list
func Main() {
	if len(os.Args) < 2 {
		fatal("usage")
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "check":
		os.Exit(check(os.Args[2], Tier(os.Args[3]), os.Args[4]))
	case "worker":
		worker(os.Args[2], Tier(os.Args[3]), atoi(os.Args[4]), atoi(os.Args[5]), os.Args[6], atoi(os.Args[7]), os.Args[8])
	case "one":
		one(os.Args[2], Tier(os.Args[3]), os.Args[4], os.Args[5], len(os.Args) > 6)
	case "replay":
		os.Exit(replay(os.Args[2]))
	default:
		if f := extra[os.Args[1]]; f != nil {
			f(os.Args[2:])
			return
		}
		fatal("unknown command " + os.Args[1])
	}
}

var extra = map[string]func([]string){}

// Command registers a further subcommand of the harness.
func Command(name string, f func([]string)) { extra[name] = f }

func fatal(s string) {
	fmt.Fprintln(os.Stderr, "mc: "+s)
	os.Exit(2)
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		fatal(err.Error())
	}
	return n
}

func prop(id string) *Property {
	p := registry[id]
	if p == nil {
		fatal("unknown property " + id)
	}
	curProp = id
	return p
}

func hangOf(sc *Scenario) time.Duration {
	if sc.Hang > 0 {
		return sc.Hang
	}
	return 60 * time.Second
}

func loadKnown(path, id string) map[string]bool {
	known := map[string]bool{}
	f, err := os.Open(path)
	if err != nil {
		return known
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	for s.Scan() {
		l := s.Text()
		if !strings.HasPrefix(l, "finding: property="+id+" ") {
			continue
		}
		for _, w := range strings.Fields(l) {
			if strings.HasPrefix(w, "key=") {
				known[strings.TrimPrefix(w, "key=")] = true
			}
		}
	}
	return known
}

func worker(id string, tier Tier, w, nw int, out string, deadlineSec int, knownFile string) {
	p := prop(id)
	known := loadKnown(knownFile, id)
	rep := &workerReport{Known: map[string]int{}}
	hashes := map[uint64]struct{}{}
	deadline := time.Now().Add(time.Duration(deadlineSec) * time.Second)
	stopFile := filepath.Join(filepath.Dir(out), "stop")
	var stopped bool
	var lastStop time.Time
	stop := func() bool {
		if stopped {
			return true
		}
		if time.Since(lastStop) > 200*time.Millisecond {
			lastStop = time.Now()
			if _, err := os.Stat(stopFile); err == nil {
				stopped = true
			}
		}
		return stopped
	}
	curFile, err := os.Create(out + ".cur")
	if err != nil {
		fatal(err.Error())
	}
	var mu sync.Mutex
	var curScen *Scenario
	var curChoices []int
	var curStart time.Time
	active := false
	go func() {
		for {
			time.Sleep(time.Second)
			mu.Lock()
			if active && time.Since(curStart) > hangOf(curScen) {
				rep2 := workerReport{Known: map[string]int{}, Found: []Found{{Scenario: curScen.Name, Choices: curChoices, Key: "hang", Kind: "hang",
					Msg: fmt.Sprintf("execution did not finish within %s", hangOf(curScen))}}}
				writeJSON(out, rep2)
				os.Exit(0)
			}
			mu.Unlock()
		}
	}()
	for _, sc := range p.scenarios(tier) {
		sc := sc
		if o := os.Getenv("VERIF_ONLY"); o != "" && o != sc.Name && !(strings.HasSuffix(o, "*") && strings.HasPrefix(sc.Name, o[:len(o)-1])) { // while developing
			continue
		}
		if sc.Setup != nil {
			sc.Setup()
		}
		depth := sc.ShardDepth
		if depth == 0 {
			depth = 1
		}
		if sc.ShardDev {
			depth = 1 << 30
		}
		e := &engine{sc: &sc, w: w, nw: nw, depth: depth, tier: tier}
		st := &ScenarioStats{Name: sc.Name, Bounds: sc.Bounds, MaxDev: sc.MaxDev, Outcomes: map[string]int{}, hashes: map[uint64]struct{}{}}
		rep.Stats = append(rep.Stats, st)
		begin := func(c []int) {
			mu.Lock()
			curScen, curChoices, curStart, active = &sc, c, time.Now(), true
			mu.Unlock()
			b, _ := json.Marshal(curExec{sc.Name, c})
			b = append(b, '\n')
			curFile.WriteAt(b, 0)
		}
		end := func() {
			mu.Lock()
			active = false
			mu.Unlock()
		}
		st.Complete = e.explore(st, known, rep, deadline, stop, begin, end)
		st.States = len(st.hashes)
		for h := range st.hashes {
			hashes[h] = struct{}{}
		}
		st.hashes = nil
		if len(rep.Found) > 0 {
			os.WriteFile(stopFile, nil, 0644)
			break
		}
		if rep.Error != "" {
			break
		}
	}
	hf, err := os.Create(out + ".states")
	if err == nil {
		bw := bufio.NewWriter(hf)
		var b [8]byte
		for h := range hashes {
			binary.LittleEndian.PutUint64(b[:], h)
			bw.Write(b[:])
		}
		bw.Flush()
		hf.Close()
	}
	writeJSON(out, rep)
	if scratch != "" {
		os.RemoveAll(scratch)
	}
}

func parseChoices(s string) []int {
	var c []int
	if s == "" || s == "-" {
		return c
	}
	for _, w := range strings.Split(s, ",") {
		c = append(c, atoi(w))
	}
	return c
}

func joinChoices(c []int) string {
	if len(c) == 0 {
		return "-"
	}
	w := make([]string, len(c))
	for i, v := range c {
		w[i] = strconv.Itoa(v)
	}
	return strings.Join(w, ",")
}

// one runs a single execution: exit 0 fine, 1 violation, 2 harness error.
func one(id string, tier Tier, name, choices string, verbose bool) {
	p := prop(id)
	inFresh = true
	for _, sc := range p.scenarios(tier) {
		if sc.Name != name {
			continue
		}
		sc := sc
		if sc.Setup != nil {
			sc.Setup()
		}
		e := &engine{sc: &sc, nw: 1, depth: 1, tier: tier}
		done := make(chan struct{})
		go func() {
			select {
			case <-done:
			case <-time.After(hangOf(&sc)):
				fmt.Println("VIOLATED hang")
				os.Exit(1)
			}
		}()
		r := e.run(parseChoices(choices), true)
		close(done)
		if scratch != "" {
			os.RemoveAll(scratch)
		}
		if f := os.Getenv("VERIF_FRESH"); f != "" {
			writeJSON(f, freshReport{r.x.points, r.x.ops, r.x.log, r.x.states, r.x.outcome, r.viol, r.diverge})
			return
		}
		if verbose {
			for _, l := range r.x.log {
				fmt.Println("  " + l)
			}
		}
		if r.diverge != "" {
			fmt.Println("DIVERGED " + r.diverge)
			os.Exit(2)
		}
		if r.viol != nil {
			fmt.Printf("VIOLATED %s: %s\n", r.viol.Key, r.viol.Msg)
			os.Exit(1)
		}
		fmt.Println("HELD " + r.x.outcome)
		os.Exit(0)
	}
	fatal("unknown scenario " + name)
}

// Replay is the artefact of a violation.
type Replay struct {
	Property string   `json:"property"`
	Tier     Tier     `json:"tier"`
	Scenario string   `json:"scenario"`
	Choices  []int    `json:"choices"`
	Key      string   `json:"key"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace"`
	How      string   `json:"how_to_replay"`
	// Workers > 0: the violation needs the executions before it; replaying repeats that part of
	// the exploration in one process.
	Worker  int `json:"worker,omitempty"`
	Workers int `json:"workers,omitempty"`
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal(err.Error())
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fatal(err.Error())
	}
	if r.Workers > 0 {
		if f := history(r.Property, r.Tier, r.Worker, r.Workers, 3600, "", os.Getenv("VERIF_SCRATCH")); f != nil && f.Scenario == r.Scenario && f.Key == r.Key {
			fmt.Printf("VIOLATED %s after the executions before it: %s\nVIOLATION property=%s replay=%s\n", f.Key, f.Msg, r.Property, file)
			return 1
		}
		return 0
	}
	cmd := exec.Command(os.Args[0], "one", r.Property, string(r.Tier), r.Scenario, joinChoices(r.Choices), "-v")
	cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
	err = cmd.Run()
	if err == nil {
		return 0
	}
	if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
		return 1
	}
	return 2
}

// history runs one worker's part of the exploration again and returns what it finds.
func history(id string, tier Tier, w, nw, deadline int, knownFile, scratch string) *Found {
	dir, err := os.MkdirTemp(scratch, "history")
	if err != nil {
		return nil
	}
	defer os.RemoveAll(dir)
	out := filepath.Join(dir, "out.json")
	cmd := exec.Command(os.Args[0], "worker", id, string(tier), strconv.Itoa(w), strconv.Itoa(nw), out, strconv.Itoa(deadline), knownFile)
	cmd.Run()
	var r workerReport
	b, err := os.ReadFile(out)
	if err != nil || json.Unmarshal(b, &r) != nil || len(r.Found) == 0 {
		return nil
	}
	return &r.Found[0]
}

// ignored are suspects of an earlier pass that could not be reproduced.
func ignored(scenario, key string) bool {
	for _, l := range strings.Split(os.Getenv("VERIF_IGNORE"), "\n") {
		if l == scenario+" "+key {
			return true
		}
	}
	return false
}

func check(id string, tier Tier, verif string) int {
	start := time.Now()
	p := prop(id)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	nw := numWorkers(p)
	out := os.Getenv("VERIF_SCRATCH")
	deadline := 420
	if tier == Thorough {
		deadline = 3600
	}
	if d := os.Getenv("VERIF_DEADLINE"); d != "" {
		deadline = atoi(d)
	}
	knownFile := filepath.Join(verif, "known_findings.txt")
	var wg sync.WaitGroup
	errs := make([]error, nw)
	outputs := make([][]byte, nw)
	for w := 0; w < nw; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(os.Args[0], "worker", id, string(tier), strconv.Itoa(w), strconv.Itoa(nw),
				filepath.Join(out, fmt.Sprintf("worker%d.json", w)), strconv.Itoa(deadline), knownFile)
			outputs[w], errs[w] = cmd.CombinedOutput()
		}()
	}
	wg.Wait()

	stats := map[string]*ScenarioStats{}
	var order []string
	known := map[string]int{}
	var found []Found
	states := map[uint64]struct{}{}
	harnessErr := ""
	for w := 0; w < nw; w++ {
		f := filepath.Join(out, fmt.Sprintf("worker%d.json", w))
		b, err := os.ReadFile(f)
		if err != nil || errs[w] != nil {
			// the worker died: the execution it was in is the suspect
			var c curExec
			cb, _ := os.ReadFile(f + ".cur")
			if i := strings.IndexByte(string(cb), '\n'); i > 0 && json.Unmarshal(cb[:i], &c) == nil && c.Scenario != "" {
				found = append(found, Found{worker: w, Scenario: c.Scenario, Choices: c.Choices, Key: "crash", Kind: "crash",
					Msg: fmt.Sprintf("process died: %v: %s", errs[w], tail(outputs[w], 1500))})
			} else {
				harnessErr = fmt.Sprintf("worker %d: %v: %s", w, errs[w], tail(outputs[w], 3000))
			}
			continue
		}
		var r workerReport
		if err := json.Unmarshal(b, &r); err != nil {
			harnessErr = err.Error()
			continue
		}
		if r.Error != "" {
			harnessErr = r.Error
		}
		for i := range r.Found {
			r.Found[i].worker = w
		}
		found = append(found, r.Found...)
		for k, n := range r.Known {
			known[k] += n
		}
		for _, s := range r.Stats {
			m := stats[s.Name]
			if m == nil {
				m = &ScenarioStats{Name: s.Name, Bounds: s.Bounds, MaxDev: s.MaxDev, Complete: true, Outcomes: map[string]int{}}
				stats[s.Name] = m
				order = append(order, s.Name)
			}
			m.Executions += s.Executions
			m.Ops += s.Ops
			m.Decisions += s.Decisions
			m.States += s.States
			m.Unstable += s.Unstable
			if s.MaxPoints > m.MaxPoints {
				m.MaxPoints = s.MaxPoints
			}
			m.Complete = m.Complete && s.Complete
			for k, n := range s.Outcomes {
				if len(m.Outcomes) < 64 || m.Outcomes[k] > 0 {
					m.Outcomes[k] += n
				}
			}
			if len(m.Samples) < 2 {
				m.Samples = append(m.Samples, s.Samples...)
			}
			if len(m.Samples) > 2 {
				m.Samples = m.Samples[:2]
			}
		}
		if sb, err := os.ReadFile(f + ".states"); err == nil {
			for i := 0; i+8 <= len(sb); i += 8 {
				states[binary.LittleEndian.Uint64(sb[i:])] = struct{}{}
			}
		}
	}

	// Confirm suspects in fresh processes, shortest first.
	sort.SliceStable(found, func(i, j int) bool { return len(found[i].Choices) < len(found[j].Choices) })
	violations := 0
	var unconfirmed []string
	var lines []string
	for _, f := range found {
		if violations > 0 {
			break
		}
		repro := 0
		var trace string
		tries := 5
		if f.Kind == "hang" {
			tries = 1
		}
		for i := 0; i < tries; i++ {
			cmd := exec.Command(os.Args[0], "one", id, string(tier), f.Scenario, joinChoices(f.Choices), "-v")
			b, err := cmd.CombinedOutput()
			if err != nil {
				if ee, ok := err.(*exec.ExitError); ok {
					if ee.ExitCode() == 1 || (f.Kind == "crash" && ee.ExitCode() != 0) || (ee.ExitCode() == 2 && strings.Contains(string(b), "goroutine ")) {
						repro++
						trace = string(b)
					} else {
						trace = string(b)
					}
				}
			}
		}
		hist := 0
		if repro == 0 && f.Kind == "violation" {
			for hist < 2 {
				g := history(id, tier, f.worker, nw, deadline, knownFile, out)
				if g == nil || g.Scenario != f.Scenario || g.Key != f.Key || joinChoices(g.Choices) != joinChoices(f.Choices) {
					break
				}
				hist++
			}
			trace = fmt.Sprintf("fails only after the executions before it in the same process: part %d of %d of the exploration, repeated %d times with the same result", f.worker, nw, hist)
		}
		if repro == 0 && hist < 2 {
			unconfirmed = append(unconfirmed, fmt.Sprintf("%s %s %s: %s", f.Scenario, joinChoices(f.Choices), f.Key, f.Msg))
			continue
		}
		violations++
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0755)
		file := filepath.Join(dir, fmt.Sprintf("%s-%s.json", id, f.Scenario))
		tl := strings.Split(trace, "\n")
		if len(tl) > 400 {
			tl = append(tl[:200], tl[len(tl)-200:]...)
		}
		rp := Replay{Property: id, Tier: tier, Scenario: f.Scenario, Choices: f.Choices, Key: f.Key, Message: f.Msg, Trace: tl, How: "./check.sh replay " + file}
		if repro == 0 {
			rp.Worker, rp.Workers = f.worker, nw
			repro, tries = hist, hist
		}
		b, _ := json.MarshalIndent(rp, "", " ")
		os.WriteFile(file, b, 0644)
		fmt.Printf("%s: scenario %s, %d of %d re-runs reproduce\n%s\n", id, f.Scenario, repro, tries, tail([]byte(f.Msg), 2500))
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", id, file))
	}

	if violations == 0 && len(unconfirmed) > 0 && os.Getenv("VERIF_IGNORE") == "" {
		// Go on without the suspects that cannot be reproduced.
		var ign []string
		for _, f := range found {
			ign = append(ign, f.Scenario+" "+f.Key)
		}
		fmt.Printf("not reproducible, going on without: %s\n", strings.Join(ign, "; "))
		os.Setenv("VERIF_IGNORE", strings.Join(ign, "\n"))
		os.Remove(filepath.Join(out, "stop"))
		return check(id, tier, verif)
	}

	var execs, ops, decisions int64
	complete := harnessErr == "" && len(found) == 0
	var scen []*ScenarioStats
	var samples []string
	distinctOutcomes := 0
	for _, n := range order {
		s := stats[n]
		execs += s.Executions
		ops += s.Ops
		decisions += s.Decisions
		complete = complete && s.Complete
		scen = append(scen, s)
		samples = append(samples, s.Samples...)
		distinctOutcomes += len(s.Outcomes)
	}
	cov := map[string]interface{}{"exhaustive": complete, "scenarios": scen, "samples": samples, "decision_points": decisions, "distinct_outcomes": distinctOutcomes, "workers": nw}
	if p.Level == "fault_enumeration" {
		cov["evaluations"] = execs
		cov["distinct_nontrivial"] = len(states)
		cov["rule"] = p.Rule
		cov["operations"] = ops
	} else {
		cov["states"] = len(states)
		cov["transitions"] = ops
		cov["traces_validated_against_impl"] = execs
		cov["rule"] = p.Rule
	}
	if len(unconfirmed) > 0 {
		cov["unconfirmed"] = unconfirmed
	}
	ev := map[string]interface{}{"property": id, "tier": string(tier), "seed": seed, "level": p.Level, "coverage": cov,
		"assumptions": p.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": violations}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	for k, n := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d executions)\n", id, k, n)
	}
	fmt.Printf("%s %s: %d executions, %d operations, %d states, complete=%v, %.1fs\n", id, tier, execs, ops, len(states), complete, time.Since(start).Seconds())
	for _, u := range unconfirmed {
		fmt.Println("unconfirmed: " + tail([]byte(u), 600))
	}
	for _, l := range lines {
		fmt.Println(l)
	}
	if violations > 0 {
		return 1
	}
	if harnessErr != "" {
		fmt.Fprintln(os.Stderr, "harness error: "+harnessErr)
		return 2
	}
	return 0
}

func tail(b []byte, n int) string {
	if len(b) > n {
		return string(b[:n/2]) + "\n...\n" + string(b[len(b)-n/2:])
	}
	return string(b)
}
