// Package mc is a small stateless model checker for real Go code.
//
// A scenario is a deterministic program that asks X.Choose for every nondeterministic
// decision. The explorer enumerates every decision sequence (optionally bounding the number of
// deviations from the default answer), running the program once per sequence. Worker processes
// share the tree by the hash of its first decisions.
package mc

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Tier of a run.
type Tier string

const (
	Quick    Tier = "quick"
	Thorough Tier = "thorough"
)

// Pick returns q in the quick tier and t in the thorough one.
func (t Tier) Pick(q, th int) int {
	if t == Thorough {
		return th
	}
	return q
}

// Scenario is one closed driver program with its bounds.
type Scenario struct {
	Name   string
	Bounds string // what is enumerated, for the evidence
	Body   func(x *X)
	// MaxDev bounds the sum of deviation costs of Dev choices in one execution.
	MaxDev int
	// ShardDepth: how many leading decisions distribute executions over workers (default 1).
	ShardDepth int
	// ShardDev distributes executions by their first deviation instead (executions are expensive
	// and differ mostly in their deviations).
	ShardDev bool
	// Hang is how long one execution may take before it counts as hung (default 60s).
	Hang time.Duration
	// Setup runs once per worker process before the scenario's executions.
	Setup func()
	// Streams: needs the streaming functions behind Seal and Open (HaveStreams).
	Streams bool
	// FastKDF: needs the fast stand-in for the key derivation (HaveFastKDF).
	FastKDF bool
}

// HaveStreams says that the tree has the streaming functions; without them the scenarios that
// need them are left out (and not listed in the evidence).
var HaveStreams = true

// HaveFastKDF says the same of the stand-in for the key derivation.
var HaveFastKDF = true

func (p *Property) scenarios(t Tier) []Scenario {
	var r []Scenario
	for _, s := range p.Scenarios(t) {
		if (HaveStreams || !s.Streams) && (HaveFastKDF || !s.FastKDF) {
			r = append(r, s)
		}
	}
	return r
}

// Property is a check.
type Property struct {
	ID          string
	Level       string // model_checking or fault_enumeration
	Rule        string
	Assumptions []string
	Scenarios   func(t Tier) []Scenario
	Workers     int // 0: number of CPUs
}

var registry = map[string]*Property{}

// Register adds a property to the harness.
func Register(p Property) { registry[p.ID] = &p }

// Point is one decision of an execution.
type Point struct {
	Label string
	N, C  int
	Dev   bool
}

// Violation is what a failed execution found.
type Violation struct {
	Key string
	Msg string
}

type abortProbe struct{}
type divergence struct{ msg string }

// X is one execution.
type X struct {
	prefix  []int
	points  []Point
	ops     int64
	log     []string
	verbose bool
	eng     *engine
	cleanup []func()
	states  []uint64
	outcome string
	dirUsed bool
	Tier    Tier
}

func (x *X) choose(label string, n int, dev bool) int {
	if n <= 0 {
		panic(divergence{fmt.Sprintf("choice %q with %d alternatives", label, n)})
	}
	c := 0
	if i := len(x.points); i < len(x.prefix) {
		c = x.prefix[i]
		if c >= n {
			panic(divergence{fmt.Sprintf("replay diverged at point %d (%s): choice %d of %d", i, label, c, n)})
		}
	}
	x.points = append(x.points, Point{label, n, c, dev})
	if x.eng != nil && len(x.points) == x.eng.depth && !x.eng.owns(x.points) {
		panic(abortProbe{}) // another worker's part of the tree
	}
	if x.verbose {
		x.log = append(x.log, fmt.Sprintf("choose %s = %d of %d", label, c, n))
	}
	return c
}

// Choose returns a decision in [0,n); every value is explored.
func (x *X) Choose(label string, n int) int { return x.choose(label, n, false) }

// Bool is Choose over {false,true}.
func (x *X) Bool(label string) bool { return x.Choose(label, 2) == 1 }

// Dev is Choose where every value but 0 costs one deviation.
func (x *X) Dev(label string, n int) int { return x.choose(label, n, true) }

// Op counts one step of the real code and logs it on replay.
func (x *X) Op(format string, args ...interface{}) {
	x.ops++
	if x.verbose {
		x.log = append(x.log, fmt.Sprintf(format, args...))
	}
}

// Ops counts n further steps of the real code.
func (x *X) Ops(n int) { x.ops += int64(n) }

// Logf adds to the replay log.
func (x *X) Logf(format string, args ...interface{}) {
	if x.verbose {
		x.log = append(x.log, fmt.Sprintf(format, args...))
	}
}

// Verbose reports whether the execution is a replay.
func (x *X) Verbose() bool { return x.verbose }

// State records a canonical observed state.
func (x *X) State(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch v := p.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		case bool:
			if v {
				h.Write([]byte{1})
			} else {
				h.Write([]byte{0})
			}
		case int:
			for i := 0; i < 8; i++ {
				h.Write([]byte{byte(v >> (8 * uint(i)))})
			}
		default:
			fmt.Fprint(h, p)
		}
		h.Write([]byte{0xfe, 0xff})
	}
	x.states = append(x.states, h.Sum64())
}

// Outcome labels the execution; distinct labels are counted.
func (x *X) Outcome(format string, args ...interface{}) { x.outcome = fmt.Sprintf(format, args...) }

// Skip ends an execution that calls for something the code under test does not have.
type Skip struct{ What string }

// Fail ends the execution with a violation; key identifies the failing input class.
func (x *X) Fail(key, format string, args ...interface{}) {
	panic(Violation{key, fmt.Sprintf(format, args...)})
}

// Check fails unless ok.
func (x *X) Check(ok bool, key, format string, args ...interface{}) {
	if !ok {
		x.Fail(key, format, args...)
	}
}

// Fresh runs body in a process of its own, in which nothing of the program under test has run
// before. What has been chosen so far is chosen there too.
func (x *X) Fresh(body func()) {
	if inFresh {
		body()
		return
	}
	ch := x.prefix
	if len(ch) < len(x.points) {
		ch = choicesOf(x.points)
	}
	name := filepath.Join(scratchDir(), "fresh.json")
	cmd := exec.Command(os.Args[0], "one", curProp, string(x.Tier), x.eng.sc.Name, joinChoices(ch))
	cmd.Env = append(os.Environ(), "VERIF_FRESH="+name)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	out, err := cmd.CombinedOutput()
	b, rerr := os.ReadFile(name)
	os.Remove(name)
	var r freshReport
	if rerr != nil || json.Unmarshal(b, &r) != nil {
		panic(Violation{"died", fmt.Sprintf("the process ended without a result: %v %s", err, tail(out, 2000))})
	}
	if r.Diverge != "" || len(r.Points) < len(x.points) {
		panic(divergence{"in a fresh process: " + r.Diverge})
	}
	for _, p := range r.Points[len(x.points):] {
		if c := x.choose(p.Label, p.N, p.Dev); c != p.C {
			panic(divergence{"fresh process chose otherwise"})
		}
	}
	x.ops += r.Ops
	x.log = append(x.log, r.Log...)
	x.states = append(x.states, r.States...)
	x.outcome = r.Outcome
	if r.Viol != nil {
		panic(*r.Viol)
	}
}

type freshReport struct {
	Points  []Point
	Ops     int64
	Log     []string
	States  []uint64
	Outcome string
	Viol    *Violation
	Diverge string
}

var (
	inFresh bool   // this process runs a single execution
	curProp string // property being checked
)

// Cleanup runs f after the execution.
func (x *X) Cleanup(f func()) { x.cleanup = append(x.cleanup, f) }

// Dir returns an empty scratch directory.
func (x *X) Dir() string {
	d := scratchDir()
	if !x.dirUsed {
		x.dirUsed = true
	}
	return d
}

// Path joins names to the scratch directory.
func (x *X) Path(elem ...string) string {
	return filepath.Join(append([]string{x.Dir()}, elem...)...)
}

var (
	scratchOnce sync.Once
	scratch     string
)

func scratchDir() string {
	scratchOnce.Do(func() {
		base := os.Getenv("VERIF_SCRATCH")
		if base == "" {
			panic("VERIF_SCRATCH not set")
		}
		d, err := os.MkdirTemp(base, "w")
		if err != nil {
			panic(err)
		}
		os.Chmod(d, 0777)
		scratch = d
	})
	return scratch
}

func emptyDir(d string) {
	ents, _ := os.ReadDir(d)
	for _, e := range ents {
		p := filepath.Join(d, e.Name())
		if e.IsDir() {
			os.RemoveAll(p)
		} else {
			os.Remove(p)
		}
	}
}

type engine struct {
	sc    *Scenario
	w, nw int
	depth int
	tier  Tier
}

func (e *engine) owns(pts []Point) bool {
	if e.nw <= 1 {
		return true
	}
	if e.sc.ShardDev {
		return e.ownsChoices(choicesOf(pts))
	}
	n := len(pts)
	if n > e.depth {
		n = e.depth
	}
	if n == 0 {
		return e.w == 0
	}
	v := uint64(0)
	for _, p := range pts[:n] {
		v = v*131 + uint64(p.C)
	}
	return v%uint64(e.nw) == uint64(e.w)
}

func (e *engine) ownsChoices(c []int) bool {
	h := uint32(len(c)) * 2654435761
	for _, v := range c {
		h = (h ^ uint32(v+1)) * 16777619
		h ^= h >> 15
	}
	return e.nw <= 1 || int(h%uint32(e.nw)) == e.w
}

// Result of one execution.
type result struct {
	x       *X
	viol    *Violation
	aborted bool
	diverge string
}

func (e *engine) run(prefix []int, verbose bool) (r result) {
	x := &X{prefix: prefix, eng: e, verbose: verbose, Tier: e.tier}
	r.x = x
	defer func() {
		for i := len(x.cleanup) - 1; i >= 0; i-- {
			x.cleanup[i]()
		}
		if x.dirUsed {
			emptyDir(scratch)
		}
	}()
	defer func() {
		p := recover()
		switch v := p.(type) {
		case nil:
		case abortProbe:
			r.aborted = true
		case divergence:
			r.diverge = v.msg
		case Violation:
			r.viol = &v
		case Skip:
			x.outcome = "absent: " + v.What
		default:
			r.viol = &Violation{"panic", fmt.Sprintf("panic: %v\n%s", p, trimStack(debug.Stack()))}
		}
	}()
	e.sc.Body(x)
	if len(x.points) < len(prefix) {
		panic(divergence{fmt.Sprintf("replay consumed %d of %d choices", len(x.points), len(prefix))})
	}
	return r
}

func trimStack(b []byte) string {
	s := string(b)
	if i := strings.Index(s, "panic("); i >= 0 {
		s = s[i:]
	}
	lines := strings.Split(s, "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

// ScenarioStats is what a worker reports per scenario.
type ScenarioStats struct {
	Name       string         `json:"name"`
	Bounds     string         `json:"bounds"`
	Executions int64          `json:"executions"`
	Ops        int64          `json:"ops"`
	Decisions  int64          `json:"decisions"`
	MaxPoints  int            `json:"max_decisions"`
	MaxDev     int            `json:"deviation_bound,omitempty"`
	Outcomes   map[string]int `json:"outcomes,omitempty"`
	Samples    []string       `json:"samples,omitempty"`
	Complete   bool           `json:"complete"`
	States     int            `json:"states"`
	Unstable   int            `json:"replay_mismatches,omitempty"`
	hashes     map[uint64]struct{}
}

// Found is a violation with how to reach it.
type Found struct {
	Scenario string  `json:"scenario"`
	Choices  []int   `json:"choices"`
	Points   []Point `json:"points,omitempty"`
	Key      string  `json:"key"`
	Msg      string  `json:"msg"`
	Kind     string  `json:"kind"`
	worker   int
}

type workerReport struct {
	Stats []*ScenarioStats `json:"stats"`
	Found []Found          `json:"found"`
	Known map[string]int   `json:"known"`
	Error string           `json:"error,omitempty"`
}

const maxStates = 6000000

type task struct {
	prefix []int // fixed choices
	lo, hi int   // alternatives [lo,hi) for the next choice; lo==hi==-1: run prefix as is
	dev    int   // deviations in prefix plus the pending alternative
	mine   bool  // with ShardDev: below a deviation this worker owns
}

type curExec struct {
	Scenario string `json:"scenario"`
	Choices  []int  `json:"choices"`
}

func sameRun(a, b result) bool {
	if len(a.x.points) != len(b.x.points) || len(a.x.states) != len(b.x.states) {
		return false
	}
	for i := range a.x.points {
		if a.x.points[i] != b.x.points[i] {
			return false
		}
	}
	for i := range a.x.states {
		if a.x.states[i] != b.x.states[i] {
			return false
		}
	}
	return true
}

// explore enumerates a scenario. It returns false if the deadline stopped it.
func (e *engine) explore(st *ScenarioStats, known map[string]bool, rep *workerReport, deadline time.Time, stop func() bool, begin func([]int), end func()) bool {
	stack := []task{{nil, -1, -1, 0, false}}
	reruns := 0
	for len(stack) > 0 {
		t := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		prefix := t.prefix
		if t.lo >= 0 {
			if t.lo+1 < t.hi {
				stack = append(stack, task{t.prefix, t.lo + 1, t.hi, t.dev, t.mine})
			}
			prefix = append(append(make([]int, 0, len(t.prefix)+1), t.prefix...), t.lo)
		}
		if time.Now().After(deadline) || stop() {
			return false
		}
		mine := t.mine
		if e.sc.ShardDev && t.dev > 0 && !mine {
			if !e.ownsChoices(prefix) {
				continue
			}
			mine = true
		}
		begin(prefix)
		r := e.run(prefix, false)
		end()
		if r.diverge != "" {
			rep.Error = e.sc.Name + ": " + r.diverge
			return false
		}
		owned := !r.aborted && (mine || e.owns(r.x.points))
		if owned {
			st.Executions++
			st.Ops += r.x.ops
			if len(r.x.points) > st.MaxPoints {
				st.MaxPoints = len(r.x.points)
			}
			st.Decisions += int64(len(r.x.points)-len(prefix)) + 1
			for _, h := range r.x.states {
				if len(st.hashes) < maxStates {
					st.hashes[h] = struct{}{}
				}
			}
			if r.x.outcome != "" {
				if len(st.Outcomes) < 64 || st.Outcomes[r.x.outcome] > 0 {
					st.Outcomes[r.x.outcome]++
				}
			}
			if st.Executions == 1 || st.Executions == 37 {
				st.Samples = append(st.Samples, describe(e.sc.Name, r.x))
			}
			if reruns < 2 && r.viol == nil && st.Executions%11 == 1 {
				reruns++
				r2 := e.run(choicesOf(r.x.points), false)
				if !sameRun(r, r2) {
					st.Unstable++
				}
			}
			if r.viol != nil {
				if known[r.viol.Key] {
					rep.Known[r.viol.Key]++
				} else if !ignored(e.sc.Name, r.viol.Key) {
					rep.Found = append(rep.Found, Found{Scenario: e.sc.Name, Choices: choicesOf(r.x.points), Points: r.x.points, Key: r.viol.Key, Msg: r.viol.Msg, Kind: "violation"})
					return false
				}
			}
		}
		// alternatives at the new points
		dev := t.dev
		for i := len(prefix); i < len(r.x.points); i++ {
			if i >= e.depth && !owned {
				break
			}
			p := r.x.points[i]
			cost := dev
			if p.Dev {
				cost++
				if cost > e.sc.MaxDev {
					continue
				}
			}
			if p.N > 1 {
				pre := make([]int, i)
				for j := 0; j < i; j++ {
					pre[j] = r.x.points[j].C
				}
				stack = append(stack, task{pre, 1, p.N, cost, mine})
			}
		}
	}
	return true
}

func choicesOf(pts []Point) []int {
	c := make([]int, len(pts))
	for i, p := range pts {
		c[i] = p.C
	}
	return c
}

func describe(name string, x *X) string {
	var b strings.Builder
	b.WriteString(name + ":")
	for i, p := range x.points {
		if i == 24 {
			b.WriteString(" ...")
			break
		}
		fmt.Fprintf(&b, " %s=%d/%d", p.Label, p.C, p.N)
	}
	if x.outcome != "" {
		b.WriteString(" -> " + x.outcome)
	}
	return b.String()
}

func writeJSON(path string, v interface{}) {
	b, err := json.Marshal(v)
	if err == nil {
		err = os.WriteFile(path, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "mc: write", path, err)
		os.Exit(2)
	}
}

func numWorkers(p *Property) int {
	n := runtime.NumCPU()
	if n > 16 {
		n = 16
	}
	if p.Workers > 0 && p.Workers < n {
		n = p.Workers
	}
	return n
}
