// Package core is a small explicit-state / stateless model checker for Go
// implementations.
//
// A Part is a program (Body) that drives the real implementation and compares
// it with a reference model. Every source of nondeterminism (configuration,
// operation, argument, environment answer, fault) is resolved by X.Choose. The
// engine enumerates ALL choice sequences within the part's bounds, either
// statelessly (DFS over the choice tree) or with state deduplication (BFS,
// pruning at X.Step when the canonical state was seen before).
package core

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Mode selects how a part is explored.
type Mode int

const (
	// DFS enumerates every choice sequence (no state merging).
	DFS Mode = iota
	// BFS enumerates every reachable canonical state breadth first.
	BFS
)

// Part is one bounded space of behaviours.
type Part struct {
	Name   string
	Bounds string // human-readable statement of the bounds
	Mode   Mode
	Depth  int // maximal number of Steps (0: unlimited, the body ends itself)
	Budget int // maximal number of deviations (faults) per execution
	Body   func(x *X)
}

type stopSentinel struct{} // execution ended by the engine
type skipSentinel struct{} // execution belongs to another shard
type abandoned struct{}    // execution pruned by the body (not counted)
type violation struct{ msg string }

// X is the context of one execution.
type X struct {
	part    *Part
	eng     *engine
	forced  []int32
	choices []int32
	arity   []int32
	begun   bool
	steps   int // completed Step calls
	dev     int // deviations used
	Verbose bool
	log     []string
	trans   int
	defers  []func()
	diverge bool
	cfgHash uint64 // of the choices before Begin
	cfgKey  uint64 // of the choices before Config

	replaySteps int  // replay only: stop after this many steps
	replayFinal bool // replay only: the failure is in the final check
	inFinal     bool
}

// Choose resolves a nondeterministic choice among n alternatives.
func (x *X) Choose(n int, label string) int {
	if n <= 0 {
		panic(fmt.Sprintf("harness error: choice among %d alternatives (%s)", n, label))
	}
	i := len(x.choices)
	v := int32(0)
	if i < len(x.forced) {
		v = x.forced[i]
		if int(v) >= n {
			x.diverge = true
			v = 0
		}
	}
	x.choices = append(x.choices, v)
	x.arity = append(x.arity, int32(n))
	if x.eng != nil && x.eng.shm != nil {
		x.eng.publish(i, v)
	}
	if x.Verbose && label != "" {
		x.log = append(x.log, fmt.Sprintf("choose %s = %d of %d", label, v, n))
	}
	return int(v)
}

// Bool is a two-way choice.
func (x *X) Bool(label string) bool { return x.Choose(2, label) == 1 }

// Deviate is a choice whose non-zero alternatives count against the deviation
// budget (faults, short transfers, ...).
func (x *X) Deviate(n int, label string) int {
	if x.dev >= x.part.Budget {
		return 0
	}
	c := x.Choose(n, label)
	if c != 0 {
		x.dev++
	}
	return c
}

// Deviations returns the number of deviations used so far.
func (x *X) Deviations() int { return x.dev }

// Pick chooses one element of a list.
func Pick[T any](x *X, label string, list ...T) T {
	return list[x.Choose(len(list), label)]
}

func (x *X) hashChoices() uint64 {
	h := fnv.New64a()
	for _, c := range x.choices {
		h.Write([]byte{byte(c), byte(c >> 8), byte(c >> 16), 0x55})
	}
	return mix(h.Sum64())
}

// Config ends the choices that make up the configuration. States of different
// configurations are never merged.
func (x *X) Config() { x.cfgKey = x.hashChoices() }

// Begin ends the choices that determine the shard: those of the configuration
// and perhaps the first operation.
func (x *X) Begin() {
	if x.begun {
		return
	}
	x.begun = true
	x.cfgHash = x.hashChoices()
	if x.eng != nil && x.eng.shards > 1 && x.cfgHash%uint64(x.eng.shards) != uint64(x.eng.shard) {
		panic(skipSentinel{})
	}
}

func mix(v uint64) uint64 {
	v ^= v >> 33
	v *= 0xff51afd7ed558ccd
	v ^= v >> 33
	v *= 0xc4ceb9fe1a85ec53
	v ^= v >> 33
	return v
}

// Step marks the end of a transition. state returns the canonical state; it is
// only called when needed.
//
// final holds destructive checks of the state reached (e.g. reading everything
// back); they run once per explored state, on an execution that ends there.
func (x *X) Step(state func() uint64, final func()) {
	x.steps++
	if x.eng != nil && x.eng.shm != nil {
		x.eng.shm[3] = int32(x.steps)
	}
	if x.part.Mode == DFS {
		if x.eng != nil {
			x.eng.maxSteps = max(x.eng.maxSteps, x.steps)
		}
		if x.part.Depth > 0 && x.steps > x.part.Depth || final != nil && x.Choose(2, "") == 0 {
			x.end(final)
		}
		return
	}
	if x.eng != nil {
		x.eng.atStep(x, state, final)
		return
	}
	// Replay of a deduplicated part.
	if x.replayFinal && x.steps >= x.replaySteps {
		x.end(final)
	}
	if x.steps > x.replaySteps {
		panic(stopSentinel{})
	}
}

// end runs the final checks and ends the execution.
func (x *X) end(final func()) {
	if final != nil {
		x.inFinal = true
		final()
	}
	panic(stopSentinel{})
}

// End runs the final checks of a stateless part.
func (x *X) End(final func()) {
	x.inFinal = true
	final()
}

// T counts calls into the implementation.
func (x *X) T() { x.trans++ }

// Logf adds a line to the trace (only when the execution is traced).
func (x *X) Logf(format string, args ...any) {
	if x.Verbose {
		x.log = append(x.log, fmt.Sprintf(format, args...))
	}
}

// Fail reports a property violation.
func (x *X) Fail(format string, args ...any) {
	panic(&violation{fmt.Sprintf(format, args...)})
}

// Assert fails when cond is false.
func (x *X) Assert(cond bool, format string, args ...any) {
	if !cond {
		panic(&violation{fmt.Sprintf(format, args...)})
	}
}

// Abandon drops the execution: its choices describe no valid case.
func (x *X) Abandon() { panic(abandoned{}) }

// Defer registers clean-up code for the end of the execution.
func (x *X) Defer(f func()) { x.defers = append(x.defers, f) }

// Outcome records an observed outcome (to show that executions differ).
func (x *X) Outcome(v uint64) {
	if x.eng != nil && len(x.eng.outcomes) < 1<<20 {
		x.eng.outcomes[v] = struct{}{}
	}
}

// OutcomeS is Outcome for strings.
func (x *X) OutcomeS(parts ...string) {
	if x.eng != nil {
		h := fnv.New64a()
		for _, p := range parts {
			h.Write([]byte(p))
			h.Write([]byte{0})
		}
		x.Outcome(h.Sum64())
	}
}

// Result of one execution.
type execResult struct {
	kind  int // 0 complete, 1 stopped at a step, 2 skipped, 3 abandoned, 4 violation
	msg   string
	panik bool
}

const (
	rComplete = iota
	rStopped
	rSkipped
	rAbandoned
	rViolation
)

func (x *X) run() (res execResult) {
	defer func() {
		r := recover()
		for i := len(x.defers) - 1; i >= 0; i-- {
			x.defers[i]()
		}
		if r == nil {
			return
		}
		switch v := r.(type) {
		case stopSentinel:
			res.kind = rStopped
		case skipSentinel:
			res.kind = rSkipped
		case abandoned:
			res.kind = rAbandoned
		case *violation:
			res.kind = rViolation
			res.msg = v.msg
		default:
			text := fmt.Sprint(v)
			if strings.HasPrefix(text, "harness error:") {
				fmt.Fprintf(os.Stderr, "%s\n%s\n", text, debug.Stack())
				os.Exit(3)
			}
			res.kind = rViolation
			res.panik = true
			res.msg = "panic: " + text + " " + frames(string(debug.Stack()))
		}
	}()
	x.part.Body(x)
	return execResult{kind: rComplete}
}

// frames extracts the function names between the panic and the harness.
func frames(stack string) string {
	var out []string
	seen := false
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			out = out[:0]
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") || l == "" {
			continue
		}
		if i := strings.LastIndex(l, "("); i > 0 {
			l = l[:i]
		}
		if strings.Contains(l, "zzverif/core") {
			break
		}
		out = append(out, strings.TrimPrefix(l, "github.com/dargueta/disko/"))
		if len(out) == 6 {
			break
		}
	}
	return "[" + strings.Join(out, " < ") + "]"
}

// Violation is a reported counterexample.
type Violation struct {
	Part    string   `json:"part"`
	Message string   `json:"message"`
	Choices []int32  `json:"choices"`
	Steps   int      `json:"steps"`
	InFinal bool     `json:"in_final_check,omitempty"`
	Trace   []string `json:"trace,omitempty"`
	Known   bool     `json:"known,omitempty"`
}

// PartResult is what one worker covered of one part.
type PartResult struct {
	Part        string      `json:"part"`
	Bounds      string      `json:"bounds"`
	States      int64       `json:"states"`
	Transitions int64       `json:"transitions"`
	Executions  int64       `json:"executions"`
	Outcomes    int         `json:"outcomes"`
	MaxSteps    int         `json:"max_steps"`
	Complete    bool        `json:"complete"`
	Divergences int64       `json:"divergences"`
	WallS       float64     `json:"wall_s"`
	Samples     [][]string  `json:"samples,omitempty"`
	Violations  []Violation `json:"violations,omitempty"`
	LevelDone   int         `json:"level_done"`
}

// shm layout: number of choices, part index, heartbeat, steps, choices...
const shmHeader = 4

type engine struct {
	part     *Part
	shard    int
	shards   int
	deadline time.Time
	shm      []int32
	partIdx  int
	outcomes map[uint64]struct{}
	known    func(part, msg string) bool

	// BFS
	seen      map[uint64]struct{}
	queue     [][]int32
	replay    int // number of steps in the current prefix
	newPrefix bool
	maxSteps  int
	res       *PartResult
	execNo    int64
}

func (e *engine) publish(i int, v int32) {
	if i+shmHeader < len(e.shm) {
		e.shm[i+shmHeader] = v
		e.shm[0] = int32(i + 1)
	}
}

func (e *engine) atStep(x *X, state func() uint64, final func()) {
	e.maxSteps = max(e.maxSteps, x.steps)
	if x.steps <= e.replay {
		return
	}
	// First new step: canonical state.
	h := mix(state() + 0x9e3779b97f4a7c15*uint64(x.dev) + x.cfgKey)
	if x.steps == 1 {
		// The first operation may have been chosen already.
		h = mix(h ^ x.cfgHash)
	}
	if _, ok := e.seen[h]; !ok {
		e.seen[h] = struct{}{}
		e.res.States++
		if e.part.Depth == 0 || x.steps <= e.part.Depth {
			e.queue = append(e.queue, append([]int32{int32(x.steps)}, x.choices...))
		}
		x.end(final)
	}
	panic(stopSentinel{})
}

func (e *engine) exec(forced []int32) (*X, execResult) {
	x := &X{part: e.part, eng: e, forced: forced}
	e.execNo++
	switch e.execNo {
	case 2, 50, 5000:
		x.Verbose = true
	}
	if e.shm != nil {
		e.shm[0] = 0
		e.shm[3] = 0
		e.shm[1] = int32(e.partIdx)
		e.shm[2]++ // heartbeat
	}
	r := x.run()
	e.res.Transitions += int64(x.trans)
	if x.diverge {
		e.res.Divergences++
	}
	switch r.kind {
	case rSkipped, rAbandoned:
	default:
		e.res.Executions++
		if x.Verbose && len(e.res.Samples) < 3 && len(x.log) > 0 && r.kind != rViolation {
			l := x.log
			if len(l) > 40 {
				l = l[:40]
			}
			e.res.Samples = append(e.res.Samples, l)
		}
	}
	return x, r
}

// next computes the DFS successor of a choice sequence, keeping the first
// `keep` choices fixed. ok is false if the subtree is exhausted.
func next(choices, arity []int32, keep int) ([]int32, bool) {
	i := len(choices) - 1
	for i >= keep && choices[i]+1 >= arity[i] {
		i--
	}
	if i < keep {
		return nil, false
	}
	out := append([]int32(nil), choices[:i+1]...)
	out[i]++
	return out, true
}

func (e *engine) report(x *X, r execResult) (stop bool) {
	v := Violation{Part: e.part.Name, Message: r.msg, Choices: append([]int32(nil), x.choices...), Steps: x.steps, InFinal: x.inFinal}
	if e.known != nil && e.known(e.part.Name, r.msg) {
		v.Known = true
		for _, o := range e.res.Violations {
			if o.Known && o.Message == v.Message {
				return false
			}
		}
	}
	// Re-run traced.
	y := &X{part: e.part, forced: v.Choices, Verbose: true, replaySteps: v.Steps, replayFinal: v.InFinal}
	y.begun = true // no shard test
	func() {
		defer func() { recover() }()
		y.run()
	}()
	v.Trace = y.log
	if len(v.Trace) > 400 {
		v.Trace = append(v.Trace[:200:200], v.Trace[len(v.Trace)-200:]...)
	}
	e.res.Violations = append(e.res.Violations, v)
	return !v.Known
}

func (e *engine) timeUp() bool {
	return e.execNo&63 == 0 && time.Now().After(e.deadline)
}

func (e *engine) runDFS() {
	var forced []int32
	first := true
	for {
		x, r := e.exec(forced)
		common := len(forced)
		if first {
			common = 0
		} else if common > 0 {
			common--
		}
		first = false
		if r.kind != rSkipped && r.kind != rAbandoned {
			e.res.States += int64(len(x.choices) - common)
		}
		if r.kind == rViolation && e.report(x, r) {
			return
		}
		f, ok := next(x.choices, x.arity, 0)
		if !ok {
			e.res.Complete = true
			return
		}
		forced = f
		if e.timeUp() {
			return
		}
	}
}

func (e *engine) runBFS() {
	e.seen = map[uint64]struct{}{}
	e.queue = [][]int32{{0}}
	for head := 0; head < len(e.queue); head++ {
		item := e.queue[head]
		e.queue[head] = nil
		e.replay = int(item[0])
		e.res.LevelDone = e.replay
		prefix := item[1:]
		forced := prefix
		for {
			x, r := e.exec(forced)
			if r.kind == rViolation && e.report(x, r) {
				return
			}
			f, ok := next(x.choices, x.arity, len(prefix))
			if !ok {
				break
			}
			forced = f
			if e.timeUp() {
				return
			}
		}
	}
	e.res.Complete = true
}

func runPart(p *Part, idx, shard, shards int, deadline time.Time, shm []int32, known func(part, msg string) bool) *PartResult {
	e := &engine{part: p, partIdx: idx, shard: shard, shards: shards, deadline: deadline, shm: shm, known: known,
		outcomes: map[uint64]struct{}{}, res: &PartResult{Part: p.Name, Bounds: p.Bounds}}
	t0 := time.Now()
	if p.Mode == DFS {
		e.runDFS()
	} else {
		e.runBFS()
	}
	e.res.WallS = time.Since(t0).Seconds()
	e.res.Outcomes = len(e.outcomes)
	e.res.MaxSteps = e.maxSteps
	return e.res
}

// replayPart runs one choice sequence and returns the violation, if any.
func replayPart(p *Part, choices []int32, steps int, inFinal, verbose bool) (msg string, log []string, failed bool) {
	x := &X{part: p, forced: choices, Verbose: verbose, replaySteps: steps, replayFinal: inFinal}
	x.begun = true
	r := x.run()
	return r.msg, x.log, r.kind == rViolation
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
