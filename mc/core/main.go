package core

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

// Property groups the parts deciding one property.
type Property struct {
	ID          string
	Parts       func(thorough bool) []*Part
	Assumptions []string
}

// Replay is the stored form of a counterexample.
type Replay struct {
	Property string    `json:"property"`
	Tier     string    `json:"tier"`
	Kind     string    `json:"kind"` // "execution", "shard", "crash", "hang"
	Shard    int       `json:"shard,omitempty"`
	Shards   int       `json:"shards,omitempty"`
	V        Violation `json:"violation"`
	HowTo    string    `json:"how_to_replay"`
}

type knownFinding struct {
	property, part string
	match          *regexp.Regexp
	what           string
}

const memLimit = 12 << 30

func loadKnown(path, property string) []knownFinding {
	var out []knownFinding
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	// finding: property=<id> part=<part> match=<regexp> :: <what fails>
	re := regexp.MustCompile(`^finding: property=(\S+) part=(\S+) match=(.*?) :: (.*)$`)
	for sc.Scan() {
		m := re.FindStringSubmatch(sc.Text())
		if m == nil || m[1] != property {
			continue
		}
		out = append(out, knownFinding{m[1], m[2], regexp.MustCompile(m[3]), m[4]})
	}
	return out
}

type options struct {
	property, tier, evidence, replays, known, out, shmFile, replay string
	seed, procs, shard, shards, only                               int
	worker                                                         bool
	budget                                                         float64
	partFilter                                                     string
	list                                                           bool
}

// Main is the entry point of every checker binary.
func Main(props ...Property) {
	var o options
	flag.StringVar(&o.property, "property", "", "property id")
	flag.StringVar(&o.tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&o.evidence, "evidence", "", "evidence file to write")
	flag.StringVar(&o.replays, "replays", "", "directory for counterexamples")
	flag.StringVar(&o.known, "known", "", "known findings file")
	flag.StringVar(&o.out, "out", "", "worker: result file")
	flag.StringVar(&o.shmFile, "shm", "", "worker: shared progress file")
	flag.StringVar(&o.replay, "replay", "", "replay a counterexample file")
	flag.IntVar(&o.seed, "seed", 1, "seed (recorded; the exploration is exhaustive)")
	flag.IntVar(&o.procs, "procs", 0, "number of worker processes")
	flag.IntVar(&o.shard, "shard", 0, "")
	flag.IntVar(&o.shards, "shards", 1, "")
	flag.BoolVar(&o.worker, "worker", false, "")
	flag.Float64Var(&o.budget, "budget", 0, "seconds for the exploration")
	flag.StringVar(&o.partFilter, "part", "", "only parts with this prefix")
	flag.BoolVar(&o.list, "list", false, "list properties and parts")
	flag.Parse()

	if o.list {
		for _, p := range props {
			for _, pt := range p.Parts(false) {
				fmt.Printf("%s %s: %s\n", p.ID, pt.Name, pt.Bounds)
			}
		}
		return
	}
	if o.replay != "" {
		os.Exit(doReplay(props, &o))
	}
	var prop *Property
	for i := range props {
		if props[i].ID == o.property {
			prop = &props[i]
		}
	}
	if prop == nil {
		fmt.Fprintln(os.Stderr, "unknown property", o.property)
		os.Exit(2)
	}
	if o.budget == 0 {
		o.budget = 240
		if o.tier == "thorough" {
			o.budget = 780
		}
	}
	if o.worker {
		worker(prop, &o)
		return
	}
	os.Exit(supervise(prop, &o))
}

func (o *options) parts(p *Property) []*Part {
	all := p.Parts(o.tier == "thorough")
	if o.partFilter == "" {
		return all
	}
	var out []*Part
	for _, pt := range all {
		if strings.HasPrefix(pt.Name, o.partFilter) {
			out = append(out, pt)
		}
	}
	return out
}

func limits() {
	lim := syscall.Rlimit{Cur: memLimit, Max: memLimit}
	syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
	debug.SetMaxStack(256 << 20)
}

func worker(prop *Property, o *options) {
	limits()
	debug.SetGCPercent(400)
	runtime.GOMAXPROCS(2)
	var shm []int32
	if o.shmFile != "" {
		f, err := os.OpenFile(o.shmFile, os.O_RDWR, 0)
		if err == nil {
			st, _ := f.Stat()
			m, err := syscall.Mmap(int(f.Fd()), 0, int(st.Size()), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			if err == nil {
				shm = unsafe.Slice((*int32)(unsafe.Pointer(&m[0])), len(m)/4)
			}
			f.Close()
		}
	}
	kf := loadKnown(o.known, prop.ID)
	known := func(part, msg string) bool {
		for _, k := range kf {
			if k.part == part && k.match.MatchString(msg) {
				return true
			}
		}
		return false
	}
	end := time.Now().Add(time.Duration(o.budget * float64(time.Second)))
	var results []*PartResult
	parts := o.parts(prop)
	for i, p := range parts {
		left := time.Until(end)
		// Every part gets a fair share of what is left, at least.
		deadline := time.Now().Add(2 * left / time.Duration(len(parts)-i+1))
		if i == len(parts)-1 {
			deadline = end
		}
		r := runPart(p, i, o.shard, o.shards, deadline, shm, known)
		results = append(results, r)
		bad := false
		for _, v := range r.Violations {
			bad = bad || !v.Known
		}
		if bad {
			break
		}
	}
	b, _ := json.Marshal(results)
	if err := os.WriteFile(o.out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
}

type child struct {
	shard   int
	cmd     *exec.Cmd
	out     string
	shm     string
	stderr  *bytes.Buffer
	done    chan error
	results []*PartResult
	hung    bool
	err     error
	merged  bool // its event was received
}

func readShm(path string) (part int, heartbeat int32, steps int, choices []int32) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 4*shmHeader {
		return
	}
	get := func(i int) int32 { return int32(binary.LittleEndian.Uint32(b[4*i:])) }
	n := int(get(0))
	part, heartbeat, steps = int(get(1)), get(2), int(get(3))
	if n > len(b)/4-shmHeader {
		n = len(b)/4 - shmHeader
	}
	for i := 0; i < n; i++ {
		choices = append(choices, get(i+shmHeader))
	}
	return
}

// heartbeat reads only the progress counters.
func heartbeat(path string) int32 {
	f, err := os.Open(path)
	if err != nil {
		return 0
	}
	defer f.Close()
	var b [16]byte
	f.Read(b[:])
	return int32(binary.LittleEndian.Uint32(b[8:]))
}

// cpuSeconds is the CPU time used by a child process of ours.
func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile("/proc/" + strconv.Itoa(pid) + "/stat")
	if err != nil {
		return 0
	}
	s := string(b)
	s = s[strings.LastIndex(s, ")")+1:]
	f := strings.Fields(s)
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	v, _ := strconv.ParseFloat(f[12], 64)
	return (u + v) / 100
}

const (
	hangCPU  = 45.0
	hangWall = 240 * time.Second
)

func watch(c *child, stop <-chan struct{}) {
	last := int32(-1)
	lastCPU := 0.0
	lastT := time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case <-stop:
			return
		case <-tick.C:
		}
		hb := heartbeat(c.shm)
		cpu := cpuSeconds(c.cmd.Process.Pid)
		if hb != last {
			last, lastCPU, lastT = hb, cpu, time.Now()
			continue
		}
		if cpu-lastCPU > hangCPU || time.Since(lastT) > hangWall {
			c.hung = true
			c.cmd.Process.Kill()
			return
		}
	}
}

func spawn(self string, o *options, tmp string, shard, shards int) *child {
	c := &child{shard: shard, out: filepath.Join(tmp, fmt.Sprintf("out%d", shard)), shm: filepath.Join(tmp, fmt.Sprintf("shm%d", shard)), stderr: &bytes.Buffer{}, done: make(chan error, 1)}
	os.WriteFile(c.shm, make([]byte, 256<<10), 0o644)
	args := []string{"-worker", "-property", o.property, "-tier", o.tier, "-shard", strconv.Itoa(shard), "-shards", strconv.Itoa(shards),
		"-out", c.out, "-shm", c.shm, "-known", o.known, "-budget", fmt.Sprint(o.budget), "-part", o.partFilter}
	c.cmd = exec.Command(self, args...)
	c.cmd.Env = append(os.Environ(), "MC_TMP="+tmp)
	c.cmd.Stderr = &limited{b: c.stderr}
	c.cmd.Stdout = nil
	c.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	return c
}

type limited struct {
	mu sync.Mutex
	b  *bytes.Buffer
}

func (l *limited) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 64<<10 {
		l.b.Write(p)
	}
	return len(p), nil
}

func (c *child) run() {
	runtime.LockOSThread() // Pdeathsig is tied to the thread
	defer runtime.UnlockOSThread()
	if err := c.cmd.Start(); err != nil {
		c.err = err
		c.done <- err
		return
	}
	stop := make(chan struct{})
	go watch(c, stop)
	err := c.cmd.Wait()
	close(stop)
	c.err = err
	if err == nil {
		b, rerr := os.ReadFile(c.out)
		if rerr == nil {
			rerr = json.Unmarshal(b, &c.results)
		}
		c.err = rerr
	}
	c.done <- c.err
}

func bad(rs []*PartResult) *Violation {
	for _, r := range rs {
		for i := range r.Violations {
			if !r.Violations[i].Known {
				return &r.Violations[i]
			}
		}
	}
	return nil
}

func supervise(prop *Property, o *options) int {
	t0 := time.Now()
	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, err := os.MkdirTemp("", "mcrun")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	n := o.procs
	if n <= 0 {
		n = runtime.NumCPU()
		if n > 8 {
			n = 8
		}
	}
	children := make([]*child, n)
	for i := range children {
		children[i] = spawn(self, o, tmp, i, n)
		go children[i].run()
	}
	// Wait; stop everything once a violation is confirmed.
	type ev struct{ c *child }
	evs := make(chan ev, n)
	for _, c := range children {
		go func(c *child) { <-c.done; evs <- ev{c} }(c)
	}
	kill := func() {
		for _, c := range children {
			if c.cmd.Process != nil {
				c.cmd.Process.Kill()
			}
		}
	}
	parts := o.parts(prop)
	notes := []string{}
	incomplete := false
	broken := false // the harness itself failed
	var rep *Replay
	for k := 0; k < n && rep == nil; k++ {
		c := (<-evs).c
		c.merged = true
		if c.err != nil {
			part, _, steps, choices := readShm(c.shm)
			text := c.stderr.String()
			if st, ok := c.cmd.ProcessState.Sys().(syscall.WaitStatus); ok && st.Exited() && (st.ExitStatus() == 3 || st.ExitStatus() == 4) {
				// A violation that another worker can reproduce still counts.
				fmt.Fprintf(os.Stderr, "worker %d: %s\n", c.shard, text)
				broken = true
				continue
			}
			if part >= len(parts) {
				part = 0
			}
			kind, msg := "crash", "the process died: "+firstLine(text)
			if c.hung {
				kind, msg = "hang", "no termination: one execution used more than the CPU limit"
			}
			r := &Replay{Property: prop.ID, Tier: o.tier, Kind: kind, V: Violation{Part: parts[part].Name, Message: msg, Choices: choices, Steps: steps + 1}}
			times := 5
			if kind == "hang" {
				times = 3
			}
			if confirm(self, tmp, r, times) {
				rep = r
			} else if again := rerunShard(self, o, tmp, c.shard, n); again != nil && again.err != nil && again.hung == c.hung {
				r.Kind, r.Shard, r.Shards = "shard", c.shard, n
				rep = r
			} else {
				notes = append(notes, fmt.Sprintf("worker %d ended abnormally and this did not happen again: %s", c.shard, firstLine(text)))
				incomplete = true
				if again != nil && again.err == nil {
					c.results = again.results
					if v := bad(again.results); v != nil {
						r := &Replay{Property: prop.ID, Tier: o.tier, Kind: "execution", V: *v}
						if confirm(self, tmp, r, 5) {
							rep = r
						}
					}
				}
			}
			continue
		}
		if v := bad(c.results); v != nil {
			r := &Replay{Property: prop.ID, Tier: o.tier, Kind: "execution", V: *v}
			if confirm(self, tmp, r, 5) {
				rep = r
				continue
			}
			// Not reproducible alone: does state leak between executions?
			ok := 0
			for i := 0; i < 2; i++ {
				again := rerunShard(self, o, tmp, c.shard, n)
				if again != nil && again.err == nil {
					if w := bad(again.results); w != nil && w.Part == v.Part && w.Message == v.Message {
						ok++
					}
				}
			}
			if ok == 2 {
				r.Kind, r.Shard, r.Shards = "shard", c.shard, n
				rep = r
			} else {
				notes = append(notes, "a failure was not reproducible and is not believed: "+v.Message)
				incomplete = true
			}
		}
	}
	kill()
	if broken && rep == nil {
		return 2
	}

	// Merge.
	merged := map[string]*PartResult{}
	var order []string
	knownSeen := map[string]bool{}
	for _, c := range children {
		if !c.merged {
			continue
		}
		for _, r := range c.results {
			m, ok := merged[r.Part]
			if !ok {
				m = &PartResult{Part: r.Part, Bounds: r.Bounds, Complete: true, LevelDone: r.LevelDone}
				merged[r.Part] = m
				order = append(order, r.Part)
			}
			m.States += r.States
			m.Transitions += r.Transitions
			m.Executions += r.Executions
			m.Outcomes += r.Outcomes
			m.Divergences += r.Divergences
			m.Complete = m.Complete && r.Complete
			m.MaxSteps = max(m.MaxSteps, r.MaxSteps)
			m.WallS = max(m.WallS, r.WallS)
			if !r.Complete {
				m.LevelDone = min(m.LevelDone, r.LevelDone)
			}
			if len(m.Samples) < 2 {
				m.Samples = append(m.Samples, r.Samples...)
			}
			for _, v := range r.Violations {
				if v.Known {
					for _, k := range loadKnown(o.known, prop.ID) {
						if k.part == v.Part && k.match.MatchString(v.Message) {
							knownSeen[k.what] = true
						}
					}
				}
			}
		}
	}
	for _, w := range sortedKeys(knownSeen) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop.ID, w)
	}

	var states, trans, execs, div int64
	exhaustive := !incomplete && rep == nil && len(merged) == len(parts)
	var samples []any
	var partsOut []map[string]any
	for _, name := range order {
		m := merged[name]
		states += m.States
		trans += m.Transitions
		execs += m.Executions
		div += m.Divergences
		exhaustive = exhaustive && m.Complete
		for i, s := range m.Samples {
			if i < 2 {
				samples = append(samples, map[string]any{"part": name, "trace": s})
			}
		}
		po := map[string]any{"part": name, "bounds": m.Bounds, "states": m.States, "transitions": m.Transitions,
			"executions": m.Executions, "observed_outcomes": m.Outcomes, "max_steps": m.MaxSteps, "complete": m.Complete, "wall_s": round(m.WallS)}
		if !m.Complete {
			po["bfs_levels_fully_explored"] = m.LevelDone
		}
		partsOut = append(partsOut, po)
	}
	exhaustive = exhaustive && div == 0
	if len(samples) == 0 {
		samples = append(samples, "no traced execution")
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": execs,
		"samples": samples, "exhaustive": exhaustive, "parts": partsOut,
		"explanation":      "Every state is a node of the choice tree (stateless parts) or a distinct canonical state of implementation plus environment (deduplicated parts), every transition a call into the real implementation, every trace an execution of the real implementation compared step by step with the reference model.",
		"worker_processes": n, "replay_divergences": div,
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	viol := 0
	if rep != nil {
		viol = 1
	}
	evd := map[string]any{"property": prop.ID, "tier": o.tier, "seed": o.seed, "level": "model_checking", "coverage": cov,
		"assumptions": prop.Assumptions, "wall_s": round(time.Since(t0).Seconds()), "violations": viol}
	if prop.Assumptions == nil {
		evd["assumptions"] = []string{}
	}
	if o.evidence != "" {
		b, _ := json.MarshalIndent(evd, "", " ")
		if err := os.WriteFile(o.evidence, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	fmt.Printf("property=%s tier=%s states=%d transitions=%d executions=%d exhaustive=%v wall=%.1fs\n", prop.ID, o.tier, states, trans, execs, exhaustive, time.Since(t0).Seconds())
	for _, po := range partsOut {
		fmt.Printf("  part %-28s states=%-9d transitions=%-9d executions=%-9d outcomes=%-7d steps<=%-3d complete=%v %.1fs\n", po["part"], po["states"], po["transitions"], po["executions"], po["observed_outcomes"], po["max_steps"], po["complete"], po["wall_s"])
	}
	for _, s := range notes {
		fmt.Println("note:", s)
	}
	if rep == nil {
		return 0
	}
	path := writeReplay(o, rep)
	fmt.Printf("part %s: %s\n", rep.V.Part, rep.V.Message)
	for i, l := range rep.V.Trace {
		if i > 60 {
			fmt.Println("  ...")
			break
		}
		fmt.Println("  " + l)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop.ID, path)
	return 1
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			if len(l) > 300 {
				l = l[:300]
			}
			return l
		}
	}
	return "(no output)"
}

func writeReplay(o *options, r *Replay) string {
	dir := o.replays
	if dir == "" {
		dir = os.TempDir()
	}
	os.MkdirAll(dir, 0o755)
	h := NewH().S(r.V.Part).S(r.V.Message)
	for _, c := range r.V.Choices {
		h.I(int(c))
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", r.Property, h.Sum()))
	r.HowTo = "/verif/check replay " + path
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

// confirm replays a counterexample in fresh processes; all of them must fail.
func confirm(self, tmp string, r *Replay, times int) bool {
	b, _ := json.Marshal(r)
	f := filepath.Join(tmp, fmt.Sprintf("confirm-%d.json", time.Now().UnixNano()))
	os.WriteFile(f, b, 0o644)
	var wg sync.WaitGroup
	okc := make([]bool, times)
	for i := 0; i < times; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			okc[i] = replayOnce(self, tmp, f, r)
		}(i)
	}
	wg.Wait()
	for _, ok := range okc {
		if !ok {
			return false
		}
	}
	return true
}

func replayOnce(self, tmp, file string, r *Replay) bool {
	cmd := exec.Command(self, "-replay", file)
	cmd.Env = append(os.Environ(), "MC_REPLAY_CHILD=1", "MC_TMP="+tmp)
	var out bytes.Buffer
	cmd.Stdout = &limited{b: &out}
	cmd.Stderr = cmd.Stdout
	if err := cmd.Start(); err != nil {
		return false
	}
	pid := cmd.Process.Pid
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	t0 := time.Now()
	for {
		select {
		case err := <-done:
			if err == nil {
				return false // did not fail
			}
			if r.Kind == "execution" {
				return strings.Contains(out.String(), "REPLAY-FAILS")
			}
			if strings.Contains(out.String(), "REPLAY-FAILS") {
				r.V.Message = strings.TrimSpace(strings.SplitN(strings.SplitN(out.String(), "REPLAY-FAILS ", 2)[1], "\n", 2)[0])
			}
			return r.Kind == "crash"
		case <-time.After(200 * time.Millisecond):
			if cpuSeconds(pid) > hangCPU || time.Since(t0) > hangWall {
				cmd.Process.Kill()
				<-done
				return r.Kind == "hang"
			}
		}
	}
}

func rerunShard(self string, o *options, tmp string, shard, shards int) *child {
	c := spawn(self, o, filepath.Join(tmp), shard, shards)
	c.out += "again"
	for i, a := range c.cmd.Args {
		if a == "-out" {
			c.cmd.Args[i+1] = c.out
		}
	}
	c.run()
	return c
}

func doReplay(props []Property, o *options) int {
	b, err := os.ReadFile(o.replay)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	limits()
	for i := range props {
		if props[i].ID != r.Property {
			continue
		}
		if r.Kind == "shard" {
			o.property, o.tier, o.shard, o.shards = r.Property, r.Tier, r.Shard, r.Shards
			o.budget = 780
			o.out = filepath.Join(os.TempDir(), fmt.Sprintf("mcreplay%d", os.Getpid()))
			defer os.Remove(o.out)
			worker(&props[i], o)
			b, _ := os.ReadFile(o.out)
			var rs []*PartResult
			json.Unmarshal(b, &rs)
			if v := bad(rs); v != nil {
				fmt.Println("REPLAY-FAILS", v.Message)
				return 1
			}
			return 0
		}
		for _, p := range props[i].Parts(r.Tier == "thorough") {
			if p.Name != r.V.Part {
				continue
			}
			msg, log, failed := replayPart(p, r.V.Choices, r.V.Steps, r.V.InFinal, true)
			if os.Getenv("MC_REPLAY_CHILD") == "" {
				for _, l := range log {
					fmt.Println("  " + l)
				}
			}
			if failed {
				fmt.Println("REPLAY-FAILS", msg)
				return 1
			}
			fmt.Println("REPLAY-PASSES")
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no such property or part")
	return 2
}
