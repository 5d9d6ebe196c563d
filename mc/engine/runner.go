package engine

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Scenario is one choice tree.
type Scenario struct {
	Name   string
	Bounds string // what is enumerated, in words
	Fn     func(*X)
	// Deviation budgets of the two tiers (only Choose is limited by them).
	Quick, Thorough int
	// ThoroughOnly leaves the scenario out of the quick tier.
	ThoroughOnly bool
	// Setup runs once per worker before the scenario.
	Setup func(thorough bool)
}

// Check decides one property.
type Check struct {
	ID          string
	Scenarios   []Scenario
	Assumptions []string
	// Workers limits the number of worker processes (0: default).
	Workers int
	// NeedsHooks: the repository has to be instrumented (see instr).
	NeedsHooks bool
	// WorkerEnv is added to the environment of the workers.
	WorkerEnv []string
	// Static is reported in the evidence as is.
	Static map[string]interface{}
}

// WorkerResult is what a worker process reports.
type WorkerResult struct {
	Scenarios   map[string]*ScenarioResult `json:"scenarios"`
	Transitions int64                      `json:"transitions"`
	Checks      int64                      `json:"checks"`
	Findings    []Finding                  `json:"findings"`
	Known       map[string]Finding         `json:"known"`
	Exhaustive  bool                       `json:"exhaustive"`
	Samples     []Sample                   `json:"samples"`
}

// ScenarioResult counts the executions of one scenario.
type ScenarioResult struct {
	Executions int64 `json:"executions"`
	Skipped    int64 `json:"skipped"`
	MaxDepth   int   `json:"max_choices"`
	Diverged   int64 `json:"diverged,omitempty"`
	Complete   bool  `json:"complete"`
}

// Sample is one execution, written out.
type Sample struct {
	Scenario string   `json:"scenario"`
	Choices  []int    `json:"choices"`
	Steps    []string `json:"steps"`
}

// Options of a run.
type Options struct {
	Tier     string
	Shard    int
	Of       int
	Deadline time.Time
	Out      string
	Known    map[string]string // key -> description
	Claims   string            // file shared by the workers
}

func (o Options) thorough() bool { return o.Tier == "thorough" }

// Worker explores one shard and writes its result to opt.Out.
func Worker(c Check, opt Options) error {
	res := &WorkerResult{Scenarios: map[string]*ScenarioResult{}, Known: map[string]Finding{}, Exhaustive: true}
	x := New()
	x.Thorough = opt.thorough()

	progress, err := os.Create(opt.Out + ".progress")
	if err != nil {
		return err
	}
	claims, err := openClaims(opt.Claims, len(c.Scenarios))
	if err != nil {
		return err
	}
	var counter int64
	go watchdog(&counter, opt.Out)

	stop := false
	var si int
	var fixedBuf []byte
	mark := func(forced []int) {
		fixedBuf = fixedBuf[:0]
		fixedBuf = binary.AppendUvarint(fixedBuf, uint64(si))
		fixedBuf = binary.AppendUvarint(fixedBuf, uint64(len(forced)))
		for _, f := range forced {
			fixedBuf = binary.AppendUvarint(fixedBuf, uint64(f))
		}
		progress.WriteAt(fixedBuf, 0)
	}

	for i := range c.Scenarios {
		s := c.Scenarios[i]
		if s.ThoroughOnly && !opt.thorough() {
			continue
		}
		si = i
		budget := s.Quick
		if opt.thorough() {
			budget = s.Thorough
		}
		if s.Setup != nil {
			s.Setup(opt.thorough())
		}
		sr := &ScenarioResult{Complete: true}
		res.Scenarios[s.Name] = sr
		if stop || claims.abandoned() || time.Now().After(opt.Deadline) {
			sr.Complete, res.Exhaustive = false, false
			continue
		}
		finding := func(out Outcome) bool {
			if out.Finding == nil {
				return true
			}
			if _, ok := opt.Known[out.Finding.Key]; ok {
				if old, ok := res.Known[out.Finding.Key]; !ok || len(out.Finding.Choices) < len(old.Choices) {
					res.Known[out.Finding.Key] = *out.Finding
				}
				return true
			}
			f := *out.Finding
			// Again, with the log.
			x2 := New()
			x2.Thorough, x2.Verbose = x.Thorough, true
			o2 := Run(x2, s.Name, s.Fn, f.Choices)
			if o2.Finding != nil {
				f.Log, f.Message = o2.Finding.Log, o2.Finding.Message
			} else {
				f.Log = append(o2.Log, "(this re-execution did not fail: the behaviour is not deterministic)")
			}
			res.Findings = append(res.Findings, f)
			stop = true
			claims.abandon()
			return false
		}
		want := 96 * opt.Of
		if opt.thorough() {
			want = 512 * opt.Of
		}
		if opt.Of == 1 {
			want = 1
		}
		fn := func(x *X) {
			atomic.AddInt64(&counter, 1)
			s.Fn(x)
		}
		fnMarked := func(x *X) {
			mark(x.forced)
			fn(x)
		}
		front := Frontier(x, s.Name, fnMarked, budget, want, finding)
		if stop {
			sr.Complete, res.Exhaustive = false, false
			continue
		}
		// What the probes counted is counted again by the exploration.
		x.transitions, x.checks = res.Transitions, res.Checks
		nextSample := int64(1)
		// The workers share the subtrees: each takes the next one left.
		for !stop {
			j := claims.next(i)
			if j >= len(front) {
				break
			}
			Explore(x, s.Name, fnMarked, front[j], budget, func(out Outcome) bool {
				if !finding(out) {
					return false
				}
				if out.Skipped {
					sr.Skipped++
				} else {
					sr.Executions++
				}
				if x.diverged {
					sr.Diverged++
				}
				if len(out.Trace) > sr.MaxDepth {
					sr.MaxDepth = len(out.Trace)
				}
				if opt.Shard == 0 && !out.Skipped && sr.Executions == nextSample {
					nextSample *= 25
					x2 := New()
					x2.Thorough, x2.Verbose = x.Thorough, true
					choices := make([]int, len(out.Trace))
					for k, ch := range out.Trace {
						choices[k] = ch.C
					}
					o2 := Run(x2, s.Name, s.Fn, choices)
					if len(o2.Log) > 40 {
						o2.Log = o2.Log[:40]
					}
					res.Samples = append(res.Samples, Sample{Scenario: s.Name, Choices: choices, Steps: o2.Log})
				}
				if sr.Executions&3 == 0 && (claims.abandoned() || time.Now().After(opt.Deadline)) {
					sr.Complete, res.Exhaustive, stop = false, false, true
					return false
				}
				return true
			})
		}
		if len(res.Findings) > 0 {
			sr.Complete, res.Exhaustive = false, false
		}
		res.Transitions, res.Checks = x.transitions, x.checks
		if stop && len(res.Findings) == 0 {
			stop = false // only the deadline: later scenarios are marked incomplete above
		}
	}

	if err := writeStates(opt.Out+".states", x.states); err != nil {
		return err
	}
	data, err := json.Marshal(res)
	if err != nil {
		return err
	}
	return os.WriteFile(opt.Out, data, 0o644)
}

func writeStates(path string, states map[uint64]struct{}) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	w := bufio.NewWriterSize(f, 1<<20)
	var b [8]byte
	for h := range states {
		binary.LittleEndian.PutUint64(b[:], h)
		w.Write(b[:])
	}
	if err := w.Flush(); err != nil {
		return err
	}
	return f.Close()
}

const (
	exitHang   = 43
	exitMemory = 44
)

var hangAfter = 30 * time.Second

func watchdog(counter *int64, out string) {
	last, since := int64(-1), time.Now()
	var ms runtime.MemStats
	for {
		time.Sleep(250 * time.Millisecond)
		n := atomic.LoadInt64(counter)
		if n != last {
			last, since = n, time.Now()
			continue
		}
		if time.Since(since) > hangAfter {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Fprintf(os.Stderr, "one execution did not end within %s\n%s\n", hangAfter, buf)
			os.Exit(exitHang)
		}
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 3<<30 {
			fmt.Fprintf(os.Stderr, "one execution allocated more than 3 GB\n")
			os.Exit(exitMemory)
		}
	}
}

func readProgress(path string) (scenario int, choices []int, ok bool) {
	data, err := os.ReadFile(path)
	if err != nil || len(data) == 0 {
		return 0, nil, false
	}
	r := bytes.NewReader(data)
	s, err := binary.ReadUvarint(r)
	if err != nil {
		return 0, nil, false
	}
	n, err := binary.ReadUvarint(r)
	if err != nil {
		return 0, nil, false
	}
	choices = []int{}
	for i := uint64(0); i < n; i++ {
		c, err := binary.ReadUvarint(r)
		if err != nil {
			return 0, nil, false
		}
		choices = append(choices, int(c))
	}
	return int(s), choices, true
}

// KnownPath is the known-findings file.
func KnownPath(verifDir string) string {
	if p := os.Getenv("MC_KNOWN"); p != "" {
		return p
	}
	return filepath.Join(verifDir, "known_findings.txt")
}

// ReadKnown reads the keys listed for a property in the known-findings file.
func ReadKnown(path, property string) map[string]string {
	known := map[string]string{}
	data, err := os.ReadFile(path)
	if err != nil {
		return known
	}
	for _, l := range strings.Split(string(data), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.Fields(l)
		if len(f) < 4 || f[1] != "property="+property || !strings.HasPrefix(f[2], "key=") {
			continue
		}
		known[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
	}
	return known
}

// Replay runs one recorded execution and returns its finding.
func Replay(c Check, f Finding, thorough bool) Outcome {
	for _, s := range c.Scenarios {
		if s.Name != f.Scenario {
			continue
		}
		if s.Setup != nil {
			s.Setup(thorough)
		}
		x := New()
		x.Thorough, x.Verbose = thorough, true
		return Run(x, s.Name, s.Fn, f.Choices)
	}
	return Outcome{}
}

// ReplayFile is the content of a replay file.
type ReplayFile struct {
	Property string  `json:"property"`
	Tier     string  `json:"tier"`
	Finding  Finding `json:"finding"`
}

// Hooked tells whether the repository was instrumented.
var Hooked bool

// Parent runs a check in worker processes. It returns the process exit code.
func Parent(c Check, tier, verifDir string, budget time.Duration) int {
	if c.NeedsHooks && !Hooked {
		fmt.Println("error: this check needs the instrumented repository")
		return 2
	}
	start := time.Now()
	exe, err := os.Executable()
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	work, err := os.MkdirTemp("", "mc-"+c.ID+"-")
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	defer os.RemoveAll(work)

	known := ReadKnown(KnownPath(verifDir), c.ID)
	claimsPath := filepath.Join(work, "claims")
	if err := createClaims(claimsPath, len(c.Scenarios)); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	n := runtime.NumCPU()
	if n > 8 {
		n = 8
	}
	if c.Workers > 0 {
		n = c.Workers
	}
	deadline := start.Add(budget)

	type crash struct {
		scenario int
		choices  []int
		how      string
		stderr   string
	}
	var mu sync.Mutex
	var crashes []crash
	var infra []string
	results := make([]*WorkerResult, n)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			out := filepath.Join(work, fmt.Sprintf("w%d", i))
			cmd := exec.Command(exe, "worker", "-property", c.ID, "-tier", tier,
				"-shard", strconv.Itoa(i), "-of", strconv.Itoa(n),
				"-deadline", strconv.FormatInt(deadline.UnixMilli(), 10), "-out", out, "-verif", verifDir, "-claims", claimsPath)
			cmd.Env = append(os.Environ(), c.WorkerEnv...)
			var stderr bytes.Buffer
			cmd.Stderr = &stderr
			cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
			err := cmd.Run()
			if err == nil {
				data, err := os.ReadFile(out)
				r := &WorkerResult{}
				if err == nil {
					err = json.Unmarshal(data, r)
				}
				if err != nil {
					mu.Lock()
					infra = append(infra, err.Error())
					mu.Unlock()
					return
				}
				results[i] = r
				return
			}
			mu.Lock()
			defer mu.Unlock()
			how := err.Error()
			ee, isExit := err.(*exec.ExitError)
			if isExit && ee.ExitCode() == exitHang {
				how = "hang"
			} else if isExit && ee.ExitCode() == exitMemory {
				how = "memory"
			} else if isExit && ee.ExitCode() == 66 {
				how = "race"
			} else if !isExit || ee.ExitCode() < 0 {
				infra = append(infra, fmt.Sprintf("worker %d: %s: %s", i, err, tail(stderr.String(), 2000)))
				return
			} else {
				how = "crash"
			}
			s, ch, ok := readProgress(out + ".progress")
			if !ok {
				infra = append(infra, fmt.Sprintf("worker %d: %s: %s", i, err, tail(stderr.String(), 2000)))
				return
			}
			crashes = append(crashes, crash{s, ch, how, stderr.String()})
		}(i)
	}
	wg.Wait()

	var findings []Finding
	total := &WorkerResult{Scenarios: map[string]*ScenarioResult{}, Known: map[string]Finding{}, Exhaustive: true}
	states := map[uint64]struct{}{}
	for i, r := range results {
		if r == nil {
			total.Exhaustive = false
			continue
		}
		for name, sr := range r.Scenarios {
			t := total.Scenarios[name]
			if t == nil {
				t = &ScenarioResult{Complete: true}
				total.Scenarios[name] = t
			}
			t.Executions += sr.Executions
			t.Skipped += sr.Skipped
			t.Diverged += sr.Diverged
			if sr.MaxDepth > t.MaxDepth {
				t.MaxDepth = sr.MaxDepth
			}
			t.Complete = t.Complete && sr.Complete
		}
		total.Transitions += r.Transitions
		total.Checks += r.Checks
		total.Exhaustive = total.Exhaustive && r.Exhaustive
		findings = append(findings, r.Findings...)
		for k, f := range r.Known {
			if old, ok := total.Known[k]; !ok || len(f.Choices) < len(old.Choices) {
				total.Known[k] = f
			}
		}
		total.Samples = append(total.Samples, r.Samples...)
		readStates(filepath.Join(work, fmt.Sprintf("w%d.states", i)), states)
	}

	// A crash or a hang is confirmed by running that execution alone.
	for _, cr := range crashes {
		total.Exhaustive = false
		if cr.scenario >= len(c.Scenarios) {
			continue
		}
		f := Finding{Scenario: c.Scenarios[cr.scenario].Name, Choices: cr.choices, Key: cr.how,
			Message: fmt.Sprintf("the process ended (%s) while executing this history\n%s", cr.how, tail(cr.stderr, 6000))}
		confirmed := false
		for try := 0; try < 3 && !confirmed; try++ {
			confirmed = replayInChild(exe, c, tier, verifDir, work, f) != 0
		}
		if !confirmed && (cr.how == "hang" || cr.how == "memory") {
			fmt.Printf("note: a %s of one execution was not reproduced and is not reported\n", cr.how)
			continue
		}
		findings = append(findings, f)
	}

	var violation *Finding
	sort.SliceStable(findings, func(i, j int) bool {
		if len(findings[i].Choices) != len(findings[j].Choices) {
			return len(findings[i].Choices) < len(findings[j].Choices)
		}
		return fmt.Sprint(findings[i].Choices) < fmt.Sprint(findings[j].Choices)
	})
	if len(findings) > 0 {
		violation = &findings[0]
	}

	code := 0
	if violation != nil {
		dir := filepath.Join(verifDir, "evidence", "replays")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, c.ID+".json")
		data, _ := json.MarshalIndent(ReplayFile{Property: c.ID, Tier: tier, Finding: *violation}, "", " ")
		os.WriteFile(path, data, 0o644)
		reproduced := 0
		for i := 0; i < 3; i++ {
			if replayInChild(exe, c, tier, verifDir, work, *violation) != 0 {
				reproduced++
			}
		}
		fmt.Printf("%s: scenario %s, choices %v (re-execution failed %d times out of 3)\n", c.ID, violation.Scenario, violation.Choices, reproduced)
		for _, l := range violation.Log {
			fmt.Println("  ", l)
		}
		fmt.Println(violation.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
		code = 1
	}
	keys := []string{}
	for k := range total.Known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.ID, k, known[k])
	}

	var executions, skipped, diverged int64
	scen := []map[string]interface{}{}
	for _, s := range c.Scenarios {
		if s.ThoroughOnly && tier != "thorough" {
			continue
		}
		t := total.Scenarios[s.Name]
		if t == nil {
			continue
		}
		executions += t.Executions
		skipped += t.Skipped
		diverged += t.Diverged
		scen = append(scen, map[string]interface{}{"name": s.Name, "bounds": s.Bounds, "executions": t.Executions,
			"outside_of_the_space": t.Skipped, "max_choices": t.MaxDepth, "complete": t.Complete})
		if !t.Complete {
			total.Exhaustive = false
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	coverage := map[string]interface{}{
		"states":                        len(states),
		"transitions":                   total.Transitions,
		"traces_validated_against_impl": executions,
		"comparisons_with_the_model":    total.Checks,
		"scenarios":                     scen,
		"samples":                       total.Samples,
		"exhaustive":                    total.Exhaustive && violation == nil,
	}
	for k, v := range c.Static {
		coverage[k] = v
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": coverage, "wall_s": time.Since(start).Seconds(), "violations": len(findings),
		"assumptions": c.Assumptions,
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", c.ID+".json"), data, 0o644); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	fmt.Printf("%s %s: %d executions, %d transitions, %d states, %d comparisons, exhaustive=%v, %.1fs\n",
		c.ID, tier, executions, total.Transitions, len(states), total.Checks, total.Exhaustive && violation == nil, time.Since(start).Seconds())
	if diverged > 0 {
		fmt.Printf("note: %d executions did not follow their recorded choices\n", diverged)
	}
	if code == 0 && len(infra) > 0 {
		for _, e := range infra {
			fmt.Println("error:", e)
		}
		return 2
	}
	return code
}

func replayInChild(exe string, c Check, tier, verifDir, work string, f Finding) int {
	path := filepath.Join(work, "replay.json")
	data, _ := json.Marshal(ReplayFile{Property: c.ID, Tier: tier, Finding: f})
	os.WriteFile(path, data, 0o644)
	cmd := exec.Command(exe, "replay", "-verif", verifDir, path)
	cmd.Env = append(os.Environ(), c.WorkerEnv...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return 0
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err == nil {
			return 0
		}
		return 1
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		return 1
	}
}

func readStates(path string, into map[uint64]struct{}) {
	data, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for i := 0; i+8 <= len(data); i += 8 {
		into[binary.LittleEndian.Uint64(data[i:])] = struct{}{}
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
