package main

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Check is the machinery that decides one property. A check is a fixed list of cases: case i is a
// function of (seed, property, i) only, so the same seed always explores the same executions.
type Check struct {
	ID       string
	Level    string
	Rule     string
	Assume   []string
	Quick    int // number of cases per tier
	Thorough int
	Procs    int // worker processes, 0: one per core
	Setup    func(w *Worker)
	Run      func(t *T)
	Finish   func(w *Worker) // after the last case of a worker
	Env      []string        // extra environment of the workers
	// Monitor inspects what a worker left outside its own result, such as the log of the race detector
	Monitor func(dir string) []Violation
	// Need lists counters that must be non-zero: a run that observed nothing is not a pass
	Need []string
	// CaseTimeout is how long one case may take before it is confirmed as a hang (seconds)
	CaseTimeout int
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = c
}

// Violation is a refuted case with everything needed to look at it again
type Violation struct {
	Property string      `json:"property"`
	Case     int         `json:"case"`
	Kind     string      `json:"kind"`
	Message  string      `json:"message"`
	Data     interface{} `json:"data,omitempty"`
	Seed     int64       `json:"seed"`
	Tier     string      `json:"tier"`
	Known    string      `json:"known,omitempty"`
}

// Worker is one process that runs a share of the cases
type Worker struct {
	Check    *Check
	Tier     string
	Seed     int64
	Shard    int
	Of       int
	Dir      string // private scratch directory
	mu       sync.Mutex
	counts   map[string]int64
	distinct map[uint64]struct{}
	samples  []interface{}
	viol     []Violation
	nviol    int
	evals    int64
	violPath string
	State    interface{}
}

// T is one case
type T struct {
	*Worker
	R         *rand.Rand
	Idx       int
	lastInput string
}

// last notes what is about to be tried, for the report of a panic
func (t *T) last(s string) { t.lastInput = s }

// Thorough tells whether this is the deep tier
func (w *Worker) IsThorough() bool { return w.Tier == "thorough" }

// Count adds to a named counter of the evidence
func (w *Worker) Count(key string, n int64) {
	w.mu.Lock()
	w.counts[key] += n
	w.mu.Unlock()
}

// Eval counts one observed execution; key identifies it for counting distinct ones. Trivial ones have an empty key
func (w *Worker) Eval(key string) {
	w.mu.Lock()
	w.evals++
	if key != "" {
		h := fnv.New64a()
		h.Write([]byte(key))
		w.distinct[h.Sum64()] = struct{}{}
	}
	w.mu.Unlock()
}

// Sample keeps some actual cases for the evidence
func (t *T) Sample(v interface{}) {
	t.mu.Lock()
	if len(t.samples) < 3 {
		if b, err := json.Marshal(v); err == nil && len(b) < 4000 {
			t.samples = append(t.samples, v)
		}
	}
	t.mu.Unlock()
}

// Fail records a violation
func (t *T) Fail(kind string, data interface{}, format string, args ...interface{}) {
	t.record(Violation{Property: t.Check.ID, Case: t.Idx, Kind: kind, Message: fmt.Sprintf(format, args...), Data: data, Seed: t.Seed, Tier: t.Tier})
}

// FailKnown records a violation that may be listed in the known findings under a key
func (t *T) FailKnown(key, kind string, data interface{}, format string, args ...interface{}) {
	t.record(Violation{Property: t.Check.ID, Case: t.Idx, Kind: kind, Message: fmt.Sprintf(format, args...), Data: data, Seed: t.Seed, Tier: t.Tier, Known: key})
}

func (t *T) record(v Violation) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if v.Known == "" {
		t.nviol++
	}
	if len(t.viol) < 10 {
		t.viol = append(t.viol, v)
		// kept outside of the process as well, in case it does not survive
		if b, err := json.Marshal(v); err == nil {
			if f, err := os.OpenFile(t.violPath, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0644); err == nil {
				f.Write(append(b, '\n'))
				f.Close()
			}
		}
	}
}

// caseRand is the only source of randomness of a case
func caseRand(seed int64, id string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, id, idx)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

type workerResult struct {
	Evals   int64            `json:"evals"`
	Counts  map[string]int64 `json:"counts"`
	Samples []interface{}    `json:"samples"`
	Viol    []Violation      `json:"viol"`
	NViol   int              `json:"nviol"`
	Done    bool             `json:"done"`
}

func runCase(t *T) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok && strings.HasPrefix(s, "harness:") {
				// a mistake of the harness says nothing about the code under test
				fmt.Fprintln(os.Stderr, "case", t.Idx, s)
				t.Count("harness_mistakes", 1)
				return
			}
			t.Fail("panic", map[string]string{"stack": trimStack(string(debug.Stack())), "input": short(t.lastInput)}, "panic: %v", r)
		}
	}()
	if os.Getenv("VERIF_DEBUG") != "" {
		start := time.Now()
		defer func() {
			if d := time.Since(start); d > time.Second {
				fmt.Fprintln(os.Stderr, "slow case", t.Idx, d)
			}
		}()
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(tooBig); !ok {
					panic(e)
				}
				t.Count("too_big", 1)
			}
		}()
		t.Check.Run(t)
	}()
}

func trimStack(s string) string {
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return s
}

func workerMain(c *Check, tier string, seed int64, shard, of, from, to int, dir, out string) int {
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(2 << 30)
	w := &Worker{Check: c, Tier: tier, Seed: seed, Shard: shard, Of: of, Dir: dir, counts: map[string]int64{}, distinct: map[uint64]struct{}{}}
	journal, err := os.OpenFile(out+".journal", os.O_CREATE|os.O_RDWR, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	w.violPath = out + ".viol"
	var b [8]byte
	if c.Setup != nil {
		c.Setup(w)
	}
	for i := shard; i < to; i += of {
		if i < from {
			continue
		}
		binary.LittleEndian.PutUint64(b[:], uint64(i)+1)
		journal.WriteAt(b[:], 0)
		began := time.Now()
		runCase(&T{Worker: w, R: caseRand(seed, c.ID, i), Idx: i})
		if slow := os.Getenv("VERIF_SLOW"); slow != "" {
			if ms, _ := strconv.Atoi(slow); time.Since(began) > time.Duration(ms)*time.Millisecond {
				if f, err := os.OpenFile(os.Getenv("VERIF_SLOWLOG"), os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644); err == nil {
					fmt.Fprintln(f, c.ID, "seed", seed, "case", i, time.Since(began))
					f.Close()
				}
			}
		}
		if w.nviol >= 50 {
			break
		}
	}
	if c.Finish != nil {
		c.Finish(w)
	}
	binary.LittleEndian.PutUint64(b[:], 0)
	journal.WriteAt(b[:], 0)
	res := workerResult{Evals: w.evals, Counts: w.counts, Samples: w.samples, Viol: w.viol, NViol: w.nviol, Done: true}
	enc, err := json.Marshal(res)
	if err != nil {
		// something in the violations cannot be encoded: keep their text
		for i := range res.Viol {
			res.Viol[i].Data = fmt.Sprintf("%v", res.Viol[i].Data)
		}
		res.Samples = nil
		enc, err = json.Marshal(res)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	hs := make([]byte, 0, 8*len(w.distinct))
	for h := range w.distinct {
		hs = binary.LittleEndian.AppendUint64(hs, h)
	}
	os.WriteFile(out+".hashes", hs, 0644)
	if err := os.WriteFile(out, enc, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return 0
}

func readJournal(path string) int {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return -1
	}
	return int(binary.LittleEndian.Uint64(b)) - 1
}

type tailBuffer struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (t *tailBuffer) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if room := 6000 - len(t.head); room > 0 {
		n := len(p)
		if n > room {
			n = room
		}
		t.head = append(t.head, p[:n]...)
	}
	t.tail = append(t.tail, p...)
	if len(t.tail) > 2000 {
		t.tail = t.tail[len(t.tail)-2000:]
	}
	return len(p), nil
}

func (t *tailBuffer) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.head) < 6000 {
		return string(t.head)
	}
	return string(t.head) + "\n...\n" + string(t.tail)
}

// hangFound is set once a hang is confirmed: the verdict is clear then and the others need not be waited for
var hangFound atomic.Bool

type attempt struct {
	ok       bool // ended by itself with a result
	hung     bool
	caseIdx  int // case that was running when it did not end properly
	stderr   string
	exit     string
	signaled syscall.Signal
	res      workerResult
}

func startWorker(c *Check, tier string, seed int64, shard, of, from, to int, dir, out string, caseTimeout time.Duration) attempt {
	exe, _ := os.Executable()
	os.Remove(out)
	os.Remove(out + ".journal")
	os.Remove(out + ".hashes")
	os.Remove(out + ".viol")
	cmd := exec.Command(exe, "worker", c.ID, tier, strconv.FormatInt(seed, 10), strconv.Itoa(shard), strconv.Itoa(of), strconv.Itoa(from), strconv.Itoa(to), dir, out)
	cmd.Env = append(append(os.Environ(), "GOTRACEBACK=single"), c.Env...)
	for i := range cmd.Env {
		cmd.Env[i] = strings.ReplaceAll(cmd.Env[i], "@DIR@", dir)
	}
	cmd.Dir = dir
	tb := &tailBuffer{}
	cmd.Stderr = tb
	cmd.Stdout = tb
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return attempt{exit: err.Error(), caseIdx: -1}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, since := -2, time.Now()
	cpu, cpuAt, idleSince := int64(-1), time.Now(), time.Now()
	tick := time.NewTicker(250 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-done:
			a := attempt{stderr: tb.String(), caseIdx: readJournal(out + ".journal")}
			if err != nil {
				a.exit = err.Error()
				if ee, ok := err.(*exec.ExitError); ok {
					if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
						a.signaled = ws.Signal()
					}
				}
			}
			b, rerr := os.ReadFile(out)
			if rerr == nil && json.Unmarshal(b, &a.res) == nil && a.res.Done {
				a.ok = true
			}
			return a
		case <-tick.C:
			if j := readJournal(out + ".journal"); j != last {
				last, since = j, time.Now()
				idleSince = since
			} else if since := time.Since(since); since > caseTimeout || since > 10*time.Second && hangFound.Load() || time.Since(idleSince) > idleTimeout {
				syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
				time.Sleep(500 * time.Millisecond)
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				<-done
				return attempt{hung: true, caseIdx: last, stderr: tb.String()}
			} else if since > 10*time.Second && time.Since(cpuAt) > 2*time.Second {
				// one that computes may only be slow; one that does nothing waits for what never comes
				cpuAt = time.Now()
				if now := cpuTicks(cmd.Process.Pid, true); now < cpu || now > cpu+4 {
					cpu, idleSince = now, time.Now()
				}
			}
		}
	}
}

// idleTimeout is how long a case may go without using the processor at all
const idleTimeout = 45 * time.Second

// cpuTicks is the processor time that a process, or all of its group, has used, in hundredths of a second
func cpuTicks(pid int, group bool) int64 {
	files := []string{fmt.Sprintf("/proc/%d/stat", pid)}
	if group {
		files, _ = filepath.Glob("/proc/[0-9]*/stat")
	}
	var sum int64
	for _, file := range files {
		b, err := os.ReadFile(file)
		if err != nil {
			continue
		}
		f := strings.Fields(string(b[strings.LastIndexByte(string(b), ')')+1:]))
		if len(f) < 13 || group && f[2] != strconv.Itoa(pid) {
			continue
		}
		u, _ := strconv.ParseInt(f[11], 10, 64)
		s, _ := strconv.ParseInt(f[12], 10, 64)
		sum += u + s
	}
	return sum
}

// runParent runs all cases in worker processes and returns the exit code
func runParent(c *Check, tier string, seed int64, evDir string, only int) int {
	start := time.Now()
	n := c.Quick
	if tier == "thorough" {
		n = c.Thorough
	}
	if v := os.Getenv("VERIF_CASES"); v != "" {
		n, _ = strconv.Atoi(v)
	}
	procs := c.Procs
	if procs == 0 {
		procs = runtime.NumCPU()
		if procs > 8 {
			procs = 8
		}
	}
	if procs > n {
		procs = n
	}
	tmp, err := os.MkdirTemp("", "verif-"+c.ID+"-")
	if err != nil {
		fmt.Println("ERROR", err)
		return 2
	}
	defer os.RemoveAll(tmp)
	caseTimeout := time.Duration(c.CaseTimeout) * time.Second
	if caseTimeout == 0 {
		caseTimeout = 100 * time.Second
	}

	var (
		mu       sync.Mutex
		total    = workerResult{Counts: map[string]int64{}}
		distinct = map[uint64]struct{}{}
		viol     []Violation
		problems []string
		wg       sync.WaitGroup
	)
	from, to := 0, n
	shards := procs
	if only >= 0 {
		from, to = only, only+1
	}
	for s := 0; s < shards; s++ {
		if only >= 0 && only%procs != s {
			continue
		}
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			cur := from
			for restarts := 0; restarts < 6; restarts++ {
				dir := filepath.Join(tmp, fmt.Sprintf("w%d.%d", s, restarts))
				os.MkdirAll(dir, 0755)
				out := filepath.Join(tmp, fmt.Sprintf("out%d.%d", s, restarts))
				a := startWorker(c, tier, seed, s, procs, cur, to, dir, out, caseTimeout)
				mu.Lock()
				if c.Monitor != nil {
					for _, v := range c.Monitor(dir) {
						v.Property, v.Seed, v.Tier = c.ID, seed, tier
						viol = append(viol, v)
					}
				}
				if a.ok {
					total.Evals += a.res.Evals
					for k, v := range a.res.Counts {
						total.Counts[k] += v
					}
					total.NViol += a.res.NViol
					viol = append(viol, a.res.Viol...)
					if len(total.Samples) < 6 {
						total.Samples = append(total.Samples, a.res.Samples...)
					}
					hs, _ := os.ReadFile(out + ".hashes")
					for i := 0; i+8 <= len(hs); i += 8 {
						distinct[binary.LittleEndian.Uint64(hs[i:])] = struct{}{}
					}
					mu.Unlock()
					os.RemoveAll(dir)
					return
				}
				if b, err := os.ReadFile(out + ".viol"); err == nil {
					for _, line := range strings.Split(string(b), "\n") {
						var v Violation
						if json.Unmarshal([]byte(line), &v) == nil && v.Property != "" {
							viol = append(viol, v)
						}
					}
				}
				mu.Unlock()
				if a.caseIdx < 0 {
					mu.Lock()
					problems = append(problems, fmt.Sprintf("worker %d ended outside of a case: %s %s", s, a.exit, a.stderr))
					mu.Unlock()
					return
				}
				kind := "crash"
				if a.hung {
					kind = "hang"
				}
				if a.hung && hangFound.Load() {
					return
				}
				confirmed := true
				if a.hung || a.signaled == syscall.SIGKILL {
					// not necessarily the doing of the code under test: only believe it if it happens again alone
					cdir := filepath.Join(tmp, fmt.Sprintf("c%d.%d", s, restarts))
					os.MkdirAll(cdir, 0755)
					b := startWorker(c, tier, seed, s, procs, a.caseIdx, a.caseIdx+1, cdir, filepath.Join(tmp, fmt.Sprintf("cout%d.%d", s, restarts)), 2*caseTimeout)
					confirmed = !b.ok
					os.RemoveAll(cdir)
					if hangFound.Load() {
						return
					}
					if confirmed {
						hangFound.Store(true)
					}
				}
				if confirmed {
					mu.Lock()
					viol = append(viol, Violation{Property: c.ID, Case: a.caseIdx, Kind: kind, Message: "the process running the case did not survive it: " + kind + " " + a.exit, Data: map[string]string{"stderr": a.stderr}, Seed: seed, Tier: tier})
					total.NViol++
					mu.Unlock()
				}
				os.RemoveAll(dir)
				cur = a.caseIdx + 1
				if cur >= to {
					return
				}
				mu.Lock()
				stop := total.NViol >= 8
				mu.Unlock()
				if stop {
					return
				}
			}
			mu.Lock()
			problems = append(problems, fmt.Sprintf("worker %d had to be restarted too often", s))
			mu.Unlock()
		}(s)
	}
	wg.Wait()

	// verdict
	known := loadKnown(c.ID)
	var fresh []Violation
	knownSeen := map[string]bool{}
	for _, v := range viol {
		if v.Known != "" {
			if text, ok := known[v.Known]; ok {
				if !knownSeen[v.Known] {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, text)
					knownSeen[v.Known] = true
				}
				continue
			}
		}
		fresh = append(fresh, v)
	}
	sort.SliceStable(fresh, func(i, j int) bool { return fresh[i].Case < fresh[j].Case })

	missing := []string{}
	if only < 0 && len(fresh) == 0 {
		for _, k := range c.Need {
			if total.Counts[k] == 0 {
				missing = append(missing, k)
			}
		}
	}

	ev := map[string]interface{}{
		"property": c.ID, "tier": tier, "seed": seed, "level": c.Level,
		"coverage": map[string]interface{}{
			"evaluations": total.Evals, "distinct_nontrivial": len(distinct), "rule": c.Rule,
			"samples": total.Samples, "cases": n, "worker_processes": procs, "observed": total.Counts,
		},
		"assumptions": c.Assume,
		"wall_s":      float64(int(time.Since(start).Seconds()*100)) / 100,
		"violations":  len(fresh),
	}
	if c.Assume == nil {
		ev["assumptions"] = []string{}
	}
	if only < 0 {
		os.MkdirAll(evDir, 0755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(evDir, c.ID+".json"), append(b, '\n'), 0644); err != nil {
			fmt.Println("ERROR", err)
			return 2
		}
	}

	if len(fresh) > 0 {
		rdir := filepath.Join(evDir, "replay")
		os.MkdirAll(rdir, 0755)
		for i, v := range fresh {
			if i == 3 {
				break
			}
			p := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", c.ID, i))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(p, append(b, '\n'), 0644)
			fmt.Printf("case %d: %s: %s\n", v.Case, v.Kind, v.Message)
			if i == 0 {
				if len(b) > 3000 {
					b = append(b[:3000], "..."...)
				}
				fmt.Println(string(b))
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, p)
		}
		return 1
	}
	if n := total.Counts["harness_mistakes"]; n > 0 {
		problems = append(problems, fmt.Sprintf("%d cases were generated wrongly", n))
	}
	if len(problems) > 0 || len(missing) > 0 {
		fmt.Println("ERROR", problems, "not observed:", missing)
		return 2
	}
	fmt.Printf("OK property=%s cases=%d executions=%d distinct=%d seconds=%.1f\n", c.ID, n, total.Evals, len(distinct), time.Since(start).Seconds())
	keys := make([]string, 0)
	for k := range total.Counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("  %s=%d", k, total.Counts[k])
	}
	fmt.Println()
	return 0
}

// loadKnown reads the committed list of known findings: key -> text
func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile("/verif/known_findings.jsonl")
	if err != nil {
		return m
	}
	for _, line := range strings.Split(string(b), "\n") {
		var k struct{ Status, Property, Key, What string }
		if json.Unmarshal([]byte(line), &k) == nil && k.Status == "known" && k.Property == id {
			m[k.Key] = k.What
		}
	}
	return m
}
