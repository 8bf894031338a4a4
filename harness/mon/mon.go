// Package mon is the run-time monitoring framework: workers execute cases against the real library under a
// supervisor that watches for crashes, hangs and runaway memory; the cases themselves carry the oracles.
package mon

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is one property and the case generator and oracle that decide it.
type Prop struct {
	ID              string
	Level           string
	Quick, Thorough int // number of cases
	Rule            string
	Assume          []string
	Run             func(c *C, i int)
	NoMemLimit      bool
	Shards          int
	Procs           int // GOMAXPROCS of a worker
}

// cases is the number of cases of a tier; VERIF_DIV divides it (for development only).
func (p *Prop) cases(thorough bool) int {
	n := p.Quick
	if thorough {
		n = p.Thorough
	}
	if d, err := strconv.Atoi(os.Getenv("VERIF_DIV")); err == nil && d > 1 {
		n = (n+d-1)/d + skip()
	}
	return n
}

// skip is the number of the first case (for development only).
func skip() int {
	k, _ := strconv.Atoi(os.Getenv("VERIF_SKIP"))
	return k
}

// C is the context of one case.
type C struct {
	*rand.Rand
	Prop     string
	Case     int
	Thorough bool
	w        *worker
	failed   bool
	blobs    map[string][]byte
}

type worker struct {
	mu       sync.Mutex
	counts   map[string]int64
	distinct map[uint64]bool
	samples  []interface{}
	evals    int64
	out      *bufio.Writer
	scratch  string
	nfail    int
}

type msg struct {
	B       *int             `json:"b,omitempty"`
	E       *int             `json:"e,omitempty"`
	F       *Failure         `json:"f,omitempty"`
	Done    bool             `json:"done,omitempty"`
	Counts  map[string]int64 `json:"counts,omitempty"`
	Dist    []uint64         `json:"dist,omitempty"`
	Samples []interface{}    `json:"samples,omitempty"`
	Evals   int64            `json:"evals,omitempty"`
}

// Failure is one observed violation.
type Failure struct {
	Prop  string            `json:"property"`
	Seed  int64             `json:"seed"`
	Tier  string            `json:"tier"`
	Case  int               `json:"case"`
	Key   string            `json:"key"`
	What  string            `json:"what"`
	Blobs map[string]string `json:"blobs,omitempty"`
}

func (w *worker) send(m msg) {
	b, _ := json.Marshal(m)
	w.out.Write(b)
	w.out.WriteByte('\n')
}

// Eval counts one judged execution; sig tells it apart from others, and is empty for a trivial one.
func (c *C) Eval(sig string, a ...interface{}) {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	c.w.evals++
	if sig != "" {
		h := fnv.New64a()
		fmt.Fprintf(h, sig, a...)
		c.w.distinct[h.Sum64()] = true
	}
}

// EvalBytes counts one judged execution identified by bytes.
func (c *C) EvalBytes(parts ...[]byte) {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	c.w.evals++
	h := fnv.New64a()
	for _, p := range parts {
		h.Write(p)
		h.Write([]byte{0xAA})
	}
	c.w.distinct[h.Sum64()] = true
}

// Count adds to a named observation counter.
func (c *C) Count(name string, n int) {
	c.w.mu.Lock()
	c.w.counts[name] += int64(n)
	c.w.mu.Unlock()
}

// Sample keeps an example case for the evidence file.
func (c *C) Sample(v interface{}) {
	c.w.mu.Lock()
	if len(c.w.samples) < 3 {
		c.w.samples = append(c.w.samples, v)
	}
	c.w.mu.Unlock()
}

// Blob attaches bytes to the case's replay file if it fails.
func (c *C) Blob(name string, b []byte) { c.blobs[name] = b }

// Failed tells whether the case has failed already.
func (c *C) Failed() bool { return c.failed }

// Fail records a violation. key identifies what fails, stably.
func (c *C) Fail(key, format string, a ...interface{}) {
	c.w.mu.Lock()
	defer c.w.mu.Unlock()
	if c.failed {
		return
	}
	c.failed = true
	what := fmt.Sprintf(format, a...)
	if len(what) > 3000 {
		what = what[:3000] + "..."
	}
	f := &Failure{Prop: c.Prop, Case: c.Case, Key: key, What: what, Blobs: map[string]string{}}
	for n, b := range c.blobs {
		if len(b) < 1<<20 {
			f.Blobs[n] = base64.StdEncoding.EncodeToString(b)
		}
	}
	c.w.send(msg{F: f})
	c.w.out.Flush()
	c.w.nfail++
}

// Scratch is a directory of the worker's own, removed afterwards.
func (c *C) Scratch() string { return c.w.scratch }

// Repo is the repository under observation.
func Repo() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

func caseSeed(seed int64, prop string, i int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, i)
	return int64(h.Sum64())
}

// RunCase runs one case in this process.
func runCase(w *worker, p *Prop, seed int64, thorough bool, i int) {
	c := &C{Rand: rand.New(rand.NewSource(caseSeed(seed, p.ID, i))), Prop: p.ID, Case: i, Thorough: thorough, w: w, blobs: map[string][]byte{}}
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			c.Fail("panic: "+panicKey(r, st), "panic: %v\n%s", r, st)
		}
	}()
	p.Run(c, i)
}

// Guard runs f and turns a panic into an error text.
func Guard(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	f()
	return ""
}

func panicKey(r interface{}, stack string) string {
	s := fmt.Sprint(r)
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

// Worker is the entry point of a worker process: arguments are property, tier, seed, shard, shards, from, only.
func Worker(props map[string]*Prop, args []string) {
	p := props[args[0]]
	thorough := args[1] == "thorough"
	seed, _ := strconv.ParseInt(args[2], 10, 64)
	shard, _ := strconv.Atoi(args[3])
	shards, _ := strconv.Atoi(args[4])
	from, _ := strconv.Atoi(args[5])
	only, _ := strconv.Atoi(args[6])
	if !p.NoMemLimit {
		lim := syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	scratch, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "w")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	w := &worker{counts: map[string]int64{}, distinct: map[uint64]bool{}, out: bufio.NewWriter(os.NewFile(3, "events")), scratch: scratch}
	n := p.cases(thorough)
	var stop atomic.Bool
	term := make(chan os.Signal, 1)
	signal.Notify(term, syscall.SIGTERM)
	go func() {
		<-term
		stop.Store(true)
	}()
	do := func(i int) {
		w.mu.Lock()
		w.send(msg{B: &i})
		w.out.Flush()
		w.mu.Unlock()
		runCase(w, p, seed, thorough, i)
	}
	if only >= 0 {
		do(only)
	} else {
		for i := from; i < n; i++ {
			if (i+i/shards)%shards != shard || i < skip() { // skewed, as the kind of a case often depends on i%8
				continue
			}
			do(i)
			if w.nfail > 5 || stop.Load() {
				break
			}
		}
	}
	w.mu.Lock()
	m := msg{Done: true, Counts: w.counts, Samples: w.samples, Evals: w.evals}
	for h := range w.distinct {
		m.Dist = append(m.Dist, h)
	}
	w.send(m)
	w.out.Flush()
	os.RemoveAll(scratch)
}

type sup struct {
	mu       sync.Mutex
	p        *Prop
	tier     string
	seed     int64
	fails    []*Failure
	counts   map[string]int64
	distinct map[uint64]bool
	samples  []interface{}
	evals    int64
	cases    int
	broken   []string
	scratch  string
	restarts int
	hangs    int
	deadline time.Time // no new case is begun after it
	late     bool
}

const hangCPU = 45.0 // seconds of CPU a single case may use
const hangWall = 240 * time.Second

// quickWall is how long a quick check may run before it reports what it has seen so far.
const quickWall = 420 * time.Second

// Check runs a property and returns the exit code.
func Check(p *Prop, tier string, seed int64, verif string) int {
	start := time.Now()
	scratch, err := os.MkdirTemp("", "verifmon")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(scratch)
	s := &sup{p: p, tier: tier, seed: seed, counts: map[string]int64{}, distinct: map[uint64]bool{}, scratch: scratch}
	if tier != "thorough" {
		s.deadline = start.Add(quickWall)
	}
	shards := runtime.NumCPU()
	if shards > 8 {
		shards = 8
	}
	if p.Shards > 0 {
		shards = p.Shards
	}
	n := p.cases(tier == "thorough")
	if k, err := strconv.Atoi(os.Getenv("VERIF_SHARDS")); err == nil && k > 0 {
		shards = k
	}
	if shards > n {
		shards = n
	}
	var wg sync.WaitGroup
	for k := 0; k < shards; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			s.shard(k, shards)
		}(k)
	}
	wg.Wait()
	known := loadKnown(filepath.Join(verif, "known_findings.txt"), p.ID)
	var viol []*Failure
	sort.Slice(s.fails, func(i, j int) bool { return s.fails[i].Case < s.fails[j].Case })
	seen := map[string]bool{}
	for _, f := range s.fails {
		if w, ok := known[f.Key]; ok {
			if !seen[f.Key] {
				seen[f.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, w)
			}
			continue
		}
		viol = append(viol, f)
	}
	if err := s.evidence(verif, start, len(viol)); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	for i, f := range viol {
		if i == 5 {
			fmt.Printf("... %d more\n", len(viol)-5)
			break
		}
		path := s.replay(verif, f)
		what := f.What
		if len(what) > 700 {
			what = what[:700] + "..."
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n  case %d (%s): %s\n", p.ID, path, f.Case, f.Key, strings.ReplaceAll(what, "\n", "\n  "))
	}
	if s.late {
		fmt.Printf("%s: stopped at the time limit of %v\n", p.ID, quickWall)
	}
	fmt.Printf("%s: %d cases, %d executions judged, %d distinct, %d violations, %.1fs\n", p.ID, s.cases, s.evals, len(s.distinct), len(viol), time.Since(start).Seconds())
	if len(viol) > 0 {
		return 1
	}
	if len(s.broken) > 0 {
		fmt.Println("check broken:", strings.Join(s.broken, "; "))
		return 2
	}
	return 0
}

func (s *sup) stop() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.fails) >= 24 || s.restarts > 40 || s.hangs > 0 || s.overdue()
}

// found tells whether there is a violation to report already.
func (s *sup) found() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return len(s.fails) > 0
}

// overdue tells whether the run has to end; s.mu is held.
func (s *sup) overdue() bool {
	if !s.deadline.IsZero() && time.Now().After(s.deadline) {
		s.late = true
	}
	return s.late
}

func (s *sup) shard(k, shards int) {
	from := 0
	for {
		last, done := s.spawn(k, shards, from, -1)
		if done || s.stop() {
			return
		}
		if last < 0 {
			s.mu.Lock()
			s.broken = append(s.broken, fmt.Sprintf("shard %d did not start", k))
			s.mu.Unlock()
			return
		}
		from = last + 1
		s.mu.Lock()
		s.restarts++
		s.mu.Unlock()
	}
}

// spawn runs a worker. It returns the last case begun and whether the worker finished.
func (s *sup) spawn(k, shards, from, only int) (last int, done bool) {
	pr, pw, err := os.Pipe()
	if err != nil {
		return -1, false
	}
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "worker", s.p.ID, s.tier, fmt.Sprint(s.seed), fmt.Sprint(k), fmt.Sprint(shards), fmt.Sprint(from), fmt.Sprint(only))
	cmd.ExtraFiles = []*os.File{pw}
	var errTail tail
	cmd.Stderr = &errTail
	cmd.Stdout = &errTail
	cmd.Env = append(os.Environ(), "VERIF_SCRATCH="+s.scratch, "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS="+gomax(s.p))
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		pw.Close()
		pr.Close()
		return -1, false
	}
	pw.Close()
	last = -1
	var mu sync.Mutex
	lastCPU, lastWall := 0.0, time.Now()
	hung := ""
	var ending time.Time // when the worker was told to end
	stopW := make(chan bool)
	go func() {
		t := time.NewTicker(500 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-stopW:
				return
			case <-t.C:
				cpu := cpuOf(cmd.Process.Pid)
				mu.Lock()
				if lastCPU < 0 {
					lastCPU = cpu
				}
				if cpu-lastCPU > hangCPU*float64(scale()) {
					hung = fmt.Sprintf("no result after %.0f s of CPU time", cpu-lastCPU)
				} else if time.Since(lastWall) > hangWall*time.Duration(scale()) {
					hung = fmt.Sprintf("no result after %v", hangWall)
				}
				h := hung
				told := ending
				if h == "" && ending.IsZero() && s.stop() {
					ending = time.Now()
					syscall.Kill(cmd.Process.Pid, syscall.SIGTERM)
				}
				mu.Unlock()
				if h == "" && !told.IsZero() && time.Since(told) > 20*time.Second && s.found() {
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					return
				}
				if h != "" {
					syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
					time.Sleep(300 * time.Millisecond)
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					return
				}
			}
		}
	}()
	rd := bufio.NewReaderSize(pr, 1<<16)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 0 && err == nil {
			var m msg
			if json.Unmarshal(line, &m) == nil {
				if m.B != nil {
					mu.Lock()
					last, lastCPU, lastWall = *m.B, -1, time.Now()
					mu.Unlock()
					s.mu.Lock()
					s.cases++
					s.mu.Unlock()
				}
				if m.F != nil {
					m.F.Seed, m.F.Tier = s.seed, s.tier
					s.mu.Lock()
					s.fails = append(s.fails, m.F)
					s.mu.Unlock()
				}
				if m.Done {
					done = true
					s.mu.Lock()
					for n, v := range m.Counts {
						s.counts[n] += v
					}
					for _, h := range m.Dist {
						s.distinct[h] = true
					}
					if len(s.samples) < 6 {
						s.samples = append(s.samples, m.Samples...)
					}
					s.evals += m.Evals
					s.mu.Unlock()
				}
			}
		}
		if err == io.EOF || err != nil {
			break
		}
	}
	pr.Close()
	werr := cmd.Wait()
	close(stopW)
	mu.Lock()
	h := hung
	told := ending
	mu.Unlock()
	if !told.IsZero() && h == "" && !done {
		return last, true
	}
	if !done && last >= 0 {
		f := &Failure{Prop: s.p.ID, Seed: s.seed, Tier: s.tier, Case: last}
		t := errTail.String()
		switch {
		case h != "":
			f.Key, f.What = "hang", h+"\n"+t
			s.mu.Lock()
			s.hangs++
			s.mu.Unlock()
		case strings.Contains(t, "WARNING: DATA RACE"):
			f.Key, f.What = "race", t
		case strings.Contains(t, "out of memory") || strings.Contains(t, "cannot allocate memory"):
			f.Key, f.What = "out of memory", t
		default:
			f.Key, f.What = "crash", fmt.Sprintf("worker ended with %v\n%s", werr, t)
		}
		if werr != nil && strings.Contains(werr.Error(), "signal: killed") && h == "" {
			// ended from outside (memory pressure): not evidence against the code
			s.mu.Lock()
			s.broken = append(s.broken, fmt.Sprintf("worker killed at case %d", last))
			s.mu.Unlock()
			return
		}
		s.mu.Lock()
		s.fails = append(s.fails, f)
		s.mu.Unlock()
	}
	return
}

func gomax(p *Prop) string {
	if p.Procs > 0 {
		return fmt.Sprint(p.Procs)
	}
	if v := os.Getenv("VERIF_GOMAXPROCS"); v != "" {
		return v
	}
	return "2"
}

func scale() int {
	if v, err := strconv.Atoi(os.Getenv("VERIF_SLOW")); err == nil && v > 0 {
		return v
	}
	return 1
}

func cpuOf(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	i := strings.LastIndex(string(b), ")")
	f := strings.Fields(string(b)[i+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	t, _ := strconv.ParseFloat(f[12], 64)
	return (u + t) / 100
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 6000 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) > 6000 {
		return string(t.b[:6000])
	}
	return string(t.b)
}

func loadKnown(path, prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		// open: property=<id> key=<key> -- <what>
		if !strings.HasPrefix(l, "open: property="+prop+" key=") {
			continue
		}
		l = strings.TrimPrefix(l, "open: property="+prop+" key=")
		k, w, ok := strings.Cut(l, " -- ")
		if ok {
			m[k] = w
		}
	}
	return m
}

func (s *sup) replay(verif string, f *Failure) string {
	dir := filepath.Join(verif, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-%d.json", f.Prop, f.Tier, f.Seed, f.Case))
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

func (s *sup) evidence(verif string, start time.Time, nviol int) error {
	cov := map[string]interface{}{
		"evaluations":         s.evals,
		"distinct_nontrivial": len(s.distinct),
		"rule":                s.p.Rule,
		"samples":             s.samples,
		"cases":               s.cases,
		"observed":            s.counts,
	}
	if len(s.samples) == 0 {
		cov["samples"] = []interface{}{fmt.Sprintf("case 0 of %s, seed %d", s.p.ID, s.seed)}
	}
	if c := coverage(s.scratch); c != nil {
		cov["library_statements_executed"] = c
	}
	ev := map[string]interface{}{
		"property": s.p.ID, "tier": s.tier, "seed": s.seed, "level": s.p.Level, "coverage": cov,
		"assumptions": s.p.Assume, "wall_s": float64(int(time.Since(start).Seconds()*100)) / 100, "violations": nviol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	return os.WriteFile(filepath.Join(verif, "evidence", s.p.ID+".json"), append(b, '\n'), 0o644)
}

func coverage(scratch string) map[string]interface{} {
	dir := os.Getenv("GOCOVERDIR")
	if dir == "" {
		return nil
	}
	out := filepath.Join(scratch, "cov.txt")
	if err := exec.Command("go", "tool", "covdata", "textfmt", "-i="+dir, "-o="+out).Run(); err != nil {
		return nil
	}
	b, err := os.ReadFile(out)
	if err != nil {
		return nil
	}
	type ct struct{ hit, tot int }
	best := map[string][2]int{}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) != 3 || !strings.Contains(f[0], "unidoc/unitype/") || strings.Contains(f[0], "unitype/verifmon/") {
			continue
		}
		n, _ := strconv.Atoi(f[1])
		c, _ := strconv.Atoi(f[2])
		v := best[f[0]]
		v[0] = n
		if c > 0 {
			v[1] = 1
		}
		best[f[0]] = v
	}
	files := map[string]*ct{}
	tot := ct{}
	for k, v := range best {
		name := k[:strings.LastIndex(k, ":")]
		name = name[strings.Index(name, "unidoc/unitype/")+len("unidoc/unitype/"):]
		if files[name] == nil {
			files[name] = &ct{}
		}
		files[name].tot += v[0]
		tot.tot += v[0]
		if v[1] > 0 {
			files[name].hit += v[0]
			tot.hit += v[0]
		}
	}
	if tot.tot == 0 {
		return nil
	}
	per := map[string]string{}
	for n, c := range files {
		per[n] = fmt.Sprintf("%d/%d", c.hit, c.tot)
	}
	return map[string]interface{}{"total": fmt.Sprintf("%d/%d", tot.hit, tot.tot), "per_file": per}
}

// Replay runs one recorded case again in this process tree and reports what it finds.
func Replay(props map[string]*Prop, path, verif string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 2
	}
	p := props[f.Prop]
	if p == nil {
		fmt.Println("unknown property", f.Prop)
		return 2
	}
	scratch, _ := os.MkdirTemp("", "verifmon")
	defer os.RemoveAll(scratch)
	s := &sup{p: p, tier: f.Tier, seed: f.Seed, counts: map[string]int64{}, distinct: map[uint64]bool{}, scratch: scratch}
	s.spawn(0, 1, 0, f.Case)
	for _, g := range s.fails {
		fmt.Printf("VIOLATION property=%s replay=%s\n  %s: %s\n", g.Prop, path, g.Key, g.What)
	}
	if len(s.fails) > 0 {
		return 1
	}
	fmt.Println("no violation")
	return 0
}
