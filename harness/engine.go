// Property-based testing engine: generation, worker processes, verdicts, shrinking, evidence.
package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Rand struct{ *rand.Rand }

func newRand(parts ...interface{}) *Rand {
	h := sha256.Sum256([]byte(fmt.Sprint(parts...)))
	var s int64
	for i := 0; i < 8; i++ {
		s = s<<8 | int64(h[i])
	}
	m := splitmix(s)
	return &Rand{rand.New(&m)}
}

// splitmix64: seeding costs nothing, unlike the default source
type splitmix uint64

func (m *splitmix) Seed(s int64) { *m = splitmix(s) }
func (m *splitmix) Uint64() uint64 {
	*m += 0x9e3779b97f4a7c15
	z := uint64(*m)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (m *splitmix) Int63() int64 { return int64(m.Uint64() >> 1) }

func (r *Rand) Chance(pct int) bool { return r.Intn(100) < pct }
func (r *Rand) Range(lo, hi int) int { // inclusive
	if hi <= lo {
		return lo
	}
	return lo + r.Intn(hi-lo+1)
}
func (r *Rand) Bytes(n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

// Check is one property's generator and oracle.
type Check struct {
	ID          string
	Level       string
	Rule        string
	Assumptions []string
	New         func() interface{}                                // a pointer to an empty case
	Gen         func(r *Rand, idx int, thorough bool) interface{} // generated case (pointer)
	Run         func(c interface{}, env *Env)                     // panics (failf) on violation
	Quick       int                                               // number of cases
	Thorough    int
	PerProc     int                  // cases per worker process (0: 40)
	Workers     int                  // 0: all
	Attempts    int                  // times a case is repeated when confirming (schedules)
	CPULimit    int                  // seconds of CPU for one case (0: 90)
	Fixed       func() []interface{} // fixed cases put in front (regressions)
	Post        func(p *parentState) // extra evidence
}

var checks = map[string]*Check{}

func register(c *Check) {
	if c.PerProc == 0 {
		c.PerProc = 40
	}
	if c.Attempts == 0 {
		c.Attempts = 3
	}
	if c.CPULimit == 0 {
		c.CPULimit = 90
	}
	if c.Level == "" {
		c.Level = "exploration"
	}
	checks[c.ID] = c
}

// Env is what a case run sees.
type Env struct {
	Dir        string // private scratch directory
	labels     map[string]int
	nontrivial bool
	idx        int
	thorough   bool
	sub        int
}

func (e *Env) Label(s string)         { e.labels[s]++ }
func (e *Env) LabelN(s string, n int) { e.labels[s] += n }
func (e *Env) Nontrivial()            { e.nontrivial = true }
func (e *Env) TempDir(name string) string {
	e.sub++
	d := filepath.Join(e.Dir, fmt.Sprintf("%s%d", name, e.sub))
	return d
}

type violation struct{ msg string }

func failf(format string, args ...interface{}) {
	panic(violation{fmt.Sprintf(format, args...)})
}

type infraError struct{ msg string }

func infraf(format string, args ...interface{}) {
	panic(infraError{fmt.Sprintf(format, args...)})
}

var infraWords = []string{"no space left", "too many open files", "cannot allocate memory", "out of memory",
	"resource temporarily unavailable", "std::bad_alloc", "failed to create new OS thread", "newosproc", "No space left", "Too many open files", "Cannot allocate memory"}

func isInfraText(s string) bool {
	for _, w := range infraWords {
		if strings.Contains(s, w) {
			return true
		}
	}
	return false
}

const (
	exitPass  = 0
	exitFail  = 1
	exitHang  = 66
	exitCPU   = 67
	exitMem   = 68
	exitInfra = 70
	exitRace  = 71
)

type wmsg struct {
	T      string         `json:"t"`
	I      int            `json:"i"`
	NT     bool           `json:"nt,omitempty"`
	H      string         `json:"h,omitempty"`
	Labels map[string]int `json:"l,omitempty"`
	Msg    string         `json:"m,omitempty"`
	Dur    float64        `json:"d,omitempty"`
}

func caseJSON(c interface{}) []byte {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	return b
}

func genCase(c *Check, seed int64, idx int, thorough bool) interface{} {
	if c.Fixed != nil {
		f := c.Fixed()
		if idx < len(f) {
			return f[idx]
		}
	}
	return c.Gen(newRand(seed, "/", c.ID, "/", idx), idx, thorough)
}

var progress struct {
	sync.Mutex
	open  bool
	start time.Time
	cpu0  float64
}

func procCPU() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	var ch syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_CHILDREN, &ch)
	f := func(t syscall.Timeval) float64 { return float64(t.Sec) + float64(t.Usec)/1e6 }
	return f(ru.Utime) + f(ru.Stime) + f(ch.Utime) + f(ch.Stime)
}

// watchdog ends the process when the open case is stuck: all threads asleep without CPU use, far too much CPU or memory.
func watchdog(cpuLimit int) {
	runtime.LockOSThread()
	me := strconv.Itoa(syscall.Gettid())
	var window []bool // of the last seconds: nothing ran
	last := procCPU()
	var of time.Time
	self := os.Getpid()
	for {
		time.Sleep(time.Second)
		progress.Lock()
		open, cpu0, start := progress.open, progress.cpu0, progress.start
		progress.Unlock()
		now := procCPU()
		if !open || start != of {
			window, last, of = nil, now, start
			if !open {
				continue
			}
		}
		if now-cpu0 > float64(cpuLimit) {
			fmt.Fprintf(os.Stderr, "WATCHDOG: cpu limit %ds exceeded by one case\n", cpuLimit)
			os.Exit(exitCPU)
		}
		if rssMB() > 6000 {
			fmt.Fprintf(os.Stderr, "WATCHDOG: memory use exceeds 6000 MB in one case\n")
			os.Exit(exitMem)
		}
		// A thread is stuck in a wait when it is seen asleep. One that is runnable only for an instant (the Go
		// scheduler looking for work) is seen asleep in one of a few looks, one that is starved of CPU is not.
		asleep := true
		ents, _ := os.ReadDir(fmt.Sprintf("/proc/%d/task", self))
		for _, e := range ents {
			if e.Name() == me {
				continue
			}
			seen := false
			for look := 0; look < 6 && !seen; look++ {
				if look > 0 {
					time.Sleep(15 * time.Millisecond)
				}
				b, err := os.ReadFile(fmt.Sprintf("/proc/%d/task/%s/stat", self, e.Name()))
				if err != nil {
					seen = true // it ended
					continue
				}
				i := bytes.LastIndexByte(b, ')')
				seen = i < 0 || i+2 >= len(b) || b[i+2] == 'S'
			}
			if !seen {
				asleep = false
				break
			}
		}
		if hasChildren() {
			asleep = false
		}
		window = append(window, asleep && now-last < 0.05)
		last = now
		if len(window) > 30 {
			window = window[1:]
		}
		n := 0
		for _, w := range window {
			if w {
				n++
			}
		}
		if n >= 25 {
			buf := make([]byte, 1<<20)
			n := stack(buf)
			fmt.Fprintf(os.Stderr, "WATCHDOG: deadlock: no thread has run for 25 of the last 30 s\n%s\n", clip(string(buf[:n]), 6000))
			os.Exit(exitHang)
		}
	}
}

var childProcs int32

func rssMB() int {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.Atoi(f[1])
	return n * os.Getpagesize() / (1 << 20)
}

func runCase(c *Check, cs interface{}, env *Env) (status string, msg string) {
	defer func() {
		r := recover()
		if r == nil && status == "" { // in modules of this Go version panic(nil) ends here
			status, msg = "fail", "panic(nil)\n"+clip(panicStack(), 3000)
		}
		if r != nil {
			switch v := r.(type) {
			case violation:
				status, msg = "fail", v.msg
			case infraError:
				status, msg = "infra", v.msg
			default:
				status, msg = "fail", "panic: "+fmt.Sprint(r)+"\n"+clip(panicStack(), 3000)
				if isInfraText(fmt.Sprint(r)) {
					status = "infra"
				}
			}
		}
	}()
	progress.Lock()
	progress.open, progress.start, progress.cpu0 = true, time.Now(), procCPU()
	progress.Unlock()
	c.Run(cs, env)
	progress.Lock()
	progress.open = false
	progress.Unlock()
	return "pass", ""
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(clipped)"
	}
	return s
}

func workerMain(args []string) {
	// worker ID tier seed from step total maxcases scratch deadlineUnix
	c := checks[args[0]]
	thorough := args[1] == "thorough"
	seed, _ := strconv.ParseInt(args[2], 10, 64)
	from, _ := strconv.Atoi(args[3])
	step, _ := strconv.Atoi(args[4])
	total, _ := strconv.Atoi(args[5])
	maxc, _ := strconv.Atoi(args[6])
	scratch := args[7]
	deadline, _ := strconv.ParseInt(args[8], 10, 64)
	out := os.NewFile(3, "proto")
	w := json.NewEncoder(out)
	go watchdog(c.CPULimit)
	n := 0
	for i := from; i < total && n < maxc; i += step {
		if time.Now().Unix() >= deadline {
			_ = w.Encode(wmsg{T: "deadline", I: i})
			os.Exit(0)
		}
		_ = w.Encode(wmsg{T: "start", I: i})
		cs := genCase(c, seed, i, thorough)
		js := caseJSON(cs)
		fresh := c.New()
		if err := json.Unmarshal(js, fresh); err != nil {
			panic(err)
		}
		h := sha256.Sum256(js)
		env := &Env{Dir: filepath.Join(scratch, fmt.Sprintf("case%d", i)), labels: map[string]int{}, idx: i, thorough: thorough}
		_ = os.MkdirAll(env.Dir, 0700)
		t0 := time.Now()
		status, msg := runCase(c, fresh, env)
		if status == "pass" {
			_ = os.RemoveAll(env.Dir)
			_ = w.Encode(wmsg{T: "done", I: i, NT: env.nontrivial, H: hex.EncodeToString(h[:8]), Labels: env.labels, Dur: time.Since(t0).Seconds()})
		} else {
			_ = w.Encode(wmsg{T: status, I: i, Msg: msg})
			os.Exit(map[string]int{"fail": exitFail, "infra": exitInfra}[status])
		}
		n++
	}
	os.Exit(0)
}

func oneMain(args []string) {
	// one ID casefile scratch [thorough]
	c := checks[args[0]]
	b, err := os.ReadFile(args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitInfra)
	}
	cs := c.New()
	if err := json.Unmarshal(b, cs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitInfra)
	}
	go watchdog(c.CPULimit)
	if pf := os.Getenv("VERIF_PROF"); pf != "" {
		f, _ := os.Create(pf)
		_ = pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	env := &Env{Dir: args[2], labels: map[string]int{}}
	_ = os.MkdirAll(env.Dir, 0700)
	status, msg := runCase(c, cs, env)
	out := os.NewFile(3, "proto")
	if out != nil {
		_ = json.NewEncoder(out).Encode(wmsg{T: status, Msg: msg, Labels: env.labels})
	}
	pprof.StopCPUProfile()
	switch status {
	case "pass":
		os.Exit(0)
	case "fail":
		os.Exit(exitFail)
	}
	os.Exit(exitInfra)
}

type childResult struct {
	status string // pass fail infra
	msg    string
}

var scratchRoot string
var scratchSeq int
var scratchMu sync.Mutex

func newScratch(tag string) string {
	scratchMu.Lock()
	defer scratchMu.Unlock()
	scratchSeq++
	d := filepath.Join(scratchRoot, fmt.Sprintf("%s%d", tag, scratchSeq))
	_ = os.MkdirAll(d, 0700)
	return d
}

type tailBuf struct {
	mu  sync.Mutex
	buf []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.buf = append(t.buf, p...)
	if len(t.buf) > 96*1024 { // keep head and tail: panics start early, keep first 64k
		t.buf = append(t.buf[:64*1024:64*1024], t.buf[len(t.buf)-16*1024:]...)
	}
	return len(p), nil
}

func classifyExit(err error, stderr string) childResult {
	if err == nil {
		return childResult{"pass", ""}
	}
	ee, ok := err.(*exec.ExitError)
	if !ok {
		return childResult{"infra", err.Error()}
	}
	ws := ee.Sys().(syscall.WaitStatus)
	if ws.Signaled() {
		if ws.Signal() == syscall.SIGKILL || ws.Signal() == syscall.SIGTERM {
			return childResult{"infra", "worker killed by " + ws.Signal().String()}
		}
		return childResult{"fail", "process died with signal " + ws.Signal().String() + "\n" + clip(stderr, 4000)}
	}
	switch ws.ExitStatus() {
	case exitHang, exitCPU, exitMem:
		return childResult{"fail", clip(lastWatchdog(stderr), 6000)}
	case exitFail:
		return childResult{"fail", ""}
	case exitRace:
		if i := strings.Index(stderr, "WARNING: DATA RACE"); i >= 0 {
			return childResult{"fail", clip(stderr[i:], 5000)}
		}
	case exitInfra:
		return childResult{"infra", clip(stderr, 2000)}
	}
	i := strings.Index(stderr, "panic: ")
	j := strings.Index(stderr, "fatal error: ")
	k := strings.Index(stderr, "SIG")
	l := strings.Index(stderr, "Assertion")
	for _, x := range []int{i, j, k, l} {
		if x >= 0 {
			head := stderr[x:]
			if isInfraText(clip(head, 600)) {
				return childResult{"infra", clip(head, 1500)}
			}
			return childResult{"fail", clip(head, 4000)}
		}
	}
	return childResult{"infra", fmt.Sprintf("exit status %d: %s", ws.ExitStatus(), clip(stderr, 1500))}
}

func lastWatchdog(s string) string {
	i := strings.LastIndex(s, "WATCHDOG")
	if i < 0 {
		return s
	}
	return s[i:]
}

var selfExe string

func startChild(args []string) (cmd *exec.Cmd, proto *os.File, stderr *tailBuf, err error) {
	cmd = exec.Command(selfExe, args...)
	r, w, err := os.Pipe()
	if err != nil {
		return nil, nil, nil, err
	}
	stderr = &tailBuf{}
	cmd.ExtraFiles = []*os.File{w}
	cmd.Stdout = nil
	cmd.Stderr = stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), "GOTRACEBACK=all", "GORACE=halt_on_error=1 exitcode=71")
	cmd.WaitDelay = 5 * time.Second
	if err = cmd.Start(); err != nil {
		r.Close()
		w.Close()
		return
	}
	w.Close()
	return cmd, r, stderr, nil
}

func runOne(c *Check, js []byte) childResult {
	d := newScratch("one")
	defer os.RemoveAll(d)
	f := filepath.Join(d, "case.json")
	if err := os.WriteFile(f, js, 0600); err != nil {
		return childResult{"infra", err.Error()}
	}
	cmd, proto, se, err := startChild([]string{"one", c.ID, f, filepath.Join(d, "s")})
	if err != nil {
		return childResult{"infra", err.Error()}
	}
	data, _ := io.ReadAll(proto)
	proto.Close()
	err = cmd.Wait()
	res := classifyExit(err, string(se.buf))
	var m wmsg
	if json.Unmarshal(bytes.TrimSpace(data), &m) == nil && m.Msg != "" {
		res.msg = m.Msg
	}
	return res
}

type parentState struct {
	c        *Check
	tier     string
	seed     int64
	mu       sync.Mutex
	evals    int
	nontriv  map[string]bool
	labels   map[string]int
	samples  []interface{}
	infra    []string
	failIdx  int
	failMsg  string
	maxDur   float64
	deadline bool
	extra    map[string]interface{}
}

func (p *parentState) noteFail(i int, msg string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.failIdx < 0 || i < p.failIdx {
		p.failIdx, p.failMsg = i, msg
	}
}

func (p *parentState) failed() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.failIdx >= 0
}

func checkMain(args []string) int {
	id := args[0]
	c, ok := checks[id]
	if !ok {
		fmt.Println("unknown check", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if len(args) > 1 && (args[1] == "quick" || args[1] == "thorough") {
		tier = args[1]
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err == nil {
			seed = v
		}
	}
	if len(args) > 2 && args[1] == "replay" {
		b, err := os.ReadFile(args[2])
		if err != nil {
			fmt.Println(err)
			return 2
		}
		var rp struct {
			Case json.RawMessage `json:"case"`
		}
		if json.Unmarshal(b, &rp) == nil && len(rp.Case) > 0 {
			b = rp.Case
		}
		for i := 0; i < c.Attempts; i++ {
			r := runOne(c, b)
			fmt.Println(r.status, r.msg)
			if r.status == "fail" {
				fmt.Printf("VIOLATION property=%s replay=%s\n", id, args[2])
				return 1
			}
			if r.status == "infra" {
				return 2
			}
		}
		return 0
	}
	t0 := time.Now()
	total := c.Quick
	budget := 240 * time.Second
	if tier == "thorough" {
		total = c.Thorough
		budget = 45 * time.Minute
	}
	if s := os.Getenv("VERIF_CASES"); s != "" {
		total, _ = strconv.Atoi(s)
	}
	if s := os.Getenv("VERIF_BUDGET_S"); s != "" {
		n, _ := strconv.Atoi(s)
		budget = time.Duration(n) * time.Second
	}
	deadline := time.Now().Add(budget).Unix()
	p := &parentState{c: c, tier: tier, seed: seed, nontriv: map[string]bool{}, labels: map[string]int{}, failIdx: -1, extra: map[string]interface{}{}}
	workers := c.Workers
	if workers == 0 {
		workers = 8
	}
	if workers > total {
		workers = total
	}
	var wg sync.WaitGroup
	for wi := 0; wi < workers; wi++ {
		wg.Add(1)
		go func(wi int) {
			defer wg.Done()
			next := wi
			infra := 0
			for next < total && !p.failed() {
				last, ended, res := runWorker(p, next, workers, total, deadline)
				if ended { // deadline
					p.mu.Lock()
					p.deadline = true
					p.mu.Unlock()
					return
				}
				switch res.status {
				case "pass":
					next = last + workers
				case "fail":
					p.noteFail(last, res.msg)
					return
				default:
					infra++
					p.mu.Lock()
					p.infra = append(p.infra, fmt.Sprintf("case %d: %s", last, res.msg))
					p.mu.Unlock()
					if infra > 3 {
						return
					}
					// retry the same case once more in a fresh process, then skip it
					if infra%2 == 0 {
						next = last + workers
					} else {
						next = last
					}
				}
			}
		}(wi)
	}
	wg.Wait()
	known := runKnownFindings(c)
	rc := 0
	nviol := 0
	var replayPath string
	if p.failIdx >= 0 {
		nviol = 1
		replayPath = p.reportFailure()
		rc = 1
	} else if p.evals == 0 || len(p.infra) > workers {
		fmt.Println("ERROR: the check could not run:", strings.Join(p.infra, "\n"))
		rc = 2
	}
	if c.Post != nil {
		c.Post(p)
	}
	writeEvidence(p, time.Since(t0).Seconds(), nviol, total)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	for _, e := range p.infra {
		fmt.Println("note (infrastructure):", clip(e, 300))
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %.1fs (slowest case %.1fs)%s\n", id, tier, seed, p.evals, len(p.nontriv), time.Since(t0).Seconds(), p.maxDur,
		map[bool]string{true: ", time budget reached", false: ""}[p.deadline])
	if os.Getenv("VERIF_VERBOSE") != "" {
		for _, k := range sortedKeys(p.labels) {
			fmt.Printf("   %-40s %d\n", k, p.labels[k])
		}
	}
	if rc == 1 {
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, replayPath)
	}
	return rc
}

func sortedKeys(m map[string]int) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// runWorker runs one worker process starting at case 'from'; returns the last case it was on.
func runWorker(p *parentState, from, step, total int, deadline int64) (last int, ended bool, res childResult) {
	d := newScratch("w")
	defer os.RemoveAll(d)
	last = from
	cmd, proto, se, err := startChild([]string{"worker", p.c.ID, p.tier, strconv.FormatInt(p.seed, 10), strconv.Itoa(from), strconv.Itoa(step),
		strconv.Itoa(total), strconv.Itoa(p.c.PerProc), d, strconv.FormatInt(deadline, 10)})
	if err != nil {
		return last, false, childResult{"infra", err.Error()}
	}
	sc := bufio.NewScanner(proto)
	sc.Buffer(make([]byte, 1<<20), 64<<20)
	stop := make(chan struct{})
	go func() { // stop early when another worker failed on an earlier case
		for {
			select {
			case <-stop:
				return
			case <-time.After(200 * time.Millisecond):
				if p.failed() {
					_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					return
				}
			}
		}
	}()
	var failMsg string
	for sc.Scan() {
		var m wmsg
		if json.Unmarshal(sc.Bytes(), &m) != nil {
			continue
		}
		last = m.I
		switch m.T {
		case "done":
			p.mu.Lock()
			p.evals++
			if m.NT {
				p.nontriv[m.H] = true
			}
			for k, v := range m.Labels {
				p.labels[k] += v
			}
			if m.Dur > p.maxDur {
				p.maxDur = m.Dur
			}
			p.mu.Unlock()
		case "deadline":
			ended = true
		case "fail", "infra":
			failMsg = m.Msg
		}
	}
	close(stop)
	proto.Close()
	err = cmd.Wait()
	if ended {
		return last, true, childResult{"pass", ""}
	}
	if p.failed() && err != nil && failMsg == "" { // killed because of another failure
		if ee, ok := err.(*exec.ExitError); ok && ee.Sys().(syscall.WaitStatus).Signaled() && ee.Sys().(syscall.WaitStatus).Signal() == syscall.SIGKILL {
			return last, true, childResult{"pass", ""}
		}
	}
	res = classifyExit(err, string(se.buf))
	if failMsg != "" {
		res.msg = failMsg
	}
	return last, false, res
}

func (p *parentState) reportFailure() string {
	c := p.c
	cs := genCase(c, p.seed, p.failIdx, p.tier == "thorough")
	js := caseJSON(cs)
	msg := p.failMsg
	confirmed := false
	for i := 0; i < c.Attempts; i++ {
		r := runOne(c, js)
		if r.status == "fail" {
			confirmed = true
			msg = r.msg
			break
		}
	}
	best := js
	if confirmed {
		budget := 60 * time.Second
		if p.tier == "thorough" {
			budget = 180 * time.Second
		}
		if s := os.Getenv("VERIF_SHRINK_S"); s != "" {
			n, _ := strconv.Atoi(s)
			budget = time.Duration(n) * time.Second
		}
		best, msg = shrink(c, js, msg, budget)
	}
	dir := filepath.Join(verifDir(), "out", "replays")
	_ = os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-case%d.json", c.ID, p.seed, p.failIdx))
	rp := map[string]interface{}{"property": c.ID, "seed": p.seed, "index": p.failIdx, "reproduced_in_fresh_process": confirmed,
		"message": msg, "case": json.RawMessage(best)}
	b, _ := json.MarshalIndent(rp, "", " ")
	_ = os.WriteFile(path, b, 0644)
	fmt.Printf("FAILED %s case %d (seed %d), reproduced=%v, shrunk %d -> %d bytes\n%s\n", c.ID, p.failIdx, p.seed, confirmed, len(js), len(best), clip(msg, 1200))
	return path
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func writeEvidence(p *parentState, wall float64, viol, planned int) {
	var samples []interface{}
	nfixed := 0
	if p.c.Fixed != nil {
		nfixed = len(p.c.Fixed())
	}
	for _, i := range []int{nfixed, nfixed + 1, nfixed + 2} {
		if i < planned {
			js := caseJSON(genCase(p.c, p.seed, i, p.tier == "thorough"))
			if len(js) > 1500 {
				samples = append(samples, map[string]interface{}{"index": i, "case_prefix": string(js[:1500])})
			} else {
				samples = append(samples, map[string]interface{}{"index": i, "case": json.RawMessage(js)})
			}
		}
	}
	cov := map[string]interface{}{
		"evaluations":          p.evals,
		"distinct_nontrivial":  len(p.nontriv),
		"rule":                 p.c.Rule,
		"samples":              samples,
		"classes":              p.labels,
		"planned_cases":        planned,
		"time_budget_reached":  p.deadline,
		"infrastructure_notes": len(p.infra),
	}
	for k, v := range p.extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property": p.c.ID, "tier": p.tier, "seed": p.seed, "level": p.c.Level,
		"coverage": cov, "assumptions": p.c.Assumptions, "wall_s": wall, "violations": viol,
	}
	if p.c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	d := filepath.Join(verifDir(), "evidence")
	_ = os.MkdirAll(d, 0755)
	_ = os.WriteFile(filepath.Join(d, p.c.ID+".json"), b, 0644)
}

// runKnownFindings replays the listed findings of the property and returns those that still fail.
func runKnownFindings(c *Check) (res []string) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "KNOWN_FINDINGS.txt"))
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(b), "\n") {
		var k struct {
			Property string `json:"property"`
			Kind     string `json:"kind"`
			What     string `json:"what"`
			Replay   string `json:"replay"`
		}
		if json.Unmarshal([]byte(line), &k) != nil || k.Property != c.ID || k.Kind != "finding" {
			continue
		}
		js, err := os.ReadFile(filepath.Join(verifDir(), k.Replay))
		if err != nil {
			fmt.Println("known finding without replay file:", err)
			continue
		}
		var rp struct {
			Case json.RawMessage `json:"case"`
		}
		if json.Unmarshal(js, &rp) == nil && len(rp.Case) > 0 {
			js = rp.Case
		}
		if r := runOne(c, js); r.status == "fail" {
			res = append(res, k.What)
		} else {
			fmt.Printf("note: known finding of %s does not show any more (%s): %s\n", c.ID, r.status, k.What)
		}
	}
	return
}

func main() {
	selfExe, _ = os.Executable()
	if len(os.Args) < 2 {
		fmt.Println("usage: harness check <ID> [quick|thorough | replay <file>]")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		workerMain(os.Args[2:])
	case "one":
		oneMain(os.Args[2:])
	case "child":
		childMain(os.Args[2:])
	case "gen": // gen ID idx: print a case
		c := checks[os.Args[2]]
		i, _ := strconv.Atoi(os.Args[3])
		seed := int64(1)
		if len(os.Args) > 4 {
			seed, _ = strconv.ParseInt(os.Args[4], 10, 64)
		}
		fmt.Println(string(caseJSON(genCase(c, seed, i, false))))
	case "list":
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
	case "check":
		scratchRoot = os.Getenv("VERIF_SCRATCH")
		if scratchRoot == "" {
			scratchRoot, _ = os.MkdirTemp("", "verif")
		}
		rc := checkMain(os.Args[2:])
		_ = os.RemoveAll(scratchRoot)
		os.Exit(rc)
	}
}
