package main

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// A Prop is one property: a generator of cases and the code deciding one case.
type Prop struct {
	ID     string
	Level  string
	Rule   string // what a case is and when it counts as non-trivial
	Assume []string
	Race   bool // run cases in a worker built with the race detector
	Fuzz   bool // thorough: search the generator's choices coverage-guided as well
	Quick  Budget
	Deep   Budget
	Hang   time.Duration // a case taking longer is a hang
	OwnFS  bool          // a worker mounts a small file system of its own for its files, if it may
	OOM    bool          // exhausting the self-imposed memory limit is a violation
	No32   bool          // not decidable in a 32-bit process
	AS     uint64        // address space limit of a worker, 0: none
	Tries  int           // how often a replay is attempted (nondeterministic properties)
	Gen    func(t *rapid.T) interface{}
	Run    func(c *Ctx, raw json.RawMessage)
	Fixed  func() []interface{} // cases run once per run, whatever the seed
}

// Budget bounds one run: cases per shard, number of shards, and a ceiling in seconds.
type Budget struct{ Cases, Shards, Secs int }

var props = map[string]*Prop{}

func register[C any](p Prop, gen func(t *rapid.T) C, run func(c *Ctx, x C)) *Prop {
	p.Gen = func(t *rapid.T) interface{} { return gen(t) }
	p.Run = func(c *Ctx, raw json.RawMessage) {
		var x C
		d := json.NewDecoder(bytes.NewReader(raw))
		d.DisallowUnknownFields()
		if err := d.Decode(&x); err != nil {
			panic(infraError{"cannot decode case: " + err.Error()})
		}
		run(c, x)
	}
	if p.Level == "" {
		p.Level = "exploration"
	}
	if p.Hang == 0 {
		p.Hang = 25 * time.Second
	}
	if p.Tries == 0 {
		p.Tries = 1
	}
	if p.Quick.Shards == 0 {
		p.Quick.Shards = 8
	}
	if p.Deep.Cases == 0 {
		p.Deep.Cases = p.Quick.Cases * 25
	}
	if p.Deep.Shards == 0 {
		p.Deep.Shards = p.Quick.Shards
	}
	if p.Quick.Secs == 0 {
		p.Quick.Secs = 120
	}
	if p.Deep.Secs == 0 {
		p.Deep.Secs = 600
	}
	q := p
	props[p.ID] = &q
	return &q
}

type infraError struct{ msg string }
type failure struct{ msg string }

// Ctx is what a running case sees.
type Ctx struct {
	Prop    *Prop
	Dir     string // scratch directory of this worker
	N       int    // number of the case in this worker
	labels  map[string]int
	nontriv bool
	known   map[string]string
	cleanup []func()
	Replay  bool
}

func (c *Ctx) Failf(f string, a ...interface{}) { panic(failure{fmt.Sprintf(f, a...)}) }
func (c *Ctx) Infraf(f string, a ...interface{}) {
	panic(infraError{fmt.Sprintf(f, a...)})
}
func (c *Ctx) Label(s string) { c.labels[s]++ }
func (c *Ctx) Nontrivial()    { c.nontriv = true }
func (c *Ctx) Defer(f func()) { c.cleanup = append(c.cleanup, f) }
func (c *Ctx) MMVDir() string { return filepath.Join(c.Dir, "tmp", "mmv") }
func (c *Ctx) Known(key, what string) {
	c.known[key] = what
}

// Verdict is what came of one case.
type Verdict struct {
	Fail    string            `json:"fail,omitempty"`
	Infra   string            `json:"infra,omitempty"`
	Nontriv bool              `json:"nontriv,omitempty"`
	Labels  map[string]int    `json:"labels,omitempty"`
	Known   map[string]string `json:"known,omitempty"`
	Hang    bool              `json:"hang,omitempty"`
}

// ---------------------------------------------------------------- worker

// ownFS is a small file system of this worker's own, if it has one.
var ownFS string

func workerMain(id string) {
	p := props[id]
	in, out := os.NewFile(3, "req"), os.NewFile(4, "resp")
	syscall.CloseOnExec(3)
	syscall.CloseOnExec(4)
	if p.AS != 0 {
		lim := syscall.Rlimit{Cur: p.AS, Max: p.AS}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetTraceback("all")
	if os.Getenv("VH_OWNFS") != "" {
		scratch := os.Getenv("VH_SCRATCH")
		if err := syscall.Mount("none", scratch, "tmpfs", 0, "size=32m,mode=755"); err == nil {
			ownFS = scratch
			_ = os.Chdir(scratch)
			_ = os.Mkdir(filepath.Join(scratch, "tmp"), 0755)
		}
	}
	r := bufio.NewReaderSize(in, 1<<20)
	n := 0
	for {
		line, err := r.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		n++
		v := runCase(p, line, n)
		b, _ := json.Marshal(v)
		if _, err := out.Write(append(b, '\n')); err != nil {
			os.Exit(0)
		}
	}
}

func runCase(p *Prop, raw []byte, n int) (v Verdict) {
	c := &Ctx{Prop: p, Dir: os.Getenv("VH_SCRATCH"), N: n, labels: map[string]int{}, known: map[string]string{}, Replay: os.Getenv("VH_REPLAY") != ""}
	body := func(f func()) {
		defer func() {
			switch e := recover().(type) {
			case nil:
			case failure:
				if v.Fail == "" {
					v.Fail = e.msg
				}
			case infraError:
				v.Infra = e.msg
			default:
				st := string(debug.Stack())
				if i := strings.Index(st, "panic("); i >= 0 {
					st = st[i:]
				}
				if libraryFrame(st) {
					if v.Fail == "" {
						v.Fail = fmt.Sprintf("the library panicked: %v\n%s", e, clip(st, 4000))
					}
				} else if v.Fail == "" {
					// nothing here panics on its own account: what the library
					// returned was not what any reader of it could use
					v.Fail = fmt.Sprintf("handling what the library returned panicked: %v\n%s", e, clip(st, 4000))
				}
			}
		}()
		f()
	}
	if p.Race { // more and fewer threads make for different schedules
		runtime.GOMAXPROCS(min([]int{99, 4, 99, 2}[n%4], runtime.NumCPU()))
	}
	body(func() { p.Run(c, raw) })
	for i := len(c.cleanup) - 1; i >= 0; i-- {
		body(c.cleanup[i])
	}
	v.Nontriv, v.Labels, v.Known = c.nontriv, c.labels, c.known
	return v
}

// libraryFrame: does the panicking goroutine's stack pass through the library
// before (above) the code that decides a case? (A frame that catches a panic
// and raises it again comes first in the trace of the second one.)
var libRe = regexp.MustCompile(`github\.com/performancecopilot/speed/v4[./(]`)

func libraryFrame(stack string) bool {
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if libRe.MatchString(l) {
			return true
		}
	}
	return false
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...[cut]"
	}
	return s
}

// must runs a library call that should not panic; panics classify as library failures.
func panics(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// ---------------------------------------------------------------- shard

type worker struct {
	cmd     *exec.Cmd
	req     *os.File
	resp    *bufio.Reader
	respF   *os.File
	lines   chan []byte
	errFile string
	dir     string
	done    chan struct{}
	waitErr error
}

var workerSeq int

func startWorker(p *Prop, dir string, replay bool) (*worker, error) {
	workerSeq++
	w := &worker{dir: dir}
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	if p.Race && strconv.IntSize == 64 { // there is no race detector for 386
		self += ".race"
	}
	rr, rw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	sr, sw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	scratch := filepath.Join(dir, fmt.Sprintf("w%d", workerSeq))
	if err := os.MkdirAll(filepath.Join(scratch, "tmp"), 0755); err != nil {
		return nil, err
	}
	w.errFile = filepath.Join(dir, fmt.Sprintf("err%d", workerSeq))
	ef, err := os.Create(w.errFile)
	if err != nil {
		return nil, err
	}
	env := []string{"PATH=" + os.Getenv("PATH"), "HOME=" + scratch,
		"VH_SCRATCH=" + scratch, "VH_BIN=" + os.Getenv("VH_BIN"),
		"TMPDIR=" + filepath.Join(scratch, "tmp"), "PCP_CONF=" + filepath.Join(scratch, "no-such-pcp.conf"), "PCP_DIR=" + scratch,
		"GOTRACEBACK=all"}
	if p.Race {
		env = append(env, "GORACE=halt_on_error=1 exitcode=66 history_size=4")
	}
	if replay {
		env = append(env, "VH_REPLAY=1")
	}
	start := func(attr *syscall.SysProcAttr, env ...string) error {
		w.cmd = exec.Command(self, "worker", p.ID)
		w.cmd.Stdout, w.cmd.Stderr = ef, ef
		w.cmd.ExtraFiles = []*os.File{rr, sw}
		w.cmd.Dir = scratch
		w.cmd.Env, w.cmd.SysProcAttr = env, attr
		return w.cmd.Start()
	}
	err = errors.New("no namespaces wanted")
	if p.OwnFS {
		ids := []syscall.SysProcIDMap{{ContainerID: 0, HostID: 0, Size: 65535}}
		err = start(&syscall.SysProcAttr{Setpgid: true, Cloneflags: syscall.CLONE_NEWUSER | syscall.CLONE_NEWNS,
			UidMappings: ids, GidMappings: ids, GidMappingsEnableSetgroups: true}, append(env, "VH_OWNFS=1")...)
	}
	if err != nil {
		err = start(&syscall.SysProcAttr{Setpgid: true}, env...)
	}
	ef.Close()
	rr.Close()
	sw.Close()
	if err != nil {
		rw.Close()
		sr.Close()
		return nil, err
	}
	w.req, w.respF = rw, sr
	w.resp = bufio.NewReaderSize(sr, 1<<20)
	w.lines = make(chan []byte, 1)
	w.done = make(chan struct{})
	go func() {
		for {
			l, err := w.resp.ReadBytes('\n')
			if err != nil {
				close(w.lines)
				return
			}
			w.lines <- l
		}
	}()
	go func() { w.waitErr = w.cmd.Wait(); close(w.done) }()
	return w, nil
}

func (w *worker) kill() {
	_ = syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
	<-w.done
	w.req.Close()
	w.respF.Close()
	_ = os.RemoveAll(filepath.Join(w.dir, filepath.Base(w.cmd.Dir)))
}

func (w *worker) stderr() string {
	b, _ := os.ReadFile(w.errFile)
	if len(b) > 60000 {
		b = append(append([]byte{}, b[:30000]...), append([]byte("\n...[cut]...\n"), b[len(b)-30000:]...)...)
	}
	return string(b)
}

// Shard executes cases of one property.
type Shard struct {
	p      *Prop
	dir    string
	w      *worker
	cache  map[[32]byte]Verdict
	replay bool
	served int
}

func (s *Shard) fresh() {
	if s.w != nil {
		s.w.kill()
		_ = os.Remove(s.w.errFile)
		s.w = nil
	}
	s.served = 0
}

// exec runs one case, restarting the worker when it dies.
func (s *Shard) exec(raw []byte) Verdict {
	h := sha256.Sum256(raw)
	if v, ok := s.cache[h]; ok {
		return v
	}
	v := s.attempt(raw)
	for i := 0; v.Hang && i < 2; i++ {
		// A hang must happen on every one of three fresh workers to count.
		v2 := s.attempt(raw)
		if !v2.Hang {
			if v2.Fail != "" {
				v = v2
				break
			}
			v = v2
			break
		}
		v = v2
	}
	if v.Infra == "" {
		s.cache[h] = v
	}
	return v
}

func (s *Shard) attempt(raw []byte) Verdict {
	for tries := 0; ; tries++ {
		if s.w == nil {
			w, err := startWorker(s.p, s.dir, s.replay)
			if err != nil {
				return Verdict{Infra: "cannot start worker: " + err.Error()}
			}
			s.w = w
		}
		first := s.served == 0
		s.served++
		v := s.once(raw)
		if v.Infra != "" && tries == 0 && (!first || strings.Contains(v.Infra, "worker was killed")) {
			s.fresh()
			continue
		}
		if v.Fail != "" || v.Infra != "" {
			s.fresh()
		}
		return v
	}
}

func (s *Shard) once(raw []byte) Verdict {
	w := s.w
	_, werr := w.req.Write(append(append([]byte{}, raw...), '\n'))
	limit := s.p.Hang
	timer := time.NewTimer(limit)
	defer timer.Stop()
	if werr == nil {
		select {
		case l, ok := <-w.lines:
			if ok {
				var v Verdict
				if err := json.Unmarshal(l, &v); err != nil {
					return Verdict{Infra: "bad worker reply: " + clip(string(l), 300)}
				}
				return v
			}
		case <-timer.C:
			_ = w.cmd.Process.Signal(syscall.SIGQUIT)
			select {
			case <-w.done:
			case <-time.After(5 * time.Second):
			}
			st := w.stderr()
			s.fresh()
			if libRe.MatchString(st) {
				return Verdict{Fail: fmt.Sprintf("the case did not finish within %v; goroutines:\n%s", limit, clip(firstLibStack(st), 6000)), Hang: true}
			}
			return Verdict{Fail: fmt.Sprintf("the case did not finish within %v\n%s", limit, clip(st, 3000)), Hang: true}
		}
	}
	select {
	case <-w.done:
	case <-time.After(10 * time.Second):
		s.fresh()
		return Verdict{Infra: "worker closed its pipe but did not exit"}
	}
	st := w.stderr()
	ws, _ := w.cmd.ProcessState.Sys().(syscall.WaitStatus)
	return classify(s.p, st, ws)
}

func firstLibStack(st string) string {
	var out []string
	for _, g := range strings.Split(st, "\n\n") {
		if libRe.MatchString(g) {
			out = append(out, g)
			if len(out) == 3 {
				break
			}
		}
	}
	return strings.Join(out, "\n\n")
}

var raceRe = regexp.MustCompile(`(?s)WARNING: DATA RACE.*?==================`)

// classify turns the death of a worker into a verdict.
func classify(p *Prop, st string, ws syscall.WaitStatus) Verdict {
	if m := raceRe.FindString(st); m != "" || strings.Contains(st, "WARNING: DATA RACE") {
		if m == "" {
			m = st
		}
		if libRe.MatchString(m) {
			return Verdict{Fail: "data race:\n" + clip(m, 6000)}
		}
		return Verdict{Infra: "data race outside the library:\n" + clip(m, 6000)}
	}
	if ws.Signaled() {
		return Verdict{Infra: fmt.Sprintf("worker was killed by signal %v\n%s", ws.Signal(), clip(st, 2000))}
	}
	i := indexAny(st, "panic: ", "fatal error: ", "SIGSEGV", "SIGBUS", "unexpected fault address")
	if i < 0 {
		return Verdict{Infra: fmt.Sprintf("worker exited with status %d\n%s", ws.ExitStatus(), clip(st, 3000))}
	}
	body := st[i:]
	if strings.Contains(body, "all goroutines are asleep") {
		return Verdict{Fail: "deadlock: all goroutines are asleep\n" + clip(firstLibStack(body), 5000)}
	}
	if strings.Contains(body, "out of memory") || strings.Contains(body, "cannot allocate memory") && strings.Contains(body, "fatal error") || strings.Contains(body, "failed to create new OS thread") {
		if p.OOM {
			return Verdict{Fail: "memory limit exhausted:\n" + clip(body, 3000)}
		}
		return Verdict{Infra: "out of memory:\n" + clip(body, 3000)}
	}
	// the goroutine that died is printed first
	g := body
	if k := strings.Index(body, "goroutine "); k >= 0 {
		g = body[k:]
		if e := strings.Index(g, "\n\n"); e >= 0 {
			g = g[:e]
		}
	}
	if libRe.MatchString(g) || strings.Contains(body, "concurrent map") && libRe.MatchString(body) {
		return Verdict{Fail: "the process died in library code:\n" + clip(body, 5000)}
	}
	return Verdict{Fail: "the process died handling what the library returned:\n" + clip(body, 5000)}
}

func indexAny(s string, subs ...string) int {
	best := -1
	for _, x := range subs {
		if i := strings.Index(s, x); i >= 0 && (best < 0 || i < best) {
			best = i
		}
	}
	return best
}

// ShardResult is what a shard process reports to the master.
type ShardResult struct {
	Evaluations int               `json:"evaluations"`
	Hashes      []string          `json:"hashes"` // distinct non-trivial cases
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Known       map[string]string `json:"known"`
	KnownCase   map[string]json.RawMessage
	FailCase    json.RawMessage `json:"failcase,omitempty"`
	FailMsg     string          `json:"failmsg,omitempty"`
	Confirmed   string          `json:"confirmed,omitempty"`
	Infra       string          `json:"infra,omitempty"`
	TimedOut    bool            `json:"timedout,omitempty"`
}

type tbStub struct {
	mu     sync.Mutex
	failed bool
	log    strings.Builder
}

func (b *tbStub) Helper()      {}
func (b *tbStub) Name() string { return "vh" }
func (b *tbStub) Logf(f string, a ...any) {
	b.mu.Lock()
	fmt.Fprintf(&b.log, f+"\n", a...)
	b.mu.Unlock()
}
func (b *tbStub) Log(a ...any)              { b.mu.Lock(); fmt.Fprintln(&b.log, a...); b.mu.Unlock() }
func (b *tbStub) Skipf(f string, a ...any)  { runtime.Goexit() }
func (b *tbStub) Skip(a ...any)             { runtime.Goexit() }
func (b *tbStub) SkipNow()                  { runtime.Goexit() }
func (b *tbStub) Errorf(f string, a ...any) { b.Logf(f, a...); b.failed = true }
func (b *tbStub) Error(a ...any)            { b.Log(a...); b.failed = true }
func (b *tbStub) Fatalf(f string, a ...any) { b.Logf(f, a...); b.failed = true; runtime.Goexit() }
func (b *tbStub) Fatal(a ...any)            { b.Log(a...); b.failed = true; runtime.Goexit() }
func (b *tbStub) FailNow()                  { b.failed = true; runtime.Goexit() }
func (b *tbStub) Fail()                     { b.failed = true }
func (b *tbStub) Failed() bool              { return b.failed }

func shardMain(id, dir string, seed, cases, secs int, out string) {
	p := props[id]
	s := &Shard{p: p, dir: dir, cache: map[[32]byte]Verdict{}}
	res := ShardResult{Labels: map[string]int{}, Known: map[string]string{}, KnownCase: map[string]json.RawMessage{}}
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	seen := map[string]bool{}
	setRapid(seed, cases)
	failing, odd := false, 0
	var shrinkUntil time.Time
	tb := &tbStub{}
	func() {
		done := make(chan struct{})
		go func() {
			defer close(done)
			rapid.Check(tb, func(t *rapid.T) {
				if odd > 5 {
					return
				}
				if !failing && time.Now().After(deadline) {
					res.TimedOut = true
					return
				}
				raw, err := json.Marshal(p.Gen(t))
				if err != nil {
					res.Infra = err.Error()
					return
				}
				var v Verdict
				if failing && time.Now().After(shrinkUntil) {
					v = s.cache[sha256.Sum256(raw)]
				} else {
					v = s.exec(raw)
				}
				if v.Infra != "" {
					if failing {
						return
					}
					odd++
					res.Infra = v.Infra + "\ncase: " + clip(string(raw), 4000)
					return
				}
				if !failing {
					res.Evaluations++
					if v.Nontriv {
						h := sha256.Sum256(raw)
						seen[string(h[:8])] = true
						if len(res.Samples) < 3 && len(raw) < 6000 {
							res.Samples = append(res.Samples, raw)
						}
					}
					for k, n := range v.Labels {
						res.Labels[k] += n
					}
					for k, w := range v.Known {
						if o, ok := res.KnownCase[k]; !ok || len(raw) < len(o) {
							res.Known[k], res.KnownCase[k] = w, raw
						}
					}
				}
				if v.Fail != "" {
					if !failing {
						failing = true
						shrinkUntil = time.Now().Add(25 * time.Second)
						if v.Hang {
							shrinkUntil = time.Now()
						}
					}
					if res.FailCase == nil || len(raw) <= len(res.FailCase) {
						res.FailCase, res.FailMsg = raw, v.Fail
					}
					t.Fatalf("property violated")
				}
			})
		}()
		<-done
	}()
	if tb.failed && res.FailCase == nil && res.Infra == "" {
		res.Infra = "rapid: " + clip(tb.log.String(), 3000)
	}
	if res.FailCase != nil {
		s.fresh()
		n, tries := 0, 3
		if strings.HasPrefix(res.FailMsg, "the case did not finish") {
			tries = 0
		}
		for i := 0; i < tries; i++ {
			if v := s.attempt(res.FailCase); v.Fail != "" {
				n++
			}
		}
		res.Confirmed = fmt.Sprintf("%d of %d repetitions", n, tries)
	}
	for h := range seen {
		res.Hashes = append(res.Hashes, fmt.Sprintf("%x", h))
	}
	sort.Strings(res.Hashes)
	s.fresh()
	writeJSON(out, res)
}

func writeJSON(path string, v interface{}) {
	b, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, b, 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot write", path, err)
		os.Exit(2)
	}
}

func atoi(s string, def int) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		return def
	}
	return n
}

func copyTo(w io.Writer, path string) {
	f, err := os.Open(path)
	if err == nil {
		_, _ = io.Copy(w, f)
		f.Close()
	}
}

func u64(b []byte) uint64 { return binary.LittleEndian.Uint64(b) }
