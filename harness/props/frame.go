// Package props holds the property-based checks. frame.go is the machinery:
// what a check is, the worker process that runs single cases against the code
// under test, and the explorer process that generates and shrinks them.
package props

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

// Obs is the verdict on one case.
type Obs struct {
	Fail    string   `json:"fail,omitempty"`
	Detail  string   `json:"detail,omitempty"`
	NT      bool     `json:"nt,omitempty"`
	Classes []string `json:"cl,omitempty"`
	Known   []string `json:"known,omitempty"`
	// Harness is set when the machinery itself failed: no verdict.
	Harness string `json:"harness,omitempty"`
	// Leaks counts the bubbles that ended with goroutines left in them.
	Leaks int `json:"leaks,omitempty"`
}

// O is passed to a check's run function, which reports through it.
type O struct {
	T  *testing.T
	mu sync.Mutex
	// wantStacks asks bubble for the stacks of the goroutines left.
	wantStacks bool
	// enter is called in the first bubble (see together.go).
	enter func()
	Obs
}

// Failf records a violation. Only the first one counts.
func (o *O) Failf(kind, format string, args ...any) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if o.Fail == "" {
		o.Fail = kind
		o.Detail = clip(fmt.Sprintf(format, args...), 6000)
	}
}

// Bad reports whether a violation was recorded.
func (o *O) Bad() bool {
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.Fail != ""
}

func (o *O) nontrivial() {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.NT = true
}

func (o *O) Class(format string, args ...any) {
	o.mu.Lock()
	defer o.mu.Unlock()
	c := fmt.Sprintf(format, args...)
	for _, x := range o.Classes {
		if x == c {
			return
		}
	}
	o.Classes = append(o.Classes, c)
}

// KnownFinding records that a listed defect was observed exactly as listed.
func (o *O) KnownFinding(id string) {
	o.mu.Lock()
	defer o.mu.Unlock()
	for _, x := range o.Known {
		if x == id {
			return
		}
	}
	o.Known = append(o.Known, id)
}

// head is the beginning of a payload, for messages about it.
func head(b []byte) []byte { return b[:min(len(b), 300)] }

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// bubble runs f in a synctest bubble and returns the synctest panic text if
// goroutines were left blocked in it (or f itself blocked for ever).
func (o *O) bubble(f func()) (leak string) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if strings.Contains(s, "deadlock:") {
				o.mu.Lock()
				o.Leaks++
				o.mu.Unlock()
				if leak = s; o.wantStacks {
					leak += "\n" + bubbleStacks()
				}
				return
			}
			panic(r)
		}
	}()
	synctest.Test(o.T, func(*testing.T) {
		if o.enter != nil {
			o.enter()
		}
		f()
	})
	return ""
}

var bubbleRe = regexp.MustCompile(`^goroutine \d+ \[[^\]]*synctest bubble`)

// bubbleStacks returns the stacks of the goroutines inside bubbles.
func bubbleStacks() string {
	var out []string
	for _, g := range strings.Split(allStacks(), "\n\n") {
		if bubbleRe.MatchString(g) {
			out = append(out, g)
		}
	}
	return clip(strings.Join(out, "\n\n"), 4000)
}

func allStacks() string {
	// All of it: a dump cut short says nothing of those who still run.
	for n := 1 << 20; ; n *= 2 {
		buf := make([]byte, n)
		if k := runtime.Stack(buf, true); k < n {
			return string(buf[:k])
		}
	}
}

// A Sub is one generator and oracle; a property has one or more.
type Sub struct {
	Name string
	// N is the number of random cases of the quick tier, over all shards.
	N    int
	gen  func(*rapid.T) any
	enum func(tier string) []any
	run  func(*O, json.RawMessage)
	// Race marks a sub-check for workers built with the race detector.
	Race bool
}

// Prop is a property with its checks.
type Prop struct {
	ID   string
	Rule string
	Subs []*Sub
	// Rounds is how often the quick tier goes over the sub-checks.
	Rounds int
	// Together is how many cases to run at the same time as others.
	Together int
}

var props = map[string]*Prop{}

// Register adds a property. Those of its sub-checks whose cases may run at the
// same time are joined in one more (see together.go).
func Register(p *Prop) {
	props[p.ID] = p
	if p.ID == "C19" {
		for _, s := range p.Subs {
			s.Race = true
		}
	}
	if p.Together > 0 {
		var subs []*Sub
		for _, s := range p.Subs {
			if s.gen != nil && s.N >= 5000 && !s.Race {
				subs = append(subs, s)
			}
		}
		p.Subs = append(p.Subs, Together(p.Together/max(1, p.Rounds), subs...))
	}
	has := func(words ...string) bool {
		for _, s := range p.Subs {
			for _, w := range words {
				if strings.HasPrefix(s.Name, w) {
					return true
				}
			}
		}
		return false
	}
	if has("long", "bulk", "huge", "marathon", "crowd") {
		p.Rule += " The same at scale: small cases repeated and multiplied to hundreds of steps and streams, large messages or volumes, histories of more than 65536 steps, many connections (sub-checks long, bulk, huge, marathon, crowd)."
	}
	if has("together", "shared") {
		p.Rule += " Cases of the same kinds side by side in workers built with the race detector (sub-checks together, shared); such a case is non-trivial if one of them is."
	}
}

// Rand is a check over randomly generated cases.
func Rand[C any](name string, n int, gen func(*rapid.T) C, run func(*O, C)) *Sub {
	return &Sub{Name: name, N: n,
		gen: func(t *rapid.T) any { return gen(t) },
		run: decodeRun(run)}
}

// RaceRand is one for workers built with the race detector.
func RaceRand[C any](name string, n int, gen func(*rapid.T) C, run func(*O, C)) *Sub {
	s := Rand(name, n, gen, run)
	s.Race = true
	return s
}

// Enum is a check over a fixed list of cases.
func Enum[C any](name string, list func(tier string) []C, run func(*O, C)) *Sub {
	return &Sub{Name: name,
		enum: func(tier string) (out []any) {
			for _, c := range list(tier) {
				out = append(out, c)
			}
			return
		},
		run: decodeRun(run)}
}

func decodeRun[C any](run func(*O, C)) func(*O, json.RawMessage) {
	return func(o *O, raw json.RawMessage) {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			o.Harness = "bad case: " + err.Error()
			return
		}
		run(o, c)
	}
}

func (p *Prop) sub(name string) *Sub {
	for _, s := range p.Subs {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// ---------------------------------------------------------------- worker

type request struct {
	Sub  string          `json:"sub"`
	Case json.RawMessage `json:"case"`
}

const libPath = "github.com/WatchBeam/rtmp/"

var (
	caseStart atomic.Int64 // unix nanoseconds, 0 when idle
	caseSeq   atomic.Int64
	replyMu   sync.Mutex
	replyOut  *os.File
	// waiting is set by checks that use real sockets: states in which the
	// watchdog may call a case stuck also include "IO wait".
	ioWaitIsStuck atomic.Bool
)

func reply(o Obs) {
	b, _ := json.Marshal(o)
	replyOut.Write(append(b, '\n'))
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

var (
	hdrRe  = regexp.MustCompile(`(?m)^goroutine (\d+) \[([^\]]*)\]:`)
	waitRe = regexp.MustCompile(`, \d+ minutes`)
	addrRe = regexp.MustCompile(`0x[0-9a-f]+|\+0x[0-9a-f]+`)
)

// blockedStacks returns the stacks of all goroutines if every one of them
// (besides the watchdog) is blocked on other goroutines, "" otherwise.
func blockedStacks() string {
	var keep []string
	for _, g := range strings.Split(allStacks(), "\n\n") {
		m := hdrRe.FindStringSubmatch(g)
		if m == nil || strings.Contains(g, "props.watchdog(") {
			continue
		}
		state := m[2]
		ok := false
		for _, s := range []string{"chan send", "chan receive", "select", "sync.", "semacquire",
			"synctest", "finalizer wait", "GC ", "sleep", "force gc", "cleanup wait", "scavenge"} {
			if strings.HasPrefix(state, s) {
				ok = true
			}
		}
		if strings.HasPrefix(state, "sleep") && !strings.Contains(state, "synctest") {
			ok = false
		}
		if strings.HasPrefix(state, "IO wait") && ioWaitIsStuck.Load() {
			ok = true
		}
		if !ok {
			return ""
		}
		keep = append(keep, waitRe.ReplaceAllString(g, ""))
	}
	return strings.Join(keep, "\n\n")
}

// watchdog decides hangs that the bubble cannot: every goroutine blocked for
// good, a loop that burns CPU, or unbounded memory. It never decides from
// elapsed time alone; a case that is merely slow ends in "no verdict".
func watchdog() {
	var seq int64
	var cpu0 time.Duration
	prev, same := "", 0
	samples, inLib := 0, 0
	for {
		time.Sleep(250 * time.Millisecond)
		st := caseStart.Load()
		if s := caseSeq.Load(); st == 0 || s != seq {
			seq, cpu0, prev, same = s, cpuTime(), "", 0
			samples, inLib = 0, 0
			continue
		}
		el := time.Since(time.Unix(0, st))
		var ms runtime.MemStats
		if el > 500*time.Millisecond {
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				verdict("memory", "heap grew above 3 GiB in one case\n"+libStacks())
			}
		}
		if el < 2*time.Second {
			continue
		}
		if samples++; libRuns() {
			inLib++
		}
		// A case may keep the harness busy, too.
		if cpu := cpuTime() - cpu0; cpu > 60*time.Second && inLib*2 > samples {
			verdict("spin", fmt.Sprintf("one case used %v of CPU time\n%s", cpu, libStacks()))
		}
		b := blockedStacks()
		if b != "" && b == prev {
			same++
		} else {
			same = 0
		}
		prev = b
		if same >= 12 {
			verdict("hang", "all goroutines are blocked for good\n"+libStacks())
		}
		if el > 5*time.Minute {
			replyMu.Lock()
			reply(Obs{Harness: "a case ran for 5 minutes without being provably stuck\n" + clip(allStacks(), 8000)})
			os.Exit(3)
		}
	}
}

// libRuns tells whether a goroutine that is running, or could, is in library
// code.
func libRuns() bool {
	for _, g := range strings.Split(allStacks(), "\n\n") {
		m := hdrRe.FindStringSubmatch(g)
		if m != nil && strings.HasPrefix(m[2], "run") && strings.Contains(g, libPath) {
			return true
		}
	}
	return false
}

func libStacks() string {
	var out []string
	for _, g := range strings.Split(allStacks(), "\n\n") {
		if strings.Contains(g, libPath) {
			out = append(out, g)
		}
	}
	return clip(strings.Join(out, "\n\n"), 5000)
}

func verdict(kind, detail string) {
	replyMu.Lock()
	reply(Obs{Fail: kind, Detail: detail})
	os.Exit(0)
}

// runCase runs one case, turning a panic in library code into a violation.
func runCase(t *testing.T, s *Sub, raw json.RawMessage) (obs Obs) {
	o := &O{T: t}
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 1<<16)
			st := string(buf[:runtime.Stack(buf, false)])
			o.mu.TryLock()
			if panicInLib(st) {
				o.Obs.Fail, o.Obs.Detail = "panic", clip(fmt.Sprintf("panic: %v\n%s", r, st), 6000)
			} else {
				o.Obs.Harness = fmt.Sprintf("panic: %v\n%s", r, st)
			}
			obs = o.Obs
		}
	}()
	s.run(o, raw)
	o.mu.Lock()
	defer o.mu.Unlock()
	return o.Obs
}

// panicInLib tells whether library code is on the panicking stack.
func panicInLib(stack string) bool {
	if i := strings.Index(stack, "\npanic("); i >= 0 {
		stack = stack[i:]
	}
	return strings.Contains(stack, libPath)
}

// Worker serves cases until its input ends.
func Worker(t *testing.T, p *Prop) {
	in := bufio.NewReaderSize(os.NewFile(3, "in"), 1<<20)
	replyOut = os.NewFile(4, "out")
	go watchdog()
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var rq request
		if err := json.Unmarshal(line, &rq); err != nil {
			panic(err)
		}
		s := p.sub(rq.Sub)
		caseSeq.Add(1)
		caseStart.Store(time.Now().UnixNano())
		began, cpu := time.Now(), cpuTime()
		o := runCase(t, s, rq.Case)
		caseStart.Store(0)
		if log := os.Getenv("PROPS_SLOW"); log != "" && cpuTime()-cpu > time.Second {
			// Development aid: which cases take long.
			if f, err := os.OpenFile(log, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o666); err == nil {
				fmt.Fprintf(f, "%s/%s %v of CPU, %v\n", p.ID, s.Name, cpuTime()-cpu, time.Since(began))
				f.Close()
			}
		}
		replyMu.Lock()
		reply(o)
		replyMu.Unlock()
	}
}

// ---------------------------------------------------------------- client

// workerProc is the explorer's handle on a worker process.
type workerProc struct {
	prop   string
	cmd    *exec.Cmd
	in     *os.File
	out    *bufio.Reader
	outF   *os.File
	stderr *tailBuf
	done   int
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<18 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { t.mu.Lock(); defer t.mu.Unlock(); return string(t.b) }

func (w *workerProc) start() error {
	inR, inW, err := os.Pipe()
	if err != nil {
		return err
	}
	outR, outW, err := os.Pipe()
	if err != nil {
		return err
	}
	w.stderr = new(tailBuf)
	w.cmd = exec.Command(os.Args[0], "-test.run=^TestMode$", "-test.timeout=0")
	w.cmd.Env = append(os.Environ(), "PROPS_MODE=worker", "PROPS_ID="+w.prop)
	w.cmd.ExtraFiles = []*os.File{inR, outW}
	w.cmd.Stderr = w.stderr
	w.cmd.Stdout = w.stderr
	if err := w.cmd.Start(); err != nil {
		return err
	}
	inR.Close()
	outW.Close()
	w.in, w.outF, w.out, w.done = inW, outR, bufio.NewReaderSize(outR, 1<<16), 0
	return nil
}

func (w *workerProc) stop() {
	if w.cmd == nil {
		return
	}
	w.in.Close()
	w.outF.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	w.cmd = nil
}

// run runs a case in the worker. A worker that dies without the library being the
// reason gets another two attempts at the case.
func (w *workerProc) run(sub string, raw json.RawMessage) Obs {
	o := w.attempt(sub, raw)
	for i := 0; i < 2 && o.Harness != ""; i++ {
		fmt.Fprintf(os.Stderr, "trying a case of %s again after: %s\n", sub, clip(o.Harness, 1500))
		w.stop()
		time.Sleep(time.Second)
		o = w.attempt(sub, raw)
	}
	return o
}

func (w *workerProc) attempt(sub string, raw json.RawMessage) Obs {
	if w.cmd != nil && w.done >= 20000 {
		w.stop()
	}
	if w.cmd == nil {
		if err := w.start(); err != nil {
			return Obs{Harness: "cannot start worker: " + err.Error()}
		}
	}
	b, _ := json.Marshal(request{sub, raw})
	if _, err := w.in.Write(append(b, '\n')); err != nil && w.cmd == nil {
		return Obs{Harness: "cannot write to worker: " + err.Error()}
	}
	stuck := make(chan struct{})
	go guard(w.cmd.Process, stuck)
	line, err := w.out.ReadBytes('\n')
	close(stuck)
	if err == nil {
		var o Obs
		if err := json.Unmarshal(line, &o); err != nil {
			w.stop()
			return Obs{Harness: "bad reply from worker: " + err.Error()}
		}
		// Goroutines left behind make a worker slow.
		w.done += 1 + 50*o.Leaks
		if o.Fail != "" {
			// A failed case may leave goroutines behind.
			w.done += 500
		}
		return o
	}
	w.in.Close()
	w.outF.Close()
	err = w.cmd.Wait()
	w.cmd = nil
	msg := w.stderr.String()
	if strings.Contains(msg, "SIGQUIT: quit") {
		var lib []string
		for _, g := range strings.Split(msg, "\n\n") {
			if strings.HasPrefix(g, "goroutine ") && strings.Contains(g, libPath) {
				lib = append(lib, g)
			}
		}
		if len(lib) == 0 {
			return Obs{Harness: "the harness burns CPU: " + clip(msg, 20000)}
		}
		return Obs{Fail: "spin", Detail: clip("one case used over 240s of CPU time\n"+strings.Join(lib, "\n\n"), 6000)}
	}
	if i := strings.Index(msg, "WARNING: DATA RACE"); i >= 0 {
		if !strings.Contains(msg[i:], libPath) {
			return Obs{Harness: "data race in the harness:\n" + clip(msg[i:], 6000)}
		}
		return Obs{Fail: "race", Detail: clip(msg[i:], 6000)}
	}
	i := strings.Index(msg, "panic: ")
	if j := strings.Index(msg, "fatal error: "); i < 0 || j >= 0 && j < i {
		i = j
	}
	if i >= 0 && !strings.Contains(msg[i:], "\nfatal error: runtime: out of memory") {
		st := msg[i:]
		// The first stack listed is that of the panicking goroutine.
		if parts := strings.SplitN(st, "\n\n", 3); len(parts) >= 2 {
			first := parts[0] + "\n\n" + parts[1]
			if panicInLib(first) {
				return Obs{Fail: "panic", Detail: clip(first, 6000)}
			}
		}
		return Obs{Harness: "worker died: " + clip(st, 6000)}
	}
	return Obs{Harness: fmt.Sprintf("worker died: %v\n%s", err, clip(msg, 20000))}
}

// guard ends the worker if one case burns CPU so that not even the watchdog in
// it gets to run.
func guard(p *os.Process, done chan struct{}) {
	ticks := func() int64 {
		b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", p.Pid))
		f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
		if len(f) < 13 {
			return 0
		}
		u, _ := strconv.ParseInt(f[11], 10, 64)
		s, _ := strconv.ParseInt(f[12], 10, 64)
		return u + s
	}
	first := int64(-1)
	for {
		select {
		case <-done:
			return
		case <-time.After(3 * time.Second):
		}
		if first < 0 {
			first = ticks()
		} else if ticks()-first > 24000 {
			p.Signal(syscall.SIGQUIT)
			return
		}
	}
}

// ---------------------------------------------------------------- explorer

// Failure is a violating case, as saved for replay.
type Failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Kind     string          `json:"kind"`
	Detail   string          `json:"detail"`
	Case     json.RawMessage `json:"case"`
}

// Result is what one shard reports.
type Result struct {
	Evals    map[string]int    `json:"evals"`
	NT       map[string]int    `json:"nt"`
	Classes  map[string]int    `json:"classes"`
	Samples  []json.RawMessage `json:"samples"`
	Known    map[string]string `json:"known"`
	Failure  *Failure          `json:"failure,omitempty"`
	Harness  string            `json:"harness,omitempty"`
	Rule     string            `json:"rule"`
	EnumSubs []string          `json:"enum_subs"`
	CPU      float64           `json:"cpu_s"`
}

type stopTB struct {
	mu     sync.Mutex
	failed bool
}

func (s *stopTB) Helper()               {}
func (s *stopTB) Name() string          { return "props" }
func (s *stopTB) Logf(string, ...any)   {}
func (s *stopTB) Log(...any)            {}
func (s *stopTB) Skipf(string, ...any)  { runtime.Goexit() }
func (s *stopTB) Skip(...any)           { runtime.Goexit() }
func (s *stopTB) SkipNow()              { runtime.Goexit() }
func (s *stopTB) Errorf(string, ...any) { s.Fail() }
func (s *stopTB) Error(...any)          { s.Fail() }
func (s *stopTB) Fatalf(string, ...any) { s.FailNow() }
func (s *stopTB) Fatal(...any)          { s.FailNow() }
func (s *stopTB) FailNow()              { s.Fail(); runtime.Goexit() }
func (s *stopTB) Fail()                 { s.mu.Lock(); s.failed = true; s.mu.Unlock() }
func (s *stopTB) Failed() bool          { s.mu.Lock(); defer s.mu.Unlock(); return s.failed }

func hash64(parts ...string) uint64 {
	h := fnv.New64a()
	for _, p := range parts {
		io.WriteString(h, p)
		h.Write([]byte{0})
	}
	x := h.Sum64()
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	return x
}

type explorer struct {
	p       *Prop
	w       *workerProc
	res     *Result
	hashes  map[uint64]bool
	nSample map[string]int
	last    *Failure
}

// eval runs a case and books it. It reports whether the case failed.
func (e *explorer) eval(s *Sub, c any) bool {
	raw, err := json.Marshal(c)
	if err != nil {
		e.res.Harness = "cannot encode case: " + err.Error()
		return false
	}
	o := e.w.run(s.Name, raw)
	if o.Harness != "" {
		if e.res.Harness == "" {
			e.res.Harness = fmt.Sprintf("%s/%s: %s\ncase: %s", e.p.ID, s.Name, o.Harness, clip(string(raw), 3000))
		}
		return false
	}
	e.res.Evals[s.Name]++
	for _, k := range o.Known {
		if _, ok := e.res.Known[k]; !ok {
			e.res.Known[k] = s.Name + " " + clip(string(raw), 400)
		}
	}
	for _, c := range o.Classes {
		e.res.Classes[s.Name+"/"+c]++
	}
	if o.NT {
		h := hash64(s.Name, string(raw))
		if !e.hashes[h] {
			e.hashes[h] = true
			e.res.NT[s.Name]++
			// Keep a few samples: the 1st, and later sparse ones.
			n := e.res.NT[s.Name]
			if len(raw) < 1500 && e.nSample[s.Name] < 3 && (n == 1 || n%37 == 0) {
				e.nSample[s.Name]++
				smp, _ := json.Marshal(map[string]any{"check": s.Name, "case": json.RawMessage(raw), "classes": o.Classes})
				e.res.Samples = append(e.res.Samples, smp)
			}
		}
	}
	if o.Fail != "" {
		e.last = &Failure{e.p.ID, s.Name, o.Fail, o.Detail, raw}
		return true
	}
	return false
}

// Explore is the main function of the explorer process.
func Explore(p *Prop) {
	tier := os.Getenv("PROPS_TIER")
	seed := os.Getenv("PROPS_SEED")
	shard, _ := strconv.Atoi(os.Getenv("PROPS_SHARD"))
	shards, _ := strconv.Atoi(os.Getenv("PROPS_SHARDS"))
	budget, _ := strconv.ParseFloat(os.Getenv("PROPS_BUDGET"), 64)
	only := os.Getenv("PROPS_SUB")
	mult := 1.0
	if m, err := strconv.ParseFloat(os.Getenv("PROPS_MULT"), 64); err == nil {
		mult = m
	}
	out := os.Getenv("PROPS_OUT")
	deadline := time.Now().Add(time.Duration(budget * float64(time.Second)))

	res := &Result{Evals: map[string]int{}, NT: map[string]int{}, Classes: map[string]int{},
		Known: map[string]string{}, Rule: p.Rule}
	e := &explorer{p: p, w: &workerProc{prop: p.ID}, res: res, hashes: map[uint64]bool{}, nSample: map[string]int{}}
	defer e.w.stop()

	race := os.Getenv("PROPS_RACE") != ""
	stop := func() bool { return res.Harness != "" || e.last != nil || time.Now().After(deadline) }

	for _, s := range p.Subs {
		if s.enum == nil || s.Race != race || only != "" && only != s.Name {
			continue
		}
		res.EnumSubs = append(res.EnumSubs, s.Name)
		for i, c := range s.enum(tier) {
			if i%shards == shard && e.last == nil && res.Harness == "" {
				e.eval(s, c)
			}
		}
	}
	for round := 0; ; round++ {
		ran := false
		for _, s := range p.Subs {
			if s.gen == nil || s.Race != race || stop() || only != "" && only != s.Name {
				continue
			}
			n := int(float64(s.N)*mult)/shards + 1
			e.rapid(s, n, hash64(seed, p.ID, s.Name, fmt.Sprint(shard), fmt.Sprint(round)), deadline)
			ran = true
		}
		if stop() || !ran || tier == "quick" && round+1 >= max(1, p.Rounds) {
			break
		}
	}
	res.Failure = e.last
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_CHILDREN, &ru)
	res.CPU = float64(ru.Utime.Nano()+ru.Stime.Nano())/1e9 + cpuTime().Seconds()

	hs := make([]uint64, 0, len(e.hashes))
	for h := range e.hashes {
		hs = append(hs, h)
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
	var hb bytes.Buffer
	binary.Write(&hb, binary.LittleEndian, hs)
	os.WriteFile(out+".hashes", hb.Bytes(), 0o600)
	b, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(out, b, 0o600); err != nil {
		panic(err)
	}
}

func (e *explorer) rapid(s *Sub, n int, seed uint64, deadline time.Time) {
	if seed == 0 {
		seed = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "25s")
	done := make(chan struct{})
	tb := &stopTB{}
	go func() {
		defer close(done)
		rapid.Check(tb, func(t *rapid.T) {
			if e.last == nil && time.Now().After(deadline) || e.res.Harness != "" {
				return
			}
			if e.eval(s, s.gen(t)) {
				t.Fatalf("violation")
			}
		})
	}()
	<-done
	if tb.Failed() && e.last == nil && e.res.Harness == "" {
		e.res.Harness = fmt.Sprintf("%s/%s: the generator produced no valid cases", e.p.ID, s.Name)
	}
}

// Replay runs one saved case, several times because of schedules.
func Replay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var f Failure
	if err := json.Unmarshal(b, &f); err != nil {
		panic(err)
	}
	w := &workerProc{prop: f.Property}
	defer w.stop()
	for i := 0; i < 30; i++ {
		o := w.run(f.Sub, f.Case)
		if o.Harness != "" {
			fmt.Println("HARNESS", o.Harness)
			os.Exit(3)
		}
		if o.Fail != "" {
			fmt.Printf("run %d: %s: %s\n", i+1, o.Fail, o.Detail)
			os.Exit(1)
		}
	}
	fmt.Println("the case passes")
}
