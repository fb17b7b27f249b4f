// Package props states the listed properties as generated checks.
package props

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Exit codes of a worker.
const (
	ExitOK        = 0
	ExitViolation = 1
	ExitHarness   = 3
)

// Obs collects what a case exercised.
type Obs struct {
	classes map[string]int
	non     bool
	note    string
}

// Class counts a class of cases.
func (o *Obs) Class(f string, a ...interface{}) { o.classes[fmt.Sprintf(f, a...)]++ }

// ClassIf counts a class when cond holds.
func (o *Obs) ClassIf(cond bool, name string) {
	if cond {
		o.classes[name]++
	}
}

// NonTrivial marks the case as non-trivial.
func (o *Obs) NonTrivial() { o.non = true }

// Note is shown with the sample.
func (o *Obs) Note(f string, a ...interface{}) { o.note = fmt.Sprintf(f, a...) }

// Prop is a property as a generated check.
type Prop[C any] struct {
	ID          string
	Rule        string
	Quick       int // generated cases per run, over all workers
	Thorough    int
	Gen         func(t *rapid.T) C
	Sweep       func(thorough bool) []C // enumerated cases run before the random ones
	Run         func(c *C, o *Obs) error
	Summary     func(c *C) interface{}
	Assumptions []string
	Probes      []Probe
	Setup       func(w *Worker)
}

// Probe re-checks a recorded finding: it returns "" when the defect is gone,
// or what fails.
type Probe struct {
	ID  string
	Run func() string
}

type prop interface {
	id() string
	work(w *Worker)
	replay(w *Worker, raw []byte) error
	info() Info
}

// Info is the static part of a property.
type Info struct {
	ID, Rule        string
	Quick, Thorough int
	Assumptions     []string
	Probes          []Probe
}

var registry = map[string]prop{}

// Register adds a property.
func Register[C any](p *Prop[C]) { registry[p.ID] = p }

// Lookup finds a property.
func Lookup(id string) (Info, bool) {
	p, ok := registry[id]
	if !ok {
		return Info{}, false
	}
	return p.info(), true
}

// IDs lists the properties.
func IDs() []string {
	var out []string
	for k := range registry {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Worker is one process exploring a share of the cases.
type Worker struct {
	Prop     string
	Tier     string
	Seed     uint64
	Index, N int
	Dir      string // scratch directory
	Out      string // result file
	Trace    string // if set, each case is written there before it runs
	Checks   int    // overrides the number of cases
	Verif    string // /verif
	CLI      string // the built command-line program

	mu      sync.Mutex
	current func() []byte
	started time.Time
	cpu0    time.Duration
	caseNo  int64
	busy    int32
}

// Result is what a worker reports.
type Result struct {
	Evaluations int               `json:"evaluations"`
	Sweep       int               `json:"sweep"`
	Hashes      []string          `json:"hashes"`
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
	Failure     *Failure          `json:"failure,omitempty"`
}

// Failure is a violation with its case.
type Failure struct {
	Message string          `json:"message"`
	Case    json.RawMessage `json:"case"`
}

var theWorker *Worker

// Scratch is the worker's scratch directory.
func Scratch() string { return theWorker.Dir }

func die(code int, f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(code)
}

type harnessTB struct{ failed bool }

func (h *harnessTB) Helper()                          {}
func (h *harnessTB) Name() string                     { return "check" }
func (h *harnessTB) Logf(f string, a ...interface{})  {}
func (h *harnessTB) Log(a ...interface{})             {}
func (h *harnessTB) Skipf(f string, a ...interface{}) {}
func (h *harnessTB) Skip(a ...interface{})            {}
func (h *harnessTB) SkipNow()                         {}
func (h *harnessTB) Errorf(f string, a ...interface{}) {
	h.failed = true
	lastTBErr = fmt.Sprintf(f, a...)
}
func (h *harnessTB) Error(a ...interface{})            { h.failed = true; lastTBErr = fmt.Sprint(a...) }
func (h *harnessTB) Fatalf(f string, a ...interface{}) { h.Errorf(f, a...) }
func (h *harnessTB) Fatal(a ...interface{})            { h.Error(a...) }
func (h *harnessTB) FailNow()                          { h.failed = true }
func (h *harnessTB) Fail()                             { h.failed = true }
func (h *harnessTB) Failed() bool                      { return h.failed }

var lastTBErr string

func (p *Prop[C]) id() string { return p.ID }
func (p *Prop[C]) info() Info {
	return Info{p.ID, p.Rule, p.Quick, p.Thorough, p.Assumptions, p.Probes}
}

// runOne runs a case; panics outside the guarded calls are harness errors.
func (p *Prop[C]) runOne(w *Worker, c *C) (o *Obs, err error) {
	o = &Obs{classes: map[string]int{}}
	defer func() {
		if r := recover(); r != nil {
			b, _ := json.Marshal(c)
			die(ExitHarness, "harness panic in %s: %v\n%s\ncase: %.4000s", p.ID, r, debug.Stack(), b)
		}
	}()
	w.begin(func() []byte { b, _ := json.Marshal(c); return b })
	defer w.end()
	err = p.Run(c, o)
	return
}

func (w *Worker) begin(cur func() []byte) {
	w.mu.Lock()
	w.current = cur
	w.started = time.Now()
	w.cpu0 = cpuTime()
	w.caseNo++
	w.mu.Unlock()
	if w.Trace != "" {
		if err := os.WriteFile(w.Trace, cur(), 0o644); err != nil {
			die(ExitHarness, "trace: %v", err)
		}
	}
	atomic.StoreInt32(&w.busy, 1)
}

func (w *Worker) end() { atomic.StoreInt32(&w.busy, 0) }

// unwatched does what only the harness needs, such as writing large files.
func (w *Worker) unwatched(f func()) {
	w.end()
	f()
	runtime.GC()
	w.mu.Lock()
	w.cpu0, w.started = cpuTime(), time.Now()
	w.mu.Unlock()
	atomic.StoreInt32(&w.busy, 1)
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const (
	maxCPU  = 40 * time.Second // cases take milliseconds
	maxWall = 5 * time.Minute  // for a case that waits for something
	maxHeap = 3 << 30
	maxOut  = 256 << 20
)

// watchdog turns non-termination and unbounded memory into a failure that
// names the running case. Only CPU time counts: a stalled machine does not.
func (w *Worker) watchdog(fail func(msg string, c []byte)) {
	var ms runtime.MemStats
	for {
		time.Sleep(100 * time.Millisecond)
		if atomic.LoadInt32(&w.busy) == 0 {
			continue
		}
		w.mu.Lock()
		no, cpu, wall, cur := w.caseNo, cpuTime()-w.cpu0, time.Since(w.started), w.current
		w.mu.Unlock()
		if cpu < 300*time.Millisecond && wall < maxWall {
			continue
		}
		runtime.ReadMemStats(&ms)
		msg := ""
		if cpu > maxCPU {
			msg = fmt.Sprintf("no end after %v of CPU time", cpu)
		} else if wall > maxWall {
			msg = fmt.Sprintf("no end after %v", wall)
		} else if ms.HeapAlloc > maxHeap {
			msg = fmt.Sprintf("%d MB of heap in use", ms.HeapAlloc>>20)
		} else {
			continue
		}
		w.mu.Lock()
		same := no == w.caseNo
		w.mu.Unlock()
		if same {
			fail(msg, cur())
		}
	}
}

func isRapidControl(r interface{}) bool {
	s := fmt.Sprintf("%T", r)
	return strings.HasPrefix(s, "rapid.")
}

func (p *Prop[C]) work(w *Worker) {
	theWorker = w
	res := &Result{Classes: map[string]int{}}
	seen := map[[12]byte]bool{}
	finish := func(code int) {
		b, err := json.Marshal(res)
		if err != nil {
			die(ExitHarness, "%v", err)
		}
		if err := os.WriteFile(w.Out, b, 0o644); err != nil {
			die(ExitHarness, "%v", err)
		}
		os.Exit(code)
	}
	var once sync.Once
	go w.watchdog(func(msg string, c []byte) {
		once.Do(func() {
			res.Failure = &Failure{Message: msg, Case: c}
			finish(ExitViolation)
		})
		select {}
	})
	if p.Setup != nil {
		p.Setup(w)
	}
	count := func(c *C, o *Obs) {
		res.Evaluations++
		for k, n := range o.classes {
			res.Classes[k] += n
		}
		if o.non {
			b, _ := json.Marshal(c)
			var h [12]byte
			s := sha256.Sum256(b)
			copy(h[:], s[:])
			if !seen[h] {
				seen[h] = true
				res.Hashes = append(res.Hashes, fmt.Sprintf("%x", h))
				if len(res.Samples) < 3 {
					var s interface{} = json.RawMessage(b)
					if p.Summary != nil {
						s = p.Summary(c)
					}
					m := map[string]interface{}{"case": s}
					if o.note != "" {
						m["observed"] = o.note
					}
					sb, err := json.Marshal(m)
					if err == nil && len(sb) < 6000 {
						res.Samples = append(res.Samples, sb)
					}
				}
			}
		}
	}
	thorough := w.Tier == "thorough"
	if p.Sweep != nil {
		for i, c := range p.Sweep(thorough) {
			if i%w.N != w.Index {
				continue
			}
			c := c
			o, err := p.runOne(w, &c)
			if err != nil {
				b, _ := json.Marshal(&c)
				res.Failure = &Failure{Message: err.Error(), Case: b}
				finish(ExitViolation)
			}
			res.Sweep++
			count(&c, o)
		}
	}
	if p.Gen != nil {
		n := p.Quick
		if thorough {
			n = p.Thorough
		}
		if w.Checks > 0 {
			n = w.Checks
		}
		n = (n + w.N - 1) / w.N
		testing.Init()
		seed := w.Seed*1000003 + uint64(w.Index)*7919 + 1
		for k, v := range map[string]string{
			"rapid.checks": strconv.Itoa(n), "rapid.seed": strconv.FormatUint(seed, 10),
			"rapid.nofailfile": "true", "rapid.shrinktime": shrinkTime(),
		} {
			if err := flag.Set(k, v); err != nil {
				die(ExitHarness, "%v", err)
			}
		}
		tb := &harnessTB{}
		var last *Failure
		shrinking := false
		rapid.Check(tb, func(t *rapid.T) {
			c := func() (c C) {
				defer func() {
					if r := recover(); r != nil {
						if isRapidControl(r) {
							panic(r)
						}
						die(ExitHarness, "generator panic in %s: %v\n%s", p.ID, r, debug.Stack())
					}
				}()
				return p.Gen(t)
			}()
			o, err := p.runOne(w, &c)
			if err != nil {
				b, _ := json.Marshal(&c)
				last = &Failure{Message: err.Error(), Case: b}
				shrinking = true
				t.Fatalf("%s", "property violated")
			}
			if !shrinking {
				count(&c, o)
			}
		})
		if last != nil {
			res.Failure = last
			finish(ExitViolation)
		}
		if tb.failed {
			die(ExitHarness, "rapid: %s", lastTBErr)
		}
	}
	once.Do(func() { finish(ExitOK) })
	select {}
}

func (p *Prop[C]) replay(w *Worker, raw []byte) error {
	theWorker = w
	var c C
	if err := json.Unmarshal(raw, &c); err != nil {
		die(ExitHarness, "replay: %v", err)
	}
	go w.watchdog(func(msg string, _ []byte) {
		fmt.Println("reproduced:", msg)
		os.Exit(ExitViolation)
	})
	if p.Setup != nil {
		p.Setup(w)
	}
	_, err := p.runOne(w, &c)
	return err
}

// Work runs a worker; it does not return.
func Work(w *Worker) { registry[w.Prop].work(w) }

// Replay runs one case.
func Replay(w *Worker, raw []byte) error { return registry[w.Prop].replay(w, raw) }

// WithWorker prepares the package for running probes.
func WithWorker(w *Worker) { theWorker = w }

// Ran is the outcome of a call into the code under test.
type Ran struct {
	Out   []byte
	Err   error
	Panic string
	Alloc uint64 // bytes allocated in all
}

// allocLimit is what processing files of n bytes may allocate in all.
func allocLimit(n int) uint64 { return 256<<20 + 4096*uint64(n) }

// Exec runs f with standard output captured.
func Exec(f func() error) (r Ran) {
	pr, pw, err := os.Pipe()
	if err != nil {
		die(ExitHarness, "pipe: %v", err)
	}
	old := os.Stdout
	var buf bytes.Buffer
	done := make(chan struct{})
	go func() {
		defer close(done)
		n, _ := io.Copy(&buf, io.LimitReader(pr, maxOut))
		if n == maxOut {
			io.Copy(io.Discard, pr)
		}
	}()
	func() {
		var m0, m1 runtime.MemStats
		runtime.ReadMemStats(&m0)
		os.Stdout = pw
		defer func() {
			os.Stdout = old
			runtime.ReadMemStats(&m1)
			r.Alloc = m1.TotalAlloc - m0.TotalAlloc
			if x := recover(); x != nil {
				r.Panic = fmt.Sprintf("%v at %s", x, where())
			}
		}()
		r.Err = f()
	}()
	pw.Close()
	<-done
	pr.Close()
	r.Out = buf.Bytes()
	return
}

// where names the topmost function of the code under test on the panicking
// stack.
func where() string {
	pc := make([]uintptr, 64)
	n := runtime.Callers(2, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "zbdba/db-recovery") {
			return fmt.Sprintf("%s (%s:%d)", f.Function, filepath.Base(f.File), f.Line)
		}
		if !more {
			return "?"
		}
	}
}

// writeFile puts a file into the scratch directory.
func writeFile(name string, data []byte) string {
	p := filepath.Join(Scratch(), name)
	if err := os.WriteFile(p, data, 0o644); err != nil {
		die(ExitHarness, "%v", err)
	}
	return p
}

// shrinkTime bounds the search for a smaller failing case.
func shrinkTime() string {
	if s := os.Getenv("VERIF_SHRINK"); s != "" {
		return s
	}
	return "20s"
}
