// Engine: properties are registered as (generator, checker) pairs. A worker
// process draws cases with rapid, checks each one and shrinks the first
// failure; the driver (driver.go) fans workers out, confirms failures by
// replaying them in a fresh process and writes the evidence file.
package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Bs is a byte string that survives JSON: each byte is one code point.
type Bs string

func (b Bs) MarshalJSON() ([]byte, error) {
	r := make([]rune, len(b))
	for i := 0; i < len(b); i++ {
		r[i] = rune(b[i])
	}
	return json.Marshal(string(r))
}

func (b *Bs) UnmarshalJSON(d []byte) error {
	var s string
	if err := json.Unmarshal(d, &s); err != nil {
		return err
	}
	out := make([]byte, 0, len(s))
	for _, r := range s {
		out = append(out, byte(r))
	}
	*b = Bs(out)
	return nil
}

// Obs collects what a single check observed.
type Obs struct {
	Classes    []string
	Nontrivial bool
	Discarded  string
	Sub        int // additional sub-evaluations (for information)
}

func (o *Obs) Class(format string, a ...any) {
	if len(a) > 0 {
		format = fmt.Sprintf(format, a...)
	}
	for _, c := range o.Classes {
		if c == format {
			return
		}
	}
	o.Classes = append(o.Classes, format)
}

func (o *Obs) Discard(why string) { o.Discarded = why }

type Prop struct {
	ID       string
	Rule     string
	Assume   []string
	Quick    int // cases per quick run
	Thorough int // cases per thorough run
	Batch    int // maximal cases per worker process
	Race     bool
	CLI      bool    // executes the command-line tool
	CPU      float64 // seconds a case may take, if not hangCPU
	gen      func(*rapid.T) any
	decode   func([]byte) (any, error)
	check    func(any, *Obs) error
}

var props = map[string]*Prop{}

func register[C any](p Prop, gen func(*rapid.T) *C, check func(*C, *Obs) error) {
	p.gen = func(t *rapid.T) any { return gen(t) }
	p.decode = func(b []byte) (any, error) {
		c := new(C)
		err := json.Unmarshal(b, c)
		return c, err
	}
	p.check = func(c any, o *Obs) error { return check(c.(*C), o) }
	if p.Batch == 0 {
		p.Batch = 1 << 30
	}
	props[p.ID] = &p
}

// slack widens the watchdog for concurrent cases under the race detector.
func (p *Prop) slack() float64 {
	if p.Race {
		return 4
	}
	if p.CPU > 0 {
		return p.CPU / hangCPU
	}
	return 1
}

// HarnessBug is a panic value for internal errors of the machinery.
type HarnessBug struct{ Msg string }

// safeCheck runs a check, turning panics raised inside gpeg into violations
// and panics raised by the harness itself into harness errors.
func safeCheck(p *Prop, c any, o *Obs) (err error, bug string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		st := string(debug.Stack())
		if hb, ok := r.(HarnessBug); ok {
			bug = hb.Msg + "\n" + st
			return
		}
		if panicInGpeg() {
			err = fmt.Errorf("panic in gpeg: %v\n%s", r, trimStack(st))
			return
		}
		bug = fmt.Sprintf("harness panic: %v\n%s", r, st)
	}()
	err = p.check(c, o)
	return err, ""
}

// panicInGpeg decides, from inside a deferred function, whether the panic
// being recovered was raised by gpeg code (possibly through the standard
// library) rather than by the harness.
func panicInGpeg() bool {
	pcs := make([]uintptr, 200)
	n := runtime.Callers(0, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	seen := false
	for {
		f, more := fr.Next()
		if strings.HasPrefix(f.Function, "runtime.gopanic") || strings.HasPrefix(f.Function, "runtime.panic") || strings.HasPrefix(f.Function, "runtime.sigpanic") || strings.HasPrefix(f.Function, "runtime.goPanic") {
			seen = true
		} else if seen {
			if strings.HasPrefix(f.Function, "github.com/zyedidia/gpeg") {
				return true
			}
			if strings.HasPrefix(f.Function, "main.") {
				return false
			}
		}
		if !more {
			return false
		}
	}
}

func trimStack(s string) string {
	i := strings.Index(s, "panic(")
	if i > 0 {
		s = s[i:]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return s
}

// ---- worker -------------------------------------------------------------

type WorkerResult struct {
	Evals      int            `json:"evals"`
	Nontrivial int            `json:"nontrivial"`
	Hashes     []uint64       `json:"hashes"`
	Classes    map[string]int `json:"classes"`
	Discards   map[string]int `json:"discards"`
	Sub        int            `json:"sub"`
	Slowest    int64          `json:"slowest_ms"`
	Samples    []string       `json:"samples"`
	FailCase   string         `json:"fail_case,omitempty"`
	FailErr    string         `json:"fail_err,omitempty"`
	Bug        string         `json:"bug,omitempty"`
	Done       bool           `json:"done"`
}

// workerTB implements rapid.TB.
type workerTB struct {
	name   string
	failed bool
	logs   []string
}

func (w *workerTB) Helper()      {}
func (w *workerTB) Name() string { return w.name }
func (w *workerTB) Logf(f string, a ...any) {
	if len(w.logs) < 50 {
		w.logs = append(w.logs, fmt.Sprintf(f, a...))
	}
}
func (w *workerTB) Log(a ...any)              { w.Logf("%s", fmt.Sprint(a...)) }
func (w *workerTB) Skipf(f string, a ...any)  { runtime.Goexit() }
func (w *workerTB) Skip(a ...any)             { runtime.Goexit() }
func (w *workerTB) SkipNow()                  { runtime.Goexit() }
func (w *workerTB) Errorf(f string, a ...any) { w.Logf(f, a...); w.failed = true }
func (w *workerTB) Error(a ...any)            { w.Log(a...); w.failed = true }
func (w *workerTB) Fatalf(f string, a ...any) { w.Logf(f, a...); w.FailNow() }
func (w *workerTB) Fatal(a ...any)            { w.Log(a...); w.FailNow() }
func (w *workerTB) FailNow()                  { w.failed = true; runtime.Goexit() }
func (w *workerTB) Fail()                     { w.failed = true }
func (w *workerTB) Failed() bool              { return w.failed }

// curCase is a shared file mapping holding the case under check, so that the
// driver can recover it after a fatal runtime error or a hang.
type curCase struct {
	mem []byte
}

const curCaseSize = 4 << 20

func openCur(path string) *curCase {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil
	}
	defer f.Close()
	if f.Truncate(curCaseSize) != nil {
		return nil
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, curCaseSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return &curCase{m}
}

func (c *curCase) set(b []byte) {
	if c == nil {
		return
	}
	if len(b) > curCaseSize-16 {
		b = nil
	}
	n := len(b)
	for i := 0; i < 8; i++ {
		c.mem[i] = 0
	}
	copy(c.mem[8:], b)
	for i := 0; i < 8; i++ {
		c.mem[i] = byte(n >> (8 * i))
	}
}

func readCur(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 8 {
		return nil
	}
	n := 0
	for i := 0; i < 8; i++ {
		n |= int(b[i]) << (8 * i)
	}
	if n <= 0 || n > len(b)-8 {
		return nil
	}
	return b[8 : 8+n]
}

// Watchdog limits. A normal case takes milliseconds of CPU time; the limits
// are in CPU seconds of this process, so a busy machine does not matter.
const (
	hangCPU    = 60.0
	heapLimit  = 3 << 30
	exitHang   = 101
	exitMemory = 102
)

var caseSerial atomic.Int64

// slowestCase is the largest CPU time of one case in milliseconds, as far as
// the watchdog's polling sees it.
var slowestCase atomic.Int64

func cpuSeconds() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return float64(ru.Utime.Sec) + float64(ru.Utime.Usec)/1e6 + float64(ru.Stime.Sec) + float64(ru.Stime.Usec)/1e6
}

func startWatchdog(mult float64) {
	if v := envInt("VERIF_HANG", 0); v > 0 {
		mult = float64(v) / hangCPU // development: look for slow cases
	}
	go func() {
		last := int64(-1)
		start := 0.0
		sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
		for {
			time.Sleep(100 * time.Millisecond)
			cur := caseSerial.Load()
			now := cpuSeconds()
			if cur != last {
				last, start = cur, now
			} else if cur%2 == 1 {
				if ms := int64((now - start) * 1000); ms > slowestCase.Load() {
					slowestCase.Store(ms)
				}
			}
			if cur == last && cur%2 == 1 && now-start > hangCPU*mult {
				fmt.Fprintf(os.Stderr, "WATCHDOG hang: case used %.1f CPU seconds\n", now-start)
				if os.Getenv("VERIF_HANGSTACK") != "" {
					b := make([]byte, 1<<16)
					n := runtime.Stack(b, true)
					os.Stderr.Write(b[:n])
				}
				os.Exit(exitHang)
			}
			metrics.Read(sample)
			if cur%2 == 1 && sample[0].Value.Uint64() > heapLimit {
				fmt.Fprintf(os.Stderr, "WATCHDOG memory: heap %d bytes\n", sample[0].Value.Uint64())
				os.Exit(exitMemory)
			}
		}
	}()
}

func runOne(p *Prop, c any, cur *curCase, cj []byte, o *Obs) (error, string) {
	cur.set(cj)
	caseSerial.Add(1) // odd: running
	err, bug := safeCheck(p, c, o)
	caseSerial.Add(1)
	cur.set(nil)
	return err, bug
}

func worker(p *Prop, outPath, curPath string) {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(300)
	res := &WorkerResult{Classes: map[string]int{}, Discards: map[string]int{}}
	cur := openCur(curPath)
	startWatchdog(p.slack())
	tb := &workerTB{name: p.ID}
	seen := map[uint64]bool{}
	failing := false
	done := make(chan struct{})
	go func() {
		defer close(done)
		rapid.Check(tb, func(t *rapid.T) {
			c := p.gen(t)
			cj, err := json.Marshal(c)
			if err != nil {
				panic(err)
			}
			o := &Obs{}
			cerr, bug := runOne(p, c, cur, cj, o)
			if bug != "" {
				if res.Bug == "" {
					res.Bug = bug
					res.FailCase = string(cj)
				}
				t.Fatalf("harness bug")
			}
			if cerr != nil && p.Batch < 1<<20 && strings.Contains(cerr.Error(), "I16 out of bounds") {
				// The process-global counter of memoization identifiers is
				// exhausted (mostly while shrinking): not a property of the case.
				o.Discard("memoization identifiers of this process exhausted")
				cerr = nil
			}
			if !failing {
				res.Evals++
				res.Sub += o.Sub
				if o.Discarded != "" {
					res.Discards[o.Discarded]++
				}
				for _, k := range o.Classes {
					res.Classes[k]++
				}
				if o.Nontrivial && o.Discarded == "" {
					res.Nontrivial++
					h := fnv.New64a()
					h.Write(cj)
					s := h.Sum64()
					if !seen[s] {
						seen[s] = true
						if len(res.Samples) < 3 && len(cj) < 4000 {
							res.Samples = append(res.Samples, string(cj))
						}
					}
				}
			}
			if cerr != nil {
				failing = true
				if res.Bug == "" {
					res.FailCase = string(cj)
					res.FailErr = cerr.Error()
				}
				t.Fatalf("violation")
			}
		})
	}()
	<-done
	for h := range seen {
		res.Hashes = append(res.Hashes, h)
	}
	sort.Slice(res.Hashes, func(i, j int) bool { return res.Hashes[i] < res.Hashes[j] })
	if tb.failed && res.FailCase == "" && res.Bug == "" {
		res.Bug = "rapid failed without a failing case: " + strings.Join(tb.logs, "\n")
	}
	res.Done = true
	res.Slowest = slowestCase.Load()
	b, _ := json.Marshal(res)
	if err := os.WriteFile(outPath, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// Replay is the on-disk form of a case.
type Replay struct {
	Property string          `json:"property"`
	Error    string          `json:"error,omitempty"`
	Note     string          `json:"note,omitempty"`
	Case     json.RawMessage `json:"case"`
}

// replay runs one stored case: exit 0 holds, 1 violated, 2 harness error.
func replay(path string, mult float64) int {
	debug.SetMaxStack(256 << 20)
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[r.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", r.Property)
		return 2
	}
	c, err := p.decode(r.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	startWatchdog(mult * p.slack())
	o := &Obs{}
	cerr, bug := runOne(p, c, nil, nil, o)
	if bug != "" {
		fmt.Fprintln(os.Stderr, bug)
		return 2
	}
	if cerr != nil {
		fmt.Println("replay: property", r.Property, "violated:", cerr)
		return 1
	}
	fmt.Println("replay: property", r.Property, "holds on this case", "classes:", o.Classes, "nontrivial:", o.Nontrivial, "discarded:", o.Discarded)
	return 0
}
