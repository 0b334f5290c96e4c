package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Bin is a byte string that survives JSON encoding whatever bytes it holds.
type Bin string

func (b Bin) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(b))) }
func (b *Bin) UnmarshalJSON(d []byte) error {
	var q string
	if err := json.Unmarshal(d, &q); err != nil {
		return err
	}
	s, err := strconv.Unquote(q)
	*b = Bin(s)
	return err
}

// Ctx is given to the oracle of a property: it collects what the case exercised.
type Ctx struct {
	classes    map[string]bool
	nontrivial bool
	known      map[string]bool // known findings seen
	steps      int
	upsets     []upset
}

// Upset repeats what goes before the case, in the middle of it.
func (x *Ctx) Upset() {
	for _, u := range x.upsets {
		x.Class("after a call that has nothing to do with it: " + u.K)
		u.do()
	}
}

func (x *Ctx) Class(s string) { x.classes[s] = true }
func (x *Ctx) ClassIf(b bool, s string) {
	if b {
		x.classes[s] = true
	}
}
func (x *Ctx) Nontrivial(b bool) {
	if b {
		x.nontrivial = true
	}
}
func (x *Ctx) Known(s string) { x.known[s] = true }

// Prop is one property: a generator of JSON-encodable cases and an oracle that judges a case.
type Prop struct {
	ID      string
	Rule    string
	Quick   int // cases over all shards
	Thor    int
	Race    bool
	Assume  []string
	After   []string // the kinds of calls that go before a case most often
	gen     func(t *rapid.T) any
	decode  func(d []byte) (any, error)
	run     func(c any, x *Ctx) error
	Fixed   func() []any // fixed cases, run first in every shard 0
	Finding func() []string
}

var props = map[string]*Prop{}

func register[C any](p Prop, gen func(t *rapid.T) C, run func(c C, x *Ctx) error) *Prop {
	p.gen = func(t *rapid.T) any {
		if l := genUpsets(t, p.After); len(l) > 0 {
			return withUpsets[C]{l, gen(t)}
		}
		return gen(t)
	}
	p.decode = decodeCase[C]
	p.run = func(c any, x *Ctx) error {
		if w, ok := c.(withUpsets[C]); ok {
			x.upsets = w.Before
			x.Upset()
			return run(w.Case, x)
		}
		return run(c.(C), x)
	}
	props[p.ID] = &p
	return props[p.ID]
}

// Stats is what one shard measured.
type Stats struct {
	Evaluations int            `json:"evaluations"`
	Steps       int            `json:"steps"`
	Hashes      []uint64       `json:"hashes"` // distinct non-trivial cases
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	Known       map[string]int `json:"known"`
	Slowest     float64        `json:"slowest"` // processor seconds of the slowest case
	Deadline    bool           `json:"deadline"`
	Failed      bool           `json:"failed"`
	Error       string         `json:"error"`
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

const (
	exitViolation = 10 // the oracle rejected a case
	exitHang      = 11 // a case used more processor time or memory than any sound one can
	caseCPULimit  = 120.0
	caseWallLimit = 120 * time.Second
	caseMemLimit  = 3 << 30
)

var caseStart struct {
	sync.Mutex
	running bool
	cpu     float64
	began   time.Time
}

// watchdog ends the process when one case runs away: no case that the generators make needs
// more than a second of processor time or some megabytes.
func watchdog(onHang func(why string)) {
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			caseStart.Lock()
			running, cpu, began := caseStart.running, caseStart.cpu, caseStart.began
			caseStart.Unlock()
			if !running {
				continue
			}
			if d := cpuSeconds() - cpu; d > caseCPULimit {
				onHang(fmt.Sprintf("the case did not return within %.0f s of processor time", d))
			}
			if w := time.Since(began); w > caseWallLimit && cpuSeconds()-cpu < 1 {
				onHang(fmt.Sprintf("the case is blocked: it did not return within %.0f s and used no processor time", w.Seconds()))
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > caseMemLimit {
				onHang(fmt.Sprintf("the case used %d MB of memory", ms.HeapAlloc>>20))
			}
		}
	}()
}

type crash struct{ msg string }

func (c crash) Error() string { return c.msg }

// safeRun judges one case; a panic of the code under test (or of the oracle on what it returned) rejects it.
func safeRun(p *Prop, c any, x *Ctx) (err error) {
	caseStart.Lock()
	caseStart.running, caseStart.cpu, caseStart.began = true, cpuSeconds(), time.Now()
	caseStart.Unlock()
	defer func() {
		caseStart.Lock()
		caseStart.running = false
		caseStart.Unlock()
		if r := recover(); r != nil {
			err = crash{fmt.Sprintf("panic: %v\n%s", r, debug.Stack())}
		}
	}()
	return p.run(c, x)
}

func newCtx() *Ctx { return &Ctx{classes: map[string]bool{}, known: map[string]bool{}} }

// shardTB lets rapid run outside of go test.
type shardTB struct {
	failed bool
	logs   []string
}
type stopTB struct{}

func (s *shardTB) Helper()                   {}
func (s *shardTB) Name() string              { return "shard" }
func (s *shardTB) Logf(f string, a ...any)   { s.Log(fmt.Sprintf(f, a...)) }
func (s *shardTB) Log(a ...any)              { s.logs = append(s.logs, fmt.Sprint(a...)) }
func (s *shardTB) Skipf(f string, a ...any)  { panic(stopTB{}) }
func (s *shardTB) Skip(a ...any)             { panic(stopTB{}) }
func (s *shardTB) SkipNow()                  { panic(stopTB{}) }
func (s *shardTB) Errorf(f string, a ...any) { s.Logf(f, a...); s.failed = true }
func (s *shardTB) Error(a ...any)            { s.Log(a...); s.failed = true }
func (s *shardTB) Fatalf(f string, a ...any) { s.Logf(f, a...); s.failed = true; panic(stopTB{}) }
func (s *shardTB) Fatal(a ...any)            { s.Log(a...); s.failed = true; panic(stopTB{}) }
func (s *shardTB) FailNow()                  { s.failed = true; panic(stopTB{}) }
func (s *shardTB) Fail()                     { s.failed = true }
func (s *shardTB) Failed() bool              { return s.failed }

func hash64(b []byte) uint64 { h := fnv.New64a(); h.Write(b); return h.Sum64() }

// runShard generates and judges the cases of one shard; results go to files in dir.
func runShard(p *Prop, dir string, shard int, deadline time.Time) int {
	st := &Stats{Classes: map[string]int{}, Known: map[string]int{}}
	seen := map[uint64]bool{}
	curFile, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("current-%d", shard)), os.O_CREATE|os.O_RDWR|os.O_TRUNC, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	failing := filepath.Join(dir, fmt.Sprintf("failing-%d", shard))
	flush := func() {
		for h := range seen {
			st.Hashes = append(st.Hashes, h)
		}
		sort.Slice(st.Hashes, func(i, j int) bool { return st.Hashes[i] < st.Hashes[j] })
		b, _ := json.Marshal(st)
		os.WriteFile(filepath.Join(dir, fmt.Sprintf("stats-%d", shard)), b, 0o644)
	}
	var once int32
	watchdog(func(why string) {
		if atomic.CompareAndSwapInt32(&once, 0, 1) {
			os.WriteFile(filepath.Join(dir, fmt.Sprintf("hang-%d", shard)), []byte(why), 0o644)
			os.Exit(exitHang)
		}
	})
	failed := false
	judge := func(c any) error {
		enc, e := json.Marshal(c)
		if e != nil {
			panic(e)
		}
		curFile.WriteAt(enc, 0)
		curFile.Truncate(int64(len(enc)))
		x := newCtx()
		began := cpuSeconds()
		err := safeRun(p, c, x)
		if !failed {
			st.Slowest = max(st.Slowest, cpuSeconds()-began)
			st.Evaluations++
			st.Steps += x.steps
			for k := range x.classes {
				st.Classes[k]++
			}
			for k := range x.known {
				st.Known[k]++
			}
			if x.nontrivial {
				h := hash64(enc)
				if !seen[h] {
					seen[h] = true
					if len(st.Samples) < 2 && len(enc) < 1500 && st.Evaluations > 20 {
						st.Samples = append(st.Samples, string(enc))
					}
				}
			}
		}
		if err != nil {
			failed = true
			b, _ := json.Marshal(failure{Property: p.ID, Case: enc, Error: err.Error()})
			os.WriteFile(failing+".tmp", b, 0o644)
			os.Rename(failing+".tmp", failing)
		}
		return err
	}
	if shard == 0 && p.Fixed != nil {
		for _, c := range p.Fixed() {
			if err := judge(c); err != nil {
				st.Failed = true
				flush()
				return exitViolation
			}
		}
	}
	tb := &shardTB{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopTB); !ok {
					st.Error = fmt.Sprintf("%v\n%s", r, debug.Stack())
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			if !failed && time.Now().After(deadline) {
				st.Deadline = true
				return
			}
			c := p.gen(t)
			if err := judge(c); err != nil {
				t.Fatalf("rejected")
			}
		})
	}()
	st.Failed = failed
	if tb.failed && !failed {
		st.Error = fmt.Sprintf("rapid: %v", tb.logs)
	}
	flush()
	if failed {
		return exitViolation
	}
	if st.Error != "" {
		fmt.Fprintln(os.Stderr, st.Error)
		return 2
	}
	return 0
}

type failure struct {
	Property string          `json:"property"`
	Case     json.RawMessage `json:"case"`
	Error    string          `json:"error"`
	Seed     uint64          `json:"seed,omitempty"`
	Shard    int             `json:"shard,omitempty"`
	Note     string          `json:"note,omitempty"`
}
