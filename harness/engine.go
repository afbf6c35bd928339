package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// Res is what checking one case says about the case.
type Res struct {
	Nontrivial bool
	Evals      int      // library executions compared to the oracle
	Skipped    int      // executions whose outcome the standard leaves open
	Classes    []string // features exercised, for the histogram
}

// Prop is one property: how cases are made and what decides them.
type Prop struct {
	ID    string
	Rule  string
	Gen   func(*rapid.T) interface{}
	New   func() interface{}
	Check func(interface{}) Res
	// cases per worker
	Quick, Thorough int
	Race            bool
	Workers         int
	// Findings checks for defects that may be listed as known and returns
	// those present.
	Findings func() []Finding
	Assume   []string
}

// Finding is a defect that was looked for and is there. It is reported as known
// if the known-findings file lists its key, and as a violation otherwise.
type Finding struct{ Key, What string }

var props = map[string]*Prop{}

func register[C any](id, rule string, quick, thorough int, gen func(*rapid.T) *C, check func(*C) Res) *Prop {
	p := &Prop{ID: id, Rule: rule, Quick: quick, Thorough: thorough,
		Gen:   func(t *rapid.T) interface{} { return gen(t) },
		New:   func() interface{} { return new(C) },
		Check: func(c interface{}) Res { return check(c.(*C)) },
	}
	props[id] = p
	return p
}

type Failure struct {
	Msg  string          `json:"msg"`
	Case json.RawMessage `json:"case"`
	Xml  string          `json:"-"`
}

type Report struct {
	Cases    int               `json:"cases"`
	Evals    int               `json:"evals"`
	Skipped  int               `json:"skipped"`
	Nontriv  int               `json:"nontriv"`
	Hashes   []uint64          `json:"hashes"`
	Classes  map[string]int    `json:"classes"`
	Samples  []json.RawMessage `json:"samples"`
	Fail     *Failure          `json:"fail,omitempty"`
	Infra    string            `json:"infra,omitempty"`
	Deadline bool              `json:"deadline,omitempty"`
	Corpus   int               `json:"corpus,omitempty"`
}

// runCase checks one case; msg is "" when the property held.
func runCase(p *Prop, c interface{}) (res Res, msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case violation:
				msg = string(v)
			case libPanic:
				msg = v.msg
			default:
				panic(r)
			}
		}
	}()
	return p.Check(c), ""
}

type workerTB struct{ failed bool }

type stopCheck struct{}

func (w *workerTB) Helper()                           {}
func (w *workerTB) Name() string                      { return "verif" }
func (w *workerTB) Logf(format string, args ...any)   {}
func (w *workerTB) Log(args ...any)                   {}
func (w *workerTB) Skipf(format string, args ...any)  { panic(stopCheck{}) }
func (w *workerTB) Skip(args ...any)                  { panic(stopCheck{}) }
func (w *workerTB) SkipNow()                          { panic(stopCheck{}) }
func (w *workerTB) Errorf(format string, args ...any) { w.failed = true; tbLog(format, args...) }
func (w *workerTB) Error(args ...any)                 { w.failed = true; tbLog("%s", fmt.Sprint(args...)) }
func (w *workerTB) Fatalf(format string, args ...any) {
	w.failed = true
	tbLog(format, args...)
	panic(stopCheck{})
}
func (w *workerTB) Fatal(args ...any) { w.failed = true; panic(stopCheck{}) }
func (w *workerTB) FailNow()          { w.failed = true; panic(stopCheck{}) }
func (w *workerTB) Fail()             { w.failed = true }
func (w *workerTB) Failed() bool      { return w.failed }

func tbLog(format string, args ...any) {
	if os.Getenv("VERIF_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, format+"\n", args...)
	}
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func seedFor(seed int64, id string, w int) uint64 {
	s := hash64(fmt.Sprintf("%d/%s/%d", seed, id, w))
	if s == 0 {
		s = 1
	}
	return s
}

// watch ends the process when a case takes absurdly long or much memory; the
// supervisor then reports the current case.
var caseStart atomic.Int64

const (
	exitHang   = 97
	exitMemory = 96
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func watch() {
	var lastStart int64
	var cpu0 time.Duration
	for {
		time.Sleep(200 * time.Millisecond)
		st := caseStart.Load()
		if st == 0 {
			continue
		}
		if st != lastStart {
			lastStart, cpu0 = st, cpuTime()
		}
		wall := time.Since(time.Unix(0, st))
		if wall > 60*time.Second && cpuTime()-cpu0 > 40*time.Second || wall > 300*time.Second {
			fmt.Fprintln(os.Stderr, "a case does not terminate")
			os.Exit(exitHang)
		}
		if wall > 2*time.Second {
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 4<<30 {
				fmt.Fprintln(os.Stderr, "a case takes more than 4 GB of memory")
				os.Exit(exitMemory)
			}
		}
	}
}

// worker generates and checks cases, writing a report to dir.
func worker(p *Prop, seed uint64, checks int, budget time.Duration, dir string, corpus []string) {
	rep := &Report{Classes: map[string]int{}}
	out := filepath.Join(dir, "report.json")
	curPath := filepath.Join(dir, "cur.json")
	write := func() {
		b, err := json.Marshal(rep)
		if err != nil {
			panic(err)
		}
		os.WriteFile(out+".tmp", b, 0o644)
		os.Rename(out+".tmp", out)
	}
	defer func() {
		if r := recover(); r != nil {
			rep.Infra = fmt.Sprintf("harness panic: %v\n%s", r, debug.Stack())
			write()
			os.Exit(3)
		}
	}()
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(400)
	go watch()

	seen := map[uint64]bool{}
	var best *Failure
	run := func(c interface{}, count bool) (msg string) {
		js, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		os.WriteFile(curPath, js, 0o644)
		caseStart.Store(time.Now().UnixNano())
		res, msg := runCase(p, c)
		caseStart.Store(0)
		if msg != "" {
			if best == nil || len(js) <= len(best.Case) {
				best = &Failure{Msg: msg, Case: js}
			}
			return msg
		}
		if count && best == nil {
			rep.Cases++
			rep.Evals += res.Evals
			rep.Skipped += res.Skipped
			for _, k := range res.Classes {
				rep.Classes[k]++
			}
			if res.Nontrivial {
				rep.Nontriv++
				h := hash64(string(js))
				if !seen[h] {
					seen[h] = true
					if len(rep.Samples) < 2 && len(js) < 6000 && rep.Nontriv > 3 || len(rep.Samples) == 0 && rep.Nontriv > 50 {
						rep.Samples = append(rep.Samples, js)
					}
				}
			}
		}
		return ""
	}

	for _, f := range corpus {
		b, err := os.ReadFile(f)
		must(err)
		var r Replay
		must(json.Unmarshal(b, &r))
		c := p.New()
		must(json.Unmarshal(r.Case, c))
		rep.Corpus++
		if msg := run(c, true); msg != "" {
			rep.Fail = best
			write()
			os.Exit(1)
		}
	}

	flag.Set("rapid.checks", fmt.Sprint(checks))
	flag.Set("rapid.seed", fmt.Sprint(seed))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "12s")
	deadline := time.Now().Add(budget)
	tb := &workerTB{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopCheck); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(tb, func(t *rapid.T) {
			if best == nil && time.Now().After(deadline) {
				rep.Deadline = true
				return
			}
			c := p.Gen(t)
			if msg := run(c, true); msg != "" {
				// one failure site, so that the minimizer treats all as one
				t.Fatalf("violated")
			}
		})
	}()
	rep.Fail = best
	if tb.failed && best == nil {
		rep.Infra = "generation failed"
	}
	for h := range seen {
		rep.Hashes = append(rep.Hashes, h)
	}
	sort.Slice(rep.Hashes, func(i, j int) bool { return rep.Hashes[i] < rep.Hashes[j] })
	write()
	if rep.Infra != "" {
		os.Exit(3)
	}
	if rep.Fail != nil {
		os.Exit(1)
	}
}

// Replay is a stored counterexample.
type Replay struct {
	Property string          `json:"property"`
	Message  string          `json:"message,omitempty"`
	How      string          `json:"how,omitempty"`
	Document string          `json:"document,omitempty"`
	Case     json.RawMessage `json:"case"`
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := props[r.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", r.Property)
		return 2
	}
	if string(r.Case) == "null" && p.Findings != nil { // a finding that is not listed
		fs, msg := findings(p)
		for _, f := range fs {
			if !listed(p.ID, f.Key) {
				msg = f.What
			}
		}
		if msg == "" {
			fmt.Printf("property %s has only listed findings\n", r.Property)
			return 0
		}
		fmt.Printf("property %s is violated: %s\n", r.Property, msg)
		return 1
	}
	c := p.New()
	if err := json.Unmarshal(r.Case, c); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	_, msg := runCase(p, c)
	if msg == "" {
		fmt.Printf("property %s holds on this case\n", r.Property)
		return 0
	}
	fmt.Printf("property %s is violated: %s\n", r.Property, msg)
	return 1
}

func classes(m map[string]bool) []string {
	var ks []string
	for k, v := range m {
		if v {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

// documentOf finds the PMML text of a case, for the reader of a replay.
func documentOf(c interface{}) (s string) {
	defer func() { recover() }()
	if d, ok := c.(interface{ Document() string }); ok {
		return d.Document()
	}
	return ""
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}
