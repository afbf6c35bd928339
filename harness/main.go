package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

func main() {
	args := os.Args[1:]
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: harness check ID quick|thorough | replay FILE | list")
		os.Exit(2)
	}
	// rapid registers its options on the global flag set
	testing.Init()
	flag.CommandLine.Parse(nil)
	switch args[0] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "replay":
		os.Exit(replayFile(args[1]))
	case "worker":
		// worker ID seed checks budgetMs dir corpus...
		p := props[args[1]]
		seed, _ := strconv.ParseUint(args[2], 10, 64)
		checks, _ := strconv.Atoi(args[3])
		ms, _ := strconv.Atoi(args[4])
		worker(p, seed, checks, time.Duration(ms)*time.Millisecond, args[5], args[6:])
	case "findings":
		fs, msg := findings(props[args[1]])
		fmt.Println(fs, msg)
	case "check":
		os.Exit(check(args[1], args[2]))
	default:
		os.Exit(2)
	}
}

// findings looks for the defects a property may be known to have.
func findings(p *Prop) (fs []Finding, msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case violation:
				msg = string(v)
			case libPanic:
				msg = v.msg
			default:
				panic(r)
			}
		}
	}()
	return p.Findings(), ""
}

// listed tells whether the known-findings file has the finding.
func listed(id, key string) bool {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_DIR"), "known-findings.txt"))
	if err != nil {
		return false
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+id+" key="+key+" ") {
			return true
		}
	}
	return false
}

type workerResult struct {
	rep    *Report
	exit   int
	stderr string
	cur    []byte
}

func check(id, tier string) int {
	start := time.Now()
	p := props[id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	verif := os.Getenv("VERIF_DIR")
	if verif == "" {
		verif = "/verif"
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		v, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			v = int64(hash64(s) >> 1)
		}
		seed = v
	}
	workers, checks, budget := 4, 4*p.Quick, 120*time.Second
	if p.Workers > 0 {
		workers = p.Workers
	}
	if tier == "thorough" {
		workers, checks, budget = 8, p.Thorough, 600*time.Second
		if p.Workers > 0 {
			workers = p.Workers
		}
	}
	if s := os.Getenv("VERIF_CHECKS"); s != "" {
		checks, _ = strconv.Atoi(s)
	}
	if s := os.Getenv("VERIF_SCALE"); s != "" {
		f, _ := strconv.ParseFloat(s, 64)
		checks = int(float64(checks)*f) + 1
	}
	// the workers note every case before they run it: keep that in memory
	base := ""
	if os.Getenv("TMPDIR") == "" {
		if f, err := os.CreateTemp("/dev/shm", "verif-"); err == nil {
			f.Close()
			os.Remove(f.Name())
			base = "/dev/shm"
		}
	}
	tmp, err := os.MkdirTemp(base, "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)

	corpus, _ := filepath.Glob(filepath.Join(verif, "harness", "corpus", id, "*.json"))
	sort.Strings(corpus)

	self, err := os.Executable()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	results := make([]workerResult, workers)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			dir := filepath.Join(tmp, strconv.Itoa(w))
			os.Mkdir(dir, 0o755)
			argv := []string{"worker", id, fmt.Sprint(seedFor(seed, id, w)), strconv.Itoa(checks), strconv.Itoa(int(budget / time.Millisecond)), dir}
			if w == 0 {
				argv = append(argv, corpus...)
			}
			cmd := exec.Command(self, argv...)
			cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=single")
			var errb strings.Builder
			cmd.Stderr = &limited{b: &errb, max: 1 << 20}
			cmd.Stdout = os.Stderr
			e := cmd.Run()
			r := workerResult{stderr: errb.String()}
			if e != nil {
				r.exit = 255
				if x, ok := e.(*exec.ExitError); ok {
					r.exit = x.ExitCode()
				}
			}
			if b, e := os.ReadFile(filepath.Join(dir, "report.json")); e == nil {
				r.rep = new(Report)
				if json.Unmarshal(b, r.rep) != nil {
					r.rep = nil
				}
			}
			r.cur, _ = os.ReadFile(filepath.Join(dir, "cur.json"))
			results[w] = r
		}(w)
	}
	wg.Wait()

	var fail *Failure
	var infra []string
	merged := &Report{Classes: map[string]int{}}
	hashes := map[uint64]bool{}
	for w, r := range results {
		if r.rep != nil {
			merged.Cases += r.rep.Cases
			merged.Evals += r.rep.Evals
			merged.Skipped += r.rep.Skipped
			merged.Corpus += r.rep.Corpus
			merged.Nontriv += r.rep.Nontriv
			merged.Deadline = merged.Deadline || r.rep.Deadline
			for k, v := range r.rep.Classes {
				merged.Classes[k] += v
			}
			for _, h := range r.rep.Hashes {
				hashes[h] = true
			}
			if len(merged.Samples) < 3 && len(r.rep.Samples) > 0 {
				merged.Samples = append(merged.Samples, r.rep.Samples[0])
			}
			if r.rep.Infra != "" {
				infra = append(infra, fmt.Sprintf("worker %d: %s", w, r.rep.Infra))
			}
			if r.rep.Fail != nil && (fail == nil || len(r.rep.Fail.Case) < len(fail.Case)) {
				fail = r.rep.Fail
			}
		}
		if r.rep == nil || r.exit != 0 && r.exit != 1 && r.exit != 3 {
			if msg := crash(r); msg != "" && len(r.cur) > 0 {
				if fail == nil {
					fail = &Failure{Msg: msg, Case: json.RawMessage(r.cur)}
				}
			} else {
				infra = append(infra, fmt.Sprintf("worker %d ended with %d: %s", w, r.exit, tail(r.stderr, 2000)))
			}
		}
	}

	var known []string
	if p.Findings != nil && fail == nil && len(infra) == 0 {
		fs, msg := findings(p)
		if msg != "" {
			fail = &Failure{Msg: msg, Case: json.RawMessage("null")}
		}
		for _, f := range fs {
			if !listed(id, f.Key) {
				fail = &Failure{Msg: f.What, Case: json.RawMessage("null")}
				continue
			}
			known = append(known, f.What)
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
		}
	}

	ev := map[string]interface{}{
		"property": id, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         merged.Cases,
			"distinct_nontrivial": len(hashes),
			"rule":                p.Rule,
			"samples":             samples(p, merged.Samples),
			"oracle_comparisons":  merged.Evals,
			"left_open":           merged.Skipped,
			"stored_cases":        merged.Corpus,
			"features":            merged.Classes,
			"stopped_by_budget":   merged.Deadline,
			"workers":             workers,
		},
		"wall_s": time.Since(start).Seconds(),
	}
	if len(p.Assume) > 0 {
		ev["assumptions"] = p.Assume
	}
	code := 0
	if fail != nil {
		ev["violations"] = 1
		code = 1
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0o755)
		c := p.New()
		doc := ""
		if string(fail.Case) != "null" && json.Unmarshal(fail.Case, c) == nil {
			doc = documentOf(c)
		}
		path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", id, hash64(string(fail.Case))))
		b, _ := json.MarshalIndent(Replay{Property: id, Message: fail.Msg, How: "/verif/check.sh " + id + " replay " + path, Document: doc, Case: fail.Case}, "", " ")
		if err := os.WriteFile(path, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
		}
		fmt.Println(fail.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	} else if len(infra) > 0 {
		code = 3
		fmt.Fprintln(os.Stderr, strings.Join(infra, "\n"))
	} else {
		ev["violations"] = 0
		fmt.Printf("%s %s: held on %d cases (%d distinct non-trivial, %d comparisons) in %.1fs\n", id, tier, merged.Cases, len(hashes), merged.Evals, time.Since(start).Seconds())
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		if code == 0 {
			code = 3
		}
	}
	return code
}

func samples(p *Prop, in []json.RawMessage) []interface{} {
	var out []interface{}
	for _, s := range in {
		c := p.New()
		m := map[string]interface{}{"case": s}
		if json.Unmarshal(s, c) == nil {
			if d := documentOf(c); d != "" {
				m["document"] = d
			}
		}
		out = append(out, m)
	}
	if out == nil {
		out = []interface{}{}
	}
	return out
}

// crash says which crash of the code under test ended a worker.
func crash(r workerResult) string {
	switch r.exit {
	case exitHang:
		return "scoring or decoding does not terminate"
	case exitMemory:
		return "scoring or decoding takes more than 4 GB of memory"
	case 66:
		if strings.Contains(r.stderr, "DATA RACE") {
			return "data race:\n" + tail(r.stderr, 3000)
		}
	}
	for _, m := range []string{"concurrent map", "stack exceeds", "stack overflow", "unexpected fault address", "fatal error: runtime: out of memory", "SIGSEGV"} {
		if strings.Contains(r.stderr, m) && strings.Contains(r.stderr, "/repo/") {
			i := strings.Index(r.stderr, m)
			e := i + 2500
			if e > len(r.stderr) {
				e = len(r.stderr)
			}
			return "the process crashed: " + r.stderr[i:e]
		}
	}
	// an unrecovered panic in a goroutine of the library or of a scoring call
	if strings.Contains(r.stderr, "panic:") && strings.Contains(r.stderr, "/repo/") {
		return "unrecovered panic: " + tail(r.stderr, 2500)
	}
	return ""
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type limited struct {
	b   *strings.Builder
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	if room := l.max - l.b.Len(); room > 0 {
		if len(p) > room {
			l.b.Write(p[:room])
		} else {
			l.b.Write(p)
		}
	}
	return len(p), nil
}
