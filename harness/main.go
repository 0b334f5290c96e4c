package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

var (
	fMode  = flag.String("mode", "check", "check, shard, replay or list")
	fProp  = flag.String("prop", "", "property")
	fDir   = flag.String("dir", "", "work directory of a shard")
	fShard = flag.Int("shard", 0, "shard number")
	fDead  = flag.Int("deadline", 0, "seconds after which a shard generates no more cases")
	fRep   = flag.String("file", "", "replay file")
	fOut   = flag.String("verif", "/verif", "directory for evidence and replay files")
	fCount = flag.Int("count", 0, "number of cases, instead of that of the tier")
	fShN   = flag.Int("shards", 8, "number of shards")
)

func main() {
	testing.Init() // rapid asks it for -test.short
	flag.Parse()
	if *fMode == "list" {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			r := ""
			if props[id].Race {
				r = " race"
			}
			fmt.Println(id + r)
		}
		return
	}
	p := props[*fProp]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(2)
	}
	switch *fMode {
	case "shard":
		os.Exit(runShard(p, *fDir, *fShard, time.Now().Add(time.Duration(*fDead)*time.Second)))
	case "replay":
		os.Exit(replay(p, *fRep, true))
	case "check":
		os.Exit(check(p))
	}
	os.Exit(2)
}

var listedOnce sync.Once
var listedText string

// listed tells that the file of known findings records a finding of a property; only those are not reported.
func listed(id, what string) bool {
	listedOnce.Do(func() {
		b, _ := os.ReadFile(filepath.Join(*fOut, "known-findings.txt"))
		listedText = "\n" + string(b)
	})
	return strings.Contains(listedText, "\nfinding: property="+id+" "+what)
}

func readFailure(file string) (*failure, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, err
	}
	var f failure
	if err := json.Unmarshal(b, &f); err != nil {
		return nil, err
	}
	return &f, nil
}

// replay judges the one case of a replay file in this process.
func replay(p *Prop, file string, print bool) int {
	f, err := readFailure(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	c, err := p.decode(f.Case)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	watchdog(func(why string) { fmt.Println(why); os.Exit(exitHang) })
	if err := safeRun(p, c, newCtx()); err != nil {
		if print {
			fmt.Println(err)
		}
		return exitViolation
	}
	return 0
}

func seedFor(seed uint64, prop string, shard int) uint64 {
	h := hash64([]byte(fmt.Sprintf("%d/%s/%d", seed, prop, shard)))
	h &= 1<<63 - 1
	if h == 0 {
		h = 1
	}
	return h
}

func childEnv() []string {
	return append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS="+strconv.Itoa(gomax()), "GOTRACEBACK=single")
}

func gomax() int {
	if p := props[*fProp]; p != nil && p.Race {
		return 4
	}
	return 2
}

// replayable runs a replay file in fresh processes and tells how it ended.
func replayable(p *Prop, file string, times int) (bool, string) {
	for i := 0; i < times; i++ {
		cmd := exec.Command(os.Args[0], "-mode", "replay", "-verif", *fOut, "-prop", p.ID, "-file", file)
		cmd.Env = childEnv()
		var out bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &out
		err := cmd.Run()
		if err == nil {
			continue
		}
		code := cmd.ProcessState.ExitCode()
		s := out.String()
		if code == exitViolation || code == exitHang || code == 66 || isFatal(s) {
			return true, s
		}
		return false, fmt.Sprintf("replay ended with %v: %s", err, s)
	}
	return false, ""
}

func isFatal(s string) bool {
	for _, w := range []string{"stack overflow", "concurrent map", "all goroutines are asleep", "DATA RACE", "unexpected signal", "SIGSEGV"} {
		if strings.Contains(s, w) {
			return true
		}
	}
	return false
}

func check(p *Prop) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63)
	total, dead := p.Quick, 300
	if tier == "thorough" {
		total, dead = p.Thor, 2400
	}
	if *fCount > 0 {
		total = *fCount
	}
	shards := *fShN
	dir, err := os.MkdirTemp("", "verif-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	outs := make([]bytes.Buffer, shards)
	codes := make([]int, shards)
	var wg sync.WaitGroup
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			n := total / shards
			if n < 1 {
				n = 1
			}
			cmd := exec.Command(os.Args[0], "-mode", "shard", "-verif", *fOut, "-prop", p.ID, "-dir", dir, "-shard", strconv.Itoa(i),
				"-deadline", strconv.Itoa(dead),
				"-rapid.nofailfile", "-rapid.checks", strconv.Itoa(n), "-rapid.shrinktime", "15s",
				"-rapid.seed", strconv.FormatUint(seedFor(seed, p.ID, i), 10))
			cmd.Env = childEnv()
			cmd.Stdout, cmd.Stderr = &outs[i], &outs[i]
			err := cmd.Run()
			codes[i] = 0
			if err != nil {
				codes[i] = -1
				if cmd.ProcessState != nil {
					codes[i] = cmd.ProcessState.ExitCode()
				}
			}
		}(i)
	}
	wg.Wait()

	violations := 0
	var broken []string
	reported := map[string]bool{}
	for i := 0; i < shards; i++ {
		var f *failure
		switch {
		case codes[i] == 0:
			continue
		case codes[i] == exitViolation:
			f, err = readFailure(filepath.Join(dir, fmt.Sprintf("failing-%d", i)))
			if err != nil {
				broken = append(broken, err.Error())
				continue
			}
		case codes[i] == 2 && !isFatal(outs[i].String()):
			broken = append(broken, fmt.Sprintf("shard %d: %s", i, tail(outs[i].String())))
			continue
		default:
			// the process died: a runaway case, a fatal error or a data race; the case it was running tells
			why := tail(outs[i].String())
			if b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("hang-%d", i))); err == nil {
				why = string(b)
			}
			cur, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("current-%d", i)))
			if err != nil || len(cur) == 0 {
				broken = append(broken, fmt.Sprintf("shard %d died (%d): %s", i, codes[i], why))
				continue
			}
			f = &failure{Property: p.ID, Case: cur, Error: why}
			if codes[i] != exitHang && codes[i] != 66 && !isFatal(outs[i].String()) {
				tmp := writeReplay(filepath.Join(dir, "tmp-replay.json"), f)
				if ok, w := replayable(p, tmp, 3); !ok {
					broken = append(broken, fmt.Sprintf("shard %d died (%d): %s %s", i, codes[i], why, w))
					continue
				}
			}
		}
		violations++
		f.Seed, f.Shard = seed, i
		name := fmt.Sprintf("%s-%016x.json", p.ID, hash64(f.Case))
		os.MkdirAll(filepath.Join(*fOut, "replays"), 0o755)
		path := writeReplay(filepath.Join(*fOut, "replays", name), f)
		if violations == 1 && codes[i] != exitHang {
			if ok, _ := replayable(p, path, 3); !ok {
				f.Note = "the case is rejected after the cases generated before it, not on its own: run the check again with this VERIF_SEED and tier"
				writeReplay(path, f)
			}
		}
		if !reported[path] && len(reported) < 3 {
			reported[path] = true
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
			fmt.Println(indent(f.Error))
		}
	}

	ev := merge(p, dir, shards, tier, seed)
	ev["wall_s"] = time.Since(start).Seconds()
	ev["violations"] = violations
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*fOut, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(*fOut, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if p.Finding != nil {
		for _, line := range p.Finding() {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, line)
		}
	}
	cov := ev["coverage"].(map[string]any)
	fmt.Printf("%s %s seed=%d: %v cases, %v distinct non-trivial, %.1f s\n", p.ID, tier, seed, cov["evaluations"], cov["distinct_nontrivial"], time.Since(start).Seconds())
	if violations > 0 {
		return 1
	}
	if len(broken) > 0 {
		fmt.Fprintln(os.Stderr, strings.Join(broken, "\n"))
		return 2
	}
	return 0
}

func writeReplay(path string, f *failure) string {
	b, _ := json.MarshalIndent(f, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
	return path
}

func indent(s string) string {
	l := strings.Split(s, "\n")
	if len(l) > 30 {
		l = l[:30]
	}
	return "  " + strings.Join(l, "\n  ")
}

func tail(s string) string {
	if len(s) > 3000 {
		s = s[:1500] + "\n...\n" + s[len(s)-1500:]
	}
	return s
}

func merge(p *Prop, dir string, shards int, tier string, seed uint64) map[string]any {
	all := map[uint64]bool{}
	classes := map[string]int{}
	known := map[string]int{}
	evals, steps := 0, 0
	dead := 0
	slowest := 0.0
	var samples []any
	for i := 0; i < shards; i++ {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("stats-%d", i)))
		if err != nil {
			continue
		}
		var s Stats
		if json.Unmarshal(b, &s) != nil {
			continue
		}
		evals += s.Evaluations
		steps += s.Steps
		slowest = max(slowest, s.Slowest)
		if s.Deadline {
			dead++
		}
		for _, h := range s.Hashes {
			all[h] = true
		}
		for k, v := range s.Classes {
			classes[k] += v
		}
		for k, v := range s.Known {
			known[k] += v
		}
		for _, x := range s.Samples {
			if len(samples) < 5 {
				samples = append(samples, json.RawMessage(x))
			}
		}
	}
	if samples == nil {
		samples = []any{}
	}
	cov := map[string]any{"evaluations": evals, "distinct_nontrivial": len(all), "rule": p.Rule, "samples": samples, "cases_per_class": classes, "shards": shards, "slowest_case_cpu_s": slowest}
	if steps > 0 {
		cov["operations_or_comparisons"] = steps
	}
	if len(known) > 0 {
		cov["known_findings_met"] = known
	}
	if dead > 0 {
		cov["shards_stopped_by_time_budget"] = dead
	}
	ass := append([]string{"a finite sample: nothing is claimed for inputs that were not generated", "Go's encoding/json, strconv, math/big and time are trusted as references"}, p.Assume...)
	return map[string]any{"property": p.ID, "tier": tier, "seed": int64(seed), "level": "exploration", "coverage": cov, "assumptions": ass}
}
