package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

func main() {
	testing.Init()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness run ID | worker ID OUT CUR CHECKS SEED | replay FILE | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	case "worker":
		p := props[os.Args[2]]
		flag.CommandLine.Parse([]string{"-rapid.nofailfile", "-rapid.checks=" + os.Args[5], "-rapid.seed=" + os.Args[6], "-rapid.shrinktime=" + shrinkTime()})
		worker(p, os.Args[3], os.Args[4])
	case "replay":
		flag.CommandLine.Parse(nil)
		rc := replay(os.Args[2], 0.9)
		for _, f := range cleanups {
			f()
		}
		os.Exit(rc)
	case "run":
		p := props[os.Args[2]]
		if p == nil {
			fmt.Fprintln(os.Stderr, "unknown property", os.Args[2])
			os.Exit(2)
		}
		os.Exit(drive(p))
	case "grammut":
		flag.CommandLine.Parse(nil)
		grammut(os.Args[2:])
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// shrinkTime is how long a failing case is minimised (development runs that
// only ask whether a change is noticed shorten it).
func shrinkTime() string {
	if s := os.Getenv("VERIF_SHRINK"); s != "" {
		return s
	}
	return "25s"
}

// cleanups removes what a replay created outside a driver's scratch directory.
var cleanups []func()

func envInt(name string, def int64) int64 {
	if s := os.Getenv(name); s != "" {
		if v, err := strconv.ParseInt(s, 0, 64); err == nil {
			return v
		}
		h := fnv.New32a()
		h.Write([]byte(s))
		return int64(h.Sum32())
	}
	return def
}

// runReplay executes a replay file in a fresh process and classifies it.
//
//	0 holds, 1 violated (confirmed), 2 inconclusive / harness error
func runReplay(self, path string) (int, string) {
	cmd := exec.Command(self, "replay", path)
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	err := cmd.Run()
	out := buf.String()
	if len(out) > 6000 {
		out = out[:3000] + "\n...\n" + out[len(out)-2500:]
	}
	if err == nil {
		return 0, out
	}
	ee, ok := err.(*exec.ExitError)
	if !ok {
		return 2, out + err.Error()
	}
	switch ee.ExitCode() {
	case 1:
		return 1, out
	case exitHang:
		return 1, "does not terminate within the CPU limit\n" + out
	case exitMemory:
		return 1, "memory grows without bound\n" + out
	case 66:
		if strings.Contains(out, "WARNING: DATA RACE") {
			return 1, "data race\n" + out
		}
	case 2:
		// Go runtime fatal errors also exit with status 2.
		for _, f := range []string{"stack overflow", "fatal error: concurrent map", "fatal error: all goroutines are asleep"} {
			if strings.Contains(out, f) {
				return 1, f + "\n" + out
			}
		}
		// a panic on a goroutine started by gpeg code
		if strings.Contains(out, "panic: ") && strings.Contains(out, "goroutine ") && strings.Contains(out, "github.com/zyedidia/gpeg") && !strings.Contains(out, "harness panic") {
			return 1, "panic on a goroutine\n" + out
		}
	}
	return 2, out
}

// confirmReplay repeats a replay that does not fail at once: compiled programs
// depend on Go's map order, so a failure may need several attempts.
func confirmReplay(self, path string) (int, string) {
	rc, out := 2, ""
	for i, t := 0, time.Now(); i < 12 && time.Since(t) < 3*time.Minute; i++ {
		rc, out = runReplay(self, path)
		if rc == 1 {
			break
		}
	}
	return rc, out
}

func writeReplay(dir string, p *Prop, errText string, cj []byte) string {
	os.MkdirAll(dir, 0o755)
	h := fnv.New64a()
	h.Write(cj)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", p.ID, h.Sum64()))
	r := Replay{Property: p.ID, Error: errText, Case: cj}
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(path, b, 0o644)
	return path
}

type finding struct {
	kind, prop, file, what string
}

func loadFindings(root string) []finding {
	b, err := os.ReadFile(filepath.Join(root, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var fs []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if l == "" || l[0] == '#' {
			continue
		}
		var f finding
		parts := strings.Fields(l)
		f.kind = strings.TrimSuffix(parts[0], ":")
		for i, w := range parts[1:] {
			if strings.HasPrefix(w, "property=") {
				f.prop = w[9:]
			} else if strings.HasPrefix(w, "case=") {
				f.file = w[5:]
			} else {
				f.what = strings.Join(parts[1+i:], " ")
				break
			}
		}
		fs = append(fs, f)
	}
	return fs
}

func drive(p *Prop) int {
	t0 := time.Now()
	root := os.Getenv("VERIF_ROOT")
	if root == "" {
		root = "/verif"
	}
	seed := envInt("VERIF_SEED", 1)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	self, _ := os.Executable()
	scratch, err := os.MkdirTemp("", "gpegverif-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	repdir := filepath.Join(root, "replays")
	if p.CLI && os.Getenv("VERIF_CLI") == "" {
		path := filepath.Join(scratch, "gpeg")
		if err := buildCLI(path); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		os.Setenv("VERIF_CLI", path)
	}

	violation := func(path, why string) {
		fmt.Printf("property %s violated:\n%s\n", p.ID, why)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}

	// 1. known findings: re-execute the listed cases
	known := 0
	for _, f := range loadFindings(root) {
		if f.prop != p.ID || f.kind != "finding" {
			continue
		}
		rc, out := runReplay(self, filepath.Join(root, f.file))
		switch rc {
		case 1:
			known++
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, f.what)
		case 2:
			fmt.Fprintf(os.Stderr, "known finding %s could not be executed:\n%s\n", f.file, out)
			return 2
		}
	}

	// 2. regression cases (minimised former failures and boundary cases)
	regs, _ := filepath.Glob(filepath.Join(root, "regress", p.ID, "*.json"))
	sort.Strings(regs)
	nreg := 0
	regFail := ""
	for _, r := range regs {
		rc, out := runReplay(self, r)
		nreg++
		if rc == 2 {
			fmt.Fprintf(os.Stderr, "regression case %s could not be executed:\n%s\n", r, out)
			return 2
		}
		if rc == 1 && regFail == "" {
			regFail = r
			violation(r, out)
		}
	}

	// 3. generated cases
	total := p.Quick
	if tier == "thorough" {
		total = p.Thorough
	}
	if s := os.Getenv("VERIF_CASES"); s != "" {
		total, _ = strconv.Atoi(s)
	}
	nproc := 8
	batch := (total + nproc - 1) / nproc
	if batch > p.Batch {
		batch = p.Batch
	}
	if batch < 1 {
		batch = 1
	}
	nb := (total + batch - 1) / batch
	type br struct {
		res  *WorkerResult
		cur  []byte
		out  string
		code int
	}
	results := make([]br, nb)
	var wg sync.WaitGroup
	conc := runtime.NumCPU()
	if conc > 8 {
		conc = 8
	}
	if conc < 2 {
		conc = 2
	}
	if p.Race && conc > 4 {
		conc = 4
	}
	sem := make(chan struct{}, conc)
	var mu sync.Mutex
	stop := false
	if regFail != "" {
		nb = 0
	}
	for i := 0; i < nb; i++ {
		sem <- struct{}{}
		mu.Lock()
		st := stop
		mu.Unlock()
		if st {
			<-sem
			break
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			outp := filepath.Join(scratch, fmt.Sprintf("out%d.json", i))
			curp := filepath.Join(scratch, fmt.Sprintf("cur%d", i))
			ws := uint64(seed)*1000003 + uint64(i)*7919 + uint64(p.ID[1])*131 + uint64(p.ID[2])
			ws = ws*0x9E3779B97F4A7C15 ^ (ws >> 29)
			if ws == 0 {
				ws = 1
			}
			cmd := exec.Command(self, "worker", p.ID, outp, curp, strconv.Itoa(batch), strconv.FormatUint(ws, 10))
			cmd.Dir = scratch
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=all")
			if p.Race {
				cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "GORACE=halt_on_error=1 exitcode=66")
			}
			var buf bytes.Buffer
			cmd.Stdout = &buf
			cmd.Stderr = &buf
			err := cmd.Run()
			r := br{out: buf.String()}
			if err != nil {
				r.code = 1
				if ee, ok := err.(*exec.ExitError); ok {
					r.code = ee.ExitCode()
				}
				r.out += err.Error()
			}
			if b, e := os.ReadFile(outp); e == nil {
				w := &WorkerResult{}
				if json.Unmarshal(b, w) == nil && w.Done {
					r.res = w
				}
			}
			if r.res == nil {
				r.cur = readCur(curp)
			}
			os.Remove(curp)
			results[i] = r
			if r.res == nil || r.res.FailCase != "" || r.res.Bug != "" {
				mu.Lock()
				stop = true
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()

	agg := &WorkerResult{Classes: map[string]int{}, Discards: map[string]int{}}
	distinct := map[uint64]bool{}
	code := 0
	viol := 0
	if regFail != "" {
		code, viol = 1, 1
	}
	ran := 0
	for i := range results {
		r := &results[i]
		if r.res == nil {
			if r.out == "" && r.cur == nil && r.code == 0 {
				continue // not started
			}
			// the worker died: confirm on the recorded case
			if r.cur == nil {
				fmt.Fprintf(os.Stderr, "worker %d died (exit %d) outside a case:\n%s\n", i, r.code, tail(r.out))
				if code == 0 {
					code = 2
				}
				continue
			}
			if viol > 0 {
				viol++
				continue
			}
			path := writeReplay(repdir, p, "worker died: "+head(r.out), r.cur)
			rc, out := confirmReplay(self, path)
			if rc == 1 {
				viol++
				code = 1
				violation(path, out)
			} else {
				fmt.Fprintf(os.Stderr, "worker %d died (exit %d) and the case does not reproduce it:\n%s\n%s\n", i, r.code, tail(r.out), out)
				if code == 0 {
					code = 2
				}
			}
			continue
		}
		ran++
		w := r.res
		agg.Evals += w.Evals
		agg.Nontrivial += w.Nontrivial
		agg.Sub += w.Sub
		agg.Slowest = max(agg.Slowest, w.Slowest)
		for k, v := range w.Classes {
			agg.Classes[k] += v
		}
		for k, v := range w.Discards {
			agg.Discards[k] += v
		}
		for _, h := range w.Hashes {
			distinct[h] = true
		}
		if len(agg.Samples) < 6 {
			agg.Samples = append(agg.Samples, w.Samples...)
		}
		if w.Bug != "" {
			fmt.Fprintf(os.Stderr, "HARNESS ERROR in worker %d:\n%s\ncase: %s\n", i, w.Bug, w.FailCase)
			if code == 0 {
				code = 2
			}
			continue
		}
		if w.FailCase != "" {
			if viol > 0 {
				viol++
				continue
			}
			path := writeReplay(repdir, p, w.FailErr, []byte(w.FailCase))
			rc, out := confirmReplay(self, path)
			if rc == 1 {
				viol++
				code = 1
				violation(path, out)
			} else {
				fmt.Fprintf(os.Stderr, "worker %d failed with %s but the case does not reproduce (rc=%d):\n%s\n", i, w.FailErr, rc, out)
				if code == 0 {
					code = 2
				}
			}
		}
	}
	if len(agg.Samples) > 6 {
		agg.Samples = agg.Samples[:6]
	}
	var samples []any
	for _, s := range agg.Samples {
		var v any
		if json.Unmarshal([]byte(s), &v) == nil {
			samples = append(samples, v)
		}
	}
	if samples == nil {
		samples = []any{}
	}
	ev := map[string]any{
		"property": p.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]any{
			"evaluations":             agg.Evals,
			"distinct_nontrivial":     len(distinct),
			"rule":                    p.Rule,
			"samples":                 samples,
			"classes":                 agg.Classes,
			"discarded":               agg.Discards,
			"sub_evaluations":         agg.Sub,
			"regression_cases":        nreg,
			"known_findings_replayed": known,
			"worker_processes":        ran,
		},
		"assumptions": p.Assume,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(root, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		if code == 0 {
			code = 2
		}
	}
	fmt.Printf("%s %s: %d cases, %d distinct non-trivial, %d violations, %.1fs (slowest case about %d ms of CPU)\n", p.ID, tier, agg.Evals, len(distinct), viol, time.Since(t0).Seconds(), agg.Slowest)
	if os.Getenv("VERIF_VERBOSE") != "" {
		keys := make([]string, 0)
		for k := range agg.Classes {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			fmt.Printf("  %-40s %d (%.1f%%)\n", k, agg.Classes[k], 100*float64(agg.Classes[k])/float64(max(agg.Evals, 1)))
		}
		fmt.Println("  discards:", agg.Discards)
	}
	return code
}

func tail(s string) string {
	if len(s) > 5000 {
		return s[len(s)-5000:]
	}
	return s
}

func head(s string) string {
	if len(s) > 1500 {
		return s[:1500]
	}
	return s
}
