// Command vh runs the monitors of one property against the code in /repo.
//
//	vh <ID>                        parent: runs every job of the property in its own subprocess
//	vh -worker <ID> <job> <out>    one job
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Job struct {
	Name string
	Race bool // run in the -race build; a race report is a violation
	// MapRace: run in the -race build; only a report of two unsynchronised uses of a map is
	// a violation, because the runtime ends the process when it catches them.
	MapRace bool
	Fn      func(c *Ctx)
	// Env is added to the worker's environment.
	Env []string
}

type Prop struct {
	ID   string
	Rule string
	// Assume lists what the verdict takes for granted.
	Assume []string
	Jobs   []Job
	// Min is the least number of evaluations a run must have observed.
	Min int
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

type Violation struct {
	Sig    string      `json:"sig"`
	Msg    string      `json:"msg"`
	Job    string      `json:"job"`
	Case   string      `json:"case,omitempty"`
	Detail interface{} `json:"detail,omitempty"`
}

type Result struct {
	Job      string           `json:"job"`
	Evals    int64            `json:"evals"`
	Distinct int64            `json:"distinct"`
	Counts   map[string]int64 `json:"counts"`
	Samples  []interface{}    `json:"samples"`
	Viols    []Violation      `json:"viols"`
	Fails    []string         `json:"fails"` // harness trouble: inconclusive
	Done     bool             `json:"done"`
	Known    []string         `json:"known"`
}

func main() {
	if len(os.Args) >= 5 && os.Args[1] == "-worker" {
		worker(os.Args[2], os.Args[3], os.Args[4])
		return
	}
	if len(os.Args) == 4 && os.Args[1] == "-helper" {
		p09helper(os.Args[2], os.Args[3])
		return
	}
	if len(os.Args) == 2 && os.Args[1] == "-list" {
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	}
	if len(os.Args) == 3 && os.Args[1] == "-needrace" {
		for _, j := range props[os.Args[2]].Jobs {
			if j.Race || j.MapRace {
				fmt.Println("yes")
				return
			}
		}
		return
	}
	if len(os.Args) < 2 || props[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: vh <ID> [job...]")
		os.Exit(2)
	}
	os.Exit(parent(props[os.Args[1]], os.Args[2:]))
}

func envInt(name string, def int64) int64 {
	if v, err := strconv.ParseInt(os.Getenv(name), 10, 64); err == nil {
		return v
	}
	return def
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func tierName() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

type known struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func loadKnown() (ks []known) {
	f, err := os.Open(filepath.Join(verifDir(), "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		line := strings.TrimSpace(sc.Text())
		if line == "" || strings.HasPrefix(line, "fixed:") || strings.HasPrefix(line, "#") {
			continue
		}
		var k known
		if json.Unmarshal([]byte(line), &k) == nil && k.Fixed == "" && k.Sig != "" {
			ks = append(ks, k)
		}
	}
	return ks
}

func parent(p *Prop, only []string) int {
	start := time.Now()
	dir := filepath.Join(verifDir(), "work", p.ID)
	os.RemoveAll(dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		fmt.Println("cannot create", dir, err)
		return 2
	}
	evdir := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(filepath.Join(evdir, "replay"), 0o755)

	limit := 700 * time.Second
	if tierName() == "thorough" {
		limit = 4 * time.Hour
	}
	sem := make(chan struct{}, max(2, runtime.NumCPU()/2))
	var mu sync.Mutex
	var results []Result
	var viols []Violation
	var trouble []string
	var wg sync.WaitGroup
	var again []Job
	ran := map[string]bool{}
	for _, j := range p.Jobs {
		if len(only) > 0 && !contains(only, j.Name) {
			continue
		}
		ran[j.Name] = true
		wg.Add(1)
		go func(j Job) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			r, v, t, killed := runJob(p, j, dir, limit)
			mu.Lock()
			defer mu.Unlock()
			if killed {
				again = append(again, j)
				return
			}
			results = append(results, r)
			viols = append(viols, v...)
			trouble = append(trouble, t...)
		}(j)
	}
	wg.Wait()
	// ended from outside, for want of memory most likely: once more, with nothing else running
	for _, j := range again {
		r, v, t, _ := runJob(p, j, dir, limit)
		if r.Counts == nil {
			r.Counts = map[string]int64{}
		}
		r.Counts["killed_and_run_again"]++
		results = append(results, r)
		viols = append(viols, v...)
		trouble = append(trouble, t...)
	}
	for _, o := range only {
		if !ran[o] {
			trouble = append(trouble, "no job "+o)
		}
	}
	sort.Slice(results, func(i, k int) bool { return results[i].Job < results[k].Job })

	cov := map[string]interface{}{}
	var evals, distinct int64
	counts := map[string]int64{}
	var samples []interface{}
	for _, r := range results {
		evals += r.Evals
		distinct += r.Distinct
		for k, v := range r.Counts {
			counts[r.Job+"."+k] += v
		}
		n := 0
		for _, s := range r.Samples {
			if n < 4 {
				samples = append(samples, map[string]interface{}{"job": r.Job, "case": s})
				n++
			}
		}
	}
	kn := loadKnown()
	printed := map[string]bool{}
	real := viols[:0:0]
	for _, v := range viols {
		isKnown := false
		for _, k := range kn {
			if k.Property == p.ID && k.Sig == v.Sig {
				isKnown = true
				if !printed[k.Sig] {
					printed[k.Sig] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, k.What)
				}
			}
		}
		if !isKnown {
			real = append(real, v)
		}
	}
	cov["evaluations"] = evals
	cov["distinct_nontrivial"] = distinct
	cov["rule"] = p.Rule
	cov["samples"] = samples
	cov["observed"] = counts
	ev := map[string]interface{}{
		"property": p.ID, "tier": tierName(), "seed": envInt("VERIF_SEED", 1), "level": "exploration",
		"coverage": cov, "assumptions": append([]string{}, p.Assume...),
		"wall_s": time.Since(start).Seconds(), "violations": len(real),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}
	for _, t := range trouble {
		fmt.Println("INCONCLUSIVE:", t)
	}
	if len(real) > 0 {
		rp := filepath.Join(evdir, "replay", p.ID+".json")
		rb, _ := json.MarshalIndent(map[string]interface{}{
			"property": p.ID, "seed": envInt("VERIF_SEED", 1), "tier": tierName(), "violations": real,
			"rerun": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash /verif/check.sh %s %s", envInt("VERIF_SEED", 1), tierName(), p.ID, real[0].Job),
		}, "", " ")
		os.WriteFile(rp, append(rb, '\n'), 0o644)
		seen := map[string]int{}
		for _, v := range real {
			seen[v.Sig]++
			if seen[v.Sig] <= 2 && len(seen) <= 20 {
				fmt.Printf("violated (%s, job %s): %s\n", v.Sig, v.Job, clip(v.Msg, 600))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
		return 1
	}
	if len(trouble) > 0 {
		return 2
	}
	if len(only) == 0 && evals < int64(p.Min) {
		fmt.Printf("INCONCLUSIVE: only %d evaluations observed, expected at least %d\n", evals, p.Min)
		return 2
	}
	fmt.Printf("OK property=%s evaluations=%d distinct=%d wall=%.1fs\n", p.ID, evals, distinct, time.Since(start).Seconds())
	return 0
}

func contains(x []string, s string) bool {
	for _, y := range x {
		if y == s {
			return true
		}
	}
	return false
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func runJob(p *Prop, j Job, dir string, limit time.Duration) (res Result, viols []Violation, trouble []string, killed bool) {
	bin := filepath.Join(verifDir(), "bin", "vh")
	if j.Race || j.MapRace {
		bin += "-race"
	}
	out := filepath.Join(dir, j.Name+".json")
	errPath := filepath.Join(dir, j.Name+".stderr")
	ef, err := os.Create(errPath)
	if err != nil {
		return res, nil, []string{err.Error()}, false
	}
	defer ef.Close()
	cmd := exec.Command(bin, "-worker", p.ID, j.Name, out)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 history_size=3", "GOTRACEBACK=all")
	cmd.Env = append(cmd.Env, j.Env...)
	cmd.Stdout = ef
	cmd.Stderr = ef
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if err := cmd.Start(); err != nil {
		return res, nil, []string{err.Error()}, false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	timedOut := false
	var werr error
	select {
	case werr = <-done:
	case <-time.After(limit):
		timedOut = true
		syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT)
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
			<-done
		}
	}
	if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && !timedOut && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
		killed = true
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	if b, err := os.ReadFile(out); err == nil {
		json.Unmarshal(b, &res)
	}
	res.Job = j.Name
	cur := ""
	if b, err := os.ReadFile(out + ".cur"); err == nil {
		cur = string(b)
	}
	for _, v := range res.Viols {
		v.Job = j.Name
		viols = append(viols, v)
	}
	stderr := ""
	if b, err := os.ReadFile(errPath); err == nil {
		stderr = string(b)
	}
	switch {
	case timedOut && hungCall(stderr) != "":
		viols = append(viols, Violation{Sig: "hang", Job: j.Name, Case: cur,
			Msg:    fmt.Sprintf("no result within %v, a call into the code has not returned; case: %s", limit, clip(cur, 300)),
			Detail: clip(hungCall(stderr), 8000)})
	case timedOut:
		trouble = append(trouble, fmt.Sprintf("job %s: no result within %v, last case: %s", j.Name, limit, clip(cur, 300)))
	case (werr != nil || !res.Done) && strings.Contains(crashKey(stderr), "synctest"):
		// the code uses what cannot be used on a virtual clock: this job says nothing
		if res.Counts == nil {
			res.Counts = map[string]int64{}
		}
		res.Counts["virtual_clock_unusable"]++
	case (werr != nil || !res.Done) && harnessCrash(stderr):
		trouble = append(trouble, fmt.Sprintf("job %s: the harness itself failed: %s: %s", j.Name, crashKey(stderr), clip(tail(stderr, 3000), 3000)))
	case werr != nil || !res.Done:
		viols = append(viols, Violation{Sig: "crash:" + crashKey(stderr), Job: j.Name, Case: cur,
			Msg:    fmt.Sprintf("the process running the code ended abnormally (%v): %s; case: %s", werr, crashKey(stderr), clip(cur, 300)),
			Detail: tail(stderr, 4000)})
	}
	if j.Race || j.MapRace {
		for k, rep := range races(stderr) {
			if !j.Race && !mapRace(rep) {
				continue
			}
			viols = append(viols, Violation{Sig: "race:" + k, Job: j.Name, Msg: "data race: " + k, Detail: clip(rep, 6000)})
		}
	}
	trouble = append(trouble, res.Fails...)
	return
}

// hungCall returns the stack, in a dump of all, of a call made by the harness that is still in
// the code under test.
func hungCall(dump string) string {
	for _, g := range strings.Split(dump, "\n\n") {
		i := strings.Index(g, "\ngithub.com/dblokhin/gringo/")
		if i >= 0 && strings.HasPrefix(g, "goroutine ") && strings.Contains(g[i:], "\nmain.") && !strings.Contains(g, ".(*Syncer).Run") {
			return g
		}
	}
	return ""
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// harnessCrash tells whether the frame that panicked belongs to the harness and not to
// the code it runs.
func harnessCrash(s string) bool {
	i := strings.Index(s, "panic: ")
	if i < 0 || i > 0 && s[i-1] != '\n' && !strings.HasPrefix(s[i:], "panic: ") {
		return false
	}
	for _, k := range []string{"fatal error: ", "FATAL-EXIT", "runtime: out of memory"} {
		if j := strings.Index(s, k); j >= 0 && j < i {
			return false
		}
	}
	g := strings.Index(s[i:], "\ngoroutine ")
	if g < 0 {
		return false
	}
	for _, l := range strings.Split(s[i+g+1:], "\n")[1:] {
		switch {
		case strings.HasPrefix(l, "goroutine "):
			return false
		case strings.HasPrefix(l, "panic("), strings.HasPrefix(l, "runtime."), strings.HasPrefix(l, "\t"), l == "",
			strings.HasPrefix(l, "[signal"), strings.HasPrefix(l, "created by"):
			continue
		case strings.HasPrefix(l, "main."):
			return true
		case strings.HasPrefix(l, "github.com/dblokhin/gringo"):
			return false
		}
		// a library: blame whoever called it
	}
	return false
}

// crashKey finds the line that says why a Go process died.
func crashKey(s string) string {
	for _, l := range strings.Split(s, "\n") {
		for _, p := range []string{"panic: ", "fatal error: ", "FATAL-EXIT", "runtime: out of memory", "unexpected fault"} {
			if i := strings.Index(l, p); i >= 0 && i < 12 {
				return clip(strings.TrimSpace(l), 200)
			}
		}
	}
	return "no reason found"
}

// mapRace tells whether both accesses of a race report are the runtime's on a map.
func mapRace(rep string) bool {
	n, m := 0, 0
	lines := strings.Split(rep, "\n")
	for i, l := range lines {
		l = strings.TrimSpace(l)
		if (strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous")) && i+1 < len(lines) {
			n++
			f := strings.TrimSpace(lines[i+1])
			if strings.HasPrefix(f, "runtime.map") || strings.HasPrefix(f, "internal/runtime/maps.") {
				m++
			}
		}
	}
	return n == 2 && m == 2
}

// races splits the race reports out of a worker's stderr, one per pair of functions.
func races(s string) map[string]string {
	res := map[string]string{}
	for _, part := range strings.Split(s, "WARNING: DATA RACE")[1:] {
		if i := strings.Index(part, "=================="); i >= 0 {
			part = part[:i]
		}
		if !strings.Contains(part, "github.com/dblokhin/gringo") {
			continue
		}
		var fns []string
		lines := strings.Split(part, "\n")
		for i, l := range lines {
			l = strings.TrimSpace(l)
			if (strings.HasPrefix(l, "Read at") || strings.HasPrefix(l, "Write at") || strings.HasPrefix(l, "Previous") ||
				strings.HasPrefix(l, "Atomic")) && i+1 < len(lines) {
				for k := i + 1; k < len(lines) && strings.TrimSpace(lines[k]) != ""; k++ {
					f := strings.TrimSpace(lines[k])
					if strings.HasPrefix(f, "github.com/dblokhin/gringo") {
						f = strings.TrimPrefix(f, "github.com/dblokhin/gringo/")
						fns = append(fns, f)
						break
					}
				}
			}
		}
		if len(fns) == 0 {
			continue
		}
		sort.Strings(fns)
		k := strings.Join(fns, " / ")
		if _, ok := res[k]; !ok {
			res[k] = part
		}
	}
	return res
}
