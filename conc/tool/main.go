// The tool decides the concurrency properties: it instruments a copy of the code under test, builds
// the driver against it with the race detector, and runs all scenarios in parallel processes.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	fID    = flag.String("id", "", "property")
	fTier  = flag.String("tier", "quick", "")
	fRepo  = flag.String("repo", "/repo", "")
	fConc  = flag.String("conc", "/verif/conc", "")
	fTmp   = flag.String("tmp", "", "scratch directory")
	fOut   = flag.String("out", "", "evidence directory")
	fOnly  = flag.String("only", "", "one scenario")
	fBound = flag.Int("bound", 0, "preemption bound (0: the tier's)")
	fSync  = flag.Bool("sync", false, "with -only: switch threads at shared operations only")
	fRace  = flag.Bool("race", false, "with -only: use the race detector")
	fKeep  = flag.Bool("prepare", false, "only instrument and build")
)

type report struct {
	Scenario    string   `json:"scenario"`
	Schedules   int      `json:"schedules"`
	Points      int      `json:"points"`
	Bound       int      `json:"bound"`
	Sequential  int      `json:"sequential_orders"`
	Outcomes    int      `json:"outcomes"`
	Complete    bool     `json:"complete"`
	Violation   string   `json:"violation,omitempty"`
	Schedule    []uint8  `json:"schedule,omitempty"`
	Calls       []string `json:"calls,omitempty"`
	Seconds     float64  `json:"seconds"`
	Same        bool     `json:"same,omitempty"`
	OutcomeList []string `json:"outcome_list,omitempty"`
	bound       int
	sync        bool
}

func build(plain, race bool) (bin string, points int, err error) {
	rdst, xdst := filepath.Join(*fTmp, "repo"), filepath.Join(*fTmp, "xsync")
	os.RemoveAll(rdst)
	os.RemoveAll(xdst)
	points, err = instrumentTree(*fRepo, rdst, xdst, plain)
	if err != nil {
		return
	}
	mod := "module verif/conc\n\ngo 1.24\n\nrequire github.com/oarkflow/permission v0.0.0\nreplace github.com/oarkflow/permission => " + rdst + "\n"
	if _, e := os.Stat(filepath.Join(xdst, "go.mod")); e == nil {
		mod += "replace github.com/oarkflow/xsync => " + xdst + "\n"
	}
	mf := filepath.Join(*fTmp, "go.mod")
	os.WriteFile(mf, []byte(mod), 0o644)
	sum, _ := os.ReadFile(filepath.Join(*fRepo, "go.sum"))
	os.WriteFile(filepath.Join(*fTmp, "go.sum"), sum, 0o644)
	bin = filepath.Join(*fTmp, "driver")
	if !race {
		bin += "-norace"
	}
	args := []string{"build", "-modfile=" + mf, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	_, err = run(*fConc, "go", append(args, "./driver")...)
	return
}

func main() {
	flag.Parse()
	for k, v := range map[string]string{"GOTOOLCHAIN": "local", "GOPROXY": "off", "GOSUMDB": "off", "GOFLAGS": "-mod=mod", "GOWORK": "off"} {
		os.Setenv(k, v)
	}
	os.Exit(check())
}

func check() int {
	start := time.Now()
	plain, note := false, ""
	bin, points, err := build(plain, true)
	if err != nil {
		// the statement-level instrumentation may be at fault: fall back to lock-level points
		e1 := err
		plain = true
		fmt.Println("NOTE:", e1)
		note = "points only at lock, atomic and map operations: " + e1.Error()
		bin, points, err = build(plain, true)
	}
	fast := bin
	if err == nil {
		fast, _, err = build(plain, false)
	}
	if err != nil {
		fmt.Println("ERROR: the instrumented code does not build:", err)
		return 2
	}
	if *fKeep {
		fmt.Println(bin, points)
		return 0
	}
	bound := *fBound
	if bound == 0 {
		bound = 2
		if *fTier == "thorough" {
			bound = 3
		}
	}
	if *fOnly != "" {
		b := fast
		if *fRace {
			b = bin
		}
		cmd := exec.Command(b, "-prop", *fID, "-tier", *fTier, "-only", *fOnly, "-bound", strconv.Itoa(bound), "-v", fmt.Sprintf("-sync=%v", *fSync))
		cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
		if cmd.Run() != nil {
			return 1
		}
		return 0
	}
	out, err := exec.Command(bin, "-prop", *fID, "-tier", *fTier, "-list").Output()
	if err != nil {
		fmt.Println("ERROR:", err)
		return 2
	}
	var names, raced []string
	for _, l := range strings.Split(strings.TrimSpace(string(out)), "\n") {
		r, n, _ := strings.Cut(l, " ")
		names = append(names, n)
		if r == "true" {
			raced = append(raced, n)
		}
	}
	deadline := start.Add(600 * time.Second)
	if *fTier == "thorough" {
		deadline = start.Add(100 * time.Minute)
	}
	if b := os.Getenv("CONC_BUDGET"); b != "" {
		d, _ := time.ParseDuration(b)
		deadline = start.Add(d)
	}
	// rounds of growing bound: the budget can only cut the deepest one short; one round with the
	// race detector, whose verdict hardly depends on the schedule, after the first
	type round struct {
		bin   string
		bound int
		sync  bool // only at shared operations
		names []string
	}
	rounds := []round{{fast, 1, false, names}, {bin, 1, false, raced}, {fast, 2, true, names}}
	for b := 2; b <= bound; b++ {
		rounds = append(rounds, round{fast, b, false, names})
		if *fTier == "thorough" || *fID == "C10" { // the root engine has more and longer calls
			rounds = append(rounds, round{fast, b + 1, true, names})
		}
	}
	type job struct {
		name  string
		bound int
		sync  bool
	}
	var mu sync.Mutex
	results := map[string]report{}
	var viol *report
	violErr := ""
	skipped, raceSchedules, syncSchedules := 0, 0, 0
	syncBounds := map[string]int{}
	for _, rd := range rounds {
		if viol != nil {
			break
		}
		jobs := make(chan job, len(rd.names))
		for _, n := range rd.names {
			jobs <- job{n, rd.bound, rd.sync}
		}
		close(jobs)
		var wg sync.WaitGroup
		for k := 0; k < runtime.NumCPU(); k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var w *worker
				defer func() {
					if w != nil {
						w.close()
					}
				}()
				for j := range jobs {
					mu.Lock()
					stop := viol != nil
					if !stop && time.Now().After(deadline) {
						skipped++
						stop = true
					}
					mu.Unlock()
					if stop {
						continue
					}
					if w == nil {
						w = newWorker(rd.bin)
					}
					r, errText := w.do(j.name, j.bound, j.sync, deadline)
					mu.Lock()
					if r == nil {
						if errText == "" { // out of time
							skipped++
						} else if viol == nil {
							viol = &report{Scenario: j.name, Violation: "the process ended or hung: " + errText, bound: j.bound}
						}
						w = nil
					} else {
						r.bound, r.sync = j.bound, j.sync
						if r.Violation != "" && viol == nil {
							viol = r
							violErr = w.stderr()
						}
						if rd.bin == bin {
							raceSchedules += r.Schedules
						} else if rd.sync {
							syncSchedules += r.Schedules
							syncBounds[strconv.Itoa(rd.bound)]++
						} else if r.Violation == "" && !r.Same {
							results[r.Scenario] = *r
						}
					}
					mu.Unlock()
				}
			}()
		}
		wg.Wait()
		if *fTier == "thorough" || os.Getenv("CONC_V") != "" {
			fmt.Printf("%s bound %d sync %v: %d scenarios after %.0fs\n", filepath.Base(rd.bin), rd.bound, rd.sync, len(rd.names), time.Since(start).Seconds())
		}
	}
	return finish(names, results, viol, violErr, skipped, points, bound, note, raceSchedules, syncSchedules, syncBounds, time.Since(start).Seconds())
}

type worker struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *json.Decoder
	err *tail
}

type tail struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.b.Len() < 1<<16 {
		t.b.Write(p)
	}
	return len(p), nil
}

func newWorker(bin string) *worker {
	w := &worker{cmd: exec.Command(bin, "-prop", *fID, "-tier", *fTier, "-only", "-"), err: &tail{}}
	w.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0")
	w.in, _ = w.cmd.StdinPipe()
	o, _ := w.cmd.StdoutPipe()
	w.cmd.Stderr = w.err
	w.out = json.NewDecoder(bufio.NewReader(o))
	w.cmd.Start()
	return w
}

func (w *worker) stderr() string {
	w.err.mu.Lock()
	defer w.err.mu.Unlock()
	return w.err.b.String()
}

func (w *worker) close() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
}

// do runs a scenario; a nil report with text means that the process died or hung.
func (w *worker) do(name string, bound int, sync bool, deadline time.Time) (*report, string) {
	json.NewEncoder(w.in).Encode(map[string]any{"Name": name, "Bound": bound, "Sync": sync})
	type res struct {
		r   report
		err error
	}
	c := make(chan res, 1)
	go func() {
		var x res
		x.err = w.out.Decode(&x.r)
		c <- x
	}()
	limit := time.Until(deadline) + 5*time.Second
	hang := limit > 10*time.Minute
	if hang {
		limit = 10 * time.Minute
	}
	select {
	case x := <-c:
		if x.err != nil {
			w.cmd.Process.Kill()
			w.cmd.Wait()
			return nil, "it crashed: " + w.stderr()
		}
		return &x.r, ""
	case <-time.After(limit):
		w.close()
		if hang {
			return nil, ""
		}
		return nil, ""
	}
}

func finish(names []string, results map[string]report, viol *report, violErr string, skipped, points, bound int, note string, raceSchedules, syncSchedules int, syncBounds map[string]int, wall float64) int {
	var sched, pts, outs, complete int64
	byBound := map[string]int{}
	var parts []map[string]any
	var keys []string
	for k := range results {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	groups := map[string]*struct{ scen, sched, complete int }{}
	for _, k := range keys {
		r := results[k]
		sched += int64(r.Schedules)
		pts += int64(r.Points)
		outs += int64(r.Outcomes)
		if r.Complete {
			complete++
		}
		byBound[strconv.Itoa(r.Bound)]++
		g := strings.SplitN(k, ":", 2)[0]
		if groups[g] == nil {
			groups[g] = &struct{ scen, sched, complete int }{}
		}
		groups[g].scen++
		groups[g].sched += r.Schedules
		if r.Complete {
			groups[g].complete++
		}
	}
	for g, v := range groups {
		parts = append(parts, map[string]any{"group": g, "scenarios": v.scen, "schedules": v.sched, "complete": v.complete})
	}
	sort.Slice(parts, func(i, j int) bool { return parts[i]["group"].(string) < parts[j]["group"].(string) })
	exhaustive := viol == nil && skipped == 0 && int(complete) == len(names)
	v := 0
	replay, flags := "", ""
	if viol != nil {
		v = 1
		if strings.Contains(viol.Violation, "data race") {
			flags = " -race"
		}
		if viol.sync {
			flags += " -sync"
		}
		os.MkdirAll(filepath.Join(*fOut, "replays"), 0o755)
		replay = filepath.Join(*fOut, "replays", *fID+".txt")
		b, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(replay, []byte(fmt.Sprintf("property=%s scenario=%s\n%s\n\nreplay: bash /verif/run.sh %s %s -only '%s' -bound %d%s\n\n%s\n\n%s\n",
			*fID, viol.Scenario, viol.Violation, *fID, *fTier, viol.Scenario, viol.bound, flags, b, violErr)), 0o644)
	}
	cov := map[string]any{
		"states": outs, "transitions": pts, "schedules": sched,
		"traces_validated_against_impl": sched,
		"scenarios":                     len(names), "scenarios_complete": complete, "scenario_rounds_cut_by_budget": skipped,
		"preemption_bound": bound, "scenarios_by_bound": byBound, "scheduling_points_in_source": points,
		"schedules_with_race_detector": raceSchedules, "schedules_switching_at_shared_operations_only": syncSchedules, "scenarios_by_bound_switching_at_shared_operations_only": syncBounds, "exhaustive": exhaustive, "groups": parts,
		"samples": sample(results, keys),
	}
	if note != "" {
		cov["note"] = note
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	e := map[string]any{"property": *fID, "tier": *fTier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": wall, "violations": v,
		"assumptions": []string{
			"threads switch only at scheduling points: before every statement that touches memory or calls, at lock, pool, atomic and concurrent-map operations; finer interleavings matter only in racy executions, which the race detector reports on the explored schedules",
			"ranges over Go maps and the hash seeds of xsync are fixed, so one iteration order per process is explored",
		}}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(*fOut, 0o755)
	os.WriteFile(filepath.Join(*fOut, *fID+".json"), append(b, '\n'), 0o644)
	fmt.Printf("%s %s: scenarios=%d complete=%d schedules=%d points=%d outcomes=%d exhaustive=%v wall=%.1fs\n", *fID, *fTier, len(names), complete, sched, pts, outs, exhaustive, wall)
	if viol != nil {
		fmt.Printf("scenario %s (bound %d): %s\n", viol.Scenario, viol.bound, viol.Violation)
		if len(violErr) > 3000 {
			violErr = violErr[:3000]
		}
		fmt.Println(violErr)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *fID, replay)
		return 1
	}
	return 0
}

func sample(results map[string]report, keys []string) []any {
	l := []any{}
	for i := 0; i < len(keys); i += len(keys)/5 + 1 {
		l = append(l, results[keys[i]])
	}
	return l
}
