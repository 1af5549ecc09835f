// Package core is the enumeration engine shared by all sequential checks: a check is a list of
// parts, each part a finite, index-addressed space of cases; every case is executed on the real
// code and compared with a reference model. The parent process supervises a child so that crashes,
// stack overflows and hangs of the code under test become violations with a replayable case.
package core

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"
)

// Part is one finite space of cases. Run executes case i in [0,N).
type Part struct {
	Name string
	N    int
	Rule string // what the space is and how it is bounded
	Run  func(w *W, i int)
}

// Check is what decides one property.
type Check struct {
	ID          string
	Parts       func(tier string) []Part
	Assumptions []string
	Serial      bool // one worker only
	FakeClock   bool // cases may use Bubble (implies Serial)
}

var registry = map[string]*Check{}

func Register(c *Check) { registry[c.ID] = c }

// W is the per-worker context handed to cases.
type W struct {
	id      int
	part    *Part
	ctx     *ctx
	verbose bool
	log     []string
	ops     int64
	queries int64
	cases   int64
	grants  int64
	scratch any
	states  map[uint64]struct{}
}

type failure struct{ msg string }

// Failf aborts the case and reports a violation.
func (w *W) Failf(format string, args ...any) { panic(failure{fmt.Sprintf(format, args...)}) }

// Logf records a step of the case; it is only formatted when a failing case is replayed.
func (w *W) Logf(format string, args ...any) {
	if w.verbose {
		w.log = append(w.log, fmt.Sprintf(format, args...))
	}
}
func (w *W) Verbose() bool { return w.verbose }

// Op counts n operations executed on the implementation (transitions).
func (w *W) Op(n int) { w.ops += int64(n) }

// Query counts one observation compared with the model; positive tells which way it went.
func (w *W) Query(positive bool) {
	w.queries++
	if positive {
		w.grants++
	}
}

// State records a model state (by canonical description) as visited.
func (w *W) State(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	w.states[h.Sum64()] = struct{}{}
}

type PartResult struct {
	Name     string `json:"name"`
	Rule     string `json:"rule"`
	Cases    int    `json:"cases"`
	Done     int64  `json:"done"`
	Complete bool   `json:"complete"`
}

type result struct {
	States, Transitions, Cases, Queries, Positive int64
	Parts                                         []PartResult
	Samples                                       []any
	Exhaustive                                    bool
	Unreproduced                                  int
}

type ctx struct {
	check    *Check
	parts    []Part
	deadline time.Time
	stop     atomic.Bool
	cur      []byte // mmap: per worker part,case,startNano
	mu       sync.Mutex
	fails    []fail
}
type fail struct {
	part, idx int
	msg       string
}

const maxWorkers = 16
const slot = 24

var (
	fID     = flag.String("id", "", "property id")
	fTier   = flag.String("tier", "quick", "quick or thorough")
	fOut    = flag.String("out", "/verif/evidence", "evidence directory")
	fChild  = flag.String("child", "", "internal: progress file of a supervised child")
	fPart   = flag.String("part", "", "replay: part name")
	fCase   = flag.Int("case", -1, "replay: case index")
	fBudget = flag.Duration("budget", 0, "stop after this long (0: default per tier)")
	fWork   = flag.Int("workers", 0, "number of workers (0: all cores)")
	fList   = flag.Bool("list", false, "list parts and sizes")
)

func Main() {
	flag.Parse()
	debug.SetMaxStack(96 << 20)
	c := registry[*fID]
	if c == nil {
		ids := []string{}
		for k := range registry {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println("unknown id; have", ids)
		os.Exit(2)
	}
	switch {
	case *fList:
		for _, p := range partsOf(c) {
			fmt.Printf("%-28s %10d  %s\n", p.Name, p.N, p.Rule)
		}
	case *fCase >= 0:
		underTest(c, replay)
	case *fChild != "":
		underTest(c, child)
	default:
		os.Exit(parent(c))
	}
}

// underTest runs f, as a test if the check needs a fake clock (testing/synctest wants a *testing.T).
func underTest(c *Check, f func(*Check) int) {
	if !c.FakeClock {
		os.Exit(f(c))
	}
	testing.Main(func(string, string) (bool, error) { return true, nil }, []testing.InternalTest{{Name: "mc", F: func(t *testing.T) {
		curT = t
		os.Exit(f(c))
	}}}, nil, nil)
}

var curT *testing.T

// Bubble runs f under a fake clock that only moves when told to (testing/synctest).
func Bubble(f func()) {
	var got any
	done := false
	synctest.Test(curT, func(*testing.T) {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(failure); !ok {
					r = fmt.Sprintf("%v\n%s", r, debug.Stack())
				}
				got = r
			}
		}()
		f()
		done = true
	})
	if got != nil {
		panic(got)
	}
	if !done {
		fmt.Fprintln(os.Stderr, "bubble did not complete")
		os.Exit(7)
	}
}

// partsOf returns the parts of a check, small ones first: a violation shows early.
func partsOf(c *Check) []Part {
	l := c.Parts(*fTier)
	sort.SliceStable(l, func(i, j int) bool { return l[i].N < l[j].N })
	return l
}

func budget() time.Duration {
	if *fBudget > 0 {
		return *fBudget
	}
	if *fTier == "thorough" {
		return 100 * time.Minute
	}
	return 400 * time.Second
}

// left is what remains of the budget for another attempt.
func left(start time.Time) time.Duration {
	d := 2*budget() - time.Since(start)
	return max(min(d, budget()), 5*time.Second)
}

const caseLimit = 90 * time.Second

// ---- replay of one case -------------------------------------------------------------------

func runCase(c *ctx, w *W, p *Part, i int) (msg string, failed bool) {
	defer func() {
		if r := recover(); r != nil {
			failed = true
			if f, ok := r.(failure); ok {
				msg = f.msg
				return
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
		}
	}()
	w.part = p
	p.Run(w, i)
	return "", false
}

func newW(c *ctx, id int) *W { return &W{id: id, ctx: c, states: map[uint64]struct{}{}} }

func replay(c *Check) int {
	parts := partsOf(c)
	for pi := range parts {
		p := &parts[pi]
		if p.Name != *fPart {
			continue
		}
		ctx := &ctx{check: c}
		fmt.Printf("property %s, part %s, case %d\n%s\n\n", c.ID, p.Name, *fCase, p.Rule)
		for n := 1; n <= 200; n++ {
			w := newW(ctx, 0)
			w.verbose = true
			if msg, failed := runCase(ctx, w, p, *fCase); failed {
				for _, l := range w.log {
					fmt.Println("  ", l)
				}
				fmt.Printf("\nFAILED (run %d): %s\n", n, msg)
				return 1
			}
			if n == 1 {
				defer func(l []string) {
					for _, s := range l {
						fmt.Println("  ", s)
					}
					fmt.Println("no failure in 200 runs")
				}(w.log)
			}
		}
		return 0
	}
	fmt.Println("no such part")
	return 2
}

// ---- child ---------------------------------------------------------------------------------

func child(c *Check) int {
	f, err := os.OpenFile(*fChild, os.O_RDWR, 0)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 4
	}
	cur, err := syscall.Mmap(int(f.Fd()), 0, maxWorkers*slot, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 4
	}
	x := &ctx{check: c, parts: partsOf(c), deadline: time.Now().Add(budget()), cur: cur}
	nw := runtime.NumCPU()
	if nw > maxWorkers {
		nw = maxWorkers
	}
	if *fWork > 0 && *fWork < nw {
		nw = *fWork
	}
	if c.Serial || c.FakeClock {
		nw = 1
	}
	go x.watch(nw)
	res := result{Exhaustive: true}
	all := map[uint64]struct{}{}
	for pi := range x.parts {
		p := &x.parts[pi]
		pr := PartResult{Name: p.Name, Rule: p.Rule, Cases: p.N}
		var next, done int64
		var wg sync.WaitGroup
		ws := make([]*W, nw)
		chunk := int64(p.N/(nw*64) + 1)
		if chunk > 512 {
			chunk = 512
		}
		for k := 0; k < nw; k++ {
			ws[k] = newW(x, k)
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				w := ws[k]
				for !x.stop.Load() {
					lo := atomic.AddInt64(&next, chunk) - chunk
					if lo >= int64(p.N) {
						break
					}
					hi := min(lo+chunk, int64(p.N))
					for i := lo; i < hi; i++ {
						if x.stop.Load() || time.Now().After(x.deadline) {
							x.stop.Store(true)
							break
						}
						x.mark(k, pi, int(i), true)
						if msg, failed := runCase(x, w, p, int(i)); failed {
							x.mu.Lock()
							x.fails = append(x.fails, fail{pi, int(i), msg})
							if len(x.fails) >= 8 {
								x.stop.Store(true)
							}
							x.mu.Unlock()
						}
						w.cases++
						atomic.AddInt64(&done, 1)
					}
				}
				x.mark(k, pi, 0, false)
			}(k)
		}
		wg.Wait()
		pr.Done = done
		pr.Complete = int(done) == p.N
		if !pr.Complete {
			res.Exhaustive = false
		}
		for _, w := range ws {
			res.Transitions += w.ops + w.queries
			res.Queries += w.queries
			res.Positive += w.grants
			res.Cases += w.cases
			for s := range w.states {
				all[s] = struct{}{}
			}
		}
		res.Parts = append(res.Parts, pr)
		if p.N > 0 {
			// one case per part is written out as evidence
			w := newW(x, 0)
			w.verbose = true
			if _, failed := runCase(x, w, p, p.N/2); !failed {
				l := w.log
				if len(l) > 14 {
					l = append(append([]string{}, l[:13]...), fmt.Sprintf("... %d more steps", len(l)-13))
				}
				res.Samples = append(res.Samples, map[string]any{"part": p.Name, "case": p.N / 2, "steps": l})
			}
		}
		if len(x.fails) > 0 {
			break
		}
	}
	res.States = int64(len(all))
	if res.States == 0 {
		res.States = res.Cases
	}
	// confirm violations by running the case again on its own
	confirmed := -1
	for fi, fl := range x.fails {
		p := &x.parts[fl.part]
		for n := 0; n < 200; n++ {
			w := newW(x, 0)
			if _, failed := runCase(x, w, p, fl.idx); failed {
				confirmed = fi
				break
			}
		}
		if confirmed >= 0 {
			break
		}
		res.Unreproduced++
	}
	out := map[string]any{"result": res}
	if confirmed < 0 && len(x.fails) > 0 {
		fl := x.fails[0]
		out["loose"] = map[string]any{"part": x.parts[fl.part].Name, "case": fl.idx, "msg": fl.msg}
	}
	if confirmed >= 0 {
		fl := x.fails[confirmed]
		out["fail"] = map[string]any{"part": x.parts[fl.part].Name, "case": fl.idx, "msg": fl.msg}
	}
	b, _ := json.Marshal(out)
	os.WriteFile(*fChild+".json", b, 0o644)
	return 0
}

func (x *ctx) mark(w, part, i int, running bool) {
	b := x.cur[w*slot:]
	t := int64(0)
	if running {
		t = time.Now().UnixNano()
	}
	binary.LittleEndian.PutUint64(b[16:], 0)
	binary.LittleEndian.PutUint64(b, uint64(part))
	binary.LittleEndian.PutUint64(b[8:], uint64(i))
	binary.LittleEndian.PutUint64(b[16:], uint64(t))
}

func (x *ctx) watch(nw int) {
	for {
		time.Sleep(500 * time.Millisecond)
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 12<<30 {
			fmt.Fprintln(os.Stderr, "SUPERVISE: memory")
			os.Exit(5)
		}
		now := time.Now().UnixNano()
		for k := 0; k < nw; k++ {
			t := int64(binary.LittleEndian.Uint64(x.cur[k*slot+16:]))
			if t != 0 && now-t > int64(caseLimit) {
				fmt.Fprintln(os.Stderr, "SUPERVISE: case does not finish")
				os.Exit(6)
			}
		}
	}
}

// ---- parent --------------------------------------------------------------------------------

func parent(c *Check) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "mc-"+c.ID)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	prog := filepath.Join(dir, "progress")
	os.WriteFile(prog, make([]byte, maxWorkers*slot), 0o644)
	self, _ := os.Executable()
	var errb tail
	type failed struct {
		Part string
		Case int
		Msg  string
	}
	type output struct {
		Result result
		Fail   *failed
		Loose  *failed // failed in the run but not on its own
	}
	var out output
	var loose *failed
	var runErr, rerr error
	workers := *fWork
attempt:
	os.Remove(prog + ".json")
	cmd := exec.Command(self, "-id", c.ID, "-tier", *fTier, "-child", prog, "-budget", left(start).String(), "-workers", strconv.Itoa(workers))
	errb = tail{}
	cmd.Stderr = &errb
	cmd.Stdout = os.Stdout
	runErr = cmd.Run()
	b, rerr := os.ReadFile(prog + ".json")
	out = output{}
	if rerr == nil {
		json.Unmarshal(b, &out)
	}
	viol := ""
	msg := ""
	part, idx := "", 0
	note := ""
	if out.Fail != nil {
		part, idx, msg = out.Fail.Part, out.Fail.Case, out.Fail.Msg
		viol = "mismatch"
	} else if rerr == nil && out.Result.Unreproduced > 0 && workers != 1 {
		workers = 1
		goto attempt
	} else if rerr == nil && out.Loose != nil && loose == nil {
		loose = out.Loose
		goto attempt
	} else if rerr == nil && out.Loose != nil {
		// twice, one case after the other and each with objects of its own: what an earlier case did shows in a later one
		part, idx = out.Loose.Part, out.Loose.Case
		msg = "only after other cases ran in the same process, in two runs of one case after the other: " + out.Loose.Msg
		viol = "carry-over"
	} else if rerr != nil {
		// the child died: find out which of the cases in flight did it
		out.Result.Exhaustive = false
		cur, _ := os.ReadFile(prog)
		parts := partsOf(c)
		for k := 0; k < maxWorkers && viol == ""; k++ {
			t := binary.LittleEndian.Uint64(cur[k*slot+16:])
			if t == 0 {
				continue
			}
			pi := int(binary.LittleEndian.Uint64(cur[k*slot:]))
			ci := int(binary.LittleEndian.Uint64(cur[k*slot+8:]))
			rc, ro := single(self, c.ID, parts[pi].Name, ci)
			if rc != 0 {
				viol, part, idx = "crash", parts[pi].Name, ci
				msg = fmt.Sprintf("the code under test crashed or did not finish (%v; alone: %d)\n%s\n%s", runErr, rc, errb.String(), ro)
			}
		}
		if viol == "" && workers != 1 {
			// cases may only disturb each other when run in parallel in one process: decide them one by one
			workers = 1
			goto attempt
		}
		if viol == "" {
			note = fmt.Sprintf("child ended abnormally (%v) but no case in flight reproduces it: %s", runErr, errb.String())
			fmt.Println("INCONCLUSIVE:", note)
		}
	}
	wall := time.Since(start).Seconds()
	var replayPath string
	if viol != "" {
		os.MkdirAll(filepath.Join(*fOut, "replays"), 0o755)
		replayPath = filepath.Join(*fOut, "replays", c.ID+".txt")
		var trace string
		if viol == "mismatch" {
			_, trace = single(self, c.ID, part, idx)
		}
		if viol == "carry-over" {
			trace = fmt.Sprintf("(does not fail on its own; run the check with -workers 1)")
		}
		txt := fmt.Sprintf("property=%s part=%s case=%d\n%s\n\nreplay: bash /verif/run.sh %s %s -part %s -case %d\n\n%s\n", c.ID, part, idx, msg, c.ID, *fTier, part, idx, trace)
		os.WriteFile(replayPath, []byte(txt), 0o644)
	}
	writeEvidence(c, out.Result, wall, viol != "", note)
	r := out.Result
	fmt.Printf("%s %s: states=%d transitions=%d cases=%d comparisons=%d positive=%d exhaustive=%v wall=%.1fs\n", c.ID, *fTier, r.States, r.Transitions, r.Cases, r.Queries, r.Positive, r.Exhaustive, wall)
	if viol != "" {
		fmt.Println(firstLines(msg, 12))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replayPath)
		return 1
	}
	return 0
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// single runs one case in its own process.
func single(self, id, part string, idx int) (int, string) {
	cmd := exec.Command(self, "-id", id, "-tier", *fTier, "-part", part, "-case", strconv.Itoa(idx))
	var o tail
	cmd.Stdout, cmd.Stderr = &o, &o
	if err := cmd.Start(); err != nil {
		return 0, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	deadline := time.After(caseLimit)
	tick := time.NewTicker(200 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-done:
			if err == nil {
				return 0, o.String()
			}
			if ee, ok := err.(*exec.ExitError); ok {
				return ee.ExitCode(), o.String()
			}
			return -1, o.String()
		case <-deadline:
			cmd.Process.Kill()
			<-done
			return 124, o.String() + "\n(killed after " + caseLimit.String() + ")"
		case <-tick.C:
			if rss(cmd.Process.Pid) > 12<<30 {
				cmd.Process.Kill()
				<-done
				return 125, o.String() + "\n(killed: memory)"
			}
		}
	}
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

// tail keeps the first and last few KB written to it.
type tail struct {
	mu   sync.Mutex
	head bytes.Buffer
	last []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(p)
	if r := 6000 - t.head.Len(); r > 0 {
		k := min(r, len(p))
		t.head.Write(p[:k])
		p = p[k:]
	}
	t.last = append(t.last, p...)
	if len(t.last) > 6000 {
		t.last = append([]byte{}, t.last[len(t.last)-6000:]...)
	}
	return n, nil
}
func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.head.String() + string(t.last)
}

func writeEvidence(c *Check, r result, wall float64, violated bool, note string) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	v := 0
	if violated {
		v = 1
	}
	if r.Samples == nil {
		r.Samples = []any{}
	}
	cov := map[string]any{
		"states":                        r.States,
		"transitions":                   r.Transitions,
		"traces_validated_against_impl": r.Cases,
		"comparisons":                   r.Queries,
		"comparisons_positive":          r.Positive,
		"exhaustive":                    r.Exhaustive,
		"parts":                         r.Parts,
		"samples":                       r.Samples,
	}
	if note != "" {
		cov["note"] = note
	}
	if r.Unreproduced > 0 {
		cov["unreproduced_mismatches"] = r.Unreproduced
	}
	e := map[string]any{"property": c.ID, "tier": *fTier, "seed": seed, "level": "model_checking", "coverage": cov,
		"wall_s": wall, "violations": v, "assumptions": append([]string{}, c.Assumptions...)}
	b, _ := json.MarshalIndent(e, "", " ")
	os.MkdirAll(*fOut, 0o755)
	os.WriteFile(filepath.Join(*fOut, c.ID+".json"), append(b, '\n'), 0o644)
}
