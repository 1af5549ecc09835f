// The driver runs scenarios: a configuration, two or three threads of calls, and a probe of the
// final state. Every schedule up to the preemption bound is executed on the instrumented code and
// its results compared with those of the sequential orders of the same calls on the same code.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"verif/conc/vsched"
)

type kind int

const (
	change   kind = iota // its result and effect are compared
	decision             // its result is compared as far as the scenario claims
	query                // only has to finish
)

type call struct {
	name string
	kind kind
	f    func() string
}

type world struct {
	threads   [][]call
	state     func() string // everything that can be read off directly
	questions []func() string
	always    int // the first questions are asked after every execution, the others where a change matters to them
}

type claim int

const (
	vector claim = iota // the whole outcome equals that of one sequential order
	each                // every decision answers as in some sequential order; changes and final state as in one
	finals              // decisions are not compared
)

type scenario struct {
	name  string
	claim claim
	build func() world
	extra int  // preemptions allowed beyond the tier's bound (may be negative)
	tier  int  // 0 always, 1 thorough only
	race  bool // also explored with the race detector
}

type report struct {
	Scenario    string   `json:"scenario"`
	Schedules   int      `json:"schedules"`
	Points      int      `json:"points"`
	Bound       int      `json:"bound"`
	Sequential  int      `json:"sequential_orders"`
	Outcomes    int      `json:"outcomes"`
	Complete    bool     `json:"complete"`
	Violation   string   `json:"violation,omitempty"`
	Schedule    []uint8  `json:"schedule,omitempty"`
	Calls       []string `json:"calls,omitempty"`
	Seconds     float64  `json:"seconds"`
	Same        bool     `json:"same,omitempty"` // already explored at this bound
	OutcomeList []string `json:"outcome_list,omitempty"`
}

var (
	fProp  = flag.String("prop", "", "")
	fTier  = flag.String("tier", "quick", "")
	fList  = flag.Bool("list", false, "")
	fOnly  = flag.String("only", "", "comma separated scenario names, or - to read them from stdin one by one")
	fBound = flag.Int("bound", 0, "")
	fSync  = flag.Bool("sync", false, "points at shared operations only")
	fVerb  = flag.Bool("v", false, "")
)

func main() {
	flag.Parse()
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(400)
	var l []scenario
	switch *fProp {
	case "C10":
		l = v2Scenarios()
	case "C21":
		l = rootScenarios()
	}
	byName := map[string]scenario{}
	for _, s := range l {
		if s.tier > 0 && *fTier != "thorough" {
			continue
		}
		if _, dup := byName[s.name]; dup {
			panic("duplicate scenario " + s.name)
		}
		byName[s.name] = s
		if *fList {
			fmt.Println(s.race || *fTier == "thorough", s.name)
		}
	}
	if *fList {
		return
	}
	if *fOnly == "-" {
		incremental = true
		dec := json.NewDecoder(os.Stdin)
		enc := json.NewEncoder(os.Stdout)
		for {
			var req struct {
				Name  string
				Bound int
				Sync  bool
			}
			if dec.Decode(&req) != nil {
				return
			}
			enc.Encode(runScenario(byName[req.Name], req.Bound, req.Sync))
		}
	}
	for _, n := range strings.Split(*fOnly, "@@") {
		r := runScenario(byName[n], *fBound, *fSync)
		b, _ := json.MarshalIndent(r, "", " ")
		fmt.Println(string(b))
		if r.Violation != "" {
			os.Exit(1)
		}
	}
}

// outcome of an execution, as three parts: results of changes and final state; results of decisions.
type outcome struct {
	changes string
	answers []string // of the questions asked at the end
	dec     []string
}

func (o outcome) fixed(ask []int) string {
	var sb strings.Builder
	sb.WriteString(o.changes + " ")
	for _, q := range ask {
		sb.WriteString(o.answers[q])
	}
	return sb.String()
}

func (o outcome) all(ask []int) string { return o.fixed(ask) + " / " + strings.Join(o.dec, " ") }

func upTo(n int) (l []int) {
	for i := range n {
		l = append(l, i)
	}
	return
}

func collect(w world, res [][]string, ask []int) outcome {
	var o outcome
	var sb strings.Builder
	for i, t := range w.threads {
		for j, c := range t {
			switch c.kind {
			case change:
				fmt.Fprintf(&sb, "%s=%s ", c.name, res[i][j])
			case decision:
				o.dec = append(o.dec, c.name+"="+res[i][j])
			}
		}
	}
	o.answers = make([]string, len(w.questions))
	for _, q := range ask {
		o.answers[q] = w.questions[q]()
	}
	o.changes = sb.String() + "=> " + w.state()
	return o
}

// sequential returns the outcomes of every order of the calls that keeps each thread's order.
func sequential(s scenario) (l []outcome, ask []int, err string) {
	w := s.build()
	ask = upTo(len(w.questions))
	var initial []string
	for _, q := range w.questions {
		initial = append(initial, q())
	}
	n := make([]int, len(w.threads))
	total := 0
	for i, t := range w.threads {
		n[i] = len(t)
		total += len(t)
	}
	var rec func(order []int)
	rec = func(order []int) {
		if err != "" {
			return
		}
		if len(order) == total {
			func() {
				defer func() {
					if r := recover(); r != nil {
						err = fmt.Sprintf("panic in the sequential order %v: %v\n%s", order, r, debug.Stack())
					}
				}()
				for _, f := range vsched.OnReset {
					f()
				}
				w := s.build()
				res := make([][]string, len(w.threads))
				for _, t := range order {
					c := w.threads[t][len(res[t])]
					res[t] = append(res[t], c.f())
				}
				l = append(l, collect(w, res, ask))
			}()
			return
		}
		for i := range n {
			if n[i] > 0 {
				n[i]--
				rec(append(append([]int{}, order...), i))
				n[i]++
			}
		}
	}
	rec(nil)
	ask = nil
	for q := range initial {
		sensitive := q < w.always
		for _, o := range l {
			sensitive = sensitive || o.answers[q] != initial[q]
		}
		if sensitive {
			ask = append(ask, q)
		}
	}
	return
}

var incremental bool

func differ(l []outcome, ask []int) bool {
	for _, o := range l {
		if o.all(ask) != l[0].all(ask) {
			return true
		}
	}
	return false
}

func runScenario(s scenario, bound int, sync bool) report {
	start := time.Now()
	seq, ask, err := sequential(s)
	eff := func(b int) int {
		b += s.extra
		if !sync && !differ(seq, ask) {
			b-- // the order of the calls shows nowhere: one preemption less
		}
		return max(b, 1)
	}
	r := report{Scenario: s.name, Bound: eff(bound)}
	if incremental && !sync && bound > 1 && eff(bound-1) == eff(bound) {
		r.Same = true
		return r
	}
	bound = eff(bound)
	r.Sequential = len(seq)
	if err != "" {
		r.Violation = err
		return r
	}
	all, fixed := map[string]bool{}, map[string]bool{}
	var dec []map[string]bool
	for _, o := range seq {
		all[o.all(ask)] = true
		fixed[o.fixed(ask)] = true
		for i, d := range o.dec {
			for len(dec) <= i {
				dec = append(dec, map[string]bool{})
			}
			dec[i][d] = true
		}
	}
	seen := map[string]int{}
	var w world
	var res [][]string
	setup := func() []func() {
		w = s.build()
		res = make([][]string, len(w.threads))
		var fs []func()
		for i, t := range w.threads {
			res[i] = make([]string, len(t))
			fs = append(fs, func() {
				for j, c := range t {
					res[i][j] = c.f()
				}
			})
		}
		return fs
	}
	visit := func(o vsched.Outcome) bool {
		switch {
		case o.Races > 0:
			r.Violation = "data race (report on stderr)"
		case o.Panic != "":
			r.Violation = "panic: " + o.Panic
		case o.Deadlock:
			r.Violation = "deadlock"
		case o.Endless:
			r.Violation = "an execution does not end"
		default:
			var out outcome
			func() {
				defer func() {
					if p := recover(); p != nil {
						r.Violation = fmt.Sprintf("panic when probing the final state: %v\n%s", p, debug.Stack())
					}
				}()
				out = collect(w, res, ask)
			}()
			if r.Violation != "" {
				break
			}
			k := out.all(ask)
			seen[k]++
			if s.claim == vector && !all[k] {
				r.Violation = "outcome of no sequential order: " + k
			}
			if s.claim != vector && !fixed[out.fixed(ask)] {
				r.Violation = "final state of no sequential order: " + out.fixed(ask)
			}
			if s.claim == each && r.Violation == "" {
				for i, d := range out.dec {
					if !dec[i][d] {
						r.Violation = "answer of no sequential order: " + d
					}
				}
			}
		}
		if r.Violation != "" {
			r.Schedule = vsched.Taken()
			return false
		}
		return true
	}
	vsched.SyncOnly = sync
	r.Schedules, r.Points, r.Complete = vsched.Explore(bound, setup, visit)
	r.Outcomes = len(seen)
	r.Seconds = time.Since(start).Seconds()
	if *fVerb || r.Violation != "" {
		for i, t := range w.threads {
			var names []string
			for _, c := range t {
				names = append(names, c.name)
			}
			r.Calls = append(r.Calls, fmt.Sprintf("thread %d: %s", i, strings.Join(names, "; ")))
		}
		for k, v := range seen {
			r.OutcomeList = append(r.OutcomeList, fmt.Sprintf("%d x %s", v, k))
		}
		sort.Strings(r.OutcomeList)
		if len(r.OutcomeList) > 6 {
			r.OutcomeList = r.OutcomeList[:6]
		}
	}
	return r
}
