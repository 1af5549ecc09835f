// Package vsched is a cooperative scheduler for stateless model checking of instrumented Go code.
// Exactly one of the threads of an execution runs at a time; it hands over only at scheduling
// points (P), when it blocks on a shim lock, and when it ends. Explore enumerates depth-first every
// schedule with at most a given number of preemptions.
//
// Hand-offs go through plain variables touched only by functions the race detector does not
// instrument, so they create no happens-before edges: with -race every explored execution is also
// checked for unordered conflicting accesses, the shim locks contributing their real edges.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sync"
)

const (
	maxThreads = 8
	maxChoices = 1 << 18
	// StepLimit is the number of points an execution may pass before it counts as not terminating.
	stepLimit = 1 << 21
	// fair is the number of points a thread may pass in a row while others are runnable.
	fair = 20000
)

const (
	runnable = iota
	blocked
	done
)

type thread struct {
	state int
	wait  uintptr
}

var (
	active   bool
	aborting bool
	cur      int
	n        int
	ths      [maxThreads]thread
	steps    int
	row      int
	preempt  int
	bound    int

	prefix   int // choices[:prefix] are prescribed
	nchoice  int
	choices  [maxChoices]uint8
	options  [maxChoices]uint8
	diverged bool
	overflow bool

	deadlock bool
	endless  bool
	panics   [maxThreads]string
)

type abortT struct{}

// choose returns the decision taken at this point among k>1 options.
//
//go:norace
func choose(k int) int {
	if nchoice >= maxChoices {
		overflow = true
		return 0
	}
	c := 0
	if nchoice < prefix {
		c = int(choices[nchoice])
		if options[nchoice] != uint8(k) || c >= k {
			diverged = true
			prefix = nchoice
			c = 0
		}
	}
	choices[nchoice] = uint8(c)
	options[nchoice] = uint8(k)
	nchoice++
	return c
}

//go:norace
func others(me int) (list [maxThreads]int, k int) {
	for i := 0; i < n; i++ {
		if i != me && ths[i].state == runnable {
			list[k] = i
			k++
		}
	}
	return
}

// SyncOnly makes P (a point before a statement) no point, so that threads are switched only at S,
// the operations on locks, atomics and concurrent maps. Without data races nothing else matters.
var SyncOnly bool

// P is a scheduling point before a statement.
//
//go:norace
func P() {
	if !active || aborting {
		return
	}
	if SyncOnly {
		steps++
		row++
		if steps <= stepLimit && row < fair {
			return
		}
	}
	S()
}

// S is a scheduling point before an operation on something shared.
//
//go:norace
func S() {
	if !active || aborting {
		return
	}
	steps++
	if steps > stepLimit {
		endless = true
		abort()
		panic(abortT{})
	}
	me := cur
	row++
	if preempt >= bound && row < fair {
		return
	}
	list, k := others(me)
	if k == 0 {
		return
	}
	if row >= fair {
		row = 0
		switchTo(me, list[0])
		return
	}
	c := choose(k + 1)
	if c == 0 {
		return
	}
	preempt++
	switchTo(me, list[c-1])
}

//go:norace
func switchTo(me, t int) {
	row = 0
	cur = t
	for cur != me {
		runtime.Gosched()
	}
	if aborting {
		panic(abortT{})
	}
}

//go:norace
func abort() {
	aborting = true
	for i := 0; i < n; i++ {
		if ths[i].state == blocked {
			ths[i].state = runnable
		}
	}
}

// Block parks the calling thread until Wake(addr). It reports false outside an execution, where
// waiting would never end.
//
//go:norace
func Block(addr uintptr) {
	if aborting {
		panic(abortT{})
	}
	if !active {
		panic("deadlock: blocked on a lock with no other thread running")
	}
	me := cur
	ths[me].state = blocked
	ths[me].wait = addr
	list, k := others(me)
	if k == 0 {
		deadlock = true
		abort()
		panic(abortT{})
	}
	c := 0
	if k > 1 {
		c = choose(k)
	}
	switchTo(me, list[c])
}

// Wake makes every thread parked on addr runnable.
//
//go:norace
func Wake(addr uintptr) {
	for i := 0; i < n; i++ {
		if ths[i].state == blocked && ths[i].wait == addr {
			ths[i].state = runnable
		}
	}
}

// Aborting reports that the execution is being torn down: locks are no longer meaningful.
//
//go:norace
func Aborting() bool { return aborting }

//go:norace
func waitTurn(me int) {
	for cur != me {
		runtime.Gosched()
	}
}

//go:norace
func isAborting() bool { return aborting }

//go:norace
func setPanic(me int, s string) {
	panics[me] = s
}

//go:norace
func finish(me int) {
	ths[me].state = done
	list, k := others(me)
	if k == 0 {
		for i := 0; i < n; i++ {
			if ths[i].state == blocked {
				deadlock = true
				abort()
				list, k = others(me)
				break
			}
		}
		if k == 0 {
			cur = -1
			return
		}
	}
	c := 0
	if k > 1 && !aborting {
		c = choose(k)
	}
	row = 0
	cur = list[c]
}

var wg sync.WaitGroup

func start(i int, f func()) {
	wg.Add(1)
	go func() {
		defer wg.Done()
		waitTurn(i)
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(abortT); !ok {
						setPanic(i, fmt.Sprintf("%v\n%s", r, debug.Stack()))
					}
				}
			}()
			if !isAborting() {
				f()
			}
		}()
		finish(i)
	}()
}

//go:norace
func addThread() int {
	i := n
	n++
	ths[i] = thread{}
	return i
}

// Go starts a thread from inside the code under test.
//
//go:norace
func Go(f func()) {
	if !active || n >= maxThreads {
		go f()
		return
	}
	i := addThread()
	start(i, f)
	P()
}

//go:norace
func begin(nt, b, pre int) {
	n = nt
	for i := range ths {
		ths[i] = thread{}
		panics[i] = ""
	}
	bound, prefix = b, pre
	steps, row, preempt, nchoice = 0, 0, 0, 0
	aborting, diverged, overflow, deadlock, endless = false, false, false, false, false
	cur = -1
	active = true
}

//go:norace
func launch(first int) { cur = first }

//go:norace
func firstChoice() int {
	if n > 1 {
		return choose(n)
	}
	return 0
}

//go:norace
func end() (out Outcome) {
	active = false
	out.Steps, out.Preemptions, out.Deadlock, out.Endless, out.Diverged, out.Overflow = steps, preempt, deadlock, endless, diverged, overflow
	for i := 0; i < n; i++ {
		if panics[i] != "" {
			out.Panic = fmt.Sprintf("thread %d: %s", i, panics[i])
		}
	}
	return
}

// Outcome is what happened in one execution.
type Outcome struct {
	Steps, Preemptions, Races             int
	Deadlock, Endless, Diverged, Overflow bool
	Panic                                 string
	Schedule                              []uint8
}

// OnReset functions run before every execution (the pool shim empties its pools).
var OnReset []func()

//go:norace
func taken() []uint8 {
	r := make([]uint8, nchoice)
	for i := 0; i < nchoice; i++ {
		r[i] = choices[i]
	}
	return r
}

// next computes the next prefix in depth-first order, or -1.
//
//go:norace
func next() int {
	for k := nchoice - 1; k >= 0; k-- {
		if int(choices[k])+1 < int(options[k]) {
			choices[k]++
			return k + 1
		}
	}
	return -1
}

// Explore runs every schedule of the threads made by setup with at most b preemptions, until visit
// returns false. It returns the number of executions and whether the enumeration was completed
// without divergence.
func Explore(b int, setup func() []func(), visit func(Outcome) bool) (runs, points int, complete bool) {
	complete = true
	pre := 0
	for {
		for _, f := range OnReset {
			f()
		}
		threads := setup()
		before := raceErrors()
		begin(len(threads), b, pre)
		for i, f := range threads {
			start(i, f)
		}
		launch(firstChoice())
		wg.Wait()
		o := end()
		o.Races = raceErrors() - before
		runs++
		points += o.Steps
		if o.Diverged || o.Overflow {
			complete = false
		}
		bad := o.Deadlock || o.Endless || o.Panic != "" || o.Races > 0
		if bad {
			o.Schedule = taken()
		}
		if !visit(o) {
			return runs, points, false
		}
		pre = next()
		if pre < 0 {
			return
		}
	}
}

// Taken is the schedule of the last execution.
func Taken() []uint8 { return taken() }
