package v2c

import (
	"fmt"
	"time"

	v2 "github.com/oarkflow/permission/v2"

	"verif/mc/core"
)

// exp04 is one system with four assignments whose expiry is changed while the clock moves.
type exp04 struct {
	w   *core.W
	s   *Sys
	c   *Cfg
	as  []*v2.PrincipalRole
	exp []*time.Time // model: instant of expiry, nil if none

	more []Asg // assignments made later, without expiry
}

func newExp04(w *core.W) *exp04 {
	c := NewCfg()
	c.All["T1"] = &Ten{ID: "T1", Default: "n", NS: map[string]map[string]bool{"n": {"s1": true}}, Children: []string{"T2"}}
	c.All["T2"] = &Ten{ID: "T2", Default: "n", NS: map[string]map[string]bool{"n": {"s1": true}}}
	c.Registered["T1"], c.Registered["T2"] = true, true
	c.Roles["R1"] = map[string]bool{"a x": true}
	c.Roles["R2"] = map[string]bool{"b x": true}
	c.Roles["R3"] = map[string]bool{"c x": true}
	c.Roles["R4"] = map[string]bool{"d x": true}
	c.Edges["R1"] = []string{"R4"}
	x := &exp04{w: w, c: c}
	c.Asgs = nil
	x.s = Build(w, c)
	c.Asgs = []Asg{
		{P: "p", T: "T1", R: "R1", Manage: true},
		{P: "p", T: "T2", R: "R2"},
		{P: "p", T: "T1", S: "s1", R: "R3"},
		{P: "p", T: "T1", R: "R1"},
	}
	for _, a := range c.Asgs {
		r := a.real()
		x.as = append(x.as, r)
		x.s.A.AddPrincipalRole(r)
		x.exp = append(x.exp, nil)
		w.Logf("assign %v", a)
	}
	return x
}

var reqs04 = []Req{
	{P: "p", T: "T1", Res: "a", Act: "x"}, {P: "p", T: "T1", Res: "b", Act: "x"}, {P: "p", T: "T1", S: "s1", Res: "a", Act: "x"},
	{P: "p", T: "T1", S: "s1", Res: "c", Act: "x"}, {P: "p", T: "T2", Res: "b", Act: "x"}, {P: "p", Res: "d", Act: "x"}, {P: "p", Res: "b", Act: "x"},
	{P: "q", T: "T1", Res: "a", Act: "x"}, {P: "q", T: "T1", Res: "b", Act: "x"},
}

// check compares everything observable at this instant.
func (x *exp04) check() {
	now := time.Now()
	for i, e := range x.exp {
		dead := e != nil && now.After(*e)
		x.c.Asgs[i].Dead = dead
		if got := x.as[i].IsExpired(); got != dead {
			x.w.Failf("assignment %d: IsExpired %v, want %v (expiry %v, now %v)", i, got, dead, e, now)
		}
		switch {
		case e == nil && x.as[i].Expiry != nil, e != nil && x.as[i].Expiry == nil, e != nil && !e.Equal(*x.as[i].Expiry):
			x.w.Failf("assignment %d: expiry is %v, want %v", i, x.as[i].Expiry, e)
		}
	}
	x.w.State(fmt.Sprint(rel(x.exp, now), len(x.more)))
	own := x.c.Asgs
	x.c.Asgs = append(append([]Asg{}, own...), x.more...)
	defer func() { x.c.Asgs = own }()
	for _, q := range reqs04 {
		v := x.c.Authorize(q)
		got := x.s.A.Authorize(q.real())
		x.w.Query(v.Exact)
		if got != v.Exact {
			x.w.Failf("at %v got %v, want %v: %v with %v", now, got, v.Exact, q, x.c.Asgs)
		}
		for _, r := range []string{"R1", "R2", "R3", "R4"} {
			want := x.c.Can(q, r)
			got := x.s.A.Can(q.real(), r)
			x.w.Query(want)
			if got != want {
				x.w.Failf("at %v role check got %v, want %v: %v role %s with %v", now, got, want, q, r, x.c.Asgs)
			}
		}
	}
}

func rel(e []*time.Time, now time.Time) []string {
	var l []string
	for _, t := range e {
		if t == nil {
			l = append(l, "-")
		} else {
			l = append(l, t.Sub(now).String())
		}
	}
	return l
}

func (x *exp04) set(i int, at time.Time) {
	past := at.Before(time.Now())
	err := x.as[i].SetExpiry(at)
	x.w.Logf("assignment %d: SetExpiry(now%+v) = %v", i, at.Sub(time.Now()), err)
	if (err != nil) != past {
		x.w.Failf("SetExpiry(%v) at %v: error %v", at, time.Now(), err)
	}
	if !past {
		x.exp[i] = &at
	}
}

func (x *exp04) dur(i int, d any, want time.Duration, bad bool) {
	err := x.as[i].SetExpiryDuration(d)
	x.w.Logf("assignment %d: SetExpiryDuration(%v) = %v", i, d, err)
	if (err != nil) != bad {
		x.w.Failf("SetExpiryDuration(%v): error %v", d, err)
	}
	if !bad {
		t := time.Now().Add(want)
		x.exp[i] = &t
	}
}

// next is the time to the next expiry that is still to come, or d if there is none.
func (x *exp04) next(d time.Duration) time.Duration {
	now := time.Now()
	best := time.Duration(-1)
	for _, e := range x.exp {
		if e != nil && e.Sub(now) > 0 && (best < 0 || e.Sub(now) < best) {
			best = e.Sub(now)
		}
	}
	if best < 0 {
		return d
	}
	return best
}

func (x *exp04) sleep(d time.Duration) {
	if d < 0 {
		d = 0
	}
	x.w.Logf("clock advances by %v", d)
	time.Sleep(d)
}

type op04 = func(x *exp04)

func ops04(targets []int, full bool) []op04 {
	l := []op04{
		func(x *exp04) { x.sleep(1) },
		func(x *exp04) { x.sleep(x.next(time.Second)) },
		func(x *exp04) { x.sleep(x.next(time.Second) - 1) },
	}
	zone := time.FixedZone("z", 5*3600+1800)
	for _, i := range targets {
		l = append(l,
			func(x *exp04) { x.set(i, time.Now().Add(time.Second)) },
			func(x *exp04) { x.set(i, time.Now().Add(-1)) },
			func(x *exp04) { x.dur(i, "1s", time.Second, false) },
			func(x *exp04) { x.as[i].ClearExpiry(); x.exp[i] = nil; x.w.Logf("assignment %d: ClearExpiry", i) })
		if full {
			l = append(l,
				func(x *exp04) { x.set(i, time.Now()) },
				func(x *exp04) { x.set(i, time.Now().Round(0).Add(1500*time.Millisecond).In(zone)) },
				func(x *exp04) { x.set(i, time.Now().Add(-time.Hour)) },
				func(x *exp04) { x.dur(i, 2*time.Second, 2*time.Second, false) },
				func(x *exp04) { x.dur(i, "bogus", 0, true) },
				func(x *exp04) { x.dur(i, "1h1.5s", time.Hour+1500*time.Millisecond, false) },
				func(x *exp04) { x.dur(i, "", 0, true) },
			)
		}
	}
	return l
}

func seq04(name string, ops []op04, depth int) core.Part {
	return core.Part{Name: name, N: core.SeqsUpTo(len(ops), depth), Rule: fmt.Sprintf("all sequences of up to %d of %d operations (expiry changes and clock advances of 1ns, to the next expiry, to 1ns before it); everything compared after every step", depth, len(ops)),
		Run: func(w *core.W, i int) {
			core.Bubble(func() {
				x := newExp04(w)
				for _, o := range core.Seq(len(ops), depth, i) {
					ops[o](x)
					w.Op(1)
					x.check()
				}
			})
		}}
}

// shared04: the assignments are made with expiries that share one object, before any of them is changed.
func shared04(depth int) core.Part {
	ops := ops04([]int{0, 1, 3}, false)
	n := core.SeqsUpTo(len(ops), depth)
	return core.Part{Name: fmt.Sprintf("shared-expiry-%d", depth), N: 3 * n, Rule: fmt.Sprintf("three assignments made with one and the same expiry object (already over, exactly now, to come), then all sequences of up to %d of %d operations on them and the clock", depth, len(ops)),
		Run: func(w *core.W, i int) {
			core.Bubble(func() {
				x := newExp04(w)
				at := time.Now().Add([]time.Duration{-1, 0, time.Second}[i%3])
				given := at
				for _, k := range []int{0, 1, 3} {
					m := given
					x.exp[k] = &m
					x.as[k].Expiry = &at
				}
				x.check()
				for _, o := range core.Seq(len(ops), depth, i/3) {
					ops[o](x)
					w.Op(1)
					x.check()
				}
				if !at.Equal(given) {
					w.Failf("the expiry handed over was changed from %v to %v", given, at)
				}
			})
		}}
}

// config04: expiries change while the configuration changes around them.
func config04(depth int) core.Part {
	start := [][]int{{}, {0}, {3}, {0, 3}, {0, 1, 2, 3}}
	extra := Asg{P: "q", T: "T1", R: "R2"}
	ops := []op04{
		func(x *exp04) { x.sleep(x.next(time.Second) + 1) },
		func(x *exp04) {
			x.w.Logf("assign %v", extra)
			x.s.A.AddPrincipalRole(extra.real())
			x.more = append(x.more, extra)
		},
		func(x *exp04) {
			x.w.Logf("revoke everything of q")
			if err := x.s.A.RemovePrincipalRole(v2.PrincipalRole{Principal: "q"}); (err == nil) != (len(x.more) > 0) {
				x.w.Failf("revoking everything of q: error %v with %d assignments", err, len(x.more))
			}
			x.more = nil
		},
		func(x *exp04) {
			x.w.Logf("register T1, R1 again")
			x.s.A.AddTenants(x.s.Tenants["T1"])
			x.s.A.AddRoles(x.s.Roles["R1"])
		},
	}
	for _, i := range []int{0, 1, 3} {
		ops = append(ops,
			func(x *exp04) { x.set(i, time.Now().Add(time.Second)) },
			func(x *exp04) { x.as[i].ClearExpiry(); x.exp[i] = nil; x.w.Logf("assignment %d: ClearExpiry", i) })
	}
	n := core.SeqsUpTo(len(ops), depth)
	return core.Part{Name: fmt.Sprintf("config-%d", depth), N: n * len(start) * 2, Rule: fmt.Sprintf("%d choices of assignments that are over from the start, then all sequences of up to %d of %d operations (the clock passes the next expiry, expiries set and cleared, other assignments added and revoked, roles and tenants registered again), everything compared after every step, or at the end only", len(start), depth, len(ops)),
		Run: func(w *core.W, i int) {
			d := core.Mixed(i, 2, len(start), n)
			core.Bubble(func() {
				x := newExp04(w)
				for _, k := range start[d[1]] {
					at := time.Now().Add(-1)
					m := at
					x.as[k].Expiry, x.exp[k] = &at, &m
					w.Logf("assignment %d: over", k)
				}
				if d[0] == 1 {
					x.check()
				}
				for _, o := range core.Seq(len(ops), depth, d[2]) {
					ops[o](x)
					w.Op(1)
					if d[0] == 1 {
						x.check()
					}
				}
				x.check()
			})
		}}
}

// durations: the text forms of durations, at the boundary instants.
func durs04() core.Part {
	texts := []string{}
	for _, n := range []string{"1", "1.5", "90", "0.001", "2", "1000"} {
		for _, u := range []string{"ns", "us", "µs", "ms", "s", "m", "h"} {
			texts = append(texts, n+u)
		}
	}
	for _, b := range []string{"", "x", "1", "1x", "s", "1s x", "--1s", "1 s", "1d"} {
		texts = append(texts, b)
	}
	return core.Part{Name: "durations", N: 2 * len(texts), Rule: "every duration text (number x unit) and the same as a typed duration: exact expiry, alive at it, dead 1ns after it", Run: func(w *core.W, i int) {
		s := texts[i%len(texts)]
		typed := i >= len(texts)
		d, err := time.ParseDuration(s)
		if err != nil && typed {
			return
		}
		core.Bubble(func() {
			x := newExp04(w)
			if typed {
				x.dur(0, d, d, false)
			} else {
				x.dur(0, s, d, err != nil)
			}
			x.check()
			x.sleep(d - 1)
			x.check()
			x.sleep(1)
			x.check()
			x.sleep(1)
			x.check()
			w.Op(5)
		})
	}}
}

func init() {
	core.Register(&core.Check{ID: "C04", FakeClock: true, Assumptions: []string{"the clock is the one of testing/synctest: time.Now is controlled exactly, and nothing else in the engine reads time"},
		Parts: func(tier string) []core.Part {
			ps := []core.Part{durs04(), shared04(2), config04(3), seq04("seq-one", ops04([]int{0}, true), 3), seq04("seq-four", ops04([]int{0, 1, 2, 3}, false), 3), seq04("seq-full", ops04([]int{0, 1, 2, 3}, true), 2)}
			if tier == "thorough" {
				ps = append(ps, shared04(3), config04(5), seq04("seq-one-deep", ops04([]int{0}, true), 5), seq04("seq-four-deep", ops04([]int{0, 1, 2, 3}, false), 4), seq04("seq-full-deep", ops04([]int{0, 1, 2, 3}, true), 3))
			}
			return ps
		}})
}
