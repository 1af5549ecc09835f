package v2c

import (
	"fmt"
	"log/slog"
	"time"

	v2 "github.com/oarkflow/permission/v2"

	"verif/mc/core"
)

// hist is an engine and its model, changed in lock step.
type hist struct {
	w *core.W
	s *Sys
	c *Cfg
	m mode // what the questions are about; nothing: everything
	// rec, if any, is the audit log of the engine, checked with every answer
	rec *recorder
}

type hop struct {
	name string
	do   func(h *hist)
}

func newHist(w *core.W, c *Cfg) *hist { return &hist{w: w, s: Build(w, c), c: c} }

func (h *hist) addPerm(r string, ps ...string) {
	var l []*v2.Permission
	for _, p := range ps {
		l = append(l, perm(p))
		if m := h.c.Roles[r]; m != nil {
			m[p] = true
		}
	}
	h.role(r).AddPermission(l...)
}

// role is the live object of a role (registered or, until then, waiting).
func (h *hist) role(r string) *v2.Role {
	if x := h.s.Roles[r]; x != nil {
		return x
	}
	x := v2.NewRole(r)
	h.s.Roles[r] = x
	return x
}

func (h *hist) removePerm(r string, ps ...string) {
	var l []*v2.Permission
	for _, p := range ps {
		l = append(l, perm(p))
		if m := h.c.Roles[r]; m != nil {
			delete(m, p)
		}
	}
	h.role(r).RemovePermission(l...)
}

// register registers a fresh role object under the name (replacing one that is there).
func (h *hist) register(r string, ps ...string) {
	x := v2.NewRole(r)
	m := map[string]bool{}
	for _, p := range ps {
		x.AddPermission(perm(p))
		m[p] = true
	}
	h.s.A.AddRole(x)
	h.s.Roles[r] = x
	h.c.Roles[r] = m
}

func (h *hist) link(p string, ch ...string) {
	cycle := false
	for _, c := range ch {
		cycle = cycle || h.c.Reach(c, p)
	}
	given := append(make([]string, 0, len(ch)+1), ch...)
	err := h.s.A.AddChildRole(p, given...)
	for k := range given {
		given[k] = "reused" // the list is the caller's
	}
	if (err != nil) != cycle {
		h.w.Failf("link %s -> %v: error %v, closes a cycle: %v", p, ch, err, cycle)
	}
	if !cycle {
		h.c.Edges[p] = append(h.c.Edges[p], ch...)
	}
}

func (h *hist) assign(as ...Asg) {
	var l []*v2.PrincipalRole
	for _, a := range as {
		l = append(l, a.real())
		h.c.Asgs = append(h.c.Asgs, a)
	}
	h.s.A.AddPrincipalRole(l...)
	for k := range l {
		l[k] = &v2.PrincipalRole{Principal: "reused"} // the list is the caller's
	}
}

func matches(a, t Asg) bool {
	return (t.P == "" || t.P == a.P) && (t.T == "" || t.T == a.T) && (t.N == "" || t.N == a.N) && (t.S == "" || t.S == a.S) && (t.R == "" || t.R == a.R)
}

func (h *hist) remove(t Asg) {
	var keep []Asg
	for _, a := range h.c.Asgs {
		if !matches(a, t) {
			keep = append(keep, a)
		}
	}
	removed := len(keep) != len(h.c.Asgs)
	h.c.Asgs = keep
	err := h.s.A.RemovePrincipalRole(v2.PrincipalRole{Principal: t.P, Tenant: t.T, Namespace: t.N, Scope: t.S, Role: t.R})
	if (err == nil) != removed {
		h.w.Failf("remove %v: error %v, something matched: %v", t, err, removed)
	}
}

func (h *hist) addTenant(id string) {
	h.s.A.AddTenant(h.s.Tenants[id])
	h.c.Registered[id] = true
}

func (h *hist) child(p, ch string) {
	h.s.Tenants[p].AddChildTenant(h.s.Tenants[ch])
	for _, x := range h.c.All[p].Children {
		if x == ch {
			return
		}
	}
	h.c.All[p].Children = append(h.c.All[p].Children, ch)
}

func (h *hist) namespace(t, n string, def bool) {
	if def {
		h.s.Tenants[t].AddNamespace(n, true)
		h.c.All[t].Default = n
	} else {
		h.s.Tenants[t].AddNamespace(n)
	}
	if h.c.All[t].NS[n] == nil {
		h.c.All[t].NS[n] = map[string]bool{}
	}
}

func (h *hist) scope(t, n string, ss ...string) {
	var l []*v2.Scope
	for _, s := range ss {
		l = append(l, v2.NewScope(s))
	}
	err := h.s.Tenants[t].AddScopeToNamespace(n, l...)
	_, ok := h.c.All[t].NS[n]
	if (err == nil) != ok {
		h.w.Failf("add scopes %v to %s/%s: error %v, namespace present: %v", ss, t, n, err, ok)
	}
	for _, s := range ss {
		if ok {
			h.c.All[t].NS[n][s] = true
		}
	}
}

func (h *hist) defTenant(t string) {
	h.s.A.SetDefaultTenant(t)
	h.c.Default = t
	got, ok := h.s.A.GetDefaultTenant()
	if want := t != "" && h.c.Registered[t]; ok != want || (ok && got.ID != t) {
		h.w.Failf("default tenant reported %v, want %q registered=%v", ok, t, want)
	}
}

// ask compares every query with the model.
func (h *hist) ask(reqs []Req, roles []string, rolesFirst bool) {
	a := func() {
		for _, q := range reqs {
			v := h.c.Authorize(q)
			got := h.s.A.Authorize(q.real())
			h.w.Query(v.Exact)
			if h.rec != nil {
				audit(h.w, h.rec, q, got, "decision")
				continue
			}
			// A grant that no live assignment explains is unsound, every other difference is incomplete
			if got != v.Exact && (h.m == 0 || got && !v.Lenient && h.m&sound != 0 || v.Lenient && h.m&complete != 0) {
				h.w.Failf("decision got %v, want %v: %v", got, v.Exact, q)
			}
		}
	}
	c := func() {
		for _, q := range reqs {
			if q.Res != reqs[0].Res {
				continue
			}
			for _, r := range roles {
				want := h.c.Can(q, r)
				got := h.s.A.Can(q.real(), r)
				h.w.Query(want)
				if h.rec != nil {
					audit(h.w, h.rec, q, got, fmt.Sprintf("role check %q", r))
				} else if got != want {
					h.w.Failf("role check %s got %v, want %v: %v", r, got, want, q)
				}
			}
		}
	}
	ca, cc := h.m == 0 || h.m&(sound|complete) != 0, h.m == 0 || h.m&checks != 0
	if rolesFirst && cc {
		c()
	}
	if ca {
		a()
	}
	if !rolesFirst && cc {
		c()
	}
}

func histBase() *Cfg {
	c := NewCfg()
	c.All["t1"] = &Ten{ID: "t1", Default: "n1", NS: map[string]map[string]bool{"n1": {"s1": true}}}
	c.All["t2"] = &Ten{ID: "t2", NS: map[string]map[string]bool{"n1": {"s1": true}}}
	c.Registered["t1"] = true
	c.Roles["r1"] = map[string]bool{"/a GET": true}
	c.Roles["r2"] = map[string]bool{"/b GET": true}
	c.Asgs = []Asg{{P: "p", T: "t1", R: "r1"}}
	return c
}

func roleOps() []hop {
	return []hop{
		{"r1 += /x", func(h *hist) { h.addPerm("r1", "/x GET") }},
		{"r1 -= /a", func(h *hist) { h.removePerm("r1", "/a GET") }},
		{"r1 += /a", func(h *hist) { h.addPerm("r1", "/a GET") }},
		{"r2 += /x", func(h *hist) { h.addPerm("r2", "/x GET", "/c GET") }},
		{"r2 -= /b", func(h *hist) { h.removePerm("r2", "/b GET", "/x GET") }},
		{"register r3", func(h *hist) { h.register("r3", "/c GET") }},
		{"r3 -= /c", func(h *hist) { h.removePerm("r3", "/c GET") }},
		{"register new r1", func(h *hist) { h.register("r1", "/b GET") }},
		{"register new r2", func(h *hist) { h.register("r2", "/a GET") }},
		{"link r1->r4,r2", func(h *hist) { h.link("r1", "r4", "r2") }},
		{"link r1->r3", func(h *hist) { h.link("r1", "r3") }},
		{"link r2->r3", func(h *hist) { h.link("r2", "r3") }},
		{"link r2->r1", func(h *hist) { h.link("r2", "r1") }},
		{"assign p t1 r2", func(h *hist) { h.assign(Asg{P: "p", T: "t1", R: "r2"}) }},
		{"assign p t1 s1 r3", func(h *hist) { h.assign(Asg{P: "p", T: "t1", S: "s1", R: "r3"}) }},
		{"revoke r1", func(h *hist) { h.remove(Asg{R: "r1"}) }},
	}
}

func tenantOps() []hop {
	return []hop{
		{"assign p t2 r2", func(h *hist) { h.assign(Asg{P: "p", T: "t2", R: "r2"}) }},
		{"assign p t1 manage", func(h *hist) { h.assign(Asg{P: "p", T: "t1", Manage: true}) }},
		{"assign q t1 n2 r1", func(h *hist) { h.assign(Asg{P: "q", T: "t1", N: "n2", R: "r1"}) }},
		{"revoke p", func(h *hist) { h.remove(Asg{P: "p"}) }},
		{"revoke t1", func(h *hist) { h.remove(Asg{T: "t1"}) }},
		{"register t2", func(h *hist) { h.addTenant("t2") }},
		{"child t1>t2", func(h *hist) { h.child("t1", "t2") }},
		{"t1 namespace n2", func(h *hist) { h.namespace("t1", "n2", false) }},
		{"t1 default n2", func(h *hist) { h.namespace("t1", "n2", true) }},
		{"t2 namespace n2", func(h *hist) { h.namespace("t2", "n2", false) }},
		{"t1/n2 scope s1", func(h *hist) { h.scope("t1", "n2", "s1") }},
		{"t1/n1 scopes s2, s3", func(h *hist) { h.scope("t1", "n1", "s2", "s3") }},
		{"default t1", func(h *hist) { h.defTenant("t1") }},
		{"default t2", func(h *hist) { h.defTenant("t2") }},
		{"default none", func(h *hist) { h.defTenant("") }},
	}
}

func histPart(name string, ops []hop, depth int, reqs []Req, roles []string, base func() *Cfg) core.Part {
	return histPartOf(0, false, name, ops, depth, reqs, roles, base)
}

// histPartOf is histPart for questions of one kind, or for the audit log only.
func histPartOf(m mode, log bool, name string, ops []hop, depth int, reqs []Req, roles []string, base func() *Cfg) core.Part {
	modes := []string{"questions at the end only", "questions after every call", "questions after every call, role checks first"}
	nseq := core.SeqsUpTo(len(ops), depth)
	return core.Part{
		Name: fmt.Sprintf("%s-%d", name, depth), N: nseq * len(modes),
		Rule: fmt.Sprintf("all sequences of <=%d of %d calls x {%s, %s, %s}; %d requests and %d roles asked", depth, len(ops), modes[0], modes[1], modes[2], len(reqs), len(roles)),
		Run: func(w *core.W, i int) {
			mode := i % len(modes)
			h := newHist(w, base())
			h.m = m
			if log {
				h.rec = &recorder{}
				h.s = Build(w, h.c, slog.New(h.rec))
				h.rec.recs = nil
			}
			if mode > 0 {
				h.ask(reqs, roles, mode == 2)
			}
			seq := core.Seq(len(ops), depth, i/len(modes))
			for k, x := range seq {
				w.Logf("call %s", ops[x].name)
				ops[x].do(h)
				w.Op(1)
				if mode > 0 && k < len(seq)-1 {
					h.ask(reqs, roles, mode == 2)
				}
			}
			w.State(h.c.Canon())
			h.ask(reqs, roles, mode == 2)
			h.ask(reqs, roles, mode != 2) // asking again changes nothing
		},
	}
}

// histParts: configurations that come about by changes, for the properties of the answers themselves.
func histParts(m mode, log bool, depth int) []core.Part {
	perms := []Req{{Res: "/a", Act: "GET"}, {Res: "/b", Act: "GET"}, {Res: "/c", Act: "GET"}, {Res: "/x", Act: "GET"}}
	rq := product([]string{"p"}, []string{"", "t1"}, []string{""}, []string{"", "s1"}, nil, perms)
	tq := product([]string{"p", "q"}, []string{"", "t1", "t2"}, []string{"", "n2"}, []string{"", "s1"}, nil, perms[:2])
	R := []string{"r1", "r2", "r3"}
	return []core.Part{
		histPartOf(m, log, "changed-roles", roleOps(), depth, rq, R, histBase),
		histPartOf(m, log, "changed-tenants", tenantOps(), depth, tq, R[:2], histBase),
		histPartOf(m, log, "changed", append(roleOps(), tenantOps()...), depth-1, append(append([]Req{}, rq...), tq...), R, histBase),
	}
}

func init() {
	core.Register(&core.Check{ID: "C06", Parts: func(tier string) []core.Part {
		perms := []Req{{Res: "/a", Act: "GET"}, {Res: "/b", Act: "GET"}, {Res: "/c", Act: "GET"}, {Res: "/x", Act: "GET"}}
		rq := product([]string{"p"}, []string{"", "t1"}, []string{""}, []string{"", "s1"}, nil, perms)
		tq := product([]string{"p", "q"}, []string{"", "t1", "t2"}, []string{"", "n2"}, []string{"", "s1"}, nil, perms[:2])
		R := []string{"r1", "r2", "r3"}
		all := append(roleOps(), tenantOps()...)
		dr, dt, da, do := 4, 4, 3, 3
		if tier == "thorough" {
			dr, dt, da, do = 5, 5, 4, 4
		}
		return []core.Part{
			histPart("roles", roleOps(), dr, rq, R, histBase),
			histPart("tenants", tenantOps(), dt, tq, R[:2], histBase),
			histPart("mixed", all, da, append(append([]Req{}, rq...), tq...), R, histBase),
			pairPart(do),
			spLadderHist(tier),
			oddPerms(tier),
		}
	}})
}

// oddPerms: permissions whose parts are blank, contain the separator or differ in the category only.
func oddPerms(tier string) core.Part {
	var ps []*v2.Permission
	for _, r := range []string{"/a", "/a GET", "", "/a "} {
		for _, a := range []string{"GET", "", "GET GET", " "} {
			for _, c := range []string{"", "c"} {
				ps = append(ps, v2.NewPermission(c, r, a))
			}
		}
	}
	text := func(p *v2.Permission) string { return p.Resource + " " + p.Action }
	var reqs []Req
	for _, r := range []string{"/a", "/a GET", "", "/a ", "/b"} {
		for _, a := range []string{"GET", "", "GET GET", " ", "PUT"} {
			reqs = append(reqs, Req{P: "p", T: "t1", Res: r, Act: a})
		}
	}
	depth := 2
	if tier == "thorough" {
		depth = 3
	}
	n := core.SeqsUpTo(2*len(ps), depth)
	return core.Part{Name: fmt.Sprintf("odd-permissions-%d", depth), N: n * 2,
		Rule: fmt.Sprintf("a role without permissions or with all of %d whose resource or action is blank, has a separator in it, or which differ in the category only; all sequences of <=%d additions and removals of one of them, %d requests after every call", len(ps), depth, len(reqs)),
		Run: func(w *core.W, i int) {
			h := newHist(w, histBase())
			r := h.s.Roles["r1"]
			if i%2 == 1 {
				for _, p := range ps {
					r.AddPermission(p)
					h.c.Roles["r1"][text(p)] = true
				}
			}
			for _, k := range core.Seq(2*len(ps), depth, i/2) {
				p := ps[k/2]
				if k%2 == 0 {
					r.AddPermission(p)
					h.c.Roles["r1"][text(p)] = true
				} else {
					r.RemovePermission(p)
					delete(h.c.Roles["r1"], text(p))
				}
				w.Logf("add or remove (%d) %q", k%2, *p)
				w.Op(1)
				h.ask(reqs, nil, false)
			}
			w.State(h.c.Canon())
			h.ask(reqs, nil, false)
		}}
}

// spLadderHist: many changes of one kind followed by their undoing, asked at every step.
func spLadderHist(tier string) core.Part {
	max := 40
	if tier == "thorough" {
		max = 150
	}
	return core.Part{Name: "ladder", N: max * 3,
		Rule: fmt.Sprintf("1..%d permissions added then removed one by one / assignments added then revoked one by one / roles chained one by one, asked after every call", max),
		Run: func(w *core.W, i int) {
			n, kind := i/3+1, i%3
			h := newHist(w, histBase())
			q := func(k int) []Req {
				return []Req{{P: "p", T: "t1", Res: fmt.Sprintf("/k%d", k), Act: "GET"}, {P: "p", T: "t1", Res: fmt.Sprintf("/k%d", n-1), Act: "GET"}, {P: "p", Res: "/a", Act: "GET"}}
			}
			for k := 0; k < n; k++ {
				ps := fmt.Sprintf("/k%d GET", k)
				switch kind {
				case 0:
					h.addPerm("r1", ps)
				case 1:
					r := fmt.Sprintf("k%d", k)
					h.register(r, ps)
					h.assign(Asg{P: "p", T: "t1", R: r})
				case 2:
					r := fmt.Sprintf("k%d", k)
					h.register(r, ps)
					if k == 0 {
						h.link("r1", r)
					} else {
						h.link(fmt.Sprintf("k%d", k-1), r)
					}
				}
				w.Op(1)
				h.ask(q(k), []string{fmt.Sprintf("k%d", k)}, k%2 == 0)
			}
			for k := 0; k < n; k++ {
				switch kind {
				case 0:
					h.removePerm("r1", fmt.Sprintf("/k%d GET", k))
				case 1:
					h.remove(Asg{R: fmt.Sprintf("k%d", k)})
				case 2:
					h.removePerm(fmt.Sprintf("k%d", k), fmt.Sprintf("/k%d GET", k))
				}
				w.Op(1)
				h.ask(q(k), []string{fmt.Sprintf("k%d", k)}, k%2 == 1)
			}
			w.State(fmt.Sprint("ladder", i))
		}}
}

// ---- C07 -----------------------------------------------------------------------------------

func c07() *core.Check {
	base := func() *Cfg {
		c := NewCfg()
		for _, t := range []string{"t1", "t2"} {
			c.All[t] = &Ten{ID: t, Default: "n1", NS: map[string]map[string]bool{"n1": {"s1": true}, "n2": {"s1": true}}}
			c.Registered[t] = true
		}
		c.Roles["r1"] = map[string]bool{"/r1 GET": true}
		c.Roles["r2"] = map[string]bool{"/r2 GET": true}
		return c
	}
	asgs := []Asg{
		{P: "p", T: "t1", R: "r1"}, {P: "p", T: "t1", R: "r2"}, {P: "p", T: "t2", R: "r1"}, {P: "q", T: "t1", R: "r1"},
		{P: "p", T: "t1", N: "n1", R: "r1"}, {P: "p", T: "t1", N: "n2", R: "r2"}, {P: "q", T: "t2", N: "n1", S: "s1", R: "r2"}, {P: "p", T: "t1", S: "s1", R: "r1"},
	}
	var tmpl []Asg
	for _, p := range []string{"", "p", "q"} {
		for _, t := range []string{"", "t1", "t2"} {
			for _, n := range []string{"", "n1", "n2"} {
				for _, s := range []string{"", "s1"} {
					for _, r := range []string{"", "r1", "r2", "r3"} {
						tmpl = append(tmpl, Asg{P: p, T: t, N: n, S: s, R: r})
					}
				}
			}
		}
	}
	reqs := product([]string{"p", "q"}, []string{"t1", "t2", ""}, []string{"n1", "n2"}, []string{"", "s1"}, nil, actsFor([]string{"r1", "r2"}))
	roles := []string{"r1", "r2"}
	lists := func(max int) core.Part {
		nl := core.SeqsUpTo(len(asgs), max)
		return core.Part{Name: fmt.Sprintf("lists-%d", max), N: nl * len(tmpl),
			Rule: fmt.Sprintf("every list of <=%d of %d assignments (repetition allowed) x every one of %d templates, all %d requests and role checks before/after, then one more addition and a second identical removal", max, len(asgs), len(tmpl), len(reqs)),
			Run: func(w *core.W, i int) {
				h := newHist(w, base())
				for _, k := range core.Seq(len(asgs), max, i/len(tmpl)) {
					w.Logf("assign %v", asgs[k])
					h.assign(asgs[k])
				}
				t := tmpl[i%len(tmpl)]
				w.Logf("remove %v", t)
				h.remove(t)
				w.State(h.c.Canon())
				h.ask(reqs, roles, false)
				w.Logf("assign %v, remove %v again", asgs[i%len(asgs)], t)
				h.assign(asgs[i%len(asgs)])
				h.remove(t)
				h.ask(reqs[:8], roles, false)
			}}
	}
	var ops []hop
	for _, a := range []Asg{asgs[0], asgs[1], asgs[3], asgs[4], asgs[7]} {
		ops = append(ops, hop{"assign " + a.String(), func(h *hist) { h.assign(a) }})
	}
	for _, t := range []Asg{{P: "p"}, {R: "r1"}, {T: "t1", R: "r2"}, {N: "n1"}, {S: "s1"}, {}, {P: "q", T: "t1"}} {
		ops = append(ops, hop{"remove " + t.String(), func(h *hist) { h.remove(t) }})
	}
	ladder := func(max int) core.Part {
		var cs [][2]int
		for n := 1; n <= max; n++ {
			for p := 0; p < n; p++ {
				cs = append(cs, [2]int{n, p})
			}
		}
		return core.Part{Name: fmt.Sprintf("ladder-%d", max), N: len(cs) * 2,
			Rule: fmt.Sprintf("1..%d assignments, the one at every position removed alone, or all but it", max),
			Run: func(w *core.W, i int) {
				n, p := cs[i/2][0], cs[i/2][1]
				c := base()
				for k := 0; k < n; k++ {
					r := fmt.Sprintf("x%d", k)
					c.Roles[r] = map[string]bool{"/" + r + " GET": true}
				}
				h := newHist(w, c)
				for k := 0; k < n; k++ {
					h.assign(Asg{P: "p", T: "t1", R: fmt.Sprintf("x%d", k)})
				}
				for k := 0; k < n; k++ {
					if (k == p) == (i%2 == 0) {
						h.remove(Asg{R: fmt.Sprintf("x%d", k)})
					}
				}
				w.State(h.c.Canon())
				var rq []Req
				var rl []string
				for k := 0; k < n; k++ {
					rq = append(rq, Req{P: "p", T: "t1", Res: fmt.Sprintf("/x%d", k), Act: "GET"})
					rl = append(rl, fmt.Sprintf("x%d", k))
				}
				h.ask(rq, rl, false)
			}}
	}
	bigs := func(max int) core.Part {
		at := core.Big(max)
		return core.Part{Name: fmt.Sprintf("big-%d", max), N: len(at) * 2,
			Rule: fmt.Sprintf("%v assignments, the first, middle, last or none removed alone, or all but it with one template", core.Sizes(max)),
			Run: func(w *core.W, i int) {
				n, p := at[i/2][0], at[i/2][1]
				c := base()
				c.Roles["mark"] = map[string]bool{"/mark GET": true}
				for k := 0; k < n; k++ {
					a := Asg{P: "p", T: "t1", R: "r1"}
					if k == p {
						a.R = "mark"
					}
					c.Asgs = append(c.Asgs, a)
				}
				h := newHist(w, c)
				t := Asg{R: []string{"mark", "r1"}[i%2]}
				w.Logf("remove %v", t)
				h.remove(t)
				w.State(h.c.Canon())
				rq := []Req{{P: "p", T: "t1", Res: "/mark", Act: "GET"}, {P: "p", T: "t1", Res: "/r1", Act: "GET"}, {P: "p", Res: "/r1", Act: "GET"}}
				h.ask(rq, []string{"r1", "mark"}, false)
				h.remove(t)
				h.ask(rq, []string{"r1", "mark"}, false)
				h.remove(Asg{})
				h.ask(rq, []string{"r1", "mark"}, false)
			}}
	}
	ids := func() core.Part {
		return core.Part{Name: "confusable-ids", N: len(core.OddPairs) * 5,
			Rule: fmt.Sprintf("every ordered pair of %d confusable ids as the two principals, tenants, namespaces, scopes or roles: a template naming the first removes exactly its assignments", len(core.OddIDs)),
			Run: func(w *core.W, i int) {
				v := [5][2]string{{"p", "q"}, {"t1", "t2"}, {"n1", "n2"}, {"s1", "s2"}, {"r1", "r2"}}
				f := i % 5
				v[f] = core.OddPairs[i/5]
				c := NewCfg()
				for _, t := range v[1] {
					c.All[t] = &Ten{ID: t, NS: map[string]map[string]bool{v[2][0]: {v[3][0]: true, v[3][1]: true}, v[2][1]: {v[3][0]: true, v[3][1]: true}}}
					c.Registered[t] = true
				}
				c.Roles[v[4][0]] = map[string]bool{"/one GET": true}
				c.Roles[v[4][1]] = map[string]bool{"/two GET": true}
				pick := func(bit int) Asg {
					x := [5]int{}
					x[f] = bit
					return Asg{P: v[0][x[0]], T: v[1][x[1]], N: v[2][x[2]], S: v[3][x[3]], R: v[4][x[4]]}
				}
				c.Asgs = []Asg{pick(1), pick(0), pick(1), pick(0)}
				h := newHist(w, c)
				var t Asg
				*[]*string{&t.P, &t.T, &t.N, &t.S, &t.R}[f] = v[f][0]
				w.Logf("remove %v", t)
				h.remove(t)
				w.State(h.c.Canon())
				rq := product(v[0][:], v[1][:], v[2][:], v[3][:], nil, []Req{{Res: "/one", Act: "GET"}, {Res: "/two", Act: "GET"}})
				h.ask(rq, v[4][:], false)
				h.remove(t)
			}}
	}
	joined := core.Part{Name: "joined-ids", N: 20 * len(core.Seps) * 4,
		Rule: fmt.Sprintf("every two positions x %d separators: two assignments whose ids there make the same text when joined, added in either order; a template naming all of the first (or of the second) removes it and not the other", len(core.Seps)),
		Run: func(w *core.W, i int) {
			d := core.Mixed(i, 2, 2, 20, len(core.Seps))
			v := [5][]string{{"p"}, {"t"}, {"n"}, {"s"}, {"r"}}
			f, g := core.Ordered(5, d[2])
			x, y := core.Joined(core.Seps[d[3]])
			v[f], v[g] = x[:], y[:]
			c := NewCfg()
			for _, t := range v[1] {
				c.All[t] = &Ten{ID: t, NS: map[string]map[string]bool{}}
				c.Registered[t] = true
				for _, n := range v[2] {
					c.All[t].NS[n] = map[string]bool{}
					for _, s := range v[3] {
						c.All[t].NS[n][s] = true
					}
				}
			}
			for k, r := range v[4] {
				c.Roles[r] = map[string]bool{"/" + fmt.Sprint(k) + " GET": true}
			}
			mk := func(k int) Asg {
				return Asg{P: v[0][k%len(v[0])], T: v[1][k%len(v[1])], N: v[2][k%len(v[2])], S: v[3][k%len(v[3])], R: v[4][k%len(v[4])]}
			}
			h := newHist(w, c)
			h.assign(mk(d[0]))
			h.assign(mk(1 - d[0]))
			rq := product(v[0], v[1], v[2], v[3], nil, []Req{{Res: "/0", Act: "GET"}, {Res: "/1", Act: "GET"}})
			h.ask(rq, v[4], false)
			w.Logf("remove %v", mk(d[1]))
			h.remove(mk(d[1]))
			w.State(h.c.Canon())
			h.ask(rq, v[4], false)
			h.remove(mk(d[1]))
		}}
	states := func(max int) core.Part {
		kinds := []Asg{{P: "p", T: "t1", R: "r1"}, {P: "p", T: "t1", R: "r1", Manage: true}, {P: "p", T: "t1", R: "r1", Dead: true}, {P: "p", T: "t1", R: "r2"}, {P: "p", T: "t1", R: "r2", Manage: true, Dead: true}, {P: "q", T: "t1", Manage: true}, {P: "p", T: "t2", R: "r2"}}
		nk := len(kinds) + 2 // lasting expiry; the object of the first assignment once more
		tm := []Asg{{}, {P: "p"}, {T: "t1"}, {R: "r1"}, {R: "r2"}, {P: "q", T: "t1"}, {T: "t2"}}
		nl := core.SeqsUpTo(nk, max)
		return core.Part{Name: fmt.Sprintf("kinds-%d", max), N: nl * len(tm) * 6,
			Rule: fmt.Sprintf("every list of <=%d of %d kinds of assignment (plain, managing, expired, expiring later, managing and expired, without role, in the child tenant, the first object once more) x %d templates x manage flag of the template x no, past or future expiry of the template; then everything expired is revived and the removed objects are assigned again", max, nk, len(tm)),
			Run: func(w *core.W, i int) {
				d := core.Mixed(i, len(tm), 2, 3, nl)
				c := base()
				c.All["t1"].Children = []string{"t2"}
				h := newHist(w, c)
				var objs []*v2.PrincipalRole
				var which []int // per model assignment: its object
				for _, k := range core.Seq(nk, max, d[3]) {
					o := len(objs)
					switch {
					case k < len(kinds):
						objs = append(objs, kinds[k].real())
						h.c.Asgs = append(h.c.Asgs, kinds[k])
					case k == len(kinds):
						x := kinds[0].real()
						t := future
						x.Expiry = &t
						objs = append(objs, x)
						h.c.Asgs = append(h.c.Asgs, kinds[0])
					case o == 0:
						continue
					default:
						o = 0
						h.c.Asgs = append(h.c.Asgs, h.c.Asgs[0])
					}
					w.Logf("assign %v (object %d)", h.c.Asgs[len(h.c.Asgs)-1], o)
					which = append(which, o)
					h.s.A.AddPrincipalRole(objs[o])
				}
				t := tm[d[0]]
				real := t.real()
				real.ManageChildTenant = d[1] == 1
				if d[2] > 0 {
					e := []time.Time{past, future}[d[2]-1]
					real.Expiry = &e
				}
				w.Logf("remove %v, manage %v, expiry %v", t, real.ManageChildTenant, real.Expiry)
				var keep []Asg
				var left []int
				var gone []Asg
				var goneObj []int
				for k, a := range h.c.Asgs {
					if !matches(a, t) {
						keep, left = append(keep, a), append(left, which[k])
					} else {
						gone, goneObj = append(gone, a), append(goneObj, which[k])
					}
				}
				removed := len(keep) != len(h.c.Asgs)
				h.c.Asgs = keep
				if err := h.s.A.RemovePrincipalRole(*real); (err == nil) != removed {
					w.Failf("remove %v: error %v, something matched: %v", t, err, removed)
				}
				w.State(h.c.Canon())
				rq := product([]string{"p", "q"}, []string{"t1", "t2", ""}, []string{"n1"}, []string{""}, nil, actsFor([]string{"r1", "r2"}))
				h.ask(rq, roles, false)
				for k := range h.c.Asgs {
					objs[left[k]].ClearExpiry()
					h.c.Asgs[k].Dead = false
				}
				h.ask(rq, roles, false)
				if len(gone) == 0 {
					return
				}
				// The caller's objects are still what they were: assigning them again gives the same
				w.Logf("assign the removed objects again")
				for k, a := range gone {
					h.s.A.AddPrincipalRole(objs[goneObj[k]])
					h.c.Asgs = append(h.c.Asgs, a)
				}
				h.ask(rq, roles, false)
			}}
	}
	return &core.Check{ID: "C07", Parts: func(tier string) []core.Part {
		if tier == "thorough" {
			return []core.Part{lists(4), histPart("interleaved", ops, 5, reqs, roles, base), ladder(60), bigs(1025), ids(), states(4), joined}
		}
		return []core.Part{lists(3), histPart("interleaved", ops, 4, reqs, roles, base), ladder(24), bigs(1025), ids(), states(3), joined}
	}}
}

func init() { core.Register(c07()) }
