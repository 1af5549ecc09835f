package v2c

import (
	"fmt"

	v2 "github.com/oarkflow/permission/v2"

	"verif/mc/core"
)

// Role graph: the real RoleDAG and the real Authorizer, driven in lock step with the model.
type dagSys struct {
	dag  *v2.RoleDAG
	auth *v2.Authorizer
	cfg  *Cfg
}

func newDagSys() *dagSys {
	c := NewCfg()
	c.All["t"] = &Ten{ID: "t", NS: map[string]map[string]bool{"n": {}}}
	c.Registered["t"] = true
	s := &dagSys{dag: v2.NewRoleDAG(), auth: v2.NewAuthorizer(), cfg: c}
	t := v2.NewTenant("t", "n")
	c.All["t"].Default = "n"
	s.auth.AddTenant(t)
	return s
}

func (s *dagSys) register(w *core.W, r string) { s.registerWith(w, r, permOf(r)) }

func (s *dagSys) registerWith(w *core.W, r string, ps ...string) {
	w.Op(1)
	w.Logf("register role %s with permissions %q", r, ps)
	s.cfg.Roles[r] = map[string]bool{}
	for _, p := range ps {
		s.cfg.Roles[r][p] = true
	}
	for k := 0; k < 2; k++ {
		x := v2.NewRole(r)
		for _, p := range ps {
			x.AddPermission(perm(p))
		}
		if k == 0 {
			s.dag.AddRole(x)
		} else {
			s.auth.AddRole(x)
		}
	}
}

func (s *dagSys) link(w *core.W, parent string, ch ...string) {
	w.Op(1)
	cycle := false
	for _, c := range ch {
		if s.cfg.Reach(c, parent) {
			cycle = true
		}
	}
	w.Logf("link %s -> %v (closes a cycle: %v)", parent, ch, cycle)
	var errs [2]error
	for k, add := range []func(string, ...string) error{s.dag.AddChildRole, s.auth.AddChildRole} {
		given := append(make([]string, 0, len(ch)+1), ch...)
		errs[k] = add(parent, given...)
		for j := range given {
			given[j] = parent // the list is the caller's
		}
	}
	for k, err := range errs {
		if (err != nil) != cycle {
			w.Failf("link %s -> %v: error %v, but closes a cycle: %v (engine %d)", parent, ch, err, cycle, k)
		}
	}
	if !cycle {
		s.cfg.Edges[parent] = append(s.cfg.Edges[parent], ch...)
	}
}

func (s *dagSys) verify(w *core.W, R []string) {
	for _, r := range R {
		cl := s.cfg.Closure(r)
		got := s.dag.ResolveChildRoles(r)
		w.Query(len(cl) > 0)
		if !sameSet(got, cl) {
			w.Failf("roles resolved for %s: %v, want %v", r, keys(got), keys(cl))
		}
		perms := map[string]bool{}
		for x := range cl {
			for p := range s.cfg.Roles[x] {
				perms[p] = true
			}
		}
		gp := s.dag.ResolvePermissions(r)
		w.Query(len(perms) > 0)
		if !sameSet(gp, perms) {
			w.Failf("permissions resolved for %s: %v, want %v", r, keys(gp), keys(perms))
		}
	}
}

// verifyAuth observes the closure through decisions and role checks.
func (s *dagSys) verifyAuth(w *core.W, R []string) {
	for _, r := range R {
		p := "p" + r
		s.auth.AddPrincipalRole(&v2.PrincipalRole{Principal: p, Tenant: "t", Role: r})
		cl := s.cfg.Closure(r)
		for _, x := range R {
			q := Req{P: p, T: "t", Res: "/" + x, Act: "GET"}
			if got := s.auth.Authorize(q.real()); got != cl[x] {
				w.Failf("holder of %s: permission of %s granted=%v, inherited=%v", r, x, got, cl[x])
			}
			if got := s.auth.Can(q.real(), x); got != (cl[x] || x == r) {
				w.Failf("holder of %s: role check for %s=%v, inherited=%v", r, x, got, cl[x])
			}
			w.Query(cl[x])
		}
	}
}

func sameSet(a map[string]struct{}, b map[string]bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return false
		}
	}
	return true
}

// dagGraphPart: from every acyclic graph over m roles, every link call with up to maxch children.
func dagGraphPart(m, maxch int) core.Part {
	R := []string{"r1", "r2", "r3", "r4", "r5"}[:m]
	gs := dags(m)
	lists := core.SeqsUpTo(m, maxch) - 1
	return core.Part{
		Name: fmt.Sprintf("graphs-%d-%d", m, maxch), N: len(gs) * m * lists,
		Rule: fmt.Sprintf("all %d acyclic role graphs over %d roles (all registered) x every link call with 1..%d children, closures before and after", len(gs), m, maxch),
		Run: func(w *core.W, i int) {
			d := core.Mixed(i, len(gs), m, lists)
			s := newDagSys()
			for _, r := range R {
				s.register(w, r)
			}
			for k := range R {
				for j := range R {
					if gs[d[0]]>>(k*m+j)&1 == 1 {
						s.link(w, R[k], R[j])
					}
				}
			}
			if i&1 == 0 {
				s.verify(w, R) // warm memo
			}
			w.State(fmt.Sprint(m, gs[d[0]]))
			var ch []string
			for _, x := range core.Seq(m, maxch, d[2]+1) {
				ch = append(ch, R[x])
			}
			s.link(w, R[d[1]], ch...)
			s.verify(w, R)
			s.verifyAuth(w, R)
		},
	}
}

// dagPermPart: every acyclic graph over m roles with every role unregistered, without permissions,
// with a permission of its own, or with one that other roles have too.
func dagPermPart(m int) core.Part {
	R := []string{"r1", "r2", "r3", "r4", "r5"}[:m]
	gs := dags(m)
	var rad []int
	for range R {
		rad = append(rad, 4)
	}
	return core.Part{
		Name: fmt.Sprintf("permissions-%d", m), N: len(gs) * core.Prod(rad...),
		Rule: fmt.Sprintf("all %d acyclic role graphs over %d roles, each role unregistered, without permissions, with one of its own, or with its own and a common one; parents resolved first or last", len(gs), m),
		Run: func(w *core.W, i int) {
			d := core.Mixed(i, append([]int{len(gs)}, rad...)...)
			s := newDagSys()
			for k, r := range R {
				switch d[k+1] {
				case 1:
					s.registerWith(w, r)
				case 2:
					s.registerWith(w, r, permOf(r))
				case 3:
					s.registerWith(w, r, permOf(r), permOf("common"))
				}
			}
			for k := range R {
				for j := range R {
					if gs[d[0]]>>(k*m+j)&1 == 1 {
						s.link(w, R[k], R[j])
					}
				}
			}
			w.State(s.cfg.Canon())
			s.verify(w, R)
			rev := make([]string, m)
			for k := range R {
				rev[m-1-k] = R[k]
			}
			s.verify(w, rev)
			for _, r := range R {
				p := "p" + r
				s.auth.AddPrincipalRole(&v2.PrincipalRole{Principal: p, Tenant: "t", Role: r})
				cl := s.cfg.Closure(r)
				for _, x := range append([]string{"common"}, R...) {
					want := false
					for y := range cl {
						want = want || s.cfg.Roles[y][permOf(x)]
					}
					w.Query(want)
					if got := s.auth.Authorize(Req{P: p, T: "t", Res: "/" + x, Act: "GET"}.real()); got != want {
						w.Failf("holder of %s: permission %q granted=%v, inherited=%v", r, permOf(x), got, want)
					}
				}
			}
		},
	}
}

// dagHistPart starts without roles, or with all of them registered.
func dagHistPart(m, depth int, warm, pre bool) core.Part {
	R := []string{"r1", "r2", "r3", "r4"}[:m]
	type op struct {
		reg    string
		parent string
		ch     []string
	}
	var ops []op
	for _, r := range R {
		ops = append(ops, op{reg: r})
	}
	for _, p := range R {
		for _, a := range R {
			ops = append(ops, op{parent: p, ch: []string{a}})
		}
	}
	for _, p := range R {
		for _, a := range R {
			for _, b := range R {
				ops = append(ops, op{parent: p, ch: []string{a, b}})
			}
		}
	}
	return core.Part{
		Name: fmt.Sprintf("histories-%d-%d-%v%s", m, depth, warm, map[bool]string{true: "-registered"}[pre]), N: core.SeqsUpTo(len(ops), depth),
		Rule: fmt.Sprintf("all sequences of <=%d of %d calls (register a role, link one or two children) over %d roles%s; resolution queries %s", depth, len(ops), m, map[bool]string{true: " registered beforehand (registering again replaces the role)"}[pre], map[bool]string{true: "after every call", false: "at the end only"}[warm]),
		Run: func(w *core.W, i int) {
			s := newDagSys()
			if pre {
				for _, r := range R {
					s.register(w, r)
				}
			}
			for _, k := range core.Seq(len(ops), depth, i) {
				o := ops[k]
				if o.reg != "" {
					s.register(w, o.reg)
				} else {
					s.link(w, o.parent, o.ch...)
				}
				if warm {
					s.verify(w, R)
				}
			}
			w.State(s.cfg.Canon())
			s.verify(w, R)
			s.verifyAuth(w, R)
		},
	}
}

func dagLadderPart(max int) core.Part {
	var at [][2]int
	for n := 1; n <= max; n++ {
		for p := 0; p < n; p++ {
			at = append(at, [2]int{n, p})
		}
	}
	return dagSizes(fmt.Sprintf("ladder-%d", max), fmt.Sprintf("1..%d roles, from each position", max), at)
}

func dagBigPart(max int) core.Part {
	var at [][2]int
	for _, n := range core.Sizes(max) {
		for _, p := range []int{0, n / 2, n - 1} {
			at = append(at, [2]int{n, p})
		}
	}
	return dagSizes(fmt.Sprintf("big-%d", max), fmt.Sprintf("%v roles, from the first, middle and last position", core.Sizes(max)), at)
}

func dagSizes(name, sizes string, at [][2]int) core.Part {
	type cs struct{ kind, n, pos int }
	var cases []cs
	for kind := 0; kind < 4; kind++ {
		for _, a := range at {
			cases = append(cases, cs{kind, a[0], a[1]})
		}
	}
	return core.Part{
		Name: name, N: len(cases),
		Rule: fmt.Sprintf("chains, fans, layered diamonds and fans of two-step chains of %s a link to the top (cycle) and one forward (no cycle)", sizes),
		Run: func(w *core.W, i int) {
			x := cases[i]
			s := newDagSys()
			var R []string
			for k := 0; k <= x.n; k++ {
				R = append(R, fmt.Sprintf("r%d", k))
				s.register(w, R[k])
			}
			switch x.kind {
			case 0:
				for k := 0; k < x.n; k++ {
					s.link(w, R[k], R[k+1])
				}
			case 1:
				s.link(w, R[0], R[1:]...)
			case 2:
				for k := 0; k+2 <= x.n; k++ {
					s.link(w, R[k], R[k+1], R[k+2])
				}
			case 3:
				for k := 1; k < x.n; k += 2 {
					s.link(w, R[0], R[k])
					s.link(w, R[k], R[k+1])
				}
			}
			s.verify(w, []string{R[0]})
			s.link(w, R[x.pos+1], R[0])
			s.link(w, R[0], R[x.n])
			s.link(w, R[x.n], "new", R[x.pos])
			s.verify(w, []string{R[0], R[x.pos], R[x.n]})
		},
	}
}

func init() {
	core.Register(&core.Check{ID: "C05", Parts: func(tier string) []core.Part {
		ps := []core.Part{dagGraphPart(3, 3), dagGraphPart(4, 2), dagHistPart(3, 3, false, false), dagHistPart(3, 3, true, false), dagHistPart(3, 3, true, true), dagPermPart(3), dagPermPart(4), dagLadderPart(40), dagBigPart(1025), dagGraphPart(5, 1)}
		if tier == "thorough" {
			ps = append(ps, dagHistPart(3, 4, true, false), dagHistPart(3, 4, false, true), dagHistPart(2, 6, true, true), dagGraphPart(5, 2), dagLadderPart(120), dagBigPart(1025))
		}
		return ps
	}})
}
