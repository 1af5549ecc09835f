package main

import (
	"strings"

	v2 "github.com/oarkflow/permission/v2"
)

// v2w is one engine with the objects the calls refer to.
type v2w struct {
	a              *v2.Authorizer
	t1, t2, t3, t4 *v2.Tenant
	ra, rb, rc, rd *v2.Role
	re, rf, rg     *v2.Role // only in the worlds of v2Batches
}

func perm(name string) *v2.Permission { return v2.NewPermission("c", "/"+name, "GET") }

func role(name string, perms ...string) *v2.Role {
	r := v2.NewRole(name)
	for _, p := range perms {
		r.AddPermission(perm(p))
	}
	return r
}

func tenant(id string, ns ...string) *v2.Tenant {
	t := v2.NewTenant(id, ns[0])
	for _, n := range ns[1:] {
		t.AddNamespace(n)
	}
	t.AddScopeToNamespace(ns[0], v2.NewScope("s1"))
	return t
}

func newV2() *v2w {
	w := &v2w{a: v2.NewAuthorizer()}
	w.ra, w.rb, w.rc, w.rd = role("ra", "a"), role("rb", "b"), role("rc", "c"), role("rd", "d")
	w.a.AddRoles(w.ra, w.rb, w.rc)
	w.a.AddChildRole("ra", "rb")
	w.t1, w.t2, w.t3, w.t4 = tenant("t1", "n1", "n2"), tenant("t2", "n1"), tenant("t3", "n1"), tenant("t4", "n1")
	w.t1.AddChildTenant(w.t2)
	w.a.AddTenants(w.t1, w.t2, w.t3)
	w.a.AddPrincipalRole(
		&v2.PrincipalRole{Principal: "u", Tenant: "t1", Role: "ra"},
		&v2.PrincipalRole{Principal: "u", Tenant: "t1", Namespace: "n1", Scope: "s1", Role: "rc"},
		&v2.PrincipalRole{Principal: "u", Tenant: "t1", Namespace: "n2", Role: "rd"}, // rd is not registered yet
		&v2.PrincipalRole{Principal: "m", Tenant: "t1", Role: "rc", ManageChildTenant: true},
		&v2.PrincipalRole{Principal: "m", Tenant: "t2", Role: "rb"},
		&v2.PrincipalRole{Principal: "m", Tenant: "t3", Role: "ra"},
		&v2.PrincipalRole{Principal: "w", Tenant: "t3", Role: "ra"},
		&v2.PrincipalRole{Principal: "w", Tenant: "t1", Role: "rb", ManageChildTenant: true},
		&v2.PrincipalRole{Principal: "w", Tenant: "t4", Role: "rc"}, // t4 is not registered yet
		&v2.PrincipalRole{Principal: "w", Tenant: "t4", Role: "ra"},
	)
	return w
}

func b2s(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func errs(err error) string {
	if err != nil {
		return "error"
	}
	return "ok"
}

func (w *v2w) auth(p, t, n, s, r string) bool {
	return w.a.Authorize(v2.Request{Principal: p, Tenant: t, Namespace: n, Scope: s, Resource: "/" + r, Action: "GET"})
}

func (w *v2w) can(p, t, n string, roles ...string) bool {
	return w.a.Can(v2.Request{Principal: p, Tenant: t, Namespace: n}, roles...)
}

var v2Requests = [][5]string{
	{"u", "t1", "n1", "", "a"}, {"u", "t1", "n1", "", "b"}, {"u", "t1", "", "", "c"}, {"u", "t1", "n1", "s1", "c"}, {"u", "t1", "n1", "s1", "a"},
	{"u", "t1", "n1", "s2", "a"}, {"u", "t1", "n2", "", "d"}, {"u", "t1", "n3", "", "a"}, {"u", "", "", "", "b"},
	{"m", "t1", "n1", "", "b"}, {"m", "t1", "n1", "", "a"}, {"m", "", "", "", "a"}, {"w", "", "", "", "a"}, {"w", "", "", "", "c"}, {"w", "t4", "n1", "", "c"}, {"x", "t1", "n1", "", "a"}, {"x", "t1", "n1", "", "c"},
	{"u", "t1", "n1", "", "e"}, {"u", "t1", "n1", "s3", "a"}, {"w", "t1", "n1", "", "c"},
}

var v2RoleQs = [][4]string{{"u", "t1", "n1", "rb"}, {"u", "t1", "n1", "rc"}, {"u", "t1", "n2", "rd"}, {"m", "t1", "n1", "rb"}, {"w", "", "", "rb"}, {"w", "", "", "rc"}, {"x", "t1", "n1", "ra"}}

func (w *v2w) questions() (l []func() string) {
	for _, q := range v2Requests {
		l = append(l, func() string { return b2s(w.auth(q[0], q[1], q[2], q[3], q[4])) })
	}
	for _, q := range v2RoleQs {
		l = append(l, func() string { return b2s(w.can(q[0], q[1], q[2], q[3])) })
	}
	return
}

func (w *v2w) state() string {
	var sb strings.Builder
	for _, id := range []string{"t1", "t2", "t3", "t4"} {
		_, ok := w.a.GetTenant(id)
		sb.WriteString(b2s(ok))
	}
	for _, id := range []string{"ra", "rb", "rc", "rd"} {
		_, ok := w.a.GetRole(id)
		sb.WriteString(b2s(ok))
	}
	if t, ok := w.a.GetDefaultTenant(); ok {
		sb.WriteString(t.ID)
	}
	return sb.String()
}

type v2op struct {
	name string
	kind kind
	f    func(w *v2w) string
}

func v2Changes() []v2op {
	ch := func(name string, f func(w *v2w) string) v2op { return v2op{name, change, f} }
	ok := func(f func(w *v2w)) func(w *v2w) string { return func(w *v2w) string { f(w); return "ok" } }
	return []v2op{
		ch("assign-x", ok(func(w *v2w) {
			w.a.AddPrincipalRole(&v2.PrincipalRole{Principal: "x", Tenant: "t1", Role: "ra"})
		})),
		ch("assign-two", ok(func(w *v2w) {
			w.a.AddPrincipalRole(&v2.PrincipalRole{Principal: "x", Tenant: "t1", Role: "rc"}, &v2.PrincipalRole{Principal: "u", Tenant: "t1", Scope: "s1", Role: "ra"})
		})),
		ch("unassign-ra", func(w *v2w) string {
			return errs(w.a.RemovePrincipalRole(v2.PrincipalRole{Principal: "u", Tenant: "t1", Role: "ra"}))
		}),
		ch("unassign-scoped", func(w *v2w) string {
			return errs(w.a.RemovePrincipalRole(v2.PrincipalRole{Scope: "s1"}))
		}),
		ch("unassign-all-ra", func(w *v2w) string {
			return errs(w.a.RemovePrincipalRole(v2.PrincipalRole{Role: "ra"}))
		}),
		ch("tenant-new", ok(func(w *v2w) { w.a.AddTenant(w.t4) })),
		ch("tenant-replace", ok(func(w *v2w) { w.a.AddTenant(tenant("t1", "n3", "n2")) })),
		ch("tenants-two", ok(func(w *v2w) {
			off := tenant("t3", "n1")
			off.Status = v2.TenantStatusBlocked
			w.a.AddTenants(off, w.t4)
		})),
		ch("role-new", ok(func(w *v2w) { w.a.AddRole(w.rd) })),
		ch("role-replace", ok(func(w *v2w) { w.a.AddRole(role("ra", "c")) })),
		ch("roles-swap", ok(func(w *v2w) { w.a.AddRoles(role("ra", "c"), role("rb"), role("rc", "a", "b")) })),
		ch("link-ra-rc", func(w *v2w) string { return errs(w.a.AddChildRole("ra", "rc")) }),
		ch("link-rc-ra", func(w *v2w) string { return errs(w.a.AddChildRole("rc", "ra")) }),
		ch("link-rc-two", func(w *v2w) string { return errs(w.a.AddChildRole("rc", "rb", "rd")) }),
		ch("link-cycle", func(w *v2w) string { return errs(w.a.AddChildRole("rb", "ra")) }),
		ch("perm-add", ok(func(w *v2w) { w.ra.AddPermission(perm("c"), perm("d")) })),
		ch("perm-add-a2", ok(func(w *v2w) { w.ra.AddPermission(perm("b"), perm("e")) })),
		ch("perm-del-two", ok(func(w *v2w) { w.ra.RemovePermission(perm("e"), perm("a")) })),
		ch("perm-add-child", ok(func(w *v2w) { w.rb.AddPermission(perm("a"), perm("c")) })),
		ch("perm-del", ok(func(w *v2w) { w.ra.RemovePermission(perm("a")) })),
		ch("perm-del-child", ok(func(w *v2w) { w.rb.RemovePermission(perm("b")) })),
		ch("perm-del-rc", ok(func(w *v2w) { w.rc.RemovePermission(perm("c")) })),
		ch("ns-add", ok(func(w *v2w) { w.t1.AddNamespace("n3") })),
		ch("ns-default", ok(func(w *v2w) { w.t1.AddNamespace("n2", true) })),
		ch("scope-add", func(w *v2w) string { return errs(w.t1.AddScopeToNamespace("n1", v2.NewScope("s2"))) }),
		ch("scope-add-two", func(w *v2w) string {
			return errs(w.t1.AddScopeToNamespace("n1", v2.NewScope("s3"), v2.NewScope("s4")))
		}),
		ch("child-add-two", ok(func(w *v2w) { w.t1.AddChildTenant(w.t4, w.t2) })),
		ch("child-add", ok(func(w *v2w) { w.t1.AddChildTenant(w.t3) })),
		ch("default-tenant", ok(func(w *v2w) { w.a.SetDefaultTenant("t1") })),
	}
}

func v2Decisions() []v2op {
	var l []v2op
	for _, q := range v2Requests {
		l = append(l, v2op{"authorize(" + strings.Join(q[:], ",") + ")", decision, func(w *v2w) string { return b2s(w.auth(q[0], q[1], q[2], q[3], q[4])) }})
	}
	for _, q := range v2RoleQs {
		l = append(l, v2op{"can(" + strings.Join(q[:], ",") + ")", decision, func(w *v2w) string { return b2s(w.can(q[0], q[1], q[2], q[3])) }})
	}
	return l
}

func v2Lookups() []v2op {
	return []v2op{
		{"get-tenant", decision, func(w *v2w) string { _, ok := w.a.GetTenant("t4"); return b2s(ok) }},
		{"get-default", decision, func(w *v2w) string {
			t, ok := w.a.GetDefaultTenant()
			if !ok {
				return "-"
			}
			return t.ID
		}},
		{"get-role", decision, func(w *v2w) string { _, ok := w.a.GetRole("rd"); return b2s(ok) }},
	}
}

// newV2b is the world of v2Batches: few objects, in which half a call shows.
func newV2b() *v2w {
	w := &v2w{a: v2.NewAuthorizer()}
	w.ra, w.rb, w.rc = role("ra", "a"), role("rb", "b"), role("rc", "c")
	w.re, w.rf, w.rg = role("re"), role("rf", "b", "a"), role("rg")
	w.a.AddRoles(w.ra, w.rb, w.rc, w.re, w.rf)
	w.t1, w.t2, w.t3 = tenant("t1", "n1"), tenant("t2", "n1"), tenant("t3", "n1")
	w.t4 = v2.NewTenant("t4") // without default: its only namespace is meant
	w.t4.AddNamespace("n1")
	w.a.AddTenants(w.t1, w.t4)
	w.a.AddPrincipalRole(
		&v2.PrincipalRole{Principal: "u", Tenant: "t1", Role: "ra", ManageChildTenant: true},
		&v2.PrincipalRole{Principal: "u", Tenant: "t1", Scope: "s1", Role: "re"},
		&v2.PrincipalRole{Principal: "u", Tenant: "t2", Scope: "s1", Role: "rb"},
		&v2.PrincipalRole{Principal: "u", Tenant: "t3", Scope: "s1", Role: "ra"},
		&v2.PrincipalRole{Principal: "v", Tenant: "t1", Scope: "s1", Role: "rc"},
		&v2.PrincipalRole{Principal: "v", Tenant: "t1", Role: "ra"},
		&v2.PrincipalRole{Principal: "w", Tenant: "t1", Role: "ra"},
		&v2.PrincipalRole{Principal: "w", Tenant: "t1", Scope: "s1", Role: "rf"},
		&v2.PrincipalRole{Principal: "w", Tenant: "t4", Role: "rc"},
	)
	return w
}

// v2Batches are calls with several parts of which some alone would give an answer that is given neither
// before nor after the call (permissions for exactly the requested scope replace the others).
func v2Batches() (l []v2op) {
	add := func(name string, f func(w *v2w)) {
		l = append(l, v2op{name, change, func(w *v2w) string { f(w); return "ok" }})
	}
	add("assign-replace", func(w *v2w) {
		w.a.AddPrincipalRole(&v2.PrincipalRole{Principal: "x", Tenant: "t1", Role: "ra"}, &v2.PrincipalRole{Principal: "x", Tenant: "t1", Scope: "s1", Role: "rc"})
	})
	add("assign-scoped-two", func(w *v2w) {
		w.a.AddPrincipalRole(&v2.PrincipalRole{Principal: "u", Tenant: "t1", Scope: "s1", Role: "rc"}, &v2.PrincipalRole{Principal: "u", Tenant: "t1", Scope: "s1", Role: "ra"})
	})
	add("unassign-scoped-and-global", func(w *v2w) { w.a.RemovePrincipalRole(v2.PrincipalRole{Principal: "v"}) })
	add("unassign-tenant", func(w *v2w) { w.a.RemovePrincipalRole(v2.PrincipalRole{Tenant: "t1"}) })
	add("perm-add-scoped", func(w *v2w) { w.re.AddPermission(perm("b"), perm("a")) })
	add("perm-add-scoped-back", func(w *v2w) { w.re.AddPermission(perm("a"), perm("b")) })
	add("perm-del-scoped", func(w *v2w) { w.rf.RemovePermission(perm("a"), perm("b")) })
	add("perm-del-scoped-back", func(w *v2w) { w.rf.RemovePermission(perm("b"), perm("a")) })
	add("link-two", func(w *v2w) { w.a.AddChildRole("re", "rb", "ra") })
	add("child-two", func(w *v2w) { w.t1.AddChildTenant(w.t2, w.t3) })
	add("ns-new-default", func(w *v2w) { w.t4.AddNamespace("n2", true) })
	add("roles-two", func(w *v2w) { w.a.AddRoles(role("re", "b", "a"), role("rf", "a")) })
	add("roles-moved", func(w *v2w) { w.a.AddRoles(role("rf", "b"), role("ra", "b"), role("rb", "a")) })
	return
}

func v2BatchDecisions() (l []v2op) {
	for _, q := range [][5]string{{"x", "t1", "n1", "s1", "a"}, {"u", "t1", "n1", "s1", "a"}, {"u", "", "", "s1", "a"}, {"v", "t1", "n1", "s1", "a"}, {"w", "t1", "n1", "s1", "a"}, {"w", "t1", "n1", "s1", "b"}, {"u", "t1", "n1", "", "a"}, {"u", "t1", "n1", "s1", "b"}, {"w", "t4", "", "", "c"}, {"w", "", "", "", "c"}} {
		l = append(l, v2op{"authorize(" + strings.Join(q[:], ",") + ")", decision, func(w *v2w) string { return b2s(w.auth(q[0], q[1], q[2], q[3], q[4])) }})
	}
	for _, q := range [][4]string{{"u", "t1", "n1", "rb"}, {"v", "t1", "n1", "rc"}, {"x", "t1", "n1", "ra"}, {"w", "t4", "", "rc"}} {
		l = append(l, v2op{"can(" + strings.Join(q[:], ",") + ")", decision, func(w *v2w) string { return b2s(w.can(q[0], q[1], q[2], q[3])) }})
	}
	return
}

func v2batch(name string, extra, tier int, warm bool, threads ...[]v2op) scenario {
	s := v2scenario("batch:"+name, vector, extra, tier, warm, threads...)
	s.build = v2build(newV2b, func(w *v2w) (l []func() string) {
		for _, d := range v2BatchDecisions() {
			l = append(l, func() string { return d.f(w) })
		}
		return
	}, warm, threads)
	return s
}

func v2scenario(name string, c claim, extra, tier int, warm bool, threads ...[]v2op) scenario {
	if warm {
		name += "+warm"
	}
	return scenario{name: name, claim: c, extra: extra, tier: tier, race: len(threads) == 2 && len(threads[0]) == 1, build: v2build(newV2, (*v2w).questions, warm, threads)}
}

func v2build(make func() *v2w, questions func(*v2w) []func() string, warm bool, threads [][]v2op) func() world {
	return func() world {
		w := make()
		if warm {
			for _, q := range questions(w) {
				q()
			}
		}
		var wd world
		for _, t := range threads {
			var cs []call
			for _, o := range t {
				cs = append(cs, call{o.name, o.kind, func() string { return o.f(w) }})
			}
			wd.threads = append(wd.threads, cs)
		}
		wd.state, wd.questions, wd.always = w.state, questions(w), 1000
		return wd
	}
}

func v2Scenarios() (l []scenario) {
	ch, de, lo := v2Changes(), v2Decisions(), v2Lookups()
	one := func(o v2op) []v2op { return []v2op{o} }
	// a decision or lookup overlapping one change, with nothing and with everything memoized
	for _, c := range ch {
		for _, d := range append(append([]v2op{}, de...), lo...) {
			for _, warm := range []bool{false, true} {
				l = append(l, v2scenario("decision-change:"+d.name+"|"+c.name, vector, 0, 0, warm, one(d), one(c)))
			}
		}
	}
	// a decision overlapping a call of which one part alone would show
	bs, bd := v2Batches(), v2BatchDecisions()
	for _, b := range bs {
		for _, d := range bd {
			for _, warm := range []bool{false, true} {
				l = append(l, v2batch(d.name+"|"+b.name, 0, 0, warm, one(d), one(b)))
			}
		}
	}
	for i, b := range bs {
		for _, b2 := range bs[i:] {
			l = append(l, v2batch(b.name+"|"+b2.name, 0, 1, true, one(b), one(b2)))
		}
	}
	// two changes
	for i, c := range ch {
		for _, c2 := range ch[i:] {
			for _, warm := range []bool{false, true} {
				t := 1
				if warm {
					t = 0
				}
				l = append(l, v2scenario("change-change:"+c.name+"|"+c2.name, vector, 0, t, warm, one(c), one(c2)))
			}
		}
	}
	// two decisions
	for i, d := range de {
		for _, d2 := range de[i:] {
			l = append(l, v2scenario("decision-decision:"+d.name+"|"+d2.name, vector, 0, 0, false, one(d), one(d2)))
			l = append(l, v2scenario("decision-decision:"+d.name+"|"+d2.name, vector, 0, 1, true, one(d), one(d2)))
		}
	}
	// two decisions in a row overlapping one change: the second is never older than the first
	pick := []int{0, 1, 3, 8, 9, 11, 13, 19, 20, 21, 23, 25}
	for _, c := range ch {
		for i, x := range pick {
			y := pick[(i+1)%len(pick)]
			l = append(l, v2scenario("decisions-change:"+de[x].name+";"+de[y].name+"|"+c.name, vector, -1, 0, true, []v2op{de[x], de[y]}, one(c)))
			l = append(l, v2scenario("decisions-change:"+de[x].name+";"+de[x].name+"|"+c.name, vector, -1, 1, false, []v2op{de[x], de[x]}, one(c)))
		}
	}
	// a change, then a decision, overlapping another change
	for i, c := range ch {
		for k, c2 := range ch {
			d := de[pick[(i+k)%len(pick)]]
			l = append(l, v2scenario("change;decision-change:"+c.name+";"+d.name+"|"+c2.name, vector, -1, 0, true, []v2op{c, d}, one(c2)))
		}
	}
	// two threads of decisions and one change
	for _, c := range ch {
		for i, x := range pick {
			y := pick[(i+3)%len(pick)]
			t := 1
			if i%4 == 0 {
				t = 0
			}
			l = append(l, v2scenario("decision-decision-change:"+de[x].name+"|"+de[y].name+"|"+c.name, vector, -1, t, true, one(de[x]), one(de[y]), one(c)))
		}
	}
	// three changes
	for i := range ch {
		for _, st := range []int{1, 7} {
			a, b, c := ch[i], ch[(i+st)%len(ch)], ch[(i+2*st)%len(ch)]
			l = append(l, v2scenario("change-change-change:"+a.name+"|"+b.name+"|"+c.name, finals, -1, 0, false, one(a), one(b), one(c)))
		}
	}
	return
}
