package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/oarkflow/permission"
)

type rootw struct {
	m              *permission.RoleManager
	t1, t2, t3, t4 *permission.Tenant
	r1, r2, r3     *permission.Role
	g, h           *permission.AttributeGroup
	// two objects per kind with the same, not yet registered id
	tn [2]*permission.Tenant
	pn [2]*permission.Principal
	rn [2]*permission.Role
	nn [2]*permission.Namespace
	sn [2]*permission.Scope
	an [2]*permission.Attribute
	gn [2]*permission.AttributeGroup
}

func attr(n string) *permission.Attribute { return permission.NewAttribute("/"+n, "GET") }

func newRoot() *rootw {
	w := &rootw{m: permission.New()}
	m := w.m
	for _, p := range []string{"p", "q"} {
		m.AddPrincipal(permission.NewPrincipal(p))
	}
	for _, n := range []string{"n1", "n2"} {
		m.AddNamespace(permission.NewNamespace(n))
	}
	for _, s := range []string{"s1", "s2"} {
		m.AddScope(permission.NewScope(s))
	}
	w.r1, w.r2, w.r3 = permission.NewRole("r1"), permission.NewRole("r2"), permission.NewRole("r3")
	m.AddRoles(w.r1, w.r2, w.r3)
	w.g = permission.NewAttributeGroup("g")
	w.g.AddAttributes(attr("a"), attr("b"), attr("c"))
	m.AddAttributeGroup(w.g)
	w.h = permission.NewAttributeGroup("h")
	w.h.AddAttributes(attr("e"))
	w.r1.AddPermission("g", attr("a"))
	w.r2.AddPermission("g", attr("b"))
	w.r3.AddPermission("k", attr("k"))
	w.r1.AddDescendant(w.r2)
	w.t1, w.t2, w.t3, w.t4 = permission.NewTenant("t1"), permission.NewTenant("t2"), permission.NewTenant("t3"), permission.NewTenant("t4")
	m.AddTenants(w.t1, w.t2, w.t3, w.t4)
	w.t1.AddDescendant(w.t2)
	w.t1.AddPrincipalWithRole("p", "r1", true)
	w.t3.AddScopeToPrincipal("q", "s1", false) // q reaches t3 without a role
	for i := range 2 {
		w.tn[i], w.pn[i], w.rn[i] = permission.NewTenant("new"), permission.NewPrincipal("new"), permission.NewRole("new")
		w.nn[i], w.sn[i], w.an[i] = permission.NewNamespace("new"), permission.NewScope("new"), permission.NewAttribute("/new", "GET")
		w.gn[i] = permission.NewAttributeGroup("new")
	}
	return w
}

func which[T comparable](x T, l [2]T) string {
	switch x {
	case l[0]:
		return "first"
	case l[1]:
		return "second"
	}
	return "other"
}

func (w *rootw) auth(p, t, n, s, g, a string) bool {
	var o []func(*permission.Option)
	if t != "" {
		o = append(o, permission.WithTenant(t))
	}
	if n != "" {
		o = append(o, permission.WithNamespace(n))
	}
	if s != "" {
		o = append(o, permission.WithScope(s))
	}
	if a != "" {
		o = append(o, permission.WithAttributeGroup(g), permission.WithActivity("/"+a+" GET"))
	}
	return w.m.Authorize(p, o...)
}

var rootRequests = [][6]string{
	{"p", "t1", "", "", "", ""}, {"p", "t2", "", "", "", ""}, {"p", "t1", "", "", "g", "a"}, {"p", "t1", "", "", "g", "b"}, {"p", "t2", "", "", "g", "a"}, {"p", "t3", "", "", "g", "a"},
	{"p", "t1", "n1", "", "", ""}, {"p", "t1", "n1", "", "g", "a"}, {"p", "t1", "n1", "", "g", "b"}, {"p", "t1", "", "s1", "g", "b"}, {"p", "t1", "n1", "s1", "g", "c"}, {"p", "t1", "", "", "h", "d"}, {"p", "t1", "", "", "h", "e"}, {"p", "t1", "", "", "k", "k"},
	{"q", "t3", "", "", "", ""}, {"q", "t3", "", "", "g", "a"}, {"q", "t3", "", "", "g", "b"}, {"q", "t3", "n1", "", "g", "a"}, {"q", "t3", "n1", "", "g", "b"}, {"q", "t3", "", "s1", "g", "a"}, {"q", "t3", "", "s1", "g", "b"},
	{"q", "t3", "n1", "s1", "g", "b"}, {"q", "", "n1", "s1", "g", "a"}, {"q", "", "n1", "s1", "g", "b"}, {"q", "", "n1", "s1", "", ""}, {"q", "t3", "n1", "s1", "", ""}, {"q", "t4", "", "", "g", "a"}, {"q", "t1", "", "", "g", "a"}, {"new", "t1", "", "", "", ""},
}

func (w *rootw) questions() (l []func() string) {
	for _, q := range rootRequests {
		l = append(l, func() string { return b2s(w.auth(q[0], q[1], q[2], q[3], q[4], q[5])) })
	}
	return
}

func (w *rootw) state() string {
	var sb strings.Builder
	var rows []string
	for _, d := range w.m.Data().Data() {
		rows = append(rows, fmt.Sprint(d.Tenant, d.Namespace, d.Scope, d.Principal, d.Role, d.ManageDescendants))
	}
	sort.Strings(rows)
	fmt.Fprint(&sb, " rows=", rows)
	for _, r := range []*permission.Role{w.r1, w.r2, w.r3} {
		var l []string
		for g, as := range r.GetPermissions() {
			for _, a := range as {
				l = append(l, g+":"+a.String())
			}
		}
		var ds []string
		for _, d := range r.GetDescendantRoles() {
			ds = append(ds, d.ID())
		}
		sort.Strings(l)
		sort.Strings(ds)
		fmt.Fprint(&sb, " ", r.ID(), l, ds)
	}
	for _, t := range []*permission.Tenant{w.t1, w.t2, w.t3, w.t4} {
		var ds []string
		for _, d := range t.GetDescendants() {
			ds = append(ds, fmt.Sprint(d))
		}
		sort.Strings(ds)
		fmt.Fprint(&sb, " ", t.ID(), ds)
	}
	fmt.Fprintf(&sb, " %+v", w.m.Summary())
	if x, ok := w.m.GetTenant("new"); ok {
		sb.WriteString(" tenant=" + which(x, w.tn))
	}
	if x, ok := w.m.GetPrincipal("new"); ok {
		sb.WriteString(" principal=" + which(x, w.pn))
	}
	if x, ok := w.m.GetRole("new"); ok {
		sb.WriteString(" role=" + which(x, w.rn))
	}
	if x, ok := w.m.GetNamespace("new"); ok {
		sb.WriteString(" namespace=" + which(x, w.nn))
	}
	if x, ok := w.m.GetScope("new"); ok {
		sb.WriteString(" scope=" + which(x, w.sn))
	}
	if x, ok := w.m.GetAttribute("/new GET"); ok {
		sb.WriteString(" attribute=" + which(x, w.an))
	}
	if x, ok := w.m.GetAttributeGroup("new"); ok {
		sb.WriteString(" group=" + which(x, w.gn))
	}
	return sb.String()
}

type rootop struct {
	name string
	kind kind
	f    func(w *rootw) string
	grp  string // operations of a group touch the same things; pairs across groups are thorough only
	once bool   // not to be run twice in one scenario
}

func rootChanges() (l []rootop) {
	ch := func(grp, name string, f func(w *rootw) string) { l = append(l, rootop{name, change, f, grp, false}) }
	ok := func(f func(w *rootw)) func(w *rootw) string { return func(w *rootw) string { f(w); return "ok" } }
	for i := range 2 {
		n := [2]string{"first", "second"}[i]
		ch("reg", "tenant-"+n, func(w *rootw) string { return which(w.m.AddTenant(w.tn[i]), w.tn) })
		l[len(l)-1].once = true // an object is registered once
		ch("reg", "principal-"+n, func(w *rootw) string { return which(w.m.AddPrincipal(w.pn[i]), w.pn) })
		ch("reg", "role-"+n, func(w *rootw) string { return which(w.m.AddRole(w.rn[i]), w.rn) })
		ch("reg", "namespace-"+n, func(w *rootw) string { return which(w.m.AddNamespace(w.nn[i]), w.nn) })
		ch("reg", "scope-"+n, func(w *rootw) string { return which(w.m.AddScope(w.sn[i]), w.sn) })
		ch("reg", "attribute-"+n, func(w *rootw) string { return which(w.m.AddAttribute(w.an[i]), w.an) })
		ch("reg", "group-"+n, func(w *rootw) string { return which(w.m.AddAttributeGroup(w.gn[i]), w.gn) })
	}
	ch("rows", "assign-q-t3", func(w *rootw) string { return errs(w.t3.AddPrincipalWithRole("q", "r1", false)) })
	ch("rows", "assign-q-t4-manage", func(w *rootw) string { return errs(w.t4.AddPrincipalWithRole("q", "r1", true)) })
	ch("rows", "assign-new", func(w *rootw) string { return errs(w.t1.AddPrincipalWithRole("new", "r1", false)) })
	ch("rows", "assign-several", func(w *rootw) string { return errs(w.t3.AddPrincipal("q", false, "r3", "r1")) })
	ch("rows", "assign-q-in-n1", ok(func(w *rootw) { w.t3.AddPrincipalInNamespace("q", "n1", "r1") }))
	ch("rows", "scope-to-p", func(w *rootw) string { return errs(w.t1.AddScopeToPrincipal("p", "s1", false)) })
	ch("rows", "scopes-to-q", func(w *rootw) string { return errs(w.t3.AssignScopesToPrincipal("q", true, "s1", "s2")) })
	ch("rows", "t1-has-r2", ok(func(w *rootw) { w.t1.AddRole(w.r2) }))
	ch("rows", "t3-has-r2", ok(func(w *rootw) { w.t3.AddRoles(w.r2, w.r3) }))
	ch("rows", "t1-has-n1", ok(func(w *rootw) { w.t1.AddNamespace(permission.NewNamespace("n1")) }))
	ch("rows", "t3-n1-has-s1", ok(func(w *rootw) { w.t3.AddScopesToNamespace("n1", "s1") }))
	ch("rows", "t1-has-s1", ok(func(w *rootw) { w.t1.AddScope(permission.NewScope("s1")) }))
	ch("rows", "row-q-t3-n1-s1", ok(func(w *rootw) {
		w.m.AddData(&permission.Data{Tenant: "t3", Namespace: "n1", Scope: "s1", Principal: "q", Role: "r1"})
	}))
	ch("tree", "t4-above-t3", func(w *rootw) string { return errs(w.t4.AddDescendant(w.t3)) })
	ch("tree", "t2-above-t3", func(w *rootw) string { return errs(w.t2.AddDescendant(w.t3)) })
	ch("tree", "t2-above-t3-t4", func(w *rootw) string { return errs(w.t2.AddDescendant(w.t3, w.t4)) })
	ch("perm", "r1-c", func(w *rootw) string { return errs(w.r1.AddPermission("g", attr("c"))) })
	ch("perm", "r1-b", func(w *rootw) string { return errs(w.r1.AddPermission("g", attr("b"))) })
	ch("perm", "r1-h-d", func(w *rootw) string { return errs(w.r1.AddPermission("h", attr("d"))) })
	ch("perm", "r1-h-e", func(w *rootw) string { return errs(w.r1.AddPermission("h", attr("e"), attr("f"))) })
	ch("perm", "r1-group-h", func(w *rootw) string { return errs(w.r1.AddPermissionResourceGroup(w.h)) })
	ch("perm", "h-grows", ok(func(w *rootw) { w.h.AddAttributes(attr("x")) }))
	ch("perm", "r3-g-b", func(w *rootw) string { return errs(w.m.AddPermissionsToRole("r3", "g", attr("b"))) })
	ch("perm", "r3-g-d", func(w *rootw) string { return errs(w.m.AddPermissionsToRole("r3", "g", attr("d"))) })
	ch("perm", "g-d", ok(func(w *rootw) { w.g.AddAttributes(attr("d")) }))
	ch("link", "r1-above-r3", func(w *rootw) string { return errs(w.r1.AddDescendant(w.r3)) })
	ch("link", "r2-above-r3", func(w *rootw) string { return errs(w.r2.AddDescendant(w.r3)) })
	return
}

func rootDecisions() (l []rootop) {
	for _, q := range rootRequests {
		l = append(l, rootop{name: "authorize(" + strings.Join(q[:], ",") + ")", kind: decision, f: func(w *rootw) string { return b2s(w.auth(q[0], q[1], q[2], q[3], q[4], q[5])) }})
	}
	return
}

func rootQueries() []rootop {
	q := func(name string, f func(w *rootw)) rootop {
		return rootop{name: name, kind: query, f: func(w *rootw) string { f(w); return "" }}
	}
	return []rootop{
		q("available-permissions", func(w *rootw) { w.m.GetRolesForAvailablePermissions() }),
		q("implicit-permissions", func(w *rootw) { w.r1.GetAllImplicitPermissions(); w.r1.GetResourceGroupPermissions("h") }),
		q("summary", func(w *rootw) { _ = w.m.String(); w.m.SummaryMap() }),
		q("as-string", func(w *rootw) { w.m.AsString() }),
		q("registries", func(w *rootw) {
			w.m.Roles()
			w.m.Tenants()
			w.m.Principals()
			w.m.Namespaces()
			w.m.Scopes()
			w.m.Attributes()
		}),
		q("reach", func(w *rootw) { w.m.GetImplicitTenants("q"); w.m.GetDescendantTenant("t4"); w.m.TenantChildren("t1") }),
		q("search", func(w *rootw) {
			w.m.Data().Search(&permission.Data{Tenant: "t3"})
			w.m.Data().First(&permission.Data{Principal: "q"})
		}),
	}
}

func rootScenario(name string, c claim, extra, tier int, threads ...[]rootop) scenario {
	return scenario{name: name, claim: c, extra: extra, tier: tier, race: true, build: func() world {
		w := newRoot()
		var wd world
		for _, t := range threads {
			var cs []call
			for _, o := range t {
				cs = append(cs, call{o.name, o.kind, func() string { return o.f(w) }})
			}
			wd.threads = append(wd.threads, cs)
		}
		wd.state, wd.questions, wd.always = w.state, w.questions(), 1
		return wd
	}}
}

func rootScenarios() (l []scenario) {
	ch, de, qu := rootChanges(), rootDecisions(), rootQueries()
	one := func(o rootop) []rootop { return []rootop{o} }
	for _, c := range ch {
		for i, d := range de {
			s := rootScenario("decision-change:"+d.name+"|"+c.name, each, 0, 0, one(d), one(c))
			s.race = i == 4 || i == 8 || i == 23 // the other decisions run through the same code
			l = append(l, s)
		}
		for _, q := range qu {
			l = append(l, rootScenario("query-change:"+q.name+"|"+c.name, each, 0, 0, one(q), one(c)))
		}
	}
	for i, c := range ch {
		for k, c2 := range ch[i:] {
			if k == 0 && c.once {
				continue
			}
			l = append(l, rootScenario("change-change:"+c.name+"|"+c2.name, each, 0, 0, one(c), one(c2)))
		}
	}
	name := func(l []rootop) string {
		var n []string
		for _, o := range l {
			n = append(n, o.name)
		}
		return strings.Join(n, ";")
	}
	add := func(grp string, extra, tier int, race bool, threads ...[]rootop) {
		var n []string
		for _, t := range threads {
			n = append(n, name(t))
		}
		s := rootScenario(grp+":"+strings.Join(n, "|"), each, extra, tier, threads...)
		s.race = race
		l = append(l, s)
	}
	pick := []int{3, 4, 8, 10, 12, 16, 18, 20, 23, 26}
	for i, c := range ch {
		// a change is seen by the thread that made it, whatever overlaps
		for k, c2 := range ch {
			if i == k && c.once {
				continue
			}
			t := 1
			if c2.grp == c.grp {
				t = 0
			}
			add("change;decision-change", -1, t, false, []rootop{c, de[pick[(i+k)%len(pick)]]}, one(c2))
		}
		// two decisions in a row: what the first sees granted the second does not lose
		for k, x := range pick {
			add("decisions-change", -1, k%2, false, []rootop{de[x], de[pick[(k+1)%len(pick)]]}, one(c))
		}
		// a decision overlapping two additions made one after the other
		for k, c2 := range ch {
			if i == k || k%3 != i%3 {
				continue
			}
			add("decision-changes", -1, (k/3)%2, false, one(de[pick[(i+k)%len(pick)]]), []rootop{c, c2})
		}
		// three threads of changes
		for _, st := range []int{1, 5} {
			c2, c3 := ch[(i+st)%len(ch)], ch[(i+2*st)%len(ch)]
			add("change-change-change", -1, 0, false, one(c), one(c2), one(c3))
		}
		// a decision and two threads of changes
		for _, st := range []int{2, 7} {
			c2 := ch[(i+st)%len(ch)]
			add("decision-change-change", -1, 0, false, one(de[pick[i%len(pick)]]), one(c), one(c2))
		}
	}
	for i, d := range de {
		for k, d2 := range de[i:] {
			add("decision-decision", -1, 1-(k+1)%2, false, one(d), one(d2))
		}
	}
	return
}
