package rolec

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"

	permission "github.com/oarkflow/permission"
	v1 "github.com/oarkflow/permission/v1"
	v2 "github.com/oarkflow/permission/v2"

	"verif/mc/core"
)

// kind is one catalogue: add returns what the engine returned, many adds through the plural call.
type kind struct {
	name string
	mk   func(id string) any
	add  func(x any) any
	many func(xs ...any)
	get  func(id string) (any, bool)
	size func() int
	list func() []string // nil if there is no listing
	sum  string          // key in the summary
}

func conv[T any](xs []any) []T {
	l := make([]T, len(xs))
	for i, x := range xs {
		l[i] = x.(T)
	}
	return l
}

func get2[T any](f func(string) (T, bool)) func(string) (any, bool) {
	return func(id string) (any, bool) { x, ok := f(id); return x, ok }
}

type cat struct {
	kinds   []kind
	summary func() []map[string]any
}

func plain(m map[string]any) map[string]any {
	o := map[string]any{}
	for k, v := range m {
		o[k] = fmt.Sprint(v)
	}
	return o
}

// text reads an engine's textual summary.
func text(s string) map[string]any {
	var m map[string]any
	if err := json.Unmarshal([]byte(s), &m); err != nil {
		return map[string]any{"not JSON": s}
	}
	return plain(m)
}

func rootCat() cat {
	m := permission.New()
	return cat{[]kind{
		{"tenant", func(id string) any { return permission.NewTenant(id) }, func(x any) any { return m.AddTenant(x.(*permission.Tenant)) }, func(xs ...any) { m.AddTenants(conv[*permission.Tenant](xs)...) }, get2(m.GetTenant), m.TotalTenants, m.Tenants, "tenants"},
		{"namespace", func(id string) any { return permission.NewNamespace(id) }, func(x any) any { return m.AddNamespace(x.(*permission.Namespace)) }, func(xs ...any) { m.AddNamespaces(conv[*permission.Namespace](xs)...) }, get2(m.GetNamespace), m.TotalNamespaces, m.Namespaces, "namespaces"},
		{"scope", func(id string) any { return permission.NewScope(id) }, func(x any) any { return m.AddScope(x.(*permission.Scope)) }, func(xs ...any) { m.AddScopes(conv[*permission.Scope](xs)...) }, get2(m.GetScope), m.TotalScopes, m.Scopes, "scopes"},
		{"principal", func(id string) any { return permission.NewPrincipal(id) }, func(x any) any { return m.AddPrincipal(x.(*permission.Principal)) }, func(xs ...any) { m.AddPrincipals(conv[*permission.Principal](xs)...) }, get2(m.GetPrincipal), m.TotalPrincipals, m.Principals, "principals"},
		{"role", func(id string) any { return permission.NewRole(id) }, func(x any) any { return m.AddRole(x.(*permission.Role)) }, func(xs ...any) { m.AddRoles(conv[*permission.Role](xs)...) }, get2(m.GetRole), m.TotalRoles, m.Roles, "roles"},
		{"attribute", func(id string) any { return permission.NewAttribute(id, "") }, func(x any) any { return m.AddAttribute(x.(*permission.Attribute)) }, func(xs ...any) { m.AddAttributes(conv[*permission.Attribute](xs)...) }, func(id string) (any, bool) { x, ok := m.GetAttribute(id + " "); return x, ok }, m.TotalAttributes, m.Attributes, "attributes"},
		{"group", func(id string) any { return permission.NewAttributeGroup(id) }, func(x any) any { return m.AddAttributeGroup(x.(*permission.AttributeGroup)) }, func(xs ...any) { m.AddAttributeGroups(conv[*permission.AttributeGroup](xs)...) }, get2(m.GetAttributeGroup), m.TotalAttributeGroups, nil, "attribute_groups"},
	}, func() []map[string]any {
		s := m.Summary()
		return []map[string]any{text(m.String()), plain(m.SummaryMap()), plain(map[string]any{"tenants": s.Tenants, "namespaces": s.Namespaces, "scopes": s.Scopes, "principals": s.Principals, "roles": s.Roles, "attribute_groups": s.AttributeGroups, "attributes": s.Attributes})}
	}}
}

func v1Cat() cat {
	m := v1.New()
	n := func(f func() uintptr) func() int { return func() int { return int(f()) } }
	return cat{[]kind{
		{"tenant", func(id string) any { return v1.NewTenant(id) }, func(x any) any { return m.AddTenant(x.(*v1.Tenant)) }, func(xs ...any) { m.AddTenants(conv[*v1.Tenant](xs)...) }, get2(m.GetTenant), n(m.TotalTenants), m.Tenants, "tenants"},
		{"namespace", func(id string) any { return v1.NewNamespace(id) }, func(x any) any { return m.AddNamespace(x.(*v1.Namespace)) }, func(xs ...any) { m.AddNamespaces(conv[*v1.Namespace](xs)...) }, get2(m.GetNamespace), n(m.TotalNamespaces), m.Namespaces, "namespaces"},
		{"scope", func(id string) any { return v1.NewScope(id) }, func(x any) any { return m.AddScope(x.(*v1.Scope)) }, func(xs ...any) { m.AddScopes(conv[*v1.Scope](xs)...) }, get2(m.GetScope), n(m.TotalScopes), m.Scopes, "scopes"},
		{"principal", func(id string) any { return v1.NewPrincipal(id) }, func(x any) any { return m.AddPrincipal(x.(*v1.Principal)) }, func(xs ...any) { m.AddPrincipals(conv[*v1.Principal](xs)...) }, get2(m.GetPrincipal), n(m.TotalPrincipals), m.Principals, "principals"},
		{"role", func(id string) any { return v1.NewRole(id) }, func(x any) any { return m.AddRole(x.(*v1.Role)) }, func(xs ...any) { m.AddRoles(conv[*v1.Role](xs)...) }, get2(m.GetRole), n(m.TotalRoles), m.Roles, "roles"},
		{"attribute", func(id string) any { return v1.NewAttribute(id, "") }, func(x any) any { return m.AddAttribute(x.(*v1.Attribute)) }, func(xs ...any) { m.AddAttributes(conv[*v1.Attribute](xs)...) }, func(id string) (any, bool) { x, ok := m.GetAttribute(id + " "); return x, ok }, n(m.TotalAttributes), m.Attributes, "attributes"},
		{"group", func(id string) any { return v1.NewAttributeGroup(id) }, func(x any) any { return m.AddAttributeGroup(x.(*v1.AttributeGroup)) }, func(xs ...any) { m.AddAttributeGroups(conv[*v1.AttributeGroup](xs)...) }, get2(m.GetAttributeGroup), n(m.TotalAttributeGroups), nil, "attribute_groups"},
	}, func() []map[string]any {
		s := m.Summary()
		return []map[string]any{text(m.String()), plain(m.SummaryMap()), plain(map[string]any{"tenants": s.Tenants, "namespaces": s.Namespaces, "scopes": s.Scopes, "principals": s.Principals, "roles": s.Roles, "attribute_groups": s.AttributeGroups, "attributes": s.Attributes})}
	}}
}

var cats = map[string]func() cat{"root": rootCat, "v1": v1Cat}

type book struct {
	w     *core.W
	c     cat
	first []map[string]any // per kind: id -> first registered object
}

func newBook(w *core.W, eng string) *book {
	b := &book{w: w, c: cats[eng]()}
	for range b.c.kinds {
		b.first = append(b.first, map[string]any{})
	}
	return b
}

func (b *book) add(k int, id string) {
	kd := b.c.kinds[k]
	x := kd.mk(id)
	r := kd.add(x)
	b.w.Op(1)
	f, ok := b.first[k][id]
	b.w.Logf("register %s %q (seen before: %v)", kd.name, id, ok)
	if !ok {
		f = x
		b.first[k][id] = x
	}
	if r != f {
		b.w.Failf("registering %s %q did not return the entry registered first", kd.name, id)
	}
}

func (b *book) addMany(k int, ids ...string) {
	kd := b.c.kinds[k]
	var xs []any
	for _, id := range ids {
		x := kd.mk(id)
		xs = append(xs, x)
		if _, ok := b.first[k][id]; !ok {
			b.first[k][id] = x
		}
	}
	b.w.Op(1)
	b.w.Logf("register %ss %q", kd.name, ids)
	kd.many(xs...)
}

func (b *book) check(ids []string) {
	sums := b.c.summary()
	for k, kd := range b.c.kinds {
		want := b.first[k]
		for _, id := range ids {
			x, ok := kd.get(id)
			f, reg := want[id]
			b.w.Query(reg)
			if i, has := x.(interface{ ID() string }); ok && has && i.ID() != id {
				b.w.Failf("the entry looked up as %s %q reports id %q", kd.name, id, i.ID())
			}
			if ok != reg || reg && x != f {
				b.w.Failf("lookup of %s %q: found %v (%v), registered %v", kd.name, id, ok, reflect.TypeOf(x), reg)
			}
		}
		if n := kd.size(); n != len(want) {
			b.w.Failf("total of %ss is %d, want %d", kd.name, n, len(want))
		}
		if kd.list != nil {
			l := kd.list()
			var w2 []string
			for id := range want {
				if kd.name == "attribute" {
					id += " "
				}
				w2 = append(w2, id)
			}
			sort.Strings(l)
			sort.Strings(w2)
			if fmt.Sprintf("%q", l) != fmt.Sprintf("%q", w2) {
				b.w.Failf("listing of %ss is %q, want %q", kd.name, l, w2)
			}
		}
		for _, s := range sums {
			if s[kd.sum] != fmt.Sprint(len(want)) {
				b.w.Failf("summary says %v %s, want %d", s[kd.sum], kd.sum, len(want))
			}
		}
	}
}

func reg19(eng string, depth int) core.Part {
	ids := []string{"a", "b", "A", "a "}
	const kinds = 7
	// ops: add one id, add two ids at once
	var ops [][]string
	for _, x := range ids {
		ops = append(ops, []string{x})
	}
	ops = append(ops, []string{"a", "b"}, []string{"b", "a", "b"})
	n := core.SeqsUpTo(len(ops), depth)
	return core.Part{Name: eng + "-registrations", N: kinds * kinds * n, Rule: fmt.Sprintf("%s: all sequences of <=%d registrations (single and plural, repeated ids, near-equal ids), alternating between every pair of the 7 catalogues", eng, depth), Run: func(w *core.W, i int) {
		k1, k2 := i%kinds, i/kinds%kinds
		b := newBook(w, eng)
		for j, o := range core.Seq(len(ops), depth, i/kinds/kinds) {
			k := k1
			if j%2 == 1 {
				k = k2
			}
			if len(ops[o]) == 1 {
				b.add(k, ops[o][0])
			} else {
				b.addMany(k, ops[o]...)
			}
		}
		w.State(fmt.Sprint(eng, i))
		b.check(append(ids, "zz"))
	}}
}

func size19(eng string, max int) core.Part {
	return core.Part{Name: eng + "-sizes", N: max, Rule: fmt.Sprintf("%s: catalogues of 1..%d entries, every second one registered twice", eng, max), Run: func(w *core.W, i int) {
		b := newBook(w, eng)
		var ids []string
		for j := 0; j <= i; j++ {
			id := fmt.Sprintf("id%d", j)
			ids = append(ids, id)
			for k := range b.c.kinds {
				b.add(k, id)
				if j%2 == 0 {
					b.add(k, id)
				}
			}
		}
		w.State(fmt.Sprint(eng, "size", i))
		b.check(append(ids, "zz"))
	}}
}

// ids19: two confusable ids stay two entries, in every catalogue.
func ids19(eng string) core.Part {
	return core.Part{Name: eng + "-confusable-ids", N: len(core.OddPairs), Rule: fmt.Sprintf("%s: every ordered pair of %d confusable ids in all 7 catalogues, the first registered, the second looked up, registered, the first registered again", eng, len(core.OddIDs)), Run: func(w *core.W, i int) {
		p := core.OddPairs[i]
		b := newBook(w, eng)
		for _, id := range []string{p[0], "", p[1], p[0]} {
			if id != "" {
				for k := range b.c.kinds {
					b.add(k, id)
				}
			}
			b.check(p[:])
		}
		w.State(fmt.Sprintf("%s%q", eng, p))
	}}
}

// refuse19: with one of two confusable ids known, naming the other is refused without effect.
func refuse19() core.Part {
	return core.Part{Name: "confusable-refusals", N: len(core.OddPairs) * 6, Rule: fmt.Sprintf("every ordered pair of %d confusable ids, the first a known role, group, permission (both engines), principal, role or scope (root): granting or assigning with the second is refused and leaves nothing, with the first accepted", len(core.OddIDs)), Run: func(w *core.W, i int) {
		p := core.OddPairs[i/6]
		k := i % 6
		w.State(fmt.Sprintf("%d%q", k, p))
		pick := func(kind int, plain string, second int) string {
			if k != kind {
				return plain
			}
			return p[second]
		}
		if k < 3 {
			e, f := permission.New(), v1.New()
			rr, vr := permission.NewRole(pick(0, "r", 0)), v1.NewRole(pick(0, "r", 0))
			e.AddRole(rr)
			f.AddRole(vr)
			g, h := permission.NewAttributeGroup(pick(1, "g", 0)), v1.NewAttributeGroup(pick(1, "g", 0))
			g.AddAttributes(permission.NewAttribute(pick(2, "/a", 0), "GET"))
			h.AddAttributes(v1.NewAttribute(pick(2, "/a", 0), "GET"))
			e.AddAttributeGroup(g)
			f.AddAttributeGroup(h)
			for second := 1; second >= 0; second-- {
				e1 := e.AddPermissionsToRole(pick(0, "r", second), pick(1, "g", second), permission.NewAttribute(pick(2, "/a", second), "GET"))
				e2 := f.AddPermissionsToRole(pick(0, "r", second), pick(1, "g", second), v1.NewAttribute(pick(2, "/a", second), "GET"))
				w.Op(2)
				w.Query(second == 0)
				if (e1 == nil) != (second == 0) || (e2 == nil) != (second == 0) {
					w.Failf("granting %q (known: %q): root %v, v1 %v", p[second], p[0], e1, e2)
				}
				if a, b := len(rr.GetPermissions()), len(vr.GetPermissions()); a != 1-second || b != 1-second {
					w.Failf("after granting %q (known: %q) the root role has %d groups, the v1 role %d", p[second], p[0], a, b)
				}
			}
			return
		}
		e := permission.New()
		t := e.AddTenant(permission.NewTenant("t"))
		e.AddPrincipal(permission.NewPrincipal(pick(3, "p", 0)))
		e.AddRole(permission.NewRole(pick(4, "r", 0)))
		e.AddScope(permission.NewScope(pick(5, "s", 0)))
		for second := 1; second >= 0; second-- {
			var err error
			if k == 5 || k == 3 && i%2 == 0 {
				err = t.AddScopeToPrincipal(pick(3, "p", second), pick(5, "s", second), true)
			} else {
				err = t.AddPrincipalWithRole(pick(3, "p", second), pick(4, "r", second), true)
			}
			w.Op(1)
			w.Query(second == 0)
			if (err == nil) != (second == 0) || len(e.Data().Data()) != 1-second {
				w.Failf("assigning %q (known: %q): error %v, %d records", p[second], p[0], err, len(e.Data().Data()))
			}
		}
	}}
}

// grants19: AddPermissionsToRole with every combination of known and unknown arguments.
func grants19() core.Part {
	attrs := []string{"/1 GET", "/2 GET", "/3 GET", "/out GET"}
	lists := core.SeqsUpTo(len(attrs), 3)
	return core.Part{Name: "grants", N: 2 * 2 * 2 * 2 * 2 * lists, Rule: "both engines x role known x group known x role has the group already x role locked x all lists of <=3 of 4 permissions (one outside the group); effects are all or nothing", Run: func(w *core.W, i int) {
		d := core.Mixed(i, 2, 2, 2, 2, 2, lists)
		m := newRM()
		var list []string
		out := false
		for _, x := range core.Seq(len(attrs), 3, d[5]) {
			list = append(list, attrs[x])
			out = out || x == 3
		}
		want := d[1] == 1 && d[2] == 1 && !out && d[4] == 0
		var r role
		var err error
		w.Logf("engine %s, role known %v, group known %v, has group %v, locked %v, permissions %q", engines[d[0]].name, d[1] == 1, d[2] == 1, d[3] == 1, d[4] == 1, list)
		if d[3] == 1 {
			m.grant("r", "g", "/0 GET")
		}
		before := perms(m.own["r"])
		if d[0] == 0 {
			e := permission.New()
			rr := permission.NewRole("r")
			r = rootRole{rr}
			if d[1] == 1 {
				e.AddRole(rr)
			}
			e.AddRole(permission.NewRole("other"))
			g := permission.NewAttributeGroup("g")
			g.AddAttributes(rattr("/1 GET"), rattr("/2 GET"), rattr("/3 GET"))
			o := permission.NewAttributeGroup("o")
			o.AddAttributes(rattr("/out GET"))
			e.AddAttributeGroup(o)
			e.AddAttribute(rattr("/out GET"))
			if d[2] == 1 {
				e.AddAttributeGroup(g)
			}
			if d[3] == 1 {
				r.Grant("g", "/0 GET")
			}
			if d[4] == 1 {
				r.Lock()
			}
			var l []*permission.Attribute
			for _, p := range list {
				l = append(l, rattr(p))
			}
			err = e.AddPermissionsToRole("r", "g", l...)
			if x, _ := e.GetRole("other"); len(x.GetPermissions()) != 0 {
				w.Failf("another role got permissions")
			}
		} else {
			e := v1.New()
			rr := v1.NewRole("r")
			r = v1Role{rr}
			if d[1] == 1 {
				e.AddRole(rr)
			}
			e.AddRole(v1.NewRole("other"))
			g := v1.NewAttributeGroup("g")
			g.AddAttributes(vattr("/1 GET"), vattr("/2 GET"), vattr("/3 GET"))
			o := v1.NewAttributeGroup("o")
			o.AddAttributes(vattr("/out GET"))
			e.AddAttributeGroup(o)
			e.AddAttribute(vattr("/out GET"))
			if d[2] == 1 {
				e.AddAttributeGroup(g)
			}
			if d[3] == 1 {
				r.Grant("g", "/0 GET")
			}
			if d[4] == 1 {
				r.Lock()
			}
			var l []*v1.Attribute
			for _, p := range list {
				l = append(l, vattr(p))
			}
			err = e.AddPermissionsToRole("r", "g", l...)
			if x, _ := e.GetRole("other"); len(x.GetPermissions()) != 0 {
				w.Failf("another role got permissions")
			}
			if ps, perr := e.GetRolePermissions("r"); (perr == nil) != (d[1] == 1) || d[1] == 1 && perms(setOf(vstr(ps))) != perms(setOf(r.Own())) {
				w.Failf("GetRolePermissions: %v, %v", ps, perr)
			}
		}
		w.Op(1)
		w.Query(want)
		if (err == nil) != want {
			w.Failf("error %v, want accepted=%v", err, want)
		}
		if want {
			m.grant("r", "g", list...)
		} else if perms(m.own["r"]) != before {
			panic("model")
		}
		if got := perms(setOf(r.Own())); got != perms(m.own["r"]) {
			w.Failf("role has %q, want %q (error %v)", got, perms(m.own["r"]), err)
		}
		w.State(fmt.Sprint(d))
	}}
}

// assign19: root assignments with every combination of known and unknown ids.
func assign19() core.Part {
	return core.Part{Name: "assignments", N: 2 * 2 * 2 * 2 * 2 * 3, Rule: "root: principal, role, scope, namespace default known or unknown, called on the tenant one by one or plural: refusals leave no record of that pair", Run: func(w *core.W, i int) {
		d := core.Mixed(i, 2, 2, 2, 2, 2, 3)
		e := permission.New()
		t := e.AddTenant(permission.NewTenant("t"))
		e.AddPrincipal(permission.NewPrincipal("other"))
		e.AddRole(permission.NewRole("r0"))
		e.AddScope(permission.NewScope("s0"))
		e.AddNamespace(permission.NewNamespace("n"))
		if d[0] == 1 {
			e.AddPrincipal(permission.NewPrincipal("p"))
		}
		if d[1] == 1 {
			e.AddRole(permission.NewRole("r"))
		}
		if d[2] == 1 {
			e.AddScope(permission.NewScope("s"))
		}
		if d[3] == 1 {
			t.SetDefaultNamespace("n")
		}
		manage := d[4] == 1
		var e1, e2 error
		switch d[5] {
		case 0:
			e1 = t.AddPrincipalWithRole("p", "r", manage)
			e2 = t.AddScopeToPrincipal("p", "s", manage)
		case 1:
			e1 = t.AddPrincipal("p", manage, "r")
			e2 = t.AssignScopesToPrincipal("p", manage, "s")
		case 2:
			e1 = t.AddPrincipal("p", manage, "r0", "r")
			e2 = t.AssignScopesToPrincipal("p", manage, "s0", "s")
		}
		w.Op(2)
		w.Logf("principal known %v, role known %v, scope known %v, default namespace %v, manage %v, form %d: %v, %v", d[0] == 1, d[1] == 1, d[2] == 1, d[3] == 1, manage, d[5], e1, e2)
		okR, okS := d[0] == 1 && d[1] == 1, d[0] == 1 && d[2] == 1
		if (e1 == nil) != okR || (e2 == nil) != okS {
			w.Failf("errors %v and %v, want accepted %v and %v", e1, e2, okR, okS)
		}
		seen := map[string]int{}
		for _, r := range e.Data().Data() {
			if r.Role == "r" || r.Scope == "s" || d[0] == 0 {
				seen[fmt.Sprint(r.Principal, r.Role, r.Scope, r.Namespace, r.ManageDescendants, r.Tenant)]++
			}
		}
		want := map[string]int{}
		put := func(role, scope any) {
			want[fmt.Sprint("p", role, scope, nil, manage, "t")] = 1
			if d[3] == 1 {
				want[fmt.Sprint("p", role, scope, "n", manage, "t")] = 1
			}
		}
		if okR {
			put("r", nil)
		}
		if okS {
			put(nil, "s")
		}
		w.Query(okR || okS)
		w.State(fmt.Sprint(d))
		if fmt.Sprint(seen) != fmt.Sprint(want) {
			w.Failf("records %v, want %v", seen, want)
		}
	}}
}

// v2reg: the latest registration is looked up.
func v2reg(depth int) core.Part {
	return core.Part{Name: "v2-registrations", N: core.SeqsUpTo(6, depth), Rule: fmt.Sprintf("v2: all sequences of <=%d registrations of fresh role and tenant objects over two ids, single and plural", depth), Run: func(w *core.W, i int) {
		a := v2.NewAuthorizer()
		rs, ts := map[string]*v2.Role{}, map[string]*v2.Tenant{}
		for _, o := range core.Seq(6, depth, i) {
			id := []string{"x", "y"}[o%2]
			w.Op(1)
			w.Logf("register #%d %s", o/2, id)
			switch o / 2 {
			case 0:
				rs[id] = a.AddRole(v2.NewRole(id))
			case 1:
				ts[id] = a.AddTenant(v2.NewTenant(id))
			case 2:
				r, t := v2.NewRole(id), v2.NewTenant(id)
				z, zt := v2.NewRole("z"), v2.NewTenant("z")
				a.AddRoles(r, z)
				a.AddTenants(t, zt)
				rs[id], ts[id], rs["z"], ts["z"] = r, t, z, zt
			}
		}
		w.State(fmt.Sprint("v2", i))
		for _, id := range []string{"x", "y", "z"} {
			r, ok := a.GetRole(id)
			w.Query(ok)
			if ok != (rs[id] != nil) || r != rs[id] {
				w.Failf("role %s: lookup is not the latest registration", id)
			}
			t, ok := a.GetTenant(id)
			w.Query(ok)
			if ok != (ts[id] != nil) || t != ts[id] {
				w.Failf("tenant %s: lookup is not the latest registration", id)
			}
		}
		for _, id := range []string{"", "x", "zz"} {
			a.SetDefaultTenant(id)
			t, ok := a.GetDefaultTenant()
			if ok != (id != "" && ts[id] != nil) || t != ts[id] {
				w.Failf("default tenant %q: got %v %v", id, t, ok)
			}
		}
	}}
}

// available19: which roles have which permission, inherited ones included.
func available19() core.Part {
	const n = 3
	edges := [][2]int{{0, 1}, {0, 2}, {1, 2}}
	return core.Part{Name: "available-permissions", N: 8 * 64 * 8, Rule: "root: 3 roles, every acyclic inheritance along one order, every placement of 2 permissions, every registered subset: the summary of roles per permission", Run: func(w *core.W, i int) {
		d := core.Mixed(i, 8, 64, 8)
		e := permission.New()
		m := newRM()
		var rs []*permission.Role
		for k := 0; k < n; k++ {
			id := fmt.Sprintf("r%d", k)
			r := permission.NewRole(id)
			rs = append(rs, r)
			for p := 0; p < 2; p++ {
				if d[1]>>(2*k+p)&1 == 1 {
					perm := fmt.Sprintf("/%d GET", p)
					g := fmt.Sprintf("g%d", p)
					r.AddPermission(g, rattr(perm))
					m.grant(id, g, perm)
				}
			}
			if d[2]>>k&1 == 1 {
				e.AddRole(r)
			}
		}
		for k, x := range edges {
			if d[0]>>k&1 == 1 {
				rs[x[0]].AddDescendant(rs[x[1]])
				m.link(fmt.Sprintf("r%d", x[0]), fmt.Sprintf("r%d", x[1]))
			}
		}
		got := map[string]bool{}
		for g, l := range e.GetRolesForAvailablePermissions() {
			for _, a := range l {
				for _, r := range a.Roles {
					got[g+"|"+a.Attribute.String()+"|"+r] = true
				}
			}
		}
		want := map[string]bool{}
		for k := 0; k < n; k++ {
			if d[2]>>k&1 == 1 {
				id := fmt.Sprintf("r%d", k)
				for g, ps := range m.implicit(id) {
					for p := range ps {
						want[g+"|"+p+"|"+id] = true
					}
				}
			}
		}
		w.Query(len(want) > 0)
		w.State(fmt.Sprint("avail", d))
		if fmt.Sprint(core.Keys(got)) != fmt.Sprint(core.Keys(want)) {
			w.Failf("roles for available permissions: %v, want %v", core.Keys(got), core.Keys(want))
		}
	}}
}

func init() {
	core.Register(&core.Check{ID: "C19", Assumptions: []string{"calls are not concurrent (see C21 for that)"}, Parts: func(tier string) []core.Part {
		d, s := 3, 120
		if tier == "thorough" {
			d, s = 5, 400
		}
		return []core.Part{reg19("root", d), reg19("v1", d), size19("root", s), size19("v1", s), ids19("root"), ids19("v1"), refuse19(), grants19(), assign19(), v2reg(d + 2), available19()}
	}})
}
