package rootc

import (
	"fmt"

	permission "github.com/oarkflow/permission"

	"verif/mc/core"
)

// ---- C31: what each recording call records --------------------------------------------------------

type op31 struct {
	name string
	do   func(h *H, k names)
}

func (h *H) record(rs ...Row) {
	for _, r := range rs {
		h.m.Rows[r] = true
	}
}

// assigned records what an assignment of a role (or scope) makes, the default namespace included.
func (h *H) assigned(t, p string, manage bool, roles, scopes []string) {
	for _, n := range []string{"", h.m.Default[t]} {
		for _, r := range roles {
			h.record(Row{T: t, N: n, P: p, R: r, Man: man(manage)})
		}
		for _, s := range scopes {
			h.record(Row{T: t, N: n, P: p, S: s, Man: man(manage)})
		}
	}
}

func nss(ids ...string) (l []*permission.Namespace) {
	for _, x := range ids {
		l = append(l, permission.NewNamespace(x))
	}
	return
}

func scs(ids ...string) (l []*permission.Scope) {
	for _, x := range ids {
		l = append(l, permission.NewScope(x))
	}
	return
}

func (h *H) roles(ids ...string) (l []*permission.Role) {
	for _, x := range ids {
		l = append(l, h.rs[x])
	}
	return
}

func (h *H) plural(t, p string, manage bool, roles ...string) {
	err := h.ts[t].AddPrincipal(p, manage, roles...)
	h.op("in %q AddPrincipal(%q, %v, %q): %v", t, p, manage, roles, err)
	if err != nil {
		h.w.Failf("AddPrincipal with registered ids: %v", err)
	}
	h.assigned(t, p, manage, roles, nil)
}

func (h *H) pluralScopes(t, p string, manage bool, scopes ...string) {
	err := h.ts[t].AssignScopesToPrincipal(p, manage, scopes...)
	h.op("in %q AssignScopesToPrincipal(%q, %v, %q): %v", t, p, manage, scopes, err)
	if err != nil {
		h.w.Failf("AssignScopesToPrincipal with registered ids: %v", err)
	}
	h.assigned(t, p, manage, nil, scopes)
}

var ops31 = []op31{
	{"n1 into t1", func(h *H, k names) { h.ts[k.T[0]].AddNamespaces(nss(k.N[0])...); h.record(Row{T: k.T[0], N: k.N[0]}) }},
	{"n1,n2,n1 into t1", func(h *H, k names) {
		h.ts[k.T[0]].AddNamespaces(nss(k.N[0], k.N[1], k.N[0])...)
		h.record(Row{T: k.T[0], N: k.N[0]}, Row{T: k.T[0], N: k.N[1]})
	}},
	{"n2 into t2", func(h *H, k names) { h.ts[k.T[1]].AddNamespace(nss(k.N[1])[0]); h.record(Row{T: k.T[1], N: k.N[1]}) }},
	{"unregistered namespace into t2", func(h *H, k names) { h.ts[k.T[1]].AddNamespace(nss(k.X)[0]); h.record(Row{T: k.T[1], N: k.X}) }},
	{"s1 into t1", func(h *H, k names) { h.ts[k.T[0]].AddScope(scs(k.S[0])[0]); h.record(Row{T: k.T[0], S: k.S[0]}) }},
	{"s2,s1 into t1", func(h *H, k names) {
		h.ts[k.T[0]].AddScopes(scs(k.S[1], k.S[0])...)
		h.record(Row{T: k.T[0], S: k.S[0]}, Row{T: k.T[0], S: k.S[1]})
	}},
	{"no scope into t2", func(h *H, k names) { h.ts[k.T[1]].AddScopes() }},
	{"s2 into t2", func(h *H, k names) { h.ts[k.T[1]].AddScopes(scs(k.S[1])...); h.record(Row{T: k.T[1], S: k.S[1]}) }},
	{"r1 into t1", func(h *H, k names) { h.ts[k.T[0]].AddRole(h.rs[k.R[0]]); h.record(Row{T: k.T[0], R: k.R[0]}) }},
	{"r2,r1 into t2", func(h *H, k names) {
		h.ts[k.T[1]].AddRoles(h.roles(k.R[1], k.R[0])...)
		h.record(Row{T: k.T[1], R: k.R[0]}, Row{T: k.T[1], R: k.R[1]})
	}},
	{"s1 in n1 of t1", func(h *H, k names) {
		h.ts[k.T[0]].AddScopesToNamespace(k.N[0], k.S[0])
		h.record(Row{T: k.T[0], N: k.N[0], S: k.S[0]})
	}},
	{"s2 in n2 of t2", func(h *H, k names) {
		h.ts[k.T[1]].AddScopesToNamespace(k.N[1], k.S[1])
		h.record(Row{T: k.T[1], N: k.N[1], S: k.S[1]})
	}},
	{"p r1 in n1 of t1", func(h *H, k names) {
		h.ts[k.T[0]].AddPrincipalInNamespace(k.P[0], k.N[0], k.R[0])
		h.record(Row{T: k.T[0], N: k.N[0], P: k.P[0], R: k.R[0]})
	}},
	{"q r2 in n2 of t1", func(h *H, k names) {
		h.ts[k.T[0]].AddPrincipalInNamespace(k.P[1], k.N[1], k.R[1])
		h.record(Row{T: k.T[0], N: k.N[1], P: k.P[1], R: k.R[1]})
	}},
	{"p r1 in t1", func(h *H, k names) { h.assignRole(k.T[0], k.P[0], k.R[0], false) }},
	{"p r1 in t1 managing", func(h *H, k names) { h.assignRole(k.T[0], k.P[0], k.R[0], true) }},
	{"p unknown role in t1", func(h *H, k names) { h.assignRole(k.T[0], k.P[0], k.X, true) }},
	{"unknown principal r1 in t2", func(h *H, k names) { h.assignRole(k.T[1], k.X, k.R[0], true) }},
	{"q r1,r2,r1 in t1", func(h *H, k names) { h.plural(k.T[0], k.P[1], false, k.R[0], k.R[1], k.R[0]) }},
	{"p r2,r1 in t2 managing", func(h *H, k names) { h.plural(k.T[1], k.P[0], true, k.R[1], k.R[0]) }},
	{"p nothing in t1", func(h *H, k names) { h.plural(k.T[0], k.P[0], true) }},
	{"p s1 in t1", func(h *H, k names) { h.assignScope(k.T[0], k.P[0], k.S[0], false) }},
	{"p unknown scope in t1", func(h *H, k names) { h.assignScope(k.T[0], k.P[0], k.X, false) }},
	{"q s1,s2 in t1 managing", func(h *H, k names) { h.pluralScopes(k.T[0], k.P[1], true, k.S[0], k.S[1]) }},
	{"p s2,s1,s2 in t2", func(h *H, k names) { h.pluralScopes(k.T[1], k.P[0], false, k.S[1], k.S[0], k.S[1]) }},
	{"q no scope in t2", func(h *H, k names) { h.pluralScopes(k.T[1], k.P[1], true) }},
	{"default n1 in t1", func(h *H, k names) { h.setDefault(k.T[0], k.N[0]) }},
	{"default n2 in t1", func(h *H, k names) { h.setDefault(k.T[0], k.N[1]) }},
	{"default n2 in t2", func(h *H, k names) { h.setDefault(k.T[1], k.N[1]) }},
	{"t2 below t1", func(h *H, k names) { h.nest(k.T[0], k.T[1]) }},
	{"register everything again", func(h *H, k names) {
		h.e.AddPrincipals(permission.NewPrincipal(k.P[0]), permission.NewPrincipal(k.P[1]))
		h.e.AddNamespaces(nss(k.N...)...)
		h.e.AddScopes(scs(k.S...)...)
		h.e.AddTenants(permission.NewTenant(k.T[0]), permission.NewTenant(k.T[1]))
		h.e.AddRoles(permission.NewRole(k.R[0]), permission.NewRole(k.R[1]))
	}},
	{"r1 above r2 and permissions", func(h *H, k names) {
		h.inherit(k.R[0], k.R[1])
		h.perm(k.R[0], "g", "/a", "GET")
		h.perm(k.R[1], "h", "/b", "GET")
	}},
	{"raw record", func(h *H, k names) {
		r := Row{T: k.T[1], N: k.N[0], S: k.S[0], P: k.P[0], R: k.R[1], Man: 1}
		h.e.AddData(r.data())
		h.record(r)
	}},
	{"questions", func(h *H, k names) {
		for _, p := range append([]string{k.X}, k.P...) {
			h.e.GetImplicitTenants(p)
			for _, t := range k.T {
				h.e.Authorize(p, permission.WithTenant(t))
				h.e.Authorize(p, permission.WithTenant(t), permission.WithNamespace(k.N[0]), permission.WithScope(k.S[1]), permission.WithAttributeGroup("g"), permission.WithActivity("/a GET"))
				h.e.GetScopesWithRolesForPrincipal(p, t, k.N[0])
				h.e.GetRolesForPrincipalByTenantAndScope(p, t, k.S[0])
				h.e.GetScopeForPrincipalByNamespace(p, k.N[1])
			}
		}
	}},
}

func calls31(name string, k names, depth int) core.Part {
	n := core.SeqsUpTo(len(ops31), depth)
	return core.Part{Name: name, N: n * 2, Rule: fmt.Sprintf("all sequences of <=%d of %d calls (every recording call, single and plural, with registered, unknown, repeated and no arguments, default namespaces, links, registrations, questions), all records compared at the end or after every call; ids %v", depth, len(ops31), k), Run: func(w *core.W, i int) {
		h := NewH(w)
		setup31(h, k)
		for _, o := range core.Seq(len(ops31), depth, i>>1) {
			h.op("-- %s", ops31[o].name)
			ops31[o].do(h, k)
			if i&1 == 1 {
				h.same("Data", h.e.Data().Data(), func(Row) bool { return true }, nil)
			}
		}
		w.State(h.m.Canon())
		h.same("Data", h.e.Data().Data(), func(Row) bool { return true }, nil)
	}}
}

func setup31(h *H, k names) {
	for _, x := range k.P {
		h.principal(x)
	}
	for _, x := range k.N {
		h.namespace(x)
	}
	for _, x := range k.S {
		h.scope(x)
	}
	for _, x := range k.T {
		h.tenant(x)
	}
	for _, x := range k.R {
		h.role(x, true)
	}
}

func many31(sizes []int) core.Part {
	return core.Part{Name: "sizes", N: len(sizes) * 2, Rule: fmt.Sprintf("each plural call with each of %v arguments, with and without a default namespace", sizes), Run: func(w *core.W, i int) {
		n := sizes[i/2]
		h := NewH(w)
		k := schemes[0]
		setup31(h, k)
		if i&1 == 1 {
			h.setDefault(k.T[0], k.N[0])
		}
		var ids []string
		for j := 0; j < n; j++ {
			ids = append(ids, fmt.Sprint("x", j))
			h.role(ids[j], true)
			h.scope(ids[j])
			h.record(Row{T: k.T[0], N: ids[j]}, Row{T: k.T[0], S: ids[j]}, Row{T: k.T[0], R: ids[j]})
		}
		t := h.ts[k.T[0]]
		t.AddNamespaces(nss(ids...)...)
		t.AddScopes(scs(ids...)...)
		t.AddRoles(h.roles(ids...)...)
		h.plural(k.T[0], k.P[0], true, ids...)
		h.pluralScopes(k.T[0], k.P[1], false, ids...)
		w.State(h.m.Canon())
		h.same("Data", h.e.Data().Data(), func(Row) bool { return true }, nil)
	}}
}

func init() {
	core.Register(&core.Check{ID: "C31", Assumptions: assume, Parts: func(tier string) []core.Part {
		ps := []core.Part{calls31("calls-2", schemes[0], 2), calls31("calls-2-shared-ids", schemes[1], 2), many31([]int{1, 2, 3, 5, 9, 17, 33, 65, 101, 130, 257, 1030}), calls31("calls-3", schemes[0], 3)}
		if thorough(tier) {
			ps = append(ps, calls31("calls-3-shared-ids", schemes[1], 3), calls31("calls-4", schemes[0], 4))
		}
		return ps
	}})
}
