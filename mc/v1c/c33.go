package v1c

import (
	"fmt"
	"slices"
	"sort"

	"verif/mc/core"
)

// ---- C33: the allowed roles, and how far they let inheritance count ------------------------------

// Allowed are the roles allowed with the assignments rows, all in tenant t, for a namespace and scope.
func (m *M) Allowed(t string, rows []Row, n, s string) map[string]bool {
	ten := m.tenants[t]
	if len(rows) == 0 || s != "" && !ten.scopes[s] || n != "" && !ten.ns[n] {
		return nil
	}
	l := map[string]bool{}
	ownScopes := false
	if n != "" {
		for k := range m.nsRoles {
			if k[0] == n {
				l[k[1]] = true
			}
		}
		for k := range m.nsScopes {
			ownScopes = ownScopes || k[0] == n
		}
	}
	if ownScopes && !m.nsScopes[[2]string{n, s}] {
		return nil
	}
	ownRoles, wide, scoped := len(l) > 0, false, false
	for _, r := range rows {
		scoped = scoped || s != "" && r.S == s
		if r.N == "" && r.S == "" {
			wide = true
			if !ownRoles {
				l[r.R] = true
			}
		}
		if n != "" && s != "" && r.N == n && r.S == s {
			l[r.R] = true
		}
	}
	if !wide && !scoped {
		return nil
	}
	for r := range l {
		if !ten.roles[r] {
			return nil
		}
	}
	return l
}

// has: the role itself, or one below it which is admissible (all are, if there is no list).
func (m *M) has(r, g, a string, list map[string]bool) bool {
	if m.ownHas(r, g, a) {
		return true
	}
	seen := map[string]bool{}
	var walk func(string) bool
	walk = func(x string) bool {
		for c := range m.edges[x] {
			if seen[c] {
				continue
			}
			seen[c] = true
			if (len(list) == 0 || list[c]) && m.ownHas(c, g, a) || walk(c) {
				return true
			}
		}
		return false
	}
	return walk(r)
}

// Exact decides an activity.
func (m *M) Exact(q Req) bool {
	if !m.principals[q.P] {
		return false
	}
	if q.T == "" {
		if q.N != "" || q.S != "" || q.G != "" {
			return false
		}
		all := map[string]bool{}
		for t := range m.tenants {
			for r := range m.Allowed(t, m.in(q.P, t), "", "") {
				all[r] = true
			}
		}
		for r := range all {
			if m.roles[r] && m.has(r, "", q.A, all) {
				return true
			}
		}
		return false
	}
	t := m.tenants[q.T]
	if t == nil || !m.registered[q.T] || q.N != "" && !t.ns[q.N] || q.S != "" && !t.scopes[q.S] {
		return false
	}
	rows := m.in(q.P, q.T)
	list := m.Allowed(q.T, rows, q.N, q.S)
	for _, r := range rows {
		if q.N != "" && r.N != "" && r.N != q.N || q.S != "" && r.S != "" && r.S != q.S || !m.roles[r.R] {
			continue
		}
		if m.has(r.R, q.G, q.A, list) {
			return true
		}
	}
	return false
}

func (h *H) decide33(q Req) {
	want := h.m.Exact(q)
	got := h.ask(q)
	h.w.Query(want)
	if got != want {
		h.w.Failf("Authorize(%v) = %v, want %v; allowed roles %v; assignments: %v", q, got, want, core.Keys(h.m.Allowed(q.T, h.m.in(q.P, q.T), q.N, q.S)), h.list())
	}
}

// lists33 compares the allowed roles of everyone everywhere.
func (h *H) lists33(ps, ts, ns, ss []string) {
	for _, q := range h.allowedQuestions(ps, ts, ns, ss) {
		p, t := q.rows[0].PrincipalID, q.rows[0].TenantID
		want := core.Keys(h.m.Allowed(t, h.m.in(p, t), q.n, q.s))
		got := slices.Clone(h.e.GetAllowedRoles(q.rows, q.n, q.s))
		sort.Strings(got)
		got = slices.Compact(got)
		h.w.Query(len(want) > 0)
		if !slices.Equal(got, want) {
			h.w.Failf("%v = %q, want %q", q, got, want)
		}
	}
}

// sets33: three roles in a row, each contained in the tenant or not, given to the namespace or not, and
// held in one of six ways, and every way scopes are given to the namespace.
func sets33() core.Part {
	held := [][2]string{{"-"}, {"", ""}, {"n", ""}, {"", "s"}, {"n", "s"}, {"m", "s"}}
	one := len(held) * 2 * 2
	R := []string{"r1", "r2", "r3"}
	as := []act{{"g", "/r1 GET"}, {"g", "/r2 GET"}, {"g", "/r3 GET"}, {"", "/free GET"}}
	return core.Part{Name: "sets", N: one * one * one * 3, Rule: fmt.Sprintf("three roles, each above the next, each contained in the tenant or not, given to the namespace or not, and held in one of %d ways (not, tenant-wide, for a namespace, a scope, both, another namespace and the scope); the namespace has no scopes, the scope, or another one; the allowed roles and every decision", len(held)), Run: func(w *core.W, i int) {
		d := core.Mixed(i, 3, one, one, one)
		h := NewH(w)
		h.principal("p")
		h.tenant("t")
		h.tenant("u")
		for _, x := range []string{"n", "m"} {
			h.tNS("t", x)
		}
		h.tNS("u", "n")
		for _, x := range []string{"s", "z"} {
			h.tScope("t", x)
		}
		switch d[0] {
		case 1:
			h.nsScopes("t", "n", "s")
		case 2:
			h.nsScopes("t", "n", "z")
		}
		for k, r := range R {
			h.role(r, true)
			h.perm(r, "g", "/"+r, "GET")
			h.tRole("u", r)
			if k > 0 {
				h.inherit(R[k-1], r)
			}
		}
		h.perm("r2", "", "/free", "GET")
		for k, r := range R {
			x := core.Mixed(d[k+1], 2, 2, len(held))
			if x[0] == 1 {
				h.tRole("t", r)
			}
			if x[1] == 1 {
				h.nsRoles("u", "n", r) // the other tenant has the same namespace, and the role
			}
			if x[2] > 0 {
				h.row(Row{P: "p", R: r, T: "t", N: held[x[2]][0], S: held[x[2]][1]}, 0)
			}
		}
		w.State(h.m.Canon())
		h.lists33([]string{"p"}, []string{"t"}, []string{"", "n", "m"}, []string{"", "s", "z"})
		for _, n := range []string{"", "n", "m"} {
			for _, s := range []string{"", "s", "z"} {
				for _, a := range as {
					h.decide33(Req{"p", "t", n, s, a.g, a.a})
				}
			}
		}
		h.decide33(Req{P: "p", A: "/free GET"})
		h.decide33(Req{P: "p", A: "/r1 GET"})
	}}
}

// sizes33: many roles, scopes and tenants, the one that matters at the first, middle or last position.
func sizes33(max int) core.Part {
	at := core.Big(max)
	const kinds = 6
	return core.Part{Name: fmt.Sprintf("sizes-%d", max), N: len(at) * kinds * 2, Rule: fmt.Sprintf("%v roles held tenant-wide, roles of the namespace, scopes of the namespace, roles held for namespace and scope, tenants with one role each, or namespaces, the first, middle, last or none of them the one asked for; its id before or after the others", core.Sizes(max)), Run: func(w *core.W, i int) {
		mark := []string{"a", "z"}[i%2]
		i /= 2
		n, pos := at[i/kinds][0], at[i/kinds][1]
		kind := i % kinds
		h := NewH(w)
		h.principal("p")
		h.tenant("t")
		h.tNS("t", "n")
		h.tScope("t", "s")
		h.role("top", true)
		h.role(mark, true)
		h.perm(mark, "g", "/mark", "GET")
		h.perm(mark, "", "/free", "GET")
		h.inherit("top", mark)
		h.tRole("t", "top")
		h.tRole("t", mark)
		h.row(Row{P: "p", R: "top", T: "t", N: "n"}, 0)
		for j := 0; j < n; j++ {
			r := fmt.Sprint("r", j)
			if j == pos {
				r = mark
			}
			h.role(r, true)
			h.tRole("t", r)
			switch kind {
			case 0:
				h.row(Row{P: "p", R: r, T: "t"}, 0)
			case 1:
				h.nsRoles("t", "n", r)
			case 2:
				s := fmt.Sprint("s", j)
				if j == pos {
					s = "s"
				}
				h.tScope("t", s)
				h.nsScopes("t", "n", s)
			case 3:
				h.row(Row{P: "p", R: r, T: "t", N: "n", S: "s"}, 0)
			case 4:
				t := fmt.Sprint("t", j)
				h.tenant(t)
				h.tRole(t, r)
				h.row(Row{P: "p", R: r, T: t}, 0)
			case 5:
				x := fmt.Sprint("n", j)
				h.tNS("t", x)
				if j == pos {
					h.def("t", x)
				}
			}
		}
		if kind == 1 || kind == 2 || kind == 5 {
			h.row(Row{P: "p", R: "top", T: "t"}, 0)
		}
		ns := []string{"", "n"}
		if kind == 5 {
			h.tScope("t", mark)
			h.assignScopes("t", "p", mark)
			ns = append(ns, "n0", fmt.Sprint("n", n/2), fmt.Sprint("n", n-1))
		}
		w.State(h.m.Canon())
		ts := []string{"t"}
		if kind == 4 {
			ts = append(ts, "t0", fmt.Sprint("t", max-1))
		}
		h.lists33([]string{"p"}, ts, ns, []string{"", "s", mark})
		for _, n := range ns {
			for _, s := range []string{"", "s", mark} {
				h.decide33(Req{"p", "t", n, s, "g", "/mark GET"})
				h.decide33(Req{"p", "t", n, s, "", "/free GET"})
			}
		}
		h.decide33(Req{P: "p", A: "/free GET"})
	}}
}

func init() {
	core.Register(&core.Check{ID: "C33", Assumptions: append([]string{"the allowed roles are asked for all assignments of one principal in one registered tenant"}, assume...), Parts: func(tier string) []core.Part {
		do := func(k names) func(h *H) {
			q := requests(k, acts)
			return func(h *H) {
				h.lists33(k.P, []string{k.T[0], k.T[1], k.X}, []string{"", k.N[0], k.N[1], k.X}, []string{"", k.S[0], k.S[1]})
				for _, r := range q {
					if r.A != "" {
						h.decide33(r)
					}
				}
			}
		}
		a, b := schemes[0], schemes[1]
		ps := []core.Part{records("assignments-1", a, 1, do(a)), records("assignments-1-shared-ids", b, 1, do(b)), histories("histories-2", a, 2, do(a)), sets33(), sizes33(1025), records("assignments-2", a, 2, do(a)), histories("histories-3", a, 3, do(a))}
		if tier == "thorough" {
			ps = append(ps, sizes33(513), records("assignments-2-shared-ids", b, 2, do(b)), histories("histories-3-shared-ids", b, 3, do(b)), histories("histories-4", a, 4, do(a)))
		}
		return ps
	}})
}
