package v1c

import (
	"fmt"

	"verif/mc/core"
)

// ---- C30: what each assignment call records -----------------------------------------------------

// more30 are calls with several, repeated, unknown or no arguments, besides ops.
var more30 = []op{
	{"p r1,r2,r1 in t1", func(h *H, k names) { h.assign(k.T[0], k.P[0], k.R[0], k.R[1], k.R[0]) }},
	{"p nothing in t1", func(h *H, k names) { h.assign(k.T[0], k.P[0]) }},
	{"q r1 in t2", func(h *H, k names) { h.assign(k.T[1], k.P[1], k.R[0]) }},
	{"unregistered principal r1 in t1", func(h *H, k names) { h.assign(k.T[0], k.X, k.R[0]) }},
	{"p unknown role,r2,r1 in n2 of t1", func(h *H, k names) { h.assignNS(k.T[0], k.P[0], k.N[1], k.X, k.R[1], k.R[0]) }},
	{"p r1 in an unknown namespace of t1", func(h *H, k names) { h.assignNS(k.T[0], k.P[0], k.X, k.R[0]) }},
	{"p in an unknown namespace of t1", func(h *H, k names) { h.assignNS(k.T[0], k.P[0], k.X) }},
	{"q r2 in n1 of t1", func(h *H, k names) { h.assignNS(k.T[0], k.P[1], k.N[0], k.R[1]) }},
	{"p scopes s1,s2 in t1", func(h *H, k names) { h.assignScopes(k.T[0], k.P[0], k.S[0], k.S[1]) }},
	{"p scopes s1,s2 in t2", func(h *H, k names) { h.assignScopes(k.T[1], k.P[0], k.S[0], k.S[1]) }},
	{"p no scope in t1", func(h *H, k names) { h.assignScopes(k.T[0], k.P[0]) }},
	{"p scopes unknown,s1,s2 with r1 in t1", func(h *H, k names) { h.assignScopesRole(k.T[0], k.P[0], k.R[0], k.X, k.S[0], k.S[1]) }},
	{"p scope s1 with an unknown role in t1", func(h *H, k names) { h.assignScopesRole(k.T[0], k.P[0], k.X, k.S[0]) }},
	{"q scope s1 with r2 in t2", func(h *H, k names) { h.assignScopesRole(k.T[1], k.P[1], k.R[1], k.S[0]) }},
	{"s1,s2 in n1 of t1", func(h *H, k names) { h.nsScopes(k.T[0], k.N[0], k.S[0], k.S[1]) }},
	{"s1 in an unknown namespace of t1", func(h *H, k names) { h.nsScopes(k.T[0], k.X, k.S[0]) }},
	{"default n2 in t1", func(h *H, k names) { h.def(k.T[0], k.N[1]) }},
	{"t2 below t1", func(h *H, k names) { h.nest(k.T[0], k.T[1]) }},
	{"p r1 in t2 for n1 and s1, not managing", func(h *H, k names) { h.row(Row{k.P[0], k.R[0], k.T[1], k.N[0], k.S[0], true}, 2) }},
	{"p in t1 for s2", func(h *H, k names) { h.row(Row{k.P[0], "", k.T[0], "", k.S[1], true}, 0) }},
}

func calls30(name string, k names, depth int) core.Part {
	os := append(append([]op{}, ops...), more30...)
	n := core.SeqsUpTo(len(os), depth)
	return core.Part{Name: name, N: n * 4, Rule: fmt.Sprintf("all sequences of <=%d of %d calls (each kind of assignment call with known, unknown, repeated, several and no roles, scopes and namespaces, default namespaces, contents of tenants), tenants containing everything or not, all assignments compared at the end or after every call; ids %v", depth, len(os), k), Run: func(w *core.W, i int) {
		h := NewH(w)
		base(h, k, i&2 == 0)
		all := func() {
			for _, t := range []string{k.T[0], k.T[1], k.X} {
				h.rows(fmt.Sprintf("tenant %q", t), h.e.GetTenantRoles(t), func(r Row) bool { return r.T == t })
			}
		}
		for _, o := range core.Seq(len(os), depth, i>>2) {
			w.Logf("-- %s", os[o].name)
			os[o].do(h, k)
			if i&1 == 1 {
				all()
			}
		}
		w.State(h.m.Canon())
		all()
	}}
}

func many30(sizes []int) core.Part {
	return core.Part{Name: "sizes", N: len(sizes) * 4, Rule: fmt.Sprintf("one call with each of %v roles or scopes, with and without a default namespace, for a principal with one or with as many roles", sizes), Run: func(w *core.W, i int) {
		n := sizes[i/4]
		h := NewH(w)
		h.tenant("t")
		h.tNS("t", "n")
		h.principal("p")
		if i&1 == 1 {
			h.def("t", "n")
		}
		var rs, ss []string
		for j := 0; j < n; j++ {
			rs, ss = append(rs, fmt.Sprint("r", j)), append(ss, fmt.Sprint("s", j))
			h.role(rs[j], true)
			h.tRole("t", rs[j])
			h.tScope("t", ss[j])
		}
		if i&2 == 0 {
			h.assign("t", "p", rs...)
			h.assignScopes("t", "p", ss[:min(n, 3)]...)
		} else {
			h.assign("t", "p", rs[0])
			h.assignScopes("t", "p", ss...)
			h.assignNS("t", "p", "n", rs...)
			h.assignScopesRole("t", "p", rs[n-1], ss...)
			h.nsScopes("t", "n", ss...)
		}
		w.State(h.m.Canon())
		h.rows("tenant", h.e.GetTenantRoles("t"), func(Row) bool { return true })
	}}
}

func init() {
	core.Register(&core.Check{ID: "C30", Assumptions: assume, Parts: func(tier string) []core.Part {
		ps := []core.Part{calls30("calls-2", schemes[0], 2), calls30("calls-2-shared-ids", schemes[1], 2), many30([]int{1, 2, 3, 5, 9, 17, 33, 65, 101, 130, 257, 1030}), calls30("calls-3", schemes[0], 3)}
		if tier == "thorough" {
			ps = append(ps, calls30("calls-3-shared-ids", schemes[1], 3), calls30("calls-4", schemes[0], 4))
		}
		return ps
	}})
}
