package v1c

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	v1 "github.com/oarkflow/permission/v1"

	"verif/mc/core"
)

// kept is a list returned by the engine together with a copy of its contents at that time.
type kept struct {
	what string
	l    []string
	was  []string
}

type keptRows struct {
	what   string
	l, was []v1.TenantPrincipal
}

func (h *H) keep(what string, l []string) {
	h.kept = append(h.kept, kept{what, l, slices.Clone(l)})
}

func (h *H) checkKept(after string) {
	for _, k := range h.keptRows {
		if !slices.Equal(k.l, k.was) {
			h.w.Failf("%s was %v and became %v after %s", k.what, k.was, k.l, after)
		}
	}
	for _, k := range h.kept {
		h.w.Query(len(k.l) > 0)
		if !slices.Equal(k.l, k.was) {
			h.w.Failf("the list returned by %s was %q and became %q after %s", k.what, k.was, k.l, after)
		}
	}
}

func row(t v1.TenantPrincipal) Row {
	return Row{t.PrincipalID, t.RoleID, t.TenantID, t.NamespaceID, t.ScopeID, t.CanManageDescendants}
}

// rows compares a list of assignments with the model's, none missing and none twice.
func (h *H) rows(what string, got []v1.TenantPrincipal, want func(Row) bool) {
	h.w.Op(1)
	h.keptRows = append(h.keptRows, keptRows{what, got, slices.Clone(got)})
	left := map[Row]bool{}
	for r := range h.m.rows {
		if want(r) {
			left[r] = true
		}
	}
	h.w.Query(len(left) > 0)
	for _, g := range got {
		if !left[row(g)] {
			h.w.Failf("%s contains %+v, which was not assigned (or is listed twice)", what, g)
		}
		delete(left, row(g))
	}
	for r := range left {
		h.w.Failf("%s lacks %+v", what, r)
	}
}

func set(l []string) string {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	return fmt.Sprintf("%q", core.Keys(m))
}

// queries compares every query about principals ps and tenants ts.
func (h *H) queries(ps, ts []string) {
	for _, p := range ps {
		want := map[string]bool{}
		scopes := map[string]bool{}
		for r := range h.m.rows {
			if r.P == p {
				want[r.T] = true
				if r.S != "" {
					scopes[r.S] = true
				}
			}
		}
		got, err := h.e.GetTenantsForPrincipal(p)
		h.w.Op(1)
		h.w.Query(len(want) > 0)
		if err != nil || fmt.Sprintf("%q", sorted(got)) != fmt.Sprintf("%q", core.Keys(want)) {
			h.w.Failf("GetTenantsForPrincipal(%q) = %q, %v; want %q", p, got, err, core.Keys(want))
		}
		h.keep(fmt.Sprintf("GetTenantsForPrincipal(%q)", p), got)
		sc, err := h.e.GetScopesForPrincipal(p)
		h.w.Op(1)
		h.w.Query(len(scopes) > 0)
		h.keep(fmt.Sprintf("GetScopesForPrincipal(%q)", p), sc)
		if h.m.principals[p] != (err == nil) || err == nil && set(sc) != fmt.Sprintf("%q", core.Keys(scopes)) {
			h.w.Failf("GetScopesForPrincipal(%q) = %q, %v; want %q", p, sc, err, core.Keys(scopes))
		}
		for _, t := range ts {
			own := func(r Row) bool { return r.P == p && r.T == t }
			h.rows(fmt.Sprintf("GetPrincipalRoles(%q, %q)", t, p), h.e.GetPrincipalRoles(t, p), own)
			h.rows(fmt.Sprintf("GetImplicitPrincipalRoles(%q, %q)", t, p), h.e.GetImplicitPrincipalRoles(t, p), func(r Row) bool {
				return r.P == p && (r.T == t || h.m.registered[t] && h.m.tenants[t].desc[r.T])
			})
			var pp []v1.TenantPrincipal
			for _, x := range h.e.GetPermissionsForPrincipal(t, p) {
				pp = append(pp, x.TenantPrincipal)
				got := map[string][]string{}
				for g, l := range x.Permissions {
					for _, a := range l {
						got[g] = append(got[g], a.String())
					}
				}
				if a, b := perms(got), perms(h.m.own[x.RoleID]); a != b {
					h.w.Failf("GetPermissionsForPrincipal(%q, %q): role %q with %s, want %s", t, p, x.RoleID, a, b)
				}
			}
			h.rows(fmt.Sprintf("GetPermissionsForPrincipal(%q, %q)", t, p), pp, func(r Row) bool { return own(r) && r.R != "" && h.m.roles[r.R] })
			ts := map[string]bool{}
			for r := range h.m.rows {
				if own(r) && r.S != "" {
					ts[r.S] = true
				}
			}
			sc, err := h.e.GetTenantScopesForPrincipal(t, p)
			h.w.Op(1)
			h.w.Query(len(ts) > 0)
			h.keep(fmt.Sprintf("GetTenantScopesForPrincipal(%q, %q)", t, p), sc)
			if (h.m.principals[p] && h.m.registered[t]) != (err == nil) || err == nil && set(sc) != fmt.Sprintf("%q", core.Keys(ts)) {
				h.w.Failf("GetTenantScopesForPrincipal(%q, %q) = %q, %v; want %q", t, p, sc, err, core.Keys(ts))
			}
		}
	}
	for _, t := range ts {
		in := func(r Row) bool { return r.T == t }
		h.rows(fmt.Sprintf("GetTenantRoles(%q)", t), h.e.GetTenantRoles(t), in)
		h.rows(fmt.Sprintf("GetPrincipalRolesByTenant(%q)", t), h.e.GetPrincipalRolesByTenant(t), in)
	}
}

func perms(m map[string][]string) string {
	var l []string
	for g, ps := range m {
		for _, p := range ps {
			l = append(l, fmt.Sprintf("%q/%q", g, p))
		}
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func sorted(l []string) []string {
	l = slices.Clone(l)
	sort.Strings(l)
	return l
}

// aq is one question for the list of allowed roles.
type aq struct {
	rows []v1.TenantPrincipal
	n, s string
}

// allowedQuestions are those a caller can put with the assignments of ps in ts.
func (h *H) allowedQuestions(ps, ts, ns, ss []string) (l []aq) {
	for _, p := range ps {
		for _, t := range ts {
			if !h.m.registered[t] {
				continue
			}
			rows := h.e.GetPrincipalRoles(t, p)
			if len(rows) == 0 {
				continue
			}
			sort.Slice(rows, func(a, b int) bool { return fmt.Sprint(rows[a]) < fmt.Sprint(rows[b]) })
			for _, n := range ns {
				for _, s := range ss {
					l = append(l, aq{rows, n, s})
				}
			}
		}
	}
	return l
}

func (q aq) String() string { return fmt.Sprintf("GetAllowedRoles(%+v, %q, %q)", q.rows, q.n, q.s) }

// allowed checks one engine, with an identically built second one, for determinism of the allowed
// roles and for results that stay as returned.
func allowed(h, fresh *H, ps, ts, ns, ss []string) {
	qs := h.allowedQuestions(ps, ts, ns, ss)
	first := make([]string, len(qs))
	for i, q := range qs {
		was := slices.Clone(q.rows)
		l := h.e.GetAllowedRoles(q.rows, q.n, q.s)
		h.w.Op(1)
		if !slices.Equal(was, q.rows) {
			h.w.Failf("%v changed the assignments passed to it to %+v", q, q.rows)
		}
		for _, r := range l {
			if !h.m.tenants[q.rows[0].TenantID].roles[r] {
				h.w.Failf("%v names role %q, which the tenant does not contain", q, r)
			}
			named := h.m.nsRoles[[2]string{q.n, r}]
			for _, x := range q.rows {
				named = named || x.RoleID == r
			}
			if !named {
				h.w.Failf("%v names role %q, which is neither in the assignments nor in the namespace", q, r)
			}
		}
		first[i] = set(l)
		h.keep(q.String(), l)
		h.checkKept(q.String())
	}
	// the other engine, asked in the opposite order
	for i := len(qs) - 1; i >= 0; i-- {
		l := fresh.e.GetAllowedRoles(qs[i].rows, qs[i].n, qs[i].s)
		h.w.Op(1)
		h.w.Query(len(l) > 0)
		if set(l) != first[i] {
			h.w.Failf("%v = %s on an engine that was asked before and %s on one set up alike", qs[i], first[i], set(l))
		}
		h.keep("other engine's "+qs[i].String(), l)
	}
	h.checkKept("questions to another engine")
	for _, p := range ps {
		for _, t := range ts {
			for _, n := range ns {
				for _, s := range ss {
					h.ask(Req{p, t, n, s, "g1", "/sub/7 GET"})
					fresh.ask(Req{p, t, n, s, "", ""})
				}
			}
			h.ask(Req{P: p, A: "/own GET"})
		}
	}
	h.checkKept("decisions on both engines")
	// the caller owns what it was given: overwriting it does not change later answers
	for _, k := range h.kept {
		for i := range k.l {
			k.l[i] = "overwritten by the caller"
		}
	}
	for _, k := range h.keptRows {
		clear(k.l)
	}
	h.kept, h.keptRows = nil, nil
	for i, q := range qs {
		l := h.e.GetAllowedRoles(q.rows, q.n, q.s)
		h.w.Op(1)
		h.w.Query(len(l) > 0)
		if set(l) != first[i] {
			h.w.Failf("%v = %s, but %s when asked again", q, first[i], set(l))
		}
	}
}

// both runs a setup on two engines.
func both(w *core.W, setup func(h *H)) (a, b *H) {
	a, b = NewH(w), NewH(w)
	setup(a)
	setup(b)
	w.State(a.m.Canon())
	return
}

func init() {
	core.Register(&core.Check{ID: "C26", Assumptions: append([]string{"the allowed roles are asked for a non-empty list of assignments in a registered tenant"}, assume...), Parts: func(tier string) []core.Part {
		all := func(h *H, k names) {
			h.queries([]string{k.P[0], k.P[1], k.X, ""}, []string{k.T[0], k.T[1], k.X})
			h.checkKept("further queries")
		}
		al := func(a, b *H, k names) {
			allowed(a, b, k.P, []string{k.T[0], k.T[1], k.X}, []string{"", k.N[0], k.N[1], k.X}, []string{"", k.S[0], k.S[1]})
		}
		recs := func(name string, k names, size int) core.Part {
			u := universe(k)
			n := core.SubsetsUpTo(len(u), size)
			return core.Part{Name: name, N: n * 2, Rule: fmt.Sprintf("all sets of <=%d of %d assignments, tenants nested or not and containing everything or not; every query, and every allowed-roles question on two engines with all returned lists watched; ids %v", size, len(u), k), Run: func(w *core.W, i int) {
				a, b := both(w, func(h *H) {
					base(h, k, i&1 == 0)
					if i&1 == 1 {
						h.nest(k.T[0], k.T[1])
						h.nsRoles(k.T[0], k.N[0], k.R[1])
						h.nsScopes(k.T[0], k.N[0], k.S[0])
					}
					for _, x := range core.Subset(len(u), size, i>>1) {
						h.row(u[x], x%3)
					}
				})
				all(a, k)
				al(a, b, k)
				all(a, k)
			}}
		}
		hist := func(name string, k names, depth int) core.Part {
			n := core.SeqsUpTo(len(ops), depth)
			return core.Part{Name: name, N: n * 2, Rule: fmt.Sprintf("all sequences of <=%d of %d setup calls, queries at the end only or also after every call; ids %v", depth, len(ops), k), Run: func(w *core.W, i int) {
				first := true
				a, b := both(w, func(h *H) {
					base(h, k, false)
					for _, o := range core.Seq(len(ops), depth, i>>1) {
						ops[o].do(h, k)
						if i&1 == 1 && first {
							all(h, k)
						}
					}
					first = false
				})
				all(a, k)
				al(a, b, k)
				all(a, k)
			}}
		}
		tree := func(n int) core.Part {
			// every acyclic forest of n tenants given by an upper triangular relation, one assignment in each
			pairs := n * (n - 1) / 2
			return core.Part{Name: fmt.Sprintf("tenants-%d", n), N: 1 << (pairs + n), Rule: fmt.Sprintf("all acyclic hierarchies of %d tenants (edges from lower to higher number) with any subset of them assigned to p, the others to q", n), Run: func(w *core.W, i int) {
				h := NewH(w)
				h.principal("p")
				h.principal("q")
				h.role("r", true)
				h.perm("r", "g1", "/own", "GET")
				var ts []string
				for a := 0; a < n; a++ {
					ts = append(ts, fmt.Sprint("t", a))
					h.tenant(ts[a])
					h.tRole(ts[a], "r")
				}
				e := 0
				for a := 0; a < n; a++ {
					for b := a + 1; b < n; b++ {
						if i>>e&1 == 1 {
							h.nest(ts[a], ts[b])
						}
						e++
					}
					if i>>(pairs+a)&1 == 1 {
						h.assign(ts[a], "p", "r")
					} else {
						h.assign(ts[a], "q", "r")
					}
				}
				w.State(h.m.Canon())
				h.queries([]string{"p", "q"}, ts)
			}}
		}
		lad := func(n int) core.Part {
			return ladder(n, func(h *H, i, n int) {
				h.queries([]string{"p", "q"}, []string{"t", "u"})
				qs := h.allowedQuestions([]string{"p", "q"}, []string{"t"}, []string{"", fmt.Sprint("n", i)}, []string{"", fmt.Sprint("s", i), fmt.Sprint("s", (i+1)%n)})
				for _, q := range qs {
					h.keep(q.String(), h.e.GetAllowedRoles(q.rows, q.n, q.s))
				}
				h.checkKept("further questions")
			})
		}
		ids := core.Part{Name: "confusable-ids", N: idsN, Rule: idsRule, Run: func(w *core.W, i int) {
			k, gs := idsScheme(i)
			a, b := both(w, func(h *H) { idsSetup(h, k, gs) })
			a.queries(k.P, k.T)
			allowed(a, b, k.P, k.T, []string{"", k.N[0], k.N[1]}, []string{"", k.S[0], k.S[1]})
		}}
		joined := core.Part{Name: "joined-ids", N: joinedN, Rule: joinedRule, Run: func(w *core.W, i int) {
			k, _, setup := joinedScheme(i)
			a, b := both(w, setup)
			a.queries(k.P, k.T)
			allowed(a, b, k.P, k.T, []string{"", k.N[0], k.N[1]}, []string{"", k.S[0], k.S[1]})
		}}
		// many distinct roles, tenants and scopes: every list a caller keeps stays as it was
		many := func(sizes []int) core.Part {
			return core.Part{Name: "many-roles", N: len(sizes), Rule: fmt.Sprintf("two principals with %v different roles and scopes in one tenant and as many tenants; every query, every returned list kept", sizes), Run: func(w *core.W, i int) {
				n := sizes[i]
				a, b := both(w, func(h *H) {
					h.tenant("t")
					h.tNS("t", "n")
					for _, p := range []string{"p", "q"} {
						h.principal(p)
						for j := 0; j < n; j++ {
							r, s, t := fmt.Sprint(p, "r", j), fmt.Sprint(p, "s", j), fmt.Sprint(p, "t", j)
							h.role(r, true)
							h.perm(r, "g1", fmt.Sprint("/", j), "GET")
							h.tRole("t", r)
							h.tScope("t", s)
							h.row(Row{P: p, R: r, T: "t"}, j%3)
							h.row(Row{P: p, R: r, T: "t", N: "n"}, j%3)
							h.row(Row{P: p, R: r, T: "t", S: s}, j%3)
							h.tenant(t)
							h.tRole(t, r)
							h.row(Row{P: p, R: r, T: t}, j%3)
						}
					}
				})
				a.queries([]string{"p", "q"}, []string{"t", "pt0", fmt.Sprint("pt", n-1)})
				allowed(a, b, []string{"p", "q"}, []string{"t", fmt.Sprint("pt", n-1)}, []string{"", "n"}, []string{"", "ps0", fmt.Sprint("qs", n-1)})
				a.queries([]string{"p", "q"}, []string{"t", "qt0"})
			}}
		}
		ps := []core.Part{ids, joined, many([]int{1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 20, 33, 51, 65, 101, 129, 1025}), recs("assignments-1", schemes[0], 1), recs("assignments-1-shared-ids", schemes[1], 1), tree(3), hist("histories-2", schemes[0], 2), recs("assignments-2", schemes[0], 2), tree(4), hist("histories-3", schemes[0], 3), lad(140)}
		if tier == "thorough" {
			ps = append(ps, recs("assignments-2-shared-ids", schemes[1], 2), hist("histories-3-shared-ids", schemes[1], 3), tree(5), lad(250))
		}
		return ps
	}})
}
