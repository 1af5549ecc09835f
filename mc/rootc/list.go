package rootc

import (
	"encoding/json"
	"fmt"
	"slices"
	"sort"

	permission "github.com/oarkflow/permission"
)

// kept is a result handed out earlier, with what it held then.
type kept struct {
	what      string
	got, then []*permission.Data
}

// later checks that no listing handed out earlier has changed since; then it spoils them all, as a
// caller is free to do with its own results.
func (h *H) later() {
	for _, k := range h.kept {
		if !slices.Equal(k.got, k.then) {
			h.w.Failf("the result of %s was changed by a later call", k.what)
		}
	}
	for _, k := range h.kept {
		clear(k.got)
	}
	h.kept = h.kept[:0]
}

// same compares a listing with the rows a predicate selects: none missing, none extra, none twice.
// least, if not nil, is the part of them that has to be there.
func (h *H) same(what string, got []*permission.Data, most func(Row) bool, least func(Row) bool) {
	h.kept = append(h.kept, kept{what, got, slices.Clone(got)})
	seen := map[Row]bool{}
	for _, d := range got {
		r := rowOf(d)
		if seen[r] {
			h.w.Failf("%s lists %v twice", what, r)
		}
		seen[r] = true
		if !h.m.Rows[r] || !most(r) {
			h.w.Failf("%s lists %v, which does not belong there", what, r)
		}
	}
	if least == nil {
		least = most
	}
	n := 0
	for r := range h.m.Rows {
		if least(r) {
			n++
			if !seen[r] {
				h.w.Failf("%s lacks %v", what, r)
			}
		}
	}
	h.w.Query(n > 0)
}

func ids(l []any) []string {
	r := []string{}
	for _, x := range l {
		r = append(r, fmt.Sprintf("%v", x))
	}
	sort.Strings(r)
	return r
}

func (h *H) ids(what string, got []any, want map[string]bool, once bool) {
	m := map[string]bool{}
	for _, x := range got {
		s, ok := x.(string)
		if !ok {
			h.w.Failf("%s lists %#v", what, x)
		}
		if m[s] && once {
			h.w.Failf("%s lists %q twice", what, s)
		}
		m[s] = true
		if !want[s] {
			h.w.Failf("%s lists %q, which does not belong there", what, s)
		}
	}
	for s := range want {
		if !m[s] {
			h.w.Failf("%s lacks %q", what, s)
		}
	}
	h.w.Query(len(want) > 0)
	clear(got) // the caller's own
}

// scopesWithRoles checks the combined report for a tenant the principal is assigned in.
func (h *H) scopesWithRoles(p, t, n string) {
	what := fmt.Sprintf("GetScopesWithRolesForPrincipal(%q,%q,%q)", p, t, n)
	inTenant, inNamespace, held := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for r := range h.m.Rows {
		if r.T != t {
			continue
		}
		if r.S != "" {
			inTenant[r.S] = true
			if r.P == "" && r.N == n {
				inNamespace[r.S] = true
			}
		}
		if r.P == p && r.R != "" {
			held[r.R] = true
		}
	}
	got := map[string]map[string]bool{}
	for _, sr := range h.e.GetScopesWithRolesForPrincipal(p, t, n) {
		s := str(sr.Scope)
		if got[s] != nil {
			h.w.Failf("%s lists scope %q twice", what, s)
		}
		got[s] = map[string]bool{}
		if !inTenant[s] {
			h.w.Failf("%s lists scope %q, which is not recorded in the tenant", what, s)
		}
		for _, r := range sr.Roles {
			if r != nil && !held[str(r)] {
				h.w.Failf("%s gives scope %q the role %q, which the principal does not hold there", what, s, r)
			}
			got[s][str(r)] = true
		}
	}
	for s := range inNamespace {
		for r := range held {
			if !got[s][r] {
				h.w.Failf("%s lacks role %q for scope %q", what, r, s)
			}
		}
	}
	h.w.Query(len(inNamespace) > 0 && len(held) > 0)
}

// listings compares every listing query for all given arguments.
func (h *H) listings(ps, ts, ns, ss []string) {
	for _, p := range ps {
		own := h.m.direct(p)
		isP := func(r Row) bool { return r.P == p && r.T != "" }
		h.ids(fmt.Sprintf("GetTenantsByPrincipal(%q)", p), h.e.GetTenantsByPrincipal(p), own, true)
		h.same(fmt.Sprintf("GetTenants(%q)", p), h.e.GetTenants(p), isP, nil)
		h.same(fmt.Sprintf("GetScopesByPrincipal(%q)", p), h.e.GetScopesByPrincipal(p), func(r Row) bool { return isP(r) && r.S != "" }, nil)
		h.same(fmt.Sprintf("GetNamespacesByPrincipal(%q)", p), h.e.GetNamespacesByPrincipal(p), func(r Row) bool { return own[r.T] && r.N != "" && (r.P == "" || r.P == p) }, nil)
		for _, n := range ns {
			h.same(fmt.Sprintf("GetScopeForPrincipalByNamespace(%q,%q)", p, n), h.e.GetScopeForPrincipalByNamespace(p, n), func(r Row) bool {
				return own[r.T] && r.S != "" && (r.P == p || r.P == "" && fits(r.N, n))
			}, nil)
		}
		for _, t := range ts {
			mine := func(r Row) bool { return r.T == t && (r.P == "" || r.P == p) }
			h.same(fmt.Sprintf("GetNamespacesForPrincipalByTenant(%q,%q)", p, t), h.e.GetNamespacesForPrincipalByTenant(p, t), func(r Row) bool { return mine(r) && r.N != "" }, nil)
			h.same(fmt.Sprintf("GetNamespaceForPrincipalByTenant(%q,%q)", p, t), h.e.GetNamespaceForPrincipalByTenant(p, t), func(r Row) bool { return mine(r) && r.N != "" }, nil)
			h.same(fmt.Sprintf("GetScopesForPrincipalByTenant(%q,%q)", p, t), h.e.GetScopesForPrincipalByTenant(p, t), func(r Row) bool { return mine(r) && r.S != "" }, nil)
			roles := func(r Row) bool { return r.T == t && r.P == p && r.R != "" }
			for _, n := range ns {
				if own[t] {
					h.scopesWithRoles(p, t, n)
				}
				h.same(fmt.Sprintf("GetScopesForPrincipalByTenantAndNamespace(%q,%q,%q)", p, t, n), h.e.GetScopesForPrincipalByTenantAndNamespace(p, t, n), func(r Row) bool {
					return r.T == t && r.S != "" && (r.P == p || r.P == "" && fits(r.N, n))
				}, nil)
				h.same(fmt.Sprintf("GetRolesForPrincipalByTenantAndNamespace(%q,%q,%q)", p, t, n), h.e.GetRolesForPrincipalByTenantAndNamespace(p, t, n), roles, func(r Row) bool { return roles(r) && fits(r.N, n) })
				for _, s := range ss {
					h.same(fmt.Sprintf("GetRolesForPrincipalByTenantNamespaceAndScope(%q,%q,%q,%q)", p, t, n, s), h.e.GetRolesForPrincipalByTenantNamespaceAndScope(p, t, n, s), roles, func(r Row) bool { return roles(r) && fits(r.N, n) && fits(r.S, s) })
				}
			}
			for _, s := range ss {
				h.same(fmt.Sprintf("GetRolesForPrincipalByTenantAndScope(%q,%q,%q)", p, t, s), h.e.GetRolesForPrincipalByTenantAndScope(p, t, s), roles, func(r Row) bool { return roles(r) && fits(r.S, s) })
			}
		}
	}
	for _, t := range ts {
		in := func(r Row) bool { return r.T == t }
		h.same(fmt.Sprintf("GetRolesByTenant(%q)", t), h.e.GetRolesByTenant(t), func(r Row) bool { return in(r) && r.R != "" }, nil)
		h.same(fmt.Sprintf("GetNamespacesByTenant(%q)", t), h.e.GetNamespacesByTenant(t), func(r Row) bool { return in(r) && r.N != "" }, nil)
		h.same(fmt.Sprintf("GetNamespaceByTenant(%q)", t), h.e.GetNamespaceByTenant(t), func(r Row) bool { return in(r) && r.N != "" }, nil)
		h.same(fmt.Sprintf("GetScopesByTenant(%q)", t), h.e.GetScopesByTenant(t), func(r Row) bool { return in(r) && r.S != "" }, nil)
		if h.m.Ts[t] {
			h.ids(fmt.Sprintf("GetDescendantTenant(%q)", t), h.e.GetDescendantTenant(t), below(h.m.TEdge, t), false)
			h.ids(fmt.Sprintf("TenantChildren(%q)", t), h.e.TenantChildren(t), below(h.m.TEdge, t), true)
		}
	}
	all := h.e.Data().Data()
	h.same("Data", all, func(Row) bool { return true }, nil)
	var dump []*permission.Data
	if text := h.e.AsString(); len(h.m.Rows) > 0 || text != "null" {
		if err := json.Unmarshal([]byte(text), &dump); err != nil {
			h.w.Failf("AsString() = %q: %v", text, err)
		}
	}
	h.same("AsString", dump, func(Row) bool { return true }, nil)
	for _, f := range []struct {
		name string
		fn   func([]*permission.Data) []any
		get  func(Row) string
	}{
		{"GetTenantIDs", permission.GetTenantIDs, func(r Row) string { return r.T }}, {"GetPrincipalIDs", permission.GetPrincipalIDs, func(r Row) string { return r.P }},
		{"GetRoleIDs", permission.GetRoleIDs, func(r Row) string { return r.R }}, {"GetNamespaceIDs", permission.GetNamespaceIDs, func(r Row) string { return r.N }},
		{"GetScopeIDs", permission.GetScopeIDs, func(r Row) string { return r.S }},
	} {
		var want []string
		seen := map[string]bool{}
		for _, d := range all {
			if id := f.get(rowOf(d)); !seen[id] {
				seen[id] = true
				want = append(want, id)
			}
		}
		var got []string
		for _, x := range f.fn(all) {
			got = append(got, str(x))
		}
		sort.Strings(want)
		sort.Strings(got)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			h.w.Failf("%s of all records: %q, want %q", f.name, got, want)
		}
	}
	h.later()
}
