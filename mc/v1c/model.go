// Package v1c decides the properties of the v1 engine (C23-C26): every history of setup calls and
// every set of assignments within the bounds is executed on a real v1.RoleManager and all answers
// are compared with a flat set-of-assignments model.
package v1c

import (
	"fmt"
	"sort"
	"strings"

	v1 "github.com/oarkflow/permission/v1"

	"verif/mc/core"
	"verif/mc/ref"
)

// Row is one assignment.
type Row struct {
	P, R, T, N, S string
	Man           bool
}

// Req is one decision request; blank fields are not named.
type Req struct{ P, T, N, S, G, A string }

func (q Req) String() string {
	return fmt.Sprintf("principal=%q tenant=%q namespace=%q scope=%q group=%q activity=%q", q.P, q.T, q.N, q.S, q.G, q.A)
}

type tenant struct {
	ns, roles, scopes, desc map[string]bool
	def                     string
}

// M is the reference model.
type M struct {
	principals map[string]bool
	registered map[string]bool // tenants looked up by id
	tenants    map[string]*tenant
	roles      map[string]bool // registered roles
	own        map[string]map[string][]string
	edges      map[string]map[string]bool
	rows       map[Row]bool
	nsRoles    map[[2]string]bool // roles put in a namespace (one object per id, shared by the tenants)
	nsScopes   map[[2]string]bool // likewise scopes
}

func newM() *M {
	return &M{principals: map[string]bool{}, registered: map[string]bool{}, tenants: map[string]*tenant{}, roles: map[string]bool{}, own: map[string]map[string][]string{}, edges: map[string]map[string]bool{}, rows: map[Row]bool{}, nsRoles: map[[2]string]bool{}, nsScopes: map[[2]string]bool{}}
}

func (m *M) ownHas(r, g, a string) bool {
	for _, p := range m.own[r][g] {
		if p == a || ref.Match(a, p) {
			return true
		}
	}
	return false
}

// anyHas: the role itself or a role below it.
func (m *M) anyHas(r, g, a string) bool {
	seen := map[string]bool{}
	var walk func(string) bool
	walk = func(x string) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if m.ownHas(x, g, a) {
			return true
		}
		for c := range m.edges[x] {
			if walk(c) {
				return true
			}
		}
		return false
	}
	return walk(r)
}

// in lists the assignments of p in t.
func (m *M) in(p, t string) (l []Row) {
	for r := range m.rows {
		if r.P == p && r.T == t {
			l = append(l, r)
		}
	}
	return l
}

// Activity returns whether a group activity must and may be granted.
func (m *M) Activity(q Req) (must, may bool) {
	if q.T == "" && q.N == "" && q.S == "" && q.G == "" && m.principals[q.P] {
		for r := range m.rows {
			may = may || r.P == q.P && m.roles[r.R] && m.anyHas(r.R, "", q.A)
		}
		return
	}
	t := m.tenants[q.T]
	if !m.principals[q.P] || !m.registered[q.T] || t == nil {
		return
	}
	if q.N != "" && !t.ns[q.N] || q.S != "" && !t.scopes[q.S] {
		return
	}
	for r := range m.rows {
		if r.P != q.P || r.T != q.T || !m.roles[r.R] {
			continue
		}
		if q.N != "" && r.N != "" && r.N != q.N || q.S != "" && r.S != "" && r.S != q.S {
			continue
		}
		must = must || m.ownHas(r.R, q.G, q.A)
		may = may || m.anyHas(r.R, q.G, q.A)
	}
	return
}

// Member decides requests without group and activity.
func (m *M) Member(q Req) bool {
	if !m.principals[q.P] {
		return false
	}
	if q.T != "" && !m.registered[q.T] {
		return false
	}
	has, assigned := false, false
	for r := range m.rows {
		if q.T != "" && r.T != q.T || !m.registered[r.T] {
			continue
		}
		t := m.tenants[r.T]
		if r.P == q.P {
			assigned = true
		}
		if r.P != q.P {
			continue
		}
		switch {
		case q.T != "" && q.N == "" && q.S == "":
			has = true
		case q.T == "" && q.N != "" && q.S == "":
			has = has || t.ns[q.N]
		case q.T == "" && q.N == "" && q.S != "":
			has = has || t.scopes[q.S] && r.S == q.S
		default:
			has = has || (q.N == "" || r.N == q.N) && (q.S == "" || r.S == q.S)
		}
	}
	if q.T != "" && q.N != "" && q.S != "" && assigned {
		for r := range m.rows {
			if r.P == "" && r.T == q.T && r.N == q.N && r.S == q.S {
				return true
			}
		}
	}
	return has
}

func (m *M) Canon() string {
	var l []string
	for r := range m.rows {
		l = append(l, fmt.Sprint(r))
	}
	for id, t := range m.tenants {
		l = append(l, fmt.Sprint("T", id, core.Keys(t.ns), core.Keys(t.roles), core.Keys(t.scopes), core.Keys(t.desc), t.def))
	}
	l = append(l, fmt.Sprint(core.Keys(m.principals), core.Keys(m.roles), m.edges, m.own, m.nsRoles, m.nsScopes))
	sort.Strings(l)
	return strings.Join(l, ";")
}

// H drives the real engine and the model together.
type H struct {
	w    *core.W
	e    *v1.RoleManager
	m    *M
	t    map[string]*v1.Tenant
	n    map[string]*v1.Namespace
	s    map[string]*v1.Scope
	r    map[string]*v1.Role
	kept []kept

	keptRows []keptRows
}

func NewH(w *core.W) *H {
	return &H{w: w, e: v1.New(), m: newM(), t: map[string]*v1.Tenant{}, n: map[string]*v1.Namespace{}, s: map[string]*v1.Scope{}, r: map[string]*v1.Role{}}
}

func (h *H) log(f string, a ...any) { h.w.Op(1); h.w.Logf(f, a...) }

func (h *H) principal(id string) {
	h.log("AddPrincipal(%q)", id)
	h.e.AddPrincipal(v1.NewPrincipal(id))
	h.m.principals[id] = true
}

func (h *H) tenant(id string) {
	h.log("AddTenant(%q)", id)
	if h.t[id] == nil {
		h.t[id] = v1.NewTenant(id)
		h.m.tenants[id] = &tenant{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, ""}
	}
	h.e.AddTenant(h.t[id])
	h.m.registered[id] = true
}

func (h *H) ns(id string) *v1.Namespace {
	if h.n[id] == nil {
		h.n[id] = v1.NewNamespace(id)
		h.e.AddNamespace(h.n[id])
	}
	return h.n[id]
}

func (h *H) scope(id string) *v1.Scope {
	if h.s[id] == nil {
		h.s[id] = v1.NewScope(id)
		h.e.AddScope(h.s[id])
	}
	return h.s[id]
}

func (h *H) role(id string, register bool) *v1.Role {
	if h.r[id] == nil {
		h.r[id] = v1.NewRole(id)
	}
	if register {
		h.log("AddRole(%q)", id)
		h.e.AddRole(h.r[id])
		h.m.roles[id] = true
	}
	return h.r[id]
}

func (h *H) perm(r, g, res, action string) {
	h.log("role %q gets %q %q in group %q", r, res, action, g)
	if err := h.role(r, false).AddPermission(g, v1.NewAttribute(res, action)); err != nil {
		h.w.Failf("AddPermission: %v", err)
	}
	if h.m.own[r] == nil {
		h.m.own[r] = map[string][]string{}
	}
	h.m.own[r][g] = append(h.m.own[r][g], res+" "+action)
}

func (h *H) inherit(parent, child string) {
	h.log("role %q above %q", parent, child)
	if err := h.role(parent, false).AddDescendent(h.role(child, false)); err != nil {
		h.w.Failf("AddDescendent: %v", err)
	}
	if h.m.edges[parent] == nil {
		h.m.edges[parent] = map[string]bool{}
	}
	h.m.edges[parent][child] = true
}

func (h *H) nest(parent, child string) {
	h.log("tenant %q above %q", parent, child)
	if err := h.t[parent].AddDescendent(h.t[child]); err != nil {
		h.w.Failf("AddDescendent: %v", err)
	}
	h.m.tenants[parent].desc[child] = true
}

func (h *H) tRole(t, r string) {
	h.log("tenant %q AddRole(%q)", t, r)
	h.t[t].AddRole(h.role(r, false))
	h.m.tenants[t].roles[r] = true
}

func (h *H) tNS(t, n string) {
	h.log("tenant %q AddNamespace(%q)", t, n)
	h.t[t].AddNamespace(h.ns(n))
	h.m.tenants[t].ns[n] = true
}

func (h *H) tScope(t, s string) {
	h.log("tenant %q AddScopes(%q)", t, s)
	h.t[t].AddScopes(h.scope(s))
	h.m.tenants[t].scopes[s] = true
	if d := h.m.tenants[t].def; d != "" {
		h.m.nsScopes[[2]string{d, s}] = true
	}
}

func (h *H) def(t, n string) {
	h.log("tenant %q SetDefaultNamespace(%q)", t, n)
	h.t[t].SetDefaultNamespace(n)
	if h.m.tenants[t].ns[n] {
		h.m.tenants[t].def = n
	}
}

func (h *H) add(p, r, t, n, s string) { h.m.rows[Row{p, r, t, n, s, true}] = true }

// addD adds an assignment and its copy for the default namespace.
func (h *H) addD(p, r, t, s string) {
	h.add(p, r, t, "", s)
	if d := h.m.tenants[t].def; d != "" {
		h.add(p, r, t, d, s)
	}
}

func (h *H) nsScopes(t, n string, s ...string) {
	h.log("tenant %q AddScopesToNamespace(%q, %q)", t, n, s)
	h.t[t].AddScopesToNamespace(n, s...)
	for _, x := range s {
		if !h.m.tenants[t].scopes[x] {
			return
		}
		if h.m.tenants[t].ns[n] {
			h.add("", "", t, n, x)
			h.m.nsScopes[[2]string{n, x}] = true
		}
	}
}

func (h *H) nsRoles(t, n string, r ...string) {
	h.log("tenant %q AddRolesToNamespace(%q, %q)", t, n, r)
	h.t[t].AddRolesToNamespace(n, r...)
	for _, x := range r {
		if !h.m.tenants[t].roles[x] || !h.m.tenants[t].ns[n] {
			return
		}
		h.m.nsRoles[[2]string{n, x}] = true
	}
}

func (h *H) assign(t, p string, roles ...string) {
	h.log("tenant %q AddPrincipal(%q, %q)", t, p, roles)
	h.t[t].AddPrincipal(p, roles...)
	for _, r := range roles {
		if h.m.tenants[t].roles[r] {
			h.addD(p, r, t, "")
		}
	}
}

func (h *H) assignNS(t, p, n string, roles ...string) {
	h.log("tenant %q AddPrincipalInNamespace(%q, %q, %q)", t, p, n, roles)
	h.t[t].AddPrincipalInNamespace(p, n, roles...)
	mt := h.m.tenants[t]
	if !mt.ns[n] {
		return
	}
	if len(roles) == 0 {
		for _, r := range h.m.in(p, t) {
			if r.N != "" && r.N != n {
				h.add(p, r.R, t, n, "")
			}
		}
		h.add(p, "", t, n, "")
	}
	for _, r := range roles {
		if mt.roles[r] {
			h.add(p, r, t, n, "")
		}
	}
}

func (h *H) assignScopes(t, p string, scopes ...string) {
	h.log("tenant %q AssignScopesToPrincipal(%q, %q)", t, p, scopes)
	h.t[t].AssignScopesToPrincipal(p, scopes...)
	before := h.m.in(p, t)
	if len(before) == 0 {
		return
	}
	for _, s := range scopes {
		if !h.m.tenants[t].scopes[s] {
			continue
		}
		for _, r := range before {
			h.addD(p, r.R, t, s)
		}
		h.add(p, "", t, "", s)
	}
}

func (h *H) assignScopesRole(t, p, r string, scopes ...string) {
	h.log("tenant %q AssignScopesWithRole(%q, %q, %q)", t, p, r, scopes)
	h.t[t].AssignScopesWithRole(p, r, scopes...)
	if len(h.m.in(p, t)) == 0 || !h.m.tenants[t].roles[r] {
		return
	}
	for _, s := range scopes {
		if h.m.tenants[t].scopes[s] {
			h.addD(p, r, t, s)
		}
	}
}

// row makes an assignment directly; man: 0 default, 1 true, 2 false.
func (h *H) row(r Row, man int) {
	h.log("AddPrincipalRole(%q, %q, %q, %q, %q) manage=%s", r.P, r.R, r.T, r.N, r.S, []string{"default", "true", "false"}[man])
	var n *v1.Namespace
	var s *v1.Scope
	if r.N != "" {
		n = h.ns(r.N)
	}
	if r.S != "" {
		s = h.scope(r.S)
	}
	r.Man = man != 2
	h.m.rows[r] = true
	if man == 0 {
		h.e.AddPrincipalRole(r.P, r.R, h.t[r.T], n, s)
	} else {
		h.e.AddPrincipalRole(r.P, r.R, h.t[r.T], n, s, man == 1)
	}
}

func (h *H) ask(q Req) bool {
	h.w.Op(1)
	o := make([]func(*v1.Option), 0, 5)
	if q.T != "" {
		o = append(o, v1.WithTenant(q.T))
	}
	if q.N != "" {
		o = append(o, v1.WithNamespace(q.N))
	}
	if q.S != "" {
		o = append(o, v1.WithScope(q.S))
	}
	if q.G != "" {
		o = append(o, v1.WithResourceGroup(q.G))
	}
	if q.A != "" {
		o = append(o, v1.WithActivity(q.A))
	}
	return h.e.Authorize(q.P, o...)
}

func (h *H) decide(q Req) {
	if q.G == "" && q.A == "" {
		want := h.m.Member(q)
		got := h.ask(q)
		h.w.Query(want)
		if got != want {
			h.w.Failf("Authorize(%v) = %v, want %v; assignments: %v", q, got, want, h.list())
		}
		return
	}
	must, may := h.m.Activity(q)
	got := h.ask(q)
	h.w.Query(must)
	if got && !may {
		h.w.Failf("Authorize(%v) granted, but no fitting assignment has a role with that activity; assignments: %v", q, h.list())
	}
	if !got && must {
		h.w.Failf("Authorize(%v) denied in spite of a fitting assignment whose role has that activity itself; assignments: %v", q, h.list())
	}
}

func (h *H) list() string {
	var l []string
	for r := range h.m.rows {
		l = append(l, fmt.Sprintf("{p=%q r=%q t=%q n=%q s=%q}", r.P, r.R, r.T, r.N, r.S))
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}
