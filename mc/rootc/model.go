// Package rootc decides the properties of the root engine and its record store.
package rootc

import (
	"fmt"
	"sort"
	"strings"

	permission "github.com/oarkflow/permission"

	"verif/mc/core"
	"verif/mc/ref"
)

// Row is one record; "" is a blank position. Man: 0 blank, 1 false, 2 true.
type Row struct {
	T, N, S, P, R string
	Man           int
}

func (r Row) String() string {
	return fmt.Sprintf("{tenant=%s ns=%s scope=%s principal=%s role=%s manage=%s}", r.T, r.N, r.S, r.P, r.R, [...]string{"-", "false", "true"}[r.Man])
}

func opt(s string) any {
	if s == "" {
		return nil
	}
	return s
}

func (r Row) data() *permission.Data {
	d := &permission.Data{Tenant: opt(r.T), Namespace: opt(r.N), Scope: opt(r.S), Principal: opt(r.P), Role: opt(r.R)}
	switch r.Man {
	case 1:
		d.ManageDescendants = false
	case 2:
		d.ManageDescendants = true
	}
	return d
}

func str(x any) string {
	if x == nil {
		return ""
	}
	return x.(string)
}

func rowOf(d *permission.Data) Row {
	r := Row{T: str(d.Tenant), N: str(d.Namespace), S: str(d.Scope), P: str(d.Principal), R: str(d.Role)}
	switch d.ManageDescendants {
	case false:
		r.Man = 1
	case true:
		r.Man = 2
	}
	return r
}

// M is the reference model: plain sets.
type M struct {
	Ps, Ts, Ns, Ss, Rs map[string]bool            // registered
	Perms              map[string]map[string]bool // role -> "group\x00permission"
	TEdge, REdge       map[string]map[string]bool // direct descendants
	Default            map[string]string          // tenant -> default namespace
	Rows               map[Row]bool
}

func NewM() *M {
	return &M{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]map[string]bool{},
		map[string]map[string]bool{}, map[string]map[string]bool{}, map[string]string{}, map[Row]bool{}}
}

func below(e map[string]map[string]bool, x string) map[string]bool {
	seen := map[string]bool{}
	var visit func(string)
	visit = func(y string) {
		for z := range e[y] {
			if !seen[z] {
				seen[z] = true
				visit(z)
			}
		}
	}
	visit(x)
	return seen
}

func link(e map[string]map[string]bool, a string, bs ...string) bool {
	for _, b := range bs {
		if a == b || below(e, b)[a] {
			return false
		}
	}
	for _, b := range bs {
		if e[a] == nil {
			e[a] = map[string]bool{}
		}
		e[a][b] = true
	}
	return true
}

type Req struct{ P, T, N, S, G, A string }

func (q Req) String() string {
	return fmt.Sprintf("principal=%q tenant=%q ns=%q scope=%q group=%q activity=%q", q.P, q.T, q.N, q.S, q.G, q.A)
}

func (m *M) direct(p string) map[string]bool {
	s := map[string]bool{}
	for r := range m.Rows {
		if r.P == p && r.T != "" {
			s[r.T] = true
		}
	}
	return s
}

// Reach is the set of tenants reported as reachable.
func (m *M) Reach(p string) map[string]bool {
	s := m.direct(p)
	for t := range m.managed(p) {
		s[t] = true
	}
	return s
}

// managed: tenants with the management right and everything below them.
func (m *M) managed(p string) map[string]bool {
	s := map[string]bool{}
	for r := range m.Rows {
		if r.P == p && r.T != "" && r.Man == 2 {
			s[r.T] = true
			for d := range below(m.TEdge, r.T) {
				s[d] = true
			}
		}
	}
	return s
}

func (m *M) own(role, g, a string) bool {
	for k := range m.Perms[role] {
		i := strings.LastIndexByte(k, 0)
		if k[:i] == g && (k[i+1:] == a || ref.Match(a, k[i+1:])) {
			return true
		}
	}
	return false
}

// Has: the role's own permissions and those of its transitive descendants that are admissible.
func (m *M) Has(role, g, a string, allowed map[string]bool) bool {
	if m.own(role, g, a) {
		return true
	}
	for d := range below(m.REdge, role) {
		if (len(allowed) == 0 || allowed[d]) && m.own(d, g, a) {
			return true
		}
	}
	return false
}

func fits(have, want string) bool { return want == "" || have == "" || have == want }

func (m *M) inUse(t string) map[string]bool {
	s := map[string]bool{}
	for r := range m.Rows {
		if r.T == t && r.R != "" {
			s[r.R] = true
		}
	}
	return s
}

func (m *M) activity(q Req, t string, allowed map[string]bool) bool {
	for r := range m.Rows {
		if r.T == t && r.P == q.P && r.R != "" && fits(r.N, q.N) && fits(r.S, q.S) && m.Rs[r.R] && m.Has(r.R, q.G, q.A, allowed) {
			return true
		}
	}
	return false
}

func (m *M) member(q Req, t string) bool {
	for r := range m.Rows {
		if r.T != t {
			continue
		}
		mine := r.P == "" || r.P == q.P
		switch {
		case q.N == "" && q.S == "":
			if r.P == q.P {
				return true
			}
		case q.S == "":
			if mine && r.N == q.N {
				return true
			}
		case q.N == "":
			if mine && r.S == q.S {
				return true
			}
		default:
			if r.S == q.S && (r.P == q.P || r.P == "" && fits(r.N, q.N)) {
				return true
			}
		}
	}
	return false
}

// contexts are the tenants whose records may answer for t: itself and managed ancestors.
func (m *M) contexts(p, t string) []string {
	l := []string{t}
	for x := range m.managed(p) {
		if x != t && below(m.TEdge, x)[t] {
			l = append(l, x)
		}
	}
	return l
}

func (m *M) Authorize(q Req) bool {
	if !m.Ps[q.P] || q.T != "" && !m.Ts[q.T] || q.N != "" && !m.Ns[q.N] || q.S != "" && !m.Ss[q.S] {
		return false
	}
	if (q.G == "") != (q.A == "") {
		return false
	}
	if q.T == "" {
		if q.N == "" || q.S == "" {
			return false
		}
		d := m.direct(q.P)
		allowed := map[string]bool{}
		for t := range d {
			for r := range m.inUse(t) {
				allowed[r] = true
			}
		}
		for t := range d {
			if q.A == "" && m.member(q, t) || q.A != "" && m.activity(q, t, allowed) {
				return true
			}
		}
		return false
	}
	if !m.Reach(q.P)[q.T] {
		return false
	}
	for _, t := range m.contexts(q.P, q.T) {
		if q.A == "" && m.member(q, t) || q.A != "" && m.activity(q, t, m.inUse(t)) {
			return true
		}
	}
	return false
}

func (m *M) Canon() string {
	var b strings.Builder
	for _, s := range []map[string]bool{m.Ps, m.Ts, m.Ns, m.Ss, m.Rs} {
		fmt.Fprint(&b, core.Keys(s), ";")
	}
	for _, s := range []map[string]map[string]bool{m.Perms, m.TEdge, m.REdge} {
		for _, k := range core.Keys(s) {
			fmt.Fprint(&b, k, core.Keys(s[k]))
		}
	}
	for _, k := range core.Keys(m.Default) {
		fmt.Fprint(&b, k, "=", m.Default[k])
	}
	rows := []string{}
	for r := range m.Rows {
		rows = append(rows, r.String())
	}
	sort.Strings(rows)
	fmt.Fprint(&b, rows)
	return b.String()
}

// ---- the pair of engine and model --------------------------------------------------------------

// H drives a real engine and the model in lock step.
type H struct {
	w  *core.W
	e  *permission.RoleManager
	m  *M
	ts map[string]*permission.Tenant
	rs map[string]*permission.Role

	kept []kept
}

func NewH(w *core.W) *H {
	return &H{w: w, e: permission.New(), m: NewM(), ts: map[string]*permission.Tenant{}, rs: map[string]*permission.Role{}}
}

func (h *H) op(format string, a ...any) { h.w.Op(1); h.w.Logf(format, a...) }

func (h *H) principal(id string) {
	h.op("register principal %q", id)
	h.e.AddPrincipal(permission.NewPrincipal(id))
	h.m.Ps[id] = true
}
func (h *H) namespace(id string) {
	h.op("register namespace %q", id)
	h.e.AddNamespace(permission.NewNamespace(id))
	h.m.Ns[id] = true
}
func (h *H) scope(id string) {
	h.op("register scope %q", id)
	h.e.AddScope(permission.NewScope(id))
	h.m.Ss[id] = true
}
func (h *H) tenant(id string) {
	h.op("register tenant %q", id)
	h.ts[id] = h.e.AddTenant(permission.NewTenant(id))
	h.m.Ts[id] = true
}

// role makes the object; register tells whether it is registered.
func (h *H) role(id string, register bool) {
	h.op("role %q registered=%v", id, register)
	r := h.rs[id]
	if r == nil {
		r = permission.NewRole(id)
		h.rs[id] = r
	}
	if register {
		h.rs[id] = h.e.AddRole(r)
		h.m.Rs[id] = true
	}
}

// perm grants "resource action" of a group.
func (h *H) perm(role, g, res, act string) {
	h.op("role %q gets %q %q in group %q", role, res, act, g)
	if err := h.rs[role].AddPermission(g, permission.NewAttribute(res, act)); err != nil {
		h.w.Failf("AddPermission on an unlocked role: %v", err)
	}
	if h.m.Perms[role] == nil {
		h.m.Perms[role] = map[string]bool{}
	}
	h.m.Perms[role][g+"\x00"+res+" "+act] = true
}

func (h *H) inherit(a string, bs ...string) {
	var l []*permission.Role
	for _, b := range bs {
		l = append(l, h.rs[b])
	}
	err := h.rs[a].AddDescendant(l...)
	ok := link(h.m.REdge, a, bs...)
	h.op("role %q above %q: %v", a, bs, err)
	if (err == nil) != ok {
		h.w.Failf("AddDescendant %q above %q: error %v, acceptable %v", a, bs, err, ok)
	}
}

func (h *H) nest(a string, bs ...string) {
	var l []*permission.Tenant
	for _, b := range bs {
		l = append(l, h.ts[b])
	}
	err := h.ts[a].AddDescendant(l...)
	ok := link(h.m.TEdge, a, bs...)
	h.op("tenant %q above %q: %v", a, bs, err)
	if (err == nil) != ok {
		h.w.Failf("AddDescendant %q above %q: error %v, acceptable %v", a, bs, err, ok)
	}
	if ok && h.m.Default[a] != "" {
		for _, b := range bs {
			h.m.Rows[Row{T: b, N: h.m.Default[a]}] = true
			h.m.Default[b] = h.m.Default[a]
		}
	}
}

func (h *H) setDefault(t, n string) {
	h.op("default namespace of %q is %q", t, n)
	h.ts[t].SetDefaultNamespace(n)
	if h.m.Ns[n] {
		h.m.Default[t] = n
	}
}

func man(b bool) int {
	if b {
		return 2
	}
	return 1
}

func (h *H) assignRole(t, p, r string, manage bool) {
	err := h.ts[t].AddPrincipalWithRole(p, r, manage)
	h.op("in %q principal %q gets role %q manage=%v: %v", t, p, r, manage, err)
	ok := h.m.Ps[p] && h.m.Rs[r]
	if (err == nil) != ok {
		h.w.Failf("AddPrincipalWithRole(%q,%q) in %q: error %v", p, r, t, err)
	}
	if ok {
		h.m.Rows[Row{T: t, P: p, R: r, Man: man(manage)}] = true
		if n := h.m.Default[t]; n != "" {
			h.m.Rows[Row{T: t, N: n, P: p, R: r, Man: man(manage)}] = true
		}
	}
}

func (h *H) assignScope(t, p, s string, manage bool) {
	err := h.ts[t].AddScopeToPrincipal(p, s, manage)
	h.op("in %q principal %q gets scope %q manage=%v: %v", t, p, s, manage, err)
	ok := h.m.Ps[p] && h.m.Ss[s]
	if (err == nil) != ok {
		h.w.Failf("AddScopeToPrincipal(%q,%q) in %q: error %v", p, s, t, err)
	}
	if ok {
		h.m.Rows[Row{T: t, P: p, S: s, Man: man(manage)}] = true
		if n := h.m.Default[t]; n != "" {
			h.m.Rows[Row{T: t, N: n, P: p, S: s, Man: man(manage)}] = true
		}
	}
}

// row records r through the call that makes such a record, or directly if there is none.
func (h *H) row(r Row) {
	t := h.ts[r.T]
	switch {
	case r.P != "" && r.R != "" && r.N == "" && r.S == "" && r.Man > 0:
		h.assignRole(r.T, r.P, r.R, r.Man == 2)
		return
	case r.P != "" && r.S != "" && r.N == "" && r.R == "" && r.Man > 0:
		h.assignScope(r.T, r.P, r.S, r.Man == 2)
		return
	case r.P != "" && r.R != "" && r.N != "" && r.S == "" && r.Man == 0:
		t.AddPrincipalInNamespace(r.P, r.N, r.R)
	case r.P == "" && r.R == "" && r.N != "" && r.S == "":
		// single and plural form in turn
		if n := permission.NewNamespace(r.N); len(h.m.Rows)%2 == 0 {
			t.AddNamespace(n)
		} else {
			t.AddNamespaces(n)
		}
	case r.P == "" && r.R == "" && r.N != "" && r.S != "":
		t.AddScopesToNamespace(r.N, r.S)
	case r.P == "" && r.R == "" && r.N == "" && r.S != "":
		if s := permission.NewScope(r.S); len(h.m.Rows)%2 == 0 {
			t.AddScope(s)
		} else {
			t.AddScopes(s)
		}
	case r.P == "" && r.R != "" && r.N == "" && r.S == "":
		if x := permission.NewRole(r.R); len(h.m.Rows)%2 == 0 {
			t.AddRole(x)
		} else {
			t.AddRoles(x)
		}
	default:
		h.e.AddData(r.data())
	}
	h.op("record %v", r)
	h.m.Rows[r] = true
}

func (h *H) ask(q Req) bool {
	var o []func(*permission.Option)
	if q.T != "" {
		o = append(o, permission.WithTenant(q.T))
	}
	if q.N != "" {
		o = append(o, permission.WithNamespace(q.N))
	}
	if q.S != "" {
		o = append(o, permission.WithScope(q.S))
	}
	if q.G != "" {
		o = append(o, permission.WithAttributeGroup(q.G))
	}
	if q.A != "" {
		o = append(o, permission.WithActivity(q.A))
	}
	return h.e.Authorize(q.P, o...)
}

func (h *H) decide(q Req) {
	want := h.m.Authorize(q)
	got := h.ask(q)
	h.w.Query(want)
	if got != want {
		h.w.Failf("got %v, want %v: %v", got, want, q)
	}
}

func (h *H) reach(p string) {
	want := h.m.Reach(p)
	got := h.e.GetImplicitTenants(p)
	h.w.Query(len(want) > 0)
	if fmt.Sprint(core.Keys(got)) != fmt.Sprint(core.Keys(want)) {
		h.w.Failf("reachable tenants of %q: %v, want %v", p, core.Keys(got), core.Keys(want))
	}
	clear(got) // the caller's own
}
