package v2c

import (
	"log/slog"
	"time"

	v2 "github.com/oarkflow/permission/v2"

	"verif/mc/core"
)

var (
	past   = time.Date(2001, 1, 1, 0, 0, 0, 0, time.UTC)
	future = time.Date(2300, 1, 1, 0, 0, 0, 0, time.UTC)
)

// Sys is a real engine built from a configuration.
type Sys struct {
	A       *v2.Authorizer
	Tenants map[string]*v2.Tenant
	Roles   map[string]*v2.Role
}

func perm(s string) *v2.Permission {
	// "resource action": the action is what follows the last space
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == ' ' {
			return v2.NewPermission("cat", s[:i], s[i+1:])
		}
	}
	return v2.NewPermission("cat", s, "")
}

func (a Asg) real() *v2.PrincipalRole {
	r := &v2.PrincipalRole{Principal: a.P, Tenant: a.T, Namespace: a.N, Scope: a.S, Role: a.R, ManageChildTenant: a.Manage}
	if a.Dead {
		t := past
		r.Expiry = &t
	}
	return r
}

func (r Req) real() v2.Request {
	return v2.Request{Principal: r.P, Tenant: r.T, Namespace: r.N, Scope: r.S, Resource: r.Res, Action: r.Act}
}

// Build makes the engine through the public API.
func Build(w *core.W, c *Cfg, logger ...*slog.Logger) *Sys {
	s := &Sys{A: v2.NewAuthorizer(logger...), Tenants: map[string]*v2.Tenant{}, Roles: map[string]*v2.Role{}}
	ids := keys(c.All)
	for _, id := range ids {
		t := c.All[id]
		rt := v2.NewTenant(id)
		for _, n := range keys(t.NS) {
			rt.AddNamespace(n, n == t.Default)
			for _, sc := range keys(t.NS[n]) {
				if err := rt.AddScopeToNamespace(n, v2.NewScope(sc)); err != nil {
					w.Failf("AddScopeToNamespace(%q,%q) on existing namespace: %v", n, sc, err)
				}
			}
			w.Op(1 + len(t.NS[n]))
		}
		if _, ok := t.NS[t.Default]; !ok && t.Default != "" {
			rt.DefaultNS = t.Default
		}
		rt.Status = v2.TenantStatus(t.Status)
		s.Tenants[id] = rt
		w.Logf("tenant %q default=%q namespaces=%v status=%d children=%v registered=%v", id, t.Default, t.NS, t.Status, t.Children, c.Registered[id])
	}
	for _, id := range ids {
		for _, ch := range c.All[id].Children {
			s.Tenants[id].AddChildTenant(s.Tenants[ch])
			w.Op(1)
		}
	}
	for _, id := range ids {
		if c.Registered[id] {
			s.A.AddTenant(s.Tenants[id])
			w.Op(1)
		}
	}
	for _, r := range keys(c.Roles) {
		rr := v2.NewRole(r)
		for _, p := range keys(c.Roles[r]) {
			rr.AddPermission(perm(p))
		}
		s.Roles[r] = rr
		s.A.AddRole(rr)
		w.Op(1 + len(c.Roles[r]))
		w.Logf("role %q permissions=%v children=%v", r, keys(c.Roles[r]), c.Edges[r])
	}
	for _, r := range keys(c.Edges) {
		for _, ch := range c.Edges[r] {
			if err := s.A.AddChildRole(r, ch); err != nil {
				w.Failf("AddChildRole(%q,%q) rejected although it closes no cycle: %v", r, ch, err)
			}
			w.Op(1)
		}
	}
	if c.Default != "" {
		s.A.SetDefaultTenant(c.Default)
		w.Logf("default tenant %q", c.Default)
	}
	for _, a := range c.Asgs {
		s.A.AddPrincipalRole(a.real())
		w.Op(1)
		w.Logf("assign %v", a)
	}
	return s
}
