// Package rolec decides the properties of roles and catalogues of the root and v1 engines.
package rolec

import (
	permission "github.com/oarkflow/permission"
	v1 "github.com/oarkflow/permission/v1"
)

// role and group are the common face of both engines.
type role interface {
	Has(g, a string, allowed ...string) bool
	Lock()
	Unlock()
	ID() string
	Link(ds ...role) error
	Grant(g string, perms ...string) error // "resource action"
	Take(g group) error
	Own() map[string][]string
	Implicit() map[string][]string
	OwnIn(g string) []string
	Below() []string
	Spoil() // change everything the role's getters return
}

type group interface{ Add(perms ...string) }

type engine struct {
	name     string
	newRole  func(id string) role
	newGroup func(id string) group
}

func split(s string) (string, string) {
	for i := len(s) - 1; i >= 0; i-- {
		if s[i] == ' ' {
			return s[:i], s[i+1:]
		}
	}
	return s, ""
}

// runs groups consecutive permissions of one resource: the resource followed by its actions.
func runs(perms []string) (l [][]string) {
	for _, p := range perms {
		r, a := split(p)
		if n := len(l); n > 0 && l[n-1][0] == r {
			l[n-1] = append(l[n-1], a)
		} else {
			l = append(l, []string{r, a})
		}
	}
	return l
}

// ---- root

type rootRole struct{ *permission.Role }
type rootGroup struct{ *permission.AttributeGroup }

func rattr(s string) *permission.Attribute {
	r, a := split(s)
	return permission.NewAttribute(r, a)
}
func (r rootRole) Link(ds ...role) error {
	var l []*permission.Role
	for _, d := range ds {
		l = append(l, d.(rootRole).Role)
	}
	return r.AddDescendant(l...)
}
func (r rootRole) Grant(g string, perms ...string) error {
	var l []*permission.Attribute
	for _, run := range runs(perms) {
		l = append(l, permission.NewAttributes(run[0], run[1:]...)...)
	}
	return r.AddPermission(g, l...)
}
func (r rootRole) Take(g group) error {
	return r.AddPermissionResourceGroup(g.(rootGroup).AttributeGroup)
}
func rstr(m map[string][]permission.Attribute) map[string][]string {
	o := map[string][]string{}
	for g, l := range m {
		for _, a := range l {
			o[g] = append(o[g], a.String())
		}
	}
	return o
}
func (r rootRole) Own() map[string][]string      { return rstr(r.GetPermissions()) }
func (r rootRole) Implicit() map[string][]string { return rstr(r.GetAllImplicitPermissions()) }
func (r rootRole) OwnIn(g string) (l []string) {
	for _, a := range r.GetResourceGroupPermissions(g) {
		l = append(l, a.String())
	}
	return l
}
func (r rootRole) Below() (l []string) {
	for _, d := range r.GetDescendantRoles() {
		l = append(l, d.ID())
	}
	return l
}
func (g rootGroup) Add(perms ...string) {
	for _, p := range perms {
		g.AddAttributes(rattr(p))
	}
}

// ---- v1

type v1Role struct{ *v1.Role }
type v1Group struct{ *v1.AttributeGroup }

func vattr(s string) *v1.Attribute {
	r, a := split(s)
	return v1.NewAttribute(r, a)
}
func (r v1Role) Link(ds ...role) error {
	var l []*v1.Role
	for _, d := range ds {
		l = append(l, d.(v1Role).Role)
	}
	return r.AddDescendent(l...)
}
func (r v1Role) Grant(g string, perms ...string) error {
	var l []*v1.Attribute
	for _, run := range runs(perms) {
		l = append(l, v1.NewAttributes(run[0], run[1:]...)...)
	}
	return r.AddPermission(g, l...)
}
func (r v1Role) Take(g group) error { return r.AddPermissionResourceGroup(g.(v1Group).AttributeGroup) }
func vstr(m map[string][]v1.Attribute) map[string][]string {
	o := map[string][]string{}
	for g, l := range m {
		for _, a := range l {
			o[g] = append(o[g], a.String())
		}
	}
	return o
}
func (r v1Role) Own() map[string][]string      { return vstr(r.GetPermissions()) }
func (r v1Role) Implicit() map[string][]string { return vstr(r.GetAllImplicitPermissions()) }
func (r v1Role) OwnIn(g string) (l []string) {
	for _, a := range r.GetResourceGroupPermissions(g) {
		l = append(l, a.String())
	}
	return l
}
func (r v1Role) Below() (l []string) {
	for _, d := range r.GetDescendantRoles() {
		l = append(l, d.ID())
	}
	return l
}
func (g v1Group) Add(perms ...string) {
	for _, p := range perms {
		g.AddAttributes(vattr(p))
	}
}

var engines = []engine{
	{"root", func(id string) role { return rootRole{permission.NewRole(id)} }, func(id string) group { return rootGroup{permission.NewAttributeGroup(id)} }},
	{"v1", func(id string) role { return v1Role{v1.NewRole(id)} }, func(id string) group { return v1Group{v1.NewAttributeGroup(id)} }},
}

func (r rootRole) Spoil() {
	for _, m := range []map[string][]permission.Attribute{r.GetPermissions(), r.GetAllImplicitPermissions()} {
		for g, l := range m {
			for k := range l {
				l[k] = *permission.NewAttribute("/spoilt", "GET")
			}
			_ = append(l[:0], *permission.NewAttribute("/spoilt", "GET"))
			delete(m, g)
		}
		m["spoilt"] = []permission.Attribute{*permission.NewAttribute("/spoilt", "GET")}
	}
	for g := range r.GetPermissions() {
		l := r.GetResourceGroupPermissions(g)
		for k := range l {
			l[k] = nil
		}
	}
	l := r.GetDescendantRoles()
	for k := range l {
		l[k] = nil
	}
}

func (r v1Role) Spoil() {
	for _, m := range []map[string][]v1.Attribute{r.GetPermissions(), r.GetAllImplicitPermissions()} {
		for g, l := range m {
			for k := range l {
				l[k] = *v1.NewAttribute("/spoilt", "GET")
			}
			_ = append(l[:0], *v1.NewAttribute("/spoilt", "GET"))
			delete(m, g)
		}
		m["spoilt"] = []v1.Attribute{*v1.NewAttribute("/spoilt", "GET")}
	}
	for g := range r.GetPermissions() {
		l := r.GetResourceGroupPermissions(g)
		for k := range l {
			l[k] = nil
		}
	}
	l := r.GetDescendantRoles()
	for k := range l {
		l[k] = nil
	}
}
