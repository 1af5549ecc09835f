package v2c

import (
	"fmt"

	v2 "github.com/oarkflow/permission/v2"

	"verif/mc/core"
)

// Configuration objects are made by the caller and may be handed over later, to several engines, again,
// or in place of another object of the same id, and change before and after that. pair holds the objects
// and two engines; the models of both share the models of the objects.
type pair struct {
	e     [2]*hist
	roles map[string]*v2.Role
	perms map[string]map[string]bool
	tens  map[string]*v2.Tenant
	tmod  map[string]*Ten
}

func newPair(w *core.W) *pair {
	x := &pair{roles: map[string]*v2.Role{}, perms: map[string]map[string]bool{}, tens: map[string]*v2.Tenant{}, tmod: map[string]*Ten{}}
	for _, r := range []struct{ obj, id, p string }{{"r1a", "r1", "/a GET"}, {"r1b", "r1", "/b GET"}, {"r2", "r2", "/c GET"}} {
		x.roles[r.obj] = v2.NewRole(r.id)
		x.roles[r.obj].AddPermission(perm(r.p))
		x.perms[r.obj] = map[string]bool{r.p: true}
	}
	for _, t := range []struct{ obj, id, n string }{{"t1a", "t1", "n1"}, {"t1b", "t1", "n2"}, {"t2", "t2", "n1"}} {
		x.tens[t.obj] = v2.NewTenant(t.id, t.n)
		x.tmod[t.obj] = &Ten{ID: t.id, Default: t.n, NS: map[string]map[string]bool{t.n: {}}}
	}
	for i := range x.e {
		x.e[i] = newHist(w, NewCfg())
		x.e[i].c.All["t2"] = x.tmod["t2"]
		x.register(i, "r1a")
		x.tenant(i, "t1a")
		x.e[i].assign(Asg{P: "p", T: "t1", R: "r1"})
	}
	x.register(0, "r2")
	return x
}

func (x *pair) register(i int, objs ...string) {
	var l []*v2.Role
	for _, o := range objs {
		l = append(l, x.roles[o])
		x.e[i].c.Roles[x.roles[o].Name] = x.perms[o]
	}
	x.e[i].s.A.AddRoles(l...)
}

func (x *pair) tenant(i int, objs ...string) {
	var l []*v2.Tenant
	for _, o := range objs {
		l = append(l, x.tens[o])
		x.e[i].c.All[x.tens[o].ID] = x.tmod[o]
		x.e[i].c.Registered[x.tens[o].ID] = true
	}
	x.e[i].s.A.AddTenants(l...)
}

func (x *pair) perm(obj, p string, add bool) {
	if add {
		x.roles[obj].AddPermission(perm(p))
		x.perms[obj][p] = true
	} else {
		x.roles[obj].RemovePermission(perm(p))
		delete(x.perms[obj], p)
	}
}

func (x *pair) namespace(obj, n string, def bool) {
	x.tens[obj].AddNamespace(n, def)
	if x.tmod[obj].NS[n] == nil {
		x.tmod[obj].NS[n] = map[string]bool{}
	}
	if def {
		x.tmod[obj].Default = n
	}
}

func (x *pair) scope(obj, n, s string) {
	if err := x.tens[obj].AddScopeToNamespace(n, v2.NewScope(s)); (err == nil) != (x.tmod[obj].NS[n] != nil) {
		x.e[0].w.Failf("add scope %s to %s/%s: error %v", s, obj, n, err)
	}
	if x.tmod[obj].NS[n] != nil {
		x.tmod[obj].NS[n][s] = true
	}
}

func (x *pair) child(obj string) {
	x.tens[obj].AddChildTenant(x.tens["t2"])
	x.tmod[obj].Children = []string{"t2"}
}

type pop struct {
	name string
	do   func(x *pair)
}

func pairOps() []pop {
	ops := []pop{
		{"r1a += /x", func(x *pair) { x.perm("r1a", "/x GET", true) }},
		{"r1a -= /a", func(x *pair) { x.perm("r1a", "/a GET", false) }},
		{"r1b += /x", func(x *pair) { x.perm("r1b", "/x GET", true) }},
		{"r1b -= /b", func(x *pair) { x.perm("r1b", "/b GET", false) }},
		{"r2 -= /c", func(x *pair) { x.perm("r2", "/c GET", false) }},
		{"t1a default n2", func(x *pair) { x.namespace("t1a", "n2", true) }},
		{"t1b namespace n1", func(x *pair) { x.namespace("t1b", "n1", false) }},
		{"t1b/n2 scope s1", func(x *pair) { x.scope("t1b", "n2", "s1") }},
		{"t1a child t2", func(x *pair) { x.child("t1a") }},
		{"t1b child t2", func(x *pair) { x.child("t1b") }},
	}
	for i := 0; i < 2; i++ {
		n := fmt.Sprintf("engine %d: ", i)
		ops = append(ops,
			pop{n + "register r1b", func(x *pair) { x.register(i, "r1b") }},
			pop{n + "register r1a, r2", func(x *pair) { x.register(i, "r1a", "r2") }},
			pop{n + "link r1->r2", func(x *pair) { x.e[i].link("r1", "r2") }},
			pop{n + "register t1b", func(x *pair) { x.tenant(i, "t1b") }},
			pop{n + "register t2, t1a", func(x *pair) { x.tenant(i, "t2", "t1a") }},
			pop{n + "assign p t2 r2", func(x *pair) { x.e[i].assign(Asg{P: "p", T: "t1", Manage: true}, Asg{P: "p", T: "t2", R: "r2"}) }},
			pop{n + "default t1", func(x *pair) { x.e[i].defTenant("t1") }},
			pop{n + "revoke r1", func(x *pair) { x.e[i].remove(Asg{R: "r1"}) }})
	}
	return append(ops, pop{"engine 1: link r2->r1", func(x *pair) { x.e[1].link("r2", "r1") }})
}

func pairPart(depth int) core.Part { return pairPartOf(0, depth) }

func pairPartOf(m mode, depth int) core.Part {
	ops := pairOps()
	reqs := product([]string{"p"}, []string{"", "t1"}, []string{"", "n1"}, []string{"", "s1"}, nil, []Req{{Res: "/a", Act: "GET"}, {Res: "/b", Act: "GET"}, {Res: "/c", Act: "GET"}, {Res: "/x", Act: "GET"}})
	R := []string{"r1", "r2"}
	nseq := core.SeqsUpTo(len(ops), depth)
	return core.Part{Name: fmt.Sprintf("objects-%d", depth), N: nseq * 2,
		Rule: fmt.Sprintf("two engines sharing role and tenant objects, with objects prepared beforehand, replacing each other and changing before and after registration: all sequences of <=%d of %d calls, both engines asked %d requests and %d roles at the end, or after every call", depth, len(ops), len(reqs), len(R)),
		Run: func(w *core.W, i int) {
			x := newPair(w)
			x.e[0].m, x.e[1].m = m, m
			ask := func(k int) {
				for j := range x.e {
					x.e[(j+k)%2].ask(reqs, R, k%2 == 1)
				}
			}
			if i%2 == 1 {
				ask(0)
			}
			seq := core.Seq(len(ops), depth, i/2)
			for k, o := range seq {
				w.Logf("call %s", ops[o].name)
				ops[o].do(x)
				w.Op(1)
				if i%2 == 1 && k < len(seq)-1 {
					ask(k + 1)
				}
			}
			w.State(x.e[0].c.Canon() + x.e[1].c.Canon())
			ask(0)
			ask(1)
		}}
}
