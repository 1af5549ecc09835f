package v2c

import (
	"fmt"
	"strings"

	v2 "github.com/oarkflow/permission/v2"

	"verif/mc/core"
)

// ---- C32: several items in one call ----------------------------------------------------------------

// plural is a call that takes any number of items.
type plural struct {
	name  string
	items []string // what each item is
	base  func() *Cfg
	// call makes one call with the items and tells the model
	call func(h *hist, items []int)
	reqs []Req
	role []string
}

func calls32() []plural {
	two := func() *Cfg {
		c := NewCfg()
		for _, t := range []string{"t1", "t2", "t3"} {
			c.All[t] = &Ten{ID: t, Default: "n1", NS: map[string]map[string]bool{"n1": {"s1": true}}}
		}
		c.Registered["t1"] = true
		for _, r := range []string{"r1", "r2", "r3"} {
			c.Roles[r] = map[string]bool{"/" + r + " GET": true}
		}
		return c
	}
	R := []string{"r1", "r2", "r3"}
	acts := actsFor(R)
	tacts := []Req{{Res: "/r1", Act: "GET"}, {Res: "/r2", Act: "GET"}}
	pr := []string{"p"}
	var l []plural
	l = append(l, plural{name: "AddTenants", items: []string{"t1", "t2", "t3 with child t2", "another t1", "another t2"},
		base: func() *Cfg {
			c := two()
			c.Registered = map[string]bool{}
			c.All["t3"].Children = []string{"t2"}
			for _, t := range []string{"t1", "t2", "t3"} {
				c.Asgs = append(c.Asgs, Asg{P: "p", T: t, R: "r1", Manage: true})
			}
			c.Asgs = append(c.Asgs, Asg{P: "p", T: "t1", N: "n2", R: "r2"}, Asg{P: "p", T: "t2", N: "n2", R: "r2"})
			return c
		},
		call: func(h *hist, items []int) {
			var l []*v2.Tenant
			for _, k := range items {
				id := []string{"t1", "t2", "t3", "t1", "t2"}[k]
				x := h.s.Tenants[id]
				h.c.Registered[id] = true
				if k > 2 {
					x = v2.NewTenant(id, "n2")
					h.c.All[id] = &Ten{ID: id, Default: "n2", NS: map[string]map[string]bool{"n2": {}}}
				} else {
					h.c.All[id] = two().All[id]
					if k == 2 {
						h.c.All[id].Children = []string{"t2"}
					}
				}
				l = append(l, x)
			}
			h.s.A.AddTenants(l...)
			for i := range l {
				l[i] = nil
			}
		},
		reqs: product(pr, []string{"t1", "t2", "t3", ""}, []string{"", "n1", "n2"}, []string{""}, nil, tacts), role: R[:2]})
	l = append(l, plural{name: "AddRoles", items: []string{"r1", "r2", "another r1", "r3", "another r3"},
		base: func() *Cfg {
			c := two()
			c.Roles = map[string]map[string]bool{}
			c.Edges = map[string][]string{"r2": {"r3"}}
			c.Asgs = []Asg{{P: "p", T: "t1", R: "r1"}, {P: "p", T: "t1", N: "n1", R: "r2"}}
			return c
		},
		call: func(h *hist, items []int) {
			var l []*v2.Role
			for _, k := range items {
				r := []string{"r1", "r2", "r1", "r3", "r3"}[k]
				ps := "/" + r + " GET"
				if k == 2 || k == 4 {
					ps = "/other" + r + " GET"
				}
				x := v2.NewRole(r)
				x.AddPermission(perm(ps))
				h.c.Roles[r] = map[string]bool{ps: true}
				l = append(l, x)
			}
			h.s.A.AddRoles(l...)
			for i := range l {
				l[i] = nil
			}
		},
		reqs: product(pr, []string{"t1", ""}, []string{"", "n1"}, []string{""}, nil, append(append([]Req{}, acts...), Req{Res: "/otherr1", Act: "GET"}, Req{Res: "/otherr3", Act: "GET"})), role: R})
	ps := []string{"/a GET", "/b GET", "/a POST", "/:id/x GET", "/a b GET"}
	pq := []Req{{Res: "/a", Act: "GET"}, {Res: "/b", Act: "GET"}, {Res: "/a", Act: "POST"}, {Res: "/7/x", Act: "GET"}, {Res: "/a b", Act: "GET"}, {Res: "/b", Act: "POST"}}
	perms := func(c *Cfg, has bool) *Cfg {
		c.Roles = map[string]map[string]bool{"r1": {}}
		if has {
			for _, p := range ps {
				c.Roles["r1"][p] = true
			}
		}
		c.Asgs = []Asg{{P: "p", T: "t1", R: "r1"}}
		return c
	}
	change := func(do func(h *hist, l []*v2.Permission), add bool) func(h *hist, items []int) {
		return func(h *hist, items []int) {
			var l []*v2.Permission
			for _, k := range items {
				l = append(l, perm(ps[k]))
				if add {
					h.c.Roles["r1"][ps[k]] = true
				} else {
					delete(h.c.Roles["r1"], ps[k])
				}
			}
			do(h, l)
			for i := range l {
				l[i] = nil
			}
		}
	}
	l = append(l, plural{name: "AddPermission", items: ps, base: func() *Cfg { return perms(two(), false) },
		call: change(func(h *hist, l []*v2.Permission) { h.s.Roles["r1"].AddPermission(l...) }, true),
		reqs: product(pr, []string{"t1", ""}, []string{""}, []string{""}, nil, pq), role: R[:1]})
	l = append(l, plural{name: "RemovePermission", items: ps, base: func() *Cfg { return perms(two(), true) },
		call: change(func(h *hist, l []*v2.Permission) { h.s.Roles["r1"].RemovePermission(l...) }, false),
		reqs: product(pr, []string{"t1", ""}, []string{""}, []string{""}, nil, pq), role: R[:1]})
	for _, n := range []string{"n1", "n2", "absent"} {
		l = append(l, plural{name: "AddScopeToNamespace " + n, items: []string{"s1", "s2", "s3", "s4"},
			base: func() *Cfg {
				c := two()
				c.All["t1"].NS["n1"] = map[string]bool{"s4": true}
				c.All["t1"].NS["n2"] = map[string]bool{}
				c.Asgs = []Asg{{P: "p", T: "t1", R: "r1"}, {P: "p", T: "t1", S: "s2", R: "r2"}, {P: "p", T: "t1", N: "n2", S: "s3", R: "r3"}}
				return c
			},
			call: func(h *hist, items []int) {
				var l []*v2.Scope
				_, ok := h.c.All["t1"].NS[n]
				for _, k := range items {
					s := fmt.Sprintf("s%d", k+1)
					l = append(l, v2.NewScope(s))
					if ok {
						h.c.All["t1"].NS[n][s] = true
					}
				}
				if err := h.s.Tenants["t1"].AddScopeToNamespace(n, l...); (err == nil) != ok {
					h.w.Failf("AddScopeToNamespace %q: error %v, namespace there: %v", n, err, ok)
				}
				for i := range l {
					l[i] = nil
				}
			},
			reqs: product(pr, []string{"t1", ""}, []string{"", "n1", "n2", "absent"}, []string{"", "s1", "s2", "s3", "s4"}, nil, acts), role: R[:1]})
	}
	l = append(l, plural{name: "AddChildTenant", items: []string{"t2", "t3", "t4", "t5"},
		base: func() *Cfg {
			c := two()
			c.All["t4"] = &Ten{ID: "t4", Default: "n1", NS: map[string]map[string]bool{"n1": {}}}
			c.All["t5"] = &Ten{ID: "t5", Default: "n1", NS: map[string]map[string]bool{"n1": {}}}
			for t := range c.All {
				c.Registered[t] = true
			}
			c.All["t2"].Children = []string{"t5"}
			c.Asgs = []Asg{{P: "p", T: "t1", R: "r1", Manage: true}, {P: "p", T: "t4", R: "r2"}}
			return c
		},
		call: func(h *hist, items []int) {
			var l []*v2.Tenant
			for _, k := range items {
				id := fmt.Sprintf("t%d", k+2)
				l = append(l, h.s.Tenants[id])
				if !strings.Contains(strings.Join(h.c.All["t1"].Children, " "), id) {
					h.c.All["t1"].Children = append(h.c.All["t1"].Children, id)
				}
			}
			h.s.Tenants["t1"].AddChildTenant(l...)
			for i := range l {
				l[i] = nil
			}
		},
		reqs: product(pr, []string{"t1", "t2", "t3", "t4", "t5", ""}, []string{""}, []string{""}, nil, tacts), role: R[:2]})
	l = append(l, plural{name: "AddChildRole", items: []string{"r2", "r3", "r4", "r1", "unknown", "above"},
		base: func() *Cfg {
			c := two()
			c.Roles["r4"] = map[string]bool{"/r4 GET": true}
			c.Roles["above"] = map[string]bool{"/above GET": true}
			c.Edges["r2"] = []string{"r4"}
			c.Edges["above"] = []string{"r1"}
			c.Asgs = []Asg{{P: "p", T: "t1", R: "r1"}}
			return c
		},
		call: func(h *hist, items []int) {
			var l []string
			for _, k := range items {
				l = append(l, []string{"r2", "r3", "r4", "r1", "unknown", "above"}[k])
			}
			h.link("r1", append([]string{}, l...)...)
			// h.link hands its own slice over to the model, this one only to the engine
			if len(l) == 0 {
				return
			}
			again := append([]string{}, l...)
			err := h.s.A.AddChildRole("r1", again...)
			for i := range again {
				again[i] = "above"
			}
			cycle := false
			for _, c := range l {
				cycle = cycle || h.c.Reach(c, "r1")
			}
			if (err != nil) != cycle {
				h.w.Failf("link r1 -> %v again: error %v", l, err)
			}
		},
		reqs: product(pr, []string{"t1", ""}, []string{""}, []string{""}, nil, actsFor([]string{"r1", "r2", "r3", "r4", "above", "unknown"})), role: []string{"r1", "r2", "r3", "r4", "above", "unknown"}})
	asgs := []Asg{{P: "p", T: "t1", R: "r1"}, {P: "p", T: "t1", N: "n1", S: "s1", R: "r2"}, {P: "p", T: "t2", R: "r3", Manage: true}, {P: "q", T: "t1", R: "r2"}, {P: "p", T: "t1", R: "r3", Dead: true}}
	var an []string
	for _, a := range asgs {
		an = append(an, a.String())
	}
	l = append(l, plural{name: "AddPrincipalRole", items: an,
		base: func() *Cfg {
			c := two()
			c.Registered["t2"] = true
			c.Registered["t3"] = true
			c.All["t2"].Children = []string{"t3"}
			return c
		},
		call: func(h *hist, items []int) {
			var l []*v2.PrincipalRole
			for _, k := range items {
				l = append(l, asgs[k].real())
				h.c.Asgs = append(h.c.Asgs, asgs[k])
			}
			h.s.A.AddPrincipalRole(l...)
			for i := range l {
				l[i] = nil
			}
		},
		reqs: product([]string{"p", "q"}, []string{"t1", "t2", "t3", ""}, []string{"", "n1"}, []string{"", "s1"}, nil, acts), role: R})
	return l
}

// cut cuts the items into calls; a cut may have an empty call in it.
func cut(items []int, where int, empty bool) (calls [][]int) {
	var cur []int
	for i, x := range items {
		cur = append(cur, x)
		if i == len(items)-1 || where>>i&1 == 1 {
			calls = append(calls, cur)
			cur = nil
			if empty {
				calls = append(calls, nil)
			}
		}
	}
	if len(items) == 0 {
		calls = append(calls, nil)
	}
	return
}

func plural32(k plural, max int) core.Part {
	n := core.SeqsUpTo(len(k.items), max)
	cuts := 1 << (max - 1)
	return core.Part{Name: fmt.Sprintf("%s-%d", strings.ReplaceAll(k.name, " ", "-"), max), N: n * cuts * 4,
		Rule: fmt.Sprintf("%s: all lists of <=%d of %d items (repetition allowed) x every way to cut the list into calls x with and without empty calls between x questions at the end or after every call; the caller reuses the argument list; %d requests, %d role checks", k.name, max, len(k.items), len(k.reqs), len(k.role)),
		Run: func(w *core.W, i int) {
			d := core.Mixed(i, 2, 2, cuts, n)
			seq := core.Seq(len(k.items), max, d[3])
			if len(seq) > 0 && d[2]>>(len(seq)-1) != 0 || len(seq) == 0 && d[2] != 0 {
				return // the same cut again
			}
			h := newHist(w, k.base())
			if d[1] == 1 {
				h.ask(k.reqs, k.role, false)
			}
			for _, c := range cut(seq, d[2], d[0] == 1) {
				w.Logf("%s with items %v", k.name, c)
				k.call(h, c)
				w.Op(1)
				if d[1] == 1 {
					h.ask(k.reqs, k.role, false)
				}
			}
			w.State(h.c.Canon())
			h.ask(k.reqs, k.role, true)
		}}
}

// many32: one call with many items, the telling one at the first, a middle and the last place.
func many32(max int) core.Part {
	var at [][2]int
	for n := 0; n <= 16; n++ {
		for p := 0; p <= n; p++ {
			at = append(at, [2]int{n, p})
		}
	}
	at = append(at, core.Big(max)...)
	kinds := []string{"AddTenants", "AddRoles", "AddPermission", "RemovePermission", "AddScopeToNamespace", "AddChildTenant", "AddChildRole", "AddPrincipalRole", "Can"}
	return core.Part{Name: fmt.Sprintf("many-%d", max), N: len(at) * len(kinds) * 2,
		Rule: fmt.Sprintf("0..16 and %v items in one call of %v, the one asked about at every position (the larger: first, middle, last) or absent, with and without an earlier question", core.Sizes(max), kinds),
		Run: func(w *core.W, i int) {
			d := core.Mixed(i, 2, len(kinds), len(at))
			n, p := at[d[2]][0], at[d[2]][1]
			there := p >= 0 && p < n
			name := func(k int) string {
				if k == p {
					return "mark"
				}
				return fmt.Sprintf("x%d", k)
			}
			a := v2.NewAuthorizer()
			role := v2.NewRole("r")
			role.AddPermission(v2.NewPermission("c", "/r", "GET"))
			root := v2.NewTenant("t", "n")
			a.AddRole(role)
			a.AddTenant(root)
			a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: "t", Role: "r", ManageChildTenant: true})
			warm := func() {
				if d[0] == 1 {
					a.Authorize(v2.Request{Principal: "p", Tenant: "t", Resource: "/mark", Action: "GET"})
					a.Authorize(v2.Request{Principal: "p", Resource: "/mark", Action: "GET"})
					a.Can(v2.Request{Principal: "p", Tenant: "t"}, "mark")
				}
			}
			check := func(what string, got, want bool) {
				w.Query(want)
				if got != want {
					w.Failf("%s with %d items, the asked one at %d: got %v, want %v (%s)", kinds[d[1]], n, p, got, want, what)
				}
			}
			w.Logf("%s with %d items, the asked one at %d, asked before: %v", kinds[d[1]], n, p, d[0] == 1)
			w.Op(n)
			ask := func(t, sc, res string) bool {
				return a.Authorize(v2.Request{Principal: "p", Tenant: t, Scope: sc, Resource: res, Action: "GET"})
			}
			switch kinds[d[1]] {
			case "AddTenants":
				var l []*v2.Tenant
				for k := 0; k < n; k++ {
					l = append(l, v2.NewTenant(name(k), "n"))
				}
				a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: "mark", Role: "r"})
				warm()
				a.AddTenants(l...)
				check("request there", ask("mark", "", "/r"), there)
				_, ok := a.GetTenant("mark")
				check("looked up", ok, there)
			case "AddRoles":
				var l []*v2.Role
				for k := 0; k < n; k++ {
					x := v2.NewRole(name(k))
					x.AddPermission(v2.NewPermission("c", "/"+name(k), "GET"))
					l = append(l, x)
				}
				a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: "t", Role: "mark"})
				warm()
				a.AddRoles(l...)
				check("request", ask("t", "", "/mark"), there)
				_, ok := a.GetRole("mark")
				check("looked up", ok, there)
			case "AddPermission", "RemovePermission":
				var l []*v2.Permission
				for k := 0; k < n; k++ {
					l = append(l, v2.NewPermission("c", "/"+name(k), "GET"))
				}
				remove := kinds[d[1]] == "RemovePermission"
				if remove {
					role.AddPermission(v2.NewPermission("c", "/mark", "GET"))
				}
				warm()
				if remove {
					role.RemovePermission(l...)
				} else {
					role.AddPermission(l...)
				}
				check("request", ask("t", "", "/mark"), there != remove)
				check("other request", ask("t", "", "/r"), true)
			case "AddScopeToNamespace":
				var l []*v2.Scope
				for k := 0; k < n; k++ {
					l = append(l, v2.NewScope(name(k)))
				}
				warm()
				if err := root.AddScopeToNamespace("n", l...); err != nil {
					w.Failf("AddScopeToNamespace: %v", err)
				}
				check("request", ask("t", "mark", "/r"), there)
			case "AddChildTenant":
				a.AddTenant(v2.NewTenant("mark", "n"))
				x := v2.NewRole("mark")
				x.AddPermission(v2.NewPermission("c", "/mark", "GET"))
				a.AddRole(x)
				a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: "mark", Role: "mark"})
				var l []*v2.Tenant
				for k := 0; k < n; k++ {
					x := v2.NewTenant(name(k), "n")
					if k == p {
						x, _ = a.GetTenant("mark")
					} else {
						a.AddTenant(x)
					}
					l = append(l, x)
				}
				warm()
				root.AddChildTenant(l...)
				check("request above", ask("t", "", "/mark"), there)
				check("role above", a.Can(v2.Request{Principal: "p", Tenant: "t"}, "mark"), there)
			case "AddChildRole":
				x := v2.NewRole("mark")
				x.AddPermission(v2.NewPermission("c", "/mark", "GET"))
				a.AddRole(x)
				var l []string
				for k := 0; k < n; k++ {
					l = append(l, name(k))
				}
				warm()
				if err := a.AddChildRole("r", l...); err != nil {
					w.Failf("AddChildRole: %v", err)
				}
				check("request", ask("t", "", "/mark"), there)
				check("role", a.Can(v2.Request{Principal: "p", Tenant: "t"}, "mark"), there)
				if there {
					l[p] = "r"
					if err := a.AddChildRole("mark", l...); err == nil {
						w.Failf("AddChildRole accepted a cycle")
					}
					check("the cycle", a.Can(v2.Request{Principal: "p", Tenant: "t"}, "mark"), there)
				}
			case "AddPrincipalRole":
				var l []*v2.PrincipalRole
				for k := 0; k < n; k++ {
					l = append(l, &v2.PrincipalRole{Principal: "p", Tenant: "t", Role: name(k)})
				}
				x := v2.NewRole("mark")
				x.AddPermission(v2.NewPermission("c", "/mark", "GET"))
				a.AddRole(x)
				warm()
				a.AddPrincipalRole(l...)
				check("request", ask("t", "", "/mark"), there)
				check("role", a.Can(v2.Request{Principal: "p", Tenant: "t"}, "mark"), there)
			case "Can":
				x := v2.NewRole("mark")
				a.AddRole(x)
				a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: "t", Role: "mark"})
				var l []string
				for k := 0; k < n; k++ {
					l = append(l, name(k))
				}
				warm()
				keep := append([]string{}, l...)
				check("any of the roles", a.Can(v2.Request{Principal: "p", Tenant: "t"}, l...), there)
				check("any of the roles, no tenant named", a.Can(v2.Request{Principal: "p"}, l...), there)
				for k := range l {
					if l[k] != keep[k] {
						w.Failf("Can changed the caller's list at %d", k)
					}
				}
			}
			w.State(fmt.Sprint("many", d))
		}}
}

func init() {
	core.Register(&core.Check{ID: "C32", Parts: func(tier string) (ps []core.Part) {
		max, big := 4, 1100
		if tier == "thorough" {
			max, big = 6, 1100
		}
		for _, k := range calls32() {
			m := max
			if tier != "thorough" && len(k.reqs) > 12 {
				m = 3
			}
			if tier == "thorough" && len(k.items) > 4 {
				m = 5
			}
			ps = append(ps, plural32(k, m))
		}
		return append(ps, many32(big))
	}})
}
