package v2c

import (
	"fmt"

	"verif/mc/core"
)

// space is a finite set of configurations, each to be asked all its queries.
type space struct {
	name  string
	rule  string
	n     int
	at    func(i int) *Cfg
	reqs  func(i int, c *Cfg) []Req
	roleq [][]string // role lists asked in role checks
	// roleqOf, if set, gives them per configuration
	roleqOf func(i int) [][]string
}

// names gives ids for the entity kinds; in the colliding scheme all kinds share the same ids, so
// that any confusion of positions shows.
type names struct{ P, T, N, S, R []string }

var schemes = []names{
	{P: []string{"p", "q"}, T: []string{"t1", "t2", "t3", "t4"}, N: []string{"n1", "n2"}, S: []string{"s1", "s2"}, R: []string{"r1", "r2", "r3", "r4"}},
	{P: []string{"a", "b"}, T: []string{"a", "b", "c", "d"}, N: []string{"a", "b"}, S: []string{"a", "b"}, R: []string{"a", "b", "c", "d"}},
	{P: []string{"x", "x1"}, T: []string{"x", "x1", "x11", "x2"}, N: []string{"x", "x1"}, S: []string{"x", "x1"}, R: []string{"x", "x1", "x11", "x2"}},
}

func permOf(r string) string { return "/" + r + " GET" }

// baseTenants: t1 > t2 > t3 chain, t4 apart; two namespaces with scopes each, n1 default.
func baseTenants(c *Cfg, nm names) {
	for i, id := range nm.T {
		t := &Ten{ID: id, Default: nm.N[0], NS: map[string]map[string]bool{
			nm.N[0]: {nm.S[0]: true, nm.S[1]: true}, nm.N[1]: {nm.S[0]: true}}}
		if i == 0 {
			t.Children = []string{nm.T[1]}
		}
		if i == 1 {
			t.Children = []string{nm.T[2]}
		}
		c.All[id] = t
		c.Registered[id] = true
	}
}

// baseRoles: r1 > r2 > r3, r4 apart; each has one permission of its own.
func baseRoles(c *Cfg, nm names) {
	for _, r := range nm.R {
		c.Roles[r] = map[string]bool{permOf(r): true}
	}
	c.Edges[nm.R[0]] = []string{nm.R[1]}
	c.Edges[nm.R[1]] = []string{nm.R[2]}
}

func product(ps, ts, ns, ss, rs []string, acts []Req) []Req {
	var out []Req
	for _, p := range ps {
		for _, t := range ts {
			for _, n := range ns {
				for _, s := range ss {
					for _, a := range acts {
						out = append(out, Req{p, t, n, s, a.Res, a.Act})
					}
				}
			}
		}
	}
	return out
}

func actsFor(roles []string) []Req {
	var a []Req
	for _, r := range roles {
		a = append(a, Req{Res: "/" + r, Act: "GET"})
	}
	return a
}

// assignment universe over a naming scheme
func asgUniverse(nm names, ps, ts, ns, ss, rs []string, mng, dead bool) []Asg {
	var u []Asg
	for _, p := range ps {
		for _, t := range ts {
			for _, n := range ns {
				for _, s := range ss {
					for _, r := range rs {
						u = append(u, Asg{P: p, T: t, N: n, S: s, R: r})
						if mng {
							u = append(u, Asg{P: p, T: t, N: n, S: s, R: r, Manage: true})
						}
						if dead {
							u = append(u, Asg{P: p, T: t, N: n, S: s, R: r, Dead: true}, Asg{P: p, T: t, N: n, S: s, R: r, Dead: true, Manage: true})
						}
					}
				}
			}
		}
	}
	return u
}

func blank(s ...string) []string { return append([]string{""}, s...) }

// spAssign: every ordered pair (with repetition) of assignments from a universe covering every
// combination of same/other principal, tenant, namespace, scope, role and management.
func spAssign(scheme int) space {
	nm := schemes[scheme]
	u := asgUniverse(nm, nm.P, nm.T[:3], blank(nm.N...), blank(nm.S...), []string{nm.R[0], nm.R[2]}, true, false)
	n := core.SeqsUpTo(len(u), 2)
	q := product(nm.P, blank(nm.T...), blank(nm.N...), blank(append(nm.S, "zz")...), nil, actsFor([]string{nm.R[0], nm.R[2], nm.R[3]}))
	return space{
		name: fmt.Sprintf("assignments-s%d", scheme), n: n,
		rule: fmt.Sprintf("all ordered lists of <=2 of %d assignments (2 principals x 3 tenants in a chain x 3 namespaces x 3 scopes x 2 roles x manage) x all %d requests; id scheme %d", len(u), len(q), scheme),
		at: func(i int) *Cfg {
			c := NewCfg()
			baseTenants(c, nm)
			baseRoles(c, nm)
			for _, k := range core.Seq(len(u), 2, i) {
				c.Asgs = append(c.Asgs, u[k])
			}
			return c
		},
		reqs:  func(int, *Cfg) []Req { return q },
		roleq: [][]string{{nm.R[0]}, {nm.R[2]}, {nm.R[3], nm.R[1]}},
	}
}

// spAssign3: all 3-subsets over one principal's richer universe, with expired assignments.
func spAssign3(k int) space {
	nm := schemes[0]
	u := asgUniverse(nm, nm.P[:1], nm.T[:2], blank(nm.N...), blank(nm.S...), []string{nm.R[0], nm.R[2]}, true, true)
	n := core.SubsetsUpTo(len(u), k)
	q := product(nm.P[:1], blank(nm.T[:2]...), blank(nm.N...), blank(nm.S...), nil, actsFor([]string{nm.R[0], nm.R[2]}))
	return space{
		name: fmt.Sprintf("assignment-subsets-%d", k), n: n,
		rule: fmt.Sprintf("all subsets of <=%d of %d assignments (1 principal x 2 tenants x 3 namespaces x 3 scopes x 2 roles x manage x expired) x %d requests", k, len(u), len(q)),
		at: func(i int) *Cfg {
			c := NewCfg()
			baseTenants(c, nm)
			baseRoles(c, nm)
			for _, k := range core.Subset(len(u), k, i) {
				c.Asgs = append(c.Asgs, u[k])
			}
			return c
		},
		reqs:  func(int, *Cfg) []Req { return q },
		roleq: [][]string{{nm.R[0]}, {nm.R[1]}},
	}
}

// spTrees: every child relation over m tenants (cycles and self-links included) with, per tenant,
// one of: nothing, plain, managing, managing without role, expired managing, other's managing.
func spTrees(m int) space {
	nm := schemes[0]
	kinds := 6
	rad := []int{1 << (m * m)}
	for i := 0; i < m; i++ {
		rad = append(rad, kinds)
	}
	if m > 3 { // only the strictly upper links: all DAGs in topological order
		rad[0] = 1 << (m * (m - 1) / 2)
	}
	q := product(nm.P, blank(nm.T[:m]...), []string{""}, []string{""}, nil, actsFor(nm.R[:m]))
	return space{
		name: fmt.Sprintf("tenant-trees-%d", m), n: core.Prod(rad...),
		rule: fmt.Sprintf("every child relation over %d tenants x per tenant one of {none, role, role+manage, manage only, expired role+manage, other principal's role+manage} x %d requests", m, len(q)),
		at: func(i int) *Cfg {
			d := core.Mixed(i, rad...)
			c := NewCfg()
			baseRoles(c, nm)
			c.Edges = map[string][]string{}
			bit := 0
			for a := 0; a < m; a++ {
				t := &Ten{ID: nm.T[a], Default: nm.N[0], NS: map[string]map[string]bool{nm.N[0]: {}}}
				for b := 0; b < m; b++ {
					if m > 3 && b <= a {
						continue
					}
					if d[0]>>bit&1 == 1 {
						t.Children = append(t.Children, nm.T[b])
					}
					bit++
				}
				c.All[nm.T[a]] = t
				c.Registered[nm.T[a]] = true
			}
			for a := 0; a < m; a++ {
				x := Asg{P: nm.P[0], T: nm.T[a], R: nm.R[a]}
				switch d[1+a] {
				case 0:
					continue
				case 2:
					x.Manage = true
				case 3:
					x.Manage, x.R = true, ""
				case 4:
					x.Manage, x.Dead = true, true
				case 5:
					x.Manage, x.P = true, nm.P[1]
				}
				c.Asgs = append(c.Asgs, x)
			}
			return c
		},
		reqs:  func(int, *Cfg) []Req { return q },
		roleq: [][]string{{nm.R[0]}, {nm.R[1]}, {nm.R[2]}},
	}
}

// spRoles: every acyclic inheritance relation over m roles, with every subset of them registered.
func spRoles(m int) space {
	R := []string{"r1", "r2", "r3", "r4", "r5"}[:m]
	graphs := dags(m)
	rad := []int{len(graphs), 1 << m, m}
	acts := actsFor(R)
	return space{
		name: fmt.Sprintf("role-graphs-%d", m), n: core.Prod(rad...),
		rule: fmt.Sprintf("all %d acyclic inheritance relations over %d roles x every registered subset x every assigned role x one request per permission", len(graphs), m),
		at: func(i int) *Cfg {
			d := core.Mixed(i, rad...)
			c := NewCfg()
			c.All["t"] = &Ten{ID: "t", NS: map[string]map[string]bool{"n": {"s": true}}}
			c.Registered["t"] = true
			for k, r := range R {
				if d[1]>>k&1 == 1 {
					c.Roles[r] = map[string]bool{permOf(r): true}
				}
				for j := range R {
					if graphs[d[0]]>>(k*m+j)&1 == 1 {
						c.Edges[r] = append(c.Edges[r], R[j])
					}
				}
			}
			c.Asgs = []Asg{{P: "p", T: "t", R: R[d[2]]}}
			return c
		},
		reqs: func(int, *Cfg) []Req {
			return product([]string{"p"}, []string{"t"}, []string{""}, []string{"", "s"}, nil, acts)
		},
		roleq: func() (l [][]string) {
			for _, r := range R {
				l = append(l, []string{r})
			}
			return append(l, []string{permOf(R[0])}, []string{})
		}(),
	}
}

var dagCache = map[int][]int{}

// dags lists all acyclic relations over m nodes as bit masks (row*m+col).
func dags(m int) []int {
	if g, ok := dagCache[m]; ok {
		return g
	}
	seen := map[int]bool{}
	var out []int
	// every DAG is a subset of a total order's upper triangle
	for p := 0; p < core.Fact(m); p++ {
		ord := core.Perm(m, p)
		var bits []int
		for i := 0; i < m; i++ {
			for j := i + 1; j < m; j++ {
				bits = append(bits, ord[i]*m+ord[j])
			}
		}
		for s := 0; s < 1<<len(bits); s++ {
			g := 0
			for k, b := range bits {
				if s>>k&1 == 1 {
					g |= 1 << b
				}
			}
			if !seen[g] {
				seen[g] = true
				out = append(out, g)
			}
		}
	}
	dagCache[m] = out
	return out
}

// spPatterns: permission patterns against requests, through the engine.
func spPatterns() space {
	res := []string{"", "/a", "/a/b", "/:x", "/a/:x", "/:x/b", "*", "/a/*", "/a*", "a b", "/:x/:y", "/a:b"}
	act := []string{"", "GET", ":m", "*", "G*", "POST"}
	var perms []string
	for _, r := range res {
		for _, a := range act {
			perms = append(perms, r+" "+a)
		}
	}
	var q []Req
	for _, r := range []string{"", "/", "/a", "/a/", "/a/b", "/b", "/b/b", "/ab", "a", "/a GET", "/a/b/c", ":x", "*"} {
		for _, a := range []string{"", "GET", "POST", "G", "GET x", "/b"} {
			q = append(q, Req{P: "p", T: "t", Res: r, Act: a})
		}
	}
	n := core.SubsetsUpTo(len(perms), 2)
	return space{
		name: "patterns", n: n,
		rule: fmt.Sprintf("every set of <=2 of %d permission patterns x %d resource/action requests", len(perms), len(q)),
		at: func(i int) *Cfg {
			c := NewCfg()
			c.All["t"] = &Ten{ID: "t", NS: map[string]map[string]bool{"n": {}}}
			c.Registered["t"] = true
			m := map[string]bool{}
			for _, k := range core.Subset(len(perms), 2, i) {
				m[perms[k]] = true
			}
			c.Roles["r"] = m
			c.Asgs = []Asg{{P: "p", T: "t", R: "r"}}
			return c
		},
		reqs: func(int, *Cfg) []Req { return q },
	}
}

// spLadder: growing numbers of one kind of entity with the deciding one at every position.
func spLadder(max int) space {
	var at [][2]int
	for n := 1; n <= max; n++ {
		for p := 0; p < n; p++ {
			at = append(at, [2]int{n, p})
		}
	}
	sp := ladderOf(at, false)
	sp.name = fmt.Sprintf("size-ladder-%d", max)
	sp.rule = fmt.Sprintf("1..%d %s, the one that decides at every position", max, sp.rule)
	return sp
}

// spBig: a few large numbers, the deciding one first, in the middle, last or absent.
func spBig(max int) space {
	sp := ladderOf(core.Big(max), true)
	sp.name = fmt.Sprintf("big-%d", max)
	sp.rule = fmt.Sprintf("%v %s, the one that decides first, in the middle, last or absent", core.Sizes(max), sp.rule)
	return sp
}

func ladderOf(at [][2]int, big bool) space {
	kinds := []string{"assignments", "tenants", "roles-wide", "roles-deep", "permissions", "tenant-depth", "tenant-width", "namespaces", "scopes", "others", "tenants-other"}
	type cs struct {
		kind, n, pos int
	}
	var cases []cs
	for k := range kinds {
		for _, x := range at {
			cases = append(cases, cs{k, x[0], x[1]})
		}
	}
	return space{
		n:    len(cases),
		rule: "assignments/tenants/roles/permissions/tenant depth and width/namespaces/scopes/other principals",
		at: func(i int) *Cfg {
			x := cases[i]
			c := NewCfg()
			id := func(p string, k int) string { return fmt.Sprintf("%s%d", p, k) }
			ten := func(t string) *Ten {
				n := &Ten{ID: t, NS: map[string]map[string]bool{"n": {"s": true}}}
				c.All[t] = n
				c.Registered[t] = true
				return n
			}
			c.Roles["good"] = map[string]bool{"/good GET": true}
			c.Roles["bad"] = map[string]bool{"/bad GET": true}
			role := func(k int) string {
				if k == x.pos {
					return "good"
				}
				return "bad"
			}
			switch kinds[x.kind] {
			case "assignments":
				ten("t")
				for k := 0; k < x.n; k++ {
					c.Asgs = append(c.Asgs, Asg{P: "p", T: "t", R: role(k)})
				}
			case "tenants":
				for k := 0; k < x.n; k++ {
					ten(id("t", k))
					c.Asgs = append(c.Asgs, Asg{P: "p", T: id("t", k), R: role(k)})
				}
			case "tenants-other":
				// the deciding tenant belongs to another principal: never granted
				for k := 0; k < x.n; k++ {
					ten(id("t", k))
					a := Asg{P: "p", T: id("t", k), R: role(k)}
					if k == x.pos {
						a.P = "q"
					}
					c.Asgs = append(c.Asgs, a)
				}
			case "roles-wide":
				ten("t")
				c.Roles["top"] = map[string]bool{}
				for k := 0; k < x.n; k++ {
					r := id("r", k)
					c.Roles[r] = map[string]bool{"/" + role(k) + " GET": true}
					c.Edges["top"] = append(c.Edges["top"], r)
				}
				c.Asgs = []Asg{{P: "p", T: "t", R: "top"}}
			case "roles-deep":
				ten("t")
				for k := 0; k < x.n; k++ {
					r := id("r", k)
					c.Roles[r] = map[string]bool{"/" + role(k) + " GET": true}
					if k > 0 {
						c.Edges[id("r", k-1)] = []string{r}
					}
				}
				c.Asgs = []Asg{{P: "p", T: "t", R: "r0"}}
			case "permissions":
				ten("t")
				m := map[string]bool{}
				for k := 0; k < x.n; k++ {
					if k == x.pos {
						m["/good GET"] = true
					} else {
						m[id("/x", k)+" GET"] = true
					}
				}
				c.Roles["many"] = m
				c.Asgs = []Asg{{P: "p", T: "t", R: "many"}}
			case "tenant-depth":
				for k := 0; k < x.n; k++ {
					t := ten(id("t", k))
					if k+1 < x.n {
						t.Children = []string{id("t", k+1)}
					}
					c.Asgs = append(c.Asgs, Asg{P: "p", T: id("t", k), R: role(k), Manage: true})
				}
			case "tenant-width":
				top := ten("t0")
				c.Asgs = append(c.Asgs, Asg{P: "p", T: "t0", R: "bad", Manage: true})
				for k := 0; k < x.n; k++ {
					ten(id("c", k))
					top.Children = append(top.Children, id("c", k))
					c.Asgs = append(c.Asgs, Asg{P: "p", T: id("c", k), R: role(k)})
				}
			case "namespaces":
				t := ten("t")
				t.NS = map[string]map[string]bool{}
				for k := 0; k < x.n; k++ {
					t.NS[id("n", k)] = map[string]bool{}
					c.Asgs = append(c.Asgs, Asg{P: "p", T: "t", N: id("n", k), R: role(k)})
				}
				t.NS["n"] = map[string]bool{}
			case "scopes":
				t := ten("t")
				for k := 0; k < x.n; k++ {
					t.NS["n"][id("s", k)] = true
					c.Asgs = append(c.Asgs, Asg{P: "p", T: "t", S: id("s", k), R: role(k)})
				}
			case "others":
				ten("t")
				for k := 0; k < x.n; k++ {
					a := Asg{P: id("o", k), T: "t", R: "bad", Manage: true}
					if k == x.pos {
						a.P, a.R = "p", "good"
					}
					c.Asgs = append(c.Asgs, a)
				}
			}
			return c
		},
		reqs: func(i int, c *Cfg) []Req {
			x := cases[i]
			if big {
				return product([]string{"p"}, []string{"", "t", "t0", fmt.Sprintf("t%d", x.n-1), fmt.Sprintf("c%d", x.pos)}, []string{"", fmt.Sprintf("n%d", x.pos)}, []string{"", fmt.Sprintf("s%d", x.pos)}, nil, []Req{{Res: "/good", Act: "GET"}, {Res: "/bad", Act: "GET"}})
			}
			ts := []string{"", "t", "t0", fmt.Sprintf("t%d", x.pos), fmt.Sprintf("t%d", x.n-1), fmt.Sprintf("c%d", x.pos)}
			ns := []string{"", "n", fmt.Sprintf("n%d", x.pos), fmt.Sprintf("n%d", x.n-1)}
			ss := []string{"", "s", fmt.Sprintf("s%d", x.pos), fmt.Sprintf("s%d", (x.pos+1)%x.n)}
			return product([]string{"p", "o0", "q"}, ts, ns, ss, nil, []Req{{Res: "/good", Act: "GET"}, {Res: "/bad", Act: "GET"}})
		},
		roleq: [][]string{{"good"}, {"bad"}, {"zz", "yy", "good"}},
	}
}

// spResolve: tenant/namespace/scope resolution shapes for C03.
func spResolve() space {
	defs := []string{"", "n1", "n2", "n3"} // n3 never exists
	// namespaces present: none, n1, n2, both; scopes: s1 in n1?, s1 in n2?
	rad := []int{4, len(defs), 4, 3, 4, 5, 4}
	q := product([]string{"p", "q", ""}, []string{"", "t1", "t2", "zz"}, []string{"", "n1", "n2", "n3"}, []string{"", "s1", "s2"}, nil, []Req{{Res: "/g", Act: "GET"}})
	return space{
		name: "resolution", n: core.Prod(rad...),
		rule: fmt.Sprintf("every combination of namespaces present x default namespace (none, present, absent) x scope placement x default tenant (none, t1, unknown) x assignments in t1/t2/both/elsewhere x tenant status x registration, x %d requests", len(q)),
		at: func(i int) *Cfg {
			d := core.Mixed(i, rad...)
			c := NewCfg()
			mk := func(id string) *Ten {
				t := &Ten{ID: id, NS: map[string]map[string]bool{}}
				for k, n := range []string{"n1", "n2"} {
					if d[0]>>k&1 == 1 {
						t.NS[n] = map[string]bool{}
						if d[2]>>k&1 == 1 {
							t.NS[n]["s1"] = true
						}
					}
				}
				t.Default = defs[d[1]]
				return t
			}
			c.All["t1"] = mk("t1")
			c.All["t1"].Status = d[5]
			t2 := &Ten{ID: "t2", Default: "n1", NS: map[string]map[string]bool{"n1": {"s2": true}}}
			c.All["t2"] = t2
			c.Registered["t1"] = d[6]&1 == 0
			c.Registered["t2"] = d[6]&2 == 0
			c.Default = []string{"", "t1", "unknown"}[d[3]]
			c.Roles["r"] = map[string]bool{"/g GET": true}
			switch d[4] {
			case 0:
				c.Asgs = []Asg{{P: "p", T: "t1", R: "r"}}
			case 1:
				c.Asgs = []Asg{{P: "p", T: "t2", R: "r"}}
			case 2:
				c.Asgs = []Asg{{P: "p", T: "t1", R: "r"}, {P: "p", T: "t2", R: "r"}}
			case 3:
				c.Asgs = []Asg{{P: "p", T: "t1", N: "n1", R: "r"}, {P: "q", T: "t2", S: "s2", R: "r"}, {P: "p", T: "t2", R: "none"}}
			}
			return c
		},
		reqs:  func(int, *Cfg) []Req { return q },
		roleq: [][]string{{"r"}},
	}
}

// spTenantSets: 0..N tenants per principal, each granting or not, by every pattern for small N.
func spTenantSets(m, ladder int) space {
	kinds := 5 // not assigned, plain, granting, granting but inactive, granting but two namespaces without default
	small := 1
	for i := 0; i < m; i++ {
		small *= kinds
	}
	// ladder: n tenants, the granting one at pos, and pos==n: none grants
	var lad [][2]int
	for n := 1; n <= ladder; n++ {
		for p := 0; p <= n; p++ {
			lad = append(lad, [2]int{n, p})
		}
	}
	fill := func(c *Cfg, k, kind int) {
		t := fmt.Sprintf("t%d", k)
		x := &Ten{ID: t, NS: map[string]map[string]bool{"n1": {"s1": true}}}
		c.All[t] = x
		c.Registered[t] = true
		role := "r"
		switch kind {
		case 0:
			return
		case 1:
			role = "none"
		case 3:
			x.Status = 1 + k%4
		case 4:
			x.NS["n2"] = map[string]bool{"s1": true}
		}
		c.Asgs = append(c.Asgs, Asg{P: "p", T: t, R: role})
	}
	return space{
		name: fmt.Sprintf("tenant-sets-%d-%d", m, ladder), n: small + len(lad),
		rule: fmt.Sprintf("a principal with %d tenants, each one of {unassigned, no permission, granting, inactive, ambiguous namespace}; and 1..%d tenants with the granting one at every position or absent", m, ladder),
		at: func(i int) *Cfg {
			c := NewCfg()
			c.Roles["r"] = map[string]bool{"/g GET": true}
			if i < small {
				for k := 0; k < m; k++ {
					fill(c, k, i%kinds)
					i /= kinds
				}
				return c
			}
			n, p := lad[i-small][0], lad[i-small][1]
			for k := 0; k < n; k++ {
				kind := 1
				if k == p {
					kind = 2
				}
				fill(c, k, kind)
			}
			return c
		},
		reqs: func(i int, c *Cfg) []Req {
			return product([]string{"p", "q"}, []string{"", "t0", "t1", "zz"}, []string{"", "n1", "n2"}, []string{"", "s1", "s2"}, nil, []Req{{Res: "/g", Act: "GET"}})
		},
		roleq: [][]string{{"r"}, {"none"}},
	}
}

// spIDs: every pair of confusable ids for two entities of one kind, the rest plain; the assignments
// tell the two apart in every field.
func spIDs() space {
	kinds := []string{"principals", "tenants", "namespaces", "scopes", "roles"}
	pairs := core.OddPairs
	scheme := func(i int) names {
		nm := names{P: []string{"p", "q"}, T: []string{"t1", "t2"}, N: []string{"n1", "n2"}, S: []string{"s1", "s2"}, R: []string{"r1", "r2"}}
		f := []*[]string{&nm.P, &nm.T, &nm.N, &nm.S, &nm.R}[i%len(kinds)]
		*f = pairs[i/len(kinds)][:]
		return nm
	}
	return space{
		name: "confusable-ids", n: len(pairs) * len(kinds),
		rule: fmt.Sprintf("every ordered pair of %d confusable ids (case, blanks, prefixes, patterns, escapes, lengths) for two principals, tenants, namespaces, scopes or roles; requests and role checks naming either", len(core.OddIDs)),
		at: func(i int) *Cfg {
			nm := scheme(i)
			c := NewCfg()
			for _, id := range nm.T {
				c.All[id] = &Ten{ID: id, Default: nm.N[0], NS: map[string]map[string]bool{nm.N[0]: {nm.S[0]: true, nm.S[1]: true}, nm.N[1]: {nm.S[1]: true}}}
				c.Registered[id] = true
			}
			delete(c.All[nm.T[1]].NS, nm.N[1])
			c.Roles[nm.R[0]] = map[string]bool{"/one GET": true}
			c.Roles[nm.R[1]] = map[string]bool{"/two GET": true}
			c.Asgs = []Asg{{P: nm.P[0], T: nm.T[0], N: nm.N[0], S: nm.S[0], R: nm.R[0]}, {P: nm.P[1], T: nm.T[1], R: nm.R[1]}, {P: nm.P[0], T: nm.T[0], N: nm.N[1], R: nm.R[1]}}
			return c
		},
		reqs: func(i int, c *Cfg) []Req {
			nm := scheme(i)
			return product(nm.P, blank(nm.T...), blank(nm.N...), blank(nm.S...), nil, []Req{{Res: "/one", Act: "GET"}, {Res: "/two", Act: "GET"}})
		},
		roleqOf: func(i int) [][]string { nm := scheme(i); return [][]string{{nm.R[0]}, {nm.R[1]}, {"*"}} },
	}
}

// spTreesMore: tenants of every status, and tenants in which the principal has two assignments in
// either order, in the three ways three tenants can lie below each other.
func spTreesMore() space {
	nm := schemes[0]
	rel := [][][]int{{{1}, {2}, nil}, {{1, 2}, nil, nil}, {{1, 2}, {2}, nil}, {{1}, {2}, {0}}}
	kinds := 6
	pairs := []int{len(rel), kinds * kinds, kinds * kinds, kinds}
	stat := []int{len(rel), 5, 5, 5, 3, 3, 3}
	regs := []int{len(rel), 2, 2, 2, 4, 4, 4}
	np := core.Prod(pairs...)
	ns := np + core.Prod(stat...)
	q := product(nm.P, blank(nm.T[:3]...), []string{""}, []string{""}, nil, actsFor(nm.R[:3]))
	return space{
		name: "tenant-trees-more", n: ns + core.Prod(regs...),
		rule: fmt.Sprintf("three tenants in a chain, fork, triangle or cycle: two assignments in order in each of the first two, each of 6 kinds; every status of each x {none, role, role+manage}; and each registered or only reached as a child x {none, role, role+manage, manage only} x %d requests", len(q)),
		at: func(i int) *Cfg {
			c := NewCfg()
			baseRoles(c, nm)
			c.Edges = map[string][]string{}
			var d []int
			if i < np {
				d = core.Mixed(i, pairs...)
			} else if i < ns {
				d = core.Mixed(i-np, stat...)
			} else {
				d = core.Mixed(i-ns, regs...)
			}
			for a := 0; a < 3; a++ {
				t := &Ten{ID: nm.T[a], Default: nm.N[0], NS: map[string]map[string]bool{nm.N[0]: {}}}
				for _, b := range rel[d[0]][a] {
					t.Children = append(t.Children, nm.T[b])
				}
				c.All[nm.T[a]] = t
				c.Registered[nm.T[a]] = true
				if i >= ns {
					c.Registered[nm.T[a]] = d[1+a] == 1
				} else if i >= np {
					t.Status = d[1+a]
				}
			}
			add := func(a, kind int) {
				x := Asg{P: nm.P[0], T: nm.T[a], R: nm.R[a]}
				switch kind {
				case 0:
					return
				case 2:
					x.Manage = true
				case 3:
					x.Manage, x.R = true, ""
				case 4:
					x.Manage, x.Dead = true, true
				case 5:
					x.Manage, x.P = true, nm.P[1]
				}
				c.Asgs = append(c.Asgs, x)
			}
			for a := 0; a < 3; a++ {
				if i < np {
					add(a, d[1+a]%kinds)
					add(a, d[1+a]/kinds)
				} else {
					add(a, d[4+a])
				}
			}
			return c
		},
		reqs:  func(int, *Cfg) []Req { return q },
		roleq: [][]string{{nm.R[0]}, {nm.R[1]}, {nm.R[2]}},
	}
}

// spRoleKinds: assignments of roles that confer something, nothing, or something only by inheritance.
func spRoleKinds(k int) space {
	nm := schemes[0]
	kinds := []string{"plain", "none", "heir", "gone", "", "lost"}
	u := asgUniverse(nm, nm.P[:1], nm.T[:2], blank(nm.N[0]), blank(nm.S[0]), kinds, true, false)
	if k > 2 {
		u = asgUniverse(nm, nm.P[:1], nm.T[:1], blank(nm.N[0]), blank(nm.S[0]), kinds, false, true)
	}
	q := product(nm.P[:1], blank(nm.T[:2]...), blank(nm.N...), blank(nm.S[0]), nil, actsFor([]string{"plain", "child", "below"}))
	return space{
		name: fmt.Sprintf("role-kinds-%d", k), n: core.SeqsUpTo(len(u), k),
		rule: fmt.Sprintf("all ordered lists of <=%d of %d assignments of 1 principal (role with a permission / without any / only inheriting one / unregistered / blank / inheriting only through an unregistered role) x %d requests", k, len(u), len(q)),
		at: func(i int) *Cfg {
			c := NewCfg()
			baseTenants(c, nm)
			c.Roles["plain"] = map[string]bool{permOf("plain"): true}
			c.Roles["none"] = map[string]bool{}
			c.Roles["heir"] = map[string]bool{}
			c.Roles["child"] = map[string]bool{permOf("child"): true}
			c.Roles["lost"] = map[string]bool{}
			c.Roles["below"] = map[string]bool{permOf("below"): true}
			c.Edges["heir"] = []string{"none", "child"}
			c.Edges["lost"] = []string{"unknown"}
			c.Edges["unknown"] = []string{"below"}
			c.Edges["gone"] = []string{"child"}
			for _, x := range core.Seq(len(u), k, i) {
				c.Asgs = append(c.Asgs, u[x])
			}
			return c
		},
		reqs:  func(int, *Cfg) []Req { return q },
		roleq: [][]string{{"plain"}, {"none"}, {"gone"}, {"child"}, {"", "unknown"}, {"below"}},
	}
}

// spOdd: confusable texts as the resource or the action of a permission, asked for with all the
// others.
func spOdd() space {
	odd := append([]string{"/a/", "/a", "/a//", "/", "//", "/a/:x/", "/A", "/a/b/"}, core.OddIDs...)
	return space{
		name: "confusable-permissions", n: 2 * len(odd),
		rule: fmt.Sprintf("each of %d confusable texts as resource or action of the only permission, asked with every one of them in that place", len(odd)),
		at: func(i int) *Cfg {
			c := NewCfg()
			c.All["t"] = &Ten{ID: "t", NS: map[string]map[string]bool{"n": {}}}
			c.Registered["t"] = true
			p := odd[i/2] + " GET"
			if i%2 == 1 {
				p = "/a " + odd[i/2]
				for _, ch := range odd[i/2] {
					if ch == ' ' { // the permission text would be cut elsewhere; the driver cuts at the last blank
						p = "/a GET"
					}
				}
			}
			c.Roles["r"] = map[string]bool{p: true}
			c.Asgs = []Asg{{P: "p", T: "t", R: "r"}}
			return c
		},
		reqs: func(i int, c *Cfg) (q []Req) {
			for _, o := range odd {
				if i%2 == 0 {
					q = append(q, Req{P: "p", T: "t", Res: o, Act: "GET"})
				} else {
					q = append(q, Req{P: "p", T: "t", Res: "/a", Act: o})
				}
			}
			return q
		},
		roleq: [][]string{{"r"}},
	}
}

// spDefaults: every sequence of namespace additions, with and without the default mark.
func spDefaults(depth int) core.Part {
	ns := []string{"n1", "n2", "n3"}
	var q []Req
	for _, n := range blank(ns...) {
		for _, s := range []string{"", "s1"} {
			for _, r := range []string{"/n1", "/n2", "/n3"} {
				q = append(q, Req{P: "p", T: "t", N: n, S: s, Res: r, Act: "GET"})
			}
		}
	}
	const nop = 9
	return core.Part{Name: fmt.Sprintf("default-namespaces-%d", depth), N: core.SeqsUpTo(nop, depth),
		Rule: fmt.Sprintf("all sequences of <=%d of %d calls adding one of 3 namespaces plainly or as default, or a scope to it, %d requests and a role check per namespace after each", depth, nop, len(q)),
		Run: func(w *core.W, i int) {
			c := NewCfg()
			c.All["t"] = &Ten{ID: "t", NS: map[string]map[string]bool{}}
			c.Registered["t"] = true
			for _, n := range ns {
				c.Roles[n] = map[string]bool{"/" + n + " GET": true}
				c.Asgs = append(c.Asgs, Asg{P: "p", T: "t", N: n, R: n})
			}
			h := newHist(w, c)
			for k, x := range core.Seq(nop, depth, i) {
				n := ns[x%3]
				w.Logf("%s namespace %q", []string{"add", "add as default", "add scope s1 to"}[x/3], n)
				switch x / 3 {
				case 0:
					if h.namespace("t", n, false); k%2 == 1 {
						h.s.Tenants["t"].AddNamespace(n, false) // as good as not saying it
					}
				case 1:
					h.namespace("t", n, true)
				case 2:
					h.scope("t", n, "s1")
				}
				w.Op(1)
				h.ask(q, ns, false)
			}
			w.State(c.Canon())
		}}
}

// spJoined: two positions whose ids, joined into one key, cannot be told apart.
func spJoined() space {
	const shapes = 4
	scheme := func(i int) (v [5][]string, d []int) {
		d = core.Mixed(i, 2, shapes, 20, len(core.Seps))
		v = [5][]string{{"p"}, {"t"}, {"n"}, {"s"}, {"r"}}
		f, g := core.Ordered(5, d[2])
		x, y := core.Joined(core.Seps[d[3]])
		v[f], v[g] = x[:], y[:]
		return
	}
	return space{
		name: "joined-ids", n: 2 * shapes * 20 * len(core.Seps),
		rule: fmt.Sprintf("every two of principal, tenant, namespace, scope and role x %d separators: ids that make the same text when joined; the first combination assigned (restricted to a namespace, a scope, both or neither), alone or after the second", len(core.Seps)),
		at: func(i int) *Cfg {
			v, d := scheme(i)
			c := NewCfg()
			for _, t := range v[1] {
				c.All[t] = &Ten{ID: t, NS: map[string]map[string]bool{}}
				for k, n := range v[2] {
					c.All[t].NS[n] = map[string]bool{v[3][0]: true}
					if k == 0 && len(v[1]) == 1 && len(v[3]) == 2 && len(v[2]) == 1 {
						c.All[t].NS[n][v[3][1]] = true
					}
				}
				c.Registered[t] = true
			}
			if len(v[1]) == 2 && len(v[2]) == 2 {
				delete(c.All[v[1][1]].NS, v[2][1])
			}
			for k, r := range v[4] {
				c.Roles[r] = map[string]bool{"/" + fmt.Sprint(k) + " GET": true}
			}
			mk := func(k int) Asg {
				a := Asg{P: v[0][k%len(v[0])], T: v[1][k%len(v[1])], R: v[4][k%len(v[4])]}
				if d[1]&1 == 1 {
					a.N = v[2][k%len(v[2])]
				}
				if d[1]&2 == 2 {
					a.S = v[3][k%len(v[3])]
				}
				return a
			}
			if d[0] == 1 {
				c.Asgs = append(c.Asgs, mk(1))
			}
			c.Asgs = append(c.Asgs, mk(0))
			return c
		},
		reqs: func(i int, c *Cfg) []Req {
			v, _ := scheme(i)
			return product(v[0], blank(v[1]...), blank(v[2]...), blank(v[3]...), nil, []Req{{Res: "/0", Act: "GET"}, {Res: "/1", Act: "GET"}})
		},
		roleqOf: func(i int) [][]string {
			v, _ := scheme(i)
			var l [][]string
			for _, r := range v[4] {
				l = append(l, []string{r})
			}
			return l
		},
	}
}
