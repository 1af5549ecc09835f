package v1c

import (
	"fmt"
	"strings"

	"verif/mc/core"
	"verif/mc/ref"
)

type names struct {
	P, T, N, S, R []string
	X             string
}

var schemes = []names{
	{P: []string{"p", "q"}, T: []string{"t1", "t2"}, N: []string{"n1", "n2"}, S: []string{"s1", "s2"}, R: []string{"r1", "r2"}, X: "zz"},
	// the same ids in every position, containing the characters used for storing assignments
	{P: []string{"a", "a_b"}, T: []string{"a_b", "a"}, N: []string{"a", "a_b"}, S: []string{"a_b", "a"}, R: []string{"a", "a_b"}, X: "b"},
}

type act struct{ g, a string }

var acts = []act{{"g1", "/own GET"}, {"g1", "/sub/7 GET"}, {"g2", "/two GET"}, {"g2", "/own GET"}, {"", "/free GET"}, {"", "/own GET"}, {"g1", ""}}

func requests(k names, as []act) (l []Req) {
	for _, p := range []string{k.P[0], k.P[1], k.X} {
		for _, t := range []string{"", k.T[0], k.T[1], k.X} {
			for _, n := range []string{"", k.N[0], k.N[1], k.X} {
				for _, s := range []string{"", k.S[0], k.S[1], k.X} {
					x := 0
					for _, v := range []string{p, t, n, s} {
						if v == k.X {
							x++
						}
					}
					if x > 1 {
						continue
					}
					for _, a := range as {
						if a.a == "" && a.g == "" && t == "" && n == "" && s == "" {
							continue // nothing asked
						}
						l = append(l, Req{p, t, n, s, a.g, a.a})
					}
				}
			}
		}
	}
	return l
}

// base registers the scheme: r1 above r2 with permissions in two groups. In the full variant both
// tenants contain everything; otherwise t1 lacks n2, t2 lacks s2 and r2.
func base(h *H, k names, full bool) {
	for _, x := range k.P {
		h.principal(x)
	}
	for _, x := range k.T {
		h.tenant(x)
	}
	for _, x := range k.R {
		h.role(x, true)
	}
	h.inherit(k.R[0], k.R[1])
	h.perm(k.R[0], "g1", "/own", "GET")
	h.perm(k.R[1], "g1", "/sub/:id", "GET")
	h.perm(k.R[1], "g2", "/two", "GET")
	h.perm(k.R[1], "", "/free", "GET") // in no group
	for i, t := range k.T {
		for j, r := range k.R {
			if full || i == 0 || j == 0 {
				h.tRole(t, r)
			}
		}
		for j, n := range k.N {
			if full || i == 1 || j == 0 {
				h.tNS(t, n)
			}
		}
		for j, s := range k.S {
			if full || i == 0 || j == 0 {
				h.tScope(t, s)
			}
		}
	}
}

// universe lists every assignment over the scheme; the last two roles are blank and unregistered.
func universe(k names) (l []Row) {
	for _, t := range k.T {
		for _, p := range k.P {
			for _, n := range []string{"", k.N[0], k.N[1]} {
				for _, s := range []string{"", k.S[0], k.S[1]} {
					for _, r := range []string{k.R[0], k.R[1], "", k.X} {
						l = append(l, Row{p, r, t, n, s, true})
					}
				}
			}
		}
		for _, n := range k.N {
			for _, s := range k.S {
				l = append(l, Row{"", "", t, n, s, true})
			}
		}
	}
	return l
}

func records(name string, k names, size int, do func(h *H)) core.Part {
	u := universe(k)
	n := core.SubsetsUpTo(len(u), size)
	return core.Part{Name: name, N: n * 2, Rule: fmt.Sprintf("all sets of <=%d of %d assignments (2 principals, 2 tenants, namespace and scope blank or one of 2, role one of 2, blank or unregistered), tenants containing everything or not; ids %v", size, len(u), k), Run: func(w *core.W, i int) {
		h := NewH(w)
		base(h, k, i&1 == 0)
		for _, x := range core.Subset(len(u), size, i>>1) {
			h.row(u[x], x%3)
		}
		w.State(h.m.Canon())
		do(h)
	}}
}

type op struct {
	name string
	do   func(h *H, k names)
}

var ops = []op{
	{"p r1 in t1", func(h *H, k names) { h.assign(k.T[0], k.P[0], k.R[0]) }},
	{"p r1,r2 in t2", func(h *H, k names) { h.assign(k.T[1], k.P[0], k.R[0], k.R[1]) }},
	{"q r2 in t1", func(h *H, k names) { h.assign(k.T[0], k.P[1], k.R[1]) }},
	{"p unknown role, r2 in t1", func(h *H, k names) { h.assign(k.T[0], k.P[0], k.X, k.R[1]) }},
	{"p r1 in n1 of t1", func(h *H, k names) { h.assignNS(k.T[0], k.P[0], k.N[0], k.R[0]) }},
	{"p r2 in n2 of t2", func(h *H, k names) { h.assignNS(k.T[1], k.P[0], k.N[1], k.R[1]) }},
	{"p in n1 of t1", func(h *H, k names) { h.assignNS(k.T[0], k.P[0], k.N[0]) }},
	{"p in n2 of t1", func(h *H, k names) { h.assignNS(k.T[0], k.P[0], k.N[1]) }},
	{"q in n1 of t1", func(h *H, k names) { h.assignNS(k.T[0], k.P[1], k.N[0]) }},
	{"p scope s1 in t1", func(h *H, k names) { h.assignScopes(k.T[0], k.P[0], k.S[0]) }},
	{"p scopes unknown,s2 in t1", func(h *H, k names) { h.assignScopes(k.T[0], k.P[0], k.X, k.S[1]) }},
	{"q scope s1 in t1", func(h *H, k names) { h.assignScopes(k.T[0], k.P[1], k.S[0]) }},
	{"p scope s2 with r2 in t1", func(h *H, k names) { h.assignScopesRole(k.T[0], k.P[0], k.R[1], k.S[1]) }},
	{"p scopes with r1 in t2", func(h *H, k names) { h.assignScopesRole(k.T[1], k.P[0], k.R[0], k.S[0], k.S[1]) }},
	{"s1 in n1 of t1", func(h *H, k names) { h.nsScopes(k.T[0], k.N[0], k.S[0]) }},
	{"s2,unknown,s1 in n2 of t2", func(h *H, k names) { h.nsScopes(k.T[1], k.N[1], k.S[1], k.X, k.S[0]) }},
	{"r2 in n1 of t1", func(h *H, k names) { h.nsRoles(k.T[0], k.N[0], k.R[1]) }},
	{"r2 in n2 of t1", func(h *H, k names) { h.nsRoles(k.T[0], k.N[1], k.R[1]) }},
	{"namespace n1 gets r2", func(h *H, k names) {
		h.log("namespace %q AddRoles(%q)", k.N[0], k.R[1])
		h.ns(k.N[0]).AddRoles(h.role(k.R[1], false))
		h.m.nsRoles[[2]string{k.N[0], k.R[1]}] = true
	}},
	{"namespace n1 gets s2", func(h *H, k names) {
		h.log("namespace %q AddScopes(%q)", k.N[0], k.S[1])
		h.ns(k.N[0]).AddScopes(h.scope(k.S[1]))
		h.m.nsScopes[[2]string{k.N[0], k.S[1]}] = true
	}},
	{"default n1 in t1", func(h *H, k names) { h.def(k.T[0], k.N[0]) }},
	{"default n2 in t2", func(h *H, k names) { h.def(k.T[1], k.N[1]) }},
	{"default unknown in t1", func(h *H, k names) { h.def(k.T[0], k.X) }},
	{"n2 into t1", func(h *H, k names) { h.tNS(k.T[0], k.N[1]) }},
	{"s2 into t2", func(h *H, k names) { h.tScope(k.T[1], k.S[1]) }},
	{"r2 into t2", func(h *H, k names) { h.tRole(k.T[1], k.R[1]) }},
	{"register t3 below t1, p r2 there", func(h *H, k names) {
		h.tenant(k.X)
		h.tRole(k.X, k.R[1])
		h.nest(k.T[0], k.X)
		h.assign(k.X, k.P[0], k.R[1])
	}},
}

func histories(name string, k names, depth int, do func(h *H)) core.Part {
	n := core.SeqsUpTo(len(ops), depth)
	return core.Part{Name: name, N: n * 2, Rule: fmt.Sprintf("all sequences of <=%d of %d setup calls, questions at the end only or also after every call; ids %v", depth, len(ops), k), Run: func(w *core.W, i int) {
		h := NewH(w)
		base(h, k, false)
		for _, o := range core.Seq(len(ops), depth, i>>1) {
			ops[o].do(h, k)
			if i&1 == 1 {
				do(h)
			}
		}
		w.State(h.m.Canon())
		do(h)
	}}
}

// ladder: n assignments of one principal spread over namespaces and scopes, past the capacity of
// the pooled slices; only the case's own index is in the granting position.
func ladder(n int, do func(h *H, i, n int)) core.Part {
	return core.Part{Name: fmt.Sprintf("ladder-%d", n), N: n, Rule: fmt.Sprintf("%d assignments of one principal in different namespaces and scopes and as many of another; one of them granting, every position", n), Run: func(w *core.W, i int) {
		h := NewH(w)
		h.principal("p")
		h.principal("q")
		h.tenant("t")
		h.tenant("u")
		h.role("yes", true)
		h.role("no", true)
		h.tRole("t", "yes")
		h.tRole("t", "no")
		h.perm("yes", "g", "/x", "GET")
		h.perm("no", "g", "/y", "GET")
		for j := 0; j < n; j++ {
			h.tNS("t", fmt.Sprint("n", j))
			h.tScope("t", fmt.Sprint("s", j))
		}
		for j := 0; j < n; j++ {
			r := Row{P: "p", R: "no", T: "t"}
			if j%3 != 0 {
				r.N = fmt.Sprint("n", j)
			}
			if j%2 != 0 {
				r.S = fmt.Sprint("s", j)
			}
			if i == j {
				r.R = "yes"
			}
			h.row(r, j%3)
			r.P, r.R = "q", "yes"
			h.row(r, j%3)
		}
		w.State(h.m.Canon())
		do(h, i, n)
	}}
}

// idsSetup: two confusable ids in one position, everything recorded telling the two apart.
func idsSetup(h *H, k names, gs []string) {
	for _, x := range k.P {
		h.principal(x)
	}
	for i, t := range k.T {
		h.tenant(t)
		for _, n := range k.N {
			h.tNS(t, n)
		}
		h.tScope(t, k.S[0])
		if i == 0 {
			h.tScope(t, k.S[1])
		}
	}
	for j, x := range k.R {
		h.role(x, true)
		h.perm(x, gs[j], fmt.Sprint("/", j), "GET")
		h.tRole(k.T[j], x)
	}
	h.row(Row{P: k.P[0], R: k.R[0], T: k.T[0], N: k.N[0], S: k.S[0]}, 0)
	h.row(Row{P: k.P[0], R: k.R[0], T: k.T[0], N: k.N[1]}, 1)
	h.row(Row{P: k.P[1], R: k.R[1], T: k.T[1]}, 2)
	h.row(Row{P: k.P[1], T: k.T[1], S: k.S[0]}, 1)
}

func idsScheme(i int) (k names, gs []string) {
	k = names{P: []string{"p", "q"}, T: []string{"t1", "t2"}, N: []string{"n1", "n2"}, S: []string{"s1", "s2"}, R: []string{"r1", "r2"}, X: "zz"}
	gs = []string{"g1", "g2"}
	*[]*[]string{&k.P, &k.T, &k.N, &k.S, &k.R, &gs}[i%6] = core.OddPairs[i/6][:]
	return
}

var idsN = len(core.OddPairs) * 6

var idsRule = fmt.Sprintf("every ordered pair of %d confusable ids as two principals, tenants, namespaces, scopes, roles or groups, the first with one role restricted to a namespace and scope and to the other namespace, the second with another role and a scope in the other tenant", len(core.OddIDs))

func idsSpace(activity bool) core.Part {
	return core.Part{Name: "confusable-ids", N: idsN, Rule: idsRule, Run: func(w *core.W, i int) {
		k, gs := idsScheme(i)
		h := NewH(w)
		idsSetup(h, k, gs)
		w.State(h.m.Canon())
		as := []act{{}}
		if activity {
			as = nil
			for _, g := range append([]string{""}, gs...) {
				as = append(as, act{g, "/0 GET"}, act{g, "/1 GET"})
			}
		}
		for _, q := range requests(k, as) {
			if q.P != k.X && q.T != k.X && q.N != k.X && q.S != k.X {
				h.decide(q)
			}
		}
	}}
}

// patternSpace: permissions and requested activities with the wildcard characters in them.
func patternSpace() core.Part {
	ps, vs := ref.Patterns()
	return core.Part{Name: "patterns", N: len(ps) * 4, Rule: fmt.Sprintf("%d permission patterns x held tenant-wide, by inheritance, in a namespace or outside any group, against all %d activities (with wildcard characters in them too)", len(ps), len(vs)), Run: func(w *core.W, i int) {
		p := ps[i/4]
		k := strings.LastIndexByte(p, ' ')
		h := NewH(w)
		h.principal("p")
		h.tenant("t")
		h.tNS("t", "n")
		g := "g"
		if i%4 == 3 {
			g = ""
		}
		h.role("r", true)
		h.role("o", true)
		h.tRole("t", "r")
		h.tRole("t", "o")
		h.perm("o", g, p[:k], p[k+1:])
		h.perm("r", "g", "/none", "GET")
		switch i % 4 {
		case 0, 3:
			h.assign("t", "p", "o")
		case 1:
			h.inherit("r", "o")
			h.assign("t", "p", "r", "o")
		case 2:
			h.assignNS("t", "p", "n", "o")
		}
		w.State(h.m.Canon())
		for _, v := range vs {
			h.decide(Req{"p", "t", "", "", g, v})
			h.decide(Req{"p", "t", "n", "", g, v})
			h.decide(Req{"p", "", "", "", "", v})
		}
	}}
}

// joinedSetup: two positions whose ids, joined into one key, cannot be told apart.
const joinedShapes = 8

var joinedN = 2 * joinedShapes * 30 * len(core.Seps)

var joinedRule = fmt.Sprintf("every two of principal, tenant, namespace, scope, role and group x %d separators: ids that make the same text when joined; the first combination assigned (every choice of namespace, scope, role), alone or after the second", len(core.Seps))

func joinedScheme(i int) (k names, gs []string, setup func(h *H)) {
	d := core.Mixed(i, 2, joinedShapes, 30, len(core.Seps))
	v := [6][]string{{"p"}, {"t"}, {"n"}, {"s"}, {"r"}, {"g"}}
	f, g := core.Ordered(6, d[2])
	x, y := core.Joined(core.Seps[d[3]])
	v[f], v[g] = x[:], y[:]
	at := func(f, k int) string { return v[f][k%len(v[f])] }
	two := func(l []string) []string { return []string{l[0], l[len(l)-1]} }
	k = names{P: two(v[0]), T: two(v[1]), N: two(v[2]), S: two(v[3]), R: two(v[4]), X: "zz"}
	return k, v[5], func(h *H) {
		for _, x := range v[0] {
			h.principal(x)
		}
		for _, x := range v[1] {
			h.tenant(x)
		}
		for _, x := range v[4] {
			h.role(x, true)
		}
		put := func(k int) {
			t := at(1, k)
			h.tNS(t, at(2, k))
			h.tScope(t, at(3, k))
			h.tRole(t, at(4, k))
			r := Row{P: at(0, k), T: t}
			if d[1]&1 == 1 {
				r.N = at(2, k)
			}
			if d[1]&2 == 2 {
				r.S = at(3, k)
			}
			if d[1]&4 == 4 {
				r.R = at(4, k)
				h.perm(at(4, k), at(5, k), "/"+fmt.Sprint(k), "GET")
			}
			h.row(r, 0)
		}
		if d[0] == 1 {
			put(1)
		}
		put(0)
	}
}

func joinedSpace(activity bool) core.Part {
	return core.Part{Name: "joined-ids", N: joinedN, Rule: joinedRule, Run: func(w *core.W, i int) {
		k, gs, setup := joinedScheme(i)
		h := NewH(w)
		setup(h)
		w.State(h.m.Canon())
		as := []act{{}}
		if activity {
			as = nil
			for _, g := range append([]string{""}, gs...) {
				as = append(as, act{g, "/0 GET"}, act{g, "/1 GET"})
			}
		}
		for _, q := range requests(k, as) {
			if q.P != k.X && q.T != k.X && q.N != k.X && q.S != k.X {
				h.decide(q)
			}
		}
	}}
}
