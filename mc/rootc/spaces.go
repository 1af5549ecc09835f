package rootc

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"verif/mc/core"
	"verif/mc/ref"
)

// names is an id scheme for the small universe.
type names struct {
	P, T, N, S, R []string
	X             string // an id that is never registered
}

var schemes = []names{
	{P: []string{"p", "q"}, T: []string{"t1", "t2"}, N: []string{"n1", "n2"}, S: []string{"s1", "s2"}, R: []string{"r1", "r2"}, X: "zz"},
	// the same ids in every position
	{P: []string{"x", "xy"}, T: []string{"x", "xy"}, N: []string{"xy", "x"}, S: []string{"x", "xy"}, R: []string{"xy", "x"}, X: "xyx"},
}

// universe lists every kind of record over the scheme.
func universe(k names) (l []Row) {
	for _, t := range k.T {
		for _, p := range k.P {
			for _, r := range k.R {
				for _, m := range []int{1, 2} {
					l = append(l, Row{T: t, P: p, R: r, Man: m})
				}
				for _, n := range k.N {
					l = append(l, Row{T: t, P: p, R: r, N: n}, Row{T: t, P: p, R: r, N: n, Man: 2})
					for _, s := range k.S {
						l = append(l, Row{T: t, P: p, R: r, N: n, S: s})
					}
				}
				for _, s := range k.S {
					l = append(l, Row{T: t, P: p, R: r, S: s})
				}
			}
			for _, s := range k.S {
				for _, m := range []int{1, 2} {
					l = append(l, Row{T: t, P: p, S: s, Man: m})
				}
				for _, n := range k.N {
					l = append(l, Row{T: t, P: p, N: n, S: s, Man: 2}, Row{T: t, P: p, N: n, S: s, Man: 1})
				}
			}
		}
		for _, n := range k.N {
			l = append(l, Row{T: t, N: n})
			for _, s := range k.S {
				l = append(l, Row{T: t, N: n, S: s})
			}
		}
		for _, s := range k.S {
			l = append(l, Row{T: t, S: s})
		}
		for _, r := range k.R {
			l = append(l, Row{T: t, R: r})
		}
	}
	return l
}

// unusual lists the records that the engine makes of no call of its own but accepts.
func unusual(k names) (l []Row) {
	for _, t := range k.T {
		for _, p := range k.P {
			for _, r := range k.R {
				for _, m := range []int{1, 2} {
					for _, s := range k.S {
						l = append(l, Row{T: t, P: p, R: r, S: s, Man: m})
						for _, n := range k.N {
							l = append(l, Row{T: t, P: p, R: r, N: n, S: s, Man: m})
						}
					}
				}
				for _, n := range k.N {
					l = append(l, Row{T: t, P: p, R: r, N: n, Man: 1})
				}
				l = append(l, Row{T: t, P: p, R: r})
			}
			for _, n := range k.N {
				l = append(l, Row{T: t, P: p, N: n}, Row{T: t, P: p, N: n, Man: 2})
				for _, s := range k.S {
					l = append(l, Row{T: t, P: p, N: n, S: s})
				}
			}
			for _, s := range k.S {
				l = append(l, Row{T: t, P: p, S: s})
			}
			l = append(l, Row{T: t, P: p}, Row{T: t, P: p, Man: 2})
		}
		for _, r := range k.R {
			for _, n := range k.N {
				l = append(l, Row{T: t, R: r, N: n})
			}
			for _, s := range k.S {
				l = append(l, Row{T: t, R: r, S: s})
			}
		}
	}
	return l
}

// oddRecords: one unusual record, alone or beside one of a few usual ones.
func oddRecords(k names, do func(h *H)) core.Part {
	u := unusual(k)
	with := []Row{{}, {T: k.T[0], N: k.N[0]}, {T: k.T[0], N: k.N[0], S: k.S[0]}, {T: k.T[0], S: k.S[0]}, {T: k.T[0], P: k.P[0], R: k.R[0], Man: 1}, {T: k.T[0], P: k.P[0], S: k.S[0], Man: 2}}
	return core.Part{Name: "unusual-records", N: len(u) * len(with) * 2, Rule: fmt.Sprintf("each of %d records that no call of the engine makes but AddData accepts, alone or beside one of %d usual ones, tenants unrelated or nested", len(u), len(with)-1), Run: func(w *core.W, i int) {
		h := NewH(w)
		base(h, k, i&1 == 1)
		if r := with[i/2%len(with)]; r != (Row{}) {
			h.row(r)
		}
		h.row(u[i/2/len(with)])
		w.State(h.m.Canon())
		do(h)
	}}
}

// base registers everything of the scheme: r1 above r2, permissions in two groups.
func base(h *H, k names, nested bool) {
	for _, x := range k.P {
		h.principal(x)
	}
	for _, x := range k.N {
		h.namespace(x)
	}
	for _, x := range k.S {
		h.scope(x)
	}
	for _, x := range k.T {
		h.tenant(x)
	}
	for _, x := range k.R {
		h.role(x, true)
	}
	h.inherit(k.R[0], k.R[1])
	h.perm(k.R[0], "g1", "/own", "GET")
	h.perm(k.R[1], "g1", "/sub/:id", "GET")
	h.perm(k.R[1], "g2", "/two", "GET")
	if nested {
		h.nest(k.T[0], k.T[1])
	}
}

type act struct{ g, a string }

var acts = []act{{"g1", "/own GET"}, {"g1", "/sub/7 GET"}, {"g2", "/two GET"}}
var half = []act{{"g1", ""}, {"", "/own GET"}}

func requests(k names, acts []act) (l []Req) {
	for _, p := range []string{k.P[0], k.P[1], k.X} {
		for _, t := range []string{"", k.T[0], k.T[1], k.X} {
			for _, n := range []string{"", k.N[0], k.N[1], k.X} {
				for _, s := range []string{"", k.S[0], k.S[1], k.X} {
					x := 0
					for _, v := range []string{p, t, n, s} {
						if v == k.X {
							x++
						}
					}
					if x > 1 {
						continue
					}
					for _, a := range acts {
						l = append(l, Req{p, t, n, s, a.g, a.a})
					}
				}
			}
		}
	}
	return l
}

// records is the space of all record sets up to a size, entered in both orders.
func records(name string, k names, size int, do func(h *H)) core.Part {
	u := universe(k)
	n := core.SubsetsUpTo(len(u), size)
	return core.Part{Name: name, N: n * 4, Rule: fmt.Sprintf("all sets of <=%d of %d records (2 principals, 2 tenants, 2 namespaces, 2 scopes, 2 roles, every blank pattern the engine makes), entered in order and reversed, tenants unrelated or nested; ids %v", size, len(u), k), Run: func(w *core.W, i int) {
		h := NewH(w)
		base(h, k, i&1 == 1)
		set := core.Subset(len(u), size, i>>2)
		for x := range set {
			if i&2 != 0 {
				x = len(set) - 1 - x
			}
			h.row(u[set[x]])
		}
		w.State(h.m.Canon())
		do(h)
	}}
}

// dags lists all acyclic relations over n nodes as edge lists.
func dags(n int) (l [][][2]int) {
	var es [][2]int
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			if a != b {
				es = append(es, [2]int{a, b})
			}
		}
	}
	for m := 0; m < 1<<len(es); m++ {
		e := map[string]map[string]bool{}
		ok := true
		var d [][2]int
		for k, x := range es {
			if m>>k&1 == 1 {
				d = append(d, x)
				if !link(e, fmt.Sprint(x[0]), fmt.Sprint(x[1])) {
					ok = false
					break
				}
			}
		}
		if ok {
			l = append(l, d)
		}
	}
	return l
}

// treeKinds is what the principal may have in a tenant of the tree spaces.
var treeKinds = []struct {
	name string
	do   func(h *H, t string)
}{
	{"nothing", func(h *H, t string) {}},
	{"role", func(h *H, t string) { h.assignRole(t, "p", "r", false) }},
	{"role+manage", func(h *H, t string) { h.assignRole(t, "p", "r", true) }},
	{"scope+manage", func(h *H, t string) { h.assignScope(t, "p", "s", true) }},
	{"namespace role", func(h *H, t string) { h.row(Row{T: t, N: "n", P: "p", R: "r"}) }},
	{"someone else's role+manage", func(h *H, t string) { h.assignRole(t, "q", "r", true) }},
	{"one role without and another with manage", func(h *H, t string) {
		h.assignRole(t, "p", "r", false)
		h.assignRole(t, "p", "r2", true)
	}},
	{"public namespace and scope", func(h *H, t string) {
		h.row(Row{T: t, N: "n"})
		h.row(Row{T: t, S: "s"})
	}},
	{"scope without manage in a default namespace", func(h *H, t string) {
		h.setDefault(t, "n")
		h.assignScope(t, "p", "s", false)
	}},
	{"role without manage in a default namespace", func(h *H, t string) {
		h.setDefault(t, "n")
		h.assignRole(t, "p", "r", false)
	}},
	{"another role+manage", func(h *H, t string) { h.assignRole(t, "p", "r2", true) }},
	{"namespace role+manage", func(h *H, t string) { h.row(Row{T: t, N: "n", P: "p", R: "r", Man: 2}) }},
	{"namespace in use, scope+manage and role", func(h *H, t string) {
		h.row(Row{T: t, N: "n"})
		h.assignScope(t, "p", "s", true)
		h.assignRole(t, "p", "r", false)
	}},
}

var allKinds = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}
var everyKind = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}

// fewKinds tells two managed ancestors apart.
var fewKinds = []int{0, 2, 3, 7, 10, 11}

// trees: every acyclic tenant relation x what the principal has in each tenant.
func trees(n int, kinds []int, do func(h *H, ts []string)) core.Part {
	ds := dags(n)
	total := len(ds)
	for k := 0; k < n; k++ {
		total *= len(kinds)
	}
	var ks []string
	for _, k := range kinds {
		ks = append(ks, treeKinds[k].name)
	}
	return core.Part{Name: fmt.Sprintf("tenant-trees-%d-of-%d", n, len(kinds)), N: total, Rule: fmt.Sprintf("all %d acyclic descendant relations over %d tenants x per tenant one of {%s}", len(ds), n, strings.Join(ks, ", ")), Run: func(w *core.W, i int) {
		h := NewH(w)
		h.principal("p")
		h.principal("q")
		h.namespace("n")
		h.scope("s")
		h.role("r", true)
		h.perm("r", "g", "/a", "GET")
		h.role("r2", true)
		h.perm("r2", "g", "/b", "GET")
		var ts []string
		for k := 0; k < n; k++ {
			ts = append(ts, fmt.Sprintf("t%d", k))
			h.tenant(ts[k])
		}
		for _, e := range ds[i%len(ds)] {
			h.nest(ts[e[0]], ts[e[1]])
		}
		i /= len(ds)
		for k := 0; k < n; k++ {
			treeKinds[kinds[i%len(kinds)]].do(h, ts[k])
			i /= len(kinds)
		}
		w.State(h.m.Canon())
		do(h, ts)
	}}
}

// rolesSpace: every acyclic role relation x what is assigned and what is in use.
func rolesSpace(n int) core.Part {
	ds := dags(n)
	per := 1 << n
	return core.Part{Name: fmt.Sprintf("roles-%d", n), N: len(ds) * per * per * n, Rule: fmt.Sprintf("all %d acyclic inheritance relations over %d roles x every subset in use in the tenant x every subset registered x every role assigned, one permission per role", len(ds), n), Run: func(w *core.W, i int) {
		d := core.Mixed(i, len(ds), per, per, n)
		h := NewH(w)
		h.principal("p")
		h.tenant("t")
		h.tenant("u")
		h.namespace("n")
		h.scope("s")
		var rs []string
		for k := 0; k < n; k++ {
			rs = append(rs, fmt.Sprintf("r%d", k))
			h.role(rs[k], d[2]>>k&1 == 1)
			h.perm(rs[k], "g", fmt.Sprintf("/%d/:x", k), "GET")
		}
		for _, e := range ds[d[0]] {
			h.inherit(rs[e[0]], rs[e[1]])
		}
		for k := 0; k < n; k++ {
			if d[1]>>k&1 == 1 {
				h.row(Row{T: "t", R: rs[k]})
			} else {
				h.row(Row{T: "u", R: rs[k]})
			}
		}
		if h.m.Rs[rs[d[3]]] {
			h.assignRole("t", "p", rs[d[3]], false)
		} else {
			h.row(Row{T: "t", P: "p", R: rs[d[3]], N: "n"})
		}
		w.State(h.m.Canon())
		for k := 0; k < n; k++ {
			for _, g := range []string{"g", "h"} {
				a := fmt.Sprintf("/%d/7 GET", k)
				h.decide(Req{P: "p", T: "t", G: g, A: a})
				h.decide(Req{P: "p", T: "t", N: "n", G: g, A: a})
				h.decide(Req{P: "p", T: "t", S: "s", G: g, A: a})
				h.decide(Req{P: "p", T: "u", G: g, A: a})
				h.decide(Req{P: "p", N: "n", S: "s", G: g, A: a})
			}
		}
	}}
}

// ladder: growing sizes with the deciding item at every position.
func ladder(max int) core.Part {
	var at [][2]int
	for n := 1; n <= max; n++ {
		for k := 0; k <= n; k++ {
			at = append(at, [2]int{n, k})
		}
	}
	p := ladderOf(at, false)
	p.Name = fmt.Sprintf("size-ladder-%d", max)
	p.Rule = fmt.Sprintf("1..%d %s, the deciding one at every position or absent", max, p.Rule)
	return p
}

// big: a few large sizes with the deciding item first, in the middle, last or absent.
func big(max int) core.Part {
	p := ladderOf(core.Big(max), true)
	p.Name = fmt.Sprintf("big-%d", max)
	p.Rule = fmt.Sprintf("%v %s, the deciding one first, in the middle, last or absent", core.Sizes(max), p.Rule)
	return p
}

func ladderOf(cases [][2]int, big bool) core.Part {
	const kinds = 11
	return core.Part{N: kinds * len(cases), Rule: "records/tenants/roles/permissions/groups/principals/tenant width, also one level down/scopes/namespaces (chains of tenants and roles up to 9 deep)", Run: func(w *core.W, i int) {
		d := []int{cases[i/kinds][0], cases[i/kinds][1], i % kinds}
		n, at := d[0], d[1]
		h := NewH(w)
		h.principal("p")
		h.namespace("n")
		h.scope("s")
		h.role("r", true)
		h.perm("r", "g", "/a", "GET")
		h.role("o", true)
		h.perm("o", "g", "/other", "GET")
		h.tenant("t")
		id := func(k int) string { return fmt.Sprintf("i%d", k) }
		reqs := []Req{{P: "p", T: "t"}, {P: "p", T: "t", G: "g", A: "/a GET"}, {P: "p", T: "t", N: "n", G: "g", A: "/a GET"}, {P: "p", T: "t", S: "s"}, {P: "p", T: "t", N: "n"},
			{P: "p", T: "t", N: "n", S: "s"}, {P: "p", N: "n", S: "s"}, {P: "p", N: "n", S: "s", G: "g", A: "/a GET"}, {P: "p", T: "t", N: "n", S: "s", G: "g", A: "/a GET"}}
		// all tells whether the requests about the k-th item are made
		all := func(k int) bool {
			return !big || k == 0 || k >= at-1 && k <= at+1 || k == n-1
		}
		switch d[2] {
		case 0: // roles of one principal in one tenant
			for k := 0; k < n; k++ {
				h.role(id(k), true)
				if k == at {
					h.perm(id(k), "g", "/a", "GET")
				}
				h.assignRole("t", "p", id(k), k%2 == 0)
			}
		case 1: // other principals' records in front
			for k := 0; k < n; k++ {
				h.principal(id(k))
				if k == at {
					h.assignRole("t", "p", "r", false)
				}
				h.assignRole("t", id(k), "r", true)
				if all(k) {
					reqs = append(reqs, Req{P: id(k), T: "t", G: "g", A: "/a GET"})
				}
			}
		case 2: // tenants of the principal
			for k := 0; k < n; k++ {
				h.tenant(id(k))
				if k == at {
					h.assignRole(id(k), "p", "r", false)
				} else {
					h.assignRole(id(k), "p", "o", k%2 == 0)
				}
				for _, a := range []string{"/a GET", "/other GET"} {
					if !all(k) {
						break
					}
					reqs = append(reqs, Req{P: "p", T: id(k), G: "g", A: a})
				}
			}
		case 3: // permissions of the role
			for k := 0; k < n; k++ {
				h.perm("o", "g", "/x"+id(k), "GET")
				if k == at {
					h.perm("o", "g", "/a", "GET")
				}
			}
			h.assignRole("t", "p", "o", false)
		case 4: // permission groups of the role
			for k := 0; k < n; k++ {
				h.perm("o", id(k), "/x", "GET")
				if k == at {
					h.perm("o", "g", "/a", "GET")
				}
			}
			h.assignRole("t", "p", "o", false)
		case 5: // tenant chain, managed from one position
			c := min(n, 9)
			last := "t"
			for k := 0; k < c; k++ {
				h.tenant(id(k))
				if k > 0 {
					h.nest(id(k-1), id(k))
				}
				last = id(k)
			}
			h.nest(last, "t")
			if at < c {
				h.assignRole(id(at), "p", "r", true)
			}
			for k := 0; k < c; k++ {
				reqs = append(reqs, Req{P: "p", T: id(k), G: "g", A: "/a GET"}, Req{P: "p", T: id(k)})
			}
		case 6: // many descendants of a managed tenant
			for k := 0; k < n; k++ {
				h.tenant(id(k))
				if k != at {
					h.nest("t", id(k))
				}
			}
			h.assignRole("t", "p", "r", true)
			for k := 0; k < n; k++ {
				if all(k) {
					reqs = append(reqs, Req{P: "p", T: id(k), G: "g", A: "/a GET"}, Req{P: "p", T: id(k)})
				}
			}
		case 10: // descendants in two levels, half of them below the last child
			h.assignRole("t", "p", "r", true)
			from := "t"
			for k := 0; k < n; k++ {
				h.tenant(id(k))
				if k != at {
					h.nest(from, id(k))
				}
				if k == n/2 && k != at {
					from = id(k)
				}
				if all(k) {
					reqs = append(reqs, Req{P: "p", T: id(k), G: "g", A: "/a GET"}, Req{P: "p", T: id(k)})
				}
			}
		case 7: // scopes of the principal
			for k := 0; k < n; k++ {
				h.scope(id(k))
				if k == at {
					h.assignScope("t", "p", "s", false)
				}
				h.assignScope("t", "p", id(k), false)
			}
		case 8: // namespaces of the tenant
			for k := 0; k < n; k++ {
				h.namespace(id(k))
				if k == at {
					h.row(Row{T: "t", N: "n"})
					h.row(Row{T: "t", N: "n", S: "s"})
				}
				h.row(Row{T: "t", N: id(k)})
				h.row(Row{T: "t", N: id(k), S: "s"})
			}
			h.row(Row{T: "t", P: "p", R: "o", N: "n"})
		case 9: // inheritance: wide, and a chain up to 9 deep
			prev := "o"
			for k := 0; k < n; k++ {
				h.role(id(k), true)
				if k < 9 {
					h.inherit(prev, id(k))
					prev = id(k)
				} else {
					h.inherit("o", id(k))
				}
				if k == at {
					h.perm(id(k), "g", "/a", "GET")
				}
				h.row(Row{T: "t", R: id(k)})
			}
			h.assignRole("t", "p", "o", false)
		}
		w.State(fmt.Sprint(d))
		for _, q := range reqs {
			h.decide(q)
		}
		h.reach("p")
		if big || n%7 == 0 {
			h.listings([]string{"p"}, []string{"t"}, []string{"n"}, []string{"s"})
		}
	}}
}

// idsSpace: two confusable ids in one position, everything recorded telling the two apart.
func idsSpace(valid bool, do func(h *H, k names, gs []string)) core.Part {
	kinds := []string{"principals", "tenants", "namespaces", "scopes", "roles", "groups"}
	return core.Part{Name: "confusable-ids", N: len(core.OddPairs) * len(kinds), Rule: fmt.Sprintf("every ordered pair of %d confusable ids as two principals, tenants, namespaces, scopes, roles or groups, the first with a role in a namespace and a scope, the second with another role in the other tenant, one tenant-wide scope and one namespace each", len(core.OddIDs)), Run: func(w *core.W, i int) {
		pr := core.OddPairs[i/len(kinds)]
		if valid && !(utf8.ValidString(pr[0]) && utf8.ValidString(pr[1])) {
			return
		}
		k := names{P: []string{"p", "q"}, T: []string{"t1", "t2"}, N: []string{"n1", "n2"}, S: []string{"s1", "s2"}, R: []string{"r1", "r2"}, X: "zz"}
		gs := []string{"g1", "g2"}
		*[]*[]string{&k.P, &k.T, &k.N, &k.S, &k.R, &gs}[i%len(kinds)] = pr[:]
		h := NewH(w)
		for _, x := range k.P {
			h.principal(x)
		}
		for _, x := range k.N {
			h.namespace(x)
		}
		for _, x := range k.S {
			h.scope(x)
		}
		for _, x := range k.T {
			h.tenant(x)
		}
		for j, x := range k.R {
			h.role(x, true)
			h.perm(x, gs[j], "/"+fmt.Sprint(j), "GET")
		}
		h.row(Row{T: k.T[0], P: k.P[0], R: k.R[0], N: k.N[0]})
		h.row(Row{T: k.T[0], P: k.P[0], S: k.S[0], Man: 1})
		h.row(Row{T: k.T[1], P: k.P[1], R: k.R[1], Man: 2})
		h.row(Row{T: k.T[0], N: k.N[0]})
		h.row(Row{T: k.T[1], N: k.N[1]})
		h.row(Row{T: k.T[1], S: k.S[1]})
		h.row(Row{T: k.T[1], N: k.N[0], S: k.S[0]})
		w.State(h.m.Canon())
		do(h, k, gs)
	}}
}

// idsAsk decides every request over the two ids of each position.
func idsAsk(activity bool) func(h *H, k names, gs []string) {
	return func(h *H, k names, gs []string) {
		for _, p := range k.P {
			h.reach(p)
		}
		for _, q := range requests(k, []act{{}}) {
			if q.P == k.X || q.T == k.X || q.N == k.X || q.S == k.X {
				continue
			}
			if !activity {
				h.decide(q)
				continue
			}
			for _, g := range gs {
				for _, a := range []string{"/0 GET", "/1 GET"} {
					q.G, q.A = g, a
					h.decide(q)
				}
			}
		}
	}
}

// patternSpace: permissions and requested activities with the wildcard characters in them.
func patternSpace() core.Part {
	ps, vs := ref.Patterns()
	return core.Part{Name: "patterns", N: len(ps) * 4, Rule: fmt.Sprintf("%d permission patterns x held directly, by inheritance, through a managed ancestor or in a namespace, against all %d activities (with wildcard characters in them too)", len(ps), len(vs)), Run: func(w *core.W, i int) {
		p := ps[i/4]
		k := strings.LastIndexByte(p, ' ')
		h := NewH(w)
		h.principal("p")
		h.namespace("n")
		h.tenant("t")
		h.tenant("u")
		h.role("r", true)
		h.role("o", true)
		h.perm("o", "g", p[:k], p[k+1:])
		h.perm("r", "g", "/none", "GET")
		at := "t"
		switch i % 4 {
		case 0:
			h.assignRole("t", "p", "o", false)
		case 1:
			h.inherit("r", "o")
			h.assignRole("t", "p", "r", false)
			h.row(Row{T: "t", R: "o"})
		case 2:
			h.nest("t", "u")
			h.assignRole("t", "p", "o", true)
			at = "u"
		case 3:
			h.row(Row{T: "t", P: "p", R: "o", N: "n"})
		}
		w.State(h.m.Canon())
		for _, v := range vs {
			for _, n := range []string{"", "n"} {
				h.decide(Req{P: "p", T: at, N: n, G: "g", A: v})
			}
		}
	}}
}

// joinedSpace: two positions whose ids, joined into one key, cannot be told apart.
func joinedSpace(do func(h *H, k names, gs []string)) core.Part {
	const shapes = 8
	return core.Part{Name: "joined-ids", N: 2 * shapes * 30 * len(core.Seps), Rule: fmt.Sprintf("every two of principal, tenant, namespace, scope, role and group x %d separators: ids that make the same text when joined; records of the first combination (every choice of namespace, scope, role), alone or after those of the second", len(core.Seps)), Run: func(w *core.W, i int) {
		d := core.Mixed(i, 2, shapes, 30, len(core.Seps))
		v := [6][]string{{"p"}, {"t"}, {"n"}, {"s"}, {"r"}, {"g"}}
		f, g := core.Ordered(6, d[2])
		x, y := core.Joined(core.Seps[d[3]])
		v[f], v[g] = x[:], y[:]
		h := NewH(w)
		at := func(f, k int) string { return v[f][k%len(v[f])] }
		for _, x := range v[0] {
			h.principal(x)
		}
		for _, x := range v[2] {
			h.namespace(x)
		}
		for _, x := range v[3] {
			h.scope(x)
		}
		for _, x := range v[1] {
			h.tenant(x)
		}
		for _, x := range v[4] {
			h.role(x, true)
		}
		put := func(k int) {
			r := Row{P: at(0, k), T: at(1, k)}
			if d[1]&1 == 1 {
				r.N = at(2, k)
			}
			if d[1]&2 == 2 {
				r.S = at(3, k)
			}
			if d[1]&4 == 4 {
				r.R = at(4, k)
				h.perm(at(4, k), at(5, k), "/"+fmt.Sprint(k), "GET")
			}
			h.row(r)
			h.row(Row{T: at(1, k), N: at(2, k)})
			h.row(Row{T: at(1, k), N: at(2, k), S: at(3, k)})
		}
		if d[0] == 1 {
			put(1)
		}
		put(0)
		w.State(h.m.Canon())
		two := func(l []string) []string { return []string{l[0], l[len(l)-1]} }
		k := names{P: two(v[0]), T: two(v[1]), N: two(v[2]), S: two(v[3]), R: two(v[4]), X: "zz"}
		do(h, k, v[5])
	}}
}
