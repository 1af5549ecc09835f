package rolec

import (
	"fmt"
	"sort"
	"strings"

	"verif/mc/core"
	"verif/mc/ref"
)

// model of a set of roles
type rm struct {
	own    map[string]map[string]map[string]bool // role -> group -> permissions
	edges  map[string]map[string]bool
	locked map[string]bool
}

func newRM() *rm {
	return &rm{map[string]map[string]map[string]bool{}, map[string]map[string]bool{}, map[string]bool{}}
}

func (m *rm) below(x string) map[string]bool {
	seen := map[string]bool{}
	var visit func(string)
	visit = func(y string) {
		for z := range m.edges[y] {
			if !seen[z] {
				seen[z] = true
				visit(z)
			}
		}
	}
	visit(x)
	return seen
}

func (m *rm) grant(r, g string, ps ...string) {
	if m.own[r] == nil {
		m.own[r] = map[string]map[string]bool{}
	}
	if m.own[r][g] == nil {
		m.own[r][g] = map[string]bool{}
	}
	for _, p := range ps {
		m.own[r][g][p] = true
	}
}

func (m *rm) canLink(a string, bs ...string) bool {
	for _, b := range bs {
		if a == b || m.below(b)[a] {
			return false
		}
	}
	return true
}

func (m *rm) link(a string, bs ...string) {
	for _, b := range bs {
		if m.edges[a] == nil {
			m.edges[a] = map[string]bool{}
		}
		m.edges[a][b] = true
	}
}

func (m *rm) has(r, g, a string, allowed []string) bool {
	ok := func(x string) bool {
		for p := range m.own[x][g] {
			if p == a || ref.Match(a, p) {
				return true
			}
		}
		return false
	}
	if ok(r) {
		return true
	}
	for d := range m.below(r) {
		in := len(allowed) == 0
		for _, x := range allowed {
			in = in || x == d
		}
		if in && ok(d) {
			return true
		}
	}
	return false
}

// perms renders group -> set of permissions, leaving out empty groups.
func perms(m map[string]map[string]bool) string {
	var l []string
	for g, ps := range m {
		for p := range ps {
			l = append(l, g+"\x00"+p)
		}
	}
	sort.Strings(l)
	return strings.Join(l, "\x01")
}

func setOf(m map[string][]string) map[string]map[string]bool {
	o := map[string]map[string]bool{}
	for g, l := range m {
		o[g] = map[string]bool{}
		for _, p := range l {
			o[g][p] = true
		}
	}
	return o
}

func (m *rm) implicit(r string) map[string]map[string]bool {
	o := map[string]map[string]bool{}
	add := func(x string) {
		for g, ps := range m.own[x] {
			for p := range ps {
				if o[g] == nil {
					o[g] = map[string]bool{}
				}
				o[g][p] = true
			}
		}
	}
	add(r)
	for d := range m.below(r) {
		add(d)
	}
	return o
}

func (m *rm) canon() string {
	var b strings.Builder
	for _, r := range core.Keys(m.own) {
		fmt.Fprintf(&b, "%s:%q;", r, perms(m.own[r]))
	}
	for _, r := range core.Keys(m.edges) {
		fmt.Fprintf(&b, "%s>%v;", r, core.Keys(m.edges[r]))
	}
	fmt.Fprint(&b, core.Keys(m.locked))
	return b.String()
}

// listings compares what the roles list (not what they answer).
func listings(w *core.W, m *rm, rs map[string]role, groups []string) {
	for _, id := range core.Keys(rs) {
		r := rs[id]
		own := r.Own()
		if got, want := perms(setOf(own)), perms(m.own[id]); got != want {
			w.Failf("role %s: own permissions %q, want %q", id, got, want)
		}
		for g, l := range own {
			if len(l) != len(m.own[id][g]) {
				w.Failf("role %s: own permissions of group %s listed with repetitions: %v", id, g, l)
			}
		}
		w.Query(len(m.own[id]) > 0)
		if got, want := perms(setOf(r.Implicit())), perms(m.implicit(id)); got != want {
			w.Failf("role %s: implicit permissions %q, want %q", id, got, want)
		}
		w.Query(len(m.edges[id]) > 0)
		for _, g := range groups {
			got := map[string]map[string]bool{g: {}}
			for _, p := range r.OwnIn(g) {
				got[g][p] = true
			}
			if perms(got) != perms(map[string]map[string]bool{g: m.own[id][g]}) {
				w.Failf("role %s: permissions in group %s are %q, want %q", id, g, perms(got), core.Keys(m.own[id][g]))
			}
		}
		seen := map[string]bool{}
		for _, d := range r.Below() {
			seen[d] = true
		}
		if fmt.Sprint(core.Keys(seen)) != fmt.Sprint(core.Keys(m.below(id))) {
			w.Failf("role %s: descendants %v, want %v", id, core.Keys(seen), core.Keys(m.below(id)))
		}
	}
}

// answers compares Has for every role, group, activity and admissible list.
func answers(w *core.W, m *rm, rs map[string]role, groups, acts []string, allowed [][]string) {
	for _, id := range core.Keys(rs) {
		for _, g := range groups {
			for _, a := range acts {
				for _, al := range allowed {
					want := m.has(id, g, a, al)
					got := rs[id].Has(g, a, al...)
					w.Query(want)
					if got != want {
						w.Failf("role %s Has(%q, %q, admissible %q): got %v, want %v", id, g, a, al, got, want)
					}
				}
			}
		}
	}
}

// links17: all sequences of link calls, for several ways of placing the permissions.
func links17(e engine, n, depth int, multi bool) core.Part {
	type lk struct {
		a  int
		bs []int
	}
	var ops []lk
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			ops = append(ops, lk{a, []int{b}})
		}
	}
	if multi {
		for a := 0; a < n; a++ {
			for b := 0; b < n; b++ {
				for c := 0; c < n; c++ {
					if b != c {
						ops = append(ops, lk{a, []int{b, c}})
					}
				}
			}
		}
	}
	const places = 3
	var ids []string
	for k := 0; k < n; k++ {
		ids = append(ids, fmt.Sprintf("r%d", k))
	}
	var allowed [][]string
	for s := 0; s < 1<<n; s++ {
		var l []string
		for k := 0; k < n; k++ {
			if s>>k&1 == 1 {
				l = append(l, ids[k])
			}
		}
		allowed = append(allowed, l)
	}
	allowed = append(allowed, []string{"unknown"}, []string{ids[n-1], "unknown"})
	return core.Part{Name: fmt.Sprintf("%s-links-%d-%d", e.name, n, depth), N: core.SeqsUpTo(len(ops), depth) * places, Rule: fmt.Sprintf("%s: all sequences of <=%d of %d link calls over %d roles (one or two children, self links included) x 3 placements of permissions in groups; every role, group, activity and admissible list", e.name, depth, len(ops), n), Run: func(w *core.W, i int) {
		place := i % places
		m := newRM()
		rs := map[string]role{}
		groups := []string{"g", "h"}
		var acts []string
		for k, id := range ids {
			rs[id] = e.newRole(id)
			g := "g"
			if place == 1 && k%2 == 1 {
				g = "h"
			}
			p := fmt.Sprintf("/%d/:x GET", k)
			if place == 2 {
				p = "/same GET"
				if k != n-1 {
					p = ""
				}
			}
			if p != "" {
				if err := rs[id].Grant(g, p); err != nil {
					w.Failf("Grant: %v", err)
				}
				m.grant(id, g, p)
			}
			acts = append(acts, fmt.Sprintf("/%d/7 GET", k))
		}
		acts = append(acts, "/same GET", "/0/:x GET")
		for _, o := range core.Seq(len(ops), depth, i/places) {
			op := ops[o]
			var bs []string
			var ds []role
			for _, b := range op.bs {
				bs = append(bs, ids[b])
				ds = append(ds, rs[ids[b]])
			}
			ok := m.canLink(ids[op.a], bs...)
			err := rs[ids[op.a]].Link(ds...)
			w.Op(1)
			w.Logf("%s above %v: %v", ids[op.a], bs, err)
			if (err == nil) != ok {
				w.Failf("%s above %v: error %v, but acceptable is %v", ids[op.a], bs, err, ok)
			}
			if ok {
				m.link(ids[op.a], bs...)
			}
		}
		w.State(e.name + m.canon())
		listings(w, m, rs, groups)
		answers(w, m, rs, groups, acts, allowed)
		answers(w, m, rs, []string{""}, acts, allowed[:1])
	}}
}

// sizes17: wide and deep role graphs, the permission at every position.
func sizes17(e engine, max int) core.Part {
	return core.Part{Name: e.name + "-sizes", N: max * (max + 1) * 2, Rule: fmt.Sprintf("%s: roles with 1..%d descendants and chains up to 9 deep, the permission with each of them or with none, in a group the others lack or share", e.name, max), Run: func(w *core.W, i int) {
		d := core.Mixed(i, max, max+1, 2)
		n, at := d[0]+1, d[1]
		if at > n {
			return
		}
		m := newRM()
		rs := map[string]role{"top": e.newRole("top")}
		prev := "top"
		var all []string
		for k := 0; k < n; k++ {
			id := fmt.Sprintf("d%d", k)
			all = append(all, id)
			rs[id] = e.newRole(id)
			from := "top"
			if k < 9 {
				from = prev
				prev = id
			}
			if err := rs[from].Link(rs[id]); err != nil {
				w.Failf("link: %v", err)
			}
			m.link(from, id)
			if k == at {
				rs[id].Grant("g", "/a GET")
				m.grant(id, "g", "/a GET")
			} else if d[2] == 1 {
				p := fmt.Sprintf("/x%d GET", k)
				rs[id].Grant("g", p)
				m.grant(id, "g", p)
			}
		}
		w.Logf("%d descendants, permission at %d", n, at)
		w.State(fmt.Sprint(e.name, d))
		listings(w, m, rs, []string{"g"})
		answers(w, m, map[string]role{"top": rs["top"]}, []string{"g", "h"}, []string{"/a GET", "/b GET"}, [][]string{nil, all, all[:len(all)/2], {"d0"}})
	}}
}

// wide17: many descendants in at most two levels, the permission with one of them or with none.
func wide17(e engine, max int) core.Part {
	at := core.Big(max)
	return core.Part{Name: fmt.Sprintf("%s-wide-%d", e.name, max), N: len(at) * 3, Rule: fmt.Sprintf("%s: %v roles below one, or half of them below it and half below its last child, linked one by one or at once, the permission first, in the middle, last or absent; and the same number of permissions on one role", e.name, core.Sizes(max)), Run: func(w *core.W, i int) {
		n, p := at[i/3][0], at[i/3][1]
		m := newRM()
		rs := map[string]role{"top": e.newRole("top")}
		w.Logf("%d, permission at %d, shape %d", n, p, i%3)
		w.State(fmt.Sprint(e.name, n, p, i%3))
		if i%3 == 2 {
			var l []string
			for k := 0; k < n; k++ {
				x := fmt.Sprintf("/x%d GET", k)
				if k == p {
					x = "/a GET"
				}
				l = append(l, x)
			}
			rs["below"] = e.newRole("below")
			rs["top"].Link(rs["below"])
			m.link("top", "below")
			rs["top"].Grant("g", l...)
			m.grant("top", "g", l...)
			for _, x := range l {
				rs["below"].Grant("h", x)
			}
			m.grant("below", "h", l...)
			listings(w, m, rs, []string{"g", "h"})
			answers(w, m, rs, []string{"g", "h"}, []string{"/a GET", "/b GET", "/x0 GET", fmt.Sprintf("/x%d GET", n-1)}, [][]string{nil, {"below"}, {"zz"}})
			return
		}
		var all []string
		var ds []role
		for k := 0; k < n; k++ {
			id := fmt.Sprintf("d%d", k)
			all = append(all, id)
			rs[id] = e.newRole(id)
			x := fmt.Sprintf("/x%d GET", k)
			if k == p {
				x = "/a GET"
			}
			rs[id].Grant("g", x)
			m.grant(id, "g", x)
			ds = append(ds, rs[id])
		}
		link := func(from string, l []role, ids []string, once bool) {
			m.link(from, ids...)
			if once {
				if err := rs[from].Link(l...); err != nil {
					w.Failf("link: %v", err)
				}
				return
			}
			for _, d := range l {
				if err := rs[from].Link(d); err != nil {
					w.Failf("link: %v", err)
				}
			}
		}
		if i%3 == 0 {
			link("top", ds, all, p%2 == 0)
		} else {
			link("top", ds[:n/2], all[:n/2], p%2 == 0)
			link(all[n/2-1], ds[n/2:], all[n/2:], p%2 == 1)
		}
		some := map[string]role{"top": rs["top"], all[n/2-1]: rs[all[n/2-1]], all[n-1]: rs[all[n-1]]}
		listings(w, m, some, []string{"g"})
		answers(w, m, some, []string{"g", "h"}, []string{"/a GET", "/b GET", "/x0 GET", fmt.Sprintf("/x%d GET", n-1)}, [][]string{nil, all, all[:n/2], all[n/2:], {"d0"}, {all[n-1]}})
	}}
}

// hist17: links and grants in every order, the questions asked before, between and after.
func hist17(e engine, depth int) core.Part {
	ids := []string{"a", "b", "c"}
	type op struct {
		name  string
		grant bool
		r     string
		to    []string // children, or group and permissions
	}
	var ops []op
	for _, x := range ids {
		for _, y := range ids {
			if x != y {
				ops = append(ops, op{x + " above " + y, false, x, []string{y}})
			}
		}
		ops = append(ops, op{x + " gets /p", true, x, []string{"g", "/p GET"}}, op{x + " gets /q in h", true, x, []string{"h", "/q GET"}}, op{x + " gets /p, /:x", true, x, []string{"g", "/p GET", "/q/:x GET"}})
	}
	acts := []string{"/p GET", "/q GET", "/q/7 GET"}
	allowed := [][]string{nil, {"a"}, {"b"}, {"c"}, {"b", "c"}, {"a", "b", "c"}}
	groups := []string{"g", "h"}
	n := core.SeqsUpTo(len(ops), depth)
	return core.Part{Name: fmt.Sprintf("%s-histories-%d", e.name, depth), N: n * 3, Rule: fmt.Sprintf("%s: all sequences of <=%d of %d calls linking and granting on three roles x questions after every call, listings first or answers first, or only the questions without admissible list after every call; %d admissible lists", e.name, depth, len(ops), len(allowed)), Run: func(w *core.W, i int) {
		mode := i % 3
		m := newRM()
		rs := map[string]role{}
		for _, id := range ids {
			rs[id] = e.newRole(id)
		}
		ask := func() {
			switch mode {
			case 0:
				listings(w, m, rs, groups)
				answers(w, m, rs, groups, acts, allowed)
			case 1:
				answers(w, m, rs, groups, acts, allowed)
				listings(w, m, rs, groups)
			default:
				answers(w, m, rs, groups, acts, allowed[:1])
			}
		}
		ask()
		for _, k := range core.Seq(len(ops), depth, i/3) {
			o := ops[k]
			w.Op(1)
			w.Logf("%s", o.name)
			if o.grant {
				if err := rs[o.r].Grant(o.to[0], o.to[1:]...); err != nil {
					w.Failf("%s: %v", o.name, err)
				}
				m.grant(o.r, o.to[0], o.to[1:]...)
			} else {
				ok := m.canLink(o.r, o.to...)
				if err := rs[o.r].Link(rs[o.to[0]]); (err == nil) != ok {
					w.Failf("%s: error %v, acceptable %v", o.name, err, ok)
				}
				if ok {
					m.link(o.r, o.to...)
				}
			}
			ask()
		}
		w.State(e.name + m.canon())
		listings(w, m, rs, groups)
		answers(w, m, rs, groups, acts, allowed)
	}}
}

// joined17: ids of role, group and permission that make the same text when joined.
func joined17(e engine) core.Part {
	return core.Part{Name: e.name + "-joined-ids", N: 6 * len(core.Seps) * 2, Rule: fmt.Sprintf("%s: every two of role, group and resource x %d separators: ids that make the same text when joined; the first combination granted, alone or after the second, asked cold and again", e.name, len(core.Seps)), Run: func(w *core.W, i int) {
		d := core.Mixed(i, 2, 6, len(core.Seps))
		v := [3][]string{{"r"}, {"g"}, {"/p"}}
		f, g := core.Ordered(3, d[1])
		x, y := core.Joined(core.Seps[d[2]])
		v[f], v[g] = x[:], y[:]
		at := func(f, k int) string { return v[f][k%len(v[f])] }
		m := newRM()
		rs := map[string]role{"top": e.newRole("top")}
		for _, r := range v[0] {
			rs[r] = e.newRole(r)
			rs["top"].Link(rs[r])
			m.link("top", r)
		}
		put := func(k int) {
			if err := rs[at(0, k)].Grant(at(1, k), at(2, k)+" GET"); err != nil {
				w.Failf("grant: %v", err)
			}
			m.grant(at(0, k), at(1, k), at(2, k)+" GET")
		}
		if d[0] == 1 {
			put(1)
		}
		put(0)
		var acts []string
		for _, p := range v[2] {
			acts = append(acts, p+" GET")
		}
		w.Logf("roles %q groups %q resources %q", v[0], v[1], v[2])
		w.State(e.name + m.canon())
		listings(w, m, rs, v[1])
		for k := 0; k < 2; k++ {
			answers(w, m, rs, v[1], acts, [][]string{nil, v[0][:1], v[0], {"top"}})
		}
	}}
}

// ids17: confusable ids for two roles or two groups.
func ids17(e engine) core.Part {
	return core.Part{Name: e.name + "-confusable-ids", N: len(core.OddPairs) * 2, Rule: fmt.Sprintf("%s: every ordered pair of %d confusable ids as two roles below one, or as two permission groups; every admissible list", e.name, len(core.OddIDs)), Run: func(w *core.W, i int) {
		pr := core.OddPairs[i/2]
		ids, groups := []string{"x", "y"}, []string{"g", "h"}
		if i%2 == 0 {
			ids = pr[:]
		} else {
			groups = pr[:]
		}
		m := newRM()
		rs := map[string]role{"top": e.newRole("top")}
		for k, id := range ids {
			rs[id] = e.newRole(id)
			p := fmt.Sprintf("/%d GET", k)
			rs[id].Grant(groups[k], p)
			m.grant(id, groups[k], p)
			if err := rs["top"].Link(rs[id]); err != nil {
				w.Failf("link: %v", err)
			}
			m.link("top", id)
		}
		w.Logf("roles %q groups %q", ids, groups)
		w.State(e.name + m.canon())
		listings(w, m, rs, groups)
		answers(w, m, rs, groups, []string{"/0 GET", "/1 GET"}, [][]string{nil, {ids[0]}, {ids[1]}, ids, {"top"}, {groups[0]}})
	}}
}

// patterns17: permissions and requests with the wildcard characters in them.
func patterns17(e engine) core.Part {
	ps, vs := ref.Patterns()
	return core.Part{Name: e.name + "-patterns", N: len(ps) * len(ps), Rule: fmt.Sprintf("%s: every pair of %d permission patterns, one of the role and one of its descendant in the same group, against all %d requests (with wildcard characters in them too)", e.name, len(ps), len(vs)), Run: func(w *core.W, i int) {
		m := newRM()
		rs := map[string]role{"top": e.newRole("top"), "sub": e.newRole("sub")}
		for k, r := range []string{"top", "sub"} {
			p := ps[[]int{i % len(ps), i / len(ps)}[k]]
			if err := rs[r].Grant("g", p); err != nil {
				w.Failf("grant: %v", err)
			}
			m.grant(r, "g", p)
			w.Logf("%s has %q", r, p)
		}
		if err := rs["top"].Link(rs["sub"]); err != nil {
			w.Failf("link: %v", err)
		}
		m.link("top", "sub")
		w.State(e.name + m.canon())
		answers(w, m, rs, []string{"g"}, vs, [][]string{nil, {"top"}})
	}}
}

// several17: several permissions in one call, on the role itself and on its descendant.
func several17(e engine) core.Part {
	ps := []string{"/a GET", "/a POST", "/a ", "/b GET", " GET"}
	n := core.SeqsUpTo(len(ps), 4)
	return core.Part{Name: e.name + "-several", N: n * 2, Rule: fmt.Sprintf("%s: every list of <=4 of %q granted in one call to a role or to its descendant", e.name, ps), Run: func(w *core.W, i int) {
		m := newRM()
		rs := map[string]role{"top": e.newRole("top"), "sub": e.newRole("sub")}
		to := []string{"top", "sub"}[i%2]
		var l []string
		for _, x := range core.Seq(len(ps), 4, i/2) {
			l = append(l, ps[x])
			m.grant(to, "g", ps[x])
		}
		w.Logf("%s gets %q", to, l)
		if err := rs[to].Grant("g", l...); err != nil {
			w.Failf("grant: %v", err)
		}
		if err := rs["top"].Link(rs["sub"]); err != nil {
			w.Failf("link: %v", err)
		}
		m.link("top", "sub")
		w.State(e.name + m.canon())
		if len(l) > 0 {
			listings(w, m, rs, []string{"g", "h"})
		}
		answers(w, m, rs, []string{"g", "h"}, append([]string{"/c GET"}, ps...), [][]string{nil, {"top"}, {"sub"}})
	}}
}

func init() {
	core.Register(&core.Check{ID: "C17", Assumptions: []string{"one role object per id", "implicit listings are compared as sets"}, Parts: func(tier string) []core.Part {
		var ps []core.Part
		for _, e := range engines {
			ps = append(ps, links17(e, 3, 3, true), links17(e, 4, 3, false), sizes17(e, 30), wide17(e, 1025), ids17(e), patterns17(e), several17(e), hist17(e, 3), joined17(e))
			if tier == "thorough" {
				ps = append(ps, links17(e, 3, 4, true), links17(e, 4, 4, false), links17(e, 3, 6, false), sizes17(e, 60), wide17(e, 513), hist17(e, 4))
			}
		}
		return ps
	}})
}
