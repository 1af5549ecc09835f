package v1c

import (
	"fmt"
	"slices"

	"verif/mc/core"
)

var strs = []string{"a", "", "_", "a_b", "b", "%5F", "%", "_a", "a_", "%25", "5F", "true", "é ", "a%5Fb", "%255F", "\xff", "__", "a\x00b", "%5", "nil", "<nil>", "%s", "a|b", "a:b", "a/b", "a,b", `a"b`, "A", " a", "\\"}

func init() {
	for _, x := range core.OddIDs {
		if !slices.Contains(strs, x) {
			strs = append(strs, x)
		}
	}
}

// exact checks that precisely the model's assignments are stored, seen from every id that occurs
// in any position.
func (h *H) exact(ids map[string]bool) {
	for t := range ids {
		h.rows(fmt.Sprintf("GetTenantRoles(%q)", t), h.e.GetTenantRoles(t), func(r Row) bool { return r.T == t })
		for p := range ids {
			h.rows(fmt.Sprintf("GetPrincipalRoles(%q, %q)", t, p), h.e.GetPrincipalRoles(t, p), func(r Row) bool { return r.P == p && r.T == t })
		}
	}
}

// decisions asks about membership for all ids; principals and tenants are registered as needed.
func (h *H) decisions(ids map[string]bool) {
	for p := range ids {
		for t := range ids {
			if t == "" {
				continue
			}
			for n := range ids {
				h.decide(Req{P: p, T: t, N: n})
				h.decide(Req{P: p, T: t, S: n})
			}
			h.decide(Req{P: p, T: t})
		}
	}
}

func (h *H) put(r Row, man int) {
	if h.t[r.T] == nil {
		h.tenant(r.T)
	}
	if !h.m.principals[r.P] {
		h.principal(r.P)
	}
	h.row(r, man)
}

func idsOf(rs ...Row) map[string]bool {
	m := map[string]bool{}
	for _, r := range rs {
		for _, x := range []string{r.P, r.R, r.T, r.N, r.S} {
			m[x] = true
		}
	}
	return m
}

func init() {
	core.Register(&core.Check{ID: "C25", Assumptions: []string{"ids are strings", "namespace and scope, if given, have non-blank ids"}, Parts: func(tier string) []core.Part {
		single := func(k int) core.Part {
			return core.Part{Name: fmt.Sprintf("single-%d", k), N: core.Prod(k, k, k, k, k), Rule: fmt.Sprintf("every assignment whose five ids are among the %d strings %q, with the management right given, denied and defaulted, made once and twice", k, strs[:k]), Run: func(w *core.W, i int) {
				d := core.Mixed(i, k, k, k, k, k)
				r := Row{P: strs[d[0]], R: strs[d[1]], T: strs[d[2]], N: strs[d[3]], S: strs[d[4]]}
				ids := idsOf(r)
				h := NewH(w)
				h.put(r, i%3)
				h.exact(ids)
				h.put(r, (i+1)%3)
				h.put(r, i%3)
				h.exact(ids)
				w.State(h.m.Canon())
				h.decisions(ids)
			}}
		}
		// pairs of assignments that agree in all but the chosen positions
		pair := func(k, width int) core.Part {
			pos := core.Binom(5, width)
			n := core.Prod(core.Prod(rep(k, width)...), core.Prod(rep(k, width)...), pos)
			return core.Part{Name: fmt.Sprintf("pairs-%d-wide-%d", k, width), N: n, Rule: fmt.Sprintf("every pair of assignments that agree (id \"c\") except in %d chosen positions, which take all values among %q", width, strs[:k]), Run: func(w *core.W, i int) {
				d := core.Mixed(i, append([]int{pos}, rep(k, 2*width)...)...)
				at := positions(5, width)[d[0]]
				var rs [2]Row
				for x := range rs {
					f := [5]string{"c", "c", "c", "c", "c"}
					for j, q := range at {
						f[q] = strs[d[1+x*width+j]]
					}
					rs[x] = Row{P: f[0], R: f[1], T: f[2], N: f[3], S: f[4]}
				}
				h := NewH(w)
				h.put(rs[0], 1)
				h.put(rs[1], 1+i%2)
				ids := map[string]bool{}
				for _, r := range rs {
					ids[r.P], ids[r.T] = true, true
				}
				h.exact(ids)
				w.State(h.m.Canon())
				for _, r := range rs {
					for _, q := range rs {
						if q.T == "" {
							continue
						}
						h.decide(Req{P: r.P, T: q.T})
						h.decide(Req{P: r.P, T: q.T, N: r.N, S: q.S})
					}
				}
			}}
		}
		wide := core.Part{Name: "single-one-odd", N: core.Prod(len(strs), len(strs), 20), Rule: fmt.Sprintf("every assignment with two positions taking all values among %q and the rest plain", strs), Run: func(w *core.W, i int) {
			d := core.Mixed(i, len(strs), len(strs), 20)
			f := [5]string{"c", "c", "c", "c", "c"}
			a, b := d[2]/4, d[2]%4
			if b >= a {
				b++
			}
			f[a], f[b] = strs[d[0]], strs[d[1]]
			r := Row{P: f[0], R: f[1], T: f[2], N: f[3], S: f[4]}
			h := NewH(w)
			h.put(r, i%3)
			h.exact(idsOf(r))
			h.decisions(idsOf(r))
			w.State(h.m.Canon())
		}}
		ps := []core.Part{wide, single(6), pair(8, 2), pair(6, 3)}
		if tier == "thorough" {
			ps = append(ps, single(10), pair(12, 2), pair(10, 3), pair(5, 4))
		}
		return ps
	}})
}

func rep(v, n int) []int {
	l := make([]int, n)
	for i := range l {
		l[i] = v
	}
	return l
}

func positions(n, k int) (l [][]int) {
	var rec func(int, []int)
	rec = func(from int, at []int) {
		if len(at) == k {
			l = append(l, append([]int{}, at...))
			return
		}
		for x := from; x < n; x++ {
			rec(x+1, append(at, x))
		}
	}
	rec(0, nil)
	return
}
