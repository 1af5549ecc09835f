package rolec

import (
	"fmt"
	"sort"
	"strings"

	permission "github.com/oarkflow/permission"
	v1 "github.com/oarkflow/permission/v1"

	"verif/mc/core"
)

// tree is one engine's tenants: link puts children below a parent, below lists the descendants in
// every way the engine offers.
type tree struct {
	link  func(p int, cs []int) error
	below func(t int) map[string][]string
}

func texts(l []any) (r []string) {
	for _, x := range l {
		r = append(r, fmt.Sprint(x))
	}
	return r
}

func rootTree(ids []string) tree {
	m := permission.New()
	var ts []*permission.Tenant
	for _, id := range ids {
		ts = append(ts, m.AddTenant(permission.NewTenant(id)))
	}
	return tree{func(p int, cs []int) error {
		var l []*permission.Tenant
		for _, c := range cs {
			l = append(l, ts[c])
		}
		return ts[p].AddDescendant(l...)
	}, func(t int) map[string][]string {
		return map[string][]string{"GetDescendants": texts(ts[t].GetDescendants()), "GetDescendantTenant": texts(m.GetDescendantTenant(ids[t])), "TenantChildren (once)": texts(m.TenantChildren(ids[t]))}
	}}
}

func v1Tree(ids []string) tree {
	m := v1.New()
	var ts []*v1.Tenant
	for _, id := range ids {
		ts = append(ts, m.AddTenant(v1.NewTenant(id)))
	}
	return tree{func(p int, cs []int) error {
		var l []*v1.Tenant
		for _, c := range cs {
			l = append(l, ts[c])
		}
		return ts[p].AddDescendent(l...)
	}, func(t int) map[string][]string {
		var l []string
		for _, d := range ts[t].GetDescendantTenants() {
			l = append(l, d.ID())
		}
		return map[string][]string{"GetDescendantTenants": l}
	}}
}

func reach29(e [][]bool, t int) []bool {
	seen := make([]bool, len(e))
	var walk func(int)
	walk = func(x int) {
		for c := range e {
			if e[x][c] && !seen[c] {
				seen[c] = true
				walk(c)
			}
		}
	}
	walk(t)
	return seen
}

type link29 struct {
	p  int
	cs []int
}

// drive29 makes the calls and compares acceptance and all descendants with reachability.
func drive29(w *core.W, tr tree, ids []string, calls []link29, warm bool) {
	n := len(ids)
	e := make([][]bool, n)
	for i := range e {
		e[i] = make([]bool, n)
	}
	look := func() {
		for t := 0; t < n; t++ {
			var want []string
			for c, on := range reach29(e, t) {
				if on {
					want = append(want, ids[c])
				}
			}
			sort.Strings(want)
			for how, got := range tr.below(t) {
				w.Op(1)
				w.Query(len(want) > 0)
				k := map[string]bool{}
				for _, g := range got {
					if k[g] && strings.Contains(how, "once") {
						w.Failf("%s(%q) lists %q twice", how, ids[t], g)
					}
					k[g] = true
				}
				if fmt.Sprintf("%q", core.Keys(k)) != fmt.Sprintf("%q", append([]string{}, want...)) {
					w.Failf("%s(%q) = %q, want %q", how, ids[t], got, want)
				}
			}
		}
	}
	for _, c := range calls {
		ok := true
		for _, x := range c.cs {
			ok = ok && x != c.p && !reach29(e, x)[c.p]
		}
		err := tr.link(c.p, c.cs)
		w.Op(1)
		w.Logf("tenants %v below %d: %v", c.cs, c.p, err)
		w.Query(ok)
		if (err == nil) != ok {
			w.Failf("putting tenants %v below %d: error %v, want accepted=%v", c.cs, c.p, err, ok)
		}
		if ok {
			for _, x := range c.cs {
				e[c.p][x] = true
			}
		}
		if warm {
			look()
		}
	}
	w.State(fmt.Sprint(e))
	look()
}

func init() {
	core.Register(&core.Check{ID: "C29", Assumptions: []string{"one tenant object per id"}, Parts: func(tier string) (ps []core.Part) {
		for _, eng := range []string{"root", "v1"} {
			mk := map[string]func([]string) tree{"root": rootTree, "v1": v1Tree}[eng]
			seqs := func(n, kids, depth int) core.Part {
				ids := []string{"t", "t0", "u", "v", "w"}[:n]
				var calls []link29
				for p := 0; p < n; p++ {
					for i := 0; i < core.SeqsUpTo(n, kids); i++ {
						calls = append(calls, link29{p, core.Seq(n, kids, i)})
					}
				}
				k := core.SeqsUpTo(len(calls), depth)
				return core.Part{Name: fmt.Sprintf("%s-%d-tenants-%d-calls", eng, n, depth), N: 2 * k, Rule: fmt.Sprintf("%s: all sequences of <=%d of %d calls putting <=%d of %d tenants below one, descendants compared at the end or after every call", eng, depth, len(calls), kids, n), Run: func(w *core.W, i int) {
					var l []link29
					for _, c := range core.Seq(len(calls), depth, i>>1) {
						l = append(l, calls[c])
					}
					drive29(w, mk(ids), ids, l, i&1 == 1)
				}}
			}
			graphs := func(n int) core.Part {
				ids := []string{"t", "t0", "u", "v", "w"}[:n]
				var es [][2]int
				for i := 0; i < n; i++ {
					for j := i + 1; j < n; j++ {
						es = append(es, [2]int{i, j})
					}
				}
				return core.Part{Name: fmt.Sprintf("%s-graphs-%d", eng, n), N: 1 << len(es) * n * n, Rule: fmt.Sprintf("%s: every acyclic hierarchy of %d tenants along one order, built leaves first and roots first, then every further link", eng, n), Run: func(w *core.W, i int) {
					g, last := i/(n*n), i%(n*n)
					for _, rev := range []bool{false, true} {
						var l []link29
						for k, x := range es {
							if g>>k&1 == 1 {
								l = append(l, link29{x[0], []int{x[1]}})
							}
						}
						if rev {
							for a, b := 0, len(l)-1; a < b; a, b = a+1, b-1 {
								l[a], l[b] = l[b], l[a]
							}
						}
						drive29(w, mk(ids), ids, append(l, link29{last / n, []int{last % n}}), false)
					}
				}}
			}
			chain := func(n int) core.Part {
				var ids []string
				for i := 0; i < n; i++ {
					ids = append(ids, fmt.Sprint("t", i))
				}
				return core.Part{Name: fmt.Sprintf("%s-chain-and-fan-%d", eng, n), N: 2 * n * n, Rule: fmt.Sprintf("%s: a chain of %d tenants, and one above %d, then every further link", eng, n, n-1), Run: func(w *core.W, i int) {
					var l []link29
					fan := link29{0, nil}
					for k := 1; k < n; k++ {
						l = append(l, link29{k - 1, []int{k}})
						fan.cs = append(fan.cs, k)
					}
					if i&1 == 1 {
						l = []link29{fan}
					}
					i >>= 1
					drive29(w, mk(ids), ids, append(l, link29{i / n, []int{i % n}}), false)
				}}
			}
			wide := func(max int) core.Part {
				sz := core.Sizes(max)
				shapes := []string{"one above all", "ten in a row above all", "half below one, half below its last child", "each of eight above an eighth"}
				return core.Part{Name: fmt.Sprintf("%s-wide-%d", eng, max), N: len(sz) * len(shapes), Rule: fmt.Sprintf("%s: %v tenants with %s; children put one by one and all at once, then a child below the last and a loop refused", eng, sz, strings.Join(shapes, "; ")), Run: func(w *core.W, i int) {
					n := sz[i/len(shapes)]
					for _, atOnce := range []bool{false, true} {
						var ids []string
						for k := 0; k < n+11; k++ {
							ids = append(ids, fmt.Sprint("t", k))
						}
						var l []link29
						put := func(p, from, to int) {
							if atOnce {
								c := link29{p, nil}
								for k := from; k < to; k++ {
									c.cs = append(c.cs, k)
								}
								l = append(l, c)
								return
							}
							for k := from; k < to; k++ {
								l = append(l, link29{p, []int{k}})
							}
						}
						switch i % len(shapes) {
						case 0:
							put(0, 1, n)
						case 1:
							for k := 0; k < 9; k++ {
								l = append(l, link29{k, []int{k + 1}})
							}
							put(9, 10, n)
						case 2:
							put(0, 1, n/2)
							put(n/2-1, n/2, n)
						case 3:
							put(0, 1, 9)
							for k := 0; k < 8; k++ {
								put(1+k, 9+k*(n-9)/8, 9+(k+1)*(n-9)/8)
							}
						}
						l = append(l, link29{n - 1, []int{n}}, link29{n, []int{0}}, link29{n, []int{n + 1}})
						drive29(w, mk(ids), ids, l, false)
					}
				}}
			}
			odd := core.Part{Name: eng + "-confusable-ids", N: len(core.OddPairs), Rule: fmt.Sprintf("%s: every ordered pair of %d confusable ids as the ends of a chain of three tenants, then every further link", eng, len(core.OddIDs)), Run: func(w *core.W, i int) {
				p := core.OddPairs[i]
				ids := []string{p[0], "mid", p[1]}
				for k := 0; k < 9; k++ {
					drive29(w, mk(ids), ids, []link29{{0, []int{1}}, {k / 3, []int{k % 3}}}, true)
				}
			}}
			ps = append(ps, odd, wide(1025))
			if tier == "thorough" {
				ps = append(ps, wide(1025))
			}
			ps = append(ps, seqs(3, 2, 3), seqs(4, 1, 4), graphs(4), graphs(5), chain(24))
			if tier == "thorough" {
				wide := func(max int) core.Part {
					sz := core.Sizes(max)
					shapes := []string{"one above all", "ten in a row above all", "half below one, half below its last child", "each of eight above an eighth"}
					return core.Part{Name: fmt.Sprintf("%s-wide-%d", eng, max), N: len(sz) * len(shapes), Rule: fmt.Sprintf("%s: %v tenants with %s; children put one by one and all at once, then a child below the last and a loop refused", eng, sz, strings.Join(shapes, "; ")), Run: func(w *core.W, i int) {
						n := sz[i/len(shapes)]
						for _, atOnce := range []bool{false, true} {
							var ids []string
							for k := 0; k < n+11; k++ {
								ids = append(ids, fmt.Sprint("t", k))
							}
							var l []link29
							put := func(p, from, to int) {
								if atOnce {
									c := link29{p, nil}
									for k := from; k < to; k++ {
										c.cs = append(c.cs, k)
									}
									l = append(l, c)
									return
								}
								for k := from; k < to; k++ {
									l = append(l, link29{p, []int{k}})
								}
							}
							switch i % len(shapes) {
							case 0:
								put(0, 1, n)
							case 1:
								for k := 0; k < 9; k++ {
									l = append(l, link29{k, []int{k + 1}})
								}
								put(9, 10, n)
							case 2:
								put(0, 1, n/2)
								put(n/2-1, n/2, n)
							case 3:
								put(0, 1, 9)
								for k := 0; k < 8; k++ {
									put(1+k, 9+k*(n-9)/8, 9+(k+1)*(n-9)/8)
								}
							}
							l = append(l, link29{n - 1, []int{n}}, link29{n, []int{0}}, link29{n, []int{n + 1}})
							drive29(w, mk(ids), ids, l, false)
						}
					}}
				}
				odd := core.Part{Name: eng + "-confusable-ids", N: len(core.OddPairs), Rule: fmt.Sprintf("%s: every ordered pair of %d confusable ids as the ends of a chain of three tenants, then every further link", eng, len(core.OddIDs)), Run: func(w *core.W, i int) {
					p := core.OddPairs[i]
					ids := []string{p[0], "mid", p[1]}
					for k := 0; k < 9; k++ {
						drive29(w, mk(ids), ids, []link29{{0, []int{1}}, {k / 3, []int{k % 3}}}, true)
					}
				}}
				ps = append(ps, odd, wide(1025))
				if tier == "thorough" {
					ps = append(ps, wide(1025))
				}
				ps = append(ps, seqs(3, 2, 4), seqs(4, 2, 3), seqs(4, 1, 5), seqs(5, 1, 4), chain(40))
			}
		}
		return ps
	}})
}
