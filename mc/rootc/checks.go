package rootc

import (
	"verif/mc/core"
)

func thorough(t string) bool { return t == "thorough" }

func init() {
	// C12: isolation and delegation
	core.Register(&core.Check{ID: "C12", Assumptions: assume, Parts: func(tier string) []core.Part {
		tree := func(h *H, ts []string) {
			for _, p := range []string{"p", "q"} {
				h.reach(p)
				for _, t := range ts {
					for _, a := range []act{{}, {"g", "/a GET"}} {
						for _, ns := range [][2]string{{"", ""}, {"n", ""}, {"", "s"}, {"n", "s"}} {
							h.decide(Req{p, t, ns[0], ns[1], a.g, a.a})
						}
					}
				}
			}
		}
		rec := func(k names) func(h *H) {
			q := requests(k, append([]act{{}}, acts...))
			return func(h *H) {
				for _, p := range k.P {
					h.reach(p)
				}
				for _, r := range q {
					if r.T == "" {
						continue
					}
					want := h.m.Authorize(r)
					got := h.ask(r)
					h.w.Query(want)
					if got && !want {
						h.w.Failf("tenant opened without an assignment in it or in a managed ancestor that supports it: %v", r)
					}
					if !got && want {
						h.w.Failf("refused in spite of assignments in the tenant or a managed ancestor: %v", r)
					}
				}
			}
		}
		ps := []core.Part{trees(2, everyKind, tree), trees(3, allKinds, tree), records("records-1", schemes[0], 1, rec(schemes[0])), records("records-1-shared-ids", schemes[1], 1, rec(schemes[1])), oddRecords(schemes[0], rec(schemes[0])), ladder(12), big(257), idsSpace(false, idsAsk(false)), joinedSpace(idsAsk(false))}
		if thorough(tier) {
			ps = append(ps, trees(3, everyKind, tree), trees(4, fewKinds, tree), records("records-2", schemes[0], 2, rec(schemes[0])), ladder(40))
		}
		return ps
	}})
	// C13, C14: decisions with and without activity
	for id, as := range map[string][]act{"C13": append(append([]act{}, acts...), half...), "C14": {{}}} {
		core.Register(&core.Check{ID: id, Assumptions: assume, Parts: func(tier string) []core.Part {
			rec := func(k names) func(h *H) {
				q := requests(k, as)
				return func(h *H) {
					for _, r := range q {
						h.decide(r)
					}
				}
			}
			tree := func(h *H, ts []string) {
				for _, p := range []string{"p", "q"} {
					for _, t := range append([]string{""}, ts...) {
						for _, ns := range [][2]string{{"", ""}, {"n", ""}, {"", "s"}, {"n", "s"}} {
							if id == "C14" {
								h.decide(Req{P: p, T: t, N: ns[0], S: ns[1]})
							} else {
								h.decide(Req{p, t, ns[0], ns[1], "g", "/a GET"})
								h.decide(Req{p, t, ns[0], ns[1], "g", "/b GET"})
							}
						}
					}
				}
			}
			ps := []core.Part{records("records-1", schemes[0], 1, rec(schemes[0])), records("records-1-shared-ids", schemes[1], 1, rec(schemes[1])), trees(2, everyKind, tree), trees(3, fewKinds, tree), records("records-2", schemes[0], 2, rec(schemes[0])), oddRecords(schemes[0], rec(schemes[0])), ladder(24), big(257), idsSpace(false, idsAsk(id == "C13")), joinedSpace(idsAsk(id == "C13"))}
			if id == "C13" {
				ps = append(ps, rolesSpace(3), patternSpace())
			}
			if thorough(tier) {
				ps = append(ps, records("records-2-shared-ids", schemes[1], 2, rec(schemes[1])), trees(3, everyKind, tree), ladder(60))
				if id == "C13" {
					ps = append(ps, rolesSpace(4))
				} else {
					ps = append(ps, records("records-3", schemes[0], 3, rec(schemes[0])))
				}
			}
			return ps
		}})
	}
	// C22: listings
	core.Register(&core.Check{ID: "C22", Assumptions: assume, Parts: func(tier string) []core.Part {
		rec := func(k names) func(h *H) {
			return func(h *H) {
				h.listings(append([]string{k.X}, k.P...), append([]string{k.X}, k.T...), append([]string{k.X}, k.N...), append([]string{k.X}, k.S...))
			}
		}
		tree := func(h *H, ts []string) { h.listings([]string{"p", "q"}, ts, []string{"n"}, []string{"s"}) }
		// again, after the first results have been overwritten
		twice := func(do func(h *H)) func(h *H) { return func(h *H) { do(h); do(h) } }
		ps := []core.Part{records("records-1", schemes[0], 1, twice(rec(schemes[0]))), records("records-1-shared-ids", schemes[1], 1, twice(rec(schemes[1]))), trees(2, everyKind, tree), trees(3, fewKinds, tree), records("records-2", schemes[0], 2, rec(schemes[0])), oddRecords(schemes[0], rec(schemes[0])), ladder(30), big(257), idsSpace(true, func(h *H, k names, _ []string) {
			h.listings(k.P, k.T, k.N, k.S)
		}), joinedSpace(func(h *H, k names, _ []string) { h.listings(k.P, k.T, k.N, k.S) })}
		if thorough(tier) {
			ps = append(ps, records("records-2-shared-ids", schemes[1], 2, rec(schemes[1])), trees(3, everyKind, tree), ladder(60))
		}
		return ps
	}})
}

var assume = []string{"ids are non-empty strings", "tenants that take part in a hierarchy are registered, one object per id"}
