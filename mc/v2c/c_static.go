package v2c

import (
	"verif/mc/core"
)

type mode int

const (
	sound mode = 1 << iota
	complete
	checks // role checks
)

// part turns a space into a checked part.
func (sp space) part(m mode) core.Part {
	return core.Part{Name: sp.name, N: sp.n, Rule: sp.rule, Run: func(w *core.W, i int) {
		c := sp.at(i)
		w.State(c.Canon())
		s := Build(w, c)
		roleq := sp.roleq
		if sp.roleqOf != nil {
			roleq = sp.roleqOf(i)
		}
		for _, q := range sp.reqs(i, c) {
			if m&(sound|complete) != 0 {
				v := c.Authorize(q)
				got := s.A.Authorize(q.real())
				w.Query(v.Exact)
				if m&sound != 0 && got && !v.Lenient {
					w.Failf("granted without a live matching assignment: %v", q)
				}
				if m&complete != 0 && got != v.Exact && v.Lenient {
					w.Failf("got %v, want %v: %v", got, v.Exact, q)
				}
			}
			if m&checks != 0 {
				for _, rq := range roleq {
					want := c.Can(q, rq...)
					got := s.A.Can(q.real(), rq...)
					w.Query(want)
					if got != want {
						w.Failf("role check got %v, want %v: %v roles %q", got, want, q, rq)
					}
				}
			}
		}
	}}
}

func spaces(tier string) []space {
	l := []space{spAssign(0), spAssign(1), spTrees(2), spTrees(3), spRoles(3), spRoles(4), spPatterns(), spLadder(24), spAssign3(2), spTenantSets(4, 40), spIDs(), spBig(1025), spTreesMore(), spOdd(), spRoleKinds(2), spJoined()}
	if tier == "thorough" {
		l = append(l, spAssign(2), spAssign3(3), spTrees(4), spLadder(70), spTenantSets(7, 80), spBig(1025), spRoleKinds(3))
	}
	return l
}

func tierDepth(tier string) int {
	if tier == "thorough" {
		return 4
	}
	return 3
}

func init() {
	for id, m := range map[string]mode{"C01": sound, "C02": complete} {
		core.Register(&core.Check{ID: id, Assumptions: []string{"ids are non-empty strings", "engines are built through the exported API of package v2"}, Parts: func(tier string) []core.Part {
			var ps []core.Part
			for _, sp := range spaces(tier) {
				ps = append(ps, sp.part(m))
			}
			ps = append(ps, spResolve().part(m))
			return append(append(ps, histParts(m, false, tierDepth(tier))...), pairPartOf(m, 3))
		}})
	}
	core.Register(&core.Check{ID: "C03", Parts: func(tier string) []core.Part {
		ps := []core.Part{spResolve().part(sound | complete | checks), spTenantSets(5, 60).part(sound | complete | checks), spIDs().part(sound | complete | checks), spDefaults(4), pairPart(2), spJoined().part(sound | complete | checks)}
		if tier == "thorough" {
			ps = append(ps, spDefaults(6), pairPart(3), spTenantSets(8, 150).part(sound|complete|checks))
		}
		return append(ps, histParts(0, false, tierDepth(tier))...)
	}})
	core.Register(&core.Check{ID: "C08", Parts: func(tier string) []core.Part {
		var ps []core.Part
		for _, sp := range append(spaces(tier), spResolve()) {
			if sp.name == "patterns" {
				continue
			}
			ps = append(ps, sp.part(checks))
		}
		return append(append(ps, histParts(checks, false, tierDepth(tier))...), pairPartOf(checks, 3))
	}})
}
