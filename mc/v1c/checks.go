package v1c

import (
	"fmt"

	"verif/mc/core"
)

var assume = []string{"ids are strings", "tenants used in assignments are registered, one object per id", "requests name ids as non-blank strings"}

func init() {
	for id, as := range map[string][]act{"C23": acts, "C24": {{}}} {
		core.Register(&core.Check{ID: id, Assumptions: assume, Parts: func(tier string) []core.Part {
			do := func(k names) func(h *H) {
				q := requests(k, as)
				return func(h *H) {
					for _, r := range q {
						h.decide(r)
					}
				}
			}
			steps := func(h *H, i, n int) {
				for _, p := range []string{"p", "q"} {
					for _, t := range []string{"", "t", "u"} {
						for _, j := range []int{0, i, (i + 1) % n, n - 1} {
							ns, s := fmt.Sprint("n", j), fmt.Sprint("s", j)
							for _, a := range as {
								if a.a != "" {
									a = act{"g", "/x GET"}
								}
								h.decide(Req{p, t, ns, "", a.g, a.a})
								h.decide(Req{p, t, "", s, a.g, a.a})
								h.decide(Req{p, t, ns, s, a.g, a.a})
								if t != "" {
									h.decide(Req{p, t, "", "", a.g, a.a})
								}
							}
						}
					}
				}
			}
			a, b := schemes[0], schemes[1]
			ps := []core.Part{records("assignments-1", a, 1, do(a)), records("assignments-1-shared-ids", b, 1, do(b)), histories("histories-2", a, 2, do(a)), histories("histories-2-shared-ids", b, 2, do(b)),
				records("assignments-2", a, 2, do(a)), histories("histories-3", a, 3, do(a)), ladder(140, steps), idsSpace(id == "C23"), joinedSpace(id == "C23")}
			if id == "C23" {
				ps = append(ps, patternSpace())
			}
			if tier == "thorough" {
				ps = append(ps, records("assignments-2-shared-ids", b, 2, do(b)), histories("histories-3-shared-ids", b, 3, do(b)), histories("histories-4", a, 4, do(a)), ladder(250, steps))
			}
			return ps
		}})
	}
}
