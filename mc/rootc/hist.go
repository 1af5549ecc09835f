package rootc

import (
	"fmt"

	"verif/mc/core"
)

type hop struct {
	name string
	do   func(h *H)
}

// hist15 builds the operations of the history check. Before any of them two principals, three
// tenants, two roles, two namespaces and two scopes exist, but p2, r2 and n2 are not registered yet.
func hist15(h *H) {
	h.principal("p")
	for _, t := range []string{"t1", "t2", "t3"} {
		h.tenant(t)
	}
	h.namespace("n1")
	h.scope("s1")
	h.scope("s2")
	h.role("r1", true)
	h.role("r2", false)
}

var ops15 = []hop{
	{"register p2", func(h *H) { h.principal("p2") }},
	{"register r2", func(h *H) { h.role("r2", true) }},
	{"register n2", func(h *H) { h.namespace("n2") }},
	{"t1 above t2", func(h *H) { h.nest("t1", "t2") }},
	{"t2 above t3", func(h *H) { h.nest("t2", "t3") }},
	{"t3 above t1", func(h *H) { h.nest("t3", "t1") }},
	{"p r1 in t1", func(h *H) { h.assignRole("t1", "p", "r1", false) }},
	{"p r1 in t1 manage", func(h *H) { h.assignRole("t1", "p", "r1", true) }},
	{"p r2 in t2", func(h *H) { h.assignRole("t2", "p", "r2", true) }},
	{"p2 r1 in t2", func(h *H) { h.assignRole("t2", "p2", "r1", true) }},
	{"p s1 in t1", func(h *H) { h.assignScope("t1", "p", "s1", true) }},
	{"p r2 in n2 of t3", func(h *H) { h.row(Row{T: "t3", N: "n2", P: "p", R: "r2"}) }},
	{"t2 has n1", func(h *H) { h.row(Row{T: "t2", N: "n1"}) }},
	{"t1 n1 has s2", func(h *H) { h.row(Row{T: "t1", N: "n1", S: "s2"}) }},
	{"t1 has r2", func(h *H) { h.row(Row{T: "t1", R: "r2"}) }},
	{"default n1 in t1", func(h *H) { h.setDefault("t1", "n1") }},
	{"default n2 in t1", func(h *H) { h.setDefault("t1", "n2") }},
	{"r1 gets /a", func(h *H) { h.perm("r1", "g", "/a", "GET") }},
	{"r2 gets /b", func(h *H) { h.perm("r2", "g", "/b", "GET") }},
	{"r1 above r2", func(h *H) { h.inherit("r1", "r2") }},
	{"r2 above r1", func(h *H) { h.inherit("r2", "r1") }},
}

var reqs15 = func() (l []Req) {
	for _, p := range []string{"p", "p2"} {
		for _, t := range []string{"t1", "t2", "t3", ""} {
			for _, ns := range [][2]string{{"", ""}, {"n1", ""}, {"n2", ""}, {"", "s1"}, {"n1", "s2"}, {"n2", "s1"}} {
				if t == "" && (ns[0] == "" || ns[1] == "") {
					continue
				}
				for _, a := range []act{{}, {"g", "/a GET"}, {"g", "/b GET"}} {
					l = append(l, Req{p, t, ns[0], ns[1], a.g, a.a})
				}
			}
		}
	}
	return l
}()

func (h *H) all15(light bool) {
	for _, p := range []string{"p", "p2"} {
		h.reach(p)
	}
	for i, q := range reqs15 {
		if light && i%5 != 0 {
			continue
		}
		h.decide(q)
	}
	if !light {
		h.listings([]string{"p", "p2"}, []string{"t1", "t2", "t3"}, []string{"n1", "n2"}, []string{"s1", "s2"})
	}
}

// seq15: with bit 0 of the case index the questions are asked after every step, otherwise only at the end.
func seq15(name string, ops []hop, depth int, rich bool) core.Part {
	n := core.SeqsUpTo(len(ops), depth)
	return core.Part{Name: name, N: 2 * n, Rule: fmt.Sprintf("all sequences of <=%d of %d operations, once with decisions and listings after every step and once with none before the end", depth, len(ops)), Run: func(w *core.W, i int) {
		h := NewH(w)
		hist15(h)
		if rich {
			rich15(h)
		}
		if i&1 == 1 {
			h.all15(true)
		}
		for _, o := range core.Seq(len(ops), depth, i>>1) {
			ops[o].do(h)
			if i&1 == 1 {
				h.all15(true)
			}
		}
		w.State(h.m.Canon())
		h.all15(false)
		if i&1 == 1 {
			h.all15(false)
		}
	}}
}

// rich15 starts from a configuration in which things are already granted.
func rich15(h *H) {
	h.principal("p2")
	h.role("r2", true)
	h.namespace("n2")
	h.perm("r1", "g", "/a", "GET")
	h.perm("r2", "g", "/b", "GET")
	h.nest("t1", "t2")
	h.assignRole("t1", "p", "r1", true)
}

// core15 are the operations that change reach or grants.
func core15() (l []hop) {
	for _, o := range ops15 {
		switch o.name {
		case "t2 above t3", "t3 above t1", "p r2 in t2", "p2 r1 in t2", "p s1 in t1", "p r2 in n2 of t3", "t1 n1 has s2", "t1 has r2", "default n1 in t1", "r1 above r2":
			l = append(l, o)
		}
	}
	return l
}

// perm15: sets of calls that do not depend on each other, in every order.
func perm15(k int) core.Part {
	// everything registered first, so that the calls below are independent of their order
	var ops []hop
	for _, o := range ops15 {
		switch o.name {
		case "register p2", "register r2", "register n2", "t3 above t1", "default n1 in t1", "default n2 in t1", "r2 above r1":
		default:
			ops = append(ops, o)
		}
	}
	n := core.Binom(len(ops), k)
	return core.Part{Name: fmt.Sprintf("orders-%d", k), N: n * core.Fact(k), Rule: fmt.Sprintf("all sets of %d of %d independent calls in all %d orders", k, len(ops), core.Fact(k)), Run: func(w *core.W, i int) {
		h := NewH(w)
		hist15(h)
		h.principal("p2")
		h.role("r2", true)
		h.namespace("n2")
		set := core.Subset(len(ops), k, core.SubsetsUpTo(len(ops), k-1)+i/core.Fact(k))
		for _, x := range core.Perm(k, i%core.Fact(k)) {
			ops[set[x]].do(h)
		}
		w.State(h.m.Canon())
		h.all15(false)
	}}
}

// pair15: two managers side by side, every operation meant for either of them.
func pair15(depth int) core.Part {
	ops := core15()
	n := core.SeqsUpTo(2*len(ops), depth)
	return core.Part{Name: fmt.Sprintf("two-managers-%d", depth), N: 2 * n, Rule: fmt.Sprintf("all sequences of <=%d operations, each one of %d on either of two managers with the same ids, both asked at the end and (every other time) after every step", depth, len(ops)), Run: func(w *core.W, i int) {
		hs := []*H{NewH(w), NewH(w)}
		for _, h := range hs {
			hist15(h)
			rich15(h)
		}
		for _, o := range core.Seq(2*len(ops), depth, i>>1) {
			if i&1 == 1 {
				for _, h := range hs {
					h.all15(true)
				}
			}
			w.Logf("manager %d", o/len(ops))
			ops[o%len(ops)].do(hs[o/len(ops)])
		}
		w.State(hs[0].m.Canon() + "|" + hs[1].m.Canon())
		for _, h := range hs {
			h.all15(false)
		}
	}}
}

// ---- C20 ------------------------------------------------------------------------------------

var ops20 = []hop{
	{"", func(h *H) { h.setDefault("t1", "n1") }},
	{"", func(h *H) { h.setDefault("t1", "n2") }},
	{"", func(h *H) { h.setDefault("t1", "unknown") }},
	{"", func(h *H) { h.setDefault("t2", "n2") }},
	{"", func(h *H) { h.nest("t1", "t2") }},
	{"", func(h *H) { h.nest("t2", "t3") }},
	{"", func(h *H) { h.nest("t1", "t2", "t3") }},
	{"", func(h *H) { h.nest("t3", "t1") }},
	{"", func(h *H) { h.assignRole("t1", "p", "r", true) }},
	{"", func(h *H) { h.assignRole("t2", "p", "r", false) }},
	{"", func(h *H) { h.assignRole("t3", "q", "r", true) }},
	{"", func(h *H) { h.assignScope("t1", "p", "s", false) }},
	{"", func(h *H) { h.assignScope("t2", "p", "s", true) }},
	{"", func(h *H) { h.assignScope("t3", "p", "s", true) }},
	{"", func(h *H) { h.assignRole("t1", "nobody", "r", true) }},
}

func seq20(name string, depth int) core.Part {
	return core.Part{Name: name, N: core.SeqsUpTo(len(ops20), depth), Rule: fmt.Sprintf("all sequences of <=%d of %d operations (set default of two tenants, unknown default, link three tenants, assign roles and scopes): all records compared", depth, len(ops20)), Run: func(w *core.W, i int) {
		h := NewH(w)
		for _, x := range []string{"p", "q"} {
			h.principal(x)
		}
		for _, x := range []string{"n1", "n2"} {
			h.namespace(x)
		}
		h.scope("s")
		h.role("r", true)
		h.perm("r", "g", "/a", "GET")
		for _, x := range []string{"t1", "t2", "t3"} {
			h.tenant(x)
		}
		for _, o := range core.Seq(len(ops20), depth, i) {
			ops20[o].do(h)
		}
		w.State(h.m.Canon())
		h.same("Data", h.e.Data().Data(), func(Row) bool { return true }, nil)
		// the plural calls, in the end state: same effect as one by one
		for _, t := range []string{"t1", "t2", "t3"} {
			if err := h.ts[t].AddPrincipal("q", true, "r"); err != nil {
				w.Failf("AddPrincipal: %v", err)
			}
			if err := h.ts[t].AssignScopesToPrincipal("q", false, "s"); err != nil {
				w.Failf("AssignScopesToPrincipal: %v", err)
			}
			for _, n := range []string{"", h.m.Default[t]} {
				h.m.Rows[Row{T: t, N: n, P: "q", R: "r", Man: 2}] = true
				h.m.Rows[Row{T: t, N: n, P: "q", S: "s", Man: 1}] = true
			}
		}
		h.same("Data", h.e.Data().Data(), func(Row) bool { return true }, nil)
		for _, p := range []string{"p", "q"} {
			for _, t := range []string{"t1", "t2", "t3"} {
				for _, n := range []string{"n1", "n2"} {
					h.decide(Req{P: p, T: t, N: n})
					h.decide(Req{P: p, T: t, N: n, S: "s"})
					h.decide(Req{P: p, T: t, N: n, G: "g", A: "/a GET"})
				}
			}
		}
	}}
}

func init() {
	core.Register(&core.Check{ID: "C15", Assumptions: assume, Parts: func(tier string) []core.Part {
		ps := []core.Part{seq15("histories-3", ops15, 3, false), seq15("histories-rich-4", core15(), 4, true), perm15(3), pair15(2)}
		if thorough(tier) {
			ps = append(ps, seq15("histories-4", ops15, 4, false), seq15("histories-rich-5", core15(), 5, true), perm15(4), perm15(5), pair15(3))
		}
		return ps
	}})
	core.Register(&core.Check{ID: "C20", Assumptions: assume, Parts: func(tier string) []core.Part {
		ps := []core.Part{seq20("histories-4", 4)}
		if thorough(tier) {
			ps = append(ps, seq20("histories-5", 5))
		}
		return ps
	}})
}
