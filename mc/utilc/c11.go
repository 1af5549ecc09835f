// Package utilc decides the properties of the pattern matcher, the linked list and the helpers.
package utilc

import (
	"fmt"
	"strings"

	permission "github.com/oarkflow/permission"
	"github.com/oarkflow/permission/utils"
	v1 "github.com/oarkflow/permission/v1"
	v2 "github.com/oarkflow/permission/v2"

	"verif/mc/core"
	"verif/mc/ref"
)

func check11(w *core.W, value, pattern string) {
	want := ref.Match(value, pattern)
	got := utils.MatchResource(value, pattern)
	w.Query(want)
	if got != want {
		w.Failf("value %q against pattern %q: got %v, want %v", value, pattern, got, want)
	}
}

func strs11(alpha string, n int) []string {
	var l []string
	for i := 0; i < core.SeqsUpTo(len(alpha), n); i++ {
		s := core.Seq(len(alpha), n, i)
		b := make([]byte, len(s))
		for k, x := range s {
			b[k] = alpha[x]
		}
		l = append(l, string(b))
	}
	return l
}

func words11(toks []string, n int) []string {
	var l []string
	for i := 0; i < core.SeqsUpTo(len(toks), n); i++ {
		var b strings.Builder
		for _, x := range core.Seq(len(toks), n, i) {
			b.WriteString(toks[x])
		}
		l = append(l, b.String())
	}
	return l
}

func pairs11(name, rule string, pats, vals []string) core.Part {
	return core.Part{Name: name, N: len(pats), Rule: rule, Run: func(w *core.W, i int) {
		w.Logf("pattern %q against all %d values", pats[i], len(vals))
		w.State(pats[i])
		for _, v := range vals {
			check11(w, v, pats[i])
		}
	}}
}

// engines11: the same denotation through every place that matches a permission.
func engines11(pats, vals []string) core.Part {
	type pa struct{ res, act string }
	var ps []pa
	for _, p := range pats {
		for _, a := range []string{"GET", "*", "A"} {
			ps = append(ps, pa{p, a})
		}
	}
	return core.Part{Name: "through-engines", N: len(ps), Rule: fmt.Sprintf("%d permissions (resource pattern x action) held by a role, %d requests, decided by the v2 engine, the root role and the v1 role", len(ps), len(vals)), Run: func(w *core.W, i int) {
		p := ps[i]
		w.Logf("permission %q %q", p.res, p.act)
		w.State(p.res + "\x00" + p.act)
		a := v2.NewAuthorizer()
		t := v2.NewTenant("t", "n")
		a.AddTenant(t)
		r := v2.NewRole("r")
		r.AddPermission(v2.NewPermission("c", p.res, p.act))
		a.AddRole(r)
		a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: "t", Role: "r"})
		rr := permission.NewRole("r")
		if err := rr.AddPermission("g", permission.NewAttribute(p.res, p.act)); err != nil {
			w.Failf("%v", err)
		}
		m1 := v1.New()
		r1 := m1.AddRole(v1.NewRole("r"))
		if err := r1.AddPermission("g", v1.NewAttribute(p.res, p.act)); err != nil {
			w.Failf("%v", err)
		}
		for _, v := range vals {
			for _, act := range []string{"GET", "A", "GETX", "*"} {
				val := v + " " + act
				want := ref.Match(val, p.res+" "+p.act)
				w.Query(want)
				if got := a.Authorize(v2.Request{Principal: "p", Tenant: "t", Resource: v, Action: act}); got != want {
					w.Failf("v2 decision for %q with permission %q: got %v, want %v", val, p.res+" "+p.act, got, want)
				}
				want = want || val == p.res+" "+p.act
				if got := rr.Has("g", val); got != want {
					w.Failf("root role Has(%q) with permission %q: got %v, want %v", val, p.res+" "+p.act, got, want)
				}
				if got := r1.Has("g", val); got != want {
					w.Failf("v1 role Has(%q) with permission %q: got %v, want %v", val, p.res+" "+p.act, got, want)
				}
			}
		}
	}}
}

func long11() core.Part {
	units := []string{"a*", "*a", "a", "*", ":x/", "/:x", "*/", "/a*", "**", "a:x/"}
	return core.Part{Name: "long", N: 60 * len(units), Rule: "each of 10 pattern units repeated 1..60 times (also with a suffix), against values of 0..120 repeated units with and without a mismatching end", Run: func(w *core.W, i int) {
		n := i%60 + 1
		u := units[i/60]
		for _, pat := range []string{strings.Repeat(u, n), strings.Repeat(u, n) + "b", strings.Repeat(u, n) + " GET", "x" + strings.Repeat(u, n)} {
			w.Logf("pattern %q", pat)
			w.State(pat)
			for _, vu := range []string{"a", "a/", "/a", "ab", "/ab"} {
				for _, k := range []int{0, 1, 2, n - 1, n, n + 1, 2 * n} {
					for _, end := range []string{"", "b", " GET", "/", "x", "c"} {
						check11(w, strings.Repeat(vu, k)+end, pat)
					}
				}
			}
		}
	}}
}

func init() {
	core.Register(&core.Check{ID: "C11", Parts: func(tier string) []core.Part {
		n := 5
		tok := 4
		if tier == "thorough" {
			n, tok = 6, 5
		}
		alpha := "aA/:* "
		odd := "a\xe1A*\xaa/\xaf:\xba \xa0\x00\n"
		s := strs11(alpha, n)
		pt := []string{"/a", "/b.c", "/:id", "/:a.b:c", "/*", " GET", " *", "*", "/é", ":", "?", "/a*", "/*b"}
		vt := []string{"/a", "/b.c", "/bXc", "/7", "/ab", " GET", " POST", "/é", "/è", "*", ":x", "/"}
		return []core.Part{
			pairs11("all-strings", fmt.Sprintf("all patterns x all values of length <=%d over %q", n, alpha), s, s),
			pairs11("path-tokens", fmt.Sprintf("all patterns of <=3 of %d path tokens x all values of <=%d of %d tokens", len(pt), tok, len(vt)), words11(pt, 3), words11(vt, tok)),
			pairs11("odd-bytes", "all patterns x all values of length <=3 over letters, wildcards and bytes that agree with them in seven bits, and every confusable text", append(strs11(odd, 3), core.OddIDs...), append(strs11(odd, 3), core.OddIDs...)),
			long11(),
			engines11(words11([]string{"/a", "/:id", "/*", "*", "/A", ":x"}, 3), append(words11([]string{"/a", "/7", "/A", "/", "a"}, 3), words11([]string{"/a", "/*", "/:id", "*", ":x"}, 2)...)),
		}
	}})
}
