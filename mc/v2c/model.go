// Package v2c decides the properties of the v2 engine.
package v2c

import (
	"fmt"
	"sort"
	"strings"

	"verif/mc/ref"
)

// The reference model: plain data, no caches, no pools, no buffers.

type Asg struct {
	P, T, N, S, R string
	Manage        bool
	Dead          bool // expired
}

func (a Asg) String() string {
	s := fmt.Sprintf("{principal=%q tenant=%q ns=%q scope=%q role=%q", a.P, a.T, a.N, a.S, a.R)
	if a.Manage {
		s += " manage"
	}
	if a.Dead {
		s += " expired"
	}
	return s + "}"
}

type Ten struct {
	ID       string
	Default  string
	NS       map[string]map[string]bool // namespace -> scopes
	Status   int
	Children []string // ids; the tenants themselves live in Cfg.All
}

type Cfg struct {
	All        map[string]*Ten // every tenant object
	Registered map[string]bool
	Default    string
	Roles      map[string]map[string]bool // registered role -> permissions ("resource action")
	Edges      map[string][]string
	Asgs       []Asg
}

func NewCfg() *Cfg {
	return &Cfg{All: map[string]*Ten{}, Registered: map[string]bool{}, Roles: map[string]map[string]bool{}, Edges: map[string][]string{}}
}

type Req struct{ P, T, N, S, Res, Act string }

func (r Req) String() string {
	return fmt.Sprintf("principal=%q tenant=%q ns=%q scope=%q resource=%q action=%q", r.P, r.T, r.N, r.S, r.Res, r.Act)
}

// Closure is the set of registered roles reachable from r through registered roles.
func (c *Cfg) Closure(r string) map[string]bool {
	seen := map[string]bool{}
	var visit func(string)
	visit = func(x string) {
		if seen[x] {
			return
		}
		if _, ok := c.Roles[x]; !ok {
			return
		}
		seen[x] = true
		for _, y := range c.Edges[x] {
			visit(y)
		}
	}
	visit(r)
	return seen
}

// Reach tells whether b is reachable from a over links (registered or not), a itself included.
func (c *Cfg) Reach(a, b string) bool {
	seen := map[string]bool{}
	var visit func(string) bool
	visit = func(x string) bool {
		if x == b {
			return true
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		for _, y := range c.Edges[x] {
			if visit(y) {
				return true
			}
		}
		return false
	}
	return visit(a)
}

// targets are the tenants a request is evaluated in; ok=false if it names an unknown one.
func (c *Cfg) targets(p, t string) ([]string, bool) {
	if t == "" {
		t = c.Default
	}
	if t != "" {
		if !c.Registered[t] {
			return nil, false
		}
		return []string{t}, true
	}
	set := map[string]bool{}
	for _, a := range c.Asgs {
		if a.P == p && c.Registered[a.T] && c.All[a.T].Status == 0 {
			set[a.T] = true
		}
	}
	var l []string
	for k := range set {
		l = append(l, k)
	}
	sort.Strings(l)
	return l, true
}

// ns is the namespace evaluated in tenant t, "" if none; ok tells whether request can be evaluated there.
func (c *Cfg) ns(t *Ten, n, s string) (string, bool) {
	if n == "" {
		switch {
		case t.Default != "":
			n = t.Default
		case len(t.NS) == 1:
			for k := range t.NS {
				n = k
			}
		default:
			return "", false
		}
	}
	scopes, ok := t.NS[n]
	if !ok {
		return "", false
	}
	if s != "" && !scopes[s] {
		return "", false
	}
	return n, true
}

// territory is the tenant and the children reached through live managing assignments.
func (c *Cfg) territory(p, t string) map[string]bool {
	seen := map[string]bool{}
	var visit func(string)
	visit = func(x string) {
		if seen[x] {
			return
		}
		seen[x] = true
		for _, a := range c.Asgs {
			if a.P == p && a.T == x && a.Manage && !a.Dead {
				for _, ch := range c.All[x].Children {
					visit(ch)
				}
			}
		}
	}
	visit(t)
	return seen
}

// Verdict: Exact is the documented answer, Lenient the answer if scope-specific permissions were
// added to the scope-less ones instead of replacing them.
type Verdict struct{ Exact, Lenient bool }

func (c *Cfg) Authorize(r Req) Verdict {
	var v Verdict
	if r.Res == "" && r.Act == "" {
		return v
	}
	ts, ok := c.targets(r.P, r.T)
	if !ok {
		return v
	}
	want := r.Res + " " + r.Act
	for _, t := range ts {
		n, ok := c.ns(c.All[t], r.N, r.S)
		if !ok {
			continue
		}
		var scoped, global []string
		terr := c.territory(r.P, t)
		for _, a := range c.Asgs {
			if a.P != r.P || !terr[a.T] || a.Dead || (a.N != "" && a.N != n) {
				continue
			}
			var perms []string
			for role := range c.Closure(a.R) {
				for p := range c.Roles[role] {
					perms = append(perms, p)
				}
			}
			if a.S == r.S {
				scoped = append(scoped, perms...)
			} else if a.S == "" {
				global = append(global, perms...)
			}
		}
		ms, mg := anyMatch(scoped, want), anyMatch(global, want)
		if ms || (len(scoped) == 0 && mg) {
			v.Exact = true
		}
		if ms || mg {
			v.Lenient = true
		}
	}
	return v
}

func anyMatch(perms []string, want string) bool {
	for _, p := range perms {
		if ref.Match(want, p) {
			return true
		}
	}
	return false
}

func (c *Cfg) Can(r Req, roles ...string) bool {
	ts, ok := c.targets(r.P, r.T)
	if !ok {
		return false
	}
	for _, t := range ts {
		n, ok := c.ns(c.All[t], r.N, r.S)
		if !ok {
			continue
		}
		terr := c.territory(r.P, t)
		for _, a := range c.Asgs {
			if a.P != r.P || !terr[a.T] || a.Dead || a.R == "" || (a.N != "" && a.N != n) {
				continue
			}
			cl := c.Closure(a.R)
			for _, q := range roles {
				if q == a.R || cl[q] {
					return true
				}
			}
		}
	}
	return false
}

// Canon is a canonical description of the configuration, for counting distinct states.
func (c *Cfg) Canon() string {
	var b strings.Builder
	ids := make([]string, 0, len(c.All))
	for k := range c.All {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	for _, k := range ids {
		t := c.All[k]
		fmt.Fprintf(&b, "t%s/%v/%s/%d/%v", k, c.Registered[k], t.Default, t.Status, t.Children)
		for _, n := range keys(t.NS) {
			fmt.Fprintf(&b, "|%s%v", n, keys(t.NS[n]))
		}
	}
	fmt.Fprintf(&b, ";d%s;", c.Default)
	for _, r := range keys(c.Roles) {
		fmt.Fprintf(&b, "r%s%v", r, keys(c.Roles[r]))
	}
	for _, r := range keys(c.Edges) {
		e := map[string]bool{}
		for _, x := range c.Edges[r] {
			e[x] = true
		}
		fmt.Fprintf(&b, "e%s%v", r, keys(e))
	}
	as := make([]string, len(c.Asgs))
	for i, a := range c.Asgs {
		as[i] = a.String()
	}
	sort.Strings(as)
	b.WriteString(strings.Join(as, ","))
	return b.String()
}

func keys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
