package rolec

import (
	"fmt"

	"verif/mc/core"
)

type sys18 struct {
	w      *core.W
	m      *rm
	rs     map[string]role
	groups map[string]group
	gm     map[string]map[string]bool // group object -> permissions
	gid    map[string]string          // group object -> id
	exists map[string]bool            // role/group present on the role
}

func (s *sys18) refused(r string, err error, what string) bool {
	s.w.Logf("%s: %v", what, err)
	if (err != nil) != s.m.locked[r] {
		s.w.Failf("%s with role %s locked=%v: error %v", what, r, s.m.locked[r], err)
	}
	return err != nil
}

func (s *sys18) grant(r, g string, ps ...string) {
	if !s.refused(r, s.rs[r].Grant(g, ps...), fmt.Sprintf("%s gets %q in %s", r, ps, g)) {
		s.m.grant(r, g, ps...)
		s.exists[r+"/"+g] = true
	}
}

func (s *sys18) take(r, o string) {
	if !s.refused(r, s.rs[r].Take(s.groups[o]), fmt.Sprintf("%s gets group object %s", r, o)) {
		g := s.gid[o]
		if !s.exists[r+"/"+g] {
			s.exists[r+"/"+g] = true
			for p := range s.gm[o] {
				s.m.grant(r, g, p)
			}
		}
	}
}

func (s *sys18) link(a, b string) {
	err := s.rs[a].Link(s.rs[b])
	s.w.Logf("%s above %s: %v", a, b, err)
	ok := !s.m.locked[a] && s.m.canLink(a, b)
	if (err == nil) != ok {
		s.w.Failf("%s above %s: error %v, want accepted=%v", a, b, err, ok)
	}
	if ok {
		s.m.link(a, b)
	}
}

func (s *sys18) lock(r string, on bool) {
	s.w.Logf("%s locked=%v", r, on)
	if on {
		s.rs[r].Lock()
		s.m.locked[r] = true
	} else {
		s.rs[r].Unlock()
		delete(s.m.locked, r)
	}
}

func (s *sys18) widen(o, p string) {
	s.w.Logf("group object %s gets %q", o, p)
	s.groups[o].Add(p)
	s.gm[o][p] = true
}

var ops18 = []func(*sys18){
	func(s *sys18) { s.lock("a", true) },
	func(s *sys18) { s.lock("a", false) },
	func(s *sys18) { s.lock("b", true) },
	func(s *sys18) { s.take("a", "G") },
	func(s *sys18) { s.take("b", "G") },
	func(s *sys18) { s.take("a", "G2") },
	func(s *sys18) { s.grant("a", "g", "/x GET") },
	func(s *sys18) { s.grant("b", "g", "/y GET", "/w GET") },
	func(s *sys18) { s.grant("a", "h", "/z GET") },
	func(s *sys18) { s.widen("G", "/w GET") },
	func(s *sys18) { s.widen("G2", "/v GET") },
	func(s *sys18) { s.link("a", "b") },
	func(s *sys18) { s.link("b", "a") },
	func(s *sys18) { s.lock("b", false) },
	func(s *sys18) { s.take("a", "G0") },
	func(s *sys18) { s.take("b", "G0") },
	func(s *sys18) { s.widen("G0", "/0 GET") },
	func(s *sys18) { s.grant("a", "g") },
}

func hist18(e engine, depth int) core.Part {
	return core.Part{Name: fmt.Sprintf("%s-histories-%d", e.name, depth), N: core.SeqsUpTo(len(ops18), depth) * 2, Rule: fmt.Sprintf("%s: all sequences of <=%d of %d operations over two roles and three group objects of one id, one of them empty at first (lock, unlock, grant, give group, widen group, link), asked at the end or after every call", e.name, depth, len(ops18)), Run: func(w *core.W, i int) {
		s := &sys18{w: w, m: newRM(), rs: map[string]role{}, groups: map[string]group{}, gm: map[string]map[string]bool{}, gid: map[string]string{}, exists: map[string]bool{}}
		for _, r := range []string{"a", "b"} {
			s.rs[r] = e.newRole(r)
		}
		for _, o := range []string{"G", "G2", "G0"} {
			s.groups[o] = e.newGroup("g")
			s.gid[o] = "g"
			s.gm[o] = map[string]bool{}
		}
		s.widen("G", "/1 GET")
		s.widen("G2", "/2 GET")
		acts := []string{"/x GET", "/y GET", "/z GET", "/w GET", "/v GET", "/1 GET", "/2 GET", "/0 GET"}
		for _, o := range core.Seq(len(ops18), depth, i/2) {
			if i%2 == 1 {
				answers(w, s.m, s.rs, []string{"g", "h"}, acts, [][]string{nil})
			}
			ops18[o](s)
			w.Op(1)
			listings(w, s.m, s.rs, []string{"g", "h"})
		}
		w.State(e.name + s.m.canon())
		// changing what was returned must not reach the role
		for _, r := range s.rs {
			for g := range r.Own() {
				l := r.OwnIn(g)
				for k := range l {
					l[k] = "changed"
				}
			}
			r.Spoil()
		}
		listings(w, s.m, s.rs, []string{"g", "h"})
		answers(w, s.m, s.rs, []string{"g", "h"}, acts, [][]string{nil})
	}}
}

func init() {
	core.Register(&core.Check{ID: "C18", Assumptions: []string{"calls are not concurrent"}, Parts: func(tier string) []core.Part {
		var ps []core.Part
		for _, e := range engines {
			ps = append(ps, hist18(e, 4))
			if tier == "thorough" {
				ps = append(ps, hist18(e, 5), hist18(e, 6))
			}
		}
		return ps
	}})
}
