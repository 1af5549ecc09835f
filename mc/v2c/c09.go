package v2c

import (
	"context"
	"fmt"
	"log/slog"
	"strings"
	"sync"

	"verif/mc/core"
)

// recorder is an audit log that keeps the records.
type recorder struct {
	mu   sync.Mutex
	recs []slog.Record
}

func (r *recorder) Enabled(context.Context, slog.Level) bool { return true }
func (r *recorder) Handle(_ context.Context, rec slog.Record) error {
	r.mu.Lock()
	r.recs = append(r.recs, rec.Clone())
	r.mu.Unlock()
	return nil
}
func (r *recorder) WithAttrs([]slog.Attr) slog.Handler { return r }
func (r *recorder) WithGroup(string) slog.Handler      { return r }

func (q Req) fields() map[string]string {
	m := map[string]string{}
	for k, v := range map[string]string{"principal": q.P, "tenant": q.T, "namespace": q.N, "scope": q.S, "resource": q.Res, "action": q.Act} {
		if v != "" {
			m[k] = v
		}
	}
	return m
}

// audit checks the records of one call that answered ans.
func audit(w *core.W, r *recorder, q Req, ans bool, what string) {
	closing, granted := 0, 0
	for i, rec := range r.recs {
		if !strings.Contains(rec.Message, "resolve") {
			closing++
			if i != len(r.recs)-1 {
				w.Failf("%s %v: closing record %q is not the last one", what, q, rec.Message)
			}
		}
		if strings.Contains(strings.ToLower(rec.Message), "granted") {
			granted++
		}
		want := q.fields()
		ts := 0
		rec.Attrs(func(a slog.Attr) bool {
			if a.Key == "timestamp" {
				ts++
				return true
			}
			v, ok := want[a.Key]
			if !ok || v != a.Value.String() {
				w.Failf("%s %v: record %q carries %s=%q", what, q, rec.Message, a.Key, a.Value.String())
			}
			delete(want, a.Key)
			return true
		})
		if len(want) != 0 || ts != 1 {
			w.Failf("%s %v: record %q lacks %v (timestamps: %d)", what, q, rec.Message, want, ts)
		}
	}
	if closing != 1 || granted > 1 || (granted == 1) != ans {
		var l []string
		for _, rec := range r.recs {
			l = append(l, rec.Message)
		}
		w.Failf("%s %v answered %v but the log has %d closing and %d granted records: %q", what, q, ans, closing, granted, l)
	}
	r.recs = nil
}

func (sp space) auditPart() core.Part {
	return core.Part{Name: sp.name, N: sp.n, Rule: sp.rule, Run: func(w *core.W, i int) {
		c := sp.at(i)
		w.State(c.Canon())
		rec := &recorder{}
		s := Build(w, c, slog.New(rec))
		plain := Build(w, c)
		rec.recs = nil
		roleq := sp.roleq
		if sp.roleqOf != nil {
			roleq = sp.roleqOf(i)
		}
		for _, q := range sp.reqs(i, c) {
			ans := s.A.Authorize(q.real())
			w.Query(ans)
			audit(w, rec, q, ans, "decision")
			if p := plain.A.Authorize(q.real()); p != ans {
				w.Failf("with a logger %v, without %v: %v", ans, p, q)
			}
			for _, rq := range roleq {
				ans := s.A.Can(q.real(), rq...)
				w.Query(ans)
				audit(w, rec, q, ans, fmt.Sprintf("role check %q", rq))
				if p := plain.A.Can(q.real(), rq...); p != ans {
					w.Failf("with a logger %v, without %v: %v roles %q", ans, p, q, rq)
				}
			}
		}
	}}
}

func init() {
	core.Register(&core.Check{ID: "C09", Assumptions: []string{"a record whose message mentions a failure to resolve is an intermediate one, every other record closes the request", "a granted record says so in its message"},
		Parts: func(tier string) []core.Part {
			one := spAssign(0) // the lists of at most one assignment come first
			one.n, one.name, one.rule = 217, "assignments-one", "as below, lists of <=1: "+one.rule
			l := []space{one, spTrees(2), spRoles(3), spResolve(), spTenantSets(4, 12), spLadder(14), spIDs(), spOdd()}
			if tier == "thorough" {
				l = append(l, spAssign(0), spAssign(1), spTrees(3), spAssign3(2), spTenantSets(6, 40))
			}
			var ps []core.Part
			for _, sp := range l {
				ps = append(ps, sp.auditPart())
			}
			return append(ps, histParts(0, true, tierDepth(tier))...)
		}})
}
