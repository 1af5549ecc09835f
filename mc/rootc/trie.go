package rootc

import (
	"fmt"
	"slices"

	"github.com/oarkflow/permission/trie"

	"verif/mc/core"
)

// ---- C16: the record store itself ---------------------------------------------------------------

// rec is a generic record with a payload outside the key.
type rec struct {
	K   []any
	Tag int
}

func key16(r *rec) []any {
	if r == nil {
		return []any{}
	}
	return append([]any{}, r.K...)
}

// match16: blank filter positions match anything (also a nil filter).
func match16(f, r *rec) bool {
	if f == nil {
		return true
	}
	for i, k := range f.K {
		if k != nil && r.K[i] != k {
			return false
		}
	}
	return true
}

type store16 struct {
	w *core.W
	t *trie.Trie[rec]
	m []*rec // live records, latest per key
	// results handed out so far, with what they held then
	kept []kept16
}

type kept16 struct {
	what      string
	got, then []*rec
}

// later checks that no result handed out earlier has changed since; then it spoils them all, as a
// caller is free to do with its own results.
func (s *store16) later() {
	for _, k := range s.kept {
		if !slices.Equal(k.got, k.then) {
			s.w.Failf("the result of %s was changed by a later call", k.what)
		}
	}
	for _, k := range s.kept {
		clear(k.got)
	}
	s.kept = s.kept[:0]
}

func sameKey(a, b []any) bool { return slices.Equal(a, b) }

func (s *store16) insert(r *rec) {
	s.w.Logf("insert %v tag %d", r.K, r.Tag)
	s.w.Op(1)
	s.t.Insert(r)
	for i, o := range s.m {
		if sameKey(o.K, r.K) {
			s.m[i] = r
			return
		}
	}
	s.m = append(s.m, r)
}

func (s *store16) expect(what string, got []*rec, pred func(*rec) bool) {
	s.kept = append(s.kept, kept16{what, got, slices.Clone(got)})
	n := 0
	for _, r := range s.m {
		if !pred(r) {
			continue
		}
		n++
		c := 0
		for _, g := range got {
			if g == r {
				c++
			}
		}
		if c != 1 {
			s.w.Failf("%s: record %v (tag %d) is listed %d times", what, r.K, r.Tag, c)
		}
	}
	s.w.Query(n > 0)
	if len(got) != n {
		s.w.Failf("%s: %d results, want %d", what, len(got), n)
	}
}

func (s *store16) one(what string, got *rec, pred func(*rec) bool) {
	any := false
	for _, r := range s.m {
		if pred(r) {
			any = true
			if r == got {
				return
			}
		}
	}
	if got != nil {
		s.w.Failf("%s: got %v tag %d, which is not a current matching record", what, got.K, got.Tag)
	}
	if any {
		s.w.Failf("%s: nothing found although a record matches", what)
	}
}

func (s *store16) check(filters []*rec) {
	s.expect("Data", s.t.Data(), func(*rec) bool { return true })
	for _, f := range filters {
		s.expect(fmt.Sprintf("Search(%v)", f), s.t.Search(f), func(r *rec) bool { return match16(f, r) })
		s.one(fmt.Sprintf("First(%v)", f), s.t.First(f), func(r *rec) bool { return match16(f, r) })
		strict := func(f, r *rec) bool { return f != nil && sameKey(f.K, r.K) }
		s.expect(fmt.Sprintf("SearchFunc(%v, equal)", f), s.t.SearchFunc(f, strict), func(r *rec) bool { return strict(f, r) })
		s.one(fmt.Sprintf("FirstFunc(%v, equal)", f), s.t.FirstFunc(f, strict), func(r *rec) bool { return strict(f, r) })
		odd := func(f, r *rec) bool { return r.Tag%2 == 1 }
		s.expect("SearchFunc(odd tags)", s.t.SearchFunc(f, odd), func(r *rec) bool { return odd(f, r) })
		s.one("FirstFunc(odd tags)", s.t.FirstFunc(f, odd), func(r *rec) bool { return odd(f, r) })
		no := func(f, r *rec) bool { return false }
		s.expect("SearchFunc(never)", s.t.SearchFunc(f, no), func(r *rec) bool { return false })
		s.one("FirstFunc(never)", s.t.FirstFunc(f, no), func(r *rec) bool { return false })
	}
	s.later()
}

func keys16(width int, dom []any) (l [][]any) {
	n := 1
	for i := 0; i < width; i++ {
		n *= len(dom)
	}
	for i := 0; i < n; i++ {
		k := make([]any, width)
		x := i
		for j := range k {
			k[j] = dom[x%len(dom)]
			x /= len(dom)
		}
		l = append(l, k)
	}
	return l
}

// lists16: every list (order and repetition included) of records over all keys.
func lists16(name string, width int, dom []any, n int) core.Part {
	ks := keys16(width, dom)
	filters := []*rec{nil}
	for _, k := range ks {
		filters = append(filters, &rec{K: k})
	}
	total := core.SeqsUpTo(len(ks), n)
	return core.Part{Name: name, N: 2 * total, Rule: fmt.Sprintf("all lists (orders and repeated keys included) of <=%d records over all %d keys of %d positions from %v; every filter, also nil, with the default and four other predicates; once with the questions only at the end, once with them after every insertion as well; results handed out are kept, compared at the end and then overwritten", n, len(ks), width, dom), Run: func(w *core.W, i int) {
		warm := i >= total
		i %= total
		s := &store16{w: w, t: trie.New[rec](match16, key16)}
		w.State(name + fmt.Sprint(core.Seq(len(ks), n, i)))
		for j, x := range core.Seq(len(ks), n, i) {
			if warm {
				s.check(filters)
			}
			s.insert(&rec{K: ks[x], Tag: j})
		}
		s.check(filters)
		s.check(filters[:1]) // the results of the first questions are overwritten by now
	}}
}

// sizes16: n records spread over the positions in several ways.
func sizes16(max int) core.Part {
	const shapes = 6
	return core.Part{Name: "sizes", N: shapes * max, Rule: fmt.Sprintf("1..%d records: wide at the first, middle or last position, a full grid, blanks in alternating positions, everything inserted twice", max), Run: func(w *core.W, i int) {
		n, sh := i%max+1, i/max
		s := &store16{w: w, t: trie.New[rec](match16, key16)}
		for k := 0; k < n; k++ {
			key := []any{"a", "b", "c"}
			switch sh {
			case 0, 1, 2:
				key[sh] = fmt.Sprint("k", k)
			case 3:
				key = []any{k % 4, (k / 4) % 4, k / 16}
			case 4:
				key[k%3] = nil
				key[(k+1)%3] = k
			case 5:
				key[k%3] = k
			}
			s.insert(&rec{K: key, Tag: k})
		}
		if sh == 5 {
			for k := 0; k < n; k++ {
				key := []any{"a", "b", "c"}
				key[k%3] = k
				s.insert(&rec{K: key, Tag: n + k})
			}
		}
		w.State(fmt.Sprint(sh, n))
		s.check([]*rec{nil, {K: []any{"a", nil, nil}}, {K: []any{nil, "b", nil}}, {K: []any{nil, nil, "c"}}, {K: []any{nil, nil, nil}}, {K: []any{"a", "b", "k0"}}, {K: []any{0, nil, nil}}})
	}}
}

// data16: the engine's own record type and default predicate.
func data16(size int) core.Part {
	k := schemes[1] // ids shared across positions
	u := universe(k)
	u = append(u, Row{}, Row{P: k.P[0]}, Row{R: k.R[0]}, Row{N: k.N[0]}, Row{S: k.S[0]}, Row{P: k.P[0], R: k.R[0]}, Row{T: k.T[0]}, Row{Man: 1}, Row{Man: 2}, Row{T: k.T[0], Man: 2}, Row{T: k.T[0], P: k.P[0]})
	var filters []Row
	for _, r := range u {
		filters = append(filters, r)
	}
	return core.Part{Name: fmt.Sprintf("engine-records-%d", size), N: core.SubsetsUpTo(len(u), size), Rule: fmt.Sprintf("all sets of <=%d of %d engine records (ids shared across positions, every blank pattern, the blank record), each record also used as filter of the default search", size, len(u)), Run: func(w *core.W, i int) {
		h := NewH(w)
		for _, x := range core.Subset(len(u), size, i) {
			h.e.AddData(u[x].data())
			h.m.Rows[u[x]] = true
			w.Op(1)
			w.Logf("insert %v", u[x])
		}
		w.State(h.m.Canon())
		h.same("Data", h.e.Data().Data(), func(Row) bool { return true }, nil)
		for j, f := range filters {
			if size > 1 && i > len(u) && j%7 != i%7 && !h.m.Rows[f] {
				continue
			}
			pred := func(r Row) bool {
				return (f.T == "" || f.T == r.T) && (f.N == "" || f.N == r.N) && (f.S == "" || f.S == r.S) && (f.P == "" || f.P == r.P) && (f.R == "" || f.R == r.R) && (f.Man == 0 || f.Man == r.Man)
			}
			h.same(fmt.Sprintf("Search(%v)", f), h.e.Data().Search(f.data()), pred, nil)
			first := h.e.Data().First(f.data())
			exists := false
			for r := range h.m.Rows {
				exists = exists || pred(r)
			}
			if (first != nil) != exists || first != nil && (!h.m.Rows[rowOf(first)] || !pred(rowOf(first))) {
				w.Failf("First(%v) = %v", f, first)
			}
		}
	}}
}

func init() {
	core.Register(&core.Check{ID: "C16", Assumptions: []string{"keys are comparable values; all keys of one store have the same number of positions"}, Parts: func(tier string) []core.Part {
		n := 3
		if thorough(tier) {
			n = 4
		}
		ps := []core.Part{lists16("keys-3x3", 3, []any{nil, "x", "y"}, n), lists16("keys-2x5", 2, []any{nil, "x", "1", 1, false}, 3), lists16("keys-1", 1, []any{nil, "x", 0, ""}, 4), sizes16(150), data16(2)}
		if thorough(tier) {
			ps = append(ps, lists16("keys-6x2", 6, []any{nil, "x"}, 3), data16(3))
		}
		return ps
	}})
}
