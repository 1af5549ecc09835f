package utilc

import (
	"fmt"
	"reflect"
	"slices"

	"github.com/oarkflow/permission/utils"

	"verif/mc/core"
)

type pair28 struct{ A, B string }
type any28 struct {
	X any
	Y any
}

func lists28[T any](dom []T, n int) [][]T {
	var l [][]T
	for i := 0; i < core.SeqsUpTo(len(dom), n); i++ {
		s := core.Seq(len(dom), n, i)
		// spare capacity, so that a helper appending to its argument is noticed
		x := make([]T, 0, len(s)+3)
		for _, k := range s {
			x = append(x, dom[k])
		}
		l = append(l, x)
	}
	return l
}

// own gives the case lists of its own, with the same spare capacity.
func own[T any](l []T) []T { return slices.Clone(l[:cap(l)])[:len(l):cap(l)] }

// snap remembers a slice up to its capacity.
func snap[T any](l []T) []T { return slices.Clone(l[:cap(l)]) }

func unchanged[T any](w *core.W, what string, l, s []T) {
	if !reflect.DeepEqual(l[:cap(l)], s) {
		w.Failf("%s changed its argument: %v, was %v", what, l[:cap(l)], s)
	}
}

func compact28(n int) core.Part {
	dom := []any{nil, "a", "b", 1, "1", int64(1), true}
	ls := lists28(dom, n)
	return core.Part{Name: "compact-contains", N: len(ls), Rule: fmt.Sprintf("all lists of <=%d of %d values (nil, texts, numbers of two types, bool), membership of every value", n, len(dom)), Run: func(w *core.W, i int) {
		l := own(ls[i])
		s := snap(l)
		w.State(fmt.Sprintf("%#v", l))
		w.Logf("list %#v", l)
		want := []any{}
		for _, x := range l {
			dup := false
			for _, y := range want {
				dup = dup || x == y
			}
			if !dup {
				want = append(want, x)
			}
		}
		got := utils.Compact(l)
		w.Query(len(want) < len(l))
		if len(got) != len(want) || (len(want) > 0 && !reflect.DeepEqual(got, want)) {
			w.Failf("Compact(%#v) = %#v, want %#v", l, got, want)
		}
		unchanged(w, "Compact", l, s)
		for _, e := range append(dom, "zz", 2) {
			in := false
			for _, y := range l {
				in = in || y == e
			}
			w.Query(in)
			if got := utils.Contains(l, e); got != in {
				w.Failf("Contains(%#v, %#v) = %v", l, e, got)
			}
		}
		unchanged(w, "Contains", l, s)
	}}
}

func sets28[T any](name string, dom []T, n int) core.Part {
	ls := lists28(dom, n)
	has := func(l []T, x T) bool {
		for _, y := range l {
			if reflect.DeepEqual(x, y) {
				return true
			}
		}
		return false
	}
	return core.Part{Name: "sets-" + name, N: len(ls) * len(ls), Rule: fmt.Sprintf("union and intersection of all pairs of lists of <=%d of %d %s", n, len(dom), name), Run: func(w *core.W, i int) {
		a, b := own(ls[i%len(ls)]), own(ls[i/len(ls)])
		sa, sb := snap(a), snap(b)
		w.Logf("a=%#v b=%#v", a, b)
		var inter, union []T
		union = append(union, a...)
		for _, x := range b {
			if has(a, x) {
				inter = append(inter, x)
			} else {
				union = append(union, x)
			}
		}
		got := utils.Intersection(a, b)
		w.Query(len(inter) > 0)
		if len(got) != len(inter) || (len(got) > 0 && !reflect.DeepEqual(got, inter)) {
			w.Failf("Intersection(%#v, %#v) = %#v, want %#v", a, b, got, inter)
		}
		got = utils.Union(a, b)
		w.Query(len(inter) > 0)
		if len(got) != len(union) || (len(got) > 0 && !reflect.DeepEqual(got, union)) {
			w.Failf("Union(%#v, %#v) = %#v, want %#v", a, b, got, union)
		}
		unchanged(w, "Union/Intersection", a, sa)
		unchanged(w, "Union/Intersection", b, sb)
	}}
}

func join28(n int) core.Part {
	ls := lists28([]int{0, 1, 2}, n)
	return core.Part{Name: "join", N: len(ls) * len(ls), Rule: fmt.Sprintf("all pairs of lists of <=%d of 3 values under all 512 join conditions", n), Run: func(w *core.W, i int) {
		a, b := own(ls[i%len(ls)]), own(ls[i/len(ls)])
		sa, sb := snap(a), snap(b)
		w.Logf("left %v right %v", a, b)
		for rel := 0; rel < 512; rel++ {
			var want []string
			for _, x := range a {
				for _, y := range b {
					if rel>>(x*3+y)&1 == 1 {
						want = append(want, fmt.Sprintf("%d-%d", x, y))
					}
				}
			}
			got := utils.JoinSlices(a, b, func(x, y int) bool { return rel>>(x*3+y)&1 == 1 }, func(x, y int) string { return fmt.Sprintf("%d-%d", x, y) })
			w.Query(len(want) > 0)
			if !slices.Equal(got, want) {
				w.Failf("join of %v and %v under relation %09b = %v, want %v", a, b, rel, got, want)
			}
		}
		unchanged(w, "JoinSlices", a, sa)
		unchanged(w, "JoinSlices", b, sb)
	}}
}

func fields28() core.Part {
	dom := []any{nil, "a", "b", 1, "1"}
	n := len(dom) * len(dom)
	fs := []func(*any28) any{func(x *any28) any { return x.X }, func(x *any28) any { return x.Y }}
	return core.Part{Name: "fields", N: n * n, Rule: "all pairs of two-field rows and filters over 5 values, all field lists of <=3", Run: func(w *core.W, i int) {
		d := core.Mixed(i, 5, 5, 5, 5)
		row, fil := &any28{dom[d[0]], dom[d[1]]}, &any28{dom[d[2]], dom[d[3]]}
		w.Logf("row %v filter %v", row, fil)
		for k := 0; k < core.SeqsUpTo(2, 3); k++ {
			seq := core.Seq(2, 3, k)
			want := true
			var l []func(*any28) any
			for _, f := range seq {
				l = append(l, fs[f])
				rv, fv := row.X, fil.X
				if f == 1 {
					rv, fv = row.Y, fil.Y
				}
				want = want && rv != nil && rv == fv
			}
			w.Query(want)
			if got := utils.FilterByFields(fil, row, l...); got != want {
				w.Failf("FilterByFields(filter %v, row %v, fields %v) = %v", fil, row, seq, got)
			}
		}
		if utils.Match(row.X, fil.X) != (row.X == fil.X) || utils.IsNil(row.X) != (row.X == nil) {
			w.Failf("Match/IsNil wrong for %#v and %#v", row.X, fil.X)
		}
	}}
}

func pools28(depth int) core.Part {
	// ops: get; put the k-th held slice as is; put it filled; get-fill
	const ops = 5
	return core.Part{Name: "pools", N: core.SeqsUpTo(ops, depth) * 3, Rule: fmt.Sprintf("all sequences of <=%d takes and returns (of empty, filled, regrown and foreign slices) on slice pools of size 0, 1, 3", depth), Run: func(w *core.W, i int) {
		size := []int{0, 1, 3}[i%3]
		p := utils.NewSlicePool[int](size)
		q := utils.New(func() map[int]int { return map[int]int{} })
		var held [][]int
		var maps []map[int]int
		for _, o := range core.Seq(ops, depth, i/3) {
			w.Op(1)
			switch o {
			case 0:
				s := p.Get()
				w.Logf("take: %v", s)
				if len(s) != 0 {
					w.Failf("the pool handed out %v", s)
				}
				held = append(held, s)
				if m := q.Get(); m == nil {
					w.Failf("the map pool handed out nil")
				} else {
					maps = append(maps, m)
				}
			case 1, 2, 3:
				if len(held) == 0 {
					continue
				}
				s := held[0]
				held = held[1:]
				if o == 2 {
					s = append(s, 7)
				}
				if o == 3 {
					s = append(s, 1, 2, 3, 4, 5, 6, 7, 8, 9)
				}
				w.Logf("return %v", s)
				p.Put(s)
				q.Put(maps[0])
				maps = maps[1:]
			case 4:
				w.Logf("return a slice made elsewhere")
				p.Put([]int{4, 5})
			}
		}
		s := p.Get()
		w.Query(len(held) > 0)
		if len(s) != 0 {
			w.Failf("the pool handed out %v", s)
		}
	}}
}

// odd28 lists the two-field values in which one field is a confusable text.
func odd28() (l []pair28) {
	for _, x := range core.OddIDs {
		l = append(l, pair28{x, ""}, pair28{"", x})
	}
	return append(l, pair28{"a B:b", ""}, pair28{"a", "b"}, pair28{"a|", "b"}, pair28{"a", "|b"}, pair28{`a"|B:"b`, ""})
}

type named28 string

func (n named28) String() string { return "named " + string(n) }

// text28: conversion between texts, bytes and anything else.
func text28(n int) core.Part {
	dom := []string{"a", "\x00", "\xff", "é", "%", " "}
	return core.Part{Name: "text", N: core.SeqsUpTo(len(dom), n), Rule: fmt.Sprintf("all texts of <=%d of %q as text, bytes, named text, list and through both conversions", n, dom), Run: func(w *core.W, i int) {
		s := ""
		for _, k := range core.Seq(len(dom), n, i) {
			s += dom[k]
		}
		w.State(s)
		for _, c := range []struct {
			v    any
			want string
		}{{s, s}, {[]byte(s), s}, {named28(s), "named " + s}, {[]string{s}, "[" + s + "]"}, {nil, ""}, {len(s), fmt.Sprint(len(s))}, {&struct{ S string }{s}, "&{" + s + "}"}, {s == "", fmt.Sprint(s == "")}} {
			got := utils.ToString(c.v)
			w.Op(1)
			w.Query(true)
			if got != c.want {
				w.Failf("ToString(%#v) = %q, want %q", c.v, got, c.want)
			}
		}
		b := utils.ToByte(s)
		w.Op(2)
		if string(b) != s || len(b) != len(s) || utils.FromByte(b) != s || utils.FromByte([]byte(s)) != s {
			w.Failf("%q does not survive conversion to bytes and back: %q", s, b)
		}
		if utils.ToInt64(s) != utils.ToInt64(string([]byte(s))) {
			w.Failf("equal texts %q have different numbers", s)
		}
	}}
}

// big28: long lists, with one element repeated early, in the middle, last or not at all.
func big28(max int) core.Part {
	at := core.Big(max)
	return core.Part{Name: fmt.Sprintf("big-%d", max), N: len(at), Rule: fmt.Sprintf("lists of %v texts with the repeated, common or joined element first, in the middle, last or absent, through every helper", core.Sizes(max)), Run: func(w *core.W, i int) {
		n, p := at[i][0], at[i][1]
		w.State(fmt.Sprint(n, p))
		a := make([]string, n, n+3)
		b := make([]string, n, n+3)
		for k := range a {
			a[k], b[k] = fmt.Sprintf("a%d", k), fmt.Sprintf("b%d", k)
		}
		last := "none"
		if p < n {
			last = a[p]
		}
		b[n-1] = last // common to both iff p < n
		sa, sb := snap(a), snap(b)
		w.Logf("%d elements, common %q", n, last)
		eq := func(what string, got, want []string) {
			w.Query(p < n)
			if !slices.Equal(got, want) {
				w.Failf("%s of lists of %d with common element %q: got %d elements, want %d", what, n, last, len(got), len(want))
			}
		}
		anys := func(l []string) []any {
			x := make([]any, len(l))
			for k := range l {
				x[k] = l[k]
			}
			return x
		}
		compact := func(l []string) (r []string) {
			for _, y := range utils.Compact(anys(l)) {
				r = append(r, y.(string))
			}
			return r
		}
		var common []string
		union := append(slices.Clone(a), b[:n-1]...)
		if p < n {
			common = []string{last}
		} else {
			union = append(union, last)
		}
		eq("intersection", utils.Intersection(a, b), common)
		eq("intersection", utils.Intersection(b, a), common)
		eq("union", utils.Union(a, b), union)
		eq("compact", compact(append(slices.Clone(a), b...)), union)
		eq("compact", compact(append(slices.Clone(a), a...)), a)
		eq("union with itself", utils.Union(a, a), a)
		eq("intersection with itself", utils.Intersection(a, a), a)
		if n <= 257 {
			eq("join", utils.JoinSlices(a, b, func(x, y string) bool { return x == y }, func(x, y string) string { return x }), common)
		}
		w.Query(p < n)
		if utils.Contains(anys(a), any(last)) != (p < n) || !utils.Contains(anys(b), any(last)) || !utils.Contains(anys(a), any(a[n-1])) {
			w.Failf("membership of %q, or of the last of %d, is wrong", last, n)
		}
		unchanged(w, "a helper", a, sa)
		unchanged(w, "a helper", b, sb)
		pool := utils.NewSlicePool[string](4)
		for k := 0; k < 3; k++ {
			x := append(pool.Get(), a...)
			pool.Put(x)
			pool.Put(make([]string, n, 4*n))
			if y := pool.Get(); len(y) != 0 {
				w.Failf("the pool handed out %d elements after %d were returned", len(y), n)
			}
		}
	}}
}

func init() {
	core.Register(&core.Check{ID: "C28", Assumptions: []string{"list elements are comparable values; for union and intersection any values without cycles"}, Parts: func(tier string) []core.Part {
		k, j, d, big := 5, 3, 7, 1025
		if tier == "thorough" {
			k, j, d = 7, 4, 9
		}
		return []core.Part{
			compact28(k),
			text28(k),
			sets28("structs", []pair28{{"a", "b"}, {"a|B:b", ""}, {"a", "|B:b"}, {"", "a"}, {"a|B:", "b"}, {"a", ""}}, 3),
			sets28("open-structs", []any28{{1, nil}, {"1", nil}, {nil, 1}, {"<nil>", 1}, {2, nil}, {nil, nil}}, 3),
			sets28("maps", []map[string]any{{"a": 1}, {"a": "1"}, {"a": 1, "b": 2}, {"a": "1|b:2"}, {}, {"b": 2, "a": 1, "c": 3}}, 3),
			sets28("number-maps", []map[int]int{{1: 1}, {1: 1, 2: 2}, {2: 2, 1: 1, 3: 3, 10: 4}, {}, {1: 2}}, 3),
			sets28("texts", []string{"a", "b", "a|", "", "a:b"}, 3),
			sets28("numbers", []int{0, 1, 2, 10}, 3),
			sets28("anything", []any{"1", 1, nil, "nil", "<nil>", true, "true", []string{"a b"}, []string{"a", "b"}, [2]int{1, 2}, "[1 2]"}, 2),
			sets28("confusable-texts", core.OddIDs, 1),
			sets28("confusable-structs", odd28(), 1),
			join28(j), fields28(), pools28(d), big28(big),
		}
	}})
}
