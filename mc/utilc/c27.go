package utilc

import (
	"fmt"
	"slices"

	"github.com/oarkflow/permission/ds"

	"verif/mc/core"
)

// C27: every program over a growing pool of lists; after every step every list is converted twice
// (the first result is scribbled over) and compared with a plain slice.
func prog27(name string, depth int) core.Part {
	// step k has k+2 lists to choose from (two empties to start with): append(list) or concat(list, list)
	counts := make([]int, depth)
	total := 1
	for k := range counts {
		m := k + 2
		counts[k] = m + m*m
		total *= counts[k]
	}
	return core.Part{Name: name, N: total, Rule: fmt.Sprintf("all programs of %d steps, each appending a new element to, or concatenating, any lists made so far (aliased and self-concatenation included); after each step every list is compared with a plain slice", depth), Run: func(w *core.W, i int) {
		d := core.Mixed(i, counts...)
		e := ds.Empty[int]()
		lists := []ds.Link[int]{e, ds.Empty[int]()}
		model := [][]int{{}, {}}
		next := 1
		for k, x := range d {
			m := k + 2
			if x < m {
				w.Logf("L%d = append(L%d, %d)", m, x, next)
				lists = append(lists, lists[x].Append(next))
				model = append(model, append(slices.Clone(model[x]), next))
				next++
			} else {
				a, b := (x-m)/m, (x-m)%m
				w.Logf("L%d = concat(L%d, L%d)", m, a, b)
				lists = append(lists, lists[a].Concat(lists[b]))
				model = append(model, append(slices.Clone(model[a]), model[b]...))
			}
			w.Op(1)
			compare27(w, lists, model)
		}
		w.State(fmt.Sprint(model))
	}}
}

func compare27(w *core.W, lists []ds.Link[int], model [][]int) {
	for j := range lists {
		got := lists[j].AsSlice()
		w.Query(len(model[j]) > 0)
		if !slices.Equal(got, model[j]) {
			w.Failf("L%d converts to %v, want %v", j, got, model[j])
		}
		if lists[j].IsEmpty() != (len(model[j]) == 0) {
			w.Failf("L%d: IsEmpty is %v with elements %v", j, lists[j].IsEmpty(), model[j])
		}
		// change what was returned, up to its capacity: no list may notice
		full := got[:cap(got)]
		for x := range full {
			full[x] = -1
		}
		_ = append(got, -2)
	}
	for j := range lists {
		if got := lists[j].AsSlice(); !slices.Equal(got, model[j]) {
			w.Failf("after changing returned slices L%d converts to %v, want %v", j, got, model[j])
		}
	}
}

func long27(max int) core.Part {
	shapes := 6
	return core.Part{Name: "long", N: shapes * max, Rule: fmt.Sprintf("6 construction shapes (append chain, left- and right-nested concat, doubling, branching from a shared prefix, mixed) of 1..%d steps", max), Run: func(w *core.W, i int) {
		n, sh := i%max+1, i/max
		one := func(v int) ds.Link[int] { return ds.Empty[int]().Append(v) }
		l := ds.Empty[int]()
		var m []int
		lists := []ds.Link[int]{}
		var model [][]int
		keep := func() { lists = append(lists, l); model = append(model, slices.Clone(m)) }
		for k := 1; k <= n; k++ {
			switch sh {
			case 0:
				l = l.Append(k)
				m = append(m, k)
			case 1:
				l = l.Concat(one(k))
				m = append(m, k)
			case 2:
				l = one(k).Concat(l)
				m = append([]int{k}, m...)
			case 3:
				if k <= 10 {
					l = l.Append(k).Concat(l)
					m = append(append(slices.Clone(m), k), m...)
				}
			case 4:
				keepL, keepM := l, slices.Clone(m)
				l = l.Append(k)
				m = append(m, k)
				if k%3 == 0 {
					lists = append(lists, keepL.Append(-k))
					model = append(model, append(keepM, -k))
				}
			case 5:
				if k%2 == 0 {
					l = l.Concat(one(k).Append(k + 1))
					m = append(m, k, k+1)
				} else {
					l = ds.Empty[int]().Concat(l).Append(k).Concat(ds.Empty[int]())
					m = append(m, k)
				}
			}
			w.Op(1)
			if k%7 == 0 || k == n {
				keep()
			}
		}
		w.State(fmt.Sprint(sh, n))
		w.Logf("shape %d with %d steps", sh, n)
		compare27(w, lists, model)
	}}
}

func init() {
	core.Register(&core.Check{ID: "C27", Parts: func(tier string) []core.Part {
		ps := []core.Part{prog27("programs", 5), long27(200)}
		if tier == "thorough" {
			ps = append(ps, prog27("programs-deep", 6))
		}
		return ps
	}})
}
