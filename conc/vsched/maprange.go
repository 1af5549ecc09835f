package vsched

import (
	"cmp"
	"fmt"
	"iter"
	"slices"
)

// Range iterates over a map in a fixed order, so that an execution is determined by its schedule.
// Like a range loop it skips entries deleted meanwhile.
func Range[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		keys := make([]K, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		switch ks := any(keys).(type) {
		case []string:
			slices.Sort(ks)
		case []int:
			slices.Sort(ks)
		default:
			slices.SortFunc(keys, func(a, b K) int { return cmp.Compare(fmt.Sprint(a), fmt.Sprint(b)) })
		}
		for _, k := range keys {
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// Hash replaces the hash functions of xsync, which differ from process to process.
func Hash(v any) uint64 {
	h := uint64(14695981039346656037)
	s, ok := v.(string)
	if !ok {
		s = fmt.Sprintf("%T %v", v, v)
	}
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h ^ h>>29
}
