// Package vmaps replaces package maps in the instrumented code: the same functions with a fixed order
// of iteration, and with Clone written as a loop, whose reads the race detector sees (those of the
// runtime's own Clone it does not).
package vmaps

import (
	"iter"

	"verif/conc/vsched"
)

func Clone[M ~map[K]V, K comparable, V any](m M) M {
	if m == nil {
		return nil
	}
	r := make(M, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func Copy[M1 ~map[K]V, M2 ~map[K]V, K comparable, V any](dst M1, src M2) {
	for k, v := range src {
		dst[k] = v
	}
}

func Equal[M1, M2 ~map[K]V, K, V comparable](a M1, b M2) bool {
	return EqualFunc(a, b, func(x, y V) bool { return x == y })
}

func EqualFunc[M1 ~map[K]V1, M2 ~map[K]V2, K comparable, V1, V2 any](a M1, b M2, eq func(V1, V2) bool) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range vsched.Range(a) {
		if w, ok := b[k]; !ok || !eq(v, w) {
			return false
		}
	}
	return true
}

func DeleteFunc[M ~map[K]V, K comparable, V any](m M, del func(K, V) bool) {
	for k, v := range vsched.Range(m) {
		if del(k, v) {
			delete(m, k)
		}
	}
}

func All[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return vsched.Range(m) }

func Keys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range vsched.Range(m) {
			if !yield(k) {
				return
			}
		}
	}
}

func Values[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range vsched.Range(m) {
			if !yield(v) {
				return
			}
		}
	}
}

func Insert[M ~map[K]V, K comparable, V any](m M, seq iter.Seq2[K, V]) {
	for k, v := range seq {
		m[k] = v
	}
}

func Collect[K comparable, V any](seq iter.Seq2[K, V]) map[K]V {
	m := map[K]V{}
	Insert(m, seq)
	return m
}
