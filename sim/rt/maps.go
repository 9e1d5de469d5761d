//go:build go1.23

package rt

import "iter"

// MapsKeys replaces maps.Keys.
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for it, k := RangeMapK[M, K, V](m); it.NextK(&k); {
			if !yield(k) {
				return
			}
		}
	}
}

// MapsValues replaces maps.Values.
func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for it, v := RangeMapV[M, K, V](m); it.NextV(&v); {
			if !yield(v) {
				return
			}
		}
	}
}

// MapsAll replaces maps.All.
func MapsAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for it, k, v := RangeMapKV[M, K, V](m); it.NextKV(&k, &v); {
			if !yield(k, v) {
				return
			}
		}
	}
}
