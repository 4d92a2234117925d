// Package vsched is what the instrumented packages of /repo (see instr) call where they
// depend on the order of a map or on a lock.
package vsched

import (
	"cmp"
	"fmt"
	"iter"
	"reflect"
	"slices"
)

// Order says in which order a map of n elements is iterated: a permutation, or nil for that
// of the sorted keys. It is called once per iteration of a map with several elements.
var Order func(n int) []int

// built is set by the linker when the program is built with the instrumented code of /repo.
var built string

// Instrumented tells that the program was built with the instrumented code of /repo.
func Instrumented() bool { return built != "" }

func sorted[K comparable, V any](m map[K]V) []K {
	keys := make([]K, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	if len(keys) < 2 {
		return keys
	}
	switch reflect.TypeFor[K]().Kind() {
	case reflect.String:
		slices.SortFunc(keys, func(a, b K) int {
			return cmp.Compare(reflect.ValueOf(a).String(), reflect.ValueOf(b).String())
		})
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		slices.SortFunc(keys, func(a, b K) int {
			return cmp.Compare(reflect.ValueOf(a).Uint(), reflect.ValueOf(b).Uint())
		})
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		slices.SortFunc(keys, func(a, b K) int {
			return cmp.Compare(reflect.ValueOf(a).Int(), reflect.ValueOf(b).Int())
		})
	default:
		slices.SortFunc(keys, func(a, b K) int { return cmp.Compare(fmt.Sprintf("%#v", a), fmt.Sprintf("%#v", b)) })
	}
	if Order == nil {
		return keys
	}
	p := Order(len(keys))
	if p == nil {
		return keys
	}
	out := make([]K, len(keys))
	for i, j := range p {
		out[i] = keys[j]
	}
	return out
}

// Map iterates a map as a range statement does.
func Map[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range sorted(m) {
			v, ok := m[k]
			if !ok {
				continue // it was deleted meanwhile
			}
			if !yield(k, v) {
				return
			}
		}
	}
}

// MapsAll is maps.All.
func MapsAll[M ~map[K]V, K comparable, V any](m M) iter.Seq2[K, V] { return Map(m) }

// MapsKeys is maps.Keys.
func MapsKeys[M ~map[K]V, K comparable, V any](m M) iter.Seq[K] {
	return func(yield func(K) bool) {
		for k := range Map(m) {
			if !yield(k) {
				return
			}
		}
	}
}

// MapsValues is maps.Values.
func MapsValues[M ~map[K]V, K comparable, V any](m M) iter.Seq[V] {
	return func(yield func(V) bool) {
		for _, v := range Map(m) {
			if !yield(v) {
				return
			}
		}
	}
}
