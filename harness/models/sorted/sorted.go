// Package sorted is an ideal sorted map and generators of keys for it.
package sorted

import (
	"cmp"
	"math"
	"slices"
	"strconv"

	"pgregory.net/rapid"
)

// Map is a Go map plus the sorted list of its keys.
type Map[K cmp.Ordered, V any] struct {
	M    map[K]V
	keys []K
}

func New[K cmp.Ordered, V any]() *Map[K, V] { return &Map[K, V]{M: map[K]V{}} }

func (m *Map[K, V]) Set(k K, v V) {
	if _, ok := m.M[k]; !ok {
		i, _ := slices.BinarySearch(m.keys, k)
		m.keys = slices.Insert(m.keys, i, k)
	}
	m.M[k] = v
}

func (m *Map[K, V]) Del(k K) bool {
	if _, ok := m.M[k]; !ok {
		return false
	}
	i, _ := slices.BinarySearch(m.keys, k)
	m.keys = slices.Delete(m.keys, i, i+1)
	delete(m.M, k)
	return true
}

func (m *Map[K, V]) Clear()    { m.M, m.keys = map[K]V{}, nil }
func (m *Map[K, V]) Len() int  { return len(m.keys) }
func (m *Map[K, V]) Keys() []K { return m.keys }
func (m *Map[K, V]) Values() []V {
	vs := make([]V, 0, len(m.keys))
	for _, k := range m.keys {
		vs = append(vs, m.M[k])
	}
	return vs
}

// After returns the smallest key greater than k.
func (m *Map[K, V]) After(k K) (K, bool) {
	i, ok := slices.BinarySearch(m.keys, k)
	if ok {
		i++
	}
	if i == len(m.keys) {
		var z K
		return z, false
	}
	return m.keys[i], true
}

// First returns the smallest key.
func (m *Map[K, V]) First() (K, bool) {
	if len(m.keys) == 0 {
		var z K
		return z, false
	}
	return m.keys[0], true
}

// Any draws a present key (the map must not be empty).
func (m *Map[K, V]) Any(rt *rapid.T) K {
	return m.keys[rapid.IntRange(0, len(m.keys)-1).Draw(rt, "present")]
}

// Keyspace turns numbers into keys of one type; the order of keys need not follow the order of numbers.
type Keyspace[K cmp.Ordered] struct {
	Name string
	Of   func(int) K
}

var (
	Ints    = Keyspace[int]{"int", func(i int) int { return i }}
	BigInts = Keyspace[int]{"wide int", func(i int) int {
		switch i % 7 {
		case 0:
			return math.MinInt + i
		case 1:
			return math.MaxInt - i
		case 2:
			return -i
		}
		return i * 1_000_003
	}}
	Bytes   = Keyspace[uint8]{"uint8", func(i int) uint8 { return uint8(i) }}
	Strings = Keyspace[string]{"string", func(i int) string {
		if i == 0 {
			return ""
		}
		return strconv.Itoa(i)
	}}
	Floats = Keyspace[float64]{"float64", func(i int) float64 {
		switch i % 11 {
		case 0:
			return math.Inf(1)
		case 1:
			return math.Inf(-1)
		case 2:
			return -float64(i) / 3
		case 3:
			return math.Ldexp(1, -i%1000)
		}
		return float64(i) / 7
	}}
)
