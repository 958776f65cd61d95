package c23

import (
	"cmp"
	"maps"
	"slices"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"golang.org/x/exp/constraints"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/models/sorted"
	"verif.local/harness/pbt"
)

const rule = "set, delete and clear bursts over several key types with reads and range walks stopped at drawn points or changing the map on the way, against an ideal sorted map; " +
	"non-trivial: a present key was deleted and a value overwritten"

func look[K interface {
	constraints.Ordered
	cmp.Ordered
}](rt *rapid.T, l *ordmapx.OrdMap[K, string], m *sorted.Map[K, string], w *gen.Watch) {
	if w.Part() && l.Len() != m.Len() {
		rt.Fatalf("Len = %d, want %d", l.Len(), m.Len())
	}
	var keys []K
	if w.Part() {
		keys = l.Keys()
		if !slices.Equal(keys, m.Keys()) {
			rt.Fatalf("Keys = %v, want %v", keys, m.Keys())
		}
	}
	var values []string
	if w.Part() {
		values = l.Values()
		if !slices.Equal(values, m.Values()) {
			rt.Fatalf("Values = %v, want %v", values, m.Values())
		}
	}
	// what was returned belongs to the caller
	slices.Reverse(keys)
	for i := range values {
		values[i] = "scribbled"
	}
	if keys != nil && values == nil {
		return
	}
	if got := l.Keys(); !slices.Equal(got, m.Keys()) {
		rt.Fatalf("Keys = %v after the caller changed an earlier result, want %v", got, m.Keys())
	}
	if got := l.Values(); !slices.Equal(got, m.Values()) {
		rt.Fatalf("Values = %v after the caller changed an earlier result, want %v", got, m.Values())
	}
	for _, v := range values {
		if v != "scribbled" {
			rt.Fatalf("an earlier result of Values changed in a later call")
		}
	}
	stop := rapid.IntRange(0, m.Len()).Draw(rt, "stop")
	n := 0
	l.Range(func(k K, v string) bool {
		if n >= m.Len() {
			rt.Fatalf("Range visits more entries than there are")
		}
		if w := m.Keys()[n]; k != w || v != m.M[w] {
			rt.Fatalf("Range entry %d is %v %v, want %v %v", n, k, v, w, m.M[w])
		}
		n++
		return n == stop
	})
	want := m.Len()
	if stop > 0 {
		want = stop
	}
	if n != want {
		rt.Fatalf("Range visited %d entries, want %d (stop after %d of %d)", n, want, stop, m.Len())
	}
}

// walk ranges with a callback that reads and changes the map on the way: what lies ahead of the visited entry is
// visited if it is in the map when its turn comes, with the value it has then.
func walk[K interface {
	constraints.Ordered
	cmp.Ordered
}](rt *rapid.T, c *pbt.Case, l *ordmapx.OrdMap[K, string], m *sorted.Map[K, string], ks sorted.Keyspace[K], space int) {
	key := rapid.IntRange(0, space-1)
	vals := rapid.SampledFrom([]string{"", "v", "w", "x"})
	var last *K
	changed, left := 0, 200
	// edit makes one change, perhaps, and reports whether to make another
	edit := func(k K) bool {
		op := rapid.SampledFrom([]string{"none", "none", "none", "none", "set", "hit", "hit", "del", "self", "clear?", "inner", "stop?"}).Draw(rt, "walk")
		switch op {
		case "set":
			n, v := ks.Of(key.Draw(rt, "k")), vals.Draw(rt, "v")
			l.Set(n, v)
			m.Set(n, v)
			changed++
		case "hit":
			if m.Len() > 0 {
				n, v := m.Any(rt), vals.Draw(rt, "v")
				l.Set(n, v)
				m.Set(n, v)
				changed++
			}
		case "del":
			if m.Len() > 0 {
				n := m.Any(rt)
				l.Del(n)
				m.Del(n)
				changed++
			}
		case "self":
			l.Del(k)
			m.Del(k)
			changed++
		case "clear?":
			if rapid.IntRange(0, 2).Draw(rt, "really") == 0 {
				l.Clear()
				m.Clear()
				changed++
				c.Label("cleared on the way")
			}
		case "inner":
			n := 0
			l.Range(func(k K, v string) bool {
				if !gen.Same(v, m.M[k]) {
					rt.Fatalf("inner Range visits %v %q, want %q", k, v, m.M[k])
				}
				n++
				return false
			})
			if n != m.Len() {
				rt.Fatalf("inner Range visits %d of %d entries", n, m.Len())
			}
		case "stop?":
			left -= rapid.IntRange(0, 200).Draw(rt, "patience")
		}
		return op != "none" && rapid.IntRange(0, 2).Draw(rt, "another") == 0
	}
	l.Range(func(k K, v string) bool {
		keys := m.Keys()
		at := 0
		if last != nil {
			at, _ = slices.BinarySearch(keys, *last)
			if at < len(keys) && keys[at] == *last {
				at++
			}
		}
		if at >= len(keys) {
			rt.Fatalf("Range visits %v, nothing is left to visit", k)
		}
		if w := keys[at]; k != w || v != m.M[w] {
			rt.Fatalf("Range visits %v %q, want %v %q", k, v, w, m.M[w])
		}
		last = &k
		left--
		again := true
		for again {
			again = edit(k)
		}
		return left <= 0
	})
	if left > 0 {
		keys := m.Keys()
		if last != nil {
			at, ok := slices.BinarySearch(keys, *last)
			if ok {
				at++
			}
			keys = keys[at:]
		}
		if len(keys) > 0 {
			rt.Fatalf("Range ended before visiting %v", keys)
		}
	}
	if changed > 0 {
		c.Label("changed on the way")
	}
}

func run[K interface {
	constraints.Ordered
	cmp.Ordered
}](rt *rapid.T, c *pbt.Case, ks sorted.Keyspace[K]) {
	l, m := ordmapx.New[K, string](), sorted.New[K, string]()
	space := rapid.SampledFrom([]int{2, 5, 20, 100, 1000}).Draw(rt, "keys")
	key := rapid.IntRange(0, space-1)
	c.Label(ks.Name)
	c.Logf("%s of %d", ks.Name, space)
	deleted, overwritten := false, false
	vals := rapid.SampledFrom([]string{"", "a", "b", "c", "d", "e"})
	set := func(k K) {
		v := vals.Draw(rt, "v")
		if w, ok := m.M[k]; ok && w != v {
			overwritten = true
		}
		l.Set(k, v)
		m.Set(k, v)
	}
	del := func(k K) {
		l.Del(k)
		deleted = m.Del(k) || deleted
	}
	watch := gen.NewWatch(rt)
	if watch.Now() {
		look(rt, l, m, watch)
	}
	var kept gen.Kept
	for range rapid.IntRange(1, 50).Draw(rt, "ops") {
		op := rapid.SampledFrom([]string{"set", "set", "set", "del", "hit", "hit", "run", "drain", "clear?", "walk"}).Draw(rt, "op")
		c.Logf("%s", op)
		switch op {
		case "set":
			set(ks.Of(key.Draw(rt, "k")))
		case "del":
			del(ks.Of(key.Draw(rt, "k")))
		case "hit":
			if m.Len() > 0 {
				if k := m.Any(rt); rapid.Bool().Draw(rt, "del") {
					del(k)
				} else {
					set(k)
				}
			}
		case "run", "drain":
			s, step := key.Draw(rt, "start"), rapid.SampledFrom([]int{1, space - 1, 7}).Draw(rt, "step")
			for i := range rapid.IntRange(1, 30).Draw(rt, "n") {
				if k := ks.Of((s + i*step) % space); op == "run" {
					set(k)
				} else {
					del(k)
				}
			}
		case "walk":
			walk(rt, c, l, m, ks, space)
		case "clear?":
			if rapid.IntRange(0, 2).Draw(rt, "really") == 0 {
				l.Clear()
				m.Clear()
			}
		}
		if rapid.IntRange(0, 9).Draw(rt, "keep") == 0 {
			gen.KeepList(&kept, "Keys", l.Keys())
			gen.KeepList(&kept, "Values", l.Values())
		}
		if watch.Now() && (m.Len() < 40 || rapid.IntRange(0, 5).Draw(rt, "look") == 0) {
			look(rt, l, m, watch)
		}
		if !watch.Now() {
			continue
		}
		k := ks.Of(key.Draw(rt, "probe"))
		v, ok := l.Get(k)
		if w, wok := m.M[k]; !gen.Same(v, w) || ok != wok {
			rt.Fatalf("Get(%v) = %q %v, want %q %v", k, v, ok, w, wok)
		}
	}
	watch.All()
	look(rt, l, m, watch)
	if s := kept.Changed(); s != "" {
		rt.Fatalf("what %s", s)
	}
	c.NonTrivialIf(deleted && overwritten)
}

func TestOrdMap(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 15000, Thorough: 400000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		switch rapid.IntRange(0, 4).Draw(rt, "type") {
		case 0:
			run(rt, c, sorted.Ints)
		case 1:
			run(rt, c, sorted.BigInts)
		case 2:
			run(rt, c, sorted.Strings)
		case 3:
			run(rt, c, sorted.Floats)
		default:
			run(rt, c, sorted.Bytes)
		}
	})
}

// Long mixed histories on one map.
func TestLong(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 20, Thorough: 2000, Rule: "one map through 2000 to 80000 sets, deletes and gets expanded from a seed, keys from 50 to 50000, with clears; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		r := gen.NewRand(rt, "seed")
		space := gen.Large(rt, "keys", 50, 50000)
		steps := gen.Large(rt, "steps", 2000, 80000)
		bias := rapid.IntRange(1, 7).Draw(rt, "bias")
		l, m := ordmapx.New[int, int](), map[int]int{}
		c.Logf("%d steps on %d keys, %d/8 sets, seed %x", steps, space, bias, uint64(*r))
		c.NonTrivial()
		for i := 1; i <= steps; i++ {
			k := r.N(space)
			switch {
			case i%30000 == 0:
				l.Clear()
				clear(m)
			case r.N(8) < bias:
				l.Set(k, i)
				m[k] = i
			default:
				l.Del(k)
				delete(m, k)
			}
			k = r.N(space)
			v, ok := l.Get(k)
			if w, wok := m[k]; !gen.Same(v, w) || ok != wok || l.Len() != len(m) {
				rt.Fatalf("step %d: Get(%d) = %d %v, want %d %v; Len = %d, want %d", i, k, v, ok, w, wok, l.Len(), len(m))
			}
			if i%20000 == 0 || i == steps {
				keys := slices.Sorted(maps.Keys(m))
				if !slices.Equal(l.Keys(), keys) {
					rt.Fatalf("the keys differ after %d steps", i)
				}
				for n, v := range l.Values() {
					if n >= len(keys) || v != m[keys[n]] {
						rt.Fatalf("value %d differs after %d steps", n, i)
					}
				}
				n, stop := 0, r.N(len(keys)+1)
				l.Range(func(k, v int) bool {
					if n >= len(keys) || k != keys[n] || v != m[k] {
						rt.Fatalf("entry %d of the range differs after %d steps", n, i)
					}
					n++
					return n == stop
				})
				if want := len(keys); n != want && n != stop || stop > 0 && n != stop {
					rt.Fatalf("the range visited %d of %d entries, stop after %d", n, want, stop)
				}
			}
		}
	})
}

// kinds of values other than strings, with zero, nil and repeated ones among them
func valuesOf[V any](elem func(int) V) func(*rapid.T, []int) {
	return func(rt *rapid.T, ops []int) {
		l, m := ordmapx.New[int, V](), sorted.New[int, V]()
		for i, o := range ops {
			k := o % 12
			switch o / 12 {
			case 0, 1, 2:
				v := elem(o + i)
				l.Set(k, v)
				m.Set(k, v)
			case 3:
				l.Del(k)
				m.Del(k)
			}
			for k := range 12 {
				v, ok := l.Get(k)
				if w, wok := m.M[k]; !gen.Same(v, w) || ok != wok {
					rt.Fatalf("step %d: Get(%d) = %v %v, want %v %v", i, k, v, ok, w, wok)
				}
			}
			if l.Len() != m.Len() || !slices.Equal(l.Keys(), m.Keys()) || !gen.SameAll(l.Values(), m.Values()) {
				rt.Fatalf("step %d: %d entries, keys %v, values %v, want %v", i, l.Len(), l.Keys(), l.Values(), m.M)
			}
			n := 0
			l.Range(func(k int, v V) bool {
				if n >= m.Len() || k != m.Keys()[n] || !gen.Same(v, m.M[k]) {
					rt.Fatalf("step %d: Range entry %d is %v %v in %v", i, n, k, v, m.M)
				}
				n++
				return false
			})
			if n != m.Len() {
				rt.Fatalf("step %d: Range visits %d of %d entries", i, n, m.Len())
			}
		}
	}
}

func TestValues(t *testing.T) {
	kinds := []func(*rapid.T, []int){valuesOf(gen.Few), valuesOf(gen.MaybeNil), valuesOf(gen.Any), valuesOf(gen.Text), valuesOf(gen.Empty), valuesOf(gen.Array), valuesOf(gen.Floats), valuesOf(gen.Rows), valuesOf(gen.Loose), valuesOf(gen.Records)}
	pbt.Check(t, pbt.Opts{Quick: 5000, Thorough: 200000, Rule: "sets and deletes of a dozen keys with values of several types, zero, nil and repeated ones among them, read back after every step; non-trivial: at least five steps"}, func(rt *rapid.T, c *pbt.Case) {
		k := rapid.IntRange(0, len(kinds)-1).Draw(rt, "kind")
		ops := rapid.SliceOfN(rapid.IntRange(0, 47), 1, 40).Draw(rt, "ops")
		c.Logf("kind %d: %v", k, ops)
		c.NonTrivialIf(len(ops) >= 5)
		kinds[k](rt, ops)
	})
}

// Maps of more than 65536 keys.
func TestBeyond(t *testing.T) {
	pbt.Check(t, pbt.Opts{CPU: 60, Quick: 6, Thorough: 300, Rule: "maps grown to 65536 to 1.2 million keys in ascending or, up to 80000, in descending or scattered order, then shrunk to nothing or nearly so, with the size looked at after every step; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		n := gen.Vast(rt, "n")
		how := rapid.IntRange(0, 2).Draw(rt, "order")
		if n > 80000 {
			how = 0 // the cheapest in any representation
		}
		r := gen.NewRand(rt, "seed")
		key := func(i int) uint64 {
			switch how {
			case 0:
				return uint64(i)
			case 1:
				return uint64(n - i)
			}
			return uint64(i) * 0x9e3779b97f4a7c15 // odd: all different
		}
		c.Logf("%d keys in order %d", n, how)
		c.NonTrivial()
		l := ordmapx.New[uint64, int]()
		at := make(map[uint64]int, n)
		for i := range n {
			l.Set(key(i), i)
			at[key(i)] = i
			if l.Len() != i+1 {
				rt.Fatalf("Len = %d with %d keys", l.Len(), i+1)
			}
		}
		whole := func() {
			want := slices.Sorted(maps.Keys(at))
			if !slices.Equal(l.Keys(), want) {
				rt.Fatalf("the keys of a map of %d differ", len(want))
			}
			vs := l.Values()
			if len(vs) != len(want) {
				rt.Fatalf("%d values of %d keys", len(vs), len(want))
			}
			k := 0
			l.Range(func(key uint64, v int) bool {
				if k >= len(want) || key != want[k] || v != at[key] || vs[k] != v {
					rt.Fatalf("entry %d of %d is %d %d", k, len(want), key, v)
				}
				k++
				return false
			})
			if k != len(want) {
				rt.Fatalf("the range visited %d of %d", k, len(want))
			}
		}
		whole()
		keep := r.N(5) * 1000
		for i := range n {
			k := i * 7919 % n
			if n%7919 == 0 {
				k = i
			}
			if n > 80000 {
				k = n - 1 - i
			}
			if k < keep {
				continue
			}
			if v, ok := l.Get(key(k)); !ok || v != k {
				rt.Fatalf("Get of key %d of %d = %d %v", k, n, v, ok)
			}
			l.Del(key(k))
			delete(at, key(k))
			if l.Len() != len(at) {
				rt.Fatalf("Len = %d with %d keys left", l.Len(), len(at))
			}
		}
		whole()
	})
}
