package c21

import (
	"cmp"
	"fmt"
	"maps"
	"slices"
	"strings"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"golang.org/x/exp/constraints"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/models/sorted"
	"verif.local/harness/pbt"
)

const rule = "set, delete, get and clear bursts (single keys, and ascending, descending and scattered runs of up to 400 keys) over int, wide int, uint8, string and float keys against an ideal sorted map; " +
	"non-trivial: a present key was deleted and the map held 5 keys or more"

func look[K interface {
	constraints.Ordered
	cmp.Ordered
}](rt *rapid.T, l *sklmapx.SkipListMap[K, int], m *sorted.Map[K, int], w *gen.Watch) {
	if w.Part() && l.Len() != m.Len() {
		rt.Fatalf("Len = %d, want %d", l.Len(), m.Len())
	}
	var keys []K
	if w.Part() {
		keys = l.Keys()
		if !slices.Equal(keys, m.Keys()) {
			rt.Fatalf("Keys = %v, want %v", keys, m.Keys())
		}
	}
	var values []int
	if w.Part() {
		values = l.Values()
		if !slices.Equal(values, m.Values()) {
			rt.Fatalf("Values = %v, want %v", values, m.Values())
		}
	}
	var mm map[K]int
	if w.Part() {
		mm = l.ToMap()
		if !maps.Equal(mm, m.M) {
			rt.Fatalf("ToMap = %v, want %v", mm, m.M)
		}
	}
	// what was returned belongs to the caller
	slices.Reverse(keys)
	for i := range values {
		values[i] = -1
	}
	clear(mm)
	if !w.Part() {
		return
	}
	if again := l.ToMap(); !maps.Equal(again, m.M) {
		rt.Fatalf("ToMap = %v after the caller changed an earlier result, want %v", again, m.M)
	}
	if again := l.Values(); !slices.Equal(again, m.Values()) {
		rt.Fatalf("Values = %v after the caller changed an earlier result, want %v", again, m.Values())
	}
	if again := l.Keys(); !slices.Equal(again, m.Keys()) {
		rt.Fatalf("Keys = %v after the caller changed an earlier result, want %v", again, m.Keys())
	}
	for _, v := range values {
		if v != -1 {
			rt.Fatalf("an earlier result of Values changed in a later call")
		}
	}
	var b strings.Builder
	b.WriteString("sklmapx[")
	for i, k := range m.Keys() {
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%v:%v", k, m.M[k])
	}
	b.WriteByte(']')
	if got := l.String(); got != b.String() {
		rt.Fatalf("String = %q, want %q", got, b.String())
	}
}

func run[K interface {
	constraints.Ordered
	cmp.Ordered
}](rt *rapid.T, c *pbt.Case, ks sorted.Keyspace[K], maxOps, maxRun int) {
	l, m := sklmapx.New[K, int](), sorted.New[K, int]()
	space := rapid.SampledFrom([]int{3, 8, 30, 200, 5000}).Draw(rt, "keys")
	c.Label(ks.Name)
	c.Logf("%s of %d", ks.Name, space)
	val, deleted, most := 0, false, 0
	key := rapid.IntRange(0, space-1)
	set := func(k K) {
		val++
		v := val
		if val%4 == 0 { // the zero value and values that are there already
			v = val % 3
		}
		l.Set(k, v)
		m.Set(k, v)
	}
	del := func(k K) {
		got, want := l.Del(k), m.Del(k)
		if got != want {
			rt.Fatalf("Del(%v) = %v, want %v", k, got, want)
		}
		deleted = deleted || want
	}
	get := func(k K) {
		v, ok := l.Get(k)
		w, wok := m.M[k]
		if !gen.Same(v, w) || ok != wok {
			rt.Fatalf("Get(%v) = %v %v, want %v %v", k, v, ok, w, wok)
		}
	}
	watch := gen.NewWatch(rt)
	if watch.Now() {
		look(rt, l, m, watch)
	}
	var kept gen.Kept
	for range rapid.IntRange(1, maxOps).Draw(rt, "ops") {
		op := rapid.SampledFrom([]string{"set", "set", "set", "del", "del", "hit", "get", "run", "drain", "clear?"}).Draw(rt, "op")
		c.Logf("%s", op)
		switch op {
		case "set":
			set(ks.Of(key.Draw(rt, "k")))
		case "del":
			del(ks.Of(key.Draw(rt, "k")))
		case "hit":
			if m.Len() > 0 {
				if k := m.Any(rt); rapid.Bool().Draw(rt, "del") {
					del(k)
				} else {
					get(k)
				}
			}
		case "get":
			get(ks.Of(key.Draw(rt, "k")))
		case "run", "drain":
			n := rapid.IntRange(1, maxRun).Draw(rt, "n")
			start, step := key.Draw(rt, "start"), rapid.SampledFrom([]int{1, -1, 7, space - 2, 1}).Draw(rt, "step")
			remove := op == "drain"
			for i := range n {
				k := ks.Of((((start + i*step) % space) + space) % space)
				if remove {
					del(k)
				} else {
					set(k)
				}
			}
		case "clear?":
			if rapid.IntRange(0, 3).Draw(rt, "really") == 0 {
				l.Clear()
				m.Clear()
			}
		}
		if rapid.IntRange(0, 9).Draw(rt, "keep") == 0 {
			gen.KeepList(&kept, "Keys", l.Keys())
			gen.KeepList(&kept, "Values", l.Values())
			gen.KeepMap(&kept, "ToMap", l.ToMap())
		}
		most = max(most, m.Len())
		if watch.Now() && (m.Len() < 60 || rapid.IntRange(0, 5).Draw(rt, "look") == 0) {
			look(rt, l, m, watch)
		}
		if watch.Now() {
			get(ks.Of(key.Draw(rt, "probe")))
		}
	}
	watch.All()
	look(rt, l, m, watch)
	if s := kept.Changed(); s != "" {
		rt.Fatalf("what %s", s)
	}
	for i := range min(space, 300) {
		get(ks.Of(i))
	}
	c.LabelIf(most >= 100, "100 keys or more")
	c.NonTrivialIf(deleted && most >= 5)
}

func TestInt(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6000, Thorough: 150000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		if rapid.Bool().Draw(rt, "wide") {
			run(rt, c, sorted.BigInts, 40, 120)
		} else {
			run(rt, c, sorted.Ints, 40, 120)
		}
	})
}

func TestOthers(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6000, Thorough: 150000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		switch rapid.IntRange(0, 2).Draw(rt, "type") {
		case 0:
			run(rt, c, sorted.Strings, 40, 120)
		case 1:
			run(rt, c, sorted.Floats, 40, 120)
		default:
			run(rt, c, sorted.Bytes, 40, 120)
		}
	})
}

// TestLarge reaches the tallest nodes.
func TestLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 24, Thorough: 600, Rule: "maps of up to 60000 keys; non-trivial: all"}, func(rt *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(2000, 60000).Draw(rt, "n")
		mul := rapid.SampledFrom([]int{1, 7919, 15485863}).Draw(rt, "mul")
		l, m := sklmapx.New[int, int](), map[int]int{}
		c.Logf("%d keys times %d", n, mul)
		c.NonTrivial()
		for i := range n {
			k := (i * mul) % 60013
			l.Set(k, i)
			m[k] = i
		}
		del := rapid.IntRange(2, 9).Draw(rt, "del")
		for k := 0; k < 60013; k += del {
			_, want := m[k]
			delete(m, k)
			if l.Del(k) != want {
				rt.Fatalf("Del(%d) is not %v", k, want)
			}
		}
		keys := slices.Sorted(maps.Keys(m))
		if l.Len() != len(m) || !slices.Equal(l.Keys(), keys) {
			rt.Fatalf("keys differ after deleting (%d against %d)", l.Len(), len(keys))
		}
		for k := range 60013 {
			v, ok := l.Get(k)
			if w, wok := m[k]; !gen.Same(v, w) || ok != wok {
				rt.Fatalf("Get(%d) = %d %v, want %d %v", k, v, ok, w, wok)
			}
		}
	})
}

// Long mixed histories on one map: tens of thousands of updates and deletions around a drawn size.
func TestLong(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 20, Thorough: 2000, Rule: "one map through 2000 to 120000 sets, deletes and gets expanded from a seed, keys from 50 to 50000, with clears; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		r := gen.NewRand(rt, "seed")
		space := gen.Large(rt, "keys", 50, 50000)
		steps := gen.Large(rt, "steps", 2000, 120000)
		bias := rapid.IntRange(1, 7).Draw(rt, "bias")
		l, m := sklmapx.New[int, int](), map[int]int{}
		c.Logf("%d steps on %d keys, %d/8 sets, seed %x", steps, space, bias, uint64(*r))
		c.NonTrivial()
		for i := 1; i <= steps; i++ {
			k := r.N(space)
			switch {
			case i%30000 == 0:
				l.Clear()
				clear(m)
			case r.N(8) < bias:
				l.Set(k, i)
				m[k] = i
			default:
				_, want := m[k]
				if l.Del(k) != want {
					rt.Fatalf("Del(%d) at step %d is not %v", k, i, want)
				}
				delete(m, k)
			}
			k = r.N(space)
			v, ok := l.Get(k)
			if w, wok := m[k]; !gen.Same(v, w) || ok != wok || l.Len() != len(m) {
				rt.Fatalf("step %d: Get(%d) = %d %v, want %d %v; Len = %d, want %d", i, k, v, ok, w, wok, l.Len(), len(m))
			}
			if i%20000 == 0 || i == steps {
				keys := slices.Sorted(maps.Keys(m))
				if !slices.Equal(l.Keys(), keys) || !maps.Equal(l.ToMap(), m) {
					rt.Fatalf("the content differs after %d steps", i)
				}
			}
		}
	})
}

// Separate maps used from separate goroutines do not interfere.
func separate(rt *rapid.T, c *pbt.Case) {
	var es conc.Errs
	var fs []func()
	for g := rapid.IntRange(2, 8).Draw(rt, "goroutines"); g > 0; g-- {
		seed := gen.NewRand(rt, "seed")
		n := pbt.Len(rt, "n", 2000)
		c.Logf("%d: %d steps", g, n)
		fs = append(fs, func() {
			r := *seed
			l, m := sklmapx.New[int, int](), map[int]int{}
			for i := range n {
				k := r.N(1 + n/2)
				switch r.N(40) {
				case 0:
					l, m = sklmapx.New[int, int](), map[int]int{}
				case 1:
					l.Clear()
					clear(m)
				case 2, 3, 4, 5, 6, 7, 8:
					l.Del(k)
					delete(m, k)
				default:
					l.Set(k, i)
					m[k] = i
				}
			}
			if !slices.Equal(l.Keys(), slices.Sorted(maps.Keys(m))) || !maps.Equal(l.ToMap(), m) {
				es.Addf("a map used next to others in other goroutines differs from the ideal map")
			}
		})
	}
	c.NonTrivial()
	conc.Par(fs...)
	es.Check(rt)
}

func TestRaceSeparate(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 150, Thorough: 6000, Rule: "two to eight goroutines, each with maps of its own, up to 2000 steps; every case counts as non-trivial"}, separate)
}

// kinds of values other than numbers, with zero, nil and repeated ones among them
func valuesOf[V any](elem func(int) V) func(*rapid.T, []int) {
	return func(rt *rapid.T, ops []int) {
		l, m := sklmapx.New[int, V](), sorted.New[int, V]()
		var kept gen.Kept
		for i, o := range ops {
			k := o % 12
			switch o / 12 {
			case 0, 1, 2:
				v := elem(o + i)
				l.Set(k, v)
				m.Set(k, v)
			case 3:
				if got, want := l.Del(k), m.Del(k); got != want {
					rt.Fatalf("step %d: Del(%d) = %v, want %v", i, k, got, want)
				}
			}
			for k := range 12 {
				v, ok := l.Get(k)
				if w, wok := m.M[k]; !gen.Same(v, w) || ok != wok {
					rt.Fatalf("step %d: Get(%d) = %v %v, want %v %v", i, k, v, ok, w, wok)
				}
			}
			if l.Len() != m.Len() || !slices.Equal(l.Keys(), m.Keys()) || !gen.SameAll(l.Values(), m.Values()) || !maps.EqualFunc(l.ToMap(), m.M, gen.Same[V]) {
				rt.Fatalf("step %d: %d entries, keys %v, values %v, want %v", i, l.Len(), l.Keys(), l.Values(), m.M)
			}
			if i%3 == 0 {
				gen.KeepList(&kept, "Values", l.Values())
				gen.KeepMap(&kept, "ToMap", l.ToMap())
			}
			if s := kept.Changed(); s != "" {
				rt.Fatalf("step %d: what %s", i, s)
			}
			it := l.Iterator()
			for _, w := range m.Keys() {
				if k, v, ok := it.Next(); !ok || k != w || !gen.Same(v, m.M[w]) {
					rt.Fatalf("step %d: the iterator gives %v %v %v, want %v %v", i, k, v, ok, w, m.M[w])
				}
			}
			if k, v, ok := it.Next(); ok {
				rt.Fatalf("step %d: the iterator gives %v %v behind the last entry", i, k, v)
			}
		}
	}
}

func TestValues(t *testing.T) {
	kinds := []func(*rapid.T, []int){valuesOf(gen.Few), valuesOf(gen.MaybeNil), valuesOf(gen.Any), valuesOf(gen.Text), valuesOf(gen.Empty), valuesOf(gen.Array), valuesOf(gen.Floats), valuesOf(gen.Rows), valuesOf(gen.Loose), valuesOf(gen.Records)}
	pbt.Check(t, pbt.Opts{Quick: 5000, Thorough: 200000, Rule: "sets and deletes of a dozen keys with values of several types, zero, nil and repeated ones among them, read back after every step; non-trivial: at least five steps"}, func(rt *rapid.T, c *pbt.Case) {
		k := rapid.IntRange(0, len(kinds)-1).Draw(rt, "kind")
		ops := rapid.SliceOfN(rapid.IntRange(0, 47), 1, 40).Draw(rt, "ops")
		c.Logf("kind %d: %v", k, ops)
		c.NonTrivialIf(len(ops) >= 5)
		kinds[k](rt, ops)
	})
}

// Maps of more than 65536 keys.
func TestBeyond(t *testing.T) {
	pbt.Check(t, pbt.Opts{CPU: 60, Quick: 6, Thorough: 300, Rule: "maps grown to 65536 to 1.2 million keys in ascending or, up to 80000, in descending or scattered order, then shrunk to nothing or nearly so, with the size looked at after every step; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		n := gen.Vast(rt, "n")
		how := rapid.IntRange(0, 2).Draw(rt, "order")
		if n > 80000 {
			how = 0 // the cheapest in any representation
		}
		r := gen.NewRand(rt, "seed")
		key := func(i int) uint64 {
			switch how {
			case 0:
				return uint64(i)
			case 1:
				return uint64(n - i)
			}
			return uint64(i) * 0x9e3779b97f4a7c15 // odd: all different
		}
		c.Logf("%d keys in order %d", n, how)
		c.NonTrivial()
		l := sklmapx.New[uint64, int]()
		for i := range n {
			l.Set(key(i), i)
			if i%100 == 0 {
				l.Set(key(r.N(i+1)), -1)
				l.Set(key(i), i)
			}
			if l.Len() != i+1 {
				rt.Fatalf("Len = %d with %d keys", l.Len(), i+1)
			}
		}
		want := make([]uint64, n)
		for i := range want {
			want[i] = key(i)
		}
		slices.Sort(want)
		if !slices.Equal(l.Keys(), want) || len(l.Values()) != n || len(l.ToMap()) != n {
			rt.Fatalf("the keys of a map of %d differ", n)
		}
		left := n
		keep := r.N(5) * 1000
		for i := range n {
			k := i * 7919 % n
			if n%7919 == 0 {
				k = i
			}
			if n > 80000 {
				k = n - 1 - i
			}
			if k < keep {
				continue
			}
			if v, ok := l.Get(key(k)); !ok || v != k && v != -1 {
				rt.Fatalf("Get of key %d of %d = %d %v", k, n, v, ok)
			}
			if !l.Del(key(k)) || l.Del(key(k)) {
				rt.Fatalf("Del of key %d of %d failed, or succeeded twice", k, n)
			}
			left--
			if l.Len() != left {
				rt.Fatalf("Len = %d with %d keys left", l.Len(), left)
			}
		}
		if len(l.Keys()) != keep {
			rt.Fatalf("%d keys, %d are left", len(l.Keys()), keep)
		}
	})
}
