package c21

import (
	"cmp"
	"fmt"
	"math"
	"slices"
	"strings"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

// TestNaN: NaN is one key, whatever its bits, and comes first.
func TestNaN(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6000, Thorough: 150000, Rule: "float maps with NaN of several bit patterns, infinities and both zeros among the keys, through sets, deletes, gets and clears against a sorted list of pairs; " +
		"non-trivial: NaN was set while other keys were there, and a key was set while NaN was there"}, func(rt *rapid.T, c *pbt.Case) {
		type pair struct {
			k float64
			v int
		}
		var m []pair
		l := sklmapx.New[float64, int]()
		find := func(k float64) (int, bool) {
			return slices.BinarySearchFunc(m, k, func(p pair, k float64) int { return cmp.Compare(p.k, k) })
		}
		same := func(a, b float64) bool { return cmp.Compare(a, b) == 0 }
		r := gen.NewRand(rt, "seed")
		space := rapid.SampledFrom([]int{1, 4, 40}).Draw(rt, "space")
		c.Logf("space=%d seed=%x", space, uint64(*r))
		key := func() float64 {
			switch r.N(5) {
			case 0:
				return math.Float64frombits(math.Float64bits(math.NaN()) + uint64(r.N(4))<<44 + uint64(r.N(2))<<63)
			case 1:
				return [...]float64{math.Inf(-1), math.Inf(1), math.Copysign(0, -1), 0}[r.N(4)]
			}
			return float64(r.N(2*space) - space)
		}
		w := gen.NewWatch(rt)
		late, early := false, false
		for i := range rapid.IntRange(1, 80).Draw(rt, "ops") {
			k := key()
			at, has := find(k)
			switch op := r.N(10); op {
			case 0, 1, 2, 3, 4:
				c.Logf("set %v", k)
				l.Set(k, i)
				if has {
					m[at].v = i
				} else {
					late = late || k != k && len(m) > 0
					early = early || k == k && len(m) > 0 && m[0].k != m[0].k
					m = slices.Insert(m, at, pair{k, i})
				}
			case 5, 6:
				c.Logf("del %v", k)
				if l.Del(k) != has {
					rt.Fatalf("Del(%v) is not %v", k, has)
				}
				if has {
					m = slices.Delete(m, at, at+1)
				}
			case 7, 8:
				v, ok := l.Get(k)
				if ok != has || has && v != m[at].v || !has && v != 0 {
					rt.Fatalf("Get(%v) = %v %v in %v", k, v, ok, m)
				}
			default:
				if r.N(6) == 0 {
					c.Logf("clear")
					l.Clear()
					m = nil
				}
			}
			if w.Now() {
				looked(rt, l, len(m), func(i int) (float64, int) { return m[i].k, m[i].v }, same)
			}
		}
		c.NonTrivialIf(late && early)
		looked(rt, l, len(m), func(i int) (float64, int) { return m[i].k, m[i].v }, same)
		for range 10 {
			k := key()
			at, has := find(k)
			if v, ok := l.Get(k); ok != has || has && v != m[at].v {
				rt.Fatalf("Get(%v) = %v %v in %v", k, v, ok, m)
			}
		}
	})
}

func looked(rt *rapid.T, l *sklmapx.SkipListMap[float64, int], n int, at func(int) (float64, int), same func(a, b float64) bool) {
	keys, values := l.Keys(), l.Values()
	if l.Len() != n || len(keys) != n || len(values) != n {
		rt.Fatalf("%d entries: Len = %d, %d keys, %d values", n, l.Len(), len(keys), len(values))
	}
	var b strings.Builder
	b.WriteString("sklmapx[")
	for i := range n {
		k, v := at(i)
		if !same(keys[i], k) || values[i] != v {
			rt.Fatalf("entry %d is %v:%v, want %v:%v", i, keys[i], values[i], k, v)
		}
		if i > 0 {
			b.WriteByte(' ')
		}
		fmt.Fprintf(&b, "%v:%v", keys[i], v)
	}
	b.WriteByte(']')
	if got := l.String(); got != b.String() {
		rt.Fatalf("String = %q, want %q", got, b.String())
	}
	if got := len(l.ToMap()); got != n {
		rt.Fatalf("ToMap has %d of %d entries", got, n)
	}
}
