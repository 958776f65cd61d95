package c23

import (
	"cmp"
	"math"
	"slices"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

// TestNaN: NaN is one key, whatever its bits, and comes first.
func TestNaN(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6000, Thorough: 150000, Rule: "float maps with NaN of several bit patterns, infinities and both zeros among the keys, through sets, deletes, gets, clears and ranges that change the map, against a sorted list of pairs; " +
		"non-trivial: NaN was set while other keys were there, and a key was set while NaN was there"}, func(rt *rapid.T, c *pbt.Case) {
		type pair struct {
			k float64
			v int
		}
		var m []pair
		l := ordmapx.New[float64, int]()
		find := func(k float64) (int, bool) {
			return slices.BinarySearchFunc(m, k, func(p pair, k float64) int { return cmp.Compare(p.k, k) })
		}
		r := gen.NewRand(rt, "seed")
		space := rapid.SampledFrom([]int{1, 4, 40}).Draw(rt, "space")
		c.Logf("space=%d seed=%x", space, uint64(*r))
		key := func() float64 {
			switch r.N(5) {
			case 0:
				return math.Float64frombits(math.Float64bits(math.NaN()) + uint64(r.N(4))<<44 + uint64(r.N(2))<<63)
			case 1:
				return [...]float64{math.Inf(-1), math.Inf(1), math.Copysign(0, -1), 0}[r.N(4)]
			}
			return float64(r.N(2*space) - space)
		}
		late, early := false, false
		edit := func(i int) {
			k := key()
			at, has := find(k)
			switch op := r.N(10); op {
			case 0, 1, 2, 3, 4:
				c.Logf("set %v", k)
				l.Set(k, i)
				if has {
					m[at].v = i
				} else {
					late = late || k != k && len(m) > 0
					early = early || k == k && len(m) > 0 && m[0].k != m[0].k
					m = slices.Insert(m, at, pair{k, i})
				}
			case 5, 6:
				c.Logf("del %v", k)
				l.Del(k)
				if has {
					m = slices.Delete(m, at, at+1)
				}
			case 7, 8:
				v, ok := l.Get(k)
				if ok != has || has && v != m[at].v || !has && v != 0 {
					rt.Fatalf("Get(%v) = %v %v in %v", k, v, ok, m)
				}
			default:
				if r.N(6) == 0 {
					c.Logf("clear")
					l.Clear()
					m = nil
				}
			}
		}
		look := func() {
			keys, values := l.Keys(), l.Values()
			if l.Len() != len(m) || len(keys) != len(m) || len(values) != len(m) {
				rt.Fatalf("%d entries: Len = %d, %d keys, %d values", len(m), l.Len(), len(keys), len(values))
			}
			for i, p := range m {
				if cmp.Compare(keys[i], p.k) != 0 || values[i] != p.v {
					rt.Fatalf("entry %d is %v:%v, want %v", i, keys[i], values[i], p)
				}
			}
		}
		w := gen.NewWatch(rt)
		for i := range rapid.IntRange(1, 80).Draw(rt, "ops") {
			edit(i)
			if r.N(12) == 0 {
				c.Logf("range")
				n, left, last := 0, 1+r.N(30), math.NaN()
				l.Range(func(k float64, v int) bool {
					at := 0
					if n > 0 {
						var ok bool
						if at, ok = find(last); ok {
							at++
						}
					}
					if at >= len(m) || cmp.Compare(m[at].k, k) != 0 || m[at].v != v {
						rt.Fatalf("Range visits %v:%v at %d of %v", k, v, at, m)
					}
					n++
					last = k
					for r.N(3) == 0 {
						edit(1000*i + n)
					}
					left--
					return left == 0
				})
				if left > 0 {
					at := 0
					if n > 0 {
						var ok bool
						if at, ok = find(last); ok {
							at++
						}
					}
					if at < len(m) {
						rt.Fatalf("Range ended before visiting %v", m[at:])
					}
				}
			}
			if w.Now() {
				look()
			}
		}
		c.NonTrivialIf(late && early)
		look()
		for range 10 {
			k := key()
			at, has := find(k)
			if v, ok := l.Get(k); ok != has || has && v != m[at].v {
				rt.Fatalf("Get(%v) = %v %v in %v", k, v, ok, m)
			}
		}
	})
}
