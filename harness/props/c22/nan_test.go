package c22

import (
	"cmp"
	"math"
	"slices"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

// TestNaN: iterators meet NaN first, and find it when they seek it.
func TestNaN(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6000, Thorough: 150000, Rule: "an iterator advanced, rewound and sought over a float map with NaN among the keys, while keys come and go; " +
		"non-trivial: NaN was returned or sought with other keys present"}, func(rt *rapid.T, c *pbt.Case) {
		var keys []float64
		vals := map[float64]int{} // NaN goes by -1000
		norm := func(k float64) float64 {
			if k != k {
				return -1000
			}
			return k
		}
		l := sklmapx.New[float64, int]()
		r := gen.NewRand(rt, "seed")
		c.Logf("seed=%x", uint64(*r))
		key := func() float64 {
			switch r.N(4) {
			case 0:
				return math.Float64frombits(math.Float64bits(math.NaN()) + uint64(r.N(4))<<44 + uint64(r.N(2))<<63)
			case 1:
				return [...]float64{math.Inf(-1), math.Inf(1), math.Copysign(0, -1), 0}[r.N(4)]
			}
			return float64(r.N(16) - 8)
		}
		it := l.Iterator()
		state, cur := start, 0.0
		for i := range rapid.IntRange(1, 100).Draw(rt, "ops") {
			switch r.N(8) {
			case 0, 1:
				k := key()
				c.Logf("set %v", k)
				l.Set(k, i)
				if at, has := slices.BinarySearch(keys, k); !has {
					keys = slices.Insert(keys, at, k)
				}
				vals[norm(k)] = i
			case 2:
				k := key()
				if state == at && r.N(2) == 0 {
					k = cur
				}
				c.Logf("del %v", k)
				at, has := slices.BinarySearch(keys, k)
				if l.Del(k) != has {
					rt.Fatalf("Del(%v) is not %v", k, has)
				}
				if has {
					keys = slices.Delete(keys, at, at+1)
				}
			case 3:
				k := key()
				c.Logf("seek %v", k)
				_, has := slices.BinarySearch(keys, k)
				gk, gv, ok := it.Seek(k)
				if ok != has || has && (cmp.Compare(gk, k) != 0 || gv != vals[norm(k)]) {
					rt.Fatalf("Seek(%v) = %v %v %v among %v", k, gk, gv, ok, keys)
				}
				if has {
					state, cur = at, k
					c.NonTrivialIf(k != k && len(keys) > 1)
				} else {
					state = lost
				}
			case 4:
				if r.N(2) == 0 {
					c.Logf("rewind")
					it.Rewind()
					state = start
				}
			default:
				if state == lost {
					continue
				}
				c.Logf("next")
				k, v, ok := it.Next()
				x := 0
				switch state {
				case at:
					i, has := slices.BinarySearch(keys, cur)
					if x = i; has {
						x++
					}
				case end:
					x = len(keys)
				}
				if ok != (x < len(keys)) || ok && (cmp.Compare(k, keys[x]) != 0 || v != vals[norm(keys[x])]) {
					rt.Fatalf("Next = %v %v %v, want number %d of %v", k, v, ok, x, keys)
				}
				if ok {
					state, cur = at, keys[x]
					c.NonTrivialIf(k != k && len(keys) > 1)
				} else {
					state = end
				}
			}
		}
	})
}
