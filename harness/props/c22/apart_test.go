package c22

import (
	"fmt"
	"maps"
	"slices"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

// Several goroutines with maps of their own do not disturb each other.
func TestRaceApart(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 200, Thorough: 8000, Rule: conc.ApartRule}, func(rt *rapid.T, c *pbt.Case) {
		conc.Apart(rt, c, 400, func(r *gen.Rand, n int) (*sklmapx.SkipListMap[int, int], error) {
			l, m := sklmapx.New[int, int](), map[int]int{}
			for i := range n {
				k := r.N(1 + n)
				if r.N(4) == 0 {
					l.Del(k)
					delete(m, k)
				} else {
					l.Set(k, i)
					m[k] = i
				}
			}
			it := l.Iterator()
			for range 2 {
				for _, w := range slices.Sorted(maps.Keys(m)) {
					if k, v, ok := it.Next(); !ok || k != w || v != m[w] {
						return nil, fmt.Errorf("Next gives %d %d %v, want %d %d", k, v, ok, w, m[w])
					}
				}
				if k, _, ok := it.Next(); ok {
					return nil, fmt.Errorf("Next gives %d behind the last entry", k)
				}
				it.Rewind()
			}
			return l, nil
		}, func(l *sklmapx.SkipListMap[int, int], r *gen.Rand) error {
			keys, it, i := l.Keys(), l.Iterator(), 0
			if len(keys) > 0 {
				i = r.N(len(keys))
				if k, v, ok := it.Seek(keys[i]); !ok || k != keys[i] || !is(l, k, v) {
					return fmt.Errorf("Seek(%d) gives %d %v", keys[i], v, ok)
				}
				i++
			}
			for ; i < len(keys); i++ {
				if k, v, ok := it.Next(); !ok || k != keys[i] || !is(l, k, v) {
					return fmt.Errorf("Next gives %d %d %v, want %d", k, v, ok, keys[i])
				}
			}
			if k, _, ok := it.Next(); ok {
				return fmt.Errorf("Next gives %d behind the last entry", k)
			}
			return nil
		})
	})
}

func is(l *sklmapx.SkipListMap[int, int], k, v int) bool {
	w, ok := l.Get(k)
	return ok && v == w
}
