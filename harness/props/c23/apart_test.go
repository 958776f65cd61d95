package c23

import (
	"fmt"
	"maps"
	"slices"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

// Several goroutines with maps of their own do not disturb each other.
func TestRaceApart(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 200, Thorough: 8000, Rule: conc.ApartRule}, func(rt *rapid.T, c *pbt.Case) {
		conc.Apart(rt, c, 400, func(r *gen.Rand, n int) (*ordmapx.OrdMap[int, int], error) {
			l, m := ordmapx.New[int, int](), map[int]int{}
			for i := range n {
				k := r.N(1 + n)
				if r.N(4) == 0 {
					l.Del(k)
					delete(m, k)
				} else {
					l.Set(k, i)
					m[k] = i
				}
			}
			if keys := slices.Sorted(maps.Keys(m)); !slices.Equal(l.Keys(), keys) || l.Len() != len(m) {
				return nil, fmt.Errorf("the keys are %v, want %v", l.Keys(), keys)
			}
			for k, v := range m {
				if got, ok := l.Get(k); !ok || got != v {
					return nil, fmt.Errorf("Get(%d) gives %d %v, want %d", k, got, ok, v)
				}
			}
			return l, nil
		}, func(l *ordmapx.OrdMap[int, int], r *gen.Rand) error {
			keys, vals, i := l.Keys(), l.Values(), 0
			bad := error(nil)
			l.Range(func(k, v int) bool {
				if w, ok := l.Get(k); k != keys[i] || v != vals[i] || !ok || w != v {
					bad = fmt.Errorf("Range gives %d %d, want %d %d", k, v, keys[i], vals[i])
				}
				i++
				return bad != nil // stop
			})
			if bad == nil && (i != len(keys) || l.Len() != i) {
				bad = fmt.Errorf("Range visits %d of %d entries", i, len(keys))
			}
			return bad
		})
	})
}
