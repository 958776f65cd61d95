package c23

import (
	"maps"
	"slices"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/pbt"
)

// A callback that panics or ends its goroutine ends its Range and nothing else.
func TestCut(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 4000, Thorough: 150000, Rule: "sets and deletes in between ranges whose callback overwrites and deletes entries and returns, stops, panics or ends its goroutine at a drawn entry; non-trivial: it panicked or ended its goroutine"}, func(rt *rapid.T, c *pbt.Case) {
		m := ordmapx.New[int, int]()
		ref := map[int]int{}
		next := 0
		key := rapid.IntRange(0, 30)
		set := func(k int) {
			next++
			m.Set(k, next)
			ref[k] = next
		}
		del := func(k int) {
			m.Del(k)
			delete(ref, k)
		}
		check := func() {
			keys := slices.Sorted(maps.Keys(ref))
			if got := m.Keys(); !slices.Equal(got, keys) || m.Len() != len(keys) {
				rt.Fatalf("keys %v (length %d), want %v", got, m.Len(), keys)
			}
			vs := m.Values()
			for i, k := range keys {
				if v, ok := m.Get(k); !ok || v != ref[k] || vs[i] != v {
					rt.Fatalf("key %d has %d %v, in the list of values %d, want %d", k, v, ok, vs[i], ref[k])
				}
			}
		}
		for k := rapid.IntRange(1, 10).Draw(rt, "rounds"); k > 0; k-- {
			for e := rapid.IntRange(0, 12).Draw(rt, "edits"); e > 0; e-- {
				if rapid.IntRange(0, 2).Draw(rt, "op") > 0 {
					set(key.Draw(rt, "key"))
				} else {
					del(key.Draw(rt, "key"))
				}
			}
			keys := slices.Sorted(maps.Keys(ref))
			at := rapid.IntRange(0, len(keys)).Draw(rt, "end at")
			how := rapid.IntRange(0, 3).Draw(rt, "how")
			edit := rapid.IntRange(0, 2).Draw(rt, "edit")
			depth := rapid.IntRange(0, 1).Draw(rt, "inner")
			seen := 0
			c.Logf("%d entries, callback %d at %d, edit %d", len(keys), how, at, edit)
			was := conc.Ended(func() {
				m.Range(func(k, v int) bool {
					if k != keys[seen] || v != ref[k] {
						rt.Errorf("entry %d is %d: %d, want %d: %d", seen, k, v, keys[seen], ref[keys[seen]])
					}
					switch edit {
					case 1:
						set(k)
					case 2:
						del(k)
					}
					seen++
					if seen-1 == at {
						if how == 3 {
							return true
						}
						if depth == 1 && m.Len() > 0 {
							m.Range(func(int, int) bool { conc.End(how); return true })
						}
						conc.End(how)
					}
					return false
				})
			})
			want := len(keys)
			if at < len(keys) && how != conc.Returns {
				want = at + 1
			}
			if seen != want || was == conc.Returns != (how == conc.Returns || how == 3 || at == len(keys)) {
				rt.Fatalf("%d of %d entries visited, want %d; Range %s", seen, len(keys), want, conc.Ways[was])
			}
			c.NonTrivialIf(was != conc.Returns)
			check()
		}
		for _, k := range slices.Collect(maps.Keys(ref)) {
			del(k)
		}
		check()
		set(3)
		check()
	})
}
