package c24

import (
	"sync/atomic"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/pbt"
)

var unhashable = []any{[]int{1}, map[int]int{}, func() {}, struct{ x any }{[]int{}}, [1]any{map[string]int{}}, [][]string(nil)}

// A key that cannot be hashed panics, as with any map, and leaves the map in working order.
func TestCut(t *testing.T) { cuts(t, 3000) }

func TestRaceCut(t *testing.T) { cuts(t, 800) }

func cuts(t *testing.T, quick int) {
	pbt.Check(t, pbt.Opts{Quick: quick, Thorough: 20 * quick, Rule: "1..4 goroutines with operations on keys of their own in a map of interface keys, some of them keys that cannot be hashed; non-trivial: such a key"}, func(rt *rapid.T, c *pbt.Case) {
		m := syncmapx.New[any, int]()
		type step struct{ op, key, bad int }
		progs := rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) step {
			return step{rapid.IntRange(0, 4).Draw(rt, "op"), rapid.IntRange(0, 5).Draw(rt, "key"), rapid.IntRange(-2*len(unhashable), len(unhashable)-1).Draw(rt, "bad")}
		}), 1, 20), 1, 4).Draw(rt, "steps")
		c.Logf("%v", progs)
		var errs conc.Errs
		var fs []func()
		var total atomic.Int64
		for g, p := range progs {
			fs = append(fs, func() {
				own := map[int]int{}
				for i, s := range p {
					k := any(100*g + s.key)
					if s.bad >= 0 {
						func() {
							defer func() { recover() }()
							switch s.op {
							case 0:
								m.Get(unhashable[s.bad])
							case 1:
								m.Has(unhashable[s.bad])
							case 2:
								m.Delete(unhashable[s.bad])
							default:
								m.Set(unhashable[s.bad], 1)
							}
						}()
						continue
					}
					switch s.op {
					case 0:
						if v := m.Get(k); v != own[s.key] {
							errs.Addf("Get(%v) gives %d, want %d", k, v, own[s.key])
						}
					case 1:
						if _, ok := own[s.key]; m.Has(k) != ok {
							errs.Addf("Has(%v) gives %v", k, !ok)
						}
					case 2:
						m.Delete(k)
						delete(own, s.key)
					default:
						m.Set(k, i+1)
						own[s.key] = i + 1
					}
				}
				total.Add(int64(len(own)))
			})
			for _, s := range p {
				c.NonTrivialIf(s.bad >= 0)
			}
		}
		var done atomic.Bool
		go func() {
			conc.Par(fs...)
			if n := m.Size(); n != int(total.Load()) || len(m.Keys()) != n {
				errs.Addf("%d keys are left, want %d", n, total.Load())
			}
			done.Store(true)
		}()
		if !conc.Await(done.Load) {
			rt.Fatalf("the map is blocked")
		}
		errs.Check(rt)
	})
}
