package c12

import (
	"testing"

	linked "github.com/unsafe-risk/utilx/dsx/linkedx/listx"
	slice "github.com/unsafe-risk/utilx/dsx/slicex/listx"

	"github.com/unsafe-risk/utilx/dsx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/pbt"
)

// A callback that panics or ends its goroutine leaves the list as it is.
func TestCut(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 4000, Thorough: 150000, Rule: "appends, inserts and removals in between iterations whose callback returns, stops, panics or ends its goroutine at a drawn element; non-trivial: it panicked or ended its goroutine"}, func(rt *rapid.T, c *pbt.Case) {
		var l dsx.List[int]
		if rapid.Bool().Draw(rt, "linked") {
			l = linked.New[int]()
		} else {
			l = &slice.List[int]{}
		}
		var m []int
		next := 0
		for k := rapid.IntRange(1, 12).Draw(rt, "rounds"); k > 0; k-- {
			for e := rapid.IntRange(0, 12).Draw(rt, "edits"); e > 0; e-- {
				i := rapid.IntRange(0, len(m)).Draw(rt, "at")
				switch op := rapid.IntRange(0, 2).Draw(rt, "op"); {
				case op == 0:
					next++
					l.Append(next)
					m = append(m, next)
				case op == 1:
					next++
					l.Insert(i, next)
					m = append(m[:i:i], append([]int{next}, m[i:]...)...)
				case i < len(m):
					if v, ok := l.Remove(i); !ok || v != m[i] {
						rt.Fatalf("Remove(%d) of %d gives %d %v, want %d", i, len(m), v, ok, m[i])
					}
					m = append(m[:i:i], m[i+1:]...)
				}
			}
			at := rapid.IntRange(0, len(m)).Draw(rt, "end at")
			how := rapid.IntRange(0, 3).Draw(rt, "how")
			stop := how == 3
			seen := 0
			was := conc.Ended(func() {
				l.Iterate(func(v int) bool {
					if v != m[seen] {
						rt.Errorf("element %d of %d is %d, want %d", seen, len(m), v, m[seen])
					}
					seen++
					if seen-1 == at {
						if stop {
							return false
						}
						conc.End(how)
					}
					return true
				})
			})
			c.Logf("%d elements, callback %d at %d", len(m), how, at)
			want := len(m)
			if at < len(m) && how != conc.Returns {
				want = at + 1
			}
			if seen != want || was == conc.Returns != (how == conc.Returns || stop || at == len(m)) {
				rt.Fatalf("%d of %d elements visited, want %d; the iteration %s", seen, len(m), want, conc.Ways[was])
			}
			c.NonTrivialIf(was != conc.Returns)
		}
		if l.Len() != len(m) {
			rt.Fatalf("%d elements, want %d", l.Len(), len(m))
		}
		for i := range m {
			if v, ok := l.At(i); !ok || v != m[i] {
				rt.Fatalf("At(%d) gives %d %v, want %d", i, v, ok, m[i])
			}
		}
	})
}
