package c31

import (
	"errors"
	"slices"
	"testing"

	"github.com/unsafe-risk/utilx/iox/managerx/closex"
	"pgregory.net/rapid"
	"verif.local/harness/pbt"
)

// Closers that append further closers while they are closed, themselves or by
// another goroutine that they wait for.
func TestInside(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 4000, Thorough: 100000, Rule: "1..6 closers of which some append up to three others while they are closed the first time, which may do the same; two closes and what they closed; non-trivial: a closer was appended while the manager closed"}, func(rt *rapid.T, c *pbt.Case) {
		m := closex.New()
		total := 0
		var closed []int
		var failed []error
		var add func(depth int)
		add = func(depth int) {
			id := total
			total++
			kids := 0
			if depth < 3 && rapid.Bool().Draw(rt, "appends") {
				kids = rapid.IntRange(1, 3).Draw(rt, "kids")
			}
			apart := rapid.Bool().Draw(rt, "apart")
			var err error
			if rapid.IntRange(0, 3).Draw(rt, "fails") == 0 {
				err = errors.New("failed")
			}
			m.Append(closeFunc(func() error {
				closed = append(closed, id)
				if err != nil {
					failed = append(failed, err)
				}
				more := func() {
					for ; kids > 0; kids-- {
						c.NonTrivial()
						add(depth + 1)
					}
				}
				if kids > 0 && apart {
					done := make(chan struct{})
					go func() {
						defer close(done)
						more()
					}()
					<-done
				} else {
					more()
				}
				return err
			}))
		}
		for n := rapid.IntRange(1, 6).Draw(rt, "closers"); n > 0; n-- {
			add(0)
		}
		for k := range 4 {
			before := total
			closed, failed = nil, nil
			err := m.Close()
			c.Logf("close %d: %v of %d, then %d", k, closed, before, total)
			if len(closed) < before || !slices.IsSorted(closed) || len(slices.Compact(slices.Clone(closed))) != len(closed) || closed[before-1] != before-1 {
				rt.Fatalf("close %d closed %v, %d had been appended before", k, closed, before)
			}
			judge(rt, err, failed)
		}
	})
}
