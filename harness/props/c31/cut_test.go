package c31

import (
	"fmt"
	"slices"
	"testing"

	"github.com/unsafe-risk/utilx/iox/managerx/closex"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/pbt"
)

type closeFunc func() error

func (f closeFunc) Close() error { return f() }

// A closer that panics or ends its goroutine keeps none of the others from being closed
// and leaves the manager in working order.
func TestCut(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6000, Thorough: 200000, Rule: "1..4 rounds of appends and a close, in which a drawn closer panics or ends its goroutine the first time it is closed, then one more; non-trivial: one did so"}, func(rt *rapid.T, c *pbt.Case) {
		m := closex.New()
		total := 0
		var closed []int
		var failed []error
		add := func(how int, fails bool) {
			id := total
			total++
			m.Append(closeFunc(func() error {
				closed = append(closed, id)
				h := how
				how = conc.Returns
				conc.End(h)
				if fails {
					err := fmt.Errorf("closer %d failed", id)
					failed = append(failed, err)
					return err
				}
				return nil
			}))
		}
		for k := rapid.IntRange(1, 4).Draw(rt, "rounds"); k > 0; k-- {
			for n := rapid.IntRange(0, 6).Draw(rt, "closers"); n > 0; n-- {
				add(rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(rt, "how"), rapid.IntRange(0, 3).Draw(rt, "fails") == 0)
			}
			closed = nil
			was := conc.Ended(func() { m.Close() })
			if len(closed) != total || !slices.IsSorted(closed) {
				rt.Fatalf("closed %v of %d closers, the close %s", closed, total, conc.Ways[was])
			}
			c.Logf("%d closers, close %s", total, conc.Ways[was])
			c.NonTrivialIf(was != conc.Returns)
		}
		for n := rapid.IntRange(1, 6).Draw(rt, "more"); n > 0; n-- {
			add(conc.Returns, rapid.Bool().Draw(rt, "fails"))
		}
		closed, failed = nil, nil
		err := m.Close()
		if len(closed) != total || !slices.IsSorted(closed) {
			rt.Fatalf("closed %v of %d", closed, total)
		}
		judge(rt, err, failed)
	})
}
