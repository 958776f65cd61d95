package c30

import (
	"fmt"
	"io"
	"slices"
	"testing"

	"github.com/unsafe-risk/utilx/iox/usingx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/pbt"
)

// cut is a closer that ends in a drawn way.
type cut struct {
	id, how int
	err     error
	log     *[]int
}

func (c cut) Close() error {
	*c.log = append(*c.log, c.id)
	conc.End(c.how)
	return c.err
}

// Closers that panic or end their goroutine keep none of the others from being closed.
func TestCut(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 20000, Thorough: 400000, Rule: "1..12 closers which succeed, fail, panic or end their goroutine around a function that returns, panics or ends its goroutine, twice with the same runner; non-trivial: a closer that does not return is followed by another"}, func(rt *rapid.T, c *pbt.Case) {
		var log []int
		n := rapid.IntRange(1, 12).Draw(rt, "n")
		way := rapid.SampledFrom([]int{conc.Returns, conc.Returns, conc.Returns, conc.Panics, conc.Exits})
		var cs []io.Closer
		var ids, ways, ends []int // ends counts the ways
		var want []error
		ends = make([]int, 3)
		for i := range n {
			x := cut{id: i, how: way.Draw(rt, "way"), log: &log}
			if rapid.Bool().Draw(rt, "fails") {
				x.err = fmt.Errorf("closer %d", i)
			}
			c.NonTrivialIf(x.how != conc.Returns && i < n-1)
			if x.how == conc.Returns && x.err != nil {
				want = append(want, x.err)
			}
			ends[x.how]++
			cs, ids, ways = append(cs, x), append(ids, i), append(ways, x.how)
		}
		how := way.Draw(rt, "function")
		ends[how]++
		use := usingx.Close(cs...)
		c.Logf("closers %v of which %d fail, the function %s", ways, len(want), conc.Ways[how])
		for range 2 {
			log = nil
			var got []error
			was := conc.Ended(func() {
				got = use(func() {
					log = append(log, -1)
					conc.End(how)
				})
			})
			if !slices.Equal(log, append([]int{-1}, ids...)) {
				rt.Fatalf("the function (-1) and the closers ran in order %v", log)
			}
			switch {
			case ends[conc.Panics]+ends[conc.Exits] == 0:
				if was != conc.Returns || !slices.Equal(got, want) {
					rt.Fatalf("it %s with %v, want %v", conc.Ways[was], got, want)
				}
			case ends[conc.Exits] == 0 && was != conc.Panics, ends[conc.Panics] == 0 && was != conc.Exits, was == conc.Returns:
				rt.Fatalf("it %s, although %d panicked and %d ended their goroutine", conc.Ways[was], ends[conc.Panics], ends[conc.Exits])
			}
		}
	})
}
