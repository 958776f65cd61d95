package c16

import (
	"fmt"
	"slices"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/slicex"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/models/slicem"
	"verif.local/harness/pbt"
)

// Several goroutines with slices of their own do not disturb each other.
func TestRaceApart(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 200, Thorough: 8000, Rule: conc.ApartRule}, func(rt *rapid.T, c *pbt.Case) {
		conc.ApartShared(rt, c, 300, func(r *gen.Rand, n int) (*slicem.Editor, error) {
			next := n
			m := make([]int, n)
			for i := range m {
				m[i] = i
			}
			e := &slicem.Editor{S: slicex.New(slices.Clone(m)...), M: m, Next: &next, Make: gen.Number}
			for range 20 {
				o := slicem.Op{Kind: r.N(slicem.Kinds), A: r.N(1000), B: r.N(1000), N: r.N(6)}
				if d, err := e.Apply(o); err != nil {
					return nil, fmt.Errorf("%s: %v", d, err)
				}
			}
			return e, nil
		}, func(e *slicem.Editor, r *gen.Rand) error {
			i := r.N(len(e.M) + 1)
			if e.S.Get(i) != slicem.Get(e.M, i) {
				return fmt.Errorf("Get(%d) = %d, want %d", i, e.S.Get(i), slicem.Get(e.M, i))
			}
			return e.Compare()
		})
	})
}
