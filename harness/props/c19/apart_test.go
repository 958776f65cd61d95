package c19

import (
	"fmt"
	"slices"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/slicex"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/models/slicem"
	"verif.local/harness/pbt"
)

// Several goroutines with slices of their own do not disturb each other.
func TestRaceApart(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 300, Thorough: 10000, Rule: conc.ApartRule}, func(rt *rapid.T, c *pbt.Case) {
		conc.ApartShared(rt, c, 300, func(r *gen.Rand, n int) (*slicex.Slice[int], error) {
			m := make([]int, n)
			for i := range m {
				m[i] = i
			}
			s := slicex.New(slices.Clone(m)...)
			cp := s.Copy()
			args := make([]int, 1+r.N(40), 100)
			keep := slices.Clone(args[:100])
			i := r.N(n + 1)
			j := i + r.N(n+1-i)
			s.Splice(i, j, args...)
			if !slicem.Equal(*s, slicem.Splice(m, i, j, args...)) {
				return nil, fmt.Errorf("Splice(%d,%d) of %d elements is wrong", i, j, n)
			}
			if !slices.Equal(args[:100], keep) {
				return nil, fmt.Errorf("Splice(%d,%d) of %d elements changed its arguments", i, j, n)
			}
			lo := r.N(n + 1)
			hi := lo + r.N(n+1-lo)
			cp.Expand(i, (*cp)[lo:hi]...)
			if !slicem.Equal(*cp, slicem.Splice(m, i, i, m[lo:hi]...)) {
				return nil, fmt.Errorf("Expand(%d) of %d elements by its own %d:%d is wrong", i, n, lo, hi)
			}
			return cp, nil
		}, func(s *slicex.Slice[int], r *gen.Rand) error {
			cp := s.Copy()
			if !slices.Equal(*cp, *s) {
				return fmt.Errorf("the copy of %v is %v", *s, *cp)
			}
			cp.Reverse().Push(r.N(9))
			return nil
		})
	})
}
