package c02

import (
	"cmp"
	"fmt"
	"slices"
	"testing"

	"github.com/unsafe-risk/utilx/algox/searchx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

// Several goroutines with slices of their own do not disturb each other.
func TestRaceApart(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 300, Thorough: 10000, Rule: conc.ApartRule}, func(rt *rapid.T, c *pbt.Case) {
		conc.ApartShared(rt, c, 400, func(r *gen.Rand, n int) ([]int, error) {
			s := make([]int, n)
			for i := 1; i < n; i++ {
				s[i] = s[i-1] + r.N(3)
			}
			for range 20 {
				x := r.N(2*n+2) - 1
				i, ok := searchx.Search(s, x)
				if j, found := slices.BinarySearch(s, x); i != j || ok != found {
					return nil, fmt.Errorf("Search for %d gives %d %v, want %d %v", x, i, ok, j, found)
				}
			}
			return s, nil
		}, func(s []int, r *gen.Rand) error {
			x := r.N(2*len(s)+2) - 1
			i, ok := searchx.SearchCustom(s, x, cmp.Compare[int])
			if j, found := slices.BinarySearch(s, x); i != j || ok != found {
				return fmt.Errorf("SearchCustom for %d gives %d %v, want %d %v", x, i, ok, j, found)
			}
			return nil
		})
	})
}
