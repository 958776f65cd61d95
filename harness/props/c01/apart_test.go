package c01

import (
	"fmt"
	"slices"
	"testing"

	"github.com/unsafe-risk/utilx/algox/sortx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

// Several goroutines with slices of their own do not disturb each other.
func TestRaceApart(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 150, Thorough: 6000, Rule: conc.ApartRule}, func(rt *rapid.T, c *pbt.Case) {
		conc.ApartShared(rt, c, 400, func(r *gen.Rand, n int) ([]int, error) {
			s := make([][2]int, n)
			a := make([]int, n)
			for i := range s {
				s[i] = [2]int{r.N(1 + n/2), i}
				a[i] = s[i][0]
			}
			b := slices.Clone(a)
			want := slices.Clone(a)
			slices.Sort(want)
			back := slices.Clone(want)
			slices.Reverse(back)
			sortx.SortStableCustom(s, func(i, j [2]int) bool { return i[0] < j[0] })
			for i := range s {
				if s[i][0] != want[i] || i > 0 && s[i-1][0] == s[i][0] && s[i-1][1] > s[i][1] {
					return nil, fmt.Errorf("SortStableCustom of %d elements is wrong at %d", n, i)
				}
			}
			switch r.N(3) {
			case 0:
				sortx.Sort(a, false)
				sortx.Sort(b, true)
			case 1:
				sortx.SortStable(a)
				sortx.SortStableReverse(b)
			case 2:
				sortx.SortCustom(a, func(i, j int) bool { return i < j })
				sortx.SortReverse(b)
			}
			if !slices.Equal(a, want) || !slices.Equal(b, back) {
				return nil, fmt.Errorf("a sort of %d elements is wrong", n)
			}
			return a, nil
		}, func(s []int, r *gen.Rand) error {
			if !sortx.IsSorted(s) || sortx.IsSortedReverse(s) != (s[0] == s[len(s)-1]) || !sortx.IsSortedCustom(s, func(i, j int) bool { return i < j }) {
				return fmt.Errorf("a sorted slice of %d elements is taken for unsorted, or the other way", len(s))
			}
			return nil
		})
	})
}
