package c20

import (
	"fmt"
	"slices"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/slicex"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/models/slicem"
	"verif.local/harness/pbt"
)

// Several goroutines with slices of their own do not disturb each other.
func TestRaceApart(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 300, Thorough: 10000, Rule: conc.ApartRule}, func(rt *rapid.T, c *pbt.Case) {
		conc.ApartShared(rt, c, 300, func(r *gen.Rand, n int) (*slicex.Slice[int], error) {
			m := make([]int, n)
			for i := range m {
				m[i] = i
			}
			s := slicex.New(slices.Clone(m)...)
			k := r.N(3*n) - n
			s.Rotate(k)
			m = slicem.Rotate(m, k)
			s.Reverse()
			m = slicem.Reverse(m)
			if !slices.Equal(*s, m) {
				return nil, fmt.Errorf("Rotate(%d) and Reverse of %d elements give %v", k, n, *s)
			}
			odd := func(i int) bool { return i%2 == 1 }
			s.Filter(odd)
			m = slices.DeleteFunc(m, func(i int) bool { return !odd(i) })
			s.Repeat(3)
			m = slices.Concat(m, m, m)
			if !slices.Equal(*s, m) {
				return nil, fmt.Errorf("Filter and Repeat of %d elements give %v", n, *s)
			}
			s.Shuffle()
			slices.Sort(m)
			if got := slices.Sorted(slices.Values(*s)); !slices.Equal(got, m) {
				return nil, fmt.Errorf("Shuffle of %v gives %v", m, *s)
			}
			return s, nil
		}, func(s *slicex.Slice[int], r *gen.Rand) error {
			var seen []int
			text := ""
			s.ForEach(func(i, v int) {
				if i > 0 {
					text += ";"
				}
				text += fmt.Sprint(v)
				seen = append(seen, v)
			})
			if got := s.Join(";"); !slices.Equal(seen, *s) || got != text {
				return fmt.Errorf("ForEach gives %v, Join %q for %v", seen, got, *s)
			}
			if len(seen) > 0 {
				x := seen[r.N(len(seen))]
				is := func(i int) bool { return i == x }
				if i := s.IndexOf(is); i != slices.Index(seen, x) || !s.Contains(is) {
					return fmt.Errorf("%d is found at %d in %v", x, i, seen)
				}
			}
			return nil
		})
	})
}
