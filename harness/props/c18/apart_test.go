package c18

import (
	"fmt"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/slicex"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

// Several goroutines with slices of their own do not disturb each other.
func TestRaceApart(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 300, Thorough: 10000, Rule: conc.ApartRule}, func(rt *rapid.T, c *pbt.Case) {
		conc.ApartShared(rt, c, 400, func(r *gen.Rand, n int) (slicex.Slice[int], error) {
			s := make(slicex.Slice[int], n)
			for i := range s {
				s[i] = i
			}
			return s, parted(s, r)
		}, func(s slicex.Slice[int], r *gen.Rand) error { return parted(s, r) })
	})
}

func parted(s slicex.Slice[int], r *gen.Rand) error {
	size := 1 + r.N(len(s))
	at := 0
	for _, p := range s.Batch(size) {
		if len(p) != min(size, len(s)-at) || p[0] != at || p[len(p)-1] != at+len(p)-1 {
			return fmt.Errorf("Batch(%d) of %d elements gives %v at %d", size, len(s), p, at)
		}
		at += len(p)
	}
	if at != len(s) {
		return fmt.Errorf("Batch(%d) of %d elements ends at %d", size, len(s), at)
	}
	at = 0
	for i, p := range s.Split(size, 1, len(s)/3) {
		want := min([]int{size, 1, len(s) / 3, len(s)}[i], len(s)-at)
		if len(p) != want || want > 0 && (p[0] != at || p[want-1] != at+want-1) {
			return fmt.Errorf("part %d of Split(%d,1,%d) of %d elements is %v", i, size, len(s)/3, len(s), p)
		}
		at += len(p)
	}
	if at != len(s) {
		return fmt.Errorf("Split(%d,1,%d) of %d elements ends at %d", size, len(s)/3, len(s), at)
	}
	return nil
}
