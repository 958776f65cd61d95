package c41

import (
	"fmt"
	"slices"
	"testing"

	"github.com/unsafe-risk/utilx/timex/intersectionx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

// Several goroutines with intervals of their own do not disturb each other.
func TestRaceApart(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 300, Thorough: 10000, Rule: conc.ApartRule}, func(rt *rapid.T, c *pbt.Case) {
		conc.ApartShared(rt, c, 60, func(r *gen.Rand, n int) ([]iv, error) {
			s := make([]iv, 1+r.N(min(n, 14)))
			for i := range s {
				s[i] = iv{Offset: int64(r.N(30)), ConfidenceBand: int64(r.N(12))}
			}
			return s, meet(s)
		}, func(s []iv, r *gen.Rand) error { return meet(s) })
	})
}

func meet(s []iv) error {
	keep := slices.Clone(s)
	l, u, ok := intersectionx.Intersection(s...)
	wl, wu, wok, _ := reference(keep)
	if ok != wok || ok && (l != wl || u != wu) {
		return fmt.Errorf("the intersection of %v is %d..%d %v, want %d..%d %v", keep, l, u, ok, wl, wu, wok)
	}
	if !slices.Equal(s, keep) {
		return fmt.Errorf("the intersection of %v changed its arguments", keep)
	}
	return nil
}
