package c42

import (
	"fmt"
	"strconv"
	"testing"

	"github.com/unsafe-risk/utilx/typex/convx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

// Several goroutines with values of their own do not disturb each other.
func TestRaceApart(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 300, Thorough: 10000, Rule: conc.ApartRule}, func(rt *rapid.T, c *pbt.Case) {
		conc.ApartShared(rt, c, 200, func(r *gen.Rand, n int) (int, error) {
			for range n {
				if err := trip(int(r.Uint64())>>r.N(64), r); err != nil {
					return 0, err
				}
			}
			return int(r.Uint64()), nil
		}, func(i int, r *gen.Rand) error { return trip(i, r) })
	})
}

func trip(i int, r *gen.Rand) error {
	text := strconv.Itoa(i)
	s, ok := convx.Into[int, string](i)
	if !ok || s != text {
		return fmt.Errorf("%d as text is %q %v", i, s, ok)
	}
	if k, ok := convx.Into[string, int](s); !ok || k != i {
		return fmt.Errorf("%q as a number is %d %v", s, k, ok)
	}
	b, ok := convx.Into[string, []byte](s)
	if !ok || string(b) != s {
		return fmt.Errorf("%q as bytes is %q %v", s, b, ok)
	}
	clear(b)
	u, ok := convx.Into[int, uint16](i)
	if !ok || u != uint16(i) {
		return fmt.Errorf("%d as uint16 is %d %v", i, u, ok)
	}
	if f := convx.IntoOr[int, float64](i, -1); f != float64(i) {
		return fmt.Errorf("%d as float64 is %v", i, f)
	}
	if q, ok := convx.Into[string, []rune](s); !ok || string(q) != s || s != text {
		return fmt.Errorf("%q as runes is %q %v", s, string(q), ok)
	}
	return nil
}
