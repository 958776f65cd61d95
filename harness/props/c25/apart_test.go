package c25

import (
	"fmt"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/setx/bitsetx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

// Several goroutines with sets of their own do not disturb each other.
func TestRaceApart(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 300, Thorough: 8000, Rule: conc.ApartRule}, func(rt *rapid.T, c *pbt.Case) {
		conc.Apart(rt, c, 200, func(r *gen.Rand, n int) (*bitsetx.BitSet[uint64], error) {
			b, m := &bitsetx.BitSet[uint64]{}, uint64(0)
			for range n {
				i, j := r.N(64), r.N(64)
				switch r.N(5) {
				case 0, 1:
					b.Set(i, j)
					m |= 1<<i | 1<<j
				case 2:
					b.Clear(i, j)
					m &^= 1<<i | 1<<j
				case 3:
					b.Toggle(i)
					m ^= 1 << i
				case 4:
					b.ToggleAll()
					m = ^m
				}
				if b.Test(i, j) != (m>>i&1|m>>j&1 != 0) || b.IsEmpty() != (m == 0) {
					return nil, fmt.Errorf("%x is not what the set holds", m)
				}
			}
			b.Set(5)
			b.Clear(6)
			return b, nil
		}, func(b *bitsetx.BitSet[uint64], r *gen.Rand) error {
			if !b.Test(5) || b.Test(6) || b.IsEmpty() || b.IsFull() || !b.Test(6, 5) {
				return fmt.Errorf("the set does not hold 5, or holds 6")
			}
			return nil
		})
	})
}
