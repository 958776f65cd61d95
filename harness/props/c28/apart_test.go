package c28

import (
	"bytes"
	"fmt"
	"io"
	"testing"

	"github.com/unsafe-risk/utilx/iox/decouplex"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

// Several goroutines with decouplers of their own do not disturb each other.
func TestRaceApart(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 200, Thorough: 6000, Rule: conc.ApartRule}, func(rt *rapid.T, c *pbt.Case) {
		conc.Apart(rt, c, 400, func(r *gen.Rand, n int) (int, error) {
			size := 1 + r.N(20)
			drops := 0
			d := decouplex.NewDecoupler(uint64(size), func(b []byte) (int, error) {
				drops++
				return 0, io.ErrShortBuffer
			})
			var m [][]byte
			for i := range n {
				if r.N(5) < 3 {
					b := bytes.Repeat([]byte{byte(i), byte(i >> 8)}, 1+r.N(40))
					before := drops
					k, err := d.Write(b)
					if len(m) == size {
						if drops != before+1 || k != 0 || err != io.ErrShortBuffer {
							return 0, fmt.Errorf("a write to a full decoupler of %d gives %d %v and %d drops", size, k, err, drops-before)
						}
						continue
					}
					if drops != before || k != len(b) || err != nil {
						return 0, fmt.Errorf("a write with %d of %d held gives %d %v and %d drops", len(m), size, k, err, drops-before)
					}
					m = append(m, bytes.Clone(b))
					clear(b)
					continue
				}
				var got []byte
				ok := d.Next(func(b []byte) { got = bytes.Clone(b) })
				if ok != (len(m) > 0) || ok && !bytes.Equal(got, m[0]) {
					return 0, fmt.Errorf("a read with %d of %d held gives %x %v", len(m), size, got, ok)
				}
				if ok {
					m = m[1:]
				}
			}
			return size, nil
		}, func(size int, r *gen.Rand) error { return nil })
	})
}
