package c27

import (
	"fmt"
	"testing"

	"github.com/unsafe-risk/utilx/configx/optionalx"
	"github.com/unsafe-risk/utilx/functionalx/optionx"
	"github.com/unsafe-risk/utilx/functionalx/resultx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

// Several goroutines with options of their own do not disturb each other.
func TestRaceApart(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 300, Thorough: 8000, Rule: conc.ApartRule}, func(rt *rapid.T, c *pbt.Case) {
		conc.Apart(rt, c, 200, func(r *gen.Rand, n int) (optionx.Option[int], error) {
			for i := range n {
				res, some := resultx.Err[int, string](fmt.Sprint(i)), 0
				if i%2 == 0 {
					res = resultx.Ok[int, string](i)
				}
				v, e := res.Match(func(v int) (int, string) {
					if v != i || i%2 != 0 {
						some += 100
					}
					some++
					return v + 1, "ok"
				}, func(e string) (int, string) {
					if e != fmt.Sprint(i) || i%2 == 0 {
						some += 100
					}
					some++
					return i + 1, "ok"
				})
				if some != 1 || v != i+1 || e != "ok" {
					return optionx.None[int](), fmt.Errorf("the result of %d is matched wrongly", i)
				}
				add := func(k int) func(*int) *int {
					return func(p *int) *int {
						if p == nil {
							p = new(int)
						}
						*p = *p*2 + k
						return p
					}
				}
				if p := optionalx.Parameter(func(p *int) *int { return p }, add(i), add(1), add(2)); *p != 4*i+4 {
					return optionx.None[int](), fmt.Errorf("the parameters of %d give %d", i, *p)
				}
			}
			return optionx.Some(n), nil
		}, func(o optionx.Option[int], r *gen.Rand) error {
			got, err := o.Match(func(v int) (int, error) { return v, nil }, func() (int, error) { return -1, nil })
			if got < 1 || err != nil {
				return fmt.Errorf("an option matches as %d %v", got, err)
			}
			return nil
		})
	})
}
