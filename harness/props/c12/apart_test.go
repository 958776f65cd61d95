package c12

import (
	"fmt"
	"slices"
	"testing"

	"github.com/unsafe-risk/utilx/dsx"
	"github.com/unsafe-risk/utilx/dsx/linkedx/listx"
	slicelistx "github.com/unsafe-risk/utilx/dsx/slicex/listx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

// Several goroutines with lists of their own do not disturb each other.
func TestRaceApart(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 150, Thorough: 6000, Rule: conc.ApartRule}, func(rt *rapid.T, c *pbt.Case) {
		conc.Apart(rt, c, 150, func(r *gen.Rand, n int) (*lists, error) {
			l := &lists{slice: &slicelistx.List[int]{}, linked: listx.New[int]()}
			for i := range n {
				for _, x := range []dsx.List[int]{l.slice, l.linked} {
					r := *r // the same for both
					m := l.m
					switch k := r.N(len(m) + 1); r.N(8) {
					case 0, 1:
						if v, ok := x.Remove(k); ok != (k < len(m)) || ok && v != m[k] {
							return nil, fmt.Errorf("Remove(%d) of %d gives %d %v", k, len(m), v, ok)
						}
					case 2, 3, 4:
						x.Insert(k, i)
					case 5, 6:
						x.Append(i)
					}
				}
				switch k := r.N(len(l.m) + 1); r.N(8) {
				case 0, 1:
					if k < len(l.m) {
						l.m = slices.Delete(l.m, k, k+1)
					}
				case 2, 3, 4:
					l.m = slices.Insert(l.m, k, i)
				case 5, 6:
					l.m = append(l.m, i)
				}
				if err := l.look(); err != nil {
					return nil, err
				}
			}
			return l, nil
		}, func(l *lists, r *gen.Rand) error { return l.look() })
	})
}

type lists struct {
	slice, linked dsx.List[int]
	m             []int
}

func (l *lists) look() error {
	for i, x := range []dsx.List[int]{l.slice, l.linked} {
		if x.Len() != len(l.m) {
			return fmt.Errorf("list %d has %d elements, want %d", i, x.Len(), len(l.m))
		}
		k := 0
		x.Iterate(func(v int) bool {
			k++
			return k <= len(l.m) && v == l.m[k-1]
		})
		if k != len(l.m) {
			return fmt.Errorf("list %d differs at %d of %d", i, k, len(l.m))
		}
		for k := 0; k < len(l.m); k += 1 + k/3 {
			if v, ok := x.At(k); !ok || v != l.m[k] {
				return fmt.Errorf("list %d: At(%d) = %d %v, want %d", i, k, v, ok, l.m[k])
			}
		}
	}
	return nil
}
