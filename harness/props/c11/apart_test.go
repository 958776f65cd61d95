package c11

import (
	"fmt"
	"testing"

	"github.com/unsafe-risk/utilx/dsx"
	"github.com/unsafe-risk/utilx/dsx/linkedx/dequex"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

// Several goroutines with deques of their own do not disturb each other.
func TestRaceApart(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 150, Thorough: 6000, Rule: conc.ApartRule}, func(rt *rapid.T, c *pbt.Case) {
		conc.Apart(rt, c, 600, func(r *gen.Rand, n int) (dsx.Deque[int], error) {
			d, m := dsx.Deque[int](dequex.New[int]()), []int(nil)
			front := r.N(2) == 0
			for i := range n {
				switch r.N(10) {
				case 0:
					front = !front
				case 1, 2:
					for range r.N(80) {
						if len(m) == 0 {
							break
						}
						want, pop := m[0], d.PopFront
						if front {
							m = m[1:]
						} else {
							want, pop = m[len(m)-1], d.PopBack
							m = m[:len(m)-1]
						}
						if v, ok := pop(); !ok || v != want {
							return nil, fmt.Errorf("a pop gives %d %v, want %d", v, ok, want)
						}
					}
				case 3, 4, 5, 6:
					d.PushFront(i)
					m = append([]int{i}, m...)
				default:
					d.PushBack(i)
					m = append(m[:len(m):len(m)], i)
				}
			}
			for range len(m) - 1 {
				if v, ok := d.PopFront(); !ok || v != m[0] {
					return nil, fmt.Errorf("PopFront gives %d %v, want %d", v, ok, m[0])
				}
				m = m[1:]
			}
			return d, nil
		}, func(d dsx.Deque[int], r *gen.Rand) error {
			v, ok := d.PeekFront()
			if w, wok := d.PeekBack(); v != w || ok != wok {
				return fmt.Errorf("the one element is %d %v in front and %d %v behind", v, ok, w, wok)
			}
			return nil
		})
	})
}
