package c15

import (
	"fmt"
	"testing"

	"github.com/unsafe-risk/utilx/dsx"
	linked "github.com/unsafe-risk/utilx/dsx/linkedx/stackx"
	"github.com/unsafe-risk/utilx/dsx/slicex/stackx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

// Several goroutines with stacks of their own do not disturb each other.
func TestRaceApart(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 200, Thorough: 8000, Rule: conc.ApartRule}, func(rt *rapid.T, c *pbt.Case) {
		conc.Apart(rt, c, 600, func(r *gen.Rand, n int) (dsx.Stack[int], error) {
			q, m := []dsx.Stack[int]{stackx.New[int](), linked.New[int]()}[r.N(2)], []int(nil)
			for i := range n {
				if r.N(5) < 3 {
					if ok := q.Push(i); ok != true {
						return nil, fmt.Errorf("Push with %d held gives %v", len(m), ok)
					} else if ok {
						m = append(m, i)
					}
					continue
				}
				v, ok := q.Pop()
				if ok != (len(m) > 0) || ok && v != m[len(m)-1] {
					return nil, fmt.Errorf("Pop with %d held gives %d %v", len(m), v, ok)
				}
				if ok {
					m = m[:len(m)-1]
				}
			}
			for len(m) > 1 {
				if v, ok := q.Pop(); !ok || v != m[len(m)-1] {
					return nil, fmt.Errorf("Pop gives %d %v, want %d", v, ok, m[len(m)-1])
				}
				m = m[:len(m)-1]
			}
			if len(m) == 0 {
				q.Push(7)
			}
			return q, nil
		}, func(q dsx.Stack[int], r *gen.Rand) error {
			if _, ok := q.Peek(); !ok || q.Len() != 1 {
				return fmt.Errorf("the one element is not there")
			}
			return nil
		})
	})
}
