package c13

import (
	"fmt"
	"testing"

	"github.com/unsafe-risk/utilx/dsx"
	"github.com/unsafe-risk/utilx/dsx/linkedx/queuex"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

// Several goroutines with queues of their own do not disturb each other.
func TestRaceApart(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 200, Thorough: 8000, Rule: conc.ApartRule}, func(rt *rapid.T, c *pbt.Case) {
		conc.Apart(rt, c, 600, func(r *gen.Rand, n int) (dsx.Queue[int], error) {
			q, m := dsx.Queue[int](queuex.New[int]()), []int(nil)
			for i := range n {
				if r.N(5) < 3 {
					if ok := q.Enqueue(i); ok != true {
						return nil, fmt.Errorf("Enqueue with %d held gives %v", len(m), ok)
					} else if ok {
						m = append(m, i)
					}
					continue
				}
				v, ok := q.Dequeue()
				if ok != (len(m) > 0) || ok && v != m[0] {
					return nil, fmt.Errorf("Dequeue with %d held gives %d %v", len(m), v, ok)
				}
				if ok {
					m = m[1:]
				}
			}
			for len(m) > 1 {
				if v, ok := q.Dequeue(); !ok || v != m[0] {
					return nil, fmt.Errorf("Dequeue gives %d %v, want %d", v, ok, m[0])
				}
				m = m[1:]
			}
			if len(m) == 0 {
				q.Enqueue(7)
			}
			return q, nil
		}, func(q dsx.Queue[int], r *gen.Rand) error {
			if _, ok := q.Peek(); !ok || q.IsEmpty() {
				return fmt.Errorf("the one element is not there")
			}
			return nil
		})
	})
}
