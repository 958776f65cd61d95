package c35

import (
	"runtime"
	"testing"
	"testing/synctest"
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
	"pgregory.net/rapid"
	"verif.local/harness/pbt"
	"verif.local/harness/vsched"
)

// A worker whose handler ends its goroutine is gone, and everything else stays right.
func TestCut(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 3000, Thorough: 100000, Rule: "pools of 1..6 workers with up to 40 tasks, some of which end their goroutine, then a pause or a stop; non-trivial: a task that did"}, func(rt *rapid.T, c *pbt.Case) {
		type task struct {
			d    time.Duration
			exit bool
		}
		limit := rapid.IntRange(1, 6).Draw(rt, "max")
		idle := time.Duration(rapid.SampledFrom([]int{1, 20, 300}).Draw(rt, "idle"))
		gc := time.Duration(rapid.SampledFrom([]int{1, 7, 100}).Draw(rt, "gc"))
		preheat := rapid.IntRange(0, 4).Draw(rt, "preheat")
		tasks := rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) task {
			return task{time.Duration(rapid.SampledFrom([]int{0, 1, 5, 40}).Draw(rt, "work")), rapid.IntRange(0, 2).Draw(rt, "exit") == 0}
		}), 1, 40).Draw(rt, "tasks")
		pause := rapid.SampledFrom([]int{0, 0, 1, 10}).Draw(rt, "pause")
		stop := rapid.Bool().Draw(rt, "stop")
		c.Logf("max %d idle %d gc %d preheat %d pause %d stop %v tasks %v", limit, idle, gc, preheat, pause, stop, tasks)
		vsched.Bubble(rt, func(rt *rapid.T) {
			pool, err := gopoolx.NewTimedPool(int64(limit), func(t task) {
				time.Sleep(t.d)
				if t.exit {
					runtime.Goexit()
				}
			}, idle, gc, preheat)
			if err != nil {
				rt.Fatalf("NewTimedPool: %v", err)
			}
			defer func() { // every worker ends in the bubble
				pool.Stop()
				time.Sleep(100 + idle + 2*gc)
			}()
			for _, t := range tasks {
				if pool.Run(t) {
					c.NonTrivialIf(t.exit)
				}
				if n := pool.Workers(); n < 0 || n > int64(limit) {
					rt.Fatalf("%d workers in a pool of %d", n, limit)
				}
				time.Sleep(time.Duration(pause))
			}
			if stop {
				pool.Stop()
				time.Sleep(40)
			} else {
				time.Sleep(40 + idle + 2*gc)
			}
			synctest.Wait()
			if n := pool.Workers(); n != 0 {
				rt.Fatalf("%d workers are left", n)
			}
			if !stop {
				for i := range limit {
					if !pool.Run(task{1, false}) {
						rt.Fatalf("task %d for an idle pool of %d is refused", i, limit)
					}
				}
			}
		})
	})
}
