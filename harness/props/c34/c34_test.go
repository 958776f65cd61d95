package c34

import (
	"math"
	"runtime"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
	"verif.local/harness/vsched"
)

const rule = "pools of 1..6 workers with preheat counts below, at and above the limit under generated submissions, completions (some handlers end their goroutine), pauses and stops; the number of running handlers and of workers is compared with the limit throughout and every answer at rest with the reference; " +
	"non-trivial: the pool was saturated, or preheated above its limit"

// watch counts running handlers.
type watch struct {
	max  int64
	run  atomic.Int64
	errs conc.Errs
}

func (w *watch) enter() {
	if n := w.run.Add(1); n > w.max {
		w.errs.Addf("%d handlers run at once in a pool of %d", n, w.max)
	}
}

func (w *watch) leave() { w.run.Add(-1) }

func (w *watch) workers(n int64) {
	if n > w.max || n < 0 {
		w.errs.Addf("%d workers in a pool of %d", n, w.max)
	}
}

func TestReference(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 12000, Thorough: 300000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		limit := rapid.IntRange(1, 6).Draw(rt, "max")
		preheat := rapid.OneOf(rapid.IntRange(-2, 8), rapid.SampledFrom([]int{limit, limit + 1, 100, 5000})).Draw(rt, "preheat")
		idle := time.Duration(rapid.SampledFrom([]int{1, 5, 30, 200, 2000}).Draw(rt, "idle"))
		gc := time.Duration(rapid.SampledFrom([]int{1, 3, 20, 100}).Draw(rt, "gc"))
		c.Logf("max %d preheat %d idle %d gc %d", limit, preheat, idle, gc)
		c.NonTrivialIf(preheat > limit)
		c.LabelIf(preheat > limit, "preheated above the limit")
		ops := rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) [2]int {
			k := rapid.SampledFrom([]int{0, 0, 0, 0, 1, 1, 1, 2, 2, 3, 4}).Draw(rt, "op")
			if k == 3 && rapid.IntRange(0, 6).Draw(rt, "really") > 0 {
				k = 0
			}
			v := 0
			switch k {
			case 1, 4:
				v = rapid.IntRange(0, 7).Draw(rt, "which")
			case 2:
				v = rapid.SampledFrom([]int{1, 2, 7, 40, 150, 500, 3000}).Draw(rt, "time")
			}
			return [2]int{k, v}
		}), 1, 40).Draw(rt, "ops")
		vsched.Bubble(rt, func(rt *rapid.T) {
			w := &watch{max: int64(limit)}
			var held []chan bool
			pool, err := gopoolx.NewTimedPool(int64(limit), func(end chan bool) {
				w.enter()
				exit := <-end
				w.leave()
				if exit {
					runtime.Goexit()
				}
			}, idle, gc, preheat)
			if err != nil {
				rt.Fatalf("NewTimedPool: %v", err)
			}
			stopped := false
			defer func() {
				for _, e := range held {
					close(e)
				}
				if !stopped {
					pool.Stop()
				}
				synctest.Wait()
			}()
			if n, want := pool.Workers(), int64(min(max(preheat, 0), limit)); n != want {
				rt.Fatalf("a pool of %d preheated with %d starts with %d workers, not %d", limit, preheat, n, want)
			}
			for _, op := range ops {
				synctest.Wait()
				switch op[0] {
				case 0:
					end := make(chan bool)
					ok := pool.Run(end)
					want := !stopped && len(held) < limit
					c.Logf("run")
					if ok != want {
						rt.Fatalf("Run returned %v with %d of %d handlers running (stopped: %v, workers: %d)", ok, len(held), limit, stopped, pool.Workers())
					}
					if ok {
						held = append(held, end)
					} else if !stopped {
						c.NonTrivial()
						c.Label("refused when saturated")
					}
				case 1:
					if len(held) > 0 {
						i := op[1] % len(held)
						c.Logf("end %d", i)
						close(held[i])
						held = append(held[:i:i], held[i+1:]...)
					}
				case 4: // a handler ends its goroutine
					if len(held) > 0 {
						i := op[1] % len(held)
						c.Logf("exit %d", i)
						c.Label("a handler ended its goroutine")
						held[i] <- true
						held = append(held[:i:i], held[i+1:]...)
					}
				case 2:
					c.Logf("wait %d", op[1])
					time.Sleep(time.Duration(op[1]))
				case 3:
					c.Logf("stop")
					pool.Stop()
					stopped = true
				}
				w.workers(pool.Workers())
				synctest.Wait()
				n := pool.Workers()
				w.workers(n)
				if r := w.run.Load(); r != int64(len(held)) {
					rt.Fatalf("%d handlers run, %d accepted tasks are unfinished", r, len(held))
				}
				if n < int64(len(held)) {
					rt.Fatalf("%d workers run %d handlers", n, len(held))
				}
				w.errs.Check(rt)
			}
		})
	})
}

func TestSched(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 3500, Thorough: 100000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		limit := rapid.SampledFrom([]int{1, 1, 2, 2, 3, 4}).Draw(rt, "max")
		preheat := rapid.SampledFrom([]int{0, 0, 1, 2, 3, 9}).Draw(rt, "preheat")
		idle := time.Duration(rapid.SampledFrom([]int{1, 20, 150, 1000, 20000}).Draw(rt, "idle"))
		gc := time.Duration(rapid.SampledFrom([]int{60, 150, 700, 5000}).Draw(rt, "gc"))
		subs := rapid.IntRange(1, 5).Draw(rt, "submitters")
		type task struct {
			work, pause time.Duration
			end         chan struct{}
		}
		progs := make([][]task, subs)
		length := rapid.SampledFrom([]int{0, 0, 1, 50, 400, 3000})
		for i := range progs {
			progs[i] = rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) task {
				return task{work: time.Duration(length.Draw(rt, "work")), pause: time.Duration(length.Draw(rt, "pause"))}
			}), 1, 10).Draw(rt, "tasks")
		}
		c.Logf("max %d preheat %d idle %d gc %d tasks %v", limit, preheat, idle, gc, progs)
		c.NonTrivialIf(preheat > limit)
		refused := 0
		conc.Run(rt, func(rt *rapid.T) {
			w := &watch{max: int64(limit)}
			var turned atomic.Int64
			pool, err := gopoolx.NewTimedPool(int64(limit), func(t task) {
				w.enter()
				vsched.Y()
				if t.end != nil {
					<-t.end
				}
				if t.work > 0 {
					time.Sleep(t.work)
				}
				w.leave()
			}, idle, gc, preheat)
			if err != nil {
				rt.Fatalf("NewTimedPool: %v", err)
			}
			var fs []func()
			for _, p := range progs {
				fs = append(fs, func() {
					for _, t := range p {
						if !pool.Run(t) {
							turned.Add(1)
						}
						w.workers(pool.Workers())
						if t.pause > 0 {
							time.Sleep(t.pause)
						}
					}
				})
			}
			conc.Par(fs...)
			refused = int(turned.Load())
			// at rest the pool takes exactly as many tasks as its limit
			vsched.Calm()
			time.Sleep(4000)
			for range 2 {
				synctest.Wait()
				end := make(chan struct{})
				for i := range limit + 1 {
					ok := pool.Run(task{end: end})
					if ok != (i < limit) {
						rt.Fatalf("at rest with %d of %d handlers running, Run returned %v (%d workers)", i, limit, ok, pool.Workers())
					}
					synctest.Wait()
				}
				w.workers(pool.Workers())
				close(end)
				time.Sleep(idle / 2)
			}
			synctest.Wait()
			pool.Stop()
			synctest.Wait()
			if pool.Run(task{}) {
				rt.Fatalf("a stopped pool accepted a task")
			}
			w.errs.Check(rt)
		})
		c.NonTrivialIf(refused > 0)
		c.LabelIf(refused > 0, "refused when saturated")
	})
}

func TestRace(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 600, Thorough: 12000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		limit := rapid.SampledFrom([]int{1, 2, 3, 5, 8}).Draw(rt, "max")
		preheat := rapid.SampledFrom([]int{0, 1, 5, 20}).Draw(rt, "preheat")
		idle := time.Duration(rapid.SampledFrom([]int{1, 1000, 50000, 1000000}).Draw(rt, "idle"))
		gc := time.Duration(rapid.SampledFrom([]int{5000, 50000}).Draw(rt, "gc"))
		subs := rapid.IntRange(1, 8).Draw(rt, "submitters")
		tasks := rapid.IntRange(1, 200).Draw(rt, "tasks")
		spin := rapid.IntRange(0, 20).Draw(rt, "spin")
		c.Logf("max %d preheat %d idle %v gc %v, %d submitters of %d tasks, spin %d", limit, preheat, idle, gc, subs, tasks, spin)
		w := &watch{max: int64(limit)}
		var refused atomic.Int64
		pool, err := gopoolx.NewTimedPool(int64(limit), func(n int) {
			w.enter()
			for range n {
				vsched.Gosched()
			}
			w.leave()
		}, idle, gc, preheat)
		if err != nil {
			rt.Fatalf("NewTimedPool: %v", err)
		}
		var fs []func()
		for range subs {
			fs = append(fs, func() {
				for range tasks {
					if !pool.Run(spin) {
						refused.Add(1)
						vsched.Gosched()
					}
					w.workers(pool.Workers())
				}
			})
		}
		conc.Par(fs...)
		conc.Par(pool.Stop)
		for i := 0; i < 2000 && pool.Workers() > 0; i++ { // whether they all end is C35
			time.Sleep(20 * time.Microsecond)
		}
		w.errs.Check(rt)
		c.NonTrivialIf(refused.Load() > 0 || preheat > limit)
	})
}

// TestLarge fills, empties and idles pools of hundreds and thousands of workers.
func TestLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 60, Thorough: 8000, Rule: "pools of 30 to 5000 workers under bursts of submissions and completions of their order and idle periods, against the reference; non-trivial: the pool was saturated"}, func(rt *rapid.T, c *pbt.Case) {
		large(rt, c, gen.Large(rt, "max", 30, 5000), 15)
	})
}

// A maximum no one can reach refuses nothing.
func TestUnlimited(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 1500, Thorough: 60000, Rule: "pools with a maximum next to a power of two from 2^15 to 2^63, preheated with up to 40 workers, given 1 to 60 tasks that stay and some that end; non-trivial: maxima beyond 31 bits"}, func(rt *rapid.T, c *pbt.Case) {
		limit := rapid.Custom(func(rt *rapid.T) int64 {
			k := rapid.SampledFrom([]int{32, 31, 63, 16, 15, 33, 62, 48, 24, 40, 53}).Draw(rt, "bit")
			return int64(uint64(1)<<k + uint64(rapid.SampledFrom([]int64{0, 1, -1, 5, -7, 1000}).Draw(rt, "next to")) - uint64(k/63)*2000)
		}).Draw(rt, "max")
		preheat := rapid.IntRange(0, 40).Draw(rt, "preheat")
		n := rapid.IntRange(1, 60).Draw(rt, "tasks")
		c.Logf("max %d preheat %d tasks %d", limit, preheat, n)
		c.NonTrivialIf(limit > math.MaxInt32)
		vsched.Bubble(rt, func(rt *rapid.T) {
			var run, left int64
			pool, err := gopoolx.NewTimedPool(limit, func(end chan struct{}) {
				atomic.AddInt64(&run, 1)
				<-end
				atomic.AddInt64(&left, 1)
			}, 50, 7, preheat)
			if err != nil {
				rt.Fatalf("NewTimedPool: %v", err)
			}
			end := make(chan struct{})
			defer func() {
				close(end)
				pool.Stop()
				synctest.Wait()
			}()
			if w := pool.Workers(); w != int64(preheat) {
				rt.Fatalf("a pool preheated with %d starts with %d workers", preheat, w)
			}
			for i := range n {
				if !pool.Run(end) {
					rt.Fatalf("a pool of %d refused task %d", limit, i)
				}
				if i%8 == 7 {
					e := make(chan struct{})
					close(e)
					if !pool.Run(e) {
						rt.Fatalf("a pool of %d refused a task next to %d", limit, i)
					}
					time.Sleep(5)
				}
			}
			synctest.Wait()
			if r, w := atomic.LoadInt64(&run)-atomic.LoadInt64(&left), pool.Workers(); r != int64(n) || w < r {
				rt.Fatalf("%d handlers run in %d workers, %d tasks are unfinished", r, w, n)
			}
		})
	})
}

// TestBeyond does it with more workers than fit 15 or 16 bits.
func TestBeyond(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 4, Thorough: 100, CPU: 60, Rule: "the same with 32700 to 70000 workers; counted alike"}, func(rt *rapid.T, c *pbt.Case) {
		large(rt, c, rapid.SampledFrom([]int{70000, 32768, 40000, 65536, 65537, 32769}).Draw(rt, "max"), 4)
	})
}

func large(rt *rapid.T, c *pbt.Case, limit, most int) {
	preheat := rapid.SampledFrom([]int{0, 0, 1, limit / 2, limit - 1, limit, limit + 1, 3 * limit}).Draw(rt, "preheat")
	idle := time.Duration(rapid.SampledFrom([]int{1, 5, 200, 2000}).Draw(rt, "idle"))
	gc := time.Duration(rapid.SampledFrom([]int{1, 20, 100}).Draw(rt, "gc"))
	r := gen.NewRand(rt, "seed")
	c.Logf("max %d preheat %d idle %d gc %d seed %x", limit, preheat, idle, gc, uint64(*r))
	ops := rapid.SliceOfN(rapid.IntRange(0, 5), 1, most).Draw(rt, "ops")
	if limit > 30000 {
		ops = append([]int{0}, ops...)
	}
	vsched.Bubble(rt, func(rt *rapid.T) {
		w := &watch{max: int64(limit)}
		var held []chan struct{}
		pool, err := gopoolx.NewTimedPool(int64(limit), func(end chan struct{}) {
			w.enter()
			<-end
			w.leave()
		}, idle, gc, preheat)
		if err != nil {
			rt.Fatalf("NewTimedPool: %v", err)
		}
		defer func() {
			for _, e := range held {
				close(e)
			}
			pool.Stop()
			synctest.Wait()
		}()
		if n, want := pool.Workers(), int64(min(max(preheat, 0), limit)); n != want {
			rt.Fatalf("a pool of %d preheated with %d starts with %d workers, not %d", limit, preheat, n, want)
		}
		run := func(n int) {
			c.Logf("run %d", n)
			for ; n > 0; n-- {
				end := make(chan struct{})
				ok := pool.Run(end)
				if ok != (len(held) < limit) {
					rt.Fatalf("Run returned %v with %d of %d handlers running (%d workers)", ok, len(held), limit, pool.Workers())
				}
				if ok {
					held = append(held, end)
				} else {
					c.NonTrivial()
				}
			}
		}
		for _, op := range ops {
			switch op {
			case 0: // saturate
				run(limit - len(held) + 3)
			case 1, 2:
				run(r.N(limit))
			case 3, 4: // end some or all
				n := len(held)
				if op == 3 && n > 0 {
					n = r.N(n)
				}
				c.Logf("end %d", n)
				for ; n > 0; n-- {
					i := r.N(len(held))
					close(held[i])
					held[i] = held[len(held)-1]
					held = held[:len(held)-1]
				}
			case 5:
				d := []time.Duration{1, idle, gc, idle + gc, idle + 3*gc}[r.N(5)]
				c.Logf("wait %d", d)
				time.Sleep(d)
			}
			w.workers(pool.Workers())
			synctest.Wait()
			n := pool.Workers()
			w.workers(n)
			if r := w.run.Load(); r != int64(len(held)) || n < r {
				rt.Fatalf("%d workers run %d handlers, %d accepted tasks are unfinished", n, r, len(held))
			}
			w.errs.Check(rt)
		}
	})
}
