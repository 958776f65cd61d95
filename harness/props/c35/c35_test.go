package c35

import (
	"errors"
	"fmt"
	"math"
	"slices"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
	"verif.local/harness/vsched"
)

const rule = "pools with idle timeouts of 1 ns to 10 minutes and collection periods of 1 ns to 2 minutes of virtual time under bursts of tasks of drawn lengths and pauses; the worker count is compared with the load of the last idle timeout (at least that many workers) and of that plus two periods (at most that many), then the pool is stopped; " +
	"non-trivial: a worker retired or was kept against the last idle timeout, or the pool was stopped while tasks ran"

// history holds the load: how many tasks were unfinished since an instant.
type history struct {
	at   []time.Duration
	low  []int // handlers surely running
	high []int // workers the load may have needed
}

func (h *history) set(at time.Duration, low, high int) {
	h.at, h.low, h.high = append(h.at, at), append(h.low, low), append(h.high, high)
}

// peak returns the largest loads in force at any instant of [from, now].
func (h *history) peak(from time.Duration) (low, high int) {
	for i := len(h.at) - 1; i >= 0; i-- {
		low, high = max(low, h.low[i]), max(high, h.high[i])
		if h.at[i] < from {
			break
		}
	}
	return
}

// lowPeak is the largest sure load at an instant after from.
func (h *history) lowPeak(from time.Duration) (low int) {
	for i := len(h.at) - 1; i >= 0; i-- {
		if i+1 < len(h.at) && h.at[i+1] <= from {
			break
		}
		low = max(low, h.low[i])
	}
	return
}

var units = []time.Duration{1, 3, 50, 1000, 7 * time.Microsecond, time.Millisecond, 40 * time.Millisecond, time.Second, 7 * time.Second, time.Minute}

const century = 36525 * 24 * time.Hour

// ages are durations longer than any case.
var ages = rapid.OneOf(
	rapid.SampledFrom([]time.Duration{math.MaxInt64, math.MaxInt64 - 1, 1 << 62, 1<<62 + 1, math.MaxInt64/2 + 1, math.MaxInt64 - 1e9}),
	rapid.Custom(func(rt *rapid.T) time.Duration {
		return time.Duration(rapid.Int64Range(int64(century)+1, math.MaxInt64).Draw(rt, "age"))
	}),
)

func TestReference(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 12000, Thorough: 300000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		limit := rapid.SampledFrom([]int{1, 2, 3, 5, 9, 20}).Draw(rt, "max")
		preheat := rapid.SampledFrom([]int{0, 0, 1, 2, 5, 30}).Draw(rt, "preheat")
		reference(rt, c, limit, preheat, false)
	})
}

// TestLarge is the same for pools of hundreds of workers and bursts of their order.
func TestLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 150, Thorough: 10000, Rule: rule + "; 20 to 2000 workers and bursts of 5 to 2000 tasks"}, func(rt *rapid.T, c *pbt.Case) {
		limit := gen.Large(rt, "max", 20, 2000)
		preheat := rapid.SampledFrom([]int{0, 0, 1, limit / 2, limit}).Draw(rt, "preheat")
		reference(rt, c, limit, preheat, true)
	})
}

// TestBeyond does it with more workers than fit 15 or 16 bits.
func TestBeyond(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 4, Thorough: 100, CPU: 120, Rule: rule + "; 32768 to 70000 workers, all of them busy at first"}, func(rt *rapid.T, c *pbt.Case) {
		limit := rapid.SampledFrom([]int{70000, 32768, 40000, 65536, 65537, 32769}).Draw(rt, "max")
		reference(rt, c, limit, rapid.SampledFrom([]int{0, limit}).Draw(rt, "preheat"), true)
	})
}

func reference(rt *rapid.T, c *pbt.Case, limit, preheat int, large bool) {
	u := rapid.SampledFrom(units).Draw(rt, "unit")
	idle := u * time.Duration(rapid.SampledFrom([]int{1, 2, 5, 10}).Draw(rt, "idle"))
	gc := max(1, u*time.Duration(rapid.SampledFrom([]int{1, 2, 7, 20}).Draw(rt, "gc"))/rapid.SampledFrom([]time.Duration{1, 1, 2, 10}).Draw(rt, "gcdiv"))
	poolIdle, poolGC := idle, gc
	switch rapid.IntRange(0, 11).Draw(rt, "never") {
	case 0:
		poolIdle = ages.Draw(rt, "idle")
	case 1:
		poolGC = ages.Draw(rt, "gc")
	}
	c.Logf("max %d preheat %d idle %v gc %v", limit, preheat, poolIdle, poolGC)
	c.LabelIf(poolIdle > century || poolGC > century, "timeout or period of centuries")
	length := rapid.Custom(func(rt *rapid.T) time.Duration {
		switch rapid.IntRange(0, 5).Draw(rt, "kind") {
		case 0:
			return 0
		case 1:
			return u / 2
		case 2:
			return idle + time.Duration(rapid.IntRange(-1, 1).Draw(rt, "d"))
		case 3:
			return idle + gc + time.Duration(rapid.IntRange(-1, 1).Draw(rt, "d"))
		case 4:
			return idle + 2*gc + time.Duration(rapid.IntRange(-1, 1).Draw(rt, "d"))
		}
		return u * time.Duration(rapid.IntRange(0, 30).Draw(rt, "n"))
	})
	type op struct {
		burst []time.Duration
		pause time.Duration
	}
	ops := rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) op {
		o := op{rapid.SliceOfN(length, 0, 6).Draw(rt, "burst"), length.Draw(rt, "pause")}
		if large && len(o.burst) > 0 {
			r := gen.NewRand(rt, "seed")
			few := o.burst
			for n := gen.Large(rt, "tasks", 5, limit+20); len(o.burst) < n; {
				o.burst = append(o.burst, few[r.N(len(few))]+time.Duration(r.N(3))*u)
			}
		}
		return o
	}), 1, 12).Draw(rt, "ops")
	if limit > 30000 {
		o := op{[]time.Duration{u, idle}, length.Draw(rt, "pause")}
		for len(o.burst) < limit+3 {
			o.burst = append(o.burst, o.burst[0])
		}
		ops = append([]op{o}, ops...)
	}
	again := rapid.IntRange(0, 2).Draw(rt, "stops again")
	vsched.Bubble(rt, func(rt *rapid.T) {
		start := time.Now()
		now := func() time.Duration { return time.Since(start) }
		var run, done atomic.Int64
		pool, err := gopoolx.NewTimedPool(int64(limit), func(d time.Duration) {
			run.Add(1)
			time.Sleep(d)
			run.Add(-1)
			done.Add(1)
		}, poolIdle, poolGC, preheat)
		if err != nil {
			rt.Fatalf("NewTimedPool: %v", err)
		}
		stopped := false
		defer func() {
			if !stopped {
				pool.Stop()
			}
		}()
		var h history
		var ends []time.Duration
		pre := min(limit, max(0, preheat))
		h.set(0, pre, pre)
		accepted := 0
		check := func() {
			synctest.Wait()
			t := now()
			w := int(pool.Workers())
			low := h.lowPeak(t - poolIdle)
			from := time.Duration(math.MinInt64)
			if poolIdle < century && poolGC < century {
				from = t - idle - 2*gc
			}
			_, high := h.peak(from)
			if w < low {
				rt.Fatalf("at %v: %d workers, although %d were busy within the last %v", t, w, low, poolIdle)
			}
			if w > high {
				rt.Fatalf("at %v: %d workers, although the load of the last %v and two periods of %v needed only %d", t, w, poolIdle, poolGC, high)
			}
			if low > int(run.Load()) {
				c.NonTrivial()
				c.Label("idle workers kept")
			}
			if high < limit && accepted > high {
				c.Label("idle workers retired")
			}
		}
		synctest.Wait()
		h.set(0, 0, 0)
		check()
		for _, o := range ops {
			busy := int(run.Load())
			n := 0
			for _, d := range o.burst {
				if pool.Run(d) {
					n++
					ends = append(ends, now()+d)
				}
			}
			accepted += n
			c.Logf("burst of %d %v", len(o.burst), o.burst[:min(6, len(o.burst))])
			h.set(now(), int(run.Load()), busy+n)
			synctest.Wait()
			h.set(now(), int(run.Load()), int(run.Load()))
			if int(run.Load()) > busy+n {
				rt.Fatalf("%d handlers run after %d busy and %d accepted", run.Load(), busy, n)
			}
			check()
			// step through the ends of the running tasks
			until := now() + o.pause
			c.Logf("wait %v", o.pause)
			for {
				slices.Sort(ends)
				for len(ends) > 0 && ends[0] <= now() {
					ends = ends[1:]
				}
				if len(ends) == 0 || ends[0] > until {
					break
				}
				time.Sleep(ends[0] - now())
				synctest.Wait()
				h.set(now(), int(run.Load()), int(run.Load()))
				check()
			}
			time.Sleep(until - now())
			synctest.Wait()
			h.set(now(), int(run.Load()), int(run.Load()))
			check()
		}
		running := run.Load()
		c.NonTrivialIf(running > 0)
		c.LabelIf(running > 0, "stopped while tasks run")
		pool.Stop()
		stopped = true
		early := pool.Run(0) // may still be accepted, as the stop is on its way
		if early {
			accepted++
		}
		for range again {
			pool.Stop()
		}
		synctest.Wait()
		if pool.Run(0) {
			rt.Fatalf("a stopped pool accepted a task")
		}
		if running == 0 {
			if w := pool.Workers(); w != 0 {
				rt.Fatalf("%d workers are left after the stop of an idle pool", w)
			}
		} else {
			slices.Sort(ends)
			time.Sleep(ends[len(ends)-1] - now())
			synctest.Wait()
			if w := pool.Workers(); w != 0 {
				rt.Fatalf("%d workers are left after the stop when all tasks have ended", w)
			}
		}
		if int(done.Load()) != accepted {
			rt.Fatalf("%d of %d accepted tasks were finished after the stop", done.Load(), accepted)
		}
		if pool.Run(0) {
			rt.Fatalf("a stopped pool accepted a task")
		}
		for range again {
			pool.Stop()
		}
		// goroutines left behind make the bubble fail
	})
}

func TestErrors(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 2000, Thorough: 20000, Rule: "constructor arguments valid and invalid in every combination; non-trivial: an invalid one"}, func(rt *rapid.T, c *pbt.Case) {
		limit := rapid.SampledFrom([]int64{1, 2, 1 << 40, 0, -1, -2, -1 << 63}).Draw(rt, "max")
		d := rapid.SampledFrom([]time.Duration{1, time.Hour, 0, -1, -1 << 63})
		idle, gc := d.Draw(rt, "idle"), d.Draw(rt, "gc")
		var h func(int)
		if rapid.Bool().Draw(rt, "handler") {
			h = func(int) {}
		}
		preheat := rapid.SampledFrom([]int{-1 << 63, -1, 0, 1, 2}).Draw(rt, "preheat")
		c.Logf("max %d handler %v idle %d gc %d preheat %d", limit, h != nil, idle, gc, preheat)
		var want []error
		if limit <= 0 {
			want = append(want, gopoolx.ErrInvalidMaxWorkers)
		}
		if h == nil {
			want = append(want, gopoolx.ErrInvalidHandler)
		}
		if idle <= 0 {
			want = append(want, gopoolx.ErrInvalidIdleTimeout)
		}
		if gc <= 0 {
			want = append(want, gopoolx.ErrInvalidGCPeriod)
		}
		c.NonTrivialIf(len(want) > 0)
		vsched.Bubble(rt, func(rt *rapid.T) {
			p, err := gopoolx.NewTimedPool(limit, h, idle, gc, preheat)
			if len(want) == 0 {
				if err != nil || p == nil {
					rt.Fatalf("NewTimedPool failed: %v", err)
				}
				p.Stop()
				synctest.Wait()
				return
			}
			if err == nil {
				p.Stop()
				rt.Fatalf("NewTimedPool accepted invalid arguments, want one of %v", want)
			}
			if p != nil {
				rt.Fatalf("NewTimedPool returned a pool with the error %v", err)
			}
			if !slices.ContainsFunc(want, func(w error) bool { return errors.Is(err, w) }) {
				rt.Fatalf("NewTimedPool returned %v, want one of %v", err, want)
			}
		})
	})
}

type event struct {
	at   time.Time
	diff int
}

// TestSched checks under drawn schedules that no worker is retired early and
// that a stopped pool drains.
func TestSched(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 14000, Thorough: 300000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		limit := rapid.SampledFrom([]int{1, 2, 3, 5}).Draw(rt, "max")
		preheat := rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(rt, "preheat")
		idle := time.Duration(rapid.SampledFrom([]int{20, 150, 1000, 20000}).Draw(rt, "idle"))
		gc := time.Duration(rapid.SampledFrom([]int{60, 150, 700, 5000}).Draw(rt, "gc"))
		type task struct{ work, pause time.Duration }
		length := rapid.SampledFrom([]int{0, 1, 50, 400, 1100, 3000, 21000})
		progs := make([][]task, rapid.IntRange(1, 4).Draw(rt, "submitters"))
		for i := range progs {
			progs[i] = rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) task {
				return task{time.Duration(length.Draw(rt, "work")), time.Duration(length.Draw(rt, "pause"))}
			}), 1, 8).Draw(rt, "tasks")
		}
		stops := rapid.IntRange(1, 3).Draw(rt, "stops")
		inside := rapid.IntRange(0, 4).Draw(rt, "stopped by a handler") == 0
		together := rapid.Bool().Draw(rt, "stopped by several")
		c.Logf("max %d preheat %d idle %d gc %d tasks %v stops %d from a handler %v at once %v", limit, preheat, idle, gc, progs, stops, inside, together)
		conc.Run(rt, func(rt *rapid.T) {
			var mu sync.Mutex
			var evs []event
			var open, done, accepted atomic.Int64
			var errs conc.Errs
			mark := func(diff int) {
				mu.Lock()
				evs = append(evs, event{time.Now(), diff})
				mu.Unlock()
			}
			var pool *gopoolx.TimedPool[time.Duration]
			pool, err := gopoolx.NewTimedPool(int64(limit), func(d time.Duration) {
				mark(1)
				if d < 0 {
					pool.Stop()
				} else {
					time.Sleep(d)
				}
				mark(-1)
				done.Add(1)
				open.Add(-1)
			}, idle, gc, preheat)
			if err != nil {
				rt.Fatalf("NewTimedPool: %v", err)
			}
			ending := atomic.Bool{}
			fs := []func(){}
			submit := func(d time.Duration) bool {
				open.Add(1)
				if pool.Run(d) {
					accepted.Add(1)
					return true
				}
				open.Add(-1)
				return false
			}
			var left atomic.Int64
			left.Store(int64(len(progs)))
			for _, p := range progs {
				fs = append(fs, func() {
					defer left.Add(-1)
					for _, t := range p {
						submit(t.work)
						time.Sleep(t.pause)
					}
				})
			}
			fs = append(fs, func() { // observer
				for left.Load() > 0 {
					mu.Lock()
					old := slices.Clone(evs)
					mu.Unlock()
					before := time.Now()
					w := int(pool.Workers())
					after := time.Now()
					// handlers running at once at an instant after (after - idle) and before the call
					n, low := 0, 0
					for i, e := range old {
						n += e.diff
						if until := before; i+1 < len(old) {
							until = old[i+1].at
							if !until.After(after.Add(-idle)) {
								continue
							}
						} else if !until.After(after.Add(-idle)) {
							continue
						}
						low = max(low, n)
					}
					if w < low {
						errs.Addf("%d workers, although %d handlers ran within the last %v", w, low, idle)
					}
					if n < low {
						c.NonTrivial()
						c.Label("idle workers kept")
					}
					time.Sleep(37)
				}
			})
			conc.Par(fs...)
			ending.Store(true)
			if open.Load() > 0 {
				c.NonTrivial()
				c.Label("stopped while tasks run")
			}
			end := func() {
				if !inside || !submit(-1) {
					pool.Stop()
				}
			}
			if together {
				fs = fs[:0]
				for range stops {
					fs = append(fs, end)
				}
				conc.Par(fs...)
			} else {
				end()
			}
			for i := 0; inside && open.Load() > 0; i++ {
				if i > 5000 {
					rt.Fatalf("%d tasks, among them one that stops the pool, are unfinished", open.Load())
				}
				time.Sleep(1000)
			}
			if !together {
				for range stops - 1 {
					pool.Stop()
				}
			}
			for i := 0; open.Load() > 0 || pool.Workers() != 0; i++ {
				if i > 5000 {
					rt.Fatalf("after the stop %d tasks are unfinished and %d workers left", open.Load(), pool.Workers())
				}
				time.Sleep(1000)
			}
			time.Sleep(time.Millisecond)
			if pool.Run(0) {
				rt.Fatalf("a stopped pool accepted a task")
			}
			if w := pool.Workers(); w != 0 {
				rt.Fatalf("a stopped pool has %d workers", w)
			}
			if done.Load() != accepted.Load() {
				rt.Fatalf("%d tasks accepted, %d finished", accepted.Load(), done.Load())
			}
			errs.Check(rt)
		})
	})
}

// TestRace stops pools under load in real time.
func TestRace(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 600, Thorough: 12000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		limit := rapid.IntRange(1, 8).Draw(rt, "max")
		preheat := rapid.IntRange(0, 8).Draw(rt, "preheat")
		idle := time.Duration(rapid.SampledFrom([]int{1, 1000, 100000}).Draw(rt, "idle"))
		gc := time.Duration(rapid.SampledFrom([]int{3000, 50000}).Draw(rt, "gc"))
		n := rapid.IntRange(0, 300).Draw(rt, "tasks")
		wait := rapid.IntRange(0, 50).Draw(rt, "stop after")
		other := rapid.IntRange(0, 50).Draw(rt, "and after") // about as often before as after the first
		c.Logf("max %d preheat %d idle %v gc %v tasks %d stop after %d and %d", limit, preheat, idle, gc, n, wait, other)
		var open, done, accepted atomic.Int64
		pool, err := gopoolx.NewTimedPool(int64(limit), func(k int) {
			for range k {
				vsched.Gosched()
			}
			done.Add(1)
			open.Add(-1)
		}, idle, gc, preheat)
		if err != nil {
			rt.Fatalf("NewTimedPool: %v", err)
		}
		sub := func() {
			for i := range n {
				open.Add(1)
				if pool.Run(i % 7) {
					accepted.Add(1)
				} else {
					open.Add(-1)
					vsched.Gosched()
				}
			}
		}
		conc.Par(sub, sub, func() {
			for range wait {
				vsched.Gosched()
			}
			c.NonTrivialIf(open.Load() > 0)
			pool.Stop()
			pool.Stop()
		}, func() {
			for range other {
				vsched.Gosched()
			}
			pool.Stop()
		})
		if !conc.Await(func() bool { return open.Load() <= 0 && pool.Workers() == 0 && !pool.Run(-1) }) {
			rt.Fatalf("after the stop %d tasks are unfinished and %d workers left", open.Load(), pool.Workers())
		}
		if pool.Run(0) {
			rt.Fatalf("a stopped pool accepted a task")
		}
		if d, a := done.Load(), accepted.Load(); d < a {
			rt.Fatalf("%s", fmt.Sprintf("%d tasks accepted, %d finished", a, d))
		}
	})
}
