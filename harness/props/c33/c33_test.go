package c33

import (
	"fmt"
	"maps"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
	"verif.local/harness/vsched"
)

const rule = "1..5 submitters with 1..12 tasks each (some submit another task from their handler, some end their goroutine) on pools of 1..5 workers with preheating, idle timeouts and collection periods of the order of the tasks, stopped at the end or in the middle; " +
	"every accepted value must be handled exactly once and no refused one; non-trivial: at least five tasks accepted and two submitters, or the pool stopped while tasks are submitted"

type task struct {
	id    int
	work  int // virtual or real length of the handler
	child bool
	exit  bool // the handler ends its goroutine
	pause int  // of the submitter afterwards
}

type config struct {
	max, preheat int
	idle, gc     time.Duration
	progs        [][]task
	stopAt       int // pause of the stopper; <0: stop after all submitters
	stopBy       int // the task whose handler stops the pool, if it is accepted; 0: none
	stopEvery    int // tasks whose number is a multiple stop the pool too, where stopBy is given; 0: none
}

func draw(rt *rapid.T, c *pbt.Case, unit int, maxTasks int) config {
	cfg := config{
		max:     rapid.SampledFrom([]int{1, 1, 2, 2, 3, 5}).Draw(rt, "max"),
		preheat: rapid.SampledFrom([]int{0, 0, 1, 2, 4}).Draw(rt, "preheat"),
		idle:    time.Duration(rapid.SampledFrom([]int{1, 20, 150, 1000, 20000}).Draw(rt, "idle") * unit),
		gc:      time.Duration(rapid.SampledFrom([]int{60, 150, 700, 5000}).Draw(rt, "gc") * unit),
		stopAt:  -1,
	}
	n := rapid.IntRange(1, 5).Draw(rt, "submitters")
	id := 0
	for range n {
		var p []task
		for range rapid.IntRange(1, maxTasks).Draw(rt, "tasks") {
			id++
			p = append(p, task{
				id:    id,
				work:  rapid.SampledFrom([]int{0, 0, 1, 50, 400, 3000}).Draw(rt, "work") * unit,
				child: rapid.IntRange(0, 5).Draw(rt, "child") == 0,
				exit:  rapid.IntRange(0, 7).Draw(rt, "exit") == 7,
				pause: rapid.SampledFrom([]int{0, 0, 1, 30, 200, 1500, 9000}).Draw(rt, "pause") * unit,
			})
		}
		cfg.progs = append(cfg.progs, p)
	}
	if rapid.IntRange(0, 2).Draw(rt, "early") == 0 {
		cfg.stopAt = rapid.SampledFrom([]int{0, 50, 300, 2000, 10000}).Draw(rt, "stopAt") * unit
	}
	if cfg.stopAt < 0 && rapid.IntRange(0, 3).Draw(rt, "byHandler") == 0 {
		cfg.stopBy = rapid.IntRange(1, id).Draw(rt, "stopBy")
		cfg.stopEvery = rapid.IntRange(0, 4).Draw(rt, "stopEvery")
	}
	c.Logf("max %d preheat %d idle %v gc %v stop %d stop by task %d and every %d. programs %v", cfg.max, cfg.preheat, cfg.idle, cfg.gc, cfg.stopAt, cfg.stopBy, cfg.stopEvery, cfg.progs)
	return cfg
}

// value is what is submitted; it has to arrive unchanged.
type value struct {
	id   int
	text string
	t    *task
}

func text(id int) string { return fmt.Sprintf("task %d of the case", id) }

func run(rt *rapid.T, c *pbt.Case, cfg config, wait func(d time.Duration), settle func(cond func() bool) bool) {
	var errs conc.Errs
	var mu sync.Mutex
	handled := map[int]int{}
	accepted := map[int]bool{}
	var stopped atomic.Bool
	var open atomic.Int64 // accepted or about to be, and not handled
	var pool *gopoolx.TimedPool[value]
	submit := func(id int, t *task) bool {
		open.Add(1)
		ok := pool.Run(value{id, text(id), t})
		if !ok {
			open.Add(-1)
		}
		mu.Lock()
		accepted[id] = ok
		mu.Unlock()
		return ok
	}
	handler := func(v value) {
		if v.text != text(v.id) {
			errs.Addf("the handler received %d %q", v.id, v.text)
		}
		vsched.Y()
		mu.Lock()
		handled[v.id]++
		mu.Unlock()
		if v.t.work > 0 {
			wait(time.Duration(v.t.work))
		}
		if v.id == cfg.stopBy {
			pool.Stop()
			stopped.Store(true)
		} else if cfg.stopEvery > 0 && v.id%cfg.stopEvery == 0 {
			pool.Stop()
		}
		if v.t.child {
			submit(100000+v.id, &task{})
		}
		open.Add(-1)
		if v.t.exit {
			runtime.Goexit()
		}
	}
	pool, err := gopoolx.NewTimedPool(int64(cfg.max), handler, cfg.idle, cfg.gc, cfg.preheat)
	if err != nil {
		rt.Fatalf("NewTimedPool: %v", err)
	}
	fs := []func(){}
	for _, p := range cfg.progs {
		fs = append(fs, func() {
			for i := range p {
				submit(p[i].id, &p[i])
				if p[i].pause > 0 {
					wait(time.Duration(p[i].pause))
				}
			}
		})
	}
	if cfg.stopAt >= 0 {
		fs = append(fs, func() {
			if cfg.stopAt > 0 {
				wait(time.Duration(cfg.stopAt))
			}
			pool.Stop()
		})
	}
	conc.Par(fs...)
	mu.Lock()
	byHandler := accepted[cfg.stopBy]
	mu.Unlock()
	if byHandler && !settle(stopped.Load) {
		errs.Addf("a handler that stops the pool does not end")
	} else if cfg.stopAt < 0 {
		pool.Stop() // again, perhaps
	}
	c.LabelIf(byHandler, "stopped by a handler")
	if !settle(func() bool { return open.Load() == 0 && pool.Workers() == 0 }) {
		errs.Addf("%d accepted tasks are not handled, %d workers are left", open.Load(), pool.Workers())
	}
	errs.Check(rt)
	mu.Lock()
	defer mu.Unlock()
	n := 0
	for id, ok := range accepted {
		if ok {
			n++
		}
		if ok && handled[id] != 1 {
			rt.Fatalf("task %d was accepted and handled %d times", id, handled[id])
		}
		if !ok && handled[id] != 0 {
			rt.Fatalf("task %d was refused and handled %d times", id, handled[id])
		}
	}
	for id := range handled {
		if _, ok := accepted[id]; !ok {
			rt.Fatalf("task %d was never submitted and handled", id)
		}
	}
	c.NonTrivialIf(n >= 5 && len(cfg.progs) >= 2 || cfg.stopAt >= 0)
	c.LabelIf(n < len(accepted), "tasks refused")
	c.LabelIf(cfg.stopAt >= 0, "stopped early")
}

func TestSched(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 4000, Thorough: 120000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		cfg := draw(rt, c, 1, 12)
		conc.Run(rt, func(rt *rapid.T) {
			run(rt, c, cfg, time.Sleep, func(cond func() bool) bool {
				for range 200 {
					if cond() {
						return true
					}
					time.Sleep(100 * time.Microsecond)
				}
				return cond()
			})
		})
	})
}

// TestBubble runs the same programs in virtual time without drawn schedules:
// ties between submitters, handlers and collections are the rule.
func TestBubble(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6000, Thorough: 100000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		cfg := draw(rt, c, 1, 20)
		vsched.Bubble(rt, func(rt *rapid.T) {
			run(rt, c, cfg, time.Sleep, func(cond func() bool) bool {
				for range 100 {
					synctest.Wait()
					if cond() {
						return true
					}
					time.Sleep(20 * time.Microsecond)
				}
				return false
			})
		})
	})
}

func TestRace(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 800, Thorough: 15000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		cfg := draw(rt, c, 100, 40)
		run(rt, c, cfg, func(d time.Duration) {
			for n := d / 2000; n > 0; n-- {
				vsched.Gosched()
			}
		}, conc.Await)
	})
}

// TestLarge runs hundreds of workers and thousands of tasks in virtual time.
func TestLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 120, Thorough: 10000, Rule: "2 to 12 submitters with 30 to 400 tasks each on pools of 10 to 1000 workers, in virtual time; judged and counted like the small ones"}, func(rt *rapid.T, c *pbt.Case) {
		r := gen.NewRand(rt, "seed")
		cfg := config{
			max:    gen.Large(rt, "max", 10, 1000),
			idle:   time.Duration(rapid.SampledFrom([]int{1, 20, 150, 1000, 20000}).Draw(rt, "idle")),
			gc:     time.Duration(rapid.SampledFrom([]int{60, 150, 700, 5000}).Draw(rt, "gc")),
			stopAt: rapid.SampledFrom([]int{-1, -1, -1, 300, 5000}).Draw(rt, "stopAt"),
		}
		cfg.preheat = rapid.SampledFrom([]int{0, 0, 1, cfg.max / 2, cfg.max}).Draw(rt, "preheat")
		id := 0
		for n := rapid.IntRange(2, 12).Draw(rt, "submitters"); n > 0; n-- {
			p := make([]task, gen.Large(rt, "tasks", 30, 400))
			for i := range p {
				id++
				p[i] = task{id: id, work: []int{0, 1, 50, 400, 3000}[r.N(5)], child: r.N(6) == 0, pause: []int{0, 0, 0, 0, 1, 30, 200, 1500}[r.N(8)]}
			}
			cfg.progs = append(cfg.progs, p)
		}
		c.Logf("max %d preheat %d idle %v gc %v stop %d, %d submitters, %d tasks, seed %x", cfg.max, cfg.preheat, cfg.idle, cfg.gc, cfg.stopAt, len(cfg.progs), id, uint64(*r))
		vsched.Bubble(rt, func(rt *rapid.T) {
			run(rt, c, cfg, time.Sleep, func(cond func() bool) bool {
				for range 100 {
					synctest.Wait()
					if cond() {
						return true
					}
					time.Sleep(20 * time.Microsecond)
				}
				return false
			})
		})
	})
}

// poolOf runs pools whose tasks are plain values, zero, nil and equal ones among them:
// how often each arrived is all there is to compare.
func poolOf[T any](value func(int) T) func(*rapid.T, config) int {
	return func(rt *rapid.T, cfg config) int {
		var mu sync.Mutex
		handled, accepted := map[any]int{}, map[any]int{}
		total, done := 0, 0
		n := 0
		pool, err := gopoolx.NewTimedPool(int64(cfg.max), func(v T) {
			mu.Lock()
			handled[gen.ID(v)]++
			n++
			d := time.Duration(n % 5 * 30)
			mu.Unlock()
			time.Sleep(d)
			mu.Lock()
			done++
			mu.Unlock()
		}, cfg.idle, cfg.gc, cfg.preheat)
		if err != nil {
			rt.Fatalf("NewTimedPool: %v", err)
		}
		var fs []func()
		for _, p := range cfg.progs {
			fs = append(fs, func() {
				for _, t := range p {
					if v := value(t.id); pool.Run(v) {
						mu.Lock()
						accepted[gen.ID(v)]++
						total++
						mu.Unlock()
					}
					time.Sleep(time.Duration(t.pause))
				}
			})
		}
		if cfg.stopAt >= 0 {
			fs = append(fs, func() {
				time.Sleep(time.Duration(cfg.stopAt))
				pool.Stop()
			})
		}
		conc.Par(fs...)
		pool.Stop()
		for range 100 {
			synctest.Wait()
			mu.Lock()
			ok := done == total
			mu.Unlock()
			if ok && pool.Workers() == 0 {
				break
			}
			time.Sleep(20 * time.Microsecond)
		}
		if w := pool.Workers(); w != 0 {
			rt.Fatalf("%d workers are left", w)
		}
		mu.Lock()
		defer mu.Unlock()
		if !maps.Equal(handled, accepted) {
			rt.Fatalf("accepted %v (value: times), handled %v", accepted, handled)
		}
		return total
	}
}

func TestValues(t *testing.T) {
	pools := []struct {
		name string
		run  func(*rapid.T, config) int
	}{
		{"int", poolOf(gen.Few)},
		{"*int", poolOf(gen.MaybeNil)},
		{"any", poolOf(gen.Any)},
		{"string", poolOf(gen.Text)},
		{"struct{}", poolOf(gen.Empty)},
		{"array", poolOf(gen.Array)},
		{"float", poolOf(gen.Floats)},
		{"slice", poolOf(gen.Rows)},
		{"loose", poolOf(gen.Loose)},
		{"record", poolOf(gen.Records)},
	}
	pbt.Check(t, pbt.Opts{Quick: 3000, Thorough: 60000, Rule: "the programs on pools of plain values of several types, zero, nil and equal ones among them, in virtual time; each value must be handled as often as it was accepted; non-trivial: at least five tasks accepted"}, func(rt *rapid.T, c *pbt.Case) {
		p := rapid.SampledFrom(pools).Draw(rt, "pool")
		cfg := draw(rt, c, 1, 12)
		c.Label(p.name)
		vsched.Bubble(rt, func(rt *rapid.T) {
			c.NonTrivialIf(p.run(rt, cfg) >= 5)
		})
	})
}

// TestBusy keeps a few workers busy with hundreds and thousands of tasks each.
func TestBusy(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 150, Thorough: 8000, Rule: "1 to 3 submitters with 200 to 3000 tasks each on pools of 1 to 4 workers that are seldom collected, in virtual time; judged and counted like the small ones"}, func(rt *rapid.T, c *pbt.Case) {
		r := gen.NewRand(rt, "seed")
		cfg := config{
			max:     rapid.IntRange(1, 4).Draw(rt, "max"),
			preheat: rapid.IntRange(0, 2).Draw(rt, "preheat"),
			idle:    time.Duration(rapid.SampledFrom([]int{1000, 100000, 1000000000}).Draw(rt, "idle")),
			gc:      time.Duration(rapid.SampledFrom([]int{5000, 100000, 1000000000}).Draw(rt, "gc")),
			stopAt:  rapid.SampledFrom([]int{-1, -1, -1, 5000, 50000}).Draw(rt, "stopAt"),
		}
		pause := rapid.SampledFrom([]int{1, 20, 100}).Draw(rt, "pause")
		id := 0
		for n := rapid.IntRange(1, 3).Draw(rt, "submitters"); n > 0; n-- {
			p := make([]task, gen.Large(rt, "tasks", 200, 3000))
			for i := range p {
				id++
				p[i] = task{id: id, work: []int{0, 0, 1, 10}[r.N(4)], child: r.N(6) == 0, pause: 1 + r.N(pause)}
			}
			cfg.progs = append(cfg.progs, p)
		}
		c.Logf("max %d preheat %d idle %v gc %v stop %d, %d submitters, %d tasks, pauses up to %d, seed %x", cfg.max, cfg.preheat, cfg.idle, cfg.gc, cfg.stopAt, len(cfg.progs), id, pause, uint64(*r))
		vsched.Bubble(rt, func(rt *rapid.T) {
			run(rt, c, cfg, time.Sleep, func(cond func() bool) bool {
				for range 100 {
					synctest.Wait()
					if cond() {
						return true
					}
					time.Sleep(20 * time.Microsecond)
				}
				return false
			})
		})
	})
}
