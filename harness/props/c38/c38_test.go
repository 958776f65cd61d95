package c38

import (
	"fmt"
	"math"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/unsafe-risk/utilx/timex/sleepx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
	"verif.local/harness/vsched"
)

const rule = "sleeps for seconds, until instants and forever, wake-ups and pauses on one sleeper in virtual time, by one goroutine with exact expectations or by several under drawn schedules; " +
	"non-trivial: a wake-up during a sleep, or a second sleep during the first"

// Instants in place of a year.
const (
	zeroTime = math.MinInt
	epoch    = math.MinInt + 1
)

type op struct {
	kind  int // 0 for, 1 until, 2 forever, 3 wake up
	d     time.Duration
	pause time.Duration
	zone  int // the form of the instant
	year  int // another instant than d from now, far away
}

// longest is the largest number of seconds of a time.Duration.
const longest = math.MaxInt64 / time.Second

// beyond are numbers of seconds no clock will see the end of, most of them longer than a time.Duration.
var beyond = rapid.OneOf(
	rapid.SampledFrom([]time.Duration{longest, longest + 1, 1e10, 18446744073, 18446744074, 1e18, math.MaxInt64, math.MinInt64, -1e10, -1e18, -longest, -longest - 1}),
	rapid.Custom(func(rt *rapid.T) time.Duration { return time.Duration(gen.Wild().Draw(rt, "wild")) }),
	rapid.Custom(func(rt *rapid.T) time.Duration {
		return time.Second * time.Duration(rapid.IntRange(10, 9e9).Draw(rt, "meant as nanoseconds"))
	}),
)

// until is the instant of an operation at a time.
func (o op) until(now time.Time) time.Time {
	t := now.Add(o.d)
	switch o.year {
	case 0:
	case zeroTime:
		t = time.Time{}
	case epoch:
		t = time.Unix(0, 0)
	default:
		t = time.Date(o.year, 3, 4, 5, 6, 7, 8, time.UTC)
	}
	switch o.zone {
	case 1:
		t = t.Round(0) // without the monotonic clock
	case 2:
		t = t.UTC()
	case 3:
		t = t.Round(0).In(time.FixedZone("somewhere", -7*3600-123))
	}
	return t
}

func (o op) String() string {
	return fmt.Sprintf("%s(%d)+%d", []string{"for", "until", "forever", "wake"}[o.kind], o.d, o.pause)
}

// TestReference performs operations one at a time at distinct instants.
func TestReference(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 16000, Thorough: 400000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		unit := rapid.SampledFrom([]time.Duration{1, time.Microsecond, time.Second, time.Hour, 1000 * time.Hour}).Draw(rt, "unit")
		seq := rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) op {
			o := op{kind: rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 3, 3}).Draw(rt, "op")}
			switch o.kind {
			case 0:
				o.d = rapid.OneOf(rapid.SampledFrom([]time.Duration{-5, -1, 0, 1, 1, 2, 3, 10, 60, 3600, 1e6, 1e9}), beyond).Draw(rt, "seconds")
			case 1:
				o.d = unit * time.Duration(rapid.IntRange(-3, 12).Draw(rt, "until"))
				o.zone = rapid.IntRange(0, 3).Draw(rt, "zone")
				if rapid.IntRange(0, 5).Draw(rt, "far") == 0 {
					o.year = rapid.SampledFrom([]int{zeroTime, zeroTime, epoch, -300000, -1, 1, 1600, 1677, 2255, 2263, 2292, 2293, 3000, 9999, 10000, 1 << 30}).Draw(rt, "year")
				}
			}
			o.pause = rapid.OneOf(
				rapid.SampledFrom([]time.Duration{0, 0, unit, time.Second, time.Second - 1, time.Second + 1, time.Minute}),
				rapid.Custom(func(rt *rapid.T) time.Duration { return unit * time.Duration(rapid.IntRange(0, 15).Draw(rt, "p")) }),
			).Draw(rt, "pause")
			return o
		}), 1, 25).Draw(rt, "ops")
		c.Logf("%v", seq)
		vsched.Bubble(rt, func(rt *rapid.T) {
			s := sleepx.New()
			type end struct {
				at time.Time
				ok bool
			}
			sleep := func(o op) chan end {
				ch := make(chan end, 1)
				until := o.until(time.Now())
				go func() {
					var ok bool
					switch o.kind {
					case 0:
						ok = s.SleepFor(o.d)
					case 1:
						ok = s.SleepUntil(until)
					case 2:
						ok = s.SleepForever()
					}
					ch <- end{time.Now(), ok}
				}()
				return ch
			}
			var cur chan end // the sleep in progress
			var deadline time.Time
			forever := false
			defer func() {
				for range 100 {
					synctest.Wait()
					if !s.Wakeup() {
						break
					}
				}
				synctest.Wait()
			}()
			// reap checks a sleep that should have ended by itself.
			reap := func() {
				synctest.Wait()
				if cur == nil {
					return
				}
				select {
				case e := <-cur:
					if forever {
						rt.Fatalf("a sleep forever ended by itself")
					}
					if !e.ok {
						rt.Fatalf("a sleep returned false at its deadline")
					}
					if !e.at.Equal(deadline) {
						rt.Fatalf("a sleep with its deadline at %v ended at %v", deadline, e.at)
					}
					cur = nil
				default:
					if !forever && !time.Now().Before(deadline) {
						rt.Fatalf("a sleep with its deadline at %v goes on at %v", deadline, time.Now())
					}
				}
			}
			for _, o := range seq {
				reap()
				now := time.Now()
				switch {
				case o.kind == 3:
					ok := s.Wakeup()
					if ok != (cur != nil) {
						rt.Fatalf("Wakeup returned %v, sleeping: %v", ok, cur != nil)
					}
					synctest.Wait()
					if cur != nil {
						c.NonTrivial()
						c.Label("woken up")
						select {
						case e := <-cur:
							if !e.ok || !e.at.Equal(now) {
								rt.Fatalf("a woken sleep returned %v after %v", e.ok, e.at.Sub(now))
							}
						default:
							rt.Fatalf("a sleep goes on after a wake-up that reported true")
						}
						cur = nil
					}
				case cur != nil:
					c.NonTrivial()
					c.Label("second sleep")
					ch := sleep(o)
					synctest.Wait()
					select {
					case e := <-ch:
						if e.ok || !e.at.Equal(now) {
							rt.Fatalf("a second sleep returned %v after %v", e.ok, e.at.Sub(now))
						}
					default:
						rt.Fatalf("a second sleep is in progress")
					}
				default:
					deadline = o.until(now)
					if o.kind == 0 {
						deadline = now.Add(max(0, min(o.d, longest)) * time.Second)
					}
					if deadline.Before(now) {
						deadline = now
					}
					forever = o.kind == 2 || deadline.After(theEnd)
					c.LabelIf(o.kind != 2 && forever, "beyond the clock")
					cur = sleep(o)
				}
				reap()
				// no wake-up at the very instant of a deadline: both orders are right
				p := o.pause
				if cur != nil && !forever && now.Add(p).Equal(deadline) {
					p++
				}
				time.Sleep(p)
			}
			reap()
			if cur != nil && !forever {
				time.Sleep(time.Until(deadline))
				reap()
			}
		})
	})
}

// theEnd is when instants no longer fit the clock of the virtual time.
var theEnd = time.Date(2250, 1, 1, 0, 0, 0, 0, time.UTC)

type span struct {
	o         op
	call, ret int64 // ticks
	start     time.Time
	end       time.Time
	deadline  time.Time
	ok, over  bool
}

func overlap(a, b *span) bool { return a.call < b.ret && b.call < a.ret }

func TestSched(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 8000, Thorough: 200000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		progs := make([][]op, rapid.IntRange(1, 4).Draw(rt, "goroutines"))
		pause := rapid.SampledFrom([]time.Duration{0, 0, 1, 30, 200, 1500, 9000})
		for i := range progs {
			progs[i] = rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) op {
				o := op{kind: rapid.SampledFrom([]int{0, 1, 1, 1, 2, 2, 3, 3, 3, 3}).Draw(rt, "op")}
				switch o.kind {
				case 0:
					o.d = rapid.SampledFrom([]time.Duration{-1, 0, 0, 1}).Draw(rt, "seconds")
				case 1:
					o.d = rapid.SampledFrom([]time.Duration{-1, 0, 10, 150, 1000, 5000, 40000}).Draw(rt, "until")
				}
				o.pause = pause.Draw(rt, "pause")
				return o
			}), 1, 6).Draw(rt, "ops")
		}
		c.Logf("%v", progs)
		conc.Run(rt, func(rt *rapid.T) {
			s := sleepx.New()
			var clk conc.Clock
			var mu sync.Mutex
			var sleeps, wakes []*span
			var errs conc.Errs
			// giveUp keeps the failure readable: it ends every sleep it can
			giveUp := func() {
				for range 1000 {
					s.Wakeup()
					time.Sleep(time.Second)
				}
				errs.Check(rt)
			}
			var left atomic.Int64
			left.Store(int64(len(progs)))
			do := func(o op) {
				x := &span{o: o, ret: 1 << 62, start: time.Now()}
				switch o.kind {
				case 0:
					x.deadline = time.Now().Add(max(0, o.d*time.Second))
				case 1:
					x.deadline = time.Now().Add(max(0, o.d))
				}
				mu.Lock()
				if o.kind == 3 {
					wakes = append(wakes, x)
				} else {
					sleeps = append(sleeps, x)
				}
				mu.Unlock()
				var ok bool
				until := time.Now().Add(o.d)
				x.call = clk.Tick()
				switch o.kind {
				case 0:
					ok = s.SleepFor(o.d)
				case 1:
					ok = s.SleepUntil(until)
				case 2:
					ok = s.SleepForever()
				case 3:
					ok = s.Wakeup()
				}
				x.ret = clk.Tick()
				x.end = time.Now()
				x.ok = ok
				x.over = true
			}
			var fs []func()
			for _, p := range progs {
				fs = append(fs, func() {
					defer left.Add(-1)
					for _, o := range p {
						do(o)
						time.Sleep(o.pause)
					}
				})
			}
			fs = append(fs, func() { // ends what sleeps for good
				for left.Load() > 0 {
					time.Sleep(3 * time.Second)
					mu.Lock()
					var forever *span
					n := 0
					rest := true // nothing has happened for a second, and no sleep is before its deadline
					now := time.Now()
					recent := func(at time.Time) bool { return now.Sub(at) < time.Second }
					for _, x := range sleeps {
						rest = rest && !recent(x.start) && !(x.over && recent(x.end))
						if !x.over {
							n++
							forever = x
							rest = rest && (x.o.kind == 2 || !recent(x.deadline))
						}
					}
					for _, w := range wakes {
						rest = rest && !recent(w.start) && !(w.over && recent(w.end))
					}
					mu.Unlock()
					if !rest {
						continue
					}
					if n > 1 {
						errs.Addf("%d sleeps are in progress at rest", n)
						giveUp()
						return
					}
					if n == 0 {
						continue
					}
					if forever.o.kind != 2 {
						errs.Addf("%v has not ended long after its deadline", forever.o)
						giveUp()
						return
					}
					mu.Lock()
					for _, w := range wakes {
						if !w.over || !w.ok {
							continue
						}
						hit := false
						for _, x := range sleeps {
							hit = hit || x.over && x.ok && overlap(x, w)
						}
						if !hit {
							mu.Unlock()
							errs.Addf("a wake-up reported true, but no sleep ended; %v goes on", forever.o)
							giveUp()
							return
						}
					}
					mu.Unlock()
					do(op{kind: 3})
					time.Sleep(time.Second)
					if !forever.over {
						errs.Addf("a sleep forever was not ended by a wake-up at rest")
						giveUp()
						return
					}
				}
			})
			conc.Par(fs...)
			errs.Check(rt)
			for _, x := range sleeps {
				if !x.ok {
					found := false
					for _, y := range sleeps {
						found = found || y != x && y.ok && overlap(x, y)
					}
					if !found {
						rt.Fatalf("%v returned false, although nobody else slept", x.o)
					}
					c.NonTrivial()
					c.Label("second sleep")
					continue
				}
				if x.o.kind != 2 && !x.end.Before(x.deadline) {
					continue
				}
				found := false
				for _, w := range wakes {
					found = found || w.ok && overlap(x, w)
				}
				if !found {
					rt.Fatalf("%v ended early, although no wake-up that reported true arrived", x.o)
				}
				c.NonTrivial()
				c.Label("woken up")
			}
			for _, w := range wakes {
				if !w.ok {
					continue
				}
				found := false
				for _, x := range sleeps {
					found = found || x.ok && overlap(x, w)
				}
				if !found {
					rt.Fatalf("a wake-up reported true, although nobody slept")
				}
			}
		})
	})
}

func TestRace(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 1600, Thorough: 30000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(1, 5).Draw(rt, "sleepers")
		k := rapid.IntRange(1, 20).Draw(rt, "sleeps")
		w := rapid.IntRange(1, 4).Draw(rt, "wakers")
		span := rapid.SampledFrom([]int{0, 1, 20, 200}).Draw(rt, "micros")
		kinds := rapid.SliceOfN(rapid.IntRange(0, 3), 4, 4).Draw(rt, "kinds")
		c.Logf("%d sleepers of %d sleeps %v, %d wakers, %d us", n, k, kinds, w, span)
		c.NonTrivialIf(n > 1)
		s := sleepx.New()
		var left atomic.Int64
		left.Store(int64(n))
		var good, woken atomic.Int64
		var fs []func()
		for g := range n {
			fs = append(fs, func() {
				defer left.Add(-1)
				for i := range k {
					ok := false
					switch kinds[(g+i)%4] {
					case 0:
						ok = s.SleepFor(0)
					case 1, 2:
						ok = s.SleepUntil(time.Now().Add(time.Duration(span) * time.Microsecond))
					case 3:
						ok = s.SleepForever()
					}
					if ok {
						good.Add(1)
					}
				}
			})
		}
		for range w {
			fs = append(fs, func() {
				for left.Load() > 0 {
					if s.Wakeup() {
						woken.Add(1)
					}
					vsched.Gosched()
				}
			})
		}
		conc.Par(fs...)
		if s.Wakeup() {
			rt.Fatalf("Wakeup reported true, although nobody sleeps")
		}
		if good.Load() == 0 {
			rt.Fatalf("every sleep was refused")
		}
	})
}
