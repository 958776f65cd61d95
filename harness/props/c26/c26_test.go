package c26

import (
	"runtime"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/unsafe-risk/utilx/functionalx/lazyx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
	"verif.local/harness/vsched"
)

const rule = "one to eight goroutines getting a lazy value (pointer, large struct, slice, string, interface, zero values included) one to four times each, the constructor taking several steps; " +
	"non-trivial: at least two goroutines"

type big struct {
	a [40]int
	p *int
}

type kind struct {
	name string
	run  func(rt *rapid.T, c *pbt.Case, progs []int, steps int, slow bool)
}

// exercise checks one lazy value; make builds the value step by step and same
// tells whether a value got from the lazy is the complete constructed one.
func exercise[T any](rt *rapid.T, progs []int, steps int, slow bool, make func(step func()) T, same func(T) bool) {
	var calls, done, early atomic.Int64
	var errs conc.Errs
	conc.Run(rt, func(rt *rapid.T) {
		l := lazyx.New(func() T {
			calls.Add(1)
			v := make(func() {
				for range steps {
					vsched.Y()
				}
				if slow {
					time.Sleep(20 * time.Microsecond)
				}
			})
			vsched.Y()
			done.Add(1)
			return v
		})
		vsched.Y()
		if calls.Load() != 0 {
			early.Add(1)
		}
		var fs []func()
		for _, gets := range progs {
			fs = append(fs, func() {
				for range gets {
					v := l.Get()
					if done.Load() != 1 {
						errs.Addf("Get returned before the constructor had finished (%d finished)", done.Load())
					}
					if !same(v) {
						errs.Addf("Get returned %v, not the constructed value", v)
					}
					vsched.Y()
				}
			})
		}
		conc.Par(fs...)
		if !same(l.Get()) {
			errs.Addf("a late Get returned something else")
		}
	})
	if early.Load() > 0 {
		rt.Fatalf("the constructor ran before the first Get")
	}
	errs.Check(rt)
	if calls.Load() != 1 {
		rt.Fatalf("the constructor ran %d times", calls.Load())
	}
}

func prop(rt *rapid.T, c *pbt.Case) {
	progs := rapid.SliceOfN(rapid.IntRange(1, 4), 1, 8).Draw(rt, "gets")
	steps := rapid.IntRange(0, 4).Draw(rt, "steps")
	slow := rapid.IntRange(0, 3).Draw(rt, "slow") == 0
	k := rapid.SampledFrom([]string{"pointer", "struct", "slice", "string", "error", "zero int", "nil pointer", "nil error", "nil slice", "empty string"}).Draw(rt, "kind")
	c.Label(k)
	c.Logf("%s gets %v steps %d slow %v", k, progs, steps, slow)
	c.NonTrivialIf(len(progs) >= 2)
	switch k {
	case "pointer":
		var made *big
		exercise(rt, progs, steps, slow, func(step func()) *big {
			b := &big{}
			for i := range b.a {
				b.a[i] = i + 1
				if i == 20 {
					step()
				}
			}
			b.p = &b.a[3]
			made = b
			return b
		}, func(b *big) bool { return b != nil && b == made && b.a[39] == 40 && b.p == &b.a[3] })
	case "struct":
		x := 5
		exercise(rt, progs, steps, slow, func(step func()) (b big) {
			for i := range b.a {
				b.a[i] = i + 1
			}
			step()
			b.p = &x
			return
		}, func(b big) bool {
			for i := range b.a {
				if b.a[i] != i+1 {
					return false
				}
			}
			return b.p == &x
		})
	case "slice":
		exercise(rt, progs, steps, slow, func(step func()) []int {
			s := []int{1}
			step()
			return append(s, 2, 3)
		}, func(s []int) bool { return len(s) == 3 && s[0] == 1 && s[1] == 2 && s[2] == 3 })
	case "string":
		exercise(rt, progs, steps, slow, func(step func()) string { step(); return "value" }, func(s string) bool { return s == "value" })
	case "error":
		e := &myErr{}
		exercise(rt, progs, steps, slow, func(step func()) error { step(); return e }, func(x error) bool { return x == error(e) })
	case "zero int":
		exercise(rt, progs, steps, slow, func(step func()) int { step(); return 0 }, func(i int) bool { return i == 0 })
	case "nil pointer":
		exercise(rt, progs, steps, slow, func(step func()) *int { step(); return nil }, func(p *int) bool { return p == nil })
	case "nil error":
		exercise(rt, progs, steps, slow, func(step func()) error { step(); return nil }, func(e error) bool { return e == nil })
	case "nil slice":
		exercise(rt, progs, steps, slow, func(step func()) []int { step(); return nil }, func(s []int) bool { return s == nil })
	case "empty string":
		exercise(rt, progs, steps, slow, func(step func()) string { step(); return "" }, func(s string) bool { return s == "" })
	}
}

type myErr struct{ _ int }

func (*myErr) Error() string { return "my" }

func TestSched(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 8000, Thorough: 200000, Rule: rule}, prop)
}

func TestRace(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6000, Thorough: 100000, Rule: rule}, prop)
}

// TestNested: lazies that get other lazies while they are constructed.
func TestNested(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 5000, Thorough: 100000, Rule: "chains of lazies whose constructors get others, got in a drawn order; non-trivial: two or more got"}, func(rt *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(1, 8).Draw(rt, "n")
		calls := make([]int, n)
		ls := make([]*lazyx.Lazy[int], n)
		dep := make([]int, n)
		want := make([]int, n)
		need := make([]bool, n)
		for i := range ls {
			dep[i] = -1
			want[i] = rapid.IntRange(-1, 3).Draw(rt, "v")
			own := want[i]
			if i > 0 && rapid.Bool().Draw(rt, "dep") {
				dep[i] = rapid.IntRange(0, i-1).Draw(rt, "on")
				want[i] += want[dep[i]]
			}
			ls[i] = lazyx.New(func() int {
				calls[i]++
				if dep[i] >= 0 {
					return own + ls[dep[i]].Get()
				}
				return own
			})
		}
		order := rapid.SliceOfN(rapid.IntRange(0, n-1), 0, 20).Draw(rt, "order")
		c.Logf("deps %v order %v", dep, order)
		c.NonTrivialIf(len(order) > 1)
		for _, i := range order {
			if got := ls[i].Get(); got != want[i] {
				rt.Fatalf("Get = %d, want %d", got, want[i])
			}
			for j := i; j >= 0; j = dep[j] {
				need[j] = true
			}
			for j := range calls {
				if b := need[j]; (calls[j] == 1) != b || calls[j] > 1 {
					rt.Fatalf("constructor %d ran %d times (needed: %v)", j, calls[j], b)
				}
			}
		}
	})
}

// TestMany: many values got by many goroutines.
func TestMany(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 150, Thorough: 8000, Rule: "1..2000 lazy values got by 2..300 goroutines, in orders of their own, again and again; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		n, gs := gen.Large(rt, "values", 1, 2000), gen.Large(rt, "goroutines", 2, 300)
		r := gen.NewRand(rt, "seed")
		c.Logf("%d values, %d goroutines, seed %x", n, gs, uint64(*r))
		c.NonTrivial()
		calls := make([]atomic.Int64, n)
		ls := make([]*lazyx.Lazy[[2]int], n)
		for i := range ls {
			ls[i] = lazyx.New(func() [2]int {
				k := calls[i].Add(1)
				if i%7 == 0 {
					runtime.Gosched()
				}
				return [2]int{i, int(k)}
			})
		}
		var errs conc.Errs
		var fs []func()
		for range gs {
			r := gen.Rand(r.Uint64())
			fs = append(fs, func() {
				at := r.N(n)
				for k := range min(n, 200) {
					i := (at + k) % n
					if k > 150 {
						i = r.N(n)
					}
					if got := ls[i].Get(); got != [2]int{i, 1} {
						errs.Addf("Get of value %d gives %v", i, got)
						return
					}
				}
			})
		}
		conc.Par(fs...)
		errs.Check(rt)
		for i := range calls {
			if k := calls[i].Load(); k > 1 {
				rt.Fatalf("the constructor of value %d ran %d times", i, k)
			}
		}
	})
}

// TestVirtual: constructors that take up to years, in virtual time.
func TestVirtual(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 3000, Thorough: 60000, Rule: "a value whose constructor sleeps from a microsecond to ten years of virtual time, got one to four times with pauses of as long between; non-trivial: at least a second of construction"}, func(rt *rapid.T, c *pbt.Case) {
		d := func(label string) time.Duration {
			unit := rapid.SampledFrom([]time.Duration{0, time.Microsecond, time.Millisecond, time.Second, time.Minute, time.Hour, 24 * time.Hour, 365 * 24 * time.Hour}).Draw(rt, label)
			return unit * time.Duration(rapid.IntRange(1, 10).Draw(rt, label))
		}
		before, hold, pause := d("before"), d("hold"), d("pause")
		gets := rapid.IntRange(1, 4).Draw(rt, "gets")
		c.Logf("after %v, for %v, %d gets %v apart", before, hold, gets, pause)
		c.NonTrivialIf(hold >= time.Second)
		vsched.Bubble(rt, func(rt *rapid.T) {
			var calls atomic.Int64
			ctor := func() int64 {
				time.Sleep(hold)
				return calls.Add(1)
			}
			l := lazyx.New(ctor)
			time.Sleep(before)
			synctest.Wait()
			if calls.Load() != 0 {
				rt.Fatalf("the constructor ran before the first Get")
			}
			for k := range gets {
				if v := l.Get(); v != 1 {
					rt.Fatalf("Get %d = %d, want the value of the first construction", k, v)
				}
				time.Sleep(pause)
			}
			synctest.Wait()
			if n := calls.Load(); n != 1 {
				rt.Fatalf("the constructor ran %d times", n)
			}
		})
	})
}

// TestHold: constructors that take seconds of real time while others wait.
func TestHold(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6, Thorough: 120, Rule: "2..8 lazy values whose constructors take up to 6 s of real time, each got by 1..6 goroutines at once; non-trivial: a value that takes a second or more is got by two goroutines"}, func(rt *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(2, 8).Draw(rt, "values")
		calls := make([]atomic.Int64, n)
		var errs conc.Errs
		var fs []func()
		for i := range n {
			hold := time.Duration(rapid.SampledFrom([]int{0, 1, 60, 600, 1500, 3500, 6000}).Draw(rt, "ms")) * time.Millisecond
			l := lazyx.New(func() *int64 {
				k := calls[i].Add(1)
				time.Sleep(hold)
				return &k
			})
			gets := rapid.IntRange(1, 6).Draw(rt, "gets")
			c.Logf("%v got %d times", hold, gets)
			c.NonTrivialIf(hold >= time.Second && gets > 1)
			for range gets {
				fs = append(fs, func() {
					if v := l.Get(); v == nil || *v != 1 {
						errs.Addf("Get of a value constructed for %v gives %v", hold, v)
					}
				})
			}
		}
		conc.Par(fs...)
		errs.Check(rt)
		for i := range calls {
			if k := calls[i].Load(); k != 1 {
				rt.Fatalf("the constructor of value %d ran %d times", i, k)
			}
		}
	})
}
