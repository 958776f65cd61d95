package c36

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"testing"
	"time"
	"unsafe"

	"github.com/unsafe-risk/utilx/syncx/lockx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
	"verif.local/harness/vsched"
)

const rule = "2..6 goroutines make lock calls on 1..4 variables of one of ten types (nested in an order, and on a struct together with its first field), with functions that read, rewrite and keep the value while yielding; " +
	"every call must exclude the others on the same variable, get that variable and return after its function; non-trivial: two goroutines call on the same variable"

// cell is a variable under test with what the check knows about it. in and sum
// are plain: a broken lock shows as a data race, or as a wrong count.
type cell struct {
	in      atomic.Int32
	entered int
	call    func(f func(same bool)) // locks the variable
	touch   func(n int)             // rewrites the value, called inside
	value   func() string           // the value, called inside
}

func mk[T any](p *T, vals ...T) *cell {
	return &cell{
		call: func(f func(bool)) {
			lockx.Lock(p, func(q *T) { f(p == q) })
		},
		touch: func(n int) { *p = vals[n%len(vals)] },
		value: func() string { return fmt.Sprintf("%#v", *p) },
	}
}

type pair struct {
	first int
	rest  [3]string
}

type node struct {
	next *node
	n    int
}

func cells(rt *rapid.T, n int) (cs []*cell, kind string) {
	kind = rapid.SampledFrom([]string{"int", "bytes of an array", "bool", "string", "float", "slice", "map", "struct and field", "any", "pointer", "func"}).Draw(rt, "type")
	switch kind {
	case "int":
		for range n {
			cs = append(cs, mk(new(int), 0, 1, -1, 1<<62))
		}
	case "bytes of an array":
		a := new([8]byte)
		for i := range n {
			cs = append(cs, mk(&a[i], 0, 1, 255))
		}
	case "bool":
		a := make([]bool, n)
		for i := range n {
			cs = append(cs, mk(&a[i], false, true))
		}
	case "string":
		for range n {
			cs = append(cs, mk(new(string), "", "x", "a longer text that is shared"))
		}
	case "float":
		var z float64
		for range n {
			cs = append(cs, mk(new(float64), 0, -z, z/z, 1))
		}
	case "slice":
		for range n {
			cs = append(cs, mk(new([]int), nil, []int{}, []int{1, 2}))
		}
	case "map":
		m := map[string]int{}
		for range n {
			cs = append(cs, mk(new(map[string]int), nil, m))
		}
	case "struct and field":
		for len(cs) < n {
			p := new(pair)
			cs = append(cs, mk(p, pair{}, pair{first: 1}, pair{rest: [3]string{"a"}}))
			f := mk(&p.first)
			f.touch = func(int) {} // belongs to the struct
			f.value = func() string { return "" }
			cs = append(cs, f)
		}
		cs = cs[:n]
	case "any":
		for range n {
			cs = append(cs, mk(new(any), nil, any(1), any("x"), any([]int{1}), any(map[int]int{}), any(func() {})))
			cs[len(cs)-1].value = func() string { return "" }
		}
	case "pointer":
		x := &node{n: 1}
		x.next = x
		for range n {
			p := new(*node)
			c := mk(p, nil, x)
			c.value = func() string { return fmt.Sprint(unsafe.Pointer(*p)) }
			cs = append(cs, c)
		}
	case "func":
		for range n {
			c := mk(new(func()), nil, func() {})
			c.value = func() string { return "" }
			cs = append(cs, c)
		}
	}
	return
}

type step struct {
	cell, nested int // nested: number of further cells locked inside, in order
	write, work  int
}

func program(rt *rapid.T, c *pbt.Case, gs, calls, maxWork int, yield func()) {
	cs, kind := cells(rt, rapid.IntRange(1, 4).Draw(rt, "vars"))
	progs := make([][]step, rapid.IntRange(2, gs).Draw(rt, "goroutines"))
	for i := range progs {
		progs[i] = rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) step {
			return step{
				rapid.IntRange(0, len(cs)-1).Draw(rt, "var"),
				rapid.SampledFrom([]int{0, 0, 0, 1, 3}).Draw(rt, "nested"),
				rapid.IntRange(-2, 5).Draw(rt, "write"),
				rapid.IntRange(0, maxWork).Draw(rt, "work"),
			}
		}), 1, calls).Draw(rt, "calls")
	}
	c.Logf("%d variables (%s), calls %v", len(cs), kind, progs)
	c.Label("type " + kind)
	users := map[int]int{}
	for i, p := range progs {
		for _, s := range p {
			for k := s.cell; k <= s.cell+s.nested && k < len(cs); k++ {
				if u, ok := users[k]; ok && u != i {
					c.NonTrivial()
				}
				users[k] = i
			}
		}
	}
	var errs conc.Errs
	want := make([]atomic.Int64, len(cs))
	var lock func(k, last int, s step)
	lock = func(k, last int, s step) {
		runs := 0
		over := false
		cs[k].call(func(same bool) {
			if n := cs[k].in.Add(1); n != 1 {
				errs.Addf("%d functions run at once on one variable (%s)", n, kind)
			}
			if !same {
				errs.Addf("the function got another variable (%s)", kind)
			}
			runs++
			cs[k].entered++
			if s.write >= 0 {
				cs[k].touch(s.write)
			}
			before := cs[k].value()
			for range s.work {
				yield()
			}
			if k < last {
				lock(k+1, last, s)
			}
			if v := cs[k].value(); v != before {
				errs.Addf("the variable changed from %s to %s during the call", before, v)
			}
			cs[k].in.Add(-1)
			over = true
		})
		if runs != 1 || !over {
			errs.Addf("Lock returned after %d runs of the function (completed: %v)", runs, over)
		}
		want[k].Add(1)
	}
	var fs []func()
	for _, p := range progs {
		fs = append(fs, func() {
			for _, s := range p {
				lock(s.cell, min(s.cell+s.nested, len(cs)-1), s)
			}
		})
	}
	conc.Par(fs...)
	errs.Check(rt)
	for k := range cs {
		if int64(cs[k].entered) != want[k].Load() {
			rt.Fatalf("%d functions ran on variable %d in %d calls", cs[k].entered, k, want[k].Load())
		}
	}
}

func TestSched(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6000, Thorough: 150000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		conc.Run(rt, func(rt *rapid.T) {
			program(rt, c, 4, 5, 12, func() { vsched.Y(); time.Sleep(7) })
		})
	})
}

func TestRace(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 2400, Thorough: 40000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		program(rt, c, 6, 40, 6, runtime.Gosched)
	})
}

// TestMany has more goroutines and variables, and functions that take long.
func TestMany(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 60, Thorough: 3000, Rule: "up to 40 goroutines with up to 100 calls each on 1..300 variables, some functions yielding up to 300000 times; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		vars := make([]struct {
			in    atomic.Int32
			n     int
			calls atomic.Int64
		}, gen.Large(rt, "variables", 1, 300))
		gs := rapid.IntRange(2, 40).Draw(rt, "goroutines")
		long := rapid.SampledFrom([]int{0, 100, 5000, 300000}).Draw(rt, "long")
		c.Logf("%d variables, %d goroutines, up to %d yields", len(vars), gs, long)
		c.NonTrivial()
		var errs conc.Errs
		var fs []func()
		for g := range gs {
			r := gen.NewRand(rt, "seed")
			fs = append(fs, func() {
				for k := r.N(100); k >= 0; k-- {
					v := &vars[r.N(len(vars))]
					ran := false
					lockx.Lock(&v.n, func(p *int) {
						if n := v.in.Add(1); n != 1 || p != &v.n {
							errs.Addf("%d functions run at once on one variable", n)
						}
						n := *p
						if long > 0 && g < 2 && k%16 == 0 {
							for range r.N(long) {
								runtime.Gosched()
							}
						}
						*p = n + 1
						ran = true
						v.in.Add(-1)
					})
					if !ran {
						errs.Addf("Lock returned without its function having run")
					}
					v.calls.Add(1)
				}
			})
		}
		conc.Par(fs...)
		errs.Check(rt)
		for i := range vars {
			if int64(vars[i].n) != vars[i].calls.Load() {
				rt.Fatalf("variable %d was counted up to %d in %d calls", i, vars[i].n, vars[i].calls.Load())
			}
		}
	})
}

// TestHold has functions that take a long real time while others wait for the same variable.
func TestHold(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 24, Thorough: 600, Rule: "2..5 goroutines on one or two variables whose functions last up to 1500 ms of real time; non-trivial: two goroutines call on a variable held for at least 100 ms"}, func(rt *rapid.T, c *pbt.Case) {
		vars := make([]struct {
			in    atomic.Int32
			n     int
			calls int
		}, rapid.IntRange(1, 2).Draw(rt, "variables"))
		type call struct {
			v    int
			hold time.Duration
		}
		progs := make([][]call, rapid.IntRange(2, 5).Draw(rt, "goroutines"))
		left := 2000 * time.Millisecond
		users := make([]int, len(vars))
		longest := make([]time.Duration, len(vars))
		for i := range progs {
			used := make([]bool, len(vars))
			for range rapid.IntRange(1, 3).Draw(rt, "calls") {
				d := time.Duration(rapid.SampledFrom([]int{0, 0, 1, 30, 250, 1500}).Draw(rt, "ms")) * time.Millisecond
				if i == 0 && len(progs[0]) == 0 {
					d = time.Duration(rapid.SampledFrom([]int{100, 400, 1500}).Draw(rt, "ms")) * time.Millisecond
				}
				d = min(d, left)
				left -= d
				k := rapid.IntRange(0, len(vars)-1).Draw(rt, "var")
				progs[i] = append(progs[i], call{k, d})
				vars[k].calls++
				longest[k] = max(longest[k], d)
				if !used[k] {
					used[k] = true
					users[k]++
				}
			}
		}
		c.Logf("%d variables, calls %v", len(vars), progs)
		for k := range vars {
			c.NonTrivialIf(users[k] >= 2 && longest[k] >= 100*time.Millisecond)
		}
		var errs conc.Errs
		var fs []func()
		for _, p := range progs {
			fs = append(fs, func() {
				for _, s := range p {
					v := &vars[s.v]
					ran := false
					lockx.Lock(&v.n, func(p *int) {
						if n := v.in.Add(1); n != 1 || p != &v.n {
							errs.Addf("%d functions run at once on one variable", n)
						}
						n := *p
						time.Sleep(s.hold)
						*p = n + 1
						ran = true
						v.in.Add(-1)
					})
					if !ran {
						errs.Addf("Lock returned without its function having run")
					}
				}
			})
		}
		conc.Par(fs...)
		errs.Check(rt)
		for i := range vars {
			if vars[i].n != vars[i].calls {
				rt.Fatalf("variable %d was counted up to %d in %d calls", i, vars[i].n, vars[i].calls)
			}
		}
	})
}

// TestDeep has one goroutine hold thousands of variables while others call on some of them and on free ones.
func TestDeep(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 80, Thorough: 4000, Rule: "calls nested 2 to 5000 deep, each on a variable of its own, while up to four goroutines call on some of these variables and on others; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		deep := gen.Large(rt, "deep", 2, 5000)
		free := rapid.IntRange(0, 50).Draw(rt, "free")
		vars := make([]struct {
			in    atomic.Int32
			n     int
			calls int
		}, deep+free)
		gs := rapid.IntRange(1, 4).Draw(rt, "goroutines")
		pause := rapid.IntRange(0, 3).Draw(rt, "pause")
		c.Logf("%d deep, %d free, %d goroutines", deep, free, gs)
		c.NonTrivial()
		var errs conc.Errs
		lock := func(k int, f func()) {
			v := &vars[k]
			ran := false
			lockx.Lock(&v.n, func(p *int) {
				if n := v.in.Add(1); n != 1 || p != &v.n {
					errs.Addf("%d functions run at once on one variable, %d deep", n, k)
				}
				*p++
				f()
				ran = true
				v.in.Add(-1)
			})
			if !ran {
				errs.Addf("Lock returned without its function having run")
			}
		}
		held := make(chan struct{})
		var nest func(k int)
		nest = func(k int) {
			if k == deep {
				close(held)
				time.Sleep(time.Duration(pause) * time.Millisecond)
				return
			}
			lock(k, func() { nest(k + 1) })
		}
		fs := []func(){func() { nest(0) }}
		for k := range deep {
			vars[k].calls++
		}
		for range gs {
			var ks []int
			for range rapid.IntRange(1, 5).Draw(rt, "calls") {
				k := rapid.SampledFrom([]int{0, deep - 1, rapid.IntRange(0, deep-1).Draw(rt, "held"), rapid.IntRange(0, deep+free-1).Draw(rt, "any")}).Draw(rt, "var")
				ks = append(ks, k)
				vars[k].calls++
			}
			fs = append(fs, func() {
				<-held
				for _, k := range ks {
					lock(k, func() {})
				}
			})
		}
		conc.Par(fs...)
		errs.Check(rt)
		for i := range vars {
			if vars[i].n != vars[i].calls {
				rt.Fatalf("variable %d was counted up to %d in %d calls", i, vars[i].n, vars[i].calls)
			}
		}
	})
}
