package c44

import (
	"fmt"
	"slices"
	"sync"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/unsafe-risk/utilx/typex/convx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
	"verif.local/harness/vsched"
)

const rule = "1..4 goroutines register, remove, query and convert on a few of nine pairs while converters convert, register and remove themselves; the history of each pair must fit a sequence of registrations; " +
	"non-trivial: two goroutines use the same pair, or a converter calls the registry"

type (
	a int
	b int
	d string
)

// what a converter does besides converting
type inner struct {
	kind, pair int
	next       *inner
}

type step struct {
	kind, pair int
	in         *inner // of the registered converter
}

func (s step) String() string {
	r := fmt.Sprintf("%s %d", []string{"register", "remove", "exists", "into", "intoOr"}[s.kind], s.pair)
	for i := s.in; i != nil; i = i.next {
		r += fmt.Sprintf(" {%s %d}", []string{"register", "remove", "exists", "into", "intoOr"}[i.kind], i.pair)
	}
	return r
}

type env struct {
	clk  conc.Clock
	mu   sync.Mutex
	hist []porcupine.Operation
	next int
	errs conc.Errs
}

type in struct {
	kind, pair, id int
}
type out struct {
	ok bool
	id int
}

func (e *env) rec(i in, o out, call, ret int64) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.hist = append(e.hist, porcupine.Operation{ClientId: len(e.hist), Input: i, Output: o, Call: call, Return: ret})
}

// pairOps are the registry calls for one pair.
type pairOps struct {
	register   func(e *env, id int, x *inner)
	unregister func()
	exists     func() bool
	into       func(e *env, depth int) (id int, ok bool, began int64)
	intoOr     func(e *env, depth int) (id int, ok bool, began int64)
}

// The value converted is a key into slots, where the converter leaves its id.
type slot struct {
	id    int
	began int64
	n     int
	depth int
}

var (
	slotMu sync.Mutex
	slots  []*slot
)

func newSlot(depth int) int {
	slotMu.Lock()
	defer slotMu.Unlock()
	slots = append(slots, &slot{depth: depth})
	return len(slots)
}

func getSlot(k int) *slot { slotMu.Lock(); defer slotMu.Unlock(); return slots[k-1] }

type kind[T any] struct {
	mk  func(k int) T
	num func(v T) int
}

var (
	ka = kind[a]{func(k int) a { return a(k) }, func(v a) int { return int(v) }}
	kb = kind[b]{func(k int) b { return b(k) }, func(v b) int { return int(v) }}
	kd = kind[d]{func(k int) d { return d(fmt.Sprint(k)) }, func(v d) int {
		n := 0
		fmt.Sscan(string(v), &n)
		return n
	}}
)

func mkPair[T comparable, R comparable](x kind[T], y kind[R], pair int) pairOps {
	conv := func(e *env, depth int, f func(v T) (R, bool)) (int, bool, int64) {
		k := newSlot(depth)
		r, ok := f(x.mk(k))
		s := getSlot(k)
		if ok != (s.n == 1) || s.n > 1 {
			e.errs.Addf("a conversion reported %v after %d converter calls", ok, s.n)
		}
		if ok && y.num(r) != k {
			e.errs.Addf("a conversion returned another call's result")
		}
		return s.id, ok, s.began
	}
	return pairOps{
		register: func(e *env, id int, inn *inner) {
			convx.Register(func(v T) R {
				k := x.num(v)
				s := getSlot(k)
				s.began = e.clk.Tick()
				s.id = id
				s.n++
				for i := inn; i != nil && s.depth < 3; i = i.next {
					e.do(i.kind, i.pair, nil, s.depth+1)
				}
				return y.mk(k)
			})
		},
		unregister: convx.Unregister[T, R],
		exists:     convx.Exists[T, R],
		into: func(e *env, depth int) (int, bool, int64) {
			return conv(e, depth, func(v T) (R, bool) {
				r, ok := convx.Into[T, R](v)
				var z R
				if !ok && r != z {
					e.errs.Addf("a failed conversion returned %v", r)
				}
				return r, ok
			})
		},
		intoOr: func(e *env, depth int) (int, bool, int64) {
			return conv(e, depth, func(v T) (R, bool) {
				r := convx.IntoOr(v, y.mk(1<<40))
				return r, r != y.mk(1<<40)
			})
		},
	}
}

var pairs []pairOps

func init() {
	pairs = []pairOps{
		mkPair(ka, ka, 0), mkPair(ka, kb, 1), mkPair(ka, kd, 2),
		mkPair(kb, ka, 3), mkPair(kb, kb, 4), mkPair(kb, kd, 5),
		mkPair(kd, ka, 6), mkPair(kd, kb, 7), mkPair(kd, kd, 8),
	}
}

// do performs one registry call and records it.
func (e *env) do(kind, pair int, x *inner, depth int) {
	p := pairs[pair]
	i := in{kind: kind, pair: pair}
	var o out
	call := e.clk.Tick()
	var ret int64
	switch kind {
	case 0:
		e.mu.Lock()
		e.next++
		i.id = e.next
		e.mu.Unlock()
		p.register(e, i.id, x)
	case 1:
		p.unregister()
	case 2:
		o.ok = p.exists()
	case 3, 4:
		f := p.into
		if kind == 4 {
			f = p.intoOr
		}
		var began int64
		o.id, o.ok, began = f(e, depth)
		if o.ok { // the converter was looked up before it began
			ret = began
		}
	}
	if ret == 0 {
		ret = e.clk.Tick()
	}
	e.rec(i, o, call, ret)
}

var model = porcupine.Model{
	Partition: func(h []porcupine.Operation) (res [][]porcupine.Operation) {
		by := map[int][]porcupine.Operation{}
		for _, o := range h {
			p := o.Input.(in).pair
			by[p] = append(by[p], o)
		}
		for _, x := range by {
			res = append(res, x)
		}
		return
	},
	Init: func() any { return 0 },
	Step: func(s, i, o any) (bool, any) {
		have, x, y := s.(int), i.(in), o.(out)
		switch x.kind {
		case 0:
			return true, x.id
		case 1:
			return true, 0
		case 2:
			return y.ok == (have != 0), have
		}
		return y.ok == (have != 0) && (have == 0 || y.id == have), have
	},
}

func draw(rt *rapid.T, c *pbt.Case, gs, length int) [][]step {
	focus := rapid.SliceOfN(rapid.IntRange(0, 8), 1, 3).Draw(rt, "pairs")
	kinds := rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3, 3, 3, 4, 4})
	var mk func(n int) *inner
	mk = func(n int) *inner {
		if n == 0 {
			return nil
		}
		return &inner{kinds.Draw(rt, "inner"), rapid.SampledFrom(focus).Draw(rt, "innerPair"), mk(n - 1)}
	}
	progs := make([][]step, rapid.IntRange(1, gs).Draw(rt, "goroutines"))
	users := map[int]int{}
	for i := range progs {
		for range rapid.IntRange(1, length).Draw(rt, "calls") {
			s := step{kind: kinds.Draw(rt, "op"), pair: rapid.SampledFrom(focus).Draw(rt, "pair")}
			if s.kind == 0 {
				s.in = mk(rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(rt, "inner calls"))
				if s.in != nil {
					c.NonTrivial()
					c.Label("converter calls the registry")
				}
			}
			if u, ok := users[s.pair]; ok && u != i {
				c.NonTrivial()
			}
			users[s.pair] = i
			progs[i] = append(progs[i], s)
		}
	}
	c.Logf("%v", progs)
	return progs
}

func run(rt *rapid.T, progs [][]step) *env {
	slotMu.Lock()
	slots = nil
	slotMu.Unlock()
	for _, p := range pairs {
		p.unregister()
	}
	e := &env{}
	var fs []func()
	for _, p := range progs {
		fs = append(fs, func() {
			for _, s := range p {
				e.do(s.kind, s.pair, s.in, 0)
				vsched.Y()
			}
		})
	}
	conc.Par(fs...)
	return e
}

func judge(rt *rapid.T, c *pbt.Case, e *env) {
	e.errs.Check(rt)
	switch porcupine.CheckOperationsTimeout(model, e.hist, 20*time.Second) {
	case porcupine.Illegal:
		slices.SortFunc(e.hist, func(a, b porcupine.Operation) int { return int(a.Call - b.Call) })
		s := ""
		for _, o := range e.hist {
			s += fmt.Sprintf("\n[%d,%d] %+v -> %+v", o.Call, o.Return, o.Input, o.Output)
		}
		rt.Fatalf("no order of the calls explains their results (kinds: 0 register, 1 remove, 2 exists, 3 into, 4 intoOr):%s", s)
	case porcupine.Unknown:
		c.Label("undecided")
	}
}

// TestNested runs everything in one goroutine: nesting without concurrency.
func TestNested(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 30000, Thorough: 600000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		progs := draw(rt, c, 1, 15)
		judge(rt, c, run(rt, progs))
	})
}

func TestSched(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 8000, Thorough: 250000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		progs := draw(rt, c, 4, 6)
		var e *env
		conc.Run(rt, func(rt *rapid.T) { e = run(rt, progs) })
		judge(rt, c, e)
	})
}

func TestRace(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 4000, Thorough: 80000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		progs := draw(rt, c, 6, 25)
		judge(rt, c, run(rt, progs))
	})
}

// TestMany: thousands of calls in parallel, each goroutine on a pair of its own, so that every answer is determined.
func TestMany(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 60, Thorough: 6000, Rule: "two to nine goroutines with up to 5000 calls each, a goroutine on a pair of its own; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		for _, p := range pairs {
			p.unregister()
		}
		var es conc.Errs
		all := []func(r *gen.Rand, n int, es *conc.Errs){owner(ka, ka), owner(ka, kb), owner(ka, kd), owner(kb, ka), owner(kb, kb), owner(kb, kd), owner(kd, ka), owner(kd, kb), owner(kd, kd)}
		var fs []func()
		for i := range rapid.IntRange(2, 9).Draw(rt, "goroutines") {
			r := gen.NewRand(rt, "seed")
			n := gen.Large(rt, "calls", 10, 5000)
			c.Logf("%d: %d calls, seed %x", i, n, uint64(*r))
			fs = append(fs, func() { all[i](r, n, &es) })
		}
		c.NonTrivial()
		conc.Par(fs...)
		es.Check(rt)
	})
}

func owner[T, R comparable](x kind[T], y kind[R]) func(r *gen.Rand, n int, es *conc.Errs) {
	return func(r *gen.Rand, n int, es *conc.Errs) {
		have := 0 // what the registered converter adds, 0: none
		for i := 1; i <= n; i++ {
			switch r.N(4) {
			case 0:
				convx.Register(func(v T) R { return y.mk(x.num(v) + i) })
				have = i
			case 1:
				if r.N(2) == 0 {
					convx.Unregister[T, R]()
					have = 0
				}
			}
			k := 1 + r.N(1000)
			if got := convx.Exists[T, R](); got != (have > 0) {
				es.Addf("call %d of %d: Exists = %v on a pair nobody else uses, want %v", i, n, got, have > 0)
				return
			}
			v, ok := convx.Into[T, R](x.mk(k))
			if ok != (have > 0) || ok && y.num(v) != k+have {
				es.Addf("call %d of %d: Into = %v %v on a pair nobody else uses, want %d", i, n, v, ok, have)
				return
			}
			or := y.num(convx.IntoOr(x.mk(k), y.mk(7)))
			if have > 0 && or != k+have || have == 0 && or != 7 {
				es.Addf("call %d of %d: IntoOr = %v on a pair nobody else uses, want %d", i, n, or, have)
				return
			}
		}
	}
}
