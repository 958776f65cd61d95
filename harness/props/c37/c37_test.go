package c37

import (
	"io"
	"sync/atomic"
	"testing"

	"github.com/unsafe-risk/utilx/syncx/syncpoolx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/pbt"
	"verif.local/harness/vsched"
)

const rule = "get and put histories of 1..6 goroutines on one to three pools, holding up to eight objects each and changing them before they are put back; every object must be new or have been put back, in the state it was put in; " +
	"non-trivial: an object was handed out again"

type object struct {
	id    int64
	pool  int
	used  atomic.Bool // somebody holds it
	owner int         // plain: two holders are a data race
	sum   int
	data  []byte
	big   [40]int
}

type op struct{ kind, arg int }

func ops(rt *rapid.T, n int) []op {
	return rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) op {
		return op{rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(rt, "op"), rapid.IntRange(0, 1000).Draw(rt, "arg")}
	}), 1, n).Draw(rt, "ops")
}

func program(rt *rapid.T, c *pbt.Case, gs, length, most int) {
	pools := make([]syncpoolx.Pool[object], rapid.IntRange(1, 3).Draw(rt, "pools"))
	made := make([]atomic.Int64, len(pools))
	for i := range pools {
		pools[i].Init(func() *object {
			vsched.Y()
			return &object{id: made[i].Add(1), pool: i}
		})
	}
	progs := make([][]op, rapid.IntRange(1, gs).Draw(rt, "goroutines"))
	for i := range progs {
		progs[i] = ops(rt, length)
	}
	c.Logf("%d pools, ops %v", len(pools), progs)
	var errs conc.Errs
	var again atomic.Int64
	var fs []func()
	for g, p := range progs {
		fs = append(fs, func() {
			var held []*object
			for k, o := range p {
				switch {
				case o.kind == 0 && len(held) < most:
					i := o.arg % len(pools)
					x := pools[i].Get()
					if x == nil {
						errs.Addf("Get returned nil")
						return
					}
					if !x.used.CompareAndSwap(false, true) {
						errs.Addf("object %d of pool %d is held twice", x.id, x.pool)
						return
					}
					if x.pool != i || x.id < 1 || x.id > made[i].Load() {
						errs.Addf("object %d of pool %d came out of pool %d", x.id, x.pool, i)
					}
					if x.owner != 0 {
						again.Add(1)
					}
					if x.owner == 0 && (x.sum != 0 || x.data != nil) {
						errs.Addf("a new object was changed")
					}
					if x.owner != 0 && (len(x.data) != 1 || int(x.data[0]) != x.sum&255 || x.big[x.sum%40] != x.sum || x.owner != x.big[39-x.sum%40]-x.sum) {
						errs.Addf("object %d was changed while in the pool", x.id)
					}
					held = append(held, x)
				case o.kind == 1 && len(held) > 0:
					j := o.arg % len(held)
					x := held[j]
					held = append(held[:j:j], held[j+1:]...)
					x.owner = g + 1
					x.sum = k + o.arg
					x.data = []byte{byte(x.sum)}
					x.big = [40]int{}
					x.big[x.sum%40] = x.sum
					x.big[39-x.sum%40] = x.sum + x.owner
					x.used.Store(false)
					pools[x.pool].Put(x)
				default:
					vsched.Y()
					for _, x := range held {
						x.big[o.arg%40]++ // mine
						if !x.used.Load() {
							errs.Addf("object %d was put back by somebody else", x.id)
						}
					}
				}
			}
		})
	}
	conc.Par(fs...)
	errs.Check(rt)
	c.NonTrivialIf(again.Load() > 0)
}

func TestSched(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 12000, Thorough: 300000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		conc.Run(rt, func(rt *rapid.T) { program(rt, c, 4, 14, 8) })
	})
}

func TestRace(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 3000, Thorough: 60000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		program(rt, c, 6, 120, 8)
	})
}

// TestMany holds hundreds of objects.
func TestMany(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 100, Thorough: 8000, Rule: "the same with up to 24 goroutines of up to 1500 operations that hold up to 400 objects each"}, func(rt *rapid.T, c *pbt.Case) {
		program(rt, c, 24, 1500, 400)
	})
}

// TestOwnership follows one goroutine exactly, for several element types.
func TestOwnership(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 30000, Thorough: 500000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		switch rapid.IntRange(0, 7).Draw(rt, "type") {
		case 0:
			own(rt, c, func(n int) int { return n })
		case 1:
			own(rt, c, func(n int) string { return string(rune('a' + n%26)) })
		case 2:
			own(rt, c, func(n int) [5]uint64 { return [5]uint64{uint64(n), 4: uint64(n)} })
		case 3:
			own(rt, c, func(n int) *int { return [...]*int{nil, &ints[0], &ints[1]}[n%3] })
		case 4:
			own(rt, c, func(n int) any { return [...]any{nil, n, "x", &ints[0], false}[n%5] })
		case 5:
			own(rt, c, func(n int) bool { return n%3 == 0 })
		case 6:
			own(rt, c, func(n int) error { return [...]error{nil, io.EOF, io.ErrNoProgress}[n%3] })
		case 7:
			own(rt, c, func(n int) [300]int { return [300]int{n, 299: n} })
		}
	})
}

var ints [2]int

func own[T comparable](rt *rapid.T, c *pbt.Case, val func(n int) T) {
	var p syncpoolx.Pool[T]
	var made []*T
	fresh := rapid.IntRange(0, 5).Draw(rt, "initial")
	p.Init(func() *T {
		x := new(T)
		*x = val(fresh)
		made = append(made, x)
		return x
	})
	held := []*T{}
	free := map[*T]T{}
	foreign := rapid.IntRange(0, 3).Draw(rt, "foreign") == 0 // objects made elsewhere are put in too
	seq := ops(rt, 60)
	c.Logf("%v", seq)
	for i, o := range seq {
		if foreign && o.kind == 2 && o.arg%3 == 0 {
			x := new(T)
			*x = val(o.arg)
			free[x] = *x
			p.Put(x)
			c.Label("an object made elsewhere")
			continue
		}
		if o.kind == 1 && len(held) > 0 {
			j := o.arg % len(held)
			x := held[j]
			held = append(held[:j:j], held[j+1:]...)
			*x = val(o.arg + i)
			free[x] = *x
			p.Put(x)
			continue
		}
		n := len(made)
		x := p.Get()
		if len(made) == n+1 && x == made[n] {
			if *x != val(fresh) {
				rt.Fatalf("a new object is %v, the constructor made %v", *x, val(fresh))
			}
		} else if v, ok := free[x]; ok {
			if *x != v {
				rt.Fatalf("an object put as %v came back as %v", v, *x)
			}
			delete(free, x)
			c.NonTrivial()
		} else {
			rt.Fatalf("Get returned an object that was neither just made nor put back (%d made)", len(made)-n)
		}
		held = append(held, x)
	}
}

// TestNested has constructors that take objects from the other pools and from the same one, or put some back.
func TestNested(t *testing.T) {
	type item struct {
		n     int
		parts []*item
	}
	pbt.Check(t, pbt.Opts{Quick: 10000, Thorough: 200000, Rule: "one to four pools whose constructors get up to two objects from drawn pools, up to four deep, and put some of them back; every object held by one holder only; non-trivial: a constructor that uses its own pool"}, func(rt *rapid.T, c *pbt.Case) {
		k := rapid.IntRange(1, 4).Draw(rt, "pools")
		pools := make([]syncpoolx.Pool[item], k)
		held, free := map[*item]int{}, map[*item]int{} // the object, its pool
		made, depth := 0, 0
		var last *item // what the latest constructor to finish made
		get := func(i int) *item {
			n := made
			x := pools[i].Get()
			if x == nil {
				rt.Fatalf("Get returned nil")
			}
			if j, ok := held[x]; ok {
				rt.Fatalf("Get from pool %d returned an object of pool %d that is held", i, j)
			}
			if j, ok := free[x]; ok {
				if i != j {
					rt.Fatalf("an object put into pool %d came out of pool %d", j, i)
				}
				delete(free, x)
			} else if made == n || x != last {
				rt.Fatalf("Get from pool %d returned an object that was neither just made nor put back", i)
			}
			held[x] = i
			return x
		}
		put := func(x *item) {
			i := held[x]
			delete(held, x)
			free[x] = i
			pools[i].Put(x)
		}
		for i := range pools {
			uses := rapid.SliceOfN(rapid.IntRange(0, k-1), 0, 2).Draw(rt, "uses")
			keep := rapid.Bool().Draw(rt, "keep")
			pools[i].Init(func() *item {
				x := &item{n: i}
				if depth < 4 {
					depth++
					for _, j := range uses {
						c.NonTrivialIf(i == j)
						x.parts = append(x.parts, get(j))
					}
					depth--
				}
				if !keep {
					for _, y := range x.parts {
						put(y)
					}
					x.parts = nil
				}
				made++
				last = x
				return x
			})
		}
		seq := ops(rt, 30)
		c.Logf("%d pools %v", k, seq)
		var mine []*item
		for _, o := range seq {
			switch {
			case o.kind == 0:
				mine = append(mine, get(o.arg%k))
			case o.kind == 1 && len(mine) > 0:
				j := o.arg % len(mine)
				x := mine[j]
				mine = append(mine[:j:j], mine[j+1:]...)
				for _, y := range x.parts {
					put(y)
				}
				x.parts = nil
				put(x)
			}
		}
	})
}
