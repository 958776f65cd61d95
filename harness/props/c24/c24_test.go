package c24

import (
	"fmt"
	"iter"
	"maps"
	"slices"
	"sync"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
	"verif.local/harness/vsched"
)

const rule = "two to five goroutines with up to ten drawn operations each on one map of a few keys; the recorded history is checked for linearizability against an ideal map; " +
	"non-trivial: a whole-map operation or two operations on one key, one of them an update, overlapped"

type op struct {
	kind string
	k, v int
}

type res struct {
	v    int
	ok   bool
	list []int
}

var kinds = []string{"get", "get", "has", "set", "set", "set", "delete", "delete", "size", "keys", "values", "clear"}

func opGen(keys int) *rapid.Generator[op] {
	return rapid.Custom(func(t *rapid.T) op {
		return op{rapid.SampledFrom(kinds).Draw(t, "op"), rapid.IntRange(0, keys-1).Draw(t, "k"), rapid.IntRange(0, 40).Draw(t, "v")}
	})
}

func do(m *syncmapx.Map[int, int], o op) (r res) {
	switch o.kind {
	case "get":
		r.v = m.Get(o.k)
	case "has":
		r.ok = m.Has(o.k)
	case "set":
		m.Set(o.k, o.v)
	case "delete":
		m.Delete(o.k)
	case "size":
		r.v = m.Size()
	case "keys":
		r.list = m.Keys()
	case "values":
		r.list = m.Values()
	case "clear":
		m.Clear()
	}
	if r.list != nil {
		got := slices.Sorted(slices.Values(r.list))
		for i := range r.list { // the snapshot belongs to the caller
			r.list[i] = -7
		}
		_ = append(r.list[:0:cap(r.list)], make([]int, cap(r.list))...)
		r.list = got
	}
	return
}

// step runs one operation on an ideal map.
func step(m map[int]int, o op, r res) (bool, map[int]int) {
	switch o.kind {
	case "get":
		return r.v == m[o.k], m
	case "has":
		_, ok := m[o.k]
		return r.ok == ok, m
	case "set":
		m = maps.Clone(m)
		m[o.k] = o.v
	case "delete":
		m = maps.Clone(m)
		delete(m, o.k)
	case "size":
		return r.v == len(m), m
	case "keys":
		return slices.Equal(r.list, slices.Sorted(maps.Keys(m))), m
	case "values":
		return slices.Equal(r.list, slices.Sorted(maps.Values(m))), m
	case "clear":
		m = map[int]int{}
	}
	return true, m
}

var model = porcupine.Model{
	Init: func() any { return map[int]int{} },
	Step: func(s, in, out any) (bool, any) {
		ok, m := step(s.(map[int]int), in.(op), out.(res))
		return ok, m
	},
	Equal: func(a, b any) bool { return maps.Equal(a.(map[int]int), b.(map[int]int)) },
}

func update(o op) bool { return o.kind == "set" || o.kind == "delete" || o.kind == "clear" }
func whole(o op) bool {
	return o.kind == "size" || o.kind == "keys" || o.kind == "values" || o.kind == "clear"
}

func concurrent(rt *rapid.T, c *pbt.Case) {
	keys := rapid.IntRange(1, 4).Draw(rt, "keys")
	progs := make([][]op, rapid.IntRange(2, 5).Draw(rt, "goroutines"))
	for i := range progs {
		progs[i] = rapid.SliceOfN(opGen(keys), 1, 10).Draw(rt, "prog")
		c.Logf("%v", progs[i])
	}
	var mu sync.Mutex
	var hist []porcupine.Operation
	conc.Run(rt, func(rt *rapid.T) {
		m := syncmapx.New[int, int]()
		var clk conc.Clock
		var fs []func()
		for id, p := range progs {
			fs = append(fs, func() {
				for _, o := range p {
					vsched.Y()
					call := clk.Tick()
					r := do(m, o)
					ret := clk.Tick()
					mu.Lock()
					hist = append(hist, porcupine.Operation{ClientId: id, Input: o, Call: call, Output: r, Return: ret})
					mu.Unlock()
				}
			})
		}
		conc.Par(fs...)
		// the quiescent map, read in order
		for k := range keys {
			call := clk.Tick()
			r := do(m, op{"has", k, 0})
			hist = append(hist, porcupine.Operation{Input: op{"has", k, 0}, Call: call, Output: r, Return: clk.Tick()})
			call = clk.Tick()
			r = do(m, op{"get", k, 0})
			hist = append(hist, porcupine.Operation{Input: op{"get", k, 0}, Call: call, Output: r, Return: clk.Tick()})
		}
		call := clk.Tick()
		r := do(m, op{"size", 0, 0})
		hist = append(hist, porcupine.Operation{Input: op{"size", 0, 0}, Call: call, Output: r, Return: clk.Tick()})
	})
	for i, a := range hist {
		for _, b := range hist[:i] {
			x, y := a.Input.(op), b.Input.(op)
			if a.ClientId != b.ClientId && a.Call < b.Return && b.Call < a.Return && (update(x) || update(y)) && (x.k == y.k || whole(x) || whole(y)) {
				c.NonTrivial()
			}
		}
	}
	switch porcupine.CheckOperationsTimeout(model, hist, 30*time.Second) {
	case porcupine.Illegal:
		slices.SortFunc(hist, func(a, b porcupine.Operation) int { return int(a.Call - b.Call) })
		s := ""
		for _, h := range hist {
			s += fmt.Sprintf("\n[%d,%d] g%d %v -> %v", h.Call, h.Return, h.ClientId, h.Input, h.Output)
		}
		rt.Fatalf("the history is not linearizable:%s", s)
	case porcupine.Unknown:
		c.Label("linearizability not decided in time")
	}
}

func TestSched(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 4000, Thorough: 100000, Rule: rule}, concurrent)
}

func TestRace(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6000, Thorough: 100000, Rule: rule}, concurrent)
}

// TestSequential is the model check of one goroutine on larger maps.
func TestSequential(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 20000, Thorough: 400000, Rule: "operation sequences of one goroutine with up to 50 keys against an ideal map; non-trivial: at least ten operations"}, func(rt *rapid.T, c *pbt.Case) {
		l, m := syncmapx.New[int, int](), map[int]int{}
		ops := rapid.SliceOfN(opGen(rapid.SampledFrom([]int{2, 6, 50}).Draw(rt, "keys")), 1, 80).Draw(rt, "ops")
		c.Logf("%v", ops)
		c.NonTrivialIf(len(ops) >= 10)
		for _, o := range ops {
			if o.kind == "clear" && rapid.IntRange(0, 3).Draw(rt, "skip") > 0 {
				continue
			}
			r := do(l, o)
			var ok bool
			if ok, m = step(m, o, r); !ok {
				rt.Fatalf("%v returned %v on %v", o, r, m)
			}
		}
	})
}

// TestLong is the same on maps of thousands of keys, expanded from a seed.
func TestLong(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 20, Thorough: 2000, Rule: "one goroutine, 1000 to 80000 operations on 100 to 50000 keys against an ideal map; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		r := gen.NewRand(rt, "seed")
		space := gen.Large(rt, "keys", 100, 50000)
		steps := gen.Large(rt, "steps", 1000, 80000)
		bias := rapid.IntRange(1, 7).Draw(rt, "bias")
		l, m := syncmapx.New[int, int](), map[int]int{}
		c.Logf("%d steps on %d keys, %d/8 sets, seed %x", steps, space, bias, uint64(*r))
		c.NonTrivial()
		for i := 1; i <= steps; i++ {
			k := r.N(space)
			switch {
			case i%30000 == 0:
				l.Clear()
				clear(m)
			case r.N(8) < bias:
				l.Set(k, i)
				m[k] = i
			default:
				l.Delete(k)
				delete(m, k)
			}
			k = r.N(space)
			w, wok := m[k]
			if l.Get(k) != w || l.Has(k) != wok || l.Size() != len(m) {
				rt.Fatalf("step %d: Get(%d) = %d, Has = %v, Size = %d; want %d %v %d", i, k, l.Get(k), l.Has(k), l.Size(), w, wok, len(m))
			}
			if i%20000 == 0 || i == steps {
				if !slices.Equal(slices.Sorted(slices.Values(l.Keys())), slices.Sorted(maps.Keys(m))) ||
					!slices.Equal(slices.Sorted(slices.Values(l.Values())), slices.Sorted(maps.Values(m))) {
					rt.Fatalf("keys or values differ after %d steps", i)
				}
			}
		}
	})
}

// kinds of keys and values other than numbers, with zero, nil and repeated ones among them
func mapOf[K comparable, V any](key func(int) K, value func(int) V) func(*rapid.T, []op) {
	return func(rt *rapid.T, ops []op) {
		l, m := syncmapx.New[K, V](), map[K]V{}
		var kept gen.Kept
		for i, o := range ops {
			k := key(o.k)
			switch o.kind {
			case "set":
				l.Set(k, value(o.v))
				m[k] = value(o.v)
			case "delete":
				l.Delete(k)
				delete(m, k)
			case "clear":
				l.Clear()
				clear(m)
			}
			for j := range 6 {
				k := key(j)
				w, wok := m[k]
				if g, gok := l.Get(k), l.Has(k); !gen.Same(g, w) || gok != wok {
					rt.Fatalf("after %v (%d): Get(%v) = %v, Has = %v; want %v %v", o, i, k, g, gok, w, wok)
				}
			}
			if l.Size() != len(m) {
				rt.Fatalf("after %v (%d): Size = %d, want %d", o, i, l.Size(), len(m))
			}
			if !maps.Equal(count(slices.Values(l.Keys())), count(maps.Keys(m))) {
				rt.Fatalf("after %v (%d): Keys = %v, want those of %v", o, i, l.Keys(), m)
			}
			if !maps.Equal(count(slices.Values(l.Values())), count(maps.Values(m))) {
				rt.Fatalf("after %v (%d): Values = %v, want those of %v", o, i, l.Values(), m)
			}
			if i%3 == 0 {
				gen.KeepList(&kept, "Keys", l.Keys())
				gen.KeepList(&kept, "Values", l.Values())
			}
			if s := kept.Changed(); s != "" {
				rt.Fatalf("after %v (%d): what %s", o, i, s)
			}
		}
	}
}

func count[T any](s iter.Seq[T]) map[any]int {
	n := map[any]int{}
	for x := range s {
		n[gen.ID(x)]++
	}
	return n
}

func TestKinds(t *testing.T) {
	maps := []struct {
		name string
		run  func(*rapid.T, []op)
	}{
		{"int:few", mapOf(gen.Number, gen.Few)},
		{"int:*int", mapOf(gen.Number, gen.MaybeNil)},
		{"any:any", mapOf(gen.Any, gen.Any)},
		{"string:string", mapOf(gen.Text, gen.Text)},
		{"*int:array", mapOf(gen.MaybeNil, gen.Array)},
		{"array:empty", mapOf(gen.Array, gen.Empty)},
		{"empty:int", mapOf(gen.Empty, gen.Few)},
		{"int:float", mapOf(gen.Number, gen.Floats)},
		{"int:slice", mapOf(gen.Number, gen.Rows)},
		{"int:loose", mapOf(gen.Number, gen.Loose)},
		{"string:record", mapOf(gen.Text, gen.Records)},
	}
	pbt.Check(t, pbt.Opts{Quick: 10000, Thorough: 200000, Rule: "operation sequences of one goroutine on maps with keys and values of several types, zero, nil and repeated ones among them, against a built-in map; non-trivial: at least five operations"}, func(rt *rapid.T, c *pbt.Case) {
		m := rapid.SampledFrom(maps).Draw(rt, "map")
		ops := rapid.SliceOfN(opGen(6), 1, 40).Draw(rt, "ops")
		c.Logf("%s: %v", m.name, ops)
		c.Label(m.name)
		c.NonTrivialIf(len(ops) >= 5)
		m.run(rt, ops)
	})
}

// many runs thousands of operations in parallel. Each goroutine has keys of its own and
// so knows what every answer about them has to be.
func many(most int) func(rt *rapid.T, c *pbt.Case) {
	return func(rt *rapid.T, c *pbt.Case) {
		gs := rapid.IntRange(2, 8).Draw(rt, "goroutines")
		m := syncmapx.New[int, int]()
		var es conc.Errs
		var fs []func()
		for g := range gs {
			r := gen.NewRand(rt, "seed")
			space := gen.Large(rt, "keys", 1, 500)
			steps := gen.Large(rt, "steps", 20, most)
			bias := rapid.IntRange(2, 6).Draw(rt, "bias")
			c.Logf("%d: %d steps on %d keys, %d/8 sets, seed %x", g, steps, space, bias, uint64(*r))
			fs = append(fs, func() {
				own := map[int]int{}
				for i := 1; i <= steps; i++ {
					k := r.N(space)*gs + g
					switch {
					case r.N(8) < bias:
						m.Set(k, i*gs+g)
						own[k] = i*gs + g
					default:
						m.Delete(k)
						delete(own, k)
					}
					k = r.N(space)*gs + g
					w, wok := own[k]
					if v, ok := m.Get(k), m.Has(k); v != w || ok != wok {
						es.Addf("step %d of %d: Get(%d) = %d, Has = %v; want %d %v, nobody else uses that key", i, steps, k, v, ok, w, wok)
						return
					}
					if n := m.Size(); n < len(own) {
						es.Addf("step %d of %d: Size = %d, one goroutine alone has %d keys in the map", i, steps, n, len(own))
						return
					}
					if i%97 == 0 || i == steps {
						keys, values := map[any]int{}, map[any]int{}
						for _, k := range m.Keys() {
							if k%gs == g {
								keys[k]++
							}
						}
						for _, v := range m.Values() {
							if v%gs == g {
								values[v]++
							}
						}
						if !maps.Equal(keys, count(maps.Keys(own))) || !maps.Equal(values, count(maps.Values(own))) {
							es.Addf("step %d of %d: Keys or Values does not hold exactly the entries of a goroutine that is not changing them", i, steps)
							return
						}
					}
				}
			})
		}
		c.NonTrivial()
		conc.Par(fs...)
		es.Check(rt)
	}
}

const manyRule = "two to eight goroutines with up to thousands of operations on up to 500 keys each, a goroutine's own, so that every answer about them is determined; every case counts as non-trivial"

func TestMany(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 100, Thorough: 10000, Rule: manyRule}, many(6000))
}

func TestRaceMany(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 60, Thorough: 3000, Rule: manyRule}, many(1500))
}

// Maps of more than 65536 keys.
func TestBeyond(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6, Thorough: 300, Rule: "maps grown to 65536 to 1.2 million keys, then shrunk to nothing or nearly so, with the size looked at after every step; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		n := gen.Vast(rt, "n")
		keep := 1000 * rapid.IntRange(0, 5).Draw(rt, "keep")
		c.Logf("%d keys, %d are left", n, keep)
		c.NonTrivial()
		l := syncmapx.New[uint64, int]()
		key := func(i int) uint64 { return uint64(i) * 0x9e3779b97f4a7c15 }
		for i := range n {
			l.Set(key(i), i)
			if l.Size() != i+1 {
				rt.Fatalf("Size = %d with %d keys", l.Size(), i+1)
			}
		}
		whole := func(n int) {
			ks, vs := l.Keys(), l.Values()
			slices.Sort(vs)
			if len(ks) != n || len(vs) != n {
				rt.Fatalf("%d keys and %d values of %d", len(ks), len(vs), n)
			}
			for i, v := range vs {
				if v != i || !l.Has(key(i)) || l.Get(key(i)) != i {
					rt.Fatalf("value %d of %d is %d", i, n, v)
				}
			}
		}
		whole(n)
		for i := n - 1; i >= keep; i-- {
			l.Delete(key(i))
			if l.Size() != i || l.Has(key(i)) {
				rt.Fatalf("Size = %d with %d keys left", l.Size(), i)
			}
		}
		whole(keep)
	})
}
