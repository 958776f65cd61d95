package c14

import (
	"math"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/slicex/queuex"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

const rule = "enqueue, dequeue and peek bursts on rings of capacity 0..600 against an ideal bounded queue; " +
	"non-trivial: the ring was full at least once and its indices wrapped around"

type op struct{ kind, n int }

var opGen = rapid.Custom(func(t *rapid.T) op {
	return op{rapid.SampledFrom([]int{0, 0, 1, 1, 2, 3}).Draw(t, "op"), rapid.IntRange(1, 12).Draw(t, "n")}
})

func run[T any](rt *rapid.T, c *pbt.Case, mk func(int) T) {
	capa := rapid.SampledFrom([]int{0, -1, -9, math.MinInt, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 31, 64, 100, 600}).Draw(rt, "cap")
	r := queuex.New[T](capa)
	if capa <= 0 {
		if r != nil {
			rt.Fatalf("capacity %d yields a ring", capa)
		}
		return
	}
	if r == nil {
		rt.Fatalf("no ring for capacity %d", capa)
	}
	var m []T
	var zero T
	next, total := 0, 0
	full := false
	watch := gen.NewWatch(rt)
	look := func() {
		if !watch.Now() {
			return
		}
		if watch.Part() && r.Cap() != capa {
			rt.Fatalf("Cap = %d, want %d", r.Cap(), capa)
		}
		if watch.Part() && r.IsEmpty() != (len(m) == 0) {
			rt.Fatalf("IsEmpty = %v with %d elements", r.IsEmpty(), len(m))
		}
		if watch.Part() && r.IsFull() != (len(m) == capa) {
			rt.Fatalf("IsFull = %v with %d of %d elements", r.IsFull(), len(m), capa)
		}
		if len(m) > 0 && watch.Part() && !gen.Same(r.Head(), m[0]) {
			rt.Fatalf("Head is not the oldest element")
		}
		if !watch.Part() {
			return
		}
		v, ok := r.Peek()
		if len(m) == 0 {
			if ok || !gen.Same(v, zero) {
				rt.Fatalf("Peek on an empty ring reported an element")
			}
			return
		}
		if !ok || !gen.Same(v, m[0]) {
			rt.Fatalf("Peek returned a wrong element")
		}
	}
	enq := func() {
		next++
		v := mk(next)
		ok := r.Enqueue(v)
		if ok != (len(m) < capa) {
			rt.Fatalf("Enqueue returned %v with %d of %d elements", ok, len(m), capa)
		}
		if ok {
			m = append(m, v)
			total++
		}
		full = full || len(m) == capa
		look()
	}
	deq := func() {
		v, ok := r.Dequeue()
		if len(m) == 0 {
			if ok || !gen.Same(v, zero) {
				rt.Fatalf("Dequeue on an empty ring reported an element")
			}
		} else {
			if !ok || !gen.Same(v, m[0]) {
				rt.Fatalf("Dequeue returned a wrong element")
			}
			m = m[1:]
		}
		look()
	}
	look()
	c.Logf("cap %d", capa)
	for _, o := range pbt.Sized(opGen, 120).Draw(rt, "ops") {
		c.Logf("%d*%d", o.kind, o.n)
		switch o.kind {
		case 0:
			for k := 0; k < o.n; k++ {
				enq()
			}
		case 1:
			for k := 0; k < o.n; k++ {
				deq()
			}
		case 2: // fill up
			for k := len(m); k <= capa; k++ {
				enq()
			}
		case 3: // drain
			for k := len(m); k >= 0; k-- {
				deq()
			}
		}
	}
	if rapid.Bool().Draw(rt, "all in the end") {
		watch.All()
	}
	for len(m) > 0 {
		deq()
	}
	c.LabelIf(full, "was full")
	c.LabelIf(total > capa+1, "wrapped")
	c.NonTrivialIf(full && total > capa+1)
}

func TestRing(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 12000, Thorough: 500000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		kind := rapid.SampledFrom([]string{"int", "int", "pointer", "few", "nil", "any", "text", "empty", "float", "slice", "loose", "record"}).Draw(rt, "type")
		c.Label(kind)
		switch kind {
		case "int":
			run(rt, c, gen.Number)
		case "pointer":
			run(rt, c, gen.Pointer)
		case "few":
			run(rt, c, gen.Few)
		case "nil":
			run(rt, c, gen.MaybeNil)
		case "any":
			run(rt, c, gen.Any)
		case "text":
			run(rt, c, gen.Text)
		case "empty":
			run(rt, c, gen.Empty)
		case "float":
			run(rt, c, gen.Floats)
		case "slice":
			run(rt, c, gen.Rows)
		case "loose":
			run(rt, c, gen.Loose)
		case "record":
			run(rt, c, gen.Records)
		}
	})
}

// Rings far larger than those drawn step by step, filled and drained in long phases.
func TestRingLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 80, Thorough: 8000, Rule: "rings of capacity 200 to 140000 in two to eight phases (fill, drain, slide, random); non-trivial: the ring was full and its indices wrapped around"}, func(rt *rapid.T, c *pbt.Case) {
		capa := gen.Large(rt, "cap", 200, 140000)
		r := gen.NewRand(rt, "seed")
		q := queuex.New[int](capa)
		if q == nil || q.Cap() != capa {
			rt.Fatalf("no ring of capacity %d", capa)
		}
		c.Logf("cap %d", capa)
		in, out := 0, 0
		full := false
		step := func(push bool) {
			if push {
				if ok := q.Enqueue(in + 1); ok != (in-out < capa) {
					rt.Fatalf("Enqueue returned %v with %d of %d elements", ok, in-out, capa)
				} else if ok {
					in++
				}
			} else {
				v, ok := q.Dequeue()
				if ok != (in > out) || ok && v != out+1 || !ok && v != 0 {
					rt.Fatalf("Dequeue returned (%d,%v), want %d with %d of %d elements", v, ok, out+1, in-out, capa)
				}
				if ok {
					out++
				}
			}
			full = full || in-out == capa
			if q.IsFull() != (in-out == capa) || q.IsEmpty() != (in == out) || q.Cap() != capa {
				rt.Fatalf("IsFull = %v, IsEmpty = %v, Cap = %d with %d of %d elements", q.IsFull(), q.IsEmpty(), q.Cap(), in-out, capa)
			}
			if v, ok := q.Peek(); ok != (in > out) || ok && (v != out+1 || q.Head() != v) {
				rt.Fatalf("Peek returned (%d,%v), want %d", v, ok, out+1)
			}
		}
		for p := rapid.IntRange(2, 8).Draw(rt, "phases"); p > 0; p-- {
			n := gen.Large(rt, "n", 50, 2*capa)
			kind := rapid.IntRange(0, 5).Draw(rt, "kind")
			c.Logf("%d*%d", kind, n)
			switch kind {
			case 0: // fill
				for k := in - out; k <= capa; k++ {
					step(true)
				}
			case 1: // drain
				for k := in - out; k >= 0; k-- {
					step(false)
				}
			default:
				for k := 0; k < n; k++ {
					step(kind == 2 && k%2 == 0 || kind == 3 && r.N(2) == 0 || kind == 4 && r.N(4) > 0)
				}
			}
		}
		c.NonTrivialIf(full && in > capa+1)
		for in > out {
			step(false)
		}
		step(false)
	})
}

// wide fills and drains rings of up to tens of millions of places.
func wide[T any](rt *rapid.T, c *pbt.Case, capa, bound int, mk func(int) T) {
	q := queuex.New[T](capa)
	if q == nil || q.Cap() != capa {
		rt.Fatalf("no ring of capacity %d", capa)
	}
	in, out := 0, 0
	full := false
	for p := rapid.IntRange(1, 4).Draw(rt, "phases"); p > 0; p-- {
		n := min(bound, gen.Large(rt, "n", 1, min(bound, capa+capa/2)))
		if rapid.Bool().Draw(rt, "over") {
			n = min(bound, capa+2)
		}
		push := rapid.IntRange(0, 2).Draw(rt, "push") > 0
		c.Logf("%v*%d", push, n)
		for k := 0; k < n; k++ {
			if push {
				ok := q.Enqueue(mk(in))
				if ok != (in-out < capa) {
					rt.Fatalf("Enqueue returned %v with %d of %d elements", ok, in-out, capa)
				}
				if ok {
					in++
				}
			} else {
				v, ok := q.Dequeue()
				var want T
				if in > out {
					want = mk(out)
				}
				if ok != (in > out) || !gen.Same(v, want) {
					rt.Fatalf("Dequeue returned (%v,%v), want %v with %d of %d elements", v, ok, want, in-out, capa)
				}
				if ok {
					out++
				}
			}
			full = full || in-out == capa
		}
		if q.IsFull() != (in-out == capa) || q.IsEmpty() != (in == out) || q.Cap() != capa {
			rt.Fatalf("IsFull = %v, IsEmpty = %v, Cap = %d with %d of %d elements", q.IsFull(), q.IsEmpty(), q.Cap(), in-out, capa)
		}
		if v, ok := q.Peek(); ok != (in > out) || ok && (!gen.Same(v, mk(out)) || !gen.Same(q.Head(), v)) {
			rt.Fatalf("Peek returned (%v,%v) with %d of %d elements", v, ok, in-out, capa)
		}
	}
	c.LabelIf(full, "was full")
	c.NonTrivialIf(full || capa > bound)
}

func TestRingWide(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 48, Thorough: 1500, Rule: "rings of 2^17 to 2^23 places (bytes, integers) and of up to 2^62 places (empty structs) filled and drained in up to four phases; non-trivial: the ring was full, or had more places than can be filled"}, func(rt *rapid.T, c *pbt.Case) {
		const bound = 9 << 20
		switch kind := rapid.SampledFrom([]string{"byte", "byte", "int", "empty"}).Draw(rt, "type"); kind {
		case "byte":
			capa := gen.Large(rt, "cap", 1<<17, 1<<23)
			c.Logf("%d bytes", capa)
			wide(rt, c, capa, bound, func(n int) byte { return byte(n ^ n>>8 ^ n>>16) })
		case "int":
			capa := gen.Large(rt, "cap", 1<<17, 1<<21)
			c.Logf("%d integers", capa)
			wide(rt, c, capa, bound, func(n int) int { return n })
		case "empty":
			capa := 1<<rapid.IntRange(17, 62).Draw(rt, "log") + rapid.IntRange(-3, 3).Draw(rt, "add")
			c.Logf("%d empty structs", capa)
			wide(rt, c, capa, bound, gen.Empty)
		}
	})
}
