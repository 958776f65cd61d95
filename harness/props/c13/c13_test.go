package c13

import (
	"fmt"
	"testing"

	"github.com/unsafe-risk/utilx/dsx"
	"github.com/unsafe-risk/utilx/dsx/linkedx/queuex"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

const rule = "sequences of enqueue, dequeue, peek and emptiness tests in bursts against an ideal queue; " +
	"non-trivial: the queue was drained and refilled, or a dequeue happened while several elements were held"

type queue[T any] interface {
	dsx.Queue[T]
}

type op struct{ kind, n int }

var opGen = rapid.Custom(func(t *rapid.T) op {
	return op{rapid.SampledFrom([]int{0, 0, 0, 1, 1, 1, 2}).Draw(t, "op"), rapid.SampledFrom([]int{1, 1, 1, 2, 3, 5, 17}).Draw(t, "n")}
})

func run[T any](rt *rapid.T, c *pbt.Case, mk func(int) T) {
	qs := []dsx.Queue[T]{queuex.New[T](), queuex.New[T]()}
	ms := make([][]T, 2)
	ops := pbt.Sized(opGen, 150).Draw(rt, "ops")
	two := rapid.Bool().Draw(rt, "two")
	next := 0
	var zero T
	drained := [2]bool{}
	watch := gen.NewWatch(rt)
	for i, o := range ops {
		w := 0
		if two && i%3 == 1 {
			w = 1
		}
		q, m := qs[w], ms[w]
		look := func() {
			if !watch.Now() {
				return
			}
			if watch.Part() && q.IsEmpty() != (len(m) == 0) {
				rt.Fatalf("step %d: IsEmpty disagrees with the ideal queue", i)
			}
			if !watch.Part() {
				return
			}
			v, ok := q.Peek()
			if len(m) == 0 {
				if ok || !gen.Same(v, zero) {
					rt.Fatalf("step %d: Peek on an empty queue reported an element", i)
				}
			} else if !ok || !gen.Same(v, m[0]) {
				rt.Fatalf("step %d: Peek returned (%v,%v), want %v", i, v, ok, m[0])
			}
		}
		deq := func() {
			v, ok := q.Dequeue()
			if len(m) == 0 {
				if ok || !gen.Same(v, zero) {
					rt.Fatalf("step %d: Dequeue on an empty queue reported an element", i)
				}
				return
			}
			if !ok || !gen.Same(v, m[0]) {
				rt.Fatalf("step %d: Dequeue returned (%v,%v), want %v", i, v, ok, m[0])
			}
			c.NonTrivialIf(len(m) > 1)
			m = m[1:]
			if len(m) == 0 {
				drained[w] = true
			}
		}
		c.Logf("%d*%d@%d", o.kind, o.n, w)
		switch o.kind {
		case 0:
			for k := 0; k < o.n; k++ {
				next++
				v := mk(next)
				if !q.Enqueue(v) {
					rt.Fatalf("step %d: Enqueue refused", i)
				}
				m = append(m, v)
				look()
			}
			if drained[w] {
				c.Label("refilled")
				c.NonTrivial()
			}
		case 1:
			for k := 0; k < o.n; k++ {
				deq()
				look()
			}
		case 2:
			for len(m) > 0 {
				deq()
			}
			deq()
			look()
		}
		ms[w] = m
	}
	for w, q := range qs {
		for _, want := range ms[w] {
			if v, ok := q.Dequeue(); !ok || !gen.Same(v, want) {
				rt.Fatalf("final drain returned (%v,%v), want %v", v, ok, want)
			}
		}
		if _, ok := q.Dequeue(); ok || !q.IsEmpty() {
			rt.Fatalf("the drained queue is not empty")
		}
	}
}

func TestQueue(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 10000, Thorough: 500000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		kind := rapid.SampledFrom([]string{"int", "int", "string", "pointer", "few", "nil", "any", "empty", "float", "slice", "loose", "record"}).Draw(rt, "type")
		c.Logf("%s", kind)
		c.Label(kind)
		switch kind {
		case "int":
			run(rt, c, gen.Number)
		case "string":
			run(rt, c, func(i int) string { return fmt.Sprint("v", i) })
		case "pointer":
			run(rt, c, gen.Pointer)
		case "few":
			run(rt, c, gen.Few)
		case "nil":
			run(rt, c, gen.MaybeNil)
		case "any":
			run(rt, c, gen.Any)
		case "empty":
			run(rt, c, gen.Empty)
		case "float":
			run(rt, c, gen.Floats)
		case "slice":
			run(rt, c, gen.Rows)
		case "loose":
			run(rt, c, gen.Loose)
		case "record":
			run(rt, c, gen.Records)
		}
	})
}

// Phases of thousands of operations: the queue grows and shrinks far beyond what is drawn step by step.
func TestQueueLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 80, Thorough: 8000, Rule: "two to six phases of 100 to 100000 operations each (grow, shrink, slide, random); every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		r := gen.NewRand(rt, "seed")
		q := queuex.New[int]()
		in, out := 0, 0 // the queue holds out+1..in
		deq := func() {
			v, ok := q.Dequeue()
			if in == out {
				if ok || v != 0 {
					rt.Fatalf("Dequeue on an empty queue reported an element")
				}
				return
			}
			if out++; !ok || v != out {
				rt.Fatalf("Dequeue returned (%d,%v), want %d (%d held)", v, ok, out, in-out+1)
			}
		}
		c.NonTrivial()
		for p := rapid.IntRange(2, 6).Draw(rt, "phases"); p > 0; p-- {
			n := gen.Large(rt, "n", 100, 100000)
			kind := rapid.IntRange(0, 4).Draw(rt, "kind")
			c.Logf("%d*%d", kind, n)
			for k := 0; k < n; k++ {
				push := kind == 0 || kind == 2 && k%2 == 0 || kind == 3 && r.N(2) == 0 || kind == 4 && r.N(4) > 0
				if push {
					in++
					if !q.Enqueue(in) {
						rt.Fatalf("Enqueue refused with %d held", in-out-1)
					}
				} else {
					deq()
				}
				if q.IsEmpty() != (in == out) {
					rt.Fatalf("IsEmpty disagrees with %d held", in-out)
				}
				if v, ok := q.Peek(); ok != (in != out) || ok && v != out+1 {
					rt.Fatalf("Peek returned (%d,%v), want %d (%d held)", v, ok, out+1, in-out)
				}
			}
			c.LabelIf(in-out > 10000, "over 10000 held")
		}
		for in > out {
			deq()
		}
		deq()
	})
}

// TestBeyond fills the queue with up to two million elements.
func TestBeyond(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 8, Thorough: 300, Rule: "queues of 65536 to 2.4 million elements, filled in one or two steps and emptied; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		q := queuex.New[int]()
		in, out := 0, 0
		c.NonTrivial()
		for range rapid.IntRange(1, 2).Draw(rt, "steps") {
			n := gen.Vast(rt, "n")
			c.Logf("%d more", n)
			for range n {
				if !q.Enqueue(in) {
					rt.Fatalf("Enqueue refused with %d held", in-out)
				}
				in++
				if v, ok := q.Peek(); !ok || v != out || q.IsEmpty() {
					rt.Fatalf("Peek = %d %v with %d held, want %d", v, ok, in-out, out)
				}
			}
			for k := n / 3; k > 0; k-- {
				if v, ok := q.Dequeue(); !ok || v != out {
					rt.Fatalf("Dequeue = %d %v, want %d (%d held)", v, ok, out, in-out)
				}
				out++
			}
		}
		for ; out < in; out++ {
			if v, ok := q.Dequeue(); !ok || v != out {
				rt.Fatalf("Dequeue = %d %v, want %d (%d held)", v, ok, out, in-out)
			}
		}
		if _, ok := q.Dequeue(); ok || !q.IsEmpty() {
			rt.Fatalf("elements are left after %d were taken", in)
		}
	})
}
