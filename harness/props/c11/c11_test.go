package c11

import (
	"fmt"
	"runtime"
	"testing"

	"github.com/unsafe-risk/utilx/dsx"
	"github.com/unsafe-risk/utilx/dsx/linkedx/dequex"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

const rule = "sequences of pushes, pops and peeks at both ends (bursts of 1..200) on int, string, pointer and array deques against an ideal sequence; " +
	"non-trivial: the deque was emptied by a pop and refilled, or held more than one block (64) of elements"

type op struct {
	kind int // 0 pushF 1 pushB 2 popF 3 popB 4 gc 5 drain front 6 drain back
	n    int
}

var opGen = rapid.Custom(func(t *rapid.T) op {
	k := rapid.SampledFrom([]int{0, 0, 0, 1, 1, 1, 2, 2, 2, 3, 3, 3, 5, 6, 7, 4}).Draw(t, "op")
	n := 1
	switch k {
	case 4:
		if rapid.IntRange(0, 40).Draw(t, "gc") != 0 {
			k = 2
		}
	case 0, 1, 2, 3:
		n = rapid.SampledFrom([]int{1, 1, 1, 1, 2, 3, 7, 20, 63, 64, 65, 66, 128, 200}).Draw(t, "n")
	}
	return op{k, n}
})

func run[T any](rt *rapid.T, c *pbt.Case, mk func(int) T) {
	ops := pbt.Sized(opGen, 60).Draw(rt, "ops")
	nd := rapid.IntRange(1, 2).Draw(rt, "deques")
	type st struct {
		d                 dsx.Deque[T]
		m                 []T
		emptied, refilled bool
	}
	ds := make([]*st, nd)
	for i := range ds {
		ds[i] = &st{d: dequex.New[T]()}
	}
	next := 0
	var zero T
	multi := false
	watch := gen.NewWatch(rt)
	for i, o := range ops {
		s := ds[0]
		if nd == 2 && rapid.Bool().Draw(rt, "second") {
			s = ds[1]
		}
		d := s.d
		front := func(what string) {
			v, ok := d.PeekFront()
			if len(s.m) == 0 {
				if ok || !gen.Same(v, zero) {
					rt.Fatalf("step %d %s: PeekFront on an empty deque reported an element", i, what)
				}
			} else if !ok || !gen.Same(v, s.m[0]) {
				rt.Fatalf("step %d %s: PeekFront returned a wrong element", i, what)
			}
		}
		back := func(what string) {
			v, ok := d.PeekBack()
			if len(s.m) == 0 {
				if ok || !gen.Same(v, zero) {
					rt.Fatalf("step %d %s: PeekBack on an empty deque reported an element", i, what)
				}
			} else if !ok || !gen.Same(v, s.m[len(s.m)-1]) {
				rt.Fatalf("step %d %s: PeekBack returned a wrong element", i, what)
			}
		}
		peek := func(what string) {
			if !watch.Now() {
				return
			}
			if watch.Part() {
				front(what)
			}
			if watch.Part() {
				back(what)
			}
		}
		pop := func(front bool) {
			if front {
				v, ok := d.PopFront()
				if len(s.m) == 0 {
					if ok || !gen.Same(v, zero) {
						rt.Fatalf("step %d: PopFront on an empty deque reported an element", i)
					}
					return
				}
				if !ok || !gen.Same(v, s.m[0]) {
					rt.Fatalf("step %d: PopFront returned (%v,%v), want %v", i, v, ok, s.m[0])
				}
				s.m = s.m[1:]
			} else {
				v, ok := d.PopBack()
				if len(s.m) == 0 {
					if ok || !gen.Same(v, zero) {
						rt.Fatalf("step %d: PopBack on an empty deque reported an element", i)
					}
					return
				}
				if !ok || !gen.Same(v, s.m[len(s.m)-1]) {
					rt.Fatalf("step %d: PopBack returned (%v,%v), want %v", i, v, ok, s.m[len(s.m)-1])
				}
				s.m = s.m[:len(s.m)-1]
			}
			if len(s.m) == 0 {
				s.emptied = true
			}
		}
		c.Logf("%d*%d", o.kind, o.n)
		switch o.kind {
		case 0, 1:
			for k := 0; k < o.n; k++ {
				next++
				v := mk(next)
				if o.kind == 0 {
					d.PushFront(v)
					s.m = append([]T{v}, s.m...)
				} else {
					d.PushBack(v)
					s.m = append(s.m[:len(s.m):len(s.m)], v)
				}
				if s.emptied {
					s.refilled = true
				}
				peek("after push")
			}
		case 2, 3:
			for k := 0; k < o.n; k++ {
				pop(o.kind == 2)
				peek("after pop")
			}
		case 4:
			runtime.GC()
		case 5, 6:
			for len(s.m) > 0 {
				pop(o.kind == 5)
			}
			pop(o.kind == 5)
			peek("after drain")
		case 7:
			for k := 0; k < 70 && len(s.m) > 0; k++ {
				pop(k%2 == 0)
			}
		}
		if len(s.m) > 64 {
			multi = true
		}
		if s.refilled {
			c.Label("refilled")
		}
	}
	refilled := false
	for _, s := range ds {
		refilled = refilled || s.refilled
		fromBack := rapid.Bool().Draw(rt, "drainBack")
		for len(s.m) > 0 {
			if fromBack {
				v, ok := s.d.PopBack()
				if !ok || !gen.Same(v, s.m[len(s.m)-1]) {
					rt.Fatalf("final drain from the back returned (%v,%v), want %v", v, ok, s.m[len(s.m)-1])
				}
				s.m = s.m[:len(s.m)-1]
			} else {
				v, ok := s.d.PopFront()
				if !ok || !gen.Same(v, s.m[0]) {
					rt.Fatalf("final drain from the front returned (%v,%v), want %v", v, ok, s.m[0])
				}
				s.m = s.m[1:]
			}
		}
		if _, ok := s.d.PopFront(); ok {
			rt.Fatalf("drained deque still pops an element from the front")
		}
		if _, ok := s.d.PopBack(); ok {
			rt.Fatalf("drained deque still pops an element from the back")
		}
	}
	c.LabelIf(multi, "multi-block")
	c.NonTrivialIf(multi || refilled)
}

func TestDequeInt(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6000, Thorough: 300000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		run(rt, c, func(i int) int { return i })
	})
}

func TestDequeOther(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 4000, Thorough: 100000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		kind := rapid.SampledFrom([]string{"string", "pointer", "array", "few", "nil", "any", "empty", "float", "slice", "loose", "record"}).Draw(rt, "type")
		c.Logf("%s", kind)
		c.Label(kind)
		switch kind {
		case "string":
			run(rt, c, func(i int) string { return fmt.Sprint(i) })
		case "pointer":
			run(rt, c, gen.Pointer)
		case "array":
			run(rt, c, gen.Array)
		case "few":
			run(rt, c, gen.Few)
		case "nil":
			run(rt, c, gen.MaybeNil)
		case "any":
			run(rt, c, gen.Any)
		case "empty":
			run(rt, c, gen.Empty)
		case "float":
			run(rt, c, gen.Floats)
		case "slice":
			run(rt, c, gen.Rows)
		case "loose":
			run(rt, c, gen.Loose)
		case "record":
			run(rt, c, gen.Records)
		}
	})
}

// large runs phases of thousands of operations expanded from a seed, against a window in an array.
func large[T any](rt *rapid.T, c *pbt.Case, hi int, mk func(int) T) {
	r := gen.NewRand(rt, "seed")
	d := dsx.Deque[T](dequex.New[T]())
	phases := rapid.IntRange(2, 6).Draw(rt, "phases")
	total := phases * hi
	m := make([]T, 2*total+2)
	lo, end := total, total // the deque holds m[lo:end]
	next := 0
	var zero T
	check := func(step string, v T, ok bool, want func() T) {
		if lo == end {
			if ok || !gen.Same(v, zero) {
				rt.Fatalf("%s on an empty deque reported an element", step)
			}
			return
		}
		if !ok || !gen.Same(v, want()) {
			rt.Fatalf("%s returned a wrong element (%d held)", step, end-lo)
		}
	}
	most := 0
	for p := 0; p < phases; p++ {
		n := gen.Large(rt, "n", 100, hi)
		bias := rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6}).Draw(rt, "kind")
		c.Logf("%d*%d", bias, n)
		for k := 0; k < n; k++ {
			var op int
			switch bias {
			case 0, 1, 2, 3: // one operation only
				op = bias
			case 4: // sliding window: in at the back, out at the front
				op = []int{1, 2}[k%2]
			case 5: // the other way round
				op = []int{0, 3}[k%2]
			case 6:
				op = r.N(4)
			}
			switch op {
			case 0:
				next++
				lo--
				m[lo] = mk(next)
				d.PushFront(m[lo])
			case 1:
				next++
				m[end] = mk(next)
				end++
				d.PushBack(m[end-1])
			case 2:
				v, ok := d.PopFront()
				check("PopFront", v, ok, func() T { return m[lo] })
				lo = min(lo+1, end)
			case 3:
				v, ok := d.PopBack()
				check("PopBack", v, ok, func() T { return m[end-1] })
				end = max(end-1, lo)
			}
			if k%7 == 0 || end-lo < 3 {
				v, ok := d.PeekFront()
				check("PeekFront", v, ok, func() T { return m[lo] })
				v, ok = d.PeekBack()
				check("PeekBack", v, ok, func() T { return m[end-1] })
			}
			if lo == end { // recentre
				lo, end = total, total
			}
			most = max(most, end-lo)
		}
	}
	c.LabelIf(most > 10000, "over 10000 held")
	c.NonTrivialIf(most > 64)
	for back := rapid.Bool().Draw(rt, "drainBack"); lo < end; {
		if back {
			v, ok := d.PopBack()
			check("final PopBack", v, ok, func() T { return m[end-1] })
			end--
		} else {
			v, ok := d.PopFront()
			check("final PopFront", v, ok, func() T { return m[lo] })
			lo++
		}
	}
	v, ok := d.PopBack()
	check("PopBack after the drain", v, ok, nil)
	v, ok = d.PopFront()
	check("PopFront after the drain", v, ok, nil)
}

func TestDequeLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 50, Thorough: 8000, Rule: "two to six phases of 100 to 100000 operations each (one end, sliding windows, random); non-trivial: more than 64 elements were held"}, func(rt *rapid.T, c *pbt.Case) {
		if rapid.IntRange(0, 3).Draw(rt, "ptr") == 0 {
			large(rt, c, 20000, func(i int) *int { return &i })
		} else {
			large(rt, c, 100000, func(i int) int { return i })
		}
	})
}

// TestBeyond fills the deque from either end or both with up to two million elements.
func TestBeyond(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 4, Thorough: 200, Rule: "deques of 65536 to 2.4 million elements, filled in one or two steps from one end or both and emptied from one end or both; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		c.NonTrivial()
		r := gen.NewRand(rt, "seed")
		d := dequex.New[int]()
		lo, hi := 0, 0 // holds lo..hi-1
		pop := func(front bool) {
			if front {
				if v, ok := d.PopFront(); !ok || v != lo {
					rt.Fatalf("PopFront = %d %v, want %d (%d held)", v, ok, lo, hi-lo)
				}
				lo++
				return
			}
			hi--
			if v, ok := d.PopBack(); !ok || v != hi {
				rt.Fatalf("PopBack = %d %v, want %d (%d held)", v, ok, hi, hi-lo+1)
			}
		}
		ends := func(kind int) bool { return kind == 0 || kind == 2 && r.N(2) == 0 }
		for range rapid.IntRange(1, 2).Draw(rt, "steps") {
			n := gen.Vast(rt, "n")
			fill, drain := rapid.IntRange(0, 2).Draw(rt, "fill"), rapid.IntRange(0, 2).Draw(rt, "drain")
			c.Logf("%d more, %d %d", n, fill, drain)
			for range n {
				if ends(fill) {
					lo--
					d.PushFront(lo)
				} else {
					d.PushBack(hi)
					hi++
				}
				f, fok := d.PeekFront()
				b, bok := d.PeekBack()
				if !fok || f != lo || !bok || b != hi-1 {
					rt.Fatalf("PeekFront = %d %v, PeekBack = %d %v; want %d, %d", f, fok, b, bok, lo, hi-1)
				}
			}
			for k := n / 3; k > 0; k-- {
				pop(ends(drain))
			}
		}
		for kind := rapid.IntRange(0, 2).Draw(rt, "end"); lo < hi; {
			pop(ends(kind))
		}
		if _, ok := d.PopBack(); ok {
			rt.Fatalf("elements are left")
		}
		if _, ok := d.PopFront(); ok {
			rt.Fatalf("elements are left")
		}
	})
}
