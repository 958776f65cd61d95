package c15

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx"
	linked "github.com/unsafe-risk/utilx/dsx/linkedx/stackx"
	sl "github.com/unsafe-risk/utilx/dsx/slicex/stackx"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

const rule = "push, pop and peek bursts on the linked and the slice stack (in lockstep) against an ideal stack; " +
	"non-trivial: a pop happened while several elements were held, or the stack was emptied and refilled"

type op struct{ kind, n int }

var opGen = rapid.Custom(func(t *rapid.T) op {
	return op{rapid.SampledFrom([]int{0, 0, 0, 1, 1, 1, 2}).Draw(t, "op"), rapid.SampledFrom([]int{1, 1, 1, 2, 3, 9, 40}).Draw(t, "n")}
})

func run[T any](rt *rapid.T, c *pbt.Case, name string, s dsx.Stack[T], isEmpty func() bool, ops []op, mk func(int) T) {
	var m []T
	var zero T
	next := 0
	emptied := false
	watch := gen.NewWatch(rt)
	look := func() {
		if !watch.Now() {
			return
		}
		if watch.Part() && s.Len() != len(m) {
			rt.Fatalf("%s: Len = %d, want %d", name, s.Len(), len(m))
		}
		if isEmpty != nil && watch.Part() && isEmpty() != (len(m) == 0) {
			rt.Fatalf("%s: IsEmpty is wrong with %d elements", name, len(m))
		}
		if !watch.Part() {
			return
		}
		v, ok := s.Peek()
		if len(m) == 0 {
			if ok || !gen.Same(v, zero) {
				rt.Fatalf("%s: Peek on an empty stack reported an element", name)
			}
		} else if !ok || !gen.Same(v, m[len(m)-1]) {
			rt.Fatalf("%s: Peek returned a wrong element", name)
		}
	}
	pop := func() {
		v, ok := s.Pop()
		if len(m) == 0 {
			if ok || !gen.Same(v, zero) {
				rt.Fatalf("%s: Pop on an empty stack reported an element", name)
			}
		} else {
			if !ok || !gen.Same(v, m[len(m)-1]) {
				rt.Fatalf("%s: Pop returned a wrong element", name)
			}
			c.NonTrivialIf(len(m) > 1)
			m = m[:len(m)-1]
			emptied = emptied || len(m) == 0
		}
		look()
	}
	look()
	for _, o := range ops {
		switch o.kind {
		case 0:
			for k := 0; k < o.n; k++ {
				next++
				v := mk(next)
				if !s.Push(v) {
					rt.Fatalf("%s: Push refused", name)
				}
				m = append(m[:len(m):len(m)], v)
				look()
			}
			if emptied {
				c.Label("refilled")
				c.NonTrivial()
			}
		case 1:
			for k := 0; k < o.n; k++ {
				pop()
			}
		case 2:
			for len(m) > 0 {
				pop()
			}
			pop()
		}
	}
	if rapid.Bool().Draw(rt, "all in the end") {
		watch.All()
	}
	for len(m) > 0 {
		pop()
	}
	pop()
}

func both[T any](rt *rapid.T, c *pbt.Case, ops []op, mk func(int) T) {
	s := sl.New[T]()
	run[T](rt, c, "linked stack", linked.New[T](), nil, ops, mk)
	run[T](rt, c, "slice stack", s, s.IsEmpty, ops, mk)
}

func TestStacks(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 8000, Thorough: 400000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		ops := pbt.Sized(opGen, 80).Draw(rt, "ops")
		for _, o := range ops {
			c.Logf("%d*%d", o.kind, o.n)
		}
		both(rt, c, ops, gen.Number)
		switch rapid.IntRange(0, 13).Draw(rt, "type") {
		case 0:
			both(rt, c, ops, gen.Pointer)
		case 1:
			both(rt, c, ops, gen.Few)
		case 2:
			both(rt, c, ops, gen.MaybeNil)
		case 3:
			both(rt, c, ops, gen.Any)
		case 4:
			both(rt, c, ops, gen.Text)
		case 5:
			both(rt, c, ops, gen.Empty)
		case 6:
			both(rt, c, ops, gen.Floats)
		case 7:
			both(rt, c, ops, gen.Rows)
		case 8:
			both(rt, c, ops, gen.Loose)
		case 9:
			both(rt, c, ops, gen.Records)
		}
	})
}

// Stacks far higher than those drawn step by step.
func TestStacksLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 40, Thorough: 6000, Rule: "both stacks in lockstep through two to six phases of 100 to 100000 operations; non-trivial: more than 100 elements were held"}, func(rt *rapid.T, c *pbt.Case) {
		r := gen.NewRand(rt, "seed")
		slice := sl.New[int]()
		stacks := []dsx.Stack[int]{linked.New[int](), slice}
		var m []int
		next, most := 0, 0
		step := func(push bool) {
			if push {
				next++
				m = append(m, next)
			}
			for w, s := range stacks {
				if push {
					if !s.Push(next) {
						rt.Fatalf("stack %d: Push refused with %d held", w, len(m)-1)
					}
				} else if v, ok := s.Pop(); ok != (len(m) > 0) || ok && !gen.Same(v, m[len(m)-1]) || !ok && v != 0 {
					rt.Fatalf("stack %d: Pop returned (%d,%v) with %d held", w, v, ok, len(m))
				}
			}
			if !push && len(m) > 0 {
				m = m[:len(m)-1]
			}
			for w, s := range stacks {
				if s.Len() != len(m) {
					rt.Fatalf("stack %d: Len = %d, want %d", w, s.Len(), len(m))
				}
				if v, ok := s.Peek(); ok != (len(m) > 0) || ok && !gen.Same(v, m[len(m)-1]) {
					rt.Fatalf("stack %d: Peek returned (%d,%v) with %d held", w, v, ok, len(m))
				}
			}
			if slice.IsEmpty() != (len(m) == 0) {
				rt.Fatalf("IsEmpty is wrong with %d elements", len(m))
			}
			most = max(most, len(m))
		}
		for p := rapid.IntRange(2, 6).Draw(rt, "phases"); p > 0; p-- {
			n := gen.Large(rt, "n", 100, 100000)
			kind := rapid.IntRange(0, 3).Draw(rt, "kind")
			c.Logf("%d*%d", kind, n)
			for k := 0; k < n; k++ {
				step(kind == 0 || kind == 2 && r.N(2) == 0 || kind == 3 && r.N(4) > 0)
			}
		}
		for len(m) > 0 {
			step(false)
		}
		step(false)
		c.NonTrivialIf(most > 100)
		c.LabelIf(most > 10000, "over 10000 held")
	})
}

// TestBeyond piles up to two million elements.
func TestBeyond(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 8, Thorough: 300, Rule: "both stacks of 65536 to 2.4 million elements, filled in one or two steps and emptied; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		c.NonTrivial()
		steps := rapid.IntRange(1, 2).Draw(rt, "steps")
		sizes := []int{gen.Vast(rt, "n"), gen.Vast(rt, "n")}[:steps]
		c.Logf("%v", sizes)
		for w, s := range []dsx.Stack[int]{linked.New[int](), sl.New[int]()} {
			m := 0
			pop := func() {
				m--
				if v, ok := s.Pop(); !ok || v != m || s.Len() != m {
					rt.Fatalf("stack %d: Pop = %d %v, want %d; Len = %d", w, v, ok, m, s.Len())
				}
			}
			for _, n := range sizes {
				for range n {
					if !s.Push(m) {
						rt.Fatalf("stack %d: Push refused with %d held", w, m)
					}
					if v, ok := s.Peek(); !ok || v != m {
						rt.Fatalf("stack %d: Peek = %d %v, want %d", w, v, ok, m)
					}
					if m++; s.Len() != m {
						rt.Fatalf("stack %d: Len = %d with %d held", w, s.Len(), m)
					}
				}
				for k := n / 3; k > 0; k-- {
					pop()
				}
			}
			for m > 0 {
				pop()
			}
			if _, ok := s.Pop(); ok || s.Len() != 0 {
				rt.Fatalf("stack %d: elements are left", w)
			}
		}
	})
}
