package c19

import (
	"fmt"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/slicex"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/models/slicem"
	"verif.local/harness/pbt"
)

// Copies diverge: random edits through two to four slices derived from each other by Copy.
func TestCopiesAreIndependent(t *testing.T) {
	type step struct {
		which int
		copy  bool
		op    slicem.Op
	}
	g := rapid.Custom(func(t *rapid.T) step {
		return step{rapid.IntRange(0, 3).Draw(t, "which"), rapid.IntRange(0, 7).Draw(t, "copy") == 0, slicem.OpGen(false).Draw(t, "op")}
	})
	pbt.Check(t, pbt.Opts{Quick: 20000, Thorough: 800000,
		Rule: "edit histories over up to four slices derived from each other by Copy, each against its own ideal sequence; non-trivial: both a slice and its copy are edited afterwards"},
		func(rt *rapid.T, c *pbt.Case) {
			next := 0
			es := []*slicem.Editor{slicem.Start(rt, &next)}
			edited := map[int]bool{}
			cp := func(k int) {
				e := es[k]
				s := e.S.Copy()
				es = append(es, &slicem.Editor{S: s, M: append([]int(nil), e.M...), Next: &next, Make: gen.Number})
				c.Logf("copy %d", k)
				if s == e.S {
					rt.Fatalf("Copy returned the slice itself")
				}
			}
			cp(0)
			for i, st := range pbt.Sized(g, 60).Draw(rt, "steps") {
				k := st.which % len(es)
				if st.copy && len(es) < 4 {
					cp(k)
				} else if len(es[k].M) < 1000 {
					d, err := es[k].Apply(st.op)
					c.Logf("%d:%s", k, d)
					if err != nil {
						rt.Fatalf("step %d %s: %v", i, d, err)
					}
					edited[k] = true
				}
				for x, e := range es {
					if err := e.Compare(); err != nil {
						rt.Fatalf("step %d: an edit of slice %d is visible in slice %d", i, k, x)
					}
				}
			}
			c.NonTrivialIf(len(edited) >= 2)
		})
}

// Arguments with spare capacity, and memory behind them, stay as they are.
func TestArgumentsUntouched(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 40000, Thorough: 1500000,
		Rule: "splice and expand with argument slices cut out of a larger buffer; non-trivial: arguments with spare capacity put before a non-empty tail"},
		func(rt *rapid.T, c *pbt.Case) {
			next := 0
			e := slicem.Start(rt, &next)
			for k := rapid.IntRange(1, 4).Draw(rt, "calls"); k > 0; k-- {
				size := rapid.IntRange(0, 30).Draw(rt, "buffer")
				buf := make([]int, size)
				for i := range buf {
					next++
					buf[i] = next
				}
				keep := append([]int(nil), buf...)
				lo := rapid.IntRange(0, size).Draw(rt, "lo")
				hi := rapid.IntRange(lo, size).Draw(rt, "hi")
				args := buf[lo:hi]
				n := len(e.M)
				i, j := rapid.IntRange(0, n).Draw(rt, "i"), rapid.IntRange(0, n).Draw(rt, "j")
				c.Logf("n=%d (%d,%d) args %d:%d of %d", n, i, j, lo, hi, size)
				if rapid.Bool().Draw(rt, "expand") {
					j = i
					e.S.Expand(i, args...)
				} else {
					e.S.Splice(i, j, args...)
				}
				e.M = slicem.Splice(e.M, i, j, args...)
				if !slicem.Equal(buf, keep) {
					rt.Fatalf("the caller's argument buffer was changed")
				}
				if err := e.Compare(); err != nil {
					rt.Fatalf("wrong result: %v", err)
				}
				c.NonTrivialIf(hi < size && max(i, j) < n)
				// the slice must not have adopted the buffer
				for x := range buf {
					buf[x] = -1
				}
				if err := e.Compare(); err != nil {
					rt.Fatalf("the slice shares memory with the caller's arguments")
				}
				for x := range *e.S {
					(*e.S)[x]--
					e.M[x]--
				}
				for x := range buf {
					if buf[x] != -1 {
						rt.Fatalf("an edit of the slice reached the caller's argument buffer")
					}
				}
			}
		})
}

// Arguments that are a view of the slice being edited give the result of their values at the call.
func TestSelfArguments(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 40000, Thorough: 1500000,
		Rule: "splice and expand whose arguments are a view of the slice itself, with and without spare capacity; non-trivial: a non-empty view overlapping moved elements"},
		func(rt *rapid.T, c *pbt.Case) {
			next := 0
			e := slicem.Start(rt, &next)
			for k := rapid.IntRange(1, 3).Draw(rt, "calls"); k > 0 && len(e.M) < 500; k-- {
				n := len(e.M)
				a := rapid.IntRange(0, n).Draw(rt, "a")
				b := rapid.IntRange(a, n).Draw(rt, "b")
				i := rapid.IntRange(0, n).Draw(rt, "i")
				j := rapid.IntRange(i, n).Draw(rt, "j")
				view := (*e.S)[a:b]
				if rapid.Bool().Draw(rt, "capped") {
					view = (*e.S)[a:b:b]
				}
				vals := append([]int(nil), view...)
				c.Logf("n=%d (%d,%d) view %d:%d", n, i, j, a, b)
				c.NonTrivialIf(b > a && n > 2 && b > i)
				if rapid.Bool().Draw(rt, "expand") {
					j = i
					e.S.Expand(i, view...)
				} else {
					e.S.Splice(i, j, view...)
				}
				e.M = slicem.Splice(e.M, i, j, vals...)
				if err := e.Compare(); err != nil {
					rt.Fatalf("splice of its own elements: %v", err)
				}
			}
		})
}

// Copies of read-only results: finalize and copy agree, and edits of a copy never reach the source array.
func TestCopyNeverSharesSpareCapacity(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 20000, Thorough: 800000,
		Rule: "a slice that is a prefix of a larger buffer is copied and the copy grown, rotated, filled; non-trivial: the buffer goes on behind the slice"},
		func(rt *rapid.T, c *pbt.Case) {
			size := rapid.IntRange(0, 24).Draw(rt, "buffer")
			buf := make(slicex.Slice[int], size)
			for i := range buf {
				buf[i] = i + 1
			}
			keep := append([]int(nil), buf...)
			hi := rapid.IntRange(0, size).Draw(rt, "hi")
			src := buf[:hi]
			cp := src.Copy()
			n := rapid.IntRange(0, 12).Draw(rt, "grow")
			c.Logf("size=%d hi=%d grow=%d", size, hi, n)
			c.NonTrivialIf(hi < size && n > 0)
			for k := 0; k < n; k++ {
				cp.Push(-1)
			}
			cp.Extend(n)
			cp.Rotate(1)
			for i := 0; i < cp.Len(); i++ {
				cp.Set(i, -2)
			}
			full := (*cp)[:cap(*cp)]
			for i := range full {
				full[i] = -3
			}
			if !slicem.Equal(buf, keep) {
				rt.Fatalf("an edit of the copy is visible in the source buffer")
			}
		})
}

func copiesOf[T any](elem func(int) T) func(*rapid.T, *pbt.Case, []slicem.Op, []slicem.Op) {
	return func(rt *rapid.T, c *pbt.Case, before, after []slicem.Op) {
		next := 0
		e := slicem.StartOf(rt, &next, elem)
		apply := func(e *slicem.EditorOf[T], o slicem.Op) {
			d, err := e.Apply(o)
			c.Logf("%s", d)
			if err != nil {
				rt.Fatalf("%s: %v", d, err)
			}
		}
		for _, o := range before {
			apply(e, o)
		}
		keep := append([]T(nil), e.M...)
		cp := &slicem.EditorOf[T]{S: e.S.Copy(), M: append([]T(nil), e.M...), Next: &next, Make: elem}
		if err := cp.Compare(); err != nil {
			rt.Fatalf("the copy of %v is %v", keep, *cp.S)
		}
		for _, o := range after {
			apply(cp, o)
			if !slicem.Equal(*e.S, keep) {
				rt.Fatalf("an edit of the copy is visible in the slice")
			}
		}
		for _, o := range after {
			apply(e, o)
			if err := cp.Compare(); err != nil {
				rt.Fatalf("an edit of the slice is visible in the copy")
			}
		}
	}
}

func TestElements(t *testing.T) {
	kinds := []func(*rapid.T, *pbt.Case, []slicem.Op, []slicem.Op){copiesOf(gen.Few), copiesOf(gen.MaybeNil), copiesOf(gen.Any), copiesOf(gen.Text), copiesOf(gen.Empty), copiesOf(gen.Array), copiesOf(gen.Floats), copiesOf(gen.Rows), copiesOf(gen.Loose), copiesOf(gen.Records)}
	pbt.Check(t, pbt.Opts{Quick: 8000, Thorough: 300000,
		Rule: "a slice of numbers, pointers, interfaces, strings, arrays or empty structs, with zero, nil and repeated elements, and its copy edited in turn; non-trivial: at least two edits"},
		func(rt *rapid.T, c *pbt.Case) {
			k := rapid.IntRange(0, len(kinds)-1).Draw(rt, "kind")
			g := rapid.SliceOfN(slicem.OpGen(false), 0, 10)
			before, after := g.Draw(rt, "before"), g.Draw(rt, "after")
			c.NonTrivialIf(len(after) >= 2)
			kinds[k](rt, c, before, after)
		})
}

// Slices of up to a hundred thousand elements and their copies.
func TestLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 80, Thorough: 10000,
		Rule: "a slice of 300 to 200000 elements, with and without spare capacity, and its copy edited in turn, and slices spliced with their own views; every case counts as non-trivial"},
		func(rt *rapid.T, c *pbt.Case) {
			n := gen.Large(rt, "n", 300, 200000)
			r := gen.NewRand(rt, "seed")
			buf := make([]int, n, n+rapid.SampledFrom([]int{0, 1, 100, n}).Draw(rt, "spare"))
			for i := range buf {
				buf[i] = i + 1
			}
			c.Logf("n=%d seed %x", n, uint64(*r))
			c.NonTrivial()
			next := n
			e := &slicem.Editor{S: slicex.New(buf...), M: append([]int(nil), buf...), Next: &next, Make: gen.Number}
			cp := &slicem.Editor{S: e.S.Copy(), M: append([]int(nil), buf...), Next: &next, Make: gen.Number}
			if err := cp.Compare(); err != nil {
				rt.Fatalf("the copy of %d elements: %v", n, err)
			}
			for k := 1 + r.N(6); k > 0; k-- {
				a, b := cp, e
				if r.N(2) == 0 {
					a, b = e, cp
				}
				m := len(a.M)
				i := r.N(m + 1)
				j := i + r.N(m+1-i)
				what := ""
				switch r.N(4) {
				case 0:
					lo := r.N(m + 1)
					hi := lo + r.N(min(m-lo, 5000)+1)
					what = fmt.Sprintf("splice(%d,%d, its own %d:%d)", i, j, lo, hi)
					vals := append([]int(nil), a.M[lo:hi]...)
					a.S.Splice(i, j, (*a.S)[lo:hi]...)
					a.M = slicem.Splice(a.M, i, j, vals...)
				case 1:
					what = "set all"
					for x := range a.M {
						a.S.Set(x, -x)
						a.M[x] = -x
					}
				case 2:
					what = fmt.Sprintf("rotate(%d)", i)
					a.S.Rotate(i)
					a.M = slicem.Rotate(a.M, i)
				case 3:
					what = "reverse and push"
					a.S.Reverse().Push(7)
					a.M = append(slicem.Reverse(a.M), 7)
				}
				c.Logf("%s/%d", what, m)
				if err := a.Compare(); err != nil {
					rt.Fatalf("%s of %d elements: %v", what, m, err)
				}
				if err := b.Compare(); err != nil {
					rt.Fatalf("%s of %d elements is visible in the other slice", what, m)
				}
			}
		})
}

// Clearing and narrowing a slice only end what it sees: whoever else looks at
// the elements still has them.
func TestOthersKeepTheirElements(t *testing.T) {
	kinds := []func(*rapid.T, *pbt.Case){keepOf(gen.Number), keepOf(gen.Text), keepOf(gen.Any), keepOf(gen.Array), keepOf(gen.MaybeNil), keepOf(gen.Records)}
	pbt.Check(t, pbt.Opts{Quick: 16000, Thorough: 600000,
		Rule: "a slice over a part of a buffer is cleared, narrowed, repeated, split, batched and searched, while the buffer and earlier parts are watched; non-trivial: a non-empty slice was cleared or narrowed"},
		func(rt *rapid.T, c *pbt.Case) {
			kinds[rapid.IntRange(0, len(kinds)-1).Draw(rt, "kind")](rt, c)
		})
}

func keepOf[T any](elem func(int) T) func(*rapid.T, *pbt.Case) {
	return func(rt *rapid.T, c *pbt.Case) {
		size := rapid.OneOf(rapid.IntRange(0, 40), rapid.IntRange(0, 400)).Draw(rt, "buffer")
		buf := make([]T, size)
		for i := range buf {
			buf[i] = elem(i + 1)
		}
		keep := append([]T(nil), buf...)
		lo := rapid.IntRange(0, size).Draw(rt, "lo")
		hi := rapid.IntRange(lo, size).Draw(rt, "hi")
		s := slicex.New(buf[lo:hi]...)
		if rapid.Bool().Draw(rt, "capped") {
			s = slicex.New(buf[lo:hi:hi]...)
		}
		m := keep[lo:hi]
		var parts []slicex.Slice[T]
		var want [][]T
		for range rapid.IntRange(1, 6).Draw(rt, "ops") {
			n := len(m)
			op := rapid.SampledFrom([]string{"clear", "slice", "repeat", "split", "batch", "read"}).Draw(rt, "op")
			i, j := rapid.IntRange(0, n).Draw(rt, "i"), rapid.IntRange(0, n).Draw(rt, "j")
			c.Logf("n=%d %s(%d,%d)", n, op, i, j)
			switch op {
			case "clear":
				s.Clear()
				m = m[:0]
				c.NonTrivialIf(n > 0)
			case "slice":
				s.Slice(i, j)
				m = slicem.Sub(m, i, j)
				c.NonTrivialIf(n > len(m))
			case "repeat":
				k := j % 4
				s.Repeat(k)
				var r []T
				for range k {
					r = append(r, m...)
				}
				m = r
			case "split":
				for _, p := range s.Split(i, j) {
					parts, want = append(parts, p), append(want, append([]T(nil), p...))
				}
			case "batch":
				for _, p := range s.Batch(i) {
					parts, want = append(parts, p), append(want, append([]T(nil), p...))
				}
			case "read":
				s.Len()
				s.Get(i)
				s.IndexOf(func(T) bool { return false })
				s.Contains(func(T) bool { return false })
				s.Each(func(T) {})
				s.ForEach(func(int, T) {})
				s.Finalize()
				s.Join(",")
			}
			if !slicem.Equal(*s, m) {
				rt.Fatalf("%s(%d,%d) of %d elements gives %v, want %v", op, i, j, n, *s, m)
			}
			if !slicem.Equal(buf, keep) {
				rt.Fatalf("%s(%d,%d) of %d elements changed the buffer the slice was made of", op, i, j, n)
			}
			for k := range parts {
				if !slicem.Equal(parts[k], want[k]) {
					rt.Fatalf("%s(%d,%d) of %d elements changed an earlier part", op, i, j, n)
				}
			}
		}
	}
}
