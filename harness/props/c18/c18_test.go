package c18

import (
	"math"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/slicex"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/models/slicem"
	"verif.local/harness/pbt"
)

func content(rt *rapid.T) (slicex.Slice[int], []int) {
	n := pbt.Len(rt, "n", 600)
	s := make(slicex.Slice[int], n, n+rapid.IntRange(0, 5).Draw(rt, "spare"))
	for i := range s {
		s[i] = i + 1
	}
	return s, append([]int(nil), s...)
}

func TestSplit(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 40000, Thorough: 1500000,
		Rule: "slices of 0..600 elements split by lists of sizes from the smallest to the largest integer; non-trivial: at least two sizes and at least two elements"},
		func(rt *rapid.T, c *pbt.Case) {
			s, keep := content(rt)
			n := len(s)
			g := rapid.Custom(func(t *rapid.T) int {
				switch rapid.IntRange(0, 9).Draw(t, "class") {
				case 0:
					return 0
				case 1:
					return n
				case 2:
					return n + rapid.IntRange(0, 3).Draw(t, "over")
				case 3:
					return rapid.SampledFrom([]int{math.MaxInt, math.MaxInt - 1, math.MaxInt / 2, math.MaxInt32, math.MaxInt - n}).Draw(t, "huge")
				case 6:
					return gen.Wild().Draw(t, "wild")
				case 7: // steps back
					return -rapid.IntRange(0, n+3).Draw(t, "back")
				case 4, 5:
					return rapid.IntRange(0, n+1).Draw(t, "any")
				}
				return rapid.IntRange(0, 1+n/4).Draw(t, "small")
			})
			sizes := rapid.SliceOfN(g, 0, 9).Draw(rt, "sizes")
			c.Logf("n=%d sizes=%v", n, sizes)
			c.NonTrivialIf(len(sizes) >= 2 && n >= 2)
			parts := s.Split(sizes...)
			at := 0
			var want [][]int
			for _, z := range sizes {
				z = max(-at, min(z, n-at))
				want = append(want, keep[min(at, at+z):max(at, at+z)])
				at += z
				c.LabelIf(z < 0, "stepped back")
			}
			if at < n {
				want = append(want, keep[at:])
			}
			if len(parts) != len(want) {
				rt.Fatalf("Split gives %d parts, want %d", len(parts), len(want))
			}
			for i := range want {
				if !slicem.Equal(parts[i], want[i]) {
					rt.Fatalf("part %d of Split differs", i)
				}
			}
			if !slicem.Equal(s, keep) {
				rt.Fatalf("Split changed the slice")
			}
		})
}

func TestBatch(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 40000, Thorough: 1500000,
		Rule: "slices of 0..600 elements batched by any integer; non-trivial: at least two batches"},
		func(rt *rapid.T, c *pbt.Case) {
			s, keep := content(rt)
			n := len(s)
			size := rapid.OneOf(rapid.IntRange(-3, 12), rapid.IntRange(0, n+2), rapid.SampledFrom([]int{math.MinInt, math.MaxInt, math.MaxInt - 1, -1, 0, 1, n, n - 1, n + 1, (n + 1) / 2}), gen.Wild()).Draw(rt, "size")
			c.Logf("n=%d size=%d", n, size)
			parts := s.Batch(size)
			k := max(size, 1)
			at := 0
			for i, p := range parts {
				if len(p) != k && i != len(parts)-1 {
					rt.Fatalf("batch %d has %d elements, want %d", i, len(p), k)
				}
				if len(p) == 0 || len(p) > k {
					rt.Fatalf("batch %d has %d elements, at most %d and at least one wanted", i, len(p), k)
				}
				for _, v := range p {
					if at >= n || v != keep[at] {
						rt.Fatalf("the batches do not concatenate to the slice")
					}
					at++
				}
			}
			if at != n {
				rt.Fatalf("the batches do not concatenate to the slice")
			}
			c.NonTrivialIf(len(parts) >= 2)
			if !slicem.Equal(s, keep) {
				rt.Fatalf("Batch changed the slice")
			}
		})
}

func TestLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 60, Thorough: 10000,
		Rule: "slices of 600 to 300000 elements split by up to 3000 sizes and batched into up to 300000 parts; every case counts as non-trivial"},
		func(rt *rapid.T, c *pbt.Case) {
			n := gen.Large(rt, "n", 600, 300000)
			r := gen.NewRand(rt, "seed")
			s := make(slicex.Slice[int], n)
			for i := range s {
				s[i] = i + 1
			}
			c.NonTrivial()
			check := func(what string, i int, p []int, at, want int) int {
				if len(p) != want {
					rt.Fatalf("%s: part %d has %d elements, want %d", what, i, len(p), want)
				}
				for k, v := range p {
					if v != at+k+1 {
						rt.Fatalf("%s: part %d does not continue the slice", what, i)
					}
				}
				return at + want
			}
			if rapid.Bool().Draw(rt, "batch") {
				size := 1 + r.N(rapid.SampledFrom([]int{1, 3, 300, n, 3 * n}).Draw(rt, "limit"))
				c.Logf("n=%d batch %d", n, size)
				parts := s.Batch(size)
				if len(parts) != (n+size-1)/size {
					rt.Fatalf("Batch(%d) of %d elements gives %d parts", size, n, len(parts))
				}
				at := 0
				for i, p := range parts {
					at = check("Batch", i, p, at, min(size, n-at))
				}
				return
			}
			sizes := make([]int, 1+r.N(3000))
			limit := rapid.SampledFrom([]int{2, 20, 300, n}).Draw(rt, "limit")
			for i := range sizes {
				sizes[i] = r.N(limit)
			}
			c.Logf("n=%d split into %d parts to %d seed %x", n, len(sizes), limit, uint64(*r))
			parts := s.Split(sizes...)
			at := 0
			for i, z := range sizes {
				if i >= len(parts) {
					rt.Fatalf("Split by %d sizes gives %d parts", len(sizes), len(parts))
				}
				at = check("Split", i, parts[i], at, min(z, n-at))
			}
			if rest := n - at; len(parts) != len(sizes)+min(rest, 1) {
				rt.Fatalf("Split by %d sizes with %d elements left gives %d parts", len(sizes), rest, len(parts))
			} else if rest > 0 {
				at = check("Split", len(sizes), parts[len(sizes)], at, rest)
			}
			for i, v := range s {
				if v != i+1 {
					rt.Fatalf("the slice was changed")
				}
			}
		})
}

func partsOf[T any](elem func(int) T) func(*rapid.T, int, []int) {
	return func(rt *rapid.T, n int, sizes []int) {
		s := make(slicex.Slice[T], n)
		for i := range s {
			s[i] = elem(i)
		}
		keep := append([]T(nil), s...)
		at := 0
		take := func(what string, p []T, want int) {
			if len(p) != want || !slicem.Equal(p, keep[at:at+want]) {
				rt.Fatalf("%s: the part at %d is %v, want %v", what, at, p, keep[at:at+want])
			}
			at += want
		}
		parts := s.Split(sizes...)
		for i, z := range sizes {
			if i >= len(parts) {
				rt.Fatalf("Split gives %d parts for %d sizes", len(parts), len(sizes))
			}
			take("Split", parts[i], min(z, n-at))
		}
		if at < n {
			if len(parts) != len(sizes)+1 {
				rt.Fatalf("Split gives %d parts for %d sizes and a rest", len(parts), len(sizes))
			}
			take("Split", parts[len(sizes)], n-at)
		} else if len(parts) != len(sizes) {
			rt.Fatalf("Split gives %d parts for %d sizes and no rest", len(parts), len(sizes))
		}
		for _, z := range append(sizes, 1) {
			at = 0
			for _, p := range s.Batch(z) {
				take("Batch", p, min(max(z, 1), n-at))
			}
			if at != n {
				rt.Fatalf("Batch(%d) ends after %d elements", z, at)
			}
		}
		if !slicem.Equal(s, keep) {
			rt.Fatalf("the slice changed")
		}
	}
}

func TestElements(t *testing.T) {
	kinds := []func(*rapid.T, int, []int){partsOf(gen.Few), partsOf(gen.MaybeNil), partsOf(gen.Any), partsOf(gen.Text), partsOf(gen.Empty), partsOf(gen.Array), partsOf(gen.Floats), partsOf(gen.Rows), partsOf(gen.Loose), partsOf(gen.Records)}
	pbt.Check(t, pbt.Opts{Quick: 5000, Thorough: 200000,
		Rule: "slices of numbers, pointers, interfaces, strings, arrays and empty structs, with zero, nil and repeated elements, split and batched; non-trivial: at least two sizes and two elements"},
		func(rt *rapid.T, c *pbt.Case) {
			n := pbt.Len(rt, "n", 60)
			sizes := rapid.SliceOfN(rapid.IntRange(0, 12), 0, 6).Draw(rt, "sizes")
			k := rapid.IntRange(0, len(kinds)-1).Draw(rt, "kind")
			c.Logf("kind %d: n=%d sizes=%v", k, n, sizes)
			c.NonTrivialIf(n >= 2 && len(sizes) >= 2)
			kinds[k](rt, n, sizes)
		})
}

// Growing a part at its end writes into no other part and not into the slice.
func TestGrown(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 20000, Thorough: 800000,
		Rule: "slices of 0..600 elements, with and without spare capacity, split or batched and their parts grown by push, extend, expand, insert and append, the slice itself too; non-trivial: a part with others behind it was grown"},
		func(rt *rapid.T, c *pbt.Case) {
			s, keep := content(rt)
			n := len(s)
			var parts []slicex.Slice[int]
			if rapid.Bool().Draw(rt, "batch") {
				parts = s.Batch(rapid.IntRange(-1, n+1).Draw(rt, "size"))
			} else {
				parts = s.Split(rapid.SliceOfN(rapid.IntRange(-n/2, 1+n/2), 0, 6).Draw(rt, "sizes")...)
			}
			whole := append(parts[:len(parts):len(parts)], s)
			want := make([][]int, len(whole))
			for i, p := range whole {
				want[i] = append([]int(nil), p...)
			}
			c.Logf("n=%d, %d parts", n, len(parts))
			for k := rapid.IntRange(1, 6).Draw(rt, "edits"); k > 0; k-- {
				i := rapid.IntRange(0, len(whole)-1).Draw(rt, "part")
				p := &whole[i]
				v := -k
				how := rapid.SampledFrom([]string{"push", "extend", "expand", "insert", "append"}).Draw(rt, "how")
				c.Logf("%s part %d of %d", how, i, len(*p))
				switch how {
				case "push":
					p.Push(v)
					want[i] = append(want[i], v)
				case "extend":
					p.Extend(3)
					want[i] = append(want[i], 0, 0, 0)
				case "expand":
					p.Expand(len(*p), v, v, v)
					want[i] = append(want[i], v, v, v)
				case "insert":
					p.Insert(len(*p), v)
					want[i] = append(want[i], v)
				case "append":
					*p = append(*p, v, v)
					want[i] = append(want[i], v, v)
				}
				c.NonTrivialIf(i < len(parts)-1)
				for x := range whole {
					if !slicem.Equal(whole[x], want[x]) {
						rt.Fatalf("after the %s of part %d, part %d of %d is %v, want %v", how, i, x, len(parts), whole[x], want[x])
					}
				}
			}
			if !slicem.Equal(s[:n], keep) {
				rt.Fatalf("growing the parts changed the slice")
			}
		})
}
