package c02

import (
	"cmp"
	"math"
	"slices"
	"sort"
	"testing"

	"github.com/unsafe-risk/utilx/algox/searchx"
	"golang.org/x/exp/constraints"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

const rule = "sorted slices of 0..900 elements with duplicates, targets inside, between and outside the values, ascending and caller-supplied orders; " +
	"non-trivial: at least two elements and the answer is not index 0"

func reference[T any](s []T, x T, cmp func(a, b T) int) (int, bool) {
	for i, v := range s {
		if k := cmp(v, x); k >= 0 {
			return i, k == 0
		}
	}
	return len(s), false
}

func values(rt *rapid.T, c *pbt.Case) []int {
	n := pbt.Len(rt, "n", 900)
	span := rapid.SampledFrom([]int{1, 3, 20, 200, 4000}).Draw(rt, "span")
	s := make([]int, n)
	g := rapid.IntRange(-span, span)
	for i := range s {
		s[i] = 2 * g.Draw(rt, "v")
	}
	sort.Ints(s)
	h := 0
	for _, v := range s {
		h = h*131 + v
	}
	c.Logf("n=%d span=%d h=%x", n, span, uint32(h))
	return s
}

func targets(rt *rapid.T, s []int) []int {
	out := []int{math.MinInt32, math.MaxInt32, 0, 1}
	if len(s) > 0 {
		out = append(out, s[0], s[0]-1, s[len(s)-1], s[len(s)-1]+1)
		for k := 0; k < 12; k++ {
			v := s[rapid.IntRange(0, len(s)-1).Draw(rt, "t")]
			out = append(out, v, v-1, v+1)
		}
	}
	return out
}

func ordered[T constraints.Ordered](rt *rapid.T, c *pbt.Case, s []T, x T) {
	keep := append([]T(nil), s...)
	wi, wf := reference(s, x, func(a, b T) int {
		if a < b {
			return -1
		}
		if a > b {
			return 1
		}
		return 0
	})
	i, f := searchx.Search(s, x)
	if i != wi || f != wf {
		rt.Fatalf("Search in %d elements = (%d,%v), want (%d,%v)", len(s), i, f, wi, wf)
	}
	for k := range s {
		if s[k] != keep[k] {
			rt.Fatalf("Search changed the slice")
		}
	}
	c.NonTrivialIf(len(s) >= 2 && wi > 0)
}

func TestSearch(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 8000, Thorough: 300000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		s := values(rt, c)
		kind := rapid.IntRange(0, 3).Draw(rt, "type")
		c.Logf("type=%d", kind)
		for _, x := range targets(rt, s) {
			switch kind {
			case 0:
				ordered(rt, c, s, x)
			case 1:
				ordered(rt, c, conv(s, func(v int) float64 { return float64(v) / 8 }), float64(x)/8)
			case 2:
				ordered(rt, c, conv(s, word), word(x))
			case 3:
				ordered(rt, c, conv(s, func(v int) int64 { return int64(v) << 40 }), int64(x)<<40)
			}
		}
	})
}

// NaNs are first in a sorted slice and equal to each other.
func TestNaN(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6000, Thorough: 150000, Rule: "sorted float slices of 0..300 elements that begin with NaNs, infinities and zeros among the rest, every kind of value sought; " +
		"non-trivial: NaNs and numbers in the slice"}, func(rt *rapid.T, c *pbt.Case) {
		n := pbt.Len(rt, "n", 300)
		share := rapid.SampledFrom([]int{2, 20, 50, 95}).Draw(rt, "share")
		r := gen.NewRand(rt, "seed")
		c.Logf("n=%d share=%d seed=%x", n, share, uint64(*r))
		draw := func() float64 {
			switch {
			case r.N(100) < share:
				return math.Float64frombits(math.Float64bits(math.NaN()) + uint64(r.N(4))<<44 + uint64(r.N(2))<<63)
			case r.N(6) == 0:
				return [...]float64{math.Inf(-1), math.Inf(1), math.Copysign(0, -1), 0, math.MaxFloat64}[r.N(5)]
			}
			return float64(r.N(40)-20) / 4
		}
		s := make([]float64, n)
		f := make([]float32, n)
		for i := range s {
			s[i] = draw()
		}
		slices.Sort(s)
		for i, v := range s {
			f[i] = float32(v)
		}
		c.NonTrivialIf(n > 1 && s[0] != s[0] && s[n-1] == s[n-1])
		for k := range 20 {
			x := draw()
			if k == 0 {
				x = math.NaN()
			}
			wi, wf := reference(s, x, cmp.Compare)
			if i, ok := searchx.Search(s, x); i != wi || ok != wf {
				rt.Fatalf("Search for %v in %v = (%d,%v), want (%d,%v)", x, s, i, ok, wi, wf)
			}
			wi, wf = reference(f, float32(x), cmp.Compare)
			if i, ok := searchx.Search(f, float32(x)); i != wi || ok != wf {
				rt.Fatalf("Search for %v in %v = (%d,%v), want (%d,%v)", float32(x), f, i, ok, wi, wf)
			}
		}
	})
}

func word(v int) string {
	v += 1 << 40
	b := make([]byte, 9)
	for i := 8; i >= 0; i-- {
		b[i] = 'a' + byte(v%26)
		v /= 26
	}
	return string(b)
}

func conv[T any](s []int, f func(int) T) []T {
	out := make([]T, len(s))
	for i, v := range s {
		out[i] = f(v)
	}
	return out
}

type rec struct {
	key int
	tag int
}

func TestSearchCustom(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 8000, Thorough: 300000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		s := values(rt, c)
		recs := make([]rec, len(s))
		for i, v := range s {
			recs[i] = rec{v, i}
		}
		desc := rapid.Bool().Draw(rt, "desc")
		scale := rapid.SampledFrom([]int{0, 1, 5, math.MaxInt}).Draw(rt, "scale") // 0: answers -1/0/1, the largest: the extreme integers
		c.Logf("desc=%v scale=%d", desc, scale)
		if desc {
			for i, j := 0, len(recs)-1; i < j; i, j = i+1, j-1 {
				recs[i], recs[j] = recs[j], recs[i]
			}
		}
		cmp := func(a, b rec) int {
			d := a.key - b.key
			if desc {
				d = -d
			}
			if scale == math.MaxInt {
				switch {
				case d < 0:
					return math.MinInt
				case d > 0:
					return math.MaxInt
				}
				return 0
			}
			if scale == 0 {
				switch {
				case d < 0:
					return -1
				case d > 0:
					return 1
				}
				return 0
			}
			return d * scale
		}
		keep := append([]rec(nil), recs...)
		for _, x := range targets(rt, s) {
			q := rec{x, -1}
			wi, wf := reference(recs, q, cmp)
			i, f := searchx.SearchCustom(recs, q, cmp)
			if i != wi || f != wf {
				rt.Fatalf("SearchCustom in %d elements = (%d,%v), want (%d,%v)", len(recs), i, f, wi, wf)
			}
			c.NonTrivialIf(len(recs) >= 2 && wi > 0)
		}
		for k := range keep {
			if keep[k] != recs[k] {
				rt.Fatalf("SearchCustom changed the slice")
			}
		}
	})
}

// Large slices are expanded from a seed; the expected position comes from how the slice was built.
func TestSearchLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 40, Thorough: 6000, Rule: "sorted slices of 600 to 1200000 elements built from runs of equal values, 60 targets each, both searches; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		n := gen.Large(rt, "n", 600, 1200000)
		r := gen.NewRand(rt, "seed")
		longest := rapid.SampledFrom([]int{1, 2, 9, 300, n}).Draw(rt, "longest run")
		desc := rapid.Bool().Draw(rt, "desc")
		step := rapid.SampledFrom([]int{2, 3, 1000}).Draw(rt, "step")
		c.Logf("n=%d runs to %d step %d desc=%v seed=%x", n, longest, step, desc, uint64(*r))
		c.NonTrivial()
		c.LabelIf(n > 100000, "over 100000")
		s := make([]int, 0, n)
		var starts []int // starts[k]: index where the value k*step begins
		for len(s) < n {
			v := len(starts) * step
			starts = append(starts, len(s))
			for k := r.N(longest); k >= 0 && len(s) < n; k-- {
				s = append(s, v)
			}
		}
		starts = append(starts, n)
		last := len(starts) - 2
		recs := make([]rec, n)
		for i, v := range s {
			recs[i] = rec{v, i}
			if desc {
				recs[i].key = -v
			}
		}
		cmp := func(a, b rec) int {
			d := a.key - b.key
			if desc {
				d = -d
			}
			return d
		}
		for k := 0; k < 60; k++ {
			run := r.N(last + 1)
			switch k {
			case 0:
				run = 0
			case 1, 2:
				run = last
			}
			off := 0
			switch r.N(3) {
			case 0:
				off = 1
			case 1:
				off = -1
			}
			wi, wf := starts[run], off == 0
			if off > 0 {
				wi = starts[run+1]
			}
			if i, f := searchx.Search(s, run*step+off); i != wi || f != wf {
				rt.Fatalf("Search for %d in %d elements = (%d,%v), want (%d,%v)", run*step+off, n, i, f, wi, wf)
			}
			q := rec{run*step + off, -1}
			if desc {
				q.key = -q.key
			}
			if i, f := searchx.SearchCustom(recs, q, cmp); i != wi || f != wf {
				rt.Fatalf("SearchCustom for %d in %d elements = (%d,%v), want (%d,%v)", run*step+off, n, i, f, wi, wf)
			}
		}
	})
}
