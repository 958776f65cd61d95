package c41

import (
	"fmt"
	"math"
	"slices"
	"sort"
	"testing"

	"github.com/unsafe-risk/utilx/timex/intersectionx"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

const rule = "0..14 intervals, most of them around a common true value with outliers, touching, identical, nested and zero-width ones, against the definition evaluated over all candidate bounds, and against permuted and shifted copies; " +
	"non-trivial: three or more intervals and at least one outlier or no answer"

type iv = intersectionx.Interval

func from(x iv) int64 {
	if x.Offset < math.MinInt64+x.ConfidenceBand {
		return math.MinInt64
	}
	return x.Offset - x.ConfidenceBand
}

func to(x iv) int64 {
	if x.Offset > math.MaxInt64-x.ConfidenceBand {
		return math.MaxInt64
	}
	return x.Offset + x.ConfidenceBand
}

// reference evaluates the definition directly: quadratic, no sorting.
func reference(in []iv) (l, u int64, ok bool, outliers int) {
	n := len(in)
	if n == 1 {
		return from(in[0]), to(in[0]), true, 0
	}
	covered := func(p int64) (k int) {
		for _, x := range in {
			if from(x) <= p && p <= to(x) {
				k++
			}
		}
		return
	}
	for f := 0; f < n/2; f++ {
		var haveL, haveU bool
		for _, x := range in {
			if s := from(x); covered(s) >= n-f && (!haveL || s < l) {
				l, haveL = s, true
			}
			if e := to(x); covered(e) >= n-f && (!haveU || e > u) {
				u, haveU = e, true
			}
		}
		if !haveL || !haveU || l > u {
			continue
		}
		out := 0
		for _, x := range in {
			if x.Offset < l || x.Offset > u {
				out++
			}
		}
		if out <= f {
			return l, u, true, f
		}
	}
	return 0, 0, false, 0
}

// fast is reference for many intervals: the same definition by counting in sorted bounds.
func fast(in []iv) (l, u int64, ok bool, outliers int) {
	n := len(in)
	if n < 3 {
		return reference(in)
	}
	starts, ends, mids := make([]int64, n), make([]int64, n), make([]int64, n)
	for i, x := range in {
		starts[i], mids[i], ends[i] = from(x), x.Offset, to(x)
	}
	slices.Sort(starts)
	slices.Sort(mids)
	slices.Sort(ends)
	below := func(s []int64, p int64) int { k, _ := slices.BinarySearch(s, p); return k } // how many are less
	upTo := func(s []int64, p int64) int { return sort.Search(n, func(i int) bool { return s[i] > p }) }
	covered := func(p int64) int { return upTo(starts, p) - below(ends, p) }
	// the first start and the last end that lie in at least k intervals
	first, last := make([]int64, n+1), make([]int64, n+1)
	most := 0
	for _, p := range starts {
		for k := covered(p); most < k; {
			most++
			first[most] = p
		}
	}
	reach := most
	most = 0
	for i := n - 1; i >= 0; i-- {
		for k := covered(ends[i]); most < k; {
			most++
			last[most] = ends[i]
		}
	}
	reach = min(reach, most)
	for f := 0; f < n/2; f++ {
		if n-f > reach {
			continue
		}
		l, u = first[n-f], last[n-f]
		if l <= u && below(mids, l)+n-upTo(mids, u) <= f {
			return l, u, true, f
		}
	}
	return 0, 0, false, 0
}

func intervals(rt *rapid.T) []iv {
	base := rapid.OneOf(rapid.Int64Range(-20, 20), rapid.SampledFrom([]int64{0, 1 << 60, -1 << 60, 1 << 40})).Draw(rt, "base")
	scale := rapid.SampledFrom([]int64{1, 2, 4, 10, 1000, 1 << 40, 1 << 57}).Draw(rt, "scale")
	n := rapid.SampledFrom([]int{0, 1, 2, 2, 3, 3, 3, 4, 4, 5, 5, 6, 7, 8, 9, 11, 14}).Draw(rt, "n")
	outlierRate := rapid.SampledFrom([]int{0, 1, 3, 5}).Draw(rt, "outlierRate")
	return build(rt, n, base, scale, outlierRate)
}

func build(rt *rapid.T, n int, base, scale int64, outlierRate int) []iv {
	var res []iv
	for range n {
		if len(res) > 0 && rapid.IntRange(0, 7).Draw(rt, "kind") == 0 {
			o := rapid.SampledFrom(res).Draw(rt, "of")
			switch rapid.IntRange(0, 3).Draw(rt, "relation") {
			case 0:
				res = append(res, o) // identical
			case 1: // touches
				b := rapid.Int64Range(0, 3).Draw(rt, "b") * scale / 2
				res = append(res, iv{Offset: o.Offset + o.ConfidenceBand + b, ConfidenceBand: b})
			case 2: // same middle
				res = append(res, iv{Offset: o.Offset, ConfidenceBand: o.ConfidenceBand / 2})
			case 3: // a point on its edge
				res = append(res, iv{Offset: o.Offset - o.ConfidenceBand})
			}
			continue
		}
		off := rapid.Int64Range(-3, 3).Draw(rt, "off") * scale / 2
		if rapid.IntRange(0, 9).Draw(rt, "outlier") < outlierRate {
			off *= 4
		}
		band := rapid.Int64Range(0, 6).Draw(rt, "band") * scale / 2
		res = append(res, iv{Offset: base + off, ConfidenceBand: band})
	}
	for _, x := range res { // sums stay in range
		const lim = 1 << 62
		if x.Offset > lim/2+lim/4 || x.Offset < -lim/2-lim/4 || x.ConfidenceBand > lim {
			rt.Skip("too far out")
		}
	}
	return res
}

func TestIntersection(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 500000, Thorough: 12000000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		compare(rt, c, intervals(rt))
	})
}

// Bounds beyond the range of int64 count as its ends.
func TestExtreme(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 100000, Thorough: 3000000, Rule: "1..9 intervals with offsets and bands up to the largest integers, some reaching beyond them; non-trivial: a bound beyond the range among two or more intervals"}, func(rt *rapid.T, c *pbt.Case) {
		near := rapid.Int64Range(0, 9)
		off := rapid.Custom(func(t *rapid.T) int64 {
			switch rapid.IntRange(0, 4).Draw(t, "class") {
			case 0:
				return math.MaxInt64 - near.Draw(t, "under")
			case 1:
				return math.MinInt64 + near.Draw(t, "over")
			case 2:
				return near.Draw(t, "small") - 4
			case 3:
				return rapid.SampledFrom([]int64{1 << 62, -1 << 62, 1<<62 - 1, 1 << 61, -1 << 61}).Draw(t, "power")
			}
			return rapid.Int64().Draw(t, "any")
		})
		band := rapid.Custom(func(t *rapid.T) int64 {
			switch rapid.IntRange(0, 4).Draw(t, "class") {
			case 0:
				return math.MaxInt64 - near.Draw(t, "under")
			case 1:
				return near.Draw(t, "small")
			case 2:
				return rapid.SampledFrom([]int64{1 << 62, 1<<62 - 1, 1 << 61, 1 << 60}).Draw(t, "power")
			}
			return rapid.Int64Range(0, math.MaxInt64).Draw(t, "any")
		})
		in := make([]iv, rapid.IntRange(1, 9).Draw(rt, "n"))
		for i := range in {
			in[i] = iv{Offset: off.Draw(rt, "off"), ConfidenceBand: band.Draw(rt, "band")}
			c.NonTrivialIf(len(in) > 1 && (from(in[i]) == math.MinInt64 || to(in[i]) == math.MaxInt64))
		}
		compare(rt, c, in)
	})
}

// TestMany covers dozens to hundreds of intervals; answers with many outliers need many.
func TestMany(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 600, Thorough: 60000, Rule: rule + "; 15 to 300 intervals"}, func(rt *rapid.T, c *pbt.Case) {
		n := gen.Large(rt, "n", 15, 300)
		r := gen.NewRand(rt, "seed")
		scale := rapid.SampledFrom([]int64{1, 2, 10, 1 << 40}).Draw(rt, "scale")
		wide := rapid.SampledFrom([]int{1, 3, 8, 30}).Draw(rt, "wide")
		far := r.N(n * 2 / 3) // outliers, in both directions or one
		side := rapid.IntRange(0, 2).Draw(rt, "side")
		in := make([]iv, n)
		for i := range in {
			in[i] = iv{Offset: int64(r.N(2*wide+1)-wide) * scale, ConfidenceBand: int64(wide+r.N(3*wide)) * scale}
			if i < far {
				in[i].ConfidenceBand = int64(r.N(2*wide)) * scale
				in[i].Offset = int64((2*wide+r.N(20*wide))*[]int{1, -1, 1 - 2*r.N(2)}[side]) * scale
			}
		}
		compare(rt, c, in)
	})
}

// TestHuge covers thousands of intervals.
func TestHuge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 60, Thorough: 5000, Rule: rule + "; 300 to 20000 intervals"}, func(rt *rapid.T, c *pbt.Case) {
		n := gen.Large(rt, "n", 300, 20000)
		r := gen.NewRand(rt, "seed")
		scale := rapid.SampledFrom([]int64{1, 2, 10, 1 << 40}).Draw(rt, "scale")
		wide := rapid.SampledFrom([]int{1, 8, 300, 100000}).Draw(rt, "wide")
		far := r.N(1 + min(n*2/3, rapid.SampledFrom([]int{0, 3, 40, 1000}).Draw(rt, "far")))
		if rapid.IntRange(0, 5).Draw(rt, "none") == 0 && n < 4000 {
			far = n*2/3 - r.N(n/3)
		}
		side := rapid.IntRange(0, 2).Draw(rt, "side")
		inner := rapid.SampledFrom([]int{1, 3, 10}).Draw(rt, "inner") // how far the other middles are spread
		in := make([]iv, n)
		for i := range in {
			in[i] = iv{Offset: int64(r.N(2*wide/inner+1)-wide/inner) * scale, ConfidenceBand: int64(wide+r.N(3*wide)) * scale}
			if i < far {
				in[i].ConfidenceBand = int64(r.N(2*wide)) * scale
				in[i].Offset = int64((2*wide+r.N(20*wide))*[]int{1, -1, 1 - 2*r.N(2)}[side]) * scale
			}
		}
		compare(rt, c, in)
	})
}

func compare(rt *rapid.T, c *pbt.Case, in []iv) {
	c.Logf("%d %v", len(in), in[:min(8, len(in))])
	l, u, ok, out := fast(in)
	if len(in) <= 300 {
		if rl, ru, rok, rout := reference(in); rl != l && rok || ru != u && rok || rok != ok || rout != out {
			panic(fmt.Sprintf("the references differ on %v: %d %d %v %d, %d %d %v %d", in, l, u, ok, out, rl, ru, rok, rout))
		}
	}
	c.NonTrivialIf(len(in) >= 3 && (out > 0 || !ok))
	c.LabelIf(out > 0, "answer with outliers")
	c.LabelIf(!ok, "no answer")
	judge := func(what string, in []iv, shift int64) {
		args := slices.Clone(in)
		gl, gu, gok := intersectionx.Intersection(args...)
		if gok != ok || ok && (gl != l+shift || gu != u+shift) {
			in = in[:min(len(in), 300)]
			rt.Fatalf("the intersection of %v%s is %d %d %v, want %d %d %v", in, what, gl, gu, gok, l+shift, u+shift, ok)
		}
	}
	judge("", in, 0)
	if len(in) <= 300 {
		judge(" (reordered)", rapid.Permutation(in).Draw(rt, "order"), 0)
	}
	rev := slices.Clone(in)
	slices.Reverse(rev)
	judge(" (reversed)", rev, 0)
	d := rapid.Int64Range(-1<<50, 1<<50).Draw(rt, "shift")
	for _, x := range in { // the bounds stay in range
		const most = math.MaxInt64 - 1<<51
		if x.ConfidenceBand > most || from(x) < -most || to(x) > most {
			return
		}
	}
	sh := slices.Clone(in)
	for i := range sh {
		sh[i].Offset += d
	}
	judge(" (shifted)", sh, d)
}
