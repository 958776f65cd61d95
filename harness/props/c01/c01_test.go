package c01

import (
	"cmp"
	"encoding/binary"
	"math"
	"slices"
	"sort"
	"strconv"
	"testing"

	"github.com/unsafe-risk/utilx/algox/sortx"
	"golang.org/x/exp/constraints"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

const rule = "slices of 0..900 elements in random, sorted, reversed, organ-pipe and few-distinct-values shapes, sorted by every routine in both directions; " +
	"non-trivial: at least three elements with an inversion or a tie"

// shape arranges drawn ranks in patterns that reach the different code paths of pattern-defeating sorts.
func shape(rt *rapid.T, c *pbt.Case) []int {
	n := pbt.Len(rt, "n", 900)
	kind := rapid.SampledFrom([]string{"random", "random", "few", "few", "sorted", "reversed", "pipe", "nearly", "equal", "runs"}).Draw(rt, "shape")
	c.Logf("%s n=%d", kind, n)
	s := make([]int, n)
	switch kind {
	case "random":
		g := rapid.IntRange(-1000, 1000)
		for i := range s {
			s[i] = g.Draw(rt, "v")
		}
	case "few":
		k := rapid.IntRange(2, 6).Draw(rt, "k")
		g := rapid.IntRange(-k/2, k/2)
		for i := range s {
			s[i] = g.Draw(rt, "v")
		}
	case "sorted", "reversed", "pipe", "nearly":
		for i := range s {
			switch kind {
			case "reversed":
				s[i] = n - i
			case "pipe":
				s[i] = min(i, n-i)
			default:
				s[i] = i
			}
		}
		if kind == "nearly" && n > 1 {
			for k := rapid.IntRange(1, 6).Draw(rt, "swaps"); k > 0; k-- {
				i, j := rapid.IntRange(0, n-1).Draw(rt, "i"), rapid.IntRange(0, n-1).Draw(rt, "j")
				s[i], s[j] = s[j], s[i]
			}
		}
	case "equal":
	case "runs":
		p := rapid.IntRange(2, 40).Draw(rt, "period")
		for i := range s {
			s[i] = i % p
		}
	}
	h := 0
	for _, v := range s {
		h = h*31 + v
	}
	c.Logf("h=%x", uint32(h))
	if n >= 3 {
		for i := 1; i < n; i++ {
			if s[i] <= s[i-1] {
				c.NonTrivial()
			}
		}
	}
	return s
}

type pair struct{ key, idx int }

func counts[T comparable](s []T) map[T]int {
	m := map[T]int{}
	for _, v := range s {
		m[v]++
	}
	return m
}

func same[T comparable](a, b []T) bool {
	if len(a) != len(b) {
		return false
	}
	m := counts(a)
	for _, v := range b {
		m[v]--
		if m[v] < 0 {
			return false
		}
	}
	return true
}

// adjacent reports whether no element may come strictly before its predecessor.
func adjacent[T any](s []T, before func(a, b T) bool) bool {
	for i := 1; i < len(s); i++ {
		if before(s[i], s[i-1]) {
			return false
		}
	}
	return true
}

func ordered[T constraints.Ordered](rt *rapid.T, c *pbt.Case, ranks []int, mk func(int) T) {
	base := make([]T, len(ranks))
	for i, r := range ranks {
		base[i] = mk(r)
	}
	lt := func(a, b T) bool { return a < b }
	gt := func(a, b T) bool { return a > b }
	if got, want := sortx.IsSorted(base), adjacent(base, lt); got != want {
		rt.Fatalf("IsSorted = %v, want %v", got, want)
	}
	if got, want := sortx.IsSortedReverse(base), adjacent(base, gt); got != want {
		rt.Fatalf("IsSortedReverse = %v, want %v", got, want)
	}
	for _, tc := range []struct {
		name string
		f    func([]T)
		cmp  func(a, b T) bool
		isS  func([]T) bool
	}{
		{"Sort(false)", func(s []T) { sortx.Sort(s, false) }, lt, sortx.IsSorted[T]},
		{"Sort(true)", func(s []T) { sortx.Sort(s, true) }, gt, sortx.IsSortedReverse[T]},
		{"SortReverse", sortx.SortReverse[T], gt, sortx.IsSortedReverse[T]},
		{"SortStable", sortx.SortStable[T], lt, sortx.IsSorted[T]},
		{"SortStableReverse", sortx.SortStableReverse[T], gt, sortx.IsSortedReverse[T]},
	} {
		// sentinels around the slice must stay
		buf := make([]T, len(base)+4)
		lo, hi := mk(-7777), mk(7777)
		buf[0], buf[1], buf[len(buf)-2], buf[len(buf)-1] = hi, lo, hi, lo
		s := buf[2 : 2+len(base)]
		copy(s, base)
		tc.f(s)
		if buf[0] != hi || buf[1] != lo || buf[len(buf)-2] != hi || buf[len(buf)-1] != lo {
			rt.Fatalf("%s wrote outside the slice", tc.name)
		}
		if !same(base, s) {
			rt.Fatalf("%s: result is not a permutation of the input", tc.name)
		}
		if !adjacent(s, tc.cmp) {
			rt.Fatalf("%s: result is not ordered", tc.name)
		}
		if !tc.isS(s) {
			rt.Fatalf("%s: the is-sorted predicate denies the sorted result", tc.name)
		}
	}
}

func TestOrdered(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6000, Thorough: 200000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		ranks := shape(rt, c)
		switch k := rapid.IntRange(0, 6).Draw(rt, "type"); k {
		case 0:
			c.Logf("int")
			ordered(rt, c, ranks, func(r int) int { return r })
		case 1:
			c.Logf("string")
			ordered(rt, c, ranks, func(r int) string {
				b := []byte{'a', 'a', 'a'}
				r += 5000
				for i := 2; i >= 0; i-- {
					b[i] += byte(r % 26)
					r /= 26
				}
				return string(b)
			})
		case 2:
			c.Logf("float64")
			ordered(rt, c, ranks, func(r int) float64 {
				if r == 500 || r == -500 {
					return math.Inf(r)
				}
				return float64(r) / 3
			})
		case 3:
			c.Logf("uint8")
			ordered(rt, c, ranks, func(r int) uint8 { return uint8(r) })
		case 4:
			c.Logf("int64 extremes")
			ordered(rt, c, ranks, func(r int) int64 {
				switch r % 5 {
				case 0:
					return math.MinInt64 + int64(r)&7
				case 1:
					return math.MaxInt64 - int64(r)&7
				}
				return int64(r)
			})
		case 5:
			c.Logf("float32")
			ordered(rt, c, ranks, func(r int) float32 { return float32(r) * 1.5e30 })
		case 6:
			c.Logf("uint64")
			ordered(rt, c, ranks, func(r int) uint64 { return uint64(r) })
		}
	})
}

// Equal floats of different sign are the one way to see stability on an ordered type.
func TestStableOrderedZeros(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 2000, Thorough: 50000, Rule: "float slices mixing -0, +0 and a few values: stable routines keep the order of equal elements; " +
		"non-trivial: more than 12 elements with both zeros"}, func(rt *rapid.T, c *pbt.Case) {
		n := pbt.Len(rt, "n", 300)
		neg := math.Copysign(0, -1)
		vals := []float64{neg, 0, neg, 0, 1, -1}
		s := make([]float64, n)
		for i := range s {
			s[i] = vals[rapid.IntRange(0, len(vals)-1).Draw(rt, "v")]
		}
		c.Logf("%v", s)
		signs := func(x []float64) (out []bool) {
			for _, v := range x {
				if v == 0 {
					out = append(out, math.Signbit(v))
				}
			}
			return
		}
		want := signs(s)
		c.NonTrivialIf(n > 12 && len(want) > 2)
		for _, rev := range []bool{false, true} {
			x := append([]float64(nil), s...)
			if rev {
				sortx.SortStableReverse(x)
			} else {
				sortx.SortStable(x)
			}
			got := signs(x)
			for i := range want {
				if len(got) != len(want) || got[i] != want[i] {
					rt.Fatalf("stable sort (reverse=%v) changed the order of equal elements", rev)
				}
			}
		}
	})
}

// NaNs are first, last in reverse, and equal to each other; their bits tell them apart.
func TestNaN(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6000, Thorough: 150000, Rule: "float64 and float32 slices of 0..600 elements with NaNs of several bit patterns, infinities and zeros among the numbers, sorted by every routine in both directions and asked whether they are sorted; " +
		"non-trivial: a NaN behind a number and a number behind a NaN"}, func(rt *rapid.T, c *pbt.Case) {
		n := pbt.Len(rt, "n", 600)
		share := rapid.SampledFrom([]int{1, 2, 10, 90}).Draw(rt, "share")
		span := rapid.SampledFrom([]int{1, 5, 1000}).Draw(rt, "span")
		r := gen.NewRand(rt, "seed")
		c.Logf("n=%d share=%d span=%d seed=%x", n, share, span, uint64(*r))
		s := make([]float64, n)
		for i := range s {
			switch {
			case r.N(100) < share:
				s[i] = math.Float64frombits(math.Float64bits(math.NaN()) + uint64(r.N(4))<<44 + uint64(r.N(2))<<63)
			case r.N(12) == 0:
				s[i] = [...]float64{math.Inf(-1), math.Inf(1), math.Copysign(0, -1), 0, math.MaxFloat64, math.SmallestNonzeroFloat64}[r.N(6)]
			default:
				s[i] = float64(r.N(2*span) - span)
			}
		}
		switch rapid.IntRange(0, 3).Draw(rt, "as") {
		case 0:
			nan(rt, c, s, math.Float64bits)
		case 1: // sorted but for a few
			slices.Sort(s)
			for range rapid.IntRange(0, 2).Draw(rt, "swaps") {
				if n > 0 {
					i, j := r.N(n), r.N(n)
					s[i], s[j] = s[j], s[i]
				}
			}
			if rapid.Bool().Draw(rt, "descending") {
				slices.Reverse(s)
			}
			nan(rt, c, s, math.Float64bits)
		default:
			f := make([]float32, n)
			for i, v := range s {
				f[i] = float32(v)
			}
			nan(rt, c, f, func(v float32) uint64 { return uint64(math.Float32bits(v)) })
		}
	})
}

func nan[T float32 | float64](rt *rapid.T, c *pbt.Case, base []T, bits func(T) uint64) {
	up := func(a, b T) int { return cmp.Compare(a, b) }
	down := func(a, b T) int { return cmp.Compare(b, a) }
	ahead, behind := false, false
	for i := 1; i < len(base); i++ {
		a, b := base[i-1], base[i]
		ahead, behind = ahead || a != a && b == b, behind || a == a && b != b
	}
	c.NonTrivialIf(ahead && behind)
	if got, want := sortx.IsSorted(base), slices.IsSortedFunc(base, up); got != want {
		rt.Fatalf("IsSorted(%v) = %v", base, got)
	}
	if got, want := sortx.IsSortedReverse(base), slices.IsSortedFunc(base, down); got != want {
		rt.Fatalf("IsSortedReverse(%v) = %v", base, got)
	}
	all := func(s []T) []uint64 {
		out := make([]uint64, len(s))
		for i, v := range s {
			out[i] = bits(v)
		}
		return out
	}
	for _, tc := range []struct {
		name   string
		f      func([]T)
		order  func(a, b T) int
		isS    func([]T) bool
		stable bool
	}{
		{"Sort(false)", func(s []T) { sortx.Sort(s, false) }, up, sortx.IsSorted[T], false},
		{"Sort(true)", func(s []T) { sortx.Sort(s, true) }, down, sortx.IsSortedReverse[T], false},
		{"SortReverse", sortx.SortReverse[T], down, sortx.IsSortedReverse[T], false},
		{"SortStable", sortx.SortStable[T], up, sortx.IsSorted[T], true},
		{"SortStableReverse", sortx.SortStableReverse[T], down, sortx.IsSortedReverse[T], true},
	} {
		s := slices.Clone(base)
		tc.f(s)
		if !slices.IsSortedFunc(s, tc.order) {
			rt.Fatalf("%s of %v: %v is not ordered", tc.name, base, s)
		}
		if !tc.isS(s) {
			rt.Fatalf("%s of %v: the is-sorted predicate denies the result", tc.name, base)
		}
		want := slices.Clone(base)
		slices.SortStableFunc(want, tc.order)
		got, ideal := all(s), all(want)
		if !tc.stable {
			slices.Sort(got)
			slices.Sort(ideal)
		}
		if !slices.Equal(got, ideal) {
			rt.Fatalf("%s of %v: %v, want %v (stable %v)", tc.name, base, s, want, tc.stable)
		}
	}
}

func TestCustom(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6000, Thorough: 200000, Rule: rule + " (records with a key and a unique index, caller-supplied orders)"}, func(rt *rapid.T, c *pbt.Case) {
		ranks := shape(rt, c)
		custom(rt, c, ranks)
	})
}

// custom sorts records by a caller-supplied order.
func custom(rt *rapid.T, c *pbt.Case, ranks []int) {
	mod := rapid.SampledFrom([]int{0, 0, 2, 3, 7}).Draw(rt, "mod")
	desc := rapid.Bool().Draw(rt, "desc")
	c.Logf("mod=%d desc=%v", mod, desc)
	key := func(p pair) int {
		k := p.key
		if mod > 0 {
			k = ((k % mod) + mod) % mod
		}
		if desc {
			k = -k
		}
		return k
	}
	less := func(a, b pair) bool { return key(a) < key(b) }
	base := make([]pair, len(ranks))
	for i, r := range ranks {
		base[i] = pair{r, i}
	}
	if got, want := sortx.IsSortedCustom(base, less), adjacent(base, less); got != want {
		rt.Fatalf("IsSortedCustom = %v, want %v", got, want)
	}
	s := append([]pair(nil), base...)
	sortx.SortCustom(s, less)
	if !same(base, s) {
		rt.Fatalf("SortCustom: result is not a permutation of the input")
	}
	if !adjacent(s, less) {
		rt.Fatalf("SortCustom: result is not ordered")
	}
	if !sortx.IsSortedCustom(s, less) {
		rt.Fatalf("IsSortedCustom denies the sorted result")
	}
	s = append([]pair(nil), base...)
	sortx.SortStableCustom(s, less)
	want := append([]pair(nil), base...)
	sort.SliceStable(want, func(i, j int) bool { // reference order: key, then original index
		if key(want[i]) != key(want[j]) {
			return key(want[i]) < key(want[j])
		}
		return want[i].idx < want[j].idx
	})
	for i := range want {
		if s[i] != want[i] {
			rt.Fatalf("SortStableCustom differs from the stable order at %d", i)
		}
	}
}

// large arranges ranks expanded from a seed, in sizes beyond what is drawn element by element.
func large(rt *rapid.T, c *pbt.Case, hi int) []int {
	lo := 600
	if hi > 100000 {
		lo = 70000
	}
	n := gen.Large(rt, "n", lo, hi)
	r := gen.NewRand(rt, "seed")
	kind := rapid.SampledFrom([]string{"random", "few", "sorted", "reversed", "pipe", "nearly", "runs", "killer", "tail"}).Draw(rt, "shape")
	c.Logf("%s n=%d seed=%x", kind, n, uint64(*r))
	c.Label(kind)
	c.LabelIf(n > 10000, "over 10000")
	c.NonTrivial()
	s := make([]int, n)
	period := 2 + r.N(300)
	for i := range s {
		switch kind {
		case "random":
			s[i] = r.N(4 * n)
		case "few":
			s[i] = r.N(2 + period%9)
		case "reversed":
			s[i] = n - i
		case "pipe":
			s[i] = min(i, n-i)
		case "runs":
			s[i] = i % period
		case "killer": // interleaved halves, hard for median-of-three pivots
			if i%2 == 0 {
				s[i] = i
			} else {
				s[i] = n/2 + i/2
			}
		default:
			s[i] = i
		}
	}
	switch kind {
	case "nearly":
		for k := r.N(40); k >= 0; k-- {
			i, j := r.N(n), r.N(n)
			s[i], s[j] = s[j], s[i]
		}
	case "tail":
		for k := r.N(20); k >= 0; k-- {
			s[n-1-r.N(min(n, 64))] = r.N(n)
		}
	}
	return s
}

const largeRule = "slices of 600 to 70000 elements expanded from a drawn seed, in nine arrangements; every case counts as non-trivial"

func TestOrderedLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 30, Thorough: 4000, Rule: largeRule}, func(rt *rapid.T, c *pbt.Case) {
		ranks := large(rt, c, 70000)
		switch rapid.IntRange(0, 3).Draw(rt, "type") {
		case 0:
			ordered(rt, c, ranks, func(r int) int { return r })
		case 1:
			ordered(rt, c, ranks, func(r int) uint16 { return uint16(r) })
		case 2:
			ordered(rt, c, ranks, func(r int) string { return string([]byte{byte(r >> 16), byte(r >> 8), byte(r)}) })
		case 3:
			ordered(rt, c, ranks, func(r int) float64 { return float64(r) / 3 })
		}
	})
}

func TestCustomLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 40, Thorough: 8000, Rule: largeRule}, func(rt *rapid.T, c *pbt.Case) {
		ranks := large(rt, c, 70000)
		custom(rt, c, ranks)
	})
}

// Slices of up to a million elements.
func TestHuge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 5, Thorough: 400, Rule: "slices of 70000 to 1100000 integers or records expanded from a drawn seed, in nine arrangements; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		ranks := large(rt, c, 1100000)
		if rapid.Bool().Draw(rt, "records") {
			custom(rt, c, ranks)
		} else {
			ordered(rt, c, ranks, func(r int) int { return r })
		}
	})
}

// The order decides itself while it is being asked (McIlroy's adversary): elements stay undecided
// as long as possible, which drives a quicksort into its worst case. All answers given are
// consistent with the final values.
func TestCustomAdversary(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 20, Thorough: 2000, Rule: "slices of 30 to 5000 elements whose order is decided by an adversary during the first sort, then fixed; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		n := gen.Large(rt, "n", 30, 5000)
		stable := rapid.Bool().Draw(rt, "stable")
		c.Logf("n=%d stable=%v", n, stable)
		c.NonTrivial()
		gas := n
		val := make([]int, n)
		for i := range val {
			val[i] = gas
		}
		solid, cand := 0, -1
		less := func(x, y pair) bool {
			if val[x.idx] == gas && val[y.idx] == gas && x.idx != y.idx {
				if x.idx == cand {
					val[x.idx] = solid
				} else {
					val[y.idx] = solid
				}
				solid++
			}
			if val[x.idx] == gas {
				cand = x.idx
			} else if val[y.idx] == gas {
				cand = y.idx
			}
			return val[x.idx] < val[y.idx]
		}
		s := make([]pair, n)
		for i := range s {
			s[i] = pair{0, i}
		}
		base := append([]pair(nil), s...)
		if stable {
			sortx.SortStableCustom(s, less)
		} else {
			sortx.SortCustom(s, less)
		}
		if !same(base, s) {
			rt.Fatalf("adversarial order: result is not a permutation of the input")
		}
		if !adjacent(s, func(a, b pair) bool { return val[a.idx] < val[b.idx] }) {
			rt.Fatalf("adversarial order: result is not ordered")
		}
		ranks := make([]int, n)
		copy(ranks, val)
		custom(rt, c, ranks) // the same worst case, now with a fixed order
		ordered(rt, c, ranks, func(r int) int { return r })
	})
}

type (
	height int
	code   uint8
	word   string
)

// whole expands integers over the whole range of 64 bits, or clusters of them far apart.
func whole(rt *rapid.T, c *pbt.Case) []int {
	n := gen.Large(rt, "n", 8, 20000)
	r := gen.NewRand(rt, "seed")
	kind := rapid.SampledFrom([]string{"everything", "bits", "narrow", "narrow with outliers", "narrow with outliers", "ends", "bytes"}).Draw(rt, "spread")
	c.Logf("%s n=%d seed=%x", kind, n, uint64(*r))
	c.Label(kind)
	c.NonTrivial()
	base := []int{0, math.MinInt, math.MaxInt - 1<<20, -1 << 31, 1<<31 - 500, -1 << 15, -300, 1 << 53, -1 << 53, 1<<62 - 7}[r.N(10)]
	width := []int{2, 100, 256, 1000, 65536, 1 << 20}[r.N(6)]
	outliers := 1 + r.N(3)
	extremes := []int{math.MinInt, math.MaxInt, math.MinInt + 1, math.MaxInt - 1, -1, 0, 1, math.MinInt32, math.MaxInt32, math.MaxUint32, math.MinInt16, 1 << 62, -1 << 62}
	s := make([]int, n)
	for i := range s {
		switch kind {
		case "everything":
			s[i] = int(r.Uint64())
		case "bits":
			s[i] = int(r.Uint64()) >> r.N(64)
		case "ends":
			s[i] = extremes[r.N(len(extremes))] + r.N(9) - 4 // wraps around
		case "bytes":
			s[i] = r.N(256) << (8 * r.N(8))
		default:
			s[i] = base + r.N(width)
		}
	}
	if kind == "narrow with outliers" {
		for range outliers {
			s[r.N(n)] = extremes[r.N(len(extremes))]
		}
	}
	return s
}

// TestOrderedWide sorts values of every ordered kind from all over its range.
func TestOrderedWide(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 150, Thorough: 15000, Rule: "slices of 8 to 20000 values of every ordered kind, named ones among them, from their whole range, in narrow bands anywhere in it, or in bands with a few far outliers, expanded from a seed; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		s := whole(rt, c)
		k := rapid.IntRange(0, 16).Draw(rt, "type")
		switch k {
		case 0:
			ordered(rt, c, s, func(r int) int { return r })
		case 1:
			ordered(rt, c, s, func(r int) int8 { return int8(r) })
		case 2:
			ordered(rt, c, s, func(r int) int16 { return int16(r) })
		case 3:
			ordered(rt, c, s, func(r int) int32 { return int32(r) })
		case 4:
			ordered(rt, c, s, func(r int) int64 { return int64(r) })
		case 5:
			ordered(rt, c, s, func(r int) uint { return uint(r) })
		case 6:
			ordered(rt, c, s, func(r int) uint8 { return uint8(r) })
		case 7:
			ordered(rt, c, s, func(r int) uint16 { return uint16(r) })
		case 8:
			ordered(rt, c, s, func(r int) uint32 { return uint32(r) })
		case 9:
			ordered(rt, c, s, func(r int) uint64 { return uint64(r) })
		case 10:
			ordered(rt, c, s, func(r int) uintptr { return uintptr(r) })
		case 11:
			ordered(rt, c, s, func(r int) float32 {
				if f := math.Float32frombits(uint32(r)); f == f {
					return f
				}
				return float32(r)
			})
		case 12:
			ordered(rt, c, s, func(r int) float64 {
				if f := math.Float64frombits(uint64(r)); f == f {
					return f
				}
				return float64(r)
			})
		case 13:
			ordered(rt, c, s, func(r int) string {
				b := binary.BigEndian.AppendUint64(nil, uint64(r))
				return string(b[:uint(r)%9])
			})
		case 14:
			ordered(rt, c, s, func(r int) height { return height(r) })
		case 15:
			ordered(rt, c, s, func(r int) code { return code(r) })
		case 16:
			ordered(rt, c, s, func(r int) word { return word(strconv.Itoa(r)) })
		}
	})
}
