// Package slicem is the ideal sequence the slice type is compared with. Every
// operation builds a fresh slice, positions are clamped as documented.
package slicem

import (
	"fmt"
	"math"

	"github.com/unsafe-risk/utilx/dsx/slicex"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

func clamp(i, lo, hi int) int {
	if i < lo {
		return lo
	}
	if i > hi {
		return hi
	}
	return i
}

func fresh[T any](s []T) []T { return append(make([]T, 0, len(s)), s...) }

func Range(i, j, n int) (int, int) {
	i, j = clamp(i, 0, n), clamp(j, 0, n)
	if i > j {
		i, j = j, i
	}
	return i, j
}

func Splice[T any](s []T, i, j int, v ...T) []T {
	i, j = Range(i, j, len(s))
	out := make([]T, 0, len(s)+len(v))
	out = append(out, s[:i]...)
	out = append(out, v...)
	return append(out, s[j:]...)
}

func Delete[T any](s []T, i int) []T {
	if i < 0 || i >= len(s) {
		return s
	}
	return Splice(s, i, i+1)
}

func Sub[T any](s []T, i, j int) []T {
	if j < 0 {
		j += len(s)
	}
	i, j = Range(i, j, len(s))
	return fresh(s[i:j])
}

func DeleteReplace[T any](s []T, i int) []T {
	if len(s) == 0 {
		return s
	}
	i = clamp(i, 0, len(s)-1)
	out := fresh(s)
	out[i] = out[len(out)-1]
	return out[:len(out)-1]
}

func Set[T any](s []T, i int, v T) []T {
	if len(s) == 0 {
		return s
	}
	out := fresh(s)
	out[clamp(i, 0, len(s)-1)] = v
	return out
}

func Get[T any](s []T, i int) (zero T) {
	if len(s) == 0 {
		return zero
	}
	return s[clamp(i, 0, len(s)-1)]
}

func Rotate[T any](s []T, n int) []T {
	if len(s) == 0 {
		return s
	}
	k := n % len(s)
	if k < 0 {
		k += len(s)
	}
	return append(fresh(s[k:]), s[:k]...)
}

func Reverse[T any](s []T) []T {
	out := make([]T, len(s))
	for i, v := range s {
		out[len(s)-1-i] = v
	}
	return out
}

func Equal[T any](a, b []T) bool { return gen.SameAll(a, b) }

// Op is one edit: a kind, two position selectors and a size.
type Op struct {
	Kind, A, B, N int
}

const Kinds = 20

// wide and above: a valid position anywhere in a large slice.
const wide = 1 << 20

// Pos resolves a selector against the current length. Selectors below 1000 are
// valid positions 0..n spread by value, 1000.. are out-of-range ones.
func Pos(sel, n int) int {
	switch {
	case sel >= wide:
		return (sel - wide) % (n + 1)
	case sel < 1000:
		switch sel % 5 {
		case 0:
			return 0
		case 1:
			return n
		case 2:
			return max(0, n-1)
		default:
			return sel / 5 % (n + 1)
		}
	case sel < 1100:
		return -1 - (sel - 1000)
	case sel < 1200:
		return n + 1 + (sel - 1100)
	}
	e := []int{math.MinInt, math.MaxInt, math.MinInt + 1, math.MaxInt - 1, math.MinInt32, math.MaxInt32, math.MinInt / 2, math.MaxInt / 2, -n, -n - 1, 2 * n}
	for _, k := range bits { // near the ends of shorter integers, or in range once cut off
		e = append(e, 1<<k, 1<<k+n/2, 1<<k+n, n/2-1<<k)
	}
	return e[(sel-1200)%len(e)]
}

var bits = []int{8, 16, 31, 32, 33, 48, 62}

func selector(wild bool) *rapid.Generator[int] {
	if !wild {
		return rapid.IntRange(0, 999)
	}
	return rapid.Custom(func(t *rapid.T) int {
		switch rapid.IntRange(0, 3).Draw(t, "class") {
		case 0:
			return rapid.IntRange(0, 999).Draw(t, "valid")
		case 1:
			return rapid.SampledFrom([]int{1000, 1001, 1003, 1020, 1100, 1101, 1104, 1120}).Draw(t, "near")
		default:
			return 1200 + rapid.IntRange(0, 10+4*len(bits)).Draw(t, "extreme")
		}
	})
}

// OpGen draws one edit; wild ones use any integer as position.
func OpGen(wild bool) *rapid.Generator[Op] {
	sel := selector(wild)
	return rapid.Custom(func(t *rapid.T) Op {
		return Op{rapid.IntRange(0, Kinds-1).Draw(t, "kind"), sel.Draw(t, "a"), sel.Draw(t, "b"), rapid.SampledFrom([]int{0, 1, 1, 2, 3, 5, 17}).Draw(t, "n")}
	})
}

// Editor applies operations to a real slice and to the model.
type EditorOf[T any] struct {
	S    *slicex.Slice[T]
	M    []T
	Next *int
	Make func(int) T // the element of a number
}

type Editor = EditorOf[int]

func (e *EditorOf[T]) vals(n int) []T {
	v := make([]T, n)
	for i := range v {
		*e.Next++
		v[i] = e.Make(*e.Next)
	}
	return v
}

// Apply performs one operation and returns its description and whether the results agreed.
func (e *EditorOf[T]) Apply(o Op) (desc string, err error) {
	n := len(e.M)
	s := e.S
	a, b := Pos(o.A, n), Pos(o.B, n)
	want := s
	got := s
	switch o.Kind {
	case 0, 1:
		v := e.vals(o.N)
		desc = fmt.Sprintf("splice(%d,%d,%d values)/%d", a, b, o.N, n)
		got = s.Splice(a, b, v...)
		e.M = Splice(e.M, a, b, v...)
	case 2:
		v := e.vals(o.N)
		desc = fmt.Sprintf("expand(%d,%d values)/%d", a, o.N, n)
		got = s.Expand(a, v...)
		e.M = Splice(e.M, a, a, v...)
	case 3, 4:
		v := e.vals(1)
		desc = fmt.Sprintf("insert(%d)/%d", a, n)
		got = s.Insert(a, v[0])
		e.M = Splice(e.M, a, a, v...)
	case 5:
		desc = fmt.Sprintf("cut(%d,%d)/%d", a, b, n)
		got = s.Cut(a, b)
		e.M = Splice(e.M, a, b)
	case 6, 7:
		desc = fmt.Sprintf("delete(%d)/%d", a, n)
		got = s.Delete(a)
		e.M = Delete(e.M, a)
	case 8, 9:
		for k := 0; k <= o.N; k++ {
			v := e.vals(1)
			got = s.Push(v[0])
			e.M = Splice(e.M, len(e.M), len(e.M), v...)
		}
		desc = fmt.Sprintf("push*%d", o.N+1)
	case 10:
		desc = "pop"
		var w T
		if n > 0 {
			w = e.M[n-1]
			e.M = fresh(e.M[:n-1])
		}
		if r := s.Pop(); !gen.Same(r, w) {
			return desc, fmt.Errorf("pop returned a wrong element")
		}
	case 11:
		desc = "shift"
		var w T
		if n > 0 {
			w = e.M[0]
			e.M = fresh(e.M[1:])
		}
		if r := s.Shift(); !gen.Same(r, w) {
			return desc, fmt.Errorf("shift returned a wrong element")
		}
	case 12:
		v := e.vals(1)
		desc = "unshift"
		got = s.UnShift(v[0])
		e.M = Splice(e.M, 0, 0, v...)
	case 13:
		// negative ends count from the end of the slice
		if o.N%2 == 1 && b >= 0 && b <= n {
			b = -b
		}
		desc = fmt.Sprintf("slice(%d,%d)/%d", a, b, n)
		got = s.Slice(a, b)
		e.M = Sub(e.M, a, b)
	case 14:
		v := e.vals(1)
		desc = fmt.Sprintf("set(%d)/%d", a, n)
		s.Set(a, v[0])
		e.M = Set(e.M, a, v[0])
	case 15:
		desc = fmt.Sprintf("get(%d)/%d", a, n)
		if !gen.Same(s.Get(a), Get(e.M, a)) {
			return desc, fmt.Errorf("get returned a wrong element")
		}
	case 16:
		desc = fmt.Sprintf("extend(%d)", o.N)
		got = s.Extend(o.N)
		e.M = append(fresh(e.M), make([]T, o.N)...)
	case 17:
		if o.N == 5 {
			desc = "clear"
			got = s.Clear()
			e.M = nil
			break
		}
		desc = fmt.Sprintf("get(%d)/%d", b, n)
		if !gen.Same(s.Get(b), Get(e.M, b)) {
			return desc, fmt.Errorf("get returned a wrong element")
		}
	case 18:
		desc = fmt.Sprintf("deletereplace(%d)/%d", a, n)
		got = s.DeleteReplace(a)
		e.M = DeleteReplace(e.M, a)
	case 19: // the arguments are a part of the slice itself
		lo := clamp(b, 0, n)
		hi := min(n, lo+o.N)
		v := fresh(e.M[lo:hi])
		if o.N%2 == 1 {
			desc = fmt.Sprintf("expand(%d,own %d:%d)/%d", a, lo, hi, n)
			got = s.Expand(a, (*s)[lo:hi]...)
			e.M = Splice(e.M, a, a, v...)
			break
		}
		j := Pos(o.A/3+o.B%7, n)
		desc = fmt.Sprintf("splice(%d,%d,own %d:%d)/%d", a, j, lo, hi, n)
		got = s.Splice(a, j, (*s)[lo:hi]...)
		e.M = Splice(e.M, a, j, v...)
	}
	if got != want {
		return desc, fmt.Errorf("%s does not return its receiver", desc[:min(6, len(desc))])
	}
	return desc, e.Compare()
}

// Compare checks the content.
func (e *EditorOf[T]) Compare() error {
	if e.S.Len() != len(e.M) {
		return fmt.Errorf("length differs from the ideal sequence")
	}
	if !Equal(*e.S, e.M) {
		return fmt.Errorf("content differs from the ideal sequence")
	}
	return nil
}

// Large runs an edit history, expanded from a seed, on a slice of thousands of elements.
func Large(rt *rapid.T, c *pbt.Case, wild bool) {
	n := gen.Large(rt, "start", 300, 70000)
	r := gen.NewRand(rt, "seed")
	next := 0
	e := &Editor{Next: &next, Make: gen.Number}
	buf := append(make([]int, 0, n+rapid.SampledFrom([]int{0, 1, 100, n}).Draw(rt, "spare")), e.vals(n)...)
	e.S = slicex.New(buf...)
	e.M = fresh(*e.S)
	c.Logf("start %d seed %x", n, uint64(*r))
	c.NonTrivial()
	most := 0
	for i := 5 + r.N(60); i > 0; i-- {
		pos := func() int {
			switch k := r.N(8); {
			case wild && k < 3:
				return 1200 + r.N(11+4*len(bits))
			case wild && k == 3:
				return 1000 + r.N(200)
			case k == 4:
				return r.N(1000)
			}
			return wide + r.N(1<<40)
		}
		o := Op{r.N(Kinds), pos(), pos(), []int{0, 1, 2, 17, 300, r.N(5000)}[r.N(6)]}
		switch {
		case o.Kind == 8 || o.Kind == 9:
			o.N %= 40
		case o.Kind == 5 || o.Kind == 13 && r.N(4) > 0: // keep most of the slice
			a := r.N(len(e.M) + 1)
			if o.A, o.B = wide+a, wide+min(a+r.N(200), len(e.M)); o.Kind == 13 {
				o.A, o.B = wide+r.N(min(200, len(e.M)+1)), wide+len(e.M)-r.N(min(200, len(e.M)+1))
			}
			o.N = 0
		}
		d, err := e.Apply(o)
		c.Logf("%s", d)
		if err != nil {
			rt.Fatalf("%s: %v", d, err)
		}
		most = max(most, len(e.M))
		if len(e.M) > 200000 {
			break
		}
	}
	c.LabelIf(most > 10000, "over 10000")
}

// Start draws an initial slice: nil, exact or with spare capacity.
func Start(rt *rapid.T, next *int) *Editor { return StartOf(rt, next, gen.Number) }

func StartOf[T any](rt *rapid.T, next *int, make_ func(int) T) *EditorOf[T] {
	e := &EditorOf[T]{Next: next, Make: make_}
	n := rapid.SampledFrom([]int{0, 0, 1, 2, 3, 5, 8, 13, 40}).Draw(rt, "start")
	switch rapid.IntRange(0, 2).Draw(rt, "backing") {
	case 0:
		e.S = slicex.New(e.vals(n)...)
	case 1:
		buf := append(make([]T, 0, n+rapid.IntRange(0, 9).Draw(rt, "spare")), e.vals(n)...)
		e.S = slicex.New(buf...)
	case 2:
		e.S = slicex.New[T]()
		for _, v := range e.vals(n) {
			e.S.Push(v)
		}
	}
	e.M = fresh(*e.S)
	return e
}

// Kinds of elements other than numbers, with zero, nil and repeated ones among them.
var ElementKinds = []struct {
	Name string
	Run  func(*rapid.T, *pbt.Case, []Op) int
}{
	{"few", ops(gen.Few)},
	{"*int", ops(gen.MaybeNil)},
	{"any", ops(gen.Any)},
	{"string", ops(gen.Text)},
	{"struct{}", ops(gen.Empty)},
	{"array", ops(gen.Array)},
	{"float", ops(gen.Floats)},
	{"slice", ops(gen.Rows)},
	{"loose", ops(gen.Loose)},
	{"record", ops(gen.Records)},
}

func ops[T any](elem func(int) T) func(*rapid.T, *pbt.Case, []Op) int {
	return func(rt *rapid.T, c *pbt.Case, os []Op) int {
		next := 0
		e := StartOf(rt, &next, elem)
		edits := 0
		for i, o := range os {
			if len(e.M) > 2000 {
				break
			}
			if len(e.M) >= 2 {
				edits++
			}
			d, err := e.Apply(o)
			c.Logf("%s", d)
			if err != nil {
				rt.Fatalf("step %d %s: %v", i, d, err)
			}
		}
		return edits
	}
}

// Elements runs edit histories on slices of those.
func Elements(rt *rapid.T, c *pbt.Case, wild bool) {
	k := rapid.SampledFrom(ElementKinds).Draw(rt, "element")
	c.Label(k.Name)
	c.NonTrivialIf(k.Run(rt, c, pbt.Sized(OpGen(wild), 40).Draw(rt, "ops")) >= 3)
}
