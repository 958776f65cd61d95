package c20

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"slices"
	"strings"
	"testing"
	"time"
	"unicode/utf8"

	"github.com/unsafe-risk/utilx/dsx/slicex"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/models/slicem"
	"verif.local/harness/pbt"
)

const rule = "slices of 0..400 elements built by edit histories or with spare capacity, transformed by sequences of whole-slice operations and queried, against an ideal sequence; " +
	"non-trivial: at least two transformations of a slice of two or more elements"

func same(a, b []int) bool {
	m := map[int]int{}
	for _, v := range a {
		m[v]++
	}
	for _, v := range b {
		m[v]--
	}
	for _, n := range m {
		if n != 0 {
			return false
		}
	}
	return len(a) == len(b)
}

type op struct{ kind, arg, mod int }

func TestTransform(t *testing.T) {
	g := rapid.Custom(func(t *rapid.T) op {
		return op{rapid.IntRange(0, 8).Draw(t, "kind"),
			rapid.OneOf(rapid.IntRange(-8, 8), rapid.IntRange(-1000, 1000), rapid.SampledFrom([]int{math.MinInt, math.MinInt + 1, math.MaxInt, math.MaxInt - 1, math.MinInt32, math.MaxInt32}), gen.Wild()).Draw(t, "arg"),
			rapid.IntRange(1, 5).Draw(t, "mod")}
	})
	pbt.Check(t, pbt.Opts{Quick: 30000, Thorough: 1200000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		next := 0
		e := slicem.Start(rt, &next)
		for _, o := range rapid.SliceOfN(slicem.OpGen(false), 0, 6).Draw(rt, "history") {
			if d, err := e.Apply(o); err != nil {
				rt.Fatalf("%s: %v", d, err)
			}
		}
		done := 0
		for i, o := range rapid.SliceOfN(g, 1, 14).Draw(rt, "ops") {
			s, n := e.S, len(e.M)
			ret := s
			if n >= 2 {
				done++
			}
			what := ""
			switch o.kind {
			case 0:
				what = "reverse"
				ret = s.Reverse()
				e.M = slicem.Reverse(e.M)
			case 1, 2, 3:
				what = fmt.Sprintf("rotate(%d)", o.arg)
				ret = s.Rotate(o.arg)
				e.M = slicem.Rotate(e.M, o.arg)
			case 4:
				what = "shuffle"
				ret = s.Shuffle()
				if !same(*s, e.M) {
					rt.Fatalf("step %d: shuffle is not a permutation", i)
				}
				e.M = append([]int(nil), *s...)
			case 5:
				what = fmt.Sprintf("filter %%%d", o.mod)
				var seen, want []int
				acc := func(v int) bool { return v%(o.mod+1) != 0 }
				for _, v := range e.M {
					if acc(v) {
						want = append(want, v)
					}
				}
				ret = s.Filter(func(v int) bool { seen = append(seen, v); return acc(v) })
				if !slicem.Equal(seen, e.M) {
					rt.Fatalf("step %d: filter did not ask for every element once in order", i)
				}
				e.M = want
			case 6:
				k := o.mod - 1
				if o.arg%5 == 0 {
					k = min(o.arg, -k) // as good as none
				}
				if n*k > 400 {
					continue
				}
				what = fmt.Sprintf("repeat(%d)", k)
				var want []int
				for x := 0; x < k; x++ {
					want = append(want, e.M...)
				}
				ret = s.Repeat(k)
				e.M = want
			case 7:
				what = fmt.Sprintf("rotate(%d) and back", o.arg)
				ret = s.Rotate(o.arg)
				if o.arg != math.MinInt {
					s.Rotate(-o.arg)
				} else {
					e.M = slicem.Rotate(e.M, o.arg)
				}
			case 8:
				what = "push"
				s.Push(1000 + i)
				e.M = append(append([]int(nil), e.M...), 1000+i)
			}
			c.Logf("%s/%d", what, n)
			if ret != s {
				rt.Fatalf("step %d: %s does not return its receiver", i, what)
			}
			if err := e.Compare(); err != nil {
				rt.Fatalf("step %d %s: %v", i, what, err)
			}
		}
		c.NonTrivialIf(done >= 2)
		queries(rt, *e.S, e.M)
	})
}

func queries(rt *rapid.T, s slicex.Slice[int], m []int) {
	keep := append([]int(nil), m...)
	if s.Len() != len(m) {
		rt.Fatalf("Len is wrong")
	}
	if !slicem.Equal(s.Finalize(), m) {
		rt.Fatalf("Finalize differs from the content")
	}
	var seen []int
	s.Each(func(v int) { seen = append(seen, v) })
	if !slicem.Equal(seen, m) {
		rt.Fatalf("Each does not visit the elements once in order")
	}
	seen = nil
	s.ForEach(func(i, v int) {
		if i != len(seen) {
			rt.Fatalf("ForEach passes index %d at visit %d", i, len(seen))
		}
		seen = append(seen, v)
	})
	if !slicem.Equal(seen, m) {
		rt.Fatalf("ForEach does not visit the elements once in order")
	}
	mod := rapid.IntRange(1, 12).Draw(rt, "mod")
	res := rapid.IntRange(0, mod).Draw(rt, "res") // res == mod matches nothing
	want := -1
	for i, v := range m {
		if v%mod == res {
			want = i
			break
		}
	}
	if got := s.IndexOf(func(v int) bool { return v%mod == res }); got != want {
		rt.Fatalf("IndexOf = %d, want %d", got, want)
	}
	if got := s.Contains(func(v int) bool { return v%mod == res }); got != (want >= 0) {
		rt.Fatalf("Contains = %v, want %v", got, want >= 0)
	}
	sep := rapid.SampledFrom([]string{",", "", ", ", "%d", "é"}).Draw(rt, "sep")
	var parts []string
	for _, v := range m {
		parts = append(parts, fmt.Sprint(v))
	}
	if s.Join(sep) != strings.Join(parts, sep) {
		rt.Fatalf("Join differs")
	}
	if !slicem.Equal(s, keep) {
		rt.Fatalf("a query changed the slice")
	}
}

type named struct {
	a int
	s string
}

func TestJoinText(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 10000, Thorough: 200000, Rule: "string, float, struct and nil-able elements joined with random separators; non-trivial: at least two elements"}, func(rt *rapid.T, c *pbt.Case) {
		sep := rapid.String().Draw(rt, "sep")
		words := rapid.SliceOfN(rapid.String(), 0, 8).Draw(rt, "words")
		c.Logf("%q %q", sep, words)
		c.NonTrivialIf(len(words) >= 2)
		if got := slicex.Slice[string](words).Join(sep); got != strings.Join(words, sep) {
			rt.Fatalf("Join of strings differs")
		}
		var st slicex.Slice[named]
		var er slicex.Slice[error]
		var want1, want2 []string
		for i, w := range words {
			st = append(st, named{i, w})
			want1 = append(want1, fmt.Sprintf("%v", named{i, w}))
			if i%2 == 0 {
				er = append(er, fmt.Errorf("%s", w))
				want2 = append(want2, w)
			} else {
				er = append(er, nil)
				want2 = append(want2, "<nil>")
			}
		}
		if st.Join(sep) != strings.Join(want1, sep) {
			rt.Fatalf("Join of structs differs")
		}
		if er.Join(sep) != strings.Join(want2, sep) {
			rt.Fatalf("Join of errors differs")
		}
	})
}

// Whole-slice operations on slices of up to a hundred thousand elements.
func TestLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 60, Thorough: 10000,
		Rule: "one to six transformations expanded from a seed, then all queries, on slices of 400 to 150000 elements; every case counts as non-trivial"},
		func(rt *rapid.T, c *pbt.Case) {
			n := gen.Large(rt, "n", 400, 50000)
			r := gen.NewRand(rt, "seed")
			buf := make([]int, n, n+rapid.SampledFrom([]int{0, 1, 100, n, 2 * n}).Draw(rt, "spare"))
			for i := range buf {
				buf[i] = i * 7
			}
			e := &slicem.Editor{S: slicex.New(buf...), M: append([]int(nil), buf...)}
			c.NonTrivial()
			c.Logf("n=%d seed %x", n, uint64(*r))
			for k := 1 + r.N(6); k > 0; k-- {
				s, m := e.S, e.M
				what := ""
				switch r.N(5) {
				case 0:
					what = "reverse"
					s.Reverse()
					e.M = slicem.Reverse(m)
				case 1:
					a := r.N(4*len(m)+1) - 2*len(m)
					what = fmt.Sprintf("rotate(%d)", a)
					s.Rotate(a)
					e.M = slicem.Rotate(m, a)
				case 2:
					what = "shuffle"
					s.Shuffle()
					if !same(*s, m) {
						rt.Fatalf("shuffle of %d elements is not a permutation", len(m))
					}
					e.M = append([]int(nil), *s...)
				case 3:
					d := 2 + r.N(9)
					what = fmt.Sprintf("filter %%%d", d)
					var want []int
					for _, v := range m {
						if v%d != 0 {
							want = append(want, v)
						}
					}
					s.Filter(func(v int) bool { return v%d != 0 })
					e.M = want
				case 4:
					k := 1 + r.N(3)
					if len(m) > 50000 {
						k = 1
					}
					what = fmt.Sprintf("repeat(%d)", k)
					var want []int
					for x := 0; x < k; x++ {
						want = append(want, m...)
					}
					s.Repeat(k)
					e.M = want
				}
				c.Logf("%s/%d", what, len(m))
				if err := e.Compare(); err != nil {
					rt.Fatalf("%s of %d elements: %v", what, len(m), err)
				}
			}
			if len(e.M) > 12000 { // joining is quadratic
				e.S.Slice(0, 12000)
				e.M = e.M[:12000]
			}
			queries(rt, *e.S, e.M)
		})
}

// Many small slices repeated many times over.
func TestRepeatMany(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 200, Thorough: 20000, Rule: "slices of 0..40 elements repeated 0..5000 times and negative numbers of times, which leave nothing; non-trivial: more than 100 elements come out"}, func(rt *rapid.T, c *pbt.Case) {
		n, k := pbt.Len(rt, "n", 40), pbt.Len(rt, "k", 5000)
		if rapid.IntRange(0, 4).Draw(rt, "below") == 0 {
			k = min(-1, gen.Wild().Draw(rt, "k"))
		}
		s := slicex.New[int]()
		for i := 0; i < n; i++ {
			s.Push(i)
		}
		c.Logf("%d times %d", k, n)
		c.NonTrivialIf(n*k > 100)
		s.Repeat(k)
		if s.Len() != n*max(k, 0) {
			rt.Fatalf("%d elements repeated %d times make %d", n, k, s.Len())
		}
		for i, v := range *s {
			if v != i%n {
				rt.Fatalf("element %d of %d elements repeated %d times is %d", i, n, k, v)
			}
		}
	})
}

// Over thousands of shuffles every element reaches every position (a missed pair has a chance below e^-40).
func TestShuffleReachesEverything(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 20, Thorough: 1000, Rule: "slices of 2..40 elements shuffled 60 times their length; every element must reach every position, and each of the orders of up to four elements must occur; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(2, 40).Draw(rt, "n")
		again := rapid.Bool().Draw(rt, "again")
		c.Logf("n=%d again=%v", n, again)
		c.NonTrivial()
		seen := map[[2]int]bool{}
		orders := map[string]bool{}
		fact := 1
		if n <= 4 {
			for i := 2; i <= n; i++ {
				fact *= i
			}
		}
		s := slicex.New[int]()
		for k := 0; k < 60*max(n, fact); k++ {
			if k == 0 || !again {
				s = slicex.New[int]()
				for i := 0; i < n; i++ {
					s.Push(i)
				}
			}
			s.Shuffle()
			for i, v := range *s {
				seen[[2]int{i, v}] = true
			}
			if n <= 4 {
				orders[fmt.Sprint(*s)] = true
			}
		}
		if len(seen) != n*n {
			rt.Fatalf("after %d shuffles of %d elements only %d of %d element positions occurred", 60*n, n, len(seen), n*n)
		}
		if n <= 4 && len(orders) != fact {
			rt.Fatalf("shuffles of %d elements gave %d of %d orders", n, len(orders), fact)
		}
	})
}

func transformsOf[T any](elem func(int) T) func(*rapid.T, *pbt.Case, []op) {
	return func(rt *rapid.T, c *pbt.Case, ops []op) {
		next := 0
		e := slicem.StartOf(rt, &next, elem)
		for i, o := range ops {
			s, m := e.S, e.M
			what := ""
			switch o.kind {
			case 0:
				what = "reverse"
				s.Reverse()
				e.M = slicem.Reverse(m)
			case 1, 2, 3:
				what = fmt.Sprintf("rotate(%d)", o.arg)
				s.Rotate(o.arg)
				e.M = slicem.Rotate(m, o.arg)
			case 4:
				what = "shuffle"
				s.Shuffle()
				n := map[any]int{}
				for _, v := range m {
					n[gen.ID(v)]++
				}
				for _, v := range *s {
					n[gen.ID(v)]--
				}
				for v, k := range n {
					if k != 0 || s.Len() != len(m) {
						rt.Fatalf("step %d: shuffle is not a permutation (%v)", i, v)
					}
				}
				e.M = append([]T(nil), *s...)
			case 5, 7: // decided by the number of the call
				what = fmt.Sprintf("filter 1 in %d", o.mod)
				var want []T
				for x, v := range m {
					if x%(o.mod+1) != 0 {
						want = append(want, v)
					}
				}
				x := 0
				s.Filter(func(v T) bool {
					if x >= len(m) || !gen.Same(v, m[x]) {
						rt.Fatalf("step %d: call %d of the filter is about %v in %v", i, x, v, m)
					}
					x++
					return (x-1)%(o.mod+1) != 0
				})
				if x != len(m) {
					rt.Fatalf("step %d: the filter was called %d times for %d elements", i, x, len(m))
				}
				e.M = want
			case 6:
				k := o.mod - 1
				if len(m)*k > 400 {
					continue
				}
				what = fmt.Sprintf("repeat(%d)", k)
				s.Repeat(k)
				var want []T
				for range k {
					want = append(want, m...)
				}
				e.M = want
			case 8:
				v := elem(1000 + i)
				what = "push"
				s.Push(v)
				e.M = append(append([]T(nil), m...), v)
			}
			c.Logf("%s/%d", what, len(m))
			if err := e.Compare(); err != nil {
				rt.Fatalf("step %d %s of %v: %v", i, what, m, err)
			}
		}
		s, m := *e.S, e.M
		if !slicem.Equal(s.Finalize(), m) {
			rt.Fatalf("Finalize of %v differs from the content", m)
		}
		var each, forEach []T
		s.Each(func(v T) { each = append(each, v) })
		s.ForEach(func(i int, v T) {
			if i != len(forEach) {
				rt.Fatalf("ForEach passes index %d at visit %d", i, len(forEach))
			}
			forEach = append(forEach, v)
		})
		if !slicem.Equal(each, m) || !slicem.Equal(forEach, m) {
			rt.Fatalf("Each visits %v and ForEach %v of %v", each, forEach, m)
		}
		look := elem(rapid.IntRange(0, 50).Draw(rt, "look"))
		is := func(v T) bool { return gen.Same(v, look) }
		want := slices.IndexFunc(m, is)
		if got := s.IndexOf(is); got != want || s.Contains(is) != (want >= 0) {
			rt.Fatalf("IndexOf(%v) in %v = %d, Contains = %v, want %d", look, m, got, s.Contains(is), want)
		}
		var parts []string
		for _, v := range m {
			parts = append(parts, fmt.Sprint(v))
		}
		if got := s.Join(";"); got != strings.Join(parts, ";") {
			rt.Fatalf("Join of %v is %q", m, got)
		}
	}
}

func TestElements(t *testing.T) {
	kinds := []func(*rapid.T, *pbt.Case, []op){transformsOf(gen.Few), transformsOf(gen.MaybeNil), transformsOf(gen.Any), transformsOf(gen.Text), transformsOf(gen.Empty), transformsOf(gen.Array), transformsOf(gen.Floats), transformsOf(gen.Rows), transformsOf(gen.Loose), transformsOf(gen.Records)}
	g := rapid.Custom(func(t *rapid.T) op {
		return op{rapid.IntRange(0, 8).Draw(t, "kind"), rapid.IntRange(-50, 50).Draw(t, "arg"), rapid.IntRange(1, 5).Draw(t, "mod")}
	})
	pbt.Check(t, pbt.Opts{Quick: 8000, Thorough: 300000,
		Rule: "the same on slices of numbers, pointers, interfaces, strings, arrays and empty structs, with zero, nil and repeated elements; non-trivial: at least two transformations"},
		func(rt *rapid.T, c *pbt.Case) {
			k := rapid.IntRange(0, len(kinds)-1).Draw(rt, "kind")
			ops := rapid.SliceOfN(g, 1, 10).Draw(rt, "ops")
			c.NonTrivialIf(len(ops) >= 2)
			kinds[k](rt, c, ops)
		})
}

type (
	word    string
	number  int
	shown   int
	onPtr   struct{ n int }
	custom  struct{ n int }
	failing struct{ text string }
	goText  float64
	outer   struct {
		Time  time.Duration
		Shown shown
		Inner []shown
		Map   map[string]shown
		Ptr   *onPtr
		Any   any
		Err   error
	}
)

func (s shown) String() string              { return fmt.Sprintf("<%d>", int(s)) }
func (p *onPtr) String() string             { return fmt.Sprint("at ", p.n) }
func (c custom) Format(f fmt.State, v rune) { fmt.Fprintf(f, "%c!%d", v, c.n) }
func (f *failing) Error() string            { return "failed: " + f.text }
func (g goText) GoString() string           { return "goText" }

func joinOf[T any](vals ...T) func(*rapid.T, *pbt.Case) {
	return func(rt *rapid.T, c *pbt.Case) {
		pick := rapid.SliceOfN(rapid.IntRange(0, len(vals)-1), 0, 6).Draw(rt, "elements")
		sep := rapid.SampledFrom([]string{"", ",", " ", "%v", "\n", "é", "\x00"}).Draw(rt, "sep")
		var s slicex.Slice[T]
		var want strings.Builder
		for i, k := range pick {
			s = append(s, vals[k])
			if i > 0 {
				want.WriteString(sep)
			}
			fmt.Fprintf(&want, "%v", vals[k])
		}
		c.Logf("%v by %q", s, sep)
		c.NonTrivialIf(len(pick) > 0)
		if got := s.Join(sep); got != want.String() {
			rt.Fatalf("Join of %T by %q is %q, want %q", s, sep, got, want.String())
		}
	}
}

// TestJoinKinds: the text of an element is its default format, whatever its type.
func TestJoinKinds(t *testing.T) {
	p, n := &onPtr{3}, 5
	floats := []float64{0, math.Copysign(0, -1), 1, -1.5, 0.1, 1e20, 1e21, 123456789, 1e-4, 1e-5, 5e-324, math.MaxFloat64, math.Inf(1), math.Inf(-1), math.NaN()}
	var floats32 []float32
	for _, f := range floats {
		floats32 = append(floats32, float32(f))
	}
	kinds := []func(*rapid.T, *pbt.Case){
		joinOf(floats...),
		joinOf(floats32...),
		joinOf[any](floats[6], floats32[4], 7, uint8(7), 'x', "text", word("w"), number(3), shown(4), p, (*onPtr)(nil), custom{1}, &custom{2}, []byte("ab"), []string{"a", "b"}, nil,
			error(&failing{"x"}), goText(1.5), time.Minute, complex(1, -2), [2]bool{true}, map[string]int{"b": 1, "a": 2}, outer{}, struct{}{}, uintptr(10), errors.Join(errors.New("a"), errors.New("b"))),
		joinOf[byte](0, 1, 'a', 255),
		joinOf[rune](0, 'a', 'é', -1, utf8.MaxRune),
		joinOf[int8](-128, 0, 127),
		joinOf[int64](math.MinInt64, -1, 0, math.MaxInt64),
		joinOf[uint64](0, 1, math.MaxUint64),
		joinOf(true, false),
		joinOf[complex128](0, complex(1e21, -0.5), complex(math.NaN(), math.Inf(1))),
		joinOf[word]("", "a", "%d", "\xff"),
		joinOf[number](-1, 0, 1),
		joinOf[shown](-1, 0, 1),
		joinOf(p, &onPtr{}, nil),
		joinOf(*p, onPtr{}),
		joinOf(custom{1}, custom{}),
		joinOf(&failing{"x"}, &failing{}),
		joinOf[error](&failing{"x"}, nil, errors.New("y"), (*failing)(nil)),
		joinOf[fmt.Stringer](shown(1), p, nil, time.Second),
		joinOf[goText](1.5, 0),
		joinOf([]byte("ab"), nil, []byte{}),
		joinOf([]rune("aé"), nil),
		joinOf([]string{"a", "b c"}, nil, []string{""}),
		joinOf([]shown{1, 2}, nil),
		joinOf([3]byte{1, 2, 3}, [3]byte{}),
		joinOf(map[int]string{3: "c", 1: "a"}, nil),
		joinOf(&n, nil),
		joinOf(time.Duration(0), time.Hour+time.Millisecond),
		joinOf(outer{}, outer{time.Second, 1, []shown{2}, map[string]shown{"k": 3}, nil, word("x"), errors.New("e")}),
		joinOf(struct{}{}),
		joinOf(slicex.Slice[int]{1, 2}, nil),
		joinOf(reflect.ValueOf(3), reflect.ValueOf("x")),
	}
	pbt.Check(t, pbt.Opts{Quick: 20000, Thorough: 400000, Rule: "up to six elements of thirty-odd types joined (numbers in all magnitudes, named types, types with String, Error, Format and GoString methods on values and pointers, nil among them) against their default format; non-trivial: at least one element"}, func(rt *rapid.T, c *pbt.Case) {
		kinds[rapid.IntRange(0, len(kinds)-1).Draw(rt, "kind")](rt, c)
	})
}
