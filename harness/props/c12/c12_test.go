package c12

import (
	"math"
	"slices"
	"testing"

	"github.com/unsafe-risk/utilx/dsx"
	linked "github.com/unsafe-risk/utilx/dsx/linkedx/listx"
	sl "github.com/unsafe-risk/utilx/dsx/slicex/listx"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

const rule = "sequences of append, insert, remove, at, iterate and length on the linked and the slice list against an ideal sequence, positions in and out of range; " +
	"non-trivial: an insert or removal at an inner, first or last position of a list of at least two elements, or a list emptied and refilled"

type op struct {
	kind, pos, n, wild int
}

var opGen = rapid.Custom(func(t *rapid.T) op {
	return op{
		kind: rapid.SampledFrom([]int{0, 0, 1, 1, 1, 2, 2, 2, 3, 4, 5, 6}).Draw(t, "op"),
		pos:  rapid.SampledFrom([]int{-4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9}).Draw(t, "pos"),
		n:    rapid.IntRange(0, 40).Draw(t, "n"),
		wild: gen.Wild().Draw(t, "wild"),
	}
})

// position resolves the drawn position class against the current length n.
func position(o op, n int) int {
	switch o.pos {
	case -4:
		return o.wild
	case -3:
		return math.MinInt
	case -2:
		return -1 - o.n
	case -1:
		return -1
	case 0:
		return 0
	case 1:
		return n
	case 2:
		return n - 1
	case 3:
		return n + 1
	case 4:
		return n + o.n
	case 5:
		return math.MaxInt
	case 6:
		return 1
	default:
		if n == 0 {
			return 0
		}
		return o.n * 31 % n
	}
}

func run[T any](rt *rapid.T, c *pbt.Case, l dsx.List[T], mk func(int) T) {
	var m []T
	var zero T
	ops := pbt.Sized(opGen, 150).Draw(rt, "ops")
	next := 0
	emptied := false
	// Now and then only the drawn operations look at the list.
	watch := gen.NewWatch(rt)
	check := func(i int, what string) {
		if l.Len() != len(m) {
			rt.Fatalf("step %d %s: length differs from the ideal sequence", i, what)
		}
		k := 0
		l.Iterate(func(v T) bool {
			if k >= len(m) || !gen.Same(v, m[k]) {
				rt.Fatalf("step %d %s: iteration differs from the ideal sequence at %d", i, what, k)
			}
			k++
			return true
		})
		if k != len(m) {
			rt.Fatalf("step %d %s: iteration visited %d of %d elements", i, what, k, len(m))
		}
	}
	for i, o := range ops {
		n := len(m)
		pos := position(o, n)
		switch o.kind {
		case 0:
			next++
			x := mk(next)
			l.Append(x)
			m = append(m, x)
			if emptied {
				c.Label("refilled")
				c.NonTrivial()
			}
			c.Logf("append")
		case 1:
			next++
			x := mk(next)
			l.Insert(pos, x)
			c.Logf("insert@%d/%d", pos, n)
			if pos >= 0 && pos <= n {
				m = append(m, zero)
				copy(m[pos+1:], m[pos:])
				m[pos] = x
				c.LabelIf(pos == n, "insert at end")
				c.LabelIf(pos == 0, "insert at front")
				c.NonTrivialIf(n >= 2)
				if emptied {
					c.NonTrivial()
				}
			} else {
				c.Label("insert out of range")
			}
		case 2:
			v, ok := l.Remove(pos)
			c.Logf("remove@%d/%d", pos, n)
			if pos >= 0 && pos < n {
				if !ok || !gen.Same(v, m[pos]) {
					rt.Fatalf("step %d: Remove(%d) returned (%v,%v), want %v", i, pos, v, ok, m[pos])
				}
				m = append(m[:pos:pos], m[pos+1:]...)
				c.NonTrivialIf(n >= 2)
				c.LabelIf(pos == n-1, "remove last")
				if len(m) == 0 {
					emptied = true
				}
			} else {
				c.Label("remove out of range")
				if ok || !gen.Same(v, zero) {
					rt.Fatalf("step %d: Remove out of range reported (%v,%v)", i, v, ok)
				}
			}
		case 3:
			v, ok := l.At(pos)
			c.Logf("at@%d/%d", pos, n)
			if pos >= 0 && pos < n {
				if !ok || !gen.Same(v, m[pos]) {
					rt.Fatalf("step %d: At(%d) returned (%v,%v), want %v", i, pos, v, ok, m[pos])
				}
			} else if ok || !gen.Same(v, zero) {
				rt.Fatalf("step %d: At out of range reported (%v,%v)", i, v, ok)
			}
		case 4:
			if n == 0 {
				continue
			}
			stop := o.n % n
			k := 0
			l.Iterate(func(v T) bool {
				if k > stop {
					rt.Fatalf("step %d: iteration went on after the callback returned false", i)
				}
				if !gen.Same(v, m[k]) {
					rt.Fatalf("step %d: stopped iteration differs at %d", i, k)
				}
				k++
				return k <= stop
			})
			if k != stop+1 {
				rt.Fatalf("step %d: iteration visited %d elements before stopping, want %d", i, k, stop+1)
			}
			c.Logf("iterate stop %d", stop)
		case 5: // drain from one end
			c.Logf("drain")
			for len(m) > 0 {
				p := 0
				if o.n%2 == 1 {
					p = len(m) - 1
				}
				v, ok := l.Remove(p)
				if !ok || !gen.Same(v, m[p]) {
					rt.Fatalf("step %d: drain returned (%v,%v), want %v", i, v, ok, m[p])
				}
				m = append(m[:p:p], m[p+1:]...)
				emptied = true
			}
		case 6:
			for k := 0; k < o.n%8; k++ {
				next++
				x := mk(next)
				l.Append(x)
				m = append(m, x)
			}
			c.Logf("append*%d", o.n%8)
		}
		if watch.Now() {
			check(i, "after the operation")
		}
	}
	if rapid.Bool().Draw(rt, "iterate first") {
		check(len(ops), "in the end")
	}
	for k, want := range m {
		if v, ok := l.At(k); !ok || !gen.Same(v, want) {
			rt.Fatalf("At(%d) returned (%v,%v), want %v", k, v, ok, want)
		}
	}
	check(len(ops), "in the end")
}

func linkedRun[T any](rt *rapid.T, c *pbt.Case, mk func(int) T) {
	run[T](rt, c, linked.New[T](), mk)
}

func sliceRun[T any](rt *rapid.T, c *pbt.Case, mk func(int) T) {
	var l sl.List[T]
	if rapid.Bool().Draw(rt, "spare") {
		l = make(sl.List[T], 0, 8)
	}
	run[T](rt, c, &l, mk)
}

var kinds = []string{"int", "int", "int", "pointer", "few", "nil", "any", "text", "empty", "float", "slice", "loose", "record"}

func TestLinkedList(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 8000, Thorough: 400000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		kind := rapid.SampledFrom(kinds).Draw(rt, "type")
		c.Label(kind)
		switch kind {
		case "int":
			linkedRun(rt, c, gen.Number)
		case "pointer":
			linkedRun(rt, c, gen.Pointer)
		case "few":
			linkedRun(rt, c, gen.Few)
		case "nil":
			linkedRun(rt, c, gen.MaybeNil)
		case "any":
			linkedRun(rt, c, gen.Any)
		case "text":
			linkedRun(rt, c, gen.Text)
		case "empty":
			linkedRun(rt, c, gen.Empty)
		case "float":
			linkedRun(rt, c, gen.Floats)
		case "slice":
			linkedRun(rt, c, gen.Rows)
		case "loose":
			linkedRun(rt, c, gen.Loose)
		case "record":
			linkedRun(rt, c, gen.Records)
		}
	})
}

func TestSliceList(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 5000, Thorough: 200000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		kind := rapid.SampledFrom(kinds).Draw(rt, "type")
		c.Label(kind)
		switch kind {
		case "int":
			sliceRun(rt, c, gen.Number)
		case "pointer":
			sliceRun(rt, c, gen.Pointer)
		case "few":
			sliceRun(rt, c, gen.Few)
		case "nil":
			sliceRun(rt, c, gen.MaybeNil)
		case "any":
			sliceRun(rt, c, gen.Any)
		case "text":
			sliceRun(rt, c, gen.Text)
		case "empty":
			sliceRun(rt, c, gen.Empty)
		case "float":
			sliceRun(rt, c, gen.Floats)
		case "slice":
			sliceRun(rt, c, gen.Rows)
		case "loose":
			sliceRun(rt, c, gen.Loose)
		case "record":
			sliceRun(rt, c, gen.Records)
		}
	})
}

// Lists of thousands of elements, edited at the ends and in the middle.
func TestLargeLists(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 30, Thorough: 3000, Rule: "both lists in lockstep, grown to 300..20000 elements, then 20..300 edits expanded from a seed, in one to three rounds; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		r := gen.NewRand(rt, "seed")
		lists := []dsx.List[int]{linked.New[int](), &sl.List[int]{}}
		var m []int
		next := 0
		c.NonTrivial()
		check := func(what string) {
			for w, l := range lists {
				if l.Len() != len(m) {
					rt.Fatalf("list %d %s: length %d, want %d", w, what, l.Len(), len(m))
				}
				k := 0
				l.Iterate(func(v int) bool {
					if k >= len(m) || !gen.Same(v, m[k]) {
						rt.Fatalf("list %d %s: iteration differs from the ideal sequence at %d of %d", w, what, k, len(m))
					}
					k++
					return true
				})
				if k != len(m) {
					rt.Fatalf("list %d %s: iteration visited %d of %d elements", w, what, k, len(m))
				}
			}
		}
		remove := func(p int) {
			for w, l := range lists {
				if v, ok := l.Remove(p); !ok || !gen.Same(v, m[p]) {
					rt.Fatalf("list %d: Remove(%d) of %d returned (%d,%v), want %d", w, p, len(m), v, ok, m[p])
				}
			}
			m = append(m[:p], m[p+1:]...)
		}
		for round := rapid.IntRange(1, 3).Draw(rt, "rounds"); round > 0; round-- {
			n := gen.Large(rt, "n", 300, 20000)
			c.Logf("grow to %d seed %x", n, uint64(*r))
			for len(m) < n {
				next++
				for _, l := range lists {
					l.Append(next)
				}
				m = append(m, next)
			}
			check("after growing")
			for k := 20 + r.N(280); k > 0 && len(m) > 0; k-- {
				p := []int{0, len(m) - 1, r.N(len(m)), len(m) / 2}[r.N(4)]
				switch r.N(4) {
				case 0:
					next++
					for _, l := range lists {
						l.Insert(p, next)
					}
					m = append(m, 0)
					copy(m[p+1:], m[p:])
					m[p] = next
				case 1:
					remove(p)
				case 2:
					for w, l := range lists {
						if v, ok := l.At(p); !ok || !gen.Same(v, m[p]) {
							rt.Fatalf("list %d: At(%d) of %d returned (%d,%v), want %d", w, p, len(m), v, ok, m[p])
						}
						if v, ok := l.At(len(m)); ok || v != 0 {
							rt.Fatalf("list %d: At(%d) of %d reported an element", w, len(m), len(m))
						}
					}
				case 3:
					next++
					for _, l := range lists {
						l.Append(next)
					}
					m = append(m, next)
				}
			}
			check("after the edits")
			if r.N(2) == 0 {
				c.Logf("empty")
				for len(m) > 0 {
					remove(0)
				}
				check("after emptying")
			}
		}
	})
}

// Lists of more than 65536 elements.
func TestBeyond(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6, Thorough: 300, Rule: "lists of 65536 to 1.2 million elements, edited at both ends and a few times inside, the length looked at after every step, then emptied from the front; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		n := gen.Vast(rt, "n")
		r := gen.NewRand(rt, "seed")
		c.Logf("%d elements, seed %x", n, uint64(*r))
		c.NonTrivial()
		for w, l := range []dsx.List[int]{linked.New[int](), &sl.List[int]{}} {
			var m []int
			for i := range n {
				l.Append(i)
				m = append(m, i)
				if l.Len() != len(m) {
					rt.Fatalf("list %d: Len = %d with %d elements", w, l.Len(), len(m))
				}
			}
			for i := range 60 {
				p := []int{0, 1, len(m) - 1, len(m) / 2, r.N(len(m)), 65535, 65536, 65537, len(m)}[r.N(9)]
				p = min(p, len(m))
				if r.N(2) == 0 || p == len(m) {
					l.Insert(p, -i)
					m = slices.Insert(m, p, -i)
				} else {
					v, ok := l.Remove(p)
					if !ok || v != m[p] {
						rt.Fatalf("list %d: Remove(%d) of %d returned (%d,%v), want %d", w, p, len(m), v, ok, m[p])
					}
					m = slices.Delete(m, p, p+1)
				}
				p = min(p, len(m)-1)
				if v, ok := l.At(p); !ok || v != m[p] || l.Len() != len(m) {
					rt.Fatalf("list %d: At(%d) of %d is (%d,%v), want %d; Len = %d", w, p, len(m), v, ok, m[p], l.Len())
				}
				if _, ok := l.At(len(m)); ok {
					rt.Fatalf("list %d: At(%d) of as many reported an element", w, len(m))
				}
			}
			k := 0
			l.Iterate(func(v int) bool {
				if k >= len(m) || v != m[k] {
					rt.Fatalf("list %d: iteration differs at %d of %d", w, k, len(m))
				}
				k++
				return true
			})
			if k != len(m) {
				rt.Fatalf("list %d: iteration visited %d of %d", w, k, len(m))
			}
			for i := range m {
				p, want := 0, m[i]
				if w == 1 { // moves everything otherwise
					p = len(m) - 1 - i
					want = m[p]
				}
				if v, ok := l.Remove(p); !ok || v != want {
					rt.Fatalf("list %d: Remove(%d) with %d left returned (%d,%v), want %d", w, p, len(m)-i, v, ok, want)
				}
				if l.Len() != len(m)-1-i {
					rt.Fatalf("list %d: Len = %d with %d left", w, l.Len(), len(m)-1-i)
				}
			}
		}
	})
}
