package c30

import (
	"errors"
	"fmt"
	"io"
	"runtime"
	"slices"
	"sync"
	"testing"

	"github.com/unsafe-risk/utilx/iox/usingx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/pbt"
	"verif.local/harness/vsched"
)

const rule = "0..300 closers of several kinds, some given twice, of which some fail always or at some calls, around a function that returns, panics with a drawn value or ends its goroutine, the runner being used up to three times; non-trivial: two or more closers and a failing closer or a function that does not return"

type typed struct{ n int }

func (t typed) Error() string { return fmt.Sprint("typed ", t.n) }

// What a closer does at its k-th call is in errs[k] (the last entry from then on).
type closer struct {
	id   int
	errs []error
	n    int
	log  *[]int
}

func (c *closer) Close() error {
	*c.log = append(*c.log, c.id)
	c.n++
	return c.errs[min(c.n, len(c.errs))-1]
}

// plain is a closer passed by value: two of them may be equal.
type plain struct{ c *closer }

func (p plain) Close() error { return p.c.Close() }

// loose is a closer of a type that cannot be compared.
type loose struct {
	c *closer
	_ []int
}

func (l loose) Close() error { return l.c.Close() }

func same(a, b []error) bool { return slices.Equal(a, b) }

func TestUsing(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 60000, Thorough: 1000000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		var log []int // -1: the function
		n := rapid.IntRange(0, 12).Draw(rt, "n")
		if rapid.IntRange(0, 30).Draw(rt, "many") == 0 {
			n = rapid.IntRange(13, 300).Draw(rt, "more")
		}
		var xs []*closer
		var cs []io.Closer
		twice := false
		for i := range n {
			if i > 0 && rapid.IntRange(0, 5).Draw(rt, "again") == 0 {
				k := rapid.IntRange(0, i-1).Draw(rt, "which")
				xs, cs, twice = append(xs, xs[k]), append(cs, cs[k]), true
				continue
			}
			x := &closer{id: i, log: &log}
			for range rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(rt, "phases") {
				var err error
				switch rapid.IntRange(0, 4).Draw(rt, "fails") {
				case 0:
					err = fmt.Errorf("closer %d", i)
				case 1:
					err = typed{i % 2}
				}
				x.errs = append(x.errs, err)
			}
			xs = append(xs, x)
			switch rapid.IntRange(0, 5).Draw(rt, "kind") {
			case 0:
				cs = append(cs, plain{x})
			case 1:
				cs = append(cs, loose{c: x})
			default:
				cs = append(cs, x)
			}
		}
		use := usingx.Close(cs...)
		if len(log) != 0 {
			rt.Fatalf("closed before use")
		}
		rounds := rapid.SampledFrom([]int{1, 1, 1, 2, 3}).Draw(rt, "rounds")
		c.LabelIf(rounds > 1, "used again")
		c.LabelIf(twice, "a closer given twice")
		var kept, keptWant [][]error
		for range rounds {
			var pv any
			end := rapid.SampledFrom([]string{"return", "return", "return", "panic", "panic", "exit"}).Draw(rt, "end")
			if end == "panic" {
				pv = rapid.SampledFrom([]any{"boom", 7, errors.New("boom"), typed{3}}).Draw(rt, "value")
			}
			// what the closers will answer, in order
			var want []error
			calls := map[*closer]int{}
			for _, x := range xs {
				if err := x.errs[min(x.n+calls[x], len(x.errs)-1)]; err != nil {
					want = append(want, err)
				}
				calls[x]++
			}
			c.Logf("%d closers, failing %v, %s %v", n, want, end, pv)
			c.NonTrivialIf(n >= 2 && (end != "return" || len(want) > 0))
			c.Label(end)
			log = nil
			var got []error
			var caught any
			returned := false
			done := make(chan struct{})
			call := func() {
				defer close(done)
				defer func() { caught = recover() }()
				got = use(func() {
					log = append(log, -1)
					if pv != nil {
						panic(pv)
					}
					if end == "exit" {
						runtime.Goexit()
					}
				})
				returned = true
			}
			if end == "exit" {
				go call()
			} else {
				call()
			}
			<-done
			if returned != (end == "return") || caught != pv {
				rt.Fatalf("%s %v became %v (returned: %v)", end, pv, caught, returned)
			}
			ids := []int{-1}
			for _, x := range xs {
				ids = append(ids, x.id)
			}
			if !slices.Equal(log, ids) {
				rt.Fatalf("function and closers ran in order %v, want %v", log, ids)
			}
			if end == "return" {
				if !same(got, want) {
					rt.Fatalf("errors %v, want %v", got, want)
				}
				kept, keptWant = append(kept, got), append(keptWant, want)
			}
			for i := range kept {
				if !same(kept[i], keptWant[i]) {
					rt.Fatalf("errors returned before became %v, were %v", kept[i], keptWant[i])
				}
			}
		}
	})
}

// TestNested: scopes inside scopes close inside out.
func TestNested(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 20000, Thorough: 400000, Rule: "nested scopes, with a panic from the innermost; non-trivial: two or more scopes"}, func(rt *rapid.T, c *pbt.Case) {
		var log []int
		sizes := rapid.SliceOfN(rapid.IntRange(0, 4), 1, 5).Draw(rt, "sizes")
		boom := rapid.Bool().Draw(rt, "panic")
		c.Logf("%v panic %v", sizes, boom)
		c.NonTrivialIf(len(sizes) >= 2)
		var nest func(i int)
		nest = func(i int) {
			if i == len(sizes) {
				log = append(log, -1)
				if boom {
					panic("boom")
				}
				return
			}
			var cs []io.Closer
			for k := range sizes[i] {
				cs = append(cs, &closer{id: 10*i + k, log: &log, errs: []error{nil}})
			}
			if errs := usingx.Close(cs...)(func() { nest(i + 1) }); len(errs) != 0 {
				rt.Fatalf("errors %v", errs)
			}
		}
		var caught any
		func() {
			defer func() { caught = recover() }()
			nest(0)
		}()
		if (caught != nil) != boom {
			rt.Fatalf("recovered %v", caught)
		}
		want := []int{-1}
		for i := len(sizes) - 1; i >= 0; i-- {
			for k := range sizes[i] {
				want = append(want, 10*i+k)
			}
		}
		if fmt.Sprint(log) != fmt.Sprint(want) {
			rt.Fatalf("order %v, want %v", log, want)
		}
	})
}

// attempt is what one closer answered.
type attempt struct {
	id  int
	err error
}

// shared is a closer that several goroutines may close.
type shared struct {
	id  int
	err error
	log func(attempt)
}

func (s shared) Close() error {
	s.log(attempt{s.id, s.err})
	vsched.Y()
	return s.err
}

// TestAgain uses a runner inside its own function, and several runners over the same closers inside each other.
func TestAgain(t *testing.T) {
	type node struct {
		runner int
		inner  []*node
		end    bool // panics after its inner uses
	}
	pbt.Check(t, pbt.Opts{Quick: 15000, Thorough: 300000, Rule: "one to three runners over shared closers, used inside each other's and their own functions as a tree of up to 30 uses, some of which panic; non-trivial: a runner inside its own function"}, func(rt *rapid.T, c *pbt.Case) {
		var log []attempt
		m := rapid.IntRange(1, 8).Draw(rt, "closers")
		var xs []*closer
		for i := range m {
			x := &closer{id: i, log: new([]int)}
			for range rapid.IntRange(1, 4).Draw(rt, "phases") {
				var err error
				if rapid.IntRange(0, 2).Draw(rt, "fails") == 0 {
					err = fmt.Errorf("closer %d, %d", i, len(x.errs))
				}
				x.errs = append(x.errs, err)
			}
			xs = append(xs, x)
		}
		type runner struct {
			ids []int
			use func(func()) []error
		}
		var rs []runner
		for range rapid.IntRange(1, 3).Draw(rt, "runners") {
			ids := rapid.SliceOfN(rapid.IntRange(0, m-1), 0, 6).Draw(rt, "of")
			var cs []io.Closer
			for _, i := range ids {
				cs = append(cs, recorded{xs[i], &log})
			}
			rs = append(rs, runner{ids, usingx.Close(cs...)})
		}
		left := 30
		var grow func(depth int) *node
		grow = func(depth int) *node {
			left--
			n := &node{runner: rapid.IntRange(0, len(rs)-1).Draw(rt, "runner"), end: rapid.IntRange(0, 4).Draw(rt, "panic") == 0}
			if depth < 5 {
				for range rapid.SampledFrom([]int{0, 1, 1, 1, 2, 3}).Draw(rt, "inner") {
					if left > 0 {
						n.inner = append(n.inner, grow(depth+1))
					}
				}
			}
			return n
		}
		root := grow(0)
		uses, self := 0, false
		var run func(n *node, above []int)
		run = func(n *node, above []int) {
			uses++
			self = self || slices.Contains(above, n.runner)
			above = append(slices.Clone(above), n.runner)
			r := rs[n.runner]
			calls, at := 0, -1
			var got []error
			var caught any
			func() {
				defer func() { caught = recover() }()
				got = r.use(func() {
					calls++
					for _, i := range n.inner {
						run(i, above)
					}
					at = len(log)
					if n.end {
						panic(n)
					}
				})
			}()
			if calls != 1 || at < 0 {
				rt.Fatalf("the function of runner %d ran %d times", n.runner, calls)
			}
			if n.end != (caught != nil) || n.end && caught != any(n) {
				rt.Fatalf("a use that panics (%v) gave panic %v", n.end, caught)
			}
			var ids []int
			var want []error
			for _, a := range log[at:] {
				ids = append(ids, a.id)
				if a.err != nil {
					want = append(want, a.err)
				}
			}
			if !slices.Equal(ids, r.ids) {
				rt.Fatalf("after its function runner %d (uses above %v) closed %v, want %v", n.runner, above, ids, r.ids)
			}
			if !n.end && !same(got, want) {
				rt.Fatalf("runner %d (uses above %v) returned %v, want %v", n.runner, above, got, want)
			}
		}
		run(root, nil)
		c.Logf("%d closers, %d runners, %d uses", m, len(rs), uses)
		c.NonTrivialIf(self)
		c.LabelIf(uses > 10, "more than ten uses")
	})
}

type recorded struct {
	*closer
	out *[]attempt
}

func (r recorded) Close() error {
	err := r.closer.Close()
	*r.out = append(*r.out, attempt{r.id, err})
	return err
}

func together(rt *rapid.T, c *pbt.Case) {
	progs := rapid.SliceOfN(rapid.IntRange(1, 5), 2, 5).Draw(rt, "uses")
	n := rapid.IntRange(0, 6).Draw(rt, "closers")
	fails := rapid.SliceOfN(rapid.Bool(), n, n).Draw(rt, "fails")
	boom := rapid.IntRange(0, 3).Draw(rt, "panics")
	c.Logf("uses %v, failing %v, every %d panics", progs, fails, boom)
	c.NonTrivialIf(n > 0)
	var mu sync.Mutex
	counts := make([]int, n)
	var cs []io.Closer
	var want []error
	total := 0
	for i := range n {
		x := shared{id: i, log: func(a attempt) {
			mu.Lock()
			counts[a.id]++
			mu.Unlock()
		}}
		if fails[i] {
			x.err = fmt.Errorf("closer %d", i)
			want = append(want, x.err)
		}
		cs = append(cs, x)
	}
	var errs conc.Errs
	conc.Run(rt, func(rt *rapid.T) {
		use := usingx.Close(cs...)
		var fs []func()
		for g, k := range progs {
			total += k
			fs = append(fs, func() {
				for i := range k {
					calls := 0
					var caught any
					var got []error
					bad := boom > 0 && (g+i)%boom == 0
					func() {
						defer func() { caught = recover() }()
						got = use(func() {
							calls++
							vsched.Y()
							if bad {
								panic(g)
							}
						})
					}()
					if calls != 1 || bad && caught != any(g) || !bad && caught != nil {
						errs.Addf("function called %d times, panic %v became %v", calls, bad, caught)
					}
					if !bad && !same(got, want) {
						errs.Addf("returned %v, want %v", got, want)
					}
				}
			})
		}
		conc.Par(fs...)
	})
	errs.Check(rt)
	for i, k := range counts {
		if k != total {
			rt.Fatalf("closer %d was closed %d times in %d uses", i, k, total)
		}
	}
}

const togetherRule = "two to five goroutines using one runner at the same time; non-trivial: it has closers"

func TestSched(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 4000, Thorough: 100000, Rule: togetherRule}, together)
}

func TestRace(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 4000, Thorough: 100000, Rule: togetherRule}, together)
}
