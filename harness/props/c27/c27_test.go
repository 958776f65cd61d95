package c27

import (
	"errors"
	"testing"

	"github.com/unsafe-risk/utilx/configx/optionalx"
	"github.com/unsafe-risk/utilx/functionalx/optionx"
	"github.com/unsafe-risk/utilx/functionalx/resultx"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

const rule = "options and results in both states over several value types (zero values, nil pointers and nil errors included), matched once or more with handlers returning drawn values and errors; " +
	"non-trivial: a zero or nil stored value, or handlers that return an error"

var errs = []error{nil, errors.New("a"), errors.New("b")}

type rec struct{ x, y int }

func option[T comparable](rt *rapid.T, c *pbt.Case, vals []T) {
	g := rapid.SampledFrom(vals)
	v := g.Draw(rt, "v")
	some := rapid.Bool().Draw(rt, "some")
	o := optionx.None[T]()
	if some {
		o = optionx.Some(v)
	}
	var zero T
	c.Logf("some %v %v", some, v)
	c.NonTrivialIf(some && v == zero)
	for range rapid.IntRange(1, 3).Draw(rt, "matches") {
		fv, fe := g.Draw(rt, "fv"), rapid.SampledFrom(errs).Draw(rt, "fe")
		gv, ge := g.Draw(rt, "gv"), rapid.SampledFrom(errs).Draw(rt, "ge")
		c.NonTrivialIf(fe != nil && ge != nil)
		nf, ng := 0, 0
		var arg T
		p := o
		rv, re := p.Match(func(x T) (T, error) { nf++; arg = x; return fv, fe }, func() (T, error) { ng++; return gv, ge })
		if some {
			if nf != 1 || ng != 0 || arg != v || rv != fv || re != fe {
				rt.Fatalf("Some(%v): handlers called %d/%d with %v, returned %v %v, want %v %v", v, nf, ng, arg, rv, re, fv, fe)
			}
		} else if nf != 0 || ng != 1 || rv != gv || re != ge {
			rt.Fatalf("None: handlers called %d/%d, returned %v %v, want %v %v", nf, ng, rv, re, gv, ge)
		}
	}
}

func result[T, E comparable](rt *rapid.T, c *pbt.Case, vals []T, es []E) {
	g, h := rapid.SampledFrom(vals), rapid.SampledFrom(es)
	v, e := g.Draw(rt, "v"), h.Draw(rt, "e")
	ok := rapid.Bool().Draw(rt, "ok")
	r := resultx.Err[T, E](e)
	if ok {
		r = resultx.Ok[T, E](v)
	}
	var zv T
	var ze E
	c.Logf("ok %v %v %v", ok, v, e)
	c.NonTrivialIf(ok && v == zv || !ok && e == ze)
	for range rapid.IntRange(1, 3).Draw(rt, "matches") {
		fv, fe, gv, ge := g.Draw(rt, "fv"), h.Draw(rt, "fe"), g.Draw(rt, "gv"), h.Draw(rt, "ge")
		nf, ng := 0, 0
		var av T
		var ae E
		p := r
		rv, re := p.Match(func(x T) (T, E) { nf++; av = x; return fv, fe }, func(x E) (T, E) { ng++; ae = x; return gv, ge })
		if ok {
			if nf != 1 || ng != 0 || av != v || rv != fv || re != fe {
				rt.Fatalf("Ok(%v): handlers called %d/%d with %v, returned %v %v, want %v %v", v, nf, ng, av, rv, re, fv, fe)
			}
		} else if nf != 0 || ng != 1 || ae != e || rv != gv || re != ge {
			rt.Fatalf("Err(%v): handlers called %d/%d with %v, returned %v %v, want %v %v", e, nf, ng, ae, rv, re, gv, ge)
		}
	}
}

var (
	one  = 1
	ptrs = []*int{nil, &one, new(int)}
	recs = []rec{{}, {1, 2}, {0, 3}}
	ints = []int{0, 1, -1, 1 << 40}
	strs = []string{"", "x", "long string"}
	anys = []any{nil, 0, "", rec{1, 1}, errs[1]}
)

func TestOption(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 40000, Thorough: 800000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		switch rapid.IntRange(0, 5).Draw(rt, "type") {
		case 0:
			option(rt, c, ints)
		case 1:
			option(rt, c, strs)
		case 2:
			option(rt, c, ptrs)
		case 3:
			option(rt, c, recs)
		case 4:
			option(rt, c, errs)
		default:
			option(rt, c, anys)
		}
	})
}

func TestResult(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 40000, Thorough: 800000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		switch rapid.IntRange(0, 5).Draw(rt, "type") {
		case 0:
			result(rt, c, ints, errs)
		case 1:
			result(rt, c, strs, ints)
		case 2:
			result(rt, c, ptrs, errs)
		case 3:
			result(rt, c, recs, strs)
		case 4:
			result(rt, c, errs, errs)
		default:
			result(rt, c, anys, ptrs)
		}
	})
}

// TestParameter: the functions are applied once each in order as a fold from nil.
func TestParameter(t *testing.T) {
	type params struct{ trace []int }
	type thing struct{ p *params }
	pbt.Check(t, pbt.Opts{Quick: 40000, Thorough: 800000, Rule: "up to 12 optional-parameter functions that modify, replace or drop the parameters, applied to a recording constructor; non-trivial: three or more functions with a replacement or a drop"}, func(rt *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(0, 12).Draw(rt, "n")
		kinds := make([]int, n)
		var in, out []*params
		var order []int
		var fs []func(*params) *params
		special := false
		for i := range kinds {
			kinds[i] = rapid.IntRange(0, 3).Draw(rt, "kind")
			special = special || kinds[i] >= 2
			fs = append(fs, func(p *params) *params {
				order = append(order, i)
				in = append(in, p)
				var q *params
				switch {
				case kinds[i] == 3:
					q = nil
				case kinds[i] == 2 || p == nil:
					q = &params{}
				default:
					q = p
				}
				if q != nil {
					q.trace = append(q.trace, i)
				}
				out = append(out, q)
				return q
			})
		}
		c.Logf("%v", kinds)
		c.NonTrivialIf(n >= 3 && special)
		calls := 0
		var got *params
		ret := &thing{}
		if rapid.IntRange(0, 4).Draw(rt, "nilResult") == 0 {
			ret = nil
		}
		res := optionalx.Parameter(func(p *params) *thing {
			calls++
			got = p
			if len(order) != n {
				rt.Fatalf("the constructor ran after %d of %d functions", len(order), n)
			}
			return ret
		}, fs...)
		if calls != 1 || res != ret {
			rt.Fatalf("constructor called %d times, its result returned: %v", calls, res == ret)
		}
		if len(order) != n {
			rt.Fatalf("%d functions applied, want %d", len(order), n)
		}
		var prev *params
		for i := range order {
			if order[i] != i || in[i] != prev {
				rt.Fatalf("function %d applied at place %d, or not to the previous result", order[i], i)
			}
			prev = out[i]
		}
		if got != prev {
			rt.Fatalf("the constructor did not get the last result")
		}
	})
}

// TestNested matches options and results inside the handlers of others and of themselves, with values that cannot be
// compared, and keeps copies of them for later.
func TestNested(t *testing.T) {
	type bulky struct {
		s []int
		f func() int
		m map[int]string
		p [20]*int
	}
	pbt.Check(t, pbt.Opts{Quick: 20000, Thorough: 400000, Rule: "one to five options and results over structs that cannot be compared, matched inside each other's handlers up to five deep, by value, through copies, pointers and interfaces, some handlers panicking; non-trivial: a match inside a handler"}, func(rt *rapid.T, c *pbt.Case) {
		n := rapid.IntRange(1, 5).Draw(rt, "n")
		vals := make([]bulky, n)
		fails := make([]error, n)
		good := make([]bool, n)
		os := make([]optionx.Option[bulky], n)
		rs := make([]resultx.Result[bulky, error], n)
		for i := range n {
			good[i] = rapid.Bool().Draw(rt, "good")
			if rapid.IntRange(0, 3).Draw(rt, "zero") > 0 {
				x := i
				vals[i] = bulky{s: make([]int, i, i+2), f: func() int { return x }, m: map[int]string{i: "v"}}
				vals[i].p[i] = &x
			}
			fails[i] = rapid.SampledFrom(errs).Draw(rt, "err")
			os[i], rs[i] = optionx.None[bulky](), resultx.Err[bulky](fails[i])
			if good[i] {
				os[i], rs[i] = optionx.Some(vals[i]), resultx.Ok[bulky, error](vals[i])
			}
		}
		same := func(a, b bulky) bool {
			return len(a.s) == len(b.s) && cap(a.s) == cap(b.s) && (cap(a.s) == 0 || &a.s[:1][0] == &b.s[:1][0]) && (a.s == nil) == (b.s == nil) &&
				(a.f == nil) == (b.f == nil) && (a.f == nil || a.f() == b.f()) && (a.m == nil) == (b.m == nil) && len(a.m) == len(b.m) && a.p == b.p
		}
		matches := 0
		var match func(depth int)
		match = func(depth int) {
			i := rapid.IntRange(0, n-1).Draw(rt, "which")
			back, fe := vals[rapid.IntRange(0, n-1).Draw(rt, "back")], rapid.SampledFrom(errs).Draw(rt, "backErr")
			inner := 0
			if depth < 5 && matches < 30 {
				inner = rapid.IntRange(0, 2).Draw(rt, "inner")
			}
			boom := rapid.IntRange(0, 9).Draw(rt, "panic") == 0
			matches++
			c.NonTrivialIf(depth > 0)
			nf, ng := 0, 0
			var caught any
			handler := func() {
				for range inner {
					match(depth + 1)
				}
				if boom {
					panic(&fails[i])
				}
			}
			onValue := func(v bulky) (bulky, error) {
				nf++
				if !good[i] || !same(v, vals[i]) {
					rt.Fatalf("the value handler was given %v, built with %v %v", v, good[i], vals[i])
				}
				v.p[0] = new(int) // its own copy
				handler()
				return back, fe
			}
			var rv bulky
			var re error
			how := rapid.IntRange(0, 3).Draw(rt, "how")
			func() {
				defer func() { caught = recover() }()
				if rapid.Bool().Draw(rt, "option") {
					none := func() (bulky, error) { ng++; handler(); return back, fe }
					switch how {
					case 0:
						rv, re = os[i].Match(onValue, none)
					case 1:
						p := &os[i]
						rv, re = p.Match(onValue, none)
					case 2:
						var x interface {
							Match(func(bulky) (bulky, error), func() (bulky, error)) (bulky, error)
						} = os[i]
						rv, re = x.Match(onValue, none)
					default:
						rv, re = optionx.Option[bulky].Match(os[i], onValue, none)
					}
					return
				}
				onErr := func(e error) (bulky, error) {
					ng++
					if e != fails[i] {
						rt.Fatalf("the error handler was given %v, built with %v", e, fails[i])
					}
					handler()
					return back, fe
				}
				switch how {
				case 0:
					rv, re = rs[i].Match(onValue, onErr)
				case 1:
					p := &rs[i]
					rv, re = p.Match(onValue, onErr)
				case 2:
					var x interface {
						Match(func(bulky) (bulky, error), func(error) (bulky, error)) (bulky, error)
					} = rs[i]
					rv, re = x.Match(onValue, onErr)
				default:
					rv, re = resultx.Result[bulky, error].Match(rs[i], onValue, onErr)
				}
			}()
			if boom != (caught != nil) || boom && caught != any(&fails[i]) {
				if caught != nil && !boom {
					panic(caught)
				}
				rt.Fatalf("a handler's panic became %v", caught)
			}
			if good[i] && (nf != 1 || ng != 0) || !good[i] && (nf != 0 || ng != 1) {
				rt.Fatalf("handlers called %d/%d times, state %v", nf, ng, good[i])
			}
			if !boom && (!same(rv, back) || re != fe) {
				rt.Fatalf("returned %v %v, the handler %v %v", rv, re, back, fe)
			}
		}
		for range rapid.IntRange(1, 3).Draw(rt, "outer") {
			match(0)
		}
		c.Logf("%d values %v, %d matches", n, good, matches)
	})
}

// TestLong applies hundreds of functions, some of which build something from optional parameters themselves.
func TestLong(t *testing.T) {
	type params struct {
		sum, n int
		names  []string
	}
	type thing struct {
		params
		child *thing
	}
	pbt.Check(t, pbt.Opts{Quick: 1500, Thorough: 40000, Rule: "13 to 2000 functions that add to the parameters, replace or drop them, every so often from a construction of their own, the same list being used twice; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		n := gen.Large(rt, "n", 13, 2000)
		r := gen.NewRand(rt, "seed")
		c.Logf("%d functions, seed %x", n, uint64(*r))
		c.NonTrivial()
		type step struct{ kind, k int }
		steps := make([]step, n)
		fs := make([]func(*params) *params, n)
		at := 0
		build := func(p *params) *thing {
			if p == nil {
				return nil
			}
			return &thing{params: *p}
		}
		for i := range fs {
			steps[i] = step{r.N(40), r.N(1000)}
			fs[i] = func(p *params) *params {
				if at != i {
					rt.Fatalf("function %d applied at place %d", i, at)
				}
				at++
				switch s := steps[i]; {
				case s.kind == 0:
					return nil
				case s.kind == 1:
					return &params{sum: s.k, n: 1}
				case s.kind == 2:
					x := optionalx.Parameter(build, func(q *params) *params {
						if q != nil {
							rt.Fatalf("an inner construction starts from %v", *q)
						}
						return &params{sum: s.k}
					}, func(q *params) *params { q.sum *= 2; return q })
					if x == nil || x.sum != 2*s.k {
						rt.Fatalf("an inner construction gave %v", x)
					}
					if p == nil {
						p = &params{}
					}
					p.sum += x.sum
					p.n++
					return p
				case p == nil:
					return &params{sum: s.k, n: 1}
				default:
					p.sum = (p.sum*31 + s.k) % 1000003
					p.n++
					return p
				}
			}
		}
		var want *params
		for _, s := range steps {
			switch {
			case s.kind == 0:
				want = nil
			case s.kind == 1 || want == nil && s.kind != 2:
				want = &params{sum: s.k, n: 1}
			case s.kind == 2:
				if want == nil {
					want = &params{}
				}
				want.sum, want.n = want.sum+2*s.k, want.n+1
			default:
				want.sum, want.n = (want.sum*31+s.k)%1000003, want.n+1
			}
		}
		for range 2 {
			at = 0
			got := optionalx.Parameter(build, fs...)
			if at != n {
				rt.Fatalf("%d of %d functions applied", at, n)
			}
			if (got == nil) != (want == nil) || got != nil && (got.sum != want.sum || got.n != want.n) {
				rt.Fatalf("built %v, want %v", got, want)
			}
		}
	})
}
