package c31

import (
	"errors"
	"fmt"
	"io"
	"reflect"
	"slices"
	"strings"
	"sync"
	"testing"

	"github.com/unsafe-risk/utilx/iox/managerx/closex"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
	"verif.local/harness/vsched"
)

const rule = "0..15 closers of which some fail with errors of several types; the error of closing is compared with the failures, also after wrapping; non-trivial: a failing closer before a succeeding one, or none failing"

type closer struct {
	id   int
	err  error
	mu   *sync.Mutex
	log  *[]int
	done bool // earlier case
}

func (c *closer) Close() error {
	if c.done {
		return nil
	}
	c.mu.Lock()
	*c.log = append(*c.log, c.id)
	c.mu.Unlock()
	vsched.Y()
	return c.err
}

type typed struct{ n int }

func (t typed) Error() string { return fmt.Sprint("typed error ", t.n) }

type ptrErr struct{ s string }

func (p *ptrErr) Error() string { return p.s }

func failure(rt *rapid.T, i int) error {
	switch rapid.IntRange(0, 11).Draw(rt, "fails") {
	case 0, 1:
		return fmt.Errorf("closer %d failed", i)
	case 2:
		return typed{i % 2}
	case 3:
		return &ptrErr{fmt.Sprintf("pointer error %d\nwith lines %%d", i)}
	case 4:
		return fmt.Errorf("outer %d: %w", i, typed{i})
	case 5:
		return errors.Join(typed{1}, errors.New("joined"))
	case 6: // what a manager among the closers may return
		return closex.ErrorList{typed{i}, fmt.Errorf("nested in %d", i)}
	}
	return nil
}

// same compares errors, also those that == cannot compare.
func same(a, b error) bool {
	if a == nil || b == nil || !reflect.TypeOf(a).Comparable() || !reflect.TypeOf(b).Comparable() {
		return reflect.DeepEqual(a, b)
	}
	return a == b
}

// judge compares the error of a Close with the failures.
func judge(rt *rapid.T, err error, want []error) {
	if (err == nil) != (len(want) == 0) {
		rt.Fatalf("Close returned %#v with %d failures", err, len(want))
	}
	if err == nil {
		return
	}
	wrapped := err
	for i := range 4 {
		got, ok := closex.AsErrs(wrapped)
		if !ok || len(got) != len(want) {
			rt.Fatalf("AsErrs gave %v %v, want %v (wrapped %d times)", got, ok, want, i)
		}
		for j := range got {
			if !same(got[j], want[j]) {
				rt.Fatalf("failure %d is %v, want %v", j, got[j], want[j])
			}
		}
		for _, w := range want {
			if !strings.Contains(wrapped.Error(), w.Error()) {
				rt.Fatalf("the text %q lacks %q", wrapped.Error(), w.Error())
			}
		}
		if i == 2 {
			wrapped = errors.Join(errors.New("x"), wrapped)
		} else {
			wrapped = fmt.Errorf("layer %d: %w", i, wrapped)
		}
	}
}

func sequential(rt *rapid.T, c *pbt.Case, add func(*closer), closeAll func() error) []*closer {
	n := rapid.IntRange(0, 15).Draw(rt, "n")
	var mu sync.Mutex
	var log []int
	var want []error
	var cs []*closer
	okAfterFail := false
	none := rapid.IntRange(0, 4).Draw(rt, "none") == 0
	for i := range n {
		x := &closer{id: i, mu: &mu, log: &log}
		if !none {
			x.err = failure(rt, i)
		}
		if x.err != nil {
			want = append(want, x.err)
		} else if len(want) > 0 {
			okAfterFail = true
		}
		cs = append(cs, x)
		add(x)
	}
	c.Logf("%d closers, failing %q", n, want)
	c.NonTrivialIf(okAfterFail || n > 0 && len(want) == 0)
	c.LabelIf(len(want) == 0, "none fails")
	if len(log) != 0 {
		rt.Fatalf("closed on append")
	}
	err := closeAll()
	if len(log) != n {
		rt.Fatalf("closers closed: %v of %d", log, n)
	}
	for i, id := range log {
		if id != i {
			rt.Fatalf("closers closed in order %v", log)
		}
	}
	judge(rt, err, want)
	return cs
}

func TestManager(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 40000, Thorough: 800000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		m := closex.New()
		sequential(rt, c, func(x *closer) { m.Append(x) }, m.Close)
	})
}

// TestMany has hundreds and thousands of closers and of failures.
func TestMany(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 150, Thorough: 10000, Rule: "one to three rounds of 16 to 100000 appends and a close, none, few, half or all of the closers failing; non-trivial: a closer fails"}, func(rt *rapid.T, c *pbt.Case) {
		m := closex.New()
		r := gen.NewRand(rt, "seed")
		var mu sync.Mutex
		var log, prev []int
		var cs []*closer
		for round := rapid.IntRange(1, 3).Draw(rt, "rounds"); round > 0; round-- {
			of := rapid.SampledFrom([]int{0, 1, 2, 50, 1000}).Draw(rt, "one in")
			n := gen.Large(rt, "n", 16, 100000)
			first := len(cs)
			for i := range n {
				x := &closer{id: first + i, mu: &mu, log: &log}
				if of > 0 && r.N(of) == 0 {
					x.err = typed{first + i}
				}
				cs = append(cs, x)
				m.Append(x)
			}
			if len(log) != len(prev) {
				rt.Fatalf("closed on append")
			}
			log = nil
			err := m.Close()
			k := len(cs) - len(log) // all of them, or those appended since the last close
			if k != 0 && k != first {
				rt.Fatalf("%d closers were closed, %d are in the manager, %d of them new", len(log), len(cs), n)
			}
			var want []error
			for i, id := range log {
				if id != k+i {
					rt.Fatalf("closer %d was closed at place %d of %d", id, i, len(log))
				}
				if cs[id].err != nil {
					want = append(want, cs[id].err)
				}
			}
			prev = log
			c.Logf("%d closed, %d failed", len(log), len(want))
			c.NonTrivialIf(len(want) > 0)
			got, ok := closex.AsErrs(err)
			if (err == nil) != (len(want) == 0) || ok != (err != nil) || !slices.Equal(got, want) {
				rt.Fatalf("%d of %d closers failed, Close reports %d failures (AsErrs: %v) or others", len(want), len(log), len(got), ok)
			}
		}
	})
}

// TestRounds closes a manager several times with appends in between, with managers among its closers and closers
// appended twice. Whether a closer that was closed before is closed again is left open; the error must be that of the
// closers closed in this round, in append order, and errors returned earlier must stay what they were.
func TestRounds(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 20000, Thorough: 400000, Rule: "one to four rounds of appends and a close, with closers appended twice, outcomes that change and managers inside managers; non-trivial: two rounds or more"}, func(rt *rapid.T, c *pbt.Case) {
		m := closex.New()
		var mu sync.Mutex
		var log []int
		type entry struct {
			id    int
			round int
		}
		var all []entry     // in append order
		var inner []*closer // by id
		nested := map[int]bool{}
		errOf := func(id int) error {
			err := inner[id].err
			if err != nil && nested[id] {
				return closex.ErrorList{err}
			}
			return err
		}
		var cs []io.Closer
		var ids []int
		var kept []error
		var keptWant [][]error
		rounds := rapid.IntRange(1, 4).Draw(rt, "rounds")
		c.NonTrivialIf(rounds > 1)
		for round := range rounds {
			for range rapid.IntRange(0, 6).Draw(rt, "appends") {
				if len(cs) > 0 && rapid.IntRange(0, 4).Draw(rt, "again") == 0 {
					k := rapid.IntRange(0, len(cs)-1).Draw(rt, "which")
					m.Append(cs[k])
					all = append(all, entry{ids[k], round})
					c.Label("appended twice")
					continue
				}
				id := len(cs)
				x := &closer{id: id, mu: &mu, log: &log, err: failure(rt, id)}
				var y io.Closer = x
				inner = append(inner, x)
				if rapid.IntRange(0, 4).Draw(rt, "inner") == 0 { // inside a manager of its own
					in := closex.New()
					in.Append(x)
					y = in
					nested[id] = true
					c.Label("manager inside")
				}
				m.Append(y)
				cs, ids, all = append(cs, y), append(ids, id), append(all, entry{id, round})
			}
			for id, x := range inner {
				if rapid.IntRange(0, 3).Draw(rt, "change") == 0 {
					x.err = failure(rt, id+100*round)
				}
			}
			log = nil
			err := m.Close()
			var want []error
			for _, id := range log {
				if e := errOf(id); e != nil {
					want = append(want, e)
				}
			}
			var every, fresh []int
			for _, e := range all {
				every = append(every, e.id)
				if e.round == round {
					fresh = append(fresh, e.id)
				}
			}
			if !slices.Equal(log, every) && !slices.Equal(log, fresh) {
				rt.Fatalf("round %d closed %v, appended were %v, since the last close %v", round, log, every, fresh)
			}
			c.Logf("round %d: closed %v, failures %q", round, log, want)
			judge(rt, err, want)
			kept, keptWant = append(kept, err), append(keptWant, want)
			for i := range kept {
				judge(rt, kept[i], keptWant[i])
			}
		}
	})
}

// TestDefault uses the package-level manager, which keeps the closers of earlier cases; those do nothing any more.
func TestDefault(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 2000, Thorough: 2000, Rule: rule + "; on the package-level manager"}, func(rt *rapid.T, c *pbt.Case) {
		cs := sequential(rt, c, func(x *closer) { closex.Append(x) }, closex.Close)
		for _, x := range cs {
			x.done = true
		}
	})
}

// TestOther: errors that come from elsewhere yield no failures.
func TestOther(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 5000, Thorough: 50000, Rule: "errors that contain no manager error; non-trivial: all but nil"}, func(rt *rapid.T, c *pbt.Case) {
		err := failure(rt, rapid.IntRange(0, 99).Draw(rt, "i"))
		c.Logf("%v", err)
		c.NonTrivialIf(err != nil)
		if _, ok := err.(closex.ErrorList); ok {
			return
		}
		if got, ok := closex.AsErrs(err); ok || len(got) > 0 {
			rt.Fatalf("AsErrs(%v) = %v %v", err, got, ok)
		}
	})
}

func concurrent(rt *rapid.T, c *pbt.Case) {
	progs := rapid.SliceOfN(rapid.IntRange(1, 8), 2, 6).Draw(rt, "appends")
	meanwhile := rapid.IntRange(0, 2).Draw(rt, "closes") // closes while others append
	failing := rapid.IntRange(0, 3).Draw(rt, "failing")
	c.Logf("appends %v, concurrent closes %d, every %d fails", progs, meanwhile, failing)
	c.NonTrivial()
	var mu sync.Mutex
	var log []int
	var before []int
	var final error
	total := 0
	conc.Run(rt, func(rt *rapid.T) {
		m := closex.New()
		var fs []func()
		for g, n := range progs {
			total += n
			fs = append(fs, func() {
				for i := range n {
					x := &closer{id: g*100 + i, mu: &mu, log: &log}
					if failing > 0 && i%failing == 0 {
						x.err = fmt.Errorf("closer %d", x.id)
					}
					m.Append(x)
					vsched.Y()
				}
			})
		}
		for range meanwhile {
			fs = append(fs, func() { m.Close() })
		}
		conc.Par(fs...)
		before = log
		log = nil
		final = m.Close()
	})
	all := map[int]int{}
	for _, id := range before {
		all[id]++
		if all[id] > meanwhile {
			rt.Fatalf("closer %d was closed %d times by %d closes", id, all[id], meanwhile)
		}
	}
	last := map[int]int{}
	for _, id := range log {
		all[id]++
		if l, ok := last[id/100]; ok && id%100 <= l {
			rt.Fatalf("goroutine %d's closers are not closed in the order they were appended: %v", id/100, log)
		}
		last[id/100] = id % 100
	}
	for g, n := range progs {
		for i := range n {
			if all[g*100+i] == 0 {
				rt.Fatalf("a closer appended by goroutine %d was lost", g)
			}
		}
	}
	if meanwhile == 0 {
		if len(log) != total {
			rt.Fatalf("%d of %d closers closed: %v", len(log), total, log)
		}
		var want []string
		for _, id := range log {
			if failing > 0 && id%100%failing == 0 {
				want = append(want, fmt.Sprintf("closer %d", id))
			}
		}
		got, _ := closex.AsErrs(final)
		if (final == nil) != (len(want) == 0) || len(got) != len(want) {
			rt.Fatalf("Close returned %v, want %v", final, want)
		}
		for i := range got {
			if got[i].Error() != want[i] {
				rt.Fatalf("failures %v, want %v", got, want)
			}
		}
	}
}

func TestSched(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 5000, Thorough: 120000, Rule: "two to six goroutines appending, with or without a concurrent close; non-trivial: all"}, concurrent)
}

func TestRace(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 5000, Thorough: 100000, Rule: "two to six goroutines appending, with or without a concurrent close; non-trivial: all"}, concurrent)
}
