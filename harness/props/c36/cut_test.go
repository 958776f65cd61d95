package c36

import (
	"sync/atomic"
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/syncx/lockx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/pbt"
	"verif.local/harness/vsched"
)

// A function that panics or ends its goroutine lets the next one in as well.
func TestCut(t *testing.T) { cuts(t, 4000) }

func TestRaceCut(t *testing.T) { cuts(t, 1500) }

func cuts(t *testing.T, quick int) {
	pbt.Check(t, pbt.Opts{Quick: quick, Thorough: 20 * quick, Rule: "1..5 goroutines make 1..6 lock calls on 1..3 variables, some nested in another, with functions of which some panic or end their goroutine; non-trivial: one did so"}, func(rt *rapid.T, c *pbt.Case) {
		vars := make([]struct {
			in    atomic.Int32
			n     int
			calls int
		}, rapid.IntRange(1, 3).Draw(rt, "variables"))
		type call struct{ v, to, how, work int }
		progs := make([][]call, rapid.IntRange(1, 5).Draw(rt, "goroutines"))
		for i := range progs {
			for range rapid.IntRange(1, 6).Draw(rt, "calls") {
				v := rapid.IntRange(0, len(vars)-1).Draw(rt, "var")
				x := call{v, rapid.IntRange(v, len(vars)-1).Draw(rt, "to"), rapid.SampledFrom([]int{0, 0, 1, 1, 2}).Draw(rt, "how"), rapid.IntRange(0, 3).Draw(rt, "work")}
				progs[i] = append(progs[i], x)
				for k := x.v; k <= x.to; k++ {
					vars[k].calls++
				}
				c.NonTrivialIf(x.how != conc.Returns)
			}
		}
		c.Logf("%d variables, calls %v", len(vars), progs)
		var errs conc.Errs
		var lock func(x call)
		lock = func(x call) {
			v := &vars[x.v]
			lockx.Lock(&v.n, func(p *int) {
				if n := v.in.Add(1); n != 1 || p != &v.n {
					errs.Addf("%d functions run at once on one variable", n)
				}
				defer v.in.Add(-1)
				n := *p
				for range x.work {
					time.Sleep(1)
					vsched.Gosched()
				}
				*p = n + 1
				if x.v < x.to {
					lock(call{x.v + 1, x.to, x.how, x.work})
				}
				conc.End(x.how)
			})
		}
		var fs []func()
		for _, p := range progs {
			fs = append(fs, func() {
				for _, x := range p {
					if was := conc.Ended(func() { lock(x) }); was != x.how {
						errs.Addf("a call whose function %s %s", conc.Ways[x.how], conc.Ways[was])
					}
				}
			})
		}
		conc.Par(fs...)
		errs.Check(rt)
		for i := range vars {
			if vars[i].n != vars[i].calls {
				rt.Fatalf("variable %d was counted up to %d in %d calls", i, vars[i].n, vars[i].calls)
			}
		}
	})
}
