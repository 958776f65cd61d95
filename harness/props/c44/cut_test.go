package c44

import (
	"testing"

	"github.com/unsafe-risk/utilx/typex/convx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/pbt"
)

type cutFrom struct{ n int }
type cutTo struct{ n int }

// A converter that panics or ends its goroutine leaves the registry in working order.
func TestCut(t *testing.T) { cuts(t, 3000) }

func TestRaceCut(t *testing.T) { cuts(t, 1000) }

func cuts(t *testing.T, quick int) {
	pbt.Check(t, pbt.Opts{Quick: quick, Thorough: 20 * quick, Rule: "1..4 goroutines convert with converters of which some panic or end their goroutine, also inside another conversion, and register in between; non-trivial: one did so"}, func(rt *rapid.T, c *pbt.Case) {
		var errs conc.Errs
		// values ask for their end: tens the way, units the depth
		conv := func(x cutFrom) cutTo {
			if x.n%10 > 0 {
				y, ok := convx.Into[cutFrom, cutTo](cutFrom{x.n - 1})
				if !ok {
					errs.Addf("no converter inside a conversion")
				}
				return y
			}
			conc.End(x.n / 10)
			return cutTo{7}
		}
		convx.Register(conv)
		progs := rapid.SliceOfN(rapid.SliceOfN(rapid.Custom(func(rt *rapid.T) int {
			if rapid.IntRange(0, 4).Draw(rt, "op") == 0 {
				return -1
			}
			return 10*rapid.IntRange(0, 2).Draw(rt, "how") + rapid.IntRange(0, 2).Draw(rt, "depth")
		}), 1, 8), 1, 4).Draw(rt, "calls")
		c.Logf("%v", progs)
		var fs []func()
		for _, p := range progs {
			for _, v := range p {
				c.NonTrivialIf(v >= 10)
			}
			fs = append(fs, func() {
				for _, v := range p {
					if v < 0 {
						convx.Register(conv)
						continue
					}
					var y cutTo
					ok := false
					was := conc.Ended(func() {
						if v%2 == 0 {
							y, ok = convx.Into[cutFrom, cutTo](cutFrom{v})
						} else {
							y = convx.IntoOr(cutFrom{v}, cutTo{1})
							ok = true
						}
					})
					if was != v/10 || was == conc.Returns && (!ok || y.n != 7) {
						errs.Addf("a conversion %s %v %v, its converter %s", conc.Ways[was], y, ok, conc.Ways[v/10])
					}
				}
			})
		}
		conc.Par(fs...)
		errs.Check(rt)
		if !convx.Exists[cutFrom, cutTo]() {
			rt.Fatalf("the converter is gone")
		}
		convx.Unregister[cutFrom, cutTo]()
		if convx.Exists[cutFrom, cutTo]() {
			rt.Fatalf("a removed converter exists")
		}
	})
}
