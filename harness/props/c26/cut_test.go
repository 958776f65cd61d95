package c26

import (
	"sync/atomic"
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/functionalx/lazyx"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/pbt"
)

// A constructor that does not complete is not run again, and keeps nobody waiting.
func TestCut(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 4000, Thorough: 100000, Rule: "1..6 goroutines getting a value whose constructor panics or ends its goroutine after a moment; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		how := rapid.IntRange(conc.Panics, conc.Exits).Draw(rt, "how")
		gs := rapid.IntRange(1, 6).Draw(rt, "goroutines")
		d := time.Duration(rapid.IntRange(0, 3).Draw(rt, "takes")) * 10 * time.Microsecond
		c.Logf("constructor %s after %d, %d goroutines", conc.Ways[how], d, gs)
		c.NonTrivial()
		var calls atomic.Int64
		l := lazyx.New(func() int {
			calls.Add(1)
			time.Sleep(d)
			conc.End(how)
			return 1
		})
		get := func() { conc.Ended(func() { l.Get() }) }
		var fs []func()
		for i := range gs {
			fs = append(fs, func() {
				time.Sleep(time.Duration(i%3) * 10 * time.Microsecond)
				get()
				get()
			})
		}
		conc.Par(fs...)
		get()
		if calls.Load() != 1 {
			rt.Fatalf("the constructor ran %d times", calls.Load())
		}
	})
}
