package c17

import (
	"testing"

	"pgregory.net/rapid"
	"verif.local/harness/models/slicem"
	"verif.local/harness/pbt"
)

func TestPositions(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 30000, Thorough: 1500000,
		Rule: "histories of slice edits and reads at any integer position (both extremes, around 0 and the length, negated lengths) against an ideal sequence with clamped positions; " +
			"non-trivial: at least one position outside the valid range"},
		func(rt *rapid.T, c *pbt.Case) {
			next := 0
			e := slicem.Start(rt, &next)
			for i, o := range pbt.Sized(slicem.OpGen(true), 40).Draw(rt, "ops") {
				if len(e.M) > 2000 {
					break
				}
				n := len(e.M)
				if a := slicem.Pos(o.A, n); a < 0 || a > n {
					c.NonTrivial()
					c.LabelIf(n == 0, "out of range on empty")
				}
				d, err := e.Apply(o)
				c.Logf("%s", d)
				if err != nil {
					rt.Fatalf("step %d %s: %v", i, d, err)
				}
			}
		})
}

func TestLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 60, Thorough: 10000,
		Rule: "histories of 5 to 64 edits at any integer position on slices of 300 to 200000 elements, up to 5000 values in one call; every case counts as non-trivial"},
		func(rt *rapid.T, c *pbt.Case) { slicem.Large(rt, c, true) })
}

func TestElements(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 12000, Thorough: 400000,
		Rule: "the same histories on slices of numbers, pointers, interfaces, strings, arrays and empty structs, with zero, nil and repeated elements; non-trivial: at least three edits of a slice that held two or more elements"},
		func(rt *rapid.T, c *pbt.Case) { slicem.Elements(rt, c, true) })
}
