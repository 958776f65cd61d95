package c16

import (
	"testing"

	"pgregory.net/rapid"
	"verif.local/harness/models/slicem"
	"verif.local/harness/pbt"
)

func TestEditing(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 30000, Thorough: 1500000,
		Rule: "histories of up to 80 slice edits at valid positions on slices with and without spare capacity against an ideal sequence; " +
			"non-trivial: at least three edits of a slice that held two or more elements"},
		func(rt *rapid.T, c *pbt.Case) {
			next := 0
			e := slicem.Start(rt, &next)
			edits := 0
			for i, o := range pbt.Sized(slicem.OpGen(false), 80).Draw(rt, "ops") {
				if len(e.M) > 2000 {
					break
				}
				if len(e.M) >= 2 {
					edits++
				}
				d, err := e.Apply(o)
				c.Logf("%s", d)
				if err != nil {
					rt.Fatalf("step %d %s: %v", i, d, err)
				}
			}
			c.NonTrivialIf(edits >= 3)
		})
}

func TestLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 60, Thorough: 10000,
		Rule: "histories of 5 to 64 edits at valid positions on slices of 300 to 200000 elements, up to 5000 values in one call; every case counts as non-trivial"},
		func(rt *rapid.T, c *pbt.Case) { slicem.Large(rt, c, false) })
}

func TestElements(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 12000, Thorough: 400000,
		Rule: "the same histories on slices of numbers, pointers, interfaces, strings, arrays and empty structs, with zero, nil and repeated elements; non-trivial: at least three edits of a slice that held two or more elements"},
		func(rt *rapid.T, c *pbt.Case) { slicem.Elements(rt, c, false) })
}
