package c25

import (
	"math"
	"testing"
	"unsafe"

	"github.com/unsafe-risk/utilx/dsx/setx/bitsetx"
	"golang.org/x/exp/constraints"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

const rule = "set, clear, toggle with 0..12 positions (repeats included) and the all-variants on every unsigned width against an ideal set; " +
	"non-trivial: the set was neither empty nor full when one of the operations ran, and the highest position was touched"

type named uint16

func run[T constraints.Unsigned](rt *rapid.T, c *pbt.Case, name string) {
	var b bitsetx.BitSet[T]
	var z T
	w := int(unsafe.Sizeof(z)) * 8
	m := map[int]bool{}
	pos := rapid.OneOf(rapid.IntRange(0, w-1), rapid.SampledFrom([]int{0, 1, w/2 - 1, w / 2, w - 2, w - 1}))
	c.Label(name)
	c.Logf("%s", name)
	top, partial := false, false
	look := func() {
		for i := range w {
			if b.Test(i) != m[i] {
				rt.Fatalf("%s: Test(%d) = %v, want %v", name, i, !m[i], m[i])
			}
		}
		if b.IsEmpty() != (len(m) == 0) {
			rt.Fatalf("%s: IsEmpty = %v with %d members", name, b.IsEmpty(), len(m))
		}
		if b.IsFull() != (len(m) == w) {
			rt.Fatalf("%s: IsFull = %v with %d of %d members", name, b.IsFull(), len(m), w)
		}
		q := rapid.SliceOfN(pos, 0, 4).Draw(rt, "query")
		any := false
		for _, i := range q {
			any = any || m[i]
		}
		if b.Test(q...) != any {
			rt.Fatalf("%s: Test(%v) = %v", name, q, !any)
		}
	}
	look()
	for range rapid.IntRange(1, 40).Draw(rt, "ops") {
		op := rapid.SampledFrom([]string{"set", "set", "clear", "toggle", "toggle", "all", "none", "flip", "fill"}).Draw(rt, "op")
		ps := rapid.SliceOfN(pos, 0, 12).Draw(rt, "pos")
		if op == "fill" { // everything, position by position, in one or many calls
			ps = nil
			s, k := rapid.IntRange(0, w-1).Draw(rt, "start"), rapid.SampledFrom([]int{1, 3, 5, 7}).Draw(rt, "step")
			for i := range w - rapid.IntRange(0, 2).Draw(rt, "less") {
				ps = append(ps, (s+i*k)%w)
			}
		}
		c.Logf("%s %v", op, ps)
		partial = partial || len(m) > 0 && len(m) < w
		for _, p := range ps {
			top = top || p == w-1
		}
		switch op {
		case "set", "fill":
			b.Set(ps...)
			for _, p := range ps {
				m[p] = true
			}
		case "clear":
			b.Clear(ps...)
			for _, p := range ps {
				delete(m, p)
			}
		case "toggle":
			b.Toggle(ps...)
			for _, p := range ps {
				if m[p] {
					delete(m, p)
				} else {
					m[p] = true
				}
			}
		case "all":
			b.SetAll()
			for i := range w {
				m[i] = true
			}
		case "none":
			b.ClearAll()
			clear(m)
		case "flip":
			b.ToggleAll()
			for i := range w {
				if m[i] {
					delete(m, i)
				} else {
					m[i] = true
				}
			}
		}
		look()
	}
	c.NonTrivialIf(top && partial)
}

func TestBitSet(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 24000, Thorough: 600000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		switch rapid.IntRange(0, 6).Draw(rt, "type") {
		case 0:
			run[uint8](rt, c, "uint8")
		case 1:
			run[uint16](rt, c, "uint16")
		case 2:
			run[uint32](rt, c, "uint32")
		case 3:
			run[uint64](rt, c, "uint64")
		case 4:
			run[uint](rt, c, "uint")
		case 5:
			run[uintptr](rt, c, "uintptr")
		default:
			run[named](rt, c, "named uint16")
		}
	})
}

// TestBeyondWidth: positions at or beyond the width and below zero are in no
// set, and naming them changes nothing.
func TestBeyondWidth(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 12000, Thorough: 300000, Rule: "positions at or beyond the width and negative ones named among those within, in set, clear, toggle and test; non-trivial: one outside and one within in the same call"}, func(rt *rapid.T, c *pbt.Case) {
		switch rapid.IntRange(0, 6).Draw(rt, "type") {
		case 0:
			beyond[uint8](rt, c, "uint8")
		case 1:
			beyond[uint16](rt, c, "uint16")
		case 2:
			beyond[uint32](rt, c, "uint32")
		case 3:
			beyond[uint64](rt, c, "uint64")
		case 4:
			beyond[uint](rt, c, "uint")
		case 5:
			beyond[uintptr](rt, c, "uintptr")
		default:
			beyond[named](rt, c, "named uint16")
		}
	})
}

func beyond[T constraints.Unsigned](rt *rapid.T, c *pbt.Case, name string) {
	var b bitsetx.BitSet[T]
	var z T
	w := int(unsafe.Sizeof(z)) * 8
	m := map[int]bool{}
	pos := rapid.OneOf(rapid.IntRange(0, w-1), rapid.IntRange(w, 3*w), rapid.IntRange(w, 1000), rapid.IntRange(-2*w, -1), rapid.SampledFrom([]int{w, w + 1, 64, 65, 127, 128, math.MaxInt32, math.MaxInt, math.MaxInt - w + 1, -1, -w, 1 - w, math.MinInt, math.MinInt + 1, math.MinInt32}), gen.Wild())
	within := func(p int) bool { return p >= 0 && p < w }
	c.Label(name)
	c.Logf("%s", name)
	for range rapid.IntRange(1, 12).Draw(rt, "ops") {
		op := rapid.SampledFrom([]string{"set", "clear", "toggle", "all", "test"}).Draw(rt, "op")
		ps := rapid.SliceOfN(pos, 1, 5).Draw(rt, "pos")
		c.Logf("%s %v", op, ps)
		in, out, any := false, false, false
		for _, p := range ps {
			in, out = in || within(p), out || !within(p)
			any = any || m[p]
		}
		c.NonTrivialIf(in && out)
		switch op {
		case "set":
			b.Set(ps...)
		case "clear":
			b.Clear(ps...)
		case "toggle":
			b.Toggle(ps...)
		case "all":
			b.SetAll()
			for p := range w {
				m[p] = true
			}
		case "test":
			if got := b.Test(ps...); got != any {
				rt.Fatalf("%s: Test(%v) = %v", name, ps, got)
			}
		}
		for _, p := range ps {
			switch {
			case !within(p):
			case op == "set":
				m[p] = true
			case op == "clear":
				delete(m, p)
			case op == "toggle" && m[p]:
				delete(m, p)
			case op == "toggle":
				m[p] = true
			}
		}
		for i := range w {
			if b.Test(i) != m[i] {
				rt.Fatalf("%s: after %s of %v, Test(%d) = %v, want %v", name, op, ps, i, !m[i], m[i])
			}
		}
		for _, p := range ps {
			if !within(p) && b.Test(p) {
				rt.Fatalf("%s: Test(%d) says a position outside the width is a member", name, p)
			}
		}
		if b.IsEmpty() != (len(m) == 0) || b.IsFull() != (len(m) == w) {
			rt.Fatalf("%s: %d of %d members, IsEmpty %v, IsFull %v", name, len(m), w, b.IsEmpty(), b.IsFull())
		}
	}
}
