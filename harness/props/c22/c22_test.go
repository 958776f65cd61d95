package c22

import (
	"cmp"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"golang.org/x/exp/constraints"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/models/sorted"
	"verif.local/harness/pbt"
)

const rule = "up to four iterators advanced, rewound and sought in turn while keys are inserted, deleted (also where an iterator stands) and all cleared, and values updated, against positions in an ideal sorted map; " +
	"non-trivial: an iterator ran to the end and was asked again, or a key was inserted or deleted ahead of a running one"

const (
	start = iota // next is the smallest key
	at           // next is the smallest key greater than key
	end          // exhausted, until sought or rewound
	lost         // after a failed seek: unspecified until sought or rewound
)

type cursor[K cmp.Ordered] struct {
	it    *sklmapx.Iterator[K, int]
	state int
	key   K
}

func run[K interface {
	constraints.Ordered
	cmp.Ordered
}](rt *rapid.T, c *pbt.Case, ks sorted.Keyspace[K]) {
	space := rapid.SampledFrom([]int{2, 6, 12, 40, 300}).Draw(rt, "keys")
	key := rapid.IntRange(0, space-1)
	l, m := sklmapx.New[K, int](), sorted.New[K, int]()
	val := 0
	var cs []*cursor[K]
	set := func(k K) {
		val++
		if _, had := m.M[k]; !had {
			for _, x := range cs {
				if x.state == at && k > x.key {
					c.NonTrivial()
					c.Label("insertion ahead")
				}
			}
		}
		l.Set(k, val)
		m.Set(k, val)
	}
	del := func(k K) {
		_, had := m.M[k]
		if l.Del(k) != had {
			rt.Fatalf("Del(%v) is not %v", k, had)
		}
		if !had {
			return
		}
		m.Del(k)
		for _, x := range cs {
			switch {
			case x.state != at:
			case k == x.key:
				c.NonTrivial()
				c.Label("deletion of the current entry")
			case k > x.key:
				c.NonTrivial()
				c.Label("deletion ahead")
			}
		}
	}
	// history before any iterator exists, deletions included
	for range rapid.IntRange(0, 40).Draw(rt, "before") {
		if k := ks.Of(key.Draw(rt, "k")); rapid.IntRange(0, 3).Draw(rt, "del") == 0 {
			del(k)
		} else {
			set(k)
		}
	}
	c.Label(ks.Name)
	c.Logf("%s of %d: %d entries", ks.Name, space, m.Len())
	next := func(x *cursor[K]) {
		if x.state == lost {
			return
		}
		k, v, ok := x.it.Next()
		var want K
		wok := false
		switch x.state {
		case start:
			want, wok = m.First()
		case at:
			want, wok = m.After(x.key)
		case end:
			c.NonTrivial()
			c.Label("asked again at the end")
		}
		if ok != wok || ok && (k != want || v != m.M[want]) {
			rt.Fatalf("Next = %v %v %v, want %v %v %v", k, v, ok, want, m.M[want], wok)
		}
		var zero K
		if !ok && (k != zero || v != 0) {
			rt.Fatalf("Next at the end returned %v %v", k, v)
		}
		if wok {
			x.state, x.key = at, want
		} else {
			x.state = end
		}
	}
	for range rapid.IntRange(1, 60).Draw(rt, "ops") {
		op := rapid.SampledFrom([]string{"next", "next", "next", "all", "all", "seek", "seek", "rewind", "new", "set", "set", "update", "del", "delhit", "deleted", "clear?"}).Draw(rt, "op")
		if len(cs) == 0 {
			op = "new"
		}
		var x *cursor[K]
		if op != "new" {
			x = cs[rapid.IntRange(0, len(cs)-1).Draw(rt, "it")]
		}
		c.Logf("%s", op)
		switch op {
		case "new":
			if len(cs) < 4 {
				cs = append(cs, &cursor[K]{it: l.Iterator()})
			}
		case "next":
			next(x)
		case "all":
			for range m.Len() + 2 {
				next(x)
				if x.state == end && rapid.Bool().Draw(rt, "enough") {
					break
				}
			}
		case "rewind":
			x.it.Rewind()
			x.state = start
		case "seek":
			k := ks.Of(key.Draw(rt, "k"))
			if m.Len() > 0 && rapid.Bool().Draw(rt, "hit") {
				k = m.Any(rt)
			}
			gk, gv, ok := x.it.Seek(k)
			v, has := m.M[k]
			if ok != has {
				rt.Fatalf("Seek(%v) reported %v", k, ok)
			}
			if has {
				if gk != k || gv != v {
					rt.Fatalf("Seek(%v) = %v %v, want value %v", k, gk, gv, v)
				}
				x.state, x.key = at, k
			} else {
				x.state = lost
			}
		case "set":
			set(ks.Of(key.Draw(rt, "k")))
		case "del":
			del(ks.Of(key.Draw(rt, "k")))
		case "delhit":
			if m.Len() > 0 {
				del(m.Any(rt))
			}
		case "deleted": // the entry it stands on
			if x.state == at {
				del(x.key)
				if rapid.IntRange(0, 2).Draw(rt, "again") == 0 {
					set(x.key)
				}
			}
		case "clear?":
			if rapid.IntRange(0, 3).Draw(rt, "really") == 0 {
				l.Clear()
				m.Clear()
				c.NonTrivial()
				c.Label("cleared")
			}
		case "update":
			if m.Len() > 0 {
				set(m.Any(rt))
			}
		}
	}
	// every live iterator finishes its walk
	for _, x := range cs {
		for x.state == start || x.state == at {
			next(x)
		}
		next(x)
	}
}

func TestIterators(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 20000, Thorough: 500000, Rule: rule}, func(rt *rapid.T, c *pbt.Case) {
		switch rapid.IntRange(0, 4).Draw(rt, "type") {
		case 0:
			run(rt, c, sorted.Ints)
		case 1:
			run(rt, c, sorted.BigInts)
		case 2:
			run(rt, c, sorted.Strings)
		case 3:
			run(rt, c, sorted.Floats)
		default:
			run(rt, c, sorted.Bytes)
		}
	})
}

// Walks over tens of thousands of entries, with a second iterator sought about and edits between the steps.
func TestLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 20, Thorough: 2000, Rule: "maps of 500 to 150000 keys walked by one iterator while another seeks and entries behind and ahead are added and deleted; every case counts as non-trivial"}, func(rt *rapid.T, c *pbt.Case) {
		n := gen.Large(rt, "n", 500, 150000)
		r := gen.NewRand(rt, "seed")
		l := sklmapx.New[int, int]()
		vals := make([]int, 4*n) // vals[k] is the value of key k, 0 if absent
		for i := 0; i < n; i++ {
			k := r.N(4 * n)
			vals[k] = i + 1
			l.Set(k, i+1)
		}
		after := func(k int) int {
			for k++; k < len(vals) && vals[k] == 0; k++ {
			}
			return k
		}
		c.Logf("%d keys, seed %x", n, uint64(*r))
		c.NonTrivial()
		it, other := l.Iterator(), l.Iterator()
		at, edits := -1, 2000
		for {
			k, v, ok := it.Next()
			want := after(at)
			if ok != (want < len(vals)) || ok && (k != want || v != vals[want]) {
				rt.Fatalf("Next after %d = (%d,%d,%v), want %d", at, k, v, ok, want)
			}
			if !ok {
				break
			}
			at = want
			if edits > 0 && r.N(1+n/2000) == 0 {
				edits--
				e := r.N(len(vals))
				if r.N(2) == 0 {
					e = min(at+1+r.N(20), len(vals)-1)
				}
				switch r.N(4) {
				case 0, 1:
					vals[e] = 1000000 + edits
					l.Set(e, vals[e])
				case 2:
					if r.N(4) == 0 {
						e = at
					}
					if l.Del(e) != (vals[e] != 0) {
						rt.Fatalf("Del(%d) is not %v", e, vals[e] != 0)
					}
					vals[e] = 0
				case 3:
					gk, gv, ok := other.Seek(e)
					if ok != (vals[e] != 0) || ok && (gk != e || gv != vals[e]) {
						rt.Fatalf("Seek(%d) = (%d,%d,%v), the value is %d", e, gk, gv, ok, vals[e])
					}
					for i := 0; ok && i < 5; i++ {
						e = after(e)
						gk, gv, ok = other.Next()
						if ok != (e < len(vals)) || ok && (gk != e || gv != vals[e]) {
							rt.Fatalf("Next after a seek = (%d,%d,%v), want %d", gk, gv, ok, e)
						}
					}
				}
			}
		}
		if k, v, ok := it.Next(); ok {
			rt.Fatalf("Next after the end = (%d,%d)", k, v)
		}
	})
}
