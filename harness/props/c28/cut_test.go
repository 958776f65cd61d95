package c28

import (
	"bytes"
	"encoding/binary"
	"testing"

	"github.com/unsafe-risk/utilx/iox/decouplex"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/pbt"
)

// A viewer or drop function that panics or ends its goroutine affects no other message. The message in view counts as
// read or not.
func TestCut(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 6000, Thorough: 200000, Rule: "writes and reads by one goroutine on decouplers of size 1..6 with viewers and drop functions of which some panic or end their goroutine; non-trivial: a viewer did so"}, func(rt *rapid.T, c *pbt.Case) {
		size := rapid.IntRange(1, 6).Draw(rt, "size")
		how := 0
		drops := 0
		d := decouplex.NewDecoupler(uint64(size), func(b []byte) (int, error) {
			drops++
			conc.End(how)
			return -2, nil
		})
		var q [][]byte
		serial := 0
		way := rapid.SampledFrom([]int{0, 0, 0, 1, 2})
		for k := rapid.IntRange(1, 40).Draw(rt, "n"); k > 0; k-- {
			how = way.Draw(rt, "how")
			if rapid.IntRange(0, 2).Draw(rt, "op") > 0 {
				serial++
				msg := binary.LittleEndian.AppendUint32(nil, uint32(serial))
				before := drops
				n := 0
				was := conc.Ended(func() { n, _ = d.Write(msg) })
				c.Logf("write: %s", conc.Ways[was])
				if len(q) < size {
					if was != conc.Returns || n != 4 || drops != before {
						rt.Fatalf("a write with %d of %d held %s %d, %d drops", len(q), size, conc.Ways[was], n, drops-before)
					}
					q = append(q, msg)
				} else if drops != before+1 || was != how || was == conc.Returns && n != -2 {
					rt.Fatalf("a write while full %s %d, %d drops", conc.Ways[was], n, drops-before)
				}
				continue
			}
			read := func(how int) (view []byte, ok bool) {
				n := 0
				was := conc.Ended(func() {
					ok = d.Next(func(b []byte) {
						n++
						view = bytes.Clone(b)
						conc.End(how)
					})
				})
				c.Logf("read: %s", conc.Ways[was])
				if was == conc.Returns && ok != (n == 1) || n > 1 || n == 1 && was != how {
					rt.Fatalf("Next %s %v with %d views", conc.Ways[was], ok, n)
				}
				return view, ok || n == 1
			}
			view, ok := read(how)
			if ok != (len(q) > 0) || ok && !bytes.Equal(view, q[0]) {
				rt.Fatalf("a read of %d messages gives %x %v", len(q), view, ok)
			}
			if !ok {
				continue
			}
			old := q[0]
			q = q[1:]
			if how == conc.Returns {
				continue
			}
			c.NonTrivial()
			view, ok = read(conc.Returns)
			if ok && bytes.Equal(view, old) { // again
				view, ok = read(conc.Returns)
			}
			if ok != (len(q) > 0) || ok && !bytes.Equal(view, q[0]) {
				rt.Fatalf("after a viewer did not return, a read of %d messages gives %x %v", len(q), view, ok)
			}
			if ok {
				q = q[1:]
			}
		}
		for _, m := range q {
			var view []byte
			if !d.Next(func(b []byte) { view = bytes.Clone(b) }) || !bytes.Equal(view, m) {
				rt.Fatalf("a message is %x, want %x", view, m)
			}
		}
		if d.Next(nil) {
			rt.Fatalf("a message too many")
		}
	})
}
