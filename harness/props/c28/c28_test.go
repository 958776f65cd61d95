package c28

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"testing"

	"github.com/unsafe-risk/utilx/iox/decouplex"
	"pgregory.net/rapid"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
)

const rule = "write and read bursts by one goroutine on decouplers of size 0..200 with messages of 0..2000 bytes against an ideal bounded queue; the caller's buffer is overwritten after each write; " +
	"non-trivial: a write was dropped because the decoupler was full and a later message was read"

func TestBounded(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 15000, Thorough: 400000, Rule: rule, CPU: 6}, func(rt *rapid.T, c *pbt.Case) {
		size := rapid.SampledFrom([]int{0, 1, 1, 2, 2, 3, 4, 5, 7, 8, 16, 33, 200}).Draw(rt, "size")
		maxMsg := rapid.SampledFrom([]int{1, 3, 20, 2000}).Draw(rt, "maxMsg")
		var drops [][]byte
		var dropN int
		var dropErr error
		d := decouplex.NewDecoupler(uint64(size), func(b []byte) (int, error) {
			drops = append(drops, bytes.Clone(b))
			return dropN, dropErr
		})
		var q [][]byte
		dropped, readAfter := false, false
		buf := make([]byte, maxMsg)
		c.Logf("size %d, messages up to %d", size, maxMsg)
		errDrop := errors.New("dropped")
		write := func(n int) {
			b := buf[:n]
			if rapid.IntRange(0, 4).Draw(rt, "zeros") == 0 {
				clear(b)
			} else {
				gen.Fill(b, rapid.Uint64().Draw(rt, "content"))
			}
			msg := bytes.Clone(b)
			dropN, dropErr = rapid.IntRange(-1, 5).Draw(rt, "dropN"), rapid.SampledFrom([]error{nil, errDrop}).Draw(rt, "dropErr")
			before := len(drops)
			k, err := d.Write(b)
			if !bytes.Equal(b, msg) {
				rt.Fatalf("Write modified the caller's message")
			}
			for i := range b {
				b[i] = 0xee
			}
			if n == 0 || len(q) == size {
				if len(drops) != before+1 || !bytes.Equal(drops[before], msg) {
					rt.Fatalf("a write of %d bytes with %d of %d held called drop %d times, or with other data", n, len(q), size, len(drops)-before)
				}
				if k != dropN || err != dropErr {
					rt.Fatalf("a dropped write returned %d %v, drop returned %d %v", k, err, dropN, dropErr)
				}
				dropped = dropped || n > 0
				return
			}
			if len(drops) != before {
				rt.Fatalf("a write of %d bytes with %d of %d held was dropped", n, len(q), size)
			}
			if k != n || err != nil {
				rt.Fatalf("a write of %d bytes returned %d %v", n, k, err)
			}
			q = append(q, msg)
		}
		read := func() {
			calls := 0
			var got []byte
			view := func(b []byte) { calls++; got = bytes.Clone(b) }
			ok := d.Next(view)
			if len(q) == 0 {
				if ok || calls > 0 {
					rt.Fatalf("Next on an empty decoupler: %v, viewer called %d times", ok, calls)
				}
				return
			}
			if !ok || calls != 1 || !bytes.Equal(got, q[0]) {
				rt.Fatalf("Next with %d held: %v, viewer called %d times, got %d bytes %x.., want %d bytes %x..", len(q), ok, calls, len(got), got[:min(4, len(got))], len(q[0]), q[0][:min(4, len(q[0]))])
			}
			q = q[1:]
			readAfter = readAfter || dropped
		}
		for range rapid.IntRange(1, 25).Draw(rt, "bursts") {
			op := rapid.SampledFrom([]string{"write", "write", "read", "read", "mixed", "fill", "drain", "empty"}).Draw(rt, "op")
			n := rapid.IntRange(1, 2*min(size, 20)+2).Draw(rt, "n")
			c.Logf("%s %d", op, n)
			msgLen := func() int { return rapid.IntRange(1, maxMsg).Draw(rt, "len") }
			switch op {
			case "write":
				for range n {
					write(msgLen())
				}
			case "read":
				for range n {
					read()
				}
			case "mixed":
				for range n {
					write(msgLen())
					read()
				}
			case "fill":
				for len(q) < size {
					write(msgLen())
				}
				for range rapid.IntRange(0, 3).Draw(rt, "over") {
					write(msgLen())
				}
			case "drain":
				for len(q) > 0 {
					read()
				}
				read()
			case "empty":
				write(0)
			}
		}
		for len(q) > 0 {
			read()
		}
		read()
		c.LabelIf(dropped, "dropped while full")
		c.NonTrivialIf(readAfter)
	})
}

// Decouplers and messages beyond what is drawn step by step.
func TestLarge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 40, Thorough: 4000, CPU: 60, Rule: "decouplers of size 1..20000 and messages of up to 1 MiB through 500 to 60000 writes and reads expanded from a seed, in growing, shrinking and balanced phases; non-trivial: a write was dropped because the decoupler was full"}, func(rt *rapid.T, c *pbt.Case) {
		size := gen.Large(rt, "size", 1, 20000)
		most := gen.Large(rt, "message", 8, 1<<20)
		steps := gen.Large(rt, "steps", 500, 60000)
		steps = min(steps, max(500, 300000000/most/10))
		r := gen.NewRand(rt, "seed")
		c.Logf("size %d, messages to %d, %d steps, seed %x", size, most, steps, uint64(*r))
		drops := 0
		d := decouplex.NewDecoupler(uint64(size), func(b []byte) (int, error) { drops++; return 0, nil })
		type msg struct {
			n    int
			seed uint64
		}
		var q []msg
		buf, want := make([]byte, most), make([]byte, most)
		read := func() {
			calls := 0
			ok := d.Next(func(b []byte) {
				calls++
				if len(q) == 0 {
					return
				}
				w := want[:q[0].n]
				gen.Fill(w, q[0].seed)
				if !bytes.Equal(b, w) {
					rt.Fatalf("Next with %d of %d held gives %d bytes %x.., want %d bytes %x..", len(q), size, len(b), b[:min(4, len(b))], len(w), w[:min(4, len(w))])
				}
			})
			if ok != (len(q) > 0) || calls != min(1, len(q)) {
				rt.Fatalf("Next with %d of %d held: %v, viewer called %d times", len(q), size, ok, calls)
			}
			if ok {
				q = q[1:]
			}
		}
		bytesHeld := 0
		for phase := 0; steps > 0; phase++ {
			n := min(steps, 1+r.N(max(2*size, 50)))
			steps -= n
			bias := []int{7, 4, 1, 8, 0}[r.N(5)]
			for ; n > 0; n-- {
				if r.N(8) >= bias {
					read()
					continue
				}
				m := msg{1 + r.N(most), r.Uint64()}
				switch {
				case r.N(3) > 0 || bytesHeld > 1<<28:
					m.n = 1 + r.N(min(most, 64))
				case r.N(10) == 0:
					m.n = most
				}
				bytesHeld += m.n
				gen.Fill(buf[:m.n], m.seed)
				before := drops
				k, err := d.Write(buf[:m.n])
				if len(q) == size {
					if drops != before+1 || k != 0 || err != nil {
						rt.Fatalf("a write with all %d held called drop %d times and returned %d %v", size, drops-before, k, err)
					}
					c.NonTrivial()
					continue
				}
				if drops != before || k != m.n || err != nil {
					rt.Fatalf("a write of %d bytes with %d of %d held called drop %d times and returned %d %v", m.n, len(q), size, drops-before, k, err)
				}
				q = append(q, m)
			}
		}
		for len(q) > 0 {
			read()
		}
		read()
	})
}

// Messages of up to a hundred megabytes.
func TestHuge(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 8, Thorough: 300, CPU: 60, Rule: "decouplers of size 1..3 and up to eight messages, some of 1 to 100 MiB; non-trivial: a message of more than 1 MiB was read"}, func(rt *rapid.T, c *pbt.Case) {
		size := rapid.IntRange(1, 3).Draw(rt, "size")
		r := gen.NewRand(rt, "seed")
		drops := 0
		d := decouplex.NewDecoupler(uint64(size), func(b []byte) (int, error) { drops++; return 0, nil })
		var q [][]byte
		for range rapid.IntRange(2, 8).Draw(rt, "steps") {
			if len(q) == size || len(q) > 0 && rapid.Bool().Draw(rt, "read") {
				ok := d.Next(func(b []byte) {
					if !bytes.Equal(b, q[0]) {
						rt.Fatalf("Next gives %d bytes, want %d bytes (or others)", len(b), len(q[0]))
					}
				})
				if !ok {
					rt.Fatalf("Next reports nothing with %d of %d held", len(q), size)
				}
				c.NonTrivialIf(len(q[0]) > 1<<20)
				q = q[1:]
				continue
			}
			n := rapid.IntRange(1, 100).Draw(rt, "small")
			if rapid.Bool().Draw(rt, "large") {
				n = gen.Large(rt, "n", 1<<20, 100<<20)
			}
			b := make([]byte, n)
			gen.Fill(b[:min(n, 1<<16)], r.Uint64())
			gen.Fill(b[max(0, n-1<<16):], r.Uint64())
			c.Logf("%d bytes", n)
			if k, err := d.Write(b); k != n || err != nil || drops != 0 {
				rt.Fatalf("a write of %d bytes with %d of %d held called drop %d times and returned %d %v", n, len(q), size, drops, k, err)
			}
			q = append(q, b)
		}
	})
}

// TestCallbacks: the drop function makes room and writes again, the viewer
// writes too; and decouplers without drop function, reads without viewer.
func TestCallbacks(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 8000, Thorough: 200000, CPU: 6, Rule: "writes and reads by one goroutine on decouplers of size 1..8 whose drop function reads one or more messages and writes again, or is missing, and whose viewers write further messages, or are missing; non-trivial: a drop function made room, or a viewer wrote"}, func(rt *rapid.T, c *pbt.Case) {
		size := rapid.IntRange(1, 8).Draw(rt, "size")
		var d *decouplex.Decoupler
		var q [][]byte
		serial, depth, evicted, written := 0, 0, 0, 0
		next := func() []byte {
			serial++
			return binary.LittleEndian.AppendUint32(nil, uint32(serial))
		}
		var read func(bool)
		var write func(msg []byte, held int)
		evict := 0
		drop := func(b []byte) (int, error) {
			if depth > 0 || evict == 0 { // no room is made
				return -3, nil
			}
			depth++
			defer func() { depth-- }()
			msg := bytes.Clone(b)
			for range evict {
				read(false)
				evicted++
			}
			write(msg, len(q))
			return -4, io.EOF
		}
		without := rapid.IntRange(0, 4).Draw(rt, "nodrop") == 0
		if without {
			d = decouplex.NewDecoupler(uint64(size), nil)
		} else {
			d = decouplex.NewDecoupler(uint64(size), drop)
		}
		// write writes msg, with held messages not yet read completely.
		write = func(msg []byte, held int) {
			k, err := d.Write(msg)
			switch {
			case held < size:
				if k != len(msg) || err != nil {
					rt.Fatalf("a write of %d bytes with %d of %d held returned %d %v", len(msg), held, size, k, err)
				}
				q = append(q, msg)
			case without:
				if k != len(msg) || err != nil {
					rt.Fatalf("a dropped write of %d bytes without drop function returned %d %v", len(msg), k, err)
				}
			case depth == 0 && evict > 0:
				if k != -4 || err != io.EOF {
					rt.Fatalf("a dropped write returned %d %v, the drop function another value", k, err)
				}
			default:
				if k != -3 || err != nil {
					rt.Fatalf("a dropped write returned %d %v, the drop function another value", k, err)
				}
			}
		}
		read = func(more bool) {
			want := [][]byte{nil}
			if len(q) > 0 {
				want = q
			}
			if rapid.IntRange(0, 4).Draw(rt, "noview") == 0 {
				if ok := d.Next(nil); ok != (len(q) > 0) {
					rt.Fatalf("Next without viewer on %d messages gave %v", len(q), ok)
				}
				if len(q) > 0 {
					q = q[1:]
				}
				return
			}
			n, held := 0, len(q)
			ok := d.Next(func(b []byte) {
				n++
				if !bytes.Equal(b, want[0]) {
					rt.Fatalf("Next handed %x to the viewer, want %x", b, want[0])
				}
				if more && (held < size || !without) {
					if held < size { // there is room whether or not the message in view is still held
						write(next(), held)
					} else { // it may count as held or not
						old, msg := evict, next()
						evict = 0
						k, err := d.Write(msg)
						evict = old
						if err != nil || k != len(msg) && k != -3 {
							rt.Fatalf("a write from the viewer returned %d %v", k, err)
						}
						if k == len(msg) {
							q = append(q, msg)
						}
					}
					written++
					if !bytes.Equal(b, want[0]) {
						rt.Fatalf("a write changed the message in view to %x, want %x", b, want[0])
					}
				}
			})
			if ok != (held > 0) || ok && n != 1 || !ok && n != 0 {
				rt.Fatalf("Next on %d messages: %v, viewer called %d times", held, ok, n)
			}
			if ok {
				q = q[1:]
			}
		}
		n := rapid.IntRange(1, 60).Draw(rt, "n")
		c.Logf("size %d, no drop function: %v, %d operations", size, without, n)
		for range n {
			if rapid.IntRange(0, 2).Draw(rt, "op") > 0 {
				evict = 0
				if !without && len(q) == size {
					evict = rapid.IntRange(0, 2).Draw(rt, "evict")
				}
				write(next(), len(q))
			} else {
				read(rapid.Bool().Draw(rt, "more"))
			}
		}
		evict = 0
		for len(q) > 0 {
			read(false)
		}
		read(false)
		c.LabelIf(evicted > 0, "drop made room")
		c.LabelIf(written > 0, "viewer wrote")
		c.LabelIf(without, "no drop function")
		c.NonTrivialIf(evicted+written > 0)
	})
}

// Decouplers that hold more than 65536 messages.
func TestBeyond(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 8, Thorough: 400, CPU: 60, Rule: "decouplers of size 65536 to 1.2 million filled up, partly read, filled again and emptied, once or twice; non-trivial: a write was dropped because the decoupler was full"}, func(rt *rapid.T, c *pbt.Case) {
		size := gen.Vast(rt, "size")
		r := gen.NewRand(rt, "seed")
		c.Logf("size %d, seed %x", size, uint64(*r))
		drops := 0
		d := decouplex.NewDecoupler(uint64(size), func(b []byte) (int, error) { drops++; return 0, nil })
		var wrote, read uint64
		write := func(n int) {
			for range n {
				b := binary.AppendUvarint(nil, wrote)
				full := wrote-read == uint64(size)
				before := drops
				k, err := d.Write(b)
				if full {
					c.NonTrivial()
					if k != 0 || err != nil || drops != before+1 {
						rt.Fatalf("a write to a full decoupler of %d returned %d %v, drop called %d times", size, k, err, drops-before)
					}
					continue
				}
				if k != len(b) || err != nil || drops != before {
					rt.Fatalf("a write with %d of %d held returned %d %v, drop called %d times", wrote-read, size, k, err, drops-before)
				}
				wrote++
			}
		}
		next := func(n int) {
			for range n {
				calls := 0
				ok := d.Next(func(b []byte) {
					calls++
					if v, k := binary.Uvarint(b); k != len(b) || v != read {
						rt.Fatalf("message %d, want %d of %d", v, read, wrote)
					}
				})
				if want := read < wrote; ok != want || calls == 1 != want {
					rt.Fatalf("Next with %d of %d held returned %v, viewer called %d times", wrote-read, size, ok, calls)
				}
				if ok {
					read++
				}
			}
		}
		for range rapid.IntRange(1, 2).Draw(rt, "rounds") {
			write(size + 2)
			next(r.N(size))
			write(size)
			next(size + 2)
			if read != wrote {
				rt.Fatalf("%d of %d messages read", read, wrote)
			}
			write(r.N(1000))
		}
	})
}
