package c29

import (
	"bytes"
	"encoding/binary"
	"slices"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/iox/decouplex"
	"pgregory.net/rapid"
	"verif.local/harness/models/conc"
	"verif.local/harness/models/gen"
	"verif.local/harness/pbt"
	"verif.local/harness/vsched"
)

const rule = "one to six writers with drawn messages and one reader on decouplers of size 1..6; the delivered and dropped messages are compared with the written ones, and a drop with the messages on their way at the time; " +
	"non-trivial: two or more writers and more messages than the size"

// message encodes writer and number and pads with bytes derived from them.
func message(w, i, n int) []byte {
	b := make([]byte, 4+n)
	binary.LittleEndian.PutUint16(b, uint16(w))
	binary.LittleEndian.PutUint16(b[2:], uint16(i))
	gen.Fill(b[4:], uint64(w)<<20+uint64(i)+1)
	return b
}

func id(b []byte) (w, i int, ok bool) {
	if len(b) < 4 {
		return 0, 0, false
	}
	w, i = int(binary.LittleEndian.Uint16(b)), int(binary.LittleEndian.Uint16(b[2:]))
	return w, i, bytes.Equal(b, message(w, i, len(b)-4))
}

// span is when a message was being written and read: [call, ret] of its Write,
// and end, the return of the Next that delivered it (0: not delivered).
type span struct {
	key            int
	call, ret, end int64
	dropped        bool
}

func concurrent(sizes []int, maxWriters, maxMsgs int, lens *rapid.Generator[int]) func(rt *rapid.T, c *pbt.Case) {
	return func(rt *rapid.T, c *pbt.Case) {
		size := rapid.SampledFrom(sizes).Draw(rt, "size")
		progs := make([][]int, rapid.IntRange(1, maxWriters).Draw(rt, "writers"))
		total := 0
		for i := range progs {
			progs[i] = rapid.SliceOfN(lens, 1, maxMsgs).Draw(rt, "lens")
			total += len(progs[i])
		}
		lazy := rapid.SampledFrom([]int{0, 0, 1, 3, 10}).Draw(rt, "readerPause")
		c.Logf("size %d, reader pause %d, messages %v", size, lazy, progs)
		c.NonTrivialIf(len(progs) >= 2 && total > size)
		var errs conc.Errs
		var mu sync.Mutex
		spans := map[int]*span{}
		dropped := map[int]int{}
		var delivered []int
		var ends []int64
		conc.Run(rt, func(rt *rapid.T) {
			d := decouplex.NewDecoupler(uint64(size), func(b []byte) (int, error) {
				w, i, ok := id(b)
				if !ok {
					errs.Addf("drop was called with a message nobody wrote (%d bytes)", len(b))
					return 0, nil
				}
				vsched.Y()
				mu.Lock()
				dropped[w*1000+i]++
				mu.Unlock()
				return -1 - i, nil
			})
			var clk conc.Clock
			var running atomic.Int64
			running.Store(int64(len(progs)))
			var fs []func()
			for w, p := range progs {
				fs = append(fs, func() {
					defer running.Add(-1)
					buf := make([]byte, 4+slices.Max(p))
					for i, n := range p {
						b := buf[:copy(buf, message(w, i, n))]
						call := clk.Tick()
						k, err := d.Write(b)
						ret := clk.Tick()
						for j := range b { // the caller's buffer is free again
							b[j] = 0xff
						}
						mu.Lock()
						dr := dropped[w*1000+i] > 0
						mu.Unlock()
						if dr && (k != -1-i || err != nil) || !dr && (k != 4+n || err != nil) {
							errs.Addf("Write of %d bytes returned %d %v (dropped: %v)", 4+n, k, err, dr)
						}
						mu.Lock()
						spans[w*1000+i] = &span{key: w*1000 + i, call: call, ret: ret, dropped: dr}
						mu.Unlock()
						vsched.Y()
					}
				})
			}
			fs = append(fs, func() {
				for {
					fin := running.Load() == 0
					var got []byte
					calls := 0
					ok := d.Next(func(b []byte) {
						calls++
						got = bytes.Clone(b)
						vsched.Y()
						if !bytes.Equal(got, b) {
							errs.Addf("a message changed while it was being viewed")
						}
					})
					ret := clk.Tick()
					if ok != (calls == 1) || calls > 1 {
						errs.Addf("Next returned %v after %d viewer calls", ok, calls)
					}
					if ok {
						w, i, valid := id(got)
						if !valid {
							errs.Addf("a delivered message is torn or was never written (%d bytes %x)", len(got), got)
							return
						}
						delivered = append(delivered, w*1000+i)
						ends = append(ends, ret)
					}
					if !ok && fin {
						return
					}
					for range lazy {
						vsched.Y()
					}
					if !ok {
						if vsched.Active() {
							time.Sleep(40)
						} else {
							time.Sleep(20 * time.Microsecond)
						}
					}
				}
			})
			conc.Par(fs...)
		})
		errs.Check(rt)
		seen := map[int]int{}
		last := map[int]int{}
		for _, k := range delivered {
			seen[k]++
			if l, ok := last[k/1000]; ok && k%1000 <= l {
				rt.Fatalf("writer %d: message %d delivered after %d", k/1000, k%1000, l)
			}
			last[k/1000] = k % 1000
		}
		for w, p := range progs {
			for i := range p {
				k := w*1000 + i
				if seen[k]+dropped[k] != 1 {
					rt.Fatalf("message %d of writer %d was delivered %d times and dropped %d times", i, w, seen[k], dropped[k])
				}
			}
		}
		if len(delivered)+len(dropped) != total {
			rt.Fatalf("%d messages delivered and %d dropped of %d", len(delivered), len(dropped), total)
		}
		c.LabelIf(len(dropped) > 0, "messages dropped")
		// a message is only dropped when as many others as fit were on their way
		for i, k := range delivered {
			spans[k].end = ends[i]
		}
		for _, d := range spans {
			if !d.dropped {
				continue
			}
			others := 0
			for _, o := range spans {
				if !o.dropped && o.call < d.ret && o.end > d.call {
					others++
				}
			}
			if others < size {
				rt.Fatalf("message %d of writer %d was dropped by a decoupler of %d while at most %d others were on their way", d.key%1000, d.key/1000, size, others)
			}
		}
	}
}

var (
	small = []int{1, 1, 2, 2, 3, 4, 6}
	short = rapid.IntRange(0, 30)
)

// TestMany has more writers, slots and messages, and messages of up to 200000 bytes.
func TestMany(t *testing.T) {
	lens := rapid.Custom(func(rt *rapid.T) int {
		switch rapid.IntRange(0, 19).Draw(rt, "class") {
		case 0:
			return rapid.IntRange(0, 200000).Draw(rt, "long")
		case 1, 2, 3:
			return rapid.IntRange(0, 5000).Draw(rt, "middle")
		}
		return rapid.IntRange(0, 100).Draw(rt, "short")
	})
	pbt.Check(t, pbt.Opts{Quick: 150, Thorough: 8000, CPU: 20, Rule: "the same with up to 24 writers of up to 150 messages of up to 200000 bytes on decouplers of size 1..300"}, concurrent([]int{1, 2, 3, 7, 16, 60, 300}, 24, 150, lens))
}

func TestSched(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 3000, Thorough: 80000, Rule: rule}, concurrent(small, 4, 6, short))
}

func TestRace(t *testing.T) {
	pbt.Check(t, pbt.Opts{Quick: 1500, Thorough: 30000, Rule: rule, CPU: 15}, concurrent(small, 6, 60, short))
}
