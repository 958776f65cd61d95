// Package vsched perturbs schedules. Under an active scheduler every yield point
// (inserted before each statement of the library by the instrument command, and
// in the vsync and vatomic shims) sleeps for a random virtual time inside a
// synctest bubble, so the order in which goroutines take their steps is drawn
// from the generated case and any interleaving of statements can be reached.
package vsched

import (
	"runtime"
	"sync"
	"sync/atomic"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"
)

type state struct {
	mu       sync.Mutex
	rng      uint64
	strategy int
	long     uint64 // of 1000
	longMax  uint64
	yields   int
	budget   int
	live     bool               // livelock: budget exceeded
	taken    map[int64]struct{} // virtual instants at which a goroutine wakes
}

var cur atomic.Pointer[state]
var epoch atomic.Uint64

// Epoch changes whenever a scheduler starts or ends; shims reset their state
// when they see a new epoch (goroutines of an abandoned case never return).
func Epoch() uint64 { return epoch.Load() }

// Active reports whether a scheduler drives the current case.
func Active() bool { return cur.Load() != nil }

func (s *state) next() uint64 {
	s.rng += 0x9e3779b97f4a7c15
	x := s.rng
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

// Y is a yield point.
func Y() {
	s := cur.Load()
	if s == nil {
		return
	}
	s.mu.Lock()
	s.yields++
	if s.yields > s.budget {
		s.live = true
		s.mu.Unlock()
		select {} // stops this goroutine; the bubble reports the deadlock
	}
	var d uint64
	r := s.next()
	switch {
	case s.strategy == 0: // uniform
		d = 1 + r%60
	case s.strategy == 1: // mostly run on, sometimes let the others run
		if r%1000 < s.long {
			d = 1 + (r>>12)%s.longMax
		} else if r%4 == 0 {
			d = 1 + (r>>12)%8
		}
	default: // heavy tail
		if r%1000 < s.long {
			d = 1 + (r>>12)%s.longMax
		} else {
			d = 1 + (r>>12)%24
		}
	}
	if d == 0 {
		s.mu.Unlock()
		return
	}
	s.nap(int64(d))
}

// nap sleeps about d and unlocks s.mu. No two goroutines wake at the same
// instant: only one takes steps at a time, so a case replays as it ran.
func (s *state) nap(d int64) {
	now := time.Now().UnixNano()
	at := now + d
	for {
		if _, ok := s.taken[at]; !ok {
			break
		}
		at++
	}
	s.taken[at] = struct{}{}
	s.mu.Unlock()
	time.Sleep(time.Duration(at - now))
	s.mu.Lock()
	delete(s.taken, at)
	s.mu.Unlock()
}

// Start is the first yield point of the i-th of several goroutines that start
// together.
func Start(i int) {
	if s := cur.Load(); s != nil {
		s.mu.Lock()
		s.nap(int64(i) + 1)
		Y()
	}
}

// Gosched stands in for runtime.Gosched.
func Gosched() {
	if s := cur.Load(); s != nil {
		Y()
		s.mu.Lock()
		s.nap(3)
		return
	}
	runtime.Gosched()
}

// Calm ends the drawn schedule of the current case and lets all goroutines come
// to rest. From then on they run as in a plain bubble.
func Calm() {
	if cur.Swap(nil) != nil {
		time.Sleep(100 * time.Microsecond) // goroutines at yield points
	}
	synctest.Wait()
}

// Opts tunes a scheduled case.
type Opts struct {
	Budget int // yields before the case counts as a livelock (default 400000)
	Quiet  bool
}

// Run executes f inside a synctest bubble under a scheduler drawn from rt.
// Livelocked reports through the returned function.
func Run(rt *rapid.T, o Opts, f func(rt *rapid.T)) {
	if o.Budget == 0 {
		o.Budget = 400000
	}
	s := &state{budget: o.Budget, taken: map[int64]struct{}{}}
	s.rng = rapid.Uint64().Draw(rt, "schedule")
	s.strategy = rapid.SampledFrom([]int{0, 1, 1, 2, 2}).Draw(rt, "strategy")
	s.long = uint64(rapid.SampledFrom([]int{5, 20, 60, 150, 350}).Draw(rt, "longRate"))
	s.longMax = uint64(rapid.SampledFrom([]int{60, 400, 3000, 20000}).Draw(rt, "longMax"))
	epoch.Add(1)
	defer func() {
		cur.Store(nil)
		epoch.Add(1)
		if s.live {
			if r := recover(); r != nil {
				_ = r
			}
			panic("livelock: the schedule exceeded its yield budget without finishing")
		}
	}()
	rapid.SyncTest(rt, func(rt *rapid.T) {
		cur.Store(s)
		defer cur.Store(nil)
		f(rt)
		time.Sleep(10 * time.Millisecond) // virtual time stops when f returns: let goroutines at yield points end
	})
}

// Bubble executes f in a plain synctest bubble (virtual time, no scheduler).
func Bubble(rt *rapid.T, f func(rt *rapid.T)) {
	rapid.SyncTest(rt, f)
}
