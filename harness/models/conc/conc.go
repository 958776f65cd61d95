// Package conc runs concurrent parts of a case and records their histories.
package conc

import (
	"fmt"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"time"

	"pgregory.net/rapid"
	"verif.local/harness/pbt"
	"verif.local/harness/vsched"
)

// Run executes f under a drawn schedule in the sched build and directly otherwise.
func Run(rt *rapid.T, f func(rt *rapid.T)) {
	if pbt.Build() == "sched" {
		vsched.Run(rt, vsched.Opts{}, f)
		return
	}
	f(rt)
}

// Par runs the functions in goroutines and waits for all. A panic of one is
// raised again in the caller.
func Par(fs ...func()) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var msg string
	start := make(chan struct{})
	for i, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					if msg == "" {
						msg = fmt.Sprintf("%v\n%s", r, debug.Stack())
					}
					mu.Unlock()
				}
			}()
			<-start
			vsched.Start(i)
			f()
		}()
	}
	close(start)
	wg.Wait()
	if msg != "" {
		panic(msg)
	}
}

// Clock orders the calls and returns of one case.
type Clock struct{ n atomic.Int64 }

// Tick returns the next instant.
func (c *Clock) Tick() int64 { return c.n.Add(1) }

// Errs collects failures found by goroutines.
type Errs struct {
	mu sync.Mutex
	es []string
}

// Addf records a failure.
func (e *Errs) Addf(format string, args ...any) {
	e.mu.Lock()
	e.es = append(e.es, fmt.Sprintf(format, args...))
	e.mu.Unlock()
}

// Check fails the case with the first failure.
func (e *Errs) Check(rt *rapid.T) {
	rt.Helper()
	e.mu.Lock()
	defer e.mu.Unlock()
	if len(e.es) > 0 {
		rt.Fatalf("%s", e.es[0])
	}
}

// Await waits in real time for cond. It gives up after half a minute in which it
// looked thousands of times.
func Await(cond func() bool) bool {
	start := time.Now()
	for i := 0; ; i++ {
		if cond() {
			return true
		}
		if i > 5000 && time.Since(start) > 30*time.Second {
			return false
		}
		if i < 1000 {
			time.Sleep(20 * time.Microsecond)
		} else {
			time.Sleep(2 * time.Millisecond)
		}
	}
}
