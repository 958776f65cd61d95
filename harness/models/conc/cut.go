package conc

import "runtime"

// Ways for a callback to end.
const (
	Returns = iota
	Panics
	Exits // ends its goroutine
)

var Ways = []string{"returns", "panics", "exits"}

type cut struct{}

// End ends the calling callback; for Returns it does nothing.
func End(how int) {
	switch how {
	case Panics:
		panic(cut{})
	case Exits:
		runtime.Goexit()
	}
}

// Ended runs f in a goroutine of its own and reports how it ended. A panic
// that End did not raise is raised again in the caller.
func Ended(f func()) int {
	how := Exits
	var other any
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if how != Exits {
				return
			}
			if r := recover(); r == (cut{}) {
				how = Panics
			} else if r != nil {
				how, other = Panics, r
			}
		}()
		f()
		how = Returns
	}()
	<-done
	if other != nil {
		panic(other)
	}
	return how
}

// Cut runs f and stops a panic raised by End.
func Cut(f func()) (was bool) {
	defer func() {
		if r := recover(); r == (cut{}) {
			was = true
		} else if r != nil {
			panic(r)
		}
	}()
	f()
	return
}
