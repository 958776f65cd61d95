package gen

import "pgregory.net/rapid"

// Watch says when a case looks at what it works on, and at which part, as looking itself may set right what went wrong.
type Watch struct {
	r     *Rand
	every int
	some  bool
}

// NewWatch draws one that looks always, now and then, or never, at everything or at some of it.
func NewWatch(rt *rapid.T) *Watch {
	return &Watch{
		r:     NewRand(rt, "watch"),
		every: rapid.SampledFrom([]int{1, 1, 1, 3, 12, 0}).Draw(rt, "every"),
		some:  rapid.Bool().Draw(rt, "some"),
	}
}

// Now reports whether to look.
func (w *Watch) Now() bool { return w.every == 1 || w.every > 1 && w.r.N(w.every) == 0 }

// Part reports whether to look at one part.
func (w *Watch) Part() bool { return !w.some || w.r.N(2) == 0 }

// All makes it look always and at everything.
func (w *Watch) All() { w.every, w.some = 1, false }
