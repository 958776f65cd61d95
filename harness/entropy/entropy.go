// Package entropy stands between the library and crypto/rand.Reader and can record what
// it hands out, or choose the first bytes of it: whatever a random source can return, a
// property of all IVs and salts has to survive. Its import path sorts before the library's, so it is in place before any
// package of the library is initialised.
package entropy

import (
	"crypto/rand"
	"io"
	"sync"
)

type recorder struct {
	mu  sync.Mutex
	src io.Reader
	on  bool
	log []byte

	steered []byte
	used    int

	most int   // at most so many bytes for one Read, if positive
	left int   // bytes until fail
	fail error // nil: no failure
}

var r = &recorder{src: rand.Reader}

func init() { rand.Reader = r }

func (r *recorder) Read(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.most > 0 && len(p) > r.most {
		p = p[:r.most]
	}
	if r.fail != nil && len(p) > r.left {
		n, _ := r.src.Read(p[:r.left])
		r.left = 0
		return n, r.fail
	}
	n, err := r.src.Read(p)
	r.left -= n
	if k := copy(p[:n], r.steered); k > 0 {
		r.steered = r.steered[k:]
		r.used += k
	}
	if r.on {
		r.log = append(r.log, p[:n]...)
	}
	return n, err
}

// Record starts a new record; the function it returns ends it and returns the bytes handed out.
func Record() func() []byte {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.on, r.log = true, nil
	return func() []byte {
		r.mu.Lock()
		defer r.mu.Unlock()
		r.on = false
		return r.log
	}
}

// Steer makes b the next bytes handed out; the function it returns ends that and tells how many were.
func Steer(b []byte) func() int {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.steered, r.used = append([]byte(nil), b...), 0
	return func() int {
		r.mu.Lock()
		defer r.mu.Unlock()
		r.steered = nil
		return r.used
	}
}

// Short makes every Read hand out at most n bytes, as an io.Reader may; the function it returns ends that.
func Short(n int) func() {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.most = n
	return func() {
		r.mu.Lock()
		defer r.mu.Unlock()
		r.most = 0
	}
}

// Fail makes the source fail with err after n more bytes, and ever after.
func Fail(n int, err error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.left, r.fail = n, err
}
