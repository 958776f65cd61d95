// Package vsync mirrors package sync with locks that block durably in a
// synctest bubble and yield to the scheduler around every operation.
package vsync

import (
	"sync"

	"verif.local/harness/vsched"
)

type Locker = sync.Locker
type Map = sync.Map

// core is the state shared by all lock kinds: a tiny real mutex held only for
// bookkeeping, and waiters parked on channels of their own bubble.
type waiter struct {
	ch    chan struct{}
	write bool
}

// RWMutex prefers waiting writers like sync.RWMutex.
type RWMutex struct {
	mu      sync.Mutex
	epoch   uint64
	writer  bool
	readers int
	q       []waiter
}

func (m *RWMutex) enter() {
	m.mu.Lock()
	if e := vsched.Epoch(); e != m.epoch {
		m.epoch, m.writer, m.readers, m.q = e, false, 0, nil
	}
}

func (m *RWMutex) Lock() {
	vsched.Y()
	m.enter()
	if !m.writer && m.readers == 0 && len(m.q) == 0 {
		m.writer = true
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.q = append(m.q, waiter{ch, true})
	m.mu.Unlock()
	<-ch
	vsched.Y()
}

func (m *RWMutex) TryLock() bool {
	vsched.Y()
	m.enter()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) wake() {
	for len(m.q) > 0 {
		w := m.q[0]
		if w.write {
			if m.writer || m.readers > 0 {
				return
			}
			m.writer = true
			m.q = m.q[1:]
			close(w.ch)
			return
		}
		if m.writer {
			return
		}
		m.readers++
		m.q = m.q[1:]
		close(w.ch)
	}
}

func (m *RWMutex) Unlock() {
	vsched.Y()
	m.enter()
	if !m.writer {
		m.mu.Unlock()
		panic("fatal error: sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	// readers that wait go first after a writer, as in sync.RWMutex
	var rd, wr []waiter
	for _, w := range m.q {
		if w.write {
			wr = append(wr, w)
		} else {
			rd = append(rd, w)
		}
	}
	m.q = append(rd, wr...)
	m.wake()
	m.mu.Unlock()
}

func (m *RWMutex) RLock() {
	vsched.Y()
	m.enter()
	if !m.writer && len(m.q) == 0 {
		m.readers++
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.q = append(m.q, waiter{ch, false})
	m.mu.Unlock()
	<-ch
	vsched.Y()
}

func (m *RWMutex) TryRLock() bool {
	vsched.Y()
	m.enter()
	defer m.mu.Unlock()
	if m.writer || len(m.q) > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	vsched.Y()
	m.enter()
	if m.readers == 0 {
		m.mu.Unlock()
		panic("fatal error: sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.wake()
	m.mu.Unlock()
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Mutex is an exclusive lock.
type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }
func (m *Mutex) Unlock()       { m.rw.Unlock() }

// Once runs a function once.
type Once struct {
	m    Mutex
	mu   sync.Mutex
	done bool
}

func (o *Once) isDone() bool { o.mu.Lock(); defer o.mu.Unlock(); return o.done }

func (o *Once) Do(f func()) {
	vsched.Y()
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if o.isDone() {
		return
	}
	defer func() { o.mu.Lock(); o.done = true; o.mu.Unlock() }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	var p any
	var ok bool
	return func() {
		o.Do(func() {
			defer func() {
				if !ok {
					p = recover()
					panic(p)
				}
			}()
			f()
			ok = true
		})
		if !ok {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	run := OnceFunc(func() { v = f() })
	return func() T { run(); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var a T1
	var b T2
	run := OnceFunc(func() { a, b = f() })
	return func() (T1, T2) { run(); return a, b }
}

// WaitGroup mirrors sync.WaitGroup.
type WaitGroup struct {
	mu    sync.Mutex
	epoch uint64
	n     int
	q     []chan struct{}
}

func (g *WaitGroup) Add(d int) {
	vsched.Y()
	g.mu.Lock()
	defer g.mu.Unlock()
	if e := vsched.Epoch(); e != g.epoch {
		g.epoch, g.n, g.q = e, 0, nil
	}
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		for _, c := range g.q {
			close(c)
		}
		g.q = nil
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	go func() {
		defer g.Done()
		f()
	}()
}

func (g *WaitGroup) Wait() {
	vsched.Y()
	g.mu.Lock()
	if g.n == 0 {
		g.mu.Unlock()
		return
	}
	c := make(chan struct{})
	g.q = append(g.q, c)
	g.mu.Unlock()
	<-c
}

// Pool hands out objects put back (most recent first, sometimes an older one,
// sometimes none) or new ones.
type Pool struct {
	New   func() any
	mu    sync.Mutex
	items []any
	n     uint64
}

func (p *Pool) Get() any {
	vsched.Y()
	p.mu.Lock()
	p.n = p.n*6364136223846793005 + 1442695040888963407
	if k := len(p.items); k > 0 && p.n>>60 != 0 {
		i := k - 1
		if p.n>>57&7 == 0 {
			i = int(p.n>>33) % k
		}
		x := p.items[i]
		p.items = append(p.items[:i], p.items[i+1:]...)
		p.mu.Unlock()
		vsched.Y()
		return x
	}
	p.mu.Unlock()
	if p.New == nil {
		return nil
	}
	return p.New()
}

func (p *Pool) Put(x any) {
	vsched.Y()
	if x == nil {
		return
	}
	p.mu.Lock()
	p.items = append(p.items, x)
	p.mu.Unlock()
	vsched.Y()
}

// Cond mirrors sync.Cond.
type Cond struct {
	L  Locker
	mu sync.Mutex
	q  []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.mu.Lock()
	c.q = append(c.q, ch)
	c.mu.Unlock()
	c.L.Unlock()
	<-ch
	vsched.Y()
	c.L.Lock()
}

func (c *Cond) Signal() {
	vsched.Y()
	c.mu.Lock()
	if len(c.q) > 0 {
		close(c.q[0])
		c.q = c.q[1:]
	}
	c.mu.Unlock()
}

func (c *Cond) Broadcast() {
	vsched.Y()
	c.mu.Lock()
	for _, ch := range c.q {
		close(ch)
	}
	c.q = nil
	c.mu.Unlock()
}
