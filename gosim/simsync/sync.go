// Package simsync stands in for package sync.
package simsync

import (
	real "sync"

	"possumsim/sched"
)

type Locker = real.Locker

type waiters []*sched.G

func (w *waiters) wait(on string) {
	*w = append(*w, sched.S.Cur)
	sched.Block(on)
}

func (w *waiters) wake() {
	for _, g := range *w {
		sched.Wake(g)
	}
	*w = nil
}

type Mutex struct {
	held bool
	w    waiters
}

func (m *Mutex) Lock() {
	sched.Point()
	for m.held {
		m.w.wait("Mutex")
	}
	m.held = true
}

func (m *Mutex) TryLock() bool {
	sched.Point()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.held {
		panic(sched.Fatal("sync: unlock of unlocked mutex"))
	}
	m.held = false
	m.w.wake()
	sched.Point()
}

// RWMutex: a waiting writer keeps new readers out.
type RWMutex struct {
	readers int
	writer  bool
	waiting int
	w       waiters
}

func (m *RWMutex) RLock() {
	sched.Point()
	for m.writer || m.waiting > 0 {
		m.w.wait("RWMutex.RLock")
	}
	m.readers++
}

func (m *RWMutex) TryRLock() bool {
	sched.Point()
	if m.writer || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		panic(sched.Fatal("sync: RUnlock of unlocked RWMutex"))
	}
	m.readers--
	m.w.wake()
	sched.Point()
}

func (m *RWMutex) Lock() {
	sched.Point()
	for m.writer || m.readers > 0 {
		m.waiting++
		m.w.wait("RWMutex.Lock")
		m.waiting--
	}
	m.writer = true
}

func (m *RWMutex) TryLock() bool {
	sched.Point()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	if !m.writer {
		panic(sched.Fatal("sync: Unlock of unlocked RWMutex"))
	}
	m.writer = false
	m.w.wake()
	sched.Point()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	n int
	w waiters
}

func (g *WaitGroup) Add(n int) {
	sched.Point()
	g.n += n
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if g.n == 0 {
		g.w.wake()
	}
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	sched.Point()
	for g.n > 0 {
		g.w.wait("WaitGroup")
	}
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	sched.Go(func() { defer g.Done(); f() })
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	sched.Point()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var t T
	return func() T { o.Do(func() { t = f() }); return t }
}

func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var t T
	var u U
	return func() (T, U) { o.Do(func() { t, u = f() }); return t, u }
}

type Cond struct {
	L Locker
	w waiters
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	g := sched.S.Cur
	c.w = append(c.w, g)
	in := func() bool {
		for _, x := range c.w {
			if x == g {
				return true
			}
		}
		return false
	}
	c.L.Unlock()
	if in() {
		sched.Block("Cond")
	}
	c.L.Lock()
}

func (c *Cond) Signal() {
	sched.Point()
	if len(c.w) > 0 {
		sched.Wake(c.w[0])
		c.w = c.w[1:]
	}
}

func (c *Cond) Broadcast() {
	sched.Point()
	c.w.wake()
}

// Map and Pool: each call is one step.
type Map struct{ m real.Map }

func (m *Map) Load(k any) (any, bool)           { sched.Point(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { sched.Point(); m.m.Store(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) { sched.Point(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { sched.Point(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { sched.Point(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { sched.Point(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { sched.Point(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { sched.Point(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool)      { sched.Point(); m.m.Range(f) }

type Pool struct {
	New func() any
	l   []any
}

func (p *Pool) Get() any {
	sched.Point()
	if n := len(p.l); n > 0 {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(x any) { sched.Point(); p.l = append(p.l, x) }
