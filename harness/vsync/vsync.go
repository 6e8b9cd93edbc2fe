// Package vsync stands in for package sync in the instrumented code: the same
// semantics, but goroutines that wait do so on channels, which a synctest
// bubble recognises as blocked.
package vsync

import "sync"

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Map       = sync.Map
	Pool      = sync.Pool
)

func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[T, U any](f func() (T, U)) func() (T, U) { return sync.OnceValues(f) }
func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }

type Mutex struct {
	mu     sync.Mutex
	locked bool
	wait   []chan struct{}
}

func (m *Mutex) Lock() {
	m.mu.Lock()
	if !m.locked {
		m.locked = true
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.wait = append(m.wait, ch)
	m.mu.Unlock()
	<-ch
}

func (m *Mutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	if len(m.wait) > 0 {
		ch := m.wait[0]
		m.wait = m.wait[1:]
		close(ch)
		return
	}
	m.locked = false
}

// RWMutex: readers are serialised only against writers.
type RWMutex struct {
	mu      sync.Mutex
	readers int
	writer  bool
	wait    []rwWaiter
}

type rwWaiter struct {
	write bool
	ch    chan struct{}
}

func (m *RWMutex) Lock() {
	m.mu.Lock()
	if !m.writer && m.readers == 0 {
		m.writer = true
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.wait = append(m.wait, rwWaiter{true, ch})
	m.mu.Unlock()
	<-ch
}
func (m *RWMutex) RLock() {
	m.mu.Lock()
	if !m.writer && len(m.wait) == 0 {
		m.readers++
		m.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	m.wait = append(m.wait, rwWaiter{false, ch})
	m.mu.Unlock()
	<-ch
}
func (m *RWMutex) wake() {
	for len(m.wait) > 0 {
		w := m.wait[0]
		if w.write {
			if m.readers > 0 || m.writer {
				return
			}
			m.writer = true
		} else {
			if m.writer {
				return
			}
			m.readers++
		}
		m.wait = m.wait[1:]
		close(w.ch)
		if w.write {
			return
		}
	}
}
func (m *RWMutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.writer {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.wake()
}
func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.readers == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.wake()
}
func (m *RWMutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || m.readers > 0 {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.writer || len(m.wait) > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Cond with the registration-before-unlock rule of sync.Cond.
type Cond struct {
	L    Locker
	mu   sync.Mutex
	wait []chan struct{}
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	ch := make(chan struct{})
	c.mu.Lock()
	c.wait = append(c.wait, ch)
	c.mu.Unlock()
	c.L.Unlock()
	<-ch
	c.L.Lock()
}
func (c *Cond) Signal() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.wait) > 0 {
		close(c.wait[0])
		c.wait = c.wait[1:]
	}
}
func (c *Cond) Broadcast() {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, ch := range c.wait {
		close(ch)
	}
	c.wait = nil
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
