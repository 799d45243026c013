package vrt

import "sync"

// Mutex stands in for sync.Mutex. Blocking on it is blocking on a channel, so
// a stuck goroutine is visible to the (virtual time) deadlock detector and to
// the scheduler. Like sync.Mutex it is not reentrant and panics when an
// unlocked one is unlocked.
type Mutex struct {
	mu sync.Mutex
	ch chan struct{}
}

func (m *Mutex) c() chan struct{} {
	m.mu.Lock()
	if m.ch == nil {
		m.ch = make(chan struct{}, 1)
	}
	c := m.ch
	m.mu.Unlock()
	return c
}
func (m *Mutex) Lock() { m.c() <- struct{}{} }
func (m *Mutex) TryLock() bool {
	select {
	case m.c() <- struct{}{}:
		return true
	default:
		return false
	}
}
func (m *Mutex) Unlock() {
	select {
	case <-m.c():
	default:
		panic("sync: unlock of unlocked mutex")
	}
}

// RWMutex stands in for sync.RWMutex.
type RWMutex struct {
	mu      sync.Mutex
	readers int
	writer  bool
	wait    []chan struct{}
}

func (m *RWMutex) wake() {
	for _, w := range m.wait {
		close(w)
	}
	m.wait = nil
}
func (m *RWMutex) acquire(ok func() bool, take func()) {
	for {
		m.mu.Lock()
		if ok() {
			take()
			m.mu.Unlock()
			return
		}
		w := make(chan struct{})
		m.wait = append(m.wait, w)
		m.mu.Unlock()
		<-w
	}
}
func (m *RWMutex) Lock() {
	m.acquire(func() bool { return !m.writer && m.readers == 0 }, func() { m.writer = true })
}
func (m *RWMutex) RLock() {
	m.acquire(func() bool { return !m.writer }, func() { m.readers++ })
}
func (m *RWMutex) Unlock() {
	m.mu.Lock()
	if !m.writer {
		m.mu.Unlock()
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.writer = false
	m.wake()
	m.mu.Unlock()
}
func (m *RWMutex) RUnlock() {
	m.mu.Lock()
	if m.readers == 0 {
		m.mu.Unlock()
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.wake()
	m.mu.Unlock()
}
func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// Once stands in for sync.Once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
