// Package nsync stands in for package sync in the native replay only: a
// goroutine waiting for a lock there blocks on a channel, which lets the
// replay's virtual clock advance (a goroutine waiting for a real mutex does not
// count as blocked for testing/synctest).
package nsync

import (
	"sync"
)

type (
	Locker    = sync.Locker
	WaitGroup = sync.WaitGroup
	Pool      = sync.Pool
	Map       = sync.Map
	Cond      = sync.Cond
)

func NewCond(l Locker) *Cond   { return sync.NewCond(l) }
func OnceFunc(f func()) func() { return sync.OnceFunc(f) }

type Mutex struct {
	mu   sync.Mutex
	held bool
	wait []chan struct{}
}

func (m *Mutex) Lock() {
	for {
		m.mu.Lock()
		if !m.held {
			m.held = true
			m.mu.Unlock()
			return
		}
		c := make(chan struct{})
		m.wait = append(m.wait, c)
		m.mu.Unlock()
		<-c
	}
}

func (m *Mutex) TryLock() bool {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.held {
		return false
	}
	m.held = true
	return true
}

func (m *Mutex) Unlock() {
	m.mu.Lock()
	defer m.mu.Unlock()
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	m.held = false
	for _, c := range m.wait {
		close(c)
	}
	m.wait = nil
}

type RWMutex struct {
	mu   sync.Mutex
	held bool
	n    int
	wait []chan struct{}
}

func (m *RWMutex) acquire(w bool) {
	for {
		m.mu.Lock()
		if !m.held && (!w || m.n == 0) {
			if w {
				m.held = true
			} else {
				m.n++
			}
			m.mu.Unlock()
			return
		}
		c := make(chan struct{})
		m.wait = append(m.wait, c)
		m.mu.Unlock()
		<-c
	}
}

func (m *RWMutex) release(w bool) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if w && !m.held || !w && m.n == 0 {
		panic("sync: unlock of unlocked RWMutex")
	}
	if w {
		m.held = false
	} else {
		m.n--
	}
	for _, c := range m.wait {
		close(c)
	}
	m.wait = nil
}

func (m *RWMutex) Lock()    { m.acquire(true) }
func (m *RWMutex) Unlock()  { m.release(true) }
func (m *RWMutex) RLock()   { m.acquire(false) }
func (m *RWMutex) RUnlock() { m.release(false) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
