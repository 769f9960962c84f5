package vrand

import (
	"sync"
	"time"
)

// Mutex, RWMutex and Once wait on channels, which the virtual clock of
// testing/synctest understands (a goroutine waiting for a sync.Mutex does not
// count as blocked there).
type gate struct {
	mu sync.Mutex
	ch chan struct{}
}

func (g *gate) wait() <-chan struct{} {
	if g.ch == nil {
		g.ch = make(chan struct{})
	}
	return g.ch
}

func (g *gate) wake() {
	if g.ch != nil {
		close(g.ch)
		g.ch = nil
	}
}

type RWMutex struct {
	g       gate
	locked  bool
	readers int
	waitW   int
}

func (m *RWMutex) Lock() {
	m.g.mu.Lock()
	m.waitW++
	for m.locked || m.readers > 0 {
		c := m.g.wait()
		m.g.mu.Unlock()
		<-c
		m.g.mu.Lock()
	}
	m.waitW--
	m.locked = true
	m.g.mu.Unlock()
}

func (m *RWMutex) TryLock() bool {
	m.g.mu.Lock()
	defer m.g.mu.Unlock()
	if m.locked || m.readers > 0 {
		return false
	}
	m.locked = true
	return true
}

func (m *RWMutex) Unlock() {
	m.g.mu.Lock()
	defer m.g.mu.Unlock()
	if !m.locked {
		panic("fatal error: unlock of unlocked mutex")
	}
	m.locked = false
	m.g.wake()
}

func (m *RWMutex) RLock() {
	m.g.mu.Lock()
	for m.locked || m.waitW > 0 && m.readers == 0 {
		c := m.g.wait()
		m.g.mu.Unlock()
		<-c
		m.g.mu.Lock()
	}
	m.readers++
	m.g.mu.Unlock()
}

func (m *RWMutex) TryRLock() bool {
	m.g.mu.Lock()
	defer m.g.mu.Unlock()
	if m.locked || m.waitW > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	m.g.mu.Lock()
	defer m.g.mu.Unlock()
	if m.readers == 0 {
		panic("fatal error: RUnlock of unlocked RWMutex")
	}
	m.readers--
	m.g.wake()
}

func (m *RWMutex) RLocker() sync.Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }
func (m *Mutex) Unlock()       { m.rw.Unlock() }

type Once struct {
	mu   RWMutex
	done bool
}

func (o *Once) Do(f func()) {
	o.mu.Lock()
	defer o.mu.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// Parks are the delays a recorded schedule put at a place in the source.
var (
	pmu    sync.Mutex
	Parks  map[string][]time.Duration // place -> durations to pick from
	Roll   func(n int) int            // the perturbation's coin
	parked int
)

// Point is called before and after every operation that can wait.
func Point(at string) {
	if Parks == nil {
		return
	}
	pmu.Lock()
	ds, ok := Parks[at]
	if !ok || Roll(3) != 0 {
		pmu.Unlock()
		return
	}
	d := ds[Roll(len(ds))]
	parked++
	pmu.Unlock()
	time.Sleep(d)
	pmu.Lock()
	parked--
	pmu.Unlock()
}

// Parked tells how many goroutines are held back.
func Parked() int {
	pmu.Lock()
	defer pmu.Unlock()
	return parked
}
