//go:build go1.25

// Package sync replaces package sync where locks must be visible to the
// simulated scheduler.
package sync

//shim:base sync

import (
	"sync"

	"github.com/mutecomm/mute/zzverif/sched"
)

// Mutex replaces sync.Mutex.
type Mutex struct {
	m    sync.Mutex
	held bool
}

// Lock locks m.
func (m *Mutex) Lock() {
	if sched.InTask() {
		if !sched.Block("lock", func() bool { return m.held }) {
			return
		}
	}
	m.m.Lock()
	m.held = true
}

// TryLock tries to lock m.
func (m *Mutex) TryLock() bool {
	if m.m.TryLock() {
		m.held = true
		return true
	}
	return false
}

// Unlock unlocks m.
func (m *Mutex) Unlock() {
	if !m.held && sched.Killed() {
		return
	}
	m.held = false
	m.m.Unlock()
}

// RWMutex replaces sync.RWMutex.
type RWMutex struct {
	m       sync.RWMutex
	writer  bool
	readers int
	rm      sync.Mutex
}

// Lock locks m for writing.
func (m *RWMutex) Lock() {
	if sched.InTask() {
		if !sched.Block("lock", func() bool { return m.writer || m.readers > 0 }) {
			return
		}
	}
	m.m.Lock()
	m.writer = true
}

// Unlock unlocks m.
func (m *RWMutex) Unlock() {
	if !m.writer && sched.Killed() {
		return
	}
	m.writer = false
	m.m.Unlock()
}

// RLock locks m for reading.
func (m *RWMutex) RLock() {
	if sched.InTask() {
		if !sched.Block("rlock", func() bool { return m.writer }) {
			return
		}
	}
	m.m.RLock()
	m.rm.Lock()
	m.readers++
	m.rm.Unlock()
}

// RUnlock unlocks m.
func (m *RWMutex) RUnlock() {
	if m.readers == 0 && sched.Killed() {
		return
	}
	m.rm.Lock()
	m.readers--
	m.rm.Unlock()
	m.m.RUnlock()
}

// RLocker returns a Locker for reading.
func (m *RWMutex) RLocker() sync.Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

// TryLock tries to lock m.
func (m *RWMutex) TryLock() bool {
	if m.m.TryLock() {
		m.writer = true
		return true
	}
	return false
}

// WaitGroup replaces sync.WaitGroup.
type WaitGroup struct {
	m       sync.Mutex
	n       int
	waiters []chan struct{}
}

// Add adds delta.
func (w *WaitGroup) Add(delta int) {
	w.m.Lock()
	defer w.m.Unlock()
	w.n += delta
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		for _, c := range w.waiters {
			close(c)
		}
		w.waiters = nil
	}
}

// Done decrements the counter.
func (w *WaitGroup) Done() { w.Add(-1) }

// Go runs f.
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	go func() {
		defer w.Done()
		f()
	}()
}

// Wait waits for the counter to be zero.
func (w *WaitGroup) Wait() {
	if sched.InTask() {
		sched.Block("wait", func() bool { w.m.Lock(); defer w.m.Unlock(); return w.n > 0 })
		return
	}
	w.m.Lock()
	if w.n == 0 {
		w.m.Unlock()
		return
	}
	c := make(chan struct{})
	w.waiters = append(w.waiters, c)
	w.m.Unlock()
	<-c
}
