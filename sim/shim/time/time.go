//go:build go1.25

// Package time replaces package time: a simulated clock when Enabled.
package time

//shim:base time

import (
	"runtime"
	gosync "sync"
	"sync/atomic"
	"time"
)

// Enabled switches to the simulated clock.
var Enabled bool

var (
	mu  gosync.Mutex
	now time.Time
)

// Set sets the simulated clock.
func Set(t time.Time) { mu.Lock(); now = t; mu.Unlock() }

// Advance moves the simulated clock.
func Advance(d time.Duration) { mu.Lock(); now = now.Add(d); mu.Unlock() }

// OnWake is called after a real (or synctest's) sleep.
var OnWake func()

// OnSleep is called when a process sleeps.
var OnSleep func(d time.Duration)

// Kill ends every goroutine which asks for the time: background work of a
// simulated process which is dead.
var Kill atomic.Bool

// Now replaces time.Now.
func Now() time.Time {
	if Kill.Load() {
		runtime.Goexit()
	}
	if !Enabled {
		return time.Now()
	}
	mu.Lock()
	defer mu.Unlock()
	now = now.Add(time.Microsecond)
	return now
}

// Since replaces time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep replaces time.Sleep: the simulated clock jumps.
func Sleep(d time.Duration) {
	if !Enabled {
		time.Sleep(d)
		if OnWake != nil {
			OnWake()
		}
		return
	}
	Advance(d)
	if OnSleep != nil {
		OnSleep(d)
	}
}

// After replaces time.After.
func After(d time.Duration) <-chan time.Time {
	if !Enabled {
		return time.After(d)
	}
	c := make(chan time.Time, 1)
	Sleep(d)
	c <- Now()
	return c
}

// NewTicker replaces time.NewTicker; under the simulated clock it never fires.
func NewTicker(d time.Duration) *time.Ticker {
	if !Enabled {
		return time.NewTicker(d)
	}
	return &time.Ticker{C: make(chan time.Time)}
}
