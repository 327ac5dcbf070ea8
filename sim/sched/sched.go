//go:build go1.25

// Package sched is a cooperative seeded scheduler: exactly one simulated task
// runs at a time and gives up control only at seams (database statements,
// network calls, locks).
package sched

import (
	"fmt"
	"runtime/debug"

	"github.com/mutecomm/mute/zzverif/sim"
)

type task struct {
	name   string
	wake   chan bool // true: killed
	done   bool
	killed bool
	gone   bool // the crash panic was raised
	block  func() bool
	where  string
	err    interface{}
	stack  []byte
}

// Sched runs tasks.
type Sched struct {
	R     *sim.Run
	tasks []*task
	cur   *task
	main  chan struct{}
	prop  string
	Steps int
	// OnStep is called in the scheduler before every step.
	OnStep func()
}

var active *Sched

// New makes s the active scheduler. Close must be called.
func New(r *sim.Run, prop string) *Sched {
	s := &Sched{R: r, main: make(chan struct{}), prop: prop}
	active = s
	return s
}

// Close kills all tasks.
func (s *Sched) Close() {
	s.Kill()
	if active == s {
		active = nil
	}
}

// Go starts a task.
func (s *Sched) Go(name string, f func()) {
	t := &task{name: name, wake: make(chan bool), where: "start"}
	s.tasks = append(s.tasks, t)
	go func() {
		defer func() {
			if e := recover(); e != nil {
				t.err, t.stack = e, debug.Stack()
			}
			t.done = true
			s.main <- struct{}{}
		}()
		if <-t.wake {
			t.killed = true
			t.gone = true
			panic(sim.Crash{Where: "start"})
		}
		f()
	}()
}

func (s *Sched) resume(t *task, kill bool) {
	prev := s.cur
	s.cur = t
	t.wake <- kill
	<-s.main
	s.cur = prev
	if t.done {
		for i, x := range s.tasks {
			if x == t {
				s.tasks = append(s.tasks[:i:i], s.tasks[i+1:]...)
				break
			}
		}
	}
}

// Live is the number of unfinished tasks.
func (s *Sched) Live() int { return len(s.tasks) }

// Runnable is the number of tasks that can make a step.
func (s *Sched) runnable() []*task {
	var r []*task
	for _, t := range s.tasks {
		if t.block == nil || !t.block() {
			r = append(r, t)
		}
	}
	return r
}

// Step lets one task run to its next seam. It returns false if there is none.
func (s *Sched) Step() bool {
	if len(s.tasks) == 0 {
		return false
	}
	if s.OnStep != nil {
		s.OnStep()
	}
	run := s.runnable()
	if len(run) == 0 {
		where := ""
		for _, t := range s.tasks {
			where += fmt.Sprintf(" %s at %s;", t.name, t.where)
		}
		s.R.Fail(s.prop, "deadlock", "all operations wait for each other:%s", where)
		return false
	}
	t := run[s.R.Choose(len(run))]
	s.Steps++
	s.R.Shape(t.name[:1] + t.where)
	s.resume(t, false)
	if t.err != nil {
		if sim.IsControl(t.err) {
			if _, crash := t.err.(sim.Crash); !crash {
				panic(t.err)
			}
			return true
		}
		s.R.Fail(s.prop, "panic", "panic in %s: %v\n%s", t.name, t.err, sim.TrimStack(t.stack))
	}
	return true
}

// Run lets tasks run until all are done.
func (s *Sched) Run(max int) bool {
	for i := 0; len(s.tasks) > 0; i++ {
		if i > max {
			return false
		}
		s.Step()
	}
	return true
}

// Kill stops all tasks where they are, as a process crash does.
func (s *Sched) Kill() {
	for len(s.tasks) > 0 {
		t := s.tasks[0]
		t.block = nil
		s.resume(t, true)
	}
}

// InTask reports whether the caller is a simulated task.
func InTask() bool { return active != nil && active.cur != nil }

// Killed reports whether the current task was killed (its deferred functions
// are running).
func Killed() bool { return InTask() && active.cur.killed }

// Name of the current task.
func Name() string {
	if !InTask() {
		return "main"
	}
	return active.cur.name
}

// Yield is a seam: the scheduler decides who runs next. It does not return to
// a task that was killed.
func Yield(where string) {
	if !InTask() {
		return
	}
	if active.cur.killed {
		die(where)
		return
	}
	park(where, nil)
	if active.cur.killed {
		die(where)
	}
}

// Pause is a seam that returns true if the task was killed. It never panics
// and is for callers that cannot be unwound.
func Pause(where string) bool {
	if !InTask() {
		return false
	}
	if !active.cur.killed {
		park(where, nil)
	}
	return active.cur.killed
}

// Alive ends a task that was killed.
func Alive() {
	if InTask() && active.cur.killed {
		die("alive")
	}
}

func die(where string) {
	if active.cur.gone {
		return // deferred functions are running
	}
	active.cur.gone = true
	panic(sim.Crash{Where: where})
}

// Block waits until cond is false. It returns false if the task was killed and
// is already unwinding.
func Block(where string, cond func() bool) bool {
	for cond() {
		if !InTask() {
			return false
		}
		if !active.cur.killed {
			park(where, cond)
		}
		if active.cur.killed {
			die(where)
			return false
		}
	}
	return true
}

func park(where string, cond func() bool) {
	s := active
	t := s.cur
	t.where, t.block = where, cond
	s.main <- struct{}{}
	kill := <-t.wake
	t.block = nil
	if kill {
		t.killed = true
	}
}
