//go:build go1.25

// Package exec replaces package os/exec: programs run as simulated processes.
package exec

//shim:base os/exec

import (
	"errors"
	"fmt"
	"io"
	gosync "sync"

	"github.com/mutecomm/mute/zzverif/shim/os"
)

// Programs that can be started.
var Programs = map[string]func(args []string) int{}

// Hook is called before a process is started.
var Hook func(name string, args []string) error

var running gosync.WaitGroup

// WaitAll waits for all processes.
func WaitAll() { running.Wait() }

// LookPath replaces exec.LookPath.
func LookPath(name string) (string, error) {
	if Programs[name] != nil {
		return "/usr/bin/" + name, nil
	}
	return "", &Error{Name: name, Err: ErrNotFound}
}

// Cmd replaces exec.Cmd.
type Cmd struct {
	Path       string
	Args       []string
	Env        []string
	Dir        string
	Stdin      io.Reader
	Stdout     io.Writer
	Stderr     io.Writer
	ExtraFiles []*os.File
	Process    *Process

	closeAfterWait []*os.File
	childStdin     *os.File
	childOut       *os.File
	childErr       *os.File
	done           chan int
}

// Process replaces os.Process.
type Process struct {
	Pid int
	p   *os.Proc
}

// Kill kills the process.
func (p *Process) Kill() error {
	if p.p != nil {
		p.p.Kill()
		if OnKill != nil {
			OnKill(p.p)
		}
	}
	return nil
}

// OnStart is called for a new process, by its parent; OnExit when it ended, by
// itself; OnKill when it was killed.
var OnStart, OnExit, OnKill func(p *os.Proc)

// Spawn runs prog as process p in a new goroutine; done receives its exit
// code.
func Spawn(p *os.Proc, prog func(args []string) int, args []string) (done chan int) {
	done = make(chan int, 1)
	running.Add(1)
	p.Name = args[0]
	if OnStart != nil {
		OnStart(p)
	}
	go func() {
		defer running.Done()
		leave := os.Enter(p)
		code := Run(func(args []string) int {
			os.Resume()
			return prog(args)
		}, args)
		leave()
		p.Exit()
		if OnExit != nil {
			OnExit(p)
		}
		done <- code
	}()
	return done
}

// Signal does nothing.
func (p *Process) Signal(s os.Signal) error { return nil }

// Release does nothing.
func (p *Process) Release() error { return nil }

// ExitStatus is the error of a process that failed.
type ExitStatus int

func (e ExitStatus) Error() string { return fmt.Sprintf("exit status %d", int(e)) }

// Command replaces exec.Command.
func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}

// StdinPipe replaces Cmd.StdinPipe.
func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	if c.Stdin != nil || c.childStdin != nil {
		return nil, errors.New("exec: Stdin already set")
	}
	r, w := os.NewPipe()
	os.Track(w)
	c.childStdin = r
	c.closeAfterWait = append(c.closeAfterWait, w)
	return w, nil
}

// StdoutPipe replaces Cmd.StdoutPipe.
func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil || c.childOut != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	r, w := os.NewPipe()
	os.Track(r)
	c.childOut = w
	c.closeAfterWait = append(c.closeAfterWait, r)
	return r, nil
}

// StderrPipe replaces Cmd.StderrPipe.
func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil || c.childErr != nil {
		return nil, errors.New("exec: Stderr already set")
	}
	r, w := os.NewPipe()
	os.Track(r)
	c.childErr = w
	c.closeAfterWait = append(c.closeAfterWait, r)
	return r, nil
}

// Start replaces Cmd.Start.
func (c *Cmd) Start() error {
	if c.done != nil {
		return errors.New("exec: already started")
	}
	if Hook != nil {
		if err := Hook(c.Path, c.Args); err != nil {
			return err
		}
	}
	prog := Programs[c.Path]
	if prog == nil {
		return &Error{Name: c.Path, Err: ErrNotFound}
	}
	p := &os.Proc{FD: map[int]*os.File{}}
	switch {
	case c.childStdin != nil:
		p.FD[0] = c.childStdin
	case c.Stdin != nil:
		p.FD[0] = os.Reader("|0", os.Inherit(c.Stdin).(io.Reader))
	}
	switch {
	case c.childOut != nil:
		p.FD[1] = c.childOut
	case c.Stdout != nil:
		p.FD[1] = os.Writer("|1", os.Inherit(c.Stdout).(io.Writer))
	}
	switch {
	case c.childErr != nil:
		p.FD[2] = c.childErr
	case c.Stderr != nil:
		p.FD[2] = os.Writer("|2", os.Inherit(c.Stderr).(io.Writer))
	}
	for i, f := range c.ExtraFiles {
		p.FD[3+i] = f.Dup()
	}
	c.Process = &Process{Pid: 1, p: p}
	c.done = Spawn(p, prog, c.Args)
	c.Process.Pid = p.PID
	return nil
}

// Panic receives panics of simulated processes.
var Panic func(name string, e interface{})

// Run runs a program in the calling goroutine.
func Run(prog func(args []string) int, args []string) (code int) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(os.ExitCode); ok {
				code = int(x)
				return
			}
			if _, ok := e.(os.Killed); ok {
				code = 137
				return
			}
			if p := os.Current(); p != nil && p.Dead() {
				code = 137
				return
			}
			code = 2
			if Panic == nil {
				panic(e)
			}
			Panic(args[0], e)
		}
	}()
	return prog(args)
}

// Wait replaces Cmd.Wait.
func (c *Cmd) Wait() error {
	if c.done == nil {
		return errors.New("exec: not started")
	}
	code := <-c.done
	os.Resume()
	for _, f := range c.closeAfterWait {
		f.Close()
	}
	if code != 0 {
		return ExitStatus(code)
	}
	return nil
}

// Run replaces Cmd.Run.
func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

// Output replaces Cmd.Output.
func (c *Cmd) Output() ([]byte, error) { return nil, errors.New("sim: no such program") }

// CombinedOutput replaces Cmd.CombinedOutput.
func (c *Cmd) CombinedOutput() ([]byte, error) { return nil, errors.New("sim: no such program") }
