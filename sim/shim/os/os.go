//go:build go1.25

// Package os replaces package os: files go through the simulated file system
// (real files in a scratch directory with injected faults and unsynced data
// that a crash can tear), standard descriptors and pipes belong to simulated
// processes.
package os

//shim:base os

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"sort"
	"strconv"
	"strings"
	gosync "sync"
	"syscall"
	"verif.local/getg"
)

// ErrDead is returned for operations of a process that crashed.
var ErrDead = errors.New("sim: process is dead")

// ErrDisk is an injected I/O error.
var ErrDisk error = syscall.EIO

// ErrFull is an injected full disk.
var ErrFull error = syscall.ENOSPC

// Hook is called before every file system operation; op is one of stat, open,
// create, read, write, sync, close, remove, rename, mkdir, readdir.
var Hook func(op, path string) error

// WriteHook may cut a write short: it returns how many bytes reach the file.
var WriteHook func(path string, n int) (int, error)

// AfterHook is called after a successful operation; an error makes the
// operation fail although it took effect.
var AfterHook func(op, path string) error

var (
	mu    gosync.Mutex
	dirty = map[string]bool{}
)

func hook(op, path string) error {
	if Hook != nil {
		return Hook(op, path)
	}
	return nil
}

func after(op, path string) error {
	if AfterHook != nil {
		return AfterHook(op, path)
	}
	return nil
}

func setDirty(path string, v bool) {
	if Hook == nil {
		return
	}
	mu.Lock()
	if v {
		dirty[path] = true
	} else {
		delete(dirty, path)
	}
	mu.Unlock()
}

// Crash loses data which was not synced: choose returns how many bytes of an
// unsynced file survive.
func Crash(choose func(path string, size int) int) {
	mu.Lock()
	var names []string
	for p := range dirty {
		names = append(names, p)
	}
	dirty = map[string]bool{}
	mu.Unlock()
	sort.Strings(names)
	for _, p := range names {
		fi, err := os.Stat(p)
		if err != nil {
			continue
		}
		n := choose(p, int(fi.Size()))
		if n < int(fi.Size()) {
			os.Truncate(p, int64(n))
		}
	}
}

// Flush makes everything written so far durable.
func Flush() { mu.Lock(); dirty = map[string]bool{}; mu.Unlock() }

// File replaces os.File.
type File struct {
	f    *os.File
	name string
	std  int // 1..3: standard descriptor of the calling process
	p    *pipe
	w    bool // write end of p
	out  io.Writer
	in   io.Reader
	once gosync.Once
	shut bool
}

// Standard descriptors.
var (
	Stdin  = &File{std: 1, name: "/dev/stdin"}
	Stdout = &File{std: 2, name: "/dev/stdout"}
	Stderr = &File{std: 3, name: "/dev/stderr"}
)

// Args are the arguments of the simulated build's programs.
var Args = []string{"/usr/bin/sim"}

// Proc is a simulated process.
type Proc struct {
	FD   map[int]*File
	PID  int
	Name string
	Ctx  interface{} // belongs to the simulation

	mu    gosync.Mutex
	dead  bool
	files []*File // opened by the process
}

// Killed is the panic value that ends a process which is dead.
type Killed struct{}

// Turn is called when the calling process has to wait for the scheduler:
// after a read that blocked, at its start, after waiting for a child.
var Turn func(p *Proc)

func turn() {
	if Turn != nil {
		if p := Current(); p != nil {
			Turn(p)
		}
	}
}

// Resume waits for the scheduler.
func Resume() { turn() }

// Track makes f belong to the calling process: it is closed when that ends.
func Track(f *File) {
	if p := Current(); p != nil && f != nil {
		p.mu.Lock()
		p.files = append(p.files, f)
		p.mu.Unlock()
	}
}

// Dead reports whether p was killed.
func (p *Proc) Dead() bool { p.mu.Lock(); defer p.mu.Unlock(); return p.dead }

// Exit closes everything p has open.
func (p *Proc) Exit() {
	p.mu.Lock()
	files := p.files
	p.files = nil
	p.mu.Unlock()
	for _, f := range files {
		f.shutdown()
	}
	var fds []int
	for i := range p.FD {
		fds = append(fds, i)
	}
	sort.Ints(fds)
	for _, i := range fds {
		if f := p.FD[i]; f != nil {
			f.shutdown()
		}
	}
}

// Kill makes p dead: its descriptors are closed and its next operation ends
// it.
func (p *Proc) Kill() {
	p.mu.Lock()
	p.dead = true
	p.mu.Unlock()
	p.Exit()
}

func (f *File) shutdown() {
	if f.p != nil {
		f.p.mu.Lock()
		if !f.shut {
			f.shut = true
			if f.w {
				f.p.writers--
			} else {
				f.p.readers--
			}
		}
		f.p.c.Broadcast()
		f.p.mu.Unlock()
		return
	}
	if !f.shut {
		f.shut = true
		if f.f != nil {
			f.f.Close()
		}
	}
}

func (p *Proc) check() {
	if p != nil && p.Dead() {
		panic(Killed{})
	}
}

var procs gosync.Map // goroutine id -> *Proc

func goid() int64 { return int64(getg.G()) }

// Enter makes the calling goroutine run as p and returns a function that ends
// that.
func Enter(p *Proc) func() {
	id := goid()
	old, had := procs.Load(id)
	procs.Store(id, p)
	return func() {
		if had {
			procs.Store(id, old)
		} else {
			procs.Delete(id)
		}
	}
}

// Current process of the calling goroutine.
func Current() *Proc {
	if p, ok := procs.Load(goid()); ok {
		return p.(*Proc)
	}
	return nil
}

func (f *File) get() *File {
	if f == nil || f.std == 0 {
		return f
	}
	if p := Current(); p != nil {
		return p.FD[f.std-1]
	}
	return nil
}

// Inherit is the file a child process inherits of f: f itself, or what the
// standard descriptor f of the calling process refers to.
func Inherit(f interface{}) interface{} {
	if s, ok := f.(*File); ok {
		return s.get()
	}
	return f
}

// ExitCode is the panic value of Exit.
type ExitCode int

// Exit ends the calling process.
func Exit(code int) { panic(ExitCode(code)) }

// NewFile returns the descriptor fd of the calling process.
func NewFile(fd uintptr, name string) *File {
	if p := Current(); p != nil {
		if f := p.FD[int(fd)]; f != nil {
			return f
		}
		return &File{name: name, shut: true}
	}
	return &File{f: os.NewFile(fd, name), name: name}
}

// Reader makes a file that reads r.
func Reader(name string, r io.Reader) *File { return &File{name: name, in: r} }

// Writer makes a file that writes w.
func Writer(name string, w io.Writer) *File { return &File{name: name, out: w} }

// pipe

type pipe struct {
	mu      gosync.Mutex
	c       *gosync.Cond
	buf     []byte
	writers int
	readers int
}

// Pipe replaces os.Pipe.
func Pipe() (*File, *File, error) {
	if err := hook("pipe", "|"); err != nil {
		return nil, nil, err
	}
	r, w := NewPipe()
	Track(r)
	Track(w)
	return r, w, nil
}

// NewPipe makes a pipe.
func NewPipe() (*File, *File) {
	p := &pipe{writers: 1, readers: 1}
	p.c = gosync.NewCond(&p.mu)
	return &File{name: "|0", p: p}, &File{name: "|1", p: p, w: true}
}

// Dup duplicates a pipe end (as passing it to a child does).
func (f *File) Dup() *File {
	f = f.get()
	if f == nil || f.p == nil || f.shut {
		return f
	}
	f.p.mu.Lock()
	if f.w {
		f.p.writers++
	} else {
		f.p.readers++
	}
	f.p.mu.Unlock()
	return &File{name: f.name, p: f.p, w: f.w}
}

// Read replaces os.File.Read.
func (f *File) Read(b []byte) (int, error) {
	f = f.get()
	switch {
	case f == nil:
		return 0, io.EOF
	case f.shut && f.p == nil:
		return 0, os.ErrClosed
	case f.p != nil:
		Current().check()
		f.p.mu.Lock()
		waited := false
		for len(f.p.buf) == 0 && f.p.writers > 0 && !f.shut {
			f.p.c.Wait()
			waited = true
		}
		if waited {
			f.p.mu.Unlock()
			Current().check()
			turn()
			f.p.mu.Lock()
		}
		defer f.p.mu.Unlock()
		if f.shut {
			return 0, os.ErrClosed
		}
		if len(f.p.buf) == 0 {
			return 0, io.EOF
		}
		n := copy(b, f.p.buf)
		f.p.buf = f.p.buf[n:]
		return n, nil
	case f.in != nil:
		return f.in.Read(b)
	case f.f != nil:
		if err := hook("read", f.name); err != nil {
			return 0, err
		}
		return f.f.Read(b)
	}
	return 0, io.EOF
}

// Write replaces os.File.Write.
func (f *File) Write(b []byte) (int, error) {
	f = f.get()
	switch {
	case f == nil:
		return len(b), nil
	case f.shut:
		return 0, os.ErrClosed
	case f.p != nil:
		Current().check()
		f.p.mu.Lock()
		defer f.p.mu.Unlock()
		if f.p.readers == 0 {
			return 0, syscall.EPIPE
		}
		f.p.buf = append(f.p.buf, b...)
		f.p.c.Broadcast()
		return len(b), nil
	case f.out != nil:
		return f.out.Write(b)
	case f.f != nil:
		if err := hook("write", f.name); err != nil {
			return 0, err
		}
		n, werr := len(b), error(nil)
		if WriteHook != nil {
			n, werr = WriteHook(f.name, len(b))
		}
		m, err := f.f.Write(b[:n])
		setDirty(f.name, true)
		if err == nil {
			err = werr
		}
		if err == nil {
			err = after("write", f.name)
		}
		return m, err
	}
	return len(b), nil
}

// WriteString replaces os.File.WriteString.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Close replaces os.File.Close.
func (f *File) Close() error {
	f = f.get()
	if f == nil {
		return os.ErrInvalid
	}
	if f.shut {
		return os.ErrClosed
	}
	if f.p != nil {
		f.p.mu.Lock()
		f.shut = true
		if f.w {
			f.p.writers--
		} else {
			f.p.readers--
		}
		f.p.c.Broadcast()
		f.p.mu.Unlock()
		return nil
	}
	f.shut = true
	if f.f != nil {
		err := hook("close", f.name)
		if cerr := f.f.Close(); err == nil {
			err = cerr
		}
		return err
	}
	return nil
}

// Sync replaces os.File.Sync.
func (f *File) Sync() error {
	f = f.get()
	if f == nil || f.f == nil {
		return os.ErrInvalid
	}
	if err := hook("sync", f.name); err != nil {
		return err
	}
	setDirty(f.name, false)
	return after("sync", f.name)
}

// Name replaces os.File.Name.
func (f *File) Name() string { return f.name }

// Fd is never a terminal.
func (f *File) Fd() uintptr { return ^uintptr(0) }

// Stat replaces os.File.Stat.
func (f *File) Stat() (fs.FileInfo, error) {
	f = f.get()
	if f == nil || f.f == nil {
		return nil, os.ErrInvalid
	}
	return f.f.Stat()
}

// Seek replaces os.File.Seek.
func (f *File) Seek(off int64, whence int) (int64, error) {
	f = f.get()
	if f == nil || f.f == nil {
		return 0, os.ErrInvalid
	}
	return f.f.Seek(off, whence)
}

// Truncate replaces os.File.Truncate.
func (f *File) Truncate(n int64) error {
	f = f.get()
	if f == nil || f.f == nil {
		return os.ErrInvalid
	}
	if err := hook("write", f.name); err != nil {
		return err
	}
	setDirty(f.name, true)
	return f.f.Truncate(n)
}

// Chmod replaces os.File.Chmod.
func (f *File) Chmod(m fs.FileMode) error {
	f = f.get()
	if f == nil || f.f == nil {
		return os.ErrInvalid
	}
	return f.f.Chmod(m)
}

// OpenFile replaces os.OpenFile.
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	op := "open"
	if flag&os.O_CREATE != 0 {
		op = "create"
	}
	if err := hook(op, name); err != nil {
		return nil, &fs.PathError{Op: op, Path: name, Err: err}
	}
	f, err := os.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	if flag&(os.O_CREATE|os.O_TRUNC) != 0 {
		setDirty(name, true)
	}
	if err := after(op, name); err != nil {
		f.Close()
		return nil, &fs.PathError{Op: op, Path: name, Err: err}
	}
	x := &File{f: f, name: name}
	Track(x)
	return x, nil
}

// Open replaces os.Open.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create replaces os.Create.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// CreateTemp replaces os.CreateTemp.
func CreateTemp(dir, pattern string) (*File, error) {
	if err := hook("create", dir+"/"+pattern); err != nil {
		return nil, err
	}
	if dir == "" {
		dir = os.TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for i := 0; ; i++ { // the name is no source of randomness
		f, err := os.OpenFile(dir+"/"+pre+strconv.Itoa(i)+suf, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if os.IsExist(err) {
			continue
		}
		if err != nil {
			return nil, err
		}
		setDirty(f.Name(), true)
		return &File{f: f, name: f.Name()}, nil
	}
}

// Stat replaces os.Stat.
func Stat(name string) (fs.FileInfo, error) {
	if err := hook("stat", name); err != nil {
		return nil, &fs.PathError{Op: "stat", Path: name, Err: err}
	}
	return os.Stat(name)
}

// Lstat replaces os.Lstat.
func Lstat(name string) (fs.FileInfo, error) {
	if err := hook("stat", name); err != nil {
		return nil, &fs.PathError{Op: "lstat", Path: name, Err: err}
	}
	return os.Lstat(name)
}

// Remove replaces os.Remove.
func Remove(name string) error {
	if err := hook("remove", name); err != nil {
		return &fs.PathError{Op: "remove", Path: name, Err: err}
	}
	if err := os.Remove(name); err != nil {
		return err
	}
	setDirty(name, false)
	return after("remove", name)
}

// RemoveAll replaces os.RemoveAll.
func RemoveAll(name string) error {
	if err := hook("remove", name); err != nil {
		return &fs.PathError{Op: "remove", Path: name, Err: err}
	}
	return os.RemoveAll(name)
}

// Rename replaces os.Rename.
func Rename(from, to string) error {
	if err := hook("rename", to); err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: err}
	}
	if err := os.Rename(from, to); err != nil {
		return err
	}
	mu.Lock()
	d := dirty[from]
	delete(dirty, from)
	delete(dirty, to)
	if d {
		dirty[to] = true
	}
	mu.Unlock()
	return after("rename", to)
}

// MkdirAll replaces os.MkdirAll.
func MkdirAll(name string, perm fs.FileMode) error {
	if err := hook("mkdir", name); err != nil {
		return &fs.PathError{Op: "mkdir", Path: name, Err: err}
	}
	return os.MkdirAll(name, perm)
}

// Mkdir replaces os.Mkdir.
func Mkdir(name string, perm fs.FileMode) error {
	if err := hook("mkdir", name); err != nil {
		return &fs.PathError{Op: "mkdir", Path: name, Err: err}
	}
	return os.Mkdir(name, perm)
}

// ReadFile replaces os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// WriteFile replaces os.WriteFile.
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if cerr := f.Close(); cerr != nil && err == nil {
		err = cerr
	}
	return err
}

// ReadDir replaces os.ReadDir.
func ReadDir(name string) ([]fs.DirEntry, error) {
	if err := hook("readdir", name); err != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	return os.ReadDir(name)
}
