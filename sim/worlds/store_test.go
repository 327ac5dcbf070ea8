//go:build go1.25

package worlds

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/mutecomm/mute/encdb"
	simos "github.com/mutecomm/mute/zzverif/shim/os"
	simsql "github.com/mutecomm/mute/zzverif/shim/sql"
	simtime "github.com/mutecomm/mute/zzverif/shim/time"
	"github.com/mutecomm/mute/zzverif/sim"
)

// storeFaults injects disk errors and crashes into one operation at a time.
type storeFaults struct {
	r       *sim.Run
	armed   bool
	errP    int // per mille per seam
	crashP  int
	dead    bool
	faulted bool
	touched bool // the operation had begun to write
	last    string
}

func isWrite(op, q string) bool {
	q = strings.ToUpper(strings.TrimSpace(q))
	return op == "commit" || strings.HasPrefix(q, "INSERT") || strings.HasPrefix(q, "UPDATE") || strings.HasPrefix(q, "DELETE")
}

func (f *storeFaults) seam(kind, op, what string, e error) error {
	if !f.armed {
		return nil
	}
	if f.dead {
		return simos.ErrDead
	}
	if f.crashP > 0 && f.r.Fault("crash-"+kind+"-"+op, f.crashP, 1000) {
		f.r.Logf("  crash %s %s %s", kind, op, what)
		f.dead, f.faulted = true, true
		return simos.ErrDead
	}
	if f.errP > 0 && f.r.Fault("disk-error-"+kind+"-"+op, f.errP, 1000) {
		f.r.Logf("  disk error %s %s %s", kind, op, what)
		f.faulted = true
		f.last = what
		return e
	}
	return nil
}

func (f *storeFaults) install() {
	r := f.r
	clean := func(p string) string { return strings.Replace(filepath.Base(p), r.Scratch, "", -1) }
	simsql.Hook = func(op, q string) error {
		if op == "open" {
			q = "database"
		}
		return f.seam("before", strings.TrimPrefix(op, "tx-"), simsql.Short(q), simsql.ErrDisk)
	}
	simsql.RowHook = func(string) error { return f.seam("before", "row", "", simsql.ErrDisk) }
	simsql.After = func(op, q string) error {
		if !isWrite(op, q) {
			return nil
		}
		// only a crash can hide the success of a write from the caller
		p := f.errP
		f.errP = 0
		defer func() { f.errP = p }()
		return f.seam("after", strings.TrimPrefix(op, "tx-"), simsql.Short(q), simsql.ErrDisk)
	}
	simos.Hook = func(op, path string) error {
		e := simos.ErrDisk
		if op == "write" || op == "create" {
			e = simos.ErrFull
		}
		return f.seam("before", op, clean(path), e)
	}
	simos.WriteHook = func(path string, n int) (int, error) {
		if !f.armed || f.dead {
			return n, nil
		}
		if f.errP > 0 && n > 1 && r.Fault("short-write", f.errP, 1000) {
			f.faulted = true
			return r.Choose(n), simos.ErrFull
		}
		return n, nil
	}
	simos.AfterHook = func(op, path string) error {
		p := f.errP
		f.errP = 0
		defer func() { f.errP = p }()
		return f.seam("after", op, clean(path), simos.ErrDisk)
	}
	simsql.Enabled = true
	simtime.Enabled = true
	simtime.Set(time.Unix(1500000000, 0))
}

func (f *storeFaults) uninstall() {
	simsql.Hook, simsql.RowHook, simsql.After, simsql.Enabled = nil, nil, nil, false
	simos.Hook, simos.WriteHook, simos.AfterHook = nil, nil, nil
	simsql.Crash()
	simtime.Enabled = false
}

// crash ends the process: uncommitted and unsynced data is lost.
func (f *storeFaults) crash() {
	f.armed = false
	simsql.Crash()
	simos.Crash(func(path string, size int) int {
		k := f.r.Weighted(3, 2, 2)
		n := size
		switch k {
		case 1:
			n = 0
		case 2:
			n = f.r.Choose(size + 1)
		}
		if n < size {
			f.r.CountFault("torn-file")
			f.r.Logf("  unsynced %s: %d of %d bytes survive", filepath.Base(path), n, size)
		}
		return n
	})
	f.dead = false
}

// storeModel is a reference model of a database.
type storeModel[M any] interface {
	clone() M
	getPass() string
	setPass(string)
}

// candStore drives one database and keeps the set of model states it may be in.
type candStore[M storeModel[M]] struct {
	r        *sim.Run
	f        *storeFaults
	name     string
	pass     string
	contents string // property of agreement with the model
	cands    []M
	seq      int
	closed   bool
	dirty    bool // faults since the last comparison

	openDB    func(pass string) error
	createDB  func(pass string, iter int) error
	rekeyDB   func(old, new string, iter int) error
	probe     func() error // a first operation on a half-created database
	dump      func() []string
	modelDump func(M) []string
}

func (w *candStore[M]) prop() string {
	if w.dirty {
		return "C23"
	}
	return w.contents
}

// do runs one operation of the database and its counterpart in the model.
func (w *candStore[M]) do(name string, op func() error, apply func(m M) bool) {
	r := w.r
	r.Logf("%s", name)
	w.f.armed, w.f.faulted = true, false
	var err error
	r.Guard(w.prop(), strings.Fields(name)[0], func() { err = op() })
	crashed := w.f.dead
	faulted := w.f.faulted
	if crashed {
		w.f.crash()
		err = errors.New("crash")
	}
	w.f.armed = false
	var next []M
	for _, c := range w.cands {
		d := c.clone()
		ok := apply(d)
		switch {
		case err == nil:
			if ok {
				next = append(next, d)
			}
		case faulted:
			next = append(next, c)
			if ok {
				next = append(next, d)
			}
		default:
			if !ok {
				next = append(next, c)
			}
		}
	}
	if faulted {
		w.dirty = true
	}
	if err != nil {
		r.Logf("  -> error")
	}
	r.Eval(w.contents)
	if faulted {
		r.Eval("C23")
	}
	if len(next) == 0 {
		if err == nil {
			r.Fail(w.prop(), "accepted:"+strings.Fields(name)[0], "%s succeeded although it must fail", name)
		} else {
			r.Fail(w.prop(), "refused:"+strings.Fields(name)[0], "%s failed: %v", name, err)
		}
		r.Stop()
	}
	w.cands = next
	if crashed {
		w.reopen()
	} else if w.closed {
		return
	}
	if faulted || len(w.cands) > 1 || r.Bool(1, 3) {
		w.compare()
	}
}

func (w *candStore[M]) reopen() {
	ok := false
	seen := map[string]bool{}
	var errs []string
	for _, c := range w.cands {
		if seen[c.getPass()] {
			continue
		}
		seen[c.getPass()] = true
		err := w.openDB(c.getPass())
		if err == nil {
			w.pass = c.getPass()
			ok = true
			break
		}
		errs = append(errs, err.Error())
	}
	w.r.Eval("C23")
	w.r.Eval("C24")
	if !ok {
		p := "C23"
		if w.r.Prop == "C24" {
			p = "C24"
		}
		w.r.Fail(p, "unreadable", "the database cannot be opened again after a crash: %s", strings.Join(errs, "; "))
		w.r.Stop()
	}
	var next []M
	for _, c := range w.cands {
		if c.getPass() == w.pass {
			next = append(next, c)
		}
	}
	w.cands = next
}

func (w *candStore[M]) compare() {
	got := w.dump()
	var next []M
	diff := ""
	for _, c := range w.cands {
		want := w.modelDump(c)
		same := len(got) == len(want)
		for i := 0; same && i < len(got); i++ {
			same = got[i] == want[i]
		}
		if same {
			next = append(next, c)
		} else if diff == "" {
			diff = firstDiff(want, got)
		}
	}
	p := w.prop()
	w.r.Eval(p)
	if len(next) == 0 {
		sig := "contents"
		w.r.Fail(p, sig, "the database differs from every state the operations allow: expected vs found %s", diff)
		w.r.Stop()
	}
	// keep distinct candidates only
	w.cands = next
	if len(w.cands) > 8 {
		w.cands = w.cands[:8]
	}
	w.dirty = false
	w.r.Counter["dumps"]++
}

// rekey changes the passphrase.
func (w *candStore[M]) rekey() {
	r := w.r
	r.Op("rekey")
	w.seq++
	np := fmt.Sprintf("passphrase %d", w.seq)
	op := w.pass
	wrong := r.Bool(1, 6)
	r.Eval("C24")
	w.do(fmt.Sprintf("Rekey wrong=%v", wrong), func() error {
		if wrong {
			return w.rekeyDB(op+"x", np, 1+r.Choose(20))
		}
		return w.rekeyDB(op, np, 1+r.Choose(20))
	}, func(m M) bool {
		if wrong {
			return false
		}
		m.setPass(np)
		return true
	})
	// exactly one passphrase opens the database
	w.onlyKey(np, op, np+"x", op+"x", "")
}

func (w *candStore[M]) onlyKey(tries ...string) {
	r := w.r
	can := map[string]bool{}
	for _, c := range w.cands {
		can[c.getPass()] = true
	}
	n := 0
	opened := ""
	seen := map[string]bool{}
	var last error
	for _, p := range tries {
		if seen[p] {
			continue
		}
		seen[p] = true
		db, err := encdb.Open(w.name, []byte(p))
		if err != nil {
			last = err
			continue
		}
		db.Close()
		n++
		opened = p
		if !can[p] {
			r.Fail("C24", "wrong-passphrase", "passphrase %q opens the database, expected one of %v", p, can)
		}
	}
	r.Eval("C24")
	if n == 0 {
		r.Fail("C24", "locked-out", "no passphrase opens the database: %v", last)
		r.Stop()
	}
	if n > 1 {
		r.Fail("C24", "two-passphrases", "%d passphrases open the database", n)
	}
	w.pass = opened
	var next []M
	for _, c := range w.cands {
		if c.getPass() == opened {
			next = append(next, c)
		}
	}
	w.cands = next
	if len(w.cands) == 0 {
		r.Stop()
	}
}

// create makes the database, possibly interrupted.
func (w *candStore[M]) create() bool {
	r := w.r
	r.Op("create")
	for try := 0; ; try++ {
		w.f.armed, w.f.faulted = true, false
		if try > 3 {
			w.f.armed = false
		}
		var err error
		r.Guard("C23", "Create", func() { err = w.createDB(w.pass, 1+r.Choose(20)) })
		dead := w.f.dead
		if dead {
			err = errors.New("crash")
			w.f.crash()
		}
		w.f.armed = false
		r.Eval("C23")
		if err == nil {
			if r.Bool(1, 3) {
				w.f.crash() // power loss right after
			}
			if err := w.openDB(w.pass); err != nil {
				p := "C23"
				if r.Prop == "C24" {
					p = "C24"
				}
				r.Fail(p, "created", "a created database cannot be opened: %v", err)
				return false
			}
			w.compare()
			if err := w.createDB("other", 1); err == nil {
				r.Fail("C23", "overwritten", "Create succeeded on an existing database")
			}
			return true
		}
		if !w.f.faulted {
			r.Fail(w.contents, "create", "Create failed without a fault: %v", err)
			return false
		}
		// what an interrupted Create left behind either works or does not open
		if err := w.openDB(w.pass); err == nil {
			if err := w.probe(); err != nil {
				r.Fail("C23", "half-created", "an incompletely created database opens but does not work: %v", err)
			}
			simsql.Crash()
		}
		for _, s := range []string{".db", ".key", ".db-journal", ".key.new"} {
			os.Remove(w.name + s)
		}
	}
}

// read runs a read operation without and with faults: with faults it returns
// the same or an error.
func (w *candStore[M]) read(name string, op func() string) {
	r := w.r
	r.Op("read")
	want := op()
	r.Logf("read %s", name)
	w.f.armed, w.f.faulted = true, false
	var got string
	r.Guard("C23", "read:"+strings.Fields(name)[0], func() { got = op() })
	crashed, faulted := w.f.dead, w.f.faulted
	if crashed {
		w.f.crash()
	}
	w.f.armed = false
	r.Eval("C23")
	if got != want && !strings.HasPrefix(got, "error") {
		r.Fail("C23", "wrong-read:"+strings.Fields(name)[0], "%s returned %.300q although %.300q is stored (disk error: %v)", name, got, want, faulted)
	}
	if got != want && !faulted {
		r.Fail("C23", "failed-read:"+strings.Fields(name)[0], "%s failed: %s", name, got)
	}
	if crashed {
		w.reopen()
	}
}

// outcome renders the outcome of a read operation.
func outcome(err error, a ...interface{}) string {
	if err != nil {
		return "error " + err.Error()
	}
	return fmt.Sprintf("%q", a)
}
