//go:build go1.25

// Package sql replaces package database/sql: databases are opened through the
// simulated disk (see Hook).
package sql

//shim:base database/sql

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"strings"
	gosync "sync"

	sqlite "github.com/mutecomm/go-sqlcipher/v4"
)

// ErrDead is returned for operations of a process that crashed.
var ErrDead = errors.New("sim: process is dead")

// ErrDisk is an injected disk error.
var ErrDisk = errors.New("sim: disk I/O error")

// Hook is called before every database operation; op is one of open, exec,
// query, begin, commit; exec and query in a transaction are tx-exec, tx-query.
var Hook func(op, query string) error

// RowHook is called before every row that is read.
var RowHook func(query string) error

// After is called after every successful statement and commit; an error makes
// it fail although it took effect.
var After func(op, query string) error

func (c *conn) after(op, q string) error {
	if After == nil {
		return nil
	}
	if c.intx && op != "commit" {
		op = "tx-" + op
	}
	return After(op, q)
}

// Enabled routes sql.Open through the simulated disk.
var Enabled bool

var (
	mu    gosync.Mutex
	epoch int
	conns = map[*conn]bool{}
	txs   []owned // begun and possibly unfinished
	dbs   = map[*DB]bool{}
)

type owned struct {
	tx    *sql.Tx
	owner interface{}
}

// Owner identifies the process that opens a database.
var Owner func() interface{}

func owner() interface{} {
	if Owner == nil {
		return nil
	}
	return Owner()
}

// DB replaces sql.DB: it knows the transactions begun on it.
type DB struct {
	*sql.DB
	owner interface{}
}

// Close replaces DB.Close.
func (db *DB) Close() error {
	mu.Lock()
	delete(dbs, db)
	mu.Unlock()
	return db.DB.Close()
}

// CloseOwned closes what a process has open, as the end of the process does.
func CloseOwned(o interface{}) {
	mu.Lock()
	for c := range conns {
		if c.owner == o {
			c.gone = true
			for s := range c.stmts {
				s.Close()
			}
			c.c.Close()
			delete(conns, c)
		}
	}
	var mine, rest []owned
	for _, t := range txs {
		if t.owner == o {
			mine = append(mine, t)
		} else {
			rest = append(rest, t)
		}
	}
	txs = rest
	var close []*DB
	for db := range dbs {
		if db.owner == o {
			close = append(close, db)
			delete(dbs, db)
		}
	}
	mu.Unlock()
	for _, t := range mine {
		t.tx.Rollback()
	}
	for _, db := range close {
		db.DB.Close()
	}
}

// Open replaces sql.Open.
func Open(driverName, dsn string) (*DB, error) {
	if driverName == "sqlite3" && Enabled {
		driverName = "simsqlite3"
	}
	db, err := sql.Open(driverName, dsn)
	if err != nil {
		return nil, err
	}
	x := &DB{DB: db, owner: owner()}
	if x.owner != nil {
		mu.Lock()
		dbs[x] = true
		mu.Unlock()
	}
	return x, nil
}

// Begin replaces DB.Begin.
func (db *DB) Begin() (*sql.Tx, error) {
	tx, err := db.DB.Begin()
	if err == nil {
		mu.Lock()
		txs = append(txs, owned{tx, db.owner})
		mu.Unlock()
	}
	return tx, err
}

// BeginTx replaces DB.BeginTx.
func (db *DB) BeginTx(ctx context.Context, o *sql.TxOptions) (*sql.Tx, error) {
	tx, err := db.DB.BeginTx(ctx, o)
	if err == nil {
		mu.Lock()
		txs = append(txs, owned{tx, db.owner})
		mu.Unlock()
	}
	return tx, err
}

// Crash makes all open connections unusable and physically closes them:
// uncommitted transactions are lost.
func Crash() {
	mu.Lock()
	epoch++
	for c := range conns {
		for s := range c.stmts {
			s.Close()
		}
		c.c.Close()
	}
	conns = map[*conn]bool{}
	old := txs
	txs = nil
	mu.Unlock()
	for _, t := range old {
		t.tx.Rollback() // releases the goroutine that waits for the end of tx
	}
}

// OpenConns is the number of open connections.
func OpenConns() int {
	mu.Lock()
	defer mu.Unlock()
	return len(conns)
}

type drv struct{ d sqlite.SQLiteDriver }

func init() { sql.Register("simsqlite3", &drv{}) }

func hook(op, query string) error {
	if Hook != nil {
		return Hook(op, query)
	}
	return nil
}

func (d *drv) Open(dsn string) (driver.Conn, error) {
	if err := hook("open", dsn); err != nil {
		return nil, err
	}
	c, err := d.d.Open(dsn)
	if err != nil {
		return nil, err
	}
	// waiting for locks is up to the simulated scheduler
	if _, err := c.(*sqlite.SQLiteConn).Exec("PRAGMA busy_timeout = 0;", nil); err != nil {
		c.Close()
		return nil, err
	}
	mu.Lock()
	defer mu.Unlock()
	x := &conn{c: c.(*sqlite.SQLiteConn), epoch: epoch, owner: owner(), stmts: map[driver.Stmt]bool{}}
	conns[x] = true
	return x, nil
}

type conn struct {
	c     *sqlite.SQLiteConn
	epoch int
	owner interface{}
	gone  bool
	intx  bool
	stmts map[driver.Stmt]bool
}

func (c *conn) dead() bool { mu.Lock(); defer mu.Unlock(); return c.gone || c.epoch != epoch }

func (c *conn) check(op, q string) error {
	if c.dead() {
		return ErrDead
	}
	if c.intx {
		op = "tx-" + op
	}
	if err := hook(op, q); err != nil {
		return err
	}
	if c.dead() {
		return ErrDead
	}
	return nil
}

// Wait is called when a statement finds the database locked by another
// connection; it returns false to give up (SQLITE_BUSY).
var Wait func(try int) bool

// retry repeats f while the database is locked.
func (c *conn) retry(f func() error) error {
	for i := 0; ; i++ {
		err := f()
		e, ok := err.(sqlite.Error)
		if !ok || (e.Code != sqlite.ErrBusy && e.Code != sqlite.ErrLocked) || Wait == nil || !Wait(i) {
			return err
		}
		if c.dead() {
			return ErrDead
		}
	}
}

func (c *conn) Prepare(q string) (driver.Stmt, error) {
	if c.dead() {
		return nil, ErrDead
	}
	s, err := c.c.Prepare(q)
	if err != nil {
		return nil, err
	}
	mu.Lock()
	c.stmts[s] = true
	mu.Unlock()
	return &stmt{c: c, s: s, q: q}, nil
}

func (c *conn) Close() error {
	mu.Lock()
	delete(conns, c)
	dead := c.gone || c.epoch != epoch
	mu.Unlock()
	if dead {
		return nil
	}
	return c.c.Close()
}

func (c *conn) Begin() (driver.Tx, error) {
	if err := c.check("begin", "BEGIN"); err != nil {
		return nil, err
	}
	var t driver.Tx
	err := c.retry(func() (err error) { t, err = c.c.Begin(); return })
	if err != nil {
		return nil, err
	}
	c.intx = true
	return &tx{c: c, t: t}, nil
}

func (c *conn) Exec(q string, args []driver.Value) (driver.Result, error) {
	if err := c.check("exec", q); err != nil {
		return nil, err
	}
	var res driver.Result
	err := c.retry(func() (err error) { res, err = c.c.Exec(q, args); return })
	if err == nil {
		err = c.after("exec", q)
	}
	return res, err
}

func (c *conn) Query(q string, args []driver.Value) (driver.Rows, error) {
	if err := c.check("query", q); err != nil {
		return nil, err
	}
	return c.load(func() (driver.Rows, error) { return c.c.Query(q, args) })
}

// load runs a query and reads all rows, so that no cursor stays open across a
// seam.
func (c *conn) load(query func() (driver.Rows, error)) (driver.Rows, error) {
	var out *rows
	err := c.retry(func() error {
		r, err := query()
		if err != nil {
			return err
		}
		defer r.Close()
		out = &rows{cols: r.Columns()}
		for {
			d := make([]driver.Value, len(out.cols))
			if err := r.Next(d); err != nil {
				if err == io.EOF {
					return nil
				}
				if e, ok := err.(sqlite.Error); ok && (e.Code == sqlite.ErrBusy || e.Code == sqlite.ErrLocked) {
					return err
				}
				out.err = err
				return nil
			}
			for i, v := range d {
				if b, ok := v.([]byte); ok {
					d[i] = append([]byte{}, b...)
				}
			}
			out.data = append(out.data, d)
		}
	})
	if err != nil {
		return nil, err
	}
	return out, nil
}

type tx struct {
	c *conn
	t driver.Tx
}

func (t *tx) Commit() error {
	defer func() { t.c.intx = false }()
	if t.c.dead() {
		return ErrDead
	}
	if err := hook("commit", "COMMIT"); err != nil {
		if !t.c.dead() {
			t.t.Rollback()
		}
		return err
	}
	if t.c.dead() {
		return ErrDead
	}
	// as SQLiteTx.Commit, which would roll back if it has to wait
	err := t.c.retry(func() error { _, err := t.c.c.Exec("COMMIT", nil); return err })
	if err != nil && !t.c.dead() {
		t.t.Rollback()
	}
	if err == nil {
		err = t.c.after("commit", "COMMIT")
	}
	return err
}

func (t *tx) Rollback() error {
	t.c.intx = false
	if t.c.dead() {
		return ErrDead
	}
	return t.t.Rollback()
}

type stmt struct {
	c *conn
	s driver.Stmt
	q string
}

func (s *stmt) Close() error {
	if s.c.dead() {
		return nil
	}
	mu.Lock()
	delete(s.c.stmts, s.s)
	mu.Unlock()
	return s.s.Close()
}
func (s *stmt) NumInput() int { return s.s.NumInput() }
func (s *stmt) Exec(args []driver.Value) (driver.Result, error) {
	if err := s.c.check("exec", s.q); err != nil {
		return nil, err
	}
	var res driver.Result
	err := s.c.retry(func() (err error) { res, err = s.s.Exec(args); return })
	if err == nil {
		err = s.c.after("exec", s.q)
	}
	return res, err
}
func (s *stmt) Query(args []driver.Value) (driver.Rows, error) {
	if err := s.c.check("query", s.q); err != nil {
		return nil, err
	}
	return s.c.load(func() (driver.Rows, error) { return s.s.Query(args) })
}

type rows struct {
	cols []string
	q    string
	data [][]driver.Value
	i    int
	err  error
}

func (r *rows) Columns() []string { return r.cols }
func (r *rows) Close() error      { return nil }
func (r *rows) Next(dest []driver.Value) error {
	if RowHook != nil {
		if err := RowHook(r.q); err != nil {
			return err
		}
	}
	if r.i >= len(r.data) {
		if r.err != nil {
			return r.err
		}
		return io.EOF
	}
	copy(dest, r.data[r.i])
	r.i++
	return nil
}

// Short abbreviates a query for the event log.
func Short(q string) string {
	f := strings.Fields(q)
	if len(f) > 4 {
		f = f[:4]
	}
	return fmt.Sprint(strings.Join(f, " "))
}
