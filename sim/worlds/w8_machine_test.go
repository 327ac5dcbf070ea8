//go:build go1.25

package worlds

import (
	"bytes"
	"crypto/tls"
	"errors"
	"fmt"
	nethttp "net/http"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing/synctest"
	"time"

	"github.com/mutecomm/mute/cryptengine"
	"github.com/mutecomm/mute/ctrlengine"
	"github.com/mutecomm/mute/protoengine"
	simexec "github.com/mutecomm/mute/zzverif/shim/exec"
	"github.com/mutecomm/mute/zzverif/shim/http"
	simos "github.com/mutecomm/mute/zzverif/shim/os"
	simsql "github.com/mutecomm/mute/zzverif/shim/sql"
	simtime "github.com/mutecomm/mute/zzverif/shim/time"
	"github.com/mutecomm/mute/zzverif/sim"
)

// vMachine is a simulated computer: the programs mutectrl, mutecrypt and
// muteproto run on it as processes which take turns at every system call,
// database statement and network request; the seed decides whose turn it is
// and which of these operations fail.
type vMachine struct {
	r  *sim.Run
	mu sync.Mutex

	owner   *simos.Proc
	parked  []*vTurn
	alive   map[*simos.Proc]bool
	wake    chan struct{}
	pids    int
	main    *simos.Proc
	on      bool // a command is running
	abort   interface{}
	panics  string
	hung    bool
	downed  bool // everything was killed
	plan    vPlan
	ops     int
	netOps  int
	counts  map[string]int            // operations of the running command, by class
	typical map[string]map[string]int // and of earlier ones
	sigs    map[string]map[string]int // kinds of operations of the running command, by class
	known   map[string]map[string]map[string]int
	boring  map[string]map[string]int // kinds of operations every command does
	key     string
	crashed bool // the command was interrupted
	power   bool // and the computer with it
	stuck   bool // a killed process does not end

	// serve is the network: it returns the reply of the server.
	serve func(req *nethttp.Request, q *rpcRequest) (map[string]interface{}, error)
	// web serves requests which are not JSON-RPC.
	web func(req *nethttp.Request) (*nethttp.Response, error)
	// sqlDone is told the database operations which were done.
	sqlDone func(p *simos.Proc, op, q string)
	// reach reports whether the client trusts the server.
	ca []byte
	// tamper replaces replies.
	tamper func(req *nethttp.Request, q *rpcRequest, res map[string]interface{}) map[string]interface{}
	// seen is told the results which are delivered to a process.
	seen func(q *rpcRequest, res map[string]interface{})
	// mangle makes a malformed reply.
	mangle func(req *nethttp.Request, q *rpcRequest, res map[string]interface{}) *nethttp.Response
}

type vTurn struct {
	p  *simos.Proc
	ch chan struct{}
}

// vPlan says which operation of the running command fails, and how.
type vPlan struct {
	kind string
	sql  bool // only database operations count
	at   int
	sig  string // only operations of this kind count
	mod  uint32 // only operations whose kind hashes to 0 modulo mod count
	salt uint32
	hit  bool
	by   *simos.Proc // the process which was hit
	full bool        // the disk stays full
}

// vCmd is a command of a user.
type vCmd struct {
	prog  string
	args  []string
	stdin []byte
	pass  []string
	cmds  string // command-fd
}

type vResult struct {
	code    int
	out     string
	errs    string
	crashed bool   // the command was interrupted
	faulted bool   // a fault was injected
	hit     string // which
	by      *simos.Proc
}

func (v vResult) ok() bool { return v.code == 0 && !v.crashed }

func vProgram(name string, start func(args []string) error) {
	simexec.Programs[name] = func(args []string) int {
		if err := start(args); err != nil {
			fmt.Fprintf(simos.Stderr, "%s: error: %s\n", args[0], err)
			return 1
		}
		return 0
	}
}

func init() {
	vProgram("mutecrypt", func(args []string) error {
		ce := cryptengine.New()
		defer ce.Close()
		return ce.Start(args)
	})
	vProgram("muteproto", func(args []string) error { return protoengine.New().Run(args) })
	vProgram("mutectrl", func(args []string) error {
		ce := ctrlengine.New()
		defer ce.Close()
		return ce.Start(args)
	})
}

func newMachine(r *sim.Run) *vMachine {
	m := &vMachine{r: r, alive: map[*simos.Proc]bool{}, typical: map[string]map[string]int{}, known: map[string]map[string]map[string]int{}, wake: make(chan struct{}, 1), ca: simCA}
	simsql.Owner = func() interface{} {
		if p := simos.Current(); p != nil {
			return p
		}
		return nil
	}
	simsql.Hook = func(op, q string) error {
		if op == "open" {
			q = "database"
		}
		return m.sqlOp("before", strings.TrimPrefix(op, "tx-"), simsql.Short(q))
	}
	simsql.RowHook = nil
	simsql.After = func(op, q string) error {
		if !isWrite(op, q) {
			return nil
		}
		return m.sqlOp("after", strings.TrimPrefix(op, "tx-"), simsql.Short(q))
	}
	simsql.Wait = func(try int) bool {
		p := simos.Current()
		if p == nil || p.Dead() || try > 20 {
			return false
		}
		m.yield(p)
		return !p.Dead()
	}
	simos.Hook = func(op, path string) error { return m.osOp("before", op, path) }
	simos.AfterHook = func(op, path string) error { return m.osOp("after", op, path) }
	simos.WriteHook = func(path string, n int) (int, error) {
		if m.plan.full && n > 1 && simos.Current() != nil {
			return 0, simos.ErrFull
		}
		return n, nil
	}
	simos.Turn = func(p *simos.Proc) {
		if p.Dead() {
			panic(simos.Killed{})
		}
		m.turn(p)
		if p.Dead() {
			panic(simos.Killed{})
		}
	}
	simtime.OnWake = nil
	simexec.OnStart = func(p *simos.Proc) {
		m.mu.Lock()
		m.pids++
		p.PID = m.pids
		m.alive[p] = true
		m.mu.Unlock()
	}
	simexec.OnExit = func(p *simos.Proc) {
		simsql.CloseOwned(p)
		m.mu.Lock()
		delete(m.alive, p)
		if m.owner == p {
			m.owner = nil
		}
		m.mu.Unlock()
		m.kick()
	}
	simexec.OnKill = func(p *simos.Proc) { m.release(p) }
	simexec.Hook = func(name string, args []string) error {
		p := simos.Current()
		if p == nil {
			return nil
		}
		if p.Dead() {
			return simos.ErrDead
		}
		m.turn(p)
		if p.Dead() {
			return simos.ErrDead
		}
		m.counts["exec"]++
		if m.plan.kind == "exec" && !m.plan.hit {
			if m.plan.at--; m.plan.at < 0 {
				m.plan.hit = true
				r.CountFault("exec-failed")
				return errors.New("fork/exec " + name + ": resource temporarily unavailable")
			}
		}
		return nil
	}
	simexec.Panic = func(name string, e interface{}) {
		m.mu.Lock()
		defer m.mu.Unlock()
		if sim.IsControl(e) {
			if m.abort == nil {
				m.abort = e
			}
			return
		}
		if m.panics == "" {
			m.panics = fmt.Sprintf("%s: %v: %s", name, e, sim.TrimStack(debug.Stack()))
		}
	}
	http.Handler = m.handle
	simsql.Enabled = true
	simtime.Enabled = false
	return m
}

func (m *vMachine) close() {
	m.on = false
	simsql.Hook, simsql.After, simsql.Wait, simsql.Owner, simsql.Enabled = nil, nil, nil, nil, false
	simos.Hook, simos.AfterHook, simos.WriteHook, simos.Turn = nil, nil, nil, nil
	simexec.OnStart, simexec.OnExit, simexec.OnKill, simexec.Hook, simexec.Panic = nil, nil, nil, nil, nil
	http.Handler = nil
	simsql.Crash()
	simos.Flush()
}

func (m *vMachine) kick() {
	select {
	case m.wake <- struct{}{}:
	default:
	}
}

// turn returns when it is p's turn.
func (m *vMachine) turn(p *simos.Proc) {
	m.mu.Lock()
	if m.owner == p && !m.r.Bool(1, 64) {
		m.mu.Unlock()
		return
	}
	m.park(p)
}

// yield lets others run.
func (m *vMachine) yield(p *simos.Proc) {
	m.mu.Lock()
	m.park(p)
}

func (m *vMachine) park(p *simos.Proc) {
	if m.owner == p {
		m.owner = nil
	}
	t := &vTurn{p, make(chan struct{})}
	m.parked = append(m.parked, t)
	m.mu.Unlock()
	m.kick()
	<-t.ch
}

// release wakes up a process which was killed.
func (m *vMachine) release(p *simos.Proc) {
	m.mu.Lock()
	defer m.mu.Unlock()
	var rest []*vTurn
	for _, t := range m.parked {
		if t.p == p {
			close(t.ch)
		} else {
			rest = append(rest, t)
		}
	}
	m.parked = rest
}

// killAll is the end of all processes: the computer stops.
func (m *vMachine) killAll() {
	m.mu.Lock()
	m.downed = true
	var ps []*simos.Proc
	for p := range m.alive {
		ps = append(ps, p)
	}
	m.mu.Unlock()
	sort.Slice(ps, func(i, j int) bool { return ps[i].PID < ps[j].PID })
	for _, p := range ps {
		p.Kill()
		m.release(p)
	}
}

// step counts an operation and injects the planned fault.
func (m *vMachine) step(p *simos.Proc, when, op, what string, write, sqlOp bool) (string, bool) {
	pl := &m.plan
	class := "os"
	if sqlOp {
		class = "sql"
	}
	sig := vSig(p, op, what)
	if when == "before" {
		m.count(class, sig)
		if write {
			m.count(class+"-write", sig)
		}
	} else {
		m.count(class+"-after", sig)
	}
	if pl.hit {
		return "", pl.full && write && when == "before"
	}
	switch pl.kind {
	case "crash", "kill-main", "kill-child":
		if when == "after" {
			return "", false
		}
	case "crash-after", "kill-main-after", "kill-child-after":
		if when == "before" {
			return "", false
		}
	case "disk", "disk-write", "full":
		if when == "after" || (pl.kind != "disk" && !write) {
			return "", false
		}
	default:
		return "", false
	}
	if strings.HasPrefix(pl.kind, "kill-child") && p == m.main {
		return "", false
	}
	if pl.sql != sqlOp || !pl.counts(sig) {
		return "", false
	}
	if pl.at--; pl.at >= 0 {
		return "", false
	}
	pl.hit, pl.by = true, p
	m.r.CountFault(pl.kind + "-" + op)
	m.r.Logf("  %s %s %s %s in %s %s", pl.kind, when, op, what, p.Name, "")
	switch pl.kind {
	case "crash", "crash-after":
		m.crashed, m.power = true, true
		m.killAll()
		return "dead", false
	case "kill-main", "kill-main-after":
		m.crashed = true
		m.main.Kill()
		m.release(m.main)
		if p == m.main {
			return "dead", false
		}
		return "", false
	case "kill-child", "kill-child-after":
		p.Kill()
		return "dead", false
	case "full":
		pl.full = true
	}
	return "error", true
}

// vSig is the kind of an operation: which program does what, without the data.
func vSig(p *simos.Proc, op, what string) string {
	name := ""
	if p != nil {
		name = p.Name
	}
	b := make([]byte, 0, 80)
	for i := 0; i < len(what) && len(b) < 60; i++ {
		if c := what[i]; c < '0' || c > '9' {
			b = append(b, c)
		}
	}
	return name + " " + op + " " + string(b)
}

func (m *vMachine) count(class, sig string) {
	m.counts[class]++
	if m.sigs[class] == nil {
		m.sigs[class] = map[string]int{}
	}
	m.sigs[class][sig]++
}

// counts reports whether the plan is about operations of this kind.
func (pl *vPlan) counts(sig string) bool {
	if pl.sig != "" {
		return sig == pl.sig
	}
	if pl.mod > 0 {
		h := pl.salt
		for i := 0; i < len(sig); i++ {
			h = (h ^ uint32(sig[i])) * 16777619
		}
		return (h>>8)%pl.mod == 0
	}
	return true
}

func (m *vMachine) gate() (p *simos.Proc, dead bool) {
	p = simos.Current()
	if p == nil || !m.on {
		return nil, false
	}
	if p.Dead() {
		return p, true
	}
	m.turn(p)
	return p, p.Dead()
}

func (m *vMachine) sqlOp(when, op, q string) error {
	p, dead := m.gate()
	if p == nil {
		return nil
	}
	if dead {
		return simsql.ErrDead
	}
	m.ops++
	if when == "after" && m.sqlDone != nil {
		m.sqlDone(p, op, q)
	}
	k, fail := m.step(p, when, op, q, op == "exec" || op == "commit" || op == "begin", true)
	if k == "dead" {
		return simsql.ErrDead
	}
	if fail {
		return simsql.ErrDisk
	}
	return nil
}

func (m *vMachine) osOp(when, op, path string) error {
	p, dead := m.gate()
	if p == nil {
		return nil
	}
	if dead {
		panic(simos.Killed{})
	}
	m.ops++
	write := op == "create" || op == "write" || op == "mkdir" || op == "rename" || op == "sync"
	k, fail := m.step(p, when, op, filepath.Base(path), write, false)
	if k == "dead" {
		panic(simos.Killed{})
	}
	if fail {
		if write {
			return simos.ErrFull
		}
		return simos.ErrDisk
	}
	return nil
}

// netFault decides what happens to a request: "" (nothing), lost, no-reply,
// malformed, server-error, slow, crash, crash-after.
func (m *vMachine) netFault(what string) string {
	m.netOps++
	sig := vSig(nil, "net", what)
	m.count("net", sig)
	pl := &m.plan
	if pl.hit || !strings.HasPrefix(pl.kind, "net-") || !pl.counts(sig) {
		return ""
	}
	if pl.at--; pl.at >= 0 {
		return ""
	}
	pl.hit, pl.by = true, simos.Current()
	m.r.CountFault(pl.kind)
	m.r.Logf("  %s %s", pl.kind, what)
	return strings.TrimPrefix(pl.kind, "net-")
}

func (m *vMachine) handle(req *nethttp.Request, cfg *tls.Config) (*nethttp.Response, error) {
	p, dead := m.gate()
	if dead {
		return nil, http.ErrNet
	}
	if req.URL.Scheme == "https" && !trusts(cfg, m.ca) {
		return nil, errors.New("x509: certificate signed by unknown authority")
	}
	if m.web != nil {
		if res, err := m.web(req); res != nil || err != nil {
			return res, err
		}
	}
	q, err := readRPC(req)
	if err != nil {
		return http.Reply(req, 400, "bad request"), nil
	}
	m.r.Logf("  rpc %s %s", req.URL.Host, q.Method)
	fault := ""
	if p != nil {
		fault = m.netFault(q.Method)
	}
	switch fault {
	case "lost":
		return nil, http.ErrNet
	case "crash":
		m.crashed, m.power = true, true
		m.killAll()
		return nil, http.ErrNet
	case "server-error":
		return rpcReply(req, q, nil, rpcError("internal error")), nil
	case "slow":
		time.Sleep(time.Duration(m.r.Range(1, 600)) * time.Second)
		if p != nil && p.Dead() {
			return nil, http.ErrNet
		}
	}
	res, err := m.serve(req, q)
	if err != nil {
		m.r.Logf("    %s", err)
	}
	switch fault {
	case "no-reply":
		return nil, http.ErrNet
	case "crash-after":
		m.crashed, m.power = true, true
		m.killAll()
		return nil, http.ErrNet
	}
	if err != nil {
		return rpcReply(req, q, nil, err), nil
	}
	if fault == "malformed" {
		if m.mangle != nil {
			return m.mangle(req, q, res), nil
		}
		return mangleSeen(m.r, req, q, res, func(res map[string]interface{}) {
			if m.seen != nil {
				m.seen(q, res)
			}
		}), nil
	}
	if m.tamper != nil && p != nil {
		res = m.tamper(req, q, res)
	}
	if m.seen != nil && p != nil {
		m.seen(q, res)
	}
	return rpcReply(req, q, res, nil), nil
}

// faults a command may meet, and their weights.
var vFaults = []struct {
	kind string
	w    int
}{
	{"crash", 5}, {"crash-after", 5}, {"disk", 3}, {"disk-write", 3}, {"full", 2},
	{"net-lost", 2}, {"net-no-reply", 4}, {"net-malformed", 3}, {"net-server-error", 2}, {"net-slow", 1}, {"net-crash", 1}, {"net-crash-after", 4},
	{"exec", 1}, {"kill-main", 1}, {"kill-main-after", 1}, {"kill-child", 2}, {"kill-child-after", 2},
}

// choosePlan plans a fault with probability num/den for a command like the
// earlier ones with the given key.
func (m *vMachine) choosePlan(num, den int, children bool, key string) {
	m.plan = vPlan{}
	m.key = key
	if m.r.NoFault || !m.r.Bool(num, den) {
		return
	}
	var w []int
	for _, f := range vFaults {
		x := f.w
		if !children && (f.kind == "exec" || strings.HasPrefix(f.kind, "kill-")) {
			x = 0
		}
		w = append(w, x)
	}
	k := vFaults[m.r.Weighted(w...)].kind
	pl := vPlan{kind: k}
	class := ""
	switch {
	case strings.HasPrefix(k, "net-"):
		class = "net"
	case k == "exec":
		class = "exec"
	default:
		pl.sql = m.r.Bool(3, 4)
		class = "os"
		if pl.sql {
			class = "sql"
		}
		switch k {
		case "disk-write", "full":
			class += "-write"
		case "crash-after", "kill-main-after", "kill-child-after":
			class += "-after"
		}
	}
	known := m.known[key][class]
	switch x := m.r.Choose(4); {
	case len(known) == 0 && x < 3:
		pl.mod, pl.salt = uint32(1)<<uint(m.r.Range(2, 7)), uint32(m.r.Choose(1<<30))
	case len(known) > 0 && x < 3:
		// every kind of operation is as likely as any other
		var l []string
		skip := m.boring[class]
		if m.r.Bool(1, 8) {
			skip = nil
		}
		for s := range known {
			if skip[s] > 0 {
				continue
			}
			if !strings.HasPrefix(k, "kill-child") || !strings.HasPrefix(s, "mutectrl ") {
				l = append(l, s)
			}
		}
		if len(l) == 0 {
			return
		}
		sort.Strings(l)
		pl.sig = l[m.r.Choose(len(l))]
		pl.at = m.r.Choose(known[pl.sig])
		if m.r.Bool(1, 2) {
			pl.at = 0
		}
	default:
		n := m.typical[key][class]
		if n == 0 {
			n = 4
		}
		pl.at = m.r.Choose(n + n/8 + 1)
	}
	m.plan = pl
}

// run runs a command to its end.
func (m *vMachine) run(c vCmd) vResult {
	r := m.r
	var out, errs bytes.Buffer
	p := &simos.Proc{FD: map[int]*simos.File{
		0: simos.Reader("stdin", bytes.NewReader(c.stdin)),
		1: simos.Writer("stdout", &out),
		2: simos.Writer("stderr", &errs),
		3: simos.Reader("passphrase", strings.NewReader(strings.Join(c.pass, "\n")+"\n")),
		4: simos.Reader("command", strings.NewReader(c.cmds)),
	}}
	m.ops, m.netOps, m.hung, m.downed, m.crashed, m.power, m.panics, m.abort = 0, 0, false, false, false, false, "", nil
	m.pids = 0
	m.counts = map[string]int{}
	m.sigs = map[string]map[string]int{}
	m.main = p
	m.on = true
	prog := simexec.Programs[c.prog]
	done := simexec.Spawn(p, prog, append([]string{c.prog}, c.args...))
	m.kernel()
	if m.stuck {
		// it is left behind: this run ends here
		m.on = false
		r.Counter["stuck-processes"]++
		r.Logf("  a killed process does not end")
		r.Stop()
	}
	code := <-done
	m.on = false
	if m.abort != nil {
		panic(m.abort)
	}
	hit := ""
	if m.plan.hit {
		hit = m.plan.kind
	}
	res := vResult{code: code, out: out.String(), errs: errs.String(), crashed: m.crashed, faulted: m.plan.hit, hit: hit, by: m.plan.by}
	if m.power {
		simsql.Crash()
		simos.Crash(func(path string, size int) int {
			n := size
			switch r.Weighted(3, 2, 2) {
			case 1:
				n = 0
			case 2:
				n = r.Choose(size + 1)
			}
			r.Logf("  after the crash %s has %d of %d bytes", filepath.Base(path), n, size)
			return n
		})
	}
	if m.key != "" {
		if !m.plan.hit {
			m.typical[m.key] = m.counts
		}
		if m.known[m.key] == nil {
			m.known[m.key] = map[string]map[string]int{}
		}
		for class, s := range m.sigs {
			k := m.known[m.key][class]
			if k == nil {
				k = map[string]int{}
				m.known[m.key][class] = k
			}
			for sig, n := range s {
				if n > k[sig] {
					k[sig] = n
				}
			}
		}
	}
	m.plan, m.key = vPlan{}, ""
	r.Counter["commands"]++
	r.Counter["seam-ops"] += m.ops
	return res
}

// kernel decides whose turn it is until all processes ended.
func (m *vMachine) kernel() {
	for {
		synctest.Wait()
		m.mu.Lock()
		if m.abort != nil && !m.downed {
			m.mu.Unlock()
			m.killAll()
			continue
		}
		if m.owner == nil || true {
			var live []*vTurn
			for _, t := range m.parked {
				live = append(live, t)
			}
			if len(live) > 0 {
				sort.SliceStable(live, func(i, j int) bool { return live[i].p.PID < live[j].p.PID })
				t := live[m.r.Choose(len(live))]
				if len(live) > 1 {
					m.r.Counter["choices-of-process"]++
				}
				for i := range m.parked {
					if m.parked[i] == t {
						m.parked = append(m.parked[:i:i], m.parked[i+1:]...)
						break
					}
				}
				m.owner = t.p
				m.mu.Unlock()
				close(t.ch)
				continue
			}
		}
		n := len(m.alive)
		m.mu.Unlock()
		if n == 0 {
			return
		}
		tm := time.NewTimer(72 * time.Hour)
		select {
		case <-m.wake:
			tm.Stop()
		case <-tm.C:
			m.mu.Lock()
			down := m.downed
			m.mu.Unlock()
			if down {
				m.stuck = true
				return
			}
			m.hung = true
			m.killAll()
		}
	}
}
