//go:build go1.25

// Package sim is the deterministic simulation kernel: a run is a pure function
// of (world, property, seed, choice tape).
package sim

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"hash"
	"runtime/debug"
	"sort"
	"strings"
)

// Violation is a property violation found during a run.
type Violation struct {
	Prop   string `json:"property"`
	Sig    string `json:"signature"` // stable class of the violation
	Detail string `json:"detail"`
	Step   int    `json:"step"`
}

// Run is one simulated execution.
type Run struct {
	World string
	Prop  string // property the check decides ("" = all)
	Tier  string
	Seed  uint64

	tape   []uint32
	replay bool
	rng    uint64

	Rec      []uint32 // recorded choices
	Ops      []int    // positions in Rec where an operation starts
	Log      []string // event log
	LogMax   int
	h        hash.Hash
	shape    hash.Hash // hash of the schedule shape (op and fault kinds only)
	Faults   map[string]int
	Evals    map[string]int // evaluations per property
	Counter  map[string]int // other measures
	Viol     *Violation
	Others   []*Violation
	Known    map[string]string // known findings: prop/sig -> description
	KnownHit map[string]int
	Steps    int
	SimTime  float64 // simulated seconds covered
	NoFault  bool    // fault-free configuration
	Scratch  string  // private scratch directory of this run
	dead     bool
}

type abort struct{}

// New returns a new run.
func New(world, prop, tier string, seed uint64, tape []uint32, replay bool) *Run {
	return &Run{World: world, Prop: prop, Tier: tier, Seed: seed, tape: tape, replay: replay,
		rng: mix(seed*0x9E3779B97F4A7C15 + 0x1234567), LogMax: 4000,
		h: sha256.New(), shape: sha256.New(),
		Faults: map[string]int{}, Evals: map[string]int{}, Counter: map[string]int{},
		KnownHit: map[string]int{}}
}

func (r *Run) next() uint64 {
	r.rng += 0x9E3779B97F4A7C15
	return mix(r.rng)
}

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Choose returns a choice in [0,n). Choice 0 is the simplest one by convention.
func (r *Run) Choose(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	switch {
	case len(r.Rec) < len(r.tape):
		v = r.tape[len(r.Rec)] % uint32(n)
	case r.replay:
		v = 0
	default:
		v = uint32(r.next() % uint64(n))
	}
	r.Rec = append(r.Rec, v)
	return int(v)
}

// Weighted returns an index chosen with the given weights.
func (r *Run) Weighted(w ...int) int {
	sum := 0
	for _, x := range w {
		sum += x
	}
	if sum == 0 {
		return 0
	}
	v := r.Choose(sum)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}

// Bool returns true with probability num/den (false is the simplest choice).
func (r *Run) Bool(num, den int) bool {
	if num <= 0 {
		return false
	}
	return r.Choose(den) >= den-num
}

// Range returns a value in [lo,hi]; lo is the simplest.
func (r *Run) Range(lo, hi int) int { return lo + r.Choose(hi-lo+1) }

// Bytes returns n bytes determined by one choice.
func (r *Run) Bytes(n int) []byte {
	x := uint64(r.Choose(1<<30)) + 1
	b := make([]byte, n)
	for i := range b {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		b[i] = byte(x >> 24)
	}
	return b
}

// Op marks the start of an operation (a unit for minimisation).
func (r *Run) Op(kind string) {
	r.Steps++
	r.Ops = append(r.Ops, len(r.Rec))
	r.shape.Write([]byte(kind))
	r.shape.Write([]byte{0})
}

// Shape adds a schedule-shape element without starting an operation.
func (r *Run) Shape(kind string) {
	r.shape.Write([]byte(kind))
	r.shape.Write([]byte{1})
}

// ShapeHash is the hash of the schedule shape.
func (r *Run) ShapeHash() uint64 {
	return binary.BigEndian.Uint64(r.shape.Sum(nil))
}

// LogHash is the hash of the complete event log.
func (r *Run) LogHash() string { return hex.EncodeToString(r.h.Sum(nil)[:12]) }

// clean removes the (random) name of the scratch directory.
func (r *Run) clean(s string) string {
	if r.Scratch == "" {
		return s
	}
	return strings.Replace(s, r.Scratch, "$SCRATCH", -1)
}

// Logf appends to the event log.
func (r *Run) Logf(format string, a ...interface{}) {
	s := r.clean(fmt.Sprintf(format, a...))
	r.h.Write([]byte(s))
	r.h.Write([]byte{10})
	if len(r.Log) < r.LogMax {
		r.Log = append(r.Log, s)
	}
}

// Fault asks whether the fault kind should be injected with probability
// num/den and counts it if so.
func (r *Run) Fault(kind string, num, den int) bool {
	if r.NoFault || r.dead {
		return false
	}
	if !r.Bool(num, den) {
		return false
	}
	r.CountFault(kind)
	return true
}

// CountFault records an injected fault.
func (r *Run) CountFault(kind string) {
	r.Faults[kind]++
	r.Shape("!" + kind)
	r.Logf("FAULT %s", kind)
}

// FaultCount is the number of injected faults.
func (r *Run) FaultCount() int {
	n := 0
	for _, c := range r.Faults {
		n += c
	}
	return n
}

// Eval records that a property was evaluated.
func (r *Run) Eval(prop string) { r.Evals[prop]++ }

// Fail reports a violation. If it concerns the property under check the run
// ends here, otherwise it is noted and the run continues.
func (r *Run) Fail(prop, sig, format string, a ...interface{}) {
	d := r.clean(fmt.Sprintf(format, a...))
	if r.Known[prop+"/"+sig] != "" {
		r.KnownHit[prop+"/"+sig]++
		r.Logf("KNOWN %s %s: %s", prop, sig, d)
		return
	}
	v := &Violation{Prop: prop, Sig: sig, Detail: d, Step: r.Steps}
	r.Logf("VIOLATION %s %s: %s", prop, sig, d)
	if r.Prop != "" && prop != r.Prop {
		if len(r.Others) < 20 {
			r.Others = append(r.Others, v)
		}
		return
	}
	if r.Viol == nil {
		r.Viol = v
	}
	panic(abort{})
}

// Failf is Fail for the case where cond is false; it also counts the evaluation.
func (r *Run) Check(cond bool, prop, sig, format string, a ...interface{}) bool {
	r.Evals[prop]++
	if !cond {
		r.Fail(prop, sig, format, a...)
	}
	return cond
}

// Stop ends the run without a violation.
func (r *Run) Stop() { panic(abort{}) }

// Guard runs f and reports a panic in it (other than run control) as a
// violation of prop.
func (r *Run) Guard(prop, what string, f func()) (panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			if IsControl(e) {
				panic(e)
			}
			panicked = true
			r.Fail(prop, "panic:"+what, "panic in %s: %v\n%s", what, e, TrimStack(debug.Stack()))
		}
	}()
	f()
	return
}

// control panics (crash sentinels) implement this.
type Control interface{ SimControl() }

// IsControl reports whether a recovered value is run control.
func IsControl(e interface{}) bool {
	if _, ok := e.(abort); ok {
		return true
	}
	_, ok := e.(Control)
	return ok
}

// Crash is the panic value of a simulated process crash.
type Crash struct{ Where string }

// SimControl implements Control.
func (Crash) SimControl() {}

// TrimStack keeps the repository frames of a stack.
func TrimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "/repo/") && !strings.Contains(l, "zzverif") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 6 {
			break
		}
	}
	return strings.Join(out, " <- ")
}

// Exec runs the body of a world and converts panics.
func (r *Run) Exec(body func(*Run)) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(abort); ok {
				return
			}
			if r.Viol == nil {
				p := r.Prop
				if p == "" {
					p = "?"
				}
				r.Viol = &Violation{Prop: p, Sig: "panic", Step: r.Steps,
					Detail: fmt.Sprintf("uncaught panic: %v\n%s", e, TrimStack(debug.Stack()))}
				r.Logf("VIOLATION uncaught panic: %v %s", e, TrimStack(debug.Stack()))
			}
		}
	}()
	body(r)
}

// Keys returns the sorted keys of a count map.
func Keys(m map[string]int) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// World is a simulated system.
type World struct {
	Name       string
	Props      []string
	Body       func(*Run)
	Bubble     bool   // run inside a testing/synctest bubble
	Rule       string // how cases are made and what makes one non-trivial
	Real       []string
	Stub       []string
	Nontrivial func(*Run) bool
}
