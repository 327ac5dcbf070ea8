//go:build go1.25

package worlds

import (
	"database/sql"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/pprof"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"testing/cryptotest"
	"testing/synctest"
	"time"

	"github.com/mutecomm/mute/zzverif/sim"
)

type result struct {
	Runs        int               `json:"runs"`
	FaultFree   int               `json:"fault_free"`
	Nontrivial  int               `json:"nontrivial"`
	Shapes      map[string]bool   `json:"shapes"`
	States      map[string]bool   `json:"states"`
	Faults      map[string]int    `json:"faults"`
	Evals       map[string]int    `json:"evals"`
	Counter     map[string]int    `json:"counter"`
	Worlds      map[string]int    `json:"worlds"`
	SimTime     float64           `json:"sim_time"`
	Steps       int               `json:"steps"`
	Samples     []interface{}     `json:"samples"`
	Known       map[string]int    `json:"known"`
	DetChecked  int               `json:"det_checked"`
	DetMismatch []string          `json:"det_mismatch"`
	Others      map[string]string `json:"others"`
	LogHashes   map[string]string `json:"log_hashes"`
	Replay      *replayFile       `json:"replay"`
	WallS       float64           `json:"wall_s"`
}

type replayFile struct {
	World      string         `json:"world"`
	Prop       string         `json:"property"`
	Tier       string         `json:"tier"`
	Seed       uint64         `json:"seed"`
	NoFault    bool           `json:"no_fault"`
	TapeOnly   bool           `json:"tape_only"` // false: no tape was recovered, the seed decides
	Tape       []uint32       `json:"tape"`
	Orig       int            `json:"original_tape_len"`
	OrigSteps  int            `json:"original_steps"`
	Steps      int            `json:"steps"`
	ShrinkRuns int            `json:"shrink_runs"`
	Violation  *sim.Violation `json:"violation"`
	LogHash    string         `json:"log_hash"`
	Log        []string       `json:"event_log"`
	Faults     map[string]int `json:"faults"`
}

var (
	known    = map[string]string{}
	runStart int64
)

// Worlds is the registry, by name.
var registry = map[string]*sim.World{}

func register(w *sim.World) { registry[w.Name] = w }

func execute(t *testing.T, w *sim.World, prop, tier string, seed uint64, noFault bool, tape []uint32, replay bool) *sim.Run {
	r := sim.New(w.Name, prop, tier, seed, tape, replay)
	r.NoFault = noFault
	r.Known = known
	atomic.StoreInt64(&runStart, time.Now().UnixNano())
	base := os.Getenv("SIM_SCRATCH")
	dir, err := ioutil.TempDir(base, "run")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	// fixed-length path, independent of the random suffix, for determinism
	r.Scratch = dir
	cryptotest.SetGlobalRandom(t, seed^0x5eed)
	rand.Seed(int64(seed))
	if w.Bubble {
		t.Run("r", func(t *testing.T) {
			cryptotest.SetGlobalRandom(t, seed^0x5eed)
			defer func() {
				if e := recover(); e != nil {
					if s := fmt.Sprint(e); !strings.HasPrefix(s, "deadlock: main bubble goroutine has exited") {
						panic(e)
					}
					// goroutines the code under test left behind
					r.Counter["runs-with-goroutines-left"]++
				}
			}()
			synctest.Test(t, func(t *testing.T) {
				rand.Seed(int64(seed))
				start := time.Now()
				r.Exec(w.Body)
				r.SimTime += time.Since(start).Seconds()
			})
		})
	} else {
		r.Exec(w.Body)
	}
	r.Logf("END steps=%d", r.Steps)
	return r
}

func stripScratch(r *sim.Run, s string) string { return strings.Replace(s, r.Scratch, "$SCRATCH", -1) }

func shrink(t *testing.T, w *sim.World, r *sim.Run, budget time.Duration) (*sim.Run, int) {
	best := r
	n := 0
	deadline := time.Now().Add(budget)
	try := func(tape []uint32) bool {
		if time.Now().After(deadline) {
			return false
		}
		n++
		c := execute(t, w, r.Prop, r.Tier, r.Seed, r.NoFault, tape, true)
		if c.Viol != nil && c.Viol.Prop == r.Viol.Prop && c.Viol.Sig == r.Viol.Sig &&
			(len(c.Rec) < len(best.Rec) || (len(c.Rec) == len(best.Rec) && sum(c.Rec) < sum(best.Rec))) {
			best = c
			return true
		}
		return false
	}
	for improved := true; improved && time.Now().Before(deadline); {
		improved = false
		// remove operations, large chunks first
		for chunk := len(best.Ops) / 2; chunk >= 1 && time.Now().Before(deadline); chunk /= 2 {
			for i := 0; i+chunk <= len(best.Ops) && time.Now().Before(deadline); {
				from := best.Ops[i]
				to := len(best.Rec)
				if i+chunk < len(best.Ops) {
					to = best.Ops[i+chunk]
				}
				tape := append(append([]uint32{}, best.Rec[:from]...), best.Rec[to:]...)
				if from < to && try(tape) {
					improved = true
				} else {
					i += chunk
				}
			}
		}
		// zero and remove single choices
		for i := len(best.Rec) - 1; i >= 0 && time.Now().Before(deadline); i-- {
			if i >= len(best.Rec) {
				continue
			}
			if best.Rec[i] != 0 {
				tape := append([]uint32{}, best.Rec...)
				tape[i] = 0
				if try(tape) {
					improved = true
					continue
				}
			}
		}
	}
	return best, n
}

func sum(x []uint32) (s uint64) {
	for _, v := range x {
		s += uint64(v)
	}
	return
}

func envInt(k string, d int) int {
	if v := os.Getenv(k); v != "" {
		i, err := strconv.Atoi(v)
		if err == nil {
			return i
		}
	}
	return d
}

func TestSim(t *testing.T) {
	mode := os.Getenv("SIM_MODE")
	if mode == "" {
		t.Skip("simulation harness: run through check.sh")
	}
	// No locking of memory, which takes a third of the time and changes nothing.
	if db, err := sql.Open("sqlite3", ":memory:"); err == nil {
		db.Exec("PRAGMA cipher_memory_security = OFF;")
		db.Close()
	}
	realT0 := time.Now()
	out := os.Getenv("SIM_OUT")
	prop := os.Getenv("SIM_PROP")
	tier := os.Getenv("SIM_TIER")
	if b, err := ioutil.ReadFile(os.Getenv("SIM_KNOWN")); err == nil {
		json.Unmarshal(b, &known)
	}
	if p := os.Getenv("SIM_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	// watchdog on real time
	limit := time.Duration(envInt("SIM_HANG_S", 90)) * time.Second
	go func() {
		for {
			time.Sleep(time.Second)
			s := atomic.LoadInt64(&runStart)
			if s != 0 && time.Now().UnixNano()-s > int64(limit) {
				buf := make([]byte, 1<<20)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "SIM-HANG\n%s\n", buf[:n])
				os.Exit(7)
			}
		}
	}()
	var names []string
	for _, n := range strings.Split(os.Getenv("SIM_WORLDS"), ",") {
		if registry[n] == nil {
			t.Fatalf("no world %q", n)
		}
		names = append(names, n)
	}
	switch mode {
	case "replay":
		var rf replayFile
		b, err := ioutil.ReadFile(os.Getenv("SIM_REPLAY"))
		if err != nil {
			t.Fatal(err)
		}
		if err := json.Unmarshal(b, &rf); err != nil {
			t.Fatal(err)
		}
		r := execute(t, registry[rf.World], rf.Prop, rf.Tier, rf.Seed, rf.NoFault, rf.Tape, rf.TapeOnly)
		for _, l := range r.Log {
			fmt.Println(stripScratch(r, l))
		}
		rf.Violation = r.Viol
		rf.LogHash = r.LogHash()
		rf.Log = r.Log
		b, _ = json.MarshalIndent(&rf, "", " ")
		ioutil.WriteFile(out, b, 0644)
		return
	}
	seed0 := uint64(envInt("SIM_SEED0", 1))
	stride := uint64(envInt("SIM_STRIDE", 1))
	budget := time.Duration(envInt("SIM_BUDGET_MS", 10000)) * time.Millisecond
	maxRuns := envInt("SIM_MAXRUNS", 1<<30)
	det := envInt("SIM_DET", 3)
	shrinkBudget := time.Duration(envInt("SIM_SHRINK_S", 40)) * time.Second
	res := &result{Shapes: map[string]bool{}, States: map[string]bool{}, Faults: map[string]int{}, Evals: map[string]int{},
		Counter: map[string]int{}, Worlds: map[string]int{}, Known: map[string]int{}, Others: map[string]string{}, LogHashes: map[string]string{}}
	progress := out + ".seed"
	minRuns := envInt("SIM_MINRUNS", 1)
	for i := 0; (time.Since(realT0) < budget || i < minRuns) && i < maxRuns; i++ {
		seed := seed0 + uint64(i)*stride
		w := registry[names[i%len(names)]]
		noFault := i%8 == 7
		ioutil.WriteFile(progress, []byte(fmt.Sprintf("%s %d %v", w.Name, seed, noFault)), 0644)
		r := execute(t, w, prop, tier, seed, noFault, nil, false)
		res.Runs++
		res.Worlds[w.Name]++
		if noFault {
			res.FaultFree++
		}
		for k, v := range r.Faults {
			res.Faults[k] += v
		}
		for k, v := range r.Evals {
			res.Evals[k] += v
		}
		for k, v := range r.Counter {
			if strings.HasPrefix(k, "state:") {
				res.States[k] = true
			} else {
				res.Counter[k] += v
			}
		}
		for k, v := range r.KnownHit {
			res.Known[k] += v
		}
		for _, v := range r.Others {
			res.Others[v.Prop+"/"+v.Sig] = fmt.Sprintf("seed %d: %s", seed, v.Detail)
		}
		res.SimTime += r.SimTime
		res.Steps += r.Steps
		nontriv := r.Evals[prop] > 0
		if w.Nontrivial != nil {
			nontriv = nontriv && w.Nontrivial(r)
		}
		if nontriv {
			res.Nontrivial++
			res.Shapes[fmt.Sprintf("%016x", r.ShapeHash())] = true
			if len(res.Samples) < 1 && r.Viol == nil {
				l := r.Log
				if len(l) > 60 {
					l = l[:60]
				}
				var ll []string
				for _, s := range l {
					s = stripScratch(r, s)
					if len(s) > 200 {
						s = s[:200]
					}
					ll = append(ll, s)
				}
				res.Samples = append(res.Samples, map[string]interface{}{"world": w.Name, "seed": seed, "steps": r.Steps, "faults": r.Faults, "log": ll})
			}
		}
		if i < 12 {
			res.LogHashes[fmt.Sprintf("%s/%d", w.Name, seed)] = r.LogHash()
		}
		if i < det && r.Viol == nil {
			r2 := execute(t, w, prop, tier, seed, noFault, nil, false)
			res.DetChecked++
			if r2.LogHash() != r.LogHash() {
				res.DetMismatch = append(res.DetMismatch, fmt.Sprintf("%s seed %d: %s", w.Name, seed, firstDiff(r.Log, r2.Log)))
			}
		}
		if r.Viol != nil {
			orig, origSteps := len(r.Rec), r.Steps
			b, n := shrink(t, w, r, shrinkBudget)
			// confirm exact reproduction
			c := execute(t, w, prop, tier, seed, r.NoFault, b.Rec, true)
			rf := &replayFile{World: w.Name, Prop: prop, Tier: tier, Seed: seed, NoFault: r.NoFault, TapeOnly: true, Tape: b.Rec,
				Orig: orig, OrigSteps: origSteps, Steps: b.Steps, ShrinkRuns: n, Violation: b.Viol, LogHash: b.LogHash(), Log: b.Log, Faults: b.Faults}
			if c.LogHash() != b.LogHash() {
				res.DetMismatch = append(res.DetMismatch, fmt.Sprintf("replay of seed %d: %s", seed, firstDiff(b.Log, c.Log)))
			}
			if rf.Violation.Prop == "?" {
				rf.Violation.Prop = prop
			}
			for i := range rf.Log {
				rf.Log[i] = stripScratch(b, rf.Log[i])
			}
			res.Replay = rf
			break
		}
	}
	atomic.StoreInt64(&runStart, 0)
	res.WallS = time.Since(realT0).Seconds()
	b, _ := json.Marshal(res)
	if err := ioutil.WriteFile(out, b, 0644); err != nil {
		t.Fatal(err)
	}
	os.Remove(progress)
}

func firstDiff(a, b []string) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("line %d: %q vs end", i, a[i])
		}
		if a[i] != b[i] {
			return fmt.Sprintf("line %d: %q vs %q", i, a[i], b[i])
		}
	}
	return fmt.Sprintf("lengths %d %d", len(a), len(b))
}

func scratchFile(r *sim.Run, name string) string { return filepath.Join(r.Scratch, name) }
