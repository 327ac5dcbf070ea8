// Command vdriver builds the simulation harness from /repo's working tree and
// runs it for one property.
package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

var (
	verif   = os.Getenv("VERIF_DIR")
	repo    = os.Getenv("VERIF_REPO")
	scratch = os.Getenv("VERIF_SCRATCH")
)

const modPath = "github.com/mutecomm/mute"

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "vdriver: "+format+"\n", a...)
	os.Exit(2)
}

// build assembles the overlay and builds the harness test binary.
func build(race bool) string {
	overlay := map[string]string{}
	// harness packages
	root := filepath.Join(verif, "sim")
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			die("%v", err)
		}
		if d.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		overlay[filepath.Join(repo, "zzverif", rel)] = p
		return nil
	})
	// release/head.go is generated and ignored by git: supply a stand-in
	head := filepath.Join(scratch, "head.go")
	os.WriteFile(head, []byte("package release\n\n// release data of the simulated build\nconst (\n\tCommit = \"f002e280310a4fd7edc93df7480b68b34425ff48\"\n\tDate = \"Sat Jan 1 00:00:00 2000 +0000\"\n)\n"), 0644)
	overlay[filepath.Join(repo, "release", "head.go")] = head
	shims(overlay)
	instrument(overlay)
	ov, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	ovf := filepath.Join(scratch, "overlay.json")
	os.WriteFile(ovf, ov, 0644)
	// module files
	mod := filepath.Join(scratch, "mute.mod")
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	gm = append(gm, fmt.Sprintf("\nrequire verif.local/getg v0.0.0\n\nreplace verif.local/getg => %s\n", filepath.Join(verif, "getg"))...)
	os.WriteFile(mod, gm, 0644)
	gs, _ := os.ReadFile(filepath.Join(repo, "go.sum"))
	os.WriteFile(filepath.Join(scratch, "mute.sum"), gs, 0644)
	bin := filepath.Join(scratch, "sim.test")
	args := []string{"test", "-vet=off", "-c", "-mod=readonly", "-modfile=" + mod, "-overlay", ovf, "-o", bin, modPath + "/zzverif/worlds"}
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	if err := cmd.Run(); err != nil {
		die("building the harness from %s failed: %v\n%s", repo, err, out.String())
	}
	return bin
}

type worldInfo struct {
	Name  string   `json:"name"`
	Props []string `json:"props"`
	Rule  string   `json:"rule"`
	Real  []string `json:"real"`
	Stub  []string `json:"stub"`
}

type result struct {
	Runs        int               `json:"runs"`
	FaultFree   int               `json:"fault_free"`
	Nontrivial  int               `json:"nontrivial"`
	Shapes      map[string]bool   `json:"shapes"`
	States      map[string]bool   `json:"states"`
	Faults      map[string]int    `json:"faults"`
	Evals       map[string]int    `json:"evals"`
	Counter     map[string]int    `json:"counter"`
	Worlds      map[string]int    `json:"worlds"`
	SimTime     float64           `json:"sim_time"`
	Steps       int               `json:"steps"`
	Samples     []interface{}     `json:"samples"`
	Known       map[string]int    `json:"known"`
	DetChecked  int               `json:"det_checked"`
	DetMismatch []string          `json:"det_mismatch"`
	Others      map[string]string `json:"others"`
	LogHashes   map[string]string `json:"log_hashes"`
	Replay      json.RawMessage   `json:"replay"`
	WallS       float64           `json:"wall_s"`
}

func envInt(k string, d int) int {
	if i, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return i
	}
	return d
}

type worker struct {
	cmd  *exec.Cmd
	out  string
	err  bytes.Buffer
	code int
}

func baseEnv() []string {
	env := append(os.Environ(),
		"GODEBUG=asynctimerchan=0,randseednop=0,cryptocustomrand=0", "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB", "TZ=UTC")
	return env
}

func startWorker(bin, name string, env ...string) *worker {
	w := &worker{out: filepath.Join(scratch, name+".json")}
	dir := filepath.Join(workScratch(), name)
	os.MkdirAll(dir, 0755)
	w.cmd = exec.Command(bin, "-test.run", "^TestSim$", "-test.timeout", "0", "-test.count", "1")
	w.cmd.Env = append(baseEnv(), env...)
	w.cmd.Env = append(w.cmd.Env, "SIM_OUT="+w.out, "SIM_SCRATCH="+dir)
	w.cmd.Dir = dir
	w.cmd.Stderr = &w.err
	w.cmd.Stdout = &w.err
	if err := w.cmd.Start(); err != nil {
		die("%v", err)
	}
	return w
}

var wscratch string

func workScratch() string {
	if wscratch == "" {
		var err error
		wscratch, err = os.MkdirTemp("/dev/shm", "verif")
		if err != nil {
			wscratch = filepath.Join(scratch, "work")
			os.MkdirAll(wscratch, 0755)
		}
	}
	return wscratch
}

func cleanup() {
	if strings.HasPrefix(wscratch, "/dev/shm/verif") {
		os.RemoveAll(wscratch)
	}
}

func main() {
	if len(os.Args) < 2 {
		die("usage: check.sh <property> [quick|thorough] | replay <file> | build | instr <dir>")
	}
	switch os.Args[1] {
	case "build":
		build(false)
		return
	case "replay":
		os.Exit(replay(os.Args[2]))
	}
	prop := os.Args[1]
	tier := "quick"
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	os.Exit(check(prop, tier))
}

func loadJSON(name string, v interface{}) {
	b, err := os.ReadFile(filepath.Join(verif, name))
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, v); err != nil {
		die("%s: %v", name, err)
	}
}

type propConf struct {
	Worlds    []string `json:"worlds"`
	QuickS    int      `json:"quick_s"`
	ThoroughS int      `json:"thorough_s"`
	QuickRuns int      `json:"quick_runs"` // total number of runs of a quick check (0: only limited by time)
}

type finding struct {
	Property  string `json:"property"`
	Signature string `json:"signature"`
	What      string `json:"what"`
	Fixed     string `json:"fixed"`
}

func replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var rf struct {
		Property string `json:"property"`
		World    string `json:"world"`
		LogHash  string `json:"log_hash"`
	}
	if err := json.Unmarshal(b, &rf); err != nil {
		die("%v", err)
	}
	abs, _ := filepath.Abs(file)
	bin := build(false)
	defer cleanup()
	w := startWorker(bin, "replay", "SIM_MODE=replay", "SIM_WORLDS="+rf.World, "SIM_REPLAY="+abs, "SIM_PROP="+rf.Property)
	werr := w.cmd.Wait()
	fmt.Print(w.err.String())
	var got struct {
		LogHash   string `json:"log_hash"`
		Violation *struct {
			Prop, Sig, Detail string
		} `json:"violation"`
	}
	if werr != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
		return 1
	}
	ob, _ := os.ReadFile(w.out)
	json.Unmarshal(ob, &got)
	if got.Violation == nil {
		fmt.Println("replay: no violation on this tree")
		return 0
	}
	if rf.LogHash != "" {
		fmt.Printf("replay: event log hash %s, recorded %s, identical=%v\n", got.LogHash, rf.LogHash, got.LogHash == rf.LogHash)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, file)
	return 1
}

func merge(dst, src map[string]int) {
	for k, v := range src {
		dst[k] += v
	}
}

func check(prop, tier string) int {
	t0 := time.Now()
	var confs map[string]propConf
	loadJSON("checks.json", &confs)
	conf, ok := confs[prop]
	if !ok {
		die("unknown property %s", prop)
	}
	var findings []finding
	loadJSON("known_findings.json", &findings)
	known := map[string]string{}
	for _, f := range findings {
		if f.Fixed == "" {
			known[f.Property+"/"+f.Signature] = f.What
		}
	}
	kf := filepath.Join(scratch, "known.json")
	kb, _ := json.Marshal(known)
	os.WriteFile(kf, kb, 0644)
	seed := envInt("VERIF_SEED", 1)
	bin := build(false)
	defer cleanup()
	buildS := time.Since(t0).Seconds()
	budget := conf.QuickS
	if tier == "thorough" {
		budget = conf.ThoroughS
	}
	budget = envInt("VERIF_BUDGET_S", budget)
	n := runtime.NumCPU()
	n = envInt("VERIF_WORKERS", n)
	if n > 16 {
		n = 16
	}
	if n < 1 {
		n = 1
	}
	h := sha256.Sum256([]byte(fmt.Sprintf("%s/%d", tier, seed)))
	seed0 := int(uint32(h[0])<<16|uint32(h[1])<<8|uint32(h[2]))*1000000 + 1
	worlds := strings.Join(conf.Worlds, ",")
	runsCap := 1 << 30
	if tier != "thorough" && conf.QuickRuns > 0 && os.Getenv("VERIF_BUDGET_S") == "" {
		runsCap = (conf.QuickRuns + n - 1) / n
	}
	var ws []*worker
	for i := 0; i < n; i++ {
		// worker 1 starts with the same seeds as worker 0 for the
		// cross-process determinism check
		s := seed0 + i
		if i == 1 {
			s = seed0
		}
		maxRuns := runsCap
		if i == 1 && n > 2 {
			maxRuns = 8
		}
		ws = append(ws, startWorker(bin, fmt.Sprintf("w%d", i), "SIM_MODE=run", "SIM_WORLDS="+worlds, "SIM_PROP="+prop,
			"SIM_TIER="+tier, "SIM_SEED0="+strconv.Itoa(s), "SIM_STRIDE="+strconv.Itoa(n),
			"SIM_BUDGET_MS="+strconv.Itoa(budget*1000), "SIM_KNOWN="+kf, "SIM_MAXRUNS="+strconv.Itoa(maxRuns),
			"SIM_MINRUNS="+strconv.Itoa(8)))
	}
	if n > 2 {
		// extra worker continuing on the slot of worker 1
		ws = append(ws, startWorker(bin, "w1b", "SIM_MODE=run", "SIM_WORLDS="+worlds, "SIM_PROP="+prop,
			"SIM_TIER="+tier, "SIM_SEED0="+strconv.Itoa(seed0+1), "SIM_STRIDE="+strconv.Itoa(n),
			"SIM_BUDGET_MS="+strconv.Itoa(budget*1000), "SIM_KNOWN="+kf, "SIM_MINRUNS=1", "SIM_MAXRUNS="+strconv.Itoa(runsCap)))
	}
	// wait; the first violation stops the others
	var mu sync.Mutex
	var wg sync.WaitGroup
	found := false
	for _, w := range ws {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			err := w.cmd.Wait()
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				w.code = 1
				if ee, ok := err.(*exec.ExitError); ok {
					w.code = ee.ExitCode()
				}
			}
			bad := w.code != 0
			if !bad {
				var r result
				if b, err := os.ReadFile(w.out); err == nil && json.Unmarshal(b, &r) == nil && len(r.Replay) > 4 {
					bad = true
				}
			}
			if bad && !found {
				found = true
				for _, o := range ws {
					if o != w {
						o.cmd.Process.Kill()
					}
				}
			}
		}(w)
	}
	wg.Wait()
	tot := &result{Shapes: map[string]bool{}, States: map[string]bool{}, Faults: map[string]int{}, Evals: map[string]int{}, Counter: map[string]int{},
		Worlds: map[string]int{}, Known: map[string]int{}, Others: map[string]string{}, LogHashes: map[string]string{}}
	var violation json.RawMessage
	crashed := ""
	cross := 0
	var crossMismatch []string
	for i, w := range ws {
		b, err := os.ReadFile(w.out)
		var r result
		if err != nil || json.Unmarshal(b, &r) != nil {
			if w.code > 0 { // not killed by us
				sd, _ := os.ReadFile(w.out + ".seed")
				if len(sd) == 0 {
					fmt.Fprintln(os.Stderr, tail(w.err.String(), 4000))
					die("worker %d failed without starting a run (exit %d)", i, w.code)
				}
				if crashed == "" {
					crashed = string(sd)
					fmt.Fprintln(os.Stderr, tail(w.err.String(), 4000))
				}
			}
			continue
		}
		if i == 1 && n > 2 && len(ws) > 2 {
			b0, err := os.ReadFile(ws[0].out)
			var r0 result
			if err == nil && json.Unmarshal(b0, &r0) == nil {
				for k, v := range r.LogHashes {
					if v0, ok := r0.LogHashes[k]; ok {
						cross++
						if v0 != v {
							crossMismatch = append(crossMismatch, k)
						}
					}
				}
			}
			continue // same seeds as worker 0: not counted again
		}
		tot.Runs += r.Runs
		tot.FaultFree += r.FaultFree
		tot.Nontrivial += r.Nontrivial
		tot.SimTime += r.SimTime
		tot.Steps += r.Steps
		merge(tot.Faults, r.Faults)
		merge(tot.Evals, r.Evals)
		merge(tot.Counter, r.Counter)
		merge(tot.Worlds, r.Worlds)
		merge(tot.Known, r.Known)
		for k := range r.Shapes {
			tot.Shapes[k] = true
		}
		for k := range r.States {
			tot.States[k] = true
		}
		for k, v := range r.Others {
			tot.Others[k] = v
		}
		if len(tot.Samples) < 2 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
		tot.DetChecked += r.DetChecked
		tot.DetMismatch = append(tot.DetMismatch, r.DetMismatch...)
		if len(r.Replay) > 4 && violation == nil {
			violation = r.Replay
		}
	}
	if violation == nil {
		// worker 1 may be the only one that saw it
		for _, w := range ws {
			var r result
			if b, err := os.ReadFile(w.out); err == nil && json.Unmarshal(b, &r) == nil && len(r.Replay) > 4 {
				violation = r.Replay
			}
		}
	}
	violations := 0
	code := 0
	os.MkdirAll(filepath.Join(verif, "evidence", "replays"), 0755)
	rel := ""
	if violation != nil {
		violations = 1
		var v struct {
			Seed uint64 `json:"seed"`
		}
		json.Unmarshal(violation, &v)
		rel = filepath.Join("evidence", "replays", fmt.Sprintf("%s-%d.json", prop, v.Seed))
		var buf bytes.Buffer
		json.Indent(&buf, violation, "", " ")
		os.WriteFile(filepath.Join(verif, rel), buf.Bytes(), 0644)
	} else if crashed != "" {
		// a run took the whole process down: confirm it alone in a fresh process
		f := strings.Fields(crashed)
		sd, _ := strconv.ParseUint(f[1], 10, 64)
		rf := map[string]interface{}{"world": f[0], "property": prop, "tier": tier, "seed": sd, "no_fault": f[2] == "true", "tape_only": false}
		b, _ := json.MarshalIndent(rf, "", " ")
		rel = filepath.Join("evidence", "replays", fmt.Sprintf("%s-%d.json", prop, sd))
		os.WriteFile(filepath.Join(verif, rel), b, 0644)
		w := startWorker(bin, "confirm", "SIM_MODE=replay", "SIM_WORLDS="+f[0], "SIM_REPLAY="+filepath.Join(verif, rel), "SIM_PROP="+prop)
		if err := w.cmd.Wait(); err != nil {
			violations = 1
			rf["fatal"] = tail(w.err.String(), 6000)
			b, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(filepath.Join(verif, rel), b, 0644)
			fmt.Println("process-fatal failure, reproduced:", firstFatal(w.err.String()))
		} else {
			os.Remove(filepath.Join(verif, rel))
			die("a worker died on %q but the run does not reproduce it", crashed)
		}
	}
	wall := time.Since(t0).Seconds()
	cov := map[string]interface{}{
		"evaluations":         tot.Evals[prop],
		"distinct_nontrivial": len(tot.Shapes),
		"samples":             tot.Samples,
	}
	rule := ""
	var real, stub []string
	var infos map[string]worldInfo
	loadJSON("worlds.json", &infos)
	for _, w := range conf.Worlds {
		i := infos[w]
		rule += w + ": " + i.Rule + " "
		real = append(real, i.Real...)
		stub = append(stub, i.Stub...)
	}
	cov["rule"] = strings.TrimSpace(rule) + " distinct_nontrivial counts distinct schedule shapes (hash of the sequence of operation and fault kinds) among runs that evaluated this property."
	cov["simulated_runs"] = tot.Runs
	cov["nontrivial_runs"] = tot.Nontrivial
	cov["fault_free_runs"] = tot.FaultFree
	cov["runs_per_hour"] = int(float64(tot.Runs) / (wall - buildS + 0.001) * 3600)
	cov["simulated_seconds"] = int64(tot.SimTime)
	cov["operations"] = tot.Steps
	cov["faults_injected"] = tot.Faults
	cov["counters"] = tot.Counter
	cov["distinct_states"] = len(tot.States)
	cov["property_evaluations_in_these_worlds"] = tot.Evals
	cov["runs_per_world"] = tot.Worlds
	cov["real_components"] = real
	cov["stub_components"] = stub
	cov["determinism"] = map[string]interface{}{"same_process_pairs": tot.DetChecked, "same_process_mismatches": len(tot.DetMismatch),
		"cross_process_pairs": cross, "cross_process_mismatches": len(crossMismatch)}
	cov["build_s"] = buildS
	if len(tot.Others) > 0 {
		cov["other_properties_violated"] = tot.Others
	}
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"wall_s": wall, "violations": violations,
		"assumptions": []string{"the simulated components listed as stubs follow their documented protocol except for injected faults",
			"choices are drawn from the seeds explored; nothing is claimed about schedules not drawn"},
	}
	eb, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), eb, 0644); err != nil {
		die("%v", err)
	}
	for _, m := range tot.DetMismatch {
		fmt.Println("NONDETERMINISM:", m)
	}
	for _, m := range crossMismatch {
		fmt.Println("NONDETERMINISM across processes:", m)
	}
	var ks []string
	for _, f := range findings {
		if f.Fixed == "" && f.Property == prop {
			ks = append(ks, f.Property+"/"+f.Signature)
			if tot.Known[f.Property+"/"+f.Signature] > 0 || violation == nil {
				fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times in this run)\n", prop, f.What, tot.Known[f.Property+"/"+f.Signature])
			}
		}
	}
	sort.Strings(ks)
	fmt.Printf("%s %s: %d runs (%d distinct shapes), %d evaluations, %d faults, %.0f simulated s, %.1f s wall (build %.1f s)\n",
		prop, tier, tot.Runs, len(tot.Shapes), tot.Evals[prop], sumInts(tot.Faults), tot.SimTime, wall, buildS)
	if violations > 0 {
		var v struct {
			Violation struct {
				Sig    string `json:"signature"`
				Detail string `json:"detail"`
			} `json:"violation"`
			Log []string `json:"event_log"`
		}
		json.Unmarshal(violation, &v)
		fmt.Printf("%s: %s\n", v.Violation.Sig, v.Violation.Detail)
		for _, l := range v.Log {
			if len(v.Log) < 80 {
				fmt.Println("   ", l)
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rel)
		code = 1
	} else if tot.Evals[prop] == 0 {
		die("the property was never evaluated")
	}
	return code
}

func sumInts(m map[string]int) (s int) {
	for _, v := range m {
		s += v
	}
	return
}

func firstFatal(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "SIM-HANG") {
			return l
		}
	}
	return tail(s, 200)
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

var _ = hex.EncodeToString
