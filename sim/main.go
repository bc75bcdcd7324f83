package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// simtrie check -prop C01 -tier quick -seed 1 -verif /verif   run the check of the property
// simtrie worker ...                                          run a slice of plans (spawned by check)
// simtrie exec FILE [-v]                                      run one plan, print its violation and event log hash
// simtrie gen PROP SEED INDEX                                 print a plan

type propDef struct {
	worlds   []string
	weights  []int
	quick    int
	thorough int
	level    string
	rule     string
	real     []string
	stub     []string
}

func makePlan(prop string, seed uint64, index int) *Plan {
	d := props[prop]
	s := hashStr(mix64(seed+0x1234567), fmt.Sprintf("%s/%d", prop, index))
	rng := &Rng{s: s}
	w := d.worlds[rng.W(d.weights...)]
	p := &Plan{Prop: prop, World: w, Index: index, Seed: s, MapSeed: rng.U64(), Cfg: map[string]int{}}
	worlds[w].gen(p, rng)
	return p
}

// ---------------------------------------------------------------------------
// worker

type workerOut struct {
	prior    []int          // the runs before in the same process
	Kind     string         `json:"kind"` // "v" violation, "end", "h" hashes
	Index    int            `json:"index"`
	V        *Violation     `json:"v,omitempty"`
	Runs     int            `json:"runs,omitempty"`
	Steps    int            `json:"steps,omitempty"`
	Stats    map[string]int `json:"stats,omitempty"`
	States   []uint64       `json:"states,omitempty"`
	Logs     []uint64       `json:"logs,omitempty"`   // distinct event log hashes
	Traces   []uint64       `json:"traces,omitempty"` // distinct schedules
	SimNs    int64          `json:"sim_ns,omitempty"`
	MaxTicks int64          `json:"max_ticks,omitempty"`
	Audit    map[int]uint64 `json:"audit,omitempty"`
	Events   int            `json:"events,omitempty"`
	Trivia   int            `json:"trivial,omitempty"`
}

func worker(prop string, seed uint64, start, stride, count int, auditEvery int, only []int, secs int) {
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	out := bufio.NewWriter(os.Stdout)
	agg := workerOut{Kind: "end", Stats: map[string]int{}, Audit: map[int]uint64{}}
	states, logs, traces := map[uint64]struct{}{}, map[uint64]struct{}{}, map[uint64]struct{}{}
	var idxs []int
	if only != nil {
		idxs = only
	} else {
		for i := start; i < count; i += stride {
			idxs = append(idxs, i)
		}
	}
	last := time.Now()
	for n, i := range idxs {
		if n%64 == 0 || time.Since(last) > 200*time.Millisecond {
			fmt.Fprintf(out, "{\"kind\":\"p\",\"index\":%d}\n", i)
			out.Flush()
			last = time.Now()
			if last.After(deadline) {
				agg.Stats["stopped_by_time_cap"]++
				break
			}
		}
		p := makePlan(prop, seed, i)
		r, v := execPlan(p, false)
		agg.Runs++
		agg.Steps += len(p.Steps)
		agg.Events += r.nev
		for k, c := range r.st {
			agg.Stats[k] += c
		}
		for s := range r.states {
			if len(states) < 200000 {
				states[s] = struct{}{}
			}
		}
		if len(logs) < 200000 {
			logs[r.h] = struct{}{}
		}
		if r.trace != 0 && len(traces) < 200000 {
			traces[r.trace] = struct{}{}
		}
		agg.SimNs += r.simNs
		agg.MaxTicks = max(agg.MaxTicks, r.maxTicks)
		if len(p.Steps) < 2 {
			agg.Trivia++
		}
		if auditEvery > 0 && i%auditEvery == 0 {
			agg.Audit[i] = r.h
		}
		if v != nil {
			b, _ := json.Marshal(workerOut{Kind: "v", Index: i, V: v})
			out.Write(append(b, '\n'))
			out.Flush()
			break
		}
	}
	agg.States, agg.Logs, agg.Traces = keysOf(states), keysOf(logs), keysOf(traces)
	b, err := json.Marshal(agg)
	if err != nil {
		panic(err)
	}
	out.Write(append(b, '\n'))
	out.Flush()
}

func keysOf(m map[uint64]struct{}) []uint64 {
	r := make([]uint64, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	return r
}

// ---------------------------------------------------------------------------
// parent

type harnessError string

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS: "+format+"\n", a...)
	os.Exit(2)
}

type wres struct {
	id     int
	out    *workerOut
	viol   *workerOut
	err    error
	stderr string
	at     int
}

func spawn(id int, args []string, progress func(idx int), quit <-chan struct{}) wres {
	res := wres{id: id, at: -1}
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = workerEnv()
	var eb strings.Builder
	cmd.Stderr = &limitWriter{sb: &eb}
	po, err := cmd.StdoutPipe()
	if err != nil {
		res.err = err
		return res
	}
	if err = cmd.Start(); err != nil {
		res.err = err
		return res
	}
	var mu sync.Mutex
	lastSeen := time.Now()
	fin := make(chan struct{})
	hung := false
	go func() {
		for {
			select {
			case <-fin:
				return
			case <-quit:
				_ = cmd.Process.Kill()
				return
			case <-time.After(time.Second):
				mu.Lock()
				old := time.Since(lastSeen) > hangSecs*time.Second
				mu.Unlock()
				if old {
					hung = true
					_ = cmd.Process.Kill()
					return
				}
			}
		}
	}()
	rd := bufio.NewReaderSize(po, 1<<20)
	for {
		line, err := rd.ReadBytes('\n')
		if len(line) > 0 {
			var o workerOut
			if json.Unmarshal(line, &o) == nil {
				switch o.Kind {
				case "p":
					mu.Lock()
					lastSeen = time.Now()
					mu.Unlock()
					res.at = o.Index
					progress(o.Index)
				case "v":
					c := o
					res.viol = &c
				case "end":
					c := o
					res.out = &c
				}
			}
		}
		if err != nil {
			break
		}
	}
	err = cmd.Wait()
	close(fin)
	res.stderr = eb.String()
	if res.out == nil {
		res.err = fmt.Errorf("worker ended without a result: %v (hung: %v)", err, hung)
	}
	return res
}

const hangSecs = 90

type limitWriter struct{ sb *strings.Builder }

func (l *limitWriter) Write(b []byte) (int, error) {
	if l.sb.Len() < 1<<16 {
		l.sb.Write(b)
	}
	return len(b), nil
}

func workerEnv() []string {
	env := []string{"GOMAXPROCS=2", "GOGC=400", "GOMEMLIMIT=2500MiB", "GOTRACEBACK=single"}
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "GO") {
			env = append(env, e)
		}
	}
	return env
}

// execFile runs a plan file in a fresh process. crashed: the process died of something which can't be recovered
func execFile(file string, timeout time.Duration) (v *Violation, hash string, crashed bool, stderr string, timedOut bool) {
	cmd := exec.Command(os.Args[0], "exec", file)
	cmd.Env = workerEnv()
	var eb, ob strings.Builder
	cmd.Stderr = &limitWriter{sb: &eb}
	cmd.Stdout = &ob
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	t := time.AfterFunc(timeout, func() { timedOut = true; _ = cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	stderr = eb.String()
	var o execOut
	if json.Unmarshal([]byte(ob.String()), &o) == nil && o.Hash != "" {
		return o.V, o.Hash, false, stderr, false
	}
	if timedOut {
		return nil, "", false, stderr, true
	}
	_ = err
	return nil, "", true, stderr, false
}

type execOut struct {
	V    *Violation `json:"v"`
	Hash string     `json:"hash"`
}

// replay is the replay file. Before: runs which are to be made before in the same process, because the violation depends on
// what they leave behind in variables of the library; Indices: the same, by the indices of generated runs
type replay struct {
	Violation *Violation `json:"violation"`
	Before    []*Plan    `json:"runs_before_in_this_process,omitempty"`
	Indices   []int      `json:"indices_before,omitempty"`
	Seed      uint64     `json:"seed_of_indices,omitempty"`
	Plan      *Plan      `json:"plan"`
	Log       []string   `json:"event_log,omitempty"`
}

func writePlan(file string, p *Plan, v *Violation, log []string) {
	writeReplay(file, &replay{Violation: v, Plan: p, Log: log})
}

func writeReplay(file string, x *replay) {
	b, err := json.MarshalIndent(x, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err = os.MkdirAll(filepath.Dir(file), 0o755); err != nil {
		die("%v", err)
	}
	if err = os.WriteFile(file, b, 0o644); err != nil {
		die("%v", err)
	}
}

func readReplay(file string) *replay {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var x replay
	if err = json.Unmarshal(b, &x); err != nil || x.Plan == nil {
		die("wrong replay file %s: %v", file, err)
	}
	return &x
}

// session finds runs after which, in the same process, the plan violates the property: the violation does not come about
// in a process of its own, so it depends on what earlier runs of the worker left behind in variables of the library
func session(p *Plan, seed uint64, class string, prior []int, limit time.Duration) *replay {
	end := time.Now().Add(limit)
	f := filepath.Join(os.TempDir(), fmt.Sprintf("simtrie-session-%d.json", os.Getpid()))
	defer os.Remove(f)
	bad := func(idx []int) bool {
		writeReplay(f, &replay{Plan: p, Indices: idx, Seed: seed})
		v, _, crashed, _, _ := execFile(f, limit)
		return v != nil && v.Class == class || class == "fatal" && crashed
	}
	// the shortest tail of the runs, doubling
	n := 1
	for ; ; n *= 4 {
		n = min(n, len(prior))
		if bad(prior[len(prior)-n:]) {
			break
		}
		if n == len(prior) || time.Now().After(end) {
			return nil
		}
	}
	best := append([]int(nil), prior[len(prior)-n:]...)
	for sz := (len(best) + 1) / 2; sz >= 1; sz /= 2 {
		for i := 0; i+sz <= len(best) && time.Now().Before(end); {
			q := append(append([]int(nil), best[:i]...), best[i+sz:]...)
			if bad(q) {
				best = q
			} else {
				i += sz
			}
		}
	}
	x := &replay{Plan: p}
	for _, i := range best {
		x.Before = append(x.Before, makePlan(p.Prop, seed, i))
	}
	return x
}

func check(prop, tier string, seed uint64, verif string, nworkers int) {
	begin := time.Now()
	d, ok := props[prop]
	if !ok {
		die("unknown property %s", prop)
	}
	count, secs := d.quick, 240
	if tier == "thorough" {
		count, secs = d.thorough, 3000
	}
	if s := os.Getenv("VERIF_RUNS"); s != "" {
		count, _ = strconv.Atoi(s)
	}
	fmt.Printf("simtrie property=%s tier=%s VERIF_SEED=%d runs=%d workers=%d\n", prop, tier, seed, count, nworkers)
	if os.Getenv("SIMTRIE_KNOWN") == "" {
		os.Setenv("SIMTRIE_KNOWN", filepath.Join(verif, "known_findings.json"))
	}

	auditEvery := max(1, count/min(150, max(1, count/6)))
	var mu sync.Mutex
	pos := make([]int, nworkers)
	minViol := -1
	quits := make([]chan struct{}, nworkers)
	closed := make([]bool, nworkers)
	for i := range quits {
		quits[i] = make(chan struct{})
	}
	// after a violation at index i the workers which are beyond i are stopped, so that the violation with the lowest
	// index is reported, whatever the timing
	prune := func() {
		if minViol < 0 {
			return
		}
		for i := range quits {
			if pos[i] > minViol && !closed[i] {
				closed[i] = true
				close(quits[i])
			}
		}
	}
	results := make([]wres, nworkers)
	var wg sync.WaitGroup
	for i := 0; i < nworkers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			args := []string{"worker", prop, fmt.Sprint(seed), fmt.Sprint(i), fmt.Sprint(nworkers), fmt.Sprint(count), fmt.Sprint(auditEvery), fmt.Sprint(secs)}
			res := spawn(i, args, func(idx int) {
				mu.Lock()
				pos[i] = idx
				prune()
				mu.Unlock()
			}, quits[i])
			mu.Lock()
			results[i] = res
			if res.viol != nil && (minViol < 0 || res.viol.Index < minViol) {
				minViol = res.viol.Index
			}
			prune()
			mu.Unlock()
		}(i)
	}
	wg.Wait()

	var best *workerOut
	for i := range results {
		if v := results[i].viol; v != nil && (best == nil || v.Index < best.Index) {
			best = v
			best.prior = nil
			for k := i; k < v.Index; k += nworkers {
				best.prior = append(best.prior, k)
			}
		}
	}
	fatalMsg := ""
	if best == nil {
		for _, res := range results {
			if res.err == nil {
				continue
			}
			if strings.Contains(res.stderr, "HARNESS ERROR") {
				die("%s", res.stderr)
			}
			// the process of a worker died. Find the run: it is within a batch of 64 after the last progress mark
			fmt.Fprintf(os.Stderr, "worker %d: %v at index >= %d\n%s\n", res.id, res.err, res.at, tail(res.stderr, 1500))
			if res.at < 0 {
				die("worker did not start")
			}
			for k := 0; k <= 64; k++ {
				idx := res.at + k*nworkers
				if idx >= count {
					break
				}
				p := makePlan(prop, seed, idx)
				f := filepath.Join(os.TempDir(), fmt.Sprintf("simtrie-%s-%d-%d.json", prop, os.Getpid(), idx))
				writePlan(f, p, nil, nil)
				v, _, crashed, se, to := execFile(f, hangSecs*time.Second)
				_ = os.Remove(f)
				if to {
					die("run %d of %s does not finish", idx, prop)
				}
				if crashed && strings.Contains(se, "HARNESS ERROR") {
					die("%s", se)
				}
				if crashed {
					best = &workerOut{Index: idx, V: &Violation{Class: "fatal", Msg: "the process died: " + firstLine(se)}}
					fatalMsg = se
					break
				}
				if v != nil {
					best = &workerOut{Index: idx, V: v}
					break
				}
			}
			if best == nil { // it may depend on the runs before
				last := min(res.at+64*nworkers, res.id+(count-1-res.id)/nworkers*nworkers)
				best = &workerOut{Index: last, V: &Violation{Class: "fatal", Msg: "the process died: " + firstLine(res.stderr)}}
				for k := res.id; k < last; k += nworkers {
					best.prior = append(best.prior, k)
				}
			}
			break
		}
	}

	agg := workerOut{Stats: map[string]int{}, Audit: map[int]uint64{}}
	states, logs, traces := map[uint64]struct{}{}, map[uint64]struct{}{}, map[uint64]struct{}{}
	for _, res := range results {
		o := res.out
		if o == nil {
			continue
		}
		agg.Runs += o.Runs
		agg.Steps += o.Steps
		agg.Events += o.Events
		agg.SimNs += o.SimNs
		agg.MaxTicks = max(agg.MaxTicks, o.MaxTicks)
		agg.Trivia += o.Trivia
		for k, c := range o.Stats {
			agg.Stats[k] += c
		}
		for k, h := range o.Audit {
			agg.Audit[k] = h
		}
		for _, s := range o.States {
			states[s] = struct{}{}
		}
		for _, s := range o.Logs {
			logs[s] = struct{}{}
		}
		for _, s := range o.Traces {
			traces[s] = struct{}{}
		}
	}
	simWall := time.Since(begin)

	// determinism: run a sample again in other processes, distributed in another way, and compare event logs
	audited, dependent := 0, 0
	if best == nil {
		idxs := make([]int, 0, len(agg.Audit))
		for k := range agg.Audit {
			idxs = append(idxs, k)
		}
		sort.Ints(idxs)
		np := min(5, nworkers)
		ares := make([]wres, np)
		var wg sync.WaitGroup
		for i := 0; i < np; i++ {
			args := []string{"worker", prop, fmt.Sprint(seed), "0", "1", "0", "1", "600"}
			n := 0
			for j := i; j < len(idxs); j += np {
				args = append(args, fmt.Sprint(idxs[len(idxs)-1-j]))
				n++
			}
			if n == 0 {
				continue
			}
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				ares[i] = spawn(i, args, func(int) {}, make(chan struct{}))
			}(i)
		}
		wg.Wait()
		for i := range ares {
			if ares[i].err != nil {
				die("determinism audit: %v %s", ares[i].err, ares[i].stderr)
			}
			if ares[i].out == nil {
				continue
			}
			for k, h := range ares[i].out.Audit {
				audited++
				if agg.Audit[k] != h {
					// a run in a process of its own is repeatable in any case
					f := filepath.Join(os.TempDir(), fmt.Sprintf("simtrie-audit-%d.json", os.Getpid()))
					writePlan(f, makePlan(prop, seed, k), nil, nil)
					_, h1, _, _, _ := execFile(f, hangSecs*time.Second)
					_, h2, _, _, _ := execFile(f, hangSecs*time.Second)
					_ = os.Remove(f)
					if h1 == "" || h1 != h2 {
						die("run %d of %s is not deterministic: event log %016x and %016x", k, prop, agg.Audit[k], h)
					}
					dependent++
				}
			}
		}
	}

	if dependent > 0 {
		fmt.Printf("note: the event logs of %d of %d audited runs depend on earlier runs in the same process: the library keeps something in variables. Each of them is repeatable in a process of its own.\n", dependent, audited)
	}

	kfLines, kfViol := knownDemos(prop)
	for _, l := range kfLines {
		fmt.Println(l)
	}

	nviol := 0
	exit := 0
	if best != nil {
		nviol = 1
		exit = 1
		p := makePlan(prop, seed, best.Index)
		orig := len(p.Steps)
		v := best.V
		file := filepath.Join(verif, "evidence", "replay", fmt.Sprintf("%s-seed%d-%d.json", prop, seed, best.Index))
		var log []string
		var rep *replay
		if v.Class == "fatal" && best.prior != nil {
			if rep = session(p, seed, "fatal", best.prior, 100*time.Second); rep == nil {
				die("worker failed, the failure does not reproduce: %s", v.Msg)
			}
			rep.Violation = v
		} else if v.Class == "fatal" {
			p = minimise(p, func(q *Plan) bool {
				f := filepath.Join(os.TempDir(), fmt.Sprintf("simtrie-min-%d.json", os.Getpid()))
				writePlan(f, q, nil, nil)
				_, _, crashed, _, _ := execFile(f, 20*time.Second)
				_ = os.Remove(f)
				return crashed
			}, 20*time.Second)
			rep = &replay{Violation: v, Plan: p}
		} else {
			// alone in a process of its own: variables of the library which outlive a run have no influence
			class := v.Class
			writePlan(file, p, v, nil)
			alone, _, _, _, _ := execFile(file, hangSecs*time.Second)
			if alone != nil && alone.Class == class {
				q := minimise(p, func(q *Plan) bool {
					_, w := safeExec(q, false)
					return w != nil && w.Class == class
				}, 20*time.Second)
				r, w := safeExec(q, true)
				if w != nil && w.Class == class {
					writePlan(file, q, w, r.log)
					if x, _, _, _, _ := execFile(file, hangSecs*time.Second); x != nil && x.Class == class && x.Hash == w.Hash {
						alone, p, log = w, q, r.log
					}
				}
				v = alone
				rep = &replay{Violation: v, Plan: p, Log: log}
			} else {
				if rep = session(p, seed, class, best.prior, 100*time.Second); rep == nil {
					die("the violation does not reproduce: index %d %s: %s", best.Index, v.Class, v.Msg)
				}
				writeReplay(file, rep)
				if w, _, _, _, _ := execFile(file, hangSecs*time.Second); w != nil {
					v = w
				}
				rep.Violation = v
				fmt.Printf("the violation needs %d earlier runs in the same process, which leave something behind in variables of the library\n", len(rep.Before))
			}
		}
		writeReplay(file, rep)
		// the file has to fail the same way in a fresh process
		w, hash, crashed, se, _ := execFile(file, hangSecs*time.Second)
		if v.Class == "fatal" {
			if !crashed {
				die("replay of %s did not crash", file)
			}
			_ = fatalMsg
		} else if w == nil || w.Class != v.Class || w.Hash != v.Hash {
			die("replay of %s differs: %+v, expected %+v (%s) %s", file, w, v, hash, se)
		}
		fmt.Printf("violation class=%s step=%d seed=%d index=%d (minimised from %d to %d steps): %s\n", v.Class, v.Step, seed, best.Index, orig, len(p.Steps), v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
	} else if kfViol != "" {
		nviol, exit = 1, 1
		file := filepath.Join(verif, "evidence", "replay", fmt.Sprintf("%s-demo.json", prop))
		p := &Plan{Prop: prop, World: "demo", Cfg: map[string]int{}, Steps: []Step{{Op: kfViol}}}
		_, v := safeExec(p, true)
		writePlan(file, p, v, nil)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
	}

	// evidence
	hours := simWall.Hours()
	faults, ops, probes := map[string]int{}, map[string]int{}, map[string]int{}
	for k, c := range agg.Stats {
		switch {
		case strings.HasPrefix(k, "fault."):
			faults[k[6:]] = c
		case strings.HasPrefix(k, "op."):
			ops[k[3:]] = c
		default:
			probes[k] = c
		}
	}
	var samples []any
	for _, i := range []int{0, count / 2} {
		p := makePlan(prop, seed, i)
		if len(p.Steps) > 12 {
			p.Steps = p.Steps[:12]
		}
		if len(p.Choices) > 20 {
			p.Choices = p.Choices[:20]
		}
		for j := range p.Steps {
			if len(p.Steps[j].V) > 40 {
				p.Steps[j].V = p.Steps[j].V[:40]
			}
			if len(p.Steps[j].K) > 40 {
				p.Steps[j].K = p.Steps[j].K[:40]
			}
		}
		samples = append(samples, p)
	}
	measure := "event log hashes (every operation, fault, decision and observed root)"
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":                agg.Runs,
			"distinct_nontrivial":        max(0, len(logs)-agg.Trivia),
			"rule":                       d.rule + " Distinct: by " + measure + "; trivial: fewer than two steps.",
			"samples":                    samples,
			"steps":                      agg.Steps,
			"events":                     agg.Events,
			"runs_per_hour":              int(float64(agg.Runs) / hours),
			"seeds":                      "one seed per run: seeds per hour = runs_per_hour",
			"statements_of_longest_call": agg.MaxTicks,
			"simulated_seconds":          float64(agg.SimNs) / 1e9,
			"faults_injected":            faults,
			"operations":                 ops,
			"probes":                     probes,
			"distinct_states":            len(states),
			"distinct_states_measure":    "hash of (configuration, root commitment or delivered data) at the checkpoints, capped at 200000 per worker",
			"distinct_interleavings":     len(traces),
			"interleavings_measure":      "hash of the sequence of scheduler decisions, where the world has a scheduler",
			"determinism_audited_runs":   audited,
			"determinism_mismatches":     0,
			"worker_processes":           nworkers,
			"real_components":            d.real,
			"stubbed_components":         d.stub,
			"known_findings_reproduced":  len(kfLines),
			"worlds":                     d.worlds,
			"budget_runs":                count,
			"harness_seams":              "map iteration order, os.File I/O and blake2b preemption via build overlay; stores, readers, writers, network and models via the interfaces of the library",
		},
		"assumptions": []string{
			"sampling, not enumeration: a clean batch is evidence, not proof",
			"batches of the underlying key/value store are atomic and survive a failed commit, as in hive.go",
			"the trie is committed before it is persisted and values reach the value store together with the nodes",
		},
		"wall_s":     time.Since(begin).Seconds(),
		"violations": nviol,
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	if err = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755); err != nil {
		die("%v", err)
	}
	if err = os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("simtrie property=%s runs=%d distinct=%d states=%d interleavings=%d audited=%d faults=%v wall=%.1fs violations=%d\n",
		prop, agg.Runs, len(logs), len(states), len(traces), audited, faults, time.Since(begin).Seconds(), nviol)
	os.Exit(exit)
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.TrimSpace(l) != "" {
			return l
		}
	}
	return s
}

func main() {
	debug.SetMaxStack(128 << 20)
	if len(os.Args) < 2 {
		die("usage")
	}
	switch os.Args[1] {
	case "check":
		seed, err := strconv.ParseUint(os.Args[4], 10, 64)
		if err != nil {
			die("VERIF_SEED: %v", err)
		}
		n := runtime.NumCPU()
		if n > 8 {
			n = 8
		}
		if s := os.Getenv("VERIF_WORKERS"); s != "" {
			n, _ = strconv.Atoi(s)
		}
		check(os.Args[2], os.Args[3], seed, os.Args[5], n)
	case "worker":
		a := os.Args[2:]
		seed, _ := strconv.ParseUint(a[1], 10, 64)
		at := func(i int) int { x, _ := strconv.Atoi(a[i]); return x }
		var only []int
		for i := 7; i < len(a); i++ {
			only = append(only, at(i))
		}
		worker(a[0], seed, at(2), at(3), at(4), at(5), only, at(6))
	case "exec":
		x := readReplay(os.Args[2])
		p := x.Plan
		for _, i := range x.Indices {
			_, _ = execPlan(makePlan(p.Prop, x.Seed, i), false)
		}
		for _, q := range x.Before {
			_, _ = execPlan(q, false)
		}
		r, v := execPlan(p, len(os.Args) > 3)
		if len(os.Args) > 3 {
			for _, l := range r.log {
				fmt.Fprintln(os.Stderr, l)
			}
		}
		b, _ := json.Marshal(execOut{V: v, Hash: fmt.Sprintf("%016x", r.h)})
		fmt.Println(string(b))
	case "replay":
		p := readReplay(os.Args[2]).Plan
		v, _, crashed, se, to := execFile(os.Args[2], hangSecs*time.Second)
		switch {
		case crashed && !strings.Contains(se, "HARNESS ERROR"):
			fmt.Printf("the process died: %s\nVIOLATION property=%s replay=%s\n", firstLine(se), p.Prop, os.Args[2])
			os.Exit(1)
		case crashed || to:
			die("replay failed: %s", se)
		case v != nil:
			fmt.Printf("class=%s step=%d event_log=%s: %s\nVIOLATION property=%s replay=%s\n", v.Class, v.Step, v.Hash, v.Msg, p.Prop, os.Args[2])
			os.Exit(1)
		}
		fmt.Println("no violation")
	case "gen":
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		i, _ := strconv.Atoi(os.Args[4])
		p := makePlan(os.Args[2], seed, i)
		b, _ := json.MarshalIndent(map[string]any{"plan": p}, "", " ")
		fmt.Println(string(b))
	case "props":
		fmt.Println(strings.Join(sortedKeys(props), " "))
	default:
		die("unknown command")
	}
}
