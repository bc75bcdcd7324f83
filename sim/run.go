package main

import (
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
	_ "unsafe"

	"github.com/iotaledger/hive.go/core/kvstore"
)

//go:linkname simSetMapSeed internal/runtime/maps.simSetMapSeed
func simSetMapSeed(x uint64)

// Hex is a byte slice written as hex in the replay file
type Hex []byte

func (h Hex) MarshalJSON() ([]byte, error) { return json.Marshal(hex.EncodeToString(h)) }
func (h *Hex) UnmarshalJSON(b []byte) error {
	var s string
	if err := json.Unmarshal(b, &s); err != nil {
		return err
	}
	x, err := hex.DecodeString(s)
	*h = x
	return err
}

// Fault is an explicit fault descriptor attached to a step
type Fault struct {
	Kind string `json:"kind"`
	A    int    `json:"a,omitempty"`
	B    int    `json:"b,omitempty"`
}

// Step is one operation of the workload together with the faults which hit it
type Step struct {
	Op string  `json:"op"`
	K  Hex     `json:"k,omitempty"`
	V  Hex     `json:"v,omitempty"`
	A  int     `json:"a,omitempty"`
	B  int     `json:"b,omitempty"`
	C  int     `json:"c,omitempty"`
	F  []Fault `json:"f,omitempty"`
	L  []Hex   `json:"l,omitempty"` // further keys/values
}

// Plan is one run: workload, faults and schedule. Running a plan is a pure function of the plan and the code
type Plan struct {
	Prop    string         `json:"property"`
	World   string         `json:"world"`
	Index   int            `json:"index"`
	Seed    uint64         `json:"seed"`
	MapSeed uint64         `json:"mapseed"`
	Cfg     map[string]int `json:"cfg"`
	Steps   []Step         `json:"steps"`
	Choices []int          `json:"choices,omitempty"` // decisions of the scheduler
}

// Violation is what a run found
type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Step  int    `json:"step"`
	Hash  string `json:"event_log_hash"`
}

type violationPanic struct{ class, msg string }

// injected is the panic value / error of an injected fault
type injected struct{ what string }

func (e *injected) Error() string { return "injected fault: " + e.what }

// injErrs are the other errors which have been injected in the run: the ones which a database or an operating system returns
var injErrs []error

// ioErr is the error of a failing operation. Real errors come in many shapes, and some of them look like harmless ones
func (r *Run) ioErr(op, what string) error {
	r.nerr++
	n := (r.nerr + int(r.p.MapSeed>>7)) % 4
	if n < 0 {
		n += 4
	}
	var e error
	path := func(no syscall.Errno) error { return &os.PathError{Op: op, Path: "data", Err: no} }
	switch op {
	case "open":
		e = []error{nil, path(syscall.EACCES), path(syscall.ENOENT), path(syscall.EMFILE)}[n]
	case "read":
		e = []error{nil, io.ErrUnexpectedEOF, path(syscall.EIO), os.ErrDeadlineExceeded}[n]
	case "write":
		e = []error{nil, io.ErrShortWrite, path(syscall.ENOSPC), path(syscall.EIO)}[n]
	case "close":
		e = []error{nil, path(syscall.EIO), path(syscall.EDQUOT), nil}[n]
	case "db":
		e = []error{nil, kvstore.ErrStoreClosed, fmt.Errorf("read block: %w", os.ErrNotExist), errors.New("key not found in the index: the table is damaged")}[n]
	}
	if e == nil {
		return &injected{what}
	}
	injErrs = append(injErrs, e)
	return e
}

// crashNow unwinds the stack when the simulated process dies
type crashNow struct{}

// hangPanic is raised when the budget of store/model operations of a call is exhausted
type hangPanic struct{}

// Run is the context of one simulated run
type Run struct {
	scratch   string // scratch directory of the run
	p         *Plan
	step      int
	h         uint64 // event log hash
	nev       int
	log       []string
	keep      bool
	st        map[string]int // counters
	states    map[uint64]struct{}
	nerr      int
	budget    int   // operations left before the call is declared hung
	tickLimit int64 // statements one call may execute if more than tickBudget
	simNs     int64 // simulated time
	chRound   int
	chIdx     int
	trace     uint64 // interleaving hash
	conc      bool   // the caller is a task of the scheduler
	stuck     string // a deadlock which was reported
	depth     int    // nesting of the library calls
	lastTicks int64  // statements of the library executed by the last call
	maxTicks  int64  // statements of the library executed by the longest call
	world     any
}

func (r *Run) cfg(name string) int { return r.p.Cfg[name] }
func (r *Run) on(name string) bool { return r.p.Cfg[name] != 0 }

func (r *Run) ev(format string, a ...any) {
	s := fmt.Sprintf(format, a...)
	r.h = hashStr(r.h, s)
	r.nev++
	if r.keep {
		r.log = append(r.log, fmt.Sprintf("[%d] %s", r.step, s))
	}
}

// note adds to the hash of the event log without a line in the log
func (r *Run) note(kind, s string) { r.h = hashStr(r.h, kind+s) }

func (r *Run) count(name string)         { r.st[name]++ }
func (r *Run) countN(name string, n int) { r.st[name] += n }

func (r *Run) state(h uint64) {
	if len(r.states) < 4096 {
		r.states[h] = struct{}{}
	}
}

func (r *Run) fail(class, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 2000 {
		msg = msg[:2000] + "..."
	}
	panic(violationPanic{class, msg})
}

func (r *Run) check(cond bool, class, format string, a ...any) {
	if !cond {
		r.fail(class, format, a...)
	}
}

// choice takes the next decision of the scheduler, 0 when the list is exhausted
func (r *Run) choice(n int) int {
	if n <= 1 {
		return 0
	}
	c := 0
	if r.chIdx >= len(r.p.Choices) && r.chRound < r.p.Cfg["repeat"] {
		r.chIdx = 0
		r.chRound++
	}
	if r.chIdx < len(r.p.Choices) {
		c = r.p.Choices[r.chIdx]
		r.chIdx++
	}
	c %= n
	if c < 0 {
		c += n
	}
	r.trace = mix64(r.trace*31 + uint64(c) + 1)
	return c
}

// Outcome of a call into the library
type Outcome struct {
	panicked bool
	val      any
	injected bool // the panic is the injected fault itself
	crash    bool
	where    string
}

func (o Outcome) String() string {
	if !o.panicked {
		return "ok"
	}
	return fmt.Sprintf("panic: %v%s", o.val, o.where)
}

const callBudget = 3_000_000

// tickBudget is the number of statements of the library one call may execute
const tickBudget = 400_000_000

// try calls into the library. A panic of the library is captured; exhaustion of the operation budget is a hang
func (r *Run) try(f func()) (o Outcome) {
	if r.depth == 0 && !r.conc {
		r.budget = callBudget
		os.SimTicks = max(tickBudget, r.tickLimit)
	}
	r.depth++
	defer func() {
		r.depth--
		if r.depth == 0 && !r.conc {
			r.lastTicks = max(tickBudget, r.tickLimit) - os.SimTicks
			r.maxTicks = max(r.maxTicks, r.lastTicks)
			os.SimTicks = 1 << 60
		}
		v := recover()
		if v == nil {
			return
		}
		switch x := v.(type) {
		case violationPanic, stopTask:
			panic(x)
		case hangPanic:
			if r.depth > 0 {
				panic(x)
			}
			r.fail("hang", "the call did not finish within %d statements and %d operations of the store", max(tickBudget, r.tickLimit), callBudget)
		case crashNow:
			o = Outcome{panicked: true, crash: true, val: "simulated crash"}
			return
		}
		o = Outcome{panicked: true, val: v, where: where()}
		if e, ok := v.(error); ok {
			var inj *injected
			if asInjected(e, &inj) {
				o.injected = true
			}
		}
	}()
	f()
	return
}

func asInjected(e error, out **injected) bool {
	for e != nil {
		if x, ok := e.(*injected); ok {
			*out = x
			return true
		}
		for _, x := range injErrs {
			if x == e {
				*out = &injected{e.Error()}
				return true
			}
		}
		switch u := e.(type) {
		case interface{ Unwrap() error }:
			e = u.Unwrap()
		case interface{ Unwrap() []error }:
			for _, s := range u.Unwrap() {
				if asInjected(s, out) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// must calls into the library where no panic is legitimate
func (r *Run) must(what string, f func()) {
	o := r.try(f)
	if o.crash {
		panic(crashNow{})
	}
	if o.panicked {
		r.fail("panic", "%s: %s", what, o)
	}
}

func where() string {
	pcs := make([]uintptr, 40)
	n := runtime.Callers(4, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	var sb strings.Builder
	k := 0
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "iotaledger/trie.go") {
			fn := f.Function[strings.LastIndex(f.Function, "/")+1:]
			sb.WriteString(" < " + fn)
			if k++; k >= 4 {
				break
			}
		}
		if !more {
			break
		}
	}
	return sb.String()
}

func (r *Run) op() {
	r.budget--
	if r.budget < 0 && r.depth > 0 {
		panic(hangPanic{})
	}
}

// stopTask unwinds a suspended task when the run is over
type stopTask struct{}

// World is a simulated system: a generator of plans and an interpreter
type World struct {
	gen func(p *Plan, rng *Rng)
	run func(r *Run)
}

// execPlan runs the plan in this process
func execPlan(p *Plan, keep bool) (r *Run, v *Violation) {
	w := worlds[p.World]
	r = &Run{p: p, keep: keep, st: map[string]int{}, states: map[uint64]struct{}{}, h: 0xcbf29ce484222325, budget: callBudget}
	injErrs = nil
	simSetMapSeed(p.MapSeed | 1)
	sync.SimPoolReset()
	defer simSetMapSeed(1)
	os.SimTicks = 1 << 60
	os.SimHookTick = func() { panic(hangPanic{}) }
	setLockHooks(r.soloLocks())
	defer setLockHooks(nil, nil)
	defer func() {
		if v == nil && r.stuck != "" { // somebody recovered from the report
			v = &Violation{Class: "deadlock", Msg: r.stuck, Step: r.step, Hash: fmt.Sprintf("%016x", r.h)}
		}
	}()
	defer func() {
		if x := recover(); x != nil {
			clearHooks()
			switch e := x.(type) {
			case violationPanic:
				r.ev("VIOLATION %s", e.class)
				v = &Violation{Class: e.class, Msg: e.msg, Step: r.step}
			case harnessPanic:
				panic(e)
			default:
				if libraryPanic() {
					r.ev("VIOLATION panic")
					v = &Violation{Class: "panic", Msg: fmt.Sprintf("unexpected panic: %v%s", x, where()), Step: r.step}
					break
				}
				panic(fmt.Sprintf("HARNESS ERROR prop %s world %s index %d step %d: %v\n%s", p.Prop, p.World, p.Index, r.step, x, stack()))
			}
			if r.scratch != "" { // the name of the scratch directory is random
				v.Msg = strings.ReplaceAll(v.Msg, r.scratch, "SCRATCH")
			}
			v.Hash = fmt.Sprintf("%016x", r.h)
		}
	}()
	w.run(r)
	clearHooks()
	return r, nil
}

type harnessPanic string

func setLockHooks(mu func(*sync.Mutex) bool, rw func(*sync.RWMutex, bool) bool) {
	sync.SimHookLock, sync.SimHookRWLock = mu, rw
}

// soloLocks are the lock hooks while there are no tasks: a lock which is taken now was left behind by an operation which
// is over (it failed, for example), so nobody will ever release it
func (r *Run) soloLocks() (func(*sync.Mutex) bool, func(*sync.RWMutex, bool) bool) {
	me := goid()
	take := func(try func() bool) bool {
		if try() {
			return true
		}
		if goid() != me {
			return false
		}
		for i := 0; i < 300; i++ { // locks of the runtime environment may be held by its other goroutines for a moment
			time.Sleep(time.Duration(min(i, 10)) * time.Millisecond)
			if try() {
				return true
			}
		}
		r.stuck = "waiting for a lock which nobody is going to release" + where()
		r.fail("deadlock", "%s", r.stuck)
		return false
	}
	return func(m *sync.Mutex) bool { return take(m.TryLock) }, func(m *sync.RWMutex, read bool) bool {
		if read {
			return take(m.TryRLock)
		}
		return take(m.TryLock)
	}
}

// libraryPanic tells whether the panic being recovered was raised below the library, not by the simulator
func libraryPanic() bool {
	pcs := make([]uintptr, 60)
	n := runtime.Callers(3, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		switch {
		case strings.HasPrefix(f.Function, "runtime."):
		case strings.HasPrefix(f.Function, "main."):
			return false
		case strings.Contains(f.Function, "iotaledger/trie.go"):
			return true
		}
		if !more {
			return false
		}
	}
}

func stack() string {
	b := make([]byte, 1<<14)
	return string(b[:runtime.Stack(b, false)])
}

// nextStep announces the step: map iteration order changes from step to step as a function of the plan
func (r *Run) nextStep(i int) *Step {
	r.step = i
	simSetMapSeed(mix64(r.p.MapSeed+uint64(i)*0x9e37) | 1)
	s := &r.p.Steps[i]
	r.ev("%s %x %x %d %d %d %v %x", s.Op, []byte(s.K), []byte(s.V), s.A, s.B, s.C, s.F, s.L)
	r.count("op." + s.Op)
	return s
}
