package main

import (
	"bytes"
	"fmt"
	"iter"
	"os"
	"runtime"
	"strconv"
	"sync"
)

// Cooperative scheduler: each task is a coroutine, exactly one runs at a time. A task is preempted at a statement of the
// library (os.SimTick) after as many statements as the plan says, and where it would block on a lock. Who runs next and
// for how long is decided by the choices of the plan, so the interleaving is a function of the plan.

type task struct {
	id      int
	name    string
	next    func() (struct{}, bool)
	stop    func()
	yield   func(struct{}) bool
	goid    uint64
	done    bool
	blocked bool
	pan     any
	depth   int
	budget  int
	step    int
	used    int64 // statements executed by the current operation
	rdIn    int   // read of the store which fails
}

type sched struct {
	r      *Run
	tasks  []*task
	cur    *task
	gap    int64
	toEnd  bool
	nextAt int
}

// gaps in statements between preemptions. 0: until the operation ends
var gaps = []int64{0, 1, 2, 3, 5, 8, 13, 21, 40, 80, 160, 400, 1500}

func goid() uint64 {
	var b [40]byte
	s := b[:runtime.Stack(b[:], false)]
	s = s[len("goroutine "):]
	s = s[:bytes.IndexByte(s, ' ')]
	n, _ := strconv.ParseUint(string(s), 10, 64)
	return n
}

func (s *sched) spawn(name string, f func(t *task)) *task {
	t := &task{id: len(s.tasks), name: name, budget: callBudget}
	s.tasks = append(s.tasks, t)
	seq := func(yield func(struct{}) bool) {
		t.yield, t.goid = yield, goid()
		defer func() {
			if x := recover(); x != nil {
				switch e := x.(type) {
				case stopTask:
				case violationPanic:
					e.msg = fmt.Sprintf("task %d (%s): %s", t.id, t.name, e.msg)
					t.pan = e
				case crashNow, hangPanic:
					t.pan = x
				default:
					if libraryPanic() {
						t.pan = violationPanic{"panic", fmt.Sprintf("task %d (%s): unexpected panic: %v%s", t.id, t.name, x, where())}
					} else {
						t.pan = fmt.Sprintf("%v\n%s", x, stack())
					}
				}
			}
		}()
		f(t)
	}
	t.next, t.stop = iter.Pull(seq)
	return t
}

// pause suspends the current task
func (s *sched) pause(t *task) {
	if !t.yield(struct{}{}) {
		panic(stopTask{})
	}
}

func (s *sched) mine() *task {
	if s.cur == nil || goid() != s.cur.goid {
		return nil
	}
	return s.cur
}

func (s *sched) tick() {
	t := s.mine()
	if t == nil {
		os.SimTicks = tickBudget
		return
	}
	if s.toEnd {
		panic(hangPanic{})
	}
	s.r.count("preemptions")
	s.r.note("preempt", strconv.Itoa(t.id))
	s.pause(t)
}

// storeCall is the preemption point within a call of the database: the key is with the database and not looked up yet
func (s *sched) storeCall() {
	if s.mine() == nil || s.toEnd {
		return
	}
	if os.SimTicks -= 2; os.SimTicks <= 0 {
		s.tick()
	}
}

// acquire takes a lock on behalf of the current task, letting the others run while it is taken
func (s *sched) acquire(try func() bool) bool {
	if try() {
		return true
	}
	t := s.mine()
	if t == nil {
		return false
	}
	for i := 0; i < 100000; i++ {
		t.blocked = true
		s.pause(t)
		if try() {
			t.blocked = false
			return true
		}
	}
	s.r.fail("deadlock", "task %d (%s) waits for a lock forever", t.id, t.name)
	return false
}

// run interleaves the tasks until all of them are done
func (s *sched) run() {
	r := s.r
	r.conc = true
	prevTick := os.SimHookTick
	os.SimHookTick = s.tick
	soloMu, soloRW := sync.SimHookLock, sync.SimHookRWLock
	setLockHooks(func(m *sync.Mutex) bool { return s.acquire(m.TryLock) }, func(m *sync.RWMutex, read bool) bool {
		if read {
			return s.acquire(m.TryRLock)
		}
		return s.acquire(m.TryLock)
	})
	defer func() {
		s.cur = nil
		setLockHooks(soloMu, soloRW)
		os.SimHookTick = prevTick
		os.SimTicks = 1 << 60
		r.conc = false
		r.depth = 0
		for _, t := range s.tasks {
			t.stop()
		}
	}()
	for idle := 0; ; {
		var ready []*task
		nblocked := 0
		for _, t := range s.tasks {
			if t.done {
				continue
			}
			if t.blocked {
				nblocked++
			}
			ready = append(ready, t)
		}
		if len(ready) == 0 {
			return
		}
		t := ready[r.choice(len(ready))]
		if t.blocked { // the scheduler passes over blocked tasks in turn, so that the holder of the lock gets on
			s.nextAt++
			t = ready[s.nextAt%len(ready)]
		}
		if nblocked == len(ready) {
			if idle++; idle > 3*len(ready)+3 {
				r.fail("deadlock", "all of the %d unfinished tasks wait for locks", len(ready))
			}
		} else {
			idle = 0
		}
		s.gap = gaps[r.choice(len(gaps))]
		s.toEnd = s.gap == 0
		if s.toEnd {
			s.gap = tickBudget
		}
		s.cur = t
		r.depth, r.budget, r.step = t.depth, t.budget, t.step
		os.SimTicks = s.gap
		_, ok := t.next()
		left := os.SimTicks
		os.SimTicks = 1 << 60
		t.used += s.gap - left
		if t.used > r.maxTicks {
			r.maxTicks = t.used
		}
		s.cur = nil
		t.depth, t.budget, t.step = r.depth, r.budget, r.step
		r.trace = mix64(r.trace*31 + uint64(t.id) + uint64(s.gap-left)*977)
		if t.pan != nil {
			panic(t.pan)
		}
		if !ok {
			t.done = true
		}
		if t.used > tickBudget {
			r.fail("hang", "task %d (%s): the operation does not end within %d statements", t.id, t.name, tickBudget)
		}
	}
}

// opEnd is called by the task between its operations
func (s *sched) opEnd(t *task) {
	t.used = 0
	s.pause(t)
	t.used = 0
	s.r.budget = callBudget
}
