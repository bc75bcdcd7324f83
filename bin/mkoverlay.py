#!/usr/bin/env python3
"""Generate a go build -overlay that puts sources of nondeterminism and fault of the standard library behind seams.

usage: mkoverlay.py OUTDIR   (env GOROOT)

1. map iteration (internal/runtime/maps)

The Go runtime randomises (a) the hash key of the process, (b) a per-map hash
seed and (c) the start offset of every map iteration.  trie.go ranges over maps
on its write path, so these three decide the order in which nodes are visited
and written.  The overlay replaces only internal/runtime/maps: (a) and (b)
become constants, (c) becomes a pure function of one integer that the simulator
sets (simSetMapSeed).
2. file I/O (os): File.Read, File.Write, File.Close and OpenFile ask a hook, if one is set, which may shorten the
transfer or fail it.  The simulator uses it only for files in its scratch directory.
3. preemption and progress (os): SimTick, called before every statement of the instrumented packages (see
instr/main.go), counts down and calls a hook at zero.
4. locks (sync): Mutex and RWMutex ask a hook, if one is set, so that a simulated task which would block
yields to the others instead of blocking the process.
5. pools (sync): a Pool is a plain stack, emptied when the simulator starts a run (SimPoolReset). What a Get returns is
then a function of the Puts and Gets before, and a value which is put back too early is handed out at once.
Nothing in GOROOT, the module cache or /repo is modified.
Every patch must match; a mismatch is an error (other toolchain), never a
silently unpatched runtime.
"""
import json, os, re, sys

out = os.path.abspath(sys.argv[1])
goroot = os.environ["GOROOT"]
os.makedirs(out, exist_ok=True)
repl = {}


def patch(name, edits, src=None):
    src = src or goroot + "/src/internal/runtime/maps/"
    s = open(src + name).read()
    for pat, new, want in edits:
        s, n = re.subn(pat, new, s)
        if (want is None and n == 0) or (want is not None and n != want):
            sys.exit("mkoverlay: %s: pattern %r matched %d times" % (name, pat, n))
    dst = os.path.join(out, os.path.basename(src.rstrip("/")) + "_" + name + ".txt")
    open(dst, "w").write(s)
    repl[src + name] = dst


SEED = (r"\bm\.seed(?=[,)])", "simHashSeed", None)

patch("runtime.go", [
    (r"//go:linkname rand\nfunc rand\(\) uint64\n", """//go:linkname osrand internal/runtime/maps.rand
func osrand() uint64

const simHashSeed = uintptr(0x51ed27)

var simSeed uint64

//go:linkname simSetMapSeed
func simSetMapSeed(x uint64) { simSeed = x }

// simIterOffset is a pure function of the seed: it keeps no state, so no
// background goroutine can shift it.
func simIterOffset(salt uint64) uint64 {
	if simSeed == 0 {
		return osrand()
	}
	z := simSeed + salt*0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
""", 1),
    SEED,
])
patch("map.go", [(r"uintptr\(rand\(\)\)", "simHashSeed", 4), SEED])
patch("table.go", [
    (r"it\.entryOffset = rand\(\)", "it.entryOffset = simIterOffset(1)", 1),
    (r"it\.dirOffset = rand\(\)", "it.dirOffset = simIterOffset(2)", 1),
    SEED,
])
for f in ("runtime_fast32.go", "runtime_fast64.go", "runtime_faststr.go"):
    patch(f, [SEED])
patch("runtime_alg.go", [
    (r"func AlgInit\(\) \{\n", """func AlgInit() {
	// simulator build: constant hash key, portable hash
	for i := range hashkey {
		hashkey[i] = uintptr(uint64(0x9e3779b97f4a7c15)*uint64(i+1) | 1)
	}
}

func realAlgInit() {
""", 1),
])
patch("file.go", [
    (r"(func \(f \*File\) Read\(b \[\]byte\) \(n int, err error\) \{\n\tif err := f\.checkValid\(\"read\"\); err != nil \{\n\t\treturn 0, err\n\t\}\n)",
     r"""\1	if SimHookRead != nil && len(b) > 0 {
		k, e := SimHookRead(f.name, len(b))
		if e != nil {
			return 0, f.wrapErr("read", e)
		}
		b = b[:k]
	}
""", 1),
    (r"(func \(f \*File\) Write\(b \[\]byte\) \(n int, err error\) \{\n\tif err := f\.checkValid\(\"write\"\); err != nil \{\n\t\treturn 0, err\n\t\}\n)",
     r"""\1	if SimHookWrite != nil {
		if k, e := SimHookWrite(f.name, len(b)); e != nil {
			if k > 0 {
				k, _ = f.write(b[:k])
			}
			return k, f.wrapErr("write", e)
		}
	}
""", 1),
    (r"(func OpenFile\(name string, flag int, perm FileMode\) \(\*File, error\) \{\n)",
     r"""// simulator seams: nil unless the simulator sets them
var (
	SimHookRead  func(name string, n int) (int, error)
	SimHookWrite func(name string, n int) (int, error)
	SimHookOpen  func(name string, flag int) error
	SimHookClose func(name string) error

	// SimTicks counts down at every statement of the instrumented packages
	SimTicks    int64
	SimHookTick func()
)

// SimTick is called at every statement of the instrumented packages
func SimTick() {
	SimTicks--
	if SimTicks < 0 {
		simTickSlow()
	}
}

func simTickSlow() {
	if SimHookTick != nil {
		SimHookTick()
	} else {
		SimTicks = 1 << 60
	}
}

\1	if SimHookOpen != nil {
		if e := SimHookOpen(name, flag); e != nil {
			return nil, &PathError{Op: "open", Path: name, Err: e}
		}
	}
""", 1),
], goroot + "/src/os/")
patch("file_posix.go", [
    (r"(\treturn )f\.file\.close\(\)\n", r"""	if SimHookClose != nil {
		if e := SimHookClose(f.name); e != nil {
			_ = f.file.close()
			return &PathError{Op: "close", Path: f.name, Err: e}
		}
	}
	return f.file.close()
""", 1),
], goroot + "/src/os/")
patch("mutex.go", [
    (r"(func \(m \*Mutex\) Lock\(\) \{\n)", r"""// SimHookLock and SimHookRWLock: nil unless the simulator sets them. They take the lock, or report false
var (
	SimHookLock   func(m *Mutex) bool
	SimHookRWLock func(rw *RWMutex, read bool) bool
)

\1	if SimHookLock != nil && SimHookLock(m) {
		return
	}
""", 1),
], goroot + "/src/sync/")
patch("rwmutex.go", [
    (r"(func \(rw \*RWMutex\) RLock\(\) \{\n)", r"""\1	if SimHookRWLock != nil && SimHookRWLock(rw, true) {
		return
	}
""", 1),
    (r"(func \(rw \*RWMutex\) Lock\(\) \{\n)", r"""\1	if SimHookRWLock != nil && SimHookRWLock(rw, false) {
		return
	}
""", 1),
], goroot + "/src/sync/")
patch("pool.go", [
    (r"(type Pool struct \{\n)", r"""// SimPoolReset, simulator build: all the pools are empty from now on
func SimPoolReset() { rtatomic.Xadd64(&simPoolGen, 1) }

var simPoolGen uint64

func (p *Pool) simLock() {
	for !rtatomic.Cas(&p.simBusy, 0, 1) {
	}
	if g := rtatomic.Load64(&simPoolGen); g != p.simGen {
		p.simGen, p.simItems = g, nil
	}
}

func (p *Pool) simUnlock() { rtatomic.Store(&p.simBusy, 0) }

\1	simBusy  uint32
	simGen   uint64
	simItems []any

""", 1),
    (r"(func \(p \*Pool\) Put\(x any\) \{\n\tif x == nil \{\n\t\treturn\n\t\}\n)", r"""\1	if !race.Enabled {
		p.simLock()
		p.simItems = append(p.simItems, x)
		p.simUnlock()
		return
	}
""", 1),
    (r"(func \(p \*Pool\) Get\(\) any \{\n)", r"""\1	if !race.Enabled {
		var x any
		p.simLock()
		if n := len(p.simItems); n > 0 {
			x = p.simItems[n-1]
			p.simItems[n-1] = nil
			p.simItems = p.simItems[:n-1]
		}
		p.simUnlock()
		if x == nil && p.New != nil {
			x = p.New()
		}
		return x
	}
""", 1),
], goroot + "/src/sync/")
json.dump({"Replace": repl}, open(os.path.join(out, "overlay.json"), "w"), indent=1)
