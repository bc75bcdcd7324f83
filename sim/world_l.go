package main

import (
	"bytes"
	"fmt"
	"os"
	"strconv"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
)

// World L: a large state on a slow disk. Every access to the disk takes simulated time, every statement of the library
// counts. The cost of each operation is compared with the paths of the keys it is about; the size of the state, what is
// in the buffer and what happened before (crashes, failed operations) must not matter.

const (
	lReadNs  = 100_000 // simulated time of a read
	lWriteNs = 20_000
)

func genL(p *Plan, rng *Rng) {
	c := p.Cfg
	genModelCfg(rng, c)
	c["share"] = rng.N(2)
	c["n"] = rng.Pick(300, 1000, 3000, 3000, 9000)
	c["style"] = int(rng.U64() >> 33)
	if rng.P(1, 25) {
		c["n"] = 30000
	}
	if c["arity"] == 2 {
		c["n"] = min(c["n"], 3000)
	}
	c["portion"] = rng.Pick(100, 2000, 30000)
	c["keep"] = rng.N(3) / 2 // the application does not discard what it has persisted
	seed := []byte(strconv.Itoa(c["style"]))
	ks, _ := many(seed, c["n"], false)
	key := func() []byte {
		k := []byte(ks[rng.N(len(ks))])
		switch rng.N(5) {
		case 0: // near to a key
			if len(k) > 0 {
				k[len(k)-1] ^= byte(1 << rng.N(8))
			}
		case 1:
			k = append(k, rng.Bytes(rng.N(3))...)
		case 2:
			k = k[:rng.N(len(k)+1)]
		}
		return k
	}
	run := key() // a neighbourhood
	n := rng.Pick(20, 40, 80)
	for i := 0; i < n; i++ {
		s := Step{Op: []string{"set", "del", "proof", "commit", "persist", "discard", "reopen", "reconcile", "bulk", "clone", "crash", "delnear"}[rng.W(24, 24, 12, 5, 4, 1, 2, 2, 2, 2, 2, 2)]}
		switch s.Op {
		case "set", "del", "proof":
			s.K, s.A = key(), rng.N(2)
			if rng.P(1, 3) {
				s.K = cat(run, rng.Bytes(rng.N(2)))
			}
			if s.Op == "set" {
				s.V = rng.Bytes(1 + rng.N(40))
			}
			if rng.P(1, 12) {
				s.F = append(s.F, Fault{Kind: rng.PickS("rd", "vrd"), A: 1 + rng.N(6)})
			}
		case "bulk", "reconcile":
			for j := rng.Pick(1, 4, 30); j > 0; j-- {
				s.L = append(s.L, key())
			}
		case "delnear": // all the keys next to one, whose common parent has many modified children
			s.K = key()
		case "commit", "persist", "clone":
			s.A = rng.N(2)
		}
		p.Steps = append(p.Steps, s)
	}
	p.Steps = append(p.Steps, Step{Op: "commit"}, Step{Op: "persist"})
}

type lWorld struct {
	r             *Run
	p             Params
	store, vstore *simKV
	tr            *trie.Trie
	cur, durable  map[string]string
	union         *refNode // the trie of all the keys which ever occur: paths in it are at least as long as in any state
	height        int
	sinceCommit   lCost
	sinceDiscard  lCost
}

// lCost is a bound: reads, writes and statements
type lCost struct{ reads, writes, ticks int }

func (c *lCost) add(d lCost) {
	c.reads, c.writes, c.ticks = c.reads+d.reads, c.writes+d.writes, c.ticks+d.ticks
}

func runL(r *Run) {
	w := &lWorld{r: r, p: paramsOf(r.p.Cfg), store: newSimKV(r), vstore: newSimKV(r), cur: map[string]string{}}
	w.store.share, w.vstore.share = r.on("share"), r.on("share")
	ks, vs := many([]byte(strconv.Itoa(r.cfg("style"))), r.cfg("n"), false)
	all := map[string]string{}
	for i, k := range ks {
		w.cur[k], all[k] = vs[i], "x"
	}
	for _, s := range r.p.Steps {
		switch s.Op {
		case "set", "del", "proof":
			all[string(s.K)] = "x"
		case "bulk", "reconcile":
			for _, k := range s.L {
				all[string(k)] = "x"
			}
		}
	}
	w.union = refBuild(all, Params{Arity: w.p.Arity})
	w.height = w.union.height()
	// the state is loaded in portions, as an application would do it
	w.open()
	r.tickLimit = 5_000_000_000
	var kept lCost
	for i := 0; i < len(ks); {
		j := min(len(ks), i+max(100, r.cfg("portion")))
		l := &pairs{ks: ks[i:j], vs: vs[i:j]}
		var sum lCost
		for ; i < j; i++ {
			sum.add(w.cost([]byte(ks[i])))
		}
		bound := sum
		if r.on("keep") { // what is in the buffer is written again
			bound.writes += kept.writes
			bound.ticks += kept.writes * (100*w.p.Arity + 500)
		}
		w.measure("load", "loading the data", bound, func() {
			w.tr.UpdateAll(l)
			w.tr.Commit()
			w.tr.PersistMutations(w.store)
			if !r.on("keep") || i < len(ks)/2 {
				w.tr.ClearCache()
				kept = lCost{}
			} else {
				kept.add(sum)
			}
		})
		for x, k := range l.ks {
			w.vstore.m[k] = []byte(l.vs[x])
		}
	}
	r.tickLimit = 0
	w.durable = cloneMap(w.cur)
	r.countN("loaded_pairs", len(w.cur))
	w.discarded()
	if r.on("keep") {
		w.sinceDiscard = kept
	}
	for i := range r.p.Steps {
		w.do(r.nextStep(i))
		w.store.failRd, w.vstore.failRd = 0, 0
	}
	ref := refBuild(w.cur, w.p)
	w.root(ref)
}

func (n *refNode) height() int {
	h := 0
	for _, c := range n.children {
		h = max(h, c.height())
	}
	return h + 1
}

func (w *lWorld) discarded() {
	w.sinceCommit, w.sinceDiscard = lCost{}, lCost{}
}

func (w *lWorld) open() {
	w.r.must("open", func() { w.tr = trie.New(w.p.model(), w.store, w.vstore, w.p.Opt) })
	w.discarded()
}

// cost bounds the cost of an operation about the key: in proportion to the nodes of its path, their size (number of
// possible children) and the length of their keys. The factors are several times those of the current implementation
func (w *lWorld) cost(key []byte) lCost {
	u := refUnpack(key, w.p.Arity)
	full := len(u)
	d, wide := 0, 0
	for n := w.union; n != nil; {
		d++
		wide = max(wide, len(n.children))
		if len(u) <= len(n.frag) || !bytes.HasPrefix(u, n.frag) {
			break
		}
		u = u[len(n.frag):]
		n, u = n.children[int(u[0])], u[1:]
	}
	d += 2 // a new node, and the neighbour with which a node is merged
	return lCost{reads: 3 * d, writes: 2 * d, ticks: 8*d*(full+60) + 100*d*w.p.Arity + 40*wide*w.height}
}

// measure runs the operation and compares what it did with the bound
func (w *lWorld) measure(kind, what string, bound lCost, f func()) Outcome {
	r := w.r
	rd, wr := w.store.nrd+w.vstore.nrd, w.store.nwr+w.vstore.nwr
	r.lastTicks = 0
	o := r.try(f)
	rd, wr = w.store.nrd+w.vstore.nrd-rd, w.store.nwr+w.vstore.nwr-wr
	r.simNs += int64(rd)*lReadNs + int64(wr)*lWriteNs
	r.count("check.cost_" + kind)
	if lDebug != nil {
		lDebug(kind, rd, wr, int(r.lastTicks), bound)
	}
	r.check(rd <= bound.reads+8, "cost-reads", "%s of %d pairs, height %d: %d reads of the store, at most %d are explained by the paths of the keys", what, len(w.cur), w.height, rd, bound.reads+8)
	r.check(wr <= bound.writes+8, "cost-writes", "%s of %d pairs, height %d: %d writes, at most %d are explained by the paths of the keys", what, len(w.cur), w.height, wr, bound.writes+8)
	r.check(int(r.lastTicks) <= bound.ticks+4000, "cost-steps", "%s of %d pairs, height %d: %d statements, at most %d are explained by the paths of the keys", what, len(w.cur), w.height, r.lastTicks, bound.ticks+4000)
	return o
}

var lDebug func(kind string, rd, wr, ticks int, b lCost)

func init() {
	if os.Getenv("SIMTRIE_COST") != "" {
		best := map[string][3]float64{}
		lDebug = func(kind string, rd, wr, ticks int, b lCost) {
			m := best[kind]
			x := [3]float64{float64(rd) / float64(b.reads+8), float64(wr) / float64(b.writes+8), float64(ticks) / float64(b.ticks+2500)}
			for i := range x {
				if x[i] > m[i]+0.01 {
					m[i] = x[i]
					fmt.Fprintf(os.Stderr, "COST %s %d %.2f (rd %d wr %d ticks %d bound %v)\n", kind, i, x[i], rd, wr, ticks, b)
				}
			}
			best[kind] = m
		}
	}
}

func (w *lWorld) mutation(kind, what string, bound lCost, f func()) bool {
	bound.writes = -8
	o := w.measure(kind, what, bound, f)
	if o.injected {
		w.r.count("recovered.reopen_after_read_error")
		w.store.failRd, w.vstore.failRd = 0, 0
		w.cur = cloneMap(w.durable)
		w.open()
		return false
	}
	w.r.check(!o.panicked, "panic", "%s: %s", what, o)
	return true
}

func (w *lWorld) used(c lCost) {
	w.sinceCommit.add(c)
	w.sinceDiscard.add(c)
}

func (w *lWorld) do(s *Step) {
	r := w.r
	for _, f := range s.F {
		if f.Kind == "rd" {
			w.store.failRd = f.A
		} else {
			w.vstore.failRd = f.A
		}
	}
	switch s.Op {
	case "set":
		c := w.cost(s.K)
		w.used(c)
		if w.mutation("update", "an update in a trie", c, func() { w.tr.Update(s.K, s.V) }) {
			w.cur[string(s.K)] = string(s.V)
		}
	case "del":
		w.del(s.K)
	case "delnear":
		var near []string
		for k := range w.cur {
			if len(k) == len(s.K) && len(k) > 0 && k[:len(k)-1] == string(s.K[:len(k)-1]) {
				near = append(near, k)
			}
		}
		for _, k := range sortedKeys(setOf(near)) {
			w.del([]byte(k))
		}
	case "bulk":
		var ks, vs []string
		var sum lCost
		for i, k := range s.L {
			ks, vs = append(ks, string(k)), append(vs, strconv.Itoa(i))
			sum.add(w.cost(k))
		}
		w.used(sum)
		it := &pairs{ks: ks, vs: vs}
		if w.mutation("bulk", "a bulk update in a trie", sum, func() { w.tr.UpdateAll(it) }) {
			for i, k := range ks {
				w.cur[k] = vs[i]
			}
		}
	case "reconcile":
		var ks, vs []string
		var sum lCost
		for _, k := range s.L {
			ks, vs = append(ks, string(k)), append(vs, "1")
			sum.add(w.cost(k))
		}
		w.used(sum)
		it := &pairs{ks: ks, vs: vs}
		w.mutation("reconcile", "reconciling in a trie", sum, func() { _ = w.tr.Reconcile(it) })
	case "proof":
		w.proof(s)
	case "commit":
		w.commit()
	case "persist":
		if !w.commit() {
			break
		}
		bound := w.sinceDiscard
		bound.add(w.cost(nil))
		bound.reads = 0
		o := w.measure("persist", "persisting of changes in a trie", bound, func() { w.tr.PersistMutations(w.store) })
		r.check(!o.panicked, "panic", "persist: %s", o)
		w.values()
		w.durable = cloneMap(w.cur)
		if s.A == 1 {
			w.discard()
		}
	case "discard":
		w.discard()
	case "reopen", "crash":
		w.cur = cloneMap(w.durable)
		r.count("fault.crash")
		w.measure("open", "opening of a trie", lCost{}, func() {
			w.tr = trie.New(w.p.model(), w.store, w.vstore, w.p.Opt)
		})
		w.discarded()
	case "clone":
		b := w.sinceDiscard
		b.add(w.cost(nil))
		b.reads, b.writes = 0, -8
		var t *trie.Trie
		o := w.measure("clone", "a clone of a trie", b, func() { t = w.tr.Clone() })
		r.check(!o.panicked, "panic", "clone: %s", o)
		if s.A == 1 {
			w.tr = t
		}
	}
	b := w.cost(nil)
	w.used(b)
	b.writes = -8
	w.measure("root", "the root commitment of a trie", b, func() { _ = trie.RootCommitment(w.tr) })
}

func setOf(l []string) map[string]bool {
	m := map[string]bool{}
	for _, k := range l {
		m[k] = true
	}
	return m
}

func (w *lWorld) del(k []byte) {
	c := w.cost(k)
	w.used(c)
	if w.mutation("delete", "a deletion in a trie", c, func() { w.tr.Delete(k) }) {
		delete(w.cur, string(k))
	}
}

// values of the state go to the value store
func (w *lWorld) values() {
	for k, v := range w.cur {
		w.vstore.m[k] = []byte(v)
	}
	for k := range w.vstore.m {
		if _, ok := w.cur[k]; !ok {
			delete(w.vstore.m, k)
		}
	}
}

func (w *lWorld) discard() {
	o := w.measure("discard", "discarding the buffer of a trie", lCost{writes: -8, ticks: w.sinceDiscard.ticks}, func() { w.tr.ClearCache() })
	w.r.check(!o.panicked, "panic", "discard: %s", o)
	w.cur = cloneMap(w.durable)
	w.discarded()
}

func (w *lWorld) commit() bool {
	b := w.sinceCommit
	b.add(w.cost(nil))
	b.writes = -8
	if !w.mutation("commit", "a commit of a trie", b, func() { w.tr.Commit() }) {
		return false
	}
	w.sinceCommit = lCost{}
	return true
}

func (w *lWorld) proof(s *Step) {
	r := w.r
	m := w.p.blake()
	var ns trie.NodeStore = w.tr
	content := w.durable
	if s.A == 0 {
		ns = trie.NewTrieReader(m, w.store, w.vstore)
	} else {
		if !w.commit() {
			return
		}
		content = w.cur
	}
	c := w.cost(s.K)
	if s.A == 1 {
		w.used(c)
	}
	c.writes = -8
	if s.A == 0 {
		c.reads *= 2 // a reader keeps nothing
		c.ticks *= 2
	}
	var pr *trie_blake2b.Proof
	o := w.measure("proof"+strconv.Itoa(s.A), "a proof from a trie", c, func() { pr = m.Proof(s.K, ns) })
	if o.injected {
		r.count("recovered.proof_given_up")
		return
	}
	r.check(!o.panicked, "panic", "proof: %s", o)
	w.store.failRd, w.vstore.failRd = 0, 0
	c.reads, c.writes = -8, -8
	var err error
	var absent bool
	root := refRootOf(r, ns)
	w.measure("verify", "verification of a proof", c, func() {
		err = trie_blake2b_verify.Validate(pr, root)
		absent = trie_blake2b_verify.IsProofOfAbsence(pr)
	})
	_, present := content[string(s.K)]
	r.check(err == nil, "proof", "the proof of '%x' does not validate: %v", s.K, err)
	r.check(absent == !present, "proof", "the proof of '%x' says absent: %v, present: %v", s.K, absent, present)
}

func refRootOf(r *Run, ns trie.NodeStore) (b []byte) {
	r.must("root", func() { b = vbytes(trie.RootCommitment(ns)) })
	return
}

func (w *lWorld) root(ref *refNode) {
	var root trie.VCommitment
	w.r.must("root", func() { root = trie.RootCommitment(w.tr) })
	w.r.check(eqBytes(vbytes(root), ref.root()), "root", "root commitment %x, expected %x", vbytes(root), ref.root())
	w.r.ev("root %x", vbytes(root))
}
