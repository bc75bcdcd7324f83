package main

import (
	"bytes"
	"fmt"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
)

// World H: one process with a buffered trie over a simulated disk: histories of updates, commits, persistence, cache
// drops, crashes, reopenings with other options, clones, failing reads and writes.

func genH(p *Plan, rng *Rng) {
	c := p.Cfg
	prop := p.Prop
	genModelCfg(rng, c)
	if c["kzg"] == 0 && (prop == "C01" || prop == "C02" || prop == "C12" || prop == "C15") && rng.P(1, 60) {
		c["kzg"] = 1
		c["arity"] = 256
	}
	if prop == "C19" {
		c["kzg"] = 1
		c["arity"] = 256
	}
	c["scribble"] = rng.N(2)
	c["share"] = rng.N(2)
	c["atomic"] = rng.W(1, 3)
	c["novs"] = rng.N(2)
	c["memkv"] = rng.W(3, 1)
	if prop == "C02" {
		c["mirror"] = rng.N(4)
	}
	g := newKeyGen(rng, c["arity"])
	n := rng.Pick(6, 12, 20, 35, 60, 100)
	if c["kzg"] != 0 {
		n = rng.Pick(5, 9, 14)
		g.pool = g.pool[:min(len(g.pool), 8)]
	}
	// weights:      set del kc commit persist clear crash reopen clone use proof reconcile bulk check persistfail node
	w := []int{40, 18, 4, 6, 6, 2, 2, 2, 2, 2, 3, 2, 2, 3, 2, 3}
	for i := range w { // swarm: mute some operations, boost others
		switch rng.N(6) {
		case 0:
			if i > 3 {
				w[i] = 0
			}
		case 1:
			w[i] *= 3
		}
	}
	boost := map[string][]int{"C02": {4, 6}, "C04": {4, 6, 14}, "C05": {10}, "C12": {8, 9}, "C13": {7, 4}, "C15": {11}, "C16": {12, 15}}
	for _, i := range boost[prop] {
		w[i] = 14
	}
	if c["kzg"] == 0 && rng.P(1, 150) {
		base, m := combBase(rng, g)
		p.Steps = append(p.Steps, Step{Op: "bulk", K: base, C: m, A: rng.N(2)})
		n = min(n, 20)
	}
	if c["kzg"] == 0 && rng.P(1, 5) {
		p.Steps = append(p.Steps, Step{Op: "bulk", L: g.load(), A: rng.N(2)})
		if len(g.pool) > 100 {
			n = min(n, 20)
		}
	}
	if c["kzg"] == 0 && rng.P(1, 600) { // a large state
		seed := rng.Bytes(4)
		m := rng.Pick(700, 1100, 2200, 4500)
		p.Steps = append(p.Steps, Step{Op: "bulk", V: seed, C: m, A: rng.N(2)}, Step{Op: "persist", A: rng.N(2)}, Step{Op: "set", K: g.key(), V: g.val(nil)},
			Step{Op: "commit"}, Step{Op: "proof", K: g.key()}, Step{Op: "clone"}, Step{Op: "bulk", V: seed, B: 1, C: m, A: rng.N(2)},
			Step{Op: rng.PickS("commit", "discard", "use", "persist", "reopen")},
			Step{Op: "reconcile", V: seed, B: rng.N(2), C: m, A: rng.N(2)})
		n = rng.N(4)
	}
	faulty := prop == "C04" || (prop == "C02" && rng.P(1, 2))
	for i := 0; i < n; i++ {
		s := Step{}
		k := g.key()
		op := rng.W(w...)
		switch op {
		case 0:
			s = Step{Op: "set", K: k, V: g.val(k), A: rng.N(3)}
		case 1:
			s = Step{Op: "del", K: k, A: rng.N(4)}
		case 2:
			s = Step{Op: "kc", K: k}
		case 3:
			s = Step{Op: "commit"}
		case 4:
			s = Step{Op: "persist", A: rng.W(1, 2)}
		case 5:
			s = Step{Op: "discard"}
		case 6:
			s = Step{Op: "crash"}
		case 7:
			t := 0
			if rng.P(2, 3) {
				t = rng.Pick(1, 5, 20, 31, 32, 33, 64, 1000)
			}
			s = Step{Op: "reopen", A: t, B: rng.N(2)}
		case 8:
			s = Step{Op: "clone"}
		case 9:
			s = Step{Op: "use", A: rng.N(4)}
		case 10:
			s = Step{Op: "proof", K: k, A: rng.N(2)}
		case 11:
			s = Step{Op: "reconcile", A: rng.N(3)}
			for j := rng.N(4); j > 0; j-- {
				kk := g.key()
				s.L = append(s.L, kk)
				if rng.P(1, 3) {
					s.L = append(s.L, nil) // missing in the store
				} else {
					s.L = append(s.L, g.val(kk))
				}
			}
		case 12:
			s = Step{Op: "bulk", A: rng.N(2)}
			for j := rng.Range(1, 12); j > 0; j-- {
				kk := g.key()
				v := g.val(kk)
				if rng.P(1, 8) {
					v = nil
				}
				s.L = append(s.L, kk, v)
			}
		case 13:
			s = Step{Op: "check"}
		case 14:
			s = Step{Op: "persist", A: rng.W(1, 2), F: []Fault{{Kind: "wr", A: 1 + rng.N(12)}}}
		case 15:
			s = Step{Op: "node", K: k, A: rng.N(3), B: rng.N(1000)}
		}
		if prop == "C04" && rng.P(1, 12) {
			s = Step{Op: "damage", K: k, V: g.val(k), A: rng.N(6), F: []Fault{{Kind: rng.PickS("torn", "torn", "lost"), A: 1 + rng.N(rng.Pick(1, 3, 8)), B: rng.N(200)}}}
		}
		if faulty && rng.P(1, 7) && s.F == nil {
			s.F = []Fault{{Kind: rng.PickS("rd", "rd", "vrd"), A: 1 + rng.N(rng.Pick(3, 10, 30))}}
		}
		p.Steps = append(p.Steps, s)
	}
	p.Steps = append(p.Steps, Step{Op: "persist", A: rng.N(2)}, Step{Op: "crash"}, Step{Op: "check", A: 1})
}

type hSlot struct {
	tr    *trie.Trie
	cur   map[string]string
	dirty bool
}

type hWorld struct {
	r       *Run
	p       Params
	store   *simKV
	vstore  *simKV
	mirror  *simKV // gets every persistence as well (C02)
	durable map[string]string
	act     *hSlot
	other   []*hSlot
	kzg     bool
	noVS    bool // no value store
	scr     bool
	kept    []keptProof // what has been obtained earlier
}

// keptProof is a proof and the root it belongs to, kept by a client while the state moves on
type keptProof struct {
	root    trie.VCommitment
	rootB   []byte
	data    []byte
	bytes   func() []byte
	recheck func() error
}

func (w *hWorld) keep(k keptProof) {
	if len(w.kept) >= 5 {
		w.kept = w.kept[1:]
	}
	w.kept = append(w.kept, k)
}

// checkKept: proofs and roots obtained earlier have not changed
func (w *hWorld) checkKept() {
	r := w.r
	for _, k := range w.kept {
		r.must("kept proof", func() {
			r.check(bytes.Equal(vbytes(k.root), k.rootB), "kept-root", "the root %x obtained earlier has turned into %x", k.rootB, vbytes(k.root))
			r.check(bytes.Equal(k.bytes(), k.data), "kept-proof", "the proof obtained earlier for the root %x has changed", k.rootB)
			err := k.recheck()
			r.check(err == nil, "kept-proof", "the proof obtained earlier does not validate against its root any more: %v", err)
		})
		r.count("check.kept_proof")
	}
}

// damage runs one operation on a fresh instance while one of its reads gets a part of a node record only, or does not find
// a value. The operation has to fail, or its result is right because it did not need the read
func (w *hWorld) damage(s *Step) {
	r := w.r
	if len(s.F) == 0 {
		return
	}
	w.readsWork()
	ref, root := w.ref(w.durable)
	f := s.F[0]
	w.store.hit, w.vstore.hit = false, false
	arm := func() {
		if f.Kind == "torn" {
			w.store.tornRd, w.store.tornTo = f.A, f.B
		} else {
			w.vstore.lostRd = f.A
		}
	}
	off := func() { w.store.tornRd, w.vstore.lostRd = 0, 0 }
	what, wrong := "", ""
	var o Outcome
	run := func(name string, g func()) {
		what = name
		arm()
		o = r.try(g)
		off()
	}
	rd := w.reader()
	switch s.A {
	case 0:
		var got []byte
		run("root commitment", func() { got = vbytes(trie.RootCommitment(rd)) })
		if !o.panicked && !bytes.Equal(got, root) {
			wrong = fmt.Sprintf("root %x, expected %x", got, root)
		}
	case 1:
		var found bool
		key := refUnpack(s.K, w.p.Arity)
		run("node", func() { _, found = rd.GetNode(key) })
		want := false
		ref.walk(func(n *refNode) { want = want || bytes.Equal(n.key, key) })
		if !o.panicked && found != want {
			wrong = fmt.Sprintf("node found: %v, expected %v", found, want)
		}
	case 2, 3:
		if w.kzg {
			return
		}
		var pr *trie_blake2b.Proof
		run("proof", func() { pr = w.p.blake().Proof(s.K, rd) })
		if !o.panicked {
			checkGivenProof(r, w.p, pr, root, ref, w.durable, s.K, "proof while a record is damaged")
		}
	default:
		w.act.tr.ClearCache() // what has been buffered is given up
		w.reopen()
		tr := w.act.tr
		next := cloneMap(w.durable)
		run("update and commit", func() {
			if s.A == 4 {
				tr.Update(s.K, s.V)
				next[string(s.K)] = string(s.V)
			} else {
				tr.Delete(s.K)
				delete(next, string(s.K))
			}
			tr.Commit()
		})
		if !o.panicked {
			_, want := w.ref(next)
			if got := vbytes(trie.RootCommitment(tr)); !bytes.Equal(got, want) {
				wrong = fmt.Sprintf("root %x, expected %x", got, want)
			}
		}
		w.reopen()
	}
	hit := w.store.hit || w.vstore.hit
	r.check(hit || !o.panicked, "panic", "%s: %s", what, o)
	if hit {
		r.count(fmt.Sprintf("check.damaged_read_refused_%v", o.panicked))
	}
	r.check(wrong == "", "damage-unnoticed", "%s, one of the reads got a damaged record (%v): %s", what, hit, wrong)
	w.checkRoot(w.open(), "after a damaged read")
}

// node reads one node or a place without a node. It has no effect on anything
func (w *hWorld) node(s *Step) {
	r := w.r
	a := w.act
	key := refUnpack(s.K, w.p.Arity)
	ref, _ := w.ref(a.cur)
	var want *refNode
	if s.A > 0 && ref != nil {
		var all []*refNode
		ref.walk(func(n *refNode) { all = append(all, n) })
		key = append([]byte{}, all[s.B%len(all)].key...)
	}
	ref.walk(func(n *refNode) {
		if bytes.Equal(n.key, key) {
			want = n
		}
	})
	arg := append([]byte{}, key...)
	var nd trie.Node
	var ok bool
	o := r.try(func() { nd, ok = a.tr.GetNode(arg) })
	if w.scr {
		scribble(arg)
	}
	if o.injected {
		r.count("recovered.node_given_up")
		w.readsWork()
		return
	}
	r.check(!o.panicked, "panic", "node '%x': %s", key, o)
	r.count("check.node")
	r.check(ok == (want != nil), "node-wrong", "node '%x' exists: %v, expected %v", key, ok, want != nil)
	if ok {
		r.must("node", func() {
			r.check(bytes.Equal(nd.Key(), key), "node-wrong", "node '%x' has key '%x'", key, nd.Key())
			r.check(eqBytes(nd.PathFragment(), want.frag), "node-wrong", "node '%x' path fragment '%x', expected '%x'", key, nd.PathFragment(), want.frag)
			r.check((nd.Terminal() != nil) == (want.term != nil), "node-wrong", "node '%x' has a terminal: %v, expected %v", key, nd.Terminal() != nil, want.term != nil)
		})
	}
}

// readsWork: no read error is pending any more
func (w *hWorld) readsWork() { w.store.failRd, w.vstore.failRd = 0, 0 }

func (w *hWorld) open() *hSlot {
	var vs trie.KVReader
	if !w.noVS {
		vs = w.vstore
	}
	var tr *trie.Trie
	w.r.must("open", func() { tr = trie.New(w.p.model(), w.store, vs, w.p.Opt) })
	return &hSlot{tr: tr, cur: cloneMap(w.durable)}
}

func runH(r *Run) {
	w := &hWorld{r: r, p: paramsOf(r.p.Cfg), store: newSimKV(r), vstore: newSimKV(r), mirror: newSimKV(r), durable: map[string]string{}}
	w.kzg = r.on("kzg")
	w.scr = r.on("scribble")
	w.store.share = r.on("share")
	w.vstore.share = w.store.share
	if r.on("memkv") {
		w.store.useMem()
		w.vstore.useMem()
	}
	// without the value store: only if it is never needed
	w.noVS = r.on("novs") && w.p.Thr == 0
	for _, s := range r.p.Steps {
		if s.Op == "reopen" && s.A != 0 && !w.kzg {
			w.noVS = false
		}
	}
	w.act = w.open()
	for i := range r.p.Steps {
		s := r.nextStep(i)
		w.do(s)
		w.store.failWr = 0
		w.readsWork()
	}
}

// mutate runs a mutating call on the active trie. If an injected read error interrupts it, the trie in memory is given
// up and reopened from the disk, as an application has to do
func (w *hWorld) mutate(what string, f func()) bool {
	o := w.r.try(f)
	if !o.panicked {
		return true
	}
	if o.injected {
		w.r.ev("%s interrupted", what)
		w.r.count("recovered.reopen_after_read_error")
		w.store.failWr = 0
		w.readsWork()
		w.reopen()
		return false
	}
	w.r.fail("panic", "%s: %s", what, o)
	return false
}

func (w *hWorld) reopen() {
	w.other = nil
	w.act = w.open()
}

func (w *hWorld) args(k, v []byte) ([]byte, []byte, func()) {
	if !w.scr {
		return k, v, func() {}
	}
	a, b := append([]byte{}, k...), append([]byte{}, v...)
	return a, b, func() { scribble(a); scribble(b) }
}

func (w *hWorld) do(s *Step) {
	r := w.r
	for _, f := range s.F {
		switch f.Kind {
		case "rd":
			w.store.failRd = f.A
		case "vrd":
			w.vstore.failRd = f.A
		}
	}
	a := w.act
	switch s.Op {
	case "set":
		if len(s.V) == 0 {
			return
		}
		k, v, done := w.args(s.K, s.V)
		if w.mutate("update", func() {
			switch s.A {
			case 1:
				a.tr.UpdateStr(k, v)
			case 2:
				a.tr.UpdateStr(string(k), string(v))
			default:
				a.tr.Update(k, v)
			}
		}) {
			a.cur[string(s.K)] = string(s.V)
			a.dirty = true
		}
		done()
	case "del":
		k, _, done := w.args(s.K, nil)
		if w.mutate("delete", func() {
			switch s.A {
			case 1:
				a.tr.Delete(k)
			case 2:
				a.tr.DeleteStr(string(k))
			case 3:
				a.tr.Update(k, []byte{})
			default:
				a.tr.Update(k, nil)
			}
		}) {
			delete(a.cur, string(s.K))
			a.dirty = true
		}
		done()
	case "kc":
		if len(s.K) == 0 {
			// not admissible. It may be refused, but must not have any effect
			o := r.try(func() { a.tr.InsertKeyCommitment(nil) })
			r.ev("key commitment of the empty key: refused %v", o.panicked)
			if o.injected {
				w.reopen()
			}
			return
		}
		k, _, done := w.args(s.K, nil)
		if w.mutate("insert key commitment", func() { a.tr.InsertKeyCommitment(k) }) {
			a.cur[string(s.K)] = string(s.K)
			a.dirty = true
		}
		done()
	case "bulk":
		it := &pairs{r: r, reuse: s.A == 1}
		next := cloneMap(a.cur)
		l := s.L
		if s.C > 0 && len(s.V) > 0 {
			ks, vs := many(s.V, s.C, s.B == 1)
			for i := range ks {
				l = append(l[:len(l):len(l)], Hex(ks[i]), Hex(vs[i]))
			}
		} else if s.C > 0 {
			l = append(l[:len(l):len(l)], comb(s.K, s.C, w.p.Arity)...)
		}
		for i := 0; i+1 < len(l); i += 2 {
			it.ks = append(it.ks, string(l[i]))
			it.vs = append(it.vs, string(l[i+1]))
			if len(l[i+1]) == 0 {
				delete(next, string(l[i]))
			} else {
				next[string(l[i])] = string(l[i+1])
			}
		}
		if w.mutate("update all", func() { a.tr.UpdateAll(it) }) {
			a.cur = next
			a.dirty = true
		}
	case "commit":
		if w.commit() {
			w.checkRoot(a, "after commit")
		}
	case "persist":
		w.persist(s)
	case "discard":
		r.must("clear cache", func() { a.tr.ClearCache() })
		a.cur = cloneMap(w.durable)
		a.dirty = false
		w.checkRoot(a, "after the buffered data has been discarded")
	case "crash":
		r.count("fault.crash")
		w.reopen()
		w.checkRoot(w.act, "after crash")
		w.checkStore("after crash")
	case "reopen":
		if !w.kzg {
			w.p.Thr = s.A
			if w.p.Arity == 256 {
				w.p.Opt = s.B != 0
			}
		}
		w.reopen()
		w.checkRoot(w.act, "after reopening with other options")
	case "clone":
		var c *trie.Trie
		r.must("clone", func() { c = a.tr.Clone() })
		if len(w.other) < 4 {
			w.other = append(w.other, &hSlot{tr: c, cur: cloneMap(a.cur), dirty: a.dirty})
		}
	case "use":
		if len(w.other) > 0 {
			i := s.A % len(w.other)
			w.act, w.other[i] = w.other[i], w.act
			w.checkIfClean(w.other[i], "the other instance")
		}
	case "proof":
		w.proof(s)
	case "node":
		w.node(s)
	case "damage":
		w.damage(s)
	case "reconcile":
		w.reconcile(s)
	case "check":
		w.full(s.A == 1)
	}
}

func (w *hWorld) commit() bool {
	a := w.act
	if !w.mutate("commit", func() { a.tr.Commit() }) {
		return false
	}
	a.dirty = false
	return true
}

func (w *hWorld) ref(m map[string]string) (*refNode, []byte) {
	n := refBuild(m, w.p)
	return n, w.p.refRoot(n)
}

func (w *hWorld) checkIfClean(sl *hSlot, what string) {
	if !sl.dirty {
		w.checkRoot(sl, what)
	}
}

func (w *hWorld) checkRoot(sl *hSlot, what string) {
	r := w.r
	w.readsWork()
	_, want := w.ref(sl.cur)
	var got []byte
	r.must("root commitment "+what, func() { got = vbytes(trie.RootCommitment(sl.tr)) })
	r.ev("root %x", got)
	r.state(hashStr(hashStr(uint64(w.p.Arity*64+w.p.Hash), string(got)), fmt.Sprint(w.p)))
	r.check(bytes.Equal(got, want), "root", "%s: root commitment %x, expected %x for the content of %d pairs", what, got, want, len(sl.cur))
	r.must("comparison of root commitments", func() {
		m, c := w.p.model(), trie.RootCommitment(sl.tr)
		r.check(m.EqualCommitments(c, trie.RootCommitment(sl.tr)), "root", "%s: the root commitment %x is not equal to itself", what, got)
		r.check(got == nil || !m.EqualCommitments(c, nil) && !m.EqualCommitments(nil, c), "root", "%s: the root commitment %x is equal to none", what, got)
	})
	r.count("check.root")
	w.checkKept()
}

func (w *hWorld) persist(s *Step) {
	r := w.r
	w.readsWork()
	if !w.commit() {
		return
	}
	a := w.act
	nfail := 0
	for _, f := range s.F {
		if f.Kind == "wr" {
			nfail = f.A
		}
	}
	vals := func() {
		for _, k := range sortedKeys(w.durable) {
			if _, ok := a.cur[k]; !ok {
				w.vstore.Set([]byte(k), nil)
			}
		}
		for _, k := range sortedKeys(a.cur) {
			if w.durable[k] != a.cur[k] {
				w.vstore.Set([]byte(k), []byte(a.cur[k]))
			}
		}
	}
	if r.cfg("mirror") == 1 {
		r.must("persist to the mirror", func() { a.tr.PersistMutations(w.mirror) })
	}
	if r.on("atomic") {
		b := &kvBatch{r: r, failWr: nfail}
		o := r.try(func() { a.tr.PersistMutations(b) })
		if o.panicked {
			r.check(o.injected, "panic", "persist: %s", o)
			r.ev("persist failed, the batch is dropped")
			// nothing has been written. The trie still has all the mutations
			w.mirror.restore(w.store.snapshot())
			return
		}
		b.apply(w.store)
		vals()
	} else {
		w.store.failWr = nfail
		vals()
		o := r.try(func() { a.tr.PersistMutations(w.store) })
		if o.panicked {
			r.check(o.injected, "panic", "persist: %s", o)
			r.ev("persist failed in the middle, try again")
			r.count("recovered.persist_retry")
			w.store.failWr = 0
			r.must("persist again", func() { a.tr.PersistMutations(w.store) })
		}
	}
	if r.cfg("mirror") == 2 {
		r.must("persist to the mirror", func() { a.tr.PersistMutations(w.mirror) })
	}
	if x := r.cfg("mirror"); x == 1 || x == 2 {
		ref, _ := w.ref(a.cur)
		checkRecords(r, w.p, w.mirror.snapshot(), ref, "mirror of the store")
		r.count("check.mirror")
	}
	w.durable = cloneMap(a.cur)
	w.other = nil
	if s.A == 1 {
		r.must("clear cache", func() { a.tr.ClearCache() })
	}
	w.checkRoot(a, "after persist")
	w.checkStore("after persist")
}

// checkStore opens the store read-only and compares everything in it with the durable content
func (w *hWorld) checkStore(what string) {
	r := w.r
	w.readsWork()
	ref, want := w.ref(w.durable)
	checkRecords(r, w.p, w.store.snapshot(), ref, what)
	rd := w.reader()
	var got []byte
	r.must("root commitment of the reader "+what, func() { got = vbytes(trie.RootCommitment(rd)) })
	r.check(bytes.Equal(got, want), "root-reader", "%s: root commitment of the store %x, expected %x", what, got, want)
	checkNodes(r, w.p, rd, ref, "reader "+what)
	r.count("check.store")
	if r.p.Prop == "C13" {
		w.recordsAlone(ref, what)
	}
}

// recordsAlone reads the node records without the value store, and with one which has lost the values: it works if the
// node has all of its terminal, otherwise it is an error
func (w *hWorld) recordsAlone(ref *refNode, what string) {
	r := w.r
	m := w.p.model()
	ref.walk(func(n *refNode) {
		rec := w.store.m[refEncode(n.key, w.p.Arity)]
		for i, vs := range []trie.KVReader{nil, mapReader{}} {
			var nd *trie.NodeData
			var err error
			r.must("record without values", func() { nd, err = trie.NodeDataFromBytes(m, rec, cat(n.key, nil), libArity(w.p.Arity), vs) })
			if err != nil {
				r.check(n.term != nil, "record-alone", "%s: the node '%x' has no terminal, but can't be read without values (%d): %v", what, n.key, i, err)
				r.count("check.record_needs_value")
				continue
			}
			r.check(eqBytes(nd.PathFragment, n.frag) && len(nd.ChildCommitments) == len(n.children) && (nd.Terminal != nil) == (n.term != nil),
				"record-alone", "%s: the node '%x' read without values (%d) is wrong", what, n.key, i)
			if n.term != nil {
				want := m.CommitToData(w.p.effective([]byte(n.fullKey), n.val))
				r.must("terminal", func() {
					r.check(m.EqualCommitments(want, nd.Terminal), "record-alone", "%s: the node '%x' read without values (%d) has a wrong terminal", what, n.key, i)
				})
			}
		}
	})
}

func (w *hWorld) reader() *trie.TrieReader {
	var vs trie.KVReader
	if !w.noVS {
		vs = w.vstore
	}
	var rd *trie.TrieReader
	w.r.must("new reader", func() { rd = trie.NewTrieReader(w.p.model(), w.store, vs) })
	return rd
}

// proof of one key from the buffered trie or from the store, possibly interrupted by a read error and retried
func (w *hWorld) proof(s *Step) {
	r := w.r
	ns := trie.NodeStore(w.act.tr)
	content := w.act.cur
	if s.A == 1 {
		ns = w.reader()
		content = w.durable
	} else if w.act.dirty {
		if !w.commit() {
			return
		}
	}
	if w.kzg {
		w.kzgProof(ns, content, s.K)
		return
	}
	if w.store.failRd > 0 || w.vstore.failRd > 0 {
		m := w.p.blake()
		o := r.try(func() { m.Proof(s.K, ns) })
		r.check(!o.panicked || o.injected, "panic", "proof: %s", o)
		if o.panicked {
			r.count("recovered.proof_retry")
		}
		w.readsWork()
	}
	ref, root := w.ref(content)
	pr := checkProof(r, w.p, ns, root, ref, content, s.K, "proof")
	var rc trie.VCommitment
	r.must("root", func() { rc = trie.RootCommitment(ns) })
	w.keep(keptProof{rc, root, pr.Bytes(), pr.Bytes, func() error { return trie_blake2b_verify.Validate(pr, root) }})
}

func (w *hWorld) kzgProof(ns trie.NodeStore, content map[string]string, key []byte) {
	r := w.r
	w.readsWork()
	_, root := w.ref(content)
	if pr := checkKzgProof(r, ns, root, content, key); pr != nil {
		var rc trie.VCommitment
		r.must("root", func() { rc = trie.RootCommitment(ns) })
		w.keep(keptProof{rc, root, pr.Bytes(), pr.Bytes, func() error { return nil }})
	}
}

func (w *hWorld) reconcile(s *Step) {
	r := w.r
	if w.act.dirty && !w.commit() {
		return
	}
	a := w.act
	other := cloneMap(a.cur)
	if s.C > 0 {
		ks, vs := many(s.V, s.C, s.B == 1)
		for i := range ks {
			if vs[i] != "" {
				other[ks[i]] = vs[i]
			}
		}
	}
	for i := 0; i+1 < len(s.L); i += 2 {
		k, v := string(s.L[i]), string(s.L[i+1])
		if v == "" {
			delete(other, k)
		} else {
			other[k] = v
		}
	}
	want := map[string]bool{}
	for k, v := range other {
		cv, ok := a.cur[k]
		if !ok {
			want[k] = true
			continue
		}
		e1, e2 := w.p.effective([]byte(k), []byte(v)), w.p.effective([]byte(k), []byte(cv))
		if !w.kzg { // raw data of the hash size may coincide with a hash, see known findings
			e1, e2 = refData(e1, w.p.Hash), refData(e2, w.p.Hash)
		}
		if !bytes.Equal(e1, e2) {
			want[k] = true
		}
	}
	it := &pairs{r: r, reuse: w.scr}
	for _, k := range sortedKeys(other) {
		it.ks = append(it.ks, k)
		it.vs = append(it.vs, other[k])
	}
	if s.A == 1 { // another order
		for i, j := 0, len(it.ks)-1; i < j; i, j = i+1, j-1 {
			it.ks[i], it.ks[j] = it.ks[j], it.ks[i]
			it.vs[i], it.vs[j] = it.vs[j], it.vs[i]
		}
	}
	var got [][]byte
	o := r.try(func() { got = a.tr.Reconcile(it) })
	if o.injected {
		w.readsWork()
		r.count("recovered.reconcile_given_up")
		w.checkRoot(a, "after interrupted reconcile")
		return
	}
	r.check(!o.panicked, "panic", "reconcile: %s", o)
	seen := map[string]bool{}
	for _, k := range got {
		r.check(want[string(k)], "reconcile-false", "key '%x' is consistent with the trie but is reported", k)
		r.check(!seen[string(k)], "reconcile-dup", "key '%x' is reported twice", k)
		seen[string(k)] = true
	}
	for _, k := range sortedKeys(want) {
		r.check(seen[k], "reconcile-missed", "key '%x' diverges from the trie but is not reported", k)
	}
	r.countN("check.reconcile_diverging", len(want))
	r.count("check.reconcile")
	w.checkRoot(a, "after reconcile")
}

// full checks the active trie node by node, proofs of all keys (sampled), all the clones and the store
func (w *hWorld) full(end bool) {
	r := w.r
	w.readsWork()
	if w.act.dirty && !w.commit() {
		return
	}
	a := w.act
	w.checkRoot(a, "check")
	ref, root := w.ref(a.cur)
	checkNodes(r, w.p, a.tr, ref, "trie")
	if !w.kzg {
		keys := sortedKeys(a.cur)
		step := 1 + len(keys)/6
		for i := 0; i < len(keys); i += step {
			checkProof(r, w.p, a.tr, root, ref, a.cur, []byte(keys[i]), "trie")
		}
		for _, k := range w.probes(a.cur) {
			checkProof(r, w.p, a.tr, root, ref, a.cur, k, "trie")
		}
	} else if keys := sortedKeys(a.cur); len(keys) > 0 {
		checkKzgProof(r, a.tr, root, a.cur, []byte(keys[len(keys)/2]))
	}
	for i, c := range w.other {
		o := r.try(func() { c.tr.Commit() })
		r.check(!o.panicked, "panic", "commit of the clone: %s", o)
		c.dirty = false
		w.checkRoot(c, fmt.Sprintf("clone %d", i))
		if end || i == 0 {
			w.checkClonePersist(c)
		}
	}
	w.checkRoot(a, "after the clones have been committed")
}

// checkClonePersist persists a clone to its own copy of the store and reopens it
func (w *hWorld) checkClonePersist(c *hSlot) {
	r := w.r
	cp := newSimKV(r)
	cp.restore(w.store.snapshot())
	vs := newSimKV(r)
	vs.restore(c.cur)
	r.must("persist of the clone", func() { c.tr.PersistMutations(cp) })
	ref, want := w.ref(c.cur)
	checkRecords(r, w.p, cp.snapshot(), ref, "store of the clone")
	rd := trie.NewTrieReader(w.p.model(), cp, vs)
	var got []byte
	r.must("root of the clone", func() { got = vbytes(trie.RootCommitment(rd)) })
	r.check(bytes.Equal(got, want), "root-clone", "root commitment of the persisted clone %x, expected %x", got, want)
	checkNodes(r, w.p, rd, ref, "persisted clone")
}

// probes are absent keys close to the present ones
func (w *hWorld) probes(m map[string]string) [][]byte {
	var ret [][]byte
	keys := sortedKeys(m)
	if len(keys) == 0 {
		return [][]byte{nil, {0}, {1, 2}}
	}
	k := keys[len(keys)/2]
	ret = append(ret, []byte(k+"\x00"), []byte(k+"\x01zz"), nil)
	if len(k) > 0 {
		ret = append(ret, []byte(k[:len(k)-1]))
		b := []byte(k)
		b[len(b)-1] ^= 0x11
		ret = append(ret, b)
	}
	return ret
}
