package main

import (
	"bytes"
	"container/heap"
	"fmt"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
)

// World N: an authority commits to a sequence of states and publishes the roots; provers hold replicas of the node
// store, possibly old, damaged or crashed, possibly malicious; clients know only roots and ask for proofs over a network
// which loses, delays, duplicates, reorders, truncates and corrupts messages. Simulated time, discrete events.

func genN(p *Plan, rng *Rng) {
	c := p.Cfg
	prop := p.Prop
	genModelCfg(rng, c)
	c["provers"] = rng.Pick(1, 2, 3)
	c["clients"] = rng.Pick(1, 2)
	g := newKeyGen(rng, c["arity"])
	if len(g.pool) > 20 {
		g.pool = g.pool[:20]
	}
	n := rng.Pick(5, 10, 20, 35)
	// weights: put req down up damage run deliver
	w := []int{8, 40, 2, 3, 3, 6}
	byz := 6
	switch prop {
	case "C05":
		byz = 0
		w[4] = 1
	case "C11":
		w[4] = 14
		byz = 1
	case "C07":
		byz = 5
	}
	if rng.P(1, 100) {
		base, m := combBase(rng, g)
		p.Steps = append(p.Steps, Step{Op: "put", A: rng.N(1 << 16), K: base, C: m})
		n = min(n, 10)
	}
	for i := 0; i < rng.Range(1, 3); i++ {
		p.Steps = append(p.Steps, genPut(g, rng))
	}
	for i := 0; i < n; i++ {
		switch rng.W(w...) {
		case 0:
			p.Steps = append(p.Steps, genPut(g, rng))
		case 1:
			s := Step{Op: "req", A: rng.N(4), B: rng.N(4), K: g.key()}
			for j := rng.W(3, 4, 2, 1); j > 0; j-- {
				s.F = append(s.F, genFate(rng, byz))
			}
			p.Steps = append(p.Steps, s)
		case 2:
			p.Steps = append(p.Steps, Step{Op: "down", A: rng.N(4)})
		case 3:
			p.Steps = append(p.Steps, Step{Op: "up", A: rng.N(4)})
		case 4:
			p.Steps = append(p.Steps, Step{Op: "damage", A: rng.N(4), B: rng.N(9), C: rng.N(1 << 20)})
		case 5:
			p.Steps = append(p.Steps, Step{Op: "run", A: rng.Pick(1, 20, 60, 200, 1000)})
		}
	}
	p.Steps = append(p.Steps, Step{Op: "heal"}, Step{Op: "req", K: g.key()}, Step{Op: "req", A: 1, B: 1, K: g.key()}, Step{Op: "end"})
}

func genPut(g *keyGen, rng *Rng) Step {
	s := Step{Op: "put", A: rng.N(1 << 16)}
	for j := rng.Pick(1, 1, 2, 4, 10); j > 0; j-- {
		k := g.key()
		if rng.P(1, 4) {
			s.L = append(s.L, k, nil)
		} else {
			s.L = append(s.L, k, g.val(k))
		}
	}
	for i := 0; i < 3; i++ { // what happens to the replication messages
		if rng.P(1, 4) {
			s.F = append(s.F, Fault{Kind: []string{"drop_repl", "delay_repl", "dup_repl"}[rng.N(3)], A: i, B: rng.N(400)})
		}
	}
	return s
}

func genFate(rng *Rng, byz int) Fault {
	switch rng.W(2, 2, 2, 2, 2, 3, 3, 1, 1, byz*2) {
	case 0:
		return Fault{Kind: "drop_req"}
	case 1:
		return Fault{Kind: "drop_resp"}
	case 2:
		return Fault{Kind: "delay_req", A: rng.N(400)}
	case 3:
		return Fault{Kind: "delay_resp", A: rng.N(400)}
	case 4:
		return Fault{Kind: "dup_resp", A: rng.N(300)}
	case 5:
		return Fault{Kind: "corrupt", A: rng.N(1 << 16), B: 1 + rng.N(255)}
	case 6:
		return Fault{Kind: "trunc", A: rng.N(1 << 16)}
	case 7:
		return Fault{Kind: "extend", A: 1 + rng.N(40), B: rng.N(256)}
	case 8:
		return Fault{Kind: "garbage", A: rng.N(1 << 16), B: rng.N(200)}
	}
	return Fault{Kind: "byz", A: rng.N(numByz), B: rng.N(1 << 30)}
}

type simEvent struct {
	at  int64
	seq int
	f   func()
}
type evQueue []simEvent

func (q evQueue) Len() int { return len(q) }
func (q evQueue) Less(i, j int) bool {
	return q[i].at < q[j].at || (q[i].at == q[j].at && q[i].seq < q[j].seq)
}
func (q evQueue) Swap(i, j int) { q[i], q[j] = q[j], q[i] }
func (q *evQueue) Push(x any)   { *q = append(*q, x.(simEvent)) }
func (q *evQueue) Pop() any {
	o := *q
	x := o[len(o)-1]
	*q = o[:len(o)-1]
	return x
}

type nVersion struct {
	content map[string]string
	ref     *refNode
	root    []byte
	recs    map[string]string
}

type nProver struct {
	id      int
	version int // -1: nothing yet
	store   *simKV
	vstore  *simKV
	up      bool
	damaged bool
}

type nReq struct {
	id      int
	client  int
	prover  int
	key     []byte
	fates   []Fault
	attempt int
	done    bool
	last    int // attempts which may be made
}

type nWorld struct {
	r     *Run
	p     Params
	now   int64
	q     evQueue
	seq   int
	vers  []*nVersion
	known []int // the latest root known by the client
	ps    []*nProver
	reqs  []*nReq
	tr    *trie.Trie
	store *simKV
	vst   *simKV
	cur   map[string]string
	heal  bool
}

func (w *nWorld) after(d int64, f func()) {
	w.seq++
	heap.Push(&w.q, simEvent{w.now + d, w.seq, f})
}

// run executes events up to the time, or all if until < 0
func (w *nWorld) run(until int64) {
	for len(w.q) > 0 && (until < 0 || w.q[0].at <= until) {
		e := heap.Pop(&w.q).(simEvent)
		w.now = e.at
		w.r.trace = mix64(w.r.trace*31 + uint64(e.seq))
		e.f()
	}
	if until > w.now {
		w.now = until
	}
}

func runN(r *Run) {
	w := &nWorld{r: r, p: paramsOf(r.p.Cfg), store: newSimKV(r), vst: newSimKV(r), cur: map[string]string{}}
	w.tr = trie.New(w.p.model(), w.store, w.vst, w.p.Opt)
	w.vers = []*nVersion{{content: map[string]string{}, recs: map[string]string{}}}
	for i := 0; i < max(1, r.cfg("provers")); i++ {
		w.ps = append(w.ps, &nProver{id: i, store: newSimKV(r), vstore: newSimKV(r), up: true})
	}
	w.known = make([]int, max(1, r.cfg("clients")))
	for i := range r.p.Steps {
		w.do(r.nextStep(i))
	}
	r.simNs = w.now * 1e6
}

func (w *nWorld) do(s *Step) {
	r := w.r
	p := w.ps[s.A%len(w.ps)]
	switch s.Op {
	case "put":
		w.put(s)
	case "req":
		q := &nReq{id: len(w.reqs), client: s.A % len(w.known), prover: s.B % len(w.ps), key: s.K, fates: s.F, last: len(s.F) + 2}
		w.reqs = append(w.reqs, q)
		w.attempt(q)
		w.run(w.now + 10)
	case "down":
		p.up = false
		r.count("fault.prover_down")
	case "up":
		p.up = true
	case "damage":
		w.damage(p, s)
	case "run":
		w.run(w.now + int64(s.A))
	case "heal":
		w.run(-1)
		w.heal = true
		v := len(w.vers) - 1
		for _, p := range w.ps {
			p.up = true
			w.install(p, v)
		}
		for i := range w.known {
			w.known[i] = v
		}
		for _, q := range w.reqs {
			if !q.done {
				q.fates, q.attempt, q.last = nil, 0, 1
				w.attempt(q)
			}
		}
		w.run(-1)
	case "end":
		w.run(-1)
		if w.heal {
			for _, q := range w.reqs {
				r.check(q.done, "no-progress", "request %d for key '%x' is not answered within %d attempts although the faults have stopped", q.id, q.key, q.attempt)
			}
		}
	}
}

// put: the authority updates its state, publishes the root and replicates the node store
func (w *nWorld) put(s *Step) {
	r := w.r
	l := s.L
	if s.C > 0 {
		l = append(l[:len(l):len(l)], comb(s.K, s.C, w.p.Arity)...)
	}
	for i := 0; i+1 < len(l); i += 2 {
		k, v := l[i], l[i+1]
		r.must("update", func() { w.tr.Update(cat(k, nil), cat(v, nil)) })
		if len(v) == 0 {
			delete(w.cur, string(k))
		} else {
			w.cur[string(k)] = string(v)
		}
	}
	r.must("commit", func() { w.tr.Commit(); w.tr.PersistMutations(w.store) })
	w.vst.restore(w.cur)
	ref := refBuild(w.cur, w.p)
	v := &nVersion{content: cloneMap(w.cur), ref: ref, root: ref.root(), recs: w.store.snapshot()}
	w.vers = append(w.vers, v)
	var root []byte
	r.must("root", func() { root = vbytes(trie.RootCommitment(w.tr)) })
	r.check(bytes.Equal(root, v.root), "root", "the authority's root %x, expected %x", root, v.root)
	if s.A%3 == 0 {
		r.must("clear cache", func() { w.tr.ClearCache() })
	}
	n := len(w.vers) - 1
	for i := range w.known {
		i := i
		w.after(int64(5+s.A%30), func() {
			if n > w.known[i] {
				w.known[i] = n
			}
		})
	}
	for _, p := range w.ps {
		p := p
		d, times := int64(10+(s.A>>4)%50), 1
		for _, f := range s.F {
			if f.A%len(w.ps) != p.id {
				continue
			}
			r.count("fault." + f.Kind)
			switch f.Kind {
			case "drop_repl":
				times = 0
			case "delay_repl":
				d += int64(f.B)
			case "dup_repl":
				times = 2
			}
		}
		for k := 0; k < times; k++ {
			w.after(d+int64(k)*37, func() {
				if p.up && n > p.version {
					w.install(p, n)
				}
			})
		}
	}
}

func (w *nWorld) install(p *nProver, v int) {
	p.store.restore(w.vers[v].recs)
	p.vstore.restore(w.vers[v].content)
	p.version = v
	p.damaged = false
}

// attempt sends the request to a prover; if there's no acceptable answer in time, another prover is asked
func (w *nWorld) attempt(q *nReq) {
	r := w.r
	if q.done || q.attempt >= q.last {
		return
	}
	n := q.attempt
	q.attempt++
	var f Fault
	if n < len(q.fates) {
		f = q.fates[n]
		if f.Kind != "" && f.Kind != "byz" {
			r.count("fault." + f.Kind)
		}
	}
	p := w.ps[(q.prover+n)%len(w.ps)]
	r.ev("t=%d request %d attempt %d prover %d", w.now, q.id, n, p.id)
	w.after(120, func() {
		if !q.done {
			w.attempt(q)
		}
	})
	d := int64(3 + (q.id*7+n*3)%11)
	switch f.Kind {
	case "drop_req":
		return
	case "delay_req":
		d += int64(f.A)
	}
	w.after(d, func() { w.serve(p, q, f) })
}

func (w *nWorld) serve(p *nProver, q *nReq, f Fault) {
	r := w.r
	if !p.up {
		return
	}
	v, dmg := p.version, p.damaged
	var pr *trie_blake2b.Proof
	o := r.try(func() {
		rd := trie.NewTrieReader(w.p.model(), p.store, p.vstore)
		pr = w.p.blake().Proof(cat(q.key, nil), rd)
	})
	if o.panicked {
		r.check(p.damaged && !w.pathIntact(p, q.key), "panic", "honest prover, all the records on the path of '%x' are intact: %s", []byte(q.key), o)
		// the prover crashes because of its damaged store
		r.count("fault.prover_crash_on_damage")
		p.up = false
		return
	}
	if !p.damaged {
		w.honest(pr, q.key, v)
	} else if w.pathIntact(p, q.key) {
		w.offPath(p, pr, q.key)
	}
	var resp *trie_blake2b.Proof
	var data []byte
	if f.Kind == "byz" {
		resp, data = w.forged(pr, q, v, f)
	} else {
		o := r.try(func() { data = pr.Bytes() })
		if o.panicked {
			r.check(p.damaged, "panic", "serialization of the proof: %s", o)
			return
		}
	}
	if len(data) > 0 {
		switch f.Kind {
		case "corrupt":
			data[f.A%len(data)] ^= byte(f.B)
		case "trunc":
			data = data[:f.A%len(data)]
		case "extend":
			data = append(data, bytes.Repeat([]byte{byte(f.B)}, f.A)...)
		case "garbage":
			g := &Rng{s: uint64(f.A)*7919 + uint64(f.B)}
			data = make([]byte, f.B)
			for i := range data {
				data[i] = byte(g.U64())
			}
			if len(data) > 2 { // let it go deeper
				data[0] = []byte{255, 15, 1}[g.N(3)]
				data[1] = []byte{20, 32}[g.N(2)]
			}
			if len(data) > 6 {
				data[2], data[3] = byte(g.N(4)), 0
			}
		}
	}
	d, times := int64(2+(q.id*5)%13), 1
	switch f.Kind {
	case "drop_resp":
		return
	case "delay_resp":
		d += int64(f.A)
	case "dup_resp":
		times = 2
	}
	mod := f.Kind != "" && f.Kind != "dup_resp" && f.Kind != "delay_resp" && f.Kind != "delay_req"
	for k := 0; k < times; k++ {
		w.after(d+int64(k*f.A), func() { w.receive(q, v, resp, cat(data, nil), dmg || mod) })
	}
}

// honest: what an honest prover with an intact store produces verifies and tells the truth
func (w *nWorld) honest(pr *trie_blake2b.Proof, key []byte, v int) {
	r := w.r
	ver := w.vers[v]
	rd := trie.NewTrieReader(w.p.model(), mapReader(ver.recs), mapReader(ver.content))
	checkProof(r, w.p, rd, ver.root, ver.ref, ver.content, key, "honest prover")
	r.check(pr != nil, "proof-nil", "no proof")
}

// pathIntact: the records of the nodes on the path of the key are intact, and so are all the values
func (w *nWorld) pathIntact(p *nProver, key []byte) bool {
	if p.version < 0 {
		return false
	}
	ver := w.vers[p.version]
	if !eqMap(p.vstore.snapshot(), ver.content) {
		return false
	}
	u := refUnpack(key, w.p.Arity)
	for n := ver.ref; n != nil; {
		k := refEncode(n.key, w.p.Arity)
		if string(p.store.m[k]) != ver.recs[k] {
			return false
		}
		u = u[min(len(u), len(n.frag)):]
		if !bytes.HasPrefix(refUnpack(key, w.p.Arity)[len(n.key):], n.frag) || len(u) == 0 {
			break
		}
		c := n.children[int(u[0])]
		if c == nil {
			// nothing may be found where the child is absent
			if _, ok := p.store.m[refEncode(cat(cat(n.key, n.frag), u[:1]), w.p.Arity)]; ok {
				return false
			}
		}
		n, u = c, u[1:]
	}
	return true
}

// offPath: damage elsewhere does not affect the proof
func (w *nWorld) offPath(p *nProver, pr *trie_blake2b.Proof, key []byte) {
	r := w.r
	ver := w.vers[p.version]
	var a, b []byte
	r.must("proof", func() {
		a = pr.Bytes()
		b = w.p.blake().Proof(cat(key, nil), trie.NewTrieReader(w.p.model(), mapReader(ver.recs), mapReader(ver.content))).Bytes()
	})
	r.check(bytes.Equal(a, b), "off-path-damage", "damage of other records changes the proof of '%x', all the records on its path are intact", key)
	r.count("check.off_path_damage")
}

type mapReader map[string]string

func (m mapReader) Get(k []byte) []byte {
	if v, ok := m[string(k)]; ok {
		return []byte(v)
	}
	return nil
}
func (m mapReader) Has(k []byte) bool { _, ok := m[string(k)]; return ok }

func (w *nWorld) forged(pr *trie_blake2b.Proof, q *nReq, v int, f Fault) (*trie_blake2b.Proof, []byte) {
	r := w.r
	rng := &Rng{s: uint64(f.B)}
	ver := w.vers[v]
	keys := [][]byte{}
	for _, k := range sortedKeys(ver.content) {
		keys = append(keys, []byte(k))
	}
	var others []*trie_blake2b.Proof
	for i := 0; i < 2; i++ {
		ov := ver
		if rng.P(1, 3) {
			ov = w.vers[rng.N(len(w.vers))]
		}
		k := q.key
		if ks := sortedKeys(ov.content); len(ks) > 0 {
			k = []byte(ks[rng.N(len(ks))])
		}
		rd := trie.NewTrieReader(w.p.model(), mapReader(ov.recs), mapReader(ov.content))
		r.must("other proof", func() { others = append(others, w.p.blake().Proof(cat(k, nil), rd)) })
	}
	x := forge(rng, f.A, w.p, ver.ref, pr, others, keys)
	r.count(fmt.Sprintf("fault.byzantine_%02d", f.A))
	if rng.P(1, 3) {
		k := rng.N(numByz)
		x = forge(rng, k, w.p, ver.ref, x, others, keys)
		r.count(fmt.Sprintf("fault.byzantine_%02d", k))
	}
	var buf bytes.Buffer
	var err error
	o := r.try(func() { err = x.Write(&buf) })
	if o.panicked || err != nil {
		return x, nil // it can't be sent over the network. A client in the same process may get it nevertheless
	}
	return x, buf.Bytes()
}

// receive is the client
func (w *nWorld) receive(q *nReq, v int, st *trie_blake2b.Proof, data []byte, modified bool) {
	r := w.r
	if v > w.known[q.client] {
		return // the root is not known yet
	}
	ver := w.vers[v]
	// roots known by the client: the one of the version, and an older one
	roots := []int{v}
	if v > 0 {
		roots = append(roots, v-1, 0)
	}
	for i, rv := range roots {
		t := w.vers[rv]
		if st != nil {
			acc := judge(r, "forged proof (in memory)", w.p, st, t.root, t.content, t.ref)
			r.ev("struct: accepted %v", acc)
			if acc {
				r.count("probe.forged_accepted_true")
			} else {
				r.count("probe.forged_rejected")
			}
		}
		if len(data) == 0 && st != nil {
			continue
		}
		var pr *trie_blake2b.Proof
		var err error
		r.must("parse of the received proof", func() { pr, err = trie_blake2b.ProofFromBytes(data) })
		if err != nil {
			r.count("probe.response_unparsable")
			r.ev("response %d: unparsable", q.id)
			r.check(modified, "proof-parse", "honest proof can't be parsed: %v", err)
			continue
		}
		acc := judge(r, "received proof", w.p, pr, t.root, t.content, t.ref)
		r.ev("response %d: accepted %v", q.id, acc)
		if i == 0 {
			r.check(acc || modified, "proof-rejected", "honest response for key '%x' is rejected", q.key)
		}
		if !acc {
			r.count("probe.response_rejected")
			continue
		}
		r.count("probe.response_accepted")
		r.state(hashStr(hashStr(0, string(t.root)), string(data)))
		if i == 0 && bytes.Equal(pr.Key, refUnpack(q.key, w.p.Arity)) && !q.done {
			q.done = true
			k, term := pr.Key, []byte(nil)
			r.must("claim", func() { k, term = trie_blake2b_verify.MustKeyWithTerminal(pr) })
			r.ev("request %d is answered: key %x present %v", q.id, k, term != nil)
		}
	}
	_ = ver
}

// damage of the store at rest
func (w *nWorld) damage(p *nProver, s *Step) {
	r := w.r
	st, kind := p.store, "node"
	if s.B == 7 || s.B == 8 {
		st, kind = p.vstore, "value"
	}
	ks := sortedKeys(st.m)
	if len(ks) == 0 {
		return
	}
	k := ks[s.C%len(ks)]
	c := s.C / len(ks)
	rec := cat(st.m[k], nil)
	intact := w.vers[p.version].recs[k] == string(rec) // several damages may cancel out
	switch s.B {
	case 0, 1, 7: // bit flip
		rec[c%len(rec)] ^= 1 << (c / len(rec) % 8)
	case 2: // torn record
		rec = rec[:c%len(rec)]
		if intact {
			w.tornRecord(ks, k, rec, "torn")
		}
	case 3: // rest of an old record behind
		rec = append(rec, bytes.Repeat([]byte{byte(c)}, 1+c%7)...)
		if intact {
			w.tornRecord(ks, k, rec, "extended")
		}
	case 4, 8: // lost
		rec = nil
	case 5: // misdirected write
		k2 := ks[c%len(ks)]
		st.m[k], st.m[k2] = st.m[k2], st.m[k]
		rec = st.m[k]
	case 6: // lost write: record of an older version
		old, ok := w.vers[c%len(w.vers)].recs[k]
		if !ok {
			delete(st.m, k)
			rec = nil
		} else {
			rec = []byte(old)
		}
	}
	if len(rec) == 0 {
		delete(st.m, k)
	} else {
		st.m[k] = rec
	}
	p.damaged = true
	r.count(fmt.Sprintf("fault.damaged_%s_record_%d", kind, s.B))
	// reading the store anyway: it may fail, it can't pass for the intact one
	ver := w.vers[p.version]
	ka := sortedKeys(ver.content)
	for i := 0; i < min(3, len(ka)); i++ {
		key := []byte(ka[(c+i)%len(ka)])
		var pr *trie_blake2b.Proof
		o := r.try(func() {
			pr = w.p.blake().Proof(cat(key, nil), trie.NewTrieReader(w.p.model(), p.store, p.vstore))
		})
		intact := w.pathIntact(p, key)
		if o.panicked {
			r.check(!intact, "panic", "damaged records are not on the path of '%x': %s", key, o)
			r.count("probe.damage_detected_by_prover")
			continue
		}
		if intact {
			w.offPath(p, pr, key)
		}
		if judge(r, "proof from the damaged store", w.p, pr, ver.root, ver.content, ver.ref) {
			r.count("probe.damage_off_path")
		} else {
			r.count("probe.damage_detected_by_verifier")
		}
	}
}

// tornRecord: a torn or extended record is never taken for a node
func (w *nWorld) tornRecord(ks []string, k string, rec []byte, what string) {
	r := w.r
	var unpacked []byte
	for _, v := range w.vers {
		v.ref.walk(func(n *refNode) {
			if refEncode(n.key, w.p.Arity) == k {
				unpacked = n.key
			}
		})
	}
	if len(rec) == 0 {
		return
	}
	for _, v := range w.vers {
		var err error
		r.must("parse of the "+what+" record", func() {
			_, err = trie.NodeDataFromBytes(w.p.model(), rec, unpacked, libArity(w.p.Arity), mapReader(v.content))
		})
		r.check(err != nil, "torn-record", "%s record '%x' of the node '%x' is taken for a valid node", what, rec, unpacked)
	}
	r.count("probe.torn_record_detected")
}
