package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/iotaledger/hive.go/core/kvstore"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
)

// World C: several tasks of one process over one database and one commitment model object: readers which share a reader
// object, tries of their own over the same store, clones of one buffered trie, batched updaters of other partitions and a
// batched updater of the very partition which is being read. Preemption at any statement of the library.

const (
	roleReader  = iota // shared reader object
	roleReader2        // reader of its own
	roleTrie           // buffered trie of its own over the store
	roleClone          // clone of one buffered trie
	roleTenant         // batched updater of another partition
	roleWriter         // batched updater of the partition of the readers
	nRoles
)

var roleNames = []string{"reader", "own reader", "trie", "clone", "tenant", "writer"}

func genC(p *Plan, rng *Rng) {
	c := p.Cfg
	genModelCfg(rng, c)
	if rng.P(1, 80) {
		c["kzg"], c["arity"] = 1, 256
	}
	nt := rng.Pick(2, 2, 3, 3, 4, 5)
	c["tasks"] = nt
	c["ownmodel"] = rng.W(4, 1)
	w := []int{3, 2, 2, 3, 2, 2}
	switch p.Prop {
	case "C12":
		w = []int{0, 0, 0, 1, 0, 0}
	case "C18":
		w = []int{1, 1, 0, 0, 4, 2}
	default:
		for i := range w {
			if rng.P(1, 4) {
				w[i] = 0
			}
		}
		w[0]++
	}
	writer := false
	for i := 0; i < nt; i++ {
		role := rng.W(w...)
		if role == roleWriter {
			if writer {
				role = roleReader
			}
			writer = true
		}
		c[fmt.Sprintf("role%d", i)] = role
	}
	g := newKeyGen(rng, c["arity"])
	n := rng.Pick(0, 3, 8, 20)
	ops := rng.Pick(4, 8, 16, 30)
	if c["kzg"] != 0 {
		n, ops = min(n, 4), min(ops, 6)
		g.pool = g.pool[:min(len(g.pool), 6)]
	}
	for i := 0; i < n; i++ {
		k := g.key()
		p.Steps = append(p.Steps, Step{Op: "base", K: k, V: g.val(k), A: rng.N(2)})
	}
	for i := 0; i < ops; i++ {
		k := g.key()
		s := Step{A: rng.N(nt), K: k}
		switch rng.W(8, 4, 3, 3, 4, 2, 2) {
		case 0:
			s.Op, s.V = "set", g.val(k)
		case 1:
			s.Op = "del"
		case 2:
			s.Op = "root"
		case 3:
			s.Op = "commit"
		case 4:
			s.Op = "proof"
		case 5:
			s.Op = "walk"
		case 6:
			s.Op, s.V = "codec", g.val(k)
		}
		if rng.P(1, 25) {
			s.F = []Fault{{Kind: "rd", A: 1 + rng.N(6)}}
		}
		p.Steps = append(p.Steps, s)
	}
	// some runs are dense with preemptions, some have few at random places
	nc := rng.Pick(0, 6, 20, 60, 200, 600)
	hot := rng.N(len(gaps))
	c["repeat"] = rng.Pick(0, 0, 2, 10, 40)
	for i := 0; i < nc; i++ {
		p.Choices = append(p.Choices, rng.N(8))
		switch {
		case rng.P(1, 2):
			p.Choices = append(p.Choices, hot)
		default:
			p.Choices = append(p.Choices, rng.N(len(gaps)))
		}
	}
}

type cVersion struct {
	content map[string]string
	ref     *refNode
	root    []byte
}

type cTask struct {
	*task
	role  int
	tr    *trie.Trie
	cur   map[string]string
	dirty bool
	u     *hive_adaptor.HiveBatchedUpdater
	tp    string
	vp    string
	rd    *trie.TrieReader
}

type cWorld struct {
	r        *Run
	p        Params
	d        *hiveDisk
	kvs      kvstore.KVStore
	sc       *sched
	shared   *trie.TrieReader
	versions []*cVersion // versions of the content of the partition which is read
	issued   int         // last version whose commit has begun
	acked    int         // last version whose commit has ended
	ts       []*cTask
	kzg      bool
}

func (w *cWorld) model() trie.CommitmentModel {
	if w.kzg {
		return w.p.model()
	}
	return w.p.blake()
}

func (w *cWorld) version(m map[string]string) *cVersion {
	ref := refBuild(m, w.p)
	return &cVersion{content: m, ref: ref, root: w.p.refRoot(ref)}
}

func (w *cWorld) stores(tp, vp string) (trie.KVStore, trie.KVStore) {
	buf := prefixBuf(tp)
	a := hive_adaptor.NewHiveKVStoreAdaptor(w.kvs, buf)
	buf = append(buf[:0], vp...) // the caller reuses the slice
	return a, hive_adaptor.NewHiveKVStoreAdaptor(w.kvs, buf)
}

func runC(r *Run) {
	w := &cWorld{r: r, p: paramsOf(r.p.Cfg), d: newHiveDisk(r), kzg: r.on("kzg")}
	w.kvs = &simHive{d: w.d}
	if !w.kzg && !r.on("ownmodel") {
		w.p.M = trie_blake2b.New(libArity(w.p.Arity), trie_blake2b.HashSize(w.p.Hash), w.p.Thr)
	}
	// the content before the tasks start
	content := map[string]string{}
	var buffered []*Step
	r.must("setup", func() {
		u, err := hive_adaptor.NewHiveBatchedUpdater(w.kvs, w.model(), prefixBuf("t"), prefixBuf("v"), w.p.Opt)
		r.check(err == nil, "updater-open", "can't create updater: %v", err)
		n := 0
		for i := range r.p.Steps {
			if s := &r.p.Steps[i]; s.Op == "base" && len(s.V) > 0 {
				if s.A == 1 { // goes into the cache of the trie which is cloned
					buffered = append(buffered, s)
					continue
				}
				u.Update(s.K, s.V)
				content[string(s.K)] = string(s.V)
				n++
			}
		}
		if n > 0 {
			r.check(u.Commit() == nil, "commit-error", "commit fails")
		}
		ts, vs := w.stores("t", "v")
		w.shared = trie.NewTrieReader(w.model(), ts, vs)
	})
	w.versions = []*cVersion{w.version(content)}
	nt := max(1, r.cfg("tasks"))
	hasWriter := false
	role := func(i int) int { return ((r.cfg(fmt.Sprintf("role%d", i)) % nRoles) + nRoles) % nRoles }
	for i := 0; i < nt; i++ {
		hasWriter = hasWriter || role(i) == roleWriter
	}
	w.sc = &sched{r: r}
	var proto *cTask
	for i := 0; i < nt; i++ {
		t := &cTask{role: role(i), cur: cloneMap(content)}
		if hasWriter && (t.role == roleTrie || t.role == roleClone) {
			t.role = roleReader2 // a buffered trie does not follow changes of the store below it
		}
		if t.role == roleWriter && w.writer() != nil {
			t.role = roleReader
		}
		ts, vs := w.stores("t", "v")
		r.must("open", func() {
			switch t.role {
			case roleReader:
				t.rd = w.shared
			case roleReader2:
				t.rd = trie.NewTrieReader(w.model(), ts, vs)
			case roleTrie:
				t.tr = trie.New(w.model(), ts, vs, w.p.Opt)
			case roleClone:
				if proto != nil {
					t.tr = proto.tr.Clone()
					t.cur = cloneMap(proto.cur)
					t.dirty = proto.dirty
					return
				}
				t.tr = trie.New(w.model(), ts, vs, w.p.Opt)
				for j, s := range buffered {
					t.tr.Update(s.K, s.V)
					t.cur[string(s.K)] = string(s.V)
					t.dirty = true
					if j == len(buffered)/2 {
						t.tr.Commit()
						t.dirty = false
					}
				}
				proto = t
			case roleTenant:
				t.tp, t.vp, t.cur = fmt.Sprintf("T%d", i), fmt.Sprintf("V%d", i), map[string]string{}
				var err error
				t.u, err = hive_adaptor.NewHiveBatchedUpdater(w.kvs, w.model(), prefixBuf(t.tp), prefixBuf(t.vp), w.p.Opt)
				r.check(err == nil, "updater-open", "can't create updater: %v", err)
			case roleWriter:
				t.tp, t.vp = "t", "v"
				var err error
				t.u, err = hive_adaptor.NewHiveBatchedUpdater(w.kvs, w.model(), prefixBuf(t.tp), prefixBuf(t.vp), w.p.Opt)
				r.check(err == nil, "updater-open", "can't create updater: %v", err)
			}
		})
		w.ts = append(w.ts, t)
		r.count("role." + roleNames[t.role])
	}
	w.d.yield = func(kind string) {
		if t := w.sc.cur; t != nil && t.rdIn > 0 && kind == "get" {
			if t.rdIn--; t.rdIn == 0 {
				r.count("fault.read_error_in_one_task")
				panic(&injected{"read error"})
			}
		}
		w.sc.storeCall()
	}
	for i, t := range w.ts {
		i, t := i, t
		t.task = w.sc.spawn(roleNames[t.role], func(_ *task) {
			for j := range r.p.Steps {
				s := &r.p.Steps[j]
				if s.Op == "base" || s.A%nt != i {
					continue
				}
				r.step = j
				r.ev("task %d %s %x %x %v", i, s.Op, []byte(s.K), []byte(s.V), s.F)
				r.count("op." + s.Op)
				w.do(t, s)
				t.rdIn = 0
				w.sc.opEnd(t.task)
			}
		})
	}
	w.sc.run()
	w.quiescent()
}

func (w *cWorld) writer() *cTask {
	for _, t := range w.ts {
		if t.role == roleWriter {
			return t
		}
	}
	return nil
}

func (w *cWorld) do(t *cTask, s *Step) {
	r := w.r
	for _, f := range s.F {
		if f.Kind == "rd" && !w.kzg && (t.role == roleReader || t.role == roleReader2) {
			t.rdIn = f.A
		}
	}
	switch s.Op {
	case "set", "del":
		v := append([]byte{}, s.V...)
		if s.Op == "del" {
			v = nil
		} else if len(v) == 0 {
			return
		}
		switch t.role {
		case roleTrie, roleClone:
			r.must("update", func() { t.tr.Update(append([]byte{}, s.K...), v) })
		case roleTenant, roleWriter:
			r.must("update", func() { t.u.Update(append([]byte{}, s.K...), v) })
		default:
			w.proof(t, s.K)
			return
		}
		t.cur = cloneMap(t.cur)
		if len(v) == 0 {
			delete(t.cur, string(s.K))
		} else {
			t.cur[string(s.K)] = string(s.V)
		}
		t.dirty = true
	case "commit":
		w.commit(t)
	case "root":
		switch t.role {
		case roleTrie, roleClone:
			w.commit(t)
			w.trieRoot(t)
		case roleReader, roleReader2:
			w.readRoot(t, t.rd)
		default:
			w.readRoot(t, w.shared)
		}
	case "proof":
		w.proof(t, s.K)
	case "walk":
		w.walk(t)
	case "codec":
		w.codec(s)
	}
}

func (w *cWorld) commit(t *cTask) {
	r := w.r
	switch t.role {
	case roleTrie, roleClone:
		r.must("commit", func() { t.tr.Commit() })
		t.dirty = false
		r.count("check.commit")
	case roleTenant, roleWriter:
		if !t.dirty {
			return
		}
		var err error
		if t.role == roleWriter {
			w.versions = append(w.versions, w.version(t.cur))
			w.issued = len(w.versions) - 1
		}
		r.must("commit", func() { err = t.u.Commit() })
		r.check(err == nil, "commit-error", "commit fails: %v", err)
		if t.role == roleWriter {
			w.acked = w.issued
		}
		t.dirty = false
		r.count("check.commit")
		w.partition(t)
	}
}

// partition: what the batched updater of this task has committed is what is there, whatever the others do
func (w *cWorld) partition(t *cTask) {
	r := w.r
	got := part(w.d.vis, t.vp)
	r.check(eqMap(got, t.cur), "values", "values in the partition '%s' (%d) are not what has been committed (%d)", t.vp, len(got), len(t.cur))
	v := w.version(t.cur)
	checkRecords(r, w.p, part(w.d.vis, t.tp), v.ref, "partition "+t.tp)
	ts, vs := w.stores(t.tp, t.vp)
	rd := trie.NewTrieReader(w.model(), ts, vs)
	var root []byte
	r.must("root", func() { root = vbytes(trie.RootCommitment(rd)) })
	r.check(bytes.Equal(root, v.root), "root", "partition '%s': root commitment %x, expected %x", t.tp, root, v.root)
	checkNodes(r, w.p, rd, v.ref, "partition "+t.tp)
	r.count("check.partition")
}

func (w *cWorld) trieRoot(t *cTask) {
	r := w.r
	v := w.version(t.cur)
	var root []byte
	r.must("root", func() { root = vbytes(trie.RootCommitment(t.tr)) })
	r.ev("root %x", root)
	r.state(hashStr(uint64(w.p.Arity), string(root)))
	r.check(bytes.Equal(root, v.root), "root", "root commitment of the trie of the task %x, expected %x", root, v.root)
	r.count("check.root")
}

// readRoot: the root is the root of one of the versions which were current during the call
func (w *cWorld) readRoot(t *cTask, rd *trie.TrieReader) {
	r := w.r
	lo := w.acked
	var root []byte
	o := r.try(func() { root = vbytes(trie.RootCommitment(rd)) })
	hi := w.issued
	if o.injected {
		r.count("recovered.read_error")
		return
	}
	if lo != hi && w.p.Thr != 0 {
		// the value behind the root node may be replaced between two reads
		r.count("overlap.root_skipped")
		return
	}
	if o.panicked {
		r.fail("panic", "root commitment: %s", o)
	}
	r.ev("root %x", root)
	ok := false
	for i := lo; i <= hi; i++ {
		ok = ok || bytes.Equal(root, w.versions[i].root)
	}
	r.check(ok, "root", "root commitment %x is not the one of the versions %d..%d of the state", root, lo, hi)
	if lo != hi {
		r.count("overlap.root")
	}
	r.count("check.root")
}

func (w *cWorld) proof(t *cTask, key []byte) {
	r := w.r
	var v *cVersion
	var ns trie.NodeStore
	switch t.role {
	case roleTrie, roleClone:
		if t.dirty {
			w.commit(t)
		}
		v, ns = w.version(t.cur), t.tr
	default:
		ns = w.shared
		if t.rd != nil {
			ns = t.rd
		}
		if w.acked != w.issued || w.writer() != nil {
			w.readProof(ns, key)
			return
		}
		v = w.versions[w.acked]
	}
	if w.kzg {
		checkKzgProof(r, ns, v.root, v.content, key)
		return
	}
	if t.rdIn > 0 {
		o := r.try(func() { w.p.blake().Proof(key, ns) })
		r.check(!o.panicked || o.injected, "panic", "proof: %s", o)
		t.rdIn = 0
	}
	checkProof(r, w.p, ns, v.root, v.ref, v.content, key, "proof")
}

// readProof takes a proof while the state may be changed by a commit of another task. If no commit overlaps it must be
// right. If one does, it may be of no use, but it can't be valid against the root of a version and lie about it
func (w *cWorld) readProof(ns trie.NodeStore, key []byte) {
	r := w.r
	if w.kzg {
		return
	}
	lo := w.acked
	var pr *trie_blake2b.Proof
	o := r.try(func() { pr = w.p.blake().Proof(append([]byte{}, key...), ns) })
	hi := w.issued
	if o.injected {
		r.count("recovered.read_error")
		return
	}
	if lo != hi {
		r.count("overlap.proof")
		if o.panicked || pr == nil {
			return
		}
	}
	r.check(!o.panicked, "panic", "proof: %s", o)
	valid := 0
	for i := lo; i <= hi; i++ {
		v := w.versions[i]
		if judge(r, fmt.Sprintf("proof of '%x' taken concurrently with a commit, version %d", key, i), w.p, pr, v.root, v.content, v.ref) {
			valid++
		}
	}
	if lo == hi {
		v := w.versions[lo]
		r.check(valid == 1, "proof-rejected", "proof of '%x' taken while nobody commits is rejected", key)
		if k, term := trie_blake2b_verify.MustKeyWithTerminal(pr); len(pr.Path) > 0 {
			r.check(bytes.Equal(k, refUnpack(key, w.p.Arity)), "proof-wrong-key", "proof of '%x' is about '%x'", key, k)
			_, present := v.content[string(key)]
			r.check(present == (len(term) > 0), "proof-wrong-claim", "proof of '%x': presence %v, expected %v", key, len(term) > 0, present)
		}
	}
	r.count("check.proof_window")
}

func (w *cWorld) walk(t *cTask) {
	r := w.r
	switch t.role {
	case roleTrie, roleClone:
		if t.dirty {
			w.commit(t)
		}
		v := w.version(t.cur)
		checkNodes(r, w.p, t.tr, v.ref, "trie")
	case roleTenant:
		if !t.dirty && len(t.cur) > 0 {
			w.partition(t)
		}
	default:
		if w.writer() != nil || t.rdIn > 0 {
			return
		}
		rd := w.shared
		if t.rd != nil {
			rd = t.rd
		}
		checkNodes(r, w.p, rd, w.versions[0].ref, "reader")
	}
	r.count("check.walk")
}

// codec: serialization helpers have no shared state
func (w *cWorld) codec(s *Step) {
	r := w.r
	rng := &Rng{s: hashStr(hashStr(uint64(len(s.V)), string(s.K)), string(s.V))}
	n := 1 + rng.N(4)
	var ps []kvp
	for i := 0; i < n; i++ {
		ps = append(ps, kvp{string(s.K) + strings.Repeat("x", rng.N(3)), string(s.V) + strings.Repeat("y", rng.N(300))})
	}
	want, _ := refStream(ps)
	var buf bytes.Buffer
	r.must("stream", func() {
		wr := trie.NewBinaryStreamWriter(&buf)
		for _, p := range ps {
			r.check(wr.Write([]byte(p.k), []byte(p.v)) == nil, "stream-write", "write fails")
		}
	})
	r.check(bytes.Equal(buf.Bytes(), want), "stream-bytes", "the stream written by the task is wrong")
	i := 0
	r.must("iterate", func() {
		err := trie.NewBinaryStreamIterator(&buf).Iterate(func(k, v []byte) bool {
			r.check(i < len(ps) && string(k) == ps[i].k && string(v) == ps[i].v, "stream-read", "pair %d of the stream is wrong", i)
			i++
			return true
		})
		r.check(err == nil && i == n, "stream-read", "%d pairs of %d, error %v", i, n, err)
	})
	u := refUnpack(s.K, w.p.Arity)
	r.must("key packing", func() {
		ar := libArity(w.p.Arity)
		r.check(bytes.Equal(trie.UnpackBytes(s.K, ar), u), "key-codec", "unpacked key is wrong")
		b, err := trie.PackUnpackedBytes(u, ar)
		r.check(err == nil && bytes.Equal(b, s.K), "key-codec", "packed key is wrong")
		b, err = trie.EncodeUnpackedBytes(u, ar)
		r.check(err == nil && string(b) == refEncode(u, w.p.Arity), "key-codec", "encoded key is wrong")
	})
	if !w.kzg {
		r.must("data commitment", func() {
			c := w.p.blake().CommitToData(append([]byte{}, s.V...))
			if len(s.V) > 0 {
				r.check(bytes.HasSuffix(c.Bytes(), refData(s.V, w.p.Hash)), "data-commitment", "commitment to data is wrong")
			}
		})
	}
	r.count("check.codec")
}

// quiescent: when all the tasks are done, everything is in its place
func (w *cWorld) quiescent() {
	r := w.r
	r.check(w.acked == w.issued, "progress", "a commit has not ended")
	for _, t := range w.ts {
		switch t.role {
		case roleTrie, roleClone:
			r.must("commit", func() { t.tr.Commit() })
			t.dirty = false
			w.trieRoot(t)
			v := w.version(t.cur)
			checkNodes(r, w.p, t.tr, v.ref, "trie at the end")
		case roleTenant, roleWriter:
			w.commit(t)
		}
	}
	for _, t := range w.ts {
		if t.role == roleTenant || t.role == roleWriter {
			w.partition(t)
		}
	}
	v := w.versions[w.acked]
	var root []byte
	r.must("root", func() { root = vbytes(trie.RootCommitment(w.shared)) })
	r.check(bytes.Equal(root, v.root), "root", "root commitment at the end %x, expected %x", root, v.root)
	checkNodes(r, w.p, w.shared, v.ref, "shared reader at the end")
	if !w.kzg {
		keys := sortedKeys(v.content)
		for i := 0; i < len(keys); i += 1 + len(keys)/3 {
			checkProof(r, w.p, w.shared, v.root, v.ref, v.content, []byte(keys[i]), "end")
		}
	}
}
