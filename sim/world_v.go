package main

import (
	"bytes"
	"fmt"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"go.dedis.ch/kyber/v3"
)

// World V: versions. A database changes hands between the library and another version of it, with crashes in between, and
// both exchange proofs and snapshots. The other version is written from the description of the formats (nodedata.go,
// proof.go, kv.go) and shares no code with the library.

func genV(p *Plan, rng *Rng) {
	c := p.Cfg
	genModelCfg(rng, c)
	if rng.P(1, 60) {
		c["kzg"], c["arity"] = 1, 256
	}
	c["share"] = rng.N(2)
	c["owner"] = rng.N(2) // who has it first
	c["style"] = int(rng.U64() >> 40)
	g := newKeyGen(rng, c["arity"])
	n := rng.Pick(6, 12, 20, 35, 60)
	if c["kzg"] != 0 {
		n = rng.Pick(5, 9)
		g.pool = g.pool[:min(len(g.pool), 8)]
	} else if rng.P(1, 3) {
		p.Steps = append(p.Steps, Step{Op: "bulk", L: g.load()})
		if len(g.pool) > 100 {
			n = min(n, 20)
		}
	}
	w := []int{40, 18, 6, 12, 2, 12, 8, 2}
	for i := range w {
		if rng.P(1, 5) {
			w[i] *= 3
		}
	}
	for i := 0; i < n; i++ {
		k := g.key()
		s := Step{}
		switch rng.W(w...) {
		case 0:
			s = Step{Op: "set", K: k, V: g.val(k)}
			if rng.P(1, 8) {
				s.V = k // maybe stored as a commitment to the key
			}
		case 1:
			s = Step{Op: "del", K: k}
		case 2:
			s = Step{Op: "kc", K: k}
		case 3:
			s = Step{Op: "persist", A: rng.N(2)}
		case 4:
			s = Step{Op: "crash"}
		case 5:
			s = Step{Op: "handover", A: rng.N(2)}
		case 6:
			s = Step{Op: "proof", K: k}
		case 7:
			s = Step{Op: "snapshot"}
		}
		switch s.Op {
		case "set", "del", "proof", "kc":
			if rng.P(1, 20) {
				s.F = append(s.F, Fault{Kind: rng.PickS("rd", "vrd"), A: 1 + rng.N(5)})
			}
		}
		p.Steps = append(p.Steps, s)
	}
	p.Steps = append(p.Steps, Step{Op: "persist"}, Step{Op: "handover"}, Step{Op: "proof", K: g.key()})
}

type vWorld struct {
	r             *Run
	p             Params
	store, vstore *simKV
	tr            *trie.Trie // nil: the other version has it
	cur, durable  map[string]string
	rng           *Rng // choices which a writer has
}

func runV(r *Run) {
	w := &vWorld{r: r, p: paramsOf(r.p.Cfg), store: newSimKV(r), vstore: newSimKV(r), cur: map[string]string{}, durable: map[string]string{},
		rng: &Rng{s: uint64(r.cfg("style"))}}
	w.store.share, w.vstore.share = r.on("share"), r.on("share")
	w.open(r.on("owner"))
	for i := range r.p.Steps {
		w.do(r.nextStep(i))
		w.store.failRd, w.vstore.failRd = 0, 0
	}
}

func (w *vWorld) open(lib bool) {
	w.cur = cloneMap(w.durable)
	w.tr = nil
	if lib {
		w.r.must("open", func() { w.tr = trie.New(w.p.model(), w.store, w.vstore, w.p.Opt) })
	}
}

// mutate: an injected read error makes the application reopen the database
func (w *vWorld) mutate(what string, f func(*trie.Trie)) bool {
	if w.tr == nil {
		return true
	}
	o := w.r.try(func() { f(w.tr) })
	if o.injected {
		w.r.count("recovered.reopen_after_read_error")
		w.store.failRd, w.vstore.failRd = 0, 0
		w.open(true)
		return false
	}
	w.r.check(!o.panicked, "panic", "%s: %s", what, o)
	return true
}

func (w *vWorld) do(s *Step) {
	r := w.r
	for _, f := range s.F {
		if f.Kind == "rd" {
			w.store.failRd = f.A
		} else {
			w.vstore.failRd = f.A
		}
	}
	switch s.Op {
	case "set":
		if len(s.V) > 0 && w.mutate("update", func(t *trie.Trie) { t.Update(s.K, s.V) }) {
			w.cur[string(s.K)] = string(s.V)
		}
	case "kc":
		if len(s.K) > 0 && w.mutate("key commitment", func(t *trie.Trie) { t.InsertKeyCommitment(s.K) }) {
			w.cur[string(s.K)] = string(s.K)
		}
	case "del":
		if w.mutate("delete", func(t *trie.Trie) { t.Delete(s.K) }) {
			delete(w.cur, string(s.K))
		}
	case "bulk":
		it := &pairs{}
		m := map[string]string{}
		for i := 0; i+1 < len(s.L); i += 2 {
			m[string(s.L[i])] = string(s.L[i+1])
		}
		for _, k := range sortedKeys(m) {
			it.ks, it.vs = append(it.ks, k), append(it.vs, m[k])
		}
		if w.mutate("bulk load", func(t *trie.Trie) { t.UpdateAll(it) }) {
			for k, v := range m {
				if v == "" {
					delete(w.cur, k)
				} else {
					w.cur[k] = v
				}
			}
		}
	case "persist":
		w.persist(s)
	case "crash":
		r.count("fault.crash")
		w.open(w.tr != nil)
	case "handover":
		if s.A == 1 {
			w.persist(s)
		} else {
			r.count("fault.crash")
		}
		r.count("fault.other_version_takes_over")
		w.open(w.tr == nil)
		w.taken()
	case "proof":
		w.proof(s)
	case "snapshot":
		w.snapshot()
	}
}

func (w *vWorld) ref(content map[string]string) *refNode {
	ref := refBuild(content, w.p)
	w.p.refRoot(ref)
	return ref
}

func (w *vWorld) persist(_ *Step) {
	r := w.r
	ref := w.ref(w.cur)
	if w.tr != nil {
		if !w.mutate("commit", func(t *trie.Trie) { t.Commit() }) {
			return
		}
		r.must("persist", func() { w.tr.PersistMutations(w.store) })
		w.values()
		w.durable = cloneMap(w.cur)
		w.readAll(ref)
		return
	}
	// the other version writes what has changed
	old := w.ref(w.durable)
	before := map[string]string{}
	old.walk(func(n *refNode) { before[string(n.key)] = w.image(n) })
	ref.walk(func(n *refNode) {
		if before[string(n.key)] != w.image(n) || w.rng.P(1, 6) {
			w.store.m[refEncode(n.key, w.p.Arity)] = w.record(n)
			r.count("other_version_wrote_record")
		}
		delete(before, string(n.key))
	})
	for k := range before {
		delete(w.store.m, refEncode([]byte(k), w.p.Arity))
	}
	w.values()
	w.durable = cloneMap(w.cur)
}

func (w *vWorld) values() {
	for k := range w.vstore.m {
		if _, ok := w.cur[k]; !ok {
			delete(w.vstore.m, k)
		}
	}
	for k, v := range w.cur {
		w.vstore.m[k] = []byte(v)
	}
}

// terminal as it is written: for the hash model the data or its hash, for KZG a scalar
func (w *vWorld) terminal(n *refNode) []byte {
	if w.p.Hash != 0 {
		return n.term
	}
	b, err := trie_kzg_bn256.Model.Suite.G1().Scalar().SetBytes(refHash(w.p.effective([]byte(n.fullKey), n.val), 32)).MarshalBinary()
	if err != nil {
		panic(harnessPanic(err.Error()))
	}
	return b
}

func (w *vWorld) image(n *refNode) string {
	s := fmt.Sprintf("%x", n.frag)
	if n.term != nil {
		s += fmt.Sprintf(" t%x %d", n.term, len(n.val))
	}
	for _, i := range n.childIdx() {
		s += fmt.Sprintf(" %d:%x", i, n.children[i].c)
	}
	return s
}

func (w *vWorld) flagBytes() int { return max(1, w.p.Arity/8) }

// keyTerminal: the terminal commits to the unpacked key itself
func (w *vWorld) keyTerminal(n *refNode) bool {
	u := cat(n.key, n.frag)
	if w.p.Hash == 0 {
		return bytes.Equal(w.terminal(n), w.terminal(&refNode{val: u, fullKey: "\x00" + string(u)}))
	}
	return bytes.Equal(n.term, refData(u, w.p.Hash))
}

// record is the node as the other version writes it. Where the format leaves a choice it takes any
func (w *vWorld) record(n *refNode) []byte {
	var flags byte
	var body []byte
	if len(n.frag) > 0 {
		flags |= 0x10
		e := refEncode(n.frag, w.p.Arity)
		body = append(append(body, byte(len(e)), byte(len(e)>>8)), e...)
	}
	if n.term != nil {
		flags |= 0x01
		eff := w.p.effective([]byte(n.fullKey), n.val)
		costly := len(eff) > w.p.Thr || w.p.Hash == 0
		fromValue := !costly && bytes.Equal(eff, n.val)
		switch {
		case w.p.Opt && len(n.key) > 0 && w.keyTerminal(n) && w.rng.P(7, 8):
			flags |= 0x04
			if !costly && w.rng.P(1, 2) {
				flags |= 0x02 // of no consequence
			}
		case fromValue && w.rng.P(7, 8):
			flags |= 0x02
		case w.p.Hash == 0:
			body = append(body, w.terminal(n)...)
		default:
			l := byte(len(n.term))
			if costly {
				l |= 0xC0
			}
			body = append(append(body, l), n.term...)
		}
	}
	if len(n.children) > 0 {
		flags |= 0x08
		bits := make([]byte, w.flagBytes())
		for i := range n.children {
			bits[i/8] |= 1 << (i % 8)
		}
		body = append(body, bits...)
		for _, i := range n.childIdx() {
			body = append(body, n.children[i].c...)
		}
	}
	return append([]byte{flags}, body...)
}

// readAll: the other version reads all the records which the library left in the store
func (w *vWorld) readAll(ref *refNode) {
	recs := map[string]string{}
	for k, v := range w.store.m {
		recs[k] = string(v)
	}
	checkRecords(w.r, w.p, recs, ref, "read by the other version")
	ref.walk(func(n *refNode) { w.read(n, []byte(recs[refEncode(n.key, w.p.Arity)])) })
	w.r.count("check.store_read_by_other_version")
}

func (w *vWorld) read(n *refNode, rec []byte) {
	r := w.r
	rest := rec
	bad := func(what string) {
		r.fail("format", "the other version reads the record '%x' of the node '%x' (fragment '%x', terminal '%x', %d children): %s", rec, n.key, n.frag, n.term, len(n.children), what)
	}
	take := func(k int) []byte {
		if k > len(rest) {
			bad("it breaks off")
		}
		b := rest[:k]
		rest = rest[k:]
		return b
	}
	flags := take(1)[0]
	var frag []byte
	if flags&0x10 != 0 {
		l := take(2)
		e := take(int(l[0]) + int(l[1])*256)
		if string(e) != refEncode(n.frag, w.p.Arity) {
			bad("wrong path fragment")
		}
		frag = n.frag
	}
	if len(frag) != len(n.frag) {
		bad("no path fragment")
	}
	if (flags&1 != 0) != (n.term != nil) || flags&1 == 0 && flags&6 != 0 {
		bad(fmt.Sprintf("flags %x", flags))
	}
	if n.term != nil {
		eff := w.p.effective([]byte(n.fullKey), n.val)
		u := cat(n.key, n.frag)
		switch {
		case flags&4 != 0:
			if len(n.key) == 0 || !w.keyTerminal(n) {
				bad("the terminal is taken from the key")
			}
		case flags&2 != 0:
			v, ok := w.vstore.m[n.fullKey]
			if !ok || !bytes.Equal(v, eff) {
				bad(fmt.Sprintf("the terminal is taken from the value of the key '%x'", u))
			}
		case w.p.Hash == 0:
			if t := w.terminal(n); !bytes.Equal(take(len(t)), t) {
				bad("wrong terminal")
			}
		default:
			l := take(1)[0]
			if !bytes.Equal(take(int(l&0x3f)), n.term) {
				bad("wrong terminal")
			}
			if (l&0xC0 != 0) != (len(eff) > w.p.Thr) {
				bad("wrong mark of the terminal: it will be stored the wrong way next time")
			}
		}
	}
	if (flags&8 != 0) != (len(n.children) > 0) {
		bad("children")
	}
	if flags&8 != 0 {
		bits := take(w.flagBytes())
		for i := 0; i < w.p.Arity; i++ {
			c := n.children[i]
			if (bits[i/8]&(1<<(i%8)) != 0) != (c != nil) {
				bad(fmt.Sprintf("child %d", i))
			}
			if c != nil && !bytes.Equal(take(len(c.c)), c.c) {
				bad(fmt.Sprintf("wrong commitment to the child %d", i))
			}
		}
	}
	if len(rest) > 0 {
		bad(fmt.Sprintf("%d bytes are left over", len(rest)))
	}
}

// taken: the new owner sees what the previous one has left
func (w *vWorld) taken() {
	r := w.r
	if w.tr == nil {
		w.readAll(w.ref(w.cur))
		return
	}
	ref := w.ref(w.cur)
	rd := trie.NewTrieReader(w.p.model(), w.store, w.vstore)
	var root []byte
	r.must("root of the other version", func() { root = vbytes(trie.RootCommitment(rd)) })
	r.check(eqBytes(root, w.p.refRoot(ref)), "format", "the library reads the root '%x' from the database of the other version, expected '%x'", root, w.p.refRoot(ref))
	checkNodes(r, w.p, rd, ref, "database of the other version")
	r.count("check.store_read_by_library")
	r.state(hashStr(7, string(root)))
}

// ---- proofs

func le16(n int) []byte { return []byte{byte(n), byte(n >> 8)} }

// refProof is the serialized proof which a prover of the other version makes
func (w *vWorld) refProof(ref *refNode, u []byte) []byte {
	e := refEncode(u, w.p.Arity)
	b := append([]byte{byte(w.p.Arity - 1), byte(w.p.Hash)}, le16(len(e))...)
	b = append(b, e...)
	var path [][]byte
	for n, rest := ref, u; n != nil; {
		var next *refNode
		idx := w.p.Arity + 1
		if bytes.HasPrefix(rest, n.frag) {
			if rest = rest[len(n.frag):]; len(rest) == 0 {
				idx = w.p.Arity
			} else if next = n.children[int(rest[0])]; next != nil {
				idx, rest = int(rest[0]), rest[1:]
			}
		}
		e := refEncode(n.frag, w.p.Arity)
		el := append(append(le16(len(e)), e...), le16(idx)...)
		flags, body := byte(0), []byte(nil)
		if n.term != nil {
			flags = 1
			body = append([]byte{byte(len(n.term))}, n.term...)
		}
		var bits [32]byte
		var ch []byte
		for _, i := range n.childIdx() {
			if i != idx {
				bits[i/8] |= 1 << (i % 8)
				ch = append(ch, n.children[i].c...)
				flags |= 2
			}
		}
		if flags&2 != 0 {
			body = append(append(body, bits[:]...), ch...)
		}
		path = append(path, append(append(el, flags), body...))
		n = next
	}
	b = append(b, le16(len(path))...)
	for _, el := range path {
		b = append(b, el...)
	}
	return b
}

// refVerify is the verifier of the other version: the terminal of the key, or nil if it is absent
func (w *vWorld) refVerify(data, root, u []byte) (term []byte, err string) {
	at, ok := w.p.packed("proof", data)
	if !ok || int(data[0]) != w.p.Arity-1 || int(data[1]) != w.p.Hash {
		return nil, "malformed"
	}
	if string(data[at[0][0]:at[0][1]]) != refEncode(u, w.p.Arity) {
		return nil, "another key"
	}
	if len(at) == 1 {
		if len(root) != 0 {
			return nil, "no path"
		}
		return nil, ""
	}
	type elem struct {
		frag, term []byte
		ch         map[int][]byte
		idx        int
	}
	var els []elem
	for _, a := range at[1:] {
		x := elem{ch: map[int][]byte{}}
		enc := data[a[0]:a[1]]
		if x.frag, ok = refDecode(enc, w.p.Arity); !ok {
			return nil, "malformed fragment"
		}
		b := data[a[1]:]
		x.idx = int(b[0]) + int(b[1])*256
		flags := b[2]
		b = b[3:]
		if flags&1 != 0 {
			x.term = b[1 : 1+int(b[0])]
			b = b[1+int(b[0]):]
		}
		if flags&2 != 0 {
			bits := b[:32]
			b = b[32:]
			for i := 0; i < w.p.Arity; i++ {
				if bits[i/8]&(1<<(i%8)) != 0 {
					x.ch[i] = b[:w.p.Hash]
					b = b[w.p.Hash:]
				}
			}
		}
		els = append(els, x)
	}
	rest := u
	for i, x := range els {
		follows := bytes.HasPrefix(rest, x.frag)
		if i < len(els)-1 {
			if !follows || len(rest) <= len(x.frag) || int(rest[len(x.frag)]) != x.idx || x.ch[x.idx] != nil {
				return nil, fmt.Sprintf("element %d does not lead to the next one", i)
			}
			rest = rest[len(x.frag)+1:]
			continue
		}
		switch {
		case x.idx == w.p.Arity:
			if !follows || len(rest) != len(x.frag) {
				return nil, "the last element is about another key"
			}
			term = x.term
		case x.idx == w.p.Arity+1:
			if follows && (len(rest) == len(x.frag) || x.ch[int(rest[len(x.frag)])] != nil) {
				return nil, "no proof of absence"
			}
		case x.idx < w.p.Arity:
			if !follows || len(rest) <= len(x.frag) || int(rest[len(x.frag)]) != x.idx || x.ch[x.idx] != nil {
				return nil, "no proof of absence"
			}
		default:
			return nil, "wrong index"
		}
	}
	var c []byte
	for i := len(els) - 1; i >= 0; i-- {
		x := els[i]
		if i < len(els)-1 {
			x.ch[x.idx] = c
		}
		c = refVector(x.ch, x.term, x.frag, w.p)
	}
	if !bytes.Equal(c, root) {
		return nil, "another root"
	}
	return term, ""
}

// refDecode unpacks a packed path fragment
func refDecode(b []byte, arity int) ([]byte, bool) {
	if !refPacked(b, arity) {
		return nil, false
	}
	if arity == 256 || len(b) == 0 {
		return b, true
	}
	u := refUnpack(b[1:], arity)
	return u[:len(u)-int(b[0])], true
}

func (w *vWorld) proof(s *Step) {
	r := w.r
	if w.p.Hash == 0 {
		w.kzgProof(s.K)
		return
	}
	ref := w.ref(w.durable)
	root := w.p.refRoot(ref)
	u := refUnpack(s.K, w.p.Arity)
	var want []byte
	val, present := w.durable[string(s.K)]
	if present {
		want = w.p.refTerm(s.K, []byte(val))
	}
	// the library proves, the other version verifies
	var pr *trie_blake2b.Proof
	var data []byte
	o := r.try(func() {
		pr = w.p.blake().Proof(s.K, trie.NewTrieReader(w.p.model(), w.store, w.vstore))
		data = pr.Bytes()
	})
	if o.injected {
		w.store.failRd, w.vstore.failRd = 0, 0
	} else {
		r.check(!o.panicked, "panic", "proof: %s", o)
		term, err := w.refVerify(data, root, u)
		r.check(err == "", "format", "the other version rejects the proof '%x' for the key '%x': %s", data, u, err)
		r.check(bytes.Equal(term, want) && (term != nil) == present, "format", "the proof '%x' tells the other version the terminal '%x', it is '%x'", data, term, want)
		r.count("check.proof_read_by_other_version")
	}
	// the other version proves, the library verifies
	data = w.refProof(ref, u)
	if _, err := w.refVerify(data, root, u); err != "" {
		panic(harnessPanic("reference proof: " + err))
	}
	var err error
	r.must("proof of the other version", func() { pr, err = trie_blake2b.ProofFromBytes(cat(data, nil)) })
	r.check(err == nil, "format", "the proof '%x' of the other version can't be read: %v", data, err)
	r.must("proof of the other version", func() { err = trie_blake2b_verify.Validate(pr, cat(root, nil)) })
	r.check(err == nil, "format", "the proof '%x' of the other version is rejected: %v", data, err)
	var k, t []byte
	r.must("proof of the other version", func() { k, t = trie_blake2b_verify.MustKeyWithTerminal(pr) })
	r.check(len(pr.Path) == 0 || bytes.Equal(k, u), "format", "the proof of the other version for the key '%x' is read as one for '%x'", u, k)
	r.check(bytes.Equal(t, want) && (t != nil) == present, "format", "the proof of the other version tells the library the terminal '%x', it is '%x'", t, want)
	if present {
		r.must("proof of the other version", func() { err = trie_blake2b_verify.ValidateWithValue(pr, root, w.p.effective(s.K, []byte(val))) })
		r.check(err == nil, "format", "the proof of the other version with the value is rejected: %v", err)
	}
	r.count("check.proof_read_by_library")
}

// kzgProof: the library proves and the other version verifies; the same proof, written by the other version, is verified by
// the library
func (w *vWorld) kzgProof(key []byte) {
	r := w.r
	root := w.p.refRoot(w.ref(w.durable))
	val, present := w.durable[string(key)]
	var pr *trie_kzg_bn256.ProofOfInclusion
	var data []byte
	ok := false
	o := r.try(func() {
		if pr, ok = trie_kzg_bn256.Model.ProofOfInclusion(key, trie.NewTrieReader(w.p.model(), w.store, w.vstore)); ok {
			data = pr.Bytes()
		}
	})
	if o.injected {
		w.store.failRd, w.vstore.failRd = 0, 0
		return
	}
	r.check(!o.panicked, "panic", "proof: %s", o)
	r.check(ok == present, "format", "the proof of '%x' is made: %v, the key is present: %v", key, ok, present)
	if !ok {
		return
	}
	ts := &trie_kzg_bn256.Model.TrustedSetup
	rest := data
	bad := func(what string) {
		r.fail("format", "the other version reads the proof '%x' of the key '%x': %s", data, key, what)
	}
	take := func(n int) []byte {
		if n > len(rest) {
			bad("it breaks off")
		}
		b := rest[:n]
		rest = rest[n:]
		return b
	}
	num := func() int { b := take(2); return int(b[0]) + int(b[1])*256 }
	point := func() kyber.Point {
		p := ts.Suite.G1().Point()
		if err := p.UnmarshalBinary(take(64)); err != nil {
			bad(err.Error())
		}
		return p
	}
	if !bytes.Equal(take(num()), key) {
		bad("another key")
	}
	term := take(32)
	h, _ := ts.Suite.G1().Scalar().SetBytes(refHash(w.p.effective(key, []byte(val)), 32)).MarshalBinary()
	if !bytes.Equal(term, h) {
		bad("another terminal")
	}
	type elem struct {
		c, p kyber.Point
		i    int
	}
	els := make([]elem, num())
	for i := range els {
		els[i].c = point()
		els[i].i = num()
		els[i].p = point()
	}
	if len(rest) != 0 || len(els) == 0 {
		bad(fmt.Sprintf("%d elements, %d bytes are left over", len(els), len(rest)))
	}
	if !bytes.Equal(marshal(els[0].c), root) {
		bad("another root")
	}
	g1, g2 := ts.Suite.G1(), ts.Suite.G2()
	for i, e := range els {
		v := g1.Scalar().SetBytes(refHash(w.p.effective(key, []byte(val)), 32))
		if i < len(els)-1 {
			v.SetBytes(refHash(marshal(els[i+1].c), 32))
		}
		if e.i > 256 || (e.i == 256) != (i == len(els)-1) {
			bad(fmt.Sprintf("element %d has the index %d", i, e.i))
		}
		x := g1.Point().Sub(e.c, g1.Point().Mul(v, nil))
		if !ts.Suite.Pair(e.p, ts.Diff2[e.i]).Equal(ts.Suite.Pair(x, g2.Point().Base())) {
			bad(fmt.Sprintf("element %d is no opening", i))
		}
	}
	r.count("check.kzg_proof_read_by_other_version")
	b := append(le16(len(key)), key...)
	b = append(append(b, term...), le16(len(els))...)
	for _, e := range els {
		b = append(b, marshal(e.c)...)
		b = append(b, le16(e.i)...)
		b = append(b, marshal(e.p)...)
	}
	var err error
	r.must("proof of the other version", func() {
		if pr, err = trie_kzg_bn256.ProofOfInclusionFromBytes(b); err == nil {
			err = pr.Validate(kzgPoint(r, root), w.p.effective(key, []byte(val)))
		}
	})
	r.check(err == nil, "format", "the proof '%x' of the other version is rejected: %v", b, err)
	r.count("check.kzg_proof_read_by_library")
}

// snapshot: the state as a stream
func (w *vWorld) snapshot() {
	r := w.r
	var ps []kvp
	for _, k := range sortedKeys(w.durable) {
		ps = append(ps, kvp{k, w.durable[k]})
	}
	want, _ := refStream(ps)
	var buf bytes.Buffer
	wr := trie.NewBinaryStreamWriter(&buf)
	for _, x := range ps {
		var err error
		r.must("snapshot", func() { err = wr.Write([]byte(x.k), []byte(x.v)) })
		r.check(err == nil, "format", "snapshot: %v", err)
	}
	r.check(bytes.Equal(buf.Bytes(), want), "format", "the snapshot is written as '%x', the other version expects '%x'", buf.Bytes(), want)
	i := 0
	var err error
	r.must("snapshot of the other version", func() {
		err = trie.NewBinaryStreamIterator(bytes.NewReader(want)).Iterate(func(k, v []byte) bool {
			r.check(i < len(ps) && string(k) == ps[i].k && string(v) == ps[i].v, "format", "snapshot of the other version: pair %d is read as '%x' '%x'", i, k, v)
			i++
			return true
		})
	})
	r.check(err == nil && i == len(ps), "format", "snapshot of the other version: %d of %d pairs, %v", i, len(ps), err)
	r.count("check.snapshot")
}
