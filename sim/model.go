package main

import (
	"fmt"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"go.dedis.ch/kyber/v3"
)

func libArity(a int) trie.PathArity {
	switch a {
	case 256:
		return trie.PathArity256
	case 16:
		return trie.PathArity16
	case 2:
		return trie.PathArity2
	}
	panic("arity")
}

func (p Params) blake() *trie_blake2b.CommitmentModel {
	if p.M != nil {
		return p.M
	}
	return trie_blake2b.New(libArity(p.Arity), trie_blake2b.HashSize(p.Hash), p.Thr)
}

func paramsOf(c map[string]int) Params {
	p := Params{Arity: c["arity"], Hash: c["hash"], Thr: c["thr"], Opt: c["opt"] != 0}
	if c["kzg"] != 0 {
		p.Arity, p.Hash, p.Thr = 256, 0, 0
	}
	return p
}

func (p Params) model() trie.CommitmentModel {
	if p.Hash == 0 {
		return trie_kzg_bn256.Model
	}
	return p.blake()
}

func vbytes(c trie.VCommitment) []byte {
	if c == nil {
		return nil
	}
	return c.Bytes()
}

// refRoot is the reference root commitment of the content
func (p Params) refRoot(n *refNode) []byte {
	if n == nil {
		return nil
	}
	if p.Hash != 0 {
		return n.c
	}
	kzgCommit(n, p)
	return n.c
}

// kzgCommit computes commitments of the reference nodes from scratch, bottom up, independently of the model under test:
// the commitment to the vector of 256 children, the terminal and the path fragment in the Lagrange basis of the trusted
// setup. A child enters as the hash of its point, a terminal as the hash of the data, the fragment hashed twice
func kzgCommit(n *refNode, p Params) kyber.Point {
	ts := &trie_kzg_bn256.Model.TrustedSetup
	g1 := ts.Suite.G1()
	sum := g1.Point().Null()
	add := func(i int, data []byte) {
		h := refHash(data, 32)
		sum.Add(sum, g1.Point().Mul(g1.Scalar().SetBytes(h), ts.LagrangeBasis[i]))
	}
	for _, i := range n.childIdx() {
		b, err := kzgCommit(n.children[i], p).MarshalBinary()
		if err != nil {
			panic(harnessPanic(err.Error()))
		}
		add(i, b)
	}
	if n.term != nil {
		add(256, p.effective([]byte(n.fullKey), n.val))
	}
	add(257, refHash(n.frag, 32))
	b, err := sum.MarshalBinary()
	if err != nil {
		panic(harnessPanic(err.Error()))
	}
	n.c = b
	return sum
}

// checkNodes compares the trie node by node with the reference
func checkNodes(r *Run, p Params, ns trie.NodeStore, ref *refNode, what string) {
	m := p.model()
	ref.walk(func(n *refNode) {
		var nd trie.Node
		var ok bool
		key := append([]byte{}, n.key...)
		arg := append([]byte{}, key...)
		r.must(what+": GetNode", func() { nd, ok = ns.GetNode(arg) })
		if r.on("scribble") {
			scribble(arg)
		}
		r.check(ok, "node-missing", "%s: node '%x' is missing", what, key)
		r.must(what+": node", func() {
			r.check(eqBytes(nd.Key(), n.key), "node-wrong", "%s: node '%x' has key '%x'", what, key, nd.Key())
			r.check(eqBytes(nd.PathFragment(), n.frag), "node-wrong", "%s: node '%x' path fragment '%x', expected '%x'", what, key, nd.PathFragment(), n.frag)
			ch := nd.ChildCommitments()
			r.check(len(ch) == len(n.children), "node-wrong", "%s: node '%x' has %d children, expected %d", what, key, len(ch), len(n.children))
			for _, i := range n.childIdx() {
				c, ok := ch[byte(i)]
				r.check(ok && c != nil, "node-wrong", "%s: node '%x' has no child %d", what, key, i)
				r.check(eqBytes(c.Bytes(), n.children[i].c), "node-wrong", "%s: node '%x': wrong commitment to child %d", what, key, i)
			}
			if n.term == nil {
				r.check(nd.Terminal() == nil, "node-wrong", "%s: node '%x' has unexpected terminal", what, key)
			} else {
				want := m.CommitToData(p.effective([]byte(n.fullKey), n.val))
				r.check(nd.Terminal() != nil && m.EqualCommitments(want, nd.Terminal()), "node-wrong", "%s: node '%x' has wrong terminal", what, key)
			}
		})
	})
}

// checkRecords compares the set of node records in the store with the reference
func checkRecords(r *Run, p Params, recs map[string]string, ref *refNode, what string) {
	want := map[string]bool{}
	ref.walk(func(n *refNode) { want[refEncode(n.key, p.Arity)] = true })
	for _, k := range sortedKeys(want) {
		_, ok := recs[k]
		r.check(ok, "record-missing", "%s: node record '%x' is missing in the store", what, k)
	}
	for _, k := range sortedKeys(recs) {
		r.check(want[k], "record-leftover", "%s: unexpected record '%x' in the trie store", what, k)
	}
}

// checkProof: the proof for the key is produced, survives serialization, verifies and tells the truth
func checkProof(r *Run, p Params, ns trie.NodeStore, rootBytes []byte, ref *refNode, content map[string]string, key []byte, what string) *trie_blake2b.Proof {
	m := p.blake()
	var pr *trie_blake2b.Proof
	kk := append([]byte{}, key...)
	r.must(fmt.Sprintf("%s: proof of key '%x'", what, key), func() { pr = m.Proof(kk, ns) })
	scribble(kk)
	return checkGivenProof(r, p, pr, rootBytes, ref, content, key, what)
}

// checkGivenProof checks a proof made by an honest prover with the state
func checkGivenProof(r *Run, p Params, pr *trie_blake2b.Proof, rootBytes []byte, ref *refNode, content map[string]string, key []byte, what string) *trie_blake2b.Proof {
	what = fmt.Sprintf("%s: proof of key '%x'", what, key)
	var pr2 *trie_blake2b.Proof
	var data []byte
	var err error
	r.check(pr != nil, "proof-nil", "%s: no proof", what)
	r.must(what+": serialize", func() { data = pr.Bytes() })
	r.must(what+": deserialize", func() { pr2, err = trie_blake2b.ProofFromBytes(data) })
	r.check(err == nil, "proof-parse", "%s: can't be parsed back: %v", what, err)
	r.must(what+": serialize again", func() {
		r.check(eqBytes(pr2.Bytes(), data), "proof-roundtrip", "%s: serialization round trip changes the proof", what)
	})
	u := refUnpack(key, p.Arity)
	val, present := content[string(key)]
	eff := p.effective(key, []byte(val))
	for i, q := range []*trie_blake2b.Proof{pr, pr2} {
		w := what
		if i == 1 {
			w += " (parsed)"
		}
		r.must(w+": validate", func() { err = trie_blake2b_verify.Validate(q, rootBytes) })
		r.check(err == nil, "proof-rejected", "%s: honest proof is rejected: %v", w, err)
		var k, t []byte
		r.must(w+": key with terminal", func() { k, t = trie_blake2b_verify.MustKeyWithTerminal(q) })
		if len(q.Path) > 0 || len(content) > 0 {
			r.check(eqBytes(k, u), "proof-wrong-key", "%s: the proof is about another key '%x'", w, k)
		}
		var absent bool
		r.must(w+": is absence", func() { absent = trie_blake2b_verify.IsProofOfAbsence(q) })
		if present {
			r.check(!absent && eqBytes(t, p.refTerm(key, []byte(val))), "proof-wrong-claim", "%s: key is present, the proof says absent=%v, terminal '%x'", w, absent, t)
			r.must(w+": validate with value", func() { err = trie_blake2b_verify.ValidateWithValue(q, rootBytes, append([]byte{}, eff...)) })
			r.check(err == nil, "proof-rejected", "%s: honest proof with the right value is rejected: %v", w, err)
			bad := append(append([]byte{}, eff...), 0)
			if len(bad)%2 == 0 {
				bad = append([]byte{}, eff...)
				bad[len(bad)/2] ^= 0x40
			}
			if !eqBytes(refData(bad, p.Hash), t) {
				r.must(w+": validate with wrong value", func() { err = trie_blake2b_verify.ValidateWithValue(q, rootBytes, bad) })
				r.check(err != nil, "proof-lie", "%s: accepted with the wrong value '%x'", w, bad)
			}
			var nc []byte
			r.must(w+": commitment to the terminal node", func() { nc = trie_blake2b_verify.CommitmentToTheTerminalNode(q) })
			r.check(eqBytes(nc, ref.find(u).c), "proof-terminal-node", "%s: wrong commitment to the terminal node", w)
		} else {
			r.check(absent && len(t) == 0, "proof-wrong-claim", "%s: key is absent, the proof says absent=%v, terminal '%x'", w, absent, t)
			for _, v := range [][]byte{{1}, key, {}} {
				r.must(w+": validate with value", func() { err = trie_blake2b_verify.ValidateWithValue(q, rootBytes, v) })
				r.check(err != nil, "proof-lie", "%s: absent key accepted with value '%x'", w, v)
			}
		}
	}
	r.count("check.proof")
	return pr
}
