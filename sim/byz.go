package main

import (
	"bytes"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/trie"
)

// The Byzantine prover: structured mutations of honest proofs, which know the format and the trie.
// The client's side: what is accepted is compared with the truth.

const numByz = 18

func cloneProof(p *trie_blake2b.Proof) *trie_blake2b.Proof {
	q := &trie_blake2b.Proof{PathArity: p.PathArity, HashSize: p.HashSize, Key: cat(p.Key, nil)}
	for _, e := range p.Path {
		q.Path = append(q.Path, cloneElem(e))
	}
	return q
}

func cloneElem(e *trie_blake2b.ProofElement) *trie_blake2b.ProofElement {
	f := &trie_blake2b.ProofElement{PathFragment: cat(e.PathFragment, nil), Children: map[byte][]byte{}, ChildIndex: e.ChildIndex}
	if e.Terminal != nil {
		f.Terminal = cat(e.Terminal, nil)
	}
	for i, c := range e.Children {
		f.Children[i] = cat(c, nil)
	}
	return f
}

// forge makes a dishonest proof. others are honest proofs of other keys (maybe of other versions of the state)
func forge(rng *Rng, kind int, p Params, ref *refNode, honest *trie_blake2b.Proof, others []*trie_blake2b.Proof, keys [][]byte) *trie_blake2b.Proof {
	q := cloneProof(honest)
	other := q
	if len(others) > 0 {
		other = cloneProof(others[rng.N(len(others))])
	}
	anyKey := func() []byte {
		if len(keys) > 0 && rng.P(3, 4) {
			return refUnpack(keys[rng.N(len(keys))], p.Arity)
		}
		k := cat(q.Key, nil)
		switch rng.N(3) {
		case 0:
			k = append(k, byte(rng.N(p.Arity)))
		case 1:
			k = k[:rng.N(len(k)+1)]
		default:
			if len(k) > 0 {
				k[rng.N(len(k))] = byte(rng.N(p.Arity))
			}
		}
		return k
	}
	n := len(q.Path)
	el := func() (*trie_blake2b.ProofElement, int) {
		if n == 0 {
			return &trie_blake2b.ProofElement{Children: map[byte][]byte{}}, 0
		}
		i := rng.N(n)
		if rng.P(1, 2) {
			i = n - 1
		}
		return q.Path[i], i
	}
	switch kind {
	case 0: // the proof of one key as the proof of another one
		q.Key = anyKey()
	case 1: // cut the path, the last element claims to be the end
		if n > 1 {
			i := rng.N(n - 1)
			q.Path = q.Path[:i+1]
			e := q.Path[i]
			old := e.ChildIndex
			if rng.P(2, 3) {
				if c := trueChild(ref, q, i, old); c != nil {
					e.Children[byte(old)] = c
				}
			}
			e.ChildIndex = rng.Pick(p.Arity, p.Arity+1, p.Arity+1, old)
		}
	case 2: // where the element points to
		e, i := el()
		c := []int{p.Arity, p.Arity + 1, p.Arity + 2, rng.N(p.Arity), 65535, -1, 256, 257, 16, 17, 2, 3}
		old := e.ChildIndex
		e.ChildIndex = c[rng.N(len(c))]
		if rng.P(1, 2) && old >= 0 && old < p.Arity {
			if cc := trueChild(ref, q, i, old); cc != nil {
				e.Children[byte(old)] = cc
			}
		}
	case 3: // terminal
		e, _ := el()
		switch rng.N(8) {
		case 0:
			e.Terminal = nil
		case 1:
			e.Terminal = []byte{}
		case 2:
			e.Terminal = append(e.Terminal, 0)
		case 3:
			if len(e.Terminal) > 0 {
				e.Terminal = e.Terminal[:len(e.Terminal)-1]
			}
		case 4:
			if len(other.Path) > 0 {
				e.Terminal = other.Path[len(other.Path)-1].Terminal
			}
		case 5:
			e.Terminal = append(e.Terminal, make([]byte, rng.Pick(20, 21, 32, 33, 40, 255))...)
		case 6:
			e.Terminal = []byte{byte(rng.N(256))}
		default:
			e.Terminal = refHash(e.Terminal, p.Hash)
		}
	case 4: // path fragment
		e, _ := el()
		old := cat(e.PathFragment, nil)
		switch rng.N(6) {
		case 0:
			e.PathFragment = append(e.PathFragment, 0)
		case 1:
			e.PathFragment = append(e.PathFragment, byte(rng.N(p.Arity)))
		case 2:
			if len(old) > 0 {
				e.PathFragment = e.PathFragment[:rng.N(len(old))]
			}
		case 3:
			if len(other.Path) > 0 {
				e.PathFragment = other.Path[rng.N(len(other.Path))].PathFragment
			}
		case 4:
			e.PathFragment = refHash(old, p.Hash)
		default:
			e.PathFragment = nil
		}
		if rng.P(1, 2) && bytes.HasSuffix(q.Key, old) { // the key follows
			q.Key = cat(q.Key[:len(q.Key)-len(old)], e.PathFragment)
		}
	case 5: // splice
		if n > 0 && len(other.Path) > 0 {
			i := rng.N(n)
			q.Path[i] = other.Path[min(i, len(other.Path)-1)]
		}
	case 6: // path of another proof continues here
		i := rng.N(len(other.Path) + 1)
		q.Path = append(q.Path, other.Path[i:]...)
	case 7:
		if rng.P(1, 2) {
			q.PathArity = trie.PathArity([]int{255, 15, 1, 0, 7, 254}[rng.N(6)])
		} else {
			q.HashSize = trie_blake2b.HashSize([]int{20, 32, 0, 31, 33, 255}[rng.N(6)])
		}
	case 8: // children
		e, _ := el()
		var idx []byte
		for i := 0; i < 256; i++ {
			if _, ok := e.Children[byte(i)]; ok {
				idx = append(idx, byte(i))
			}
		}
		switch rng.N(7) {
		case 0:
			e.Children[byte(rng.N(p.Arity))] = refHash([]byte{byte(rng.N(256))}, p.Hash)
		case 1:
			e.Children[byte(rng.N(256))] = refHash([]byte{byte(rng.N(256))}, p.Hash)
		case 2:
			e.Children[byte(rng.N(p.Arity))] = make([]byte, rng.Pick(0, 1, 19, 21, 31, 33, 64))
		case 3:
			e.Children[byte(rng.N(p.Arity))] = nil
		default:
			if len(idx) > 0 {
				i, j := idx[rng.N(len(idx))], idx[rng.N(len(idx))]
				switch rng.N(3) {
				case 0:
					delete(e.Children, i)
				case 1:
					e.Children[i], e.Children[j] = e.Children[j], e.Children[i]
				default:
					e.Children[i] = append(cat(e.Children[i], nil), 0)
				}
			}
		}
	case 9: // the present key as absent
		if n > 0 {
			e := q.Path[n-1]
			switch rng.N(4) {
			case 0:
				e.ChildIndex = p.Arity + 1
			case 1:
				e.Terminal = nil
				if rng.P(1, 2) {
					e.ChildIndex = p.Arity + 1
				}
			case 2:
				e.ChildIndex = rng.N(p.Arity)
			default:
				q.Key = append(q.Key, byte(rng.N(p.Arity)))
				e.ChildIndex = rng.Pick(p.Arity, p.Arity+1, int(q.Key[len(q.Key)-1]))
			}
		}
	case 10: // an absent key as present
		q = other
		q.Key = anyKey()
		if rng.P(1, 2) {
			q.Key = cat(honest.Key, nil)
		}
		if len(q.Path) > 0 {
			q.Path[len(q.Path)-1].ChildIndex = p.Arity
		}
	case 11: // a present child as absent
		if n > 0 {
			i := rng.N(n)
			q.Path = q.Path[:i+1]
			e := q.Path[i]
			pos := 0
			for j := 0; j < i; j++ {
				pos += len(q.Path[j].PathFragment) + 1
			}
			pos += len(e.PathFragment)
			for c := range 256 {
				if _, ok := e.Children[byte(c)]; ok && rng.P(1, 2) && pos <= len(q.Key) {
					q.Key = append(cat(q.Key[:pos], nil), byte(c))
					if rng.P(1, 2) {
						delete(e.Children, byte(c))
					}
					e.ChildIndex = rng.Pick(c, p.Arity+1)
					break
				}
			}
		}
	case 12: // without the root
		if n > 1 {
			k := len(q.Path[0].PathFragment) + 1
			q.Path = q.Path[1:]
			if rng.P(1, 2) && k <= len(q.Key) {
				q.Key = q.Key[k:]
			}
		}
	case 13:
		q.Path = nil
	case 14: // shift the boundary between the nodes
		if n > 1 {
			i := rng.N(n - 1)
			a, b := q.Path[i], q.Path[i+1]
			m := cloneElem(b)
			m.PathFragment = cat(append(cat(a.PathFragment, nil), byte(a.ChildIndex)), b.PathFragment)
			q.Path = append(append(append([]*trie_blake2b.ProofElement{}, q.Path[:i]...), m), q.Path[i+2:]...)
		}
	case 15: // one element twice
		if n > 0 {
			i := rng.N(n)
			q.Path = append(q.Path[:i+1], append([]*trie_blake2b.ProofElement{cloneElem(q.Path[i])}, q.Path[i+1:]...)...)
		}
	case 16: // intermediate element with a fragment which is not on the path
		if n > 0 {
			i := rng.N(n)
			q.Path[i].PathFragment, q.Path[n-1].PathFragment = q.Path[n-1].PathFragment, q.Path[i].PathFragment
		}
	default: // key shifted
		if len(q.Key) > 0 {
			q.Key = q.Key[1:]
		} else {
			q.Key = []byte{0}
		}
	}
	return q
}

// trueChild is the commitment to the child idx of the node at the path position i
func trueChild(ref *refNode, q *trie_blake2b.Proof, i, idx int) []byte {
	n := ref
	for j := 0; j < i && n != nil; j++ {
		n = n.children[q.Path[j].ChildIndex]
	}
	if n == nil || n.children[idx] == nil {
		return nil
	}
	return cat(n.children[idx].c, nil)
}

// verdict of the client
type verdict struct {
	accepted bool
	key      []byte // unpacked
	term     []byte // nil: absent
}

// ask verifies the proof the way a client does. A panic is a violation
func ask(r *Run, p *trie_blake2b.Proof, root []byte, what string) verdict {
	var err error
	r.must(what+": validate", func() { err = trie_blake2b_verify.Validate(p, root) })
	if err != nil {
		return verdict{}
	}
	v := verdict{accepted: true}
	r.must(what+": claim of the accepted proof", func() {
		v.key, v.term = trie_blake2b_verify.MustKeyWithTerminal(p)
		absent := trie_blake2b_verify.IsProofOfAbsence(p)
		r.check(absent == (v.term == nil), "claim-inconsistent", "%s: absence %v, terminal %x", what, absent, v.term)
	})
	if len(p.Path) == 0 {
		v.key = p.Key
	}
	return v
}

// judge compares what an accepted proof claims with the truth
func judge(r *Run, w string, pp Params, q *trie_blake2b.Proof, root []byte, content map[string]string, ref *refNode) bool {
	v := ask(r, q, root, w)
	if !v.accepted {
		return false
	}
	var truth []byte
	n := ref.find(v.key)
	present := n != nil && n.term != nil
	if present {
		truth = n.term
	}
	honest := present == (v.term != nil) && bytes.Equal(truth, v.term)
	if !honest {
		if k := ambiguity(pp, q, ref); k != "" && r.known("C06."+k) {
			return true
		}
		r.fail("proof-lie", "%s: accepted: key '%x' (unpacked) terminal %x absent %v, but the committed state has terminal %x", w, v.key, v.term, v.term == nil, truth)
	}
	// with values
	var vals [][]byte
	if present {
		eff := pp.effective([]byte(n.fullKey), n.val)
		x := cat(eff, nil)
		x[len(x)/2] ^= 1
		vals = append(vals, eff, x, eff[:len(eff)-1], cat(eff, []byte{1}), v.term, []byte(n.fullKey))
	} else {
		vals = append(vals, v.key, []byte{1}, []byte{0})
	}
	vals = append(vals, nil, []byte{})
	for _, x := range vals {
		var err error
		r.must(w+": validate with value", func() { err = trie_blake2b_verify.ValidateWithValue(q, root, x) })
		ok := present && len(x) > 0 && bytes.Equal(x, pp.effective([]byte(n.fullKey), n.val))
		if ok {
			r.check(err == nil, "proof-rejected", "%s: the true value is rejected: %v", w, err)
		} else if err == nil {
			if present && bytes.Equal(refData(x, pp.Hash), n.term) && r.known("C06.raw-value-of-the-hash") {
				continue
			}
			r.fail("proof-lie", "%s: accepted with value %x, present=%v", w, x, present)
		}
	}
	if present {
		var c []byte
		r.must(w+": commitment to the terminal node", func() { c = trie_blake2b_verify.CommitmentToTheTerminalNode(q) })
		if !bytes.Equal(c, n.c) {
			if k := ambiguity(pp, q, ref); k != "" && r.known("C06."+k) {
				return true
			}
		}
		r.check(bytes.Equal(c, n.c), "substate", "%s: wrong commitment to the sub-state", w)
	}
	return true
}

// ambiguity recognises the known findings of C06: the elements of the proof have exactly the vectors of the true nodes
// on the path, and a correct verifier (the path is bound to the key) would accept as well, but the content of an
// element differs from the node: zero padding in the vector, or data which is equal to the hash of other data
func ambiguity(pp Params, q *trie_blake2b.Proof, ref *refNode) string {
	n := ref
	kind := ""
	pos := 0
	for i, e := range q.Path {
		if n == nil {
			return ""
		}
		ch := map[int][]byte{}
		for j, c := range e.Children {
			ch[int(j)] = c
		}
		last := i == len(q.Path)-1
		if e.ChildIndex >= 0 && e.ChildIndex < pp.Arity {
			if last {
				delete(ch, e.ChildIndex)
			} else if c := n.children[e.ChildIndex]; c != nil {
				ch[e.ChildIndex] = c.c
			}
		}
		tch := map[int][]byte{}
		for j, c := range n.children {
			tch[j] = c.c
		}
		if len(e.Terminal) > pp.Hash+1 {
			return ""
		}
		if !bytes.Equal(refVectorBuf(ch, e.Terminal, e.PathFragment, pp), refVectorBuf(tch, n.term, n.frag, pp)) {
			return ""
		}
		for _, d := range [][2][]byte{{e.Terminal, n.term}, {e.PathFragment, n.frag}} {
			a, b := d[0], d[1]
			if bytes.Equal(a, b) {
				continue
			}
			if bytes.Equal(bytes.TrimRight(a, "\x00"), bytes.TrimRight(b, "\x00")) {
				kind = "zero-padding"
			} else {
				kind = "raw-or-hash"
			}
		}
		tail := q.Key[min(pos, len(q.Key)):]
		pre := bytes.HasPrefix(tail, e.PathFragment)
		rest := []byte(nil)
		if pre {
			rest = tail[len(e.PathFragment):]
		}
		if !last {
			if !pre || len(rest) == 0 || int(rest[0]) != e.ChildIndex {
				return ""
			}
			pos += len(e.PathFragment) + 1
			n = n.children[e.ChildIndex]
			continue
		}
		switch {
		case e.ChildIndex == pp.Arity:
			if !pre || len(rest) != 0 {
				return ""
			}
		case e.ChildIndex == pp.Arity+1:
			if pre && (len(rest) == 0 || ch[int(rest[0])] != nil) {
				return ""
			}
		case e.ChildIndex >= 0 && e.ChildIndex < pp.Arity:
			if !pre || len(rest) == 0 || int(rest[0]) != e.ChildIndex || ch[e.ChildIndex] != nil {
				return ""
			}
		default:
			return ""
		}
	}
	return kind
}

// refVectorBuf is the vector of the node before it is hashed
func refVectorBuf(children map[int][]byte, term, frag []byte, p Params) []byte {
	sl := p.Hash + 1
	buf := make([]byte, (p.Arity+2)*sl)
	for i, c := range children {
		if i < p.Arity {
			copy(buf[i*sl:(i+1)*sl], c)
		}
	}
	copy(buf[p.Arity*sl:(p.Arity+1)*sl], term)
	copy(buf[(p.Arity+1)*sl:], refData(frag, p.Hash))
	return buf
}
