package main

import (
	"bytes"
	"sort"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"golang.org/x/crypto/blake2b"
)

// Reference model of the 256+ trie, written from the definition of the trie and independent of the code under test:
// a pure recursive function of the sorted set of key/value pairs.
//
// Node = (path fragment, terminal, children). A node exists where a key ends or where keys diverge.
// Commitment (blake2b) = hash of the vector of arity+3 slots of hashSize+1 bytes each: children at their indices,
// terminal at arity+1, path fragment at arity+2. Data up to hashSize bytes is committed to as is, longer data is hashed.

type Params struct {
	Arity int // number of children: 256, 16 or 2
	Hash  int // 20 or 32
	Thr   int
	Opt   bool
	M     *trie_blake2b.CommitmentModel // one instance shared by all the users, nil: each one has its own
}

type refNode struct {
	key      []byte // unpacked position
	frag     []byte
	term     []byte // nil if none
	val      []byte // value behind the terminal
	fullKey  string
	children map[int]*refNode
	c        []byte
}

func refUnpack(key []byte, arity int) []byte {
	switch arity {
	case 256:
		return append([]byte{}, key...)
	case 16:
		r := make([]byte, 0, 2*len(key))
		for _, b := range key {
			r = append(r, b/16, b%16)
		}
		return r
	case 2:
		r := make([]byte, 0, 8*len(key))
		for _, b := range key {
			for m := 128; m > 0; m /= 2 {
				r = append(r, byte(int(b)/m%2))
			}
		}
		return r
	}
	panic("arity")
}

// refEncode is the key of the node record in the store
func refEncode(u []byte, arity int) string {
	if len(u) == 0 {
		return ""
	}
	switch arity {
	case 256:
		return string(u)
	case 16:
		r := []byte{byte(len(u) % 2)}
		for i := 0; i < len(u); i += 2 {
			b := u[i] * 16
			if i+1 < len(u) {
				b += u[i+1]
			}
			r = append(r, b)
		}
		return string(r)
	case 2:
		r := []byte{byte((8 - len(u)%8) % 8)}
		for i := 0; i < len(u); i += 8 {
			b := 0
			for j := 0; j < 8; j++ {
				b *= 2
				if i+j < len(u) {
					b += int(u[i+j])
				}
			}
			r = append(r, byte(b))
		}
		return string(r)
	}
	panic("arity")
}

func refHash(data []byte, sz int) []byte {
	if sz == 32 {
		h := blake2b.Sum256(data)
		return h[:]
	}
	h, err := blake2b.New(20, nil)
	if err != nil {
		panic(err)
	}
	h.Write(data)
	return h.Sum(nil)
}

func refData(data []byte, sz int) []byte {
	if len(data) <= sz {
		return append([]byte{}, data...)
	}
	return refHash(data, sz)
}

// refTerm is the terminal commitment of the pair
func (p Params) refTerm(k, v []byte) []byte { return refData(p.effective(k, v), p.Hash) }

// effective is the data which is committed to: the value or, if key commitments are optimized and the value is equal
// to the key, the unpacked key
func (p Params) effective(k, v []byte) []byte {
	if p.Opt && bytes.Equal(k, v) {
		return refUnpack(k, p.Arity)
	}
	return v
}

func sortedKeys[T any](m map[string]T) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

type refEntry struct {
	u, term, val []byte
	key          string
}

// refBuild builds the reference trie, nil if there are no entries
func refBuild(m map[string]string, p Params) *refNode {
	keys := sortedKeys(m)
	es := make([]refEntry, 0, len(keys))
	for _, k := range keys {
		v := []byte(m[k])
		es = append(es, refEntry{u: refUnpack([]byte(k), p.Arity), term: p.refTerm([]byte(k), v), val: v, key: k})
	}
	if len(es) == 0 {
		return nil
	}
	return refNodeAt(es, 0, p)
}

func refNodeAt(es []refEntry, pos int, p Params) *refNode {
	// the longest common extension of all the entries beyond pos
	first, last := es[0].u, es[len(es)-1].u
	e := pos
	for e < len(first) && e < len(last) && first[e] == last[e] {
		e++
	}
	n := &refNode{key: first[:pos], frag: first[pos:e], children: map[int]*refNode{}}
	i := 0
	if len(es[0].u) == e {
		n.term, n.val, n.fullKey = es[0].term, es[0].val, es[0].key
		i = 1
	}
	for i < len(es) {
		j := i
		for j < len(es) && es[j].u[e] == es[i].u[e] {
			j++
		}
		n.children[int(es[i].u[e])] = refNodeAt(es[i:j], e+1, p)
		i = j
	}
	if p.Hash != 0 {
		ch := map[int][]byte{}
		for idx, c := range n.children {
			ch[idx] = c.c
		}
		n.c = refVector(ch, n.term, n.frag, p)
	}
	return n
}

func refVector(children map[int][]byte, term, frag []byte, p Params) []byte {
	sl := p.Hash + 1
	buf := make([]byte, (p.Arity+2)*sl)
	for i, c := range children {
		copy(buf[i*sl:(i+1)*sl], c)
	}
	copy(buf[p.Arity*sl:], term)
	copy(buf[(p.Arity+1)*sl:], refData(frag, p.Hash))
	return refHash(buf, p.Hash)
}

func (n *refNode) walk(f func(*refNode)) {
	if n == nil {
		return
	}
	f(n)
	for _, i := range n.childIdx() {
		n.children[i].walk(f)
	}
}

func (n *refNode) root() []byte {
	if n == nil {
		return nil
	}
	return n.c
}

// find returns the node where the key ends, nil if there's no such node (whether or not it has a terminal)
func (n *refNode) find(u []byte) *refNode {
	for n != nil {
		if !bytes.HasPrefix(u, n.frag) {
			return nil
		}
		u = u[len(n.frag):]
		if len(u) == 0 {
			return n
		}
		n, u = n.children[int(u[0])], u[1:]
	}
	return nil
}

// at returns the node positioned exactly at the unpacked key of the node
func (n *refNode) at(u []byte) *refNode {
	for n != nil {
		if len(u) == 0 {
			return n
		}
		if len(u) <= len(n.frag) || !bytes.HasPrefix(u, n.frag) {
			return nil
		}
		u = u[len(n.frag):]
		n, u = n.children[int(u[0])], u[1:]
	}
	return nil
}

func (n *refNode) childIdx() []int {
	r := make([]int, 0, len(n.children))
	for i := range n.children {
		r = append(r, i)
	}
	sort.Ints(r)
	return r
}
