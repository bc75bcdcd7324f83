package main

import (
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

func kzgPoint(r *Run, b []byte) trie.VCommitment {
	c := trie_kzg_bn256.Model.NewVectorCommitment()
	if err := c.Read(newByteReader(b)); err != nil {
		r.fail("commitment-parse", "commitment %x can't be parsed: %v", b, err)
	}
	return c
}

// checkKzgProof: proof of inclusion of a present key verifies, with its value only; an absent key has no proof
func checkKzgProof(r *Run, ns trie.NodeStore, root []byte, content map[string]string, key []byte) *trie_kzg_bn256.ProofOfInclusion {
	var pr, pr2 *trie_kzg_bn256.ProofOfInclusion
	var ok bool
	var err error
	arg := append([]byte{}, key...)
	r.must("KZG proof", func() { pr, ok = trie_kzg_bn256.Model.ProofOfInclusion(arg, ns) })
	scribble(arg)
	val, present := content[string(key)]
	r.count("check.kzgproof")
	if !present {
		r.check(!ok, "kzg-proof-absent", "proof of inclusion is produced for the absent key '%x'", key)
		return nil
	}
	r.check(ok && pr != nil, "kzg-no-proof", "no proof of inclusion for the present key '%x'", key)
	var data []byte
	r.must("KZG proof serialize", func() { data = pr.Bytes() })
	r.must("KZG proof deserialize", func() { pr2, err = trie_kzg_bn256.ProofOfInclusionFromBytes(data) })
	r.check(err == nil, "kzg-proof-parse", "proof for '%x' can't be parsed back: %v", key, err)
	r.must("KZG proof serialize again", func() {
		r.check(eqBytes(pr2.Bytes(), data), "kzg-proof-roundtrip", "serialization round trip changes the proof for '%x'", key)
	})
	r.check(eqBytes(pr2.Key, key), "kzg-proof-key", "proof for '%x' is about '%x'", key, pr2.Key)
	rc := kzgPoint(r, root)
	r.must("KZG validate", func() { err = pr2.Validate(rc, []byte(val)) })
	r.check(err == nil, "kzg-proof-rejected", "honest proof for '%x' is rejected: %v", key, err)
	r.must("KZG validate", func() { err = pr2.Validate(rc, append([]byte(val), 'x')) })
	r.check(err != nil, "kzg-proof-lie", "proof for '%x' is accepted with a wrong value", key)
	return pr
}
