package main

import (
	"encoding/json"
	"os"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

// Known findings: genuine defects of the library which are recorded, not repaired. The file lists them by id; a
// recogniser below or in a judge tells exactly which input it is. Without the entry in the file it is a violation.

type KnownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
}

type KnownFindings struct {
	Known []KnownFinding `json:"known"`
	Fixed []string       `json:"fixed"`
}

var knownList *KnownFindings

func knownFile() string {
	if f := os.Getenv("SIMTRIE_KNOWN"); f != "" {
		return f
	}
	return "/verif/known_findings.json"
}

func loadKnown() *KnownFindings {
	if knownList == nil {
		knownList = &KnownFindings{}
		if b, err := os.ReadFile(knownFile()); err == nil {
			if err = json.Unmarshal(b, knownList); err != nil {
				die("%s: %v", knownFile(), err)
			}
		}
	}
	return knownList
}

// known tells whether the finding is listed, and counts it
func (r *Run) known(id string) bool {
	for _, k := range loadKnown().Known {
		if k.ID == id {
			r.count("known." + id)
			return true
		}
	}
	return false
}

// World demo: one minimal history per known finding. It returns normally if the defect does not show

var demos = map[string]func(r *Run) bool{
	"C06.zero-padding": func(r *Run) bool {
		p := Params{Arity: 16, Hash: 32}
		forged := demoProof(p, map[string]string{"a": "v"}, "a")
		v, absent := demoAsk(p, map[string]string{"a\x00": "v"}, forged)
		return v && !absent // key 'a' proven present in a state which has only 'a\0'
	},
	"C06.raw-or-hash": func(r *Run) bool {
		// a path fragment longer than the hash is committed to by its hash; the raw hash as path fragment looks the same
		p := Params{Arity: 256, Hash: 32}
		long := string(make([]byte, 40)) + "k"
		forged := demoProof(p, map[string]string{string(refHash([]byte(long), 32)): "v"}, string(refHash([]byte(long), 32)))
		v, absent := demoAsk(p, map[string]string{long: "v"}, forged)
		return v && !absent
	},
	"C06.raw-value-of-the-hash": func(r *Run) bool {
		p := Params{Arity: 16, Hash: 32}
		long := string(make([]byte, 40)) + "value"
		content := map[string]string{"a": long}
		tr := demoTrie(p, content)
		pr := p.blake().Proof([]byte("a"), tr)
		return trie_blake2b_verify.ValidateWithValue(pr, trie.RootCommitment(tr).Bytes(), refHash([]byte(long), 32)) == nil
	},
	"C19.key-not-authenticated": func(r *Run) bool {
		p := Params{Arity: 256}
		content := map[string]string{"a": "v", "b": "w"}
		tr := trie.New(p.model(), trie.NewInMemoryKVStore(), nil)
		for _, k := range sortedKeys(content) {
			tr.UpdateStr(k, content[k])
		}
		tr.Commit()
		pr, ok := trie_kzg_bn256.Model.ProofOfInclusion([]byte("a"), tr)
		if !ok {
			return false
		}
		pr.Key = []byte("another key")
		return pr.Validate(trie.RootCommitment(tr), []byte("v")) == nil
	},
}

func demoTrie(p Params, content map[string]string) *trie.Trie {
	tr := trie.New(p.model(), trie.NewInMemoryKVStore(), nil)
	for _, k := range sortedKeys(content) {
		tr.UpdateStr(k, content[k])
	}
	tr.Commit()
	return tr
}

func demoProof(p Params, content map[string]string, key string) (q *trie_blake2b.Proof) {
	return p.blake().Proof([]byte(key), demoTrie(p, content))
}

func demoAsk(p Params, content map[string]string, q *trie_blake2b.Proof) (valid, absent bool) {
	root := trie.RootCommitment(demoTrie(p, content)).Bytes()
	if trie_blake2b_verify.Validate(q, root) != nil {
		return false, false
	}
	return true, trie_blake2b_verify.IsProofOfAbsence(q)
}

func runD(r *Run) {
	for i := range r.p.Steps {
		s := r.nextStep(i)
		f, ok := demos[s.Op]
		if !ok {
			continue
		}
		shows := false
		o := r.try(func() { shows = f(r) })
		r.ev("%s shows %v", s.Op, shows)
		if shows && !o.panicked && !r.known(s.Op) {
			r.fail("proof-lie", "%s", s.Op)
		}
		if shows {
			r.count("shows." + s.Op)
		}
	}
}

// knownDemos runs the demonstrations of the findings of the property: the lines to print for those which are listed and
// show, and the id of one which shows but is not listed
func knownDemos(prop string) (lines []string, viol string) {
	kf := loadKnown()
	for _, id := range sortedKeys(demos) {
		if id[:3] != prop {
			continue
		}
		p := &Plan{Prop: prop, World: "demo", Cfg: map[string]int{}, Steps: []Step{{Op: id}}}
		r, v := safeExec(p, false)
		if v != nil {
			viol = id
			continue
		}
		if r == nil || r.st["shows."+id] == 0 {
			continue
		}
		for _, k := range kf.Known {
			if k.ID == id {
				lines = append(lines, "KNOWN-FINDING: property="+prop+" "+id+": "+k.What)
			}
		}
	}
	return
}
