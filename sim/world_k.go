package main

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"fmt"
	"io"
	math_rand "math/rand"
	"os"
	"path/filepath"
	"regexp"

	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/pairing/bn256"
	"simtrie/kzgsetup"
	"simtrie/term"
)

// World K: KZG. A prover with a sequence of states, a client who knows the roots, messages between them are damaged or
// forged (C19); trusted setups generated, stored in a file of a faulty disk and loaded (C20).

func genK(p *Plan, rng *Rng) {
	c := p.Cfg
	c["kzg"], c["arity"] = 1, 256
	if p.Prop == "C20" {
		n := rng.Pick(1, 2, 3)
		for i := 0; i < n; i++ {
			s := Step{Op: "setup", A: rng.N(1 << 20), B: rng.N(1 << 20), C: rng.Pick(1, 2, 3, 4, 5, 8), K: rng.Bytes(rng.Range(0, 40))}
			if rng.P(1, 150) {
				s.C = 258
			}
			if rng.P(1, 40) {
				s.Op = "tool"
				s.F = nil
				for j := rng.Pick(0, 1, 1, 2); j > 0; j-- {
					s.F = append(s.F, Fault{Kind: []string{"werr", "rerr", "openerr", "closeerr", "frag", "short", "nopass"}[rng.N(7)], A: rng.N(1 << 30), B: rng.N(256)})
				}
				p.Steps = append(p.Steps, s)
				continue
			}
			for j := rng.Pick(0, 1, 1, 2); j > 0; j-- {
				s.F = append(s.F, Fault{Kind: []string{"trunc", "extend", "flip", "rerr", "frag", "smallsecret", "rou", "sector", "point"}[rng.N(9)], A: rng.N(1 << 30), B: rng.N(256)})
			}
			p.Steps = append(p.Steps, s)
		}
		return
	}
	c["setup"] = rng.W(6, 1, 1)
	g := newKeyGen(rng, 256)
	g.pool = g.pool[:min(len(g.pool), 6)]
	p.Steps = append(p.Steps, Step{Op: "put", L: kzgPairs(g, rng)})
	if rng.P(1, 2) {
		p.Steps = append(p.Steps, Step{Op: "put", L: kzgPairs(g, rng)})
	}
	if rng.P(1, 3) { // a path of several nodes
		w := g.word(rng.Range(3, 8))
		var l []Hex
		for i := rng.N(2); i <= len(w); i++ {
			l = append(l, cat(w[:i], nil), g.val(nil))
			g.pool = append(g.pool, w[:i])
		}
		p.Steps = append(p.Steps, Step{Op: "put", L: l})
	}
	if rng.P(1, 3) {
		s := Step{Op: "incr", A: rng.Range(1, 12), B: rng.N(1 << 30), C: rng.W(1, 2)}
		p.Steps = append(p.Steps, s)
	}
	for i := rng.Range(1, 3); i > 0; i-- {
		s := Step{Op: "req", K: g.key(), A: rng.N(1 << 20)}
		for j := rng.Pick(1, 3, 5); j > 0; j-- {
			s.F = append(s.F, Fault{Kind: []string{"byz", "byz", "byz", "flip", "trunc", "extend"}[rng.N(6)], A: rng.N(numKzgByz), B: rng.N(1 << 30)})
		}
		p.Steps = append(p.Steps, s)
	}
}

func kzgPairs(g *keyGen, rng *Rng) (ret []Hex) {
	for j := rng.Pick(1, 2, 3, 5); j > 0; j-- {
		k := g.key()
		v := g.val(k)
		if rng.P(1, 6) {
			v = nil
		}
		ret = append(ret, k, v)
	}
	return
}

type kVersion struct {
	content map[string]string
	ref     *refNode
	root    []byte
	st      map[string]string
}

type kWorld struct {
	r    *Run
	p    Params
	vers []*kVersion
	tr   *trie.Trie
	st   *simKV
	cur  map[string]string
	dir  string
}

func runK(r *Run) {
	defer r.useModel(r.cfg("setup"))()
	w := &kWorld{r: r, p: paramsOf(r.p.Cfg), st: newSimKV(r), cur: map[string]string{}}
	w.tr = trie.New(w.p.model(), w.st, nil, false)
	defer func() {
		clearHooks()
		if w.dir != "" {
			_ = os.RemoveAll(w.dir)
		}
	}()
	for i := range r.p.Steps {
		s := r.nextStep(i)
		switch s.Op {
		case "put":
			for i := 0; i+1 < len(s.L); i += 2 {
				r.must("update", func() { w.tr.Update(s.L[i], s.L[i+1]) })
				if len(s.L[i+1]) == 0 {
					delete(w.cur, string(s.L[i]))
				} else {
					w.cur[string(s.L[i])] = string(s.L[i+1])
				}
			}
			r.must("commit", func() { w.tr.Commit(); w.tr.PersistMutations(w.st) })
			v := &kVersion{content: cloneMap(w.cur), st: w.st.snapshot()}
			v.ref = refBuild(w.cur, w.p)
			v.root = w.p.refRoot(v.ref)
			w.vers = append(w.vers, v)
			var root []byte
			r.must("root", func() { root = vbytes(trie.RootCommitment(w.tr)) })
			r.check(bytes.Equal(root, v.root), "root", "root %x, expected %x", root, v.root)
			r.ev("root %x", root)
		case "req":
			w.req(s)
		case "incr":
			w.incremental(s)
		case "setup":
			w.setup(s)
		case "tool":
			w.tool(s)
		}
	}
}

const numKzgByz = 17

func (w *kWorld) req(s *Step) {
	r := w.r
	if len(w.vers) == 0 {
		return
	}
	v := w.vers[len(w.vers)-1]
	if v.ref == nil {
		return
	}
	ns := trie.NewTrieReader(w.p.model(), mapReader(v.st), nil)
	honest := checkKzgProof(r, ns, v.root, v.content, s.K)
	ks := sortedKeys(v.content)
	if honest == nil {
		k := []byte(ks[s.A%len(ks)])
		r.must("proof", func() { honest, _ = trie_kzg_bn256.Model.ProofOfInclusion(k, ns) })
	}
	var other *trie_kzg_bn256.ProofOfInclusion
	ov := w.vers[s.A%len(w.vers)]
	if ov.ref == nil {
		ov = v
	}
	oks := sortedKeys(ov.content)
	ok := []byte(oks[(s.A/7)%len(oks)])
	r.must("proof", func() {
		other, _ = trie_kzg_bn256.Model.ProofOfInclusion(ok, trie.NewTrieReader(w.p.model(), mapReader(ov.st), nil))
	})
	r.check(honest != nil && other != nil, "kzg-no-proof", "no proof of a present key")
	w.judge("honest proof", honest, v)
	w.judge("other proof", other, v)
	for _, f := range s.F {
		data := honest.Bytes()
		rng := &Rng{s: uint64(f.B)}
		switch f.Kind {
		case "flip":
			data[f.B%len(data)] ^= 1 << (f.A % 8)
		case "trunc":
			data = data[:f.B%len(data)]
		case "extend":
			data = append(data, rng.Bytes(1+f.A)...)
		case "byz":
			r.count(fmt.Sprintf("fault.kzg_byzantine_%02d", f.A))
			q := kzgForge(rng, f.A, honest, other, ks)
			w.judge("forged proof", q, v)
			continue
		}
		r.count("fault.kzg_" + f.Kind)
		var q *trie_kzg_bn256.ProofOfInclusion
		var err error
		r.must("parse of the damaged proof", func() { q, err = trie_kzg_bn256.ProofOfInclusionFromBytes(data) })
		r.check(err != nil || f.Kind == "flip", "kzg-proof-parse", "proof with wrong length is accepted")
		if err == nil {
			w.judge("damaged proof", q, v)
		}
	}
}

func kzgClone(p *trie_kzg_bn256.ProofOfInclusion) *trie_kzg_bn256.ProofOfInclusion {
	q := &trie_kzg_bn256.ProofOfInclusion{Key: cat(p.Key, nil), Terminal: p.Terminal.Clone()}
	for _, e := range p.Path {
		q.Path = append(q.Path, &trie_kzg_bn256.ProofElement{C: e.C.Clone(), VectorIndex: e.VectorIndex, Proof: e.Proof.Clone()})
	}
	return q
}

func kzgForge(rng *Rng, kind int, h, o *trie_kzg_bn256.ProofOfInclusion, keys []string) *trie_kzg_bn256.ProofOfInclusion {
	q, x := kzgClone(h), kzgClone(o)
	n, m := len(q.Path), len(x.Path)
	i := rng.N(n)
	if rng.P(1, 2) {
		i = n - 1
	}
	suite := trie_kzg_bn256.Model.Suite
	switch kind {
	case 0:
		q.Terminal = x.Terminal
	case 1:
		q.Terminal = suite.G1().Scalar().SetInt64(int64(rng.N(3)))
	case 2:
		q.Path[i].VectorIndex = uint16(rng.Pick(0, 1, 97, 98, 255, 256, 257, 258, 259, 1000, 65535))
	case 3:
		q.Path[i].C = x.Path[rng.N(m)].C
	case 4:
		q.Path[i].Proof = x.Path[rng.N(m)].Proof
	case 5:
		q.Path = q.Path[:rng.N(n)]
	case 6:
		q.Path = append(q.Path, x.Path[rng.N(m):]...)
	case 7:
		q.Path = q.Path[1:]
	case 8: // the path ends with another node
		q.Path[n-1] = x.Path[m-1]
		q.Terminal = x.Terminal
	case 9:
		q.Path[i].Proof = suite.G1().Point().Null()
	case 10: // all of the other proof after the root
		q.Path = append(q.Path[:1], x.Path[min(1, m-1):]...)
		q.Terminal = x.Terminal
	case 11, 12: // the relation the pairing checks is linear: multiples of the last opening or of all of them
		f := suite.G1().Scalar().SetInt64(int64(rng.Pick(-1, -1, 0, 2, 3)))
		if kind == 12 {
			i = 0
		} else {
			i = n - 1
		}
		for ; i < n; i++ {
			e := q.Path[i]
			e.C, e.Proof = e.C.Clone().Mul(f, e.C), e.Proof.Clone().Mul(f, e.Proof)
		}
		q.Terminal = q.Terminal.Clone().Mul(f, q.Terminal)
	case 13: // the sum of two openings
		e, o := q.Path[n-1], x.Path[m-1]
		e.C, e.Proof = e.C.Clone().Add(e.C, o.C), e.Proof.Clone().Add(e.Proof, o.Proof)
		q.Terminal = q.Terminal.Clone().Add(q.Terminal, x.Terminal)
	case 14: // an inner node claims that its child is the terminal
		i = rng.N(n)
		c := q.Path[i].C
		q.Path = q.Path[:i+1]
		if i+1 < n {
			c = h.Path[i+1].C
		}
		q.Terminal = suite.G1().Scalar().SetBytes(refHash(marshal(c), 32))
		if rng.P(1, 2) {
			q.Path[i].VectorIndex = 256
		}
	case 15: // the opening of another element of the same node
		for _, e := range x.Path {
			if e.C.Equal(q.Path[n-1].C) && e.VectorIndex != q.Path[n-1].VectorIndex {
				q.Path[n-1].Proof = e.Proof
				if rng.P(1, 2) {
					q.Path[n-1].VectorIndex = e.VectorIndex
				}
			}
		}
		q.Path[i].VectorIndex = uint16(rng.N(259))
	default:
		q.Path = append(q.Path[:i+1], q.Path[i:]...)
	}
	if rng.P(1, 6) && len(keys) > 0 {
		q.Key = []byte(keys[rng.N(len(keys))])
	}
	return q
}

// judge: what is accepted must be true: the indices of the path lead to the node which commits to the terminal.
// The key itself is not authenticated by the proof, see known findings
func (w *kWorld) judge(what string, q *trie_kzg_bn256.ProofOfInclusion, v *kVersion) {
	r := w.r
	root := kzgPoint(r, v.root)
	n := v.ref
	for i, e := range q.Path {
		if i == len(q.Path)-1 {
			if e.VectorIndex != 256 || n.term == nil {
				n = nil
			}
			break
		}
		if n = n.children[int(e.VectorIndex)]; n == nil {
			break
		}
	}
	if len(q.Path) == 0 {
		n = nil
	}
	var want trie.TCommitment
	if n != nil && n.term != nil {
		want = w.p.model().CommitToData(w.p.effective([]byte(n.fullKey), n.val))
	}
	var err error
	r.must(what+": validate", func() { err = q.Validate(root) })
	r.ev("%s: accepted %v", what, err == nil)
	truth := want != nil && bytes.Equal(marshal(q.Terminal), want.Bytes())
	r.count("check.kzg_judged")
	if err == nil {
		r.count("probe.kzg_accepted")
		r.check(truth, "proof-lie", "%s: accepted although the state has no such terminal at the path", what)
		if string(q.Key) != n.fullKey && !r.known("C19.key-not-authenticated") {
			r.fail("proof-lie", "%s: accepted for the key '%x', the terminal belongs to '%x'", what, q.Key, n.fullKey)
		}
	}
	vals := [][]byte{{1}, nil}
	if n != nil && n.term != nil {
		vals = append(vals, n.val, append(cat(n.val, nil), 0))
	}
	for _, x := range vals {
		var e2 error
		r.must(what+": validate with value", func() { e2 = q.Validate(root, x) })
		if e2 == nil {
			r.check(n != nil && truth && bytes.Equal(x, n.val), "proof-lie", "%s: accepted with the value '%x'", what, x)
			r.check(err == nil, "proof-lie", "%s: accepted with the value and not without", what)
		} else if err == nil && bytes.Equal(x, n.val) {
			r.fail("proof-rejected", "%s: is valid but is rejected with its value: %v", what, e2)
		}
	}
}

func marshal(x kyber.Marshaling) []byte {
	b, err := x.MarshalBinary()
	if err != nil {
		return nil
	}
	return b
}

// ---------------------------------------------------------------------------
// trusted setup

var kSuite = bn256.NewSuite()

func (w *kWorld) setup(s *Step) {
	r := w.r
	defer clearHooks()
	var a, b *trie_kzg_bn256.TrustedSetup
	var err error
	d := uint16(s.C)
	mode := s.A % 3
	if fault(s, "smallsecret") != nil {
		// a secret which is too simple is refused
		for _, x := range []int64{0, 1, 2, int64(d), 1 << 40} {
			r.must("setup of a simple secret", func() {
				sec := kSuite.G1().Scalar().SetInt64(x)
				if mode == 0 {
					a, err = trie_kzg_bn256.TrustedSetupFromSecretPowers(kSuite, d, trie_kzg_bn256.Model.Omega, sec)
				} else {
					a, err = trie_kzg_bn256.TrustedSetupFromSecretNaturalDomain(kSuite, d, sec)
				}
			})
			r.check(err != nil, "setup-secret", "secret %d is accepted", x)
		}
		if mode == 0 { // the secret is in the domain
			sec := kSuite.G1().Scalar().One()
			for i := 0; i < int(d)-1; i++ {
				sec.Mul(sec, trie_kzg_bn256.Model.Omega)
			}
			r.must("setup with the secret in the domain", func() {
				a, err = trie_kzg_bn256.TrustedSetupFromSecretPowers(kSuite, d, trie_kzg_bn256.Model.Omega, sec)
			})
			r.check(err != nil, "setup-secret", "secret of the domain is accepted")
		}
	}
	if fault(s, "rou") != nil {
		w.rootOfUnity(s)
	}
	seed := cat(s.K, []byte{1})
	sec := kSuite.G1().Scalar().SetBytes(refHash(seed, 32))
	r.must("setup", func() {
		switch mode {
		case 0:
			a, err = trie_kzg_bn256.TrustedSetupFromSecretPowers(kSuite, d, trie_kzg_bn256.Model.Omega, sec)
		case 1:
			a, err = trie_kzg_bn256.TrustedSetupFromSeed(kSuite, d, seed)
		default:
			a, err = trie_kzg_bn256.TrustedSetupFromSecretNaturalDomain(kSuite, d, sec)
		}
	})
	r.check(err == nil, "setup-error", "setup D=%d mode %d: %v", d, mode, err)
	w.determined(a, d, mode == 0, sec, uint64(s.B))
	var data []byte
	r.must("setup to bytes", func() { data = a.Bytes() })
	r.must("setup from bytes", func() { b, err = trie_kzg_bn256.TrustedSetupFromBytes(kSuite, data) })
	r.check(err == nil, "setup-error", "setup D=%d mode %d can't be read back: %v", d, mode, err)
	w.equalSetups("setup read back", a, b)
	// through a file on a faulty disk
	if w.dir == "" {
		if w.dir, err = os.MkdirTemp(scratchRoot(), "simtrie-"); err != nil {
			panic(harnessPanic(err.Error()))
		}
	}
	r.scratch = w.dir
	fname := filepath.Join(w.dir, "setup.bin")
	file := cat(data, nil)
	damaged := ""
	for _, f := range s.F {
		switch f.Kind {
		case "trunc":
			file = file[:f.A%max(len(file), 1)]
			damaged = "torn"
		case "extend":
			file = append(file, bytes.Repeat([]byte{byte(f.B)}, 1+f.A%100)...)
			damaged = "extended"
		case "flip":
			if len(file) > 0 {
				file[f.A%len(file)] ^= 1 << (f.B % 8)
				damaged = "damaged"
			}
		case "sector": // a sector is lost, stale or misplaced
			sz := []int{64, 512, 4096}[f.B%3]
			i := f.A % (len(file)/sz + 1) * sz
			sec := file[i:min(i+sz, len(file))]
			if f.B%2 == 0 {
				copy(sec, make([]byte, sz))
			} else {
				j := f.A / 1000 % (len(file)/sz + 1) * sz
				copy(sec, cat(file[j:min(j+sz, len(file))], nil))
			}
			damaged = "damaged"
		case "point": // a point is overwritten with zeros
			i, sz := 34+f.A%int(d)*64, 64
			if f.B%2 == 0 {
				i, sz = 34+int(d)*64+f.A%int(d)*128, 128
			}
			if len(file) < i+sz {
				continue
			}
			copy(file[i:], make([]byte, sz))
			damaged = "damaged"
		default:
			continue
		}
		r.count("fault.setup_" + f.Kind)
	}
	if bytes.Equal(file, data) {
		damaged = ""
	}
	if err = os.WriteFile(fname, file, 0o600); err != nil {
		panic(harnessPanic(err.Error()))
	}
	left := -1
	if f := fault(s, "rerr"); f != nil {
		left = f.A % (len(file) + 1)
	}
	frag := fault(s, "frag")
	hit := false
	os.SimHookRead = func(name string, n int) (int, error) {
		if name != fname {
			return n, nil
		}
		r.op()
		if left == 0 {
			hit = true
			r.count("fault.file_read_error")
			if fault(s, "rerr").B%2 == 1 {
				left = -1
			}
			return 0, r.ioErr("read", "input/output error")
		}
		if frag != nil {
			r.count("fault.short_file_read")
			n = min(n, 1+frag.A%97)
		}
		if left > 0 {
			n = min(n, left)
			left -= n
		}
		return n, nil
	}
	var c *trie_kzg_bn256.TrustedSetup
	r.must("setup from file", func() { c, err = trie_kzg_bn256.TrustedSetupFromFile(kSuite, fname) })
	clearHooks()
	r.ev("loaded %v", err == nil)
	switch {
	case hit:
		r.check(err != nil, "setup-silent", "read error is not reported")
	case damaged != "":
		r.check(err != nil, "setup-silent", "%s setup file (D=%d, %d bytes, intact %d bytes) is loaded without error", damaged, d, len(file), len(data))
		r.count("check.setup_damage_detected")
	default:
		r.check(err == nil, "setup-error", "intact setup file can't be loaded: %v", err)
		w.equalSetups("setup loaded from the file", a, c)
		r.count("check.setup_loaded")
		if d == 258 {
			w.useSetup(a, c)
		}
	}
	r.must("absent file", func() { _, err = trie_kzg_bn256.TrustedSetupFromFile(kSuite, fname+".absent") })
	r.check(err != nil, "setup-silent", "absent file is loaded")
	r.state(hashStr(uint64(s.C*3+mode), string(data)))
}

var goLiteral = regexp.MustCompile(`"([0-9a-f]*)"`)

// tool: the command kzg_setup writes a setup to a file of a faulty disk
func (w *kWorld) tool(s *Step) {
	r := w.r
	defer clearHooks()
	if !kzgsetup.Have {
		return
	}
	var err error
	if w.dir == "" {
		if w.dir, err = os.MkdirTemp(scratchRoot(), "simtrie-"); err != nil {
			panic(harnessPanic(err.Error()))
		}
	}
	r.scratch = w.dir
	name := []string{"x.setup", "x.go", "go"}[s.A%3]
	fname := filepath.Join(w.dir, name)
	_ = os.Remove(fname)
	out, err := os.Create(filepath.Join(w.dir, "stdout"))
	if err != nil {
		panic(harnessPanic(err.Error()))
	}
	defer func(args []string, stdout *os.File) {
		os.Args, os.Stdout = args, stdout
		_ = out.Close()
	}(os.Args, os.Stdout)
	os.Args, os.Stdout = []string{"kzg_setup", fname}, out
	rng := &Rng{s: uint64(s.B)}
	passwords := 0
	term.ReadPassword = func(int) ([]byte, error) {
		passwords++
		switch {
		case passwords == 1 && fault(s, "nopass") != nil:
			r.count("fault.terminal_read_error")
			return nil, &injected{"interrupted"}
		case passwords <= 2 && fault(s, "short") != nil:
			return []byte("short"), nil
		}
		return rng.Bytes(20 + rng.N(20)), nil
	}
	math_rand.Seed(int64(s.B))
	hit, rhit := "", false
	size := 34 + 258*192
	wleft, rleft := -1, -1
	if f := fault(s, "werr"); f != nil {
		wleft = f.A % size
	}
	if f := fault(s, "rerr"); f != nil {
		rleft = f.A % size
	}
	os.SimHookWrite = func(n string, k int) (int, error) {
		if n != fname || wleft < 0 {
			return k, nil
		}
		if k > wleft {
			k, wleft = wleft, 0
			hit = "write error"
			r.count("fault.disk_full")
			return k, r.ioErr("write", "no space left on device")
		}
		wleft -= k
		return k, nil
	}
	os.SimHookRead = func(n string, k int) (int, error) {
		if n != fname {
			return k, nil
		}
		if f := fault(s, "frag"); f != nil {
			k = min(k, 1+f.A%997)
			r.count("fault.short_file_read")
		}
		if rleft == 0 {
			rhit = true
			r.count("fault.file_read_error")
			return 0, r.ioErr("read", "input/output error")
		}
		if rleft > 0 {
			k = min(k, rleft)
			rleft -= k
		}
		return k, nil
	}
	os.SimHookOpen = func(n string, flag int) error {
		if n == fname && fault(s, "openerr") != nil && flag&os.O_CREATE != 0 {
			hit = "open error"
			r.count("fault.file_open_error")
			return r.ioErr("open", "permission denied")
		}
		return nil
	}
	os.SimHookClose = func(n string) error {
		if n == fname && fault(s, "closeerr") != nil && !rhit && hit == "" {
			hit = "close error"
			r.count("fault.file_close_error")
			return r.ioErr("close", "quota exceeded")
		}
		return nil
	}
	o := r.try(func() { kzgsetup.Main() })
	clearHooks()
	text, err := os.ReadFile(out.Name())
	if err != nil {
		panic(harnessPanic(err.Error()))
	}
	r.ev("kzg_setup %s: %v", name, o.panicked)
	// the command reports an error by panic or says that it failed
	failed := o.panicked || bytes.Contains(text, []byte("FAIL"))
	r.check(!o.panicked || !isRuntimePanic(o.val), "panic", "kzg_setup: %s", o)
	if hit != "" || rhit {
		r.check(failed || hit == "", "setup-silent", "kzg_setup does not report the %s", hit)
		r.check(!rhit || !bytes.Contains(text, []byte("SUCCESS")), "setup-silent", "kzg_setup claims to have checked a file which it could not read")
		if failed {
			r.count("check.tool_reported")
			return
		}
	}
	r.check(!failed, "setup-error", "kzg_setup fails: %s %s", o, text)
	data, err := os.ReadFile(fname)
	r.check(err == nil, "setup-error", "kzg_setup leaves no file: %v", err)
	if name == "x.go" {
		h := ""
		for _, m := range goLiteral.FindAllSubmatch(data, -1) {
			h += string(m[1])
		}
		data, err = hex.DecodeString(h)
		r.check(err == nil, "setup-error", "the generated source: %v", err)
	}
	var a *trie_kzg_bn256.TrustedSetup
	r.must("setup from bytes", func() { a, err = trie_kzg_bn256.TrustedSetupFromBytes(kSuite, data) })
	r.check(err == nil && a.D == 258, "setup-error", "the setup of kzg_setup can't be read: %v", err)
	w.useSetup(a, a)
	r.count("check.tool")
}

// seededReader stands for the random source of the system
type seededReader struct{ rng *Rng }

func (x seededReader) Read(p []byte) (int, error) {
	copy(p, x.rng.Bytes(len(p)))
	return len(p), nil
}

// rootOfUnity: a generated root of unity and its powers, and the setup with this domain
func (w *kWorld) rootOfUnity(s *Step) {
	r := w.r
	defer func(x io.Reader) { rand.Reader = x }(rand.Reader)
	rand.Reader = seededReader{&Rng{s: uint64(s.A)}}
	d := uint16(1 + s.B%9)
	var rou kyber.Scalar
	var pw []kyber.Scalar
	r.must("root of unity", func() { rou, pw = trie_kzg_bn256.GenRootOfUnityQuasiPrimitive(kSuite, d) })
	r.check(len(pw) == int(d), "rou", "%d powers instead of %d", len(pw), d)
	x := kSuite.G1().Scalar().One()
	one := kSuite.G1().Scalar().One()
	for i := 0; i < trie_kzg_bn256.FACTOR; i++ {
		if i < int(d) {
			r.check(pw[i].Equal(x), "rou", "wrong power %d", i)
			r.check(i == 0 || !pw[i].Equal(one), "rou", "power %d is one", i)
		}
		x.Mul(x, rou)
	}
	r.check(x.Equal(one), "rou", "not a root of unity")
	var a, b *trie_kzg_bn256.TrustedSetup
	var err error
	r.must("setup with the generated root of unity", func() {
		a, err = trie_kzg_bn256.TrustedSetupFromSecretPowers(kSuite, d, rou, kSuite.G1().Scalar().SetBytes(refHash([]byte{1}, 32)))
	})
	r.check(err == nil, "setup-error", "setup D=%d: %v", d, err)
	r.must("setup from bytes", func() { b, err = trie_kzg_bn256.TrustedSetupFromBytes(kSuite, a.Bytes()) })
	r.check(err == nil, "setup-error", "setup D=%d can't be read back: %v", d, err)
	w.equalSetups("setup read back", a, b)
	r.count("check.root_of_unity")
}

func (w *kWorld) equalSetups(what string, a, b *trie_kzg_bn256.TrustedSetup) {
	r := w.r
	r.check(b != nil && a.D == b.D && a.Omega.Equal(b.Omega), "setup-differs", "%s: D or omega differ", what)
	r.check(len(a.Domain) == len(b.Domain) && len(a.AprimeDomainI) == len(b.AprimeDomainI) && len(a.LagrangeBasis) == len(b.LagrangeBasis) && len(a.Diff2) == len(b.Diff2), "setup-differs", "%s: sizes differ", what)
	for i := range a.Domain {
		r.check(a.Domain[i].Equal(b.Domain[i]), "setup-differs", "%s: domain[%d]", what, i)
		r.check(a.AprimeDomainI[i].Equal(b.AprimeDomainI[i]), "setup-differs", "%s: derived value %d", what, i)
		r.check(a.LagrangeBasis[i].Equal(b.LagrangeBasis[i]), "setup-differs", "%s: basis %d", what, i)
		r.check(a.Diff2[i].Equal(b.Diff2[i]), "setup-differs", "%s: diff %d", what, i)
	}
	var x, y []byte
	r.must("bytes", func() { x, y = a.Bytes(), b.Bytes() })
	r.check(bytes.Equal(x, y), "setup-differs", "%s: serialized differently", what)
}

// incremental: the commitment to a node is updated through a history of changes of the node, incrementally or from scratch;
// commitments obtained on the way are retained by their owners
func (w *kWorld) incremental(s *Step) {
	r := w.r
	rng := &Rng{s: uint64(s.B)}
	p := w.p
	if s.C == 0 {
		p = Params{Arity: rng.Pick(2, 16, 256), Hash: rng.Pick(20, 32)}
	}
	m := p.model()
	ts := &trie_kzg_bn256.Model.TrustedSetup
	type child struct {
		c trie.VCommitment
		b []byte
	}
	commit := func(ch map[byte]child, term, frag []byte) []byte { // independent of the model
		if p.Hash != 0 {
			x := map[int][]byte{}
			for i, c := range ch {
				x[int(i)] = c.b
			}
			var t []byte
			if term != nil {
				t = refData(term, p.Hash)
			}
			return refVector(x, t, frag, p)
		}
		g1 := ts.Suite.G1()
		sum := g1.Point().Null()
		add := func(i int, data []byte) {
			sum.Add(sum, g1.Point().Mul(g1.Scalar().SetBytes(refHash(data, 32)), ts.LagrangeBasis[i]))
		}
		for i, c := range ch {
			add(int(i), c.b)
		}
		if term != nil {
			add(256, term)
		}
		add(257, refHash(frag, 32))
		return marshal(sum)
	}
	type kept struct {
		c trie.Serializable
		b []byte
	}
	var all []kept
	data := func() (trie.TCommitment, []byte) {
		d := []byte(fmt.Sprint(rng.N(5)))
		var t trie.TCommitment
		r.must("commitment to data", func() { t = m.CommitToData(d) })
		all = append(all, kept{t, t.Bytes()})
		return t, d
	}
	var pool []child
	for i := 0; i < 3; i++ {
		frag := []byte{byte(i % p.Arity)}
		t, d := data()
		var c trie.VCommitment
		r.must("commitment to a node", func() { c = m.CalcNodeCommitment(&trie.NodeData{PathFragment: frag, Terminal: t}) })
		pool = append(pool, child{c, commit(nil, d, frag)})
		r.check(bytes.Equal(c.Bytes(), pool[i].b), "incremental", "commitment to a node")
		all = append(all, kept{c, c.Bytes()})
	}
	var frag []byte
	for i := rng.N(3); i > 0; i-- {
		frag = append(frag, byte(rng.N(p.Arity)))
	}
	nd := trie.NewNodeData()
	nd.PathFragment = cat(frag, nil)
	ch := map[byte]child{}
	nd.Terminal, _ = data()
	var term []byte
	nd.Terminal, term = data()
	var cur trie.VCommitment
	r.must("commitment to a node", func() { cur = m.CalcNodeCommitment(nd) })
	for i := 0; i < s.A; i++ {
		all = append(all, kept{cur, cur.Bytes()})
		ups := map[byte]trie.VCommitment{}
		for j := rng.N(4); j > 0; j-- {
			x := byte(rng.Pick(0, 1, 7, p.Arity-1) % p.Arity)
			if _, ok := ups[x]; ok {
				continue
			}
			if _, ok := ch[x]; ok && rng.P(1, 2) {
				ups[x] = nil
				delete(ch, x)
			} else {
				c := pool[rng.N(len(pool))]
				ups[x] = c.c
				ch[x] = c
			}
		}
		t := nd.Terminal
		switch {
		case t != nil && len(ch) > 0 && rng.P(1, 3):
			t, term = nil, nil
		case t == nil && len(ch) == 0 || rng.P(1, 3):
			t, term = data()
		}
		delta := rng.P(2, 3)
		r.must("update of the commitment to a node", func() { m.UpdateNodeCommitment(nd, ups, delta, t, &cur) })
		want := commit(ch, term, frag)
		r.check(cur != nil && bytes.Equal(cur.Bytes(), want), "incremental", "change %d: the updated commitment (incrementally: %v) is '%s', the node commits to '%x'", i, delta, cur, want)
		r.check(len(nd.ChildCommitments) == len(ch), "incremental", "change %d: %d children, expected %d", i, len(nd.ChildCommitments), len(ch))
		for x, c := range ch {
			r.check(nd.ChildCommitments[x] != nil && bytes.Equal(nd.ChildCommitments[x].Bytes(), c.b), "incremental", "change %d: child %d", i, x)
		}
		for _, k := range all {
			r.check(bytes.Equal(k.c.Bytes(), k.b), "incremental", "change %d (incrementally: %v) modifies a commitment obtained before", i, delta)
		}
		r.count("check.updated_commitment")
	}
}

// determined: the setup is the one which the secret and the domain determine
func (w *kWorld) determined(a *trie_kzg_bn256.TrustedSetup, d uint16, powers bool, sec kyber.Scalar, seed uint64) {
	r := w.r
	g1, g2 := kSuite.G1(), kSuite.G2()
	r.check(a.D == d && len(a.Domain) == int(d) && len(a.AprimeDomainI) == int(d) && len(a.LagrangeBasis) == int(d) && len(a.Diff2) == int(d), "setup-wrong", "sizes of the setup D=%d", d)
	x := make([]kyber.Scalar, d)
	for i := range x {
		switch {
		case !powers:
			x[i] = g1.Scalar().SetInt64(int64(i))
		case i == 0:
			x[i] = g1.Scalar().One()
		default:
			x[i] = g1.Scalar().Mul(x[i-1], trie_kzg_bn256.Model.Omega)
		}
		r.check(a.Domain[i].Equal(x[i]), "setup-wrong", "element %d of the domain of the setup D=%d", i, d)
	}
	rng := &Rng{s: seed}
	for i := range x {
		if d > 8 && !rng.P(1, 60) {
			continue
		}
		num, den, t := g1.Scalar().One(), g1.Scalar().One(), g1.Scalar()
		for j := range x {
			if j != i {
				num.Mul(num, t.Sub(sec, x[j]))
				den.Mul(den, t.Sub(x[i], x[j]))
			}
		}
		r.check(a.AprimeDomainI[i].Equal(den), "setup-wrong", "A'(%d) of the setup D=%d", i, d)
		r.check(a.LagrangeBasis[i].Equal(g1.Point().Mul(num.Div(num, den), nil)), "setup-wrong", "element %d of the Lagrange basis of the setup D=%d", i, d)
		r.check(a.Diff2[i].Equal(g2.Point().Mul(t.Sub(sec, x[i]), nil)), "setup-wrong", "point %d for verification of the setup D=%d", i, d)
	}
	r.count("check.setup_determined")
}

// other setups with which the whole library may be used
var kzgSetups [3]*trie_kzg_bn256.CommitmentModel

// useModel makes the library use a setup which is not the embedded one
func (r *Run) useModel(kind int) (restore func()) {
	old := trie_kzg_bn256.Model
	if kind == 0 {
		return func() {}
	}
	if kzgSetups[kind] == nil {
		var a *trie_kzg_bn256.TrustedSetup
		var err error
		r.must("setup", func() {
			if kind == 1 {
				a, err = trie_kzg_bn256.TrustedSetupFromSecretPowers(kSuite, 258, old.Omega, kSuite.G1().Scalar().SetBytes(refHash([]byte("simtrie"), 32)))
			} else {
				a, err = trie_kzg_bn256.TrustedSetupFromSeed(kSuite, 258, []byte("simtrie"))
			}
			if err == nil {
				a, err = trie_kzg_bn256.TrustedSetupFromBytes(kSuite, a.Bytes())
			}
		})
		r.check(err == nil, "setup-error", "setup for 258 elements: %v", err)
		kzgSetups[kind] = &trie_kzg_bn256.CommitmentModel{TrustedSetup: *a}
	}
	trie_kzg_bn256.Model = kzgSetups[kind]
	return func() { trie_kzg_bn256.Model = old }
}

// useSetup: commitments and proofs made with the generated and with the loaded setup are the same
func (w *kWorld) useSetup(a, b *trie_kzg_bn256.TrustedSetup) {
	r := w.r
	var out []string
	for _, ts := range []*trie_kzg_bn256.TrustedSetup{a, b} {
		r.must("use of the setup", func() {
			m := &trie_kzg_bn256.CommitmentModel{TrustedSetup: *ts}
			tr := trie.New(m, mapReader{}, nil, false)
			tr.Update([]byte("a"), []byte("1"))
			tr.Update([]byte("abc"), []byte("2"))
			tr.Commit()
			pr, ok := m.ProofOfInclusion([]byte("abc"), tr)
			r.check(ok, "kzg-no-proof", "no proof")
			old := trie_kzg_bn256.Model
			defer func() { trie_kzg_bn256.Model = old }()
			trie_kzg_bn256.Model = m
			err := pr.Validate(trie.RootCommitment(tr), []byte("2"))
			r.check(err == nil, "kzg-proof-rejected", "proof made with the setup is rejected: %v", err)
			r.check(pr.Validate(trie.RootCommitment(tr), []byte("1")) != nil, "kzg-proof-lie", "proof made with the setup is accepted for another value")
			out = append(out, fmt.Sprintf("%x %x", vbytes(trie.RootCommitment(tr)), pr.Bytes()))
		})
	}
	r.check(out[0] == out[1], "setup-differs", "commitments or proofs made with the loaded setup differ from the ones made with the generated one")
	r.count("check.setup_used")
}
