package main

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/iotaledger/hive.go/core/kvstore"
	"github.com/iotaledger/hive.go/core/kvstore/mapdb"
	"github.com/iotaledger/trie.go/hive_adaptor"
	"github.com/iotaledger/trie.go/trie"
)

// World U: several tenants, each with a batched updater (trie and values in two partitions), on one simulated key/value
// database with a write-ahead log. Operations of the database fail, the process crashes at any operation, unflushed
// data is lost. What is allowed to be found afterwards follows from the history of acknowledged commits.

var tenantPrefixes = [][][2]string{
	{{"t", "v"}, {"tt", "vv"}, {"u", "w"}},
	{{"\x00", "\x01"}, {"\x02\x00", "\x02\x01"}, {"\x02\x02", "\xff"}},
	{{"trie.", "val."}, {"trie_", "val_"}, {"tri", "va"}},
	{{"\x01\x00", "\x01\x01"}, {"\x01\x02", "\x00"}, {"\x01\x03\x00", "\x01\x03\x01"}},
	{{"\xff\xff", "\xff\xfe"}, {"\xfe", "\xff\xfd"}, {"\x00\x00", "\x00\x01"}},
	{{"b", "a"}, {"d", "c"}, {"f", "e"}},
}

// prefixFree tells whether no prefix of the tenant overlaps with the others
func overlaps(a, b string) bool { return strings.HasPrefix(a, b) || strings.HasPrefix(b, a) }

func tenantsOf(set, n int) [][2]string {
	var ret [][2]string
	for _, p := range tenantPrefixes[set%len(tenantPrefixes)] {
		ok := !overlaps(p[0], p[1])
		for _, q := range ret {
			for i := range p {
				for j := range q {
					ok = ok && !overlaps(p[i], q[j])
				}
			}
		}
		if ok && len(ret) < n {
			ret = append(ret, p)
		}
	}
	return ret
}

func genU(p *Plan, rng *Rng) {
	c := p.Cfg
	prop := p.Prop
	genModelCfg(rng, c)
	c["scribble"] = rng.N(2)
	c["onebuf"] = rng.N(2)
	c["pset"] = rng.N(len(tenantPrefixes))
	c["tenants"] = rng.Pick(1, 1, 2, 3)
	if prop == "C18" {
		c["tenants"] = rng.Pick(2, 3, 3)
	}
	if rng.P(1, 8) {
		c["mapdb"] = 1
	}
	g := newKeyGen(rng, c["arity"])
	n := rng.Pick(6, 15, 30, 60)
	calm := rng.P(1, 5) // no faults
	// weights: update del commit crash restart check aset adel aread foreign
	w := []int{50, 14, 10, 2, 2, 2, 0, 0, 0, 2}
	if prop == "C18" {
		w = []int{30, 8, 8, 1, 1, 2, 12, 4, 14, 8}
	}
	if prop == "C04" {
		w = []int{40, 12, 8, 1, 1, 1, 12, 3, 14, 1}
	}
	for i := range w {
		switch rng.N(6) {
		case 0:
			if i > 2 {
				w[i] = 0
			}
		case 1:
			w[i] *= 3
		}
	}
	nt := c["tenants"]
	big := rng.P(1, 800)
	if big { // large batches
		seed := rng.Bytes(4)
		m := rng.Pick(130, 300, 600, 1100, 2100)
		t := rng.N(nt)
		p.Steps = append(p.Steps, Step{Op: "many", A: t, V: seed, C: m}, Step{Op: "commit", A: t, F: []Fault{genBigFault(rng, m)}, B: rng.N(3), C: rng.Pick(0, 1, 2, 5, 1000)},
			Step{Op: "many", A: t, V: seed, B: 1, C: m}, Step{Op: "commit", A: t, F: []Fault{genBigFault(rng, m)}, B: rng.N(3), C: rng.Pick(0, 1, 2, 5, 1000)})
		n = 3
	}
	for i := 0; i < n; i++ {
		k := g.key()
		s := Step{A: rng.N(nt)}
		switch rng.W(w...) {
		case 0:
			s.Op, s.K, s.V = "update", k, g.val(k)
		case 1:
			s.Op, s.K = "update", k
		case 2:
			s.Op = "commit"
		case 3:
			s.Op = "crash"
		case 4:
			s.Op = "restart"
		case 5:
			s.Op = "check"
		case 6:
			s.Op, s.K, s.V, s.B = "aset", k, g.val(k), rng.N(9)
		case 7:
			s.Op, s.K, s.B = "aset", k, rng.N(9)
		case 8:
			s.Op, s.K, s.B, s.C = "aread", k, rng.N(9), rng.N(4)
		case 9:
			s.Op, s.K, s.V = "foreign", cat([]byte([]string{"s", "x", "\x03", "\x01", "va", "tr", "\xfc", "\x00\x02", ""}[rng.N(9)]), k), g.val(k)
			if rng.P(1, 3) { // someone else writes into the area which the adaptor reads. His values may be empty
				s.K = cat([]byte(adaptorAreas[rng.N(len(adaptorAreas))]), k)
				if rng.P(1, 2) {
					s.V = nil
				}
			}
		}
		if s.Op == "crash" {
			s.C = rng.Pick(0, 0, 1, 2, 5, 1000)
		}
		if !calm && (s.Op == "update" && rng.P(1, 12) || s.Op == "commit" && rng.P(1, 2) || (s.Op == "aread" || s.Op == "aset") && (rng.P(1, 8) || prop == "C04" && rng.P(1, 2))) {
			s.F = append(s.F, genDiskFault(rng, s.Op))
			if rng.P(1, 6) {
				s.F = append(s.F, genDiskFault(rng, s.Op))
			}
			s.B = rng.N(3) // what the application does after a failure: retry, retry later, restart
			s.C = rng.Pick(0, 0, 1, 2, 5, 1000)
			if s.Op[0] == 'a' {
				s.B = rng.N(9)
			}
		}
		p.Steps = append(p.Steps, s)
	}
	p.Steps = append(p.Steps, Step{Op: "commit"}, Step{Op: "crash", C: 0}, Step{Op: "check"})
}

// genBigFault is a failure anywhere within a large batch
func genBigFault(rng *Rng, n int) Fault {
	k := 1 + rng.N(3*n)
	if rng.P(1, 3) {
		k = 1 + rng.N(20)
	}
	switch rng.N(6) {
	case 0:
		return Fault{Kind: "batchset", A: k}
	case 1:
		return Fault{Kind: "batched", A: 1 + rng.N(3)}
	case 2:
		return Fault{Kind: "commit", A: 1 + rng.N(3), B: rng.N(2)}
	case 3:
		return Fault{Kind: "crashbatch", A: 1 + rng.N(2)}
	}
	return Fault{Kind: "crash", A: k}
}

func genDiskFault(rng *Rng, op string) Fault {
	if op == "aread" || op == "aset" {
		return Fault{Kind: []string{"get", "set", "iterate"}[rng.N(3)], A: 1 + rng.N(3)}
	}
	if op == "update" {
		switch rng.N(4) {
		case 0:
			return Fault{Kind: "batched", A: 1}
		case 1:
			return Fault{Kind: "batchset", A: 1}
		case 2:
			return Fault{Kind: "crash", A: 1 + rng.N(6)}
		}
		return Fault{Kind: "get", A: 1 + rng.N(6)}
	}
	switch rng.N(8) {
	case 0:
		return Fault{Kind: "batchset", A: 1 + rng.N(12)}
	case 1:
		return Fault{Kind: "commit", A: 1}
	case 2:
		return Fault{Kind: "commit", A: 1, B: 1}
	case 3:
		return Fault{Kind: "flush", A: 1}
	case 4:
		return Fault{Kind: "crash", A: 1 + rng.N(14)}
	case 5:
		return Fault{Kind: "crashbatch", A: 1}
	case 6:
		return Fault{Kind: "crashbatch", A: 2}
	}
	return Fault{Kind: "get", A: 1 + rng.N(6)}
}

type tenant struct {
	id       int
	tp, vp   string
	u        *hive_adaptor.HiveBatchedUpdater
	cur      map[string]string   // content including the buffered updates
	possible []map[string]string // what may be found in the database
	pending  bool                // updates since the last acknowledged commit
}

type uWorld struct {
	r       *Run
	p       Params
	d       *hiveDisk
	kvs     kvstore.KVStore
	ts      []*tenant
	foreign map[string]string
	scr     bool
	mapdb   bool
	buf     []byte // the buffer all the prefixes are slices of, if there is one
	bufWas  string
}

// prefix is the slice the prefix is passed in: in a buffer with spare capacity of its own, or a part of one buffer with
// all the prefixes
func (w *uWorld) prefix(p string) []byte {
	if w.buf == nil {
		return prefixBuf(p)
	}
	i := strings.Index(w.bufWas, "|"+p+"|") + 1
	return w.buf[i : i+len(p)]
}

// adaptor of a partition. The slice of the prefix is reused afterwards
func (w *uWorld) part(prefix string) *hive_adaptor.HiveKVStoreAdaptor {
	b := w.prefix(prefix)
	a := hive_adaptor.NewHiveKVStoreAdaptor(w.kvs, b)
	w.reuse(b)
	return a
}

// reuse of the slice by the caller
func (w *uWorld) reuse(b []byte) {
	if w.scr && w.buf == nil {
		scribble(b)
	}
}

// prefixBuf is a prefix in a buffer with spare capacity
func prefixBuf(p string) []byte {
	b := make([]byte, len(p), len(p)+64)
	copy(b, p)
	return b
}

func runU(r *Run) {
	w := &uWorld{r: r, p: paramsOf(r.p.Cfg), d: newHiveDisk(r), foreign: map[string]string{}, scr: r.on("scribble"), mapdb: r.on("mapdb")}
	w.kvs = &simHive{d: w.d}
	if w.mapdb {
		w.kvs = mapdb.NewMapDB()
	}
	if r.on("onebuf") {
		w.bufWas = "|"
		for _, pp := range tenantsOf(r.cfg("pset"), max(1, r.cfg("tenants"))) {
			w.bufWas += pp[0] + "|" + pp[1] + "|"
		}
		for _, a := range adaptorAreas {
			w.bufWas += a + "|"
		}
		w.buf = []byte(w.bufWas)
	}
	for i, pp := range tenantsOf(r.cfg("pset"), max(1, r.cfg("tenants"))) {
		t := &tenant{id: i, tp: pp[0], vp: pp[1], possible: []map[string]string{{}}}
		w.ts = append(w.ts, t)
		w.open(t)
	}
	for i := range r.p.Steps {
		w.do(r.nextStep(i))
		w.calm()
		if w.buf != nil {
			r.check(string(w.buf) == w.bufWas, "prefix-buffer", "the buffer of the caller the prefixes are passed in has been overwritten: '%x', expected '%x'", w.buf, w.bufWas)
		}
	}
}

func (w *uWorld) calm() {
	w.d.crashAt, w.d.crashB = 0, 0
	w.d.fail, w.d.failA = map[string]int{}, map[string]bool{}
}

func (w *uWorld) faults(s *Step) {
	for _, f := range s.F {
		switch f.Kind {
		case "crash":
			w.d.crashAt = f.A
		case "crashbatch":
			w.d.crashB = f.A
		case "commit":
			w.d.fail["commit"] = f.A
			w.d.failA["commit"] = f.B == 1
		default:
			w.d.fail[f.Kind] = f.A
		}
	}
}

// open starts a new updater of the tenant over whatever is in the database
func (w *uWorld) open(t *tenant) {
	w.r.must("new updater", func() {
		var err error
		tp, vp := w.prefix(t.tp), w.prefix(t.vp)
		t.u, err = hive_adaptor.NewHiveBatchedUpdater(w.kvs, w.p.model(), tp, vp, w.p.Opt)
		w.reuse(tp)
		w.reuse(vp)
		w.r.check(err == nil, "updater-open", "can't create updater: %v", err)
	})
	t.cur = w.verify(t, "opened")
	t.pending = false
}

// raw is the content of the whole database
func (w *uWorld) raw() map[string]string {
	if !w.mapdb {
		return cloneMap(w.d.vis)
	}
	m := map[string]string{}
	if err := w.kvs.Iterate(nil, func(k kvstore.Key, v kvstore.Value) bool { m[string(k)] = string(v); return true }); err != nil {
		panic(err)
	}
	return m
}

func part(raw map[string]string, prefix string) map[string]string {
	m := map[string]string{}
	for k, v := range raw {
		if strings.HasPrefix(k, prefix) {
			m[k[len(prefix):]] = v
		}
	}
	return m
}

// verify checks that what is in the partitions of the tenant is one of the possible contents, the same for the trie and
// for the values. It returns the content
func (w *uWorld) verify(t *tenant, what string) map[string]string {
	r := w.r
	w.calm()
	what = fmt.Sprintf("tenant %d: %s", t.id, what)
	raw := w.raw()
	got := part(raw, t.vp)
	ok := false
	for _, p := range t.possible {
		ok = ok || eqMap(p, got)
	}
	r.check(ok, "values", "%s: the values in the database (%d pairs) are none of the %d contents which are possible after the history of commits", what, len(got), len(t.possible))
	ref := refBuild(got, w.p)
	checkRecords(r, w.p, part(raw, t.tp), ref, what)
	var rd *trie.TrieReader
	var root []byte
	r.must(what+": reader", func() {
		rd = trie.NewTrieReader(w.p.model(), w.part(t.tp), w.part(t.vp))
		root = vbytes(trie.RootCommitment(rd))
	})
	r.ev("root %d %x", t.id, root)
	r.state(hashStr(uint64(w.p.Arity), string(root)))
	r.check(bytes.Equal(root, ref.root()), "root", "%s: the root commitment does not belong to the values in the database", what)
	checkNodes(r, w.p, rd, ref, what)
	r.count("check.tenant")
	return got
}

// others: foreign keys are untouched and so are the other tenants
func (w *uWorld) others(what string) {
	raw := w.raw()
	for _, t := range w.ts {
		for k := range raw {
			if strings.HasPrefix(k, t.tp) || strings.HasPrefix(k, t.vp) {
				delete(raw, k)
			}
		}
	}
	w.r.check(eqMap(raw, w.foreign), "foreign", "%s: data outside of the partitions has been changed: %d keys, expected %d", what, len(raw), len(w.foreign))
}

func (w *uWorld) crash(keep int) {
	w.r.count("fault.process_crash")
	if !w.mapdb {
		w.d.crash(keep)
	}
	for _, t := range w.ts {
		w.open(t)
		t.possible = []map[string]string{t.cur}
		if w.mapdb {
			continue
		}
	}
	w.others("after the crash")
}

// fate handles the outcome of a call: true if it has been done
func (w *uWorld) fate(t *tenant, s *Step, what string, o Outcome) bool {
	if !o.panicked {
		return true
	}
	switch {
	case o.crash:
		w.crash(s.C)
	case o.injected:
		w.calm()
		w.r.count("recovered.restart_after_error")
		w.open(t) // the state in memory is given up
	default:
		w.r.fail("panic", "%s: %s", what, o)
	}
	return false
}

func (w *uWorld) do(s *Step) {
	r := w.r
	t := w.ts[s.A%len(w.ts)]
	switch s.Op {
	case "update":
		w.faults(s)
		for attempt := 0; ; attempt++ {
			k, v := append([]byte{}, s.K...), append([]byte{}, s.V...)
			o := r.try(func() { t.u.Update(k, v) })
			if w.scr {
				scribble(k)
				scribble(v)
			}
			if o.injected && attempt == 0 && s.B == 0 && onlyFault(s, "batched", "batchset") {
				// nothing has been changed: the update can be repeated
				w.calm()
				r.count("recovered.update_retry")
				continue
			}
			if w.fate(t, s, "update", o) {
				t.cur = cloneMap(t.cur)
				if len(s.V) == 0 {
					delete(t.cur, string(s.K))
				} else {
					t.cur[string(s.K)] = string(s.V)
				}
				t.pending = true
			}
			break
		}
		if len(s.F) > 0 {
			w.visible("after the update")
		}
	case "many":
		if s.C > 5000 || len(t.cur) > 5000 {
			return
		}
		ks, vs := many(s.V, s.C, s.B%2 == 1)
		next := cloneMap(t.cur)
		o := r.try(func() {
			for i := range ks {
				k, v := []byte(ks[i]), []byte(vs[i])
				if len(v) == 0 {
					delete(next, ks[i])
				} else {
					next[ks[i]] = vs[i]
				}
				t.u.Update(k, v)
				if w.scr {
					scribble(k)
					scribble(v)
				}
			}
		})
		if w.fate(t, s, "updates", o) {
			t.cur = next
			t.pending = true
		}
	case "commit":
		w.commit(t, s)
	case "crash":
		w.crash(s.C)
	case "restart":
		r.count("fault.process_restart")
		for _, t := range w.ts {
			w.open(t)
		}
	case "check":
		w.visible("check")
	case "aset", "aread":
		w.adaptor(s)
	case "foreign":
		for _, t := range w.ts {
			if overlaps(string(s.K), t.tp) || overlaps(string(s.K), t.vp) {
				return
			}
		}
		if len(s.K) == 0 || w.mapdb {
			return
		}
		w.foreign[string(s.K)] = string(s.V)
		w.d.vis[string(s.K)] = string(s.V)
		w.d.durable[string(s.K)] = string(s.V)
	}
}

func onlyFault(s *Step, kinds ...string) bool {
	for _, f := range s.F {
		ok := false
		for _, k := range kinds {
			ok = ok || f.Kind == k
		}
		if !ok {
			return false
		}
	}
	return true
}

// visible: what every tenant finds in the database without a crash
func (w *uWorld) visible(what string) {
	for _, t := range w.ts {
		w.verify(t, what)
	}
	w.others(what)
}

func (w *uWorld) commit(t *tenant, s *Step) {
	r := w.r
	w.faults(s)
	before := t.possible
	t.possible = append(append([]map[string]string{}, before...), t.cur)
	for attempt := 0; attempt < 4; attempt++ {
		var err error
		o := r.try(func() { err = t.u.Commit() })
		if o.crash {
			w.crash(s.C)
			return
		}
		if !o.panicked && err == nil {
			if !t.pending {
				// there was nothing to commit
				t.possible = before
				w.calm()
				w.verify(t, "empty commit")
				return
			}
			// acknowledged: durable from now on
			r.ev("acknowledged")
			t.possible = []map[string]string{t.cur}
			t.pending = false
			w.calm()
			w.verify(t, "acknowledged commit")
			if !w.mapdb {
				dur := part(w.d.durable, t.vp)
				r.check(eqMap(dur, t.cur), "not-durable", "tenant %d: commit is acknowledged, but its data would not survive a crash", t.id)
			}
			if len(w.ts) > 1 {
				w.visible("after a commit of tenant " + fmt.Sprint(t.id))
			}
			return
		}
		if o.panicked && !o.injected {
			r.fail("panic", "commit: %s", o)
		}
		if !o.panicked && !isInjected(err) {
			r.fail("commit-error", "commit fails: %v", err)
		}
		r.ev("commit failed: %v %v", o.panicked, err)
		w.visible("after the failed commit")
		switch s.B {
		case 0: // try again until it works
			w.calm()
			r.count("recovered.commit_retry")
		case 1: // go on, commit later
			r.count("recovered.commit_later")
			return
		default:
			r.count("recovered.restart_after_error")
			w.open(t)
			return
		}
	}
	r.fail("no-progress", "commit does not succeed although the faults have stopped")
}

var adaptorAreas = []string{"~", "~a", "~ab", "~b", "~\x00", "~\xff", "~a\x00", "~\xff\xff", "~aa"}

// adaptor exercises the key/value partition adaptor directly: read-your-writes and isolation, errors are not absence.
// The prefixes are sub-prefixes of the value partition of the tenant plus an own area of the database
func (w *uWorld) adaptor(s *Step) {
	r := w.r
	if w.mapdb {
		return
	}
	pfx := adaptorAreas[s.B%len(adaptorAreas)]
	for _, t := range w.ts {
		if overlaps(pfx, t.tp) || overlaps(pfx, t.vp) {
			return
		}
	}
	a := w.part(pfx)
	full := pfx + string(s.K)
	w.faults(s)
	faulty := len(s.F) > 0
	if s.Op == "aset" {
		k, v := append([]byte{}, s.K...), append([]byte{}, s.V...)
		o := r.try(func() { a.Set(k, v) })
		r.check(!o.panicked || (faulty && o.injected), "panic", "adaptor Set: %s", o)
		if !o.panicked {
			if len(s.V) == 0 {
				delete(w.foreign, full)
			} else {
				w.foreign[full] = string(s.V)
			}
		}
		w.calm()
		_ = w.kvs.Flush()
		w.others("adaptor Set")
		return
	}
	want := w.foreign[full]
	present := want != "" // a record with the empty value is the same as none
	switch s.C {
	case 0:
		var v []byte
		o := r.try(func() { v = a.Get(append([]byte{}, s.K...)) })
		r.check(!o.panicked || (faulty && o.injected), "panic", "adaptor Get: %s", o)
		if !o.panicked {
			r.check(string(v) == want && (v != nil) == present, "adaptor-get", "adaptor with prefix '%x': Get('%x') = '%x', expected '%x'", pfx, []byte(s.K), v, want)
			scribble(v)
		}
	case 1:
		var ok bool
		o := r.try(func() { ok = a.Has(append([]byte{}, s.K...)) })
		r.check(!o.panicked || (faulty && o.injected), "panic", "adaptor Has: %s", o)
		if !o.panicked {
			r.check(ok == present, "adaptor-has", "adaptor with prefix '%x': Has('%x') = %v", pfx, []byte(s.K), ok)
		}
	default:
		exp := part(w.foreign, pfx)
		got := map[string]string{}
		stop := -1
		if s.C == 3 {
			stop = len(s.K) % 3
		}
		n := 0
		o := r.try(func() {
			a.Iterate(func(k, v []byte) bool {
				_, dup := got[string(k)]
				r.check(!dup, "adaptor-iterate", "key '%x' is iterated twice", k)
				got[string(k)] = string(v)
				n++
				return n != stop
			})
		})
		r.check(!o.panicked || (faulty && o.injected), "panic", "adaptor Iterate: %s", o)
		for k, v := range got {
			x, ok := exp[k]
			r.check(ok && x == v, "adaptor-iterate", "adaptor with prefix '%x' iterates over foreign or wrong pair '%x'", pfx, k)
		}
		if !o.panicked {
			r.check(len(got) == len(exp) || (stop > 0 && len(got) == stop), "adaptor-iterate", "adaptor with prefix '%x' iterates over %d pairs, expected %d", pfx, len(got), len(exp))
		}
	}
	r.count("check.adaptor")
	w.calm()
	w.others("adaptor read")
}
