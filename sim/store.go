package main

import (
	"bytes"
	"errors"
	"sort"
	"strings"

	"github.com/iotaledger/hive.go/core/kvstore"
	"github.com/iotaledger/trie.go/trie"
)

// ---------------------------------------------------------------------------
// simKV: trie.KVStore over a simulated disk

type simKV struct {
	r      *Run
	m      map[string][]byte
	share  bool // Get returns the slice of the store and Set keeps the slice of the caller, like an in-memory store does
	yield  func(string)
	failRd int // the n-th next read fails (0: never)
	failWr int // the n-th next write fails
	failAt string
	tornRd int // the n-th next read which finds something gets only a part of the record
	tornTo int // the length of the part
	lostRd int // the n-th next read which finds something gets nothing
	hit    bool
	slow   int
	nrd    int // reads and writes so far
	nwr    int
	mem    trie.KVStore // the records are kept in the in-memory store of the library
}

var _ trie.KVStore = &simKV{}

// useMem keeps the records in the in-memory store of the library and compares it with what has been written
func (s *simKV) useMem() {
	s.mem = trie.NewInMemoryKVStore()
	for k, v := range s.m {
		s.mem.Set([]byte(k), v)
	}
}

func (s *simKV) memGet(k, want []byte) []byte {
	var v []byte
	s.r.must("in-memory store", func() {
		v = s.mem.Get(k)
		s.r.check(bytes.Equal(v, want) && (v == nil) == (want == nil) && s.mem.Has(k) == (want != nil), "memkv",
			"in-memory store: '%x' = '%x', expected '%x'", k, v, want)
	})
	return v
}

func (s *simKV) memSet(k, v []byte) {
	kb, vb := append([]byte{}, k...), append([]byte{}, v...)
	s.r.must("in-memory store", func() { s.mem.Set(kb, vb) })
	scribble(kb)
	scribble(vb)
}

func newSimKV(r *Run) *simKV { return &simKV{r: r, m: map[string][]byte{}} }

func (s *simKV) touch(kind string) {
	s.r.op()
	if s.yield != nil {
		s.yield(kind)
	}
}

func (s *simKV) Get(k []byte) []byte {
	s.nrd++
	s.touch("get")
	if s.failRd > 0 {
		if s.failRd--; s.failRd == 0 {
			s.r.count("fault.read_error")
			panic(&injected{"read error"})
		}
	}
	v := s.m[string(k)]
	if len(v) > 1 && s.tornRd > 0 {
		if s.tornRd--; s.tornRd == 0 {
			s.hit = true
			s.r.count("fault.torn_read")
			return append([]byte{}, v[:1+s.tornTo%(len(v)-1)]...)
		}
	}
	if len(v) > 0 && s.lostRd > 0 {
		if s.lostRd--; s.lostRd == 0 {
			s.hit = true
			s.r.count("fault.lost_value")
			return nil
		}
	}
	if s.mem != nil {
		return s.memGet(k, v)
	}
	if v == nil || s.share {
		return v
	}
	return append([]byte{}, v...)
}

func (s *simKV) Has(k []byte) bool {
	s.nrd++
	s.touch("has")
	if s.failRd > 0 {
		if s.failRd--; s.failRd == 0 {
			s.r.count("fault.read_error")
			panic(&injected{"read error"})
		}
	}
	_, ok := s.m[string(k)]
	return ok
}

func (s *simKV) Set(k, v []byte) {
	s.nwr++
	s.touch("set")
	if s.failWr > 0 {
		if s.failWr--; s.failWr == 0 {
			s.r.count("fault.write_error")
			panic(&injected{"write error"})
		}
	}
	if s.mem != nil {
		s.memSet(k, v)
	}
	if len(v) == 0 {
		delete(s.m, string(k))
		return
	}
	if !s.share || s.mem != nil {
		v = append([]byte{}, v...)
	}
	s.m[string(k)] = v
}

func (s *simKV) Iterate(f func(k, v []byte) bool) {
	for _, k := range sortedKeys(s.m) {
		s.touch("iter")
		if !f([]byte(k), append([]byte{}, s.m[k]...)) {
			return
		}
	}
}

func (s *simKV) snapshot() map[string]string {
	r := make(map[string]string, len(s.m))
	for k, v := range s.m {
		r[k] = string(v)
	}
	if s.mem != nil {
		n := 0
		s.r.must("in-memory store", func() {
			s.mem.Iterate(func(k, v []byte) bool {
				n++
				s.r.check(string(v) == r[string(k)], "memkv", "in-memory store: iteration: '%x' = '%x', expected '%x'", k, v, r[string(k)])
				return true
			})
		})
		s.r.check(n == len(r), "memkv", "in-memory store: iteration finds %d pairs, expected %d", n, len(r))
	}
	return r
}

func (s *simKV) restore(m map[string]string) {
	s.m = make(map[string][]byte, len(m))
	for k, v := range m {
		s.m[k] = []byte(v)
	}
	if s.mem != nil {
		s.useMem()
	}
}

// pairs is an iterator over explicit pairs in the given order. With reuse the buffers passed to the consumer are
// overwritten after each call and reused, like iterators of databases do
type pairs struct {
	r     *Run
	ks    []string
	vs    []string
	reuse bool
}

func (it *pairs) Iterate(f func(k, v []byte) bool) {
	var kb, vb []byte
	for i := range it.ks {
		if it.r != nil {
			it.r.op()
		}
		if !it.reuse {
			if !f([]byte(it.ks[i]), []byte(it.vs[i])) {
				return
			}
			continue
		}
		kb = append(kb[:0], it.ks[i]...)
		vb = append(vb[:0], it.vs[i]...)
		ok := f(kb, vb)
		scribble(kb[:cap(kb)])
		scribble(vb[:cap(vb)])
		if !ok {
			return
		}
	}
}

func scribble(b []byte) {
	for i := range b {
		b[i] = 0xA5
	}
}

// kvBatch buffers writes of a KVWriter and applies them atomically
type kvBatch struct {
	r      *Run
	ks     []string
	vs     []string
	failWr int
}

func (b *kvBatch) Set(k, v []byte) {
	b.r.op()
	if b.failWr > 0 {
		if b.failWr--; b.failWr == 0 {
			b.r.count("fault.write_error")
			panic(&injected{"write error"})
		}
	}
	b.ks = append(b.ks, string(k))
	b.vs = append(b.vs, string(v))
}

func (b *kvBatch) apply(s *simKV) {
	for i := range b.ks {
		if s.mem != nil {
			s.memSet([]byte(b.ks[i]), []byte(b.vs[i]))
		}
		if len(b.vs[i]) == 0 {
			delete(s.m, b.ks[i])
		} else {
			s.m[b.ks[i]] = []byte(b.vs[i])
		}
	}
}

// ---------------------------------------------------------------------------
// simHive: kvstore.KVStore of hive.go over a simulated disk with a write-ahead log.
// Every mutation is a log entry and is visible immediately. What has been flushed is durable; of what was not, a crash
// keeps a prefix of entries. A batch is one entry, i.e. atomic.

type hiveEntry struct {
	ks  []string
	vs  []string
	del []bool
}

type hiveDisk struct {
	r       *Run
	vis     map[string]string // visible state
	durable map[string]string // state after the last flush
	wal     []hiveEntry
	syncAll bool // every entry is durable at once

	ops     int
	crashAt int // crash at the n-th next operation
	crashB  int // crash in the batch commit: 1 before, 2 after it got into the log
	fail    map[string]int
	failA   map[string]bool // the failed operation takes effect nevertheless
	share   bool
	yield   func(string)
	closed  bool
	history func(string)
}

func newHiveDisk(r *Run) *hiveDisk {
	return &hiveDisk{r: r, vis: map[string]string{}, durable: map[string]string{}, fail: map[string]int{}, failA: map[string]bool{}}
}

// touch is called at every operation: crash point, failure point, preemption point
func (d *hiveDisk) touch(kind string) error {
	d.r.op()
	if d.yield != nil {
		d.yield(kind)
	}
	d.ops++
	if d.crashAt > 0 {
		if d.crashAt--; d.crashAt == 0 {
			d.r.count("fault.crash_at_" + kind)
			panic(crashNow{})
		}
	}
	if n := d.fail[kind]; n > 0 {
		n--
		d.fail[kind] = n
		if n == 0 {
			d.r.count("fault." + kind + "_error")
			return d.r.ioErr("db", kind+" error")
		}
	}
	return nil
}

func (d *hiveDisk) add(e hiveEntry) {
	applyEntry(d.vis, e)
	if d.syncAll {
		applyEntry(d.durable, e)
		return
	}
	d.wal = append(d.wal, e)
}

func applyEntry(m map[string]string, e hiveEntry) {
	for i := range e.ks {
		if e.del[i] {
			delete(m, e.ks[i])
		} else {
			m[e.ks[i]] = e.vs[i]
		}
	}
}

// crash drops everything not durable except the first keep entries of the log
func (d *hiveDisk) crash(keep int) {
	for i, e := range d.wal {
		if i < keep {
			applyEntry(d.durable, e)
		} else {
			d.r.count("fault.unflushed_entry_lost")
		}
	}
	d.wal = nil
	d.vis = make(map[string]string, len(d.durable))
	for k, v := range d.durable {
		d.vis[k] = v
	}
	d.crashAt, d.crashB = 0, 0
	d.fail = map[string]int{}
	d.failA = map[string]bool{}
}

type simHive struct {
	d     *hiveDisk
	realm []byte
}

var _ kvstore.KVStore = &simHive{}
var _ kvstore.BatchedMutations = &hiveBatch{}

func cat(a, b []byte) []byte { return append(append([]byte{}, a...), b...) }

func (s *simHive) WithRealm(realm kvstore.Realm) (kvstore.KVStore, error) {
	return &simHive{d: s.d, realm: cat(realm, nil)}, nil
}
func (s *simHive) Realm() kvstore.Realm { return cat(s.realm, nil) }

func (s *simHive) iterate(prefix []byte, f func(k, v []byte) bool, dir ...kvstore.IterDirection) error {
	if err := s.d.touch("iterate"); err != nil {
		return err
	}
	full := string(cat(s.realm, prefix))
	ks := make([]string, 0)
	for k := range s.d.vis {
		if strings.HasPrefix(k, full) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	if len(dir) > 0 && dir[0] == kvstore.IterDirectionBackward {
		for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
			ks[i], ks[j] = ks[j], ks[i]
		}
	}
	// the buffers are reused by the iterator, the consumer must not keep them
	for _, k := range ks {
		if err := s.d.touch("iterate"); err != nil {
			return err
		}
		v, ok := s.d.vis[k]
		if !ok {
			continue
		}
		if !f([]byte(k)[len(s.realm):], []byte(v)) {
			return nil
		}
	}
	return nil
}

func (s *simHive) Iterate(prefix kvstore.KeyPrefix, f kvstore.IteratorKeyValueConsumerFunc, dir ...kvstore.IterDirection) error {
	return s.iterate(prefix, func(k, v []byte) bool { return f(k, v) }, dir...)
}
func (s *simHive) IterateKeys(prefix kvstore.KeyPrefix, f kvstore.IteratorKeyConsumerFunc, dir ...kvstore.IterDirection) error {
	return s.iterate(prefix, func(k, _ []byte) bool { return f(k) }, dir...)
}
func (s *simHive) Clear() error { return s.DeletePrefix(nil) }
func (s *simHive) Get(key kvstore.Key) (kvstore.Value, error) {
	if err := s.d.touch("get"); err != nil {
		return nil, err
	}
	v, ok := s.d.vis[string(cat(s.realm, key))]
	if !ok {
		return nil, kvstore.ErrKeyNotFound
	}
	return []byte(v), nil
}
func (s *simHive) Has(key kvstore.Key) (bool, error) {
	if err := s.d.touch("get"); err != nil {
		return false, err
	}
	_, ok := s.d.vis[string(cat(s.realm, key))]
	return ok, nil
}
func (s *simHive) Set(key kvstore.Key, value kvstore.Value) error {
	if err := s.d.touch("set"); err != nil {
		return err
	}
	s.d.add(hiveEntry{[]string{string(cat(s.realm, key))}, []string{string(value)}, []bool{false}})
	return nil
}
func (s *simHive) Delete(key kvstore.Key) error {
	if err := s.d.touch("set"); err != nil {
		return err
	}
	s.d.add(hiveEntry{[]string{string(cat(s.realm, key))}, []string{""}, []bool{true}})
	return nil
}
func (s *simHive) DeletePrefix(prefix kvstore.KeyPrefix) error {
	if err := s.d.touch("set"); err != nil {
		return err
	}
	var e hiveEntry
	full := string(cat(s.realm, prefix))
	for _, k := range sortedKeys(s.d.vis) {
		if strings.HasPrefix(k, full) {
			e.ks, e.vs, e.del = append(e.ks, k), append(e.vs, ""), append(e.del, true)
		}
	}
	s.d.add(e)
	return nil
}
func (s *simHive) Flush() error {
	if err := s.d.touch("flush"); err != nil {
		return err
	}
	for _, e := range s.d.wal {
		applyEntry(s.d.durable, e)
	}
	s.d.wal = nil
	return nil
}
func (s *simHive) Close() error { return nil }
func (s *simHive) Batched() (kvstore.BatchedMutations, error) {
	if err := s.d.touch("batched"); err != nil {
		return nil, err
	}
	return &hiveBatch{s: s, ops: map[string]hiveOp{}}, nil
}

type hiveOp struct {
	v   []byte
	del bool
}

// hiveBatch keeps the operations until Commit or Cancel, like the batches of hive.go do: the key is copied, the value
// is kept as passed, operations survive a failed Commit
type hiveBatch struct {
	s    *simHive
	ops  map[string]hiveOp
	done bool
}

func (b *hiveBatch) Set(key kvstore.Key, value kvstore.Value) error {
	if err := b.s.d.touch("batchset"); err != nil {
		return err
	}
	b.ops[string(key)] = hiveOp{v: value}
	return nil
}
func (b *hiveBatch) Delete(key kvstore.Key) error {
	if err := b.s.d.touch("batchset"); err != nil {
		return err
	}
	b.ops[string(key)] = hiveOp{del: true}
	return nil
}
func (b *hiveBatch) Cancel() { b.ops = map[string]hiveOp{} }
func (b *hiveBatch) Commit() error {
	d := b.s.d
	if d.crashB == 1 {
		d.r.count("fault.crash_before_batch")
		panic(crashNow{})
	}
	after := d.fail["commit"] == 1 && d.failA["commit"]
	err := d.touch("commit")
	if err == nil || after {
		if err != nil {
			d.r.count("fault.commit_error_but_applied")
			delete(d.failA, "commit")
		}
		var e hiveEntry
		for _, k := range sortedKeys(b.ops) {
			o := b.ops[k]
			e.ks = append(e.ks, string(cat(b.s.realm, []byte(k))))
			e.vs = append(e.vs, string(o.v))
			e.del = append(e.del, o.del)
		}
		d.add(e)
	}
	if d.crashB == 2 {
		d.r.count("fault.crash_after_batch")
		panic(crashNow{})
	}
	return err
}

func isNotFound(err error) bool { return errors.Is(err, kvstore.ErrKeyNotFound) }

func eqMap(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || w != v {
			return false
		}
	}
	return true
}

func cloneMap(m map[string]string) map[string]string {
	r := make(map[string]string, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func eqBytes(a, b []byte) bool { return bytes.Equal(a, b) }
