package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"github.com/iotaledger/trie.go/models/trie_blake2b"
	"github.com/iotaledger/trie.go/models/trie_blake2b/trie_blake2b_verify"
	"github.com/iotaledger/trie.go/models/trie_kzg_bn256"
	"github.com/iotaledger/trie.go/trie"
)

// World S: streams, files and decoders on faulty I/O: short and zero reads, read and write errors, partial writes, full
// disk, torn files, damaged bytes. Every step is one session.

func genS(p *Plan, rng *Rng) {
	c := p.Cfg
	genModelCfg(rng, c)
	prop := p.Prop
	n := rng.Pick(2, 4, 8, 14)
	g := newKeyGen(rng, c["arity"])
	if len(g.pool) > 20 {
		g.pool = g.pool[:20]
	}
	ops := map[string][]string{
		"C08": {"stream", "stream", "stream", "stream", "file", "file", "bigkey", "prefix", "rand"},
		"C09": {"file", "dump", "dump", "restore"},
		"C10": {"decode", "decode", "decode", "encode", "prefix"},
		"C07": {"bytes", "bytes", "bytes", "alloc"},
	}[prop]
	if prop == "C09" {
		n = rng.Pick(1, 2, 4, 6)
	}
	for i := 0; i < n; i++ {
		s := Step{Op: ops[rng.N(len(ops))], A: rng.N(1 << 20), B: rng.N(1 << 20), C: rng.N(1 << 20)}
		for j := rng.Pick(0, 1, 2, 3, 6, 12); j > 0; j-- {
			k := g.key()
			v := g.val(k)
			if rng.P(1, 12) {
				v = nil
			}
			if rng.P(1, 400) {
				v = g.bytes(rng.Pick(16384, 32769, 65535, 65536, 70000, 131073))
			}
			s.L = append(s.L, k, v)
		}
		for j := rng.Pick(0, 1, 1, 1, 2); j > 0; j-- {
			kinds := []string{"werr", "rerr", "trunc", "frag", "flip", "eofnow", "zero", "stop", "openerr", "wkv", "closeerr"}
			s.F = append(s.F, Fault{Kind: kinds[rng.N(len(kinds))], A: rng.N(1 << 20), B: rng.N(1 << 20)})
		}
		p.Steps = append(p.Steps, s)
	}
}

type sWorld struct {
	r   *Run
	p   Params
	dir string
}

func runS(r *Run) {
	w := &sWorld{r: r, p: paramsOf(r.p.Cfg)}
	defer func() {
		clearHooks()
		if w.dir != "" {
			_ = os.RemoveAll(w.dir)
		}
	}()
	for i := range r.p.Steps {
		s := r.nextStep(i)
		switch s.Op {
		case "stream":
			w.stream(s)
		case "bigkey":
			w.bigkey(s)
		case "prefix":
			w.prefix(s)
		case "rand":
			w.rand(s)
		case "file":
			w.file(s)
		case "dump":
			w.dump(s, false)
		case "restore":
			w.dump(s, true)
		case "decode":
			w.decode(s)
		case "encode":
			w.encode(s)
		case "bytes":
			w.bytes(s)
		case "alloc":
			w.alloc(s)
		}
	}
}

func fault(s *Step, kind string) *Fault {
	for i := range s.F {
		if s.F[i].Kind == kind {
			return &s.F[i]
		}
	}
	return nil
}

type kvp struct{ k, v string }

func pairsOf(s *Step) []kvp {
	var ret []kvp
	for i := 0; i+1 < len(s.L); i += 2 {
		ret = append(ret, kvp{string(s.L[i]), string(s.L[i+1])})
	}
	return ret
}

// refStream is the format of the stream of key/value pairs
func refStream(ps []kvp) (data []byte, ends []int) {
	for _, x := range ps {
		data = append(data, byte(len(x.k)), byte(len(x.k)>>8))
		data = append(data, x.k...)
		n := len(x.v)
		data = append(data, byte(n), byte(n>>8), byte(n>>16), byte(n>>24))
		data = append(data, x.v...)
		ends = append(ends, len(data))
	}
	return
}

// reader with the faults of the step over the data. avail is the number of bytes which can be read, bad tells if the
// end of them is an error
func (w *sWorld) reader(s *Step, data []byte) (rd *fragReader, avail int, bad bool) {
	r := w.r
	rd = &fragReader{r: r, data: data}
	if f := fault(s, "trunc"); f != nil {
		rd.data = data[:cut(f, len(data))]
		r.count("fault.torn_tail")
	}
	if f := fault(s, "frag"); f != nil {
		rng := &Rng{s: uint64(f.A)}
		for i := rng.Range(1, 6); i > 0; i-- {
			rd.frag = append(rd.frag, rng.Pick(1, 1, 2, 3, 5, 17, 100))
			if len(data) > 100000 { // 10^6 reads of one byte are of no use
				rd.frag[len(rd.frag)-1] *= 1009
			}
		}
	}
	if f := fault(s, "zero"); f != nil {
		rd.frag = append(rd.frag, 0, 1+f.A%9)
	}
	rd.eofNow = fault(s, "eofnow") != nil
	avail = len(rd.data)
	if f := fault(s, "rerr"); f != nil {
		rd.err = r.ioErr("read", "read error")
		rd.failAt = cut(f, len(rd.data))
		rd.once = f.B%2 == 1
		avail, bad = rd.failAt, true
	}
	return
}

// cut is a position in n bytes of data, often next to one of the ends
func cut(f *Fault, n int) int {
	if f.B%3 == 0 && n > 6 {
		return n - 1 - f.A%6
	}
	if f.B%5 == 1 && n > 8 {
		return f.A % 8
	}
	return f.A % (n + 1)
}

// checkRead reads the stream back and compares it with the pairs which are completely available
func (w *sWorld) checkRead(what string, s *Step, ps []kvp, ends []int, avail int, bad bool, iter func(func(k, v []byte) bool) error) {
	r := w.r
	n := 0
	for n < len(ends) && ends[n] <= avail {
		n++
	}
	boundary := avail == 0 || (n > 0 && ends[n-1] == avail)
	stop := -1
	if f := fault(s, "stop"); f != nil && len(ps) > 0 {
		stop = f.A % len(ps)
	}
	type got struct{ k, v []byte }
	var gs []got
	var ss []kvp
	var err error
	o := r.try(func() {
		err = iter(func(k, v []byte) bool {
			gs = append(gs, got{k, v})
			ss = append(ss, kvp{string(k), string(v)})
			return len(gs)-1 != stop
		})
	})
	r.check(!o.panicked, "panic", "%s: reading: %s", what, o)
	for i, x := range ss {
		r.check(i < n, "stream-extra", "%s: pair %d ('%x': '%x') is delivered, but only %d pairs are complete in the %d bytes available", what, i, clip(x.k), clip(x.v), n, avail)
		r.check(x == ps[i], "stream-wrong", "%s: pair %d is ('%x': '%x'), expected ('%x': '%x')", what, i, clip(x.k), clip(x.v), clip(ps[i].k), clip(ps[i].v))
	}
	if stop >= 0 && stop < n {
		r.check(len(ss) == stop+1, "stream-stop", "%s: the consumer stopped after %d pairs, it got %d", what, stop+1, len(ss))
		r.check(err == nil, "stream-stop", "%s: the consumer stopped, the error is %v", what, err)
		r.count("check.stream_stopped")
		if s.C%2 == 0 {
			return
		}
		// the consumer goes on: nothing in between is lost
		stop = -1
		o = r.try(func() {
			err = iter(func(k, v []byte) bool {
				gs = append(gs, got{k, v})
				ss = append(ss, kvp{string(k), string(v)})
				return true
			})
		})
		r.check(!o.panicked, "panic", "%s: reading on: %s", what, o)
		for i, x := range ss {
			r.check(i < n && x == ps[i], "stream-wrong", "%s: after the consumer stopped and went on, pair %d is ('%x': '%x')", what, i, clip(x.k), clip(x.v))
		}
		r.count("check.stream_resumed")
	}
	r.check(len(ss) == n, "stream-lost", "%s: %d pairs are delivered out of %d, error %v", what, len(ss), n, err)
	if boundary && !bad {
		r.check(err == nil, "stream-error", "%s: complete stream is read with the error %v", what, err)
		r.count("check.stream_complete")
	} else {
		r.check(err != nil, "stream-silent", "%s: the stream breaks off at byte %d (read error: %v) and it is taken for complete", what, avail, bad)
		if bad {
			r.check(isInjected(err), "stream-error", "%s: the read error is reported as %v", what, err)
		}
		r.count("check.stream_incomplete")
	}
	for i := range gs {
		r.check(string(gs[i].k) == ss[i].k && string(gs[i].v) == ss[i].v, "stream-alias", "%s: pair %d has been overwritten later", what, i)
	}
	r.state(hashStr(hashStr(uint64(len(ss)), fmt.Sprint(err != nil, avail)), fmt.Sprint(ss)))
}

func clip(s string) string {
	if len(s) > 40 {
		return s[:40]
	}
	return s
}

// write the pairs until a failure; returns the number of pairs which are reported as written. The writer may be buffered,
// if it can report the failure later, when it is closed
func (w *sWorld) writePairs(what string, wr trie.KVStreamWriter, ps []kvp, failed func() bool, later bool) int {
	r := w.r
	size := 0
	for i, x := range ps {
		k, v := []byte(x.k), []byte(x.v)
		var err error
		o := r.try(func() { err = wr.Write(k, v) })
		r.check(!o.panicked, "panic", "%s: write: %s", what, o)
		scribble(k)
		scribble(v)
		if failed() && !(later && err == nil) {
			r.check(err != nil, "stream-write-silent", "%s: pair %d could not be written, no error is reported", what, i)
			n, _ := wr.Stats()
			r.check(n == i, "stream-stats", "%s: %d pairs written, Stats says %d", what, i, n)
			return i
		}
		r.check(err == nil, "stream-write-error", "%s: pair %d: error %v without a reason", what, i, err)
		size += len(x.k) + len(x.v) + 6
		n, b := wr.Stats()
		r.check(n == i+1 && b == size, "stream-stats", "%s: %d pairs and %d bytes written, Stats says %d, %d", what, i+1, size, n, b)
	}
	return len(ps)
}

func (w *sWorld) stream(s *Step) {
	r := w.r
	ps := pairsOf(s)
	want, ends := refStream(ps)
	fw := &faultWriter{r: r, failAt: -1, err: r.ioErr("write", "write error")}
	if f := fault(s, "werr"); f != nil {
		fw.failAt = f.A % (len(want) + 1)
		fw.once = f.B%2 == 1
	}
	failed := func() bool { return fw.hit }
	w.writePairs("stream", trie.NewBinaryStreamWriter(fw), ps, failed, false)
	r.check(bytes.HasPrefix(want, fw.data), "stream-format", "the data written '%x' are not the expected '%x'", clip(string(fw.data)), clip(string(want)))
	if !fw.hit {
		r.check(len(fw.data) == len(want), "stream-format", "%d bytes are written, expected %d", len(fw.data), len(want))
	}
	rd, avail, bad := w.reader(s, fw.data)
	w.checkRead("stream", s, ps, ends, avail, bad, trie.NewBinaryStreamIterator(rd).Iterate)
}

// bigkey: the length of the key doesn't fit. It is refused, whatever has been written can be read
func (w *sWorld) bigkey(s *Step) {
	r := w.r
	ps := pairsOf(s)
	n := []int{65534, 65535, 65536, 65537, 131072}[s.A%5]
	big := kvp{strings.Repeat("k", n), "v"}
	fw := &faultWriter{r: r, failAt: -1}
	wr := trie.NewBinaryStreamWriter(fw)
	k := w.writePairs("stream", wr, ps, func() bool { return false }, false)
	before := len(fw.data)
	var err error
	o := r.try(func() { err = wr.Write([]byte(big.k), []byte(big.v)) })
	if n <= 65535 {
		r.check(!o.panicked && err == nil, "stream-write-error", "key of %d bytes is refused: %s %v", n, o, err)
		ps = append(ps[:k:k], big)
	} else {
		r.check(o.panicked || err != nil, "stream-write-silent", "key of %d bytes is accepted", n)
		r.check(len(fw.data) == before, "stream-torn", "key of %d bytes is refused, but %d bytes are written", n, len(fw.data)-before)
		r.count("check.oversize_refused")
	}
	_, ends := refStream(ps)
	rd := &fragReader{r: r, data: fw.data}
	w.checkRead("stream", &Step{}, ps, ends, len(fw.data), false, trie.NewBinaryStreamIterator(rd).Iterate)
}

// prefix: length prefixed data of the three sizes
func (w *sWorld) prefix(s *Step) {
	r := w.r
	type codec struct {
		name  string
		max   int
		pre   int
		write func(io.Writer, []byte) error
		read  func(io.Reader) ([]byte, error)
	}
	c := []codec{
		{"8", 255, 1, trie.WriteBytes8, trie.ReadBytes8},
		{"16", 65535, 2, trie.WriteBytes16, trie.ReadBytes16},
		{"32", 1 << 30, 4, trie.WriteBytes32, trie.ReadBytes32},
	}[s.A%3]
	n := []int{0, 1, 2, 7, 200, 254, 255, 256, 257, 65535, 65536, 65537, 300, 20, 32}[s.B%15]
	if s.B%41 == 0 {
		n = []int{1<<20 - 1, 1 << 20, 1<<20 + 1, 3 << 19}[s.C%4]
	}
	data := bytes.Repeat([]byte{byte(s.C)}, n)
	fw := &faultWriter{r: r, failAt: -1, err: r.ioErr("write", "write error")}
	if f := fault(s, "werr"); f != nil {
		fw.failAt = f.A % (n + c.pre + 1)
		fw.once = f.B%2 == 1
	}
	var err error
	o := r.try(func() { err = c.write(fw, data) })
	if n > c.max {
		r.check(o.panicked || err != nil, "stream-write-silent", "%d bytes are accepted by WriteBytes%s", n, c.name)
		r.check(len(fw.data) == 0, "stream-torn", "%d bytes are refused by WriteBytes%s, but something is written", n, c.name)
		return
	}
	r.check(!o.panicked, "panic", "WriteBytes%s of %d bytes: %s", c.name, n, o)
	if fw.hit {
		r.check(err != nil, "stream-write-silent", "WriteBytes%s: write error is not reported", c.name)
		return
	}
	r.check(err == nil && len(fw.data) == n+c.pre, "stream-write-error", "WriteBytes%s of %d bytes: %v, %d bytes written", c.name, n, err, len(fw.data))
	rd, avail, bad := w.reader(s, cat(fw.data, []byte{1, 2, 3}))
	var got []byte
	r.must("read back", func() { got, err = c.read(rd) })
	if avail >= n+c.pre {
		r.check(err == nil && bytes.Equal(got, data), "decode-wrong", "ReadBytes%s: %d bytes are read back as %d bytes, error %v", c.name, n, len(got), err)
		if !bad {
			rest, _ := io.ReadAll(rd)
			r.check(len(rest) == avail-n-c.pre, "decode-overread", "ReadBytes%s consumes more than written", c.name)
		}
	} else {
		r.check(err != nil, "decode-silent", "ReadBytes%s: %d bytes out of %d are available and it is taken for complete", c.name, avail, n+c.pre)
	}
}

func (w *sWorld) rand(s *Step) {
	r := w.r
	par := trie.RandStreamParams{Seed: int64(s.A), NumKVPairs: 1 + s.B%30, MaxKey: 2 + s.C%60, MaxValue: 2 + s.B%50}
	read := func() (ret []kvp) {
		r.must("rand stream", func() {
			err := trie.NewRandStreamIterator(par).Iterate(func(k, v []byte) bool {
				ret = append(ret, kvp{string(k), string(v)})
				return true
			})
			r.check(err == nil, "rand-stream", "error %v", err)
		})
		return
	}
	a, b := read(), read()
	if s.C%3 == 0 { // the consumer stops and goes on
		var c []kvp
		it := trie.NewRandStreamIterator(par)
		for i := 0; i < 4; i++ {
			r.must("rand stream", func() {
				stopped := false
				err := it.Iterate(func(k, v []byte) bool {
					r.check(!stopped, "rand-stream", "the consumer has stopped and gets another pair")
					c = append(c, kvp{string(k), string(v)})
					stopped = i != 3 && len(c)%(1+s.A%5) == 0
					return !stopped
				})
				r.check(err == nil, "rand-stream", "error %v", err)
			})
		}
		r.check(len(c) == len(a), "rand-stream", "%d pairs with stops, expected %d", len(c), len(a))
		b = c
	}
	r.check(len(a) == par.NumKVPairs && len(b) == len(a), "rand-stream", "%d and %d pairs, expected %d", len(a), len(b), par.NumKVPairs)
	for i := range a {
		r.check(a[i] == b[i], "rand-stream", "the stream is not a function of the seed")
		r.check(len(a[i].k) > 0 && len(a[i].k) <= par.MaxKey && len(a[i].v) > 0 && len(a[i].v) <= par.MaxValue, "rand-stream", "wrong sizes %d %d", len(a[i].k), len(a[i].v))
	}
}

// ---------------------------------------------------------------------------
// files

func clearHooks() {
	os.SimHookRead, os.SimHookWrite, os.SimHookOpen, os.SimHookClose = nil, nil, nil, nil
	clearMoreHooks()
}

// disk injects faults into files of the scratch directory
type simDisk struct {
	r       *Run
	dir     string
	wrLeft  int // bytes until the write error, -1: none
	rdLeft  int // bytes until the read error, -1: none
	frag    []int
	fi      int
	openErr bool
	clsErr  bool // the next close fails: what has been written may be lost
	clsHit  bool
	wrOnce  bool
	rdOnce  bool
	wrHit   bool
	rdHit   bool
	opHit   bool
}

func (w *sWorld) disk(s *Step, size int) *simDisk {
	r := w.r
	if w.dir == "" {
		d, err := os.MkdirTemp(scratchRoot(), "simtrie-")
		if err != nil {
			panic(harnessPanic(err.Error()))
		}
		w.dir, r.scratch = d, d
	}
	d := &simDisk{r: r, dir: w.dir, wrLeft: -1, rdLeft: -1}
	if f := fault(s, "werr"); f != nil {
		d.wrLeft = f.A % (size + 1)
		d.wrOnce = f.B%2 == 1
	}
	if f := fault(s, "rerr"); f != nil {
		d.rdLeft = f.A % (size + 1)
		d.rdOnce = f.B%2 == 1
	}
	if f := fault(s, "frag"); f != nil {
		d.frag = []int{1 + f.A%7, 1 + f.B%3, 1 + f.A%40}
	}
	d.openErr = fault(s, "openerr") != nil && s.A%4 == 0
	os.SimHookOpen = func(name string, flag int) error {
		if !strings.HasPrefix(name, d.dir) || !d.openErr {
			return nil
		}
		d.opHit = true
		r.count("fault.file_open_error")
		return r.ioErr("open", "open error")
	}
	d.clsErr = fault(s, "closeerr") != nil
	os.SimHookClose = func(name string) error {
		if !strings.HasPrefix(name, d.dir) || !d.clsErr {
			return nil
		}
		d.clsErr = false
		d.clsHit = true
		r.count("fault.file_close_error")
		return r.ioErr("close", "close error")
	}
	os.SimHookWrite = func(name string, n int) (int, error) {
		if !strings.HasPrefix(name, d.dir) {
			return n, nil
		}
		r.op()
		if d.wrLeft < 0 {
			return n, nil
		}
		if n > d.wrLeft {
			k := d.wrLeft
			d.wrLeft = 0
			d.wrHit = true
			if d.wrOnce {
				d.wrLeft = -1
				r.count("fault.transient_file_write_error")
			} else {
				r.count("fault.disk_full")
			}
			if k > 0 {
				r.count("fault.partial_file_write")
			}
			return k, r.ioErr("write", "no space left on device")
		}
		d.wrLeft -= n
		return n, nil
	}
	os.SimHookRead = func(name string, n int) (int, error) {
		if !strings.HasPrefix(name, d.dir) {
			return n, nil
		}
		r.op()
		if d.rdLeft == 0 {
			d.rdHit = true
			if d.rdOnce {
				d.rdLeft = -1
			}
			r.count("fault.file_read_error")
			return 0, r.ioErr("read", "input/output error")
		}
		if len(d.frag) > 0 {
			if k := d.frag[d.fi%len(d.frag)]; k < n {
				n = k
				r.count("fault.short_file_read")
			}
			d.fi++
		}
		if d.rdLeft > 0 {
			n = min(n, d.rdLeft)
			d.rdLeft -= n
		}
		return n, nil
	}
	return d
}

// tear truncates or extends the file behind the back of the library, like a crash does
func (w *sWorld) tear(s *Step, fname string, size int) int {
	f := fault(s, "trunc")
	if f == nil {
		return size
	}
	n := f.A % (size + 1)
	if err := os.Truncate(fname, int64(n)); err != nil {
		panic(harnessPanic(err.Error()))
	}
	w.r.count("fault.torn_file")
	return n
}

func (w *sWorld) fileSize(fname string) int {
	st, err := os.Stat(fname)
	if err != nil {
		return -1
	}
	return int(st.Size())
}

func (w *sWorld) file(s *Step) {
	r := w.r
	defer clearHooks()
	ps := pairsOf(s)
	want, ends := refStream(ps)
	d := w.disk(s, len(want))
	fname := filepath.Join(w.dir, "stream.bin")
	if s.B%3 == 0 { // an older and longer file is in place
		clearHooks()
		if err := os.WriteFile(fname, bytes.Repeat([]byte{0x33}, len(want)+50), 0o600); err != nil {
			panic(harnessPanic(err.Error()))
		}
		d = w.disk(s, len(want))
	}
	var err error
	var fw *trie.BinaryStreamFileWriter
	r.must("create", func() { fw, err = trie.CreateKVStreamFile(fname) })
	if d.opHit {
		r.check(err != nil, "file-open-silent", "file can't be created, no error is reported")
		d.openErr = false
		return
	}
	r.check(err == nil, "file-error", "create: %v", err)
	nw := w.writePairs("file", fw, ps, func() bool { return d.wrHit }, true)
	hitBefore := d.wrHit
	r.must("close", func() { err = fw.Close() })
	if d.clsHit || (d.wrHit && nw == len(ps)) {
		r.check(err != nil, "file-close-silent", "all the pairs are reported as written, writing failed: %v, closing failed: %v (the last write before closing: %v), no error is reported", d.wrHit, d.clsHit, hitBefore)
	}
	r.check(err == nil || d.clsHit || d.wrHit, "file-error", "close: error %v without a reason", err)
	size := w.fileSize(fname)
	if !d.wrHit && !d.clsHit {
		r.check(size == len(want), "stream-format", "the file has %d bytes, expected %d", size, len(want))
	}
	d.wrLeft, d.clsErr = -1, false
	avail := w.tear(s, fname, size)
	bad := false
	if f := fault(s, "rerr"); f != nil {
		d.rdLeft = f.A % (avail + 1)
		avail, bad = d.rdLeft, true
	}
	var fi *trie.BinaryStreamFileIterator
	r.must("open", func() { fi, err = trie.OpenKVStreamFile(fname) })
	r.check(err == nil, "file-error", "open: %v", err)
	w.checkRead("file", s, ps, ends, avail, bad, fi.Iterate)
	r.must("close", func() { err = fi.Close() })
	r.check(err == nil, "file-error", "close: %v", err)
	r.must("open of an absent file", func() { _, err = trie.OpenKVStreamFile(fname + ".absent") })
	r.check(err != nil, "file-open-silent", "absent file is opened")
}

// dump: a key/value store to the file and back
func (w *sWorld) dump(s *Step, withTrie bool) {
	r := w.r
	defer clearHooks()
	content := map[string]string{}
	for _, x := range pairsOf(s) {
		if x.v != "" {
			content[x.k] = x.v
		}
	}
	src := map[string]string{}
	var ref *refNode
	if withTrie { // the store of a trie
		st := newSimKV(r)
		tr := trie.New(w.p.model(), st, mapReader(content), w.p.Opt)
		r.must("build", func() {
			for _, k := range sortedKeys(content) {
				tr.Update([]byte(k), []byte(content[k]))
			}
			tr.Commit()
			tr.PersistMutations(st)
		})
		src = st.snapshot()
		ref = refBuild(content, w.p)
	} else {
		src = content
	}
	total := 0
	for k, v := range src {
		total += len(k) + len(v) + 6
	}
	var it trie.KVStore
	if s.B%2 == 0 {
		it = trie.NewInMemoryKVStore()
		for _, k := range sortedKeys(src) {
			r.must("set", func() { it.Set([]byte(k), []byte(src[k])) })
		}
		w.memkv(s, it, src)
	} else {
		st := newSimKV(r)
		st.restore(src)
		it = st
	}
	var ne, bs int
	r.must("size", func() { ne, bs = trie.NumEntries(it), trie.ByteSize(it) })
	r.check(ne == len(src) && bs == total, "dump-size", "NumEntries %d, ByteSize %d, expected %d, %d", ne, bs, len(src), total)

	d := w.disk(s, total)
	fname := filepath.Join(w.dir, "dump.bin")
	clearHooks()
	older, _ := os.ReadFile(fname)
	d = w.disk(s, total)
	if s.B%3 == 0 {
		clearHooks()
		older = bytes.Repeat([]byte{0x33}, total+77)
		if err := os.WriteFile(fname, older, 0o600); err != nil {
			panic(harnessPanic(err.Error()))
		}
		d = w.disk(s, total)
	}
	var err error
	var n int
	r.must("dump", func() { n, err = trie.DumpToFile(it, fname) })
	if d.opHit || d.wrHit || d.clsHit {
		r.check(err != nil, "dump-silent", "the dump failed (open %v, write %v, close %v), no error is reported", d.opHit, d.wrHit, d.clsHit)
		r.count("check.dump_failed")
	} else {
		r.check(err == nil && n == total, "dump-error", "dump of %d bytes: returned %d, %v", total, n, err)
	}
	d.openErr, d.clsErr, d.wrLeft = false, false, -1
	size := w.fileSize(fname)
	if err != nil && size < 0 {
		return
	}
	r.check(size >= 0, "dump-error", "there's no file")
	if d.opHit {
		return
	}
	// what the file has, in order
	clearHooks()
	raw, e := os.ReadFile(fname)
	if e != nil {
		panic(harnessPanic(e.Error()))
	}
	if err != nil && older != nil && bytes.Equal(raw, older) { // the older file may stay
		return
	}
	var order []kvp
	for pos := 0; pos+2 <= len(raw); {
		kl := int(raw[pos]) + int(raw[pos+1])<<8
		if pos+2+kl+4 > len(raw) {
			break
		}
		k := string(raw[pos+2 : pos+2+kl])
		q := pos + 2 + kl
		vl := int(raw[q]) + int(raw[q+1])<<8 + int(raw[q+2])<<16 + int(raw[q+3])<<24
		if q+4+vl > len(raw) {
			break
		}
		order = append(order, kvp{k, string(raw[q+4 : q+4+vl])})
		pos = q + 4 + vl
	}
	seen := map[string]bool{}
	for _, x := range order {
		v, ok := src[x.k]
		r.check(ok && v == x.v && !seen[x.k], "dump-wrong", "pair ('%x': '%x') in the file is not in the store", clip(x.k), clip(x.v))
		seen[x.k] = true
	}
	_, ends := refStream(order)
	if !d.wrHit {
		r.check(len(order) == len(src) && size == total, "dump-wrong", "%d pairs out of %d are in the file", len(order), len(src))
	}
	avail := w.tear(s, fname, size)
	nd := w.disk(s, avail)
	nd.openErr, nd.clsErr, nd.wrLeft = false, false, -1
	bad := false
	if f := fault(s, "rerr"); f != nil {
		nd.rdLeft = f.A % (avail + 1)
		avail, bad = nd.rdLeft, true
	}
	k := 0
	for k < len(ends) && ends[k] <= avail {
		k++
	}
	boundary := avail == 0 || (k > 0 && ends[k-1] == avail)
	dst := newSimKV(r)
	if f := fault(s, "wkv"); f != nil && k > 0 {
		dst.failWr = 1 + f.A%k
		o := r.try(func() { _, err = trie.UnDumpFromFile(dst, fname) })
		r.check(o.injected || err != nil, "undump-silent", "failed write to the store is not reported: %s", o)
		dst.failWr = 0
		dst.m = map[string][]byte{}
		nd.rdLeft = -1
		if bad {
			nd.rdLeft = avail
		}
	}
	r.must("undump", func() { n, err = trie.UnDumpFromFile(dst, fname) })
	if boundary && !bad {
		want := 0
		if k > 0 {
			want = ends[k-1]
		}
		r.check(err == nil && n == want, "undump-error", "undump of %d complete pairs: returned %d, %v", k, n, err)
	} else {
		r.check(err != nil, "undump-silent", "the file breaks off at byte %d (read error: %v), the undump is reported as successful", avail, bad)
		r.count("check.undump_incomplete")
	}
	got := dst.snapshot()
	expect := map[string]string{}
	for _, x := range order[:k] {
		expect[x.k] = x.v
	}
	r.check(eqMap(got, expect), "undump-wrong", "%d pairs restored, expected %d", len(got), len(expect))
	r.must("undump of an absent file", func() { _, err = trie.UnDumpFromFile(dst, fname+".absent") })
	r.check(err != nil, "file-open-silent", "absent file is restored")
	if withTrie && err != nil && len(expect) == len(src) {
		var root []byte
		r.must("root of the restored trie", func() {
			root = vbytes(trie.RootCommitment(trie.NewTrieReader(w.p.model(), dst, mapReader(content))))
		})
		r.check(bytes.Equal(root, ref.root()), "root", "root of the restored trie %x, expected %x", root, ref.root())
		r.count("check.restored_trie")
	}
	r.state(hashStr(uint64(avail), fmt.Sprint(got)))
}

// ---------------------------------------------------------------------------
// decoders

// object is something which is serialized
type object struct {
	name  string
	data  []byte
	read  func(rd io.Reader) (any, error)
	write func(x any, w io.Writer) error
}

// objects made of the content
func (w *sWorld) objects(s *Step) []object {
	r := w.r
	content := map[string]string{}
	for _, x := range pairsOf(s) {
		if x.v != "" {
			content[x.k] = x.v
		}
	}
	if len(content) == 0 {
		content["k"] = "v"
	}
	var ret []object
	st := newSimKV(r)
	m := w.p.model()
	ar := libArity(w.p.Arity)
	tr := trie.New(m, st, mapReader(content), w.p.Opt)
	r.must("build", func() {
		for _, k := range sortedKeys(content) {
			tr.Update([]byte(k), []byte(content[k]))
		}
		tr.Commit()
		tr.PersistMutations(st)
	})
	ref := refBuild(content, w.p)
	ref.walk(func(n *refNode) {
		if len(ret) > 6 {
			return
		}
		key := cat(n.key, nil)
		rec := st.m[refEncode(n.key, w.p.Arity)]
		ret = append(ret, object{"node", rec,
			func(rd io.Reader) (any, error) {
				nd := trie.NewNodeData()
				err := nd.Read(rd, m, key, ar, mapReader(content))
				return nd, err
			},
			func(x any, wr io.Writer) error { return x.(*trie.NodeData).Write(wr, ar, false, false) },
		})
		ret = append(ret, serializable("vector commitment", n.c, func() trie.Serializable { return m.NewVectorCommitment() }))
		if n.term != nil {
			var tb []byte
			r.must("terminal", func() { tb = m.CommitToData(w.p.effective([]byte(n.fullKey), n.val)).Bytes() })
			ret = append(ret, serializable("terminal commitment", tb, func() trie.Serializable { return m.NewTerminalCommitment() }))
		}
	})
	if w.p.Hash != 0 {
		ks := sortedKeys(content)
		for i := 0; i < 2; i++ {
			k := []byte(ks[(s.A+i)%len(ks)])
			if i == 1 {
				if k = append(k, 1); s.A%3 == 0 {
					k = nil
				}
			}
			var data []byte
			r.must("proof", func() { data = w.p.blake().Proof(k, tr).Bytes() })
			ret = append(ret, object{"proof", data,
				func(rd io.Reader) (any, error) {
					x := &trie_blake2b.Proof{}
					return x, x.Read(rd)
				},
				func(x any, wr io.Writer) error { return x.(*trie_blake2b.Proof).Write(wr) },
			})
		}
	}
	return append(ret, w.kzgObjects(s)...)
}

func serializable(name string, data []byte, mk func() trie.Serializable) object {
	return object{name, data,
		func(rd io.Reader) (any, error) {
			x := mk()
			return x, x.Read(rd)
		},
		func(x any, wr io.Writer) error { return x.(trie.Serializable).Write(wr) },
	}
}

var kzgCache []object

// kzgObjects are few, made once: the library is slow with them
func (w *sWorld) kzgObjects(s *Step) []object {
	if kzgCache == nil {
		m := trie_kzg_bn256.Model
		st := trie.NewInMemoryKVStore()
		tr := trie.New(m, st, nil, false)
		tr.Update([]byte("a"), []byte("1"))
		tr.Update([]byte("ab"), []byte("2"))
		tr.Commit()
		tr.PersistMutations(st)
		pr, _ := m.ProofOfInclusion([]byte("ab"), tr)
		kzgCache = []object{
			serializable("KZG vector commitment", trie.RootCommitment(tr).Bytes(), func() trie.Serializable { return m.NewVectorCommitment() }),
			serializable("KZG terminal commitment", m.CommitToData([]byte("1")).Bytes(), func() trie.Serializable { return m.NewTerminalCommitment() }),
			{"KZG proof", pr.Bytes(),
				func(rd io.Reader) (any, error) {
					x := &trie_kzg_bn256.ProofOfInclusion{}
					return x, x.Read(rd)
				},
				func(x any, wr io.Writer) error { return x.(*trie_kzg_bn256.ProofOfInclusion).Write(wr) },
			},
			{"KZG node", st.Get(nil),
				func(rd io.Reader) (any, error) {
					nd := trie.NewNodeData()
					err := nd.Read(rd, m, nil, trie.PathArity256, nil)
					return nd, err
				},
				func(x any, wr io.Writer) error { return x.(*trie.NodeData).Write(wr, trie.PathArity256, false, false) },
			},
		}
	}
	if s.B%8 != 0 {
		return kzgCache[s.A%2 : s.A%2+1]
	}
	return kzgCache
}

// decode: what is read does not depend on how the bytes arrive. If they do not arrive, it is an error
func (w *sWorld) decode(s *Step) {
	r := w.r
	obs := w.objects(s)
	ob := obs[s.C%len(obs)]
	if len(ob.data) == 0 {
		return
	}
	image := func(x any) string {
		var b bytes.Buffer
		var err error
		r.must(ob.name+": serialize", func() { err = ob.write(x, &b) })
		return fmt.Sprintf("%x %v", b.Bytes(), err)
	}
	var plain any
	var err error
	r.must(ob.name+": read", func() { plain, err = ob.read(bytes.NewReader(ob.data)) })
	r.check(err == nil, "decode-error", "%s '%x' can't be read: %v", ob.name, ob.data, err)
	want := image(plain)
	// two objects one after another, and something else behind
	tailB := []byte{1, 2, 3, 4, 5}
	data := append(append(cat(ob.data, nil), ob.data...), tailB...)
	rd, avail, bad := w.reader(s, data)
	for i := 0; i < 2; i++ {
		var x any
		r.must(ob.name+": read from the faulty stream", func() { x, err = ob.read(rd) })
		r.ev("%s: %v", ob.name, err != nil)
		if avail < (i+1)*len(ob.data) {
			r.check(err != nil, "decode-silent", "%s of %d bytes: the data breaks off after %d bytes and it is not reported", ob.name, len(ob.data), avail-i*len(ob.data))
			r.count("check.decode_incomplete")
			return
		}
		r.check(err == nil, "decode-error", "%s: all the %d bytes have been delivered (in fragments), the error is %v", ob.name, len(ob.data), err)
		got := image(x)
		r.check(got == want, "decode-wrong", "%s is read from a fragmented stream as '%s', expected '%s'", ob.name, got, want)
	}
	if !bad {
		var b []byte
		b, err = io.ReadAll(rd)
		r.check(err == nil && len(b) == avail-2*len(ob.data), "decode-overread", "%s: more has been consumed than the object has", ob.name)
	}
	r.state(hashStr(1, fmt.Sprintf("%s %x %v", ob.name, ob.data, s.F)))
	r.count("check.decode_complete")
}

// longProof: a proof with too many elements is refused or can be read back
func longProof(r *Run, s *Step, x any) {
	n := []int{65534, 65535, 65536, 65537, 65540, 131072}[s.A%6]
	var o interface{ Write(io.Writer) error }
	var back interface{ Read(io.Reader) error }
	var path func() int
	switch p := x.(type) {
	case *trie_blake2b.Proof:
		if len(p.Path) == 0 {
			return
		}
		q := *p
		q.Path = make([]*trie_blake2b.ProofElement, n)
		for i := range q.Path {
			q.Path[i] = &trie_blake2b.ProofElement{ChildIndex: p.Path[0].ChildIndex}
		}
		b := &trie_blake2b.Proof{}
		o, back, path = &q, b, func() int { return len(b.Path) }
	default:
		return
	}
	var buf bytes.Buffer
	var err error
	w := r.try(func() { err = o.Write(&buf) })
	if n > 65535 && (w.panicked || err != nil) {
		r.count("check.oversize_refused")
		return
	}
	r.check(!w.panicked && err == nil, "encode-error", "proof with %d elements: %s %v", n, w, err)
	rd := bytes.NewReader(buf.Bytes())
	r.must("read of the long proof", func() { err = back.Read(rd) })
	r.check(err == nil && rd.Len() == 0 && path() == n, "encode-wrong", "proof with %d elements is read back with %d elements, %d bytes left, %v", n, path(), rd.Len(), err)
	r.count("check.long_proof")
}

// encode: an error of the writer is reported
func (w *sWorld) encode(s *Step) {
	r := w.r
	obs := w.objects(s)
	ob := obs[s.C%len(obs)]
	var x any
	var err error
	r.must(ob.name+": read", func() { x, err = ob.read(bytes.NewReader(ob.data)) })
	r.check(err == nil, "decode-error", "%s '%x' can't be read: %v", ob.name, ob.data, err)
	full := &faultWriter{r: r, failAt: -1}
	r.must(ob.name+": write", func() { err = ob.write(x, full) })
	r.check(err == nil, "encode-error", "%s: %v", ob.name, err)
	if s.B%97 == 0 {
		longProof(r, s, x)
	}
	if o, ok := x.(interface{ Write(w io.Writer) error }); ok {
		var n, n2 int
		r.must(ob.name+": size", func() { n, err = trie.Size(o); n2 = trie.MustSize(o) })
		r.check(err == nil && n == len(full.data) && n2 == n, "size", "%s: Size %d, MustSize %d, %v, %d bytes are written", ob.name, n, n2, err, len(full.data))
		r.must(ob.name+": bytes", func() {
			r.check(bytes.Equal(trie.MustBytes(o), full.data), "encode-wrong", "%s: MustBytes differs from Write", ob.name)
		})
	}
	if len(full.data) == 0 {
		return
	}
	fw := &faultWriter{r: r, failAt: s.A % len(full.data), err: r.ioErr("write", "write error"), once: s.B%2 == 1}
	r.must(ob.name+": write with a failure", func() { err = ob.write(x, fw) })
	r.check(err != nil, "encode-silent", "%s: only %d of %d bytes have been written, no error is reported", ob.name, len(fw.data), len(full.data))
	r.check(bytes.HasPrefix(full.data, fw.data), "encode-wrong", "%s: other bytes are written", ob.name)
	r.count("check.encode_failed")
}

// bytes: hostile or damaged bytes in all the decoders. They return an error or something usable, never panic
func (w *sWorld) bytes(s *Step) {
	r := w.r
	obs := w.objects(s)
	ob := obs[s.C%len(obs)]
	rng := &Rng{s: uint64(s.A)*31 + uint64(s.B)}
	data := mutate(rng, cat(ob.data, nil), cat(obs[rng.N(len(obs))].data, nil))
	r.count("fault.hostile_bytes")
	r.ev("%s %x", ob.name, data)
	var x any
	var err error
	r.must(ob.name+": read of hostile bytes", func() { x, err = ob.read(bytes.NewReader(data)) })
	if err == nil {
		r.count("probe.hostile_parsed")
		var b1, b2 bytes.Buffer
		var y any
		r.must(ob.name+": write of what was read", func() { err = ob.write(x, &b1) })
		if err == nil {
			r.must(ob.name+": read of what was written", func() { y, err = ob.read(bytes.NewReader(b1.Bytes())) })
			r.check(err == nil, "decode-error", "%s: '%x' is parsed, written as '%x', and that can't be parsed: %v", ob.name, data, b1.Bytes(), err)
			r.must(ob.name+": write again", func() { err = ob.write(y, &b2) })
			r.check(err == nil && bytes.Equal(b1.Bytes(), b2.Bytes()), "decode-wrong", "%s: '%x' is parsed and written as '%x', then as '%x', %v", ob.name, data, b1.Bytes(), b2.Bytes(), err)
		}
	}
	w.whole(rng, ob, data)
	w.malformed(rng, ob)
	key := rng.Bytes(rng.N(6))
	m := w.p.model()
	ar := libArity(w.p.Arity)
	for i := range key {
		key[i] %= byte(w.p.Arity - 1)
	}
	r.must("node of hostile bytes", func() { _, _ = trie.NodeDataFromBytes(m, data, key, ar, mapReader{}) })
	r.must("node of hostile bytes without the value store", func() { _, _ = trie.NodeDataFromBytes(m, data, nil, ar, nil) })
	r.must("key of hostile bytes", func() {
		for _, a := range []trie.PathArity{ar, trie.PathArity2, trie.PathArity16, trie.PathArity256, trie.PathArity(rng.N(256))} {
			u, err := trie.DecodeToUnpackedBytes(data, a)
			if err == nil && len(u) > 0 { // the empty key has several encodings
				e, err := trie.EncodeUnpackedBytes(u, a)
				r.check(err == nil && bytes.Equal(e, data), "key-codec", "arity %d: '%x' is decoded to '%x' and encoded to '%x', %v", a, data, u, e, err)
			}
			e, err := trie.EncodeUnpackedBytes(data, a)
			if err == nil && len(data) > 0 {
				back, err := trie.DecodeToUnpackedBytes(e, a)
				r.check(err == nil && bytes.Equal(back, data), "key-codec", "arity %d: the unpacked key '%x' is encoded to '%x' and decoded to '%x', %v", a, data, e, back, err)
			}
			_, _ = trie.PackUnpackedBytes(data, a)
			// few elements, most of them valid
			few := rng.Bytes(rng.Range(1, 9))
			for i := range few {
				if !rng.P(1, 8) {
					few[i] = byte(uint(few[i]) % (uint(a) + 1))
				}
			}
			valid := true
			for _, c := range few {
				valid = valid && c <= byte(a)
			}
			if a == trie.PathArity2 || a == trie.PathArity16 || a == trie.PathArity256 {
				e, err := trie.EncodeUnpackedBytes(few, a)
				r.check((err == nil) == valid, "key-codec", "arity %d: the unpacked key '%x' is encoded to '%x', %v", a, few, e, err)
				q, err := trie.PackUnpackedBytes(few, a)
				r.check((err == nil) == valid, "key-codec", "arity %d: the unpacked key '%x' is packed to '%x', %v", a, few, q, err)
				if valid {
					back, err := trie.DecodeToUnpackedBytes(e, a)
					r.check(err == nil && bytes.Equal(back, few), "key-codec", "arity %d: the unpacked key '%x' is encoded to '%x' and decoded to '%x', %v", a, few, e, back, err)
					r.check(bytes.HasSuffix(e, q), "key-codec", "arity %d: the unpacked key '%x' is packed to '%x' and encoded to '%x'", a, few, q, e)
				}
			}
		}
	})
	var pr *trie_blake2b.Proof
	r.must("proof of hostile bytes", func() { pr, err = trie_blake2b.ProofFromBytes(data) })
	if err == nil {
		r.count("probe.hostile_proof_parsed")
		for _, root := range [][]byte{nil, rng.Bytes(20), rng.Bytes(32), rng.Bytes(3)} {
			r.must("verification of the hostile proof", func() {
				err = trie_blake2b_verify.Validate(pr, root)
				_ = trie_blake2b_verify.ValidateWithValue(pr, root, []byte("x"))
			})
			if len(pr.Path) > 0 {
				r.check(err != nil, "proof-lie", "hostile proof is accepted for a random root")
			}
		}
	}
	r.must("stream of hostile bytes", func() {
		_ = trie.NewBinaryStreamIterator(bytes.NewReader(data)).Iterate(func(k, v []byte) bool { return true })
	})
	tr := trie.New(m, mapReader{}, nil, w.p.Opt)
	vcb := data
	if rng.P(1, 2) { // about the right size
		vcb = rng.Bytes(w.p.Hash + rng.Range(-1, 1))
	}
	var vc trie.VCommitment
	r.must("vector commitment of hostile bytes", func() { vc, err = tr.VectorCommitmentFromBytes(cat(vcb, nil)) })
	if w.p.Hash != 0 {
		r.check((err == nil) == (len(vcb) == w.p.Hash), "decode-silent", "vector commitment of %d bytes: error %v", len(vcb), err)
		if err == nil {
			r.check(bytes.Equal(vc.Bytes(), vcb), "decode-wrong", "vector commitment '%x' is read as '%x'", vcb, vc.Bytes())
		}
	}
	if ob.name == "KZG proof" || rng.P(1, 20) {
		var kp *trie_kzg_bn256.ProofOfInclusion
		r.must("KZG proof of hostile bytes", func() { kp, err = trie_kzg_bn256.ProofOfInclusionFromBytes(data) })
		if err == nil {
			r.count("probe.hostile_kzg_proof_parsed")
			root := kzgPoint(r, kzgCache[0].data)
			r.must("validation of the hostile KZG proof", func() { _ = kp.Validate(root, []byte("2")) })
			r.must("validation of the hostile KZG proof", func() { _ = kp.Validate(root) })
		}
	}
	// a store full of hostile records: the reader reports an error by panic (there's no error in its interface), but it
	// ends and does not corrupt anything
	hs := newSimKV(r)
	hs.m[""] = data
	o := r.try(func() { trie.RootCommitment(trie.NewTrieReader(m, hs, mapReader{})) })
	r.check(!o.panicked || !isRuntimePanic(o.val), "panic", "hostile record: %s", o)
}

// packed finds the packed keys and path fragments inside a serialized proof or node: begin and end of each. It is not ok if the data breaks
// off or something is left over
func (p Params) packed(name string, data []byte) (at [][2]int, ok bool) {
	pos := 0
	skip := func(n int) bool { pos += n; return pos <= len(data) }
	key := func() bool {
		if !skip(2) {
			return false
		}
		n := int(data[pos-2]) + int(data[pos-1])*256
		at = append(at, [2]int{pos, pos + n})
		return skip(n)
	}
	if name == "node" {
		if !skip(1) {
			return at, false
		}
		return at, data[0]&0x10 == 0 || key()
	}
	if !skip(2) {
		return at, false
	}
	children, hash := int(data[0])+1, int(data[1])
	if children != 2 && children != 16 && children != 256 || hash != 20 && hash != 32 || !key() || !skip(2) {
		return at, false
	}
	for n := int(data[pos-2]) + int(data[pos-1])*256; n > 0; n-- {
		if !key() || !skip(3) {
			return at, false
		}
		flags := data[pos-1]
		if flags&1 != 0 && (!skip(1) || !skip(int(data[pos-1]))) {
			return at, false
		}
		if flags&2 != 0 {
			if !skip(32) {
				return at, false
			}
			bits := data[pos-32 : pos]
			for i := 0; i < children; i++ {
				if bits[i/8]&(1<<(i%8)) != 0 && !skip(hash) {
					return at, false
				}
			}
		}
	}
	return at, pos == len(data)
}

// refPacked tells if the bytes are the packed form of some key
func refPacked(b []byte, arity int) bool {
	switch {
	case arity == 256 || len(b) == 0: // nothing is the packed form of the empty key
		return true
	case arity == 16:
		return b[0] == 0 || b[0] == 1 && len(b) > 1 && b[len(b)-1]%16 == 0
	}
	return b[0] == 0 || b[0] < 8 && len(b) > 1 && b[len(b)-1]&(1<<b[0]-1) == 0
}

// malformed: a proof or a node in which a packed key is not the packed form of any key is refused, and so is writing of a proof or
// a node whose key has elements which the arity does not have
func (w *sWorld) malformed(rng *Rng, ob object) {
	r := w.r
	if ob.name != "proof" && ob.name != "node" {
		return
	}
	at, ok := w.p.packed(ob.name, ob.data)
	for _, a := range at {
		ok = ok && refPacked(ob.data[a[0]:a[1]], w.p.Arity)
	}
	if !ok { // the format is another one
		r.count("check.format_unknown")
		return
	}
	if len(at) > 0 && w.p.Arity != 256 {
		data := cat(ob.data, nil)
		a := at[rng.N(len(at))]
		n := a[1] - a[0]
		if n == 0 { // a key of one byte
			data = append(append(cat(data[:a[0]], nil), 1), data[a[1]:]...)
			n = 1
			data[a[0]-2] = 1
			a[1]++
		}
		switch rng.N(3) {
		case 0:
			data[a[0]] = byte(rng.Pick(1, 2, 3, 7, 8, 9, 16, 255))
		case 1:
			data[a[0]] = 1
			data[a[1]-1] |= 1
		default:
			data[a[1]-1] ^= 1 << rng.N(8)
		}
		if !refPacked(data[a[0]:a[0]+n], w.p.Arity) {
			var err error
			r.count("fault.malformed_key")
			r.must(ob.name+" with a malformed key", func() { _, err = ob.read(bytes.NewReader(data)) })
			r.check(err != nil, "decode-silent", "%s '%x' is read although the packed key '%x' in it is malformed", ob.name, data, data[a[0]:a[0]+n])
		}
	}
	var x any
	var err error
	r.must(ob.name+": read", func() { x, err = ob.read(bytes.NewReader(ob.data)) })
	r.check(err == nil, "decode-error", "%s '%x' can't be read: %v", ob.name, ob.data, err)
	var keys []*[]byte
	switch o := x.(type) {
	case *trie_blake2b.Proof:
		keys = append(keys, &o.Key)
		for _, e := range o.Path {
			keys = append(keys, &e.PathFragment)
		}
	case *trie.NodeData:
		keys = append(keys, &o.PathFragment)
	}
	if len(keys) == 0 || w.p.Arity == 256 {
		return
	}
	k := keys[rng.N(len(keys))]
	bad := byte(rng.Range(w.p.Arity, 255))
	if i := rng.N(len(*k) + 1); i < len(*k) {
		*k = cat(*k, nil)
		(*k)[i] = bad
	} else {
		*k = append(cat(*k, nil), bad)
	}
	var buf bytes.Buffer
	r.must(ob.name+" with an invalid key: write", func() { err = ob.write(x, &buf) })
	r.check(err != nil, "encode-silent", "%s with the invalid element %d in a key is written as '%x'", ob.name, bad, buf.Bytes())
	r.count("check.invalid_key_refused")
}

// whole: decoders of slices refuse what is left over; helpers refuse the wrong number of bytes
func (w *sWorld) whole(rng *Rng, ob object, data []byte) {
	r := w.r
	extra := append(cat(ob.data, nil), rng.Bytes(1+rng.N(3))...)
	m := w.p.model()
	ar := libArity(w.p.Arity)
	var err error
	switch ob.name {
	case "proof":
		r.must("proof with something behind", func() { _, err = trie_blake2b.ProofFromBytes(extra) })
		r.check(err != nil, "decode-silent", "proof: bytes behind the proof are ignored")
		r.must("proof", func() { _, err = trie_blake2b.ProofFromBytes(cat(ob.data, nil)) })
		r.check(err == nil, "decode-error", "proof: %v", err)
	case "KZG proof":
		r.must("KZG proof with something behind", func() { _, err = trie_kzg_bn256.ProofOfInclusionFromBytes(extra) })
		r.check(err != nil, "decode-silent", "KZG proof: bytes behind the proof are ignored")
	case "node": // the record of the node as it is stored; its key does not matter for the length
		r.must("node with something behind", func() { _, err = trie.NodeDataFromBytes(m, extra, []byte{1}, ar, anyReader{}) })
		r.check(err != nil, "decode-silent", "node: bytes behind the node are ignored")
		r.must("node", func() { _, err = trie.NodeDataFromBytes(m, cat(ob.data, nil), []byte{1}, ar, anyReader{}) })
		r.check(err == nil, "decode-error", "node: %v", err)
	}
	n := rng.N(7)
	d := rng.Bytes(n)
	var u16 uint16
	var u32 uint32
	r.must("integers of hostile bytes", func() { u16, err = trie.Uint16From2Bytes(d) })
	r.check((err == nil) == (n == 2) && (err != nil || bytes.Equal(trie.Uint16To2Bytes(u16), d)), "int-codec", "Uint16From2Bytes('%x') = %d, %v", d, u16, err)
	r.must("integers of hostile bytes", func() { u32, err = trie.Uint32From4Bytes(d) })
	r.check((err == nil) == (n == 4) && (err != nil || bytes.Equal(trie.Uint32To4Bytes(u32), d)), "int-codec", "Uint32From4Bytes('%x') = %d, %v", d, u32, err)
	for i, f := range []func(io.Reader) ([]byte, error){trie.ReadBytes8, trie.ReadBytes16, trie.ReadBytes32} {
		pre := 1 << i
		var l uint64
		for j := 0; j < pre && j < len(data); j++ {
			l |= uint64(data[j]) << (8 * j)
		}
		if l > 1<<20 {
			continue
		}
		var b []byte
		r.must("length prefixed hostile bytes", func() { b, err = f(bytes.NewReader(data)) })
		if len(data) < pre || uint64(len(data)-pre) < l {
			r.check(err != nil, "decode-silent", "ReadBytes%d: %d bytes are taken for %d", 8*pre, len(data), l)
		} else {
			r.check(err == nil && bytes.Equal(b, data[pre:pre+int(l)]), "decode-wrong", "ReadBytes%d: '%x' instead of '%x', %v", 8*pre, b, data[pre:pre+int(l)], err)
		}
	}
}

// anyReader has a value for every key
type anyReader struct{}

func (anyReader) Get(_ []byte) []byte { return []byte{1} }
func (anyReader) Has(_ []byte) bool   { return true }

// memkv: the in-memory store against a map
func (w *sWorld) memkv(s *Step, it trie.KVStore, content map[string]string) {
	r := w.r
	rng := &Rng{s: uint64(s.A)*7 + uint64(s.C)}
	cur := cloneMap(content)
	keys := append(sortedKeys(content), "", "\x00", "zz")
	for i := rng.N(20); i > 0; i-- {
		k := keys[rng.N(len(keys))]
		switch rng.N(4) {
		case 0:
			v := string(rng.Bytes(rng.N(4)))
			kb, vb := []byte(k), []byte(v)
			r.must("set", func() { it.Set(kb, vb) })
			scribble(kb)
			scribble(vb)
			if v == "" {
				delete(cur, k)
			} else {
				cur[k] = v
			}
		case 1:
			r.must("delete", func() { it.Set([]byte(k), nil) })
			delete(cur, k)
		default:
			var v []byte
			var ok bool
			r.must("get", func() { v, ok = it.Get([]byte(k)), it.Has([]byte(k)) })
			x, present := cur[k]
			r.check(ok == present && (v != nil) == present && string(v) == x, "memkv", "in-memory store: '%x' = '%x' (%v), expected '%x' (%v)", k, v, ok, x, present)
		}
	}
	got := map[string]string{}
	r.must("iterate", func() {
		it.Iterate(func(k, v []byte) bool { got[string(k)] = string(v); return true })
	})
	r.check(eqMap(got, cur), "memkv", "in-memory store: iteration finds %d pairs, expected %d", len(got), len(cur))
	n, stop := 0, 1+rng.N(3)
	r.must("iterate", func() { it.Iterate(func(k, v []byte) bool { n++; return n < stop }) })
	r.check(n == min(stop, len(cur)), "memkv", "in-memory store: the iteration does not stop: %d of %d", n, stop)
	for _, k := range sortedKeys(cur) { // back to the content
		if _, ok := content[k]; !ok {
			it.Set([]byte(k), nil)
		}
	}
	for _, k := range sortedKeys(content) {
		it.Set([]byte(k), []byte(content[k]))
	}
	r.count("check.memkv")
}

// isRuntimePanic tells an index out of range or nil dereference from an error reported by panic
func isRuntimePanic(v any) bool {
	e, ok := v.(error)
	if !ok {
		return false
	}
	var re runtime.Error
	return errors.As(e, &re)
}

func mutate(rng *Rng, a, b []byte) []byte {
	switch rng.N(12) {
	case 0:
		return rng.Bytes(rng.Pick(0, 1, 2, 3, 5, 20, 60, 200))
	case 1:
		if len(a) > 0 {
			return a[:rng.N(len(a))]
		}
	case 2:
		return append(a, rng.Bytes(1+rng.N(9))...)
	case 3:
		if len(a) > 0 && len(b) > 0 {
			return append(a[:rng.N(len(a))], b[rng.N(len(b)):]...)
		}
	case 4: // a piece is removed
		if len(a) > 2 {
			i := rng.N(len(a) - 1)
			j := min(len(a), i+1+rng.N(4))
			return append(a[:i], a[j:]...)
		}
	case 5: // a piece is inserted
		i := rng.N(len(a) + 1)
		return append(append(cat(a[:i], nil), rng.Bytes(1+rng.N(4))...), a[i:]...)
	case 6: // extreme values at the beginning, where the sizes and the flags are
		for i := 0; i < 1+rng.N(3) && len(a) > 0; i++ {
			a[rng.N(min(len(a), 8))] = byte(rng.Pick(0, 1, 2, 4, 7, 8, 9, 15, 16, 127, 128, 254, 255))
		}
		return a
	}
	for i := 0; i < 1+rng.N(3) && len(a) > 0; i++ {
		if rng.P(1, 2) {
			a[rng.N(len(a))] ^= 1 << rng.N(8)
		} else {
			a[rng.N(len(a))] = byte(rng.U64())
		}
	}
	return a
}

// alloc: memory is not allocated on the word of a damaged length
func (w *sWorld) alloc(s *Step) {
	r := w.r
	if s.B%8 != 0 { // costs a stop of the world
		return
	}
	n := []uint32{0xffffffff, 0x7fffffff, 0x10000000, 0x08000001}[s.A%4]
	data := append(trie.Uint32To4Bytes(n), bytes.Repeat([]byte{7}, s.C%100)...)
	pre := []byte{1, 0, 'k'}
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	var err error
	r.must("stream with damaged length", func() {
		if s.C%2 == 0 {
			_, err = trie.ReadBytes32(bytes.NewReader(data))
		} else {
			err = trie.NewBinaryStreamIterator(bytes.NewReader(append(pre, data...))).Iterate(func(k, v []byte) bool { return true })
		}
	})
	runtime.ReadMemStats(&b)
	r.check(err != nil, "stream-silent", "%d bytes are taken for %d", len(data)-4, n)
	r.check(b.TotalAlloc-a.TotalAlloc < 64<<20, "alloc", "tens of bytes with the damaged length %d: more than 64 MB is allocated", n)
	r.count("check.alloc")
	if s.A%5 == 0 {
		w.allocSetup(s)
	}
}

// allocSetup: setup files of which the size of the domain is damaged or hostile
func (w *sWorld) allocSetup(s *Step) {
	r := w.r
	d := []int{65535, 32769, 258, 1000, 5000}[s.C%5]
	data := make([]byte, 34, 34+192*d)
	data[0], data[1] = byte(d), byte(d>>8)
	if s.A%3 == 0 { // not the natural domain
		om, _ := trie_kzg_bn256.Model.Omega.MarshalBinary()
		copy(data[2:], om)
	}
	full := false
	switch s.A / 3 % 4 {
	case 0:
	case 1: // only some of it
		data = append(data, make([]byte, s.C%1000)...)
	case 2: // zeros
		data = append(data, make([]byte, 192*d)...)
	default:
		if d > 1000 || s.B%7 != 0 {
			return
		}
		full = true
		g1, _ := kSuite.G1().Point().Base().MarshalBinary()
		g2, _ := kSuite.G2().Point().Base().MarshalBinary()
		data = append(append(data, bytes.Repeat(g1, d)...), bytes.Repeat(g2, d)...)
	}
	var a, b runtime.MemStats
	runtime.GC()
	runtime.ReadMemStats(&a)
	var ts *trie_kzg_bn256.TrustedSetup
	var err error
	r.must("hostile setup", func() { ts, err = trie_kzg_bn256.TrustedSetupFromBytes(kSuite, data) })
	if full {
		runtime.GC()
		runtime.ReadMemStats(&b)
		r.check(b.HeapAlloc < a.HeapAlloc+uint64(32<<20+100*len(data)), "alloc", "setup of %d bytes, domain of %d: %d MB is kept", len(data), d, (b.HeapAlloc-a.HeapAlloc)>>20)
	} else {
		runtime.ReadMemStats(&b)
		r.check(err != nil, "setup-silent", "setup of %d bytes with the domain of %d without points is accepted", len(data), d)
		r.check(b.TotalAlloc-a.TotalAlloc < uint64(16<<20+100*len(data)), "alloc", "setup of %d bytes, domain of %d: %d MB is allocated", len(data), d, (b.TotalAlloc-a.TotalAlloc)>>20)
	}
	runtime.KeepAlive(ts)
	runtime.KeepAlive(data)
	r.count("check.alloc_setup")
}

// scratchRoot is the directory for scratch files, preferably in memory: a simulated disk needs no real one
func scratchRoot() string { return os.Getenv("SIMTRIE_SCRATCH") }
