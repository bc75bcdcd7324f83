package main

import (
	"errors"
	"io"
)

func newByteReader(b []byte) io.Reader { return &fragReader{data: b} }

// fragReader is a reader over a byte slice which delivers it the way io.Reader is allowed to: in fragments, with zero
// length reads, with EOF together with the last bytes; optionally it fails at an offset
type fragReader struct {
	r      *Run
	data   []byte
	pos    int
	frag   []int // sizes of the next reads, repeated; 0 means (0, nil); empty: no fragmentation
	i      int
	failAt int   // if err != nil: error at this offset
	err    error // error to return
	once   bool  // the error goes away
	eofNow bool  // return EOF together with the last bytes
	zeros  int
	done   bool
}

func (f *fragReader) Read(b []byte) (int, error) {
	if f.r != nil {
		f.r.op()
	}
	if len(b) == 0 {
		return 0, nil
	}
	if f.err != nil && f.pos >= f.failAt {
		if f.r != nil {
			f.r.count("fault.stream_read_error")
		}
		err := f.err
		if f.once {
			f.err = nil
		}
		return 0, err
	}
	if f.pos >= len(f.data) {
		f.done = true
		return 0, io.EOF
	}
	n := len(b)
	if len(f.frag) > 0 {
		k := f.frag[f.i%len(f.frag)]
		f.i++
		if k == 0 {
			if f.zeros++; f.zeros < 50 {
				if f.r != nil {
					f.r.count("fault.zero_read")
				}
				return 0, nil
			}
			k = 1
		}
		if k < n {
			n = k
			if f.r != nil {
				f.r.count("fault.short_read")
			}
		}
	}
	if n > len(f.data)-f.pos {
		n = len(f.data) - f.pos
	}
	if f.err != nil && f.pos+n > f.failAt {
		n = f.failAt - f.pos
	}
	copy(b, f.data[f.pos:f.pos+n])
	f.pos += n
	if f.eofNow && f.pos == len(f.data) && f.err == nil {
		f.done = true
		return n, io.EOF
	}
	return n, nil
}

// faultWriter keeps what has been written; it fails, possibly in the middle of a write, at an offset
type faultWriter struct {
	r      *Run
	data   []byte
	failAt int // -1: never
	err    error
	hit    bool
	once   bool // only one write fails
}

func (w *faultWriter) Write(b []byte) (int, error) {
	w.r.op()
	if w.failAt >= 0 && len(w.data)+len(b) > w.failAt {
		n := w.failAt - len(w.data)
		if n < 0 {
			n = 0
		}
		w.data = append(w.data, b[:n]...)
		w.hit = true
		w.r.count("fault.stream_write_error")
		if n > 0 {
			w.r.count("fault.partial_write")
		}
		if w.once {
			w.failAt = -1
			w.r.count("fault.transient_write_error")
		}
		return n, w.err
	}
	w.data = append(w.data, b...)
	return len(b), nil
}

func isInjected(err error) bool {
	var inj *injected
	return err != nil && (asInjected(err, &inj) || errors.As(err, &inj))
}
