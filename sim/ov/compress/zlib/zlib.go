//go:build go1.21

// Package zlib is the real compress/zlib with compressor state reuse: the
// repository allocates one compressor per message, which dominates a simulated
// run; the bytes produced are those of the real package.
package zlib

import (
	real "compress/zlib"
	"io"
	"msim/rt"
)

type Writer struct {
	w      *real.Writer
	level  int
	closed bool
}

var pool = map[int][]*real.Writer{}

func NewWriter(w io.Writer) *Writer {
	z, _ := NewWriterLevel(w, real.DefaultCompression)
	return z
}

func NewWriterLevel(w io.Writer, level int) (*Writer, error) {
	if l := pool[level]; len(l) > 0 {
		z := l[len(l)-1]
		pool[level] = l[:len(l)-1]
		z.Reset(w)
		return &Writer{w: z, level: level}, nil
	}
	z, err := real.NewWriterLevel(w, level)
	if err != nil {
		return nil, err
	}
	return &Writer{w: z, level: level}, nil
}

func (z *Writer) Write(p []byte) (int, error) { return z.w.Write(p) }
func (z *Writer) Flush() error                { return z.w.Flush() }
func (z *Writer) Reset(w io.Writer)           { z.w.Reset(w) }
func (z *Writer) Close() error {
	if z.closed {
		return nil
	}
	err := z.w.Close()
	z.closed = true
	if len(pool[z.level]) < 16 {
		pool[z.level] = append(pool[z.level], z.w)
		z.w, _ = real.NewWriterLevel(io.Discard, real.NoCompression)
	}
	return err
}

type reader struct {
	r      io.ReadCloser
	closed bool
	n      int64
}

// memory is what a simulated machine has for one message.
const memory = 400 << 20

var rpool []io.ReadCloser

func NewReader(r io.Reader) (io.ReadCloser, error) {
	if n := len(rpool); n > 0 {
		z := rpool[n-1]
		rpool = rpool[:n-1]
		if err := z.(real.Resetter).Reset(r, nil); err != nil {
			return nil, err
		}
		return &reader{r: z}, nil
	}
	z, err := real.NewReader(r)
	if err != nil {
		return nil, err
	}
	return &reader{r: z}, nil
}

func (z *reader) Read(p []byte) (int, error) {
	n, err := z.r.Read(p)
	if z.n += int64(n); z.n > memory {
		rt.S.Fault("out_of_memory")
		panic("runtime: out of memory: a message was inflated to more than 400 MB")
	}
	return n, err
}
func (z *reader) Close() error {
	if z.closed {
		return nil
	}
	z.closed = true
	err := z.r.Close()
	if err == nil && len(rpool) < 16 {
		rpool = append(rpool, z.r)
	}
	return err
}
