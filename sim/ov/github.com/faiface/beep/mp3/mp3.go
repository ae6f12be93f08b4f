//go:build go1.21

// Package mp3 is the real decoder, plus a trivial container ("SIMSONG1") for
// synthetic songs whose every sample is known. Synthetic songs are read from
// the (faulty) simulated disk block by block while they stream.
package mp3

import (
	"bytes"
	"encoding/binary"
	"errors"
	"github.com/faiface/beep"
	real "github.com/faiface/beep/mp3"
	"io"
	"msim/rt"
)

var Magic = []byte("SIMSONG1")

// Decode decodes a file.
func Decode(rc io.ReadCloser) (beep.StreamSeekCloser, beep.Format, error) {
	var head [10]byte
	sk, seekable := rc.(io.Seeker)
	if !seekable {
		return real.Decode(rc)
	}
	if _, err := io.ReadFull(rc, head[:]); err != nil {
		return nil, beep.Format{}, errors.New("mp3: " + err.Error())
	}
	off := int64(0)
	if bytes.Equal(head[:3], []byte("ID3")) {
		off = 10 + (int64(head[6])<<21 | int64(head[7])<<14 | int64(head[8])<<7 | int64(head[9]))
	}
	if _, err := sk.Seek(off, 0); err != nil {
		return nil, beep.Format{}, errors.New("mp3: " + err.Error())
	}
	var hd [12]byte
	if _, err := io.ReadFull(rc, hd[:]); err != nil {
		return nil, beep.Format{}, errors.New("mp3: " + err.Error())
	}
	if !bytes.Equal(hd[:8], Magic) {
		if _, err := sk.Seek(0, 0); err != nil {
			return nil, beep.Format{}, err
		}
		s, f, err := real.Decode(rc)
		return s, f, err
	}
	n := int(binary.LittleEndian.Uint32(hd[8:]))
	return &song{rc: rc, sk: sk, base: off + 12, n: n}, beep.Format{SampleRate: 44100, NumChannels: 2, Precision: 2}, nil
}

type song struct {
	rc   io.ReadCloser
	sk   io.Seeker
	base int64
	n    int
	pos  int
	err  error
	cl   bool
}

func (s *song) Stream(out [][2]float64) (n int, ok bool) {
	rt.Y()
	if s.err != nil || s.cl {
		return 0, false
	}
	want := s.n - s.pos
	if want > len(out) {
		want = len(out)
	}
	buf := make([]byte, want*4)
	k, err := io.ReadFull(s.rc, buf)
	if want > 0 && err != nil {
		s.err = err
	}
	for i := 0; i < k/4; i++ {
		if string(buf[i*4:i*4+4]) == "!BAD" {
			rt.S.Fault("song_malformed")
			panic("runtime error: index out of range (malformed song)")
		}
		l := int16(binary.LittleEndian.Uint16(buf[i*4:]))
		r := int16(binary.LittleEndian.Uint16(buf[i*4+2:]))
		out[i] = [2]float64{float64(l) / (1 << 15), float64(r) / (1 << 15)}
	}
	n = k / 4
	s.pos += n
	return n, n > 0
}
func (s *song) Err() error    { return s.err }
func (s *song) Len() int      { return s.n }
func (s *song) Position() int { return s.pos }
func (s *song) Seek(p int) error {
	if p < 0 || p > s.n {
		return errors.New("mp3: seek out of range")
	}
	_, err := s.sk.Seek(s.base+int64(p)*4, 0)
	s.pos = p
	return err
}
func (s *song) Close() error { s.cl = true; return s.rc.Close() }
