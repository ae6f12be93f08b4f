//go:build go1.21

package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"errors"
	"fmt"
	"github.com/golang/protobuf/proto"
	"io"
	pb "msim/pb/comm"
	"reflect"
)

// The harness speaks the wire format with its own encoder and decoder.

func encode(m proto.Message) []byte {
	inner, err := proto.Marshal(m)
	if err != nil {
		panic(err)
	}
	return frame(proto.MessageName(m), deflate(inner))
}

func deflate(b []byte) []byte {
	var z bytes.Buffer
	w := zlib.NewWriter(&z)
	w.Write(b)
	w.Close()
	return z.Bytes()
}

func frame(typ string, data []byte) []byte {
	env, err := proto.Marshal(&pb.Envelope{Type: typ, Data: data})
	if err != nil {
		panic(err)
	}
	out := make([]byte, 8, 8+len(env))
	binary.LittleEndian.PutUint64(out, uint64(len(env)))
	return append(out, env...)
}

// parser incrementally decodes the byte stream a client receives.
type parser struct {
	buf []byte
	bad error
}

var errBadFrame = errors.New("malformed frame")

func (p *parser) next() (proto.Message, int, error) {
	if p.bad != nil {
		return nil, 0, p.bad
	}
	if len(p.buf) < 8 {
		return nil, 0, nil
	}
	size := binary.LittleEndian.Uint64(p.buf)
	if size > 1<<27 {
		p.bad = fmt.Errorf("%w: length %d", errBadFrame, size)
		return nil, 0, p.bad
	}
	if uint64(len(p.buf)) < 8+size {
		return nil, 0, nil
	}
	env := &pb.Envelope{}
	if err := proto.Unmarshal(p.buf[8:8+size], env); err != nil {
		p.bad = fmt.Errorf("%w: envelope: %v", errBadFrame, err)
		return nil, 0, p.bad
	}
	p.buf = p.buf[8+size:]
	t := proto.MessageType(env.Type)
	if t == nil {
		p.bad = fmt.Errorf("%w: unknown type %q", errBadFrame, env.Type)
		return nil, 0, p.bad
	}
	zr, err := zlib.NewReader(bytes.NewReader(env.Data))
	if err != nil {
		p.bad = fmt.Errorf("%w: zlib: %v", errBadFrame, err)
		return nil, 0, p.bad
	}
	data, err := io.ReadAll(zr)
	if err != nil {
		p.bad = fmt.Errorf("%w: zlib: %v", errBadFrame, err)
		return nil, 0, p.bad
	}
	m := reflect.New(t.Elem()).Interface().(proto.Message)
	if err := proto.Unmarshal(data, m); err != nil {
		p.bad = fmt.Errorf("%w: %s: %v", errBadFrame, env.Type, err)
		return nil, 0, p.bad
	}
	return m, int(size) + 8, nil
}
