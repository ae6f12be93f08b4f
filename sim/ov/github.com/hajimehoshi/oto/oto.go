//go:build go1.21

package oto

import (
	"errors"
	"msim/rt"
)

// Context is a simulated sound card.
type Context struct {
	dev *rt.AudioDev
	n   *rt.Node
}

type Player struct{ c *Context }

func NewContext(sampleRate, channelNum, bitDepthInBytes, bufferSizeInBytes int) (*Context, error) {
	rt.Y()
	rt.CheckKill()
	n := rt.CurNode()
	if n.Vals["oto"] != nil {
		panic("oto: NewContext can be called only once")
	}
	if f, ok := n.Vals["otofail"].(bool); ok && f {
		rt.S.Fault("audio_device_error")
		return nil, errors.New("oto: device busy")
	}
	fr := channelNum * bitDepthInBytes
	d := &rt.AudioDev{Rate: sampleRate, Frame: fr, BufNS: int64(bufferSizeInBytes/fr) * 1e9 / int64(sampleRate)}
	c := &Context{dev: d, n: n}
	n.Vals["oto"] = c
	n.Vals["dev"] = d
	return c, nil
}

func (c *Context) NewPlayer() *Player { return &Player{c} }
func (c *Context) Close() error       { delete(c.n.Vals, "oto"); return nil }

func (p *Player) Write(buf []byte) (int, error) {
	rt.Y()
	rt.CheckKill()
	if p.c == nil {
		return 0, errors.New("oto: closed player")
	}
	p.c.dev.Play(buf)
	return len(buf), nil
}
func (p *Player) Close() error { p.c = nil; return nil }
