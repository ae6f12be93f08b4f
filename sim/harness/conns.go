//go:build go1.21

package main

import (
	"fmt"
	"github.com/golang/protobuf/proto"
	pb "msim/pb/comm"
	"sort"
)

// ConnView is what one connection of a protocol client sent and received.
type ConnView struct {
	Name  string
	I     int
	C     *RawConn
	Msgs  []RawMsg
	Stall [][2]int64 // when the client did not read
	Foul  bool       // it sent something that is not a well-formed message
}

func (v *ConnView) String() string { return fmt.Sprintf("%s (connection %d)", v.Name, v.I) }

// conns lists the connections of all clients with the given name prefix.
func (w *World) conns(prefix ...string) []*ConnView {
	var names []string
	for n := range w.Raws {
		for _, p := range prefix {
			if len(n) >= len(p) && n[:len(p)] == p {
				names = append(names, n)
			}
		}
	}
	sort.Strings(names)
	var out []*ConnView
	for _, n := range names {
		r := w.Raws[n]
		for i, c := range r.Conns {
			v := &ConnView{Name: n, I: i, C: c}
			for _, m := range r.Msgs {
				if m.Conn == i {
					v.Msgs = append(v.Msgs, m)
				}
			}
			for _, o := range w.Sc.Ops {
				if o.Act == n && o.At >= c.Open-ms && (i+1 >= len(r.Conns) || o.At < r.Conns[i+1].Open-ms) && o.Do == "stall" {
					v.Stall = append(v.Stall, [2]int64{o.At, o.At + o.M})
				}
			}
			for _, s := range c.Sent {
				if s.Kind == "bytes" {
					v.Foul = true
				}
			}
			out = append(out, v)
		}
	}
	return out
}

// subAt is when the connection first asked for a channel (0: never).
func (v *ConnView) subAt(ch int) int64 {
	for _, s := range v.C.Subs {
		if s.Ch == ch && !s.Failed {
			return s.T
		}
	}
	return 0
}

func (v *ConnView) subs(ch int) (n int) {
	for _, s := range v.C.Subs {
		if s.Ch == ch {
			n++
		}
	}
	return
}

func (v *ConnView) closed(w *World) int64 {
	if v.C.Closed > 0 {
		return v.C.Closed
	}
	return w.end
}

func (v *ConnView) stalledIn(a, b int64) bool {
	for _, s := range v.Stall {
		if s[0] < b && s[1] > a {
			return true
		}
	}
	return false
}

// reach bounds how long a message between a client and the server is under way.
func (w *World) reach() int64 {
	sc := w.Sc
	one := sc.Net.LatMax + sc.Net.Jitter
	for _, l := range sc.Net.Lat {
		if l+sc.Net.Jitter > one {
			one = l + sc.Net.Jitter
		}
	}
	return w.margin() + 20*one + 200*ms
}

// overdue reports whether a command that was not answered should have been before the run ended.
func (w *World) overdue(c *Cmd) bool { return c.CallT+2*sec+w.reach() < w.end }

func chOf(m proto.Message) []int {
	switch m.(type) {
	case *pb.QueueChunkRequest:
		return []int{0}
	case *pb.SetVolumeRequest:
		return []int{0, 1}
	case *pb.ChunkInfo, *pb.NewSongInfo, *pb.PauseInfo:
		return []int{1}
	}
	return nil
}

// msgKey identifies a broadcast message.
func msgKey(m proto.Message) string {
	switch x := m.(type) {
	case *pb.QueueChunkRequest:
		return fmt.Sprintf("chunk %d", x.ChunkId)
	case *pb.ChunkInfo:
		return fmt.Sprintf("info of chunk at sample %d", x.FirstSampleIndex)
	case *pb.NewSongInfo:
		return fmt.Sprintf("song at sample %d", x.FirstSampleOfSongIndex)
	case *pb.PauseInfo:
		return fmt.Sprintf("toggle at sample %d", x.ToggleSampleIndex)
	}
	return ""
}

func wireBytes(m proto.Message) string {
	b, _ := proto.Marshal(m)
	return string(b)
}

// routing judges which messages connections received: only what they asked for, with the
// contents everyone else got, chunks and their announcements once.
func (w *World) routing(vs []*ConnView) {
	content := map[string]string{}
	for _, m := range w.Raws["obs"].Msgs {
		if k := msgKey(m.M); k != "" {
			content[k] = wireBytes(m.M)
		}
	}
	for _, v := range vs {
		pings, tsyncs := 0, 0
		pongs, tsrs := 0, 0
		seen := map[string]int{}
		si := 0
		for _, m := range v.Msgs {
			for si < len(v.C.Sent) && v.C.Sent[si].Q < m.Q {
				switch v.C.Sent[si].Kind {
				case "ping":
					pings++
				case "batch":
					pings += int(v.C.Sent[si].V)
				case "tsync":
					tsyncs++
				case "bytes": // may contain anything
					pings, tsyncs = pings+1000, tsyncs+1000
				}
				si++
			}
			switch m.M.(type) {
			case *pb.PongMessage:
				if pongs++; pongs > pings {
					w.viol("route:pong", "%s received %d pongs for %d pings", v, pongs, pings)
					return
				}
				continue
			case *pb.TimeSyncResponse:
				if tsrs++; tsrs > tsyncs {
					w.viol("route:tsync", "%s received %d time sync responses for %d requests", v, tsrs, tsyncs)
					return
				}
				continue
			}
			chs := chOf(m.M)
			if chs == nil {
				w.viol("route:unexpected", "%s received %s", v, brief(m.M))
				return
			}
			ok := false
			for _, s := range v.C.Subs {
				for _, ch := range chs {
					if s.Ch == ch && s.Q < m.Q {
						ok = true
					}
				}
			}
			if !ok && !v.Foul {
				w.viol("route:unsubscribed", "%s received %s without having subscribed to it", v, brief(m.M))
				return
			}
			k := msgKey(m.M)
			if k == "" {
				continue
			}
			seen[k]++
			max := 1
			switch m.M.(type) {
			case *pb.NewSongInfo, *pb.PauseInfo:
				max = 1 + v.subs(1)
			}
			if seen[k] > max {
				w.viol("route:repeated", "%s received %s %d times", v, brief(m.M), seen[k])
				return
			}
			if c, ok := content[k]; ok && c != wireBytes(m.M) {
				w.viol("route:content", "%s received a different %s than another client: %s", v, k, brief(m.M))
				return
			}
		}
		w.notes["conns_routed"]++
	}
}

// delivered judges that connections received everything the observer received while they
// were subscribed.
func (w *World) delivered(vs []*ConnView) {
	obs := w.Raws["obs"].Msgs
	rc := w.reach() + 500*ms
	for _, v := range vs {
		if v.C.Bad != nil || v.Foul {
			continue
		}
		have := map[string]bool{}
		for _, m := range v.Msgs {
			have[msgKey(m.M)] = true
		}
		end := v.closed(w) - rc
		for _, s := range v.Stall { // what is under way during a stall at the end is not judged
			if s[1]+rc > end && s[0]-rc < end {
				end = s[0] - rc
			}
		}
		for _, ch := range []int{0, 1} {
			t := v.subAt(ch)
			if t == 0 {
				continue
			}
			for _, m := range obs {
				k := msgKey(m.M)
				if k == "" || m.T < t+rc || m.T > end || chOf(m.M)[0] != ch {
					continue
				}
				if !have[k] {
					w.viol("route:lost", "%s subscribed at %.3f s never received %s, which another client received at %.3f s", v, float64(t)/1e9, brief(m.M), float64(m.T)/1e9)
					return
				}
				w.notes["deliveries"]++
			}
		}
	}
}

// answered judges that every request of a connection was answered, in order.
func (w *World) answered(vs []*ConnView) {
	srv := w.N["srv"]
	for _, v := range vs {
		if v.C.Bad != nil || v.Foul {
			continue
		}
		end := v.closed(w) - w.reach()
		pings, pongs := 0, 0
		var reqs []SentRec
		for _, s := range v.C.Sent {
			if s.Err != "" || s.T > end {
				continue
			}
			switch s.Kind {
			case "ping":
				pings++
			case "batch":
				pings += int(s.V)
			case "tsync":
				reqs = append(reqs, s)
			}
		}
		k := 0
		for _, m := range v.Msgs {
			switch x := m.M.(type) {
			case *pb.PongMessage:
				pongs++
			case *pb.TimeSyncResponse:
				if k >= len(reqs) {
					k++
					continue
				}
				q := reqs[k]
				k++
				if x.ClientSendTime != q.V {
					w.viol("tsync:echo", "%s: response %d echoes %d, the request carried %d", v, k, x.ClientSendTime, q.V)
					return
				}
				lo, hi := srv.MonoAt(q.T), srv.MonoAt(m.T)
				if x.ServerRecvTime < lo-1e6 || x.ServerSendTime > hi+1e6 || x.ServerRecvTime > x.ServerSendTime {
					w.viol("tsync:time", "%s: response %d carries server times %d and %d, the exchange took place between %d and %d of the server's clock", v, k, x.ServerRecvTime, x.ServerSendTime, lo, hi)
					return
				}
			}
		}
		if len(v.Stall) > 0 {
			continue
		}
		if pongs < pings {
			w.viol("ping:lost", "%s sent %d pings and received %d pongs", v, pings, pongs)
			return
		}
		if k < len(reqs) {
			w.viol("tsync:lost", "%s sent %d time sync requests and received %d responses", v, len(reqs), k)
			return
		}
		w.notes["requests"] += int64(pings + len(reqs))
	}
}

// wellFormed judges that nothing malformed was received.
func (w *World) wellFormed(vs []*ConnView) {
	for _, v := range vs {
		if v.C.Bad != nil {
			w.viol("wire:malformed", "%s received bytes that are no message: %v", v, v.C.Bad)
			return
		}
	}
}

// dropped judges that the server ends no connection without a reason.
func (w *World) dropped(vs []*ConnView) {
	for _, v := range vs {
		if v.C.ByUs || v.C.Closed == 0 || v.Foul || len(w.downs) > 0 || v.C.Bad != nil {
			continue
		}
		hc := v.C.Half
		for _, o := range w.Sc.Ops {
			if o.Act == "net" && o.Do == "reset" {
				hc = true
			}
		}
		long := false
		for _, s := range v.Stall {
			if s[1]-s[0] > 8*sec {
				long = true
			}
		}
		if !hc && !long {
			w.viol("conn:dropped", "the server ended the connection of %s at %.3f s: %s", v, float64(v.C.Closed)/1e9, v.C.CloseErr)
			return
		}
	}
}

// inStep judges that chunks reach a client in order and keep pace with the clock: each is
// received soon after it was due to be sent.
func (w *World) inStep(st *Stream, slack int64, from int64) {
	sc := w.Sc
	ct := int64(sc.Srv.Chunk) * sec / int64(sc.Srv.Rate)
	srv := w.N["srv"]
	for _, c := range st.Chunks {
		if c.T < from {
			continue
		}
		due := srv.TrueOf(c.Start - sc.Srv.Delay + ct)
		if c.T > due+slack {
			w.viol("pace:late", "chunk %d was received %.0f ms after it was due", c.ID, float64(c.T-due)/1e6)
			return
		}
		if c.T < due-5*ms-ct/100 {
			w.viol("pace:early", "chunk %d was received %.0f ms before it was due", c.ID, float64(due-c.T)/1e6)
			return
		}
	}
}

// badBytes is something a broken or malicious client may send.
func (g *G) badBytes() []byte {
	random := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(g.U64())
		}
		return b
	}
	le := func(n uint64, rest ...byte) []byte {
		b := make([]byte, 8)
		for i := range b {
			b[i] = byte(n >> (8 * i))
		}
		return append(b, rest...)
	}
	ok := encode(&pb.PingMessage{})
	switch g.N(14) {
	case 0:
		return random(g.Range(1, 40))
	case 1:
		return random(g.Range(100, 5000))
	case 2:
		return le(1<<63+g.U64()>>1, random(8)...)
	case 3:
		return le(uint64(1)<<g.Range(20, 27), random(g.N(100))...)
	case 4:
		return le(0)
	case 5:
		return ok[:g.Range(1, len(ok)-1)]
	case 6:
		return frame("comm.NoSuchMessage", deflate([]byte{1}))
	case 7:
		return frame("", nil)
	case 8:
		return frame("comm.TimeSyncRequest", []byte("not compressed"))
	case 9:
		return frame("comm.TimeSyncRequest", deflate(random(g.Range(1, 30))))
	case 10:
		z := deflate(random(200))
		return frame("comm.SubscribeChannelRequest", z[:len(z)/2])
	case 11: // a valid message with one byte changed
		b := append([]byte(nil), ok...)
		b[g.N(len(b))] ^= byte(1 << g.N(8))
		return b
	case 12:
		return frame("comm.Envelope", deflate(nil))
	}
	return []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n")
}
