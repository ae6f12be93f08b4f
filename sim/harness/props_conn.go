//go:build go1.21

package main

import (
	"fmt"
	pb "msim/pb/comm"
	"strings"
)

// goodClient connects, subscribes to something and makes requests until it leaves.
func (g *G) goodClient(a string, at, until int64) {
	sc := g.sc
	sc.add(Op{At: at, Act: a, Do: "connect", N: 20})
	t := at
	gap := func() int64 { return g.pick64(0, 0, 1*ms, 20*ms, g.dur(0, 400*ms)) }
	subs := [][]int64{{0}, {1}, {0, 1}, {1, 0}, {1, 0}, {0, 1}, {1, 1}, {0, 0, 1}}[g.N(8)]
	for _, s := range subs {
		t += gap()
		sc.add(Op{At: t, Act: a, Do: "sub", N: s})
	}
	for n := g.N(6); n > 0; n-- {
		t += gap()
		switch g.N(4) {
		case 0:
			sc.add(Op{At: t, Act: a, Do: "ping"})
		case 1, 2:
			sc.add(Op{At: t, Act: a, Do: "tsync", N: int64(g.N(1000))})
		case 3:
			sc.add(Op{At: t, Act: a, Do: "batch", N: int64(g.Range(2, 40))})
		}
	}
	if until > 0 {
		if until < t {
			until = t + 10*ms
		}
		sc.add(Op{At: until, Act: a, Do: g.pickS("close", "abort", "halfclose")})
	}
}

// badClient does what no well-behaved client would.
func (g *G) badClient(a string, lo, hi int64) {
	sc := g.sc
	t := g.dur(lo, hi)
	for k := g.Range(1, 4); k > 0 && t < hi; k-- {
		sc.add(Op{At: t, Act: a, Do: "connect", N: 3})
		t += g.pick64(0, 1*ms, 50*ms)
		for j := g.Range(1, 4); j > 0; j-- {
			switch g.N(7) {
			case 0, 1:
				sc.add(Op{At: t, Act: a, Do: "bytes", B: g.badBytes()})
			case 2:
				sc.add(Op{At: t, Act: a, Do: "msg", N: int64(g.N(9))})
			case 3, 4:
				sc.add(Op{At: t, Act: a, Do: "sub", N: int64(g.N(2))})
				sc.add(Op{At: t + g.pick64(0, 0, 10*ms, 500*ms), Act: a, Do: "stall", M: g.pick64(500*ms, 5*sec, 15*sec, 60*sec)})
			case 5:
				sc.add(Op{At: t, Act: a, Do: "batch", N: int64(g.Range(100, 3000))})
			case 6:
				sc.add(Op{At: t, Act: a, Do: "sub", N: g.pick64(0, 1, 2, 77)})
			}
			t += g.pick64(0, 1*ms, 100*ms)
		}
		if g.P(0.8) {
			t += g.dur(0, (hi-lo)/2)
			sc.add(Op{At: t, Act: a, Do: g.pickS("close", "abort", "halfclose", "abort")})
		}
		t += g.dur(0, (hi-lo)/3)
	}
	if g.P(0.2) { // never reads what its first subscription brings
		t := g.dur(lo, hi)
		if g.P(0.7) {
			t = g.dur(min64(g.musicAt(lead), hi-sec), hi)
		}
		sc.add(Op{At: t, Act: a, Do: "connect", N: 3, F: float64(g.pickI(200, 600, 3000))})
		sc.add(Op{At: t + 20*ms, Act: a, Do: "stall", M: g.pick64(2*sec, 8*sec, 60*sec)})
		sc.add(Op{At: t + 40*ms, Act: a, Do: "sub", N: int64(g.pickI(0, 1, 1, 1))})
	}
	if g.P(0.015) {
		sc.add(Op{At: t, Act: a, Do: "connect", N: 3})
		sc.add(Op{At: t, Act: a, Do: "bomb", N: 450})
	}
}

func init() {
	register(&Prop{ID: "P08", Quick: 1600, Deep: 40000,
		Rule: "Up to three operators set volumes (all different, some malformed) at the same time as subscribers, players and infoers join or leave; whenever no change is under way, everyone must have been told the same volume, one that the latest commands asked for.",
		Gen: func(g *G) {
			sc := g.sc
			hi := 4 * sec
			if g.P(0.2) { // players that are slow to start or to handle what they are told
				g.concert(2, 500, 4000)
				sc.Srv.Chunk = sc.Srv.Rate
				sc.Srv.Delay = max64(sc.Srv.Delay, 3*sec)
				sc.Net.LatMin, sc.Net.LatMax, sc.Net.Jitter, sc.Net.Window = 20e3, 30e3, 0, 1<<18
				sc.Sched.LazyP, sc.Sched.StallMax = []float64{0.1, 0.3, 0.6}[g.N(3)], g.pick64(2, 10, 25)*ms
				sc.End = g.musicAt(lead+g.total()) + sc.Srv.Delay + 5*sec
				v := 11
				for t, n := g.dur(100*ms, 2*sec), g.Range(1, 4); n > 0; n-- {
					for k := g.Range(1, 3); k > 0; k-- {
						g.cmd(t, "ssh1", fmt.Sprintf("volume 0.%02d", v))
						v += g.Range(3, 6)
					}
					t += g.dur(sec, 4*sec)
				}
				return
			}
			if g.P(0.3) {
				g.concert(1, 500, 6000)
				sc.Net.Window = 1 << 18
				hi = sc.End - 5*sec
				sc.Ops = append([]Op(nil), sc.Ops...)
			} else {
				g.base()
				g.obs()
				g.open("ssh1")
				sc.End = hi + 4*sec
				if sc.Net.Window < 1<<16 {
					sc.Net.Window = 1 << 16
				}
				if g.P(0.4) {
					sc.add(Op{At: g.dur(10*ms, hi), Act: "p1", Do: "start"})
					g.clock("p1", true)
				}
			}
			g.someStalls()
			n := g.Range(1, 3)
			for i := 2; i <= n; i++ {
				g.open(fmt.Sprintf("ssh%d", i))
			}
			if g.P(0.4) { // the volume changes in the instant others join
				g.calm()
				t, i := 60*ms, 0
				for b := g.Range(2, 8); b > 0; b-- {
					t += g.dur(50*ms, 300*ms)
					g.cmd(t, fmt.Sprintf("ssh%d", 1+g.N(n)), fmt.Sprintf("volume 0.%02d", 10+10*b+g.N(9)))
					for k := g.Range(1, 5); k > 0; k-- {
						i++
						a := fmt.Sprintf("raw%d", i)
						at := t - g.dur(5*ms, 40*ms)
						sc.add(Op{At: at, Act: a, Do: "connect", N: 20})
						if g.P(0.3) { // or leave
							sc.add(Op{At: at + 2*ms, Act: a, Do: "sub", N: int64(g.N(2))})
							sc.add(Op{At: t + g.dur(0, g.pick64(1, 10e3, 100e3)), Act: a, Do: g.pickS("abort", "abort", "close")})
							continue
						}
						sc.add(Op{At: t + g.dur(0, g.pick64(10e3, 40e3, 200e3)), Act: a, Do: "sub", N: int64(g.N(2))})
					}
				}
				return
			}
			val := 25
			k := g.Range(1, 12)
			var when []int64
			t := g.dur(60*ms, hi)
			for ; k > 0; k-- {
				if g.P(0.3) {
					t = g.dur(60*ms, hi)
				} else {
					t += g.pick64(0, 0, 100e3, 1*ms, 20*ms)
				}
				when = append(when, t)
				val += g.Range(1, 10)
				l := fmt.Sprintf("volume 0.%02d", val%100)
				if val >= 100 {
					l = fmt.Sprintf("volume %d.%02d", val/100, val%100)
				}
				if g.P(0.15) { // very loud, very quiet
					l = fmt.Sprintf("volume %s%d", g.pickS("1", "4.", "7", "0.00", "1e-3", "+", "12.0"), val)
				}
				switch g.N(10) {
				case 0:
					l = g.pickS("volume", "volume loud", "volume 0,5", "volume ''")
				case 1:
					l += " 7"
				}
				g.cmd(t, fmt.Sprintf("ssh%d", 1+g.N(n)), l)
			}
			for i := 1; i <= g.Range(1, 4); i++ {
				at := g.dur(2*ms, hi)
				if g.P(0.7) {
					if at = when[g.N(len(when))] + g.pick64(-30*ms, -5*ms, -1*ms, 0, 1*ms, 5*ms); at < ms {
						at = ms
					}
				}
				until := int64(0)
				if g.P(0.3) {
					until = g.dur(at, sc.End)
				}
				g.goodClient(fmt.Sprintf("raw%d", i), at, until)
			}
			if g.P(0.4) {
				sc.add(Op{At: max64(ms, when[g.N(len(when))]-g.dur(0, 300*ms)), Act: "i1", Do: "start"})
			}
			if g.P(0.15) { // a client that would set the volume itself
				at := g.dur(2*ms, hi)
				sc.add(Op{At: at, Act: "raw9", Do: "connect", N: 20})
				for k := g.Range(1, 3); k > 0; k-- {
					at += g.dur(2*ms, sec)
					sc.add(Op{At: at, Act: "raw9", Do: g.pickS("msg", "msg", "sub"), N: 3})
				}
			}
		},
		Judge: func(w *World) { w.judgeVolume() }})

	register(&Prop{ID: "P12", Quick: 1600, Deep: 40000,
		Rule: "2-5 protocol clients connect, subscribe to audio, metadata, both, twice or to channels that do not exist, make requests and leave in every way while songs play and operators pause, jump and set the volume; what each connection received is compared with its subscriptions and with what the observer received.",
		Gen: func(g *G) {
			sc := g.sc
			g.musicBase(g.Range(1, 3), 200, 5000)
			if sc.Net.Window < 1<<17 {
				sc.Net.Window = 1 << 17
			}
			g.someStalls()
			g.cmd(50*ms, "ssh1", "queue *.mp3")
			g.cmd(60*ms, "ssh1", "resume")
			sc.End = g.musicAt(lead+g.total()) + 4*sec
			lo, hi := g.musicAt(lead-9000), sc.End-4*sec
			g.playCmds(g.Range(0, 8), g.Range(1, 2), max64(lo, 100*ms), hi, "pause", "pause", "jump", "volume")
			for i := 1; i <= g.Range(2, 5); i++ {
				a := fmt.Sprintf("raw%d", i)
				at := g.dur(ms, hi)
				if g.P(0.5) {
					at = g.dur(max64(ms, lo), hi)
				}
				until := int64(0)
				if g.P(0.6) {
					until = g.dur(at, sc.End)
				}
				g.goodClient(a, at, until)
				if g.P(0.3) {
					sc.add(Op{At: at + g.dur(0, sec), Act: a, Do: "msg", N: int64(g.N(9))})
				}
				if g.P(0.2) {
					sc.add(Op{At: at + g.dur(0, 2*sec), Act: a, Do: "stall", M: g.pick64(100*ms, 2*sec)})
				}
				if until > 0 && g.P(0.4) {
					g.goodClient(a, until+g.dur(10*ms, sec), 0)
				}
			}
			if g.P(0.35) { // a crowd comes and goes
				for k := g.Range(1, 4); k > 0; k-- {
					n := g.Range(3, 9)
					t0 := g.dur(ms, hi-sec)
					t1 := t0 + g.dur(50*ms, sec)
					end := g.pickS("close", "abort", "close")
					for i := 0; i < n; i++ {
						a := fmt.Sprintf("raw%d", 10+10*k+i)
						at := t0
						if g.P(0.3) { // comes when the others go
							at = t1
						}
						sc.add(Op{At: at, Act: a, Do: "connect", N: 20})
						if g.P(0.7) {
							sc.add(Op{At: at + g.pick64(0, ms), Act: a, Do: "sub", N: int64(g.N(2))})
						}
						if at == t0 && g.P(0.8) {
							sc.add(Op{At: t1, Act: a, Do: end})
						}
					}
				}
				if g.P(0.7) {
					sc.Net.LatMax, sc.Net.Jitter = sc.Net.LatMin, 0
				}
			}
		},
		Judge: func(w *World) {
			w.basics()
			if len(w.V) > 0 {
				return
			}
			vs := w.conns("raw")
			w.wellFormed(vs)
			w.routing(vs)
			if len(w.V) == 0 {
				w.delivered(vs)
				w.dropped(vs)
			}
			if w.notes["deliveries"] > 0 {
				w.notes["judged"]++
			}
		}})

	register(&Prop{ID: "P10", Quick: 900, Deep: 40000,
		Rule: "Networks that dribble messages in tiny segments, short reads, small windows that let writers block in the middle of a message, and clients that make many requests at once while chunks, announcements and volume changes are sent to them from several goroutines; every byte received must belong to an intact message, every request must be answered once, in order, with the right contents; a player on the same network must play every sample.",
		Gen: func(g *G) {
			sc := g.sc
			g.concert(1, 200, 4000)
			if g.P(0.3) {
				var ops []Op
				for _, o := range sc.Ops {
					if o.Act != "p1" {
						ops = append(ops, o)
					}
				}
				sc.Ops = ops
				g.netw()
				g.someStalls()
			}
			n := &sc.Net
			n.SegTiny = g.pickI(1, 2, 4)
			n.ShortRead = g.pickI(1, 2, 4)
			n.SegMax = g.pickI(1, 7, 64, 1460, 1<<16)
			if n.SegMax < 64 {
				n.SegMax = 64 << g.N(4)
				n.SegTiny = 1
			}
			pause := "pause"
			if g.P(0.04) { // messages of megabytes
				pause = "volume" // a player that drops minutes of silence at once looks like one that spins
				s := &sc.Srv
				g.calm() // wake-ups that take long add up at this rate
				sc.Sched.StallP, sc.Sched.PreP, sc.Sched.UnlP, sc.Sched.RmwP, sc.Sched.LazyP, sc.Sched.StallMax = 0, 0, 0, 0, 0, 0
				s.Rate, s.Chunk = 44100, g.Range(30000, 180000)
				ct := int64(s.Chunk) * sec / int64(s.Rate)
				s.Delay = max64(s.Delay, 3*ct)
				n.SegTiny, n.ShortRead, n.SegMax = 0, 0, g.pickI(1460, 1<<16)
				for len(sc.Songs) < 8 {
					g.songs(1, 4000, 20000)
				}
				sc.End = g.musicAt(lead+g.total()) + s.Delay + 6*ct
			}
			rate := int64(sc.Srv.Rate) * 20
			rtt := 2 * (n.LatMax + n.Jitter)
			n.Window = g.pickI(150, 300, 600, 1200, 2400, 20000, 1<<18)
			for int64(n.Window)*sec/rtt < 3*rate {
				n.Window *= 2
			}
			hi := sc.End - 5*sec
			for i := 1; i <= g.Range(1, 4); i++ {
				a := fmt.Sprintf("raw%d", i)
				at := g.dur(ms, hi)
				g.goodClient(a, at, 0)
				for k := g.Range(1, 8); k > 0; k-- {
					t := at + g.dur(0, 2*sec)
					for j := g.Range(1, 5); j > 0; j-- {
						sc.add(Op{At: t, Act: a, Do: g.pickS("ping", "tsync", "batch", "tsync"), N: int64(g.Range(1, 30))})
					}
				}
				if g.P(0.25) { // writers give up in the middle of a message
					sc.add(Op{At: at + g.dur(ms, 3*sec), Act: a, Do: "stall", M: g.pick64(sec, 6*sec, 11*sec, 13*sec, 20*sec)})
				}
			}
			g.playCmds(g.Range(1, 10), g.Range(1, 3), max64(g.musicAt(lead-9000), 100*ms), hi, pause, "volume", "jump")
			for i := range sc.Ops {
				if strings.HasPrefix(sc.Ops[i].S, "volume") {
					sc.Ops[i].S = "volume 1"
				}
			}
		},
		Judge: func(w *World) {
			vs := w.conns("raw", "obs")
			w.wellFormed(vs)
			if len(w.V) > 0 {
				return
			}
			st := w.basics()
			if st == nil || len(w.V) > 0 {
				return
			}
			vs = w.conns("raw")
			w.routing(vs)
			w.answered(vs)
			w.dropped(vs)
			for _, a := range w.auds(st) {
				w.complete(a, st, w.heard(a), w.end-sec, 20*ms, nil)
			}
			if w.notes["requests"] > 0 {
				w.notes["judged"]++
			}
		}})

	register(&Prop{ID: "P09", Quick: 300, Deep: 30000,
		Rule: "1-4 hostile or broken clients send garbage, oversized, truncated and misplaced messages, flood requests, subscribe and stop reading, half-close, reset and reconnect while songs play; the observer's stream, a well-behaved subscriber, a player and the operators must not notice, and a client that connects afterwards is served.",
		Gen: func(g *G) {
			sc := g.sc
			g.concert(1, 500, 6000)
			sc.Net.Window = g.pickI(4096, 20000, 1<<16, 1<<18)
			rate := int64(sc.Srv.Rate) * 40
			for int64(sc.Net.Window)*sec/(2*(sc.Net.LatMax+sc.Net.Jitter)) < 3*rate {
				sc.Net.Window *= 2
			}
			hi := g.musicAt(lead + g.total())
			if hi < 20*sec {
				hi = 20 * sec
			}
			sc.End = hi + sc.Srv.Delay + 4*sec
			for i := 1; i <= g.Range(1, 4); i++ {
				g.badClient(fmt.Sprintf("raw%d", i), 10*ms, hi)
			}
			if g.P(0.5) {
				for i := range sc.Songs {
					if g.P(0.7) {
						sc.Songs[i].Lyrics = g.longLyrics()
					}
				}
			}
			if g.P(0.5) {
				t := g.dur(10*ms, hi/2)
				var subs []int64
				for _, o := range sc.Ops {
					if o.Do == "sub" && o.Act != "obs" {
						subs = append(subs, o.At)
					}
				}
				if len(subs) > 0 && g.P(0.7) {
					t = subs[g.N(len(subs))] + g.dur(0, 3*sec)
				}
				g.goodClient("raw7", t, 0)
			}
			g.goodClient("raw8", hi+sc.Srv.Delay, 0)
			sc.add(Op{At: hi + sc.Srv.Delay + 10*ms, Act: "raw8", Do: "sub", N: 0})
			g.open("ssh2")
			g.playCmds(g.Range(2, 10), 2, 100*ms, hi, "pause", "pause", "volume", "jump", "playlist")
			for i := range sc.Ops {
				if strings.HasPrefix(sc.Ops[i].S, "volume") {
					sc.Ops[i].Act = "ssh2"
					sc.Ops[i].S = "volume 1"
				}
			}
			g.cmd(hi+sc.Srv.Delay, "ssh2", "playlist")
		},
		Judge: func(w *World) {
			st := w.basics()
			if st == nil || len(w.V) > 0 {
				return
			}
			ct := int64(w.Sc.Srv.Chunk) * sec / int64(w.Sc.Srv.Rate)
			w.inStep(st, ct*3/4+w.reach(), 0)
			st.chunkInfos(sec + w.margin())
			for _, c := range w.allCmds() {
				lim := 1500 * ms
				if strings.HasPrefix(c.Line, "volume") {
					lim = 11500 * ms
				}
				if c.NoSess || c.Lost {
					w.viol("cmd:lost", "%q at %.3f s: the session is gone", c.Line, float64(c.CallT)/1e9)
					return
				}
				if !c.Done && w.end < c.CallT+lim+w.reach() {
					continue
				}
				if !c.Done {
					w.viol("cmd:slow", "%q at %.3f s was not answered", c.Line, float64(c.CallT)/1e9)
					return
				}
				if c.RetT-c.CallT > lim+w.reach() {
					w.viol("cmd:slow", "%q at %.3f s was answered after %.1f s", c.Line, float64(c.CallT)/1e9, float64(c.RetT-c.CallT)/1e9)
					return
				}
			}
			good := w.conns("raw7", "raw8")
			w.wellFormed(good)
			w.routing(good)
			w.delivered(good)
			w.answered(good)
			w.dropped(good)
			for _, v := range good {
				if v.Name == "raw8" && (v.subAt(0) == 0 || len(w.collect("raw8", v.I).Chunks) == 0) {
					w.viol("conn:starved", "%s, which connected after the misbehaving clients had gone, received no audio", v)
				}
			}
			if len(good) == 0 || good[len(good)-1].Name != "raw8" {
				w.viol("conn:refused", "a client could not connect after the misbehaving clients had gone: %v", w.Raws["raw8"].DialE)
			}
			if len(w.V) > 0 {
				return
			}
			for _, a := range w.auds(st) {
				w.onTime(a, st, 0, nil)
				w.complete(a, st, w.heard(a), w.end-sec, 0, nil)
			}
			if w.notes["samples_heard"] > 0 {
				w.notes["judged"]++
			}
		}})
}

// judgeVolume checks what clients were told about the volume against the commands.
func (w *World) judgeVolume() {
	st := w.basics()
	if len(w.V) > 0 {
		return
	}
	type vc struct {
		c *Cmd
		v float64
	}
	var vcs []vc
	for _, c := range w.allCmds() {
		if !strings.HasPrefix(c.Line, "volume") {
			continue
		}
		if !c.Done {
			if w.overdue(c) {
				w.viol("cmd:hung", "%q at %.3f s was not answered", c.Line, float64(c.CallT)/1e9)
			}
			return
		}
		f := strings.Fields(c.Line)
		if len(f) == 3 {
			f = f[:2]
		}
		v, ok := volArg(strings.Join(f, " "))
		if !ok {
			if !strings.HasPrefix(c.Resp, "Usage: volume") {
				w.viol("cmd:answer", "%q was answered with %q", c.Line, c.Resp)
				return
			}
			continue
		}
		if a := fmt.Sprintf("setting volume to %.3f", v); c.Resp != a && !strings.HasPrefix(c.Resp, "failed to set volume to ") {
			w.viol("cmd:answer", "%q was answered with %q", c.Line, c.Resp)
			return
		}
		vcs = append(vcs, vc{c, v})
	}
	rc := w.reach()
	// candidates at time t: not overwritten by a command called after they had returned
	cands := func(t int64) []float64 {
		var out []float64
		any := false
		for _, a := range vcs {
			if a.c.CallT > t {
				continue
			}
			if a.c.RetT <= t {
				any = true
			}
			over := false
			for _, b := range vcs {
				if b.c.CallT <= t && b.c.RetT <= t && b.c.Call > a.c.Ret {
					over = true
				}
			}
			if !over {
				out = append(out, a.v)
			}
		}
		if !any {
			out = append(out, 0.1)
		}
		return out
	}
	in := func(v float64, l []float64) bool {
		for _, x := range l {
			if x == v {
				return true
			}
		}
		return false
	}
	vs := w.conns("raw", "obs")
	w.wellFormed(vs)
	w.routing(vs)
	if len(w.V) > 0 {
		return
	}
	for _, v := range vs {
		for _, m := range v.Msgs {
			x, ok := m.M.(*pb.SetVolumeRequest)
			if !ok {
				continue
			}
			known := x.Volume == 0.1
			for _, c := range vcs {
				if c.v == x.Volume && c.c.Call < m.Q {
					known = true
				}
			}
			if !known {
				w.viol("volume:unknown", "%s was told the volume is %v, which nobody has set", v, x.Volume)
				return
			}
		}
	}
	marks := []int64{w.end - 100*ms}
	for _, c := range vcs {
		marks = append(marks, c.c.RetT+rc, c.c.CallT-1)
	}
	for _, t := range marks {
		quiet := t > 0
		for _, c := range vcs {
			if c.c.CallT <= t && c.c.RetT+rc > t {
				quiet = false
			}
		}
		if !quiet || t > w.end {
			continue
		}
		cs := cands(t)
		who, agreed := "", 0.0
		told := func(name string, val float64) bool {
			if !in(val, cs) {
				w.viol("volume:stale", "at %.3f s %s was last told that the volume is %v, but it was set to %v", float64(t)/1e9, name, val, cs)
				return false
			}
			if who != "" && val != agreed {
				w.viol("volume:split", "at %.3f s %s was last told that the volume is %v, %s that it is %v", float64(t)/1e9, name, val, who, agreed)
				return false
			}
			who, agreed = name, val
			return true
		}
		for _, v := range vs {
			s := v.subAt(0)
			if x := v.subAt(1); s == 0 || x > 0 && x < s {
				s = x
			}
			if s == 0 || s+rc > t || v.closed(w) < t || v.C.Open > t {
				continue
			}
			last, ok := 0.0, false
			for _, m := range v.Msgs {
				if x, is := m.M.(*pb.SetVolumeRequest); is && m.T <= t {
					last, ok = x.Volume, true
				}
			}
			if !ok {
				w.viol("volume:untold", "%s subscribed at %.3f s and was not told the volume by %.3f s", v, float64(s)/1e9, float64(t)/1e9)
				return
			}
			w.notes["volumes_checked"]++
			if !told(v.String(), last) {
				return
			}
		}
		if sh := w.Scrs["i1"]; len(sh) > 0 && w.N["i1"].Alive {
			k := len(sh) - 1
			for k >= 0 && sh[k].T > t {
				k--
			}
			if k >= 0 && sh[k].T > t-400*ms && sh[0].T+rc+sec < t {
				var pc float64
				found := false
				for _, l := range sh[k].Lines {
					if i := strings.Index(l, "Volume: "); i >= 0 {
						if n, _ := fmt.Sscanf(l[i:], "Volume: %f%%", &pc); n == 1 {
							found = true
						}
					}
				}
				quietLong := true
				for _, c := range vcs {
					if c.c.CallT <= t && c.c.RetT+rc+500*ms > t {
						quietLong = false
					}
				}
				if found && quietLong {
					w.notes["screens_checked"]++
					ok := false
					for _, c := range cs {
						if d := c*100 - pc; d < 0.006 && d > -0.006 {
							ok = who == "" || c == agreed
							if ok {
								break
							}
						}
					}
					if !ok {
						w.viol("volume:screen", "at %.3f s the infoer shows volume %.2f%%, but it was set to %v", float64(t)/1e9, pc, cs)
						return
					}
				}
			}
		}
	}
	if st != nil {
		for _, a := range w.auds(st) {
			w.complete(a, st, w.heard(a), w.end-sec, 0, w.muted(a, st))
		}
	}
	if w.notes["volumes_checked"] > 3 && len(vcs) > 0 {
		w.notes["judged"]++
	}
}
