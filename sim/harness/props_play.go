//go:build go1.21

package main

import "fmt"

// players starts n players between lo and hi.
func (g *G) players(n int, lo, hi int64) {
	for i := 1; i <= n; i++ {
		p := fmt.Sprintf("p%d", i)
		g.clock(p, true)
		g.sc.add(Op{At: g.dur(lo, hi), Act: p, Do: "start"})
	}
}

// someLat gives clients their own distances from the server.
func (g *G) someLat(names ...string) {
	n := &g.sc.Net
	for _, p := range names {
		if !g.P(0.5) {
			continue
		}
		if n.Lat == nil {
			n.Lat = map[string]int64{}
		}
		l := g.dur(100e3, 40*ms)
		n.Lat[p+">srv"], n.Lat["srv>"+p] = l, l
		if g.P(0.3) {
			n.Lat["srv>"+p] = g.dur(100e3, 40*ms)
		}
	}
}

// concert is a server that plays songs at full volume to n players.
func (g *G) concert(n int, lo, hi int) {
	sc := g.sc
	g.musicBase(g.Range(2, 5), lo, hi)
	g.quiet()
	sc.Srv.Delay = g.pick64(2000, 4000, 8000) * ms
	if d := 3 * int64(sc.Srv.Chunk) * sec / int64(sc.Srv.Rate); sc.Srv.Delay < d {
		sc.Srv.Delay = d
	}
	sc.Srv.Break = g.pickI(sc.Srv.Rate, sc.Srv.Rate/2, sc.Srv.Rate/3)
	g.cmd(45*ms, "ssh1", "volume 1")
	g.cmd(50*ms, "ssh1", "queue *.mp3")
	g.cmd(60*ms, "ssh1", "resume")
	g.players(n, 20*ms, g.musicAt(lead))
	sc.End = g.musicAt(lead+g.total()) + sc.Srv.Delay + 2*sec
}

// heard is when a player can have everything it is expected to play: what reaches it
// before its clock is set may look long overdue and be dropped.
func (w *World) heard(a *Aud) int64 {
	sc := w.Sc
	return w.syncedBy(a.Name, a.Dev.Start) + sc.Srv.Delay + 3*int64(sc.Srv.Chunk)*sec/int64(sc.Srv.Rate) + w.margin() + 300*ms
}

// muted tells which samples may have been inaudible because of a volume close to 0.
func (w *World) muted(a *Aud, st *Stream) func(i uint64) bool {
	ev := w.volumes()
	return func(i uint64) bool {
		t := st.when(i) + a.Lat
		for _, v := range volsIn(ev, t-3*a.Lat-w.margin(), t+a.Lat) {
			if conv(st.L[i-st.Base]*v) == 0 && conv(st.R[i-st.Base]*v) == 0 {
				return true
			}
		}
		return false
	}
}

func init() {
	register(&Prop{ID: "P02", Quick: 800, Deep: 30000,
		Rule: "1-3 players with unrelated clocks and different network distances join before or while 2-5 songs play, with pauses and jumps in between; every stretch each sound card plays is matched with the stream and compared with its schedule.",
		Gen: func(g *G) {
			sc := g.sc
			n := g.Range(1, 3)
			g.concert(n, 800, 9000)
			g.someLat("p1", "p2", "p3")
			if g.P(0.3) {
				sc.Srv.Break = g.pickI(sc.Srv.Rate/20, sc.Srv.Rate/12, sc.Srv.Rate/8)
			}
			if g.P(0.4) { // synchronise again while playing
				sc.Srv.SyncInterval = g.pick64(2, 5, 9) * sec
			}
			if s := &sc.Sched; g.P(0.3) { // tasks are interrupted
				s.PreP, s.StallP, s.LazyP = []float64{0, 0.05}[g.N(2)], []float64{0, 0.01}[g.N(2)], []float64{0, 0.5}[g.N(2)]
				s.UnlP, s.StallMax = []float64{0.05, 0.3}[g.N(2)], g.pick64(20e3, 100e3)
				s.RmwP = []float64{0, 0.1, 0.5}[g.N(3)]
			}
			lo, hi := g.musicAt(lead-9000), g.musicAt(lead+g.total())
			if g.P(0.5) {
				g.playCmds(g.Range(1, 6), 1, max64(lo, 100*ms), hi, "pause", "pause", "jump")
			}
			if g.P(0.3) { // one comes late
				sc.add(Op{At: g.dur(lo, hi), Act: "p3", Do: "start"})
				g.clock("p3", true)
			}
		},
		Judge: func(w *World) {
			st := w.basics()
			if st == nil || len(w.V) > 0 {
				return
			}
			for _, a := range w.auds(st) {
				w.onTime(a, st, 16*w.Sc.Sched.StallMax, nil)
			}
			if w.notes["runs_timed"] > 0 {
				w.notes["judged"]++
			}
		}})

	register(&Prop{ID: "P15", Quick: 900, Deep: 30000,
		Rule: "1-2 players play songs, some of them full of extreme samples, at volumes from 0.25 to 2 which change while they play, with pauses; every frame of the sound card must be the next sample of the stream, scaled and clamped, and no sample may be missing.",
		Gen: func(g *G) {
			sc := g.sc
			g.concert(g.Range(1, 2), 500, 9000)
			for i := range sc.Songs {
				if g.P(0.4) {
					sc.Songs[i].Kind = "loud"
				}
			}
			lo, hi := g.musicAt(lead-9000), g.musicAt(lead+g.total())
			if g.P(0.5) {
				g.playCmds(g.Range(1, 6), 1, max64(lo, 100*ms), hi, "pause", "pause", "jump")
			}
			cuts := 0
			if g.P(0.4) { // many chunks at once, while tasks are interrupted
				if g.P(0.7) {
					sc.Srv.Chunk = sc.Srv.Rate / g.pickI(5, 10, 20, 40)
				}
				s := &sc.Sched
				s.PreP, s.StallP, s.LazyP = []float64{0, 0.05, 0.3}[g.N(3)], []float64{0, 0.01}[g.N(2)], 0
				s.UnlP, s.StallMax = []float64{0.05, 0.2, 0.5}[g.N(3)], g.pick64(20e3, 100e3, 400e3)
				s.RmwP = []float64{0, 0.1, 0.5}[g.N(3)]
				cuts = g.pickI(0, 1, 4, 12)
				for t, k := lo+sec, cuts; k > 0; k-- {
					t += g.dur(100*ms, 2*sec)
					m := g.dur(50*ms, sc.Srv.Delay/2)
					sc.add(Op{At: t, Act: "net", Do: "cut", S: fmt.Sprintf("srv>p%d", 1+g.N(2)), M: m})
					t += m + sec
				}
			}
			if cuts == 0 && g.P(0.6) { // it must be known when players learn the volume
				for k := g.Range(1, 4); k > 0; k-- {
					g.cmd(g.dur(lo, hi+sc.Srv.Delay), "ssh2", "volume "+g.pickS("0.5", "1", "2", "0.25", "1.5", "0", "3", "20", "0.01"))
				}
				g.open("ssh2")
			}
		},
		Judge: func(w *World) {
			st := w.basics()
			if st == nil || len(w.V) > 0 {
				return
			}
			for _, a := range w.auds(st) {
				w.inOrder(a, st)
				for _, r := range a.Runs {
					if r.Skip {
						w.viol("audio:skip", "%s jumped to %s without a break", a.Name, r)
					}
				}
				for _, u := range a.Under {
					if u > w.heard(a) {
						w.viol("audio:gap", "%s ran dry before %.4f s", a.Name, float64(u)/1e9)
						break
					}
				}
				w.complete(a, st, w.heard(a), w.end-sec, 0, w.muted(a, st))
			}
			if w.notes["samples_heard"] > 0 && len(st.Plays) > 0 {
				w.notes["judged"]++
			}
		}})

	register(&Prop{ID: "P03", Quick: 800, Deep: 30000,
		Rule: "Players are suspended, cut off, slowed down or restarted and the server is suspended while songs play, in a fifth of the runs only within later rounds of clock synchronisation; outages shorter than the buffered time must not be heard, and after any other disturbance every player must be back on schedule and complete from the second break on.",
		Gen: func(g *G) {
			sc := g.sc
			n := g.Range(1, 2)
			g.concert(n, 500, 5000)
			sc.Srv.Rate = g.pickI(1000, 2000)
			g.chunks()
			sc.Srv.Break = g.pickI(sc.Srv.Rate, sc.Srv.Rate/2, sc.Srv.Rate/3)
			sc.Srv.Delay = g.pick64(4000, 8000, 15000) * ms
			for len(sc.Songs) < 6 {
				g.songs(1, 500, 5000)
			}
			sc.Net.Window = 1 << 18
			hi := g.musicAt(lead+g.total()) + sc.Srv.Delay
			lo := g.musicAt(lead) + 500*ms
			ct := int64(sc.Srv.Chunk) * sec / int64(sc.Srv.Rate)
			again := g.P(0.2) // the faults hit when players set their clocks again
			faults := g.Range(1, 3)
			if again {
				faults = 0
			}
			for k := faults; k > 0; k-- {
				p := fmt.Sprintf("p%d", 1+g.N(n))
				at := g.dur(lo, hi-sec)
				switch g.N(6) {
				case 0, 1:
					sc.add(Op{At: at, Act: p, Do: "pause", M: g.pick64(30*ms, 200*ms, 1*sec, 3*sec)})
				case 2:
					sc.add(Op{At: at, Act: "net", Do: "cut", S: p + g.pickS("<>", ">") + "srv", M: g.dur(100*ms, sc.Srv.Delay-2*ct-sec)})
				case 3:
					sc.add(Op{At: at, Act: "srv", Do: "pause", M: g.dur(50*ms, sc.Srv.Delay/2)})
				case 4:
					sc.add(Op{At: at, Act: p, Do: g.pickS("kill", "sigint", "power")})
					sc.add(Op{At: at + g.dur(10*ms, 2*sec), Act: p, Do: "start"})
				case 5:
					sc.add(Op{At: at, Act: "net", Do: "lat", S: "srv>" + p, M: g.dur(ms, 2*sec)})
					sc.add(Op{At: at + g.dur(50*ms, 2*sec), Act: "net", Do: "lat", S: "srv>" + p, M: 300e3})
				}
			}
			if again || g.P(0.4) { // a fault while a player sets its clock
				sc.Srv.SyncCycles = g.pickI(40, 100, 200)
				if again {
					sc.Srv.SyncCycles = g.pickI(100, 200)
					sc.Srv.SyncInterval = g.pick64(3, 4, 6) * sec
				}
				win := int64(sc.Srv.SyncCycles) * 10 * ms
				for _, o := range append([]Op(nil), sc.Ops...) {
					if o.Do != "start" || !g.P(0.7) {
						continue
					}
					at := o.At + g.dur(0, win)
					m := g.dur(win/50, win*2/5)
					if again {
						at += win + int64(g.Range(1, 3))*sc.Srv.SyncInterval
						if at > hi-sec {
							continue
						}
						if m = g.dur(win/50, win/4); m < 20*ms {
							m = 20 * ms
						}
					}
					switch g.N(4) {
					case 0:
						sc.add(Op{At: at, Act: o.Act, Do: "pause", M: m})
					case 1:
						sc.add(Op{At: at, Act: "srv", Do: "pause", M: m})
					case 2:
						sc.add(Op{At: at, Act: "net", Do: "lat", S: "srv>" + o.Act, M: m / 2})
						sc.add(Op{At: at + m/2, Act: "net", Do: "lat", S: "srv>" + o.Act, M: 300e3})
					default:
						sc.add(Op{At: at, Act: "net", Do: "cut", S: g.pickS("srv>"+o.Act, o.Act+">srv", o.Act+"<>srv"), M: m})
					}
				}
			}
			sc.End = g.musicAt(lead+g.total()) + sc.Srv.Delay + 6*sec
		},
		Judge: func(w *World) {
			st := w.basics()
			if st == nil || len(w.V) > 0 {
				return
			}
			for _, a := range w.auds(st) {
				if w.syncDisturbed(a) {
					continue
				}
				ex := w.disturbed(a, st)
				w.onTime(a, st, 0, func(r *AudRun) bool { return ex.near(r.T0) })
				w.complete(a, st, w.heard(a), min64(w.end-sec, a.To), 0, func(i uint64) bool { return ex.hides(st.when(i) + a.Lat) })
			}
			if w.notes["samples_heard"] > 0 && w.notes["runs_timed"] > 0 {
				w.notes["judged"]++
			}
		}})

	register(&Prop{ID: "P04", Quick: 240, Deep: 6000,
		Rule: "Machines whose clocks run up to 300 ppm fast or slow, whose wall clocks are set forth and back, and which booted at unrelated times play for several minutes; players must stay within what one synchronisation interval of drift allows.",
		Gen: func(g *G) {
			sc := g.sc
			n := g.Range(1, 2)
			g.musicBase(g.Range(2, 4), 100, 3000)
			g.quiet()
			sc.Srv.Rate = g.pickI(200, 400)
			sc.Srv.Chunk = sc.Srv.Rate * g.pickI(1, 2, 4)
			sc.Srv.Break = sc.Srv.Rate / g.pickI(1, 2)
			sc.Srv.Delay = 15000 * ms
			sc.Srv.SyncInterval = g.pick64(8, 30, 60) * sec
			sc.Srv.SyncCycles = g.pickI(5, 20)
			if g.P(0.1) { // exactly as shipped
				sc.Srv.SyncInterval = 0
			}
			for i := range sc.Songs {
				sc.Songs[i].Len = g.Range(50, 8*sc.Srv.Rate)
			}
			g.cmd(45*ms, "ssh1", "volume 1")
			g.cmd(50*ms, "ssh1", "queue *.mp3")
			g.cmd(60*ms, "ssh1", "resume")
			g.players(n, 20*ms, 10*sec)
			for _, k := range []string{"srv", "p1", "p2"} {
				c := sc.Clocks[k]
				if k != "srv" || g.P(0.5) {
					c.Drift = g.pick64(-300, -100, -30, 0, 30, 100, 300)
				}
				sc.Clocks[k] = c
			}
			dur := g.pick64(180, 300) * sec
			if sc.Srv.SyncInterval == 0 {
				dur = 1300 * sec
			}
			sc.End = g.musicAt(lead) + dur
			for k := g.Range(0, 5); k > 0; k-- {
				sc.add(Op{At: g.dur(sec, sc.End), Act: g.pickS("srv", "p1", "p2"), Do: "wall", M: g.pick64(-3600*sec, 3600*sec, -500*ms, 500*ms, -1e8*sec, 1e8*sec)})
			}
		},
		Judge: func(w *World) {
			st := w.basics()
			if st == nil || len(w.V) > 0 {
				return
			}
			iv := w.Sc.Srv.SyncInterval
			if iv == 0 {
				iv = 600 * sec
			}
			for _, a := range w.auds(st) {
				d := w.Sc.Clocks["srv"].Drift - w.Sc.Clocks[a.Name].Drift
				if d < 0 {
					d = -d
				}
				s := w.Sc.Clocks["srv"].Drift
				if s < 0 {
					s = -s
				}
				longest := int64(0)
				for _, p := range st.Plays {
					if x := int64(p.End-p.S0) * sec / int64(w.Sc.Srv.Rate); x > longest {
						longest = x
					}
				}
				extra := (iv+2*w.cyclesTime()+5*sec)/1000000*d + longest/1000000*s
				w.onTime(a, st, extra, nil)
				w.complete(a, st, w.heard(a), w.end-sec, extra, nil)
			}
			if w.notes["runs_timed"] > 2 {
				w.notes["judged"]++
			}
		}})
}

// Disturb is when a player was disturbed, and how long that can be heard.
type Disturb struct {
	F []([3]int64) // from, to, heard until
}

func (d *Disturb) near(t int64) bool {
	for _, f := range d.F {
		if t > f[0]-300*ms && t < f[1]+1500*ms {
			return true
		}
	}
	return false
}

func (d *Disturb) hides(t int64) bool {
	for _, f := range d.F {
		if t > f[0]-500*ms && t < f[2] {
			return true
		}
	}
	return false
}

// disturbed lists the disturbances of a player by faults that may be heard.
func (w *World) disturbed(a *Aud, st *Stream) *Disturb {
	d := &Disturb{}
	total := int64(0)
	// stretches without data from the server, which overlap or follow each other closely
	var out [][2]int64
	for _, o := range w.Sc.Ops {
		if o.Act == "srv" && o.Do == "pause" || o.Act == "net" && o.Do == "cut" {
			if k := len(out) - 1; k >= 0 && o.At < out[k][1]+2*sec {
				out[k][1] = max64(out[k][1], o.At+o.M)
			} else {
				out = append(out, [2]int64{o.At, o.At + o.M})
			}
		}
	}
	ops := append([]Op(nil), w.Sc.Ops...)
	for _, x := range out {
		if x[1]-x[0] > w.Sc.Srv.Delay-2*int64(w.Sc.Srv.Chunk)*sec/int64(w.Sc.Srv.Rate)-sec {
			ops = append(ops, Op{At: x[0], Act: a.Name, Do: "pause", M: x[1] - x[0]})
		}
	}
	for _, o := range ops {
		var f0, f1 int64
		switch {
		case o.Act == a.Name && o.Do == "pause":
			f0, f1 = o.At, o.At+o.M
		case o.Act == a.Name && (o.Do == "kill" || o.Do == "sigint" || o.Do == "power"):
			f0, f1 = o.At, o.At
		default:
			continue
		}
		total += f1 - f0
		// the song that plays when it ends is finished late
		until := f1
		for _, p := range st.Plays {
			if st.when(p.S0) <= f1 {
				e := p.End
				if e > st.n()-1 {
					e = st.n() - 1
				}
				if t := st.when(e) + total; t > until {
					until = t
				}
			}
		}
		d.F = append(d.F, [3]int64{f0, f1, until + sec})
	}
	return d
}

// syncFaults is how long faults hit the exchange in which a client started at t sets its
// clock, and by how much they delay its end.
func (w *World) syncFaults(name string, t int64) (hit int64) {
	s0, s1 := t-50*ms, t+w.cyclesTime()*5/4
	for _, o := range w.Sc.Ops {
		f0, f1 := o.At, o.At+o.M
		switch {
		case (o.Act == name || o.Act == "srv") && o.Do == "pause":
		case o.Act == "net" && o.Do == "cut":
			f1 += 400 * ms // retransmission takes up to 200 ms in each direction
		case o.Act == "net" && o.Do == "lat" && o.M > 5*ms:
			f1 = f0 + 5*sec
			for _, p := range w.Sc.Ops {
				if p.Act == "net" && p.Do == "lat" && p.S == o.S && p.At > f0 && p.At < f1 {
					f1 = p.At
				}
			}
			f1 += o.M
		default:
			continue
		}
		if f0 < s1+hit && f1 > s0 {
			hit += f1 - max64(f0, s0)
		}
	}
	return hit
}

// syncDisturbed tells whether faults hit so much of the exchange in which a player set its
// clock that the rest of it may not be enough.
func (w *World) syncDisturbed(a *Aud) bool {
	for t := a.Dev.Start; t < w.end; {
		if w.syncFaults(a.Name, t) > w.cyclesTime()/2 {
			return true
		}
		if w.Sc.Srv.SyncInterval == 0 {
			break
		}
		if t == a.Dev.Start {
			t += w.cyclesTime()
		}
		t += w.Sc.Srv.SyncInterval
	}
	return false
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}
func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}
