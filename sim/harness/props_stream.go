//go:build go1.21

package main

import (
	"fmt"
	"strconv"
	"strings"
)

// margin bounds how much later than the instant itself something the server did is seen.
func (w *World) margin() int64 {
	sc := w.Sc
	return 8*sc.Sched.StallMax + 4*sc.Net.Jitter + sc.Sched.SlackNS*4 + 20*ms
}

const lead = 32768 // samples of silence an empty playlist produces at a time

// musicAt is about when the server produces sample i if nothing delays it.
func (g *G) musicAt(i int) int64 {
	s := g.sc.Srv
	return s.StartDelay + int64(i)*sec/int64(s.Rate)
}

func (g *G) obs() {
	g.sc.add(Op{At: 1 * ms, Act: "obs", Do: "connect", N: 100})
	g.sc.add(Op{At: 2 * ms, Act: "obs", Do: "sub", N: 1})
	g.sc.add(Op{At: 3 * ms, Act: "obs", Do: "sub", N: 0})
}

func (g *G) open(act string) { g.sc.add(Op{At: g.dur(5*ms, 40*ms), Act: act, Do: "open"}) }
func (g *G) cmd(at int64, act, line string) {
	g.sc.add(Op{At: at, Act: act, Do: "cmd", S: line})
}

// musicBase is a server that plays a few songs, watched by an observer, with one operator
// who queues them. Music is produced from sample lead on.
func (g *G) musicBase(nsongs, lo, hi int) {
	sc := g.sc
	g.base()
	sc.Srv.Rate = g.pickI(2000, 4000, 8000)
	g.chunks()
	g.songs(nsongs, lo, hi)
	g.obs()
	g.open("ssh1")
}

// cut is where a broken song of n samples ends, in half of all cases on a block.
func (g *G) cut(n int) int {
	k := g.N(n)
	if g.P(0.5) {
		k -= k % 512
	}
	return k
}

func (g *G) total() int {
	n := 0
	for _, s := range g.sc.Songs {
		n += s.Len + g.sc.Srv.Break
	}
	return n
}

func (g *G) endAt(i int, extra int64) {
	g.sc.End = g.musicAt(i) + extra + 3*int64(g.sc.Srv.Chunk)*sec/int64(g.sc.Srv.Rate) + 3*sec
}

// basics judges what every stream must satisfy. It returns the decoded stream or nil.
func (w *World) basics() *Stream {
	st := w.collect("obs", 0)
	if !st.integrity() {
		if len(w.V) == 0 && w.end > w.Sc.Srv.StartDelay*1+20*sec && len(w.downs) == 0 {
			w.viol("stream:none", "no audio was received within %.1f s", float64(w.end)/1e9)
		}
		return nil
	}
	last := st.Chunks[len(st.Chunks)-1]
	if ct := int64(last.N) * sec / int64(w.Sc.Srv.Rate); len(w.downs) == 0 && w.end-last.T > 3*sec+4*ct+w.margin()+w.reach()+w.Sc.x("slow") {
		w.viol("pace:stopped", "the last chunk was received at %.3f s, the run ended at %.3f s", float64(last.T)/1e9, float64(w.end)/1e9)
		return nil
	}
	st.trim(sec + w.margin() + w.Sc.x("slow"))
	if len(st.Chunks) == 0 {
		return nil
	}
	if !st.decode() {
		return nil
	}
	w.notes["plays"] += int64(len(st.Plays))
	return st
}

func (g *G) someStalls() {
	if g.P(0.6) {
		// stay well below the time a chunk lasts: ordering is only promised within that
		ct := int64(g.sc.Srv.Chunk) * sec / int64(g.sc.Srv.Rate)
		g.stalls(ct / 40)
	}
}

// extraClients come, subscribe to something and leave while music plays.
func (g *G) extraClients(n int, lo, hi int64) {
	sc := g.sc
	for i := 1; i <= n; i++ {
		a := fmt.Sprintf("raw%d", i)
		t := g.dur(lo, hi)
		for k := g.Range(1, 3); k > 0; k-- {
			sc.add(Op{At: t, Act: a, Do: "connect", N: 3})
			t += g.dur(0, 100*ms)
			if g.P(0.9) {
				sc.add(Op{At: t, Act: a, Do: "sub", N: int64(g.N(2))})
				if g.P(0.5) {
					sc.add(Op{At: t, Act: a, Do: "sub", N: int64(g.N(2))})
				}
			}
			t += g.dur(0, (hi-lo)/3)
			sc.add(Op{At: t, Act: a, Do: g.pickS("close", "abort", "close", "halfclose")})
			t += g.dur(0, (hi-lo)/3)
		}
	}
}

// playCmds are random playlist commands from n operators while music plays.
func (g *G) playCmds(n, sessions int, lo, hi int64, kinds ...string) {
	sc := g.sc
	for s := 2; s <= sessions; s++ {
		g.open(fmt.Sprintf("ssh%d", s))
	}
	t := lo
	for i := 0; i < n; i++ {
		if !g.P(0.4) { // many commands come close together
			t = g.dur(lo, hi)
		} else {
			t += g.pick64(0, 0, 100e3, 1*ms, 30*ms, 300*ms)
		}
		a := fmt.Sprintf("ssh%d", 1+g.N(sessions))
		if sessions > 1 && len(sc.Ops) > 0 && sc.Ops[len(sc.Ops)-1].At == t {
			for sc.Ops[len(sc.Ops)-1].Act == a { // at the same moment: another operator
				a = fmt.Sprintf("ssh%d", 1+g.N(sessions))
			}
		}
		var l string
		switch g.pickS(kinds...) {
		case "pause":
			l = g.pickS("pause", "resume")
		case "jump":
			l = "jump " + g.index(g.pickI(0, 1, 2, 3, g.N(6), g.N(40), -1))
		case "queue":
			nm := sc.Songs[g.N(len(sc.Songs))].Name
			switch g.N(4) {
			case 0:
				l = "queue *.mp3"
			case 1:
				l = "queue " + nm
			case 2:
				l = "queue " + nm + " " + g.index(g.pickI(0, 1, g.N(8), -3, 50))
			default:
				l = "queue *.mp3 " + fmt.Sprint(g.pickI(0, 1, 2))
			}
		case "remove":
			l = "remove " + g.index(g.pickI(0, 0, 1, g.N(5), g.N(12), -1))
		case "playlist":
			l = "playlist"
		case "volume":
			l = "volume " + g.pickS("0", "0.5", "1", "0.25", "2", "0.01")
		}
		if l != "" {
			g.cmd(t, a, l)
		}
	}
}

// index is a position as an operator may type it; some are not numbers.
func (g *G) index(n int) string {
	if g.P(0.9) || n < 0 {
		return strconv.Itoa(n)
	}
	switch g.N(3) {
	case 0:
		return g.pickS("0", "00", "0000", "+") + strconv.Itoa(n)
	case 1:
		return g.pickS("0x", "0b", "0o", "1_", "#", "--", "1.", "~") + strconv.Itoa(n)
	}
	return g.pickS("-0", "last", "1e1", "1000000007", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "4294967296", "4294967297", "99999999999999999999")
}

// pipeline lets operators send some lines together with the next ones.
func (g *G) pipeline(from int64) {
	sc := g.sc
	sc.sortOps()
	var out []Op
	last := map[string]int{} // where each operator's latest line is
	for _, o := range sc.Ops {
		if i, ok := last[o.Act]; ok && o.Do == "cmd" && strings.Count(out[i].S, "\n") < 4 && g.P(0.5) {
			out[i].Do = "cmds"
			out[i].S += "\n" + o.S
			continue
		}
		if delete(last, o.Act); o.Do == "cmd" && o.At >= from {
			last[o.Act] = len(out)
		}
		out = append(out, o)
	}
	sc.Ops = out
}

// bursts are toggles by n operators while the server refills its buffer, b times. It returns
// when these commands are sent.
func (g *G) bursts(lo int64, n, b int) []int64 {
	sc := g.sc
	for i := 2; i <= n; i++ {
		g.open(fmt.Sprintf("ssh%d", i))
	}
	ct := int64(sc.Srv.Chunk) * sec / int64(sc.Srv.Rate)
	l := []string{"pause", "resume"}
	k := g.N(2)
	var at []int64
	lo = max64(lo, g.musicAt(lead)+ct)
	tick := (lo - sc.Srv.StartDelay) / ct
	for ; b > 0; b-- {
		tick += int64(g.pickI(1, 1, 2, 3))
		t := sc.Srv.StartDelay - sc.Net.LatMin + tick*ct
		at = append(at, t)
		d := int64(0)
		for j := 0; j < n && t > lo; j++ {
			g.cmd(t+d, fmt.Sprintf("ssh%d", j+1), l[k%2])
			k++
			d += g.dur(0, 512*g.pick64(60, 100, 200)) // it looks every 512 samples
		}
	}
	return at
}

// storm lets several operators send lines of several commands at the same moments, while what the
// server does is often interrupted for as long as another operator's commands take.
func (g *G) storm() {
	sc := g.sc
	g.calm()
	s := &sc.Sched
	s.UnlP, s.RmwP = []float64{0, 0.1, 0.5}[g.N(3)], []float64{0, 0, 0.1, 0.5}[g.N(4)]
	s.PreP, s.StallP, s.LazyP, s.StallMax = []float64{0, 0.1, 0.3, 0.6}[g.N(4)], []float64{0, 0.05}[g.N(2)], 0, g.pick64(20e3, 100e3, 400e3, 1*ms)
	n := g.Range(2, 4)
	for i := 2; i <= n; i++ {
		g.open(fmt.Sprintf("ssh%d", i))
	}
	song := func() string { return sc.Songs[g.N(len(sc.Songs))].Name }
	play := []string{"resume", "pause"}
	k := 0
	for b, t := g.Range(3, 10), 100*ms; b > 0; b-- {
		t += g.dur(50*ms, 300*ms)
		for i := 1; i <= n; i++ {
			var l []string
			for c := g.Range(1, 4); c > 0; c-- {
				switch {
				case i > 1 && i%2 == 0:
					l = append(l, "playlist")
				default:
					switch g.N(5) {
					case 0:
						l = append(l, "remove 0")
					case 1:
						l = append(l, "queue *.mp3 0")
					case 2:
						l = append(l, "queue "+song()+" 0")
					default:
						l = append(l, play[k%2])
						k++
					}
				}
			}
			g.cmd(t+g.dur(0, g.pick64(1, 20e3, 200e3)), fmt.Sprintf("ssh%d", i), strings.Join(l, "\n"))
			if len(l) > 1 {
				sc.Ops[len(sc.Ops)-1].Do = "cmds"
			}
		}
	}
}

func init() {
	register(&Prop{ID: "P01", Quick: 2000, Deep: 60000,
		Rule: "A server streams 2-5 songs of unique samples (lengths around buffer boundaries, chunk, break, delay and rate varied) while operators pause, resume, jump and edit the playlist and other clients come and go, under random scheduling and task stalls; a subscriber's whole stream is decoded sample by sample.",
		Gen: func(g *G) {
			sc := g.sc
			g.musicBase(g.Range(2, 5), 1, 9000)
			g.someStalls()
			g.cmd(50*ms, "ssh1", "queue *.mp3")
			if g.P(0.8) {
				g.cmd(60*ms, "ssh1", "resume")
			} else {
				g.cmd(g.musicAt(lead)+g.dur(0, 2*sec), "ssh1", "resume")
			}
			lo, hi := g.musicAt(lead-9000), g.musicAt(lead+g.total())
			if lo < 100*ms {
				lo = 100 * ms
			}
			if g.P(0.7) {
				g.playCmds(g.Range(1, 10), g.Range(1, 2), lo, hi, "pause", "pause", "jump", "queue", "remove")
			}
			if g.P(0.6) {
				g.extraClients(g.Range(1, 3), 10*ms, hi)
			}
			if g.P(0.3) {
				sc.add(Op{At: g.dur(10*ms, sec), Act: "p1", Do: "start"})
			}
			if g.P(0.3) {
				sc.add(Op{At: g.dur(10*ms, sec), Act: "i1", Do: "start"})
			}
			g.endAt(lead+g.total(), 0)
		},
		Judge: func(w *World) {
			st := w.basics()
			if st == nil {
				return
			}
			st.chunkInfos(sec + w.margin())
			cuts, jumps := 0, 0
			for _, p := range st.Plays {
				if p.Cut && !p.Fuzzy {
					cuts++
				}
			}
			for _, o := range w.Sc.Ops {
				if o.Do == "cmd" && len(o.S) > 4 && o.S[:4] == "jump" {
					jumps++
				}
			}
			if cuts > jumps {
				w.viol("song:cut", "%d songs were cut short although only %d jumps were made", cuts, jumps)
			}
			w.noGaps(st)
			for i, v := range st.L {
				if isNaN(v) != isNaN(st.R[i]) {
					w.viol("stream:half", "sample %d is silent on one channel only", i)
					break
				}
			}
			w.notes["samples"] += int64(len(st.L))
			if len(st.Plays) > 0 {
				w.notes["judged"]++
			}
		}})

	register(&Prop{ID: "P05", Quick: 3000, Deep: 60000,
		Rule: "2-4 operators issue 8-26 overlapping queue, remove, jump, pause, resume and playlist commands (in-range, out-of-range and negative positions, single songs and patterns), some of them sent together before the first is answered, some while the server's tasks are interrupted for as long as another operator's commands take; every answer and the songs played must fit one sequential order.",
		Gen: func(g *G) {
			g.musicBase(g.Range(2, 4), 1, 6000)
			g.someStalls()
			hi := g.musicAt(lead + 8000)
			if g.P(0.3) {
				g.cmd(50*ms, "ssh1", "queue *.mp3")
			}
			if g.P(0.2) {
				g.storm()
				g.endAt(lead+g.N(4000), 2*sec)
				return
			}
			if g.P(0.5) {
				g.quiet() // commands sent at the same moment arrive almost at the same moment
				g.sc.Net.LatMax, g.sc.Net.Jitter = g.sc.Net.LatMin, 0
			}
			g.playCmds(g.Range(8, 26), g.Range(2, 4), 60*ms, g.pick64(100*ms, 400*ms, 2*sec, hi), "queue", "queue", "remove", "playlist", "jump", "pause", "remove", "playlist")
			if g.P(0.3) {
				g.pipeline(60 * ms)
			}
			g.endAt(lead+g.N(12000), 0)
		},
		Judge: func(w *World) {
			st := w.basics()
			if len(w.V) > 0 {
				return
			}
			w.linearize(st)
		}})

	register(&Prop{ID: "P06", Quick: 2500, Deep: 60000,
		Rule: "A playlist with readable, truncated, empty, corrupt and unreadable songs, and songs that are readable only later or fail once, plays while an operator jumps, queues and removes at random moments, including during breaks, on an empty playlist and in quick succession; the songs in the stream must be the ones the playlist model plays.",
		Gen: func(g *G) {
			sc := g.sc
			if g.P(0.25) { // songs end all the time
				g.musicBase(g.Range(4, 9), 1, 60)
				if sc.Srv.Break = g.Range(1, 12); g.P(0.7) {
					sc.Srv.Chunk = sc.Srv.Rate / g.pickI(1, 2, 4)
				}
				g.calm()
				for i := range sc.Songs {
					sc.Songs[i].Len = g.Range(1, 60)
				}
				g.cmd(50*ms, "ssh1", "queue *.mp3")
				g.cmd(60*ms, "ssh1", "resume")
				lo := max64(g.musicAt(lead-sc.Srv.Rate), 100*ms)
				n := g.Range(4, 24)
				g.playCmds(n, g.Range(1, 3), lo, lo+2*sec, "jump", "jump", "jump", "jump", "remove")
				g.onTicks()
				if s := &sc.Sched; g.P(0.6) { // jumps are interrupted while they are done
					s.PreP, s.StallP, s.LazyP, s.StallMax = []float64{0, 0.1, 0.3, 0.6}[g.N(4)], 0, 0, g.pick64(20e3, 100e3, 400e3, 1*ms)
					s.UnlP, s.RmwP = []float64{0, 0.1, 0.5}[g.N(3)], []float64{0, 0, 0.1, 0.5}[g.N(4)]
				}
				sc.sortOps()
				g.endAt(lead+g.N(4000), 0)
				return
			}
			g.musicBase(g.Range(2, 6), 1, 5000)
			bad := 0.35
			if g.P(0.1) {
				bad = 1
			}
			for i := range sc.Songs {
				if !g.P(bad) {
					continue
				}
				s := &sc.Songs[i]
				s.Kind = g.pickS("garbage", "noread", "trunc", "empty", "noread", "late", "late", "flaky", "flaky")
				switch s.Kind {
				case "trunc":
					s.Have = g.cut(s.Len)
				case "empty": // announcements by the thousand would clog the connections
					if s.Len = 0; sc.Srv.Break < sc.Srv.Rate/40 {
						sc.Srv.Break = sc.Srv.Rate / 40
					}
				case "flaky":
					s.Have = g.N(16)
				}
			}
			g.someStalls()
			hi := g.musicAt(lead + g.total())
			t := 50 * ms
			for n := g.Range(1, 3); n > 0; n-- {
				if g.P(0.6) {
					g.cmd(t, "ssh1", "queue *.mp3")
				} else {
					g.cmd(t, "ssh1", "queue "+sc.Songs[g.N(len(sc.Songs))].Name)
				}
				t += g.pick64(1*ms, 100*ms, sec)
			}
			g.cmd(t, "ssh1", "resume")
			lo := g.musicAt(lead - 9000)
			if g.P(0.4) {
				lo = 100 * ms
			}
			if lo < 100*ms {
				lo = 100 * ms
			}
			g.playCmds(g.Range(0, 9), g.Range(1, 3), lo, hi, "jump", "jump", "jump", "queue", "remove", "pause")
			again := 0
			for _, s := range sc.Songs {
				switch s.Kind {
				case "late":
					t, do := int64(0), "goodsong"
					for k := g.Range(1, 3); k > 0; k-- {
						t = g.dur(t+ms, hi+sec)
						sc.add(Op{At: t, Act: "srv", Do: do, S: s.Name})
						do = map[string]string{"goodsong": "badsong", "badsong": "goodsong"}[do]
					}
					again = g.total()
				case "flaky":
					again = g.total()
				}
			}
			if again > 20000 {
				again = 20000
			}
			g.endAt(lead+g.total()+again, sec)
		},
		Judge: func(w *World) {
			st := w.basics()
			if len(w.V) > 0 {
				return
			}
			w.linearize(st)
		}})

	register(&Prop{ID: "P07", Quick: 2500, Deep: 60000,
		Rule: "Operators pause and resume at random moments, often in quick succession from two sessions, some of them around jumps and in the breaks those cause; every silent stretch inside a song must be exactly an announced pause, no sample may be lost or repeated across it, each command must take effect within the buffered second, and toggles must alternate.",
		Gen: func(g *G) {
			g.musicBase(g.Range(1, 4), 600, 9000)
			g.someStalls()
			g.cmd(50*ms, "ssh1", "queue *.mp3")
			if g.P(0.7) {
				g.cmd(60*ms, "ssh1", "resume")
			}
			burst := g.P(0.4)
			if burst {
				sc := g.sc
				sc.Srv.Rate = g.pickI(4000, 8000, 16000)
				sc.Srv.Chunk = sc.Srv.Rate / g.pickI(1, 1, 2, 3)
			}
			lo, hi := g.musicAt(lead-9000), g.musicAt(lead+g.total())
			if lo < 100*ms {
				lo = 100 * ms
			}
			if burst { // several toggles while the server refills its buffer once
				sc := g.sc
				g.calm()
				if s := &sc.Sched; g.P(0.75) {
					s.StallP, s.LazyP, s.PreP, s.UnlP, s.RmwP = 0, 0, 0, 0, 0
					if g.P(0.67) { // only the announcements are slow
						s.LazyP, s.StallMax = 0.5, g.pick64(100e3, 1e6)
					}
				}
				for _, t := range g.bursts(lo, g.Range(2, 4), g.Range(3, 14)) {
					hi = max64(hi, t)
				}
				sc.End = hi + 4*sec
				return
			}
			kinds := []string{"pause"}
			if g.P(0.3) { // jumps, and toggles during the breaks they cause
				kinds = []string{"pause", "pause", "jump"}
				if g.P(0.7) {
					g.sc.Srv.Break = g.Range(g.sc.Srv.Chunk/2, g.sc.Srv.Rate*2)
				}
				for t, n := lo, g.Range(1, 4); n > 0; n-- {
					t += g.dur(0, 2*sec)
					brk := int64(g.sc.Srv.Break) * sec / int64(g.sc.Srv.Rate)
					l := []string{"pause", "resume"}
					k := g.pickI(0, 0, 0, 1)
					g.cmd(t, "ssh1", l[k])
					t += g.dur(2*ms, 600*ms)
					g.cmd(t, "ssh1", fmt.Sprint("jump ", g.N(len(g.sc.Songs)+1)))
					t += g.dur(2*ms, brk+2*ms)
					g.cmd(t, "ssh1", l[1-k])
					if g.P(0.3) {
						t += g.dur(2*ms, brk+2*ms)
						g.cmd(t, "ssh1", l[k])
					}
					if t > hi {
						hi = t
					}
				}
			}
			g.playCmds(g.Range(3, 16), g.Range(1, 3), lo, hi, kinds...)
			g.endAt(lead+g.total(), 4*sec)
		},
		Judge: func(w *World) {
			st := w.basics()
			if st == nil || len(w.V) > 0 {
				return
			}
			w.judgePauses(st)
		}})
}

// noGaps judges that, once the playlist holds songs and none is ever removed, nothing but a
// break separates them. All songs must be readable.
func (w *World) noGaps(st *Stream) {
	first := rtForever
	for _, c := range w.allCmds() {
		if strings.HasPrefix(c.Line, "remove") {
			return
		}
		if strings.HasPrefix(c.Line, "queue *") && c.Done && c.RetT < first {
			first = c.RetT
		}
	}
	brk := uint64(w.Sc.Srv.Break)
	for i, p := range st.Plays {
		next := st.n()
		if i+1 < len(st.Plays) {
			next = st.Plays[i+1].S0
		}
		if !p.Fuzzy && p.End+brk < next {
			w.viol("break:size", "%s ended at sample %d and was to be followed by a break of %d samples, but nothing played until sample %d", p.Info.File, p.End, brk, next)
			return
		}
	}
	if len(st.Plays) == 0 && first < rtForever && st.consumedBy(first+w.margin())+uint64(w.Sc.Srv.Rate+w.Sc.Srv.Chunk)+lead < st.n() {
		w.viol("song:none", "songs were queued at %.3f s, but none was played up to sample %d", float64(first)/1e9, st.n())
	}
}

// judgePauses checks the announced toggles against the commands.
func (w *World) judgePauses(st *Stream) {
	for i := 1; i < len(st.Togs); i++ {
		if st.Togs[i].Idx-st.Togs[i-1].Idx < uint64(w.Sc.Srv.Chunk) {
			w.notes["toggles_within_a_chunk"]++
			if st.Togs[i].Q < st.Togs[i-1].Q {
				w.notes["announcements_overtaken"]++
			}
		}
		if st.Togs[i].Playing == st.Togs[i-1].Playing {
			w.viol("pause:toggles", "two toggles to playing=%v in a row, at samples %d and %d", st.Togs[i].Playing, st.Togs[i-1].Idx, st.Togs[i].Idx)
			return
		}
	}
	if len(st.Togs) > 0 && st.Togs[0].Playing {
		w.viol("pause:toggles", "the first toggle, at sample %d, starts playback that never stopped", st.Togs[0].Idx)
		return
	}
	// liveness: long after the last command, the stream is in the state it asked for
	var cmds []*Cmd
	for i := 1; i <= 9; i++ {
		if c := w.SSHs[fmt.Sprintf("ssh%d", i)]; c != nil {
			for _, x := range c.Cmds {
				if x.Line == "pause" || x.Line == "resume" {
					if !x.Done && !x.NoSess {
						if w.overdue(x) {
							w.viol("cmd:hung", "%q at %.3f s was not answered", x.Line, float64(x.CallT)/1e9)
						}
						return
					}
					cmds = append(cmds, x)
				}
			}
		}
	}
	rate := uint64(w.Sc.Srv.Rate)
	for _, c := range cmds {
		// quiet: no other command overlaps c or comes before the effect must show
		want := c.Line == "resume"
		from := st.consumedBy(c.RetT+w.margin()) + rate + uint64(w.Sc.Srv.Chunk) + 1100
		until := st.n()
		ok := true
		for _, o := range cmds {
			if o == c {
				continue
			}
			if o.CallT <= c.RetT && o.RetT >= c.CallT {
				if o.Line != c.Line {
					ok = false
				}
				continue
			}
			if o.CallT > c.RetT && o.Line != c.Line {
				if x := st.consumedBy(o.CallT - w.margin()); x < until {
					until = x
				}
			}
		}
		if !ok {
			continue
		}
		for _, p := range st.Plays {
			for i := p.S0; i < p.End; i++ {
				if i < from || i >= until {
					continue
				}
				if p.Fuzzy && st.nan(i) && want && (st.playingAt(i) || i+uint64(w.Sc.Srv.Break) >= p.End) {
					continue // may belong to the break after a play whose end cannot be seen
				}
				if st.playingAt(i) != want {
					w.viol("pause:ignored", "%q answered at %.3f s, but sample %d, produced later, is %s", c.Line, float64(c.RetT)/1e9, i, st.ident(i))
					return
				}
				w.notes["pause_effect_samples"]++
			}
		}
	}
	w.notes["toggles"] += int64(len(st.Togs))
	if len(st.Togs) > 1 && len(st.Plays) > 0 {
		w.notes["judged"]++
	}
}
