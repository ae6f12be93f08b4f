//go:build go1.21

package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Aud is what one player's sound card played, explained by the stream.
type Aud struct {
	Dev   DevRec
	Name  string
	Lat   int64 // constant latency of the sound card's buffer
	Runs  []*AudRun
	Under []int64 // when the card resumed after running dry
	From  int64   // first and last moment at which something was played
	To    int64
}

// AudRun is a stretch of audible frames which carry consecutive samples of the stream.
type AudRun struct {
	I0, N  uint64
	T0, T1 int64
	Lo, Hi int64 // deviation from schedule until the card first ran dry
	Dry    bool
	Skip   bool   // follows another run without silence between
	Silent uint64 // frames of silence before it
}

func (r *AudRun) String() string {
	return fmt.Sprintf("samples %d to %d at %.4f s", r.I0, r.I0+r.N, float64(r.T0)/1e9)
}

func conv(v float64) int16 {
	if v < -1 {
		v = -1
	}
	if v > 1 {
		v = 1
	}
	v *= 32768
	if v > 32767 {
		v = 32767
	}
	return int16(v)
}

// volEv is one volume operators asked for.
type volEv struct {
	v        float64
	from, to int64 // takes effect somewhere in this interval
	c        *Cmd
}

// volumes lists the volume changes operators asked for successfully.
func (w *World) volumes() []volEv {
	ev := []volEv{}
	for _, c := range w.allCmds() {
		if v, ok := volArg(c.Line); ok && !c.NoSess {
			to := c.RetT + w.margin() + 300*ms
			if !c.Done {
				to = rtForever
			}
			ev = append(ev, volEv{v, c.CallT, to, c})
		}
	}
	sort.SliceStable(ev, func(i, j int) bool { return ev[i].from < ev[j].from })
	return ev
}

func volArg(line string) (float64, bool) {
	f := strings.Fields(line)
	if len(f) < 2 || f[0] != "volume" {
		return 0, false
	}
	v, err := strconv.ParseFloat(f[1], 64)
	return v, err == nil
}

// volsIn is the set of volumes that can have been in effect between times a and b.
func volsIn(ev []volEv, a, b int64) []float64 {
	var out []float64
	add := func(v float64) {
		for _, x := range out {
			if x == v {
				return
			}
		}
		out = append(out, v)
	}
	base := true
	for i, e := range ev {
		if e.from > b {
			continue
		}
		gone := false
		for j, o := range ev {
			if j != i && o.to < a && e.c.Done && o.c.Call > e.c.Ret {
				gone = true
			}
		}
		if !gone {
			add(e.v)
		}
		if e.to < a {
			base = false
		}
	}
	if base {
		add(0.1)
	}
	return out
}

func (w *World) allCmds() []*Cmd {
	var cs []*Cmd
	for i := 1; i <= 9; i++ {
		if c := w.SSHs[fmt.Sprintf("ssh%d", i)]; c != nil {
			cs = append(cs, c.Cmds...)
		}
	}
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].CallT < cs[j].CallT })
	return cs
}

// idxAt is the sample scheduled for true time t.
func (s *Stream) idxAt(t int64) int64 {
	n := s.w.N["srv"]
	// invert when() around the estimate
	f := s.Chunks[0]
	el := n.MonoAt(t) - f.Start
	return int64(f.First) + el/sec*int64(s.w.Sc.Srv.Rate) + el%sec*int64(s.w.Sc.Srv.Rate)/sec
}

// audible explains the frames a device played. Unexplained frames are violations.
func (w *World) audible(d DevRec, st *Stream) *Aud {
	a := &Aud{Dev: d, Name: d.Node, Lat: d.Dev.BufNS}
	rate := int64(d.Dev.Rate)
	ev := w.volumes()
	n := int64(st.n())
	type frame struct {
		t    int64
		l, r int16
		seg  int
	}
	var fr []frame
	next := int64(0)
	for k, s := range d.Dev.Segs {
		if k > 0 && s.At > next {
			a.Under = append(a.Under, s.At)
		}
		for i := 0; i+d.Dev.Frame <= len(s.Data); i += d.Dev.Frame {
			b := s.Data[i:]
			fr = append(fr, frame{s.At + int64(i/d.Dev.Frame)*sec/rate, int16(uint16(b[0]) | uint16(b[1])<<8), int16(uint16(b[2]) | uint16(b[3])<<8), k})
		}
		next = s.At + int64(len(s.Data)/d.Dev.Frame)*sec/rate
	}
	if len(fr) == 0 {
		return a
	}
	a.From, a.To = fr[0].t, fr[len(fr)-1].t
	lastSeg := -1
	var vols []float64
	match := func(f frame, i int64) bool {
		if i < 0 || i >= n || st.nan(st.Base+uint64(i)) {
			return false
		}
		if f.seg != lastSeg {
			lastSeg = f.seg
			vols = volsIn(ev, f.t-3*a.Lat-w.margin(), f.t+a.Lat)
		}
		// the volume may change between the two channels of one frame
		l, r := false, false
		for _, v := range vols {
			l = l || conv(st.L[i]*v) == f.l
			r = r || conv(st.R[i]*v) == f.r
		}
		return l && r
	}
	var run *AudRun
	silent := uint64(0)
	ui := 0
	for k := 0; k < len(fr); k++ {
		f := fr[k]
		for ui < len(a.Under) && a.Under[ui] <= f.t {
			ui++
			if run != nil {
				run.Dry = true
			}
		}
		if f.l == 0 && f.r == 0 {
			if run != nil && match(f, int64(run.I0+run.N-st.Base)) && len(vols) > 0 {
				// a quiet sample rather than silence
			} else {
				run = nil
				silent++
				continue
			}
		}
		if run != nil && match(f, int64(run.I0+run.N-st.Base)) {
			run.N++
			run.T1 = f.t + sec/rate
		} else {
			// the start of a run: the nearest place in the stream that fits
			skip := run != nil
			at := st.idxAt(f.t - a.Lat)
			best := int64(-1)
			fits := func(i, m int64) bool {
				for j := int64(0); j < m; j++ {
					if k+int(j) >= len(fr) {
						return j > 0
					}
					g := fr[k+int(j)]
					if g.l == 0 && g.r == 0 {
						return j > 0
					}
					if !match(g, i+j) {
						return j > 1 && (i+j >= n || st.nan(st.Base+uint64(i+j)))
					}
				}
				return true
			}
			find := func(m int64) int64 {
				for off := int64(0); off < n; off++ {
					if i := at - off; i >= 0 && i < n && fits(i, m) {
						return i
					}
					if i := at + off; off > 0 && i >= 0 && i < n && fits(i, m) {
						return i
					}
					if at-off < 0 && at+off >= n {
						break
					}
				}
				return -1
			}
			if best = find(32); best < 0 { // something happens soon afterwards
				best = find(6)
			}
			if best < 0 {
				if f.t > w.end-2*sec || at+rate > n {
					return a // the stream was not observed that far
				}
				w.viol("audio:unknown", "%s played (%d, %d) at %.4f s, which is no sample of the stream at the volume set then (%v)", a.Name, f.l, f.r, float64(f.t)/1e9, vols)
				return a
			}
			run = &AudRun{I0: st.Base + uint64(best), N: 1, T0: f.t, T1: f.t + sec/rate, Skip: skip, Silent: silent, Lo: rtForever, Hi: -rtForever}
			a.Runs = append(a.Runs, run)
			silent = 0
		}
		if !run.Dry {
			dv := f.t - a.Lat - st.when(run.I0+run.N-1)
			if dv < run.Lo {
				run.Lo = dv
			}
			if dv > run.Hi {
				run.Hi = dv
			}
		}
	}
	return a
}

// auds explains what every player played.
func (w *World) auds(st *Stream) []*Aud {
	var out []*Aud
	for _, d := range w.Devs {
		out = append(out, w.audible(d, st))
		if len(w.V) > 0 {
			return nil
		}
	}
	return out
}

func (w *World) cyclesTime() int64 {
	c := w.Sc.Srv.SyncCycles
	if c == 0 || w.cycles > 0 {
		c = 500
	}
	return int64(c) * 10 * ms
}

// syncedBy is a time by which client name, started at t, has synchronised its clock.
func (w *World) syncedBy(name string, t int64) int64 {
	sc := w.Sc
	one := sc.Net.LatMax + sc.Net.Jitter
	for _, l := range sc.Net.Lat {
		if l > one {
			one = l + sc.Net.Jitter
		}
	}
	return t + w.cyclesTime()*5/4 + 8*one + int64(sc.Srv.SyncCycles+10)*sc.Sched.SlackNS + 20*sc.Sched.StallMax + 50*ms + w.syncFaults(name, t)
}

// syncErr bounds how far a client's idea of the server's clock can be off right after
// an exchange: half the difference between the two directions' latencies.
func (w *World) syncErr(name string) int64 {
	sc := w.Sc
	lo, hi := sc.Net.LatMin, sc.Net.LatMax+sc.Net.Jitter
	for _, k := range []string{name + ">srv", "srv>" + name} {
		if l, ok := sc.Net.Lat[k]; ok {
			if l < lo {
				lo = l
			}
			if l+sc.Net.Jitter > hi {
				hi = l + sc.Net.Jitter
			}
		}
	}
	return (hi-lo)/2 + 3*sc.Sched.SlackNS + 2*sc.Sched.StallMax
}

// onTime judges the timing of runs: every stretch that begins after the player had
// synchronised, and not right after it was disturbed, sounds on schedule.
func (w *World) onTime(a *Aud, st *Stream, extra int64, skip func(r *AudRun) bool) {
	rate := int64(a.Dev.Dev.Rate)
	bound := w.syncErr(a.Name) + 2*sec/rate + extra
	synced := w.syncedBy(a.Name, a.Dev.Start)
	for _, r := range a.Runs {
		if r.T0 < synced+2*a.Lat || r.Skip {
			continue
		}
		disturbed := false
		for _, u := range a.Under {
			if u <= r.T0 && u > r.T0-sec {
				disturbed = true
			}
		}
		if disturbed || (skip != nil && skip(r)) {
			continue
		}
		w.notes["runs_timed"]++
		if r.Lo < -bound || r.Hi > bound {
			w.viol("audio:time", "%s played %s (first is %s) between %.3f ms and %.3f ms off schedule, allowed are %.3f ms", a.Name, r, st.ident(r.I0), float64(r.Lo)/1e6, float64(r.Hi)/1e6, float64(bound)/1e6)
			return
		}
		if d := r.Hi - r.Lo; d > w.notes["max_drift_ns"] {
			w.notes["max_drift_ns"] = d
		}
	}
}

// complete judges that every sample scheduled between from and to was heard, except
// those skip excludes.
//
// Missing samples right at the start of a stretch are tolerated when they fall into the
// time the player's own goroutine may have been kept waiting.
func (w *World) complete(a *Aud, st *Stream, from, to, late int64, skip func(i uint64) bool) {
	tol := 2 + int((late+w.Sc.Sched.SlackNS*2+w.Sc.Sched.StallMax*3)*int64(w.Sc.Srv.Rate)/sec)
	have := make([]bool, len(st.L))
	for _, r := range a.Runs {
		for i := r.I0; i < r.I0+r.N && i < st.n(); i++ {
			have[i-st.Base] = true
		}
	}
	lo, hi := st.idxAt(from), st.idxAt(to)
	if lo < 0 {
		lo = 0
	}
	if hi > int64(st.n()) {
		hi = int64(st.n())
	}
	age := 1 << 30
	for i := lo; i < hi; i++ {
		u := st.Base + uint64(i)
		if st.nan(u) {
			age = 0
			continue
		}
		age++
		if have[i] || (skip != nil && skip(u)) || age <= tol {
			continue
		}
		w.viol("audio:lost", "%s never played sample %d, %s, which was due at %.4f s", a.Name, u, st.ident(u), float64(st.when(u)+a.Lat)/1e9)
		return
	}
	if hi > lo {
		w.notes["samples_heard"] += hi - lo
	}
}

// inOrder judges that nothing is repeated, reversed or skipped inside a run of the stream.
func (w *World) inOrder(a *Aud, st *Stream) {
	for k, r := range a.Runs {
		if k == 0 {
			continue
		}
		p := a.Runs[k-1]
		if r.I0 < p.I0+p.N {
			w.viol("audio:order", "%s played %s after %s", a.Name, r, p)
			return
		}
	}
}
