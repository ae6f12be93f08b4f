//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"math"
	simtcell "msim/ov/github.com/gdamore/tcell"
	pb "msim/pb/comm"
	"msim/rt"
	"sort"
	"strings"
	"unicode"
)

type lyrAtom struct {
	Timestamp int64  `json:"timestamp"`
	Caption   string `json:"caption"`
}

var capWords = []string{"la ", "na", "oh! ", "hé ", "über", "日 ", "don't\tstop ", "", "\"quoted\" ", "…", "все ", "歌え、", "e\u0301t", "a b  c ", " ", "  "}

// lyrics makes a lyrics file for a song of n samples. Some are broken.
func (g *G) lyrics(n int) string {
	rate := g.sc.Srv.Rate
	var ls [][]lyrAtom
	t := int64(g.N(300))
	for k := g.N(9); k > 0; k-- {
		l := []lyrAtom{}
		for j := g.N(5); j > 0; j-- {
			l = append(l, lyrAtom{t, g.pickS(capWords...)})
			t += int64(g.N(1 + n*1000/rate/6))
		}
		ls = append(ls, l)
	}
	b, _ := json.Marshal(ls)
	s := string(b)
	if ls == nil {
		s = "[]"
	}
	switch g.N(14) {
	case 0:
		return s[:len(s)/2] + "]" // broken, and nearly always not JSON
	case 1:
		return strings.Replace(s, "timestamp\":", "timestamp\":\"x\"+", 1)
	case 2:
		return g.pickS("{}", "null", "[null,[null]]", "[[{}]]", "[[{\"timestamp\":1e400}]]", "[[1]]", "\xff\xfe", " ", "[[{\"timestamp\":\"5\",\"caption\":3}]]")
	case 3:
		return "\n " + strings.Replace(s, "},{", "} ,\n{", -1) + "\n\n"
	case 4:
		return strings.Replace(s, "\"caption\"", "\"note\":[1,{}],\"caption\"", -1)
	}
	return s
}

// manyLyrics makes a lyrics file of up to half a megabyte.
func (g *G) manyLyrics() string {
	var ls [][]lyrAtom
	for k := g.Range(2000, 8000); k > 0; k-- {
		ls = append(ls, []lyrAtom{{int64(k), g.pickS(capWords...)}, {int64(k) + 20, "and so on"}})
	}
	b, _ := json.Marshal(ls)
	return string(b)
}

// longLyrics makes a lyrics file of several kilobytes that cannot be compressed much.
func (g *G) longLyrics() string {
	var ls [][]lyrAtom
	for k := g.Range(20, 150); k > 0; k-- {
		c := make([]byte, g.Range(5, 60))
		for i := range c {
			c[i] = byte(33 + g.N(90))
		}
		ls = append(ls, []lyrAtom{{int64(g.N(3000)), string(c)}})
	}
	b, _ := json.Marshal(ls)
	return string(b)
}

// wantLyrics is what a lyrics file says; ok is false if it says nothing intelligible.
func wantLyrics(s string) (ls [][]lyrAtom, ok bool) {
	if s == "" {
		return nil, false
	}
	if err := json.NewDecoder(strings.NewReader(s)).Decode(&ls); err != nil {
		return nil, false
	}
	return ls, true
}

var tagWords = []string{"Blue", "Größe", "Ночь", "x", "The Very Long Title Of A Song That Does Not Fit On Any Terminal Line At All", "A - B", "100%", "Señor & co", " padded ", "two  blanks", "東京事変", "Cafe\u0301 del Mar", "ｗｉｄｅ and narrow", "🎵 notes 🎶", "東京は夜の七時 東京は夜の七時 東京は夜の七時 東京は夜の七時 東京は夜の七時"}

func (g *G) tags(sp *SongSpec) {
	if g.P(0.3) {
		return
	}
	sp.Tag = true
	if g.P(0.7) {
		sp.Title = g.pickS(tagWords...)
	}
	if g.P(0.7) {
		sp.Artist = g.pickS(tagWords...)
	}
	if g.P(0.6) {
		sp.Album = g.pickS(tagWords...)
	}
}

func init() {
	register(&Prop{ID: "P19", Quick: 1600, Deep: 50000,
		Rule: "Songs with tags and lyrics files of every shape (absent, empty, non-ASCII, malformed, extra fields; tags at the beginning or end of the file in every encoding, with bytes that are no text or so malformed that the tag library panics) in the music directory and below it are played, some twice and some edited meanwhile, while reads, openings and look-ups of these files fail, return short counts or take long, and metadata subscribers come and go; every announcement is compared with the files.",
		Gen: func(g *G) {
			sc := g.sc
			g.musicBase(g.Range(2, 5), 300, 5000)
			g.someStalls()
			for i := range sc.Songs {
				sp := &sc.Songs[i]
				g.tags(sp)
				g.forms(sp)
				if g.P(0.8) {
					sp.Lyrics = g.lyrics(sp.Len)
				}
				if g.P(0.03) {
					sp.Lyrics = g.manyLyrics()
				}
				if g.P(0.2) {
					sp.Name = g.pickS("sub/", "sub/deep er/", "ü/") + sp.Name
				} else if g.P(0.15) {
					sp.Name = g.pickS("two words ", "é", "a'b") + sp.Name
				}
			}
			t := 50 * ms
			total := g.total()
			again := g.P(0.4) // every song is played twice
			for k := 0; k < 2; k++ {
				for _, sp := range sc.Songs {
					g.cmd(t, "ssh1", "queue "+shellQuote(sp.Name))
					t += ms
				}
				if !again {
					break
				}
				if k == 0 {
					total *= 2
				}
			}
			g.cmd(t, "ssh1", "resume")
			lo, hi := g.musicAt(lead-9000), g.musicAt(lead+total)
			if g.P(0.4) { // somebody works on the files
				for k := g.Range(1, 4); k > 0; k-- {
					sp := sc.Songs[g.N(len(sc.Songs))]
					e := SongSpec{Tag: sp.Tag, Form: sp.Form, Title: sp.Title, Artist: sp.Artist, Album: sp.Album, Lyrics: sp.Lyrics}
					if g.P(0.6) {
						e.Tag, e.Form, e.Title, e.Artist, e.Album = false, "", "", "", ""
						g.tags(&e)
						g.forms(&e)
					}
					if g.P(0.6) {
						e.Lyrics = g.lyrics(sp.Len)
					}
					b, _ := json.Marshal(e)
					sc.add(Op{At: g.dur(100*ms, hi), Act: "srv", Do: "edit", S: sp.Name, B: b})
				}
			}
			if g.P(0.5) {
				tag := map[string]bool{} // faults count the openings of a song, so there can only be one
				for k := g.Range(1, 3); k > 0; k-- {
					sp := sc.Songs[g.N(len(sc.Songs))]
					base := sp.Name[strings.LastIndex(sp.Name, "/")+1:]
					kind := g.N(7)
					if kind == 4 || kind == 6 {
						if tag[base] {
							continue
						}
						tag[base] = true
					}
					switch kind {
					case 0:
						g.diskN("read", base+".json", g.pickS("EIO", "short", "short"), 0, g.N(2))
					case 1:
						g.diskN("open", base+".json", g.pickS("EIO", "EACCES", "EMFILE"), 0, g.N(3))
					case 2:
						g.diskN("stat", base+".json", g.pickS("EIO", "EACCES"), 0, g.N(3))
					case 3:
						g.slowDisk("read", base+".json", g.pick64(10*ms, 100*ms, 400*ms, 2*sec), 0, 3)
					case 4: // the song itself is opened first, then its tags are read
						g.diskN("open", "/"+base+"$", g.pickS("EIO", "EMFILE"), 1, 1)
						sc.setX("tagfault:"+sp.Name, 1)
					case 5:
						g.slowDisk("open", base+".json", g.pick64(10*ms, 100*ms, 400*ms, 3*sec), 0, 2)
					case 6: // its tags
						g.slowDisk("open", "/"+base+"$", g.pick64(10*ms, 400*ms, 3*sec), 1, 1)
						sc.setX("slowtag:"+sp.Name, 1)
					}
				}
			}
			if g.P(0.5) {
				g.playCmds(g.Range(1, 5), 1, max64(lo, 100*ms), hi, "pause", "jump", "jump")
			}
			for i := 1; i <= g.Range(0, 2); i++ {
				g.metaClient(fmt.Sprintf("raw%d", i), g.dur(ms, hi), 0)
			}
			g.endAt(lead+total, sec)
			sc.End += sc.x("slow")
		},
		Judge: func(w *World) {
			st := w.basics()
			if st == nil || len(w.V) > 0 {
				return
			}
			if !w.twiceOpen() {
				w.inStep(st, int64(w.Sc.Srv.Chunk)*sec/int64(w.Sc.Srv.Rate)*3/4+w.reach(), 0)
			}
			w.contents(st)
			if len(w.V) == 0 {
				w.announcedInTime(st, w.slowFiles)
			}
			vs := w.conns("raw")
			w.wellFormed(vs)
			w.routing(vs)
			if len(w.V) == 0 && !w.slowDisk() {
				w.delivered(vs)
			}
			if w.notes["songs_compared"] > 0 {
				w.notes["judged"]++
			}
		}})

	register(&Prop{ID: "P11", Quick: 1500, Deep: 40000,
		Rule: "Metadata subscribers join before, during and between songs, breaks and pauses while operators pause, resume and jump; from what each was sent by the time a sample is due, the song playing there, the time paused in it and whether it is paused must come out as in the real stream, from the newest song at the time of joining on.",
		Gen: func(g *G) {
			sc := g.sc
			g.musicBase(g.Range(2, 5), 400, 6000)
			g.someStalls()
			g.cmd(50*ms, "ssh1", "queue *.mp3")
			if g.P(0.8) {
				g.cmd(60*ms, "ssh1", "resume")
			}
			lo, hi := max64(100*ms, g.musicAt(lead-9000)), g.musicAt(lead+g.total())
			if g.P(0.25) { // they join while announcements of quick toggles are under way
				sc.Srv.Rate = g.pickI(4000, 8000, 16000)
				sc.Srv.Chunk = sc.Srv.Rate / g.pickI(1, 1, 2, 3)
				g.calm()
				s := &sc.Sched
				s.StallP, s.PreP, s.UnlP, s.RmwP = 0, 0, 0, 0
				s.LazyP, s.StallMax = []float64{0.1, 0.5}[g.N(2)], g.pick64(100e3, 1e6, 5e6)
				i := 0
				for _, t := range g.bursts(max64(100*ms, g.musicAt(lead-9000)), g.Range(1, 3), g.Range(3, 10)) {
					for n := g.N(3); n > 0 && i < 16; n-- {
						i++
						a := fmt.Sprintf("raw%d", i)
						sc.add(Op{At: t - g.dur(5*ms, 20*ms), Act: a, Do: "connect", N: 20})
						sc.add(Op{At: t + g.dur(0, s.StallMax*g.pick64(1, 1, 4)), Act: a, Do: "sub", N: 1})
					}
					hi = max64(hi, t)
				}
				sc.End = hi + 4*sec + sc.Srv.Delay
				return
			}
			g.playCmds(g.Range(2, 14), g.Range(1, 2), lo, hi, "pause", "pause", "pause", "jump", "queue")
			var at []int64
			for _, o := range sc.Ops {
				if o.Do == "cmd" && o.At > lo {
					at = append(at, o.At)
				}
			}
			for i := 1; i <= g.Range(1, 6); i++ {
				t := g.dur(max64(ms, lo-sec), hi)
				if len(at) > 0 && g.P(0.5) { // right when something happens
					t = at[g.N(len(at))] + g.pick64(0, 0, 1*ms, 3*ms, 300*ms, sec, -ms)
				}
				until := int64(0)
				if g.P(0.2) {
					until = t + g.dur(0, 4*sec)
				}
				g.metaClient(fmt.Sprintf("raw%d", i), t, until)
			}
			g.endAt(lead+g.total(), sc.Srv.Delay)
		},
		Judge: func(w *World) {
			st := w.basics()
			if st == nil || len(w.V) > 0 {
				return
			}
			st.chunkInfos(sec + w.margin())
			w.announcedInTime(st, nil)
			vs := w.conns("raw")
			w.wellFormed(vs)
			w.routing(vs)
			w.delivered(vs)
			if len(w.V) > 0 {
				return
			}
			for _, v := range vs {
				w.informed(v, st)
			}
			if w.notes["positions_compared"] > 0 {
				w.notes["judged"]++
			}
		}})

	register(&Prop{ID: "P16", Quick: 1000, Deep: 30000,
		Rule: "1-2 infoers on terminals of various sizes join before or during a concert of tagged songs with lyrics, with pauses and jumps, resizes, and - after they synchronised - suspensions and network outages; every screen must show the song, artist, album, state, time, progress and lyrics of a sample that is due at that moment.",
		Gen: func(g *G) {
			sc := g.sc
			g.concert(0, 800, 9000)
			if sc.Srv.SyncCycles > 10 {
				sc.Srv.SyncCycles = 10
			}
			far := g.P(0.08) // the infoer's clock runs away from the server's
			if s := &sc.Srv; far {
				s.Rate, s.Delay, s.SyncInterval = 2000, 8*sec, g.pick64(2, 4)*sec
				s.Chunk, s.Break = s.Rate*g.pickI(1, 2), s.Rate/g.pickI(1, 2)
				for i := range sc.Songs {
					sc.Songs[i].Len = g.Range(500, 8*s.Rate)
				}
			}
			for i := range sc.Songs {
				g.tags(&sc.Songs[i])
				if g.P(0.7) {
					sc.Songs[i].Lyrics = g.lyrics(sc.Songs[i].Len)
				}
				if g.P(0.2) {
					sc.Songs[i].Name = g.pickS("é", "e\u0301", "歌 ") + sc.Songs[i].Name
				}
			}
			lo, hi := max64(100*ms, g.musicAt(lead-9000)), g.musicAt(lead+g.total())
			if g.P(0.15) { // announcements of several toggles at once
				sc.Srv.Rate = g.pickI(4000, 8000, 16000)
				sc.Srv.Chunk = sc.Srv.Rate / g.pickI(1, 2, 3)
				lo, hi = max64(100*ms, g.musicAt(lead-9000)), g.musicAt(lead+g.total())
				g.bursts(lo, g.Range(2, 3), g.Range(1, 5))
			} else if g.P(0.7) {
				g.playCmds(g.Range(1, 6), 1, lo, hi, "pause", "pause", "jump", "volume")
			}
			if s := &sc.Sched; !far && g.P(0.3) { // tasks are interrupted
				s.PreP, s.StallP, s.LazyP = []float64{0, 0.05, 0.3}[g.N(3)], []float64{0, 0.01}[g.N(2)], []float64{0, 0.1, 0.5}[g.N(3)]
				s.UnlP, s.StallMax = []float64{0, 0.05, 0.3}[g.N(3)], g.pick64(20e3, 200e3, 2*ms)
				s.RmwP = []float64{0, 0.1, 0.5}[g.N(3)]
			}
			if far {
				hi = max64(hi, g.musicAt(lead)+g.pick64(60, 100)*sec)
			}
			sc.End = hi + sc.Srv.Delay + sec
			if g.P(0.15) { // the file claims to be hours long, but ends early
				sp := &sc.Songs[g.N(len(sc.Songs))]
				sp.Kind, sp.Have = "trunc", sp.Len
				sp.Len += sc.Srv.Rate * (3600*g.pickI(1, 2, 11) - g.N(100))
			}
			n := g.Range(1, 2)
			g.someLat("i1", "i2")
			for i := 1; i <= n; i++ {
				a := fmt.Sprintf("i%d", i)
				g.clock(a, true)
				if c := sc.Clocks[a]; far {
					c.Drift = g.pick64(-2000, -300, 300, 2000)
					sc.Clocks[a] = c
				}
				t := g.dur(20*ms, lo)
				if !far && g.P(0.4) {
					t = g.dur(20*ms, hi)
				}
				opt := ""
				switch g.N(5) {
				case 0:
					opt = "size=" + g.pickS("120x40", "60x12", "41x10", "80x9", "20x5", "3x3", "1x1")
				case 1:
					opt = "args: --lyrics-history-size " + g.pickS("0", "1", "3", "12", "100")
					sc.setX("hist:"+a, map[string]int64{"0": 0, "1": 1, "3": 3, "12": 12, "100": 100}[opt[strings.LastIndex(opt, " ")+1:]]+1)
				}
				sc.add(Op{At: t, Act: a, Do: "start", S: opt})
				syn := t + 2*sec
				for k := g.N(3); k > 0; k-- {
					at := g.dur(syn, max64(syn, hi))
					kind := g.N(5)
					if far && (kind == 2 || kind == 3) { // nothing that keeps it from synchronising
						continue
					}
					switch kind {
					case 4:
						sc.add(Op{At: at, Act: g.pickS(a, "srv"), Do: "wall", M: g.dur(-1000*sec, 1000*sec)})
					case 0, 1:
						sc.add(Op{At: at, Act: a, Do: "resize", N: g.pick64(80, 120, 50, 10, 2, 1), M: g.pick64(24, 30, 8, 3, 1)})
					case 2:
						sc.add(Op{At: at, Act: a, Do: "pause", M: g.pick64(100*ms, sec, 4*sec)})
					case 3:
						sc.add(Op{At: at, Act: "net", Do: "cut", S: a + "<>srv", M: g.pick64(100*ms, sec, 4*sec)})
					}
				}
			}
		},
		Judge: func(w *World) {
			st := w.basics()
			if st == nil || len(w.V) > 0 {
				return
			}
			w.screens(st)
			if w.notes["screens_checked"] > 0 {
				w.notes["judged"]++
			}
		}})
}

// shellQuote escapes a name for the operator's command line.
func shellQuote(s string) string {
	var b strings.Builder
	for _, r := range s {
		if strings.ContainsRune(" '\"\\", r) {
			b.WriteByte('\\')
		}
		b.WriteRune(r)
	}
	return b.String()
}

func (g *G) disk(op, match, kind string, at, delay int64) {
	b, _ := json.Marshal(map[string]interface{}{"Op": op, "Match": match, "Kind": kind, "Delay": delay})
	g.sc.add(Op{At: at, Act: "srv", Do: "disk", S: string(b)})
}

// slowDisk makes the first count operations after skip others take long.
func (g *G) slowDisk(op, match string, delay int64, skip, count int) {
	b, _ := json.Marshal(map[string]interface{}{"Op": op, "Match": match, "Kind": "slow", "Delay": delay, "Skip": skip, "Count": count})
	g.sc.add(Op{At: 0, Act: "srv", Do: "disk", S: string(b)})
	g.sc.setX("slow", g.sc.x("slow")+delay*int64(count))
}

// diskN lets count operations after the first skip fail (or all of them, if count is 0).
func (g *G) diskN(op, match, kind string, skip, count int) {
	b, _ := json.Marshal(map[string]interface{}{"Op": op, "Match": match, "Kind": kind, "Skip": skip, "Count": count})
	g.sc.add(Op{At: 0, Act: "srv", Do: "disk", S: string(b)})
}

func (w *World) slowDisk() bool {
	return w.slowFiles("")
}

// slowFiles tells whether the files of a song may be slow to read.
func (w *World) slowFiles(song string) bool {
	base := song[strings.LastIndex(song, "/")+1:]
	for _, o := range w.Sc.Ops {
		if o.Do == "disk" && strings.Contains(o.S, `"slow"`) && strings.Contains(o.S, base) {
			return true
		}
	}
	return false
}

// metaClient subscribes to metadata (and perhaps audio) at t.
func (g *G) metaClient(a string, t, until int64) {
	sc := g.sc
	sc.add(Op{At: t, Act: a, Do: "connect", N: 20})
	if g.P(0.2) {
		sc.add(Op{At: t, Act: a, Do: "sub", N: 0})
	}
	sc.add(Op{At: t, Act: a, Do: "sub", N: 1})
	if until > 0 {
		sc.add(Op{At: until, Act: a, Do: g.pickS("close", "abort")})
	}
}

// contents compares announcements with the files they are about.
func (w *World) contents(st *Stream) {
	// every failure excuses one announcement that lacks what could not be read
	excuses := map[string]int{}
	fault := func(name, what string) bool {
		base := name[strings.LastIndex(name, "/")+1:]
		match := base + ".json"
		if what == "tags" {
			match = "/" + base + "$"
		}
		if _, ok := excuses[match]; !ok {
			for _, r := range w.node("srv").FS.Rules {
				if r.Match == match && r.Kind != "slow" && r.Kind != "short" {
					excuses[match] += r.Hits()
				}
			}
		}
		excuses[match]--
		return excuses[match] >= 0
	}
	for i := range st.Infos {
		m := st.Infos[i].M
		sg := w.songs[m.SongFileName]
		if sg == nil {
			continue
		}
		md := m.Metadata
		if md == nil {
			md = &pb.NewSongInfo_SongMetadata{}
		}
		got := [3]string{md.Title, md.Artist, md.Album}
		tags, lyrics := false, false
		specs := w.specsIn(sg, st.Infos[i].T-w.margin()-2*sec-w.Sc.x("slow"), st.Infos[i].T)
		for _, sp := range specs {
			tags = tags || sp.tagsOK(got)
			ls, ok := wantLyrics(sp.Lyrics)
			if !ok {
				ls = nil
			}
			eq := len(m.Lyrics) == len(ls)
			for j := 0; eq && j < len(ls); j++ {
				at := m.Lyrics[j].GetAtoms()
				eq = len(at) == len(ls[j])
				for k := 0; eq && k < len(at); k++ {
					eq = at[k].Timestamp == ls[j][k].Timestamp && at[k].Caption == ls[j][k].Caption
				}
			}
			lyrics = lyrics || eq
		}
		sp := specs[len(specs)-1]
		if sp.Form != "" {
			w.notes["tags_"+sp.Form]++
		}
		if !tags && !(got == [3]string{} && fault(sp.Name, "tags")) {
			w.viol("meta:tags", "%s is announced at %.3f s with title, artist, album %q, its file says %q", sp.Name, float64(st.Infos[i].T)/1e9, got, [3]string{sp.Title, sp.Artist, sp.Album})
			return
		}
		if !lyrics && !(len(m.Lyrics) == 0 && fault(sp.Name, "lyrics")) {
			w.viol("meta:lyrics", "%s is announced at %.3f s with lyrics %v, its lyrics file contains %q", sp.Name, float64(st.Infos[i].T)/1e9, m.Lyrics, sp.Lyrics)
			return
		}
		if len(specs) > 1 || specs[0] != sg.Spec {
			w.notes["edited_songs_compared"]++
		}
		w.notes["songs_compared"]++
	}
}

// specsIn returns what the song's tags and lyrics were at some time from a to b, the latest last.
func (w *World) specsIn(sg *Song, a, b int64) []SongSpec {
	l := []SongSpec{sg.Spec}
	for _, e := range w.edits {
		if e.Name != sg.Spec.Name || e.T > b {
			continue
		}
		if e.T < a {
			l = l[:0]
		}
		l = append(l, e.Spec)
	}
	return l
}

// announcedInTime judges that songs and toggles are announced with the audio they are about.
func (w *World) announcedInTime(st *Stream, skip func(file string) bool) {
	lim := w.reach() + 300*ms
	chunkT := func(i uint64) int64 {
		k := sort.Search(len(st.Chunks), func(k int) bool { return st.Chunks[k].First+uint64(st.Chunks[k].N) > i })
		if k == len(st.Chunks) {
			return rtForever
		}
		return st.Chunks[k].T
	}
	for _, f := range st.Infos {
		if skip != nil && skip(f.File) {
			w.notes["slow_announcements"]++
			continue
		}
		if f.T > chunkT(f.First)+lim || skip == nil && f.T > st.when(f.First) {
			w.viol("meta:late", "%s, which starts at sample %d, was announced at %.3f s, its audio was sent at %.3f s", f.File, f.First, float64(f.T)/1e9, float64(chunkT(f.First))/1e9)
			return
		}
	}
	for _, f := range st.Togs {
		if f.Idx < st.n() && (f.T > chunkT(f.Idx)+lim || skip == nil && f.T > st.when(f.Idx)) {
			w.viol("meta:late", "the toggle to playing=%v at sample %d was announced at %.3f s, its audio was sent at %.3f s", f.Playing, f.Idx, float64(f.T)/1e9, float64(chunkT(f.Idx))/1e9)
			return
		}
	}
}

// position is where playback is at a sample, according to announcements.
type position struct {
	File    string
	First   uint64
	Paused  uint64 // samples of silence in the song so far
	Playing bool
}

// posAt derives the position from announcements (sorted by sample) before it.
func posAt(s uint64, infos []InfoRec, togs []TogRec) position {
	p := position{Playing: true}
	for _, f := range infos {
		if f.First <= s {
			p.File, p.First = f.File, f.First
		}
	}
	last := uint64(0)
	pl := true
	count := func(to uint64) {
		from := last
		if from < p.First {
			from = p.First
		}
		if !pl && to > from {
			p.Paused += to - from
		}
		last = to
	}
	for _, t := range togs {
		if t.Idx > s {
			break
		}
		if t.Playing != pl {
			count(t.Idx)
			pl = t.Playing
		}
	}
	count(s)
	p.Playing = pl
	return p
}

// interesting lists samples around which the position changes.
func (st *Stream) interesting() []uint64 {
	var out []uint64
	add := func(i uint64) {
		for _, d := range []int64{-1, 0, 1} {
			if k := int64(i) + d; k >= 0 && k < int64(st.n()) {
				out = append(out, uint64(k))
			}
		}
	}
	for _, f := range st.Infos {
		add(f.First)
	}
	for _, t := range st.Togs {
		add(t.Idx)
	}
	for i := uint64(0); i < st.n(); i += uint64(st.w.Sc.Srv.Rate)/4 + 1 {
		out = append(out, i)
	}
	sort.Slice(out, func(a, b int) bool { return out[a] < out[b] })
	return out
}

// baseOf is the first sample a client that subscribed to metadata at t must know about.
func (w *World) baseOf(st *Stream, t int64) uint64 {
	rc := w.reach()
	var base uint64
	for _, f := range st.Infos {
		if f.T <= t+rc && f.First > base {
			base = f.First
		}
	}
	return base
}

// informed judges that a metadata subscriber can tell what is played when.
func (w *World) informed(v *ConnView, st *Stream) {
	t := v.subAt(1)
	if t == 0 || v.C.Bad != nil {
		return
	}
	rc := w.reach()
	base := w.baseOf(st, t)
	var infos []InfoRec
	var togs []TogRec
	for _, m := range v.Msgs {
		switch x := m.M.(type) {
		case *pb.NewSongInfo:
			infos = append(infos, InfoRec{First: x.FirstSampleOfSongIndex, File: x.SongFileName, T: m.T})
		case *pb.PauseInfo:
			togs = append(togs, TogRec{Idx: x.ToggleSampleIndex, Playing: x.Playing, T: m.T})
		}
	}
	sort.SliceStable(infos, func(i, j int) bool { return infos[i].First < infos[j].First })
	sort.SliceStable(togs, func(i, j int) bool { return togs[i].Idx < togs[j].Idx })
	end := v.closed(w) - rc
	for _, s := range st.interesting() {
		at := st.when(s)
		if s < base || at < t+rc+w.margin() || at > end {
			continue
		}
		var ki []InfoRec
		var kt []TogRec
		for _, f := range infos {
			if f.T <= at {
				ki = append(ki, f)
			}
		}
		for _, f := range togs {
			if f.T <= at {
				kt = append(kt, f)
			}
		}
		got, want := posAt(s, ki, kt), posAt(s, st.Infos, st.Togs)
		if want.File == "" { // before the first song nothing is shown
			continue
		}
		w.notes["positions_compared"]++
		if got != want {
			w.viol("meta:position", "%s subscribed at %.3f s; from what it was sent, sample %d (due at %.3f s) is %+v, really it is %+v", v, float64(t)/1e9, s, float64(at)/1e9, got, want)
			return
		}
	}
}

// ---- the infoer's screen ----

func fmtClock(d int64) string { // seconds
	if d < 3600 {
		return fmt.Sprintf("%d:%02d", d/60, d%60)
	}
	return fmt.Sprintf("%d:%02d:%02d", d/3600, d/60%60, d%60)
}

// screens judges what infoers displayed.
func (w *World) screens(st *Stream) {
	sc := w.Sc
	var names []string
	for n := range w.Scrs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, name := range names {
		start := int64(0)
		for _, o := range sc.Ops {
			if o.Act == name && o.Do == "start" && start == 0 {
				start = o.At
			}
		}
		rc := w.reach()
		from := max64(w.syncedBy(name, start), start+sc.Srv.Delay+2*int64(sc.Srv.Chunk)*sec/int64(sc.Srv.Rate)+rc) + 500*ms
		base := w.baseOf(st, start)
		for _, f := range st.Infos { // announced while it connected
			if f.T < start+2*rc+300*ms && f.First > base {
				base = f.First
			}
		}
		slack := w.syncErr(name) + w.margin() + 2*ms
		if d := sc.Clocks[name].Drift; d != 0 {
			if d < 0 {
				d = -d
			}
			slack += (sc.Srv.SyncInterval + 2*w.cyclesTime() + 5*sec) / 1000000 * d
			w.notes["drifting_clocks"]++
		}
		if w.N[name].Alive {
			prev := start
			for _, t := range append(w.showTimes(name), w.end) {
				if t-prev > 700*ms+w.margin() && prev >= from && !w.shakenAt(name, t, rc) && !w.shakenAt(name, prev+700*ms, rc) && !w.shakenAt(name, (t+prev)/2, rc) {
					w.viol("screen:frozen", "%s did not update its screen between %.3f s and %.3f s", name, float64(prev)/1e9, float64(t)/1e9)
					return
				}
				prev = t
			}
		} else {
			w.viol("screen:gone", "%s ended at %.3f s", name, float64(w.N[name].ExitAt)/1e9)
			return
		}
		for _, sh := range w.Scrs[name] {
			if sh.T < from || w.shakenAt(name, sh.T, rc+700*ms) {
				continue
			}
			lo, hi := st.idxAt(sh.T-slack), st.idxAt(sh.T+slack)
			if lo < int64(base) || hi >= int64(st.n()) || lo < 0 {
				continue
			}
			why := ""
			ok := false
			for s := lo; s <= hi; s++ {
				if why = w.screenAt(st, name, sh, uint64(s)); why == "" {
					ok = true
					break
				}
			}
			w.notes["screens_checked"]++
			if !ok {
				why = w.screenAt(st, name, sh, uint64((lo+hi)/2))
				w.viol("screen:wrong", "%s at %.3f s (sample %d to %d is due): %s; screen: %q", name, float64(sh.T)/1e9, lo, hi, why, shorten(sh.Lines))
				return
			}
		}
	}
}

func (w *World) showTimes(name string) (out []int64) {
	for _, s := range w.Scrs[name] {
		out = append(out, s.T)
	}
	return
}

func shorten(l []string) []string {
	var out []string
	for _, s := range l {
		s = strings.Join(strings.Fields(s), " ")
		if s != "" {
			out = append(out, s)
		}
	}
	return out
}

// shakenAt reports whether a client was disturbed or its terminal resized shortly before t.
func (w *World) shakenAt(name string, t, after int64) bool {
	for _, o := range w.Sc.Ops {
		switch {
		case o.Act == name && (o.Do == "pause" || o.Do == "resize"):
		case o.Act == "net" && strings.Contains(o.S, name):
		default:
			continue
		}
		m := o.M
		if o.Do == "resize" {
			m = 0
		}
		// an interrupted connection may need a retransmission
		if o.Act == "net" {
			m += 3 * sec
		}
		if t >= o.At && t < o.At+m+after {
			return true
		}
	}
	return false
}

// paper is what a screen may show: for every cell the characters that are right there
// (none: a blank; any: undefined).
type paper struct {
	w, h  int
	cells [][]rune
	any   []bool
}

func newPaper(w, h int) *paper {
	return &paper{w: w, h: h, cells: make([][]rune, w*h), any: make([]bool, w*h)}
}

func (p *paper) at(x, y int) int {
	if x < 0 || y < 0 || x >= p.w || y >= p.h {
		return -1
	}
	return y*p.w + x
}

// add allows a character in addition to others.
func (p *paper) add(x, y int, r rune) {
	if i := p.at(x, y); i >= 0 {
		if r < ' ' {
			p.any[i] = true
		}
		p.cells[i] = append(p.cells[i], r)
	}
}

// put replaces what was there.
func (p *paper) put(x, y int, r rune) {
	if i := p.at(x, y); i >= 0 {
		p.any[i] = false
		p.cells[i] = []rune{r}
	}
}

func (p *paper) text(x, y int, s string) {
	for _, g := range glyphs(s) {
		p.add(x, y, g.r)
		if x+g.w > p.w {
			p.add(x, y, ' ')
		}
		x += g.w
	}
}

// glyph is a character with its combining marks, as a terminal shows it.
type glyph struct {
	r rune
	w int
}

func glyphs(s string) (out []glyph) {
	rs := []rune(s)
	for i := 0; i < len(rs); {
		k := i + 1
		for k < len(rs) && unicode.In(rs[k], unicode.Mn, unicode.Me) {
			k++
		}
		out = append(out, glyph{rt.Glyph(rs[i], rs[i+1:k]), simtcell.Width(rs[i])})
		i = k
	}
	return
}

// columns is how many columns a text takes.
func columns(s string) (n int) {
	for _, g := range glyphs(s) {
		n += g.w
	}
	return
}

func (p *paper) undefined(x, y, n int) {
	for i := x; i < x+n; i++ {
		if k := p.at(i, y); k >= 0 {
			p.any[k] = true
		}
	}
}

// box draws a frame with a title over everything else.
func (p *paper) box(x, y, w, h int, title string) {
	for i := x; i < x+w; i++ {
		p.put(i, y, '═')
		p.put(i, y+h-1, '═')
	}
	for j := y; j < y+h; j++ {
		p.put(x, j, '║')
		p.put(x+w-1, j, '║')
	}
	p.put(x, y, '╔')
	p.put(x+w-1, y, '╗')
	p.put(x, y+h-1, '╚')
	p.put(x+w-1, y+h-1, '╝')
	if w == 1 {
		p.add(x, y, '╔')
		p.add(x, y+h-1, '╚')
	}
	for i, r := range []rune(title) {
		if 2+i < w-1 {
			p.put(x+2+i, y, r)
		} else {
			p.add(x+2+i, y, r)
		}
	}
}

// differs tells where a screen shows what it should not ("": nowhere).
func (p *paper) differs(lines []string) string {
	for y, l := range lines {
		for x, r := range []rune(l) {
			i := p.at(x, y)
			if i < 0 || p.any[i] || r == rt.Covered {
				continue
			}
			ok := len(p.cells[i]) == 0 && r == ' '
			for _, c := range p.cells[i] {
				ok = ok || c == r
			}
			if !ok {
				want := ' '
				if len(p.cells[i]) > 0 {
					want = p.cells[i][0]
				}
				return fmt.Sprintf("row %d, column %d of %dx%d should show %q, shows %q", y, x, p.w, p.h, want, r)
			}
		}
	}
	return ""
}

// volumesAt lists the volumes an infoer may show at t.
func (w *World) volumesAt(st *Stream, t int64) []float64 {
	d := w.reach() + w.margin() + 300*ms
	out := []float64{0.1}
	for _, v := range st.Vols {
		if v.T < t-d {
			out = out[:0]
		}
		if v.T <= t+d {
			out = append(out, v.V)
		}
	}
	return out
}

// screenAt explains a screen as that of sample s ("": it is).
func (w *World) screenAt(st *Stream, name string, sh Shot, s uint64) string {
	why := ""
	for _, v := range w.volumesAt(st, sh.T) {
		if why = w.screenFor(st, name, sh, s, v); why == "" {
			break
		}
	}
	return why
}

func (w *World) screenFor(st *Stream, name string, sh Shot, s uint64, vol float64) string {
	sc := w.Sc
	h := len(sh.Lines)
	if h == 0 {
		return ""
	}
	wd := len([]rune(sh.Lines[0]))
	if wd == 0 {
		return ""
	}
	p := posAt(s, st.Infos, st.Togs)
	var pl *Play
	for _, x := range st.Plays {
		if x.S0 <= s {
			pl = x
		}
	}
	title, second := "None", ""
	var sp SongSpec
	if p.File != "" {
		sp = w.songs[p.File].Spec
		title = p.File
		if sp.Title != "" {
			title = sp.Title
		}
		if sp.Artist != "" {
			second = sp.Artist
			if sp.Album != "" {
				second += " - " + sp.Album
			}
		}
	}
	state := "Playing"
	if !p.Playing {
		state = "Paused"
	}
	pp := newPaper(wd, h)
	pp.text(1, h-4, title)
	vt := fmt.Sprintf("Volume: %06.2f%%", vol*100)
	pp.text(wd-len(vt)-1, h-4, vt)
	pp.text(1, h-3, second)
	bar := wd - 2
	hist := int64(5)
	if x := sc.x("hist:" + name); x > 0 {
		hist = x - 1
	}
	if int64(h) < hist+7 {
		hist = int64(h) - 7
	}
	defined := pl != nil && s <= pl.End && p.File != "" && pl.Info.First == p.First
	if !defined { // between songs only the song itself is
		n := columns(second)
		pp.undefined(1+n, h-3, wd-2-n)
		pp.undefined(1, h-2, bar)
		for i := 0; i < int(hist); i++ {
			pp.undefined(1, h-7-i, bar)
		}
	} else {
		in := int64(s - p.First - p.Paused)
		rate := int64(sc.Srv.Rate)
		clk := fmtClock(in/rate) + "/" + fmtClock(int64(sp.Len)/rate)
		pp.text(wd-len(clk)-1, h-3, clk)
		x := float64(bar) * (float64(in) / float64(sp.Len))
		head := int(math.Floor(x))
		for i := 0; i < bar; i++ {
			switch {
			case i < head || i == head && head == bar-1:
				pp.add(1+i, h-2, '█')
			case i == head:
				switch f := x - math.Floor(x); {
				case f < 0.3:
					pp.add(1+i, h-2, ' ')
				case f < 0.7:
					pp.add(1+i, h-2, '▌')
				default:
					pp.add(1+i, h-2, '█')
				}
				for _, lim := range []float64{0, 0.3, 0.7, 1} { // on the edge both will do
					if f := x - math.Floor(x); math.Abs(f-lim) < 1e-6 {
						pp.undefined(1+i, h-2, 1)
					}
				}
			}
		}
		// lyrics
		ls, ok := wantLyrics(sp.Lyrics)
		if !ok {
			ls = nil
		}
		tms := in * 1000 / rate
		next := 0
		for ; next < len(ls); next++ {
			if l := ls[next]; len(l) > 0 && tms < l[0].Timestamp {
				break
			}
		}
		for i := 0; i < int(hist); i++ {
			k := next - 1 - i
			want := ""
			if k >= 0 && k < len(ls) {
				for _, a := range ls[k] {
					if a.Timestamp < tms+100 {
						want += a.Caption
					}
				}
			}
			pp.text(1, h-7-i, want)
		}
	}
	pp.box(0, h-5, wd, 5, state)
	if hist > 0 {
		pp.box(0, h-7-int(hist), wd, int(hist)+2, "Lyrics")
	}
	if why := pp.differs(sh.Lines); why != "" {
		return why + fmt.Sprintf(" (song %q, %q, %s, volume %s)", title, second, state, vt)
	}
	if defined {
		w.notes["screens_in_song"]++
	}
	return ""
}

// twiceOpen tells whether a song may have been opened a second time, to be played, when its
// tags were about to be read for the first time: reading the song itself may then be slow.
func (w *World) twiceOpen() bool {
	sc := w.Sc
	slow, jump := false, false
	for _, sp := range sc.Songs {
		if sc.x("slowtag:"+sp.Name) > 0 {
			slow = true
			if sp.Len+sc.Srv.Break < 2*sc.Srv.Chunk+1024 {
				return true
			}
		}
	}
	for _, o := range sc.Ops {
		if o.Do == "disk" && strings.Contains(o.S, ".json") && strings.Contains(o.S, `"slow"`) {
			jump = true // the tags are read after the lyrics
		}
		if o.Do == "cmd" && strings.HasPrefix(o.S, "jump") {
			jump = true
		}
	}
	return slow && jump
}
