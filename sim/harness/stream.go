//go:build go1.21

package main

import (
	"fmt"
	"math"
	pb "msim/pb/comm"
	"sort"
)

// Stream is the audio stream as one subscriber received it over one connection.
type Stream struct {
	w      *World
	Name   string
	Chunks []ChunkRec
	Base   uint64 // index of the first received sample
	L, R   []float64
	Infos  []InfoRec
	Togs   []TogRec
	Vols   []VolRec
	CIs    []CIRec
	Ok     bool
	Plays  []*Play
}

type ChunkRec struct {
	ID    int64
	Start int64
	First uint64
	N     int
	T, Q  int64
}
type InfoRec struct {
	First uint64
	File  string
	Len   int64
	T, Q  int64
	M     *pb.NewSongInfo
	used  bool
}
type TogRec struct {
	Idx     uint64
	Playing bool
	T, Q    int64
}
type VolRec struct {
	V    float64
	T, Q int64
}
type CIRec struct {
	Start int64
	First uint64
	N     uint64
	T     int64
}

// Play is one song's appearance in the stream.
type Play struct {
	Info  *InfoRec
	Song  *Song
	S0    uint64
	End   uint64 // index after its last sample or pause (start of the break)
	K     int    // samples of the song that were played
	Whole bool   // all samples of the song
	Cut   bool   // ended early
	Open  bool   // still going when the observation ends
	Fuzzy bool   // ended while paused: where exactly cannot be seen
	NextI uint64 // start of the next play (0: none)
}

func (s *Stream) n() uint64         { return s.Base + uint64(len(s.L)) }
func isNaN(f float64) bool          { return math.IsNaN(f) }
func (s *Stream) nan(i uint64) bool { return isNaN(s.L[i-s.Base]) && isNaN(s.R[i-s.Base]) }

// playingAt is the announced state at sample i.
func (s *Stream) playingAt(i uint64) bool {
	k := sort.Search(len(s.Togs), func(k int) bool { return s.Togs[k].Idx > i })
	if k == 0 {
		return true
	}
	return s.Togs[k-1].Playing
}

// collect reads what raw client name received on connection conn.
func (w *World) collect(name string, conn int) *Stream {
	s := &Stream{w: w, Name: name}
	r := w.Raws[name]
	if r == nil {
		return s
	}
	for _, m := range r.Msgs {
		if m.Conn != conn {
			continue
		}
		switch x := m.M.(type) {
		case *pb.QueueChunkRequest:
			if len(s.Chunks) == 0 {
				s.Base = x.FirstSampleIndex
			}
			s.Chunks = append(s.Chunks, ChunkRec{x.ChunkId, x.StartTime, x.FirstSampleIndex, len(x.SampleLow), m.T, m.Q})
			if len(x.SampleLow) != len(x.SampleHigh) {
				w.viol("stream:size", "%s: chunk %d has %d low and %d high samples", name, x.ChunkId, len(x.SampleLow), len(x.SampleHigh))
				return s
			}
			s.L = append(s.L, x.SampleLow...)
			s.R = append(s.R, x.SampleHigh...)
		case *pb.ChunkInfo:
			s.CIs = append(s.CIs, CIRec{x.StartTime, x.FirstSampleIndex, x.ChunkSize, m.T})
		case *pb.NewSongInfo:
			s.Infos = append(s.Infos, InfoRec{x.FirstSampleOfSongIndex, x.SongFileName, x.SongLength, m.T, m.Q, x, false})
		case *pb.PauseInfo:
			s.Togs = append(s.Togs, TogRec{x.ToggleSampleIndex, x.Playing, m.T, m.Q})
		case *pb.SetVolumeRequest:
			s.Vols = append(s.Vols, VolRec{x.Volume, m.T, m.Q})
		}
	}
	sort.SliceStable(s.Infos, func(i, j int) bool { return s.Infos[i].First < s.Infos[j].First })
	sort.SliceStable(s.Togs, func(i, j int) bool { return s.Togs[i].Idx < s.Togs[j].Idx })
	return s
}

// integrity checks the chunk sequence itself. It reports whether the stream can be
// indexed by sample.
func (s *Stream) integrity() bool {
	w := s.w
	c := w.Sc.Srv
	if len(s.Chunks) == 0 {
		return false
	}
	w.notes["chunks"] += int64(len(s.Chunks))
	f := s.Chunks[0]
	for i, k := range s.Chunks {
		if k.N != c.Chunk {
			w.viol("stream:size", "%s: chunk %d carries %d samples, the chunk size is %d", s.Name, k.ID, k.N, c.Chunk)
			return false
		}
		if k.ID != f.ID+int64(i) {
			w.viol("stream:order", "%s: received chunk %d where chunk %d was due", s.Name, k.ID, f.ID+int64(i))
			return false
		}
		if want := f.First + uint64(i)*uint64(c.Chunk); k.First != want {
			w.viol("stream:index", "%s: chunk %d starts at sample %d, should be %d", s.Name, k.ID, k.First, want)
			return false
		}
		want := f.Start + int64(i)*int64(c.Chunk)*sec/int64(c.Rate)
		if d := k.Start - want; d > 100e3 || d < -100e3 {
			w.viol("stream:time", "%s: chunk %d is to be played at %d, %d ns off the sample clock", s.Name, k.ID, k.Start, d)
			return false
		}
	}
	if f.ID >= 0 && f.First != uint64(f.ID)*uint64(c.Chunk) {
		w.viol("stream:index", "%s: chunk %d starts at sample %d", s.Name, f.ID, f.First)
		return false
	}
	s.Ok = true
	return true
}

// chunkInfos checks that every chunk is announced once, correctly, on the META channel.
func (s *Stream) chunkInfos(slack int64) {
	w := s.w
	by := map[uint64]CIRec{}
	for _, c := range s.CIs {
		if o, dup := by[c.First]; dup {
			w.viol("stream:chunkinfo", "%s: chunk at sample %d announced twice (%v, %v)", s.Name, c.First, o, c)
			return
		}
		by[c.First] = c
	}
	for _, k := range s.Chunks {
		c, ok := by[k.First]
		if !ok {
			if w.end-k.T > slack {
				w.viol("stream:chunkinfo", "%s: chunk %d (sample %d) was never announced", s.Name, k.ID, k.First)
				return
			}
			continue
		}
		if c.Start != k.Start || int(c.N) != k.N {
			w.viol("stream:chunkinfo", "%s: chunk %d is announced with start %d size %d, sent with start %d size %d", s.Name, k.ID, c.Start, c.N, k.Start, k.N)
			return
		}
	}
}

// trim forgets the last chunks, which announcements may still be under way for.
func (s *Stream) trim(slack int64) {
	for len(s.Chunks) > 0 && s.w.end-s.Chunks[len(s.Chunks)-1].T < slack {
		n := s.Chunks[len(s.Chunks)-1].N
		s.Chunks = s.Chunks[:len(s.Chunks)-1]
		s.L, s.R = s.L[:len(s.L)-n], s.R[:len(s.R)-n]
	}
	for len(s.Infos) > 0 && s.Infos[len(s.Infos)-1].First >= s.n() {
		s.Infos = s.Infos[:len(s.Infos)-1]
	}
}

// decode explains every sample of the stream as part of a song, a pause, a break or
// idle time. It needs the stream from its beginning.
func (s *Stream) decode() bool {
	w := s.w
	if !s.Ok || s.Base != 0 {
		return false
	}
	brk := uint64(w.Sc.Srv.Break)
	n := s.n()
	i := uint64(0)
	ii := 0
	fail := func(class, f string, a ...interface{}) bool {
		w.viol(class, "%s: %s", s.Name, fmt.Sprintf(f, a...))
		return false
	}
	for k := 1; k < len(s.Infos); k++ {
		if s.Infos[k].First == s.Infos[k-1].First {
			if s.Infos[k].File == s.Infos[k-1].File {
				return fail("song:announced-twice", "%s announced twice at sample %d", s.Infos[k].File, s.Infos[k].First)
			}
			// a song without samples followed immediately by another is possible only without breaks
			if brk > 0 {
				return fail("song:announced-twice", "%s and %s both announced at sample %d", s.Infos[k-1].File, s.Infos[k].File, s.Infos[k].First)
			}
		}
	}
	for i < n {
		next := n
		if ii < len(s.Infos) {
			next = s.Infos[ii].First
		}
		// idle
		for ; i < next; i++ {
			if !s.nan(i) {
				id := s.ident(i)
				return fail("song:unannounced", "sample %d is %s, but no song was announced to be playing there", i, id)
			}
		}
		if i >= n {
			break
		}
		inf := &s.Infos[ii]
		inf.used = true
		ii++
		sg := w.songs[inf.File]
		if sg == nil {
			return fail("song:unknown", "song %q announced at sample %d does not exist", inf.File, inf.First)
		}
		if !sg.Ok {
			return fail("song:unreadable", "unreadable song %q announced at sample %d", inf.File, inf.First)
		}
		if inf.Len != int64(sg.Spec.Len) {
			return fail("song:length", "song %q announced with length %d, has %d", inf.File, inf.Len, sg.Spec.Len)
		}
		p := &Play{Info: inf, Song: sg, S0: i}
		s.Plays = append(s.Plays, p)
		limit := n
		if ii < len(s.Infos) {
			limit = s.Infos[ii].First
		}
		for {
			if i >= limit {
				break
			}
			if !s.playingAt(i) {
				if !s.nan(i) {
					return fail("pause:audible", "sample %d is %s although a pause was announced", i, s.ident(i))
				}
				i++
				continue
			}
			if p.K == sg.Avail {
				p.Whole = true
				break
			}
			x, y := s.L[i-s.Base], s.R[i-s.Base]
			if isNaN(x) && isNaN(y) {
				p.Cut = true
				break
			}
			if x != float64(sg.L[p.K])/32768 || y != float64(sg.R[p.K])/32768 {
				return fail("song:samples", "sample %d should be %s[%d], is %s", i, sg.Spec.Name, p.K, s.ident(i))
			}
			p.K++
			i++
		}
		p.End = i
		if p.K == sg.Avail {
			p.Whole = true
		}
		if i >= limit && i < n { // the next song begins while this one seemed to be paused
			p.NextI = limit
			p.Fuzzy = true
			p.Cut = !p.Whole
			if limit-p.S0 < brk {
				return fail("break:size", "%s starts %d samples after %s, less than one break", s.Infos[ii].File, limit-p.S0, inf.File)
			}
			continue
		}
		if i >= n {
			p.Open = true
			p.Fuzzy = true
			break
		}
		// exactly one break follows
		for e := i + brk; i < e && i < n; i++ {
			if !s.nan(i) {
				return fail("break:size", "break after %s at sample %d is only %d samples long, should be %d", inf.File, p.End, i-p.End, brk)
			}
			if ii < len(s.Infos) && i == s.Infos[ii].First {
				return fail("break:size", "%s announced to start at sample %d, inside the break after %s (samples %d to %d)", s.Infos[ii].File, i, inf.File, p.End, e)
			}
		}
		if ii < len(s.Infos) {
			p.NextI = s.Infos[ii].First
		}
	}
	return true
}

// ident says what a sample is.
func (s *Stream) ident(i uint64) string {
	x, y := s.L[i-s.Base], s.R[i-s.Base]
	if isNaN(x) || isNaN(y) {
		if isNaN(x) && isNaN(y) {
			return "silence"
		}
		return fmt.Sprintf("half silence (%v, %v)", x, y)
	}
	if id, ok := s.w.samples[[2]int16{int16(x * 32768), int16(y * 32768)}]; ok {
		return fmt.Sprintf("%s[%d]", s.w.songList[id.Song].Spec.Name, id.Idx)
	}
	return fmt.Sprintf("(%v, %v), no sample of any song", x, y)
}

// when is the true time at which sample i is scheduled to be heard.
func (s *Stream) when(i uint64) int64 {
	f := s.Chunks[0]
	t := f.Start + int64(i-f.First)*sec/int64(s.w.Sc.Srv.Rate)
	n := s.w.N["srv"]
	return n.TrueOf(t)
}

// consumedBefore is a lower bound on how many samples the server had read out of its
// playlist buffer when it had sent the chunks received by t.
func (s *Stream) consumedBy(t int64) uint64 {
	k := sort.Search(len(s.Chunks), func(k int) bool { return s.Chunks[k].T > t })
	if k == 0 {
		return s.Base
	}
	return s.Chunks[k-1].First + uint64(s.Chunks[k-1].N)
}

// notWrittenBefore is a time before which sample i cannot have been produced: the
// buffer between playlist and stream holds one second.
func (s *Stream) notWrittenBefore(i uint64) int64 {
	buf := uint64(s.w.Sc.Srv.Rate)
	if i <= buf+2 {
		return 0
	}
	j := i - buf - 2 // must have been read out, in the chunk containing it
	for k, c := range s.Chunks {
		if c.First+uint64(c.N) > j {
			if k == 0 {
				return 0
			}
			return s.Chunks[k-1].T
		}
	}
	if len(s.Chunks) == 0 {
		return 0
	}
	return s.Chunks[len(s.Chunks)-1].T
}

// writtenBy is a time by which sample i had been produced.
func (s *Stream) writtenBy(i uint64) int64 {
	for _, c := range s.Chunks {
		if c.First+uint64(c.N) > i {
			return c.T
		}
	}
	return rtForever
}

const rtForever = int64(1) << 61
