//go:build go1.21

package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// The playlist is checked against a sequential model: every command takes effect at one
// moment between its call and its return, and the songs that follow each other in the stream
// are the model's.

type plState struct {
	songs   string // \x00-terminated names
	pos     int
	playing bool
	cur     string
	prev    string
	jumped  bool // a jump was made since the current song started
	jumpBy  int64
	good    uint64 // songs that were unreadable at first, and are readable now
	failed  uint64 // 4 bits for each song: how often it could not be read although it should
	idle    bool   // between songs
}

func (s plState) list() []string {
	if s.songs == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s.songs, "\x00"), "\x00")
}
func joinList(l []string) string {
	if len(l) == 0 {
		return ""
	}
	return strings.Join(l, "\x00") + "\x00"
}

// step applies one atomic effect; ok is false when it cannot happen in this state.
type step struct {
	what string
	do   func(s plState) (plState, bool)
}

// linOp is a client command or an observed transition of the player.
type linOp struct {
	name     string
	call     int64
	ret      int64
	steps    []step
	optional bool // may never take effect (its session broke)
	after    int  // 1 + the index of the command that comes first, as both were sent at once
}

type linSearch struct {
	ops    []*linOp // client commands
	ev     []*linOp // stream transitions, in order
	prog   []int
	evN    int
	seen   map[string]bool
	budget int
	best   int
	bestS  plState
	bestAt string
	skip   func(s plState) (plState, bool)
}

func (l *linSearch) key(s plState) string {
	var b strings.Builder
	for _, p := range l.prog {
		b.WriteByte(byte('0' + p))
	}
	fmt.Fprintf(&b, "|%d|%s|%d|%v|%s|%s|%v|%v|%d|%x|%x", l.evN, s.songs, s.pos, s.playing, s.cur, s.prev, s.jumped, s.idle, s.jumpBy, s.good, s.failed)
	return b.String()
}

// run searches for an explanation. 1: found, 0: none exists, -1: gave up.
func (l *linSearch) run(s plState) int {
	l.prog = make([]int, len(l.ops))
	l.seen = map[string]bool{}
	l.budget = 400000
	l.best = -1
	return l.dfs(s)
}

func (l *linSearch) dfs(s plState) int {
	k := l.key(s)
	if l.seen[k] {
		return 0
	}
	l.seen[k] = true
	l.budget--
	if l.budget < 0 {
		return -1
	}
	// the earliest return among what is still to happen bounds what may happen now
	minRet := rtForever
	left := 0
	who := ""
	for i, o := range l.ops {
		if l.prog[i] < len(o.steps) {
			if !o.optional {
				left++
			}
			if o.ret < minRet {
				minRet, who = o.ret, o.name
			}
		}
	}
	if l.evN < len(l.ev) {
		left += len(l.ev) - l.evN
		if l.ev[l.evN].ret < minRet {
			minRet, who = l.ev[l.evN].ret, l.ev[l.evN].name
		}
	}
	if left == 0 {
		return 1
	}
	done := l.evN
	for i := range l.ops {
		done += l.prog[i]
	}
	if done > l.best {
		l.best, l.bestS, l.bestAt = done, s, who
	}
	gaveUp := false
	try := func(st step) int {
		n, ok := st.do(s)
		if !ok {
			return 0
		}
		return l.dfs(n)
	}
	if l.evN < len(l.ev) {
		e := l.ev[l.evN]
		if e.call <= minRet {
			l.evN++
			r := try(e.steps[0])
			l.evN--
			if r == 1 {
				return 1
			}
			gaveUp = gaveUp || r < 0
		}
	}
	for i, o := range l.ops {
		if o.after > 0 && l.prog[o.after-1] < len(l.ops[o.after-1].steps) {
			continue
		}
		if l.prog[i] < len(o.steps) && (o.call <= minRet || l.prog[i] > 0) {
			l.prog[i]++
			r := try(o.steps[l.prog[i]-1])
			l.prog[i]--
			if r == 1 {
				return 1
			}
			gaveUp = gaveUp || r < 0
		}
	}
	if l.skip != nil {
		if n, ok := l.skip(s); ok {
			r := l.dfs(n)
			if r == 1 {
				return 1
			}
			gaveUp = gaveUp || r < 0
		}
	}
	if gaveUp {
		return -1
	}
	return 0
}

func clampIdx(i, n int) int {
	if i < 0 {
		return 0
	}
	if i > n {
		return n
	}
	return i
}

// cmdSteps translates a command and its response into model steps. Unknown responses are
// reported through bad.
func (w *World) cmdSteps(c *Cmd, unseen func(at int64) bool) (steps []step, bad string) {
	f := strings.Fields(c.Line)
	if len(f) == 0 {
		return nil, ""
	}
	known := c.Done
	num := func(i int) (int, bool) {
		if len(f) <= i {
			return 0, false
		}
		n, err := strconv.Atoi(f[i])
		return n, err == nil
	}
	switch f[0] {
	case "queue":
		if len(f) < 2 {
			return nil, ""
		}
		names := w.globSongs(f[1])
		at, pos := num(2)
		if len(names) > 0 {
			steps = append(steps, step{c.Line, func(s plState) (plState, bool) {
				l := s.list()
				k := len(l)
				if pos {
					k = clampIdx(at, len(l))
				}
				n := append(append(append([]string(nil), l[:k]...), names...), l[k:]...)
				s.songs = joinList(n)
				return s, true
			}})
		}
		if known {
			want := fmt.Sprintf("%d song(s) added to playlist: %s", len(names), strings.Join(names, ", "))
			if len(names) == 0 {
				want = "no song matches the glob pattern " + f[1]
			}
			if c.Resp != want {
				bad = fmt.Sprintf("%q answered %q, expected %q", c.Line, c.Resp, want)
			}
		}
	case "remove":
		at, ok := num(1)
		if !ok {
			if known && !strings.HasPrefix(c.Resp, "Usage: remove") {
				bad = fmt.Sprintf("%q answered %q", c.Line, c.Resp)
			}
			return nil, bad
		}
		var removed string
		if known {
			suffix := fmt.Sprintf(" at position %d from playlist", at)
			if !strings.HasPrefix(c.Resp, "removed song ") || !strings.HasSuffix(c.Resp, suffix) {
				return nil, fmt.Sprintf("%q answered %q", c.Line, c.Resp)
			}
			removed = strings.TrimSuffix(strings.TrimPrefix(c.Resp, "removed song "), suffix)
		}
		steps = append(steps, step{c.Line + " -> " + removed, func(s plState) (plState, bool) {
			l := s.list()
			if len(l) == 0 {
				return s, !known || removed == ""
			}
			k := clampIdx(at, len(l)-1)
			if known && l[k] != removed {
				return s, false
			}
			s.songs = joinList(append(append([]string(nil), l[:k]...), l[k+1:]...))
			return s, true
		}})
	case "jump":
		at, ok := num(1)
		if !ok {
			if known && !strings.HasPrefix(c.Resp, "Usage: jump") {
				bad = fmt.Sprintf("%q answered %q", c.Line, c.Resp)
			}
			return nil, bad
		}
		if known && c.Resp != fmt.Sprintf("jumped to %d", at) {
			return nil, fmt.Sprintf("%q answered %q", c.Line, c.Resp)
		}
		ret := c.RetT
		if !known {
			ret = rtForever
		}
		steps = append(steps, step{c.Line, func(s plState) (plState, bool) {
			s.pos = at
			if s.pos < 0 {
				s.pos = 0
			}
			if !s.idle {
				s.jumped = true
				if s.jumpBy == 0 || ret < s.jumpBy {
					s.jumpBy = ret
				}
			}
			return s, true
		}})
	case "pause", "resume":
		v := f[0] == "resume"
		if known && c.Resp != "playback "+f[0]+"d" {
			return nil, fmt.Sprintf("%q answered %q", c.Line, c.Resp)
		}
		steps = append(steps, step{c.Line, func(s plState) (plState, bool) { s.playing = v; return s, true }})
	case "playlist":
		if !known {
			return nil, ""
		}
		l, playing, cur, ok := parsePlaylist(c.Resp)
		if !ok {
			return nil, fmt.Sprintf("%q answered %q", c.Line, c.Resp)
		}
		want := joinList(l)
		ret := c.RetT
		steps = append(steps,
			step{"playlist with current song " + cur, func(s plState) (plState, bool) {
				return s, s.songs == want && s.playing == playing && (s.cur == cur || s.prev == cur || unseen(ret) && w.songs[cur] != nil)
			}})
	}
	return steps, bad
}

func parsePlaylist(r string) (l []string, playing bool, cur string, ok bool) {
	lines := strings.Split(r, "\n")
	if len(lines) < 2 || !strings.HasPrefix(lines[0], "Current Playlist (") {
		return
	}
	h := strings.TrimPrefix(lines[0], "Current Playlist (")
	switch {
	case strings.HasPrefix(h, "Playing): "):
		playing = true
	case strings.HasPrefix(h, "Paused): "):
	default:
		return
	}
	last := lines[len(lines)-1]
	if !strings.HasPrefix(last, "Current Song: ") {
		return
	}
	cur = strings.TrimPrefix(last, "Current Song: ")
	if cur == "None" {
		cur = ""
	}
	if strings.HasSuffix(lines[0], "Empty") {
		return nil, playing, cur, len(lines) == 2
	}
	for i, x := range lines[1 : len(lines)-1] {
		x = strings.TrimSpace(x)
		k := strings.Index(x, "] ")
		if !strings.HasPrefix(x, "[") || k < 0 {
			return
		}
		n, err := strconv.Atoi(strings.TrimSpace(x[1:k]))
		if err != nil || n != i {
			return
		}
		l = append(l, x[k+2:])
	}
	return l, playing, cur, true
}

// globSongs are the songs a pattern of the form name, prefix* or * stands for.
func (w *World) globSongs(pat string) []string {
	var out []string
	for _, s := range w.songList {
		n := s.Spec.Name
		if n == pat || strings.HasSuffix(pat, "*") && strings.HasPrefix(n, strings.TrimSuffix(pat, "*")) || strings.HasPrefix(pat, "*.") && strings.HasSuffix(n, pat[1:]) {
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return out
}

// linearize checks all commands, and the song sequence of the stream when st is decoded.
func (w *World) linearize(st *Stream) {
	l := &linSearch{}
	margin := w.margin()
	for _, c := range w.allCmds() {
		if c.Done && c.RetT-c.CallT > 2*sec+w.reach()+margin {
			w.viol("cmd:slow", "%q at %.3f s was answered only at %.3f s", c.Line, float64(c.CallT)/1e9, float64(c.RetT)/1e9)
			return
		}
	}
	unread := map[string]bool{}
	late := map[string]uint64{}
	for i, s := range w.songList {
		if !s.Ok || s.Spec.Kind == "flaky" {
			unread[s.Spec.Name] = true
		}
		if s.Spec.Kind == "late" {
			unread[s.Spec.Name] = true
			late[s.Spec.Name] = 1 << uint(i)
		}
	}
	for _, o := range w.Sc.Ops {
		if o.Do == "goodsong" || o.Do == "badsong" {
			b, on := late[o.S], o.Do == "goodsong"
			l.ops = append(l.ops, &linOp{name: o.String(), call: o.At, ret: o.At + ms, steps: []step{{o.Do, func(s plState) (plState, bool) {
				if s.good |= b; !on {
					s.good &^= b
				}
				return s, true
			}}}})
		}
	}
	horizon := int64(0) // songs may start unseen from here on
	if st != nil && st.Ok {
		horizon = st.notWrittenBefore(st.n()) - margin
	}
	unseen := func(at int64) bool { return at >= horizon }
	if st != nil && st.Ok {
		brk := uint64(w.Sc.Srv.Break)
		changed := func(lo, hi int64) bool {
			for _, c := range w.allCmds() {
				if (strings.HasPrefix(c.Line, "queue") || strings.HasPrefix(c.Line, "remove") || strings.HasPrefix(c.Line, "jump")) && c.CallT <= hi && (!c.Done || c.RetT >= lo) {
					return true
				}
			}
			for _, o := range w.Sc.Ops {
				if (o.Do == "goodsong" || o.Do == "badsong") && o.At <= hi && o.At+ms >= lo {
					return true
				}
			}
			return false
		}
		// silent adds that nothing was played in [from, to), where a song could have started
		silent := func(from, to uint64) {
			since := int64(-1)
			for k, x := 0, from; x < to; k, x = k+1, x+lead {
				k := k
				lo := int64(0)
				if x > 0 {
					lo = st.notWrittenBefore(x-1) - margin
				}
				if since < 0 {
					since = lo
				}
				e := x + lead
				if e > to {
					e = to
				}
				w.notes["silences"]++
				moved := changed(since, st.writtenBy(e-1))
				l.ev = append(l.ev, &linOp{name: fmt.Sprintf("no song starts at sample %d to %d", x, e), call: lo, ret: st.writtenBy(e - 1), steps: []step{{"silence", func(s plState) (plState, bool) {
					bad, ok := false, true
					for _, nm := range s.list() {
						if !unread[nm] || late[nm] != 0 && s.good&late[nm] != 0 {
							ok = false
						} else {
							bad = true
						}
					}
					// trying unreadable songs can take two attempts at a changing playlist
					return s, s.idle && (ok || bad && moved && k < 2)
				}}}})
			}
		}
		if len(st.Plays) == 0 {
			silent(0, st.n())
		} else {
			silent(0, st.Plays[0].S0)
		}
		for i, p := range st.Plays {
			i, p := i, p
			lo := st.notWrittenBefore(p.S0-1) - margin
			if p.S0 == 0 {
				lo = 0
			}
			hi := st.writtenBy(p.S0)
			if p.Info.T < hi {
				hi = p.Info.T
			}
			name := p.Song.Spec.Name
			l.ev = append(l.ev, &linOp{name: fmt.Sprintf("play %d: %s starts at sample %d", i, name, p.S0), call: lo, ret: hi, steps: []step{{"start", func(s plState) (plState, bool) {
				li := s.list()
				if len(li) == 0 {
					return s, false
				}
				s.pos %= len(li)
				if li[s.pos] != name || late[name] != 0 && s.good&late[name] == 0 {
					return s, false
				}
				s.prev, s.cur = s.cur, name
				s.jumped, s.idle, s.jumpBy = false, false, 0
				return s, true
			}}}})
			if p.Open {
				if m := st.n(); m > 0 && st.playingAt(m-1) {
					t := st.Chunks[len(st.Chunks)-1].T
					l.ev = append(l.ev, &linOp{name: fmt.Sprintf("play %d: %s still plays at sample %d", i, name, m), call: t - margin, ret: rtForever, steps: []step{{"still", func(s plState) (plState, bool) {
						if s.jumped && s.jumpBy < rtForever && m > st.consumedBy(s.jumpBy+margin)+uint64(w.Sc.Srv.Rate)+uint64(w.Sc.Srv.Chunk)+1600 {
							return s, false
						}
						return s, true
					}}}})
				}
				continue
			}
			elo := st.notWrittenBefore(p.End) - margin
			ehi := st.writtenBy(p.End)
			if p.Fuzzy {
				elo = st.notWrittenBefore(p.S0) - margin
				ehi = st.writtenBy(p.NextI)
			}
			end := p.End
			whole, fuzzy := p.Whole, p.Fuzzy
			l.ev = append(l.ev, &linOp{name: fmt.Sprintf("play %d: %s ends after %d samples at sample %d", i, name, p.K, p.End), call: elo, ret: ehi, steps: []step{{"end", func(s plState) (plState, bool) {
				if s.jumped {
					if !fuzzy && s.jumpBy < rtForever {
						// a jump takes effect within the buffered second
						if end > st.consumedBy(s.jumpBy+margin)+uint64(w.Sc.Srv.Rate)+uint64(w.Sc.Srv.Chunk)+1600 {
							return s, false
						}
					}
				} else {
					if !whole {
						return s, false
					}
					s.pos++
				}
				s.jumped, s.idle, s.jumpBy = false, true, 0
				return s, true
			}}}})
			switch next := i + 1; {
			case p.Fuzzy:
			case next < len(st.Plays):
				silent(p.End+brk, st.Plays[next].S0)
			default:
				silent(p.End+brk, st.n())
			}
		}
	}
	if len(unread) > 0 {
		l.skip = func(s plState) (plState, bool) {
			li := s.list()
			if !s.idle || len(li) == 0 {
				return s, false
			}
			p := s.pos % len(li)
			nm := li[p]
			if !unread[nm] || late[nm] != 0 && s.good&late[nm] != 0 {
				return s, false
			}
			if f := w.flaky[nm]; f != nil {
				sh := uint(4 * w.songs[nm].I)
				if int(s.failed>>sh&15) >= f.Hits() {
					return s, false
				}
				s.failed += 1 << sh
			}
			s.pos = p + 1
			s.prev, s.cur = s.cur, li[p]
			return s, true
		}
	}
	n := 0
	var names []string
	for nm := range w.SSHs {
		names = append(names, nm)
	}
	sort.Strings(names)
	for _, nm := range names {
		last := 0
		for _, c := range w.SSHs[nm].Cmds {
			if c.NoSess {
				continue
			}
			if c.After == nil {
				last = 0
			}
			steps, bad := w.cmdSteps(c, unseen)
			if bad != "" {
				w.viol("cmd:answer", "%s: %s", nm, bad)
				return
			}
			if len(steps) == 0 {
				continue
			}
			o := &linOp{name: nm + ": " + c.Line, call: c.CallT, ret: c.RetT, steps: steps}
			if !c.Done {
				o.ret = rtForever
				o.optional = true
			}
			o.after = last
			l.ops = append(l.ops, o)
			last = len(l.ops)
			n++
		}
	}
	init := plState{idle: true}
	r := l.run(init)
	w.notes["linearized_commands"] += int64(n)
	w.notes["linearized_transitions"] += int64(len(l.ev))
	w.notes["lin_states"] += int64(len(l.seen))
	switch r {
	case -1:
		w.notes["lin_gave_up"]++
	case 0:
		var hist []string
		for _, o := range l.ops {
			hist = append(hist, fmt.Sprintf("%.4f-%.4f %s", float64(o.call)/1e9, float64(o.ret)/1e9, o.name))
		}
		for _, o := range l.ev {
			hist = append(hist, fmt.Sprintf("%.4f-%.4f %s", float64(o.call)/1e9, float64(o.ret)/1e9, o.name))
		}
		w.viol("playlist:history", "no order of the commands explains their answers and the songs played; stuck before %q with playlist %v position %d; history: %s", l.bestAt, l.bestS.list(), l.bestS.pos, clipText(strings.Join(hist, " | "), 4000))
	default:
		w.notes["judged"]++
	}
}

// clipText shortens a long text.
func clipText(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return s
}
