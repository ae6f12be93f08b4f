//go:build go1.21

package main

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"github.com/golang/protobuf/proto"
	"github.com/urfave/cli"
	"io"
	simtcell "msim/ov/github.com/gdamore/tcell"
	simssh "msim/ov/github.com/gliderlabs/ssh"
	pb "msim/pb/comm"
	"msim/rt"
	"msim/slots"
	"os"
	"sort"
	"strings"
	"syscall"

	tcell "github.com/gdamore/tcell"
)

const (
	musicPort = ":13333"
	sshPort   = ":13334"
)

// Violation is one broken property.
type Violation struct {
	Class string `json:"class"` // what kind of failure (stable under minimisation)
	Msg   string `json:"msg"`
	At    int64  `json:"at"`
}

// World is one simulated deployment while a scenario runs in it.
type World struct {
	flaky map[string]*rt.FSRule
	edits []Edit
	Sc    *Scenario
	Sim   *rt.Sim
	N     map[string]*rt.Node
	Raws  map[string]*Raw
	SSHs  map[string]*SSH
	Devs  []DevRec
	Scrs  map[string][]Shot
	V     []Violation
	seq   int64
	end   int64

	samples  map[[2]int16]SampleID
	songs    map[string]*Song
	songList []*Song
	expDown  map[string]bool // nodes the scenario takes down
	downAt   map[string]int64
	exits    []ExitRec
	downs    [][2]int64 // server outages
	notes    map[string]int64
	opts     map[string]string
	cycles   int // time exchanges a client makes, if that could not be set
}

type ExitRec struct {
	Node  string
	Code  int
	At    int64
	Crash string
	Start int64
	Opt   string // what went wrong with the client's machine
	Term  bool   // left its terminal unusable
}

type SampleID struct {
	Song int
	Idx  int
}

type Song struct {
	Spec  SongSpec
	I     int
	L, R  []int16
	Avail int // samples that can be read
	Ok    bool
}

// Edit is a change of a song's tags and lyrics.
type Edit struct {
	T    int64
	Name string
	Spec SongSpec
}

type DevRec struct {
	Node  string
	Inc   int
	Dev   *rt.AudioDev
	Start int64
}

type Shot struct {
	T     int64
	Inc   int
	Lines []string
}

var hostOf = map[string]string{"srv": "10.0.0.1", "p1": "10.0.0.11", "p2": "10.0.0.12", "p3": "10.0.0.13", "i1": "10.0.0.21", "i2": "10.0.0.22", "obs": "10.0.1.250", "obs2": "10.0.1.251"}

var hostAlias map[string]string // where the nodes of the current run are, if not where they usually are

func host(n string) string {
	if h, ok := hostAlias[n]; ok {
		return h
	}
	if h, ok := hostOf[n]; ok {
		return h
	}
	k := 0
	fmt.Sscanf(strings.TrimLeft(n, "abcdefghijklmnopqrstuvwxyz"), "%d", &k)
	if strings.HasPrefix(n, "raw") {
		return fmt.Sprintf("10.0.1.%d", k)
	}
	return fmt.Sprintf("10.0.2.%d", k)
}

func (w *World) viol(class, f string, a ...interface{}) {
	if len(w.V) < 50 {
		w.V = append(w.V, Violation{class, fmt.Sprintf(f, a...), w.Sim.Now()})
		w.Sim.Tracef("VIOLATION %s: %s", class, fmt.Sprintf(f, a...))
	}
}

// songSamples are unique for every (song, index), spread over the whole range.
func songSample(song, idx int) [2]int16 {
	v := idx<<4 | song&15
	return [2]int16{int16((v>>10&1023)*58 - 30000), int16((v&1023)*58 - 30000)}
}

func loudSample(song, idx int) [2]int16 {
	s := songSample(song, idx)
	switch idx % 8 {
	case 1:
		s[0] = 32767
	case 3:
		s[1] = 32767
	case 5:
		s[0] = -32768
	case 7:
		s[1] = -32768
	}
	return s
}

func (w *World) makeSongs() {
	w.samples = map[[2]int16]SampleID{}
	w.songs = map[string]*Song{}
	w.flaky = map[string]*rt.FSRule{}
	for i, sp := range w.Sc.Songs {
		s := &Song{Spec: sp, I: i, Avail: sp.Len, Ok: true}
		n := sp.Len
		if sp.Kind == "trunc" {
			n = sp.Have
		}
		for k := 0; k < n; k++ {
			x := songSample(i, k)
			if sp.Kind == "loud" {
				x = loudSample(i, k)
			}
			s.L, s.R = append(s.L, x[0]), append(s.R, x[1])
			w.samples[x] = SampleID{i, k}
		}
		switch sp.Kind {
		case "trunc":
			s.Avail = sp.Have
		case "garbage", "noread":
			s.Ok = false
			s.Avail = 0
		}
		w.songs[sp.Name] = s
		w.songList = append(w.songList, s)
	}
}

func (s *Song) file() []byte {
	if s.Spec.Kind == "garbage" {
		return garbage(s.Spec)
	}
	var out []byte
	if s.Spec.Tag {
		out = append(out, s.Spec.id3()...)
	}
	out = append(out, "SIMSONG1"...)
	var n [4]byte
	binary.LittleEndian.PutUint32(n[:], uint32(s.Spec.Len))
	out = append(out, n[:]...)
	for i := 0; i < s.Avail; i++ {
		var b [4]byte
		binary.LittleEndian.PutUint16(b[:], uint16(s.L[i]))
		binary.LittleEndian.PutUint16(b[2:], uint16(s.R[i]))
		out = append(out, b[:]...)
	}
	if s.panics() {
		out = append(out, "!BAD"...)
	}
	if s.Spec.Tag {
		out = append(out, s.Spec.id3v1()...)
	}
	return out
}

// panics tells whether the decoder panics where the song is cut off.
func (s *Song) panics() bool { return s.Spec.Kind == "trunc" && s.Avail%512 == 0 }

func garbage(sp SongSpec) []byte {
	b := make([]byte, sp.Len)
	if sp.Len%3 == 0 { // the real decoder panics
		b = make([]byte, 418)
		copy(b, "\xff\xfb\x92")
		b[15], b[17] = 0x40, 0x24
		return b
	}
	r := rt.NewRand(uint64(sp.Len)+7, sp.Name)
	for i := range b {
		b[i] = byte(r.U64()) & 0x7f
	}
	return b
}

func (w *World) musicDir() string {
	if w.Sc.Srv.MusicDir != "" {
		return w.Sc.Srv.MusicDir
	}
	return "audio"
}

const defaultUsers = `{"op":{"password":"secret"},"dj":{"password":"hunter2"},"keyonly":{"pubKey":""}}`

func NewWorld(sc *Scenario, trace bool) *World {
	w := &World{Sc: sc, N: map[string]*rt.Node{}, Raws: map[string]*Raw{}, SSHs: map[string]*SSH{}, Scrs: map[string][]Shot{}, expDown: map[string]bool{}, downAt: map[string]int64{}, notes: map[string]int64{}, opts: map[string]string{}}
	cfg := rt.Config{Seed: sc.Sched.Seed, Policy: sc.Sched.Policy, MeanQ: sc.Sched.MeanQ, SlackNS: sc.Sched.SlackNS, StallP: sc.Sched.StallP, StallMax: sc.Sched.StallMax, PreP: sc.Sched.PreP, UnlP: sc.Sched.UnlP, RmwP: sc.Sched.RmwP, LazyP: sc.Sched.LazyP, WinLo: sc.Sched.WinLo, WinHi: sc.Sched.WinHi, Trace: trace}
	w.Sim = rt.New(cfg)
	hostAlias = sc.Hosts
	n := w.Sim.Net
	if c := sc.Net; c.SegMax != 0 {
		n.LatMin, n.LatMax, n.Jitter, n.SegMax, n.SegTiny, n.ShortRead, n.Window = c.LatMin, c.LatMax, c.Jitter, c.SegMax, c.SegTiny, c.ShortRead, c.Window
	}
	n.SetLat(host("obs"), host("srv"), 10e3)
	n.SetLat(host("srv"), host("obs"), 10e3)
	var ks []string
	for k := range sc.Net.Lat {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		p := strings.SplitN(k, ">", 2)
		n.SetLat(host(p[0]), host(p[1]), sc.Net.Lat[k])
	}
	w.makeSongs()
	w.Sim.OnCrash = func(nd *rt.Node) {
		w.viol("crash:"+nd.Name[:1], "%s crashed: %s", nd.Name, nd.Crash)
	}
	return w
}

func (w *World) node(name string) *rt.Node {
	if n := w.N[name]; n != nil {
		return n
	}
	n := w.Sim.NewNode(name, host(name))
	w.N[name] = n
	c, ok := w.Sc.Clocks[name]
	if !ok {
		c = ClkCfg{Mono: 1000 * sec, Wall: 16e17}
	}
	n.MonoBase, n.WallBase, n.DriftPPM = c.Mono, c.Wall, c.Drift
	return n
}

func durArg(ns int64) string { return fmt.Sprintf("%dus", ns/1000) }

func (w *World) startServer() {
	n := w.node("srv")
	c := w.Sc.Srv
	d := w.musicDir()
	if n.Inc == 0 {
		for _, s := range w.songList {
			n.FS.Mkdir(d)
			if s.Spec.Kind == "new" {
				continue
			}
			n.FS.Put(d+"/"+s.Spec.Name, s.file())
			switch s.Spec.Kind {
			case "late":
				n.FS.Put(d+"/"+s.Spec.Name, garbage(s.Spec))
			case "flaky": // cannot be opened once or twice
				r := &rt.FSRule{Op: "open", Match: "/" + s.Spec.Name + "$", Kind: "EIO", Skip: s.Spec.Have / 4, Count: 1 + s.Spec.Have%2}
				n.FS.Rules = append(n.FS.Rules, r)
				w.flaky[s.Spec.Name] = r
			}
			if s.Spec.Lyrics != "" {
				n.FS.Put(d+"/"+s.Spec.Name+".json", []byte(s.Spec.Lyrics))
			}
			if s.Spec.Kind == "noread" {
				n.FS.Rules = append(n.FS.Rules, &rt.FSRule{Op: "open", Match: "/" + s.Spec.Name, Kind: "EACCES"})
			}
		}
		switch w.Sc.x("nodir") {
		case 0:
			n.FS.Mkdir(d)
		case 1: // a file where the music directory should be
			n.FS.Put(d, []byte("x"))
		}
		u := c.Users
		if u == "" {
			u = defaultUsers
		}
		if u != "-" {
			n.FS.Put("/users.json", []byte(u))
		}
		var fs []string
		for f := range c.Files {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		for _, f := range fs {
			n.FS.Put(f, []byte(c.Files[f]))
		}
	}
	key := c.HostKey
	if key == "" {
		key = "id_rsa"
	}
	if c.FDLimit > 0 {
		n.FDLimit = c.FDLimit
	}
	n.Args = []string{"music-sync-server", "--address", n.Host, "--ssh-address", n.Host, "--music-dir", d, "--host-key", key,
		"--sample-rate", fmt.Sprint(c.Rate), "--stream-chunk-size", fmt.Sprint(c.Chunk), "--song-break-size", fmt.Sprint(c.Break),
		"--stream-start-delay", durArg(c.StartDelay), "--stream-delay", durArg(c.Delay), "--logging", "warn"}
	if c.Argv != nil {
		n.Args = append([]string{"music-sync-server"}, c.Argv...)
		if n.Inc > 0 && c.Argv2 != nil {
			n.Args = append([]string{"music-sync-server"}, c.Argv2...)
		}
	}
	w.Sim.Start(n, slots.All["srv"].Reset, slots.All["srv"].Main)
}

func (w *World) startClient(name, opt string) {
	n := w.node(name)
	if n.Alive {
		return
	}
	w.harvest(name)
	w.opts[name] = opt
	c := w.Sc.Srv
	bin := "music-sync-player"
	if name[0] == 'i' {
		bin = "music-sync-infoer"
	}
	n.Args = []string{bin, "--address", host("srv"), "--sample-rate", fmt.Sprint(c.Rate)}
	if name[0] == 'p' {
		n.Args = append(n.Args, "--logging", "warn")
	}
	if strings.HasPrefix(opt, "args:") {
		n.Args = append(n.Args, strings.Fields(opt[5:])...)
	}
	if strings.HasPrefix(opt, "argv:") {
		var a []string
		json.Unmarshal([]byte(opt[5:]), &a)
		n.Args = append([]string{bin}, a...)
	}
	sl := slots.All[name]
	w.Sim.Start(n, func() {
		sl.Reset()
		if c.SyncCycles > 0 && !sl.SetSyncCycles(c.SyncCycles) {
			w.cycles = 500
		}
		if c.SyncInterval > 0 {
			sl.SetSyncInterval(c.SyncInterval)
		}
	}, sl.Main)
	if strings.Contains(opt, "otofail") {
		n.Vals["otofail"] = true
	}
	if strings.Contains(opt, "screenfail") {
		n.Vals["screenfail"] = true
	}
	if strings.Contains(opt, "initfail") {
		n.Vals["initfail"] = true
	}
	var wd, ht int
	if i := strings.Index(opt, "size="); i >= 0 {
		fmt.Sscanf(opt[i:], "size=%dx%d", &wd, &ht)
		n.Vals["screensize"] = [2]int{wd, ht}
	}
	if name[0] == 'i' {
		inc := n.Inc
		n.Vals["onshow"] = func(l []string) {
			w.Scrs[name] = append(w.Scrs[name], Shot{w.Sim.Now(), inc, append([]string(nil), l...)})
			w.Sim.Ev("show", int64(len(w.Scrs[name])))
		}
	}
}

// harvest keeps what the last incarnation of a client produced.
func (w *World) harvest(name string) {
	n := w.N[name]
	if n == nil || n.Inc == 0 {
		return
	}
	if d, ok := n.Vals["dev"].(*rt.AudioDev); ok {
		w.Devs = append(w.Devs, DevRec{name, n.Inc, d, n.StartAt})
		delete(n.Vals, "dev")
	}
	if n.Exited {
		scr, _ := n.Vals["screen"].(*simtcell.SimScreen)
		w.exits = append(w.exits, ExitRec{name, n.ExitCode, n.ExitAt, n.Crash, n.StartAt, w.opts[name], scr != nil && scr.Left()})
		n.Exited = false
		delete(n.Vals, "screen")
	}
}

// Run executes the scenario.
func (w *World) Run() {
	sc := w.Sc
	sc.sortOps()
	s := w.Sim
	byActor := map[string][]Op{}
	var actors []string
	for _, o := range sc.Ops {
		o := o
		switch {
		case strings.HasPrefix(o.Act, "raw") || strings.HasPrefix(o.Act, "obs") || strings.HasPrefix(o.Act, "ssh"):
			if byActor[o.Act] == nil {
				actors = append(actors, o.Act)
			}
			byActor[o.Act] = append(byActor[o.Act], o)
		default:
			s.AtTrue(o.At, func() { w.sysOp(o) })
		}
	}
	w.startServer()
	for _, a := range actors {
		n := w.node(a)
		n.Harness = true
		n.Alive = true
		ops := byActor[a]
		if strings.HasPrefix(a, "ssh") {
			c := &SSH{w: w, name: a, node: n}
			w.SSHs[a] = c
			s.Spawn(n, a, func() { c.run(ops) })
		} else {
			c := &Raw{w: w, name: a, node: n}
			w.Raws[a] = c
			s.Spawn(n, a, func() { c.run(ops) })
		}
	}
	if sc.Sched.StallOff > 0 {
		s.AtTrue(sc.Sched.StallOff, func() { s.StallOff = true })
	}
	s.RunUntil(sc.End)
	w.end = s.Now()
	for _, n := range s.Nodes {
		if !n.Harness {
			w.harvest(n.Name)
		}
	}
}

func (w *World) sysOp(o Op) {
	s := w.Sim
	s.Tracef("OP %s", o)
	s.Ev("op:" + o.Do)
	if o.Act == "net" {
		switch o.Do {
		case "cut":
			s.Fault("net_partition")
			a, b, both := strings.Cut(o.S, "<>")
			if !both {
				a, b, _ = strings.Cut(o.S, ">")
			}
			s.Net.Cut(host(a), host(b), s.Now()+o.M)
			if both {
				s.Net.Cut(host(b), host(a), s.Now()+o.M)
			}
		case "lat":
			a, b, _ := strings.Cut(o.S, ">")
			s.Fault("net_latency_change")
			s.Net.SetLat(host(a), host(b), o.M)
		case "reset":
			s.Fault("net_conn_reset")
			s.Net.ResetHost(host(o.S))
		case "acceptfail":
			s.Fault("accept_error")
			s.Net.FailAccept(host("srv")+musicPort, syscall.Errno(o.N), max64(o.M, 1))
		default:
			w.Sim.HarnessErr = "unknown op " + o.Do
		}
		return
	}
	n := w.node(o.Act)
	switch o.Do {
	case "start":
		if n.Alive {
			return
		}
		if o.Act == "srv" {
			w.harvest("srv")
			if len(w.downs) > 0 && w.downs[len(w.downs)-1][1] == 0 {
				w.downs[len(w.downs)-1][1] = s.Now()
			}
			w.startServer()
		} else {
			w.startClient(o.Act, o.S)
		}
	case "kill", "power", "sigint":
		w.expDown[o.Act] = true
		w.downAt[o.Act] = s.Now()
		if o.Act == "srv" {
			w.downs = append(w.downs, [2]int64{s.Now(), 0})
		}
		switch o.Do {
		case "kill":
			s.Fault("crash:" + o.Act[:1])
			s.Kill(n, false)
		case "power":
			s.Fault("poweroff:" + o.Act[:1])
			s.Kill(n, true)
		default:
			s.Interrupt(n)
		}
	case "signal": // one that is ignored unless somebody asks for it
		if n.Alive {
			s.Fault("signal:" + o.Act[:1])
			s.Signal(n, syscall.Signal(o.N))
		}
	case "pause":
		if !n.Alive {
			return
		}
		s.Fault("pause:" + o.Act[:1])
		inc := n.Inc
		s.Pause(n)
		s.AtTrue(s.Now()+o.M, func() {
			if n.Inc == inc {
				s.Resume(n)
			}
		})
	case "wall":
		s.Fault("wall_clock_jump")
		n.WallJump += o.M
	case "disk":
		r := &rt.FSRule{}
		if err := json.Unmarshal([]byte(o.S), r); err != nil {
			w.Sim.HarnessErr = "bad disk rule " + o.S
			return
		}
		n.FS.Rules = append(n.FS.Rules, r)
	case "goodsong", "badsong": // the file is replaced by a readable or an unreadable one
		s.Fault("file_replaced")
		sg := w.songs[o.S]
		if sg == nil {
			return
		}
		b := sg.file()
		if o.Do == "badsong" {
			b = garbage(sg.Spec)
		}
		n.FS.Put(w.musicDir()+"/"+sg.Spec.Name, b)
	case "rmfile":
		s.Fault("file_removed")
		n.FS.Remove(o.S)
	case "edit": // the song's tags and its lyrics file are replaced
		s.Fault("file_edited")
		sg := w.songs[o.S]
		sp := SongSpec{}
		if sg == nil || json.Unmarshal(o.B, &sp) != nil {
			return
		}
		e := *sg
		e.Spec.Tag, e.Spec.Form, e.Spec.Title, e.Spec.Artist, e.Spec.Album, e.Spec.Lyrics = sp.Tag, sp.Form, sp.Title, sp.Artist, sp.Album, sp.Lyrics
		n.FS.Put(w.musicDir()+"/"+o.S, e.file())
		if sp.Lyrics != "" {
			n.FS.Put(w.musicDir()+"/"+o.S+".json", []byte(sp.Lyrics))
		} else {
			n.FS.Remove(w.musicDir() + "/" + o.S + ".json")
		}
		w.edits = append(w.edits, Edit{s.Now(), o.S, e.Spec})
	case "putfile":
		n.FS.Put(o.S, o.B)
	case "key":
		if sc, ok := n.Vals["screen"].(*simtcell.SimScreen); ok && n.Alive {
			sc.Key(tcell.Key(o.N))
		}
	case "resize":
		if sc, ok := n.Vals["screen"].(*simtcell.SimScreen); ok && n.Alive {
			s.Fault("terminal_resize")
			sc.SetSize(int(o.N), int(o.M))
		}
	default:
		w.Sim.HarnessErr = "unknown op " + o.Do
	}
}

// addrOr is where to connect to.
func addrOr(a, port string) string {
	if a == "" {
		return host("srv") + port
	}
	return a
}

func (w *World) stamp() int64 { w.seq++; return w.seq }

// sleepTill waits until true time t.
func sleepTill(t int64) {
	if d := t - rt.S.Now(); d > 0 {
		rt.SleepTrue(d)
	}
}

// ---- raw protocol clients ----

type RawMsg struct {
	T    int64
	Q    int64 // global order
	Conn int
	M    proto.Message
}

type RawConn struct {
	Open, Closed int64
	CloseErr     string
	ByUs         bool
	Half         bool // we closed our direction
	Subs         []SubRec
	Bad          error
	Sent         []SentRec
	stallTill    int64
	c            *rt.Conn
	Aborted      bool
}

type SubRec struct {
	Ch     int
	T, Q   int64
	Failed bool
}

type SentRec struct {
	Kind string
	T, Q int64
	V    int64
	Err  string
}

type Raw struct {
	w     *World
	name  string
	node  *rt.Node
	Conns []*RawConn
	Msgs  []RawMsg
	DialE []string
}

func (r *Raw) cur() *RawConn {
	if len(r.Conns) == 0 {
		return nil
	}
	return r.Conns[len(r.Conns)-1]
}

func (r *Raw) run(ops []Op) {
	for _, o := range ops {
		sleepTill(o.At)
		r.do(o)
	}
}

func (r *Raw) do(o Op) {
	w := r.w
	if o.Do == "connect" {
		var c *rt.Conn
		var err error
		for try := 0; try < 1+int(o.N); try++ {
			c, err = w.Sim.Net.Dial(addrOr(o.S, musicPort), 10*sec)
			if err == nil {
				break
			}
			if try < int(o.N) {
				rt.SleepTrue(50 * ms)
			}
		}
		if err != nil {
			r.DialE = append(r.DialE, err.Error())
			return
		}
		rc := &RawConn{Open: w.Sim.Now(), c: c}
		if o.F > 0 {
			w.Sim.Fault("client_small_window")
			c.SetWindow(int(o.F))
		}
		r.Conns = append(r.Conns, rc)
		idx := len(r.Conns) - 1
		rt.GoN(r.name+"-read", func() { r.reader(rc, idx) })
		if o.M > 0 { // leaves by itself
			rt.GoN(r.name+"-leave", func() {
				rt.SleepTrue(o.M)
				rc.ByUs = true
				rc.c.Abort()
			})
		}
		return
	}
	rc := r.cur()
	if rc == nil || rc.c == nil {
		return
	}
	sent := func(kind string, v int64, b []byte) error {
		rec := SentRec{Kind: kind, T: w.Sim.Now(), Q: w.stamp(), V: v}
		rc.Sent = append(rc.Sent, rec)
		k := len(rc.Sent) - 1
		_, err := rc.c.Write(b)
		if err != nil {
			rc.Sent[k].Err = err.Error()
		}
		return err
	}
	switch o.Do {
	case "sub":
		rec := SubRec{Ch: int(o.N), T: w.Sim.Now(), Q: w.stamp()}
		rc.Subs = append(rc.Subs, rec)
		if err := sent("sub", o.N, encode(&pb.SubscribeChannelRequest{Channel: pb.Channel(o.N)})); err != nil {
			rc.Subs[len(rc.Subs)-1].Failed = true
		}
	case "ping":
		sent("ping", 0, encode(&pb.PingMessage{}))
	case "tsync":
		v := w.stamp()<<20 + o.N
		sent("tsync", v, encode(&pb.TimeSyncRequest{ClientSend: v}))
	case "msg": // a well-formed message a client has no business sending
		sent("msg", o.N, oddMessage(int(o.N)))
	case "bytes":
		w.Sim.Fault("client_garbage")
		sent("bytes", 0, o.B)
	case "bomb": // a small message which becomes huge
		w.Sim.Fault("client_bomb")
		sent("bytes", 0, bomb(int(o.N)))
	case "batch": // several requests in one segment train
		var b []byte
		for i := int64(0); i < o.N; i++ {
			b = append(b, encode(&pb.PingMessage{})...)
		}
		sent("batch", o.N, b)
	case "stall":
		w.Sim.Fault("client_stall")
		rc.stallTill = w.Sim.Now() + o.M
	case "close":
		rc.ByUs = true
		rc.c.Close()
	case "abort":
		w.Sim.Fault("client_abort")
		rc.ByUs, rc.Aborted = true, true
		rc.c.Abort()
	case "halfclose":
		w.Sim.Fault("client_halfclose")
		rc.Half = true
		rc.c.CloseWrite()
	default:
		w.Sim.HarnessErr = "unknown raw op " + o.Do
	}
}

// bomb is a message of mb megabytes of zeros.
func bomb(mb int) []byte {
	var b bytes.Buffer
	z := zlib.NewWriter(&b)
	block := make([]byte, 1<<20)
	z.Write(block)
	z.Flush()
	first := append([]byte(nil), b.Bytes()...)
	b.Reset()
	z.Write(block)
	z.Flush()
	next := append([]byte(nil), b.Bytes()...)
	out := first
	for i := 1; i < mb; i++ {
		out = append(out, next...)
	}
	b.Reset()
	z.Close()
	out = append(out, b.Bytes()...)
	var sum [4]byte // Adler-32 of so many zeros
	binary.BigEndian.PutUint32(sum[:], uint32((mb<<20)%65521)<<16|1)
	return frame("comm.PingMessage", append(out[:len(out)-4], sum[:]...))
}

func oddMessage(k int) []byte {
	switch k % 9 {
	case 0:
		return encode(&pb.PongMessage{})
	case 1:
		return encode(&pb.TimeSyncResponse{ClientSendTime: 1, ServerRecvTime: 2, ServerSendTime: 3})
	case 2:
		return encode(&pb.QueueChunkRequest{StartTime: 5, ChunkId: 9, SampleLow: []float64{1, 2}, SampleHigh: []float64{3}})
	case 3:
		return encode(&pb.SetVolumeRequest{Volume: 99})
	case 4:
		return encode(&pb.NewSongInfo{FirstSampleOfSongIndex: 77, SongFileName: "evil"})
	case 5:
		return encode(&pb.ChunkInfo{StartTime: 1, FirstSampleIndex: 1, ChunkSize: 1})
	case 6:
		return encode(&pb.PauseInfo{Playing: false, ToggleSampleIndex: 1})
	case 7:
		return encode(&pb.SubscribeChannelRequest{Channel: pb.Channel(1000)})
	}
	return encode(&pb.SubscribeChannelRequest{Channel: pb.Channel(-1)})
}

func (r *Raw) reader(rc *RawConn, idx int) {
	w := r.w
	p := &parser{}
	buf := make([]byte, 65536)
	for {
		if rc.stallTill > w.Sim.Now() {
			sleepTill(rc.stallTill)
			continue
		}
		n, err := rc.c.Read(buf)
		if n > 0 {
			p.buf = append(p.buf, buf[:n]...)
			for {
				m, sz, e := p.next()
				if e != nil {
					rc.Bad = e
					break
				}
				if m == nil {
					break
				}
				r.Msgs = append(r.Msgs, RawMsg{w.Sim.Now(), w.stamp(), idx, m})
				w.Sim.Ev("msg:"+r.name, int64(sz))
				if w.Sim.Cfg.Trace {
					w.Sim.Tracef("%s <- %s", r.name, brief(m))
				}
			}
			if rc.Bad != nil {
				rc.c.Close()
			}
		}
		if err != nil {
			if rc.Closed == 0 {
				rc.Closed = w.Sim.Now()
				rc.CloseErr = err.Error()
				if errors.Is(err, io.EOF) {
					rc.c.Close()
				}
			}
			return
		}
	}
}

func brief(m proto.Message) string {
	switch x := m.(type) {
	case *pb.QueueChunkRequest:
		return fmt.Sprintf("chunk id=%d start=%d first=%d n=%d/%d", x.ChunkId, x.StartTime, x.FirstSampleIndex, len(x.SampleLow), len(x.SampleHigh))
	}
	return proto.MessageName(m) + "{" + proto.CompactTextString(m) + "}"
}

// ---- operators ----

type Cmd struct {
	Line         string
	Call, Ret    int64 // global order
	CallT, RetT  int64
	Resp         string
	Done, Hung   bool
	Sess         string
	SessIdx      int
	Lost, NoSess bool
	After        *Cmd // the line before it, if both were sent at once
}

type SSHSess struct {
	Hello   simssh.Hello
	Open    int64
	Welcome bool
	Denied  bool
	Got     string // everything received before the first prompt when not a terminal
	Closed  int64
	Refused string
	c       *rt.Conn
	buf     []byte
	ready   bool
	dead    bool
}

type SSH struct {
	w     *World
	name  string
	node  *rt.Node
	Sess  []*SSHSess
	Cmds  []*Cmd
	Stray string
}

const cmdTimeout = 30 * sec

func (c *SSH) run(ops []Op) {
	for _, o := range ops {
		sleepTill(o.At)
		c.do(o)
	}
}

func (c *SSH) cur() *SSHSess {
	if len(c.Sess) == 0 {
		return nil
	}
	return c.Sess[len(c.Sess)-1]
}

// until reads until the marker is seen or the deadline passes.
func (s *SSHSess) until(mark string, deadline int64) (string, bool) {
	b := make([]byte, 4096)
	for {
		if i := strings.Index(string(s.buf), mark); i >= 0 {
			out := string(s.buf[:i])
			s.buf = s.buf[i+len(mark):]
			return out, true
		}
		if s.dead {
			return string(s.buf), false
		}
		s.c.SetReadDeadline(deadline)
		n, err := s.c.Read(b)
		s.buf = append(s.buf, b[:n]...)
		if err != nil {
			var te interface{ Timeout() bool }
			if errors.As(err, &te) && te.Timeout() {
				return string(s.buf), false
			}
			s.dead = true
			s.Closed = rt.S.Now()
		}
	}
}

// answer reads the answer to cm.
func (c *SSH) answer(s *SSHSess, cm *Cmd, deadline int64) {
	w := c.w
	out, ok := s.until("\x01", deadline)
	// the terminal's echo and prompt come first
	if i := strings.Index(out, "\n"); i >= 0 {
		out = out[i+1:]
	}
	cm.Resp = strings.TrimSuffix(out, "\n")
	cm.RetT = w.Sim.Now()
	cm.Ret = w.stamp()
	cm.Done = ok
	s.ready = ok
	if !ok {
		if s.dead {
			cm.Lost = true
		} else {
			cm.Hung = true
		}
	}
	w.Sim.Tracef("%s< done=%v %q", c.name, ok, cm.Resp)
}

func (c *SSH) do(o Op) {
	w := c.w
	switch o.Do {
	case "open":
		h := simssh.Hello{User: "op", Method: "password", Password: "secret", Pty: true, W: 80, H: 24}
		if len(o.B) > 0 {
			h = simssh.Hello{}
			if err := json.Unmarshal(o.B, &h); err != nil {
				w.Sim.HarnessErr = "bad hello"
				return
			}
		}
		s := &SSHSess{Hello: h, Open: w.Sim.Now()}
		c.Sess = append(c.Sess, s)
		var err error
		for try := 0; try < 20; try++ {
			s.c, err = w.Sim.Net.Dial(addrOr(o.S, sshPort), 10*sec)
			if err == nil {
				break
			}
			rt.SleepTrue(50 * ms)
		}
		if err != nil {
			s.Refused = err.Error()
			s.dead = true
			return
		}
		b, _ := json.Marshal(h)
		s.c.Write(append(b, '\n'))
		l, ok := s.until("\n", w.Sim.Now()+cmdTimeout)
		switch {
		case ok && l == "WELCOME":
			s.Welcome = true
		case ok && l == "DENIED":
			s.Denied = true
			if h.Try {
				// use the same connection for the next attempt
				return
			}
		}
		w.Sim.Tracef("%s login %s/%s: %s", c.name, h.User, h.Method, l)
		if !s.Welcome {
			return
		}
		_, s.ready = s.until("\x01", w.Sim.Now()+cmdTimeout)
	case "retry": // another attempt on the same connection
		s := c.cur()
		if s == nil || s.dead || s.Welcome {
			return
		}
		h := simssh.Hello{}
		json.Unmarshal(o.B, &h)
		ns := &SSHSess{Hello: h, Open: w.Sim.Now(), c: s.c, buf: s.buf}
		c.Sess = append(c.Sess, ns)
		s = ns
		b, _ := json.Marshal(h)
		if _, err := s.c.Write(append(b, '\n')); err != nil {
			s.dead = true
			return
		}
		l, ok := s.until("\n", w.Sim.Now()+cmdTimeout)
		s.Welcome = ok && l == "WELCOME"
		s.Denied = ok && l == "DENIED"
		if s.Welcome {
			_, s.ready = s.until("\x01", w.Sim.Now()+cmdTimeout)
		}
	case "cmds": // several lines at once, before the first is answered
		var prev *Cmd
		s := c.cur()
		t := w.Sim.Now()
		usable := s != nil && s.ready && !s.dead
		if usable {
			w.Sim.Tracef("%s> %q", c.name, o.S+"\n")
			s.ready = false
			if _, err := s.c.Write([]byte(o.S + "\n")); err != nil {
				s.dead = true
			}
		}
		for _, l := range strings.Split(o.S, "\n") {
			cm := &Cmd{Line: l, CallT: t, Call: w.stamp(), Sess: c.name, SessIdx: len(c.Sess) - 1, NoSess: !usable, After: prev}
			c.Cmds = append(c.Cmds, cm)
			prev = cm
		}
		for _, cm := range c.Cmds[len(c.Cmds)-strings.Count(o.S, "\n")-1:] {
			if !usable {
				continue
			}
			c.answer(s, cm, t+cmdTimeout)
			if usable = cm.Done; !usable {
				continue
			}
		}
	case "cmd", "keys":
		s := c.cur()
		cm := &Cmd{Line: o.S, CallT: w.Sim.Now(), Sess: c.name, SessIdx: len(c.Sess) - 1}
		c.Cmds = append(c.Cmds, cm)
		if s == nil || !s.ready || s.dead {
			cm.NoSess = true
			return
		}
		cm.Call = w.stamp()
		s.ready = false
		line := o.S + "\n"
		if o.Do == "keys" {
			line = string(o.B)
		}
		w.Sim.Tracef("%s> %q", c.name, line)
		if _, err := s.c.Write([]byte(line)); err != nil {
			s.dead = true
			cm.Lost = true
			return
		}
		to := cmdTimeout
		if o.M > 0 {
			to = o.M
		}
		c.answer(s, cm, w.Sim.Now()+to)
	case "newsong":
		if sg := w.songs[o.S]; sg != nil && w.N["srv"] != nil {
			w.Sim.Fault("file_added")
			w.N["srv"].FS.Put(w.musicDir()+"/"+o.S, sg.file())
		}
	case "raw":
		if s := c.cur(); s != nil && s.c != nil && !s.dead {
			s.c.Write(o.B)
		}
	case "sink": // collect whatever arrives for a while
		if s := c.cur(); s != nil && s.c != nil {
			l, _ := s.until("\x00\x00never", w.Sim.Now()+o.M)
			s.Got = l
		}
	case "close":
		if s := c.cur(); s != nil && s.c != nil && !s.dead {
			s.c.Close()
			s.dead = true
		}
	case "abort":
		if s := c.cur(); s != nil && s.c != nil && !s.dead {
			w.Sim.Fault("operator_abort")
			s.c.Abort()
			s.dead = true
		}
	default:
		w.Sim.HarnessErr = "unknown ssh op " + o.Do
	}
}

var realOut *os.File

func initProcess() {
	cli.OsExiter = func(c int) { rt.Exit(c) }
	cli.ErrWriter = stderrOf{}
}

// stderrOf is the standard error of whichever simulated process writes to it.
type stderrOf struct{}

func (stderrOf) Write(p []byte) (int, error) {
	if rt.CurNode() == nil {
		return len(p), nil
	}
	return rt.StdFile(2).Write(p)
}
