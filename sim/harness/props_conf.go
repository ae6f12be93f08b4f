//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"msim/rt"
	"regexp"
	"sort"
	"strings"
	"time"

	gossh "golang.org/x/crypto/ssh"
	simssh "msim/ov/github.com/gliderlabs/ssh"
)

// Conf is what the command lines of a run ask for.
type Conf struct {
	Kind      string // run, bad or logs
	Bind      string // lo, host or any
	SSHBind   string
	Port      int
	SSHPort   int
	Key       bool // there is a host key
	Hist      int  // lines of lyrics, -1: no infoer
	Trap      bool // a file of users that must not be used
	Who       string
	WantZero  bool           // it ends with status 0
	WantOut   string         // and writes this
	Lvl, PLvl map[string]int // cutoff levels; "" is the default
	Restart   int64
}

var levelNames = [][2]string{{"trace", "trc"}, {"debug", "dbg"}, {"info", "inf"}, {"warn", "wrn"}, {"error", "err"}, {"fatal", "ftl"}, {"off", "off"}}
var logNames = []string{"comm", "play", "shed", "ssh", "time"}

// arg writes an option in one of the ways it can be written.
func (g *G) arg(val string, names ...string) []string {
	n := g.pickS("-", "--") + names[g.N(len(names))]
	if g.P(0.5) {
		return []string{n + "=" + val}
	}
	return []string{n, val}
}

func (g *G) shuffled(args [][]string) (out []string) {
	for i := len(args) - 1; i > 0; i-- {
		j := g.N(i + 1)
		args[i], args[j] = args[j], args[i]
	}
	for _, a := range args {
		out = append(out, a...)
	}
	return
}

func (g *G) durText(ns int64) string {
	switch g.N(4) {
	case 0:
		return fmt.Sprintf("%dus", ns/1000)
	case 1:
		return fmt.Sprintf("%gs", float64(ns)/1e9)
	case 2:
		return time.Duration(ns).String()
	}
	return fmt.Sprintf("%gms", float64(ns)/1e6)
}

// near is how a process connects to something bound like this: from where and to which address.
func (g *G) near(bind string) (host, addr string) {
	far := "10.0.0.77"
	switch bind {
	case "lo":
		return "10.0.0.1", g.pickS("127.0.0.1", "127.0.0.1", "localhost")
	case "host":
		return g.pickS(far, "10.0.0.1"), "10.0.0.1"
	}
	if g.P(0.5) {
		return "10.0.0.1", g.pickS("127.0.0.1", "10.0.0.1")
	}
	return far, "10.0.0.1"
}

func (g *G) at(node, h string) {
	if g.sc.Hosts == nil {
		g.sc.Hosts = map[string]string{}
	}
	g.sc.Hosts[node] = h
	g.clock(node, true)
	if h == "10.0.0.1" { // one machine has one clock
		g.sc.Clocks[node] = g.sc.Clocks["srv"]
	}
}

func (g *G) bind() (bind, arg string) {
	switch g.N(4) {
	case 0:
		return "host", "10.0.0.1"
	case 1:
		return "any", g.pickS("0.0.0.0", "0.0.0.0", "")
	}
	return "lo", g.pickS("127.0.0.1", "localhost")
}

// options makes up a server's configuration and its command line.
func (g *G) options(c *Conf) {
	sc := g.sc
	s := &sc.Srv
	var args [][]string
	opt := func(p float64, val string, names ...string) bool {
		if g.P(p) {
			args = append(args, g.arg(val, names...))
			return true
		}
		return false
	}
	*s = SrvCfg{Rate: 44100, Chunk: 176400, Break: 44100, StartDelay: 5 * sec, Delay: 15 * sec, SyncCycles: g.pickI(0, 5, 20)}
	if r := g.pickI(1000, 2000, 4000, 8000, 22050); opt(0.9, fmt.Sprint(r), "sample-rate") {
		s.Rate = r
	}
	if n := g.pickI(s.Rate, s.Rate/2, s.Rate/4, s.Rate/8+1, s.Rate*2); opt(0.85, fmt.Sprint(n), "stream-chunk-size") {
		s.Chunk = n
	}
	if n := g.pickI(1, s.Rate, s.Rate/2, 512, 7777); opt(0.7, fmt.Sprint(n), "song-break-size") {
		s.Break = n
	}
	if d := g.pick64(0, 50*ms, 300*ms, 1500*ms, 12*sec); opt(0.7, g.durText(d), "stream-start-delay") {
		s.StartDelay = d
	}
	if d := g.pick64(1*sec, 2500*ms, 4*sec, 30*sec); opt(0.7, g.durText(d), "stream-delay") {
		s.Delay = d
	}
	c.Bind, c.SSHBind, c.Port, c.SSHPort = "lo", "lo", 13333, 13334
	if b, a := g.bind(); opt(0.6, a, "address", "addr", "a") {
		c.Bind = b
	}
	if b, a := g.bind(); opt(0.6, a, "ssh-address", "ssh-addr", "sa") {
		c.SSHBind = b
	}
	if n := g.Range(1024, 40000); opt(0.6, fmt.Sprint(n), "port", "p") {
		c.Port = n
	}
	for n := g.Range(1024, 65535); ; n++ {
		if n == c.Port || n > 65535 {
			n = 2000
		}
		if opt(0.6, fmt.Sprint(n), "ssh-port", "sp") {
			c.SSHPort = n
		}
		break
	}
	if c.SSHPort == c.Port {
		c.Port = 13333
		var keep [][]string
		for _, a := range args {
			if n := strings.TrimLeft(strings.SplitN(a[0], "=", 2)[0], "-"); n != "port" && n != "p" {
				keep = append(keep, a)
			}
		}
		args = keep
	}
	s.Files = map[string]string{}
	if d := g.pickS("music", "/srv/My Music", "./tunes/", "old/../new", "/srv/[best of] music", "./what?", "a*b", `back\slash/ö`); opt(0.6, d, "music-dir", "dir", "d") {
		s.MusicDir = d
		s.Files["/audio/trap.mp3"] = "not a song"
		s.Files["/trap.mp3"] = "not a song"
	}
	users := `{"boss":{"password":"s p=a"}}`
	if f := g.pickS("ops.json", "/etc/ms/users.json", "./conf/u"); opt(0.6, f, "users-file", "users", "u") {
		c.Trap = true
		s.Files[f] = users
	} else {
		s.Users = users
	}
	c.Key = g.P(0.5)
	if f := g.pickS("hostkey", "/etc/ssh/key", "k/id"); opt(0.5, f, "host-key", "key", "k") {
		if c.Key {
			s.Files[f] = testHostKey
		} else if g.P(0.5) {
			s.Files["/id_rsa"] = testHostKey
		}
	} else if c.Key {
		s.Files["/id_rsa"] = testHostKey
	}
	opt(0.2, g.durText(g.dur(1*sec, 100*sec)), "time-sync-interval")
	opt(0.2, fmt.Sprint(g.Range(1, 900)), "time-sync-cycles")
	opt(0.2, g.durText(g.dur(1*ms, 1*sec)), "time-sync-cycle-delay")
	opt(0.3, levelNames[g.N(7)][0], "logging")
	for _, n := range logNames {
		opt(0.1, levelNames[g.N(7)][g.N(2)], n+"-logging")
	}
	s.Argv = g.shuffled(args)
	if s.Argv == nil {
		s.Argv = []string{}
	}
}

func (g *G) confRun(c *Conf) {
	sc := g.sc
	g.options(c)
	g.songs(g.Range(2, 3), 300, 4000)
	for i := range sc.Songs {
		if c.Trap || g.P(0.3) {
			sc.Songs[i].Lyrics = g.lyrics(sc.Songs[i].Len)
		}
	}
	hello := func(user, pw string) []byte {
		b, _ := json.Marshal(simssh.Hello{User: user, Method: "password", Password: pw, Pty: true, W: 80, H: 24})
		return b
	}
	h, a := g.near(c.Bind)
	g.at("obs", h)
	sc.add(Op{At: 1 * ms, Act: "obs", Do: "connect", N: 100, S: fmt.Sprintf("%s:%d", a, c.Port)})
	sc.add(Op{At: 2 * ms, Act: "obs", Do: "sub", N: 1})
	sc.add(Op{At: 3 * ms, Act: "obs", Do: "sub", N: 0})
	h, a = g.near(c.SSHBind)
	g.at("ssh1", h)
	g.at("ssh2", h)
	sa := fmt.Sprintf("%s:%d", a, c.SSHPort)
	sc.add(Op{At: 5 * ms, Act: "ssh1", Do: "open", B: hello("boss", "s p=a"), S: sa})
	sc.add(Op{At: 5 * ms, Act: "ssh2", Do: "open", B: hello("op", "secret"), S: sa})
	g.cmd(45*ms, "ssh1", "volume 1")
	g.cmd(50*ms, "ssh1", "queue *.mp3")
	g.cmd(60*ms, "ssh1", "resume")
	// who else can connect
	t := 100 * ms
	for i, far := range []bool{true, false} {
		n := fmt.Sprintf("raw%d", i+1)
		h, a := "10.0.0.1", "127.0.0.1"
		if far {
			h, a = "10.0.0.78", "10.0.0.1"
		}
		g.at(n, h)
		g.at(fmt.Sprintf("raw%d", i+3), h)
		sc.add(Op{At: t, Act: n, Do: "connect", S: fmt.Sprintf("%s:%d", a, c.Port)})
		sc.add(Op{At: t, Act: fmt.Sprintf("raw%d", i+3), Do: "connect", S: fmt.Sprintf("%s:%d", a, c.SSHPort)})
	}
	client := func(n string, more ...[]string) {
		h, a := g.near(c.Bind)
		g.at(n, h)
		args := more
		if a != "127.0.0.1" || g.P(0.5) {
			args = append(args, g.arg(a, "address", "addr", "a"))
		}
		if c.Port != 13333 || g.P(0.5) {
			args = append(args, g.arg(fmt.Sprint(c.Port), "port", "p"))
		}
		if sc.Srv.Rate != 44100 || g.P(0.5) {
			args = append(args, g.arg(fmt.Sprint(sc.Srv.Rate), "sample-rate"))
		}
		b, _ := json.Marshal(g.shuffled(args))
		sc.add(Op{At: g.dur(20*ms, sec), Act: n, Do: "start", S: "argv:" + string(b)})
	}
	c.Hist = -1
	if sc.Srv.Rate < 10000 || g.P(0.4) {
		var l [][]string
		if g.P(0.4) {
			l = append(l, g.arg(levelNames[g.N(7)][g.N(2)], g.pickS("logging", "comm-logging", "play-logging")))
		}
		client("p1", l...)
	}
	if g.P(0.6) {
		c.Hist = 5
		var l [][]string
		if g.P(0.7) {
			c.Hist = g.pickI(0, 1, 2, 3, 7, 16, 17, 18, 40)
			l = append(l, g.arg(fmt.Sprint(c.Hist), "lyrics-history-size"))
		}
		client("i1", l...)
	}
	n := lead + g.total()
	if n < 2*sc.Srv.Chunk {
		n = 2 * sc.Srv.Chunk
	}
	g.endAt(n, 0)
	if c.Hist >= 0 && sc.End < 12*sec {
		sc.End = 12 * sec
	}
	if g.P(0.5) && sc.Srv.Rate < 10000 {
		sc.End += sc.Srv.Delay
	}
}

func (g *G) confBad(c *Conf) {
	sc := g.sc
	sc.Srv.Rate, sc.Srv.Chunk, sc.Srv.Break = 1000, 500, 100
	c.Who = g.pickS("srv", "srv", "p1", "i1")
	ints := []string{"port", "p", "sample-rate"}
	if c.Who == "srv" {
		ints = append(ints, "ssh-port", "sp", "stream-chunk-size", "song-break-size", "time-sync-cycles")
	}
	if c.Who == "i1" {
		ints = append(ints, "lyrics-history-size")
	}
	var bad []string
	switch g.N(6) {
	case 0:
		bad = []string{g.pickS("-", "--") + g.pickS("help", "h")}
		c.WantZero, c.WantOut = true, "sample-rate"
	case 1:
		bad = []string{g.pickS("-", "--") + g.pickS("version", "v")}
		c.WantZero, c.WantOut = true, "version"
	case 2:
		bad = g.arg("x", g.pickS("no-such-option", "ports", "addres", "Address", "samplerate"))
	case 3:
		bad = g.arg(g.pickS("abc", "1.5", "13 333", "0x", "99999999999999999999"), ints...)
	case 4:
		if c.Who == "srv" {
			bad = g.arg(g.pickS("5", "abc", "1 s", "s"), g.pickS("stream-delay", "stream-start-delay", "time-sync-interval"))
		} else {
			bad = []string{"--port"}
		}
	case 5:
		if c.Who == "srv" {
			bad = g.arg(g.pickS("missing", "/users.json", "audio/a.mp3"), "music-dir", "dir", "d")
		} else {
			bad = []string{"-address"}
		}
	}
	args := [][]string{}
	if g.P(0.5) && len(bad) > 0 && bad[len(bad)-1] != "--port" && bad[len(bad)-1] != "-address" {
		args = append(args, g.arg("2000", "sample-rate"))
	}
	args = append(args, bad)
	if bad[len(bad)-1] != "--port" && bad[len(bad)-1] != "-address" {
		args = [][]string{g.shuffled(args)}
	}
	var argv []string
	for _, a := range args {
		argv = append(argv, a...)
	}
	sc.Srv.Files = map[string]string{"/audio/a.mp3": "x"}
	if c.Who == "srv" {
		sc.Srv.Argv = argv
	} else {
		b, _ := json.Marshal(argv)
		g.at(c.Who, host(c.Who))
		sc.add(Op{At: 100 * ms, Act: c.Who, Do: "start", S: "argv:" + string(b)})
	}
	sc.End = 3 * sec
}

// levels picks cutoff levels and the options for them.
func (g *G) levels() (map[string]int, [][]string) {
	lvl := map[string]int{"": 2}
	var args [][]string
	name := func(l int) string {
		s := levelNames[l][g.N(2)]
		if g.P(0.3) {
			s = strings.ToUpper(s)
		}
		return s
	}
	if g.P(0.6) {
		lvl[""] = g.N(7)
		args = append(args, g.arg(name(lvl[""]), "logging"))
	}
	for _, n := range logNames {
		if g.P(0.4) {
			lvl[n] = g.N(7)
			args = append(args, g.arg(name(lvl[n]), n+"-logging"))
		}
	}
	return lvl, args
}

func (g *G) confLogs(c *Conf) {
	sc := g.sc
	sc.Sched.StallP, sc.Sched.LazyP, sc.Sched.PreP, sc.Sched.UnlP, sc.Sched.RmwP = 0, 0, 0, 0, 0
	sc.Srv = SrvCfg{Rate: 8000, Chunk: 4000, Break: 1000, StartDelay: 100 * ms, Delay: 2 * sec, SyncCycles: 5}
	g.songs(2, 500, 3000)
	sc.Songs[0].Kind = "garbage"
	c.Restart = 8 * sec
	base := [][]string{{"--address", "10.0.0.1"}, {"--ssh-address", "10.0.0.1"}, {"--sample-rate", "8000"}, {"--stream-chunk-size", "4000"}, {"--song-break-size", "1000"}, {"--stream-start-delay", "100ms"}, {"--stream-delay", "2s"}}
	pbase := [][]string{{"--address", "10.0.0.1"}, {"--sample-rate", "8000"}}
	all := [][]string{{"--logging", "trace"}}
	sc.Srv.Argv = g.shuffled(append(append([][]string(nil), base...), all...))
	var l [][]string
	c.Lvl, l = g.levels()
	sc.Srv.Argv2 = g.shuffled(append(append([][]string(nil), base...), l...))
	c.PLvl, l = g.levels()
	pargs := [2][]string{g.shuffled(append(append([][]string(nil), pbase...), all...)), g.shuffled(append(append([][]string(nil), pbase...), l...))}
	g.clock("p1", true)
	for i := int64(0); i < 2; i++ {
		t := i * c.Restart
		if i > 0 {
			sc.add(Op{At: t, Act: "srv", Do: "start"})
		}
		b, _ := json.Marshal(pargs[i])
		sc.add(Op{At: t + 50*ms, Act: "p1", Do: "start", S: "argv:" + string(b)})
		sc.add(Op{At: t + 100*ms, Act: "ssh1", Do: "open"})
		sc.add(Op{At: t + 150*ms, Act: "ssh1", Do: "cmd", S: "queue *.mp3"})
		sc.add(Op{At: t + 160*ms, Act: "ssh1", Do: "cmd", S: "resume"})
		b, _ = json.Marshal(simssh.Hello{User: "op", Method: "password", Password: "wrong", Pty: true})
		sc.add(Op{At: t + 200*ms, Act: "ssh2", Do: "open", B: b})
		b, _ = json.Marshal(simssh.Hello{User: "op", Method: "password", Password: "secret"})
		sc.add(Op{At: t + 300*ms, Act: "ssh3", Do: "open", B: b})
		sc.add(Op{At: t + 400*ms, Act: "ssh3", Do: "close"})
		sc.add(Op{At: t + 300*ms, Act: "raw1", Do: "connect"})
		sc.add(Op{At: t + 400*ms, Act: "raw1", Do: "sub", N: 0})
		sc.add(Op{At: t + 700*ms, Act: "raw1", Do: "close"})
		sc.add(Op{At: t + c.Restart - 200*ms, Act: "srv", Do: "kill"})
	}
	sc.End = 2 * c.Restart
}

func init() {
	register(&Prop{ID: "P20", Quick: 600, Deep: 40000,
		Rule: "Servers, players and infoers are started with every combination of options, written in every way and under every name or left at their defaults (with files at the default places that must not be used when others are named), on one machine or several, also with unusable options; where they listen and for whom, the stream, the songs, the users, the host key, the sound card, the screen and every line of the logs must be what the options ask for.",
		Gen: func(g *G) {
			sc := g.sc
			g.sched()
			g.netw()
			n := &sc.Net
			if n.Window < 1<<17 {
				n.Window = 1 << 17
			}
			n.LatMax = n.LatMin + 200e3
			n.Jitter = 100e3
			g.clock("srv", true)
			c := &Conf{Hist: -1}
			sc.Conf = c
			switch g.N(10) {
			case 0, 1:
				c.Kind = "bad"
				g.confBad(c)
			case 2, 3:
				c.Kind = "logs"
				g.confLogs(c)
			default:
				c.Kind = "run"
				g.confRun(c)
			}
		},
		Judge: func(w *World) { w.judgeConf() }})
}

func (w *World) judgeConf() {
	c := w.Sc.Conf
	switch c.Kind {
	case "run":
		w.judgeConfRun(c)
	case "bad":
		w.judgeConfBad(c)
	case "logs":
		w.judgeLogs("srv", c.Lvl)
		w.judgeLogs("p1", c.PLvl)
	}
	if len(w.V) == 0 {
		w.notes["judged"]++
		w.notes["judged_"+c.Kind]++
	}
}

func (w *World) judgeConfBad(c *Conf) {
	var e *ExitRec
	for i := range w.exits {
		if w.exits[i].Node == c.Who {
			e = &w.exits[i]
		} else {
			w.viol("conf:exit", "%s ended with status %d", w.exits[i].Node, w.exits[i].Code)
			return
		}
	}
	args := w.N[c.Who].Args
	switch {
	case e == nil:
		w.viol("conf:started", "%q was started", args)
	case (e.Code == 0) != c.WantZero:
		w.viol("conf:status", "%q ended with status %d", args, e.Code)
	case e.At-e.Start > sec:
		w.viol("conf:slow", "%q ended only after %.1f s", args, float64(e.At-e.Start)/1e9)
	case e.Term:
		w.viol("conf:terminal", "%q ended without restoring the terminal", args)
	}
	if len(w.V) > 0 {
		return
	}
	out := ""
	for _, o := range w.N[c.Who].OutRecs {
		out += o.Line + "\n"
	}
	if out == "" {
		w.viol("conf:silent", "%q ended with status %d and says nothing", args, e.Code)
		return
	}
	if !strings.Contains(out, c.WantOut) {
		w.viol("conf:output", "%q writes %q", args, out)
		return
	}
	for _, l := range w.Sim.Net.Listens {
		if l.Node == c.Who {
			w.viol("conf:listens", "%q listens at port %d", args, l.Port)
			return
		}
	}
}

func (w *World) judgeConfRun(c *Conf) {
	sc := w.Sc
	argv := sc.Srv.Argv
	for _, e := range w.exits {
		w.viol("conf:exit", "%q ended with status %d", w.N[e.Node].Args, e.Code)
		return
	}
	want := map[string]bool{fmt.Sprint(c.Bind, " ", c.Port): true, fmt.Sprint(c.SSHBind, " ", c.SSHPort): true}
	got := map[string]bool{}
	for _, l := range w.Sim.Net.Listens {
		k := fmt.Sprint(l.Bind, " ", l.Port)
		if l.Node == "srv" {
			got[k] = true
		}
		if l.Node != "srv" || !want[k] {
			w.viol("conf:listens", "%s (%q) listens at %s, should at %v", l.Node, w.N[l.Node].Args, k, keysOf(want))
			return
		}
	}
	if len(got) != len(want) {
		w.viol("conf:listens", "%q listens at %v, should at %v", argv, keysOf(got), keysOf(want))
		return
	}
	for i, b := range []string{c.Bind, c.Bind, c.SSHBind, c.SSHBind} {
		r := w.Raws[fmt.Sprintf("raw%d", i+1)]
		if r == nil {
			continue
		}
		far := i%2 == 0
		ok := b == "any" || far == (b == "host")
		if in := len(r.Conns) > 0; in != ok {
			w.viol("conf:reach", "listening with %q: connection from %s possible: %v", argv, r.node.Host, in)
			return
		}
	}
	keys, _ := w.N["srv"].Vals["hostkeys"].([]string)
	if k, _ := gossh.ParsePrivateKey([]byte(testHostKey)); c.Key != (len(keys) == 1 && keys[0] == gossh.FingerprintSHA256(k.PublicKey())) {
		w.viol("conf:hostkey", "%q: host keys %v, key file expected: %v", argv, keys, c.Key)
		return
	}
	if s := w.SSHs["ssh1"]; s != nil && len(s.Sess) > 0 {
		if !s.Sess[0].Welcome {
			w.viol("conf:users", "%q: a user of the users file was not let in (%s)", argv, s.Sess[0].Refused)
			return
		}
		for _, cm := range s.Cmds {
			var names []string
			for _, sp := range sc.Songs {
				names = append(names, sp.Name)
			}
			sort.Strings(names)
			if want := fmt.Sprintf("%d song(s) added to playlist: %s", len(names), strings.Join(names, ", ")); cm.Line == "queue *.mp3" && cm.Done && cm.Resp != want {
				w.viol("conf:songs", "%q: %q was answered with %q", argv, cm.Line, cm.Resp)
				return
			}
		}
	}
	if s := w.SSHs["ssh2"]; s != nil && len(s.Sess) > 0 && s.Sess[0].Welcome {
		w.viol("conf:users", "%q: a user who is not in the users file was let in", argv)
		return
	}
	st := w.basics()
	if len(w.V) > 0 {
		return
	}
	if st == nil || len(st.Chunks) == 0 {
		if w.Raws["obs"] != nil && len(w.Raws["obs"].Conns) > 0 && len(w.Raws["obs"].cur().Subs) > 1 {
			w.viol("conf:stream", "%q: no audio was received", argv)
		}
		return
	}
	ct := int64(sc.Srv.Chunk) * sec / int64(sc.Srv.Rate)
	f := st.Chunks[0]
	slack := w.reach() + w.margin() + 500*ms
	if f.ID == 0 && (f.T < sc.Srv.StartDelay || f.T > sc.Srv.StartDelay+2*ct+slack) {
		w.viol("conf:start", "%q: the first chunk was received after %.3f s", argv, float64(f.T)/1e9)
		return
	}
	for _, k := range st.Chunks {
		d := w.N["srv"].TrueOf(k.Start) - k.T
		if d < sc.Srv.Delay-2*ct-slack || d > sc.Srv.Delay+10*ms {
			w.viol("conf:delay", "%q: chunk %d was received %.3f s before it is to be played", argv, k.ID, float64(d)/1e9)
			return
		}
	}
	for _, d := range w.Devs {
		if d.Dev.Rate != sc.Srv.Rate {
			w.viol("conf:rate", "%q: the sound card plays %d samples per second", w.N[d.Node].Args, d.Dev.Rate)
			return
		}
		loud := false
		for _, s := range d.Dev.Segs {
			for _, b := range s.Data {
				loud = loud || b != 0
			}
		}
		music := int64(1) << 62
		for _, p := range st.Plays {
			if p.K > 0 {
				for i := p.S0; i < p.End; i++ {
					if !st.nan(i) {
						music = st.when(p.End) - int64(p.K)*sec/int64(sc.Srv.Rate)
						break
					}
				}
				if music < w.syncedBy(d.Node, d.Start)+w.Sc.Srv.Delay+slack+ct {
					music = 1 << 62
				}
				break
			}
		}
		if !loud && music+2*sec+slack < w.end {
			w.viol("conf:player", "%q: nothing was played", w.N[d.Node].Args)
			return
		}
		if loud {
			w.notes["players"]++
		}
	}
	if n := w.N["p1"]; n != nil && n.Alive && len(w.Devs) == 0 && w.end-n.StartAt > 2*sec {
		w.viol("conf:player", "%q did not open its sound card", n.Args)
		return
	}
	if n := w.N["i1"]; n != nil && n.Alive {
		if len(n.OutRecs) > 0 {
			w.viol("conf:output", "%q writes %q onto its screen", n.Args, n.OutRecs[0].Line)
			return
		}
		sh := w.Scrs["i1"]
		if len(sh) == 0 {
			if w.end-n.StartAt > 2*sec {
				w.viol("conf:screen", "%q shows nothing", n.Args)
			}
			return
		}
		l := sh[len(sh)-1].Lines
		h := len(l)
		k := c.Hist
		if k > h-7 {
			k = h - 7
		}
		at := -1
		for i, s := range l {
			if strings.Contains(s, "Lyrics") && strings.ContainsAny(s, "┌─╔═+-") {
				at = i
			}
		}
		if wantAt := h - 7 - k; (k > 0 && at != wantAt) || (k <= 0 && at >= 0) {
			w.viol("conf:lyrics", "%q: the box of lyrics starts in line %d of %d:\n%s", n.Args, at, h, strings.Join(l, "\n"))
			return
		}
		w.notes["infoers"]++
	}
}

func keysOf(m map[string]bool) (s []string) {
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return
}

var logLine = regexp.MustCompile(`^\[(TRC|DBG|INF|WRN|ERR|FTL)\] \[(.{4})\] (\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3}): (.*)$`)

// judgeLogs compares what a process writes with its cutoff levels with what it writes when
// everything is to be logged.
func (w *World) judgeLogs(node string, lvl map[string]int) {
	n := w.N[node]
	if n == nil || len(w.V) > 0 {
		return
	}
	cut := func(name string) int {
		if l, ok := lvl[name]; ok {
			return l
		}
		return lvl[""]
	}
	type pair struct {
		name  string
		level int
	}
	seen := [3]map[pair]rt.OutRec{}
	var order []pair
	for i := range seen {
		seen[i] = map[pair]rt.OutRec{}
	}
	for _, o := range n.OutRecs {
		if o.Inc > 2 {
			continue
		}
		m := logLine.FindStringSubmatch(o.Line)
		if m == nil {
			w.viol("log:format", "%s writes %q", node, o.Line)
			return
		}
		level := 0
		for i, x := range levelNames {
			if strings.ToUpper(x[1]) == m[1] {
				level = i
			}
		}
		name := strings.TrimRight(m[2], " ")
		known := false
		for _, k := range logNames {
			known = known || k == name
		}
		if !known {
			w.viol("log:name", "%s writes %q", node, o.Line)
			return
		}
		if fd := map[bool]int{true: 2, false: 1}[level >= 3]; o.FD != fd {
			w.viol("log:stream", "%s writes %q to file descriptor %d", node, o.Line, o.FD)
			return
		}
		t, err := time.ParseInLocation("2006-01-02 15:04:05.000", m[3], time.Local)
		if d := n.WallBase + n.WallJump + o.T - t.UnixNano(); err != nil || d < -10*ms || d > sec {
			w.viol("log:date", "%s writes %q at %v", node, o.Line, time.Unix(0, n.WallBase+n.WallJump+o.T))
			return
		}
		p := pair{name, level}
		if _, ok := seen[o.Inc][p]; !ok {
			seen[o.Inc][p] = o
			if o.Inc == 1 {
				order = append(order, p)
			}
		}
		if o.Inc == 2 && level < cut(name) {
			w.viol("log:unwanted", "%q writes %q", n.Args, o.Line)
			return
		}
		w.notes["log_lines"]++
	}
	if n.Inc < 2 {
		return
	}
	for _, p := range order {
		if _, ok := seen[2][p]; !ok && p.level >= cut(p.name) {
			w.viol("log:missing", "%q writes nothing of level %s of %s, but with everything logged there is %q", n.Args, levelNames[p.level][0], p.name, seen[1][p].Line)
			return
		}
		w.notes["log_kinds"]++
	}
}
