//go:build go1.21

package main

import (
	"encoding/json"
	"fmt"
	"msim/rt"
	"os"
	"sort"
	"strings"
)

const ms = int64(1e6)
const sec = int64(1e9)

// Scenario is everything that determines one simulated run.
type Scenario struct {
	Prop   string            `json:"prop"`
	Seed   uint64            `json:"seed"`
	Mode   string            `json:"mode,omitempty"` // profile of the generator
	Sched  Sched             `json:"sched"`
	Srv    SrvCfg            `json:"srv"`
	Net    NetCfg            `json:"net"`
	Clocks map[string]ClkCfg `json:"clocks,omitempty"`
	Hosts  map[string]string `json:"hosts,omitempty"` // processes that share a machine
	Songs  []SongSpec        `json:"songs,omitempty"`
	Ops    []Op              `json:"ops"`
	End    int64             `json:"end"`
	Conf   *Conf             `json:"conf,omitempty"`
	X      map[string]int64  `json:"x,omitempty"` // parameters of the generator the oracle needs
}

type Sched struct {
	Seed     uint64  `json:"seed"`
	Policy   int     `json:"policy"`
	MeanQ    int     `json:"mean_q"`
	SlackNS  int64   `json:"slack_ns"`
	StallP   float64 `json:"stall_p,omitempty"`
	StallMax int64   `json:"stall_max,omitempty"`
	LazyP    float64 `json:"lazy_p,omitempty"`    // a new task starts up to StallMax late
	RmwP     float64 `json:"rmw_p,omitempty"`     // ... between reading a value and storing what it becomes
	UnlP     float64 `json:"unl_p,omitempty"`     // a task is descheduled for up to StallMax after releasing a lock
	PreP     float64 `json:"pre_p,omitempty"`     // a task is descheduled for up to StallMax while it runs
	StallOff int64   `json:"stall_off,omitempty"` // true time after which no task is stalled any more
	WinLo    int64   `json:"win_lo,omitempty"`
	WinHi    int64   `json:"win_hi,omitempty"`
}

type SrvCfg struct {
	Rate         int               `json:"rate"`
	Chunk        int               `json:"chunk"`
	Break        int               `json:"break"`
	StartDelay   int64             `json:"start_delay"`
	Delay        int64             `json:"delay"`
	SyncCycles   int               `json:"sync_cycles"` // clients' number of time exchanges (0: as shipped)
	SyncInterval int64             `json:"sync_interval,omitempty"`
	Users        string            `json:"users,omitempty"`
	Files        map[string]string `json:"files,omitempty"`
	MusicDir     string            `json:"music_dir,omitempty"`
	HostKey      string            `json:"host_key,omitempty"`
	FDLimit      int               `json:"fd_limit,omitempty"`
	Argv         []string          `json:"argv,omitempty"`  // the whole command line
	Argv2        []string          `json:"argv2,omitempty"` // that of later starts
}

type NetCfg struct {
	LatMin, LatMax, Jitter int64
	SegMax                 int
	SegTiny                int
	ShortRead              int
	Window                 int
	Lat                    map[string]int64 `json:",omitempty"` // "a>b" -> ns
}

type ClkCfg struct {
	Mono  int64 `json:"mono"`
	Wall  int64 `json:"wall"`
	Drift int64 `json:"drift,omitempty"`
}

type SongSpec struct {
	Name   string `json:"name"`
	Len    int    `json:"len"`
	Kind   string `json:"kind,omitempty"` // "", trunc, garbage, empty, noread, late, flaky, loud, new
	Have   int    `json:"have,omitempty"` // trunc: samples really present; flaky: when it fails
	Title  string `json:"title,omitempty"`
	Artist string `json:"artist,omitempty"`
	Album  string `json:"album,omitempty"`
	Tag    bool   `json:"tag,omitempty"`
	Form   string `json:"form,omitempty"` // of the tags: "" (v2.4, UTF-8), latin, utf16, v23, v1, comm, apic
	Lyrics string `json:"lyrics,omitempty"`
}

// Op is one step of an actor: a client, an operator, a process or the network.
type Op struct {
	At  int64   `json:"at"`
	Act string  `json:"act"`
	Do  string  `json:"do"`
	S   string  `json:"s,omitempty"`
	N   int64   `json:"n,omitempty"`
	M   int64   `json:"m,omitempty"`
	F   float64 `json:"f,omitempty"`
	B   []byte  `json:"b,omitempty"`
}

func (o Op) String() string {
	s := fmt.Sprintf("%.3fs %s %s", float64(o.At)/1e9, o.Act, o.Do)
	if o.S != "" {
		s += " " + fmt.Sprintf("%q", o.S)
	}
	if o.N != 0 {
		s += fmt.Sprintf(" n=%d", o.N)
	}
	if o.M != 0 {
		s += fmt.Sprintf(" m=%d", o.M)
	}
	return s
}

func (sc *Scenario) sortOps() {
	sort.SliceStable(sc.Ops, func(i, j int) bool { return sc.Ops[i].At < sc.Ops[j].At })
}

func (sc *Scenario) add(o Op) { sc.Ops = append(sc.Ops, o) }

func (sc *Scenario) x(k string) int64 { return sc.X[k] }
func (sc *Scenario) setX(k string, v int64) {
	if sc.X == nil {
		sc.X = map[string]int64{}
	}
	sc.X[k] = v
}

func (sc *Scenario) clone() *Scenario {
	b, _ := json.Marshal(sc)
	c := &Scenario{}
	if err := json.Unmarshal(b, c); err != nil {
		panic(err)
	}
	return c
}

func (sc *Scenario) save(fn string) error {
	b, err := json.MarshalIndent(sc, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(fn, append(b, '\n'), 0644)
}

// ---- generation helpers ----

type G struct {
	*rt.Rand
	sc   *Scenario
	tier string
}

func (g *G) dur(lo, hi int64) int64 { return g.Range64(lo, hi) }

func (g *G) pickI(v ...int) int       { return v[g.N(len(v))] }
func (g *G) pickS(v ...string) string { return v[g.N(len(v))] }
func (g *G) pick64(v ...int64) int64  { return v[g.N(len(v))] }

// sched picks a scheduling policy for the run.
func (g *G) sched() {
	s := &g.sc.Sched
	s.Seed = g.U64()
	s.Policy = g.N(rt.NPol)
	s.MeanQ = g.pickI(2, 5, 10, 30, 100, 400, 2000)
	s.SlackNS = g.pick64(0, 20e3, 200e3, 1e6)
}

func (g *G) stalls(max int64) {
	s := &g.sc.Sched
	s.StallP = []float64{0.0005, 0.002, 0.01, 0.05}[g.N(4)]
	s.StallMax = g.pick64(1e6, 5e6, max)
	if s.StallMax > max {
		s.StallMax = max
	}
	s.LazyP = []float64{0, 0, 0.1, 0.5}[g.N(4)]
	s.PreP = []float64{0, 0.01, 0.05, 0.3}[g.N(4)]
	s.UnlP = []float64{0, 0, 0.02, 0.2}[g.N(4)]
	s.RmwP = []float64{0, 0, 0.05, 0.4}[g.N(4)]
}

func (g *G) netw() {
	n := &g.sc.Net
	*n = NetCfg{LatMin: g.pick64(20e3, 200e3, 1e6), SegMax: g.pickI(1<<16, 1460, 4000, 200), Window: 1 << 18}
	n.LatMax = n.LatMin + g.pick64(0, 200e3, 5e6, 20e6)
	n.Jitter = g.pick64(0, 100e3, 1e6, 5e6)
	if g.P(0.4) {
		n.SegTiny = g.pickI(4, 20, 100)
	}
	if g.P(0.5) {
		n.ShortRead = g.pickI(2, 5, 30)
	}
	if g.P(0.2) {
		n.Window = g.pickI(4096, 20000, 65536)
	}
}

// quiet is a network and a machine on which timing can be judged tightly.
func (g *G) quiet() {
	g.netw()
	n := &g.sc.Net
	n.LatMin, n.LatMax, n.Jitter = 200e3, 400e3, 50e3
	n.SegTiny = 0
	n.Window = 1 << 18
	g.sc.Sched.SlackNS = g.pick64(0, 20e3, 200e3)
}

// calm is a network on which what is sent at the same instant arrives at the same instant.
func (g *G) calm() {
	n := &g.sc.Net
	n.LatMax, n.Jitter, n.SegTiny, n.ShortRead = n.LatMin, 0, 0, 0
	if n.SegMax < 1460 {
		n.SegMax = 1460
	}
	g.sc.Sched.SlackNS = 0
}

func (g *G) clock(node string, skew bool) {
	if g.sc.Clocks == nil {
		g.sc.Clocks = map[string]ClkCfg{}
	}
	c := ClkCfg{Mono: 1 + g.N64(1000*sec), Wall: 1.6e18 + g.N64(1e15)}
	switch g.N(5) {
	case 0:
		c.Mono = g.N64(50 * sec)
	case 1:
		c.Mono = g.N64(4e7 * sec) // more than a year of uptime
	case 2:
		c.Mono = 1000*sec + g.N64(3*sec)
	}
	if !skew {
		c.Mono = 1000 * sec
	}
	c.Wall = c.Wall - c.Wall%1000
	g.sc.Clocks[node] = c
}

// base fills in a small, fast server configuration.
func (g *G) base() {
	sc := g.sc
	g.sched()
	g.netw()
	sc.Srv.Rate = g.pickI(1000, 1000, 2000, 2000, 4000)
	g.chunks()
	sc.Srv.StartDelay = g.pick64(0, 50, 300, 1000, 5000) * ms
	sc.Srv.Delay = g.pick64(1000, 2000, 4000, 15000) * ms
	sc.Srv.SyncCycles = g.pickI(5, 10, 20)
	g.clock("srv", true)
}

func (g *G) chunks() {
	s := &g.sc.Srv
	s.Chunk = s.Rate / g.pickI(1, 2, 4, 8, 10)
	switch g.N(6) {
	case 0:
		s.Chunk = s.Rate/4 + g.N(s.Rate/2) // unrelated to anything
	case 1:
		s.Chunk = 512
	}
	s.Break = g.pickI(s.Rate, s.Rate/2, s.Rate/4, 512, 300)
	if g.P(0.2) {
		s.Break = g.pickI(1, 7, s.Chunk)
	}
}

var nameWords = []string{"alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa", "lambda", "mu", "nu", "xi"}

// songs makes n good songs of the given lengths (in samples).
func (g *G) songs(n, lo, hi int) {
	for i := 0; i < n; i++ {
		l := g.Range(lo, hi)
		switch g.N(5) {
		case 0:
			l = l / 512 * 512 // ends exactly on a buffer boundary
			if l == 0 {
				l = 512
			}
		case 1:
			l = l/512*512 + g.pickI(1, 511)
		}
		g.sc.Songs = append(g.sc.Songs, SongSpec{Name: nameWords[len(g.sc.Songs)%len(nameWords)] + fmt.Sprint(len(g.sc.Songs)) + ".mp3", Len: l})
	}
}

// coinciding are the properties for which what happens at the same instant matters.
var coinciding = map[string]bool{"P01": true, "P05": true, "P06": true, "P07": true, "P08": true, "P09": true, "P10": true, "P11": true, "P12": true, "P16": true, "P17": true, "P19": true}

// coincide lets what clients and operators do reach the server at the same instant as what
// others do, or while the server sends a chunk.
func (g *G) coincide() {
	sc := g.sc
	switch g.N(6) {
	case 0, 1:
		g.together()
	case 2:
		g.onTicks()
	case 3:
		g.onTicks()
		sc.sortOps()
		g.together()
	default:
		return
	}
	sc.sortOps()
}

func (g *G) together() {
	sc := g.sc
	if g.P(0.6) {
		g.calm()
	}
	last := map[string]int64{} // of each actor
	var prev *Op
	for i := range sc.Ops {
		o := &sc.Ops[i]
		if !strings.HasPrefix(o.Act, "raw") && !strings.HasPrefix(o.Act, "ssh") {
			continue
		}
		if prev != nil && prev.Act != o.Act && g.P(0.6) {
			t := prev.At + g.pick64(0, 0, g.dur(0, 20e3), g.dur(0, 200e3))
			if t >= last[o.Act] && t > ms && t < o.At && t > o.At-400*ms {
				o.At = t
			}
		}
		last[o.Act] = o.At
		prev = o
	}
}

// onTicks lets commands arrive while the server refills its buffer.
func (g *G) onTicks() {
	sc := g.sc
	ct := int64(sc.Srv.Chunk) * sec / int64(sc.Srv.Rate)
	g.calm()
	last := map[string]int64{}
	tick := int64(-1)
	for i := range sc.Ops {
		o := &sc.Ops[i]
		if !strings.HasPrefix(o.Act, "ssh") || o.Do != "cmd" || o.At < 150*ms {
			last[o.Act] = max64(last[o.Act], o.At)
			continue
		}
		k := (o.At - sc.Srv.StartDelay) / ct
		if o.At < sc.Srv.StartDelay {
			k = 0
		}
		if tick < 0 || k > tick+4 || g.P(0.3) {
			tick = max64(k, tick)
		}
		t := sc.Srv.StartDelay + tick*ct - sc.Net.LatMin + g.pick64(0, 0, 1e3, 10e3, 30e3, 100e3, 300e3)
		if t = max64(t, last[o.Act]); t < 120*ms {
			t = o.At
		}
		o.At = t
		last[o.Act] = t
	}
}
