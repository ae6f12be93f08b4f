//go:build go1.21

// Package rt is the deterministic runtime under which the rewritten music-sync
// code executes: tasks (goroutines) are coroutines resumed one at a time by a
// seeded scheduler, time is virtual, and every blocking operation goes through
// this package.
package rt

import (
	"fmt"
	"iter"
	"os"
	"runtime/debug"
	"sort"
	"strings"
)

const Forever = int64(1) << 61

// Task states.
const (
	stRunnable = iota
	stRunning
	stBlocked
	stDone
)

type Task struct {
	ID     int
	Node   *Node
	Name   string
	next   func() (struct{}, bool)
	yield  func(struct{}) bool
	state  int
	killed bool
	gone   bool // never to be resumed
	why    string
	spin   int64 // yields since the task last blocked
	prio   uint64
	inQ    bool
	sel    *selState
	wOK    bool
	since  int64
	quanta int64
	paused int64 // time it spent descheduled after releasing locks
	born   int64
}

func (t *Task) String() string { return fmt.Sprintf("%s#%d(%s)", t.Node.Name, t.ID, t.Name) }

type killT struct{}
type goexitT struct{}

// Fatal is an unrecoverable runtime error of a simulated process.
type Fatal struct{ Msg string }

func (f Fatal) Error() string { return "fatal error: " + f.Msg }

// OutRec is a line a process wrote.
type OutRec struct {
	T    int64
	Inc  int
	FD   int
	Line string
}

// Node is one simulated process on one simulated machine.
type Node struct {
	ID       int
	Name     string
	Host     string
	Harness  bool
	Inc      int
	Alive    bool
	Paused   bool
	pausedQ  []*Task
	tasks    map[int]*Task
	MonoBase int64
	WallBase int64
	WallJump int64
	DriftPPM int64
	BootAt   int64
	Args     []string
	FS       *FS
	Exited   bool
	ExitCode int
	ExitAt   int64
	Crash    string
	CrashAt  int64
	OutRecs  []OutRec // everything written to standard output and error
	Out      []string
	outPart  map[int]string
	FDs      int
	FDLimit  int
	onKill   []func(graceful bool)
	sigs     []*SigReg
	Vals     map[string]interface{}
	StartAt  int64
	FDOpen   map[string]int
}

// SigReg is one signal.Notify registration.
type SigReg struct {
	Ch   interface{}
	Send func(os.Signal)
	Want func(os.Signal) bool
}

// Config selects how a run is scheduled.
type Config struct {
	Seed     uint64
	Policy   int     // 0 uniform, 1 priorities, 2 newest first, 3 fifo
	MeanQ    int     // mean yields between preemptions
	SlackNS  int64   // timers fire up to this late
	LazyP    float64 // probability that a new task starts late, by up to StallMax
	StallP   float64 // probability that a wakeup is delayed
	StallMax int64   // up to this long
	RmwP     float64 // probability that a task is descheduled between reading and storing a value
	UnlP     float64 // probability that a task is descheduled when it released a lock
	PreP     float64 // probability that a task is descheduled while it runs (rarer for tasks that ran often)
	WinLo    int64   // scheduling decisions outside [WinLo,WinHi) are the default ones
	WinHi    int64
	YCost    int64
	StepCap  int64
	Trace    bool
}

const (
	PolUniform = iota
	PolPrio
	PolNewest
	PolFIFO
	NPol
)

type Sim struct {
	Cfg        Config
	rs, rt     *Rand
	now        int64
	tasks      []*Task
	live       int
	runq       []*Task
	tq         timerHeap
	tseq       uint64
	tid        int
	cur        *Task
	budget     int64
	Nodes      []*Node
	End        int64
	stop       bool
	ending     bool
	Steps      int64
	Switches   int64
	Preempts   int64
	Decision   int64
	Wakeups    int64
	Hash       uint64
	SchHash    uint64
	Capped     bool
	TraceBuf   []string
	Faults     map[string]int
	Probes     map[string]int
	chans      map[uintptr]*chanQ
	StallOff   bool
	desched    bool // the running task stops in the middle of its quantum
	Net        *Net
	rmap       *Rand
	OnCrash    func(n *Node)
	mapW       map[uintptr]*Task
	HarnessErr string
	lastTask   *Task
}

// S is the running simulation (one per process at a time).
var S *Sim
var yc int64 = 1 << 40

var (
	rmw     bool  // updates may be interrupted
	updated []int // how often each was reached
)
var cur *Task

func New(cfg Config) *Sim {
	if cfg.YCost == 0 {
		cfg.YCost = 5
	}
	if cfg.WinHi == 0 {
		cfg.WinHi = Forever
	}
	if cfg.MeanQ <= 0 {
		cfg.MeanQ = 100
	}
	if cfg.StepCap == 0 {
		cfg.StepCap = 600e6
	}
	s := &Sim{Cfg: cfg, rs: NewRand(cfg.Seed, "sched"), rt: NewRand(cfg.Seed, "timer"), rmap: NewRand(cfg.Seed, "map"),
		Faults: map[string]int{}, Probes: map[string]int{}, chans: map[uintptr]*chanQ{}, mapW: map[uintptr]*Task{},
		Hash: 1469598103934665603, SchHash: 1469598103934665603}
	s.Net = newNet(s)
	S = s
	rmw, updated = cfg.RmwP > 0, nil
	return s
}

func (s *Sim) NewNode(name, host string) *Node {
	n := &Node{ID: len(s.Nodes), Name: name, Host: host, tasks: map[int]*Task{}, FS: NewFS(), FDLimit: 1 << 30, Vals: map[string]interface{}{}, FDOpen: map[string]int{}}
	s.Nodes = append(s.Nodes, n)
	return n
}

func (s *Sim) mix(a uint64) { s.Hash = (s.Hash ^ a) * 0x100000001b3 }

// Ev mixes an observable event into the run's fingerprint.
func (s *Sim) Ev(kind string, vals ...int64) {
	for i := 0; i < len(kind); i++ {
		s.mix(uint64(kind[i]))
	}
	s.mix(uint64(s.now))
	for _, v := range vals {
		s.mix(uint64(v))
	}
}

func (s *Sim) Tracef(f string, a ...interface{}) {
	if s.Cfg.Trace {
		s.TraceBuf = append(s.TraceBuf, fmt.Sprintf("%12.6f ", float64(s.Now())/1e9)+fmt.Sprintf(f, a...))
	}
}

func (s *Sim) Fault(kind string) { s.Faults[kind]++; s.Ev("fault:" + kind); s.Tracef("FAULT %s", kind) }
func (s *Sim) Probe(kind string) { s.Probes[kind]++ }

// Now is the simulated (true) time in ns.
func (s *Sim) Now() int64 {
	if cur != nil {
		u := s.budget - yc
		if u > s.budget {
			u = s.budget
		}
		return s.now + u*s.Cfg.YCost
	}
	return s.now
}

// Clocks.
func (n *Node) Mono() int64 {
	el := S.Now() - n.BootAt
	return n.MonoBase + el + el/1000000*n.DriftPPM + (el%1000000)*n.DriftPPM/1000000
}
func (n *Node) Wall() int64 { return n.WallBase + n.WallJump + S.Now() }

// MonoAt is what the node's monotonic clock showed or will show at true time t.
func (n *Node) MonoAt(t int64) int64 {
	el := t - n.BootAt
	return n.MonoBase + el + int64(float64(el)*float64(n.DriftPPM)/1e6)
}

// TrueOf is the true time at which the node's monotonic clock shows m.
func (n *Node) TrueOf(m int64) int64 {
	el := m - n.MonoBase
	if n.DriftPPM == 0 {
		return n.BootAt + el
	}
	return n.BootAt + int64(float64(el)/(1+float64(n.DriftPPM)/1e6))
}

// TrueDur converts a duration on the node's clock into true time.
func (n *Node) TrueDur(d int64) int64 {
	if n.DriftPPM == 0 || d > 1<<55 {
		return d
	}
	return d - d/1000000*n.DriftPPM - (d%1000000)*n.DriftPPM/1000000
}

// CurNode is the node whose code is running (nil in scheduler context).
func CurNode() *Node {
	if cur != nil {
		return cur.Node
	}
	return nil
}
func Cur() *Task { return cur }

// ---- yields ----

// Y is a preemption point; the rewriter puts one before every statement.
func Y() {
	yc--
	if yc < 0 {
		ySlow()
	}
}

// T is a preemption point inside an expression.
func T() bool { Y(); return true }

// Y1 is a preemption point between evaluating a value and storing it.
func Y1[V any](v V, site int) V {
	if rmw {
		update(site)
		return v
	}
	yc--
	if yc < 0 {
		ySlow()
	}
	return v
}

func ySlow() {
	t := cur
	if t == nil {
		yc = 1 << 40
		return
	}
	if t.killed {
		if S.ending {
			t.gone = true
			t.yield(struct{}{})
		}
		panic(killT{})
	}
	S.Preempts++
	t.state = stRunnable
	if S.desched {
		S.desched = false
		S.Faults["task_descheduled"]++
		S.AtTrue(S.Now()+1+S.rt.N64(S.Cfg.StallMax), func() { S.enqueue(t) })
	} else {
		S.enqueue(t)
	}
	t.switchOut()
}

// unlocked is where a task has released a lock: it may be descheduled there, so that others
// come between what it reads or writes under locks. A task loses at most a twentieth of its
// time to that, and not more than ten times StallMax in a row.
func unlocked() {
	if !setAside(S.Cfg.UnlP) {
		Y()
	}
}

// update is where a task has read what it is about to change, and has not stored it yet.
func update(site int) {
	if site >= len(updated) {
		updated = append(updated, make([]int, site+1-len(updated))...)
	}
	n := updated[site]
	updated[site]++
	if !setAside(S.Cfg.RmwP * 64 / float64(64+n)) {
		Y()
	}
}

func setAside(p float64) bool {
	if p > 0 && S.Cfg.StallMax > 0 && cur != nil && !cur.killed && !S.StallOff && !cur.Node.Harness && S.inWin() && S.rt.P(p) {
		t := cur
		now, max := S.Now(), S.Cfg.StallMax
		if low := now - t.born - 200*max; t.paused*20 < low {
			t.paused = low / 20
		}
		if d := 1 + S.rt.N64(max); (t.paused+d)*20 < now-t.born+20*max {
			t.paused += d
			S.Faults["task_descheduled"]++
			S.Preempts++
			t.state = stRunnable
			S.AtTrue(S.Now()+d, func() { S.enqueue(t) })
			t.switchOut()
			return true
		}
	}
	return false
}

// Gosched yields the processor.
func Gosched() {
	if cur == nil {
		return
	}
	yc = -1
	ySlow()
}

func (t *Task) switchOut() {
	t.yield(struct{}{})
	if t.killed {
		panic(killT{})
	}
}

// Park blocks the current task until Ready.
func Park(why string) {
	t := cur
	if t == nil {
		panic("rt: blocking operation outside a task: " + why)
	}
	if t.killed {
		panic(killT{})
	}
	t.state = stBlocked
	t.why = why
	t.spin = 0
	t.since = S.now
	t.switchOut()
}

// Ready makes a parked task runnable.
func (s *Sim) Ready(t *Task) {
	if t.state != stBlocked || t.killed {
		return
	}
	t.state = stRunnable
	s.Wakeups++
	if s.Cfg.StallP > 0 && !s.StallOff && !t.Node.Harness && s.inWin() && s.rt.P(s.Cfg.StallP) {
		d := 1 + s.rt.N64(s.Cfg.StallMax)
		s.Faults["task_stall"]++
		s.AtTrue(s.Now()+d, func() { s.enqueue(t) })
		return
	}
	s.enqueue(t)
}

func (s *Sim) enqueue(t *Task) {
	if t.killed || t.state == stDone || t.inQ {
		return
	}
	if t.Node.Paused {
		t.Node.pausedQ = append(t.Node.pausedQ, t)
		return
	}
	t.inQ = true
	s.runq = append(s.runq, t)
}

func (s *Sim) inWin() bool { return s.Decision >= s.Cfg.WinLo && s.Decision < s.Cfg.WinHi }

// ---- tasks ----

// Go starts f as a task of the current node.
func Go(f func()) {
	n := CurNode()
	if n == nil {
		panic("rt.Go outside a task")
	}
	if cur.killed {
		return
	}
	S.Spawn(n, "go", f)
	Y()
}

func GoN(name string, f func()) {
	n := CurNode()
	if n == nil {
		panic("rt.Go outside a task")
	}
	if cur.killed {
		return
	}
	S.Spawn(n, name, f)
	Y()
}

// Spawn starts f as a task of node n.
func (s *Sim) Spawn(n *Node, name string, f func()) *Task {
	s.tid++
	t := &Task{ID: s.tid, Node: n, Name: name, state: stRunnable, prio: s.rs.U64(), born: s.now}
	next, _ := iter.Pull(func(yield func(struct{}) bool) {
		t.yield = yield
		defer func() {
			if t.gone {
				return
			}
			r := recover()
			t.state = stDone
			if r == nil {
				return
			}
			switch v := r.(type) {
			case killT:
			case goexitT:
			default:
				if t.killed {
					return
				}
				S.crash(t, v, string(debug.Stack()))
			}
		}()
		if t.killed {
			return
		}
		f()
	})
	t.next = next
	n.tasks[t.ID] = t
	s.tasks = append(s.tasks, t)
	s.live++
	if len(s.tasks) > 1000+2*s.live {
		k := s.tasks[:0]
		for _, o := range s.tasks {
			if o.state != stDone {
				k = append(k, o)
			}
		}
		for i := len(k); i < len(s.tasks); i++ {
			s.tasks[i] = nil
		}
		s.tasks = k
	}
	if s.Cfg.LazyP > 0 && s.Cfg.StallMax > 0 && !s.StallOff && !n.Harness && s.inWin() && s.rt.P(s.Cfg.LazyP) {
		d := int64(1) << uint(s.rt.N(40))
		if d > s.Cfg.StallMax {
			d = 1 + s.rt.N64(s.Cfg.StallMax)
		}
		s.Faults["task_starts_late"]++
		s.AtTrue(s.Now()+d, func() { s.enqueue(t) })
		return t
	}
	s.enqueue(t)
	return t
}

func (s *Sim) crash(t *Task, v interface{}, stack string) {
	n := t.Node
	msg := fmt.Sprint(v)
	if e, ok := v.(error); ok {
		msg = e.Error()
	}
	if n.Harness {
		s.HarnessErr = "harness panic: " + msg + "\n" + stack
		s.stop = true
		return
	}
	n.Crash = fmt.Sprintf("panic: %s [in %s]\n%s", msg, t.Name, trimStack(stack))
	n.CrashAt = s.now
	s.Tracef("CRASH %s %s", n.Name, n.Crash)
	s.Ev("crash:"+n.Name, 0)
	s.endNode(n, 2)
	if s.OnCrash != nil {
		s.OnCrash(n)
	}
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	out := []string{}
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "msim/slots/") && !strings.HasPrefix(l, "\t") {
			l = strings.TrimSpace(l)
			if j := strings.LastIndex(l, "("); j > 0 {
				l = l[:j]
			}
			out = append(out, "  "+l)
			if len(out) > 12 {
				break
			}
		}
	}
	return strings.Join(out, "\n")
}

func (s *Sim) endNode(n *Node, code int) {
	if !n.Alive {
		return
	}
	n.Alive = false
	n.Exited = true
	n.ExitCode = code
	n.ExitAt = s.Now()
	s.dropNode(n, true)
}

func (s *Sim) dropNode(n *Node, graceful bool) {
	n.Alive = false
	for _, t := range n.tasks {
		t.killed = true
	}
	n.tasks = map[int]*Task{}
	n.pausedQ = nil
	q := s.runq[:0]
	for _, t := range s.runq {
		if !t.killed {
			q = append(q, t)
		}
	}
	s.runq = q
	hs := n.onKill
	n.onKill = nil
	s.Net.nodeDown(n, graceful)
	n.FDs = 0
	for _, h := range hs {
		h(graceful)
	}
}

// Exit ends the current node's process.
func Exit(code int) {
	t := cur
	if t == nil {
		panic("rt.Exit outside a task")
	}
	if t.killed {
		panic(killT{})
	}
	S.Tracef("EXIT %s code %d", t.Node.Name, code)
	S.Ev("exit:"+t.Node.Name, int64(code))
	S.endNode(t.Node, code)
	t.yield(struct{}{})
	panic(killT{})
}

// Stop suspends the current node's process, as SIGTSTP does.
func Stop() {
	S.Tracef("STOP %s", cur.Node.Name)
	S.Ev("stop:" + cur.Node.Name)
	S.Pause(cur.Node)
	Gosched()
}

// Kill ends a node from outside; power=true models a machine that vanishes
// without its peers being told.
func (s *Sim) Kill(n *Node, power bool) {
	if !n.Alive {
		return
	}
	s.Tracef("KILL %s power=%v", n.Name, power)
	s.Ev("kill:" + n.Name)
	n.ExitAt = s.Now()
	s.dropNode(n, !power)
}

// Start boots a process on node n.
func (s *Sim) Start(n *Node, reset func(), main func()) {
	n.Inc++
	n.Alive = true
	n.Exited = false
	n.ExitCode = 0
	n.Crash = ""
	n.outPart = map[int]string{}
	n.sigs = nil
	n.Vals = map[string]interface{}{}
	n.StartAt = s.now
	s.Ev("start:" + n.Name)
	s.Tracef("START %s %v", n.Name, n.Args)
	s.Spawn(n, "main", func() {
		if reset != nil {
			reset()
		}
		main()
		S.endNode(n, 0)
	})
}

func (s *Sim) Pause(n *Node) {
	if n.Paused {
		return
	}
	n.Paused = true
	q := s.runq[:0]
	for _, t := range s.runq {
		if t.Node == n {
			t.inQ = false
			n.pausedQ = append(n.pausedQ, t)
		} else {
			q = append(q, t)
		}
	}
	s.runq = q
}

func (s *Sim) Resume(n *Node) {
	if !n.Paused {
		return
	}
	n.Paused = false
	q := n.pausedQ
	n.pausedQ = nil
	for _, t := range q {
		s.enqueue(t)
	}
}

// ---- timers ----

type Timer struct {
	when int64
	seq  uint64
	fn   func()
	idx  int
	on   bool
}

type timerHeap []*Timer

func (h timerHeap) less(i, j int) bool {
	if h[i].when != h[j].when {
		return h[i].when < h[j].when
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) swap(i, j int) { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) push(t *Timer) {
	t.idx = len(*h)
	*h = append(*h, t)
	h.up(t.idx)
}
func (h timerHeap) up(i int) {
	for i > 0 {
		p := (i - 1) / 2
		if !h.less(i, p) {
			break
		}
		h.swap(i, p)
		i = p
	}
}
func (h timerHeap) down(i int) {
	for {
		c := 2*i + 1
		if c >= len(h) {
			return
		}
		if c+1 < len(h) && h.less(c+1, c) {
			c++
		}
		if !h.less(c, i) {
			return
		}
		h.swap(i, c)
		i = c
	}
}
func (h *timerHeap) remove(i int) {
	n := len(*h) - 1
	if i != n {
		h.swap(i, n)
	}
	(*h)[n] = nil
	*h = (*h)[:n]
	if i < n {
		h.up(i)
		h.down(i)
	}
}

// AtTrue runs fn in scheduler context at true time when.
func (s *Sim) AtTrue(when int64, fn func()) *Timer {
	if when < s.now {
		when = s.now
	}
	s.tseq++
	t := &Timer{when: when, seq: s.tseq, fn: fn, on: true}
	s.tq.push(t)
	return t
}

func (s *Sim) Cancel(t *Timer) bool {
	if t == nil || !t.on {
		return false
	}
	t.on = false
	s.tq.remove(t.idx)
	return true
}

// Slack is the lateness of one process timer.
func (s *Sim) Slack() int64 {
	if s.Cfg.SlackNS <= 0 || !s.inWin() {
		return 0
	}
	return s.rt.N64(s.Cfg.SlackNS)
}

// SleepTrue parks the current task for d ns of true time.
func SleepTrue(d int64) {
	if cur == nil {
		panic("sleep outside a task")
	}
	if cur.killed {
		panic(killT{})
	}
	if d <= 0 {
		Gosched()
		return
	}
	t := cur
	if d > Forever {
		d = Forever
	}
	S.AtTrue(S.Now()+d, func() { S.Ready(t) })
	Park("sleep")
}

// ---- main loop ----

func (s *Sim) pick() *Task {
	n := len(s.runq)
	if n == 0 {
		return nil
	}
	i := 0
	s.Decision++
	if n > 1 && s.inWin() {
		switch s.Cfg.Policy {
		case PolUniform:
			i = s.rs.N(n)
		case PolPrio:
			for j := 1; j < n; j++ {
				if s.runq[j].prio > s.runq[i].prio {
					i = j
				}
			}
			if s.rs.N(64) == 0 {
				s.runq[i].prio = s.rs.U64() >> 1
			}
		case PolNewest:
			if s.rs.N(8) != 0 {
				i = n - 1
			} else {
				i = s.rs.N(n)
			}
		case PolFIFO:
			if s.rs.N(32) == 0 {
				i = s.rs.N(n)
			}
		}
	}
	t := s.runq[i]
	copy(s.runq[i:], s.runq[i+1:])
	s.runq[n-1] = nil
	s.runq = s.runq[:n-1]
	t.inQ = false
	return t
}

const spinLimit = 20000000

func (s *Sim) quantum(t *Task) int64 {
	const max = 40000
	q := int64(max)
	if s.inWin() {
		// geometric-ish with the configured mean
		if len(s.runq) > 0 {
			m := s.Cfg.MeanQ
			q = int64(1 + s.rs.N(2*m))
			if s.rs.N(16) == 0 {
				q = int64(1 + s.rs.N(3))
			}
			if q > max {
				q = max
			}
		}
	} else if len(s.runq) > 0 {
		q = 10000
	}
	if len(s.tq) > 0 {
		d := (s.tq[0].when-s.now)/s.Cfg.YCost + 1
		if d < q {
			q = d
		}
	}
	if q < 1 {
		q = 1
	}
	return q
}

// RunUntil executes the simulation until true time end (or Stop).
func (s *Sim) RunUntil(end int64) {
	s.End = end
	s.stop = false
	for !s.stop {
		for len(s.tq) > 0 && s.tq[0].when <= s.now {
			t := s.tq[0]
			s.tq.remove(0)
			t.on = false
			t.fn()
			if s.stop {
				return
			}
		}
		t := s.pick()
		if t == nil {
			if len(s.tq) == 0 || s.tq[0].when >= end {
				if s.now < end {
					s.now = end
				}
				return
			}
			s.now = s.tq[0].when
			continue
		}
		if s.now >= end {
			s.enqueue(t)
			return
		}
		if t.state == stDone || t.killed {
			continue
		}
		b := s.quantum(t)
		s.desched = false
		if s.Cfg.PreP > 0 && !s.StallOff && !t.Node.Harness && s.inWin() {
			t.quanta++
			if s.rt.P(s.Cfg.PreP * 32 / float64(32+t.quanta)) {
				if n := int64(1 + s.rt.N(1<<uint(s.rt.N(11)))); n <= b {
					b = n
					s.desched = true
				}
			}
		}
		s.budget = b
		yc = b
		t.state = stRunning
		cur = t
		s.Switches++
		if t != s.lastTask {
			s.SchHash = (s.SchHash ^ uint64(t.ID)) * 0x100000001b3
			s.SchHash = (s.SchHash ^ uint64(s.Steps)) * 0x100000001b3
			s.lastTask = t
		}
		t.next()
		cur = nil
		used := b - yc
		if used > b {
			used = b
		}
		yc = 1 << 40
		s.Steps += used
		cost := s.Cfg.YCost
		if t.state == stRunnable {
			t.spin += used
			if t.spin > spinLimit {
				// a spinning task: let time pass faster, unless someone else can run
				s.Probes["spin"]++
				alone := true
				for _, o := range s.runq {
					if o != t && o.spin <= spinLimit {
						alone = false
					}
				}
				t.prio >>= 1
				if alone {
					cost *= 500
				}
			}
		}
		s.now += used * cost
		if t.state == stDone {
			delete(t.Node.tasks, t.ID)
			s.live--
		}
		if s.Steps > s.Cfg.StepCap {
			s.Capped = true
			return
		}
	}
}

func (s *Sim) Stop()         { s.stop = true }
func (s *Sim) Stopped() bool { return s.stop }

// Finish unwinds every remaining task so that the run leaves nothing behind.
func (s *Sim) Finish() {
	s.ending = true
	s.mix(uint64(s.Steps))
	s.mix(s.SchHash)
	for _, t := range s.tasks {
		if t.state == stDone || t.gone {
			continue
		}
		t.killed = true
		cur = t
		s.budget = 1 << 30
		yc = 20000
		t.next()
		cur = nil
	}
	yc = 1 << 40
	s.tasks = nil
	s.chans = nil
}

// Blocked describes what each live task of a node is waiting for.
func (s *Sim) Blocked(n *Node) []string {
	var ids []int
	for id := range n.tasks {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	var out []string
	for _, id := range ids {
		t := n.tasks[id]
		w := t.why
		if t.state == stRunnable {
			w = "runnable"
		}
		out = append(out, fmt.Sprintf("%s: %s", t, w))
	}
	return out
}

// TaskCount is the number of live tasks on n.
func (n *Node) TaskCount() int { return len(n.tasks) }

// Killed reports whether the current task is being torn down.
func Killed() bool { return cur != nil && cur.killed }

// CheckKill stops a task of a dead process.
func CheckKill() {
	if cur != nil && cur.killed {
		panic(killT{})
	}
}

// Goexit ends the current task.
func Goexit() { panic(goexitT{}) }

// ---- process output ----

func (n *Node) Write(fd int, p []byte) {
	if n.outPart == nil {
		n.outPart = map[int]string{}
	}
	s := n.outPart[fd] + string(p)
	for {
		i := strings.IndexByte(s, '\n')
		if i < 0 {
			break
		}
		l := s[:i]
		s = s[i+1:]
		if S.Cfg.Trace {
			S.Tracef("%s| %s", n.Name, l)
		}
		n.OutRecs = append(n.OutRecs, OutRec{S.now, n.Inc, fd, l})
		n.Out = append(n.Out, l)
		if len(n.Out) > 400 {
			n.Out = append([]string{}, n.Out[200:]...)
		}
	}
	if len(s) > 4096 {
		s = s[:0]
	}
	n.outPart[fd] = s
}

// Notify registers a signal channel with the current node.
func Notify(r *SigReg) {
	if n := CurNode(); n != nil {
		n.sigs = append(n.sigs, r)
	}
}

func StopNotify(ch interface{}) {
	n := CurNode()
	if n == nil {
		return
	}
	k := n.sigs[:0:0]
	for _, r := range n.sigs {
		if r.Ch != ch {
			k = append(k, r)
		}
	}
	n.sigs = k
}

// Interrupt sends SIGINT to n: to its handlers, or, without any, killing it.
func (s *Sim) Interrupt(n *Node) {
	if !n.Alive {
		return
	}
	s.Tracef("SIGINT %s", n.Name)
	if !s.Signal(n, os.Interrupt) {
		s.endNode(n, 130)
	}
}

// Signal sends a signal to n's handlers. It tells whether there was one.
func (s *Sim) Signal(n *Node, sig os.Signal) bool {
	got := false
	for _, r := range n.sigs {
		if r.Want(sig) {
			got = true
			r.Send(sig)
		}
	}
	return got
}
