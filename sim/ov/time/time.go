//go:build go1.21

package time

import (
	"msim/rt"
	real "time"
	"unsafe"
)

type rawTime struct {
	wall uint64
	ext  int64
	loc  *real.Location
}

const (
	unixToInternal = int64((1969*365 + 1969/4 - 1969/100 + 1969/400) * 86400)
	wallToInternal = int64((1884*365 + 1884/4 - 1884/100 + 1884/400) * 86400)
)

// Now is the node's wall clock, with its monotonic reading.
func Now() real.Time {
	n := rt.CurNode()
	if n == nil {
		return real.Unix(1600000000, 0)
	}
	rt.Y()
	w := n.Wall()
	sec, nsec := w/1e9, w%1e9
	r := rawTime{wall: 1<<63 | uint64(sec+unixToInternal-wallToInternal)<<30 | uint64(nsec), ext: n.Mono() - n.MonoBase + 1}
	return *(*real.Time)(unsafe.Pointer(&r))
}

func Since(t real.Time) real.Duration { return Now().Sub(t) }
func Until(t real.Time) real.Duration { return t.Sub(Now()) }

func Sleep(d real.Duration) {
	rt.Y()
	if d <= 0 {
		rt.CheckKill()
		return
	}
	n := rt.CurNode()
	rt.SleepTrue(n.TrueDur(int64(d)) + rt.S.Slack())
}

type Timer struct {
	C  <-chan real.Time
	c  chan real.Time
	f  func()
	n  *rt.Node
	in int
	t  *rt.Timer
}

func (t *Timer) arm(d real.Duration) {
	when := rt.S.Now() + t.n.TrueDur(int64(d)) + rt.S.Slack()
	t.t = rt.S.AtTrue(when, func() {
		if !t.n.Alive || t.n.Inc != t.in {
			return
		}
		if t.f != nil {
			rt.S.Spawn(t.n, "afterfunc", t.f)
			return
		}
		rt.TrySend(t.c, nowOf(t.n))
	})
}

func nowOf(n *rt.Node) real.Time {
	w := n.Wall()
	sec, nsec := w/1e9, w%1e9
	r := rawTime{wall: 1<<63 | uint64(sec+unixToInternal-wallToInternal)<<30 | uint64(nsec), ext: n.Mono() - n.MonoBase + 1}
	return *(*real.Time)(unsafe.Pointer(&r))
}

func NewTimer(d real.Duration) *Timer {
	rt.Y()
	rt.CheckKill()
	n := rt.CurNode()
	c := make(chan real.Time, 1)
	t := &Timer{C: c, c: c, n: n, in: n.Inc}
	t.arm(d)
	return t
}

func After(d real.Duration) <-chan real.Time { return NewTimer(d).C }

func AfterFunc(d real.Duration, f func()) *Timer {
	rt.Y()
	rt.CheckKill()
	n := rt.CurNode()
	t := &Timer{f: f, n: n, in: n.Inc}
	t.arm(d)
	return t
}

func (t *Timer) Stop() bool { return rt.S.Cancel(t.t) }
func (t *Timer) Reset(d real.Duration) bool {
	a := rt.S.Cancel(t.t)
	t.arm(d)
	return a
}

type Ticker struct {
	C    <-chan real.Time
	c    chan real.Time
	n    *rt.Node
	in   int
	t    *rt.Timer
	d    int64
	next int64 // on the true time line, without slack
	dead bool
}

func (t *Ticker) arm() {
	p := t.n.TrueDur(t.d)
	t.t = rt.S.AtTrue(t.next+rt.S.Slack(), func() {
		if !t.n.Alive || t.n.Inc != t.in || t.dead {
			return
		}
		if !rt.TrySend(t.c, nowOf(t.n)) {
			rt.S.Probe("tick_dropped")
		}
		now := rt.S.Now()
		t.next += p * (1 + (now-t.next)/p)
		t.arm()
	})
}

func NewTicker(d real.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	rt.Y()
	rt.CheckKill()
	n := rt.CurNode()
	c := make(chan real.Time, 1)
	t := &Ticker{C: c, c: c, n: n, in: n.Inc, d: int64(d)}
	t.next = rt.S.Now() + n.TrueDur(t.d)
	t.arm()
	return t
}

func (t *Ticker) Stop() { t.dead = true; rt.S.Cancel(t.t) }
func (t *Ticker) Reset(d real.Duration) {
	rt.S.Cancel(t.t)
	t.dead = false
	t.d = int64(d)
	t.next = rt.S.Now() + t.n.TrueDur(t.d)
	t.arm()
}

func Tick(d real.Duration) <-chan real.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
