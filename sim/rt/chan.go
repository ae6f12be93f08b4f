//go:build go1.21

package rt

import "unsafe"

// Channels stay native Go channels (so len, cap and buffers behave as always);
// waiting is done here: a waiter is served in FIFO order, exactly as the Go
// runtime does.

type chanQ struct {
	recv []*waiter
	send []*waiter
}

type waiter struct {
	t    *Task
	ptr  unsafe.Pointer
	ok   bool
	done bool
	sel  *selState
	idx  int
}

type selState struct {
	fired int
}

func chPtr[C any](c C) uintptr { return *(*uintptr)(unsafe.Pointer(&c)) }

func (s *Sim) q(p uintptr) *chanQ {
	if s == nil || s.chans == nil {
		return nil
	}
	return s.chans[p]
}

func (s *Sim) qMake(p uintptr) *chanQ {
	q := s.chans[p]
	if q == nil {
		q = &chanQ{}
		s.chans[p] = q
	}
	return q
}

func (s *Sim) qGC(p uintptr, q *chanQ) {
	if len(q.recv) == 0 && len(q.send) == 0 {
		delete(s.chans, p)
	}
}

func popW(l *[]*waiter) *waiter {
	for len(*l) > 0 {
		w := (*l)[0]
		(*l)[0] = nil
		*l = (*l)[1:]
		if w.t != nil && w.t.killed {
			continue
		}
		if w.sel != nil {
			if w.sel.fired >= 0 {
				continue
			}
			w.sel.fired = w.idx
		}
		return w
	}
	return nil
}

func delW(l *[]*waiter, w *waiter) {
	for i, x := range *l {
		if x == w {
			*l = append((*l)[:i:i], (*l)[i+1:]...)
			return
		}
	}
}

// trySend delivers v if that is possible without waiting.
func trySend[E any](ch chan<- E, v E) bool {
	if ch == nil {
		return false
	}
	p := chPtr(ch)
	if q := S.q(p); q != nil && len(q.recv) > 0 {
		if w := popW(&q.recv); w != nil {
			S.qGC(p, q)
			if w.ptr != nil {
				*(*E)(w.ptr) = v
			}
			w.ok, w.done = true, true
			S.Ready(w.t)
			return true
		}
		S.qGC(p, q)
	}
	select {
	case ch <- v:
		return true
	default:
		return false
	}
}

func tryRecv[E any](ch <-chan E) (v E, ok, done bool) {
	if ch == nil {
		return
	}
	select {
	case v, ok = <-ch:
		done = true
	default:
	}
	p := chPtr(ch)
	q := S.q(p)
	if q == nil || len(q.send) == 0 {
		return
	}
	if done && !ok {
		return
	}
	w := popW(&q.send)
	S.qGC(p, q)
	if w == nil {
		return
	}
	if done { // a slot became free: the first waiting sender takes it
		bidir := *(*chan E)(unsafe.Pointer(&ch))
		select {
		case bidir <- *(*E)(w.ptr):
		default:
			panic("rt: channel slot vanished")
		}
	} else { // unbuffered: take the value from the sender
		v, ok, done = *(*E)(w.ptr), true, true
	}
	w.ok, w.done = true, true
	S.Ready(w.t)
	return
}

// SendV is ch <- v.
func SendV[E any](ch chan<- E, v E) {
	Y()
	CheckKill()
	if trySend(ch, v) {
		return
	}
	if ch == nil {
		for {
			Park("send on nil channel")
		}
	}
	p := chPtr(ch)
	w := &waiter{t: cur, ptr: unsafe.Pointer(&v)}
	q := S.qMake(p)
	q.send = append(q.send, w)
	for !w.done {
		Park("chan send")
	}
	if !w.ok {
		panic(plainErr("send on closed channel"))
	}
}

// Send is ch <- v where v needs converting to the element type.
func Send[E any](ch chan<- E) func(E) { return func(v E) { SendV(ch, v) } }

type plainErr string

func (e plainErr) Error() string { return string(e) }
func (e plainErr) RuntimeError() {}

// Recv is <-ch.
func Recv[E any](ch <-chan E) E {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[E any](ch <-chan E) (E, bool) {
	Y()
	CheckKill()
	if v, ok, done := tryRecv(ch); done {
		return v, ok
	}
	if ch == nil {
		for {
			Park("receive from nil channel")
		}
	}
	p := chPtr(ch)
	w := &waiter{t: cur}
	v := new(E)
	w.ptr = unsafe.Pointer(v)
	q := S.qMake(p)
	q.recv = append(q.recv, w)
	for !w.done {
		Park("chan receive")
	}
	return *v, w.ok
}

// Close is close(ch).
func Close[E any](ch chan<- E) {
	Y()
	if Killed() {
		return
	}
	close(ch)
	p := chPtr(ch)
	q := S.q(p)
	if q == nil {
		return
	}
	for {
		w := popW(&q.recv)
		if w == nil {
			break
		}
		w.ok, w.done = false, true
		S.Ready(w.t)
	}
	for {
		w := popW(&q.send)
		if w == nil {
			break
		}
		w.ok, w.done = false, true
		S.Ready(w.t)
	}
	delete(S.chans, p)
}

// TrySend is a non-blocking send for simulator internals (timers, signals).
func TrySend[E any](ch chan<- E, v E) bool { return trySend(ch, v) }

// ---- select ----

type SelCase interface {
	try() bool
	enq(*selState, int)
	deq()
	fin(bool)
	isNil() bool
}

type RC[E any] struct {
	ch <-chan E
	v  E
	ok bool
	w  *waiter
}

func RecvCase[E any](ch <-chan E) *RC[E] { return &RC[E]{ch: ch} }
func (c *RC[E]) try() bool {
	v, ok, done := tryRecv(c.ch)
	if done {
		c.v, c.ok = v, ok
	}
	return done
}
func (c *RC[E]) isNil() bool { return c.ch == nil }
func (c *RC[E]) enq(s *selState, i int) {
	c.w = &waiter{t: cur, ptr: unsafe.Pointer(&c.v), sel: s, idx: i}
	q := S.qMake(chPtr(c.ch))
	q.recv = append(q.recv, c.w)
}
func (c *RC[E]) deq() {
	p := chPtr(c.ch)
	if q := S.q(p); q != nil {
		delW(&q.recv, c.w)
		S.qGC(p, q)
	}
}
func (c *RC[E]) fin(bool)        { c.ok = c.w.ok }
func (c *RC[E]) Val() E          { return c.v }
func (c *RC[E]) Val2() (E, bool) { return c.v, c.ok }

type SC[E any] struct {
	ch chan<- E
	v  E
	w  *waiter
}

func SendCase[E any](ch chan<- E) func(E) *SC[E] {
	return func(v E) *SC[E] { return &SC[E]{ch: ch, v: v} }
}
func (c *SC[E]) try() bool   { return trySend(c.ch, c.v) }
func (c *SC[E]) isNil() bool { return c.ch == nil }
func (c *SC[E]) enq(s *selState, i int) {
	c.w = &waiter{t: cur, ptr: unsafe.Pointer(&c.v), sel: s, idx: i}
	q := S.qMake(chPtr(c.ch))
	q.send = append(q.send, c.w)
}
func (c *SC[E]) deq() {
	p := chPtr(c.ch)
	if q := S.q(p); q != nil {
		delW(&q.send, c.w)
		S.qGC(p, q)
	}
}
func (c *SC[E]) fin(bool) {
	if !c.w.ok {
		panic(plainErr("send on closed channel"))
	}
}

// Select is a select statement; it returns the index of the chosen case, or -1
// for the default.
func Select(hasDefault bool, cs ...SelCase) int {
	Y()
	CheckKill()
	n := len(cs)
	perm := make([]int, n)
	S.rs.Perm(perm)
	for _, i := range perm {
		if !cs[i].isNil() && cs[i].try() {
			return i
		}
	}
	if hasDefault {
		return -1
	}
	st := &selState{fired: -1}
	for i, c := range cs {
		if !c.isNil() {
			c.enq(st, i)
		}
	}
	for st.fired < 0 {
		Park("select")
	}
	for i, c := range cs {
		if i != st.fired && !c.isNil() {
			c.deq()
		}
	}
	cs[st.fired].fin(true)
	return st.fired
}

// ---- range over channel ----

type ChanIt[E any] struct{ ch <-chan E }

func RangeChan[E any](ch <-chan E) (*ChanIt[E], E) {
	var z E
	return &ChanIt[E]{ch}, z
}
func RangeChan0[E any](ch <-chan E) *ChanIt[E] { return &ChanIt[E]{ch} }
func (it *ChanIt[E]) Next(v *E) bool {
	x, ok := Recv2(it.ch)
	if ok {
		*v = x
	}
	return ok
}
func (it *ChanIt[E]) Next0() bool { _, ok := Recv2(it.ch); return ok }
