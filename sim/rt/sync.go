//go:build go1.21

package rt

// Mutex, RWMutex, WaitGroup and Cond have the Go semantics: barging mutex with
// hand-off to starving waiters, writer-preferring RWMutex, FIFO condition queue.

type Mutex struct {
	locked bool
	q      []*Task
	handed *Task
}

func (m *Mutex) Lock() {
	Y()
	if cur == nil {
		m.locked = true
		return
	}
	CheckKill()
	if !m.locked {
		m.locked = true
		return
	}
	t := cur
	m.q = append(m.q, t)
	start := S.Now()
	for {
		Park("mutex")
		if m.handed == t {
			m.handed = nil
			return
		}
		if !m.locked {
			m.locked = true
			return
		}
		// lost to a barging task: back to the front of the queue
		m.q = append([]*Task{t}, m.q...)
		_ = start
	}
}

func (m *Mutex) TryLock() bool {
	Y()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if Killed() {
		return
	}
	if !m.locked {
		panic(Fatal{"sync: unlock of unlocked mutex"})
	}
	if cur == nil {
		m.locked = false
		return
	}
	for len(m.q) > 0 && m.q[0].killed {
		m.q = m.q[1:]
	}
	if len(m.q) > 0 {
		t := m.q[0]
		m.q = m.q[1:]
		if S.Now()-t.since > 1e6 { // starving: direct hand-off
			m.handed = t
		} else {
			m.locked = false
		}
		S.Ready(t)
	} else {
		m.locked = false
	}
	unlocked()
}

type RWMutex struct {
	writer  bool // a writer holds it
	pending *Task
	readers int
	wq      []*Task
	rq      []*Task
}

func (m *RWMutex) prune() {
	for len(m.wq) > 0 && m.wq[0].killed {
		m.wq = m.wq[1:]
	}
}

func (m *RWMutex) Lock() {
	Y()
	if cur == nil {
		m.writer = true
		return
	}
	CheckKill()
	if !m.writer && m.readers == 0 && m.pending == nil {
		m.writer = true
		return
	}
	t := cur
	if m.pending == nil && !m.writer {
		m.pending = t
	} else {
		m.wq = append(m.wq, t)
	}
	for !(m.writer && m.pending == t) {
		Park("rwmutex write lock")
	}
	m.pending = nil
}

func (m *RWMutex) TryLock() bool {
	Y()
	if m.writer || m.readers > 0 || m.pending != nil {
		return false
	}
	m.writer = true
	return true
}

func (m *RWMutex) Unlock() {
	if Killed() {
		return
	}
	if !m.writer {
		panic(Fatal{"sync: Unlock of unlocked RWMutex"})
	}
	m.writer = false
	if cur == nil {
		return
	}
	// readers that arrived meanwhile go first, then the next writer
	for _, t := range m.rq {
		if !t.killed {
			m.readers++
			t.wOK = true
			S.Ready(t)
		}
	}
	m.rq = nil
	m.prune()
	if len(m.wq) > 0 {
		t := m.wq[0]
		m.wq = m.wq[1:]
		m.pending = t
		if m.readers == 0 {
			m.writer = true
			S.Ready(t)
		}
	}
	unlocked()
}

func (m *RWMutex) RLock() {
	Y()
	if cur == nil {
		m.readers++
		return
	}
	CheckKill()
	if !m.writer && m.pending == nil {
		m.readers++
		return
	}
	t := cur
	t.wOK = false
	m.rq = append(m.rq, t)
	for !t.wOK {
		Park("rwmutex read lock")
	}
	t.wOK = false
}

func (m *RWMutex) TryRLock() bool {
	Y()
	if m.writer || m.pending != nil {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RUnlock() {
	if Killed() {
		return
	}
	if m.readers <= 0 {
		panic(Fatal{"sync: RUnlock of unlocked RWMutex"})
	}
	m.readers--
	if cur == nil {
		return
	}
	if m.readers == 0 && m.pending != nil {
		if m.pending.killed {
			m.pending = nil
		} else {
			m.writer = true
			S.Ready(m.pending)
		}
	}
	unlocked()
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

// RLocker returns a Locker for the read side.
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Locker interface {
	Lock()
	Unlock()
}

type WaitGroup struct {
	n int
	q []*Task
}

func (w *WaitGroup) Add(d int) {
	if Killed() {
		return
	}
	Y()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	if w.n == 0 {
		q := w.q
		w.q = nil
		for _, t := range q {
			S.Ready(t)
		}
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	Y()
	if cur == nil {
		return
	}
	CheckKill()
	if w.n == 0 {
		return
	}
	w.q = append(w.q, cur)
	Park("waitgroup")
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() { defer w.Done(); f() })
}

type Cond struct {
	L Locker
	q []*Task
}

func (c *Cond) Wait() {
	CheckKill()
	t := cur
	t.wOK = false
	c.q = append(c.q, t)
	c.L.Unlock()
	for !t.wOK {
		Park("cond")
	}
	t.wOK = false
	c.L.Lock()
}

func (c *Cond) Signal() {
	if Killed() {
		return
	}
	Y()
	for len(c.q) > 0 {
		t := c.q[0]
		c.q = c.q[1:]
		if t.killed {
			continue
		}
		t.wOK = true
		S.Ready(t)
		return
	}
}

func (c *Cond) Broadcast() {
	if Killed() {
		return
	}
	Y()
	q := c.q
	c.q = nil
	for _, t := range q {
		if !t.killed {
			t.wOK = true
			S.Ready(t)
		}
	}
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	Y()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}
