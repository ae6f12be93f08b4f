//go:build go1.21

package rt

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// Net is the simulated TCP network: reliable, ordered byte streams with
// latency, jitter, arbitrary segmentation, bounded buffers, stalls
// (partitions), resets and connection setup failures.
type Net struct {
	s         *Sim
	r         *Rand
	listeners map[string]*Listener
	conns     []*Conn
	LatMin    int64
	LatMax    int64
	Jitter    int64
	SegMax    int // largest segment
	SegTiny   int // one in SegTiny writes is dribbled out in tiny segments (0: never)
	ShortRead int // one in ShortRead reads returns less than available
	Window    int // bytes in flight plus unread before a writer blocks
	cut       map[string]int64
	lat       map[string]int64
	nextPort  int
	seq       int64
	DialFail  func(from *Node, addr string) error
	Bytes     int64
	Segs      int64
	Listens   []ListenRec
}

// ListenRec is one successful Listen.
type ListenRec struct {
	Node string
	Inc  int
	T    int64
	Bind string // "lo", "any" or "host"
	Port int
}

func newNet(s *Sim) *Net {
	return &Net{s: s, r: NewRand(s.Cfg.Seed, "net"), listeners: map[string]*Listener{}, LatMin: 200e3, LatMax: 2e6, Jitter: 200e3,
		SegMax: 1 << 16, Window: 1 << 18, cut: map[string]int64{}, lat: map[string]int64{}, nextPort: 40000}
}

func pairKey(a, b string) string { return a + ">" + b }

// Cut stalls all traffic from host a to host b until the given time.
func (n *Net) Cut(a, b string, until int64) {
	k := pairKey(a, b)
	if n.cut[k] < until {
		n.cut[k] = until
	}
}

// SetLat fixes the base one-way latency from a to b.
func (n *Net) SetLat(a, b string, ns int64) { n.lat[pairKey(a, b)] = ns }

func (n *Net) baseLat(a, b string) int64 {
	if a == b {
		return 20e3
	}
	k := pairKey(a, b)
	if v, ok := n.lat[k]; ok {
		return v
	}
	v := n.LatMin + n.r.N64(n.LatMax-n.LatMin+1)
	n.lat[k] = v
	return v
}

// Lat draws the delay of one segment.
func (n *Net) delay(a, b string) int64 {
	d := n.baseLat(a, b)
	if n.Jitter > 0 && a != b {
		d += n.r.N64(n.Jitter)
	}
	return d
}

type Addr struct{ Net, S string }

func (a Addr) Network() string { return a.Net }
func (a Addr) String() string  { return a.S }

type Listener struct {
	n         *Net
	node      *Node
	inc       int
	addr      string
	bind      string
	q         []*Conn
	wait      []*Task
	closed    bool
	acceptErr error
	acceptN   int64 // how many times accepting fails
}

type half struct { // one direction of a connection
	buf      []byte // delivered, unread
	inflight int
	lastAt   int64
	fin      bool // sender closed
	finRecv  bool
	pend     []func() // deliveries held back
}

type Conn struct {
	n         *Net
	id        int64
	node      *Node
	inc       int
	peer      *Conn
	laddr     string
	raddr     string
	in        half
	fd        bool // counts as an open file
	win       int  // its own receive window, if smaller than the network's
	closed    bool
	reset     bool
	black     bool // the machine is gone: nothing is ever acknowledged
	rq, wq    []*Task
	wlock     []*Task
	writing   *Task
	rdl, wdl  int64
	rdt, wdt  *Timer
	held      []func()
	stalled   bool // harness: reader refuses to read
	Tag       string
	ackClosed bool
	readingT  *Task
	rlock     []*Task
}

func (c *Conn) SimID() int64 { return c.id }

func hostOf(addr string) string {
	if i := strings.LastIndexByte(addr, ':'); i >= 0 {
		return strings.Trim(addr[:i], "[]")
	}
	return addr
}

func opErr(op string, a net.Addr, e error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: a, Err: e}
}

// Listen opens a listening socket on the current node.
func (n *Net) Listen(addr string) (*Listener, error) {
	Y()
	CheckKill()
	node := CurNode()
	host := hostOf(addr)
	port := addr[strings.LastIndexByte(addr, ':')+1:]
	if p, err := strconv.Atoi(port); err != nil || p < 0 || p > 65535 {
		return nil, opErr("listen", Addr{"tcp", addr}, &net.AddrError{Err: "invalid port", Addr: port})
	}
	bind := "host"
	switch {
	case host == "" || host == "0.0.0.0" || host == "::":
		bind = "any"
	case host == "localhost" || strings.HasPrefix(host, "127."):
		bind = "lo"
	case host != node.Host:
		return nil, opErr("listen", Addr{"tcp", addr}, os.NewSyscallError("bind", syscall.EADDRNOTAVAIL))
	}
	for _, b := range []string{"host", "lo", "any"} {
		if l := n.listeners[b+" "+node.Host+":"+port]; l != nil && !l.closed && (b == bind || b == "any" || bind == "any") {
			return nil, opErr("listen", Addr{"tcp", addr}, os.NewSyscallError("bind", syscall.EADDRINUSE))
		}
	}
	l := &Listener{n: n, node: node, inc: node.Inc, addr: addr, bind: bind}
	n.listeners[bind+" "+node.Host+":"+port] = l
	p, _ := strconv.Atoi(port)
	n.Listens = append(n.Listens, ListenRec{node.Name, node.Inc, n.s.now, bind, p})
	n.s.Tracef("%s listens on %s", node.Name, addr)
	return l, nil
}

// listener finds who accepts connections to addr.
func (n *Net) listener(addr string, lo bool) *Listener {
	b := "host"
	if lo {
		b = "lo"
	}
	for _, b := range []string{b, "any"} {
		if l := n.listeners[b+" "+addr]; l != nil && !l.closed && l.node.Alive {
			return l
		}
	}
	return nil
}

func wake(s *Sim, q *[]*Task) {
	ts := *q
	*q = nil
	for _, t := range ts {
		s.Ready(t)
	}
}

func (l *Listener) Accept() (*Conn, error) {
	Y()
	for {
		CheckKill()
		if l.closed {
			return nil, opErr("accept", l.Addr(), net.ErrClosed)
		}
		if e := l.acceptErr; e != nil {
			if l.acceptN--; l.acceptN <= 0 {
				l.acceptErr = nil
			}
			if e == syscall.ECONNABORTED || e == syscall.EINTR { // the runtime does not report these
				continue
			}
			return nil, opErr("accept", l.Addr(), e)
		}
		if len(l.q) > 0 {
			if l.node.FDs >= l.node.FDLimit {
				l.n.s.Fault("fd_limit_accept")
				return nil, opErr("accept", l.Addr(), os.NewSyscallError("accept4", syscall.EMFILE))
			}
			c := l.q[0]
			l.q = l.q[1:]
			c.fd = true
			l.node.FDs++
			return c, nil
		}
		l.wait = append(l.wait, cur)
		Park("accept")
	}
}

func (l *Listener) Close() error {
	if Killed() || l.closed {
		return nil
	}
	l.closed = true
	for _, c := range l.q {
		c.abort()
	}
	wake(l.n.s, &l.wait)
	return nil
}
func (l *Listener) Addr() net.Addr { return Addr{"tcp", l.addr} }

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }
func (timeoutErr) Is(e error) bool { return e == os.ErrDeadlineExceeded }

// Dial connects the current node to addr.
func (n *Net) Dial(addr string, timeout int64) (*Conn, error) {
	Y()
	CheckKill()
	s := n.s
	node := CurNode()
	host := hostOf(addr)
	lo := host == "" || strings.HasPrefix(host, "127.") || host == "localhost"
	if lo {
		host = node.Host
		addr = host + addr[strings.LastIndexByte(addr, ':'):]
	}
	if timeout <= 0 {
		timeout = 127e9
	}
	deadline := s.Now() + timeout
	if n.DialFail != nil {
		if err := n.DialFail(node, addr); err != nil {
			SleepTrue(n.delay(node.Host, host))
			return nil, opErr("dial", Addr{"tcp", addr}, err)
		}
	}
	at := n.arrive(node.Host, host, s.Now()+n.delay(node.Host, host))
	if at > deadline {
		SleepTrue(deadline - s.Now())
		return nil, opErr("dial", Addr{"tcp", addr}, timeoutErr{})
	}
	SleepTrue(at - s.Now())
	back := n.arrive(host, node.Host, s.Now()+n.delay(host, node.Host))
	l := n.listener(addr, lo)
	if l == nil {
		up := false
		for _, o := range s.Nodes {
			if o.Host == host && (o.Vals["poweroff"] == nil) {
				up = true
			}
		}
		if !up {
			SleepTrue(deadline - s.Now())
			return nil, opErr("dial", Addr{"tcp", addr}, timeoutErr{})
		}
		SleepTrue(back - s.Now())
		return nil, opErr("dial", Addr{"tcp", addr}, os.NewSyscallError("connect", syscall.ECONNREFUSED))
	}
	n.nextPort++
	n.seq++
	la := fmt.Sprintf("%s:%d", node.Host, n.nextPort)
	a := &Conn{n: n, id: n.seq * 2, node: node, inc: node.Inc, laddr: la, raddr: addr, fd: true}
	node.FDs++
	b := &Conn{n: n, id: n.seq*2 + 1, node: l.node, inc: l.node.Inc, laddr: addr, raddr: la}
	a.peer, b.peer = b, a
	n.conns = append(n.conns, a, b)
	l.q = append(l.q, b)
	wake(s, &l.wait)
	s.Ev("conn", a.id)
	if back > deadline {
		SleepTrue(deadline - s.Now())
		a.abort()
		return nil, opErr("dial", Addr{"tcp", addr}, timeoutErr{})
	}
	SleepTrue(back - s.Now())
	if a.reset {
		return nil, opErr("dial", Addr{"tcp", addr}, os.NewSyscallError("connect", syscall.ECONNRESET))
	}
	return a, nil
}

// arrive is when something sent now from a to b with natural arrival time at
// gets through, given the stalls.
func (n *Net) arrive(a, b string, at int64) int64 {
	if u := n.cut[pairKey(a, b)]; u > n.s.Now() && at < u {
		n.s.Faults["net_stalled_segment"]++
		return u + n.r.N64(200e6) // retransmission after the stall ends
	}
	return at
}

// deliver schedules fn at c (receiving side) in order.
func (c *Conn) deliver(fn func()) {
	n := c.n
	from, to := c.peer.node.Host, c.node.Host
	at := n.arrive(from, to, n.s.Now()+n.delay(from, to))
	if at <= c.in.lastAt {
		at = c.in.lastAt + 1
	}
	c.in.lastAt = at
	n.s.AtTrue(at, func() { c.attempt(fn) })
}

func (c *Conn) attempt(fn func()) {
	// a stall that began after the segment left holds it back too
	if u := c.n.cut[pairKey(c.peer.node.Host, c.node.Host)]; u > c.n.s.now {
		at := u + c.n.r.N64(100e6)
		if len(c.held) == 0 {
			c.held = append(c.held, fn)
			c.n.s.Faults["net_stalled_segment"]++
			var flush func()
			flush = func() {
				if u := c.n.cut[pairKey(c.peer.node.Host, c.node.Host)]; u > c.n.s.now {
					c.n.s.AtTrue(u+1, flush)
					return
				}
				h := c.held
				c.held = nil
				for _, f := range h {
					f()
				}
			}
			c.n.s.AtTrue(at, flush)
		} else {
			c.held = append(c.held, fn)
		}
		return
	}
	if len(c.held) > 0 {
		c.held = append(c.held, fn)
		return
	}
	fn()
}

func (c *Conn) Write(p []byte) (int, error) {
	Y()
	CheckKill()
	s := c.n.s
	t := cur
	for c.writing != nil && !c.writing.killed {
		c.wlock = append(c.wlock, t)
		Park("conn write lock")
	}
	c.writing = t
	defer func() {
		if Killed() {
			return
		}
		c.writing = nil
		for len(c.wlock) > 0 {
			w := c.wlock[0]
			c.wlock = c.wlock[1:]
			if !w.killed {
				s.Ready(w)
				break
			}
		}
	}()
	done := 0
	tiny := c.n.SegTiny > 0 && len(p) > 0 && c.n.r.N(c.n.SegTiny) == 0
	if tiny {
		s.Faults["net_dribble"]++
	}
	pr := c.peer
	for {
		if c.closed {
			return done, opErr("write", c.RemoteAddr(), net.ErrClosed)
		}
		if c.reset || pr.ackClosed {
			return done, opErr("write", c.RemoteAddr(), os.NewSyscallError("write", syscall.EPIPE))
		}
		if c.wdl != 0 && s.Now() >= c.wdl {
			return done, opErr("write", c.RemoteAddr(), timeoutErr{})
		}
		if done >= len(p) {
			return done, nil
		}
		win := c.n.Window
		if pr.win > 0 && pr.win < win {
			win = pr.win
		}
		room := win - len(pr.in.buf) - pr.in.inflight
		if room <= 0 {
			s.Faults["net_backpressure"]++
			c.wq = append(c.wq, t)
			Park("conn write")
			continue
		}
		k := len(p) - done
		if k > room {
			k = room
		}
		m := c.n.SegMax
		if m > 1 {
			m = 1 + c.n.r.N(m)
			if c.n.r.N(3) == 0 {
				m = c.n.SegMax
			}
		}
		if tiny {
			m = 1 + c.n.r.N(7)
			if len(p) > 4000 {
				m = 1 + c.n.r.N(len(p)/16)
			}
		}
		if k > m {
			k = m
		}
		seg := append([]byte(nil), p[done:done+k]...)
		done += k
		c.n.Bytes += int64(k)
		c.n.Segs++
		if c.black || pr.black {
			pr.in.inflight += k
			continue
		}
		pr.in.inflight += k
		s.Ev("seg", c.id, int64(k))
		pr.deliver(func() {
			pr.in.inflight -= len(seg)
			if pr.black {
				pr.in.inflight += len(seg)
				return
			}
			if pr.reset {
				return
			}
			if pr.closed {
				// data for a closed socket: reset
				pr.peer.deliver(func() { pr.peer.gotReset() })
				return
			}
			pr.in.buf = append(pr.in.buf, seg...)
			wake(s, &pr.rq)
		})
	}
}

func (c *Conn) Read(p []byte) (int, error) {
	Y()
	s := c.n.s
	// reads of one connection are serialised
	for c.readingT != nil && c.readingT != cur && !c.readingT.killed {
		CheckKill()
		c.rlock = append(c.rlock, cur)
		Park("conn read lock")
	}
	c.readingT = cur
	defer func() {
		if Killed() {
			return
		}
		c.readingT = nil
		wake(s, &c.rlock)
	}()
	for {
		CheckKill()
		if c.closed {
			return 0, opErr("read", c.RemoteAddr(), net.ErrClosed)
		}
		if c.rdl != 0 && s.Now() >= c.rdl {
			return 0, opErr("read", c.RemoteAddr(), timeoutErr{})
		}
		if len(p) == 0 {
			return 0, nil
		}
		if len(c.in.buf) > 0 {
			k := len(p)
			if k > len(c.in.buf) {
				k = len(c.in.buf)
			}
			if c.n.ShortRead > 0 && k > 1 && c.n.r.N(c.n.ShortRead) == 0 {
				k = 1 + c.n.r.N(k-1)
				s.Faults["net_short_read"]++
			}
			copy(p, c.in.buf[:k])
			c.in.buf = c.in.buf[k:]
			if len(c.in.buf) == 0 {
				c.in.buf = nil
			}
			// window update reaches the writer
			pr := c.peer
			if len(pr.wq) > 0 {
				pr.deliver(func() { wake(s, &pr.wq) })
			}
			return k, nil
		}
		if c.reset {
			return 0, opErr("read", c.RemoteAddr(), os.NewSyscallError("read", syscall.ECONNRESET))
		}
		if c.in.finRecv {
			return 0, io.EOF
		}
		c.rq = append(c.rq, cur)
		Park("conn read")
	}
}

func (c *Conn) gotReset() {
	c.reset = true
	c.in.buf = nil
	wake(c.n.s, &c.rq)
	wake(c.n.s, &c.wq)
}

func (c *Conn) Close() error {
	Y()
	if Killed() {
		return nil
	}
	if c.closed {
		return opErr("close", c.RemoteAddr(), net.ErrClosed)
	}
	c.shut(false)
	return nil
}

// abort resets the connection.
func (c *Conn) abort() {
	if c.closed {
		return
	}
	c.shut(true)
}

func (c *Conn) shut(rst bool) {
	s := c.n.s
	c.closed = true
	if c.fd && c.inc == c.node.Inc {
		c.node.FDs--
	}
	if len(c.in.buf) > 0 {
		rst = true // closing with unread data resets
	}
	wake(s, &c.rq)
	wake(s, &c.wq)
	if c.rdt != nil {
		s.Cancel(c.rdt)
	}
	if c.wdt != nil {
		s.Cancel(c.wdt)
	}
	if c.black {
		return
	}
	pr := c.peer
	s.Ev("close", c.id)
	if rst {
		pr.deliver(func() { pr.gotReset() })
	} else {
		pr.deliver(func() {
			pr.in.finRecv = true
			wake(s, &pr.rq)
		})
	}
	c.n.gc()
}

func (n *Net) gc() {
	if len(n.conns) < 64 {
		return
	}
	k := n.conns[:0]
	for _, c := range n.conns {
		if !(c.closed && c.peer.closed) {
			k = append(k, c)
		}
	}
	n.conns = k
}

func (c *Conn) LocalAddr() net.Addr  { return tcpAddr(c.laddr) }
func (c *Conn) RemoteAddr() net.Addr { return tcpAddr(c.raddr) }

func tcpAddr(a string) net.Addr {
	p, _ := strconv.Atoi(a[strings.LastIndexByte(a, ':')+1:])
	return &net.TCPAddr{IP: net.ParseIP(hostOf(a)), Port: p}
}

func (c *Conn) SetReadDeadline(t int64) {
	s := c.n.s
	s.Cancel(c.rdt)
	c.rdl = t
	wake(s, &c.rq)
	if t != 0 {
		c.rdt = s.AtTrue(t, func() { wake(s, &c.rq) })
	}
}
func (c *Conn) SetWriteDeadline(t int64) {
	s := c.n.s
	s.Cancel(c.wdt)
	c.wdl = t
	wake(s, &c.wq)
	if t != 0 {
		c.wdt = s.AtTrue(t, func() { wake(s, &c.wq) })
	}
}

// Abort is SetLinger(0)+Close, used by the harness.
func (c *Conn) Abort() { c.abort() }

// CloseWrite half-closes.
func (c *Conn) CloseWrite() error {
	pr := c.peer
	pr.deliver(func() {
		pr.in.finRecv = true
		wake(c.n.s, &pr.rq)
	})
	return nil
}

// Unread is how much has been delivered but not read.
func (c *Conn) Unread() int { return len(c.in.buf) }

// nodeDown closes or blackholes all sockets of a dead process.
func (n *Net) nodeDown(node *Node, graceful bool) {
	var keys []string
	for k := range n.listeners {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		l := n.listeners[k]
		if l.node == node && !l.closed {
			l.closed = true
			for _, c := range l.q {
				if graceful {
					c.abort()
				} else {
					c.black = true
				}
			}
		}
	}
	for _, c := range append([]*Conn{}, n.conns...) {
		if c.node != node || c.closed {
			continue
		}
		if graceful {
			c.shut(false)
		} else {
			c.black = true
			c.closed = true
		}
	}
}

var ErrHarness = errors.New("harness")

var _ = time.Now

// ResetHost breaks every connection of a host, as a middlebox forgetting its
// state would: both ends learn about it.
func (n *Net) ResetHost(host string) {
	for _, c := range append([]*Conn{}, n.conns...) {
		if c.node.Host == host && !c.closed && !c.black {
			c, pr := c, c.peer
			n.s.AtTrue(n.s.now, func() { c.gotReset() })
			pr.deliver(func() { pr.gotReset() })
		}
	}
}

// FailAccept makes the next k Accepts of a listener fail.
func (n *Net) FailAccept(addr string, e error, k int64) {
	if l := n.listener(addr, false); l != nil {
		l.acceptErr, l.acceptN = e, k
		wake(n.s, &l.wait)
	}
}

// SetWindow makes the receive window of c smaller than the others'.
func (c *Conn) SetWindow(n int) { c.win = n }
