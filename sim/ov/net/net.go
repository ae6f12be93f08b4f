//go:build go1.21

package net

import (
	"context"
	simtime "msim/ov/time"
	"msim/rt"
	real "net"
	"time"
)

type TCPConn struct{ C *rt.Conn }

// SimID orders connections deterministically.
func (c *TCPConn) SimID() int64 { return c.C.SimID() }

func (c *TCPConn) Read(p []byte) (int, error)  { return c.C.Read(p) }
func (c *TCPConn) Write(p []byte) (int, error) { return c.C.Write(p) }
func (c *TCPConn) Close() error                { return c.C.Close() }
func (c *TCPConn) CloseWrite() error           { return c.C.CloseWrite() }
func (c *TCPConn) CloseRead() error            { return nil }
func (c *TCPConn) LocalAddr() real.Addr        { return c.C.LocalAddr() }
func (c *TCPConn) RemoteAddr() real.Addr       { return c.C.RemoteAddr() }
func dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := rt.S.Now() + rt.CurNode().TrueDur(int64(t.Sub(simtime.Now())))
	if d <= 0 {
		d = 1
	}
	return d
}
func (c *TCPConn) SetDeadline(t time.Time) error {
	d := dl(t)
	c.C.SetReadDeadline(d)
	c.C.SetWriteDeadline(d)
	return nil
}
func (c *TCPConn) SetReadDeadline(t time.Time) error      { c.C.SetReadDeadline(dl(t)); return nil }
func (c *TCPConn) SetWriteDeadline(t time.Time) error     { c.C.SetWriteDeadline(dl(t)); return nil }
func (c *TCPConn) SetKeepAlive(bool) error                { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *TCPConn) SetNoDelay(bool) error                  { return nil }
func (c *TCPConn) SetLinger(int) error                    { return nil }
func (c *TCPConn) SetReadBuffer(int) error                { return nil }
func (c *TCPConn) SetWriteBuffer(int) error               { return nil }

type TCPListener struct{ L *rt.Listener }

func (l *TCPListener) Accept() (real.Conn, error) {
	c, err := l.L.Accept()
	if err != nil {
		return nil, err
	}
	return &TCPConn{c}, nil
}
func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	c, err := l.L.Accept()
	if err != nil {
		return nil, err
	}
	return &TCPConn{c}, nil
}
func (l *TCPListener) Close() error                { return l.L.Close() }
func (l *TCPListener) Addr() real.Addr             { return l.L.Addr() }
func (l *TCPListener) SetDeadline(time.Time) error { return nil }

func Listen(network, addr string) (real.Listener, error) {
	l, err := rt.S.Net.Listen(addr)
	if err != nil {
		return nil, err
	}
	return &TCPListener{l}, nil
}

func ListenTCP(network string, a *real.TCPAddr) (*TCPListener, error) {
	l, err := rt.S.Net.Listen(a.String())
	if err != nil {
		return nil, err
	}
	return &TCPListener{l}, nil
}

func Dial(network, addr string) (real.Conn, error) { return DialTimeout(network, addr, 0) }

func DialTimeout(network, addr string, d time.Duration) (real.Conn, error) {
	c, err := rt.S.Net.Dial(addr, int64(d))
	if err != nil {
		return nil, err
	}
	return &TCPConn{c}, nil
}

func DialTCP(network string, l, r *real.TCPAddr) (*TCPConn, error) {
	c, err := rt.S.Net.Dial(r.String(), 0)
	if err != nil {
		return nil, err
	}
	return &TCPConn{c}, nil
}

type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     real.Addr
	DualStack     bool
	FallbackDelay time.Duration
	KeepAlive     time.Duration
	Cancel        <-chan struct{}
}

func (d *Dialer) Dial(network, addr string) (real.Conn, error) {
	return DialTimeout(network, addr, d.Timeout)
}
func (d *Dialer) DialContext(_ context.Context, network, addr string) (real.Conn, error) {
	return DialTimeout(network, addr, d.Timeout)
}

type ListenConfig struct {
	KeepAlive time.Duration
}

func (lc *ListenConfig) Listen(_ context.Context, network, addr string) (real.Listener, error) {
	return Listen(network, addr)
}

func LookupHost(h string) ([]string, error) { return []string{h}, nil }
func LookupIP(h string) ([]real.IP, error)  { return []real.IP{real.ParseIP(h)}, nil }
func InterfaceAddrs() ([]real.Addr, error)  { return nil, nil }
func Interfaces() ([]real.Interface, error) { return nil, nil }

type pipeConn struct{ *TCPConn }
