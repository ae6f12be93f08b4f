//go:build go1.21

// Package ssh replaces the SSH transport: connections arrive over the simulated
// network, authentication requests are one JSON line each, and the handlers the
// repository registers decide about them exactly as the real library would ask
// them to. Everything after authentication is a byte stream to the session.
package ssh

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	real "github.com/gliderlabs/ssh"
	gossh "golang.org/x/crypto/ssh"
	"io"
	simctx "msim/ov/context"
	simnet "msim/ov/net"
	simos "msim/ov/os"
	"msim/rt"
	"net"
)

// Hello is what a client sends to log in.
type Hello struct {
	User     string
	Method   string // none, password, publickey, keyboard
	Password string
	Key      []byte // wire format
	Pty      bool
	W, H     int
	Try      bool // more attempts follow when this one fails
}

var ErrServerClosed = real.ErrServerClosed

func Handle(h real.Handler) {
	if n := rt.CurNode(); n != nil {
		n.Vals["sshhandler"] = h
	}
}

func HostKeyFile(filepath string) real.Option {
	return func(srv *real.Server) error {
		pem, err := simos.ReadFile(filepath)
		if err != nil {
			return err
		}
		s, err := gossh.ParsePrivateKey(pem)
		if err != nil {
			return err
		}
		srv.AddHostKey(s)
		return nil
	}
}

func ListenAndServe(addr string, handler real.Handler, options ...real.Option) error {
	srv := &real.Server{Addr: addr, Handler: handler}
	for _, o := range options {
		if err := srv.SetOption(o); err != nil {
			return err
		}
	}
	if srv.Handler == nil {
		if h, ok := rt.CurNode().Vals["sshhandler"].(real.Handler); ok {
			srv.Handler = h
		}
	}
	l, err := simnet.Listen("tcp", addr)
	if err != nil {
		return err
	}
	return Serve(l, srv)
}

func Serve(l net.Listener, srv *real.Server) error {
	keys := []string{}
	for _, s := range srv.HostSigners {
		keys = append(keys, gossh.FingerprintSHA256(s.PublicKey()))
	}
	rt.CurNode().Vals["hostkeys"] = keys
	for {
		c, err := l.Accept()
		if err != nil {
			return err
		}
		rt.GoN("ssh-conn", func() { serveConn(c, srv) })
	}
}

type ctx struct {
	context.Context
	rt.Mutex
	user  string
	c     net.Conn
	perms *real.Permissions
	vals  map[interface{}]interface{}
}

func (c *ctx) User() string                   { return c.user }
func (c *ctx) SessionID() string              { return "sess" }
func (c *ctx) ClientVersion() string          { return "SSH-2.0-sim" }
func (c *ctx) ServerVersion() string          { return "SSH-2.0-sim" }
func (c *ctx) RemoteAddr() net.Addr           { return c.c.RemoteAddr() }
func (c *ctx) LocalAddr() net.Addr            { return c.c.LocalAddr() }
func (c *ctx) Permissions() *real.Permissions { return c.perms }
func (c *ctx) SetValue(k, v interface{})      { c.vals[k] = v }
func (c *ctx) Value(k interface{}) interface{} {
	if v, ok := c.vals[k]; ok {
		return v
	}
	return c.Context.Value(k)
}

func serveConn(c net.Conn, srv *real.Server) {
	defer c.Close()
	r := bufio.NewReaderSize(c, 4096)
	base, cancel := simctx.WithCancel(context.Background())
	defer cancel()
	cx := &ctx{Context: base, c: c, perms: &real.Permissions{Permissions: &gossh.Permissions{}}, vals: map[interface{}]interface{}{}}
	noAuth := srv.PasswordHandler == nil && srv.PublicKeyHandler == nil && srv.KeyboardInteractiveHandler == nil
	var h Hello
	var key real.PublicKey
	for try := 0; ; try++ {
		line, err := r.ReadBytes('\n')
		if err != nil || try >= 6 {
			return
		}
		h = Hello{}
		if json.Unmarshal(line, &h) != nil {
			return
		}
		cx.user = h.User
		ok := false
		switch h.Method {
		case "none":
			ok = noAuth
		case "password":
			ok = srv.PasswordHandler != nil && srv.PasswordHandler(cx, h.Password)
		case "publickey":
			if srv.PublicKeyHandler != nil {
				if k, err := gossh.ParsePublicKey(h.Key); err == nil {
					key = k
					ok = srv.PublicKeyHandler(cx, k)
				}
			}
		case "keyboard":
			if srv.KeyboardInteractiveHandler != nil {
				ok = srv.KeyboardInteractiveHandler(cx, func(user, instr string, qs []string, echos []bool) ([]string, error) {
					a := make([]string, len(qs))
					for i := range a {
						a[i] = h.Password
					}
					return a, nil
				})
			}
		}
		if ok {
			break
		}
		if _, err := fmt.Fprintf(c, "DENIED\n"); err != nil || !h.Try {
			return
		}
	}
	if _, err := fmt.Fprintf(c, "WELCOME\n"); err != nil {
		return
	}
	if srv.Handler == nil {
		return
	}
	s := &session{c: c, r: r, cx: cx, h: h, key: key, win: make(chan real.Window, 1)}
	s.win <- real.Window{Width: h.W, Height: h.H}
	srv.Handler(s)
	s.Close()
}

type session struct {
	c   net.Conn
	r   *bufio.Reader
	cx  *ctx
	h   Hello
	key real.PublicKey
	win chan real.Window
	cl  bool
}

var errEOF = errors.New("EOF")

func (s *session) Read(p []byte) (int, error)  { return s.r.Read(p) }
func (s *session) Write(p []byte) (int, error) { return s.c.Write(p) }
func (s *session) Close() error {
	if s.cl {
		return errEOF
	}
	s.cl = true
	rt.Close(s.win)
	return s.c.Close()
}
func (s *session) CloseWrite() error { return nil }
func (s *session) SendRequest(name string, wantReply bool, payload []byte) (bool, error) {
	return false, nil
}

type stderrRW struct{ s *session }

func (e stderrRW) Read(p []byte) (int, error)  { return e.s.Read(p) }
func (e stderrRW) Write(p []byte) (int, error) { return e.s.Write(p) }

func (s *session) Stderr() io.ReadWriter         { return stderrRW{s} }
func (s *session) User() string                  { return s.h.User }
func (s *session) RemoteAddr() net.Addr          { return s.c.RemoteAddr() }
func (s *session) LocalAddr() net.Addr           { return s.c.LocalAddr() }
func (s *session) Environ() []string             { return nil }
func (s *session) Exit(code int) error           { return s.Close() }
func (s *session) Command() []string             { return nil }
func (s *session) RawCommand() string            { return "" }
func (s *session) PublicKey() real.PublicKey     { return s.key }
func (s *session) Context() context.Context      { return s.cx }
func (s *session) Permissions() real.Permissions { return *s.cx.perms }
func (s *session) Pty() (real.Pty, <-chan real.Window, bool) {
	return real.Pty{Term: "xterm", Window: real.Window{Width: s.h.W, Height: s.h.H}}, s.win, s.h.Pty
}
func (s *session) Signals(chan<- real.Signal) {}
