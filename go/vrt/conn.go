// Package vrt is the controlled environment the sinksmtp code runs in while it
// is being checked: a fake network, a fake DNS, an observed and faultable file
// system, durable mutexes, and (in sched builds) scheduling points.
//
// Nothing in here knows how sinksmtp is written; the instrumenter
// (verif/cmd/instr) redirects a fixed list of standard library names here.
package vrt

import (
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"time"
)

// Addr is a fake TCP address.
type Addr string

func (a Addr) Network() string { return "tcp" }
func (a Addr) String() string  { return string(a) }

// Reply is one server reply, possibly multi-line.
type Reply struct {
	Code  int
	Lines []string
}

func (r Reply) String() string { return fmt.Sprintf("%d %q", r.Code, r.Lines) }

// Cmd is one client action, as delivered to the smtpd stand-in.
type Cmd struct {
	Verb string // HELO EHLO MAIL RCPT DATA BODY RSET NOOP QUIT ABORT STARTTLS BAD
	Arg  string
	TLS  *TLSOutcome
}

// TLSOutcome is what happens when the client says STARTTLS.
type TLSOutcome struct {
	Fail        bool
	Version     uint16
	Cipher      uint16
	ServerName  string
	PeerCert    any // *x509.Certificate or nil
	ChainVerify bool
}

// Conn is the server side of a fake connection. The smtpd stand-in reads
// commands from it with NextCmd and answers with Send.
type Conn struct {
	Remote, Local net.Addr
	cmds          chan Cmd
	idle          chan struct{}
	closed        chan struct{}
	once          sync.Once

	// written by the server goroutine before an idle/close signal, read by
	// the client after it.
	Replies []Reply
	Info    map[string]string
	Greeted bool
}

// NewConn makes a fake connection.
func NewConn(remote, local string) *Conn {
	return &Conn{Remote: Addr(remote), Local: Addr(local),
		cmds: make(chan Cmd), idle: make(chan struct{}), closed: make(chan struct{}),
		Info: map[string]string{}}
}

// NextCmd tells the client that the server has nothing more to say and waits
// for the next command. It returns false when the client has gone away.
func (c *Conn) NextCmd() (Cmd, bool) {
	select {
	case c.idle <- struct{}{}:
	case <-c.closed:
		return Cmd{}, false
	}
	select {
	case cmd := <-c.cmds:
		return cmd, true
	case <-c.closed:
		return Cmd{}, false
	}
}

// OnSend, if set, sees every reply at the moment it is sent.
var OnSend func(c *Conn, r Reply)

// Send records a server reply.
func (c *Conn) Send(r Reply) {
	c.Replies = append(c.Replies, r)
	if f := OnSend; f != nil {
		hookmu.Lock()
		defer hookmu.Unlock()
		f(c, r)
	}
}

// Hang is how long (virtual time) a client waits before it concludes that the
// server will never answer. Time is virtual: it only passes when every
// goroutine is blocked, so this is a deadlock detector, not a timeout.
const Hang = 400 * 24 * time.Hour

// ErrHang means that the server is stuck for good.
var ErrHang = errors.New("server stuck: no reply and nothing left to run")

// WaitIdle waits until the server waits for input (true) or has closed (false).
func (c *Conn) WaitIdle() (bool, error) {
	t := time.NewTimer(Hang)
	defer t.Stop()
	select {
	case <-c.idle:
		return true, nil
	case <-c.closed:
		return false, nil
	case <-t.C:
		return false, ErrHang
	}
}

// Put hands the server (which must be waiting) a command.
func (c *Conn) Put(cmd Cmd) error {
	t := time.NewTimer(Hang)
	defer t.Stop()
	select {
	case c.cmds <- cmd:
		return nil
	case <-c.closed:
		return io.ErrClosedPipe
	case <-t.C:
		return ErrHang
	}
}

// IsClosed says whether the server has closed the connection.
func (c *Conn) IsClosed() bool {
	select {
	case <-c.closed:
		return true
	default:
		return false
	}
}

// net.Conn
func (c *Conn) LocalAddr() net.Addr  { return c.Local }
func (c *Conn) RemoteAddr() net.Addr { return c.Remote }
func (c *Conn) Close() error {
	c.once.Do(func() { close(c.closed) })
	return nil
}
func (c *Conn) Read(b []byte) (int, error)         { return 0, io.EOF }
func (c *Conn) Write(b []byte) (int, error)        { return len(b), nil }
func (c *Conn) SetDeadline(t time.Time) error      { return nil }
func (c *Conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error { return nil }

// ---- listeners

// Accepted is what a fake listener's Accept will return.
type Accepted struct {
	C   net.Conn
	Err error
}

// Listener is a fake listener.
type Listener struct {
	Address string
	Q       chan Accepted
}

var lmu sync.Mutex
var listeners []*Listener

// ListenErr, if set, decides whether listening on an address fails.
var ListenErr func(addr string) error

// Listeners returns what the program under test listens on.
func Listeners() []*Listener {
	lmu.Lock()
	defer lmu.Unlock()
	return append([]*Listener(nil), listeners...)
}

// Listen stands in for net.Listen.
func Listen(network, addr string) (net.Listener, error) {
	if ListenErr != nil {
		if err := ListenErr(addr); err != nil {
			return nil, err
		}
	}
	l := &Listener{Address: addr, Q: make(chan Accepted)}
	lmu.Lock()
	listeners = append(listeners, l)
	lmu.Unlock()
	return l, nil
}

func (l *Listener) Accept() (net.Conn, error) {
	a := <-l.Q
	return a.C, a.Err
}
func (l *Listener) Close() error   { return nil }
func (l *Listener) Addr() net.Addr { return Addr(l.Address) }

// Put hands the listener a connection (or an error) to return from Accept.
func (l *Listener) Put(a Accepted) error {
	t := time.NewTimer(Hang)
	defer t.Stop()
	select {
	case l.Q <- a:
		return nil
	case <-t.C:
		return ErrHang
	}
}
