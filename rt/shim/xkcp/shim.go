// Package xkcp replaces github.com/xtaci/kcp-go: reliable in-memory sessions
// with KCP's close behaviour (the peer is not told).
package xkcp

import (
	"io"
	"net"
	"strings"

	mc "github.com/aceld/zinx/zzmc/mc"
	xnet "github.com/aceld/zinx/zzmc/xnet"
)

// Options are the settings of a session.
type Options struct {
	ACKNoDelay, StreamMode        bool
	NoDelay, Interval, Resend, Nc int
	Snd, Rcv                      int
	Data, Parity                  int
}

type UDPSession struct {
	*xnet.TCPConn
	Opt Options
}

// Last is the session accepted last in this execution.
func Last() *UDPSession { return *last() }

func last() **UDPSession {
	return mc.Local("kcplast", func() any { return new(*UDPSession) }).(**UDPSession)
}

func (s *UDPSession) SetACKNoDelay(b bool) { s.Opt.ACKNoDelay = b }
func (s *UDPSession) SetStreamMode(b bool) { s.Opt.StreamMode = b }
func (s *UDPSession) SetWriteDelay(bool)   {}
func (s *UDPSession) SetNoDelay(nodelay, interval, resend, nc int) {
	s.Opt.NoDelay, s.Opt.Interval, s.Opt.Resend, s.Opt.Nc = nodelay, interval, resend, nc
}
func (s *UDPSession) SetWindowSize(snd, rcv int) { s.Opt.Snd, s.Opt.Rcv = snd, rcv }
func (s *UDPSession) SetMtu(int) bool            { return true }
func (s *UDPSession) SetDSCP(int) error          { return nil }
func (s *UDPSession) GetConv() uint32            { return uint32(s.ID) }

type Listener struct{ L *xnet.TCPListener }

func (l *Listener) Accept() (net.Conn, error) { return l.L.Accept() }
func (l *Listener) AcceptKCP() (*UDPSession, error) {
	c, err := l.L.Accept()
	if err != nil {
		return nil, err
	}
	return c.(*UDPSession), nil
}
func (l *Listener) Close() error             { return l.L.Close() }
func (l *Listener) Addr() net.Addr           { return l.L.Addr() }
func (l *Listener) SetDSCP(int) error        { return nil }
func (l *Listener) SetReadBuffer(int) error  { return nil }
func (l *Listener) SetWriteBuffer(int) error { return nil }

func port(a string) string { return a[strings.LastIndex(a, ":")+1:] }

func ListenWithOptions(laddr string, block BlockCrypt, dataShards, parityShards int) (*Listener, error) {
	l, err := xnet.ListenOn("kcp", port(laddr))
	if err != nil {
		return nil, err
	}
	l.ErrShut = io.ErrClosedPipe
	l.Wrap = func(c *xnet.TCPConn) net.Conn {
		c.PeerEOF = false
		c.ErrShut = io.ErrClosedPipe
		u := &UDPSession{TCPConn: c, Opt: Options{Data: dataShards, Parity: parityShards}}
		*last() = u
		return u
	}
	return &Listener{l}, nil
}
func Listen(laddr string) (net.Listener, error) { return ListenWithOptions(laddr, nil, 0, 0) }
func DialWithOptions(raddr string, block BlockCrypt, dataShards, parityShards int) (*UDPSession, error) {
	c, err := xnet.DialPort("kcp", port(raddr))
	if err != nil {
		return nil, err
	}
	return &UDPSession{TCPConn: c}, nil
}
func Dial(raddr string) (net.Conn, error) { return DialWithOptions(raddr, nil, 0, 0) }
