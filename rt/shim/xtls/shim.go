package xtls

import (
	"crypto/tls"
	"io"
	"net"

	"github.com/aceld/zinx/zzmc/mc"
	xcontext "github.com/aceld/zinx/zzmc/xcontext"
	xnet "github.com/aceld/zinx/zzmc/xnet"
)

// TLS is modelled as a transparent layer over the in-memory network.
type Conn struct{ *xnet.TCPConn }

func (c *Conn) Handshake() error                            { return nil }
func (c *Conn) HandshakeContext(ctx xcontext.Context) error { return ctx.Err() }
func (c *Conn) ConnectionState() tls.ConnectionState {
	return tls.ConnectionState{HandshakeComplete: true}
}

// Read is allowed to return the last bytes together with the end of the stream, and crypto/tls does so when
// the peer's close_notify arrived with them.
func (c *Conn) Read(b []byte) (int, error) {
	n, err := c.TCPConn.Read(b)
	if err == nil && n > 0 && mc.S != nil && c.In.Ended() {
		err = io.EOF
	}
	return n, err
}
func (c *Conn) NetConn() net.Conn { return c.TCPConn }

func wrap(c net.Conn) *Conn {
	if t, ok := c.(*xnet.TCPConn); ok {
		return &Conn{t}
	}
	return c.(*Conn)
}
func Client(c net.Conn, config *Config) *Conn {
	w := wrap(c)
	w.Out.TLS = true
	return w
}
func Server(c net.Conn, config *Config) *Conn { return wrap(c) }

type listener struct{ net.Listener }

func (l listener) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	return wrap(c), nil
}
func NewListener(l net.Listener, config *Config) net.Listener {
	mark(l, config)
	return listener{l}
}

// mark notes on the listener underneath which key pair it serves with.
func mark(l net.Listener, config *Config) {
	if t, ok := l.(*xnet.TCPListener); ok {
		t.TLS = "no certificate"
		if config != nil && len(config.Certificates) > 0 && len(config.Certificates[0].Certificate) > 0 {
			t.TLS = string(config.Certificates[0].Certificate[0])
		}
	}
}

type Dialer struct {
	NetDialer *xnet.Dialer
	Config    *Config
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) {
	return d.DialContext(xcontext.Background(), network, addr)
}
func (d *Dialer) DialContext(ctx xcontext.Context, network, addr string) (net.Conn, error) {
	nd := d.NetDialer
	if nd == nil {
		nd = &xnet.Dialer{}
	}
	c, err := nd.DialContext(ctx, network, addr)
	if err != nil {
		return nil, err
	}
	return Client(c, d.Config), nil
}

func Listen(network, laddr string, config *Config) (net.Listener, error) {
	l, err := xnet.Listen(network, laddr)
	if err != nil {
		return nil, err
	}
	return NewListener(l, config), nil
}
func Dial(network, addr string, config *Config) (*Conn, error) {
	c, err := xnet.Dial(network, addr)
	if err != nil {
		return nil, err
	}
	return Client(c, config), nil
}
func DialWithDialer(d *xnet.Dialer, network, addr string, config *Config) (*Conn, error) {
	return Dial(network, addr, config)
}
func LoadX509KeyPair(certFile, keyFile string) (Certificate, error) {
	return Certificate{Certificate: [][]byte{[]byte(certFile + "+" + keyFile)}}, nil
}
