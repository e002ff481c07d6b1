// Package xnet replaces package net: an in-memory network whose operations
// are scheduling points of the model checker.
package xnet

import (
	"errors"
	"io"
	"net"
	"strconv"
	"strings"
	"syscall"
	"time"

	mc "github.com/aceld/zinx/zzmc/mc"
	xcontext "github.com/aceld/zinx/zzmc/xcontext"
)

// Half is one direction of a connection.
type Half struct {
	o       mc.Obj
	segs    [][]byte
	used    int
	Cap     int  // bytes the direction can hold unread; 0: unlimited
	WClosed bool // no more data will come
	RClosed bool // nobody will read
	Log     []byte
	Writes  [][]byte
	RErr    error // error to give the reader once drained
	WErr    error // error to give every writer from now on
	WErrN   int   // fail the write once this many bytes went out (0: at once)
	TLS     bool  // a TLS client writes here
	Stream  bool  // Read may merge segments
}

// Ended tells that everything was read and no more will come.
func (h *Half) Ended() bool { return h.used == 0 && h.WClosed && h.RErr == nil }

func (h *Half) pending() int { return h.used }

// TCPConn is one endpoint.
type TCPConn struct {
	o       mc.Obj
	In, Out *Half
	closed  bool
	la, ra  net.Addr
	rdl     int64
	wdl     int64
	wbusy   bool
	Closes  int
	PeerEOF bool // closing this end is visible to the peer
	ErrShut error
	ID      int
}

func NewPair(la, ra net.Addr) (*TCPConn, *TCPConn) {
	a, b := &Half{}, &Half{}
	x := &TCPConn{In: a, Out: b, la: la, ra: ra, PeerEOF: true, ErrShut: net.ErrClosed}
	y := &TCPConn{In: b, Out: a, la: ra, ra: la, PeerEOF: true, ErrShut: net.ErrClosed}
	return x, y
}

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

func (c *TCPConn) opErr(op string, e error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.la, Addr: c.ra, Err: e}
}

func (c *TCPConn) Closed() bool { return c.closed }

func (c *TCPConn) Read(b []byte) (int, error) {
	if mc.S == nil {
		return 0, io.EOF
	}
	h := c.In
	mc.ShimPoint(&h.o, "conn.Read", func() bool {
		return c.closed || h.used > 0 || h.WClosed || h.RErr != nil || (c.rdl != 0 && mc.RawNow() >= c.rdl)
	})
	if c.closed {
		mc.ShimEffect(&c.o, false, 1)
		return 0, c.opErr("read", c.ErrShut)
	}
	if c.rdl != 0 && mc.RawNow() >= c.rdl {
		return 0, c.opErr("read", timeoutErr{})
	}
	if h.used > 0 {
		if len(b) == 0 {
			return 0, nil
		}
		n := 0
		for len(h.segs) > 0 && n < len(b) {
			k := copy(b[n:], h.segs[0])
			n += k
			if k == len(h.segs[0]) {
				h.segs = h.segs[1:]
			} else {
				h.segs[0] = h.segs[0][k:]
			}
			if !h.Stream {
				break
			}
		}
		h.used -= n
		mc.ShimEffect(&h.o, true, mc.HashBytes(b[:n]))
		return n, nil
	}
	mc.ShimEffect(&h.o, false, 2)
	if h.RErr != nil {
		return 0, c.opErr("read", h.RErr)
	}
	return 0, io.EOF
}

func (c *TCPConn) Write(b []byte) (int, error) {
	if mc.S == nil {
		return len(b), nil
	}
	h := c.Out
	done := 0
	first := true
	for {
		mc.ShimPoint(&h.o, "conn.Write", func() bool {
			if c.closed || h.RClosed || h.WErr != nil || (c.wdl != 0 && mc.RawNow() >= c.wdl) {
				return true
			}
			if first && c.wbusy {
				return false
			}
			return h.Cap == 0 || h.used < h.Cap
		})
		fail := func(e error) (int, error) {
			if !first {
				c.wbusy = false
			}
			mc.ShimEffect(&h.o, true, 3)
			return done, c.opErr("write", e)
		}
		if c.closed {
			return fail(c.ErrShut)
		}
		if c.wdl != 0 && mc.RawNow() >= c.wdl {
			return fail(timeoutErr{})
		}
		if h.RClosed {
			return fail(syscall.EPIPE)
		}
		n := len(b) - done
		if h.WErr != nil {
			if n > h.WErrN {
				n = h.WErrN
			}
			h.push(b[done : done+n])
			done += n
			return fail(h.WErr)
		}
		if h.Cap > 0 && n > h.Cap-h.used {
			n = h.Cap - h.used
		}
		h.push(b[done : done+n])
		done += n
		mc.ShimEffect(&h.o, true, mc.HashBytes(b))
		if done == len(b) {
			if !first {
				c.wbusy = false
			}
			h.Writes = append(h.Writes, append([]byte{}, b...))
			return done, nil
		}
		first = false
		c.wbusy = true
	}
}

func (h *Half) push(b []byte) {
	if len(b) == 0 {
		return
	}
	h.segs = append(h.segs, append([]byte{}, b...))
	h.used += len(b)
	h.Log = append(h.Log, b...)
}

func (c *TCPConn) Close() error {
	if mc.S == nil || mc.Aborting() {
		return nil
	}
	mc.ShimPoint(&c.o, "conn.Close", nil)
	c.Closes++
	if c.closed {
		return c.opErr("close", c.ErrShut)
	}
	c.closed = true
	if c.PeerEOF {
		c.Out.WClosed = true
	}
	c.In.RClosed = true
	mc.ShimEffect(&c.o, true, 4)
	mc.ShimEffect(&c.In.o, true, 5)
	mc.ShimEffect(&c.Out.o, true, 6)
	return nil
}

func (c *TCPConn) CloseRead() error { c.In.RClosed = true; mc.ShimEffect(&c.In.o, true, 7); return nil }
func (c *TCPConn) CloseWrite() error {
	c.Out.WClosed = true
	mc.ShimEffect(&c.Out.o, true, 8)
	return nil
}

func (c *TCPConn) LocalAddr() net.Addr  { return c.la }
func (c *TCPConn) RemoteAddr() net.Addr { return c.ra }
func dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	v := t.UnixNano()
	mc.AddTimer(v-mc.NowNano(), 0, func() {})
	return v
}
func (c *TCPConn) SetDeadline(t time.Time) error      { c.rdl = dl(t); c.wdl = c.rdl; return nil }
func (c *TCPConn) SetReadDeadline(t time.Time) error  { c.rdl = dl(t); return nil }
func (c *TCPConn) SetWriteDeadline(t time.Time) error { c.wdl = dl(t); return nil }
func (c *TCPConn) SetNoDelay(bool) error              { return nil }
func (c *TCPConn) SetKeepAlive(bool) error            { return nil }
func (c *TCPConn) SetLinger(int) error                { return nil }
func (c *TCPConn) SetReadBuffer(int) error            { return nil }
func (c *TCPConn) SetWriteBuffer(int) error           { return nil }
func (c *TCPConn) SetKeepAlivePeriod(time.Duration) error {
	return nil
}

// TCPListener accepts connections dialled to its port.
type TCPListener struct {
	o       mc.Obj
	queue   []net.Conn
	closed  bool
	addr    net.Addr
	key     string
	dl      int64
	Taken   int
	Wrap    func(*TCPConn) net.Conn
	ErrShut error
	TLS     string  // what a TLS listener on top serves with
	Fails   []error // errors Accept gives before anything else
}

type registry struct {
	o     mc.Obj
	ls    map[string]*TCPListener
	seq   int
	Dials int
}

func reg() *registry {
	return mc.Local("net", func() any { return &registry{ls: map[string]*TCPListener{}} }).(*registry)
}

func portOf(a string) string {
	if i := strings.LastIndex(a, ":"); i >= 0 {
		return a[i+1:]
	}
	return a
}

// ListenOn opens a listener on a port of the given protocol (harness and shims).
func ListenOn(proto, port string) (*TCPListener, error) {
	r := reg()
	if mc.S != nil {
		mc.ShimPoint(&r.o, "listen", nil)
		mc.ShimEffect(&r.o, true, 1)
	}
	k := proto + ":" + port
	if l := r.ls[k]; l != nil && !l.closed {
		return nil, &net.OpError{Op: "listen", Net: proto, Err: syscall.EADDRINUSE}
	}
	p, _ := strconv.Atoi(port)
	l := &TCPListener{addr: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: p}, key: k, ErrShut: net.ErrClosed}
	r.ls[k] = l
	return l, nil
}

// Lookup finds the open listener of a port.
func Lookup(proto, port string) *TCPListener {
	l := reg().ls[proto+":"+port]
	if l == nil || l.closed {
		return nil
	}
	return l
}

func ListenTCP(network string, laddr *net.TCPAddr) (*TCPListener, error) {
	p := 0
	if laddr != nil {
		p = laddr.Port
	}
	return ListenOn("tcp", strconv.Itoa(p))
}
func Listen(network, address string) (net.Listener, error) {
	l, err := ListenOn("tcp", portOf(address))
	if err != nil {
		return nil, err
	}
	return l, nil
}

func (l *TCPListener) Accept() (net.Conn, error) {
	mc.ShimPoint(&l.o, "Accept", func() bool {
		return l.closed || len(l.queue) > 0 || len(l.Fails) > 0 || (l.dl != 0 && mc.RawNow() >= l.dl)
	})
	mc.ShimEffect(&l.o, true, 1)
	if !l.closed && l.dl != 0 && mc.RawNow() >= l.dl {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: timeoutErr{}}
	}
	if len(l.Fails) > 0 && !l.closed {
		e := l.Fails[0]
		l.Fails = l.Fails[1:]
		return nil, e
	}
	if l.closed {
		return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: l.addr, Err: l.ErrShut}
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	l.Taken++
	return c, nil
}
func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	c, err := l.Accept()
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}
func (l *TCPListener) Close() error {
	if mc.S == nil || mc.Aborting() {
		return nil
	}
	mc.ShimPoint(&l.o, "listener.Close", nil)
	mc.ShimEffect(&l.o, true, 2)
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Addr: l.addr, Err: net.ErrClosed}
	}
	l.closed = true
	// connections nobody accepted are reset
	for _, c := range l.queue {
		if t, ok := c.(interface{ Reset() }); ok {
			t.Reset()
		}
	}
	l.queue = nil
	return nil
}
func (l *TCPListener) Closed() bool   { return l.closed }
func (l *TCPListener) Addr() net.Addr { return l.addr }
func (l *TCPListener) SetDeadline(t time.Time) error {
	l.dl = dl(t)
	mc.ShimEffect(&l.o, true, 4)
	return nil
}

// Reset drops the connection as the kernel does for an unaccepted one.
func (c *TCPConn) Reset() {
	c.closed = true
	c.Out.WClosed = true
	c.Out.RErr = syscall.ECONNRESET
	c.In.RClosed = true
	mc.ShimEffect(&c.Out.o, true, 9)
	mc.ShimEffect(&c.In.o, true, 9)
}

// Enqueue hands an established connection to the listener (no scheduling point).
func (l *TCPListener) Enqueue(c net.Conn) {
	l.queue = append(l.queue, c)
	mc.ShimEffect(&l.o, true, 3)
}

// Fail makes the next Accept return an error (harness only).
func (l *TCPListener) Fail(err error) {
	l.Fails = append(l.Fails, err)
	mc.ShimEffect(&l.o, true, 5)
}

// DialHook lets a harness decide the fate of dials.
// A dial that may give up (time-out, context) passes a condition telling when.
type DialCtl struct {
	Hook func(addr string, giveUp func() bool) error
}

func Ctl() *DialCtl { return mc.Local("dialctl", func() any { return &DialCtl{} }).(*DialCtl) }

// DialPort connects to a listener, in one atomic step.
func DialPort(proto, port string) (*TCPConn, error) {
	return dialPort(proto, "127.0.0.1:"+port, deadline(0))
}

func dialPort(proto, addr string, giveUp func() bool) (*TCPConn, error) {
	port := portOf(addr)
	r := reg()
	mc.ShimPoint(&r.o, "dial", nil)
	mc.ShimEffect(&r.o, true, 2)
	r.Dials++
	if h := Ctl().Hook; h != nil {
		if err := h(addr, giveUp); err != nil {
			return nil, &net.OpError{Op: "dial", Net: proto, Err: err}
		}
	}
	l := r.ls[proto+":"+port]
	if l == nil || l.closed {
		return nil, &net.OpError{Op: "dial", Net: proto, Err: syscall.ECONNREFUSED}
	}
	r.seq++
	cl, sv := NewPair(&net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 40000 + r.seq}, l.addr)
	cl.ID, sv.ID = r.seq, r.seq
	if l.Wrap != nil {
		l.Enqueue(l.Wrap(sv))
	} else {
		l.Enqueue(sv)
	}
	return cl, nil
}

func Dial(network, address string) (net.Conn, error) {
	c, err := dialPort("tcp", address, deadline(0))
	if err != nil {
		return nil, err
	}
	return c, nil
}
func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	c, err := dialPort("tcp", address, deadline(d))
	if err != nil {
		return nil, err
	}
	return c, nil
}
func DialTCP(network string, laddr, raddr *net.TCPAddr) (*TCPConn, error) {
	if raddr == nil {
		return nil, errors.New("missing address")
	}
	return dialPort("tcp", raddr.String(), deadline(0))
}

type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	Cancel          *mc.Chan[struct{}]
	Control         func(network, address string, c syscall.RawConn) error
}

// Deadline is exported for the other dialling shims.
func Deadline(d time.Duration) func() bool { return deadline(d) }

func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return DialTimeout(network, address, d.Timeout)
}

// DialContext gives up as soon as the context ends.
func (d *Dialer) DialContext(ctx xcontext.Context, network, address string) (net.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	end := deadline(d.Timeout)
	c, err := dialPort("tcp", address, func() bool { return end() || xcontext.RawErr(ctx) != nil })
	if err != nil {
		return nil, err
	}
	return c, nil
}

// deadline returns a condition that becomes true after d (never for 0).
func deadline(d time.Duration) func() bool {
	if d <= 0 {
		return func() bool { return false }
	}
	end := mc.NowNano() + int64(d)
	mc.AddTimer(int64(d), 0, func() {})
	return func() bool { return mc.RawNow() >= end }
}

// ListenConfig models net.ListenConfig.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

func (lc *ListenConfig) Listen(ctx xcontext.Context, network, address string) (net.Listener, error) {
	if err := ctx.Err(); err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	return Listen(network, address)
}

func ResolveTCPAddr(network, address string) (*net.TCPAddr, error) {
	p, err := strconv.Atoi(portOf(address))
	if err != nil {
		return nil, err
	}
	ip := net.IPv4(127, 0, 0, 1)
	if h, _, err := net.SplitHostPort(address); err == nil && net.ParseIP(h) != nil {
		ip = net.ParseIP(h)
	}
	return &net.TCPAddr{IP: ip, Port: p}, nil
}
