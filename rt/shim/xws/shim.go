// Package xws replaces github.com/gorilla/websocket: message pipes with
// gorilla's rule that only one goroutine may write at a time.
package xws

import (
	"bytes"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"time"

	mc "github.com/aceld/zinx/zzmc/mc"
	xcontext "github.com/aceld/zinx/zzmc/xcontext"
	xnet "github.com/aceld/zinx/zzmc/xnet"
)

type Msg struct {
	Type int
	Data []byte
}

type Half struct {
	o       mc.Obj
	q       []Msg
	Cap     int
	WClosed bool
	RClosed bool
	RErr    error
	WErr    error
	Log     []Msg
}

type Conn struct {
	o         mc.Obj
	In, Out   *Half
	closed    bool
	isWriting bool
	readErrs  int
	la, ra    net.Addr
	Closes    int
	wdl, rdl  int64
	sub       string
	ponger    func(string) error
	pinger    func(string) error
	closer    func(int, string) error
}

func NewPair(la, ra net.Addr) (*Conn, *Conn) {
	a, b := &Half{}, &Half{}
	return &Conn{In: a, Out: b, la: la, ra: ra}, &Conn{In: b, Out: a, la: ra, ra: la}
}

var errClosed = errors.New("use of closed network connection")

func (c *Conn) ReadMessage() (int, []byte, error) {
	h := c.In
	mc.ShimPoint(&h.o, "ws.ReadMessage", func() bool {
		return c.closed || len(h.q) > 0 || h.WClosed || h.RErr != nil || (c.rdl != 0 && mc.RawNow() >= c.rdl)
	})
	fail := func(e error) (int, []byte, error) {
		mc.ShimEffect(&h.o, false, 1)
		c.readErrs++
		if c.readErrs >= 1000 {
			panic("repeated read on failed websocket connection")
		}
		return -1, nil, e
	}
	if c.closed {
		return fail(errClosed)
	}
	if c.readErrs > 0 {
		return fail(io.EOF)
	}
	if len(h.q) > 0 {
		m := h.q[0]
		h.q = h.q[1:]
		mc.ShimEffect(&h.o, true, mc.HashBytes(m.Data))
		return m.Type, m.Data, nil
	}
	if c.rdl != 0 && mc.RawNow() >= c.rdl {
		return fail(errors.New("i/o timeout"))
	}
	if h.RErr != nil {
		return fail(h.RErr)
	}
	return fail(&CloseError{Code: CloseAbnormalClosure, Text: io.ErrUnexpectedEOF.Error()})
}

func (c *Conn) WriteMessage(t int, data []byte) error {
	h := c.Out
	mc.ShimPoint(&h.o, "ws.WriteMessage", nil)
	if c.isWriting {
		panic("concurrent write to websocket connection")
	}
	c.isWriting = true
	mc.ShimEffect(&h.o, true, 2)
	mc.ShimPoint(&h.o, "ws.WriteMessage(io)", func() bool {
		return c.closed || h.RClosed || h.WErr != nil || h.Cap == 0 || len(h.q) < h.Cap || (c.wdl != 0 && mc.RawNow() >= c.wdl)
	})
	c.isWriting = false
	mc.ShimEffect(&h.o, true, mc.HashBytes(data))
	if c.closed {
		return errClosed
	}
	if h.WErr != nil {
		return h.WErr
	}
	if c.wdl != 0 && mc.RawNow() >= c.wdl {
		return errors.New("i/o timeout")
	}
	if h.RClosed {
		return errors.New("broken pipe")
	}
	m := Msg{t, append([]byte{}, data...)}
	h.q = append(h.q, m)
	h.Log = append(h.Log, m)
	return nil
}

func (c *Conn) WriteJSON(v any) error { return errors.New("not modelled") }
func (c *Conn) WriteControl(t int, data []byte, deadline time.Time) error {
	mc.ShimPoint(&c.Out.o, "ws.WriteControl", nil)
	if c.closed {
		return errClosed
	}
	return nil
}

// Push delivers a message to this end (harness).
func (c *Conn) Push(t int, b []byte) {
	c.In.q = append(c.In.q, Msg{t, b})
	mc.ShimEffect(&c.In.o, true, mc.HashBytes(b))
}

// Hangup makes this end see the peer going away (harness).
func (c *Conn) Hangup() {
	c.In.WClosed = true
	mc.ShimEffect(&c.In.o, true, 7)
}

func (c *Conn) Close() error {
	if mc.S == nil || mc.Aborting() {
		return nil
	}
	mc.ShimPoint(&c.o, "ws.Close", nil)
	c.Closes++
	if c.closed {
		return errClosed
	}
	c.closed = true
	c.Out.WClosed = true
	c.In.RClosed = true
	mc.ShimEffect(&c.o, true, 4)
	mc.ShimEffect(&c.In.o, true, 5)
	mc.ShimEffect(&c.Out.o, true, 6)
	return nil
}
func (c *Conn) Closed() bool         { return c.closed }
func (c *Conn) LocalAddr() net.Addr  { return c.la }
func (c *Conn) RemoteAddr() net.Addr { return c.ra }
func dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	mc.AddTimer(t.UnixNano()-mc.NowNano(), 0, func() {})
	return t.UnixNano()
}
func (c *Conn) SetReadDeadline(t time.Time) error     { c.rdl = dl(t); return nil }
func (c *Conn) SetWriteDeadline(t time.Time) error    { c.wdl = dl(t); return nil }
func (c *Conn) SetReadLimit(int64)                    {}
func (c *Conn) NetConn() net.Conn                     { return under{c} }
func (c *Conn) PingHandler() func(string) error       { return c.pinger }
func (c *Conn) PongHandler() func(string) error       { return c.ponger }
func (c *Conn) CloseHandler() func(int, string) error { return c.closer }

// NextReader gives the next message as a reader.
func (c *Conn) NextReader() (int, io.Reader, error) {
	t, b, err := c.ReadMessage()
	if err != nil {
		return t, nil, err
	}
	return t, bytes.NewReader(b), nil
}

type msgWriter struct {
	c *Conn
	t int
	b []byte
}

func (w *msgWriter) Write(b []byte) (int, error) { w.b = append(w.b, b...); return len(b), nil }
func (w *msgWriter) Close() error                { return w.c.WriteMessage(w.t, w.b) }

// NextWriter sends one message when it is closed.
func (c *Conn) NextWriter(t int) (io.WriteCloser, error)  { return &msgWriter{c: c, t: t}, nil }
func (c *Conn) SetCompressionLevel(int) error             { return nil }
func (c *Conn) Subprotocol() string                       { return c.sub }
func (c *Conn) SetPongHandler(h func(string) error)       { c.ponger = h }
func (c *Conn) SetPingHandler(h func(string) error)       { c.pinger = h }
func (c *Conn) SetCloseHandler(h func(int, string) error) { c.closer = h }
func (c *Conn) EnableWriteCompression(bool)               {}
func (c *Conn) UnderlyingConn() net.Conn                  { return under{c} }

// Response is the ResponseWriter a harness passes along with an upgrade request.
type Response struct {
	Peer   *Conn // the client's end, set by Upgrade
	Code   int
	H      http.Header
	Fail   error
	LA, RA net.Addr
}

func (r *Response) Header() http.Header {
	if r.H == nil {
		r.H = http.Header{}
	}
	return r.H
}
func (r *Response) Write(b []byte) (int, error) { return len(b), nil }
func (r *Response) WriteHeader(c int)           { r.Code = c; mc.Share("http.Response", int64(c)) }

type Upgrader struct {
	HandshakeTimeout                time.Duration
	ReadBufferSize, WriteBufferSize int
	WriteBufferPool                 BufferPool
	Subprotocols                    []string
	Error                           func(w http.ResponseWriter, r *http.Request, status int, reason error)
	CheckOrigin                     func(r *http.Request) bool
	EnableCompression               bool
}

func (u *Upgrader) Upgrade(w http.ResponseWriter, r *http.Request, h http.Header) (*Conn, error) {
	mc.Yield()
	rw, ok := w.(*Response)
	if !ok {
		return nil, errors.New("not an upgradable response")
	}
	if u.CheckOrigin != nil && !u.CheckOrigin(r) {
		rw.Code = 403
		return nil, errors.New("request origin not allowed")
	}
	if rw.Fail != nil {
		return nil, rw.Fail
	}
	la, ra := rw.LA, rw.RA
	if la == nil {
		la = &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9000}
	}
	if ra == nil {
		ra = &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 50000}
	}
	s, c := NewPair(la, ra)
	s.sub = u.selectSub(r, h)
	c.sub = s.sub
	rw.Peer = c
	rw.Code = 101
	mc.Share("http.Response", 101)
	return s, nil
}

// selectSub picks the subprotocol as gorilla does.
func (u *Upgrader) selectSub(r *http.Request, h http.Header) string {
	if ps := *mc.R(&u.Subprotocols, 0); ps != nil {
		for _, p := range ps {
			for _, q := range Subprotocols(r) {
				if p == q {
					return p
				}
			}
		}
		return ""
	}
	return h.Get("Sec-Websocket-Protocol")
}

type Dialer struct {
	NetDial                         func(network, addr string) (net.Conn, error)
	NetDialContext                  func(ctx xcontext.Context, network, addr string) (net.Conn, error)
	NetDialTLSContext               func(ctx xcontext.Context, network, addr string) (net.Conn, error)
	Proxy                           func(*http.Request) (*url.URL, error)
	HandshakeTimeout                time.Duration
	ReadBufferSize, WriteBufferSize int
	WriteBufferPool                 BufferPool
	Subprotocols                    []string
	EnableCompression               bool
	Jar                             http.CookieJar
}

var DefaultDialer = &Dialer{}

// DialCtl lets the harness answer dials.
type DialCtl struct {
	Hook  func(url string, giveUp func() bool) error
	Peers []*Conn
}

func Ctl() *DialCtl { return mc.Local("wsdial", func() any { return &DialCtl{} }).(*DialCtl) }

func (d *Dialer) Dial(urlStr string, h http.Header) (*Conn, *http.Response, error) {
	return d.DialContext(xcontext.Background(), urlStr, h)
}
func (d *Dialer) DialContext(ctx xcontext.Context, urlStr string, h http.Header) (*Conn, *http.Response, error) {
	mc.Yield()
	if err := xcontext.RawErr(ctx); err != nil {
		return nil, nil, err
	}
	end := xnet.Deadline(d.HandshakeTimeout)
	k := Ctl()
	if k.Hook != nil {
		if err := k.Hook(urlStr, func() bool { return end() || xcontext.RawErr(ctx) != nil }); err != nil {
			return nil, nil, err
		}
	}
	cl, sv := NewPair(&net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 50001 + len(k.Peers)}, &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9000})
	k.Peers = append(k.Peers, sv)
	mc.Share("wsdial", int64(len(k.Peers)))
	return cl, &http.Response{StatusCode: 101}, nil
}

var _ = xnet.Lookup

// under stands for the socket below a WebSocket connection.
type under struct{ *Conn }

func (u under) Read([]byte) (int, error)  { return 0, errors.New("not modelled") }
func (u under) Write([]byte) (int, error) { return 0, errors.New("not modelled") }
func (u under) SetDeadline(t time.Time) error {
	_ = u.SetReadDeadline(t)
	return u.SetWriteDeadline(t)
}
