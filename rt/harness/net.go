package main

import (
	"encoding/binary"
	"fmt"
	"net/http"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zzmc/mc"
	"github.com/aceld/zinx/zzmc/xhttp"
	net "github.com/aceld/zinx/zzmc/xnet"
	"github.com/aceld/zinx/zzmc/xws"
)

// tlv is the default wire format: big-endian id, big-endian length, data.
func tlv(id uint32, data string) []byte {
	b := make([]byte, 8+len(data))
	binary.BigEndian.PutUint32(b, id)
	binary.BigEndian.PutUint32(b[4:], uint32(len(data)))
	copy(b[8:], data)
	return b
}

type frame struct {
	id   uint32
	data string
}

// parseTLV splits a byte stream into frames; rest is an incomplete tail.
func parseTLV(b []byte) (out []frame, rest []byte) {
	for len(b) >= 8 {
		n := int(binary.BigEndian.Uint32(b[4:]))
		if n > 1<<20 || len(b) < 8+n {
			break
		}
		out = append(out, frame{binary.BigEndian.Uint32(b), string(b[8 : 8+n])})
		b = b[8+n:]
	}
	return out, b
}

const (
	TCP = "tcp"
	WS  = "ws"
	KCP = "kcp"
)

// peer is the remote end of a server connection.
type peer struct {
	kind string
	tcp  *net.TCPConn
	ws   *xws.Conn
	resp *xws.Response
	busy bool
	text bool // send WebSocket text messages
}

func under(kind string) string {
	if kind == TLS {
		return TCP
	}
	return kind
}

func port(kind string) string {
	switch kind {
	case WS:
		return "9000"
	case KCP:
		return "9001"
	}
	return "8999"
}

// serve builds and starts a server with everything settled.
func serve(kind string, setup func(s ziface.IServer)) ziface.IServer {
	var s ziface.IServer
	mc.NoExplore(func() {
		s = build(kind, setup)
		s.Start()
		mc.Quiesce()
	})
	return s
}

func setMode(kind string) {
	g := zconf.GlobalObject
	g.TCPPort, g.WsPort, g.KcpPort = 8999, 9000, 9001
	g.WsPath = "/"
	switch kind {
	case TCP:
		g.Mode = zconf.ServerModeTcp
	case TLS:
		g.Mode = zconf.ServerModeTcp
		g.CertFile, g.PrivateKeyFile = "cert.pem", "key.pem"
	case WS:
		g.Mode = zconf.ServerModeWebsocket
	case KCP:
		g.Mode = zconf.ServerModeKcp
	default:
		g.Mode = ""
	}
}

func build(kind string, setup func(s ziface.IServer)) ziface.IServer {
	setMode(kind)
	s := znet.NewServer()
	if setup != nil {
		setup(s)
	}
	return s
}

// dial connects a peer; nil if nobody listens.
func dial(kind string) *peer {
	if kind == WS {
		p := &peer{kind: kind, resp: &xws.Response{}}
		seq := mc.Local("wsseq", func() any { return new(int) }).(*int)
		*seq++
		p.resp.RA = &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 50000 + *seq}
		r, _ := http.NewRequest("GET", "http://127.0.0.1:9000/", nil)
		r.RemoteAddr = p.resp.RA.String()
		if !xhttp.Deliver(port(kind), p.resp, r, nil) {
			return nil
		}
		return p
	}
	c, err := net.DialPort(under(kind), port(kind))
	if err != nil {
		return nil
	}
	return &peer{kind: kind, tcp: c}
}

// connect dials and waits until the server has set the connection up.
func connect(kind string) *peer {
	var p *peer
	mc.NoExplore(func() {
		p = dial(kind)
		mc.Quiesce()
	})
	if p != nil && kind == WS {
		p.ws = p.resp.Peer
	}
	return p
}

// up reports whether a WebSocket upgrade has completed.
func (p *peer) up() bool {
	if p.kind == WS && p.ws == nil {
		p.ws = p.resp.Peer
		return p.ws != nil
	}
	return true
}

func (p *peer) send(b []byte) {
	if p.kind == WS {
		if p.up() { // a peer sends one message at a time
			mc.WaitUntil("peer", func() bool { return !p.busy })
			p.busy = true
			t := 2
			if p.text {
				t = 1
			}
			p.ws.WriteMessage(t, b)
			p.busy = false
		}
		return
	}
	p.tcp.Write(b)
}

// got is everything the server has sent.
func (p *peer) got() []byte {
	if p.kind == WS {
		if !p.up() {
			return nil
		}
		var out []byte
		for _, m := range p.ws.In.Log {
			out = append(out, m.Data...)
		}
		return out
	}
	return p.tcp.In.Log
}

func (p *peer) frames() []frame {
	if p.kind == WS {
		// one message, one frame
		var out []frame
		if !p.up() {
			return nil
		}
		for _, m := range p.ws.In.Log {
			f, rest := parseTLV(m.Data)
			if len(f) != 1 || len(rest) != 0 {
				mc.Fail("a WebSocket message is not exactly one frame: %x", m.Data)
			}
			out = append(out, f...)
		}
		return out
	}
	f, rest := parseTLV(p.got())
	if len(rest) != 0 && !p.dropped() {
		mc.Fail("the byte stream sent to the peer is not a sequence of whole frames: %x", p.got())
	}
	return f
}

// hangup closes the peer's end so that the server's reads fail.
func (p *peer) hangup() {
	switch p.kind {
	case WS:
		if p.up() {
			p.ws.Close()
		}
	case KCP:
		p.tcp.Out.RErr = fmt.Errorf("timeout")
		mc.Share("kcp-err", 1)
		p.tcp.Close()
	default:
		p.tcp.Close()
	}
}

// dropped: the server has closed its end.
func (p *peer) dropped() bool {
	if p.kind == WS {
		return p.up() && p.ws.Out.RClosed
	}
	return p.tcp.Out.RClosed
}

// router records what reaches its handler.
type router struct {
	znet.BaseRouter
	f func(req ziface.IRequest)
}

func (r *router) Handle(req ziface.IRequest) { r.f(req) }
