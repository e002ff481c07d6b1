package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"net/url"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/zdecoder"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zpack"
	"github.com/aceld/zinx/zzmc/mc"
)

// ---- C02: wire formats end to end --------------------------------------------
//
// A server or a client uses the format it was given for everything it reads and
// writes: the delivered formats, and ones a user supplies.

type wire struct {
	name string
	dec  func() ziface.IDecoder // nil: the default
	pack ziface.IDataPack       // nil: the default
	msg  func(id uint32, d []byte) []byte
	data func(id uint32, d []byte) []byte // what a handler gets
	resp func(r ziface.IcResp, id uint32, d []byte) bool
}

// ownPack: [length of all][id][data]; refuses message 13.
type ownPack struct{ htlv bool }

func (ownPack) GetHeadLen() uint32 { return 2 }
func (p ownPack) Pack(m ziface.IMessage) ([]byte, error) {
	if m.GetMsgID() == 13 {
		return nil, errors.New("no such message")
	}
	if p.htlv {
		return htlv(0xA2, byte(m.GetMsgID()), m.GetData()), nil
	}
	return append([]byte{byte(len(m.GetData()) + 2), byte(m.GetMsgID())}, m.GetData()...), nil
}
func (ownPack) Unpack([]byte) (ziface.IMessage, error) { return nil, errors.New("not used") }

// ownDecoder strips its length field.
type ownDecoder struct{}

func (ownDecoder) GetLengthField() *ziface.LengthField {
	return &ziface.LengthField{MaxFrameLength: 255, LengthFieldLength: 1, LengthAdjustment: -1, InitialBytesToStrip: 1}
}
func (ownDecoder) Intercept(ch ziface.IChain) ziface.IcResp {
	m := ch.GetIMessage()
	d := m.GetData()
	if len(d) < 1 {
		return nil
	}
	m.SetMsgID(uint32(d[0]))
	m.SetData(d[1:])
	m.SetDataLen(uint32(len(d) - 1))
	return ch.ProceedWithIMessage(m, fmt.Sprintf("own %x", d))
}

func same(id uint32, d []byte) []byte { return d }

func wires() []wire {
	return []wire{
		{name: "tlv", msg: func(id uint32, d []byte) []byte { return tlv(id, string(d)) }, data: same,
			resp: func(r ziface.IcResp, id uint32, d []byte) bool {
				v, ok := r.(zdecoder.TLVDecoder)
				return ok && v.Tag == id && int(v.Length) == len(d) && bytes.Equal(v.Value, d)
			}},
		{name: "ltv", dec: zdecoder.NewLTV_Little_Decoder, pack: zpack.Factory().NewPack(ziface.ZinxDataPackOld), data: same,
			msg: func(id uint32, d []byte) []byte {
				b := make([]byte, 8)
				binary.LittleEndian.PutUint32(b, uint32(len(d)))
				binary.LittleEndian.PutUint32(b[4:], id)
				return append(b, d...)
			},
			resp: func(r ziface.IcResp, id uint32, d []byte) bool {
				v, ok := r.(zdecoder.LTV_Little_Decoder)
				return ok && v.Tag == id && int(v.Length) == len(d) && bytes.Equal(v.Value, d)
			}},
		{name: "htlv", dec: zdecoder.NewHTLVCRCDecoder, pack: ownPack{htlv: true},
			msg:  func(id uint32, d []byte) []byte { return htlv(0xA2, byte(id), d) },
			data: func(id uint32, d []byte) []byte { return htlv(0xA2, byte(id), d) },
			resp: func(r ziface.IcResp, id uint32, d []byte) bool {
				v, ok := r.(zdecoder.HtlvCrcDecoder)
				return ok && uint32(v.Funcode) == id && bytes.Equal(v.Body, d)
			}},
		{name: "own", dec: func() ziface.IDecoder { return ownDecoder{} }, pack: ownPack{}, data: same,
			msg: func(id uint32, d []byte) []byte { return append([]byte{byte(len(d) + 2), byte(id)}, d...) },
			resp: func(r ziface.IcResp, id uint32, d []byte) bool {
				return r == fmt.Sprintf("own %x", append([]byte{byte(id)}, d...))
			}},
	}
}

var wireMsgs = []struct {
	id uint32
	d  string
}{{1, "abc"}, {2, ""}, {7, "\x00\x00\x00\x05zz"}, {1, "0123456789abcdef0123456789abcdef0123456789"}}

// talk checks both directions of one connection whose far end is p.
func (w wire) talk(p *peer, send, sendBuf func(id uint32, d []byte) error, got func() []string, full bool) {
	var s []byte
	var want []string
	for _, m := range wireMsgs {
		s = append(s, w.msg(m.id, []byte(m.d))...)
		want = append(want, fmt.Sprintf("%d:%x", m.id, w.data(m.id, []byte(m.d))))
	}
	cut := len(s) / 2
	if full {
		cut = mc.Choose(len(s))
	}
	mc.NoExplore(func() {
		if cut > 0 {
			p.send(s[:cut])
			mc.Quiesce()
		}
		p.send(s[cut:])
		mc.Quiesce()
	})
	eq("messages handled, as "+w.name, fmt.Sprint(got()), fmt.Sprint(want))
	before := len(p.got())
	var out []byte
	mc.NoExplore(func() {
		for i, m := range wireMsgs {
			f := send
			if i%2 == 1 {
				f = sendBuf
			}
			must(f(m.id, []byte(m.d)) == nil, "a message was not sent")
			out = append(out, w.msg(m.id, []byte(m.d))...)
			if w.pack != nil && w.name != "ltv" {
				must(f(13, []byte("never")) != nil, "a message its format refuses was sent")
			}
			mc.Quiesce()
			mc.Advance(11e6) // writers may flush on a ticker
			mc.Quiesce()
		}
	})
	eqBytes("bytes sent, as "+w.name, p.got()[before:], out)
}

func wireServer(kind string) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		ws := wires()
		w := ws[mc.Choose(len(ws))]
		g.WorkerPoolSize = uint32([]int{1, 2}[mc.Choose(2)])
		g.RequestPoolMode = mc.Choose(2) == 1
		g.MaxConn = 2
		g.IOReadBuffSize = uint32(pick(7, 64))
		opt := mc.Choose(2) == 1
		var got []string
		var conn ziface.IConnection
		h := &router{f: func(req ziface.IRequest) {
			conn = req.GetConnection()
			got = append(got, fmt.Sprintf("%d:%x", req.GetMsgID(), req.GetData()))
			m := wireMsgs[(len(got)-1)%len(wireMsgs)]
			must(w.resp(req.GetResponse(), m.id, []byte(m.d)), "%s: message %d %x was decoded to %+v", w.name, m.id, m.d, req.GetResponse())
			mc.Share("got", int64(len(got)))
		}}
		var opts []znet.Option
		if opt && w.pack != nil {
			opts = append(opts, znet.WithPacket(w.pack))
		}
		var s ziface.IServer
		mc.NoExplore(func() {
			setMode(kind)
			s = znet.NewServer(opts...)
			if !opt && w.pack != nil {
				s.SetPacket(w.pack)
			}
			if w.dec != nil {
				s.SetDecoder(w.dec())
			}
			for _, id := range []uint32{1, 2, 7} {
				s.AddRouter(id, h)
			}
			s.Start()
			mc.Quiesce()
		})
		for i := 0; i < 2; i++ { // each connection has a decoder of its own
			got, conn = nil, nil
			p := connect(kind)
			must(p != nil, "refused")
			w.talk(p, func(id uint32, d []byte) error { return conn.SendMsg(id, d) }, func(id uint32, d []byte) error { return conn.SendBuffMsg(id, d) }, func() []string { return got }, i == 1)
			eq("the connection's name", conn.GetName(), s.ServerName())
			if i == 0 && mc.Choose(2) == 1 { // leaves part of a message behind
				mc.NoExplore(func() {
					p.send(w.msg(1, []byte("cut off"))[:4])
					mc.Quiesce()
					p.hangup()
					mc.Quiesce()
				})
			}
		}
		mc.Outcome("%s", w.name)
	}
}

func wireClient(kind string) func() {
	return func() {
		boot()
		ws := wires()
		w := ws[mc.Choose(len(ws))]
		zconf.GlobalObject.IOReadBuffSize = uint32(pick(7, 64))
		opt := mc.Choose(2) == 1
		var got []string
		h := &router{f: func(req ziface.IRequest) {
			got = append(got, fmt.Sprintf("%d:%x", req.GetMsgID(), req.GetData()))
			m := wireMsgs[(len(got)-1)%len(wireMsgs)]
			must(w.resp(req.GetResponse(), m.id, []byte(m.d)), "%s: message %d %x was decoded to %+v", w.name, m.id, m.d, req.GetResponse())
			mc.Share("got", int64(len(got)))
		}}
		var c ziface.IClient
		var r *remote
		name := ""
		mc.NoExplore(func() {
			r = newRemote(kind)
			var opts []znet.ClientOption
			if opt {
				name = "my client"
				opts = append(opts, znet.WithNameClient(name))
				if w.pack != nil {
					opts = append(opts, znet.WithPacketClient(w.pack))
				}
				if kind == WS {
					opts = append(opts, znet.WithUrl(&url.URL{Scheme: "ws", Host: "a.example:1", Path: "/x"}))
					r.want = "ws://a.example:1/x"
				}
			}
			c = newClient(kind, opts...)
			if !opt && w.pack != nil {
				c.SetPacket(w.pack)
			}
			if opt {
				eq("the client's name", c.GetName(), name)
				if kind == WS {
					eq("the client's URL", c.GetUrl(), r.want)
				}
			} else {
				name = c.GetName()
				if mc.Choose(2) == 1 {
					name = "renamed"
					c.SetName(name)
				}
			}
			if w.dec != nil {
				c.SetDecoder(w.dec())
			}
			for _, id := range []uint32{1, 2, 7} {
				c.AddRouter(id, h)
			}
		})
		for i := 0; i < 2; i++ { // as much after a restart
			got = nil
			mc.NoExplore(func() {
				if i == 0 {
					c.Start()
				} else {
					c.Restart()
				}
				mc.Quiesce()
			})
			ps := r.live()
			eq("connections of the client", len(ps), 1)
			w.talk1(ps[0], c, func() []string { return got })
			eq("the connection's name", c.Conn().GetName(), name)
			mc.NoExplore(func() {
				ps[0].send(w.msg(1, []byte("cut off"))[:4])
				mc.Quiesce()
				if i == 0 {
					ps[0].hangup()
					mc.Quiesce()
				}
			})
		}
		mc.NoExplore(func() {
			c.Stop()
			mc.Quiesce()
			mc.Advance(int64(time.Second))
			mc.Quiesce()
		})
		mc.Outcome("%s", w.name)
	}
}

// talk1: a client handles each message in a goroutine of its own, so they come
// one after another.
func (w wire) talk1(p *peer, c ziface.IClient, got func() []string) {
	var want []string
	mc.NoExplore(func() {
		for _, m := range wireMsgs {
			s := w.msg(m.id, []byte(m.d))
			want = append(want, fmt.Sprintf("%d:%x", m.id, w.data(m.id, []byte(m.d))))
			cut := len(s) / 2
			p.send(s[:cut])
			mc.Quiesce()
			p.send(s[cut:])
			mc.Quiesce()
		}
	})
	eq("messages handled, as "+w.name, fmt.Sprint(got()), fmt.Sprint(want))
	before := len(p.got())
	var out []byte
	mc.NoExplore(func() {
		for i, m := range wireMsgs {
			f := c.Conn().SendMsg
			if i%2 == 1 {
				f = c.Conn().SendBuffMsg
			}
			must(f(m.id, []byte(m.d)) == nil, "a message was not sent")
			out = append(out, w.msg(m.id, []byte(m.d))...)
			if w.pack != nil && w.name != "ltv" {
				must(f(13, []byte("never")) != nil, "a message its format refuses was sent")
			}
			mc.Quiesce()
			mc.Advance(11e6) // writers may flush on a ticker
			mc.Quiesce()
		}
	})
	eqBytes("bytes sent, as "+w.name, p.got()[before:], out)
}

func init() {
	for _, k := range []string{TCP, WS, KCP} {
		add(&Scenario{Prop: "C02", Name: "C02/" + k + "-server", Q: data(), Body: wireServer(k), Weight: 3, Bounds: "TLV, LTV, HTLV and a user's format given as an option or set, pool sizes, pooled requests, read buffers x every place to cut the stream"})
	}
	for _, k := range []string{TCP, WS, TLS} {
		add(&Scenario{Prop: "C02", Name: "C02/" + k + "-client", Q: data(), Body: wireClient(k), Weight: 2, Bounds: "TLV, LTV, HTLV and a user's format given as an option or set, read buffers, name and URL options"})
	}
}
