package main

import (
	"fmt"
	"strings"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zzmc/mc"
)

// ---- C05: what senders hand over appears whole, once and in order on the wire --

// sendOp is one call of a sender: D SendMsg, B SendBuffMsg, R Send, Q SendToQueue.
type sendOp struct {
	call string
	size int
}

type sender []sendOp

func fillText(tag string, n int) string {
	if n == 0 {
		return ""
	}
	if n <= len(tag) {
		return tag
	}
	return tag + strings.Repeat(tag[len(tag)-1:], n-len(tag))
}

type sendCfg struct {
	kind    string
	queue   int    // MaxMsgChanLen
	window  int    // unread bytes (messages for WebSocket) the peer's side holds; 0 unlimited
	stall   bool   // the peer does not read before the senders are done
	slow    bool   // errors of buffered sends are legitimate (queue may stay full)
	where   string // "": user threads; "hook": from the start hook; "handler": one sender inside the handler
	senders []sender
}

func (p *peer) setWindow(n int) {
	if p.kind == WS {
		p.ws.In.Cap = n
	} else {
		p.tcp.In.Cap = n
	}
}

// drain reads what has been sent, so that a small window moves.
func (p *peer) drain() {
	if p.kind == WS {
		for {
			if _, _, err := p.ws.ReadMessage(); err != nil {
				return
			}
		}
	}
	buf := make([]byte, 1<<16)
	for {
		if _, err := p.tcp.Read(buf); err != nil {
			return
		}
	}
}

func sendRun(c sendCfg) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		g.MaxMsgChanLen = uint32(c.queue)
		g.WorkerPoolSize = 1
		g.MaxPacketSize = 1 << 20
		want := map[uint32]string{} // accepted
		tried := map[uint32]string{}
		class := map[uint32]string{}
		do := func(conn ziface.IConnection, si int) {
			for i, op := range c.senders[si] {
				id := uint32(10*si + i + 1)
				text := fillText(fmt.Sprintf("s%dm%d", si, i), op.size)
				raw := []byte(text)
				var err error
				switch op.call {
				case "D":
					err = conn.SendMsg(id, raw)
				case "B":
					err = conn.SendBuffMsg(id, raw)
				case "R":
					err = conn.Send(tlv(id, text))
				case "Q":
					err = conn.SendToQueue(tlv(id, text))
				}
				if op.call == "D" || op.call == "B" {
					for k := range raw {
						raw[k] = '!' // the caller's buffer is its own again
					}
				}
				tried[id] = text
				class[id] = op.call
				if err == nil {
					want[id] = text
				} else if !c.slow || op.call == "D" || op.call == "R" {
					mc.Fail("%s on an open connection failed: %v", op.call, err)
				}
			}
		}
		started := false
		srv := serve(c.kind, func(s ziface.IServer) {
			s.AddRouter(1, &router{f: func(req ziface.IRequest) { do(req.GetConnection(), 0) }})
			if c.where == "hook" {
				s.SetOnConnStart(func(conn ziface.IConnection) {
					do(conn, 0)
					started = true
				})
			}
		})
		var p *peer
		if c.where == "hook" {
			p = dial(c.kind)
			mc.Quiesce()
			p.up()
			must(started, "the start hook did not run")
		} else {
			p = connect(c.kind)
			must(p != nil, "refused")
			conn := mine(srv, p)
			if c.window > 0 {
				p.setWindow(c.window)
				if !c.stall {
					mc.Spawn("peer-reader", p.drain)
				}
			}
			var fns []func()
			first := 0
			if c.where == "handler" {
				first = 1
				p.send(tlv(1, "go"))
			}
			for si := first; si < len(c.senders); si++ {
				si := si
				fns = append(fns, func() { do(conn, si) })
			}
			if c.stall {
				mc.Spawn("peer-reader", func() {
					mc.Quiesce()
					for i := 0; i < 6; i++ {
						mc.Advance(6e6)
						mc.Quiesce()
					}
					p.drain()
				})
			}
			join(fns...)
		}
		mc.Quiesce()
		mc.Explore(false)
		for i := 0; i < 4; i++ {
			mc.Advance(11e6) // writers may flush on a ticker
			mc.Quiesce()
		}
		got := p.frames()
		seen := map[uint32]bool{}
		last := map[string]int{}
		for _, f := range got {
			text, ok := tried[f.id]
			must(ok && text == f.data, "the wire carries frame %d %q, which nobody sent", f.id, short(f.data))
			_, acc := want[f.id]
			must(acc, "frame %d was sent although its call reported an error", f.id)
			must(!seen[f.id], "frame %d appears twice on the wire", f.id)
			seen[f.id] = true
			si, i := int(f.id-1)/10, int(f.id-1)%10
			k := fmt.Sprintf("%d%s", si, class[f.id])
			if l, ok := last[k]; ok {
				must(i > l, "sender %d: message %d overtook message %d", si, l, i)
			}
			last[k] = i
		}
		for id := range want {
			must(seen[id], "message %d was accepted but never reached the wire", id)
		}
		if !c.slow {
			n := 0
			for _, s := range c.senders {
				n += len(s)
			}
			eq("messages sent", len(want), n)
		}
		must(!p.dropped(), "the connection was closed")
		mc.Outcome("%v", func() (o []uint32) {
			for _, f := range got {
				o = append(o, f.id)
			}
			return
		}())
	}
}

func short(s string) string {
	if len(s) > 20 {
		return s[:20] + "..."
	}
	return s
}

func ops(calls string, size int) (s sender) {
	for _, c := range calls {
		s = append(s, sendOp{string(c), size})
	}
	return
}

func init() {
	for _, k := range []string{TCP, WS, KCP} {
		a := func(name, bounds string, q, t *mc.Config, c sendCfg) {
			c.kind = k
			if c.queue == 0 {
				c.queue = 8
			}
			add(&Scenario{Prop: "C05", Name: "C05/" + k + "-" + name, Q: q, T: t, Body: sendRun(c), Weight: 5, Bounds: bounds})
		}
		a("direct", "two threads, 2 direct sends each", b(4), b(5), sendCfg{senders: []sender{ops("DD", 5), ops("DD", 5)}})
		a("buffered", "two threads, 2 buffered sends each, from the very first", b(4), b(5), sendCfg{senders: []sender{ops("BB", 5), ops("BB", 5)}})
		a("mixed", "direct against buffered sends", b(4), b(5), sendCfg{senders: []sender{ops("DD", 5), ops("BB", 5)}})
		a("mixed2", "each thread uses both calls", b(4), b(5), sendCfg{senders: []sender{ops("DB", 5), ops("BD", 5)}})
		a("raw", "raw sends against queued raw sends", b(4), b(5), sendCfg{senders: []sender{ops("RR", 5), ops("QQ", 5)}})
		a("rawmix", "queued raw sends against buffered sends", b(4), b(5), sendCfg{senders: []sender{ops("QB", 5), ops("BQ", 5)}})
		a("three", "three threads, one first buffered send each", b(4), b(5), sendCfg{senders: []sender{ops("B", 5), ops("B", 5), ops("Q", 5)}})
		a("hook", "sends from the start hook", b(3), b(4), sendCfg{where: "hook", senders: []sender{ops("DBBD", 5)}})
		a("handler", "a handler and another thread send", b(3), b(4), sendCfg{where: "handler", senders: []sender{ops("BD", 5), ops("DB", 5)}})
		win := 10
		if k == WS {
			win = 1
		}
		a("window", "sends while the peer reads slowly through a small window", b(3), b(4), sendCfg{window: win, senders: []sender{ops("DB", 15), ops("BD", 15)}})
		a("fullqueue", "a buffered queue of 1 behind a small window", b(3), b(4), sendCfg{queue: 1, slow: true, window: win, senders: []sender{ops("BB", 15), ops("BD", 15)}})
		size := 15
		if k == TCP {
			size = 17000 // too large for the write buffer
		}
		a("stall", "five buffered messages for a queue of 2 while the peer does not read", b(3), b(4), sendCfg{queue: 2, slow: true, stall: true, window: win, senders: []sender{ops("BBBBB", size)}})
		a("stall-raw", "five queued raw messages for a queue of 1 while the peer does not read", b(3), b(4), sendCfg{queue: 1, slow: true, stall: true, window: win, senders: []sender{ops("QQQQQ", size)}})
		a("stall-two", "two threads fill a queue of 1 while the peer does not read", b(2), b(3), sendCfg{queue: 1, slow: true, stall: true, window: win, senders: []sender{ops("BBB", size), ops("QQB", size)}})
		a("empty", "messages without data", b(3), b(4), sendCfg{senders: []sender{ops("DBD", 0), ops("BB", 0)}})
		// frames around internal buffer sizes
		for _, n := range []int{9000, 16*1024 - 9, 16*1024 - 8, 16*1024 - 7, 17000, 40000} {
			a(fmt.Sprintf("big%d", n), "buffered messages around the 16 KiB buffer, with a direct send in between", b(3), b(4), sendCfg{senders: []sender{{{"B", 7}, {"B", n}, {"B", n}}, ops("D", 5)}})
		}
		a("bigboth", "large direct and large buffered messages", b(3), b(4), sendCfg{senders: []sender{{{"B", 9000}, {"B", 9000}}, {{"D", 20000}, {"B", 30}}}})
	}
}
