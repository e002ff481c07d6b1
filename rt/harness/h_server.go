package main

import (
	"fmt"
	"strings"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zzmc/mc"
	"github.com/aceld/zinx/zzmc/xhttp"
	net "github.com/aceld/zinx/zzmc/xnet"
)

// ---- C18: stopping a server ------------------------------------------------------

func listening(kind string) bool {
	switch kind {
	case WS:
		return xhttp.Listening(port(WS))
	case TCP, KCP, TLS:
		return net.Lookup(under(kind), port(kind)) != nil
	}
	return listening(TCP) || listening(WS)
}

func count(s string) int {
	if s == "" {
		return 0
	}
	return 1 + strings.Count(s, ",")
}

type stopCfg struct {
	kind  string   // server mode
	pool  int      // workers
	max   int      // connection limit
	early bool     // Stop races with the listeners coming up
	pre   []string // connections before
	acts  []string // what happens at the same time
	beat  bool
}

func stopping(c stopCfg) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		g.WorkerPoolSize = uint32(c.pool)
		if c.max > 0 {
			g.MaxConn = c.max
		}
		started, stopped, handled := 0, 0, 0
		var srv ziface.IServer
		base := 0
		mc.NoExplore(func() {
			mc.Quiesce()
			base = count(threads())
			srv = build(c.kind, func(s ziface.IServer) {
				s.SetOnConnStart(func(ziface.IConnection) { started++; mc.Share("started", 1); mc.Yield() })
				s.SetOnConnStop(func(ziface.IConnection) { stopped++; mc.Share("stopped", 1); mc.Yield() })
				s.AddRouter(1, &router{f: func(req ziface.IRequest) { handled++ }})
				if c.beat {
					s.StartHeartBeat(time.Second)
				}
			})
		})
		if c.early {
			srv.Start()
		} else {
			mc.NoExplore(func() {
				srv.Start()
				mc.Quiesce()
			})
			must(listening(c.kind), "the server does not listen after Start")
		}
		var ps []*peer
		for _, k := range c.pre {
			p := connect(k)
			must(p != nil, "refused")
			ps = append(ps, p)
		}
		fns := []func(){func() { srv.Stop() }}
		for i, a := range c.acts {
			i := i
			switch a {
			case TCP, WS, KCP, TLS:
				a := a
				fns = append(fns, func() {
					if p := dial(a); p != nil {
						ps = append(ps, p)
						mc.Share("peers", int64(len(ps)))
					}
				})
			case "hangup":
				fns = append(fns, ps[0].hangup)
			case "msg":
				fns = append(fns, func() { ps[0].send(tlv(1, "m")) })
			case "sendmsg":
				cn := connOf(srv, ps[0])
				fns = append(fns, func() { _ = cn.SendMsg(uint32(i), []byte("x")); _ = cn.SendBuffMsg(uint32(i), []byte("x")) })
			case "stopconn":
				cn := connOf(srv, ps[0])
				fns = append(fns, cn.Stop)
			case "stop":
				fns = append(fns, func() { srv.Stop() })
			case "clear":
				fns = append(fns, func() { srv.GetConnMgr().ClearConn() })
			case "tick":
				fns = append(fns, func() { mc.Advance(int64(time.Second)) })
			default:
				panic(a)
			}
		}
		join(fns...)
		mc.Quiesce()
		mc.Explore(false)
		for i := 0; i < 4; i++ {
			mc.Advance(int64(1100 * time.Millisecond))
			mc.Quiesce()
		}
		must(!listening(c.kind), "a listener is still open after Stop")
		for i, p := range ps {
			if p.up() {
				must(p.dropped(), "connection %d survived Stop", i)
			}
		}
		eq("registered connections after Stop", srv.GetConnMgr().Len(), 0)
		eq("stop hooks, start hooks", stopped, started)
		if n := count(threads()); n > base+c.pool {
			mc.Fail("%d goroutines are left after Stop (%d before Start, %d workers): %s", n, base, c.pool, threads())
		}
		for _, k := range []string{TCP, WS, KCP} {
			must(dial(k) == nil, "a stopped server still accepts %s connections", k)
		}
		mc.Outcome("%d/%d", started, len(ps))
	}
}

func init() {
	for _, k := range []string{TCP, WS, KCP, TLS, "mixed"} {
		a := func(name string, bd int, c stopCfg) {
			c.kind = k
			add(&Scenario{Prop: "C18", Name: "C18/" + k + "-" + name, Q: b(bd), T: b(bd + 1), Body: stopping(c), Weight: 4,
				Bounds: fmt.Sprintf("server with %d workers, connections before %v, at once: Stop %v", c.pool, c.pre, c.acts)})
		}
		kinds := []string{k}
		if k == "mixed" {
			kinds = []string{TCP, WS}
		}
		a("idle", 3, stopCfg{})
		a("early", 3, stopCfg{early: true})
		a("twice", 3, stopCfg{acts: []string{"stop"}})
		a("twice-early", 3, stopCfg{early: true, acts: []string{"stop"}})
		for _, x := range kinds {
			n := ""
			if len(kinds) > 1 {
				n = "-" + x
			}
			a("early-dial"+n, 3, stopCfg{early: true, acts: []string{x}})
			a("dial"+n, 3, stopCfg{acts: []string{x}})
			a("dial-dial"+n, 2, stopCfg{acts: []string{x, x}})
			a("one-dial"+n, 3, stopCfg{pool: 1, pre: []string{x}, acts: []string{x}})
			a("one-hangup"+n, 3, stopCfg{pool: 1, pre: []string{x}, acts: []string{"hangup"}})
			a("one-stopconn"+n, 3, stopCfg{pre: []string{x}, acts: []string{"stopconn"}})
			a("one-clear"+n, 2, stopCfg{pre: []string{x}, acts: []string{"clear"}})
			a("one-msg"+n, 3, stopCfg{pool: 1, pre: []string{x}, acts: []string{"msg"}})
			a("one-send"+n, 3, stopCfg{pool: 1, pre: []string{x}, acts: []string{"sendmsg"}})
			a("two"+n, 2, stopCfg{pre: []string{x, x}})
			a("full"+n, 2, stopCfg{max: 1, pre: []string{x}, acts: []string{x}})
			a("beat"+n, 2, stopCfg{beat: true, pre: []string{x}, acts: []string{"tick"}})
		}
	}
}
