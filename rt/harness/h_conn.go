package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zzmc/mc"
)

// ---- C06: teardown; C07: API calls at any moment -------------------------------

// threads is the multiset of live threads of the code under test, by creation site.
func threads() string {
	var out []string
	for _, a := range mc.Alive() {
		if i := strings.Index(a, " "); i >= 0 {
			a = a[i+1:]
		}
		if i := strings.Index(a, " at "); i >= 0 {
			a = a[:i]
		}
		if strings.HasPrefix(a, "go@") {
			out = append(out, a)
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

type life struct {
	started, stopped, stopDone int
	cb                         [2]int
	handled                    int
	early                      string
}

type tdCfg struct {
	kind   string
	mode   string
	beat   bool // heartbeat checking on
	window int  // peer does not read
	cnt    bool // handler stops the connection
	slices bool
	causes []string
}

// early: the peer sends, and possibly hangs up, while its connection is still being set up.
func earlybird(kind, mode string, beat bool, pool int, slices bool, then string) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		g.WorkerPoolSize = uint32(pool)
		g.RouterSlicesMode = slices
		if mode != "" {
			g.WorkerMode = mode
			g.MaxConn = 2
		}
		began, ready, stopped, handled := 0, 0, 0, 0
		cb := 0
		handle := func(ziface.IRequest) {
			must(ready == 1, "a message was handled before the start hook had run")
			handled++
		}
		srv := serve(kind, func(s ziface.IServer) {
			s.SetOnConnStart(func(conn ziface.IConnection) {
				began++
				mc.Share("hook", 1)
				conn.AddCloseCallback("h", "a", func() { cb++ })
				mc.Yield()
				if then == "hookstop" {
					conn.Stop()
				}
				mc.Yield()
				ready++
				mc.Share("hook", 2)
			})
			s.SetOnConnStop(func(conn ziface.IConnection) {
				must(began == 1, "the stop hook ran before the start hook")
				stopped++
			})
			if slices {
				s.AddRouterSlices(1, handle)
			} else {
				s.AddRouter(1, &router{f: handle})
			}
			if beat {
				s.StartHeartBeat(time.Second)
			}
		})
		base := ""
		mc.NoExplore(func() { mc.Quiesce(); base = threads() })
		p := dial(kind)
		must(p != nil, "refused")
		mc.WaitUntil("upgrade", p.up)
		p.send(tlv(1, "m"))
		p.send(tlv(1, "n"))
		if then == "hangup" {
			p.hangup()
		}
		mc.Quiesce()
		mc.Explore(false)
		eq("start hook calls", ready, 1)
		if then == "" {
			eq("messages handled", handled, 2)
			eq("stop hook calls", stopped, 0)
			p.hangup()
			mc.Quiesce()
		}
		mc.Advance(11e6)
		mc.Quiesce()
		eq("start hook calls", began, 1)
		eq("stop hook calls", stopped, 1)
		eq("close callback calls", cb, 1)
		eq("registered connections", srv.GetConnMgr().Len(), 0)
		must(p.dropped(), "the socket was not closed")
		eq("goroutines left", threads(), base)
		mc.Outcome("%d", handled)
	}
}

var errWire = errors.New("broken wire")

func (p *peer) breakWire() {
	if p.kind == WS {
		p.ws.In.WErr = errWire
	} else {
		p.tcp.In.WErr = errWire
	}
	mc.Share("wire", 1)
}

func teardown(c tdCfg) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		g.WorkerPoolSize = 1
		if c.mode != "" {
			g.WorkerMode = c.mode
			g.MaxConn = 2
		}
		l := &life{}
		srv := serve(c.kind, func(s ziface.IServer) {
			s.SetOnConnStart(func(conn ziface.IConnection) {
				l.started++
				mc.Ev("start")
				conn.AddCloseCallback("h", "a", func() { l.cb[0]++; mc.Ev("cb0") })
				conn.AddCloseCallback("h", "b", func() { l.cb[1]++; mc.Ev("cb1") })
				mc.Yield()
			})
			s.SetOnConnStop(func(conn ziface.IConnection) {
				l.stopped++
				must(l.started == 1, "the stop hook ran before the start hook")
				mc.Ev("stop")
				conn.SetProperty("bye", 1)
				mc.Yield()
			})
			s.AddRouter(1, &router{f: func(req ziface.IRequest) {
				must(l.started == 1, "a message was handled before the start hook ran")
				l.handled++
				mc.Ev("handle")
			}})
			s.AddRouter(2, &router{f: func(req ziface.IRequest) {
				req.GetConnection().Stop()
			}})
			if c.beat {
				s.StartHeartBeat(time.Second)
			}
		})
		base := ""
		mc.NoExplore(func() { mc.Quiesce(); base = threads() })
		p := connect(c.kind)
		must(p != nil, "refused")
		conn := mine(srv, p)
		if c.window > 0 {
			p.setWindow(c.window)
		}
		var fns []func()
		for i, cause := range c.causes {
			i := i
			switch cause {
			case "hangup":
				fns = append(fns, p.hangup)
			case "stop":
				fns = append(fns, conn.Stop)
			case "clear":
				fns = append(fns, func() { srv.GetConnMgr().ClearConn() })
			case "send":
				fns = append(fns, func() { _ = conn.SendMsg(uint32(i), []byte("x")) })
			case "buff":
				fns = append(fns, func() {
					_ = conn.SendBuffMsg(uint32(i), []byte("x"))
					_ = conn.SendBuffMsg(uint32(i), []byte("y"))
				})
			case "queue":
				fns = append(fns, func() { _ = conn.SendToQueue(tlv(9, "x")) })
			case "broken":
				fns = append(fns, func() {
					p.breakWire()
					_ = conn.SendMsg(uint32(i), []byte("x"))
					_ = conn.SendBuffMsg(uint32(i), []byte("x"))
				})
			case "msg":
				fns = append(fns, func() { p.send(tlv(1, "m")) })
			case "selfstop":
				fns = append(fns, func() { p.send(tlv(2, "m")) })
			case "malformed":
				fns = append(fns, func() { p.send([]byte{0, 0, 0, 1, 0xff, 0xff, 0xff, 0xff, 1, 2, 3}) })
			case "half":
				fns = append(fns, func() { p.send([]byte{0, 0, 0, 1, 0}); p.hangup() })
			case "expire":
				fns = append(fns, func() { mc.Advance(int64(12 * time.Second)) })
			case "beatnow": // the checker's tick comes now
				fns = append(fns, func() { mc.Advance(int64(time.Second)) })
			default:
				panic(cause)
			}
		}
		join(fns...)
		mc.Quiesce()
		mc.Explore(false)
		for i := 0; i < 3; i++ {
			mc.Advance(11e6)
			mc.Quiesce()
		}
		if c.beat {
			mc.Advance(int64(time.Second) * 2)
			mc.Quiesce()
		}
		eq("start hook calls", l.started, 1)
		eq("stop hook calls", l.stopped, 1)
		eq("close callback calls", l.cb, [2]int{1, 1})
		_, err := srv.GetConnMgr().Get(conn.GetConnID())
		must(err != nil, "the connection is still registered after it ended")
		eq("registered connections", srv.GetConnMgr().Len(), 0)
		must(p.dropped(), "the socket was not closed")
		must(conn.Context() != nil && conn.Context().Err() != nil, "the connection's context is not done")
		eq("goroutines left", threads(), base)
		n := len(p.got())
		must(conn.SendMsg(1, []byte("late")) != nil, "a send on an ended connection succeeded")
		eq("bytes on the wire after the end", len(p.got())-n, 0)
		// the server still serves
		q := connect(c.kind)
		must(q != nil, "the server refuses connections after a teardown")
		l2 := mine(srv, q)
		l.started = 1
		q.send(tlv(1, "again"))
		h := l.handled
		mc.Quiesce()
		eq("messages handled on the next connection", l.handled, h+1)
		_ = l2
		mc.Outcome("%v", l.handled)
	}
}

// apiCalls are the connection methods any goroutine may call at any time.
var apiCalls = []struct {
	name string
	f    func(c ziface.IConnection)
}{
	{"Stop", func(c ziface.IConnection) { c.Stop() }},
	{"SendMsg", func(c ziface.IConnection) { _ = c.SendMsg(7, []byte("x")) }},
	{"SendBuffMsg", func(c ziface.IConnection) { _ = c.SendBuffMsg(7, []byte("x")) }},
	{"Send", func(c ziface.IConnection) { _ = c.Send(tlv(7, "x")) }},
	{"SendToQueue", func(c ziface.IConnection) { _ = c.SendToQueue(tlv(7, "x")) }},
	{"Property", func(c ziface.IConnection) {
		c.SetProperty("k", 1)
		_, _ = c.GetProperty("k")
		c.RemoveProperty("k")
	}},
	{"Callback", func(c ziface.IConnection) {
		c.AddCloseCallback("h", "k", func() {})
		c.RemoveCloseCallback("h", "k")
	}},
	{"Access", func(c ziface.IConnection) {
		_ = c.IsAlive()
		if x := c.Context(); x != nil {
			_ = x.Err()
		}
		_ = c.GetConnID()
		_ = c.GetConnIdStr()
		_ = c.GetWorkerID()
		_ = c.GetMsgHandler()
		_ = c.GetName()
		_ = c.LocalAddr()
		_ = c.RemoteAddr()
		_ = c.LocalAddrString()
		_ = c.RemoteAddrString()
		_ = c.GetConnection()
		_ = c.GetTCPConnection()
		_ = c.GetWsConn()
	}},
}

// apiRace: two users call a pair of API methods while the connection starts
// ("start") or is stopped ("stop"); it is then ended if it still lives.
func apiRace(kind, phase string, beat bool) func() {
	return func() {
		boot()
		zconf.GlobalObject.WorkerPoolSize = 1
		started, stopped := 0, 0
		srv := serve(kind, func(s ziface.IServer) {
			s.SetOnConnStart(func(conn ziface.IConnection) { started++; mc.Yield() })
			s.SetOnConnStop(func(conn ziface.IConnection) { stopped++; mc.Yield() })
			if beat {
				s.StartHeartBeat(time.Second)
			}
		})
		i := mc.Choose(len(apiCalls))
		j := i + mc.Choose(len(apiCalls)-i)
		var p *peer
		var conn ziface.IConnection
		get := func() ziface.IConnection {
			for conn == nil {
				var c ziface.IConnection
				if p != nil {
					mc.NoExplore(func() { c = connOf(srv, p) })
				}
				if c != nil {
					conn = c
					mc.Share("conn", 1)
					break
				}
				mc.Gosched()
			}
			return conn
		}
		switch phase {
		case "start":
			p = dial(kind)
			must(p != nil, "refused")
			join(func() { apiCalls[i].f(get()) }, func() { apiCalls[j].f(get()) })
		case "stop":
			p = connect(kind)
			must(p != nil, "refused")
			get()
			join(conn.Stop, func() { apiCalls[i].f(conn) }, func() { apiCalls[j].f(conn) })
		case "hangup":
			p = connect(kind)
			must(p != nil, "refused")
			get()
			join(p.hangup, func() { apiCalls[i].f(conn) }, func() { apiCalls[j].f(conn) })
		case "after":
			p = connect(kind)
			must(p != nil, "refused")
			get()
			conn.Stop()
			mc.Quiesce()
			join(func() { apiCalls[i].f(conn) }, func() { apiCalls[j].f(conn) })
		}
		mc.Quiesce()
		mc.Explore(false)
		mc.Advance(11e6)
		mc.Quiesce()
		p.up()
		conn.Stop()
		mc.Quiesce()
		mc.Advance(11e6)
		mc.Quiesce()
		eq("start hook calls", started, 1)
		eq("stop hook calls", stopped, 1)
		n := len(p.got())
		must(conn.SendMsg(1, []byte("late")) != nil, "SendMsg on a closed connection succeeded")
		must(conn.SendBuffMsg(1, []byte("late")) != nil, "SendBuffMsg on a closed connection succeeded")
		must(conn.SendMsg(1, nil) != nil, "an empty SendMsg on a closed connection succeeded")
		must(conn.SendBuffMsg(1, nil) != nil, "an empty SendBuffMsg on a closed connection succeeded")
		must(conn.Send(tlv(1, "late")) != nil, "Send on a closed connection succeeded")
		must(conn.SendToQueue(tlv(1, "late")) != nil, "SendToQueue on a closed connection succeeded")
		must(!conn.IsAlive(), "a closed connection reports itself alive")
		for k := range apiCalls {
			apiCalls[k].f(conn)
		}
		mc.Quiesce()
		mc.Advance(11e6)
		mc.Quiesce()
		eq("bytes on the wire after the end", len(p.got())-n, 0)
		must(p.dropped(), "the socket was not closed")
		mc.Outcome("%s/%s", apiCalls[i].name, apiCalls[j].name)
	}
}

// apiInside: the connection's own hooks, handlers and callbacks call its API.
func apiInside(kind string, beat bool, pool int) func() {
	return func() {
		boot()
		zconf.GlobalObject.WorkerPoolSize = uint32(pool)
		places := []string{"start", "handler", "stop", "callback", "watcher", "dead"}
		if !beat {
			places = places[:5]
		}
		place := places[mc.Choose(len(places))]
		i := mc.Choose(len(apiCalls))
		j := mc.Choose(len(apiCalls))
		entered, returned, stopped, cb := 0, 0, 0, 0
		act := func(at string, c ziface.IConnection) {
			if at != place {
				return
			}
			entered++
			apiCalls[i].f(c)
			apiCalls[j].f(c)
			returned++
			mc.Share("inside", int64(returned))
		}
		srv := serve(kind, func(s ziface.IServer) {
			s.SetOnConnStart(func(c ziface.IConnection) {
				c.AddCloseCallback("h", "a", func() { cb++; act("callback", c) })
				if place == "watcher" {
					mc.Spawn("watcher", func() { c.Context().Done().Recv(); act("watcher", c) })
				}
				act("start", c)
			})
			s.SetOnConnStop(func(c ziface.IConnection) { stopped++; act("stop", c) })
			s.AddRouter(1, &router{f: func(r ziface.IRequest) { act("handler", r.GetConnection()) }})
			if beat {
				s.StartHeartBeatWithOption(time.Second, &ziface.HeartBeatOption{
					MakeMsg: func(ziface.IConnection) []byte { return []byte("hb") },
					OnRemoteNotAlive: func(c ziface.IConnection) {
						act("dead", c)
						c.Stop()
					},
					HeartBeatMsgID: 77, Router: &router{f: func(ziface.IRequest) {}}})
			}
		})
		base := 0
		mc.NoExplore(func() { mc.Quiesce(); base = count(threads()) })
		p := dial(kind)
		must(p != nil, "refused")
		mc.WaitUntil("upgrade", p.up)
		p.send(tlv(1, "m"))
		mc.Quiesce()
		if place == "dead" {
			mc.Advance(13e9)
			mc.Quiesce()
		}
		p.hangup()
		mc.Quiesce()
		mc.Explore(false)
		mc.Advance(11e6)
		mc.Quiesce()
		what := fmt.Sprintf("%s, %s from %s", apiCalls[i].name, apiCalls[j].name, place)
		eq("calls that returned: "+what, returned, entered)
		if place != "handler" {
			must(entered > 0, "%s never ran", place)
		}
		eq("stop hook calls: "+what, stopped, 1)
		eq("close callback calls: "+what, cb, 1)
		eq("registered connections: "+what, srv.GetConnMgr().Len(), 0)
		must(p.dropped(), "the socket was not closed: %s", what)
		if n := count(threads()); n > base {
			mc.Fail("%s left goroutines: %s", what, threads())
		}
		mc.Outcome("%s", place)
	}
}

func init() {
	for _, k := range []string{TCP, WS, KCP} {
		win := 4
		if k == WS {
			win = 1
		}
		a := func(name, bounds string, q, t *mc.Config, c tdCfg) {
			c.kind = k
			add(&Scenario{Prop: "C06", Name: "C06/" + k + "-" + name, Q: q, T: t, Body: teardown(c), Weight: 4, Bounds: bounds})
		}
		for _, e := range []struct {
			mode, then   string
			beat, slices bool
			pool         int
		}{
			{"", "", false, false, 0}, {"", "hangup", true, true, 0}, {"", "hookstop", false, true, 1},
			{"", "", true, false, 1}, {zconf.WorkerModeBind, "hangup", false, false, 2}, {zconf.WorkerModeBind, "hookstop", true, false, 2},
			{zconf.WorkerModeDynamicBind, "", false, true, 2}, {zconf.WorkerModeDynamicBind, "hangup", false, false, 2},
		} {
			e := e
			name := "early-pool" + string(rune(48+e.pool)) + e.mode
			if e.beat {
				name += "-beat"
			}
			if e.then != "" {
				name += "-" + e.then
			}
			add(&Scenario{Prop: "C06", Name: "C06/" + k + "-" + name, Q: b(3), T: b(4), Body: earlybird(k, e.mode, e.beat, e.pool, e.slices, e.then), Weight: 3,
				Bounds: "the peer sends while its connection is being set up"})
		}
		causes := []string{"hangup", "stop", "clear", "selfstop", "half"}
		for i := range causes {
			for j := i; j < len(causes); j++ {
				if i == j && causes[i] != "stop" {
					continue
				}
				a(causes[i]+"-"+causes[j], "two causes of teardown at once", b(3), b(4), tdCfg{causes: []string{causes[i], causes[j]}})
			}
			for _, x := range []string{"send", "buff", "queue", "broken", "msg", "malformed"} {
				if causes[i] == "selfstop" && x == "malformed" {
					continue // bytes behind a malformed frame need not be understood
				}
				a(causes[i]+"-"+x, "a cause of teardown during traffic", b(3), b(4), tdCfg{causes: []string{causes[i], x}})
			}
		}
		a("triple", "three stops at once", b(3), b(4), tdCfg{causes: []string{"stop", "hangup", "clear"}})
		a("stop-buff-buff", "stop against two buffered senders", b(3), b(4), tdCfg{causes: []string{"stop", "buff", "buff"}})
		a("stop-buff-send", "stop against a buffered and a direct sender", b(3), b(4), tdCfg{causes: []string{"stop", "buff", "send"}})
		a("beat-expire", "the heartbeat expires", b(3), b(4), tdCfg{beat: true, causes: []string{"expire"}})
		a("beat-expire-stop", "the heartbeat expires while the connection is stopped", bc(2), bc(3), tdCfg{beat: true, causes: []string{"expire", "stop"}})
		a("beat-expire-hangup", "the heartbeat expires while the peer hangs up", bc(2), bc(3), tdCfg{beat: true, causes: []string{"expire", "hangup"}})
		a("beat-stop", "a heartbeat is due while the connection is stopped", bc(3), bc(4), tdCfg{beat: true, causes: []string{"beatnow", "stop"}})
		a("beat-hangup", "a heartbeat is due while the peer hangs up", bc(3), bc(4), tdCfg{beat: true, causes: []string{"beatnow", "hangup"}})
		a("beat-block-stop", "a heartbeat is stuck behind a peer that does not read when the connection is stopped", b(2), b(3), tdCfg{beat: true, window: win, causes: []string{"send", "send", "expire", "stop"}})
		a("block-stop", "senders are stuck behind a peer that does not read when the connection is stopped", b(3), b(4), tdCfg{window: win, causes: []string{"send", "send", "stop"}})
		a("block-hangup", "senders are stuck behind a peer that does not read and then goes away", b(3), b(4), tdCfg{window: win, causes: []string{"buff", "send", "hangup"}})
		a("block-expire", "the heartbeat expires although senders are stuck", b(2), b(3), tdCfg{beat: true, window: win, causes: []string{"buff", "send", "expire"}})
		a("bind-stop-msg", "bound workers", b(3), b(4), tdCfg{mode: zconf.WorkerModeBind, causes: []string{"stop", "msg"}})
		a("dyn-stop-msg", "dynamically bound workers", b(3), b(4), tdCfg{mode: zconf.WorkerModeDynamicBind, causes: []string{"stop", "msg"}})

		add(&Scenario{Prop: "C07", Name: "C07/" + k + "-inside", Q: b(1), T: b(2), Body: apiInside(k, false, 1), Weight: 5, Bounds: "all pairs of 8 API call groups, from each hook, handler and callback of the connection itself"})
		add(&Scenario{Prop: "C06", Name: "C06/" + k + "-inside", Q: b(1), T: b(2), Body: apiInside(k, true, 2), Weight: 3, Bounds: "all pairs of 8 API call groups, from each hook, handler and callback of the connection itself, heartbeat on"})
		add(&Scenario{Prop: "C07", Name: "C07/" + k + "-inside-beat", Q: b(1), T: b(2), Body: apiInside(k, true, 0), Weight: 5, Bounds: "all pairs of 8 API call groups, from each hook, handler and callback of the connection itself, heartbeat on"})
		for _, ph := range []string{"start", "stop", "hangup", "after"} {
			add(&Scenario{Prop: "C07", Name: "C07/" + k + "-" + ph, Q: b(3), T: b(4), Body: apiRace(k, ph, false), Weight: 5, Bounds: "all pairs of 8 API call groups, from two threads"})
			if ph != "after" {
				add(&Scenario{Prop: "C07", Name: "C07/" + k + "-" + ph + "-beat", Q: b(2), T: b(3), Body: apiRace(k, ph, true), Weight: 5, Bounds: "all pairs of 8 API call groups, from two threads, heartbeat on"})
			}
		}
	}
}
