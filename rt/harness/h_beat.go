package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zzmc/mc"
)

// ---- C09: heartbeats -----------------------------------------------------------------

const sec = int64(time.Second)
const eps = int64(10 * time.Millisecond)

type beatCfg struct {
	kind   string // of the connection
	client bool   // the checked side is a client
	// "", "option", "slices", "keep" (handler that does not end the connection),
	// "func" (sends its own heartbeats), "bare", "nil", "plain-slices" (defaults in each of these ways)
	custom string
	act    string // what the peer says: msg, part, beat, unknown
	iv     int64  // check interval, milliseconds
	max    int    // silence limit, seconds
	gaps   int    // number of peer activities
	block  bool   // the peer does not read
}

// beater is one side under heartbeat checking.
type beater struct {
	c       beatCfg
	p       *peer
	conn    ziface.IConnection
	started int
	stopped int
	endAt   int64
	deaths  []int64
	wrong   bool
	heard   int // heartbeats handled by the custom handler
	base    int
}

func (h *beater) option() *ziface.HeartBeatOption {
	o := &ziface.HeartBeatOption{
		MakeMsg: func(c ziface.IConnection) []byte { return []byte("hb" + c.GetConnIdStr()) },
		OnRemoteNotAlive: func(c ziface.IConnection) {
			h.deaths = append(h.deaths, mc.Elapsed())
			if c != h.conn {
				h.wrong = true
			}
			mc.Share("dead", 1)
			if h.c.custom != "keep" {
				c.Stop()
			}
		},
		HeartBeatMsgID: 77,
		Router:         &router{f: func(ziface.IRequest) { h.heard++ }},
	}
	if h.c.custom == "slices" {
		o.RouterSlices = []ziface.RouterHandler{func(ziface.IRequest) { h.heard++ }}
	}
	return o
}

// own: the checker is configured in every respect.
func (h *beater) own() bool {
	switch h.c.custom {
	case "option", "slices", "keep", "func":
		return true
	}
	return false
}

func (h *beater) id() uint32 {
	if h.own() {
		return 77
	}
	return ziface.HeartBeatDefaultMsgID
}

type beatable interface {
	StartHeartBeat(time.Duration)
	StartHeartBeatWithOption(time.Duration, *ziface.HeartBeatOption)
}

func (h *beater) begin(x beatable, iv time.Duration) {
	switch h.c.custom {
	case "", "plain-slices":
		x.StartHeartBeat(iv)
	case "nil":
		x.StartHeartBeatWithOption(iv, nil)
	case "bare": // the default id keeps its default handler
		x.StartHeartBeatWithOption(iv, &ziface.HeartBeatOption{HeartBeatMsgID: ziface.HeartBeatDefaultMsgID, Router: &router{f: func(ziface.IRequest) { h.heard++ }}})
	default:
		x.StartHeartBeatWithOption(iv, h.option())
	}
}

func (h *beater) open() ziface.IServer {
	c := h.c
	boot()
	zconf.GlobalObject.HeartbeatMax = c.max
	zconf.GlobalObject.WorkerPoolSize = 1
	zconf.GlobalObject.RouterSlicesMode = strings.HasSuffix(c.custom, "slices")
	start := func(conn ziface.IConnection) { h.started++; h.conn = conn }
	stop := func(ziface.IConnection) { h.stopped++; h.endAt = mc.Elapsed() }
	iv := time.Duration(c.iv * 1e6)
	if c.client {
		r := newRemote(c.kind)
		k := newClient(c.kind)
		k.AddRouter(1, &router{f: func(ziface.IRequest) {}})
		k.SetOnConnStart(start)
		k.SetOnConnStop(stop)
		h.begin(k, iv)
		mc.Quiesce()
		h.base = count(threads())
		k.Start()
		mc.Quiesce()
		h.p = r.peers()[0]
		h.base++ // the client's own goroutine stays until it is stopped
		return nil
	}
	var srv ziface.IServer
	setup := func(s ziface.IServer) {
		s.SetOnConnStart(start)
		s.SetOnConnStop(stop)
		if strings.HasSuffix(c.custom, "slices") {
			s.AddRouterSlices(1, func(ziface.IRequest) {})
		} else {
			s.AddRouter(1, &router{f: func(ziface.IRequest) {}})
		}
		h.begin(s, iv)
		if c.custom == "func" {
			s.GetHeartBeat().SetHeartbeatFunc(func(cn ziface.IConnection) error {
				_ = cn.SendMsg(78, []byte("own"+cn.GetConnIdStr()))
				return errors.New("never mind")
			})
		}
	}
	srv = serve(c.kind, setup)
	mc.Quiesce()
	h.base = count(threads())
	h.p = connect(c.kind)
	must(h.p != nil, "refused")
	return srv
}

func (h *beater) beats() int {
	n := 0
	for _, f := range h.p.frames() {
		if f.id == 78 && h.c.custom == "func" {
			eq("the message of the heartbeat function", f.data, "own"+h.conn.GetConnIdStr())
			n++
		} else if f.id == h.id() && h.c.custom != "func" {
			if h.own() {
				eq("the custom heartbeat message", f.data, "hb"+h.conn.GetConnIdStr())
			}
			n++
		} else {
			mc.Fail("an unexpected message %v was sent", f)
		}
	}
	return n
}

func (h *beater) say(i int) {
	act := h.c.act
	switch act {
	case "msg":
		h.p.send(tlv(1, "m"))
	case "beat":
		h.p.send(tlv(h.id(), "hb"))
	case "unknown":
		h.p.send(tlv(4444, "u"))
	case "part": // one frame in many pieces
		f := tlv(1, "abcdefghijklmnopqrstuvwxyz")
		h.p.send(f[i : i+1])
	}
}

// patterns runs the checker against every pattern of peer activity: each gap is
// well within, just within, just beyond or far beyond the silence limit.
func patterns(c beatCfg) func() {
	return func() {
		h := &beater{c: c}
		mc.Explore(false)
		h.open()
		eq("start hooks", h.started, 1)
		if c.block {
			h.p.setWindow(1)
		}
		t0 := mc.Elapsed()
		max, iv := int64(c.max)*sec, c.iv*1e6
		last := t0
		limit := func() (lo, hi int64) { return last + max, last + max + iv }
		ended := func() bool { return h.stopped > 0 }
		check := func() {
			now := mc.Elapsed()
			lo, hi := limit()
			if c.custom == "keep" {
				must(!ended(), "the checker ended a connection although its handler did not")
				return
			}
			if ended() {
				must(h.endAt >= lo, "a connection was ended %.3fs after its peer was last heard from; the limit is %ds", float64(h.endAt-last)/1e9, c.max)
				must(h.endAt <= hi, "a silent connection was ended only %.3fs after its peer was last heard from; limit %ds, interval %dms", float64(h.endAt-last)/1e9, c.max, c.iv)
				if h.own() {
					eq("calls of the dead-connection handler", len(h.deaths), 1)
					must(!h.wrong, "the dead-connection handler got another connection")
				}
				return
			}
			must(now <= hi, "a connection silent for %.3fs is still up; limit %ds, interval %dms", float64(now-last)/1e9, c.max, c.iv)
			eq("calls of the dead-connection handler of a live connection", len(h.deaths), 0)
			if !c.block {
				eq(fmt.Sprintf("heartbeats after %.3fs", float64(now-t0)/1e9), h.beats(), (now-t0)/iv)
			}
		}
		var pat []int
		for i := 0; i < c.gaps && !ended(); i++ {
			gaps := []int64{max / 3, max - eps, max + eps, max + iv + 2*eps}
			mc.Explore(true)
			g := mc.Choose(len(gaps))
			mc.Explore(false)
			pat = append(pat, g)
			// observe shortly after each tick on the way
			to := last + gaps[g]
			for {
				now := mc.Elapsed()
				next := t0 + ((now-t0)/iv+1)*iv + eps/4
				if next > to {
					next = to
				}
				if next > now {
					mc.Advance(next - now)
				}
				mc.Quiesce()
				check()
				if next == to || ended() {
					break
				}
			}
			if c.custom == "keep" {
				want := 0
				for k := last + max; k <= mc.Elapsed(); k++ {
					// ticks at which the peer had been silent for too long
					k = t0 + ((k-t0+iv-1)/iv)*iv
					if k <= mc.Elapsed() {
						want++
					}
				}
				eq("calls of the dead-connection handler while silent", len(h.deaths), want)
				h.deaths = nil
			}
			if ended() {
				break
			}
			h.say(i)
			mc.Quiesce()
			last = mc.Elapsed()
			check()
		}
		if !ended() {
			if c.custom != "keep" {
				mc.Advance(max + iv + eps)
				mc.Quiesce()
				check()
				must(ended(), "a silent connection is never ended")
			} else {
				h.conn.Stop()
				mc.Quiesce()
			}
		}
		eq("stop hooks", h.stopped, 1)
		mc.Advance(30e6)
		mc.Quiesce()
		must(h.p.dropped(), "the socket is still open")
		n, d := len(h.p.got()), len(h.deaths)
		for i := 0; i < 4; i++ {
			mc.Advance(iv)
			mc.Quiesce()
		}
		eq("bytes sent after the end", len(h.p.got())-n, 0)
		eq("dead-connection calls after the end", len(h.deaths)-d, 0)
		if k := count(threads()); k > h.base {
			mc.Fail("the ended connection left goroutines: %s", threads())
		}
		if c.act == "beat" && h.own() && c.gaps > 0 {
			// the custom handler saw every heartbeat of the peer
			eq("heartbeats handled", h.heard, len(pat)-btoi(len(pat) > 0 && h.heard < len(pat)))
		}
		mc.Outcome("%v", pat)
	}
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

// several: connections of one server have their own checkers.
func several(kinds []string, talk int) func() {
	return func() {
		boot()
		mc.Explore(false)
		g := zconf.GlobalObject
		g.HeartbeatMax, g.WorkerPoolSize = 3, 1
		mode := kinds[0]
		for _, k := range kinds {
			if k != mode {
				mode = "mixed"
			}
		}
		dead := map[ziface.IConnection]int{}
		srv := serve(mode, func(s ziface.IServer) {
			s.AddRouter(1, &router{f: func(ziface.IRequest) {}})
			s.StartHeartBeatWithOption(time.Second, &ziface.HeartBeatOption{
				MakeMsg:          func(c ziface.IConnection) []byte { return []byte(c.GetConnIdStr()) },
				OnRemoteNotAlive: func(c ziface.IConnection) { dead[c]++; c.Stop() },
				HeartBeatMsgID:   77, Router: &router{f: func(ziface.IRequest) {}}})
		})
		mc.Explore(true)
		mask := mc.Choose(1 << len(kinds)) // who talks
		stopOne := mc.Choose(len(kinds) + 1)
		mc.Explore(false)
		var ps []*peer
		var cs []ziface.IConnection
		var ts []int64
		for _, k := range kinds {
			p := connect(k)
			must(p != nil, "refused")
			ps = append(ps, p)
			cs = append(cs, connOf(srv, p))
			ts = append(ts, mc.Elapsed())
			mc.Advance(300 * 1e6)
		}
		if stopOne < len(kinds) { // a normal end must not touch the others' checkers
			cs[stopOne].Stop()
			mc.Quiesce()
		}
		for i := 0; i < 14; i++ {
			for j, p := range ps {
				if mask&(1<<j) != 0 && !p.dropped() {
					p.send(tlv(1, "x"))
				}
			}
			mc.Advance(500 * 1e6)
			mc.Quiesce()
			for j, p := range ps {
				if j == stopOne {
					must(p.dropped(), "a stopped connection is open")
					continue
				}
				age := mc.Elapsed() - ts[j]
				if mask&(1<<j) != 0 || age < 3*sec {
					must(!p.dropped(), "connection %d was ended although its peer was heard from", j)
					eq("heartbeats", len(p.frames()), age/sec)
				} else if age > 4*sec {
					must(p.dropped(), "silent connection %d is still up", j)
					eq("dead-connection calls", dead[cs[j]], 1)
				}
				for _, f := range p.frames() {
					eq("heartbeat content", f.data, cs[j].GetConnIdStr())
				}
			}
		}
		for j := range ps {
			if mask&(1<<j) != 0 {
				if j != stopOne {
					eq("dead-connection calls for a talking peer", dead[cs[j]], 0)
				}
			}
		}
		mc.Outcome("%d/%d", mask, stopOne)
	}
}

// apart: the end of one connection, at any moment, leaves the other's checker alone.
func apart(kinds [2]string, how string, max int) func() {
	return func() {
		boot()
		mc.Explore(false)
		g := zconf.GlobalObject
		g.HeartbeatMax, g.WorkerPoolSize = max, 1
		mode := kinds[0]
		if kinds[1] != mode {
			mode = "mixed"
		}
		dead := map[ziface.IConnection]int{}
		srv := serve(mode, func(s ziface.IServer) {
			s.AddRouter(1, &router{f: func(ziface.IRequest) {}})
			s.StartHeartBeatWithOption(time.Second, &ziface.HeartBeatOption{
				MakeMsg:          func(c ziface.IConnection) []byte { return []byte(c.GetConnIdStr()) },
				OnRemoteNotAlive: func(c ziface.IConnection) { dead[c]++; mc.Share("dead", 1); c.Stop() },
				HeartBeatMsgID:   77, Router: &router{f: func(ziface.IRequest) {}}})
		})
		mc.Quiesce()
		base := count(threads())
		var ps []*peer
		var cs []ziface.IConnection
		for _, k := range kinds {
			p := connect(k)
			must(p != nil, "refused")
			ps = append(ps, p)
			cs = append(cs, connOf(srv, p))
		}
		limit := int64(max) * sec
		last := mc.Elapsed()
		mc.Explore(true)
		switch how {
		case "stop":
			cs[0].Stop()
		case "hangup":
			ps[0].hangup()
		case "tick-stop":
			join(func() { mc.Advance(sec + eps) }, func() { cs[0].Stop() })
		case "silent":
			for i := 0; i <= max; i++ {
				ps[1].send(tlv(1, "x"))
				last = mc.Elapsed()
				mc.Advance(sec)
				mc.Quiesce()
			}
		}
		mc.Quiesce()
		mc.Explore(false)
		// hooks, pings and callbacks of a moment ago are done; settle between two ticks
		mc.Advance(eps)
		mc.Quiesce()
		must(ps[0].dropped(), "the first connection did not end")
		n0, n1 := len(ps[0].got()), len(ps[1].frames())
		ps[1].send(tlv(1, "x"))
		mc.Quiesce()
		last = mc.Elapsed()
		for i := 1; i < max; i++ {
			mc.Advance(sec)
			mc.Quiesce()
			must(!ps[1].dropped(), "the second connection was ended although its peer was heard from")
			eq("heartbeats of the second connection after the end of the first", len(ps[1].frames())-n1, i)
		}
		mc.Advance(last + limit + sec - mc.Elapsed() + eps)
		mc.Quiesce()
		must(ps[1].dropped(), "the second connection is still up after %ds of silence; limit %ds, interval 1s", max+1, max)
		mc.Advance(3 * sec)
		mc.Quiesce()
		eq("bytes sent to the first after its end", len(ps[0].got())-n0, 0)
		eq("dead-connection calls for the first", dead[cs[0]], btoi(how == "silent"))
		eq("dead-connection calls for the second", dead[cs[1]], 1)
		if k := count(threads()); k > base {
			mc.Fail("the ended connections left goroutines: %s", threads())
		}
		mc.Outcome("%s", how)
	}
}

// early: ticks come at any moment while the connection is being set up and used;
// far less time passes than the silence limit.
func early(kind string, client bool, act ...string) func() {
	return func() {
		h := &beater{c: beatCfg{kind: kind, client: client, custom: "option", act: "msg", iv: 1000, max: 30}}
		var srv ziface.IServer
		c := h.c
		boot()
		zconf.GlobalObject.HeartbeatMax = c.max
		zconf.GlobalObject.WorkerPoolSize = 1
		var fns []func()
		var k ziface.IClient
		var r *remote
		mc.NoExplore(func() {
			if client {
				r = newRemote(kind)
				k = newClient(kind)
				k.SetOnConnStart(func(cn ziface.IConnection) { h.started++; h.conn = cn; mc.Yield() })
				k.SetOnConnStop(func(ziface.IConnection) { h.stopped++ })
				k.StartHeartBeatWithOption(time.Second, h.option())
			} else {
				srv = serve(kind, func(s ziface.IServer) {
					s.SetOnConnStart(func(cn ziface.IConnection) { h.started++; h.conn = cn; mc.Yield() })
					s.SetOnConnStop(func(ziface.IConnection) { h.stopped++ })
					s.AddRouter(1, &router{f: func(ziface.IRequest) {}})
					s.StartHeartBeatWithOption(time.Second, h.option())
				})
			}
		})
		fns = append(fns, func() {
			if client {
				k.Start()
			} else {
				h.p = dial(kind)
			}
		})
		for _, a := range act {
			switch a {
			case "tick":
				fns = append(fns, func() { mc.Advance(sec) })
			case "say":
				fns = append(fns, func() {
					mc.WaitUntil("conn", func() bool { return h.started > 0 && (r == nil || len(r.peers()) > 0) })
					if client {
						h.p = r.peers()[0]
					}
					h.p.send(tlv(1, "m"))
				})
			}
		}
		join(fns...)
		mc.Quiesce()
		mc.Explore(false)
		if mc.Elapsed() < 25*sec {
			eq("start hooks", h.started, 1)
			eq("dead-connection calls on a new connection", len(h.deaths), 0)
			eq("stop hooks", h.stopped, 0)
		}
		if client {
			h.p = r.peers()[0]
		}
		must(!h.p.dropped(), "the connection was dropped")
		mc.Advance(eps)
		mc.Quiesce()
		n := h.beats()
		mc.Advance(2 * sec)
		mc.Quiesce()
		eq("heartbeats in two more intervals", h.beats()-n, 2)
		_ = srv
		mc.Outcome("%d", n)
	}
}

func init() {
	type side struct {
		kind   string
		client bool
	}
	for _, sd := range []side{{TCP, false}, {WS, false}, {KCP, false}, {TCP, true}, {WS, true}} {
		n := sd.kind
		if sd.client {
			n = "client-" + n
		}
		for _, im := range [][2]int{{1000, 2}, {1000, 5}, {2000, 3}, {3000, 3}, {3000, 2}, {400, 1}, {1500, 4}} {
			for _, cu := range []string{"", "option", "slices", "keep", "func", "bare", "nil", "plain-slices"} {
				if sd.client && (strings.HasSuffix(cu, "slices") || cu == "func") {
					continue
				}
				if im[0] > 1000 && (cu == "bare" || cu == "nil" || cu == "plain-slices") {
					continue
				}
				acts := []string{"msg"}
				if im == [2]int{1000, 2} {
					acts = []string{"msg", "part", "beat", "unknown"}
				}
				if sd.kind == WS {
					acts = acts[:len(acts)-len(acts)/2] // a WebSocket message is a whole frame
					if len(acts) == 2 {
						acts = []string{"msg", "beat"}
					}
				}
				for _, ac := range acts {
					c := beatCfg{kind: sd.kind, client: sd.client, custom: cu, act: ac, iv: int64(im[0]), max: im[1], gaps: 4}
					nm := fmt.Sprintf("C09/%s-i%d-m%d-%s-%s", n, im[0], im[1], cu, ac)
					c5 := c
					c5.gaps = 6
					add(&Scenario{Prop: "C09", Name: nm, Q: data(), Body: patterns(c), Weight: 1, Bounds: fmt.Sprintf("interval %dms, limit %ds, handler %q: all patterns of 4 peer activities (%s) with gaps within, just within, just beyond and far beyond the limit", im[0], im[1], cu, ac)})
					add(&Scenario{Prop: "C09", Name: nm + "-deep", T: data(), Body: patterns(c5), Weight: 1, Bounds: fmt.Sprintf("interval %dms, limit %ds, handler %q: all patterns of 6 peer activities", im[0], im[1], cu)})
				}
			}
		}
		for _, cu := range []string{"", "option"} {
			add(&Scenario{Prop: "C09", Name: "C09/" + n + "-blocked" + cu, Q: data(), Body: patterns(beatCfg{kind: sd.kind, client: sd.client, custom: cu, act: "msg", iv: 1000, max: 3, gaps: 4, block: true}), Weight: 1, Bounds: "the peer does not read: all patterns of 4 activities"})
		}
		add(&Scenario{Prop: "C09", Name: "C09/" + n + "-early", Q: bc(3), T: bc(4), Body: early(sd.kind, sd.client), Weight: 2, Bounds: "ticks at any moment of connection set-up"})
		add(&Scenario{Prop: "C09", Name: "C09/" + n + "-early-say", Q: bc(2), T: bc(3), Body: early(sd.kind, sd.client, "say"), Weight: 2, Bounds: "ticks at any moment of connection set-up and of a message"})
		add(&Scenario{Prop: "C09", Name: "C09/" + n + "-early-tick", Q: b(2), T: b(3), Body: early(sd.kind, sd.client, "tick", "say"), Weight: 2, Bounds: "a tick, a message and connection set-up at once"})
	}
	for _, ks := range [][]string{{TCP, TCP}, {WS, WS}, {KCP, KCP}, {TCP, WS}, {TCP, WS, TCP}} {
		add(&Scenario{Prop: "C09", Name: fmt.Sprintf("C09/several-%v", ks), Q: data(), Body: several(ks, 0), Weight: 1, Bounds: "every subset of the peers talks, every one of them is stopped or none"})
	}
	for _, ks := range [][2]string{{TCP, TCP}, {WS, WS}, {KCP, KCP}, {TCP, WS}} {
		for _, how := range []string{"stop", "hangup", "tick-stop", "silent"} {
			add(&Scenario{Prop: "C09", Name: fmt.Sprintf("C09/apart-%s-%s-%s", ks[0], ks[1], how), Q: b(2), T: b(3), Body: apart(ks, how, 3), Weight: 2, Bounds: "one of two connections ends (" + how + "); the other's checker goes on"})
		}
	}
	_ = znet.NewHeartbeatChecker
}
