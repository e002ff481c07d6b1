package main

import (
	"errors"
	"fmt"
	"net/url"
	"strings"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zzmc/mc"
	net "github.com/aceld/zinx/zzmc/xnet"
	"github.com/aceld/zinx/zzmc/xws"
)

// ---- C24: the client ---------------------------------------------------------------

const TLS = "tls"

// remote is the other side of a client: it accepts, and decides the fate of dials.
type remote struct {
	kind string
	fate string // of the next dial: ok, fail, stuck
	tcp  []*net.TCPConn
	done int    // dials answered
	want string // the address the client is to dial
}

func newRemote(kind string) *remote {
	r := &remote{kind: kind, fate: "ok"}
	hook := func(addr string, giveUp func() bool) error {
		if strings.TrimSuffix(addr, "/") != r.want {
			mc.Fail("the client dials %q, its address is %q", addr, r.want)
		}
		f := r.fate
		if f == "stuck" {
			mc.WaitUntil("dial", func() bool { return r.fate != "stuck" || giveUp() })
			f = r.fate
			if f == "stuck" {
				return errors.New("dial given up")
			}
		}
		r.done++
		mc.Share("dials", int64(r.done))
		if f == "fail" {
			return errors.New("connection refused")
		}
		return nil
	}
	r.want = "10.1.2.3:8999"
	if kind == WS {
		r.want = "ws://10.1.2.3:9000"
		xws.Ctl().Hook = hook
		return r
	}
	net.Ctl().Hook = hook
	l, err := net.ListenOn("tcp", "8999")
	must(err == nil, "listen: %v", err)
	mc.Spawn("acceptor", func() {
		for {
			c, err := l.AcceptTCP()
			if err != nil {
				return
			}
			r.tcp = append(r.tcp, c)
			mc.Share("accepted", int64(len(r.tcp)))
		}
	})
	return r
}

// peers are the ends of the connections the client has made so far.
func (r *remote) peers() (ps []*peer) {
	if r.kind == WS {
		for _, c := range xws.Ctl().Peers {
			ps = append(ps, &peer{kind: WS, ws: c, resp: &xws.Response{Peer: c, RA: c.LocalAddr()}})
		}
		return ps
	}
	for _, c := range r.tcp {
		ps = append(ps, &peer{kind: TCP, tcp: c})
	}
	return ps
}

func (r *remote) live() (ps []*peer) {
	for _, p := range r.peers() {
		if !p.dropped() {
			ps = append(ps, p)
		}
	}
	return ps
}

func newClient(kind string, opts ...znet.ClientOption) ziface.IClient {
	switch kind {
	case WS:
		return znet.NewWsClient("10.1.2.3", 9000, opts...)
	case TLS:
		return znet.NewTLSClient("10.1.2.3", 8999, opts...)
	}
	return znet.NewClient("10.1.2.3", 8999, opts...)
}

type cli struct {
	kind             string
	r                *remote
	c                ziface.IClient
	base             int
	started, stopped map[ziface.IConnection]int
	closed           int  // close callbacks run
	calm             bool // nothing stops a connection while its start hook runs
	got              []string
	onStop, onStart  func()
}

func setupClient(kind string, beat bool, conf ...func(g *zconf.Config)) *cli {
	k := &cli{kind: kind, started: map[ziface.IConnection]int{}, stopped: map[ziface.IConnection]int{}}
	boot()
	g := zconf.GlobalObject
	for _, f := range conf {
		f(g)
	}
	mc.NoExplore(func() {
		mc.Quiesce()
		k.base = count(threads())
		k.r = newRemote(kind)
		k.c = newClient(kind)
		k.c.AddRouter(7, &router{f: func(req ziface.IRequest) {
			k.got = append(k.got, string(req.GetData()))
			mc.Share("got", int64(len(k.got)))
		}})
		k.c.SetOnConnStart(func(c ziface.IConnection) {
			k.started[c]++
			mc.Share("cs", int64(len(k.started)))
			c.AddCloseCallback(k, "closed", func() {
				k.closed++
				mc.Share("cc", int64(k.closed))
			})
			mc.Yield()
			if k.onStart != nil {
				k.onStart()
			}
		})
		k.c.SetOnConnStop(func(c ziface.IConnection) {
			k.stopped[c]++
			mc.Share("ce", int64(len(k.stopped)))
			mc.Yield()
			if k.onStop != nil {
				k.onStop()
			}
		})
		if beat {
			k.c.StartHeartBeat(time.Second)
		}
		mc.Quiesce()
	})
	return k
}

// gone: after Stop, nothing of the client is left.
func (k *cli) gone(when string) {
	mc.NoExplore(func() {
		for i := 0; i < 3; i++ {
			mc.Advance(int64(1100 * time.Millisecond))
			mc.Quiesce()
		}
	})
	for i, p := range k.r.peers() {
		must(p.dropped(), "connection %d survived the client's Stop (%s)", i, when)
	}
	k.hooks(0)
	if n := count(threads()); n > k.base {
		mc.Fail("goroutines are left after Stop (%s): %s", when, threads())
	}
}

func (k *cli) hooks(live int) {
	for c, n := range k.started {
		must(n == 1, "the start hook ran %d times for one connection", n)
		_ = c
	}
	for c, n := range k.stopped {
		must(n == 1, "the stop hook ran %d times for one connection", n)
		must(k.started[c] == 1, "the stop hook ran for a connection without its start hook")
	}
	eq("connections started and not stopped, by their hooks", len(k.started)-len(k.stopped), live)
	if k.calm {
		eq("close callbacks run", k.closed, len(k.stopped))
	}
}

// readErr reads the client's error channel; "" if it would wait forever.
func (k *cli) readErr() string {
	out := ""
	ch := k.c.GetErrChan()
	done := false
	mc.Spawn("errreader", func() {
		err, ok := ch.Recv2()
		switch {
		case !ok:
			out = "closed"
		case err == nil:
			out = "nil"
		default:
			out = "error"
		}
		done = true
		mc.Share("errread", 1)
	})
	mc.NoExplore(func() { mc.Quiesce() })
	if !done {
		return ""
	}
	return out
}

// works: one connection, messages both ways, each once, and heartbeats.
func (k *cli) works(beat bool) {
	ps := k.r.live()
	eq("live connections of a started client", len(ps), 1)
	k.hooks(1)
	p := ps[0]
	if k.kind != WS {
		eq("the client speaks TLS", p.tcp.In.TLS, k.kind == TLS)
	}
	cn := k.c.Conn()
	must(cn != nil && (!beat || cn.IsAlive()), "a connected client has no live connection object")
	before := len(p.frames())
	k.got = nil
	mc.NoExplore(func() {
		must(cn.SendMsg(5, []byte("up")) == nil, "a connected client cannot send")
		p.send(tlv(7, "down\x00\x00\x00\x00data"))
		mc.Quiesce()
	})
	fr := p.frames()[before:]
	eq("messages to the server", fmt.Sprint(fr), fmt.Sprint([]frame{{5, "up"}}))
	eq("messages from the server", strings.Join(k.got, ","), "down\x00\x00\x00\x00data")
	if beat {
		before = len(p.frames())
		mc.NoExplore(func() {
			for i := 0; i < 2; i++ {
				p.send(tlv(7, "alive"))
				mc.Advance(int64(time.Second))
				mc.Quiesce()
			}
		})
		n := 0
		for _, f := range p.frames()[before:] {
			if f.id == ziface.HeartBeatDefaultMsgID {
				n++
			}
		}
		eq("heartbeats sent in two intervals", n, 2)
	}
}

func (k *cli) stop() { k.c.Stop() }

// cliScript enumerates every script of the given length.
func cliScript(kind string, beat bool, depth int, conf ...func(g *zconf.Config)) func() {
	return cliScripts(kind, beat, depth, 1, conf...)
}

// cliScripts repeats the script, as far as its steps are possible.
func cliScripts(kind string, beat bool, length, times int, conf ...func(g *zconf.Config)) func() {
	return func() {
		depth := length * times
		k := setupClient(kind, beat, conf...)
		k.calm = true
		mc.Explore(false)
		state := "new" // new, up, failed, down, stopped
		first, unread := true, false
		var script, word []string
		for i := 0; i < depth; i++ {
			var ops []string
			switch state {
			case "up":
				ops = []string{"stop", "hangup", "ok", "unread"}
			case "stopped":
				ops = []string{"ok", "fail", "stop", "start", "unread"}
			default:
				ops = []string{"ok", "fail", "stop", "unread"}
			}
			if kind == WS {
				ops = append(ops, "url")
			}
			var op string
			if i < length {
				mc.Explore(true)
				op = ops[mc.Choose(len(ops))]
				mc.Explore(false)
				word = append(word, op)
			} else {
				op = word[i%length]
				possible := false
				for _, o := range ops {
					possible = possible || o == op
				}
				if !possible {
					continue
				}
			}
			script = append(script, op)
			switch op {
			case "ok", "fail", "start", "unread": // unread: a failing dial whose error nobody reads
				k.r.fate = op
				if op == "unread" {
					k.r.fate = "fail"
				}
				if state == "stopped" {
					unread = false
				}
				if first || op == "start" {
					k.c.Start()
				} else {
					k.c.Restart()
				}
				first = false
				mc.Quiesce()
				if op != "fail" && op != "unread" {
					state = "up"
					k.works(beat)
				} else {
					state = "failed"
					eq("connections after a failed dial", len(k.r.live()), 0)
					if op == "unread" {
						unread = true
						break
					}
					eq("reading the error channel after a failed dial", k.readErr(), "error")
				}
			case "url":
				u := &url.URL{Scheme: "ws", Host: "game.example:81", Path: "/room", RawQuery: fmt.Sprint("token=", i)}
				k.c.SetUrl(u)
				k.r.want = fmt.Sprint("ws://game.example:81/room?token=", i)
			case "stop":
				k.stop()
				mc.Quiesce()
				k.gone(strings.Join(script, ","))
				if state != "new" {
					got := k.readErr()
					for i := 0; i < depth && unread && got == "error"; i++ {
						got = k.readErr()
					}
					eq("reading the error channel after Stop", got, "closed")
					state = "stopped"
				}
			case "hangup":
				k.r.live()[0].hangup()
				mc.Quiesce()
				eq("connections after the server hung up", len(k.r.live()), 0)
				k.hooks(0)
				state = "down"
			}
		}
		if !first {
			k.stop()
			mc.Quiesce()
			k.gone(strings.Join(script, ",") + " and Stop")
		}
		mc.Outcome("%s", strings.Join(script, ","))
	}
}

type cliCfg struct {
	fate string
	beat bool
	pre  bool // connected and settled before
	acts []string
	// what the client does in its hooks
	inStart, inStop string
	after           string // what must work afterwards: "", "restart"
}

func clientRace(kind string, c cliCfg) func() {
	return func() {
		k := setupClient(kind, c.beat)
		if c.fate != "" {
			k.r.fate = c.fate
		}
		if c.inStart == "stop" {
			k.onStart = k.stop
		}
		again := false
		switch c.inStop {
		case "stop":
			k.onStop = k.stop
		case "restart":
			k.onStop = func() {
				if !again {
					again = true
					k.c.Restart()
				}
			}
		}
		if c.pre {
			mc.NoExplore(func() {
				k.c.Start()
				mc.Quiesce()
			})
			k.works(false)
		} else {
			k.c.Start()
		}
		var fns []func()
		errs := 0
		for _, a := range c.acts {
			switch a {
			case "stop":
				fns = append(fns, k.stop)
			case "hangup":
				fns = append(fns, func() {
					mc.WaitUntil("accepted", func() bool { return len(k.r.peers()) > 0 })
					k.r.peers()[0].hangup()
				})
			case "errread":
				ch := k.c.GetErrChan()
				fns = append(fns, func() {
					err, ok := ch.Recv2()
					must(ok == (err != nil), "the error channel delivered nil")
					if ok {
						errs++
					}
				})
			case "send":
				fns = append(fns, func() {
					if cn := k.c.Conn(); cn != nil {
						_ = cn.SendMsg(5, []byte("x"))
						_ = cn.SendBuffMsg(6, []byte("y"))
					}
				})
			case "msg":
				fns = append(fns, func() {
					mc.WaitUntil("accepted", func() bool { return len(k.r.peers()) > 0 })
					k.r.peers()[0].send(tlv(7, "m"))
				})
			case "tick":
				fns = append(fns, func() { mc.Advance(int64(time.Second)) })
			case "unstick":
				fns = append(fns, func() { k.r.fate = "ok"; mc.Share("fate", 1) })
			case "unstick-fail":
				fns = append(fns, func() { k.r.fate = "fail"; mc.Share("fate", 2) })
			default:
				panic(a)
			}
		}
		join(fns...)
		if k.r.fate == "stuck" {
			k.r.fate = "ok"
			mc.Share("fate", 1)
		}
		mc.Quiesce()
		mc.Explore(false)
		stopped := strings.Contains(strings.Join(c.acts, ","), "stop") || c.inStart == "stop"
		if c.inStop == "restart" {
			if len(k.stopped) == 0 {
				mc.Fail("the stop hook did not run")
			}
			k.works(c.beat)
			k.stop()
			mc.Quiesce()
			stopped = true
		}
		if !stopped {
			if c.fate == "fail" || c.fate == "stuck" && k.r.fate == "fail" {
				if errs == 0 {
					eq("reading the error channel after a failed dial", k.readErr(), "error")
				}
			}
			k.stop()
			mc.Quiesce()
		}
		k.gone(strings.Join(c.acts, ","))
		n := len(k.started)
		k.onStart, k.onStop = nil, nil
		// works as new
		k.r.fate = "ok"
		k.c.Restart()
		mc.Quiesce()
		k.works(c.beat)
		k.stop()
		mc.Quiesce()
		k.gone("after a restart")
		mc.Outcome("%d started, %d errors", n, errs)
	}
}

// cliAddr: whatever address and port a client is given, that is what it dials.
func cliAddr(kind string) func() {
	return func() {
		boot()
		ip := []string{"10.1.2.3", "0.0.0.0", "2001:db8::7", "::1"}[mc.Choose(4)]
		pt := []int{8999, 1, 65535}[mc.Choose(3)]
		again := mc.Choose(2) == 1
		mc.Explore(false)
		r := newRemote(kind)
		r.fate = "fail"
		r.want = net.JoinHostPort(net.ParseIP(ip).String(), fmt.Sprint(pt))
		var c ziface.IClient
		switch kind {
		case WS:
			r.want = "ws://" + net.JoinHostPort(ip, fmt.Sprint(pt))
			c = znet.NewWsClient(ip, pt)
		case TLS:
			r.want = net.JoinHostPort(ip, fmt.Sprint(pt))
			c = znet.NewTLSClient(ip, pt)
		default:
			c = znet.NewClient(ip, pt)
		}
		n := 1
		c.Start()
		mc.Quiesce()
		if again {
			c.Restart()
			mc.Quiesce()
			n++
		}
		eq("dials", r.done, n)
		c.Stop()
		mc.Quiesce()
		mc.Outcome("%s %d", ip, pt)
	}
}

func init() {
	for _, k := range []string{TCP, WS, TLS} {
		add(&Scenario{Prop: "C24", Name: "C24/" + k + "-address", Q: data(), Body: cliAddr(k), Weight: 1, Bounds: "4 IPv4 and IPv6 addresses x 3 ports x started once or restarted"})
		for _, beat := range []bool{false, true} {
			n := ""
			if beat {
				n = "-beat"
			}
			add(&Scenario{Prop: "C24", Name: "C24/" + k + "-script" + n, Q: data(), Body: cliScript(k, beat, 6), Weight: 3, Bounds: "all scripts of 6 of {start with a working or failing dial (its error read or not), stop, hang-up} that are meaningful"})
			add(&Scenario{Prop: "C24", Name: "C24/" + k + "-script-many" + n, Q: data(), Body: cliScripts(k, beat, 3, 12), Weight: 3, Bounds: "all scripts of 3 steps repeated 12 times"})
			add(&Scenario{Prop: "C24", Name: "C24/" + k + "-script-deep" + n, T: data(), Body: cliScript(k, beat, 8), Weight: 3, Bounds: "all scripts of 8 of {start with a working or failing dial (its error read or not), stop, hang-up} that are meaningful"})
		}
		for _, mode := range []string{zconf.WorkerModeBind, zconf.WorkerModeDynamicBind} {
			for _, w := range []uint32{0, 1, 2} {
				add(&Scenario{Prop: "C24", Name: fmt.Sprintf("C24/%s-script-%s%d", k, mode, w), Q: data(), Body: cliScript(k, false, 4, func(g *zconf.Config) {
					g.WorkerMode, g.MaxConn, g.WorkerPoolSize = mode, 2, w
				}), Bounds: "the configuration a server of the same process would have: " + mode + " mode; all scripts of 4"})
			}
		}
		a := func(name string, bd int, c cliCfg) {
			if k == TLS {
				bd--
			}
			add(&Scenario{Prop: "C24", Name: "C24/" + k + "-" + name, Q: b(bd + 1), T: b(bd + 2), Body: clientRace(k, c), Weight: 3,
				Bounds: fmt.Sprintf("dial %s, connected before: %v, at once: %v", c.fate, c.pre, c.acts)})
		}
		a("start-stop", 3, cliCfg{fate: "ok", acts: []string{"stop"}})
		a("start-stop-beat", 2, cliCfg{fate: "ok", beat: true, acts: []string{"stop", "tick"}})
		a("start-stop-stop", 2, cliCfg{fate: "ok", acts: []string{"stop", "stop"}})
		a("start-hangup-stop", 2, cliCfg{fate: "ok", acts: []string{"hangup", "stop"}})
		a("start-msg-stop", 2, cliCfg{fate: "ok", acts: []string{"msg", "stop"}})
		a("start-errread-stop", 3, cliCfg{fate: "ok", acts: []string{"errread", "stop"}})
		a("fail", 3, cliCfg{fate: "fail"})
		a("fail-stop", 3, cliCfg{fate: "fail", acts: []string{"stop"}})
		a("fail-stop-stop", 3, cliCfg{fate: "fail", acts: []string{"stop", "stop"}})
		a("fail-errread", 3, cliCfg{fate: "fail", acts: []string{"errread"}})
		a("fail-errread-stop", 3, cliCfg{fate: "fail", acts: []string{"errread", "stop"}})
		a("stuck-stop", 3, cliCfg{fate: "stuck", acts: []string{"stop"}})
		a("stuck-stop-ok", 3, cliCfg{fate: "stuck", acts: []string{"stop", "unstick"}})
		a("stuck-stop-fail", 3, cliCfg{fate: "stuck", acts: []string{"stop", "unstick-fail"}})
		a("up-stop", 3, cliCfg{pre: true, acts: []string{"stop"}})
		a("up-stop-stop", 3, cliCfg{pre: true, acts: []string{"stop", "stop"}})
		a("up-stop-hangup", 3, cliCfg{pre: true, acts: []string{"stop", "hangup"}})
		a("up-stop-send", 2, cliCfg{pre: true, acts: []string{"stop", "send"}})
		a("up-stop-msg", 3, cliCfg{pre: true, acts: []string{"stop", "msg"}})
		a("up-beat-stop", 2, cliCfg{pre: true, beat: true, acts: []string{"stop", "tick"}})
		a("up-beat-hangup-stop", 2, cliCfg{pre: true, beat: true, acts: []string{"stop", "hangup", "tick"}})
		a("up-hangup-restart", 2, cliCfg{pre: true, inStop: "restart", acts: []string{"hangup"}})
		a("up-hangup-restart-beat", 2, cliCfg{pre: true, beat: true, inStop: "restart", acts: []string{"hangup", "tick"}})
		a("stop-in-start-hook", 3, cliCfg{fate: "ok", inStart: "stop"})
		a("stop-in-stop-hook", 3, cliCfg{pre: true, inStop: "stop", acts: []string{"hangup"}})
		a("stop-in-stop-hook2", 3, cliCfg{pre: true, inStop: "stop", acts: []string{"stop"}})
	}
}
