package main

import (
	"context"
	"errors"
	"fmt"
	"net/http"
	"strings"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zzmc/mc"
	"github.com/aceld/zinx/zzmc/xhttp"
	net "github.com/aceld/zinx/zzmc/xnet"
	"github.com/aceld/zinx/zzmc/xws"
)

// ---- C26: admission ------------------------------------------------------------

type reqKey struct{}

// shake starts a WebSocket handshake with a name of its own and the given subprotocols.
func shake(name string, fail error, protos ...string) *peer {
	p := &peer{kind: WS, resp: &xws.Response{Fail: fail}}
	seq := mc.Local("wsseq", func() any { return new(int) }).(*int)
	*seq++
	p.resp.RA = &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 50000 + *seq}
	r, _ := http.NewRequest("GET", "http://127.0.0.1:9000/?n="+name, nil)
	if len(protos) > 0 {
		r.Header.Set("Sec-Websocket-Protocol", strings.Join(protos, ", "))
	}
	r.RemoteAddr = p.resp.RA.String()
	r = r.WithContext(context.WithValue(context.Background(), reqKey{}, name))
	must(xhttp.Deliver(port(WS), p.resp, r, nil), "nobody listens")
	return p
}

// served checks that a peer has a live connection of its own which answers.
func served(srv ziface.IServer, p *peer, tag string) {
	must(p.up(), "%s: not admitted", tag)
	must(!p.dropped(), "%s: dropped", tag)
	n := len(p.frames())
	p.send(tlv(1, tag))
	mc.Quiesce()
	mc.Advance(20e6)
	mc.Quiesce()
	f := p.frames()
	must(len(f) == n+1 && f[n].data == "re:"+tag, "%s: the answer is %v", tag, f)
	must(connOf(srv, p) != nil, "%s: answered but not registered", tag)
}

func echoServer(kind string, max int, auth func(*http.Request) error) ziface.IServer {
	boot()
	g := zconf.GlobalObject
	g.MaxConn = max
	g.WorkerPoolSize = 1
	return serve(kind, func(s ziface.IServer) {
		s.AddRouter(1, &router{f: func(req ziface.IRequest) {
			_ = req.GetConnection().SendMsg(2, []byte("re:"+string(req.GetData())))
		}})
		if auth != nil {
			s.SetWebsocketAuth(auth)
		}
	})
}

func pass(sec int) {
	for i := 0; i < sec*4; i++ {
		mc.Advance(250e6)
		mc.Quiesce()
	}
}

// admitSeq: histories of arrivals, departures, accept errors and failing
// handshakes; whoever arrives with room left is served, also one that had to wait.
func admitSeq(kind string, max, depth int) func() {
	return func() {
		srv := echoServer(kind, max, func(r *http.Request) error {
			if strings.Contains(r.URL.RawQuery, "bad") {
				return errors.New("not you")
			}
			return nil
		})
		var live, waiting []*peer
		owed := 0 // seconds of delay the accept errors so far may cost
		arrive := func(tag string, p *peer) {
			mc.Quiesce()
			pass(owed + 3)
			if len(live) < max {
				served(srv, p, tag)
				live = append(live, p)
				return
			}
			if kind == WS {
				must(!p.up() || p.dropped(), "%s: admitted beyond the limit", tag)
				return
			}
			waiting = append(waiting, p)
		}
		ops := []string{"come", "go", "err"}
		if kind == WS {
			ops = []string{"come", "go", "bad", "broken"}
		}
		hist := ""
		for i := 0; i < depth; i++ {
			op := ops[mc.Choose(len(ops))]
			hist += " " + op
			tag := fmt.Sprintf("client %d of%s", i, hist)
			switch op {
			case "come":
				if kind == WS {
					arrive(tag, shake(fmt.Sprint(i), nil))
				} else {
					arrive(tag, dial(kind))
				}
			case "go":
				if len(live) == 0 {
					continue
				}
				live[0].hangup()
				live = live[1:]
				mc.Quiesce()
				pass(owed + 3)
				for len(waiting) > 0 && len(live) < max {
					served(srv, waiting[0], "waiting "+tag)
					live = append(live, waiting[0])
					waiting = waiting[1:]
				}
			case "err":
				l := net.Lookup(under(kind), port(kind))
				must(l != nil, "the listener is gone")
				for k := 0; k < 3; k++ {
					l.Fail(errors.New("too many open files"))
				}
				owed += 3
				mc.Quiesce()
			case "bad", "broken":
				var e error
				n := "bad"
				if op == "broken" {
					e, n = errors.New("bad handshake"), "broken"
				}
				p := shake(n, e)
				mc.Quiesce()
				pass(3)
				must(!p.up(), "%s: a refused client was upgraded", tag)
				if op == "bad" && len(live) < max {
					eq(tag+": status", p.resp.Code, 401)
				}
			}
			for k, p := range live {
				must(!p.dropped(), "%s: client %d lost its connection", tag, k)
			}
			eq("registered after"+hist, srv.GetConnMgr().Len(), len(live))
		}
		mc.Outcome("%d live, %d waiting", len(live), len(waiting))
	}
}

// admitErrs: n accept errors in a row cost at most a second each.
func admitErrs(kind string) func() {
	return func() {
		srv := echoServer(kind, 10, nil)
		n := 1 + mc.Choose(24)
		l := net.Lookup(under(kind), port(kind))
		for k := 0; k < n; k++ {
			l.Fail(errors.New("too many open files"))
		}
		p := dial(kind)
		mc.Quiesce()
		pass(n + 1)
		served(srv, p, fmt.Sprintf("client after %d errors", n))
		// and the delay starts anew
		l = net.Lookup(under(kind), port(kind))
		must(l != nil, "the listener is gone")
		l.Fail(errors.New("again"))
		p2 := dial(kind)
		mc.Quiesce()
		pass(2)
		served(srv, p2, "client after one more error")
		mc.Outcome("%d", n)
	}
}

// handshakes: concurrent WebSocket handshakes do not influence one another.
// Each client is name:protocols, a name with "bad" is refused.
func handshakes(max int, clients ...string) func() {
	return func() {
		srv := echoServer(WS, max, func(r *http.Request) error {
			n := strings.TrimPrefix(r.URL.RawQuery, "n=")
			mc.Yield()
			if strings.Contains(n, "bad") {
				return errors.New("not you")
			}
			*r = *r.WithContext(context.WithValue(r.Context(), reqKey{}, "user "+n))
			return nil
		})
		ps := make([]*peer, len(clients))
		var fns []func()
		for i, c := range clients {
			i := i
			name, protos, _ := strings.Cut(c, ":")
			fns = append(fns, func() {
				if protos == "" {
					ps[i] = shake(name, nil)
				} else {
					ps[i] = shake(name, nil, strings.Split(protos, "+")...)
				}
			})
		}
		join(fns...)
		mc.Quiesce()
		mc.Explore(false)
		pass(1)
		n := 0
		for i, c := range clients {
			name, protos, _ := strings.Cut(c, ":")
			p := ps[i]
			if strings.Contains(name, "bad") {
				must(!p.up(), "client %s was admitted although the authentication refused it", c)
				if max > len(clients) {
					eq("status for "+c, p.resp.Code, 401)
				}
				continue
			}
			if max < len(clients) && !p.up() || p.up() && p.dropped() {
				continue
			}
			n++
			served(srv, p, c)
			cn := connOf(srv, p)
			rc, ok := cn.Context().Value(znet.WsConnectionHttpReqCtxKey{}).(context.Context)
			must(ok, "client %s: the request's context is not in the connection's", c)
			eq("client "+c+": user in the connection's context", rc.Value(reqKey{}), "user "+name)
			if protos == "" {
				eq("client "+c+": subprotocol", p.ws.Subprotocol(), "")
			} else {
				eq("client "+c+": subprotocol", p.ws.Subprotocol(), strings.Split(protos, "+")[0])
			}
			eq("client "+c+": subprotocol seen by the server", cn.GetWsConn().Subprotocol(), p.ws.Subprotocol())
		}
		if max >= len(clients) {
			want := 0
			for _, c := range clients {
				if !strings.Contains(c, "bad") {
					want++
				}
			}
			eq("admitted", n, want)
		} else {
			must(n <= max, "%d admitted with a limit of %d", n, max)
		}
		eq("registered", srv.GetConnMgr().Len(), n)
		mc.Outcome("%d", n)
	}
}

// admitMixed: histories on a server that listens for TCP and WebSocket clients, which
// share the connection limit and the delay after failures.
func admitMixed(max, depth int) func() {
	return func() {
		srv := echoServer("", max, func(r *http.Request) error {
			if strings.Contains(r.URL.RawQuery, "bad") {
				return errors.New("not you")
			}
			return nil
		})
		var live, waiting []*peer
		owed := 0
		hist := ""
		ops := []string{"tcp", "ws", "go", "err", "bad", "broken"}
		for i := 0; i < depth; i++ {
			op := ops[mc.Choose(len(ops))]
			hist += " " + op
			tag := fmt.Sprintf("client %d of%s", i, hist)
			switch op {
			case "tcp", "ws":
				var p *peer
				if op == "ws" {
					p = shake(fmt.Sprint(i), nil)
				} else {
					p = dial(TCP)
				}
				mc.Quiesce()
				pass(owed + 3)
				switch {
				case len(live) < max:
					served(srv, p, tag)
					live = append(live, p)
				case op == "ws":
					must(!p.up() || p.dropped(), "%s: admitted beyond the limit", tag)
				default:
					waiting = append(waiting, p)
				}
			case "go":
				if len(live) == 0 {
					continue
				}
				live[0].hangup()
				live = live[1:]
				mc.Quiesce()
				pass(owed + 3)
				for len(waiting) > 0 && len(live) < max {
					served(srv, waiting[0], "waiting "+tag)
					live = append(live, waiting[0])
					waiting = waiting[1:]
				}
			case "err":
				l := net.Lookup(TCP, port(TCP))
				must(l != nil, "the listener is gone")
				for k := 0; k < 3; k++ {
					l.Fail(errors.New("too many open files"))
				}
				owed += 3
				mc.Quiesce()
			case "bad", "broken":
				var e error
				if op == "broken" {
					e = errors.New("bad handshake")
				}
				p := shake(op, e)
				owed++
				mc.Quiesce()
				must(!p.up(), "%s: a refused client was upgraded", tag)
			}
			for k, p := range live {
				must(!p.dropped(), "%s: client %d lost its connection", tag, k)
			}
			eq("registered after"+hist, srv.GetConnMgr().Len(), len(live))
		}
		mc.Outcome("%d live, %d waiting", len(live), len(waiting))
	}
}

// admitRush: failures of both listeners at once, after a number of earlier ones, and a
// client: it is served within about a second for each failure.
func admitRush(before int, acts ...string) func() {
	return func() {
		srv := echoServer("", 9, func(r *http.Request) error {
			if strings.Contains(r.URL.RawQuery, "bad") {
				return errors.New("not you")
			}
			return nil
		})
		var ps []*peer
		mc.NoExplore(func() {
			for i := 0; i < before; i++ {
				shake("bad", nil)
				mc.Quiesce()
			}
			pass(before)
			if before > 0 {
				// the accept loop has its own failures
				net.Lookup(TCP, port(TCP)).Fail(errors.New("too many open files"))
				mc.Quiesce()
				pass(1)
			}
		})
		var fns []func()
		for _, a := range acts {
			switch a {
			case "tcp":
				fns = append(fns, func() { ps = append(ps, dial(TCP)); mc.Share("peers", int64(len(ps))) })
			case "ws":
				fns = append(fns, func() { ps = append(ps, shake("ann", nil)); mc.Share("peers", int64(len(ps))) })
			case "err":
				fns = append(fns, func() { net.Lookup(TCP, port(TCP)).Fail(errors.New("too many open files")) })
			case "bad":
				fns = append(fns, func() { shake("bad", nil) })
			}
		}
		join(fns...)
		mc.Quiesce()
		mc.Explore(false)
		if len(ps) == 0 {
			ps = append(ps, dial(TCP))
		}
		for _, a := range acts {
			if a == "err" || a == "bad" {
				pass(1)
			}
		}
		mc.Advance(500e6)
		mc.Quiesce()
		for i, p := range ps {
			served(srv, p, fmt.Sprintf("client %d", i))
		}
		mc.Outcome("%d", len(ps))
	}
}

func init() {
	add(&Scenario{Prop: "C26", Name: "C26/mixed-seq-1", Q: data(), Body: admitMixed(1, 4), Weight: 2, Bounds: "every history of 4 TCP and WebSocket arrivals, departures, accept errors and refused or broken handshakes with a limit of 1"})
	add(&Scenario{Prop: "C26", Name: "C26/mixed-seq-2", Q: data(), Body: admitMixed(2, 5), Weight: 3, Bounds: "every history of 5 TCP and WebSocket arrivals, departures, accept errors and refused or broken handshakes with a limit of 2"})
	add(&Scenario{Prop: "C26", Name: "C26/mixed-seq-2-deep", T: data(), Body: admitMixed(2, 6), Weight: 5, Bounds: "every history of 6 such steps with a limit of 2"})
	for _, n := range []int{0, 9} {
		m := func(bd int, acts ...string) {
			add(&Scenario{Prop: "C26", Name: fmt.Sprintf("C26/mixed-rush-%d-%s", n, strings.Join(acts, "-")), Q: b(bd), T: b(bd + 1), Body: admitRush(n, acts...), Weight: 3, Bounds: fmt.Sprintf("at once, after %d failures: %v", n, acts)})
		}
		m(4, "err", "bad", "tcp")
		m(3, "err", "bad", "bad", "tcp")
		m(2, "bad", "tcp", "ws")
		m(4, "err", "bad", "bad")
	}
	for _, k := range []string{TCP, WS, KCP, TLS} {
		for _, m := range []int{1, 2} {
			add(&Scenario{Prop: "C26", Name: fmt.Sprintf("C26/%s-seq-%d", k, m), Q: data(), Body: admitSeq(k, m, 5), Weight: 2, Bounds: fmt.Sprintf("every history of 5 arrivals, departures, accept errors or failing handshakes with a limit of %d", m)})
			add(&Scenario{Prop: "C26", Name: fmt.Sprintf("C26/%s-seq-%d-deep", k, m), T: data(), Body: admitSeq(k, m, 7), Weight: 4, Bounds: fmt.Sprintf("every history of 7 arrivals, departures, accept errors or failing handshakes with a limit of %d", m)})
		}
		if k != WS {
			add(&Scenario{Prop: "C26", Name: "C26/" + k + "-errors", Q: data(), Body: admitErrs(k), Weight: 1, Bounds: "1 to 24 accept errors in a row"})
		}
	}
	a := func(name string, bd, max int, cs ...string) {
		add(&Scenario{Prop: "C26", Name: "C26/ws-" + name, Q: b(bd), T: b(bd + 1), Body: handshakes(max, cs...), Weight: 3, Bounds: fmt.Sprintf("handshakes at once: %v, limit %d", cs, max)})
	}
	a("good-bad", 3, 9, "ann", "bad")
	a("good-good", 3, 9, "ann", "bob")
	a("proto-proto", 3, 9, "ann:a", "bob:b")
	a("proto-plain", 3, 9, "ann:a", "bob")
	a("proto-two", 3, 9, "ann:a+b", "bob:b+a")
	a("proto-bad", 3, 9, "ann:a", "bad:b")
	a("three", 2, 9, "ann:a", "bob:b", "bad:a")
	a("limit", 3, 1, "ann:a", "bob:b")
	a("limit-bad", 3, 1, "ann", "bad")
}
