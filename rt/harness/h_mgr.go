package main

import (
	"fmt"
	"sort"
	"strconv"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zzmc/mc"
	net "github.com/aceld/zinx/zzmc/xnet"
)

// ---- C08: the connection manager -------------------------------------------------

// remote is the address under which the server knows the peer.
func (p *peer) remote() string {
	if p.kind == WS {
		return p.resp.RA.String()
	}
	return p.tcp.LocalAddr().String()
}

// connOf finds the peer's connection in the manager by its address.
func connOf(srv ziface.IServer, p *peer) ziface.IConnection {
	var out ziface.IConnection
	for _, id := range srv.GetConnMgr().GetAllConnID() {
		if c, err := srv.GetConnMgr().Get(id); err == nil && c.RemoteAddrString() == p.remote() {
			out = c
		}
	}
	return out
}

// mine is connOf without branching; the connection must be registered.
func mine(srv ziface.IServer, p *peer) (c ziface.IConnection) {
	mc.NoExplore(func() { c = connOf(srv, p) })
	must(c != nil, "the connection is not registered")
	return c
}

// mirror checks that every view of the manager shows exactly the connections want.
func mirror(m ziface.IConnManager, want []ziface.IConnection, gone []ziface.IConnection) {
	// looking through the connections changes nothing, whatever the callbacks return
	no := fmt.Errorf("no")
	_ = m.Range(func(id uint64, c ziface.IConnection, a interface{}) error { return no }, nil)
	_ = m.Range2(func(id string, c ziface.IConnection, a interface{}) error { return no }, nil)
	mc.Quiesce()
	var ids []uint64
	var strs []string
	for _, c := range want {
		ids = append(ids, c.GetConnID())
		strs = append(strs, strconv.FormatUint(c.GetConnID(), 10))
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	sort.Strings(strs)
	eq("Len", m.Len(), len(want))
	g := m.GetAllConnID()
	sort.Slice(g, func(i, j int) bool { return g[i] < g[j] })
	eq("GetAllConnID", g, ids)
	gs := m.GetAllConnIdStr()
	sort.Strings(gs)
	eq("GetAllConnIdStr", gs, strs)
	for _, c := range want {
		x, err := m.Get(c.GetConnID())
		must(err == nil && x == c, "Get(%d) does not find the connection", c.GetConnID())
		x, err = m.Get2(strconv.FormatUint(c.GetConnID(), 10))
		must(err == nil && x == c, "Get2(%d) does not find the connection", c.GetConnID())
	}
	for _, c := range gone {
		_, err := m.Get(c.GetConnID())
		must(err != nil, "Get(%d) finds a connection that is gone", c.GetConnID())
		_, err = m.Get2(strconv.FormatUint(c.GetConnID(), 10))
		must(err != nil, "Get2(%d) finds a connection that is gone", c.GetConnID())
	}
	seen := map[uint64]int{}
	_ = m.Range(func(id uint64, c ziface.IConnection, a interface{}) error {
		must(a == "arg", "Range lost its argument")
		must(c.GetConnID() == id, "Range pairs id %d with connection %d", id, c.GetConnID())
		seen[id]++
		return nil
	}, "arg")
	eq("connections visited by Range", len(seen), len(want))
	seen2 := map[string]int{}
	_ = m.Range2(func(id string, c ziface.IConnection, a interface{}) error {
		must(a == "arg", "Range2 lost its argument")
		must(strconv.FormatUint(c.GetConnID(), 10) == id, "Range2 pairs id %s with connection %d", id, c.GetConnID())
		seen2[id]++
		return nil
	}, "arg")
	eq("connections visited by Range2", len(seen2), len(want))
	for _, c := range want {
		eq("visits of Range", seen[c.GetConnID()], 1)
		eq("visits of Range2", seen2[strconv.FormatUint(c.GetConnID(), 10)], 1)
	}
}

// fake is a connection that exists only for the manager.
type fake struct {
	ziface.IConnection
	id    uint64
	mgr   ziface.IConnManager
	stops int
}

func (f *fake) GetConnID() uint64    { return f.id }
func (f *fake) GetConnIdStr() string { return strconv.FormatUint(f.id, 10) }
func (f *fake) Stop()                { f.stops++; f.mgr.Remove(f) }

// mgrSeq: all sequences of manager operations on a pool of ids.
func mgrSeq(depth int) func() {
	return func() {
		boot()
		srv := build(TCP, nil)
		m := srv.GetConnMgr()
		ids := []uint64{1, 2, 10, 1<<64 - 1}
		var cs []*fake
		for _, id := range ids {
			cs = append(cs, &fake{id: id, mgr: m})
		}
		in := map[int]bool{}
		check := func() {
			var want, gone []ziface.IConnection
			for i, c := range cs {
				if in[i] {
					want = append(want, c)
				} else {
					gone = append(gone, c)
				}
			}
			mirror(m, want, gone)
		}
		for s := 0; s < depth; s++ {
			op := mc.Choose(2*len(cs) + 1)
			switch {
			case op < len(cs):
				m.Add(cs[op])
				in[op] = true
			case op < 2*len(cs):
				m.Remove(cs[op-len(cs)])
				delete(in, op-len(cs))
			default:
				before := make([]int, len(cs))
				for i, c := range cs {
					before[i] = c.stops
				}
				m.ClearConn()
				for i, c := range cs {
					n := 0
					if in[i] {
						n = 1
					}
					eq(fmt.Sprintf("stops of connection %d by ClearConn", c.id), c.stops-before[i], n)
				}
				in = map[int]bool{}
			}
			check()
		}
		mc.Outcome("%d", len(in))
	}
}

type client struct {
	p       *peer
	conn    ziface.IConnection
	waiting bool // over the limit
	gone    bool
}

// connHist: all histories of arrivals and departures on a live server.
func connHist(kind string, max, depth int) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		g.MaxConn = max
		started, stopped := map[uint64]int{}, map[uint64]int{}
		srv := serve(kind, func(s ziface.IServer) {
			s.SetOnConnStart(func(c ziface.IConnection) {
				started[c.GetConnID()]++
				must(started[c.GetConnID()] == 1, "connection id %d was used twice", c.GetConnID())
				must(s.GetConnMgr().Len() <= max, "%d connections registered, the limit is %d", s.GetConnMgr().Len(), max)
			})
			s.SetOnConnStop(func(c ziface.IConnection) { stopped[c.GetConnID()]++ })
		})
		mc.Explore(false)
		var cl []*client
		settle := func() {
			for i := 0; i < 2; i++ {
				mc.Quiesce()
				mc.Advance(int64(1100 * time.Millisecond))
			}
			mc.Quiesce()
			var want, gone []ziface.IConnection
			live := 0
			for _, c := range cl {
				if !c.gone && !c.waiting {
					live++
				}
			}
			for _, c := range cl { // the waiting get in, in order, when there is room
				if c.waiting && !c.gone && live < max {
					c.waiting = false
					live++
				}
			}
			for _, c := range cl {
				if c.gone {
					if c.conn != nil {
						gone = append(gone, c.conn)
						must(c.p.dropped(), "the socket of a departed connection is still open")
					}
					continue
				}
				if c.waiting {
					must(connOf(srv, c.p) == nil, "a connection over the limit was registered")
					continue
				}
				if c.conn == nil {
					c.conn = connOf(srv, c.p)
					must(c.conn != nil, "a connection below the limit of %d is not registered", max)
				}
				must(!c.p.dropped(), "a live connection was closed")
				want = append(want, c.conn)
			}
			mirror(srv.GetConnMgr(), want, gone)
			eq("live connections", len(started)-len(stopped), len(want))
		}
		for s := 0; s < depth; s++ {
			op := mc.Choose(2 + 2*len(cl))
			switch {
			case op == 0:
				over := 0
				for _, c := range cl {
					if !c.gone && !c.waiting {
						over++
					}
				}
				p := dial(kind)
				mc.Quiesce()
				must(p != nil, "nobody listens")
				c := &client{p: p, waiting: over >= max}
				if kind == WS && c.waiting {
					must(!p.up(), "a WebSocket connection over the limit was accepted")
					c.gone = true
				}
				p.up()
				cl = append(cl, c)
			case op == 1:
				srv.GetConnMgr().ClearConn()
				for _, c := range cl {
					if !c.waiting {
						c.gone = true
					}
				}
			case op < 2+len(cl):
				c := cl[op-2]
				if c.gone || c.waiting {
					mc.Outcome("skip")
					return
				}
				c.p.hangup()
				c.gone = true
			default:
				c := cl[op-2-len(cl)]
				if c.gone || c.waiting {
					mc.Outcome("skip")
					return
				}
				c.conn.Stop()
				c.gone = true
			}
			settle()
		}
		mc.Outcome("%d/%d", len(started), len(stopped))
	}
}

// arrivals: connections come, go and are looked at concurrently.
func arrivals(kind string, max int, pre []string, acts ...string) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		g.MaxConn = max
		g.WorkerPoolSize = 1
		started, stopped := map[uint64]int{}, map[uint64]int{}
		over := func(m ziface.IConnManager) {
			if n := m.Len(); n > max {
				mc.Fail("%d connections registered, the limit is %d", n, max)
			}
		}
		srv := serve(kind, func(s ziface.IServer) {
			s.SetOnConnStart(func(c ziface.IConnection) {
				started[c.GetConnID()]++
				mc.Share("started", int64(c.GetConnID()))
				must(started[c.GetConnID()] == 1, "connection id %d was used twice", c.GetConnID())
				over(s.GetConnMgr())
			})
			s.SetOnConnStop(func(c ziface.IConnection) {
				stopped[c.GetConnID()]++
				mc.Share("stopped", int64(c.GetConnID()))
			})
		})
		m := srv.GetConnMgr()
		var ps []*peer
		var first ziface.IConnection
		for _, k := range pre {
			p := connect(k)
			must(p != nil && p.up(), "refused")
			ps = append(ps, p)
			if first == nil {
				first = connOf(srv, p)
			}
		}
		var fns []func()
		for _, a := range acts {
			switch a {
			case TCP, WS, KCP:
				a := a
				fns = append(fns, func() {
					if p := dial(a); p != nil {
						ps = append(ps, p)
						mc.Share("peers", int64(len(ps)))
					}
				})
			case "hangup":
				p := ps[0]
				fns = append(fns, p.hangup)
			case "stop":
				fns = append(fns, first.Stop)
			case "clear":
				fns = append(fns, m.ClearConn)
			case "look":
				fns = append(fns, func() {
					over(m)
					for _, id := range m.GetAllConnID() {
						if c, err := m.Get(id); err == nil {
							must(c.GetConnID() == id, "Get(%d) returns connection %d", id, c.GetConnID())
						}
					}
					must(len(m.GetAllConnIdStr()) <= len(pre)+len(acts), "too many ids listed")
				})
			case "range":
				fns = append(fns, func() {
					seen := map[uint64]bool{}
					_ = m.Range(func(id uint64, c ziface.IConnection, _ interface{}) error {
						must(!seen[id] && c.GetConnID() == id, "Range shows connection %d twice or under a wrong id", id)
						seen[id] = true
						return nil
					}, nil)
				})
			}
		}
		join(fns...)
		mc.Quiesce()
		over(m)
		mc.Explore(false)
		for i := 0; i < 3; i++ {
			mc.Advance(int64(1100 * time.Millisecond))
			mc.Quiesce()
			over(m)
		}
		var want, gone []ziface.IConnection
		open := 0
		for _, p := range ps {
			if p.up() && !p.dropped() {
				open++
			}
			if c := connOf(srv, p); c != nil {
				must(!p.dropped() && c.Context().Err() == nil, "a connection that ended is still registered")
				want = append(want, c)
			}
		}
		if first != nil && first.Context().Err() != nil {
			gone = append(gone, first)
		}
		mirror(m, want, gone)
		eq("live connections by their hooks", len(started)-len(stopped), len(want))
		must(len(want) <= max, "%d live connections, the limit is %d", len(want), max)
		// those beyond the limit may wait unaccepted, but nobody waits while there is room
		if len(want) < max {
			eq("open sockets", open, len(want))
		}
		mc.Outcome("%d live of %d", len(want), len(ps))
	}
}

func init() {
	add(&Scenario{Prop: "C08", Name: "C08/seq", Q: data(), Body: mgrSeq(4), Weight: 2, Bounds: "all sequences of 4 Add/Remove/ClearConn operations on 4 ids"})
	for _, k := range []string{TCP, WS, KCP} {
		add(&Scenario{Prop: "C08", Name: "C08/" + k + "-hist", Q: data(), T: data(), Body: connHist(k, 2, 5), Weight: 3, Bounds: "all histories of 5 arrivals, hang-ups, stops and clears with a limit of 2"})
		add(&Scenario{Prop: "C08", Name: "C08/" + k + "-hist-deep", T: data(), Body: connHist(k, 2, 6), Weight: 3, Bounds: "all histories of 6 arrivals, hang-ups, stops and clears with a limit of 2"})
		a := func(name string, max int, pre []string, acts ...string) {
			add(&Scenario{Prop: "C08", Name: "C08/" + k + "-" + name, Q: b(3), T: b(4), Body: arrivals(k, max, pre, acts...), Weight: 4, Bounds: fmt.Sprintf("limit %d, %d connections before, %v at once", max, len(pre), acts)})
		}
		a2 := func(name string, max int, pre []string, acts ...string) {
			add(&Scenario{Prop: "C08", Name: "C08/" + k + "-" + name, Q: b(2), T: b(3), Body: arrivals(k, max, pre, acts...), Weight: 4, Bounds: fmt.Sprintf("limit %d, %d connections before, %v at once", max, len(pre), acts)})
		}
		a("two-full", 1, nil, k, k)
		a("two-last", 2, []string{k}, k, k)
		a("swap", 1, []string{k}, k, "hangup")
		a("swap-look", 2, []string{k}, k, "hangup", "look")
		a("stop-range", 2, []string{k, k}, "stop", "range")
		a2("clear", 3, []string{k, k}, k, "clear")
		a2("clear-hangup", 3, []string{k, k}, "hangup", "clear", "look")
		a("three", 5, nil, k, k, k)
	}
	mix := func(name string, max int, pre []string, acts ...string) {
		add(&Scenario{Prop: "C08", Name: "C08/mixed-" + name, Q: b(3), T: b(4), Body: arrivals("mixed", max, pre, acts...), Weight: 4, Bounds: fmt.Sprintf("TCP and WebSocket, limit %d, %d connections before, %v at once", max, len(pre), acts)})
	}
	mix("last", 1, nil, TCP, WS)
	mix("last2", 2, []string{TCP}, TCP, WS)
	mix("swap", 1, []string{TCP}, TCP, WS, "hangup")
	mix("clear", 2, []string{WS}, TCP, WS, "clear")
	mix("ids", 5, nil, TCP, WS, WS)
	_ = net.Lookup
}
