package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/aceld/zinx/zasync_op"
	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zzmc/mc"
)

// Scenarios of realistic size: many connections, messages, routers, operations.
// They run under one schedule per choice of parameters; what the small scenarios
// explore exhaustively is here seen to hold beyond any internal limit.

var manyModes = []string{zconf.WorkerModeHash, zconf.WorkerModeBind, zconf.WorkerModeDynamicBind}

// manyServer starts a server for up to 100 connections; mode and pool are choices.
func manyServer(kind string, conns int, setup func(ziface.IServer)) (ziface.IServer, []*peer, string) {
	boot()
	g := zconf.GlobalObject
	mode := mc.Choose(len(manyModes))
	pool := []int{1, 3, 10, 64}[mc.Choose(4)]
	if mode == 0 && mc.Choose(2) == 1 {
		pool = 0
	}
	mc.Explore(false)
	g.WorkerMode = manyModes[mode]
	g.WorkerPoolSize = uint32(pool)
	g.MaxWorkerTaskLen = 64
	g.MaxMsgChanLen = 512
	g.MaxConn = 100
	g.IOReadBuffSize = 512
	srv := serve(kind, setup)
	var ps []*peer
	for i := 0; i < conns; i++ {
		p := connect(kind)
		must(p != nil, "connection %d was refused", i)
		ps = append(ps, p)
	}
	return srv, ps, fmt.Sprintf("%s with %d workers", g.WorkerMode, pool)
}

func flush() {
	mc.Quiesce()
	mc.Advance(50e6)
	mc.Quiesce()
}

// manyMessages (C03): n connections, m messages each, in segments of a chosen size.
func manyMessages(kind string, n, m int) func() {
	return func() {
		d := newDisp()
		d.step = false
		cut := 1 << 20
		if kind != WS {
			cut = []int{1 << 20, 1000, 511, 13}[mc.Choose(4)]
		}
		srv, ps, what := manyServer(kind, n, func(s ziface.IServer) {
			for id := uint32(0); id < 7; id++ {
				s.AddRouter(id, &router{f: d.handle})
			}
		})
		if strings.HasSuffix(what, " 0 workers") { // handlers run beside each other
			mc.Outcome("%s", what)
			return
		}
		want := map[string][]string{}
		var fns []func()
		for i, p := range ps {
			p := p
			var all []byte
			var parts [][]byte
			for k := 0; k < m; k++ {
				data := fmt.Sprintf("c%dm%d", i, k) + strings.Repeat("x", k%5*k)
				f := tlv(uint32(k%7), data)
				want[p.remote()] = append(want[p.remote()], fmt.Sprintf("%d:%s", k%7, data))
				parts = append(parts, f)
				all = append(all, f...)
			}
			if kind != WS {
				parts = nil
				for len(all) > 0 {
					c := cut
					if c > len(all) {
						c = len(all)
					}
					parts = append(parts, all[:c])
					all = all[c:]
				}
			}
			fns = append(fns, func() {
				for _, x := range parts {
					p.send(x)
				}
			})
		}
		join(fns...)
		mc.Quiesce()
		for _, p := range ps {
			c := mine(srv, p)
			eq(fmt.Sprintf("messages handled for connection %d, %s", c.GetConnID(), what), d.seq[c.GetConnID()], want[p.remote()])
		}
		mc.Outcome("%s", what)
	}
}

// manyBound (C04): many connections come and go; every other one is busy.
func manyBound(kind string, n int) func() {
	return func() {
		busy := map[uint64]bool{}
		ran := map[uint64]int{}
		srv, ps, what := manyServer(kind, n, func(s ziface.IServer) {
			s.AddRouter(1, &router{f: func(r ziface.IRequest) { ran[r.GetConnection().GetConnID()]++ }})
			s.AddRouter(2, &router{f: func(r ziface.IRequest) {
				id := r.GetConnection().GetConnID()
				busy[id] = true
				mc.WaitUntil("busy", func() bool { return !busy[id] })
			}})
		})
		if strings.HasPrefix(what, zconf.WorkerModeHash) {
			mc.Outcome("%s", what)
			return
		}
		for round := 0; round < 3; round++ {
			for i, p := range ps {
				if i%2 == 0 {
					p.send(tlv(2, "busy"))
				}
			}
			mc.Quiesce()
			used := map[uint32]uint64{}
			for i, p := range ps {
				c := mine(srv, p)
				o, taken := used[c.GetWorkerID()]
				must(!taken, "connections %d and %d have the same worker %d: %s", o, c.GetConnID(), c.GetWorkerID(), what)
				used[c.GetWorkerID()] = c.GetConnID()
				if i%2 == 1 {
					p.send(tlv(1, "x"))
				}
			}
			mc.Quiesce()
			for i, p := range ps {
				if id := mine(srv, p).GetConnID(); i%2 == 1 {
					eq(fmt.Sprintf("messages of connection %d handled beside busy ones, %s", id, what), ran[id], 1)
				} else {
					must(busy[id], "the message of connection %d has not reached its handler: %s", id, what)
				}
			}
			for id := range busy {
				busy[id] = false
			}
			mc.Quiesce()
			// a different part of them leaves each time and others come
			for i, p := range ps {
				if i%3 == round {
					if i%2 == 0 {
						p.hangup()
					} else {
						mine(srv, p).Stop()
					}
				}
			}
			flush()
			for i := range ps {
				if i%3 == round {
					ps[i] = connect(kind)
					must(ps[i] != nil, "refused in round %d: %s", round, what)
				}
			}
			for k := range ran {
				delete(ran, k)
			}
		}
		mc.Outcome("%s", what)
	}
}

// manySends (C05): many messages through the calls, of sizes up to 70000 bytes.
func manySends(kind string, n, m int) func() {
	return func() {
		sizes := [][]int{{1, 7, 30}, {0, 4087, 4088, 4089, 100}, {70000, 1, 5000}}[mc.Choose(3)]
		how := mc.Choose(3)
		srv, ps, what := manyServer(kind, n, func(s ziface.IServer) {})
		for i, p := range ps {
			c := mine(srv, p)
			var want [2][]frame
			var fns []func()
			for t := 0; t < 2; t++ {
				t := t
				for k := 0; k < m; k++ {
					want[t] = append(want[t], frame{uint32(t*1000 + k), fillText(fmt.Sprintf("t%dk%dc%d", t, k, i), sizes[k%len(sizes)])})
				}
				fns = append(fns, func() {
					for _, f := range want[t] {
						var err error
						if how == 0 || how == 2 && t == 0 {
							err = c.SendMsg(f.id, []byte(f.data))
						} else {
							err = c.SendBuffMsg(f.id, []byte(f.data))
						}
						must(err == nil, "sending message %d: %v", f.id, err)
					}
				})
			}
			join(fns...)
			flush()
			var got [2][]frame
			for _, f := range p.frames() {
				got[f.id/1000%2] = append(got[f.id/1000%2], f)
			}
			for t := range got {
				eq(fmt.Sprintf("messages of sender %d on the wire", t), len(got[t]), len(want[t]))
				for k, f := range got[t] {
					must(f == want[t][k], "message %d of sender %d is %d:%s on the wire, want %d:%s", k, t, f.id, short(f.data), want[t][k].id, short(want[t][k].data))
				}
			}
		}
		mc.Outcome("%s", what)
	}
}

// manyEnds (C06, C23): many connections with many callbacks and properties each end in various ways.
func manyEnds(kind string, n, cbs int) func() {
	return func() {
		started, stopped := map[uint64]int{}, map[uint64]int{}
		called := map[uint64][]string{}
		want := map[uint64][]string{}
		var kept = map[uint64]map[string]int{}
		srv, ps, what := manyServer(kind, n, func(s ziface.IServer) {
			s.SetOnConnStart(func(c ziface.IConnection) {
				id := c.GetConnID()
				started[id]++
				kept[id] = map[string]int{}
				var live []string
				for k := 0; k < cbs; k++ {
					name := fmt.Sprintf("cb%d", k)
					c.AddCloseCallback(k%4, k, func() { called[id] = append(called[id], name) })
					live = append(live, name)
					c.SetProperty(name, int(id)*1000+k)
					kept[id][name] = int(id)*1000 + k
				}
				for k := 0; k < cbs; k += 3 {
					name := fmt.Sprintf("cb%d", k)
					c.RemoveCloseCallback(k%4, k)
					c.RemoveProperty(name)
					delete(kept[id], name)
					for j, x := range live {
						if x == name {
							live = append(live[:j:j], live[j+1:]...)
							break
						}
					}
				}
				want[id] = live
			})
			s.SetOnConnStop(func(c ziface.IConnection) {
				stopped[c.GetConnID()]++
			})
		})
		mc.Quiesce()
		var cs []ziface.IConnection
		for _, p := range ps {
			c := mine(srv, p)
			cs = append(cs, c)
			for k := 0; k < cbs; k++ {
				name := fmt.Sprintf("cb%d", k)
				v, err := c.GetProperty(name)
				w, ok := kept[c.GetConnID()][name]
				must((err == nil) == ok && (!ok || v == w), "property %s of connection %d: %v %v, want %v %v", name, c.GetConnID(), v, err, w, ok)
			}
		}
		for i, p := range ps {
			switch i % 4 {
			case 0:
				p.hangup()
			case 1:
				cs[i].Stop()
			case 2:
				p.breakWire()
				_ = cs[i].SendMsg(1, []byte("x"))
				_ = cs[i].SendBuffMsg(1, []byte("x"))
			}
		}
		flush()
		srv.GetConnMgr().ClearConn()
		flush()
		for i, c := range cs {
			id := c.GetConnID()
			eq(fmt.Sprintf("start and stop hooks of connection %d", id), [2]int{started[id], stopped[id]}, [2]int{1, 1})
			eq(fmt.Sprintf("close callbacks of connection %d (ended in way %d)", id, i%4), called[id], want[id])
			must(c.Context().Err() != nil, "the context of connection %d is not done", id)
			must(ps[i].dropped(), "the socket of connection %d is open", id)
		}
		eq("registered connections", srv.GetConnMgr().Len(), 0)
		q := connect(kind)
		must(q != nil, "no connection is admitted after the others ended: %s", what)
		mc.Outcome("%s", what)
	}
}

// manyLive (C08): the manager's views of up to the maximum number of connections.
func manyLive(kind string) func() {
	return func() {
		n := []int{31, 32, 33, 64, 100}[mc.Choose(5)]
		srv, ps, _ := manyServer(kind, n, func(s ziface.IServer) {})
		var cs, gone []ziface.IConnection
		ids := map[uint64]bool{}
		for _, p := range ps {
			c := mine(srv, p)
			must(!ids[c.GetConnID()], "connection id %d was given out twice", c.GetConnID())
			ids[c.GetConnID()] = true
			cs = append(cs, c)
		}
		mirror(srv.GetConnMgr(), cs, nil)
		if n == 100 {
			over := connect(kind)
			mc.Quiesce()
			mirror(srv.GetConnMgr(), cs, nil) // the limit is 100
			if over != nil && (kind != WS || over.ws != nil) {
				over.hangup()
			}
			mc.Quiesce()
		}
		var rest []ziface.IConnection
		for i, c := range cs {
			if i%3 == 1 {
				c.Stop()
				gone = append(gone, c)
			} else {
				rest = append(rest, c)
			}
		}
		flush()
		mirror(srv.GetConnMgr(), rest, gone)
		for i := 0; i < 3; i++ {
			p := connect(kind)
			must(p != nil, "refused")
			c := mine(srv, p)
			must(!ids[c.GetConnID()], "connection id %d was given out twice", c.GetConnID())
			ids[c.GetConnID()] = true
			rest = append(rest, c)
		}
		mirror(srv.GetConnMgr(), rest, gone)
		srv.GetConnMgr().ClearConn()
		flush()
		mirror(srv.GetConnMgr(), nil, append(gone, rest...))
		mc.Outcome("%d", n)
	}
}

// manyBeats (C09): many connections, some silent.
func manyBeats(kind string, n int) func() {
	return func() {
		srv, ps, what := manyServer(kind, n, func(s ziface.IServer) {
			s.AddRouter(1, &router{f: func(ziface.IRequest) {}})
			s.StartHeartBeat(time.Second)
		})
		var cs []ziface.IConnection
		for _, p := range ps {
			cs = append(cs, mine(srv, p))
		}
		for sec := 0; sec < 14; sec++ {
			for i, p := range ps {
				if i%3 != 0 && sec%3 == i%3 { // every three seconds
					p.send(tlv(1, "x"))
				}
			}
			mc.Advance(1e9)
			mc.Quiesce()
		}
		for i, p := range ps {
			if i%3 == 0 {
				must(p.dropped(), "silent connection %d lives on: %s", i, what)
			} else {
				must(!p.dropped() && cs[i].IsAlive(), "active connection %d was ended: %s", i, what)
				beats := 0
				for _, f := range p.frames() {
					if f.id == ziface.HeartBeatDefaultMsgID {
						beats++
					}
				}
				must(beats >= 13 && beats <= 15, "connection %d was sent %d heartbeats in 14 s", i, beats)
			}
		}
		mc.Outcome("%s", what)
	}
}

// manyRoutes (C10, C11): several hundred ids, in slices mode in groups of ten.
func manyRoutes(kind string, slices bool) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		g.WorkerPoolSize = uint32(mc.Choose(3))
		g.RouterSlicesMode = slices
		g.RequestPoolMode = mc.Choose(2) == 1
		n := []int{1, 16, 100, 330}[mc.Choose(4)]
		scale := []uint32{1, 13, 1 << 22}[mc.Choose(3)]
		mc.Explore(false)
		id := func(i int) uint32 { return uint32(i) * scale }
		got := map[uint32][]string{}
		want := map[uint32][]string{}
		say := func(r ziface.IRequest, s string) { got[r.GetMsgID()] = append(got[r.GetMsgID()], s) }
		mk := func(s string) ziface.RouterHandler { return func(r ziface.IRequest) { say(r, s) } }
		r := openRouting(kind, 2, func(r *routing) {
			if !slices {
				for i := 0; i < n; i++ {
					i := i
					r.addRouter(id(i), &threeStage{func(r ziface.IRequest, stage string) { say(r, fmt.Sprintf("%s%d", stage, i)) }})
					want[id(i)] = []string{fmt.Sprintf("pre%d", i), fmt.Sprintf("handle%d", i), fmt.Sprintf("post%d", i)}
				}
				return
			}
			all := r.srv.Use(mk("u1"), mk("u2"))
			var gr ziface.IGroupRouterSlices
			for i := 0; i < n; i++ {
				if i%10 == 0 {
					gr = all.Group(id(i), id(i+9), mk(fmt.Sprintf("g%d", i)))
				}
				w := []string{"u1", "u2"}
				if i%10 < 7 {
					if i%10 == 5 {
						gr.Use(mk(fmt.Sprintf("v%d", i)))
					}
					gr.AddHandler(id(i), mk(fmt.Sprintf("h%d", i)), mk(fmt.Sprintf("k%d", i)))
					w = append(w, fmt.Sprintf("g%d", i/10*10))
					if i%10 >= 5 {
						w = append(w, fmt.Sprintf("v%d", i/10*10+5))
					}
				} else {
					r.srv.AddRouterSlices(id(i), mk(fmt.Sprintf("h%d", i)), mk(fmt.Sprintf("k%d", i)))
				}
				want[id(i)] = append(w, fmt.Sprintf("h%d", i), fmt.Sprintf("k%d", i))
			}
		})
		for i := 0; i < n; i++ {
			r.peers[i%2].send(tlv(id(i), "x"))
			if scale > 1 {
				r.peers[i%2].send(tlv(id(i)+1, "nobody's"))
			}
			if i%5 == 4 {
				mc.Quiesce()
			}
		}
		mc.Quiesce()
		for i := 0; i < n; i++ {
			eq(fmt.Sprintf("what ran for id %d of %d", id(i), n), got[id(i)], want[id(i)])
		}
		eq("ids for which something ran", len(got), n)
		mc.Outcome("%d %d", n, scale)
	}
}

// manyOps (C17): many operations of one connection's handlers under way at once.
func manyOps(kind string, n int) func() {
	return func() {
		type call struct {
			k      int
			res    interface{}
			worker uint32
		}
		var calls []call
		handling := 0
		done := 0
		ids := []int{1, 7, 300}[mc.Choose(3)]
		_, ps, what := manyServer(kind, 2, func(s ziface.IServer) {
			s.AddRouter(1, &router{f: func(r ziface.IRequest) {
				handling++
				c := r.GetConnection()
				for k := 0; k < n; k++ {
					k := k
					ar := zasync_op.NewAsyncOpResult(c)
					zasync_op.Process(k%ids, func() {
						ar.SetReturnedObj(k * 2)
						done++
					})
					ar.OnComplete(func() {
						must(handling == 0, "a callback runs within a handler")
						calls = append(calls, call{k, ar.GetReturnedObj(), c.GetWorkerID()})
					})
				}
				handling--
			}})
		})
		if strings.HasSuffix(what, " 0 workers") {
			mc.Outcome("%s", what)
			return
		}
		ps[0].send(tlv(1, "go"))
		mc.Quiesce()
		flush()
		eq("operations done", done, n)
		sort.Slice(calls, func(i, j int) bool { return calls[i].k < calls[j].k })
		eq("callbacks", len(calls), n)
		for i, x := range calls {
			must(x.k == i && x.res == interface{}(i*2), "callback %d ran for operation %d with result %v", i, x.k, x.res)
		}
		mc.Outcome("%s", what)
	}
}

// manyStop (C18): a server with many connections is stopped, and started again.
func manyStop(kind string, n int) func() {
	return func() {
		stops := 0
		srv, ps, what := manyServer(kind, n, func(s ziface.IServer) {
			s.SetOnConnStop(func(ziface.IConnection) { stops++ })
			s.AddRouter(1, &router{f: func(ziface.IRequest) {}})
			s.StartHeartBeat(time.Second)
		})
		for i, p := range ps {
			if i%2 == 0 {
				p.send(tlv(1, "x"))
			}
			if i%5 == 0 {
				p.hangup()
			}
		}
		srv.Stop()
		flush()
		mc.Advance(2e9)
		mc.Quiesce()
		eq("stop hooks", stops, n)
		eq("registered connections", srv.GetConnMgr().Len(), 0)
		for i, p := range ps {
			must(p.dropped(), "connection %d outlived the server: %s", i, what)
		}
		must(!listening(kind), "the listener is open after the stop")
		mc.Outcome("%s", what)
	}
}

func init() {
	sz := "9 to 15 combinations of worker mode and pool size"
	for _, k := range []string{TCP, WS, KCP} {
		add(&Scenario{Prop: "C03", Name: "C03/many-" + k, Q: long(data()), Body: manyMessages(k, 20, 60), Weight: 3, Bounds: "20 connections x 60 messages x 4 segment sizes; " + sz})
		add(&Scenario{Prop: "C04", Name: "C04/many-" + k, Q: long(data()), Body: manyBound(k, 90), Weight: 3, Bounds: "90 connections of which every other is busy, three rounds of departures and arrivals; " + sz})
		add(&Scenario{Prop: "C05", Name: "C05/many-" + k, Q: long(data()), Body: manySends(k, 2, 100), Weight: 3, Bounds: "2 connections x 2 senders x 100 messages of 3 ranges of sizes; " + sz})
		add(&Scenario{Prop: "C06", Name: "C06/many-" + k, Q: long(data()), Body: manyEnds(k, 60, 12), Weight: 3, Bounds: "60 connections with 12 close callbacks, ended in 4 ways; " + sz})
		add(&Scenario{Prop: "C23", Name: "C23/many-" + k, Q: long(data()), Body: manyEnds(k, 9, 100), Weight: 3, Bounds: "9 connections with 100 properties and close callbacks, a third removed; " + sz})
		add(&Scenario{Prop: "C08", Name: "C08/many-" + k, Q: long(data()), Body: manyLive(k), Weight: 3, Bounds: "31 to 100 connections; " + sz})
		add(&Scenario{Prop: "C09", Name: "C09/many-" + k, Q: long(data()), Body: manyBeats(k, 40), Weight: 3, Bounds: "40 connections, a third silent; " + sz})
		add(&Scenario{Prop: "C10", Name: "C10/many-" + k, Q: long(data()), Body: manyRoutes(k, false), Weight: 2, Bounds: "up to 330 ids"})
		add(&Scenario{Prop: "C11", Name: "C11/many-" + k, Q: long(data()), Body: manyRoutes(k, true), Weight: 2, Bounds: "up to 330 ids in 33 groups"})
		add(&Scenario{Prop: "C17", Name: "C17/many-" + k, Q: long(data()), Body: manyOps(k, 100), Weight: 2, Bounds: "100 operations of one connection under 1, 7 or 300 ids; " + sz})
		add(&Scenario{Prop: "C18", Name: "C18/many-" + k, Q: long(data()), Body: manyStop(k, 60), Weight: 2, Bounds: "60 connections; " + sz})
	}
}
