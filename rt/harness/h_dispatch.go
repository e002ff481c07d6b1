package main

import (
	"fmt"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/zzmc/mc"
)

// ---- C03 / C04: dispatch order and worker binding ----------------------------

type dispatchRec struct {
	conn uint64
	n    int
}

type disp struct {
	seq    map[uint64][]string // data handled per connection, in order
	active map[uint64]int
	wactiv map[uint32]int
	worker map[uint64]uint32
	remote map[uint64]string
	step   bool
}

func newDisp() *disp {
	return &disp{seq: map[uint64][]string{}, active: map[uint64]int{}, worker: map[uint64]uint32{}, remote: map[uint64]string{}, step: true}
}

func (d *disp) handle(req ziface.IRequest) {
	c := req.GetConnection()
	id := c.GetConnID()
	d.active[id]++
	must(d.active[id] == 1, "two handlers of connection %d run at the same time", id)
	mc.Share(fmt.Sprintf("conn%d", id), 1)
	if d.step {
		mc.Yield()
	}
	d.seq[id] = append(d.seq[id], fmt.Sprintf("%d:%s", req.GetMsgID(), req.GetData()))
	d.remote[id] = c.RemoteAddrString()
	if d.step {
		mc.Yield()
	}
	mc.Share(fmt.Sprintf("conn%d", id), 2)
	d.active[id]--
}

// dispatch: nconn peers send nmsg messages each, in various segmentations.
func dispatch(kind, mode string, pool, nconn, nmsg int, slices, reqPool bool) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		g.WorkerMode = mode
		g.WorkerPoolSize = uint32(pool)
		g.MaxConn = nconn
		g.MaxWorkerTaskLen = 1
		g.RouterSlicesMode = slices
		g.RequestPoolMode = reqPool
		d := newDisp()
		serve(kind, func(s ziface.IServer) {
			if slices {
				s.AddRouterSlices(1, d.handle)
				s.AddRouterSlices(2, d.handle)
			} else {
				s.AddRouter(1, &router{f: d.handle})
				s.AddRouter(2, &router{f: d.handle})
			}
		})
		var ps []*peer
		for i := 0; i < nconn; i++ {
			p := connect(kind)
			must(p != nil, "connection %d was refused", i)
			ps = append(ps, p)
		}
		shape := 0
		if kind != WS {
			shape = mc.Choose(3)
		} else if nmsg == 3 {
			shape = 2 * mc.Choose(2)
		}
		var fns []func()
		want := map[string][]string{}
		for i, p := range ps {
			p := p
			var parts [][]byte
			id := p.remote()
			for k := 0; k < nmsg; k++ {
				m := fmt.Sprintf("c%dm%d", i, k)
				parts = append(parts, tlv(uint32(1+k%2), m))
				want[id] = append(want[id], fmt.Sprintf("%d:%s", 1+k%2, m))
			}
			switch shape {
			case 1: // all in one segment
				var all []byte
				for _, x := range parts {
					all = append(all, x...)
				}
				parts = [][]byte{all}
			case 2: // cut inside the second header
				var all []byte
				for _, x := range parts {
					all = append(all, x...)
				}
				parts = [][]byte{all[:15], all[15:]}
				p.text = true
			}
			fns = append(fns, func() {
				for _, x := range parts {
					p.send(x)
				}
			})
		}
		join(fns...)
		mc.Quiesce()
		for id, seq := range d.seq {
			eq(fmt.Sprintf("messages handled for connection %d", id), seq, want[d.remote[id]])
		}
		eq("connections served", len(d.seq), len(want))
		mc.Outcome("ok")
	}
}

// rawDispatch: without a decoder, what the handlers see of a connection is what
// its peer sent, in order and unaltered.
func rawDispatch(kind string, pool int, reqPool bool) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		g.WorkerPoolSize = uint32(pool)
		g.MaxWorkerTaskLen = 2
		g.RequestPoolMode = reqPool
		got := map[string]string{}
		serve(kind, func(s ziface.IServer) {
			s.SetDecoder(nil)
			s.AddRouter(0, &router{f: func(req ziface.IRequest) {
				mc.Yield()
				got[req.GetConnection().RemoteAddrString()] += string(req.GetData())
			}})
		})
		var ps []*peer
		for i := 0; i < 2; i++ {
			p := connect(kind)
			must(p != nil, "refused")
			ps = append(ps, p)
		}
		var fns []func()
		want := map[string]string{}
		for i, p := range ps {
			p := p
			parts := []string{fmt.Sprintf("a%d-", i), fmt.Sprintf("bcd%d-", i), fmt.Sprintf("ef%d.", i)}
			for _, x := range parts {
				want[p.remote()] += x
			}
			fns = append(fns, func() {
				for _, x := range parts {
					p.send([]byte(x))
				}
			})
		}
		join(fns...)
		mc.Quiesce()
		eq("data handled without a decoder", fmt.Sprint(got), fmt.Sprint(want))
		mc.Outcome("ok")
	}
}

// binding: the worker exclusivity of Bind and DynamicBind over histories of
// connections coming and going.
func binding(kind, mode string, pool, maxConn int, explore bool, depth int) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		g.WorkerMode = mode
		g.WorkerPoolSize = uint32(pool)
		g.MaxConn = maxConn
		g.MaxWorkerTaskLen = 2
		// handlers park until released, so a shared worker shows as a stall
		gate := map[uint64]bool{}
		ran := map[uint64]int{}
		wid := map[uint64]uint32{}
		live := map[uint64]bool{}
		srv := serve(kind, func(s ziface.IServer) {
			s.AddRouter(1, &router{f: func(req ziface.IRequest) {
				id := req.GetConnection().GetConnID()
				ran[id]++
				mc.Share("ran", int64(id))
				mc.WaitUntil(fmt.Sprintf("gate of connection %d", id), func() bool { return gate[id] })
			}})
		})
		if !explore {
			mc.Explore(false)
		}
		peers := map[uint64]*peer{}
		next := uint64(0)
		var order []uint64
		for step := 0; step < depth; step++ {
			n := 1 + len(order)
			if len(order) >= maxConn {
				n--
			}
			c := mc.Choose(n)
			if len(order) < maxConn && c == 0 {
				p := dial(kind)
				mc.Quiesce()
				p.up()
				cn := mine(srv, p)
				next = cn.GetConnID()
				must(peers[next] == nil, "connection id %d was given out twice", next)
				peers[next] = p
				order = append(order, next)
				live[next] = true
				wid[next] = cn.GetWorkerID()
				for o := range live {
					if o != next {
						must(wid[o] != wid[next], "live connections %d and %d are bound to the same worker %d", o, next, wid[o])
					}
				}
				continue
			}
			if len(order) < maxConn {
				c--
			}
			id := order[c]
			order = append(order[:c:c], order[c+1:]...)
			delete(live, id)
			if step%2 == 0 {
				peers[id].hangup()
			} else if cn, err := srv.GetConnMgr().Get(id); err == nil {
				cn.Stop()
			}
			mc.Quiesce()
			mc.Advance(20e6)
			_, err := srv.GetConnMgr().Get(id)
			must(err != nil, "stopped connection %d is still registered", id)
		}
		// every live connection's message must get through although all the
		// other connections' handlers are busy
		for _, id := range order {
			peers[id].send(tlv(1, "x"))
			mc.Quiesce()
			must(ran[id] == 1, "the message of connection %d is stuck behind another connection's handler", id)
		}
		for _, id := range order {
			gate[id] = true
		}
		mc.Quiesce()
		for _, id := range order {
			peers[id].send(tlv(1, "y"))
		}
		mc.Quiesce()
		for _, id := range order {
			must(ran[id] == 2, "connection %d: %d of 2 messages handled", id, ran[id])
		}
		mc.Outcome("%v", len(order))
	}
}

// bindRace: a connection goes away while another one arrives.
func bindRace(kind, mode string, pool, maxConn, pre int) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		g.WorkerMode = mode
		g.WorkerPoolSize = uint32(pool)
		g.MaxConn = maxConn
		g.MaxWorkerTaskLen = 2
		gate := map[uint64]bool{}
		ran := map[uint64]int{}
		srv := serve(kind, func(s ziface.IServer) {
			s.AddRouter(1, &router{f: func(req ziface.IRequest) {
				id := req.GetConnection().GetConnID()
				ran[id]++
				mc.Share("ran", int64(id))
				mc.WaitUntil(fmt.Sprintf("gate of connection %d", id), func() bool { return gate[id] })
			}})
		})
		var ps []*peer
		for i := 0; i < pre; i++ {
			ps = append(ps, connect(kind))
		}
		var np *peer
		gone := mc.Choose(pre)
		join(func() { ps[gone].hangup() }, func() { np = dial(kind) })
		mc.Quiesce()
		mc.Advance(2e9) // let an accept delay pass
		must(np != nil, "the new connection was refused")
		mc.Explore(false)
		ids := map[*peer]uint64{}
		var all []*peer
		for i, p := range ps {
			if i != gone {
				all = append(all, p)
			}
		}
		if np.up() { // a WebSocket request may be turned away at the limit
			ids[np] = mine(srv, np).GetConnID()
			all = append(all, np)
		}
		for _, p := range ps {
			if p != ps[gone] {
				ids[p] = mine(srv, p).GetConnID()
			}
		}
		if len(all) < maxConn { // fill up to the limit: nothing was lost or handed out twice
			for len(all) < maxConn {
				p := dial(kind)
				mc.Quiesce()
				mc.Advance(2e9)
				must(p != nil && p.up(), "a connection below the limit was refused")
				ids[p] = mine(srv, p).GetConnID()
				all = append(all, p)
			}
		}
		ws := map[uint32]uint64{}
		for _, p := range all {
			cn, err := srv.GetConnMgr().Get(ids[p])
			must(err == nil, "connection %d is not registered", ids[p])
			if o, dup := ws[cn.GetWorkerID()]; dup {
				mc.Fail("live connections %d and %d are bound to the same worker %d", o, ids[p], cn.GetWorkerID())
			}
			ws[cn.GetWorkerID()] = ids[p]
		}
		for _, p := range all {
			p.send(tlv(1, "x"))
			mc.Quiesce()
			must(ran[ids[p]] == 1, "the message of connection %d is stuck behind another connection's handler", ids[p])
		}
		for _, p := range all {
			gate[ids[p]] = true
		}
		mc.Quiesce()
		mc.Outcome("%d", len(all))
	}
}

// lastWords: what a peer sent before it hung up is still handled.
func lastWords(kind, mode string, slices bool) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		g.WorkerMode = mode
		g.WorkerPoolSize = 1
		g.MaxConn = 3
		g.MaxWorkerTaskLen = 2
		g.RouterSlicesMode = slices
		d := newDisp()
		d.step = false
		serve(kind, func(s ziface.IServer) {
			for _, id := range []uint32{1, 2} {
				if slices {
					s.AddRouterSlices(id, d.handle)
				} else {
					s.AddRouter(id, &router{f: d.handle})
				}
			}
		})
		mc.NoExplore(func() {
			must(connect(kind) != nil, "refused")
		})
		shape := mc.Choose(5)
		p := connect(kind)
		must(p != nil, "refused")
		m1 := tlv(1, "first")
		m2 := tlv(2, fmt.Sprintf("%070d", 7))
		var want []string
		var segs [][]byte
		switch shape {
		case 0: // one message
			segs, want = [][]byte{m1}, []string{"1:first"}
		case 1: // two in one segment, longer than one read
			segs = [][]byte{append(append([]byte(nil), m1...), m2...)}
			want = []string{"1:first", fmt.Sprintf("2:%070d", 7)}
		case 2: // two segments
			segs = [][]byte{m2, m1}
			want = []string{fmt.Sprintf("2:%070d", 7), "1:first"}
		case 3: // cut inside the last message
			segs = [][]byte{m1, m2[:20], m2[20:]}
			want = []string{"1:first", fmt.Sprintf("2:%070d", 7)}
		case 4: // the last message is incomplete
			segs, want = [][]byte{append(append([]byte(nil), m1...), m2[:30]...)}, []string{"1:first"}
		}
		join(func() {
			for _, s := range segs {
				p.send(s)
			}
			p.hangup()
		})
		mc.Quiesce()
		mc.Advance(20e6)
		mc.Quiesce()
		eq("messages handled of a peer that hung up", d.seq[2], want)
		must(p.dropped(), "the connection survived its peer")
		mc.Outcome("%d", shape)
	}
}

func init() {
	for _, k := range []string{TCP, WS, TLS} {
		for _, m := range []string{zconf.WorkerModeHash, zconf.WorkerModeBind, zconf.WorkerModeDynamicBind} {
			add(&Scenario{Prop: "C03", Name: fmt.Sprintf("C03/%s-%s-last", k, m), Q: b(2), T: b(4), Body: lastWords(k, m, m == zconf.WorkerModeBind), Weight: 3, Bounds: "5 shapes of last messages before the peer hangs up"})
		}
	}
	for _, k := range []string{TCP, WS, KCP} {
		for _, m := range []string{zconf.WorkerModeHash, zconf.WorkerModeBind, zconf.WorkerModeDynamicBind} {
			add(&Scenario{Prop: "C03", Name: fmt.Sprintf("C03/%s-%s", k, m), Q: b(3), T: b(4), Body: dispatch(k, m, 2, 2, 2, false, false), Weight: 5, Bounds: "2 connections x 2 messages x 3 segmentations"})
		}
		add(&Scenario{Prop: "C03", Name: fmt.Sprintf("C03/%s-3msg", k), Q: b(3), T: b(4), Body: dispatch(k, zconf.WorkerModeHash, 2, 1, 3, false, false), Weight: 5, Bounds: "1 connection x 3 messages x 3 segmentations"})
		add(&Scenario{Prop: "C03", Name: fmt.Sprintf("C03/%s-raw", k), Q: b(2), T: b(3), Body: rawDispatch(k, 1, false), Weight: 5, Bounds: "no decoder: 2 connections x 3 pieces"})
		add(&Scenario{Prop: "C03", Name: fmt.Sprintf("C03/%s-raw-reqpool", k), Q: b(1), T: b(2), Body: rawDispatch(k, 2, true), Weight: 5, Bounds: "no decoder, request pool: 2 connections x 3 pieces"})
		add(&Scenario{Prop: "C03", Name: fmt.Sprintf("C03/%s-slices", k), Q: b(3), T: b(4), Body: dispatch(k, zconf.WorkerModeHash, 2, 2, 2, true, false), Weight: 5, Bounds: "router slices"})
		add(&Scenario{Prop: "C03", Name: fmt.Sprintf("C03/%s-oneworker", k), Q: b(3), T: b(4), Body: dispatch(k, zconf.WorkerModeHash, 1, 3, 2, false, false), Weight: 5, Bounds: "3 connections sharing 1 worker"})
		add(&Scenario{Prop: "C03", Name: fmt.Sprintf("C03/%s-dynextra", k), Q: b(2), T: b(3), Body: dispatch(k, zconf.WorkerModeDynamicBind, 1, 3, 2, false, false), Weight: 5, Bounds: "3 connections, 1 core and 2 extra workers"})
		for _, m := range []string{zconf.WorkerModeBind, zconf.WorkerModeDynamicBind} {
			add(&Scenario{Prop: "C04", Name: fmt.Sprintf("C04/%s-%s-hist", k, m), Q: b(0), T: b(1), Body: binding(k, m, 1, 3, true, 5), Weight: 3, Bounds: "all histories of 5 connects and disconnects with at most 3 connections"})
			add(&Scenario{Prop: "C04", Name: fmt.Sprintf("C04/%s-%s-race", k, m), Q: bc(3), T: bc(4), Body: bindRace(k, m, 1, 2, 2), Weight: 3, Bounds: "one connection leaves while one arrives, at the connection limit"})
			add(&Scenario{Prop: "C04", Name: fmt.Sprintf("C04/%s-%s-race3", k, m), Q: bc(3), T: bc(4), Body: bindRace(k, m, 1, 3, 2), Weight: 3, Bounds: "one connection leaves while one arrives, below the connection limit"})
		}
	}
}
