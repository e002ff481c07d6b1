package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/aceld/zinx/zasync_op"
	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znotify"
	"github.com/aceld/zinx/zzmc/mc"
)

// ---- C17: asynchronous operations -------------------------------------------------------

type asyncCfg struct {
	kind   string
	mode   string
	pool   int
	conns  int
	when   string // callback registered: before, after, late (from another handler), other (from another goroutine)
	result string // once, twice (two results), threads (results from two goroutines), panic-before, panic-after
	cbs    int    // callbacks registered (the first counts)
	cbfail bool   // the callback panics
	busy   bool   // a second message keeps the worker busy
	nilobj bool   // the result is nil
	queue  int
}

func asyncOps(c asyncCfg) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		g.WorkerPoolSize = uint32(c.pool)
		g.WorkerMode = c.mode
		g.MaxConn = 3
		if c.queue > 0 {
			g.MaxWorkerTaskLen = uint32(c.queue)
		}
		active := map[uint32]int{} // worker -> running
		thread := map[string]int{} // connection -> thread of its handlers
		called := map[string]int{} // connection -> callbacks
		results := map[string]*zasync_op.AsyncOpResult{}
		ops := map[string]int{}
		enter := func(conn ziface.IConnection, what string) func() {
			w := conn.GetWorkerID()
			a := conn.RemoteAddrString()
			active[w]++
			must(active[w] == 1, "%s runs at the same time as something else on worker %d", what, w)
			if t, ok := thread[a]; ok {
				must(t == mc.CurThread(), "%s did not run on the worker of its connection", what)
			}
			thread[a] = mc.CurThread()
			mc.Share(fmt.Sprintf("worker%d", w), 1)
			mc.Yield()
			return func() { active[w]--; mc.Share(fmt.Sprintf("worker%d", w), 2) }
		}
		val := func(a string) interface{} {
			if c.nilobj {
				return nil
			}
			return "result of " + a
		}
		register := func(conn ziface.IConnection, r *zasync_op.AsyncOpResult) {
			a := conn.RemoteAddrString()
			for i := 0; i < c.cbs; i++ {
				i := i
				r.OnComplete(func() {
					leave := enter(conn, "a callback")
					defer leave()
					called[a]++
					eq("calls of one operation's callback", called[a], 1)
					eq("the callback that was called", i, 0)
					eq("the result seen by the callback", r.GetReturnedObj(), val(a))
					must(ops[a] > 0, "the callback ran before the operation")
					if c.cbfail {
						panic("callback panic")
					}
				})
			}
		}
		r := openRouting(c.kind, c.conns, func(r *routing) {
			r.addRouter(1, &router{f: func(req ziface.IRequest) {
				conn := req.GetConnection()
				a := conn.RemoteAddrString()
				leave := enter(conn, "a handler")
				defer leave()
				res := zasync_op.NewAsyncOpResult(conn)
				results[a] = res
				if c.when == "before" {
					register(conn, res)
				}
				zasync_op.Process(7, func() {
					mc.Yield()
					if c.result == "panic-before" {
						panic("operation panic")
					}
					ops[a]++
					res.SetReturnedObj(val(a))
					if c.result == "twice" {
						res.SetReturnedObj("second")
					}
					if c.result == "threads" {
						mc.Spawn("setter", func() { res.SetReturnedObj("second") })
					}
					if c.result == "panic-after" {
						panic("operation panic")
					}
				})
				switch c.when {
				case "after":
					register(conn, res)
				case "other":
					mc.Spawn("registrar", func() { register(conn, res) })
				}
			}})
			r.addRouter(2, &router{f: func(req ziface.IRequest) {
				conn := req.GetConnection()
				leave := enter(conn, "a handler")
				defer leave()
				if c.when == "late" {
					register(conn, results[conn.RemoteAddrString()])
				}
			}})
		})
		var fns []func()
		for _, p := range r.peers {
			p := p
			fns = append(fns, func() {
				p.send(tlv(1, "x"))
				if c.busy || c.when == "late" {
					p.send(tlv(2, "y"))
				}
			})
		}
		join(fns...)
		mc.Quiesce()
		mc.Explore(false)
		for _, p := range r.peers {
			want := 1
			if c.result == "panic-before" {
				want = 0
			}
			eq("calls of the callback of "+p.remote(), called[p.remote()], want)
			must(!p.dropped(), "a connection was ended")
		}
		// nothing is stuck: another operation under the same id completes
		done := 0
		zasync_op.Process(7, func() { done++ })
		r.peers[0].send(tlv(2, "z"))
		mc.Quiesce()
		eq("a later operation under the same id", done, 1)
		mc.Outcome("ok")
	}
}

// asyncGone: the connection ends while an operation of it is under way. Whoever
// still has a worker is called back on it once; where the worker ended with the
// connection nothing crashes and nobody is called twice.
func asyncGone(kind, mode string, when, how string) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		g.WorkerMode = mode
		g.WorkerPoolSize = 1
		g.MaxConn = 2
		called, handled := 0, 0
		fin, started := false, false
		r := openRouting(kind, 2, func(r *routing) {
			r.addRouter(1, &router{f: func(req ziface.IRequest) {
				conn := req.GetConnection()
				started = true
				res := zasync_op.NewAsyncOpResult(conn)
				cb := func() { called++; eq("the result seen by the callback", res.GetReturnedObj(), "r") }
				if when == "before" {
					res.OnComplete(cb)
				}
				zasync_op.Process(7, func() {
					mc.WaitUntil("end of the connection", func() bool { return fin })
					res.SetReturnedObj("r")
				})
				if when == "after" {
					mc.WaitUntil("end of the connection", func() bool { return fin })
					res.OnComplete(cb)
				}
			}})
			r.addRouter(2, &router{f: func(ziface.IRequest) { handled++ }})
		})
		var own bool // the connection's worker ends with it
		p := r.peers[1]
		for _, q := range r.peers {
			c := mine(r.srv, q)
			if mode == zconf.WorkerModeDynamicBind && c.GetWorkerID() > 0 {
				p, own = q, true
			}
		}
		c := mine(r.srv, p)
		p.send(tlv(1, "x"))
		mc.Spawn("end", func() {
			if how == "stop" {
				c.Stop()
			} else {
				p.hangup()
			}
			mc.Yield()
			fin = true
			mc.Share("fin", 1)
		})
		mc.Quiesce()
		mc.Explore(false)
		if own || !started { // the message may be lost with the connection
			must(called <= 1, "the callback ran %d times", called)
		} else {
			eq("calls of the callback", called, 1)
		}
		// the others, and the connection that comes next, are served
		pass(1)
		q := connect(kind)
		must(q != nil, "the next connection was refused")
		pass(2)
		done := 0
		zasync_op.Process(7, func() { done++ })
		for _, x := range append(r.peers, q) {
			if x != p {
				x.send(tlv(2, "y"))
			}
		}
		mc.Quiesce()
		eq("messages handled afterwards", handled, 2)
		eq("a later operation under the same id", done, 1)
		mc.Outcome("%d", called)
	}
}

// opOrder: operations under one id run one after another in submission order.
func opOrder(nsub, per int, fail bool, ids []int) func() {
	return func() {
		boot()
		running := map[int]int{}
		var log []string
		var fns []func()
		for s := 0; s < nsub; s++ {
			s := s
			fns = append(fns, func() {
				for k := 0; k < per; k++ {
					k := k
					id := ids[(s*per+k)%len(ids)]
					zasync_op.Process(id, func() {
						running[id]++
						must(running[id] == 1, "two operations under id %d run at the same time", id)
						mc.Share("op", int64(id))
						mc.Yield()
						log = append(log, fmt.Sprintf("%d/%d.%d", id, s, k))
						mc.Share("op", int64(id))
						running[id]--
						if fail && k == 0 {
							panic("operation panic")
						}
					})
					log2 := fmt.Sprintf("sub %d.%d", s, k)
					_ = log2
				}
			})
		}
		join(fns...)
		mc.Quiesce()
		eq("operations run", len(log), nsub*per)
		// per submitter and id the order is the submission order
		last := map[string]int{}
		for _, l := range log {
			var id, s, k int
			fmt.Sscanf(l, "%d/%d.%d", &id, &s, &k)
			key := fmt.Sprintf("%d/%d", id, s)
			if p, ok := last[key]; ok {
				must(k > p, "operations of submitter %d under id %d ran out of order: %v", s, id, log)
			}
			last[key] = k
		}
		mc.Outcome("%v", log)
	}
}

// long: one thread may take many steps in a row without being taken for one that spins.
func long(c *mc.Config) *mc.Config {
	c.Fair = 10000
	return c
}

// opFull: more operations wait under one id than any queue for them may hold;
// the schedules of the submissions that meet the full queue are explored.
func opFull(fill, extra, nsub int) func() {
	return func() {
		boot()
		mc.Explore(false)
		open := false
		last, fills := make([]int, nsub), 0
		total := 0
		zasync_op.Process(7, func() { mc.WaitUntil("gate", func() bool { return open }) })
		mc.Spawn("fill", func() {
			for i := 0; i < fill; i++ {
				i := i
				zasync_op.Process(7, func() {
					eq("the operation in turn", fills, i)
					fills++
					if fills == 2*extra*nsub {
						mc.Explore(false) // all that waited outside has found its place
					}
				})
			}
			mc.Explore(true)
			for s := 0; s < nsub; s++ {
				s := s
				mc.Spawn("submitter", func() {
					for k := 1; k <= extra; k++ {
						k := k
						zasync_op.Process(7, func() {
							eq("the submitter's operation in turn", k, last[s]+1)
							eq("operations submitted earlier", fills, fill)
							last[s]++
							total++
						})
					}
				})
			}
		})
		mc.Quiesce()
		open = true
		mc.Share("gate", 1)
		mc.Quiesce()
		mc.Explore(false)
		eq("operations run", total, extra*nsub)
		mc.Outcome("ok")
	}
}

func opSeq() func() {
	return func() {
		boot()
		// one submitter, all assignments of ids (among them negative and extreme ones)
		ids := []int{0, 1, -1, 2047, 2048, -2049, int(^uint(0) >> 1), -int(^uint(0)>>1) - 1}
		var seq []int
		for i := 0; i < 3; i++ {
			seq = append(seq, ids[mc.Choose(len(ids))])
		}
		mc.Explore(false)
		per := map[int][]int{}
		want := map[int][]int{}
		for i, id := range seq {
			i, id := i, id
			want[id] = append(want[id], i)
			zasync_op.Process(id, func() { per[id] = append(per[id], i) })
		}
		zasync_op.Process(3, nil)
		mc.Quiesce()
		eq("operations run per id", fmt.Sprint(per), fmt.Sprint(want))
		mc.Outcome("%v", seq)
	}
}

// ---- C22: the notifier -------------------------------------------------------------------

type noteModel map[uint64]int // id -> index of the connection

func notifySeq(kind string, depth int) func() {
	return func() {
		boot()
		mc.Explore(false)
		n := znotify.NewZNotify()
		r := openRouting(kind, 2, func(*routing) {})
		cs := []ziface.IConnection{connOf(r.srv, r.peers[0]), connOf(r.srv, r.peers[1])}
		want := [2][]string{}
		dead := [2]bool{}
		m := noteModel{}
		ids := []uint64{0, 7, 1<<64 - 1}
		var script []string
		for i := 0; i < depth; i++ {
			mc.Explore(true)
			op := mc.Choose(7)
			k := 0
			id := uint64(0)
			switch op {
			case 0:
				id = ids[mc.Choose(len(ids))]
				k = mc.Choose(2)
			case 1, 2, 3:
				id = ids[mc.Choose(len(ids))]
			case 6:
				k = mc.Choose(2)
			}
			mc.Explore(false)
			script = append(script, fmt.Sprintf("%d.%d.%d", op, id, k))
			msg := fmt.Sprintf("m%d", i)
			got := func(k int) {
				if !dead[k] {
					want[k] = append(want[k], fmt.Sprintf("%d:%s", i+1, msg))
				}
			}
			switch op {
			case 0:
				n.SetNotifyID(id, cs[k])
				m[id] = k
			case 1:
				n.DelNotifyByID(id)
				delete(m, id)
			case 2, 3:
				var err error
				if op == 2 {
					err = n.NotifyToConnByID(id, uint32(i+1), []byte(msg))
				} else {
					err = n.NotifyBuffToConnByID(id, uint32(i+1), []byte(msg))
				}
				c, ok := m[id]
				must((err == nil) == (ok && !dead[c]), "notifying id %d (bound: %v) returned %v", id, ok, err)
				if ok {
					got(c)
				}
			case 4, 5:
				if op == 4 {
					_ = n.NotifyAll(uint32(i+1), []byte(msg))
				} else {
					_ = n.NotifyBuffAll(uint32(i+1), []byte(msg))
				}
				for _, c := range m {
					got(c)
				}
			case 6:
				cs[k].Stop()
				dead[k] = true
			}
			mc.Quiesce()
			mc.Advance(50e6) // the TCP write buffer is flushed by time
			mc.Quiesce()
			eq("bound ids", n.ConnNums(), len(m))
			for _, id := range ids {
				c, ok := m[id]
				eq("HasIdConn", n.HasIdConn(id), ok)
				x, err := n.GetNotifyByID(id)
				must((err == nil) == ok, "GetNotifyByID(%d) returned %v", id, err)
				if ok {
					must(x == cs[c], "id %d is bound to another connection", id)
				}
			}
			for k := range cs {
				var g []string
				for _, f := range r.peers[k].frames() {
					g = append(g, fmt.Sprintf("%d:%s", f.id, f.data))
				}
				eq(fmt.Sprintf("messages that reached connection %d after %v", k, script), g, want[k])
			}
		}
		mc.Outcome("%v", script)
	}
}

// notifyIds: many bindings at once, under every id with one bit set and ids
// that agree in their low or high halves, one of the connections perhaps gone.
func notifyIds(kind string) func() {
	return func() {
		boot()
		zconf.GlobalObject.MaxMsgChanLen = 200
		dead := mc.Choose(4) - 1
		buff := mc.Choose(2) == 1
		var n ziface.Inotify = znotify.NewZNotify()
		r := openRouting(kind, 3, func(*routing) {})
		var cs []ziface.IConnection
		for _, p := range r.peers {
			cs = append(cs, connOf(r.srv, p))
		}
		mc.Explore(false)
		ids := []uint64{0, 3, 1<<64 - 1, 1<<63 - 1, 1<<32 - 1, 1<<32 + 1, 1<<63 + 1}
		for k := 0; k < 64; k++ {
			ids = append(ids, 1<<k)
		}
		where := map[uint64]int{}
		for i, id := range ids {
			must(!n.HasIdConn(id), "id %d is bound before anybody bound it", id)
			n.SetNotifyID(id, cs[i%3])
			where[id] = i % 3
		}
		if dead >= 0 {
			cs[dead].Stop()
			mc.Quiesce()
		}
		var want [3][]string
		expect := func(id uint64, msg uint32, data string) {
			if k := where[id]; k != dead {
				want[k] = append(want[k], fmt.Sprintf("%d:%s", msg, data))
			}
		}
		check := func(when string) {
			mc.Quiesce()
			mc.Advance(50e6)
			mc.Quiesce()
			for k, p := range r.peers {
				var g []string
				for _, f := range p.frames() {
					g = append(g, fmt.Sprintf("%d:%s", f.id, f.data))
				}
				eq(fmt.Sprintf("messages on connection %d %s", k, when), g, want[k])
			}
			eq("bound ids "+when, n.ConnNums(), len(where))
		}
		for i, id := range ids {
			x, err := n.GetNotifyByID(id)
			must(err == nil && x == cs[where[id]], "id %d is bound to another connection (%v)", id, err)
			data := fmt.Sprintf("to %d", id)
			msg := uint32(1) << (i % 32)
			if buff {
				err = n.NotifyBuffToConnByID(id, msg, []byte(data))
			} else {
				err = n.NotifyToConnByID(id, msg, []byte(data))
			}
			must((err == nil) == (where[id] != dead), "notifying id %d returned %v", id, err)
			expect(id, msg, data)
		}
		check("after one message to each id")
		for i, id := range ids {
			if i%2 == 1 {
				n.DelNotifyByID(id)
				delete(where, id)
				_, err := n.GetNotifyByID(id)
				must(err != nil && !n.HasIdConn(id), "id %d is still bound", id)
			}
		}
		check("after half of the ids were unbound")
		if buff {
			_ = n.NotifyBuffAll(9, []byte("all"))
		} else {
			_ = n.NotifyAll(9, []byte("all"))
		}
		for _, id := range ids {
			if _, ok := where[id]; ok {
				expect(id, 9, "all")
			}
		}
		check("after a broadcast")
		mc.Outcome("%d %v", dead, buff)
	}
}

// notifyRace: operations at once.
func notifyRace(kind string, pre map[uint64]int, hookDel bool, acts ...string) func() {
	return func() {
		boot()
		n := znotify.NewZNotify()
		var keep []uint64
		r := openRouting(kind, 3, func(r *routing) {
			if hookDel {
				r.srv.SetOnConnStop(func(c ziface.IConnection) {
					for _, id := range keep {
						if x, err := n.GetNotifyByID(id); err == nil && x == c {
							n.DelNotifyByID(id)
						}
					}
				})
			}
		})
		var cs []ziface.IConnection
		for _, p := range r.peers {
			cs = append(cs, connOf(r.srv, p))
		}
		mc.NoExplore(func() {
			for id, k := range pre {
				n.SetNotifyID(id, cs[k])
				keep = append(keep, id)
			}
		})
		sort.Slice(keep, func(i, j int) bool { return keep[i] < keep[j] })
		h := &hist{}
		type bcast struct {
			msg       string
			call, ret int
			one       bool
			id        uint64
			err       error
		}
		var sent []*bcast
		type bind struct {
			id        uint64
			k         int // -1: unbound
			call, ret int
		}
		var binds []*bind
		for id, k := range pre {
			binds = append(binds, &bind{id, k, -1, 0})
		}
		stops := map[int]int{}
		var fns []func()
		for i, a := range acts {
			i := i
			f := strings.Split(a, ":")
			var id uint64
			k := 0
			if len(f) > 1 {
				fmt.Sscan(f[1], &id)
			}
			if len(f) > 2 {
				fmt.Sscan(f[2], &k)
			}
			switch f[0] {
			case "set":
				fns = append(fns, func() {
					b := &bind{id: id, k: k, call: h.tick(1)}
					n.SetNotifyID(id, cs[k])
					b.ret = h.tick(2)
					binds = append(binds, b)
				})
			case "del":
				fns = append(fns, func() {
					b := &bind{id: id, k: -1, call: h.tick(1)}
					n.DelNotifyByID(id)
					b.ret = h.tick(2)
					binds = append(binds, b)
				})
			case "note", "noteb":
				fns = append(fns, func() {
					s := &bcast{msg: fmt.Sprintf("n%d", i), one: true, id: id, call: h.tick(1)}
					if f[0] == "note" {
						s.err = n.NotifyToConnByID(id, uint32(i+1), []byte(s.msg))
					} else {
						s.err = n.NotifyBuffToConnByID(id, uint32(i+1), []byte(s.msg))
					}
					s.ret = h.tick(2)
					sent = append(sent, s)
				})
			case "all", "allb":
				fns = append(fns, func() {
					s := &bcast{msg: fmt.Sprintf("n%d", i), call: h.tick(1)}
					if f[0] == "all" {
						_ = n.NotifyAll(uint32(i+1), []byte(s.msg))
					} else {
						_ = n.NotifyBuffAll(uint32(i+1), []byte(s.msg))
					}
					s.ret = h.tick(2)
					sent = append(sent, s)
				})
			case "stop":
				fns = append(fns, func() { stops[k] = h.tick(1); cs[k].Stop() })
				fmt.Sscan(f[1], &k)
			case "full":
				fmt.Sscan(f[1], &k)
				r.peers[k].setWindow(1)
			}
		}
		join(fns...)
		mc.Quiesce()
		mc.Explore(false)
		mc.Advance(50e6)
		mc.Quiesce()
		// which bindings of id can have been in force within [call, ret]
		can := func(id uint64, call, ret int) map[int]bool {
			out := map[int]bool{}
			var mine []*bind
			for _, b := range binds {
				if b.id == id {
					mine = append(mine, b)
				}
			}
			none := true
			for _, b := range mine {
				if b.ret < call {
					none = false
				}
				if b.call > ret {
					continue
				}
				over := false
				for _, o := range mine { // replaced before the notification began?
					if o != b && o.call > b.ret && o.ret < call {
						over = true
					}
				}
				if !over {
					out[b.k] = true
				}
			}
			if none {
				out[-1] = true
			}
			return out
		}
		recv := map[string][]int{} // message -> connections, with repetition
		for k, p := range r.peers {
			for _, f := range p.frames() {
				recv[f.data] = append(recv[f.data], k)
			}
		}
		for _, s := range sent {
			got := recv[s.msg]
			if s.one {
				ok := can(s.id, s.call, s.ret)
				must(len(got) <= 1, "a notification to id %d reached %v", s.id, got)
				if len(got) == 1 {
					must(ok[got[0]], "a notification to id %d reached connection %d, which was not bound to it", s.id, got[0])
					must(s.err == nil || stops[got[0]] > 0, "a notification that arrived was reported as %v", s.err)
				} else if s.err == nil {
					lost := false
					for k := range ok {
						if k >= 0 && stops[k] > 0 {
							lost = true
						}
					}
					must(lost, "a notification to id %d was reported as sent and reached nobody", s.id)
				} else {
					bad := ok[-1]
					for k := range ok {
						if k >= 0 && (stops[k] > 0 || hookDel) {
							bad = true
						}
					}
					must(bad, "id %d was bound throughout, but notifying it failed: %v", s.id, s.err)
				}
				continue
			}
			// broadcast: for every id whose binding did not change, its connection once
			min := map[int]int{}
			max := map[int]int{}
			idset := map[uint64]bool{}
			for _, b := range binds {
				idset[b.id] = true
			}
			for id := range idset {
				ok := can(id, s.call, s.ret)
				for k := range ok {
					if k >= 0 {
						max[k]++
						if len(ok) == 1 && stops[k] == 0 {
							min[k]++
						}
					}
				}
			}
			cnt := map[int]int{}
			for _, k := range got {
				cnt[k]++
			}
			for k := range cs {
				must(cnt[k] >= min[k] && cnt[k] <= max[k], "a broadcast reached connection %d %d times; it was bound %d to %d times", k, cnt[k], min[k], max[k])
			}
		}
		// the final bindings are possible ones, none lost
		ids := map[uint64]bool{}
		for _, b := range binds {
			ids[b.id] = true
		}
		num := 0
		for id := range ids {
			ok := can(id, h.clock+1, h.clock+2)
			x, err := n.GetNotifyByID(id)
			k := -1
			for j, c := range cs {
				if err == nil && x == c {
					k = j
				}
			}
			if k >= 0 {
				num++
			}
			if !ok[k] {
				gone := false
				for j := range ok {
					if hookDel && j >= 0 && stops[j] > 0 && k == -1 {
						gone = true
					}
				}
				must(gone, "id %d ends up bound to %d, possible are %v", id, k, ok)
			}
		}
		eq("bound ids", n.ConnNums(), num)
		mc.Outcome("%v", fmt.Sprint(recv))
	}
}

// ---- C23: properties and close callbacks ---------------------------------------------------

func propSeq(kind string, depth int) func() {
	return func() {
		boot()
		mc.Explore(false)
		r := openRouting(kind, 2, func(*routing) {})
		conns := r.conns()
		n := len(conns)
		m := make([]map[string]interface{}, n)
		for i := range m {
			m[i] = map[string]interface{}{}
		}
		keys := []string{"a", ""}
		vals := []interface{}{1, nil}
		var script []string
		for i := 0; i < depth; i++ {
			mc.Explore(true)
			k := mc.Choose(n)
			key := keys[mc.Choose(2)]
			op := mc.Choose(4)
			mc.Explore(false)
			script = append(script, fmt.Sprintf("%d%q%d", k, key, op))
			switch op {
			case 0, 1:
				conns[k].SetProperty(key, vals[op])
				m[k][key] = vals[op]
			case 2:
				conns[k].RemoveProperty(key)
				delete(m[k], key)
			case 3:
				conns[k].SetProperty(key, i)
				m[k][key] = i
			}
			for j := range conns {
				for _, key := range keys {
					v, err := conns[j].GetProperty(key)
					w, ok := m[j][key]
					must((err == nil) == ok && v == w, "property %q of connection %d after %v: got %v, %v, want %v, %v", key, j, script, v, err, w, ok)
				}
			}
		}
		mc.Outcome("%v", script)
	}
}

// conns are the connections on the routing side, one per peer.
func (r *routing) conns() (out []ziface.IConnection) {
	if r.cli != nil {
		return []ziface.IConnection{r.cli.Conn()}
	}
	for _, p := range r.peers {
		out = append(out, connOf(r.srv, p))
	}
	return out
}

func propRace(kind string, acts ...string) func() {
	return func() {
		boot()
		r := openRouting(kind, 2, func(*routing) {})
		c := r.conns()[0]
		h := &hist{}
		parse := func(st string) map[string]string {
			m := map[string]string{}
			for _, f := range strings.Fields(st) {
				kv := strings.SplitN(f, "=", 2)
				m[kv[0]] = kv[1]
			}
			return m
		}
		show := func(m map[string]string) string {
			var ks []string
			for k, v := range m {
				ks = append(ks, k+"="+v)
			}
			sort.Strings(ks)
			return strings.Join(ks, " ")
		}
		var fns []func()
		for i, a := range acts {
			i, a := i, a
			fns = append(fns, func() {
				for _, op := range strings.Split(a, ",") {
					f := strings.Split(op, ":")
					h.do(op, func() func(string) (string, bool) {
						switch f[0] {
						case "set":
							v := fmt.Sprint(i)
							c.SetProperty(f[1], v)
							return func(st string) (string, bool) { m := parse(st); m[f[1]] = v; return show(m), true }
						case "del":
							c.RemoveProperty(f[1])
							return func(st string) (string, bool) { m := parse(st); delete(m, f[1]); return show(m), true }
						case "stop":
							c.Stop()
							return func(st string) (string, bool) { return st, true }
						}
						v, err := c.GetProperty(f[1])
						return func(st string) (string, bool) {
							w, ok := parse(st)[f[1]]
							return st, ok == (err == nil) && (!ok || v == w)
						}
					})
				}
			})
		}
		join(fns...)
		mc.Quiesce()
		mc.Explore(false)
		for _, k := range []string{"a", "b"} {
			k := k
			h.do("final", func() func(string) (string, bool) {
				v, err := c.GetProperty(k)
				return func(st string) (string, bool) {
					w, ok := parse(st)[k]
					return st, ok == (err == nil) && (!ok || v == w)
				}
			})
		}
		must(linearizable(h.ops, ""), "the property history is not linearizable: %s", h)
		mc.Outcome("ok")
	}
}

type cbItem struct {
	handler, key string
	n            int
}

func cbSeq(kind string, depth int) func() {
	return func() {
		boot()
		mc.Explore(false)
		r := openRouting(kind, 1, func(*routing) {})
		c := r.conns()[0]
		var list []cbItem
		var ran []int
		var script []string
		hs := []string{"h", "g"}
		ks := []interface{}{"k", 1}
		for i := 0; i < depth; i++ {
			i := i
			mc.Explore(true)
			op := mc.Choose(9)
			mc.Explore(false)
			script = append(script, fmt.Sprint(op))
			if op == 8 {
				c.AddCloseCallback("h", "k", nil) // no callback: nothing is added
				continue
			}
			h, k := hs[op&1], ks[op>>1&1]
			if op < 4 {
				c.AddCloseCallback(h, k, func() { ran = append(ran, i) })
				list = append(list, cbItem{h, fmt.Sprint(k), i})
			} else {
				c.RemoveCloseCallback(h, k)
				for j, x := range list {
					if x.handler == h && x.key == fmt.Sprint(k) {
						list = append(list[:j:j], list[j+1:]...)
						break
					}
				}
			}
		}
		eq("callbacks run before the close", len(ran), 0)
		c.Stop()
		mc.Quiesce()
		mc.Advance(50e6)
		mc.Quiesce()
		var want []int
		for _, x := range list {
			want = append(want, x.n)
		}
		eq(fmt.Sprintf("close callbacks run after %v", script), ran, want)
		c.AddCloseCallback("h", "k", func() { ran = append(ran, 99) })
		c.Stop()
		mc.Quiesce()
		eq("callbacks run by a second close", len(ran), len(want))
		mc.Outcome("%v", script)
	}
}

func cbRace(kind string, acts ...string) func() {
	return func() {
		boot()
		r := openRouting(kind, 2, func(*routing) {})
		c := r.conns()[0]
		var ran []string
		add := func(n string) {
			c.AddCloseCallback("h", n, func() { ran = append(ran, n); mc.Share("cb", 1); mc.Yield() })
		}
		mc.NoExplore(func() { add("p"); add("q"); add("r") })
		var fns []func()
		stops := false
		for _, a := range acts {
			f := strings.Split(a, ":")
			switch f[0] {
			case "add":
				fns = append(fns, func() {
					for _, x := range f[1:] {
						add(x)
					}
				})
			case "del":
				fns = append(fns, func() {
					for _, x := range f[1:] {
						c.RemoveCloseCallback("h", x)
					}
				})
			case "stop":
				stops = true
				fns = append(fns, c.Stop)
			case "hangup":
				stops = true
				fns = append(fns, r.peers[0].hangup)
			}
		}
		join(fns...)
		mc.Quiesce()
		mc.Explore(false)
		if !stops {
			c.Stop()
		}
		mc.Quiesce()
		mc.Advance(50e6)
		mc.Quiesce()
		must(r.peers[0].dropped(), "the connection did not end")
		cnt := map[string]int{}
		pos := map[string]int{}
		for i, x := range ran {
			cnt[x]++
			pos[x] = i
			must(cnt[x] == 1, "a close callback ran twice: %v", ran)
		}
		touched := map[string]string{}
		for _, a := range acts {
			f := strings.Split(a, ":")
			for _, x := range f[1:] {
				touched[x] += f[0] + ","
			}
		}
		for _, x := range []string{"p", "q", "r"} {
			switch {
			case touched[x] == "":
				must(cnt[x] == 1, "close callback %s did not run", x)
			case touched[x] == "del," && !stops:
				must(cnt[x] == 0, "removed close callback %s ran", x)
			}
		}
		for x, t := range touched {
			if t == "add," && !stops {
				must(cnt[x] == 1, "added close callback %s did not run", x)
			}
		}
		for _, a := range acts { // added by one goroutine: in its order, and after the first ones
			f := strings.Split(a, ":")
			if f[0] != "add" {
				continue
			}
			prev := -1
			for _, x := range append([]string{"p", "q", "r"}, f[1:]...) {
				if cnt[x] == 0 {
					continue
				}
				must(pos[x] > prev, "close callbacks ran out of order: %v", ran)
				prev = pos[x]
			}
		}
		mc.Outcome("%v", ran)
	}
}

func init() {
	// C17
	for _, k := range []string{TCP, WS, KCP} {
		for _, m := range []string{zconf.WorkerModeHash, zconf.WorkerModeBind, zconf.WorkerModeDynamicBind} {
			a := func(name string, bd int, c asyncCfg) {
				c.kind, c.mode = k, m
				if c.pool == 0 {
					c.pool = 1
				}
				if c.conns == 0 {
					c.conns = 1
				}
				if c.cbs == 0 {
					c.cbs = 1
				}
				if m == zconf.WorkerModeHash {
					bd++
				}
				add(&Scenario{Prop: "C17", Name: fmt.Sprintf("C17/%s-%s-%s", k, m, name), Q: b(bd), T: b(bd + 1), Body: asyncOps(c), Weight: 3,
					Bounds: fmt.Sprintf("%d connections, callback registered %s, result %s", c.conns, c.when, c.result)})
			}
			a("before", 3, asyncCfg{when: "before", result: "once", busy: true})
			a("after", 3, asyncCfg{when: "after", result: "once", busy: true})
			a("late", 3, asyncCfg{when: "late", result: "once"})
			a("other", 3, asyncCfg{when: "other", result: "once"})
			a("nil", 3, asyncCfg{when: "after", result: "once", nilobj: true})
			a("twice", 3, asyncCfg{when: "after", result: "twice"})
			a("twocbs", 3, asyncCfg{when: "after", result: "once", cbs: 2})
			a("panic-before", 2, asyncCfg{when: "after", result: "panic-before", busy: true})
			a("panic-after", 3, asyncCfg{when: "after", result: "panic-after", busy: true})
			a("cb-panic", 3, asyncCfg{when: "after", result: "once", cbfail: true, busy: true})
			a("two-conns", 2, asyncCfg{conns: 2, when: "after", result: "once"})
			a("two-conns-before", 2, asyncCfg{conns: 2, when: "before", result: "once", cbfail: true})
		}
	}
	for _, k := range []string{TCP, WS, KCP} {
		for _, m := range []string{zconf.WorkerModeHash, zconf.WorkerModeBind, zconf.WorkerModeDynamicBind} {
			for _, w := range []string{"before", "after"} {
				for _, h := range []string{"stop", "hangup"} {
					add(&Scenario{Prop: "C17", Name: fmt.Sprintf("C17/gone-%s-%s-%s-%s", k, m, w, h), Q: b(2), T: b(3), Body: asyncGone(k, m, w, h), Weight: 2, Bounds: fmt.Sprintf("the connection ends (%s) while its operation is under way, callback registered %s it", h, w)})
				}
			}
		}
	}
	add(&Scenario{Prop: "C17", Name: "C17/full-queue", Q: b(3), T: b(4), Body: asyncOps(asyncCfg{kind: TCP, mode: zconf.WorkerModeHash, pool: 1, conns: 1, cbs: 1, when: "after", result: "once", busy: true, queue: 1}), Weight: 3, Bounds: "a worker queue of one entry, filled by the next message"})
	add(&Scenario{Prop: "C17", Name: "C17/order-2x2", Q: b(4), T: b(5), Body: opOrder(2, 2, false, []int{5}), Weight: 2, Bounds: "2 submitters x 2 operations under one id"})
	add(&Scenario{Prop: "C17", Name: "C17/order-3x2", Q: b(2), T: b(3), Body: opOrder(3, 2, false, []int{5}), Weight: 2, Bounds: "3 submitters x 2 operations under one id"})
	add(&Scenario{Prop: "C17", Name: "C17/order-panic", Q: b(4), T: b(5), Body: opOrder(2, 2, true, []int{5}), Weight: 2, Bounds: "2 submitters x 2 operations under one id, the first ones panic"})
	add(&Scenario{Prop: "C17", Name: "C17/order-ids", Q: b(3), T: b(4), Body: opOrder(2, 2, true, []int{5, -5}), Weight: 2, Bounds: "2 submitters x 2 operations under two ids"})
	add(&Scenario{Prop: "C17", Name: "C17/full-1", Q: long(b(4)), T: long(b(6)), Body: opFull(2048, 3, 1), Weight: 2, Bounds: "1 submitter of 3 operations behind 2048 that wait"})
	add(&Scenario{Prop: "C17", Name: "C17/full-2", Q: long(b(3)), T: long(b(4)), Body: opFull(2048, 2, 2), Weight: 2, Bounds: "2 submitters of 2 operations behind 2048 that wait"})
	add(&Scenario{Prop: "C17", Name: "C17/ids", Q: data(), Body: opSeq(), Weight: 1, Bounds: "every sequence of 3 operations under 8 ids"})
	// C22
	for _, k := range []string{TCP, WS, KCP} {
		add(&Scenario{Prop: "C22", Name: "C22/" + k + "-seq", Q: data(), Body: notifySeq(k, 4), Weight: 3, Bounds: "every sequence of 4 of 21 operations on 3 ids and 2 connections"})
		add(&Scenario{Prop: "C22", Name: "C22/" + k + "-ids", Q: data(), Body: notifyIds(k), Bounds: "71 ids on 3 connections, one of them perhaps gone"})
		a := func(name string, bd int, pre map[uint64]int, hook bool, acts ...string) {
			add(&Scenario{Prop: "C22", Name: "C22/" + k + "-" + name, Q: b(bd), T: b(bd + 1), Body: notifyRace(k, pre, hook, acts...), Weight: 3, Bounds: fmt.Sprintf("bound before %v, at once %v", pre, acts)})
		}
		two := map[uint64]int{1: 0, 2: 1}
		a("rebind", 3, two, false, "set:1:2", "note:1", "note:2")
		a("rebind2", 3, two, false, "set:1:2", "set:1:1", "note:1")
		a("unbind", 3, two, false, "del:1", "note:1", "noteb:2")
		a("del-set", 3, two, false, "del:1", "set:1:2", "note:1")
		a("all", 3, two, false, "all:0", "all:0")
		a("all-bind", 3, two, false, "all:0", "set:3:2")
		a("all-rebind", 3, two, false, "allb:0", "set:1:2", "del:2")
		a("all-buff", 2, two, false, "allb:0", "all:0", "note:1")
		a("all-set-two", 2, two, false, "all:0", "set:3:2", "set:4:2")
		a("stop-all", 2, two, true, "all:0", "stop:0", "note:2")
		a("stop-note", 2, two, true, "note:1", "stop:0", "set:3:1")
		a("stuck-stop", 2, two, true, "full:0", "all:0", "stop:0", "set:3:2")
	}
	add(&Scenario{Prop: "C22", Name: "C22/tcp-seq-deep", T: data(), Body: notifySeq(TCP, 5), Weight: 5, Bounds: "every sequence of 5 of 21 operations on 3 ids and 2 connections"})
	// C23
	for _, k := range []string{TCP, WS, KCP, "client-tcp", "client-ws"} {
		add(&Scenario{Prop: "C23", Name: "C23/" + k + "-props", Q: data(), Body: propSeq(k, 4), Weight: 2, Bounds: "every sequence of 4 property operations, 2 keys"})
		add(&Scenario{Prop: "C23", Name: "C23/" + k + "-cbs", Q: data(), Body: cbSeq(k, 4), Weight: 2, Bounds: "every sequence of 4 registrations and removals of close callbacks under 4 (handler, key) pairs"})
		add(&Scenario{Prop: "C23", Name: "C23/" + k + "-cbs-deep", T: data(), Body: cbSeq(k, 5), Weight: 2, Bounds: "every sequence of 5 registrations and removals of close callbacks"})
		a := func(name string, bd int, acts ...string) {
			add(&Scenario{Prop: "C23", Name: "C23/" + k + "-" + name, Q: b(bd), T: b(bd + 1), Body: propRace(k, acts...), Weight: 2, Bounds: fmt.Sprintf("property operations at once: %v", acts)})
		}
		a("race-set", 4, "set:a,get:a", "set:a,get:a")
		a("race-del", 4, "set:a,get:a", "del:a,get:a")
		a("race-keys", 3, "set:a,get:b", "set:b,get:a", "del:a")
		a("race-three", 3, "set:a", "set:a,get:a", "get:a,get:a")
		a("race-stop", 3, "set:a,get:a", "set:b,get:a", "stop")
		c := func(name string, bd int, acts ...string) {
			add(&Scenario{Prop: "C23", Name: "C23/" + k + "-" + name, Q: b(bd), T: b(bd + 1), Body: cbRace(k, acts...), Weight: 2, Bounds: fmt.Sprintf("3 close callbacks, at once: %v", acts)})
		}
		c("cb-add", 4, "add:x:y", "add:z")
		c("cb-add-del", 4, "add:x:y", "del:q")
		c("cb-del-del", 4, "del:p", "del:q")
		c("cb-del-all", 4, "del:r:q", "del:p", "add:x")
		c("cb-stop-add", 3, "stop", "add:x:y")
		c("cb-stop-del", 3, "stop", "del:q")
		c("cb-stop-stop", 3, "stop", "hangup", "stop")
		c("cb-stop-mix", 2, "stop", "add:x", "del:p")
	}
}
