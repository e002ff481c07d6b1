package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/ziface"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zzmc/mc"
)

// ---- C10: router stages -------------------------------------------------------------

var stageName = []string{"pre", "handle", "post"}

// stage actions; each acts once per request so that Goto cannot loop
const (
	aNone = iota
	aAbort
	aPanic
	aGotoPre
	aGotoHandle
	aGotoPost
	aGotoOver
	aAbortGoto // abort, then go to the last stage: the last call wins
	aGotoAbort
	nActs
)

var actName = []string{"-", "abort", "panic", "goto-pre", "goto-handle", "goto-post", "goto-over", "abort,goto-post", "goto-post,abort"}

// stageModel is the documented meaning of the stages.
func stageModel(acts [3]int) (trace []string) {
	used := [3]bool{}
	for s := 0; s < 3; {
		trace = append(trace, stageName[s])
		if len(trace) > 20 {
			panic("loop")
		}
		next := s + 1
		if !used[s] {
			used[s] = true
			switch acts[s] {
			case aAbort, aGotoOver, aGotoAbort:
				next = 3
			case aPanic:
				return trace
			case aGotoPre:
				next = 0
			case aGotoHandle:
				next = 1
			case aGotoPost, aAbortGoto:
				next = 2
			}
		}
		s = next
	}
	return trace
}

type stager struct {
	acts [3]int
	log  func(req ziface.IRequest, stage string)
	seen map[string][3]bool
}

func (r *stager) run(i int, req ziface.IRequest) {
	key := fmt.Sprintf("%d/%s", req.GetConnection().GetConnID(), req.GetData())
	r.log(req, stageName[i])
	u := r.seen[key]
	if u[i] {
		return
	}
	u[i] = true
	r.seen[key] = u
	switch r.acts[i] {
	case aAbort:
		req.Abort()
	case aPanic:
		panic("handler panic")
	case aGotoPre:
		req.Goto(znet.PRE_HANDLE)
	case aGotoHandle:
		req.Goto(znet.HANDLE)
	case aGotoPost:
		req.Goto(znet.POST_HANDLE)
	case aGotoOver:
		req.Goto(znet.HANDLE_OVER)
	case aAbortGoto:
		req.Abort()
		req.Goto(znet.POST_HANDLE)
	case aGotoAbort:
		req.Goto(znet.POST_HANDLE)
		req.Abort()
	}
}
func (r *stager) PreHandle(req ziface.IRequest)  { r.run(0, req) }
func (r *stager) Handle(req ziface.IRequest)     { r.run(1, req) }
func (r *stager) PostHandle(req ziface.IRequest) { r.run(2, req) }

// side of the exchange that routes: a server or a client
type routing struct {
	srv   ziface.IServer
	cli   ziface.IClient
	peers []*peer
}

func (r *routing) addRouter(id uint32, x ziface.IRouter) {
	if r.srv != nil {
		r.srv.AddRouter(id, x)
	} else {
		r.cli.AddRouter(id, x)
	}
}

// openRouting starts a server (kind tcp, ws, kcp) or a client (kind client-tcp,
// client-ws) and connects n peers.
func openRouting(kind string, n int, setup func(r *routing)) *routing {
	r := &routing{}
	mc.NoExplore(func() {
		if strings.HasPrefix(kind, "client-") {
			k := strings.TrimPrefix(kind, "client-")
			rem := newRemote(k)
			r.cli = newClient(k)
			setup(r)
			r.cli.Start()
			mc.Quiesce()
			r.peers = rem.peers()
			must(len(r.peers) == 1, "the client did not connect")
			return
		}
		serve(kind, func(s ziface.IServer) {
			r.srv = s
			setup(r)
		})
		for i := 0; i < n; i++ {
			p := connect(kind)
			must(p != nil, "refused")
			r.peers = append(r.peers, p)
		}
	})
	return r
}

type stageCfg struct {
	kind    string
	pool    int
	reqPool bool
	race    bool
	acts    []int
}

func stages(c stageCfg) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		g.WorkerPoolSize = uint32(c.pool)
		g.RequestPoolMode = c.reqPool
		var acts [3]int
		mc.Explore(true)
		for i := range acts {
			acts[i] = c.acts[mc.Choose(len(c.acts))]
		}
		if !c.race {
			mc.Explore(false)
		}
		got := map[string][]string{}
		log := func(req ziface.IRequest, stage string) {
			key := fmt.Sprintf("%s %d:%s", req.GetConnection().RemoteAddrString(), req.GetMsgID(), req.GetData())
			got[key] = append(got[key], stage)
			if c.race {
				mc.Yield()
			}
		}
		r := openRouting(c.kind, 2, func(r *routing) {
			r.addRouter(1, &stager{acts: acts, log: log, seen: map[string][3]bool{}})
			for _, id := range []uint32{2, 0, 8, 10, 1<<32 - 1} {
				r.addRouter(id, &stager{log: log, seen: map[string][3]bool{}})
			}
		})
		want := map[string][]string{}
		expect := func(p *peer, id uint32, data string, tr []string) {
			if len(tr) > 0 {
				want[fmt.Sprintf("%s %d:%s", p.remote(), id, data)] = tr
			}
		}
		ms := []frame{{1, "a"}, {9, "u"}, {1, "b"}, {2, "c"}, {9, "v"}, {2, "d"}, {1, "e"}}
		if c.race {
			ms = []frame{{1, "a"}, {9, "u"}, {2, "c"}}
		}
		var fns []func()
		for _, p := range r.peers {
			p := p
			for _, m := range ms {
				switch m.id {
				case 1:
					expect(p, 1, m.data, stageModel(acts))
				case 2:
					expect(p, 2, m.data, []string{"pre", "handle", "post"})
				}
			}
			fns = append(fns, func() {
				for _, m := range ms {
					p.send(tlv(m.id, m.data))
				}
			})
		}
		join(fns...)
		mc.Quiesce()
		eq("the stages run by each request", fmt.Sprint(got), fmt.Sprint(want))
		for _, p := range r.peers {
			must(!p.dropped(), "a connection was ended")
		}
		mc.Outcome("%s,%s,%s", actName[acts[0]], actName[acts[1]], actName[acts[2]])
	}
}

// ---- C11: router slices -----------------------------------------------------------------

const (
	hPlain = iota
	hNext
	hAbort
	hAbortNext
	hNextAbort
	hPanic
	hNextPanic
	hNextNext
	nHandlerActs
)

var hName = []string{"-", "next", "abort", "abort,next", "next,abort", "panic", "next,panic", "next,next"}

type chainStop struct{}

// chainModel runs a chain by its documented meaning.
func chainModel(acts []int) (trace []string) {
	i := 0
	aborted := false
	var rest func()
	one := func(k int) {
		trace = append(trace, fmt.Sprintf("+%d", k))
		switch acts[k] {
		case hNext:
			rest()
		case hAbort:
			aborted = true
		case hAbortNext:
			aborted = true
			rest()
		case hNextAbort:
			rest()
			aborted = true
		case hPanic:
			panic(chainStop{})
		case hNextPanic:
			rest()
			panic(chainStop{})
		case hNextNext:
			rest()
			rest()
		}
		trace = append(trace, fmt.Sprintf("-%d", k))
	}
	rest = func() {
		for i < len(acts) && !aborted {
			k := i
			i++
			one(k)
		}
	}
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(chainStop); !ok {
				panic(x)
			}
		}
	}()
	rest()
	return trace
}

func chains(kind string, n, pool int, reqPool, race, recovery bool, actSet []int) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		g.WorkerPoolSize = uint32(pool)
		g.RequestPoolMode = reqPool
		g.RouterSlicesMode = true
		acts := make([]int, n)
		for i := range acts {
			acts[i] = actSet[mc.Choose(len(actSet))]
		}
		if !race {
			mc.Explore(false)
		}
		got := map[string][]string{}
		mk := func(k, act int) ziface.RouterHandler {
			return func(req ziface.IRequest) {
				key := fmt.Sprintf("%s %d:%s", req.GetConnection().RemoteAddrString(), req.GetMsgID(), req.GetData())
				log := func(s string) { got[key] = append(got[key], fmt.Sprintf("%s%d", s, k)) }
				log("+")
				if race {
					mc.Yield()
				}
				switch act {
				case hNext:
					req.RouterSlicesNext()
				case hAbort:
					req.Abort()
				case hAbortNext:
					req.Abort()
					req.RouterSlicesNext()
				case hNextAbort:
					req.RouterSlicesNext()
					req.Abort()
				case hPanic:
					panic("handler panic")
				case hNextPanic:
					req.RouterSlicesNext()
					panic("handler panic")
				case hNextNext:
					req.RouterSlicesNext()
					req.RouterSlicesNext()
				}
				log("-")
			}
		}
		r := openRouting(kind, 2, func(r *routing) {
			if recovery {
				r.srv.Use(znet.RouterRecovery)
			}
			var hs, ps []ziface.RouterHandler
			for k, a := range acts {
				hs = append(hs, mk(k, a))
				ps = append(ps, mk(k, hPlain))
			}
			r.srv.AddRouterSlices(1, hs...)
			r.srv.AddRouterSlices(2, ps...)
			for _, id := range []uint32{0, 8, 10, 1<<32 - 1} {
				r.srv.AddRouterSlices(id, ps...)
			}
		})
		want := map[string][]string{}
		ms := []frame{{1, "a"}, {9, "u"}, {2, "b"}, {1, "c"}, {2, "d"}}
		if race {
			ms = []frame{{1, "a"}, {9, "u"}, {2, "c"}}
		}
		var fns []func()
		for _, p := range r.peers {
			p := p
			for _, m := range ms {
				a := acts
				if m.id == 2 {
					a = make([]int, n)
				}
				if m.id != 9 {
					want[fmt.Sprintf("%s %d:%s", p.remote(), m.id, m.data)] = chainModel(a)
				}
			}
			fns = append(fns, func() {
				for _, m := range ms {
					p.send(tlv(m.id, m.data))
				}
			})
		}
		join(fns...)
		mc.Quiesce()
		eq("the handlers run by each request", fmt.Sprint(got), fmt.Sprint(want))
		for _, p := range r.peers {
			must(!p.dropped(), "a connection was ended")
		}
		mc.Outcome("%v", acts)
	}
}

// longChain: chains of any length run completely.
func longChain(kind string) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		g.WorkerPoolSize = 1
		g.RouterSlicesMode = true
		n := pick(1, 2, 63, 64, 65, 125, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 300, 400)
		how := mc.Choose(3)
		at := mc.Choose(3)
		mc.Explore(false)
		ran := 0
		stop := n - 1
		if at == 1 {
			stop = n / 2
		} else if at == 2 {
			stop = -1
		}
		var hs []ziface.RouterHandler
		for i := 0; i < n; i++ {
			i := i
			hs = append(hs, func(req ziface.IRequest) {
				if i != ran {
					mc.Fail("handler %d of %d ran after %d handlers", i, n, ran)
				}
				ran++
				if i == stop {
					req.Abort()
				}
				if how == 1 || how == 2 && i%2 == 0 {
					req.RouterSlicesNext()
				}
			})
		}
		r := openRouting(kind, 1, func(r *routing) { r.srv.AddRouterSlices(1, hs...) })
		want := n
		if stop >= 0 {
			want = stop + 1
		}
		for k := 0; k < 2; k++ {
			ran = 0
			r.peers[0].send(tlv(1, "x"))
			mc.Quiesce()
			eq(fmt.Sprintf("handlers run of a chain of %d", n), ran, want)
		}
		mc.Outcome("%d/%d/%d", n, how, at)
	}
}

// registration: every sequence of registrations up to a length.
func registration(depth int) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		g.WorkerPoolSize = 1
		g.RouterSlicesMode = true
		var got []string
		serial := 0
		mk := func(tag string) (ziface.RouterHandler, string) {
			serial++
			name := fmt.Sprintf("%s%d", tag, serial)
			return func(ziface.IRequest) { got = append(got, name) }, name
		}
		var script []string
		want := map[uint32][]string{}
		var ids []uint32
		var global []string
		type grp struct {
			g  ziface.IGroupRouterSlices
			hs []string
		}
		var groups []*grp
		// handlers appended to a common, roomy slice: callers may do that
		shared := make([]ziface.RouterHandler, 1, 8)
		sharedH, sharedN := mk("s")
		shared[0] = sharedH
		mc.Explore(true)
		r := openRouting(TCP, 1, func(r *routing) {
			mc.Explore(true)
			s := r.srv
			next := uint32(1)
			add := func(id uint32, pre []string, names ...string) {
				w := append([]string{}, pre...)
				want[id] = append(w, names...)
				ids = append(ids, id)
			}
			for i := 0; i < depth; i++ {
				n := 5
				if len(groups) > 0 {
					n = 5 + 3*len(groups)
				}
				op := mc.Choose(n)
				script = append(script, fmt.Sprint(op))
				switch op {
				case 0: // global middleware
					h, nm := mk("u")
					s.Use(h)
					global = append(global, nm)
				case 1: // two of them
					h, nm := mk("u")
					h2, nm2 := mk("u")
					s.Use(h, h2)
					global = append(global, nm, nm2)
				case 2: // a route
					h, nm := mk("h")
					s.AddRouterSlices(next, h)
					add(next, global, nm)
					next++
				case 3: // a route from a shared slice
					h, nm := mk("h")
					s.AddRouterSlices(next, append(shared, h)...)
					add(next, global, sharedN, nm)
					next++
				case 4: // a group with a handler
					h, nm := mk("g")
					x := s.Group(1, 100, append(shared, h)...)
					groups = append(groups, &grp{x, []string{sharedN, nm}})
				default:
					gr := groups[(op-5)/3]
					switch (op - 5) % 3 {
					case 0:
						h, nm := mk("gu")
						gr.g.Use(h)
						gr.hs = append(append([]string{}, gr.hs...), nm)
					case 1:
						h, nm := mk("h")
						gr.g.AddHandler(next, h)
						add(next, append(append([]string{}, global...), gr.hs...), nm)
						next++
					case 2:
						h, nm := mk("h")
						gr.g.AddHandler(next, append(shared, h)...)
						add(next, append(append([]string{}, global...), gr.hs...), sharedN, nm)
						next++
					}
				}
			}
			mc.Explore(false)
			shared[0] = nil
		})
		mc.Explore(false)
		for _, id := range ids {
			got = nil
			r.peers[0].send(tlv(id, "x"))
			mc.Quiesce()
			eq(fmt.Sprintf("handlers run for id %d after registrations %v", id, script), got, want[id])
		}
		got = nil
		r.peers[0].send(tlv(99, "x"))
		mc.Quiesce()
		eq("handlers run for an id without route", len(got), 0)
		mc.Outcome("%v", script)
	}
}

// refusals: what cannot be registered is refused and changes nothing.
func refusals() {
	boot()
	g := zconf.GlobalObject
	g.WorkerPoolSize = 1
	g.RouterSlicesMode = mc.Choose(2) == 1
	var got []string
	mk := func(name string) ziface.RouterHandler {
		return func(ziface.IRequest) { got = append(got, name) }
	}
	rt := func(name string) ziface.IRouter {
		return &router{f: func(ziface.IRequest) { got = append(got, name) }}
	}
	want := map[uint32]string{}
	ids := []uint32{0, 4, 5, 6, 7, 8, 100, 1<<32 - 1}
	r := openRouting(TCP, 1, func(r *routing) {
		s := r.srv
		refused := func(what string, f func()) {
			must(catch(f) != nil, "%s was accepted", what)
		}
		if !g.RouterSlicesMode {
			refused("a slice route in router mode", func() { s.AddRouterSlices(1, mk("x")) })
			refused("a group in router mode", func() { s.Group(1, 9, mk("x")) })
			refused("middleware in router mode", func() { s.Use(mk("x")) })
			id, again := ids[mc.Choose(len(ids))], ids[mc.Choose(len(ids))]
			s.AddRouter(id, rt("first"))
			want[id] = "first"
			if again == id {
				refused("a second router for an id", func() { s.AddRouter(again, rt("second")) })
			} else {
				s.AddRouter(again, rt("second"))
				want[again] = "second"
			}
			return
		}
		refused("a router in slices mode", func() { s.AddRouter(1, rt("x")) })
		a, b := uint32(0), uint32(0)
		switch mc.Choose(5) {
		case 0:
			a, b = 5, 7
		case 1:
			a, b = 5, 5
		case 2:
			a, b = 7, 5
		case 3:
			b = 1<<32 - 1
		}
		id := ids[mc.Choose(len(ids))]
		how := mc.Choose(4)
		var gr ziface.IGroupRouterSlices
		if how&1 == 1 {
			gr = s.Group(a, b, mk("g"))
		} else {
			gr = s.Use(mk("u")).Group(a, b, mk("g"))
		}
		pre := ""
		if how&1 == 0 {
			pre = "u "
		}
		if how&2 == 2 { // the id is taken
			s.AddRouterSlices(id, mk("first"))
			want[id] = pre + "first"
			refused("a second route for an id", func() { gr.AddHandler(id, mk("second")) })
			refused("a second route for an id", func() { s.AddRouterSlices(id, mk("second")) })
			return
		}
		if id < a || id > b {
			refused(fmt.Sprintf("id %d in a group for %d to %d", id, a, b), func() { gr.AddHandler(id, mk("h")) })
			s.AddRouterSlices(id, mk("late"))
			want[id] = pre + "late"
		} else {
			gr.AddHandler(id, mk("h"), mk("h2"))
			want[id] = pre + "g h h2"
		}
	})
	for round := 0; round < 2; round++ {
		for _, id := range ids {
			got = nil
			r.peers[0].send(tlv(id, "x"))
			mc.Quiesce()
			eq(fmt.Sprintf("handlers run for id %d", id), strings.Join(got, " "), want[id])
		}
	}
	mc.Outcome("%v", want)
}

// ready: the servers that come with recovery middleware, and the time middleware.
func ready() {
	boot()
	g := zconf.GlobalObject
	g.WorkerPoolSize = uint32(mc.Choose(2))
	setMode(TCP)
	how, timed, bad := mc.Choose(2), mc.Choose(2) == 1, mc.Choose(4)
	reqPool := mc.Choose(2) == 1
	g.RequestPoolMode = reqPool
	var got []string
	mk := func(name string, n int) ziface.RouterHandler {
		return func(req ziface.IRequest) {
			got = append(got, name)
			if n == bad && string(req.GetData()) == "bad" {
				panic("handler panic")
			}
		}
	}
	var s ziface.IServer
	mc.NoExplore(func() {
		if how == 0 {
			s = znet.NewDefaultRouterSlicesServer()
		} else {
			c := *g
			c.RouterSlicesMode = false
			must(catch(func() { znet.NewUserConfDefaultRouterSlicesServer(&c) }) != nil, "a slices server was made of a configuration without slices")
			c.RouterSlicesMode = true
			s = znet.NewUserConfDefaultRouterSlicesServer(&c)
		}
		if timed {
			s.Use(znet.RouterTime)
		}
		s.Use(mk("u", 0))
		gr := s.Group(1, 5, mk("g", 1))
		gr.AddHandler(1, mk("h", 2))
		s.AddRouterSlices(2, mk("k", 2))
		s.Start()
		mc.Quiesce()
	})
	p := connect(TCP)
	must(p != nil, "refused")
	for _, m := range []struct {
		id   uint32
		d    string
		want []string
	}{{1, "ok", []string{"u", "g", "h"}}, {1, "bad", []string{"u", "g", "h"}}, {2, "bad", []string{"u", "k"}}, {1, "ok", []string{"u", "g", "h"}}, {2, "ok", []string{"u", "k"}}} {
		got = nil
		mc.NoExplore(func() {
			p.send(tlv(m.id, m.d))
			mc.Quiesce()
		})
		w := m.want
		if m.d == "bad" {
			for i, n := range w {
				if (n == "u" && bad == 0) || (n == "g" && bad == 1) || (bad == 2 && (n == "h" || n == "k")) {
					w = w[:i+1]
					break
				}
			}
		}
		eq(fmt.Sprintf("handlers run for message %d %q", m.id, m.d), got, w)
	}
	must(!p.dropped(), "a panicking handler ended the connection")
	mc.Outcome("%d", bad)
}

// ---- C12: interceptors --------------------------------------------------------------------

const (
	iPass = iota
	iDrop
	iID   // change the message id
	iData // change the data
	iSwap // pass another request on
	iResp // pass on with a response
	nIcActs
)

var iName = []string{"pass", "drop", "id", "data", "swap", "resp"}

type icpt struct {
	f func(ziface.IChain) ziface.IcResp
}

func (i *icpt) Intercept(c ziface.IChain) ziface.IcResp { return i.f(c) }

func intercepting(kind string, n, pool int, race, slices, reqPool bool, actSet []int) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		g.WorkerPoolSize = uint32(pool)
		g.RouterSlicesMode = slices
		g.RequestPoolMode = reqPool
		acts := make([]int, n)
		for i := range acts {
			acts[i] = actSet[mc.Choose(len(actSet))]
		}
		late := 0
		client := strings.HasPrefix(kind, "client-")
		if !race && !client {
			late = mc.Choose(n + 1) // so many are registered while the server runs
		}
		if !race {
			mc.Explore(false)
		}
		got := map[string][]string{}
		mk := func(k int) ziface.IInterceptor {
			return &icpt{func(ch ziface.IChain) ziface.IcResp {
				req := ch.Request().(ziface.IRequest)
				m := req.GetMessage()
				must(ch.GetIMessage() == m, "the chain's message is not its request's")
				addr := req.GetConnection().RemoteAddrString()
				resp := req.GetResponse()
				rs := ""
				if s, ok := resp.(string); ok {
					rs = s
				}
				body := string(m.GetData())
				got[addr] = append(got[addr], fmt.Sprintf("i%d %d:%s/%s", k, m.GetMsgID(), body, rs))
				if race {
					mc.Yield()
				}
				pass := func(x ziface.IRequest) ziface.IcResp {
					res := ch.Proceed(x)
					must(ch.Request() == ziface.IcReq(req), "interceptor %d sees another request once it has passed its own on", k)
					return res
				}
				switch acts[k] {
				case iDrop:
					return nil
				case iID:
					m.SetMsgID(m.GetMsgID() + 10)
				case iData:
					m.SetData([]byte(body + "!"))
				case iSwap:
					q := znet.NewRequest(req.GetConnection(), m)
					q.SetResponse(req.GetResponse())
					return pass(q)
				case iResp:
					res := ch.ProceedWithIMessage(m, fmt.Sprintf("%sr%d", rs, k))
					must(ch.Request() == ziface.IcReq(req), "interceptor %d sees another request once it has passed its own on", k)
					return res
				}
				return pass(req)
			}}
		}
		handler := func(req ziface.IRequest) {
			addr := req.GetConnection().RemoteAddrString()
			rs := ""
			if s, ok := req.GetResponse().(string); ok {
				rs = s
			}
			got[addr] = append(got[addr], fmt.Sprintf("h %d:%s/%s", req.GetMsgID(), req.GetData(), rs))
		}
		reg := func(r *routing, k int) {
			if r.srv != nil {
				r.srv.AddInterceptor(mk(k))
			} else {
				r.cli.AddInterceptor(mk(k))
			}
		}
		r := openRouting(kind, 2, func(r *routing) {
			for _, id := range []uint32{1, 2, 11, 12, 21, 22, 31, 32, 41, 42} {
				if slices {
					r.srv.AddRouterSlices(id, handler)
				} else {
					r.addRouter(id, &router{f: handler})
				}
			}
			if client { // a client's decoder joins the interceptors when it starts
				return
			}
			for k := 0; k < n-late; k++ {
				reg(r, k)
			}
		})
		mc.NoExplore(func() {
			from := n - late
			if client {
				from = 0
			}
			for k := from; k < n; k++ {
				reg(r, k)
			}
		})
		want := map[string][]string{}
		var fns []func()
		ms := []frame{{1, "a"}, {2, "b"}, {7, "n"}, {1, "c"}}
		if race {
			ms = ms[:2]
		}
		for _, p := range r.peers {
			p := p
			addr := p.remote()
			for _, m := range ms {
				id, data, rs := m.id, p.tag()+m.data, ""
				dropped := false
				for k, a := range acts {
					want[addr] = append(want[addr], fmt.Sprintf("i%d %d:%s/%s", k, id, data, rs))
					switch a {
					case iDrop:
						dropped = true
					case iID:
						id += 10
					case iData:
						data += "!"
					case iResp:
						rs = fmt.Sprintf("%sr%d", rs, k)
					}
					if dropped {
						break
					}
				}
				if !dropped && id%10 < 3 {
					want[addr] = append(want[addr], fmt.Sprintf("h %d:%s/%s", id, data, rs))
				}
			}
			fns = append(fns, func() {
				for _, m := range ms {
					p.send(tlv(m.id, p.tag()+m.data))
					if !race && pool != 1 {
						mc.Quiesce()
					}
				}
			})
		}
		join(fns...)
		mc.Quiesce()
		if pool == 0 { // handlers run in their own goroutines
			for _, m := range []map[string][]string{got, want} {
				for a := range m {
					sort.Strings(m[a])
				}
			}
		}
		if pool > 0 || race { // handlers run later than interceptors: compare per stage
			eq("interceptors and handlers", stagewise(got, n), stagewise(want, n))
		} else {
			eq("interceptors and handlers", fmt.Sprint(got), fmt.Sprint(want))
		}
		mc.Outcome("%v/%d", acts, late)
	}
}

// manyInterceptors: lists of many interceptors, one of which perhaps stops the message.
func manyInterceptors(kind string) func() {
	return func() {
		boot()
		zconf.GlobalObject.WorkerPoolSize = 1
		lens := []int{4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 64, 128, 129, 256, 300}
		n := lens[mc.Choose(len(lens))]
		stop := []int{-1, 0, n / 2, n - 2, n - 1}[mc.Choose(5)]
		late := []int{0, 1, n / 2, n}[mc.Choose(4)]
		client := strings.HasPrefix(kind, "client-")
		if client {
			late = n
		}
		mc.Explore(false)
		var got []string
		mk := func(k int) ziface.IInterceptor {
			return &icpt{func(ch ziface.IChain) ziface.IcResp {
				got = append(got, fmt.Sprintf("i%d", k))
				if k == stop {
					return nil
				}
				return ch.Proceed(ch.Request())
			}}
		}
		r := openRouting(kind, 1, func(r *routing) {
			r.addRouter(1, &router{f: func(ziface.IRequest) { got = append(got, "handler") }})
			for k := 0; k < n-late; k++ {
				r.srv.AddInterceptor(mk(k))
			}
		})
		for k := n - late; k < n; k++ {
			if client {
				r.cli.AddInterceptor(mk(k))
			} else {
				r.srv.AddInterceptor(mk(k))
			}
		}
		var want []string
		for k := 0; k < n; k++ {
			want = append(want, fmt.Sprintf("i%d", k))
			if k == stop {
				break
			}
		}
		if stop < 0 {
			want = append(want, "handler")
		}
		for i := 0; i < 2; i++ {
			got = nil
			r.peers[0].send(tlv(1, "x"))
			mc.Quiesce()
			eq(fmt.Sprintf("message %d through %d interceptors, number %d stops it", i, n, stop), got, want)
		}
		mc.Outcome("%d %d %d", n, stop, late)
	}
}

func (p *peer) tag() string { return fmt.Sprintf("%v|", p.remote()) }

func stagewise(m map[string][]string, n int) string {
	out := map[string]map[string][]string{}
	for a, l := range m {
		out[a] = map[string][]string{}
		for _, s := range l {
			k := strings.SplitN(s, " ", 2)
			out[a][k[0]] = append(out[a][k[0]], k[1])
		}
	}
	return fmt.Sprint(out)
}

// ---- C13: request pooling --------------------------------------------------------------------

// request programs
const (
	pSet = iota // set a context value and a response
	pPlain
	pAbort
	pPanic
	pUnknown
	pCopy  // keep a copy
	pGoto  // router mode only
	pAsync // keep a copy and look at it from another goroutine
	pWrap  // arrives wrapped by an interceptor
	nProgs
)

type keptCopy struct {
	req             ziface.IRequest
	id              uint32
	data, key, resp string
	len             uint32
	raw             string
	has             bool
	other           interface{}
}

type wrapped struct{ ziface.IRequest }

func pooling(kind string, depth, pool int, slices, race, raw bool, progs []int) func() {
	return func() {
		boot()
		g := zconf.GlobalObject
		g.WorkerPoolSize = uint32(pool)
		g.RouterSlicesMode = slices
		g.RequestPoolMode = true
		seq := make([]int, depth)
		for i := range seq {
			seq[i] = progs[mc.Choose(len(progs))]
		}
		if !race {
			mc.Explore(false)
		}
		var copies []*keptCopy
		async := 0
		ran := map[string]int{}
		resp := func(x interface{}) string {
			s, _ := x.(string)
			return s
		}
		look := func(req ziface.IRequest, stage string) (string, string, int) {
			conn := req.GetConnection()
			must(conn != nil, "a handler's request has no connection")
			d := string(req.GetData())
			var addr string
			var prog, i int
			fmt.Sscanf(d, "%d,%d,%s", &prog, &i, &addr)
			eq("the connection of a request", conn.RemoteAddrString(), addr)
			eq("the length of a request's message", req.GetMessage().GetDataLen(), len(d))
			ran[fmt.Sprintf("%s/%d/%s", addr, i, stage)]++
			eq(stage+" ran for one request", ran[fmt.Sprintf("%s/%d/%s", addr, i, stage)], 1)
			return d, addr, prog
		}
		check := func(req ziface.IRequest, stage string) {
			d, addr, prog := look(req, stage)
			if stage == "pre" || slices {
				_, ok := req.Get("k")
				must(!ok, "a fresh request already has a context value")
				want := ""
				if prog == pSet && false {
					want = "r"
				}
				eq("the response of a fresh request", resp(req.GetResponse()), want)
			}
			if race {
				mc.Yield()
			}
			if stage != "handle" && !slices {
				if stage == "post" && prog == pSet {
					v, _ := req.Get("k")
					eq("a context value set earlier in the same request", v, d)
					eq("the response set earlier in the same request", req.GetResponse(), d)
				}
				return
			}
			switch prog {
			case pSet:
				req.Set("k", d)
				req.SetResponse(d)
				if race {
					mc.Yield()
				}
				v, ok := req.Get("k")
				must(ok && v == d, "a context value reads %v instead of %v", v, d)
				eq("the response just set", req.GetResponse(), d)
			case pAbort:
				req.Set("k", d)
				req.Abort()
			case pPanic:
				req.Set("k", d)
				req.SetResponse(d)
				panic("handler panic")
			case pGoto:
				req.Goto(znet.HANDLE_OVER)
			case pCopy, pAsync:
				req.Set("k", d)
				req.SetResponse(d + "resp")
				c := req.Copy()
				kc := &keptCopy{req: c, id: req.GetMsgID(), data: d, key: d, resp: d + "resp", len: req.GetMessage().GetDataLen(), raw: string(req.GetMessage().GetRawData())}
				if prog == pAsync {
					async++
					mc.Spawn("async", func() {
						mc.Yield()
						kc.check("in another goroutine")
						async--
						mc.Share("async", 1)
					})
				}
				copies = append(copies, kc)
				// what is set afterwards stays with its own request
				req.Set("later", 1)
				req.Set("k", "changed")
				req.SetResponse("changed")
				c.Set("copyonly", 1)
				_, leak := req.Get("copyonly")
				must(!leak, "a value set on a copy shows on the original")
			}
			_ = addr
		}
		r := openRouting(kind, 2, func(r *routing) {
			rid := uint32(1)
			if raw { // without a decoder everything has id 0
				r.srv.SetDecoder(nil)
				rid = 0
			}
			if slices {
				r.srv.AddRouterSlices(rid, func(q ziface.IRequest) { check(q, "handle") }, func(q ziface.IRequest) { look(q, "post") })
			} else {
				r.addRouter(rid, &threeStage{check})
			}
			for _, p := range seq {
				if p == pWrap {
					r.srv.AddInterceptor(&icpt{func(ch ziface.IChain) ziface.IcResp {
						req := ch.Request().(ziface.IRequest)
						if strings.HasPrefix(string(req.GetData()), fmt.Sprint(pWrap)) {
							return ch.Proceed(&wrapped{req})
						}
						return ch.Proceed(req)
					}})
					break
				}
			}
		})
		want := map[string]int{}
		var fns []func()
		for _, p := range r.peers {
			p := p
			var out [][]byte
			for i, prog := range seq {
				id := uint32(1)
				if prog == pUnknown {
					id = 9
				}
				body := fmt.Sprintf("%d,%d,%s", prog, i, p.remote())
				if raw {
					out = append(out, []byte(body))
				} else {
					out = append(out, tlv(id, body))
				}
				k := func(s string) { want[fmt.Sprintf("%s/%d/%s", p.remote(), i, s)] = 1 }
				if prog == pUnknown {
					continue
				}
				if !slices {
					k("pre")
				}
				k("handle")
				if prog != pAbort && prog != pPanic && prog != pGoto {
					k("post")
				}
			}
			fns = append(fns, func() {
				for _, f := range out {
					p.send(f)
					if !race {
						mc.Quiesce()
						for _, c := range copies {
							c.check("later")
						}
					}
				}
			})
		}
		join(fns...)
		mc.Quiesce()
		mc.WaitUntil("async", func() bool { return async == 0 })
		for _, c := range copies {
			c.check("at the end")
		}
		eq("the stages that ran", fmt.Sprint(ran), fmt.Sprint(want))
		for _, p := range r.peers {
			must(!p.dropped(), "a connection was ended")
		}
		mc.Outcome("%v", seq)
	}
}

func (c *keptCopy) check(when string) {
	r := c.req
	eq("message id of a copy "+when, r.GetMsgID(), c.id)
	eq("data of a copy "+when, string(r.GetData()), c.data)
	eq("data length of a copy "+when, r.GetMessage().GetDataLen(), c.len)
	eq("raw data of a copy "+when, string(r.GetMessage().GetRawData()), c.raw)
	v, ok := r.Get("k")
	must(ok && v == c.key, "context value of a copy %s: got %v, want %v", when, v, c.key)
	_, ok = r.Get("later")
	must(!ok, "a value set on the original after the copy shows on the copy")
	eq("response of a copy "+when, r.GetResponse(), c.resp)
}

type threeStage struct {
	f func(req ziface.IRequest, stage string)
}

func (t *threeStage) PreHandle(r ziface.IRequest)  { t.f(r, "pre") }
func (t *threeStage) Handle(r ziface.IRequest)     { t.f(r, "handle") }
func (t *threeStage) PostHandle(r ziface.IRequest) { t.f(r, "post") }

func seqInts(n int) (out []int) {
	for i := 0; i < n; i++ {
		out = append(out, i)
	}
	return out
}

func init() {
	// C10
	for _, k := range []string{TCP, WS, KCP, "client-tcp", "client-ws"} {
		for _, pool := range []int{0, 1, 2} {
			if strings.HasPrefix(k, "client") && pool > 0 {
				continue
			}
			for _, rp := range []bool{false, true} {
				n := fmt.Sprintf("C10/%s-pool%d", k, pool)
				if rp {
					n += "-reqpool"
				}
				add(&Scenario{Prop: "C10", Name: n, Q: data(), Body: stages(stageCfg{kind: k, pool: pool, reqPool: rp, acts: seqInts(nActs)}), Weight: 2, Bounds: "every combination of 9 actions in the 3 stages, 7 requests on each of 2 connections"})
				q := b(1)
				if pool == 1 {
					q = b(2)
				}
				add(&Scenario{Prop: "C10", Name: n + "-race", Q: q, T: b(2), Body: stages(stageCfg{kind: k, pool: pool, reqPool: rp, race: true, acts: []int{aNone, aAbort, aPanic}}), Weight: 4, Bounds: "every combination of 3 actions in the 3 stages, 3 concurrent requests on each of 2 connections"})
			}
		}
	}
	// C11
	for _, k := range []string{TCP, WS, KCP} {
		for _, pool := range []int{0, 1} {
			for _, rp := range []bool{false, true} {
				n := fmt.Sprintf("C11/%s-pool%d", k, pool)
				if rp {
					n += "-reqpool"
				}
				add(&Scenario{Prop: "C11", Name: n, Q: data(), Body: chains(k, 3, pool, rp, false, false, seqInts(nHandlerActs)), Weight: 2, Bounds: "every chain of 3 handlers with 8 behaviours, 5 requests on each of 2 connections"})
				add(&Scenario{Prop: "C11", Name: n + "-4", T: data(), Body: chains(k, 4, pool, rp, false, false, seqInts(nHandlerActs)), Weight: 2, Bounds: "every chain of 4 handlers with 8 behaviours"})
				add(&Scenario{Prop: "C11", Name: n + "-race", Q: b(2), T: b(3), Body: chains(k, 2, pool, rp, true, false, []int{hPlain, hNext, hAbort, hPanic}), Weight: 4, Bounds: "every chain of 2 handlers with 4 behaviours, 3 concurrent requests on each of 2 connections"})
			}
		}
		add(&Scenario{Prop: "C11", Name: "C11/" + k + "-long", Q: data(), Body: longChain(k), Weight: 2, Bounds: "chains of 18 lengths up to 400, with and without next and abort"})
		add(&Scenario{Prop: "C11", Name: "C11/" + k + "-recovery", Q: data(), Body: chains(k, 3, 1, false, false, true, seqInts(nHandlerActs)), Weight: 2, Bounds: "every chain of 3 handlers with 8 behaviours behind the recovery middleware"})
	}
	add(&Scenario{Prop: "C11", Name: "C11/refusals", Q: data(), Body: refusals, Bounds: "5 group ranges x 8 ids, ids taken twice, registrations of the other mode; requests to all ids"})
	add(&Scenario{Prop: "C11", Name: "C11/ready", Q: data(), Body: ready, Bounds: "the two servers with recovery, time middleware, a panic at each place of a chain"})
	add(&Scenario{Prop: "C11", Name: "C11/registration", Q: data(), Body: registration(5), Weight: 4, Bounds: "every sequence of 5 registrations (global and group middleware, groups, routes)"})
	add(&Scenario{Prop: "C11", Name: "C11/registration-deep", T: data(), Body: registration(6), Weight: 6, Bounds: "every sequence of 6 registrations"})
	// C12
	for _, k := range []string{TCP, WS, KCP, "client-tcp", "client-ws"} {
		add(&Scenario{Prop: "C12", Name: "C12/" + k + "-many", Q: data(), Body: manyInterceptors(k), Bounds: "lists of 18 lengths up to 300, registered before and after the start, one of them perhaps stops the message"})
		for _, pool := range []int{0, 1, 2} {
			cl := strings.HasPrefix(k, "client")
			if cl && pool > 0 {
				continue
			}
			n := fmt.Sprintf("C12/%s-pool%d", k, pool)
			add(&Scenario{Prop: "C12", Name: n, Q: data(), Body: intercepting(k, 3, pool, false, false, false, seqInts(nIcActs)), Weight: 3, Bounds: "every list of 3 interceptors with 6 behaviours, 4 messages on each of 2 connections"})
			add(&Scenario{Prop: "C12", Name: n + "-4", T: data(), Body: intercepting(k, 4, pool, false, false, false, seqInts(nIcActs)), Weight: 3, Bounds: "every list of 4 interceptors with 6 behaviours"})
			add(&Scenario{Prop: "C12", Name: n + "-race", Q: b(2), T: b(3), Body: intercepting(k, 2, pool, true, false, false, []int{iPass, iDrop, iID, iResp}), Weight: 4, Bounds: "every list of 2 interceptors with 4 behaviours, 2 concurrent messages on each of 2 connections"})
			if !cl {
				add(&Scenario{Prop: "C12", Name: n + "-slices", Q: data(), Body: intercepting(k, 2, pool, false, true, false, seqInts(nIcActs)), Weight: 2, Bounds: "router slices: every list of 2 interceptors with 6 behaviours"})
				add(&Scenario{Prop: "C12", Name: n + "-reqpool", Q: data(), Body: intercepting(k, 2, pool, false, false, true, seqInts(nIcActs)), Weight: 2, Bounds: "request pool: every list of 2 interceptors with 6 behaviours"})
			}
		}
	}
	// C13
	for _, k := range []string{TCP, WS, KCP} {
		for _, pool := range []int{0, 1, 2} {
			for _, sl := range []bool{false, true} {
				n := fmt.Sprintf("C13/%s-pool%d", k, pool)
				ps := seqInts(nProgs)
				if sl {
					n += "-slices"
					ps = []int{pSet, pPlain, pAbort, pPanic, pUnknown, pCopy, pAsync, pWrap}
				}
				add(&Scenario{Prop: "C13", Name: n, Q: data(), Body: pooling(k, 3, pool, sl, false, false, ps), Weight: 3, Bounds: "every sequence of 3 requests with 9 behaviours on each of 2 connections"})
				rs := []int{pSet, pPlain, pAbort, pPanic, pCopy, pAsync, pWrap}
				add(&Scenario{Prop: "C13", Name: n + "-raw", Q: data(), Body: pooling(k, 3, pool, sl, false, true, rs), Weight: 3, Bounds: "without a decoder: every sequence of 3 requests with 7 behaviours on each of 2 connections"})
				if k == WS {
					pd := b(1)
					pd.PoolDev = true
					add(&Scenario{Prop: "C13", Name: n + "-raw-race", Q: pd, Body: pooling(k, 2, pool, sl, true, true, []int{pSet, pAbort, pPanic, pAsync}), Weight: 4, Bounds: "without a decoder: every sequence of 2 requests with 4 behaviours, concurrently on 2 connections"})
				}
				add(&Scenario{Prop: "C13", Name: n + "-4", T: data(), Body: pooling(k, 4, pool, sl, false, false, ps), Weight: 3, Bounds: "every sequence of 4 requests with 9 behaviours"})
				pd := b(2)
				pd.PoolDev = true
				pd3 := b(3)
				pd3.PoolDev = true
				add(&Scenario{Prop: "C13", Name: n + "-race", Q: pd, T: pd3, Body: pooling(k, 2, pool, sl, true, false, []int{pSet, pAbort, pPanic, pAsync}), Weight: 4, Bounds: "every sequence of 2 requests with 4 behaviours, concurrently on 2 connections, any pool Get may miss"})
			}
		}
	}
}
