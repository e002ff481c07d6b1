package mc

import (
	"runtime"
)

type plainError string

func (e plainError) Error() string { return string(e) }
func (e plainError) RuntimeError() {}

type waiter struct {
	t   *Thread
	seq uint64
	sel *selState // the select or single operation it is part of
	idx int
}

type selState struct {
	done bool
	idx  int
}

// Chan models a Go channel.
type Chan[T any] struct {
	o      Obj
	buf    []T
	capa   int
	closed bool
	// announced operations that are waiting on an unbuffered channel
	recvq []*rop[T]
	sendq []*rop[T]
}

type rop[T any] struct {
	t   *Thread
	sel *selState
	idx int
	v   T
	ok  bool
	vc  VC
	h   uint64
}

func MakeChan[T any](n int) *Chan[T] {
	if n < 0 {
		panic(plainError("makechan: size out of range"))
	}
	return &Chan[T]{capa: n}
}

func (c *Chan[T]) fresh(s *Sched) {
	if c.o.gen != s.gen {
		c.o.touch(s)
		c.recvq, c.sendq = nil, nil
	}
}

func (c *Chan[T]) Len() int {
	if c == nil {
		return 0
	}
	s := S
	if s == nil || s.aborting {
		return len(c.buf)
	}
	s.point("len(chan)", nil)
	c.fresh(s)
	s.hr(&c.o, 50)
	return len(c.buf)
}

func (c *Chan[T]) Cap() int {
	if c == nil {
		return 0
	}
	return c.capa
}

func (c *Chan[T]) canSend() bool {
	return c != nil && (c.closed || len(c.buf) < c.capa || hasLive(c.recvq))
}
func (c *Chan[T]) canRecv() bool {
	return c != nil && (len(c.buf) > 0 || c.closed || hasLive(c.sendq))
}

func hasLive[T any](q []*rop[T]) bool {
	for _, r := range q {
		if !r.sel.done {
			return true
		}
	}
	return false
}

func popLive[T any](q *[]*rop[T]) *rop[T] {
	for len(*q) > 0 {
		r := (*q)[0]
		*q = (*q)[1:]
		if !r.sel.done {
			return r
		}
	}
	return nil
}

func drop[T any](q *[]*rop[T], r *rop[T]) {
	for i, x := range *q {
		if x == r {
			*q = append(append([]*rop[T]{}, (*q)[:i]...), (*q)[i+1:]...)
			return
		}
	}
}

// doSend executes a send that is known to be possible.
func (c *Chan[T]) doSend(s *Sched, v T) {
	c.fresh(s)
	if c.closed {
		s.hr(&c.o, 51)
		panic(plainError("send on closed channel"))
	}
	if r := popLive(&c.recvq); r != nil {
		r.sel.done = true
		r.sel.idx = r.idx
		r.v, r.ok = v, true
		// rendezvous: each side is ordered with the other
		s.hw(&c.o, 52)
		s.setH(r.t, mix(r.t.h, c.o.h, 53))
		tv := append(VC{}, s.cur.vc...)
		s.cur.vc.join(r.t.vc)
		r.t.vc.join(tv)
		bump(s.cur)
		bump(r.t)
		return
	}
	c.buf = append(c.buf, v)
	s.hw(&c.o, 54)
	// buffered: send happens before the matching receive (and slot reuse orders
	// later sends after earlier receives); one clock per channel is a sound
	// over-approximation of the ordering for the codes checked here.
	s.acq(&c.o)
	s.rel(&c.o)
}

func bump(t *Thread) {
	t.vc.grow(t.id + 1)
	t.vc[t.id]++
}

func (c *Chan[T]) doRecv(s *Sched) (v T, ok bool) {
	c.fresh(s)
	if len(c.buf) > 0 {
		v = c.buf[0]
		var z T
		c.buf[0] = z
		c.buf = c.buf[1:]
		s.hw(&c.o, 55)
		s.acq(&c.o)
		s.rel(&c.o)
		return v, true
	}
	if c.closed {
		s.hr(&c.o, 56)
		s.acq(&c.o)
		return v, false
	}
	if r := popLive(&c.sendq); r != nil {
		r.sel.done = true
		r.sel.idx = r.idx
		v = r.v
		s.hw(&c.o, 57)
		s.setH(r.t, mix(r.t.h, c.o.h, 58))
		tv := append(VC{}, s.cur.vc...)
		s.cur.vc.join(r.t.vc)
		r.t.vc.join(tv)
		bump(s.cur)
		bump(r.t)
		return v, true
	}
	panic("mc: recv not possible")
}

func blockForever(s *Sched, what string) {
	s.point(what, func() bool { return false })
	panic("unreachable")
}

func BlockForever() {
	s := S
	if s == nil {
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	blockForever(s, "select{}")
}

func (c *Chan[T]) Send(v T) {
	s := S
	if s == nil {
		if c != nil {
			c.buf = append(c.buf, v)
		}
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	if c == nil {
		blockForever(s, "send on nil channel")
	}
	c.fresh(s)
	st := &selState{}
	var r *rop[T]
	if c.capa == 0 {
		r = &rop[T]{t: s.cur, sel: st, v: v}
		c.sendq = append(c.sendq, r)
	}
	s.point("chan send", func() bool { return st.done || c.canSend() })
	if st.done {
		return
	}
	if r != nil {
		drop(&c.sendq, r)
	}
	st.done = true
	c.doSend(s, v)
}

func (c *Chan[T]) Recv() T {
	v, _ := c.Recv2()
	return v
}

func (c *Chan[T]) Recv2() (v T, ok bool) {
	s := S
	if s == nil {
		if c != nil && len(c.buf) > 0 {
			v = c.buf[0]
			c.buf = c.buf[1:]
			return v, true
		}
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	if c == nil {
		blockForever(s, "receive from nil channel")
	}
	c.fresh(s)
	st := &selState{}
	var r *rop[T]
	if c.capa == 0 {
		r = &rop[T]{t: s.cur, sel: st}
		c.recvq = append(c.recvq, r)
	}
	s.point("chan receive", func() bool { return st.done || c.canRecv() })
	if st.done {
		return r.v, r.ok
	}
	if r != nil {
		drop(&c.recvq, r)
	}
	st.done = true
	return c.doRecv(s)
}

func (c *Chan[T]) Close() {
	s := S
	if s == nil {
		return
	}
	if s.aborting {
		return
	}
	if c == nil {
		panic(plainError("close of nil channel"))
	}
	s.point("chan close", nil)
	c.CloseNow()
}

// CloseNow closes without a scheduling point of its own.
func (c *Chan[T]) CloseNow() {
	s := S
	c.fresh(s)
	if c.closed {
		s.hr(&c.o, 59)
		panic(plainError("close of closed channel"))
	}
	c.closed = true
	s.hw(&c.o, 60)
	s.rel(&c.o)
}

// TrySendNow is a non-blocking send without a scheduling point (timers).
func (c *Chan[T]) TrySendNow(v T) bool {
	s := S
	c.fresh(s)
	if c.closed || !(len(c.buf) < c.capa || hasLive(c.recvq)) {
		s.hr(&c.o, 61)
		return false
	}
	c.doSend(s, v)
	return true
}

// DrainNow empties the buffer without a scheduling point (timer resets).
func (c *Chan[T]) DrainNow() {
	if S != nil {
		c.fresh(S)
	}
	c.buf = nil
}

// Case is one communication clause of a select statement.
type Case interface {
	ready() bool
	enqueue(s *Sched, st *selState, i int)
	dequeue()
	exec(s *Sched)
	finish()
	what() string
}

type RCase[T any] struct {
	c  *Chan[T]
	V  T
	Ok bool
	r  *rop[T]
}

func (c *Chan[T]) RecvCase() *RCase[T] { return &RCase[T]{c: c} }

func (k *RCase[T]) ready() bool { return k.c.canRecv() }
func (k *RCase[T]) enqueue(s *Sched, st *selState, i int) {
	if k.c == nil {
		return
	}
	k.c.fresh(s)
	if k.c.capa == 0 {
		k.r = &rop[T]{t: s.cur, sel: st, idx: i}
		k.c.recvq = append(k.c.recvq, k.r)
	}
}
func (k *RCase[T]) dequeue() {
	if k.r != nil {
		drop(&k.c.recvq, k.r)
	}
}
func (k *RCase[T]) exec(s *Sched) { k.V, k.Ok = k.c.doRecv(s) }
func (k *RCase[T]) finish()       { k.V, k.Ok = k.r.v, k.r.ok }
func (k *RCase[T]) what() string  { return "recv" }

type SCase[T any] struct {
	c *Chan[T]
	v T
	r *rop[T]
}

func (c *Chan[T]) SendCase(v T) *SCase[T] { return &SCase[T]{c: c, v: v} }

func (k *SCase[T]) ready() bool { return k.c.canSend() }
func (k *SCase[T]) enqueue(s *Sched, st *selState, i int) {
	if k.c == nil {
		return
	}
	k.c.fresh(s)
	if k.c.capa == 0 {
		k.r = &rop[T]{t: s.cur, sel: st, idx: i, v: k.v}
		k.c.sendq = append(k.c.sendq, k.r)
	}
}
func (k *SCase[T]) dequeue() {
	if k.r != nil {
		drop(&k.c.sendq, k.r)
	}
}
func (k *SCase[T]) exec(s *Sched) { k.c.doSend(s, k.v) }
func (k *SCase[T]) finish()       {}
func (k *SCase[T]) what() string  { return "send" }

// Select executes a select statement; -1 means the default clause.
func Select(site uint32, hasDefault bool, cases ...Case) int {
	s := S
	if s == nil {
		for i, k := range cases {
			if k.ready() {
				return i
			}
		}
		return -1
	}
	if s.aborting {
		runtime.Goexit()
	}
	t := s.cur
	st := &selState{}
	if !hasDefault {
		// waiting on unbuffered channels is visible to partners
		for i, k := range cases {
			k.enqueue(s, st, i)
		}
	}
	anyReady := func() bool {
		if st.done || hasDefault {
			return true
		}
		for _, k := range cases {
			if k.ready() {
				return true
			}
		}
		return false
	}
	s.point("select@"+SiteName(site), anyReady)
	if st.done {
		for _, k := range cases {
			k.dequeue()
		}
		cases[st.idx].finish()
		return st.idx
	}
	if !hasDefault {
		for _, k := range cases {
			k.dequeue()
		}
	}
	st.done = true
	var rd [16]int
	ready := rd[:0]
	for i, k := range cases {
		if k.ready() {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		// default clause: depends on the emptiness of every channel named
		s.setH(t, mix(t.h, uint64(site), 62))
		return -1
	}
	pick := 0
	if len(ready) > 1 {
		// fairness: do not let one always-ready case starve the others
		if t.selSite == site && t.selCnt >= 3 {
			for i, x := range ready {
				if x == t.selIdx {
					pick = (i + 1) % len(ready)
				}
			}
		}
		if s.cfg.SelDev && s.exploring && s.noexp == 0 {
			c, ok := s.decide(len(ready), 1, 1, false)
			if !ok {
				runtime.Goexit()
			}
			pick = (pick + c) % len(ready)
		}
	}
	i := ready[pick]
	if len(ready) > 1 {
		if t.selSite == site && t.selIdx == i {
			t.selCnt++
		} else {
			t.selSite, t.selIdx, t.selCnt = site, i, 1
		}
	}
	s.setH(t, mix(t.h, uint64(i), 63))
	cases[i].exec(s)
	return i
}
