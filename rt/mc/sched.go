// Package mc is a stateless model checker for Go code whose synchronisation
// operations have been redirected to it (see /verif/engine/rewrite.go).
//
// One managed goroutine ("thread") runs at a time.  Every synchronisation
// operation is a scheduling point: the thread announces the operation together
// with a predicate telling whether it can proceed, and the scheduler decides
// which thread executes its announced operation next.  The sequence of
// decisions identifies an execution; explore.go enumerates them.
package mc

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
)

type VC []uint32

func (v *VC) grow(n int) {
	for len(*v) < n {
		*v = append(*v, 0)
	}
}
func (v *VC) join(o VC) {
	v.grow(len(o))
	w := *v
	for i, x := range o {
		if x > w[i] {
			w[i] = x
		}
	}
}
func (v VC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func mix(a, b, c uint64) uint64 {
	h := a*0x9E3779B97F4A7C15 ^ (b+0x7F4A7C159E3779B9)*0xBF58476D1CE4E5B9 ^ (c+0x94D049BB133111EB)*0xD6E8FEB86659FD93
	h ^= h >> 31
	h *= 0xD6E8FEB86659FD93
	h ^= h >> 29
	h *= 0x94D049BB133111EB
	h ^= h >> 32
	return h
}

func HashStr(s string) uint64 {
	h := uint64(1469598103934665603)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return mix(h, uint64(len(s)), 77)
}

// Obj is the model-checking state of one synchronisation object.  Its zero
// value is ready for use; the generation stamp makes an object that survives
// from an earlier execution start afresh.
type Obj struct {
	gen uint32
	h   uint64
	vc  VC
}

var genCounter uint32

// touch prepares o for the current execution and reports whether it is new to it.
func (o *Obj) touch(s *Sched) bool {
	if o.gen != s.gen {
		t := s.cur
		t.objc++
		*o = Obj{gen: s.gen, h: mix(t.h, t.objc, 3)}
		return true
	}
	return false
}

type Thread struct {
	handed  bool
	id      int
	name    string
	wake    chan struct{}
	done    bool
	enabled func() bool
	idle    bool
	desc    string
	dobj    string
	vc      VC
	h       uint64
	objc    uint64
	// select fairness
	selSite uint32
	selIdx  int
	selCnt  int
	// completion by a rendezvous partner
	completed bool
	waitSel   *selState
	waitSeq   uint64
	harness   bool
}

type dec struct {
	n     uint8
	c     uint8
	cost1 uint8 // cost of any non-default alternative
	spent uint8 // spent before this decision
	kind  uint8 // 0 thread, 1 select, 2 data, 3 fault
	clock bool  // last option is the clock
}

type Failure struct {
	Kind string
	Msg  string
}

type Config struct {
	Bound      int
	FreeSwitch bool  // switching away from a blocked thread costs nothing
	ClockDev   bool  // a timer may fire while threads are runnable (cost 1)
	ClockMax   int64 // how far the clock may run ahead at such a moment; 0: any
	MapChoice  bool  // map iteration may start anywhere (cost 1)
	SelDev     bool  // a select may take any ready case (cost 1)
	PoolDev    bool  // sync.Pool.Get may miss although the pool holds an object (cost 1)
	MaxSteps   int   // points per execution
	MaxLoops   int   // hooked steps per execution
	Horizon    int64
	NoCache    bool
	NoRace     bool // no memory hooks
	Fair       int
}

type Sched struct {
	gen       uint32
	cfg       *Config
	threads   []*Thread
	live      []*Thread // the threads that have not ended, by id; without the clock
	clk       *Thread
	cur       *Thread
	main      *Thread
	aborting  bool
	pruned    bool
	fail      *Failure
	finish    chan struct{}
	exited    chan struct{}
	ended     bool
	exploring bool
	noexp     int

	prefix  []uint8
	prefixN []uint8
	trace   []dec
	spent   int
	diverg  string

	now     int64
	timers  []*timer
	tmSeq   uint64
	waitSeq uint64

	sum    uint64
	steps  int
	loops  int
	consec int
	polls  int
	opts   []*Thread

	ex *Explorer

	shadows  map[uintptrKey]*shadow
	evObj    Obj
	events   []Event
	outcome  strings.Builder
	notes    []string
	verbose  bool
	log      []string
	locals   map[string]interface{}
	onceVals map[string]interface{}
}

// S is the execution in progress, nil outside of one.
var S *Sched

const never = int64(1) << 62

func (s *Sched) setH(t *Thread, h uint64) {
	s.sum -= mix(uint64(t.id), t.h, 11)
	t.h = h
	s.sum += mix(uint64(t.id), h, 11)
}

// hw: a state-changing operation of the current thread on o.
func (s *Sched) hw(o *Obj, code uint64) {
	t := s.cur
	nh := mix(t.h, o.h, code)
	s.setH(t, nh)
	o.h = nh
}

// hr: an operation that only reads o.  Readers leave no trace on o: what a
// thread observed is in its own hash, and the sum of the thread hashes
// determines every thread's and object's state.
func (s *Sched) hr(o *Obj, code uint64) {
	t := s.cur
	nh := mix(t.h, o.h, code)
	s.setH(t, nh)
}

func (s *Sched) acq(o *Obj) { s.cur.vc.join(o.vc) }
func (s *Sched) rel(o *Obj) {
	t := s.cur
	o.vc.join(t.vc)
	t.vc.grow(t.id + 1)
	t.vc[t.id]++
}

func (s *Sched) newThread(name string, fn func()) *Thread {
	p := s.cur
	t := &Thread{id: len(s.threads), name: name, wake: make(chan struct{}, 1)}
	if p != nil {
		p.objc++
		t.h = mix(p.h, p.objc, 21)
		t.vc = append(t.vc, p.vc...)
		p.vc.grow(p.id + 1)
		p.vc[p.id]++
	}
	t.vc.grow(t.id + 1)
	t.vc[t.id]++
	s.threads = append(s.threads, t)
	if t.id > 0 {
		s.live = append(s.live, t)
	}
	s.sum += mix(uint64(t.id), t.h, 11)
	t.desc = "start"
	if fn != nil {
		go func() {
			<-t.wake
			// A thread that ends without handing over to another one has
			// ended the execution or is being unwound: the explorer waits
			// for it.
			defer func() {
				if !t.handed {
					s.exited <- struct{}{}
				}
			}()
			defer func() {
				s.threadExit(t, recover())
			}()
			if s.aborting {
				return
			}
			fn()
		}()
	}
	return t
}

func (s *Sched) threadExit(t *Thread, r interface{}) {
	t.done = true
	for i, x := range s.live {
		if x == t {
			s.live = append(s.live[:i], s.live[i+1:]...)
			break
		}
	}
	if s.aborting {
		return
	}
	if r != nil {
		s.failNoExit("panic", fmt.Sprintf("unrecovered panic in %s: %v\n%s", t.name, r, trimStack(string(debug.Stack()))))
		s.end()
		return
	}
	if t == s.main {
		s.end()
		return
	}
	nx := s.pick(t)
	if nx == nil {
		return
	}
	s.cur = nx
	t.handed = true
	nx.wake <- struct{}{}
}

func trimStack(st string) string {
	lines := strings.Split(st, "\n")
	var out []string
	for i := 0; i < len(lines); i++ {
		l := lines[i]
		if strings.Contains(l, "zinx/") && !strings.Contains(l, "zzmc/mc") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 12 {
		out = out[:12]
	}
	return strings.Join(out, "\n")
}

// end signals the explorer that this execution is over.
func (s *Sched) end() {
	if !s.ended {
		s.ended = true
		s.finish <- struct{}{}
	}
}

func (s *Sched) failNoExit(kind, msg string) {
	if s.fail == nil {
		s.fail = &Failure{kind, msg}
	}
}

// Fail ends the execution with a violation of the property being checked.
func Fail(format string, args ...interface{}) {
	s := S
	if s == nil {
		panic(fmt.Sprintf("mc.Fail outside an execution: "+format, args...))
	}
	s.fatal("property", fmt.Sprintf(format, args...))
}

func (s *Sched) fatal(kind, msg string) {
	if s.aborting {
		runtime.Goexit()
	}
	s.failNoExit(kind, msg)
	s.leave()
}

// leave: end the execution from the current thread.
func (s *Sched) leave() {
	t := s.cur
	s.aborting = true
	s.end()
	_ = t
	runtime.Goexit()
}

// point announces the current thread's next operation and returns once it has
// been chosen to execute it.
func (s *Sched) point(desc string, en func() bool) {
	t := s.cur
	if s.aborting {
		runtime.Goexit()
	}
	t.desc = desc
	t.enabled = en
	s.polls = 0
	nx := s.pick(t)
	if nx == nil {
		runtime.Goexit()
	}
	if nx != t {
		s.consec = 0
		s.cur = nx
		nx.wake <- struct{}{}
		<-t.wake
		if s.aborting {
			runtime.Goexit()
		}
	}
	t.enabled = nil
	s.setH(t, mix(t.h, 17, 5)) // progress of this thread
	if s.verbose && s.noexp == 0 {
		s.log = append(s.log, fmt.Sprintf("%8.1fms T%d %s: %s", float64(s.now)/1e6, t.id, t.name, desc))
	}
	t.desc = ""
}

func (s *Sched) dumpThreads() string {
	var b strings.Builder
	for _, t := range s.threads[1:] {
		if t.done {
			continue
		}
		fmt.Fprintf(&b, "  T%d %s: blocked at %s\n", t.id, t.name, t.desc)
	}
	return b.String()
}

// pick chooses the thread to run next; nil when the execution is over.
func (s *Sched) pick(cur *Thread) *Thread {
	for {
		s.steps++
		if s.steps > s.cfg.MaxSteps {
			s.failNoExit("livelock", fmt.Sprintf("no end after %d scheduling points (virtual time %dms)\n%s", s.steps, s.now/1e6, s.dumpThreads()))
			s.aborting = true
			s.end()
			return nil
		}
		opts := s.opts[:0]
		curOK := false
		if !cur.done && !cur.idle && (cur.enabled == nil || cur.enabled()) {
			opts = append(opts, cur)
			curOK = true
		}
		var idle *Thread
		lv := s.live
		at := 0
		for at < len(lv) && lv[at].id <= cur.id {
			at++
		}
		for i := range lv {
			k := at + i
			if k >= len(lv) {
				k -= len(lv)
			}
			t := lv[k]
			if t == cur && curOK {
				continue
			}
			if t.idle {
				if idle == nil || t.id < idle.id {
					idle = t
				}
				continue
			}
			if t == cur {
				continue
			}
			if t.enabled == nil || t.enabled() {
				opts = append(opts, t)
			}
		}
		s.opts = opts
		if curOK {
			s.consec++
		} else {
			s.consec = 0
		}
		if len(opts) == 0 {
			if idle != nil {
				idle.idle = false
				return idle
			}
			if !s.fireNext(true) {
				return nil
			}
			continue
		}
		if curOK && s.consec > s.cfg.Fair {
			s.consec = 0
			if len(opts) > 1 {
				copy(opts, opts[1:])
				opts[len(opts)-1] = cur
			} else if idle == nil && s.nextTimer() != nil {
				if !s.fireNext(true) {
					return nil
				}
				continue
			} else if idle != nil {
				// only a spinning thread is runnable: treat the system as quiescent
				idle.idle = false
				return idle
			}
		}
		clock := s.cfg.ClockDev && s.exploring && s.noexp == 0
		if clock {
			tm := s.nextTimer()
			clock = tm != nil && (s.cfg.ClockMax == 0 || tm.when-s.now <= s.cfg.ClockMax)
		}
		k := len(opts)
		if clock {
			k++
		}
		if k == 1 || !s.exploring || s.noexp > 0 {
			return opts[0]
		}
		cost := uint8(1)
		if !curOK && s.cfg.FreeSwitch {
			cost = 0
		}
		c, ok := s.decide(k, cost, 0, clock)
		if !ok {
			return nil
		}
		if clock && c == k-1 {
			if !s.fireNext(false) {
				return nil
			}
			continue
		}
		return opts[c]
	}
}

// decide resolves one nondeterministic choice between n options.
func (s *Sched) decide(n int, cost uint8, kind uint8, clock bool) (int, bool) {
	if n > 250 {
		panic("mc: too many options")
	}
	i := len(s.trace)
	c := 0
	if i < len(s.prefix) {
		c = int(s.prefix[i])
		if c >= n || (s.prefixN != nil && int(s.prefixN[i]) != n) {
			s.diverg = fmt.Sprintf("choice %d: %d of %d options", i, c, n)
			s.failNoExit("divergence", s.diverg)
			s.aborting = true
			s.end()
			return 0, false
		}
	} else if s.ex != nil && !s.cfg.NoCache {
		left := s.cfg.Bound - s.spent
		sig := mix(s.sum, uint64(s.cur.id)<<8|uint64(kind), uint64(s.now))
		if s.consec > s.cfg.Fair/2 {
			sig = mix(sig, uint64(s.consec), 9)
		}
		if s.ex.seen(sig, left) {
			s.pruned = true
			s.aborting = true
			s.end()
			return 0, false
		}
	}
	s.trace = append(s.trace, dec{uint8(n), uint8(c), cost, uint8(s.spent), kind, clock})
	if c > 0 {
		if clock && c == n-1 && kind == 0 {
			s.spent++
		} else {
			s.spent += int(cost)
		}
	}
	return c, true
}

func (d dec) altCost(alt int) int {
	if alt == 0 {
		return 0
	}
	if d.clock && d.kind == 0 && alt == int(d.n)-1 {
		return 1
	}
	return int(d.cost1)
}

// Choose is a data choice of the harness or the environment: all n values are
// explored at no cost.
func Choose(n int) int {
	s := S
	if n <= 1 {
		return 0
	}
	if s.aborting {
		runtime.Goexit()
	}
	c, ok := s.decide(n, 0, 2, false)
	if !ok {
		runtime.Goexit()
	}
	s.setH(s.cur, mix(s.cur.h, uint64(c), 31))
	return c
}

// Deviate is a choice whose non-zero values cost one deviation each.
func Deviate(n int) int {
	s := S
	if n <= 1 || !s.exploring || s.noexp > 0 {
		return 0
	}
	if s.aborting {
		runtime.Goexit()
	}
	c, ok := s.decide(n, 1, 3, false)
	if !ok {
		runtime.Goexit()
	}
	s.setH(s.cur, mix(s.cur.h, uint64(c), 32))
	return c
}

// Go starts a managed thread.
func Go(site uint32, fn func()) {
	s := S
	if s == nil {
		return // package initialisation before the first execution
	}
	if s.aborting {
		runtime.Goexit()
	}
	s.newThread("go@"+SiteName(site), fn)
	// the new thread is runnable from here on; the spawning thread keeps
	// running until its next operation, before which the new one may run.
}

// Spawn starts a harness thread.
func Spawn(name string, fn func()) {
	s := S
	t := s.newThread(name, fn)
	t.harness = true
}

// Yield is a bare scheduling point.
func Yield() {
	s := S
	if s == nil {
		return
	}
	s.point("yield", nil)
}

// Gosched gives the other threads a turn.
func Gosched() {
	s := S
	if s == nil {
		return
	}
	s.consec = s.cfg.Fair + 1
	s.point("gosched", nil)
}

// Quiesce blocks until no other thread can run without time advancing, and
// orders the caller after everything that happened so far.
func Quiesce() {
	s := S
	t := s.cur
	if s.aborting {
		runtime.Goexit()
	}
	t.idle = true
	s.pointIdle("quiesce")
	s.joinAll()
}

func (s *Sched) pointIdle(desc string) {
	t := s.cur
	t.desc = desc
	nx := s.pick(t)
	if nx == nil {
		runtime.Goexit()
	}
	if nx != t {
		s.consec = 0
		s.cur = nx
		nx.wake <- struct{}{}
		<-t.wake
		if s.aborting {
			runtime.Goexit()
		}
	}
	t.idle = false
	t.desc = ""
}

func (s *Sched) joinAll() {
	t := s.cur
	h := t.h
	for _, o := range s.threads {
		if o != t {
			t.vc.join(o.vc)
			h = mix(h, o.h, uint64(o.id))
		}
	}
	s.setH(t, h)
	// and everything later is after this point
	t.vc.grow(t.id + 1)
	t.vc[t.id]++
	for _, o := range s.threads {
		if o != t && !o.done {
			o.vc.join(t.vc)
		}
	}
}

// WaitUntil blocks until cond holds; cond is evaluated between steps of other
// threads and must be a pure function of harness state.
func WaitUntil(what string, cond func() bool) {
	s := S
	s.point("wait for "+what, cond)
	s.joinAll()
}

// Idle reports which threads other than the caller are still alive.
func Alive() []string {
	s := S
	var out []string
	for _, t := range s.threads[1:] {
		if !t.done && t != s.cur {
			out = append(out, fmt.Sprintf("T%d %s at %s", t.id, t.name, t.desc))
		}
	}
	return out
}

// AliveAt counts live threads (other than the caller) whose creation site contains sub.
func AliveAt(sub string) int {
	n := 0
	for _, a := range Alive() {
		if strings.Contains(a, sub) {
			n++
		}
	}
	return n
}

// NoExplore runs f under the default schedule without branching.
func NoExplore(f func()) {
	s := S
	s.noexp++
	f()
	s.noexp--
}

// Explore switches branching on or off from here on (it starts on).
func Explore(on bool) { S.exploring = on }

func CurThread() int {
	if S == nil {
		return 0
	}
	return S.cur.id
}

// CurName names the running thread.
func CurName() string { return S.cur.name }

func Spent() int { return S.spent }

// Aborting reports that the execution is being torn down.
func Aborting() bool { return S != nil && S.aborting }

// Event is an entry of the execution's global event log.
type Event struct {
	T int
	K string
	A []int64
}

func (e Event) String() string {
	if len(e.A) == 0 {
		return e.K
	}
	x := make([]string, len(e.A))
	for i, a := range e.A {
		x[i] = fmt.Sprint(a)
	}
	return e.K + "(" + strings.Join(x, ",") + ")"
}

// Ev appends to the event log.  The log is shared state: its order is part of
// what the explorer distinguishes.
func Ev(k string, a ...int64) {
	s := S
	if s == nil || s.aborting {
		return
	}
	o := &s.evObj
	o.touch(s)
	hc := HashStr(k)
	for _, x := range a {
		hc = mix(hc, uint64(x), 13)
	}
	s.hw(o, hc)
	s.events = append(s.events, Event{s.cur.id, k, a})
	if s.verbose {
		s.log = append(s.log, fmt.Sprintf("      EVENT T%d %s", s.cur.id, Event{s.cur.id, k, a}))
	}
}

func Events() []Event { return S.events }

func EvString() string {
	var b strings.Builder
	for i, e := range S.events {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(e.String())
	}
	return b.String()
}

// Outcome adds to the description of what this execution observably did.
func Outcome(format string, args ...interface{}) {
	fmt.Fprintf(&S.outcome, format, args...)
	S.outcome.WriteByte(';')
}

// Share marks the current thread's step as touching shared harness state named k.
func Share(k string, v int64) {
	s := S
	o := s.harnessObj(k)
	s.hw(o, uint64(v))
}

func (s *Sched) harnessObj(k string) *Obj {
	if v, ok := s.locals[k]; ok {
		o := v.(*Obj)
		o.touch(s)
		return o
	}
	o := &Obj{}
	if s.locals == nil {
		s.locals = map[string]interface{}{}
	}
	s.locals[k] = o
	o.touch(s)
	return o
}

// Local returns a per-execution singleton (for shims that keep registries).
func Local(k string, mk func() interface{}) interface{} {
	s := S
	if s == nil {
		return mk()
	}
	if s.onceVals == nil {
		s.onceVals = map[string]interface{}{}
	}
	v, ok := s.onceVals[k]
	if !ok {
		v = mk()
		s.onceVals[k] = v
	}
	return v
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
