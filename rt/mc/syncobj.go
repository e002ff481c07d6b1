package mc

import (
	"runtime"
	"unsafe"
)

// Mutex models sync.Mutex.
type Mutex struct {
	o      Obj
	locked bool
}

func (m *Mutex) fresh(s *Sched) {
	if m.o.touch(s) {
		m.locked = false
	}
}

func (m *Mutex) Lock() {
	s := S
	if s == nil {
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	m.fresh(s)
	s.point("Mutex.Lock", func() bool { return !m.locked })
	m.locked = true
	s.hw(&m.o, 70)
	s.acq(&m.o)
}

func (m *Mutex) TryLock() bool {
	s := S
	if s == nil {
		return true
	}
	if s.aborting {
		runtime.Goexit()
	}
	m.fresh(s)
	s.point("Mutex.TryLock", nil)
	if m.locked {
		s.hr(&m.o, 71)
		return false
	}
	m.locked = true
	s.hw(&m.o, 72)
	s.acq(&m.o)
	return true
}

func (m *Mutex) Unlock() {
	s := S
	if s == nil || s.aborting {
		return
	}
	m.fresh(s)
	if !m.locked {
		s.fatal("fatal", "fatal error: sync: unlock of unlocked mutex in "+s.cur.name+"\n"+stackOf())
	}
	m.locked = false
	s.hw(&m.o, 73)
	s.rel(&m.o)
}

// RWMutex models sync.RWMutex with the runtime's writer preference.
type RWMutex struct {
	o       Obj
	ro      Obj // readers' releases
	readers int
	writer  bool // a writer holds the lock or is waiting for readers to leave
	held    bool
}

func (m *RWMutex) fresh(s *Sched) {
	if m.o.touch(s) {
		m.ro = Obj{}
		m.ro.touch(s)
		m.readers, m.writer, m.held = 0, false, false
	}
}

func (m *RWMutex) Lock() {
	s := S
	if s == nil {
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	m.fresh(s)
	s.point("RWMutex.Lock", func() bool { return !m.writer })
	m.writer = true
	s.hw(&m.o, 74)
	if m.readers > 0 {
		s.point("RWMutex.Lock(wait readers)", func() bool { return m.readers == 0 })
	}
	m.held = true
	s.hw(&m.o, 75)
	s.acq(&m.o)
	s.acq(&m.ro)
}

func (m *RWMutex) TryLock() bool {
	s := S
	if s == nil {
		return true
	}
	if s.aborting {
		runtime.Goexit()
	}
	m.fresh(s)
	s.point("RWMutex.TryLock", nil)
	if m.writer || m.readers > 0 {
		s.hr(&m.o, 76)
		return false
	}
	m.writer, m.held = true, true
	s.hw(&m.o, 77)
	s.acq(&m.o)
	s.acq(&m.ro)
	return true
}

func (m *RWMutex) Unlock() {
	s := S
	if s == nil || s.aborting {
		return
	}
	m.fresh(s)
	if !m.held {
		s.fatal("fatal", "fatal error: sync: Unlock of unlocked RWMutex in "+s.cur.name+"\n"+stackOf())
	}
	m.writer, m.held = false, false
	s.hw(&m.o, 78)
	s.rel(&m.o)
}

func (m *RWMutex) RLock() {
	s := S
	if s == nil {
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	m.fresh(s)
	s.point("RWMutex.RLock", func() bool { return !m.writer })
	m.readers++
	s.hr(&m.o, 79)
	s.acq(&m.o)
}

func (m *RWMutex) TryRLock() bool {
	s := S
	if s == nil {
		return true
	}
	if s.aborting {
		runtime.Goexit()
	}
	m.fresh(s)
	s.point("RWMutex.TryRLock", nil)
	s.hr(&m.o, 80)
	if m.writer {
		return false
	}
	m.readers++
	s.acq(&m.o)
	return true
}

func (m *RWMutex) RUnlock() {
	s := S
	if s == nil || s.aborting {
		return
	}
	m.fresh(s)
	if m.readers <= 0 {
		s.fatal("fatal", "fatal error: sync: RUnlock of unlocked RWMutex in "+s.cur.name+"\n"+stackOf())
	}
	m.readers--
	s.setH(s.cur, mix(s.cur.h, 81, 82))
	s.rel(&m.ro)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() interface {
	Lock()
	Unlock()
} {
	return (*rlocker)(m)
}

// WaitGroup models sync.WaitGroup.
type WaitGroup struct {
	o Obj
	n int
}

func (w *WaitGroup) Add(d int) {
	s := S
	if s == nil || s.aborting {
		return
	}
	if w.o.touch(s) {
		w.n = 0
	}
	s.point("WaitGroup.Add", nil)
	w.n += d
	s.hw(&w.o, 83+uint64(int64(d))<<8)
	if d < 0 {
		s.rel(&w.o)
	}
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	s := S
	if s == nil {
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	if w.o.touch(s) {
		w.n = 0
	}
	s.point("WaitGroup.Wait", func() bool { return w.n == 0 })
	s.hr(&w.o, 84)
	s.acq(&w.o)
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(0, func() {
		defer w.Done()
		f()
	})
}

// Once models sync.Once.
type Once struct {
	o       Obj
	done    bool
	running bool
}

func (x *Once) Do(f func()) {
	s := S
	if s == nil {
		if !x.done {
			x.done = true
			f()
		}
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	if x.o.touch(s) {
		x.done, x.running = false, false
	}
	s.point("Once.Do", func() bool { return x.done || !x.running })
	if x.done {
		s.hr(&x.o, 85)
		s.acq(&x.o)
		return
	}
	x.running = true
	s.hw(&x.o, 86)
	defer func() {
		if s.aborting {
			return
		}
		x.done, x.running = true, false
		s.hw(&x.o, 87)
		s.rel(&x.o)
	}()
	f()
}

// Pool models sync.Pool: a stack of which any Get may miss.
type Pool struct {
	o    Obj
	New  func() any
	free []any
}

func (p *Pool) Get() any {
	s := S
	if s == nil {
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	if s.aborting {
		runtime.Goexit()
	}
	if p.o.touch(s) {
		p.free = nil
	}
	s.point("Pool.Get", nil)
	s.hw(&p.o, 88)
	s.acq(&p.o)
	if n := len(p.free); n > 0 {
		if s.cfg.PoolDev && Deviate(2) == 1 {
			if p.New != nil {
				return p.New()
			}
			return nil
		}
		x := p.free[n-1]
		p.free = p.free[:n-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	s := S
	if s == nil || x == nil || s.aborting {
		return
	}
	if p.o.touch(s) {
		p.free = nil
	}
	s.point("Pool.Put", nil)
	s.hw(&p.o, 89)
	s.rel(&p.o)
	p.free = append(p.free, x)
}

// Cond models sync.Cond.
type Cond struct {
	L interface {
		Lock()
		Unlock()
	}
	o    Obj
	wait []*bool
}

func (c *Cond) Wait() {
	s := S
	if s == nil {
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	c.o.touch(s)
	woken := false
	c.wait = append(c.wait, &woken)
	s.hw(&c.o, 90)
	c.L.Unlock()
	s.point("Cond.Wait", func() bool { return woken })
	s.hr(&c.o, 91)
	s.acq(&c.o)
	c.L.Lock()
}
func (c *Cond) Signal() {
	s := S
	if s == nil || s.aborting {
		return
	}
	c.o.touch(s)
	s.point("Cond.Signal", nil)
	s.hw(&c.o, 92)
	s.rel(&c.o)
	if len(c.wait) > 0 {
		*c.wait[0] = true
		c.wait = c.wait[1:]
	}
}
func (c *Cond) Broadcast() {
	s := S
	if s == nil || s.aborting {
		return
	}
	c.o.touch(s)
	s.point("Cond.Broadcast", nil)
	s.hw(&c.o, 93)
	s.rel(&c.o)
	for _, w := range c.wait {
		*w = true
	}
	c.wait = nil
}

// Map models sync.Map.
type Map struct {
	o    Obj
	keys []any
	m    map[any]any
}

func (m *Map) op(write bool, what string) {
	s := S
	if m.m == nil {
		m.m = map[any]any{}
	}
	if s == nil {
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	if m.o.touch(s) {
		m.m, m.keys = map[any]any{}, nil
	}
	s.point("sync.Map."+what, nil)
	s.acq(&m.o)
	if write {
		s.hw(&m.o, HashStr(what))
		s.rel(&m.o)
	} else {
		s.hr(&m.o, HashStr(what))
	}
}
func (m *Map) Load(k any) (any, bool) { m.op(false, "Load"); v, ok := m.m[k]; return v, ok }
func (m *Map) set(k, v any) {
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) del(k any) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
			return
		}
	}
}
func (m *Map) Store(k, v any) { m.op(true, "Store"); m.set(k, v) }
func (m *Map) Clear()         { m.op(true, "Clear"); m.m, m.keys = map[any]any{}, nil }
func (m *Map) Delete(k any)   { m.op(true, "Delete"); m.del(k) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	m.op(true, "LoadOrStore")
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	m.op(true, "LoadAndDelete")
	v, ok := m.m[k]
	m.del(k)
	return v, ok
}
func (m *Map) Swap(k, v any) (any, bool) {
	m.op(true, "Swap")
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, o, n any) bool {
	m.op(true, "CompareAndSwap")
	if x, ok := m.m[k]; ok && x == o {
		m.set(k, n)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o any) bool {
	m.op(true, "CompareAndDelete")
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Range(f func(k, v any) bool) {
	m.op(false, "Range")
	for _, k := range append([]any{}, m.keys...) {
		m.op(false, "Range")
		v, ok := m.m[k]
		if ok && !f(k, v) {
			return
		}
	}
}

// AtomicOp is the scheduling point of an atomic operation on the word at p.
func AtomicOp(p unsafe.Pointer, write bool, code uint64) {
	s := S
	if s == nil {
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	sh := s.atomicShadow(p)
	s.point("atomic", nil)
	sh.o.touch(s)
	s.atomicCheck(sh, write)
	s.acq(&sh.o)
	if write {
		s.hw(&sh.o, code)
		s.rel(&sh.o)
	} else {
		s.hr(&sh.o, code)
	}
}

// ShimPoint is a scheduling point of an environment shim on object o.
func ShimPoint(o *Obj, desc string, en func() bool) {
	s := S
	if s.aborting {
		runtime.Goexit()
	}
	o.touch(s)
	s.point(desc, en)
}

// ShimEffect records that the current thread has just changed (or observed) o.
func ShimEffect(o *Obj, write bool, code uint64) {
	s := S
	if s == nil || s.aborting {
		return
	}
	o.touch(s)
	s.acq(o)
	if write {
		s.hw(o, code)
		s.rel(o)
	} else {
		s.hr(o, code)
	}
}

// Mix and Hash help shims to hash data.
func Mix(a, b uint64) uint64 { return mix(a, b, 101) }
func HashBytes(b []byte) uint64 {
	return HashStr(string(b))
}
