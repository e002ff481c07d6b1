package mc

import (
	"cmp"
	"fmt"
	"reflect"
	"runtime"
	"slices"
	"unsafe"
)

type uintptrKey struct {
	p unsafe.Pointer // keeps the memory alive, so no address is reused within an execution
	m bool
}

type repoch struct {
	t    int
	c    uint32
	site uint32
}

type shadow struct {
	wT    int
	wC    uint32
	wSite uint32
	reads []repoch
	o     Obj
	init  bool
}

// SiteNames is filled by the rewriter's generated table.
var SiteNames []string

func SiteName(i uint32) string {
	if int(i) < len(SiteNames) {
		return SiteNames[i]
	}
	return fmt.Sprintf("site%d", i)
}

func (s *Sched) memAccess(key uintptrKey, site uint32, write bool) {
	s.loops++
	if s.loops > s.cfg.MaxLoops {
		s.fatal("livelock", fmt.Sprintf("more than %d memory operations in one execution, last at %s", s.cfg.MaxLoops, SiteName(site)))
	}
	if s.cfg.NoRace {
		return
	}
	sh := s.shadows[key]
	if sh == nil {
		sh = &shadow{wT: -1}
		s.shadows[key] = sh
	}
	if s.ex != nil && !key.m && s.ex.promotedSite(site) && s.cur != s.clk {
		if write {
			s.point("write "+SiteName(site), nil)
		} else {
			s.point("read "+SiteName(site), nil)
		}
		sh.o.touch(s)
		if write {
			s.hw(&sh.o, uint64(site))
		} else {
			s.hr(&sh.o, uint64(site))
		}
	}
	t := s.cur
	if sh.wT >= 0 && sh.wT != t.id && sh.wC > t.vc.at(sh.wT) {
		s.race(key, sh.wSite, site, true, write)
	}
	if write {
		for _, r := range sh.reads {
			if r.t != t.id && r.c > t.vc.at(r.t) {
				s.race(key, r.site, site, false, true)
			}
		}
		sh.reads = sh.reads[:0]
		sh.wT, sh.wC, sh.wSite = t.id, t.vc.at(t.id), site
		return
	}
	c := t.vc.at(t.id)
	for i := range sh.reads {
		if sh.reads[i].t == t.id {
			sh.reads[i].c, sh.reads[i].site = c, site
			return
		}
	}
	sh.reads = append(sh.reads, repoch{t.id, c, site})
}

func (s *Sched) race(key uintptrKey, a, b uint32, aw, bw bool) {
	if key.m {
		rw := func(w bool) string {
			if w {
				return "write"
			}
			return "read"
		}
		s.fatal("maprace", fmt.Sprintf("fatal error: concurrent map access: %s at %s and %s at %s are not ordered by any synchronisation", rw(aw), SiteName(a), rw(bw), SiteName(b)))
	}
	if s.ex != nil {
		s.ex.addRace(a, b)
	}
}

// atomicAccess is called by the sync/atomic shim: plain accesses to the same
// word that are not ordered with it become scheduling points.
func (s *Sched) atomicShadow(p unsafe.Pointer) *shadow {
	key := uintptrKey{p, false}
	sh := s.shadows[key]
	if sh == nil {
		sh = &shadow{wT: -1}
		s.shadows[key] = sh
	}
	return sh
}

func (s *Sched) atomicCheck(sh *shadow, write bool) {
	t := s.cur
	if sh.wT >= 0 && sh.wT != t.id && sh.wC > t.vc.at(sh.wT) && s.ex != nil {
		s.ex.addRace(sh.wSite, sh.wSite)
	}
	if write {
		for _, r := range sh.reads {
			if r.t != t.id && r.c > t.vc.at(r.t) && s.ex != nil {
				s.ex.addRace(r.site, r.site)
			}
		}
	}
}

// R notes a read of *p and returns p.
func R[T any](p *T, site uint32) *T {
	s := S
	if s == nil || s.aborting || p == nil {
		return p
	}
	s.memAccess(uintptrKey{unsafe.Pointer(p), false}, site, false)
	return p
}

// W notes a write of *p and returns p.
func W[T any](p *T, site uint32) *T {
	s := S
	if s == nil || s.aborting || p == nil {
		return p
	}
	s.memAccess(uintptrKey{unsafe.Pointer(p), false}, site, true)
	return p
}

// Ref is a location about to be assigned.
type Ref[T any] struct {
	p    *T
	site uint32
}

func L[T any](p *T, site uint32) Ref[T] { return Ref[T]{p, site} }

func (r Ref[T]) Set(v T) { *W(r.p, r.site) = v }

func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// M notes a read of map m.
func M[MT ~map[K]V, K comparable, V any](m MT, site uint32) MT {
	s := S
	if s == nil || s.aborting || m == nil {
		return m
	}
	s.memAccess(uintptrKey{mapPtr[MT, K, V](m), true}, site, false)
	return m
}

// MW notes a write of map m.
func MW[MT ~map[K]V, K comparable, V any](m MT, site uint32) MT {
	s := S
	if s == nil || s.aborting || m == nil {
		return m
	}
	s.memAccess(uintptrKey{mapPtr[MT, K, V](m), true}, site, true)
	return m
}

// Entry is one element of a map iteration.
type Entry[K comparable, V any] struct {
	m    map[K]V
	k    K
	site uint32
}

func (e Entry[K, V]) Get() (K, V, bool) {
	v, ok := e.m[e.k]
	if ok {
		if s := S; s != nil && !s.aborting {
			s.memAccess(uintptrKey{mapPtr[map[K]V, K, V](e.m), true}, e.site, false)
		}
	}
	return e.k, v, ok
}

// MapIter lists the entries of m in a deterministic order.
func MapIter[MT ~map[K]V, K comparable, V any](m MT, site uint32) []Entry[K, V] {
	M[MT, K, V](m, site)
	out := make([]Entry[K, V], 0, len(m))
	for k := range m {
		out = append(out, Entry[K, V]{m, k, site})
	}
	sortEntries(out)
	s := S
	if s != nil && !s.aborting && s.cfg.MapChoice && len(out) > 1 && s.exploring && s.noexp == 0 {
		n := len(out)
		if n > 4 {
			n = 4
		}
		c, ok := s.decide(n, 1, 3, false)
		if !ok {
			runtime.Goexit()
		}
		s.setH(s.cur, mix(s.cur.h, uint64(c), 33))
		out = append(append([]Entry[K, V]{}, out[c:]...), out[:c]...)
	}
	return out
}

func sortEntries[K comparable, V any](out []Entry[K, V]) {
	if len(out) < 2 {
		return
	}
	slices.SortFunc(out, func(a, b Entry[K, V]) int { return cmpAny(a.k, b.k) })
}

func cmpAny(a, b interface{}) int {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Kind() != vb.Kind() {
		return cmp.Compare(va.Kind(), vb.Kind())
	}
	switch va.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return cmp.Compare(va.Int(), vb.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return cmp.Compare(va.Uint(), vb.Uint())
	case reflect.String:
		return cmp.Compare(va.String(), vb.String())
	case reflect.Float32, reflect.Float64:
		return cmp.Compare(va.Float(), vb.Float())
	case reflect.Ptr, reflect.Chan, reflect.Func, reflect.UnsafePointer, reflect.Map:
		return 0 // no stable order
	}
	return cmp.Compare(fmt.Sprintf("%v", a), fmt.Sprintf("%v", b))
}

// Loop is called on every iteration of every loop.
func Loop() {
	s := S
	if s == nil {
		return
	}
	if s.aborting {
		s.loops++
		if s.loops > 3*s.cfg.MaxLoops {
			runtime.Goexit()
		}
		return
	}
	s.loops++
	if s.loops > s.cfg.MaxLoops {
		s.fatal("livelock", fmt.Sprintf("an unbounded loop: more than %d loop iterations and memory operations in one execution, in thread %s\n%s", s.cfg.MaxLoops, s.cur.name, string(stackOf())))
	}
}

func stackOf() string {
	buf := make([]byte, 8192)
	return trimStack(string(buf[:runtime.Stack(buf, false)]))
}

// package state reset --------------------------------------------------

var resets []func()

// RegisterReset is called (in package initialisation order) by every rewritten
// package; f re-runs the package's variable initialisers and init functions.
func RegisterReset(f func()) { resets = append(resets, f) }

// Restart re-runs the initialisation of all packages, as a new process would.
func Restart() {
	NoExplore(func() {
		for _, f := range resets {
			f()
		}
	})
}

func Zero[T any](p *T) {
	var z T
	*p = z
}

var Used int

// Hint bounds a map's size hint.
func Hint(n int) int {
	if n > 8 {
		return 8
	}
	return n
}
