package xsync

import mc "github.com/aceld/zinx/zzmc/mc"

type (
	Mutex     = mc.Mutex
	RWMutex   = mc.RWMutex
	WaitGroup = mc.WaitGroup
	Once      = mc.Once
	Pool      = mc.Pool
	Cond      = mc.Cond
	Map       = mc.Map
)

type Locker interface {
	Lock()
	Unlock()
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}
