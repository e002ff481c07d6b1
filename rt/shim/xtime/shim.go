package xtime

import (
	"time"

	mc "github.com/aceld/zinx/zzmc/mc"
)

func Now() Time                       { return time.Unix(0, mc.NowNano()) }
func Since(t Time) Duration           { return Now().Sub(t) }
func Until(t Time) Duration           { return t.Sub(Now()) }
func Sleep(d Duration)                { mc.Sleep(int64(d)) }
func After(d Duration) *mc.Chan[Time] { return NewTimer(d).C }
func Tick(d Duration) *mc.Chan[Time] {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}

type Timer struct {
	C *mc.Chan[Time]
	h *mc.TimerH
	f func()
}

func (t *Timer) arm(d Duration) {
	if t.f != nil {
		f := t.f
		t.h = mc.AddTimer(int64(d), 0, func() { mc.Go(0, f) })
		return
	}
	c := t.C
	t.h = mc.AddTimer(int64(d), 0, func() { c.TrySendNow(time.Unix(0, mc.NowNano())) })
}

func NewTimer(d Duration) *Timer {
	t := &Timer{C: mc.MakeChan[Time](1)}
	t.arm(d)
	return t
}
func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}
func (t *Timer) Stop() bool { return t.h.Stop() }
func (t *Timer) Reset(d Duration) bool {
	was := t.h.Stop()
	t.arm(d)
	return was
}

type Ticker struct {
	C *mc.Chan[Time]
	h *mc.TimerH
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	t := &Ticker{C: mc.MakeChan[Time](1)}
	t.arm(d)
	return t
}
func (t *Ticker) arm(d Duration) {
	c := t.C
	t.h = mc.AddTimer(int64(d), int64(d), func() { c.TrySendNow(time.Unix(0, mc.NowNano())) })
}
func (t *Ticker) Stop() { t.h.Stop() }
func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.h.Stop()
	t.arm(d)
}
