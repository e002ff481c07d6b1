package xsignal

import (
	"os"

	xcontext "github.com/aceld/zinx/zzmc/xcontext"

	mc "github.com/aceld/zinx/zzmc/mc"
)

type reg struct {
	c []*mc.Chan[os.Signal]
	f []xcontext.CancelFunc
}

func get() *reg { return mc.Local("signal", func() any { return &reg{} }).(*reg) }

func Notify(c *mc.Chan[os.Signal], sig ...os.Signal) { r := get(); r.c = append(r.c, c) }
func Stop(c *mc.Chan[os.Signal])                     {}
func Ignore(sig ...os.Signal)                        {}
func Reset(sig ...os.Signal)                         {}

func NotifyContext(parent xcontext.Context, sig ...os.Signal) (xcontext.Context, xcontext.CancelFunc) {
	ctx, cancel := xcontext.WithCancel(parent)
	r := get()
	r.f = append(r.f, cancel)
	return ctx, cancel
}

// Raise delivers a signal to everybody who asked (harness only).
func Raise(sig os.Signal) {
	for _, c := range get().c {
		c.TrySendNow(sig)
	}
	for _, f := range get().f {
		f()
	}
}
