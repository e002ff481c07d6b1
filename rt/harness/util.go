package main

import (
	"bytes"
	"fmt"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/zlog"
	"github.com/aceld/zinx/zutils"
	"github.com/aceld/zinx/zzmc/mc"
	context "github.com/aceld/zinx/zzmc/xcontext"
)

type nullLog struct{}

func (nullLog) InfoF(string, ...interface{})                   {}
func (nullLog) ErrorF(string, ...interface{})                  {}
func (nullLog) DebugF(string, ...interface{})                  {}
func (nullLog) InfoFX(context.Context, string, ...interface{}) {}
func (nullLog) ErrorFX(context.Context, string, ...interface{}) {
}
func (nullLog) DebugFX(context.Context, string, ...interface{}) {}

// boot puts the process-wide configuration into a small, quiet state.
func boot() {
	mc.NoExplore(func() {
		zlog.SetLogger(nullLog{})
		zutils.ShardCount = 2
		g := zconf.GlobalObject
		g.WorkerPoolSize = 2
		g.MaxWorkerTaskLen = 8
		g.MaxMsgChanLen = 8
		g.IOReadBuffSize = 64
		g.MaxConn = 100
		g.MaxPacketSize = 4096
		g.HeartbeatMax = 10
		g.RequestPoolMode = false
	})
}

func must(ok bool, format string, args ...interface{}) {
	if !ok {
		mc.Fail(format, args...)
	}
}

func eq(what string, got, want interface{}) {
	g, w := fmt.Sprintf("%v", got), fmt.Sprintf("%v", want)
	if g != w {
		mc.Fail("%s: got %s, want %s", what, g, w)
	}
}

func eqBytes(what string, got, want []byte) {
	if !bytes.Equal(got, want) {
		mc.Fail("%s: got %x, want %x", what, got, want)
	}
}

// join runs fns as concurrent threads and waits for all of them.
func join(fns ...func()) {
	done := 0
	for i, f := range fns {
		f := f
		mc.Spawn(fmt.Sprintf("user%d", i), func() {
			f()
			mc.Share("join", 1)
			done++
		})
	}
	mc.WaitUntil("users", func() bool { return done == len(fns) })
}

// catch runs f and reports the value it panicked with.
func catch(f func()) (r interface{}) {
	defer func() {
		if x := recover(); x != nil {
			if mc.Aborting() {
				panic(x)
			}
			r = x
		}
	}()
	f()
	return nil
}
