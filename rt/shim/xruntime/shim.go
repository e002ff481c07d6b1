package xruntime

import mc "github.com/aceld/zinx/zzmc/mc"

func Gosched()                       { mc.Gosched() }
func SetFinalizer(obj, f any)        {}
func GC()                            {}
func NumGoroutine() int              { return 1 }
func Stack(buf []byte, all bool) int { return copy(buf, "stack") }
