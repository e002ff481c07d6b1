package main

import (
	"fmt"

	"github.com/aceld/zinx/zzmc/mc"
)

// lop is one completed operation of a concurrent history.
type lop struct {
	name      string
	call, ret int
	// apply runs the operation on the sequential model's state and reports
	// whether its recorded result is what the model gives.
	apply func(st string) (string, bool)
}

// hist records operations in real-time order.
type hist struct {
	clock int
	ops   []*lop
}

func (h *hist) tick(v int64) int {
	h.clock++
	mc.Share("hist", v)
	return h.clock
}

// do runs f as an operation; f returns the model's transition.
func (h *hist) do(name string, f func() func(st string) (string, bool)) {
	o := &lop{name: name}
	o.call = h.tick(1)
	o.apply = f()
	o.ret = h.tick(2)
	h.ops = append(h.ops, o)
}

// linearizable searches for a sequential order of ops, consistent with real
// time, that the model accepts, starting from state init.
func linearizable(ops []*lop, init string) bool {
	n := len(ops)
	seen := map[string]bool{}
	var rec func(done uint32, st string) bool
	rec = func(done uint32, st string) bool {
		if done == 1<<n-1 {
			return true
		}
		k := fmt.Sprintf("%d|%s", done, st)
		if seen[k] {
			return false
		}
		seen[k] = true
		for i, o := range ops {
			if done&(1<<i) != 0 {
				continue
			}
			ok := true
			for j, p := range ops {
				if j != i && done&(1<<j) == 0 && p.ret < o.call {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			if st2, ok := o.apply(st); ok && rec(done|1<<i, st2) {
				return true
			}
		}
		return false
	}
	return rec(0, init)
}

func (h *hist) String() string {
	s := ""
	for _, o := range h.ops {
		s += fmt.Sprintf("[%d-%d]%s ", o.call, o.ret, o.name)
	}
	return s
}
