package mc

import (
	"fmt"
	"runtime"
)

type timer struct {
	when   int64
	period int64
	seq    uint64
	f      func()
	active bool
	vc     VC
	h      uint64
	name   string
}

// Epoch is the wall-clock time (UnixNano) at which every execution starts.
const Epoch = int64(1700000000000000000)

func (s *Sched) nextTimer() *timer {
	var best *timer
	for _, t := range s.timers {
		if best == nil || t.when < best.when || (t.when == best.when && t.seq < best.seq) {
			best = t
		}
	}
	return best
}

// fireNext advances virtual time to the earliest timer and fires it.
func (s *Sched) fireNext(forced bool) bool {
	tm := s.nextTimer()
	if tm == nil {
		s.failNoExit("deadlock", "no thread can run and no timer is pending\n"+s.dumpThreads())
		s.aborting = true
		s.end()
		return false
	}
	if tm.when > s.cfg.Horizon {
		s.failNoExit("hang", fmt.Sprintf("the scenario's main thread is still blocked after %dms of virtual time\n%s", s.cfg.Horizon/1e6, s.dumpThreads()))
		s.aborting = true
		s.end()
		return false
	}
	if tm.when > s.now {
		s.now = tm.when
	}
	if tm.period > 0 {
		// like the runtime's tickers, drop the ticks that were missed
		tm.when += tm.period * (1 + (s.now-tm.when)/tm.period)
		s.tmSeq++
		tm.seq = s.tmSeq
	} else {
		s.removeTimer(tm)
	}
	save := s.cur
	s.cur = s.clk
	s.clk.vc.join(tm.vc)
	s.setH(s.clk, mix(s.clk.h, tm.h, uint64(s.now)))
	tm.f()
	s.cur = save
	return true
}

func (s *Sched) removeTimer(tm *timer) {
	tm.active = false
	for i, t := range s.timers {
		if t == tm {
			s.timers = append(s.timers[:i], s.timers[i+1:]...)
			return
		}
	}
}

// TimerH is a handle on a virtual timer.
type TimerH struct{ t *timer }

// AddTimer arranges for f to run (as an atomic step of the clock) after d.
func AddTimer(d, period int64, f func()) *TimerH {
	s := S
	if s == nil {
		return &TimerH{}
	}
	if s.aborting {
		return &TimerH{}
	}
	if d < 0 {
		d = 0
	}
	s.tmSeq++
	t := s.cur
	t.objc++
	tm := &timer{when: s.now + d, period: period, seq: s.tmSeq, f: f, active: true, h: mix(t.h, t.objc, 41)}
	tm.vc = append(tm.vc, t.vc...)
	s.setH(t, mix(t.h, uint64(d), 43))
	t.vc.grow(t.id + 1)
	t.vc[t.id]++
	s.timers = append(s.timers, tm)
	return &TimerH{tm}
}

// Stop disarms the timer and reports whether it was armed.
func (h *TimerH) Stop() bool {
	s := S
	if s == nil || h == nil || h.t == nil || s.aborting {
		return false
	}
	was := h.t.active
	if was {
		s.removeTimer(h.t)
	}
	v := uint64(0)
	if was {
		v = 1
	}
	s.setH(s.cur, mix(s.cur.h, v, 44))
	return was
}

func NowNano() int64 {
	s := S
	if s == nil {
		return Epoch
	}
	if !s.aborting {
		// code that polls the clock in a loop sees time pass
		if s.polls++; s.polls > 64 {
			s.polls = 0
			s.now += 100e3
		}
		s.setH(s.cur, mix(s.cur.h, uint64(s.now), 42))
	}
	return Epoch + s.now
}

// Elapsed is the virtual time since the execution began.
func Elapsed() int64 { return NowNano() - Epoch }

func Sleep(d int64) {
	s := S
	if s == nil {
		return
	}
	if s.aborting {
		runtime.Goexit()
	}
	if d <= 0 {
		s.point("sleep0", nil)
		return
	}
	t := s.cur
	fired := false
	AddTimer(d, 0, func() {
		fired = true
		// the sleeper continues after the clock's step
		s.setH(t, mix(t.h, uint64(s.now), 45))
	})
	s.point("sleep", func() bool { return fired })
}

// Advance lets d of virtual time pass and everything it triggers settle.
func Advance(d int64) {
	Sleep(d)
	Quiesce()
}

// Jump moves the wall clock by d without firing anything in between (models an
// adjusted system clock for code that reads time.Now).
func Jump(d int64) {
	s := S
	s.now += d
}

// RawNow reads the clock without noting the read (for enabledness predicates).
func RawNow() int64 {
	if S == nil {
		return Epoch
	}
	return Epoch + S.now
}
