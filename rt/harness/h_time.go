package main

import (
	"fmt"

	"github.com/aceld/zinx/ztimer"
	"github.com/aceld/zinx/zutils"
	"github.com/aceld/zinx/zzmc/mc"
	time "github.com/aceld/zinx/zzmc/xtime"
)

// ---- C16: unique identifiers ------------------------------------------------

type idRec struct {
	call, ret int
	id        int64
}

func snowflake(threads, per int, pre int, jump bool) func() {
	return func() {
		boot()
		w, err := zutils.NewIDWorker(5)
		must(err == nil && w != nil, "NewIDWorker(5): %v", err)
		var recs []idRec
		clk := 0
		back := false
		next := func() {
			clk++
			mc.Share("ids", 1)
			c := clk
			id, err := w.NextID()
			clk++
			mc.Share("ids", id)
			if err != nil {
				must(back, "NextID failed although the clock never moved backwards: %v", err)
				return
			}
			recs = append(recs, idRec{c, clk, id})
		}
		mc.NoExplore(func() {
			for i := 0; i < pre; i++ {
				next()
			}
		})
		var fns []func()
		for i := 0; i < threads; i++ {
			fns = append(fns, func() {
				for k := 0; k < per; k++ {
					next()
				}
			})
		}
		if jump {
			fns = append(fns, func() {
				for k := 0; k < 2; k++ {
					mc.Yield()
					switch mc.Choose(4) {
					case 0:
						mc.Jump(1e6)
					case 1:
						mc.Jump(300e3)
					case 2:
						back = true
						mc.Jump(-2e6)
					}
					mc.Share("clock", 1)
				}
			})
		}
		join(fns...)
		mc.NoExplore(func() {
			mc.Jump(5e6)
			back = back || false
			next()
		})
		seen := map[int64]int{}
		for i, r := range recs {
			if j, dup := seen[r.id]; dup {
				mc.Fail("identifier %d was handed out twice (calls %d and %d)", r.id, j, i)
			}
			seen[r.id] = i
			must(r.id > 0, "identifier %d is not positive", r.id)
			must(r.id>>12&1023 == 5, "identifier %d does not carry worker 5", r.id)
			if i < len(recs)-200 && i%37 != 0 {
				continue
			}
			for j := range recs {
				if recs[j].ret < r.call {
					must(recs[j].id < r.id, "identifier %d returned before the call that gave %d but is not smaller", recs[j].id, r.id)
				}
			}
		}
		mc.Outcome("%d ids", len(recs))
	}
}

// all patterns of clock steps between calls, sequentially
func snowSeq() {
	boot()
	w, _ := zutils.NewIDWorker(1023)
	v, _ := zutils.NewIDWorker(0)
	for _, bad := range []int64{-1, 1024, -1 << 40, 1 << 40} {
		_, err := zutils.NewIDWorker(bad)
		must(err != nil, "NewIDWorker(%d) was accepted", bad)
	}
	seen := map[int64]bool{}
	last := int64(0)
	maxT := mc.RawNow()
	for i := 0; i < 6; i++ {
		d := []int64{0, 1e6, 7e6, -1e6, -9e6, 4e5}[mc.Choose(6)]
		mc.Jump(d)
		t0 := mc.RawNow()
		id, err := w.NextID()
		if err != nil {
			must(t0/1e6 < maxT/1e6, "NextID failed although the clock is not behind: %v", err)
			continue
		}
		if t := mc.RawNow(); t > maxT {
			maxT = t
		}
		must(id > last, "identifier %d after %d: not increasing", id, last)
		last = id
		must(!seen[id], "identifier %d twice", id)
		seen[id] = true
		must(id>>12&1023 == 1023, "identifier %d does not carry worker 1023", id)
		id2, err := v.NextID()
		if err == nil {
			must(!seen[id2], "two generators with different worker numbers gave %d", id2)
			seen[id2] = true
		}
	}
	mc.Count(1)
	mc.Outcome("%d", len(seen))
}

// ---- C15: timers -------------------------------------------------------------

type fired struct {
	n    int
	at   int64
	due  int64
	tid  uint32
	canc int64 // time of cancellation, 0 if none
	args []interface{}
}

func newTimer(ts *ztimer.TimerScheduler, delay int64, at bool, f *fired) {
	df := ztimer.NewDelayFunc(func(v ...interface{}) {
		f.n++
		f.at = mc.Elapsed()
		f.args = v
		mc.Share("fired", f.at)
	}, []interface{}{delay, "x"})
	f.due = mc.Elapsed()
	if delay > 0 {
		f.due += delay
	}
	var err error
	if at {
		f.tid, err = ts.CreateTimerAt(df, mc.NowNano()+delay)
	} else {
		f.tid, err = ts.CreateTimerAfter(df, time.Duration(delay))
	}
	must(err == nil, "creating a timer of %dms failed: %v", delay/1e6, err)
}

func (f *fired) check(now, early, late int64) {
	name := fmt.Sprintf("timer %d due at %dms", f.tid, f.due/1e6)
	if f.canc != 0 {
		// cancelled clearly before it could fire: must not fire
		if f.canc < f.due-early {
			must(f.n == 0, "%s was cancelled at %dms but fired at %dms", name, f.canc/1e6, f.at/1e6)
		}
		must(f.n <= 1, "%s fired %d times", name, f.n)
		return
	}
	must(f.n <= 1, "%s fired %d times", name, f.n)
	if f.n == 1 {
		must(f.at >= f.due-early-1e6, "%s fired at %dms, more than %dms early", name, f.at/1e6, early/1e6)
		must(f.at <= f.due+late, "%s fired at %dms, more than %dms late", name, f.at/1e6, late/1e6)
		must(len(f.args) == 2 && f.args[1] == "x", "%s was called with arguments %v", name, f.args)
	} else {
		must(now <= f.due+late, "%s has not fired by %dms", name, now/1e6)
	}
}

// many timers at many phases in one long run of virtual time
func timerGrid(delays []int64, phases []int64, horizon int64, auto bool) func() {
	return func() {
		boot()
		mc.Explore(false)
		var ts *ztimer.TimerScheduler
		if auto {
			ts = ztimer.NewAutoExecTimerScheduler()
		} else {
			ts = ztimer.NewTimerScheduler()
			ts.Start()
			mc.Spawn("consumer", func() {
				ch := ts.GetTriggerChan()
				for {
					df := ch.Recv()
					df.Call()
				}
			})
		}
		var all []*fired
		t := int64(0)
		ids := map[uint32]bool{}
		for i, p := range phases {
			if p > t {
				mc.Advance(p - t)
				t = p
			}
			for j, d := range delays {
				f := &fired{}
				all = append(all, f)
				newTimer(ts, d, (i+j)%2 == 0, f)
				must(!ids[f.tid], "timer id %d given twice", f.tid)
				ids[f.tid] = true
				if (i+j)%5 == 4 {
					g := &fired{}
					all = append(all, g)
					newTimer(ts, d, false, g)
					if j%2 == 0 && d > 300e6 {
						// cancel at once
						ts.CancelTimer(g.tid)
						g.canc = mc.Elapsed() + 1
					} else if d > 400e6 {
						mc.Spawn("canceller", func() {
							mc.Sleep(d / 2)
							ts.CancelTimer(g.tid)
							g.canc = mc.Elapsed()
						})
					}
				}
			}
		}
		mc.Advance(horizon - t)
		now := mc.Elapsed()
		n := 0
		for _, f := range all {
			f.check(now, 100e6, 150e6)
			n += f.n
		}
		mc.Count(int64(len(all)))
		mc.Outcome("%d of %d fired", n, len(all))
	}
}

func ms(xs ...int64) []int64 {
	out := make([]int64, len(xs))
	for i, x := range xs {
		out[i] = x * 1e6
	}
	return out
}

// timerRace explores interleavings of creation, cancellation, wheel ticks and
// the dispatch loop around a tick.
func timerRace(startMs int64, delays []int64, cancel int) func() {
	return func() {
		boot()
		mc.Explore(false)
		ts := ztimer.NewAutoExecTimerScheduler()
		var pre fired
		fs := make([]*fired, len(delays))
		newTimer(ts, 2500e6, false, &pre)
		mc.Advance(startMs * 1e6)
		mc.Explore(true)
		var fns []func()
		for i, d := range delays {
			fs[i] = &fired{}
			f, d := fs[i], d
			i := i
			fns = append(fns, func() {
				newTimer(ts, d*1e6, false, f)
				if cancel == i+1 {
					ts.CancelTimer(f.tid)
					f.canc = mc.Elapsed() + 1
				}
			})
		}
		if cancel < 0 {
			fns = append(fns, func() {
				ts.CancelTimer(pre.tid)
				pre.canc = mc.Elapsed()
			})
		}
		join(fns...)
		mc.Sleep(150e6)
		mc.Explore(false)
		mc.Advance(5000e6)
		now := mc.Elapsed()
		for _, f := range append(fs, &pre) {
			f.check(now, 100e6, 1200e6)
		}
		if len(fs) == 2 {
			must(fs[0].tid != fs[1].tid, "two timers share id %d", fs[0].tid)
		}
		mc.Outcome("%v", pre.n)
		for _, f := range fs {
			mc.Outcome("%d", f.n)
		}
	}
}

func timerCfg(bound int, h int64) *mc.Config {
	return &mc.Config{Bound: bound, SelDev: true, ClockDev: true, ClockMax: 100e6, MaxSteps: 1 << 30, MaxLoops: 1 << 30, Horizon: h}
}

// a standalone Timer
func timerAlone() {
	boot()
	d := []int64{-5e6, 0, 1e6, 999e6, 1000e6, 60000e6}[mc.Choose(6)]
	f := &fired{}
	df := ztimer.NewDelayFunc(func(v ...interface{}) { f.n++; f.at = mc.Elapsed(); f.args = v; mc.Share("f", 1) }, []interface{}{1, "x"})
	var tm *ztimer.Timer
	t0 := mc.NowNano()
	if mc.Choose(2) == 0 {
		tm = ztimer.NewTimerAfter(df, time.Duration(d))
	} else {
		tm = ztimer.NewTimerAt(df, t0+d)
	}
	f.due = t0 + d - mc.Epoch
	tm.Run()
	mc.Advance(70000e6)
	if f.due < 0 {
		f.due = 0
	}
	must(f.n == 1, "the timer fired %d times", f.n)
	must(f.at >= f.due-1e6 && f.at <= f.due+2e6, "timer due at %d fired at %d", f.due, f.at)
	mc.Outcome("%d", f.at/1e6)
}

// a panicking callback must not take the scheduler down
func timerPanic() {
	boot()
	mc.Explore(false)
	ts := ztimer.NewAutoExecTimerScheduler()
	a, c := &fired{}, &fired{}
	_, err := ts.CreateTimerAfter(ztimer.NewDelayFunc(func(v ...interface{}) { panic("callback") }, nil), time.Duration(300e6))
	must(err == nil, "create: %v", err)
	newTimer(ts, 350e6, false, a)
	newTimer(ts, 1300e6, false, c)
	mc.Advance(3000e6)
	a.check(mc.Elapsed(), 100e6, 150e6)
	c.check(mc.Elapsed(), 100e6, 150e6)
}

// timerBurst has more timers due at once than the trigger channel holds, and a
// consumer that looks late: none is lost, none is repeated.
func timerBurst(n int, pause int64) func() {
	return func() {
		boot()
		mc.Explore(false)
		ts := ztimer.NewTimerScheduler()
		ts.Start()
		ids := map[uint32]bool{}
		all := make([]*fired, n)
		cancelled := 0
		for i := range all {
			all[i] = &fired{}
			newTimer(ts, 1300e6+int64(i%3), i%2 == 0, all[i])
			must(!ids[all[i].tid], "timer id %d given twice", all[i].tid)
			ids[all[i].tid] = true
			if i%10 == 9 {
				ts.CancelTimer(all[i].tid)
				all[i].canc = mc.Elapsed() + 1
				cancelled++
			}
		}
		mc.Advance(1300e6 + pause)
		var late fired
		newTimer(ts, 700e6, false, &late)
		mc.Spawn("consumer", func() {
			ch := ts.GetTriggerChan()
			for {
				ch.Recv().Call()
			}
		})
		mc.Advance(5000e6)
		fires := 0
		for i, f := range all {
			fires += f.n
			if f.canc != 0 {
				must(f.n == 0, "timer %d was cancelled but fired", i)
				continue
			}
			must(f.n == 1, "timer %d of %d due at once fired %d times", i, n, f.n)
			must(f.at >= f.due-100e6, "timer %d fired early", i)
			must(len(f.args) == 2 && f.args[1] == "x", "timer %d was called with %v", i, f.args)
		}
		late.check(mc.Elapsed(), 100e6, 150e6)
		mc.Outcome("%d fired, %d cancelled", fires, cancelled)
	}
}

// timerNest creates and cancels timers from within timer callbacks.
func timerNest() {
	boot()
	mc.Explore(false)
	ts := ztimer.NewAutoExecTimerScheduler()
	ds := ms(0, 40, 400, 1000, 1700, 61000)
	d1, d2, d3 := ds[mc.Choose(len(ds))], ds[mc.Choose(len(ds))], ds[mc.Choose(len(ds))]
	victim, kept := &fired{}, &fired{}
	newTimer(ts, d1+d2+3000e6, false, victim)
	newTimer(ts, d1+d2+3000e6, true, kept)
	var inner, last fired
	outer := 0
	_, err := ts.CreateTimerAfter(ztimer.NewDelayFunc(func(v ...interface{}) {
		outer++
		newTimer(ts, d2, false, &inner)
		ts.CancelTimer(victim.tid)
		victim.canc = mc.Elapsed() + 1
		newTimer(ts, d3, true, &last)
	}, nil), time.Duration(d1))
	must(err == nil, "create: %v", err)
	mc.Advance(130e9)
	must(outer == 1, "the outer timer fired %d times", outer)
	now := mc.Elapsed()
	for _, f := range []*fired{victim, kept, &inner, &last} {
		f.check(now, 100e6, 150e6)
	}
	must(inner.tid != last.tid && kept.tid != inner.tid && kept.tid != last.tid, "timer ids repeat")
	mc.Count(1)
	mc.Outcome("%d/%d/%d", d1/1e6, d2/1e6, d3/1e6)
}

func init() {
	add(&Scenario{Prop: "C16", Name: "C16/2x2", Q: b(3), T: b(5), Body: snowflake(2, 2, 0, false), Bounds: "2 threads x 2 identifiers"})
	add(&Scenario{Prop: "C16", Name: "C16/3x2", Q: b(2), T: b(4), Body: snowflake(3, 2, 0, false), Bounds: "3 threads x 2 identifiers"})
	add(&Scenario{Prop: "C16", Name: "C16/clock", Q: b(2), T: b(4), Body: snowflake(2, 2, 0, true), Weight: 3, Bounds: "2 threads x 2 identifiers while the clock is stepped by +1ms, +0.3ms or -2ms"})
	wrap := b(2)
	wrap.MaxSteps, wrap.NoRace = 100000, false
	wrap.MaxLoops = 10000000
	wrapT := *wrap
	wrapT.Bound = 3
	add(&Scenario{Prop: "C16", Name: "C16/wrap", Q: wrap, T: &wrapT, Body: snowflake(2, 3, 4093, false), Weight: 9, Bounds: "2 threads x 3 identifiers after 4093 in the same millisecond (sequence overflow)"})
	add(&Scenario{Prop: "C16", Name: "C16/seq", Q: seqCfg(), Body: snowSeq, Bounds: "all 6^6 patterns of clock steps between 6 calls"})

	short := ms(0, 1, 50, 99, 100, 101, 150, 500, 950, 999, 1000, 1001, 1050, 1500, 1999, 2000, 2001, 3000, 30000, 58999, 59000, 59001, 59900, 59999)
	long := ms(60000, 60001, 60999, 61000, 89999, 90000, 119000, 119999, 120000, 120001, 600000)
	vlong := ms(3599000, 3600000, 3600001, 3660000, 3661000, 5400000, 7199999, 7200000)
	ph := ms(0, 1, 49, 50, 51, 500, 900, 950, 999, 1000, 1001, 1049, 1050, 1950, 2000, 59000, 59950, 60000, 60001)
	gc := func(h int64) *mc.Config {
		c := timerCfg(0, h)
		c.NoRace = true
		return c
	}
	add(&Scenario{Prop: "C15", Name: "C15/grid-short", Q: gc(200e9), Body: timerGrid(append(short, -5e6, -5000e6), ph, 130e9, true), Weight: 5, Bounds: "26 delays x 19 phases relative to the wheels, 130 s of virtual time"})
	add(&Scenario{Prop: "C15", Name: "C15/grid-short-manual", Q: gc(200e9), Body: timerGrid(short, ph, 130e9, false), Weight: 5, Bounds: "as grid-short, trigger channel consumed by the user"})
	add(&Scenario{Prop: "C15", Name: "C15/grid-long", Q: gc(900e9), Body: timerGrid(append(append([]int64{}, long...), short...), ph, 700e9, true), Weight: 8, Bounds: "35 delays up to 10 min x 19 phases, 700 s"})
	add(&Scenario{Prop: "C15", Name: "C15/grid-hours", Q: gc(7500e9), Body: timerGrid(vlong, append(append([]int64{}, ph...), ms(61000, 119950, 120000)...), 7400e9, true), Weight: 20, Bounds: "8 delays of 1-2 h x 22 phases, 2 h of virtual time"})
	add(&Scenario{Prop: "C15", Name: "C15/grid-halfday", Q: gc(60000e9), Body: timerGrid(append(append(vlong, long...), ms(39600000, 43199000, 43200000, 43200001, 46800000, 50000000)...), append(append([]int64{}, ph...), ms(3599000, 3599950, 3600000, 3600001)...), 55000e9, true), Weight: 20, Bounds: "delays up to 14 h, 15 h of virtual time"})
	days := ms(1500, 43199999, 43200000, 43201000, 46800000, 86399000, 86400000, 90000000, 129600000, 172800000, 180061001)
	add(&Scenario{Prop: "C15", Name: "C15/days", Q: gc(300000e9), Body: timerGrid(days, append(append([]int64{}, ph...), ms(3599960, 3600010, 7000000)...), 200000e9, true), Weight: 20, Bounds: "11 delays up to 50 h x 22 phases: several turns of the widest wheel"})
	add(&Scenario{Prop: "C15", Name: "C15/burst", Q: gc(100e9), Body: timerBurst(5000, 400e6), Weight: 8, Bounds: "5000 timers due at once, every tenth cancelled, the consumer 400 ms late"})
	add(&Scenario{Prop: "C15", Name: "C15/burst-prompt", Q: gc(100e9), Body: timerBurst(2500, 0), Weight: 5, Bounds: "2500 timers due at once, prompt consumer"})
	add(&Scenario{Prop: "C15", Name: "C15/nested", Q: gc(400e9), Body: timerNest, Weight: 5, Bounds: "a timer that creates two and cancels a third: 6^3 delays"})
	add(&Scenario{Prop: "C15", Name: "C15/alone", Q: b(2), Body: timerAlone, Bounds: "6 delays, absolute and relative"})
	add(&Scenario{Prop: "C15", Name: "C15/panic", Q: gc(100e9), Body: timerPanic, Bounds: "one panicking callback between two others"})
	for i, c := range []struct {
		st int64
		d  []int64
		c  int
	}{{950, []int64{60, 1100}, 0}, {950, []int64{60, 1100}, 2}, {980, []int64{1030, 500}, 1}, {1450, []int64{1020}, -1}, {2360, []int64{70}, -1}, {2450, []int64{600, 800}, -1}} {
		add(&Scenario{Prop: "C15", Name: fmt.Sprintf("C15/race%d", i), Q: timerCfg(4, 100e9), T: timerCfg(6, 100e9), Body: timerRace(c.st, c.d, c.c), Weight: 6, Bounds: fmt.Sprintf("timers of %v ms created at %d ms against wheel ticks and dispatch, cancel=%d", c.d, c.st, c.c)})
	}
}
