package main

import (
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"io"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/aceld/zinx/zutils"
	"github.com/aceld/zinx/zzmc/mc"
	xos "github.com/aceld/zinx/zzmc/xos"
)

// ---- C19: the log file writer -----------------------------------------------------------

const logDir = "/work/log"
const logPath = logDir + "/app.log"

var errFault = errors.New("injected fault")

// logFile is one file of the log: the current one or one it was rotated into.
type logFile struct {
	name string
	data []byte
	bad  bool
}

// logFiles lists the files of the log in time order.  A rotated file that is
// there both plain and compressed is counted once.
func logFiles() (out []logFile) {
	f := xos.Fs()
	seen := map[string]bool{}
	var names []string
	for _, p := range f.Children(logDir) {
		b := path.Base(p)
		if f.Nodes[p].Dir || b == "app.log" || !strings.HasPrefix(b, "app.") {
			continue
		}
		stem := strings.TrimSuffix(strings.TrimSuffix(b, ".log"), ".zip")
		if !seen[stem] {
			seen[stem] = true
			names = append(names, stem)
		}
	}
	sort.Strings(names)
	for _, s := range names {
		if n := f.Nodes[logDir+"/"+s+".log"]; n != nil {
			out = append(out, logFile{name: s, data: n.Data})
			continue
		}
		n := f.Nodes[logDir+"/"+s+".zip"]
		if n == nil {
			continue
		}
		d, err := unzip(n.Data)
		out = append(out, logFile{name: s, data: d, bad: err != nil})
	}
	if n := f.Nodes[logPath]; n != nil {
		out = append(out, logFile{name: "current", data: n.Data})
	}
	return out
}

func unzip(b []byte) (out []byte, err error) {
	z, err := zip.NewReader(bytes.NewReader(b), int64(len(b)))
	if err != nil {
		return nil, err
	}
	for _, f := range z.File {
		r, err := f.Open()
		if err != nil {
			return nil, err
		}
		d, err := io.ReadAll(r)
		if err != nil {
			return nil, err
		}
		out = append(out, d...)
	}
	return out, nil
}

type logRec struct {
	line string
	ok   bool // accepted
	day  int64
}

type logRun struct {
	w      *zutils.Writer
	limit  int
	recs   []*logRec
	byLine map[string]int
	faults int // still to be injected
	hit    []string
	prev   []byte // what was readable from the files before
	maxRec int
	day    int64
	live   bool
	days   bool
	lazy   bool // look at the files at the end only
}

func newLog(limit, faults int) *logRun {
	l := &logRun{limit: limit, byLine: map[string]int{}, faults: faults, days: true}
	f := xos.Fs()
	f.Tick = 1e3
	f.Fault = func(op, p string, n int) (int, error) {
		l.readable(op + " " + path.Base(p))
		if !l.live || l.faults == 0 || op == "read" || op == "mkdir" {
			return 0, nil
		}
		k := 0
		if op == "write" && n > 1 {
			k = mc.Choose(3)
		} else {
			k = mc.Choose(2)
		}
		if k == 0 {
			return 0, nil
		}
		l.faults--
		l.hit = append(l.hit, fmt.Sprintf("%s %s", op, path.Base(p)))
		if k == 2 {
			return n / 2, errFault
		}
		return 0, errFault
	}
	l.open()
	return l
}

func (l *logRun) open() {
	l.w = zutils.New(logPath)
	l.w.SetMaxSize(int64(l.limit))
	mc.Quiesce()
}

// readable checks that at no point (so after a crash at any point) anything
// that had reached the files is gone from them.
func (l *logRun) readable(at string) {
	if l.lazy && at != "end" {
		return
	}
	var all []byte
	for _, f := range logFiles() {
		all = append(all, f.data...)
	}
	must(bytes.HasPrefix(all, l.prev), "at %s, after faults %v, something that had reached the files is gone from them: %q, before %q", at, l.hit, clip(all), clip(l.prev))
	l.prev = append(l.prev[:0], all...)
}

func clip(b []byte) string {
	if len(b) > 200 {
		return string(b[:100]) + "..." + string(b[len(b)-100:])
	}
	return string(b)
}

// rec makes the i-th record.
func (l *logRun) rec(size int) *logRec {
	h := fmt.Sprintf("%03d:", len(l.recs))
	r := &logRec{line: h + strings.Repeat(string(rune('a'+len(l.recs)%26)), size-len(h)-1) + "\n", day: l.day}
	l.byLine[r.line] = len(l.recs)
	l.recs = append(l.recs, r)
	if size > l.maxRec {
		l.maxRec = size
	}
	return r
}

func (l *logRun) write(size int) error {
	r := l.rec(size)
	n, err := l.w.Write([]byte(r.line))
	if err == nil {
		eq("bytes reported as written", n, size)
		r.ok = true
	}
	return err
}

// check compares the files with what was written; order requires write order.
func (l *logRun) check(order bool) {
	fs := logFiles()
	var all []byte
	for _, f := range fs {
		must(!f.bad, "rotated file %s is damaged (faults %v)", f.name, l.hit)
		all = append(all, f.data...)
	}
	seen := map[int]bool{}
	last := -1
	lines := strings.SplitAfter(string(all), "\n")
	for _, s := range lines {
		if s == "" {
			continue
		}
		i, ok := l.byLine[s]
		must(ok, "the files hold something that is not a whole record: %q (faults %v)", clip([]byte(s)), l.hit)
		must(!seen[i], "record %d is in the files twice (faults %v)", i, l.hit)
		seen[i] = true
		must(!order || i > last, "record %d comes after record %d (faults %v)", i, last, l.hit)
		last = i
	}
	for i, r := range l.recs {
		must(!r.ok || seen[i], "record %d, which was accepted, is in no file (faults %v)", i, l.hit)
	}
	if len(l.hit) > 0 {
		return
	}
	for _, f := range fs {
		must(len(f.data) <= l.limit+l.maxRec, "file %s has %d bytes, the limit is %d and the longest record %d", f.name, len(f.data), l.limit, l.maxRec)
		day := int64(-1)
		for _, s := range strings.SplitAfter(string(f.data), "\n") {
			if s == "" || !l.days {
				continue
			}
			d := l.recs[l.byLine[s]].day
			must(day == -1 || d == day, "file %s holds records of two days", f.name)
			day = d
		}
	}
}

func (l *logRun) nextDay() {
	mc.Advance(6e9) // what is buffered is written out first
	mc.Jump(24 * 3600e9)
	l.day++
	mc.Quiesce()
}

// logSeq: every sequence of operations, every placement of up to faults faults.
func logSeq(limit, depth, faults int, ops string) func() {
	return func() {
		boot()
		mc.Explore(false)
		l := newLog(limit, faults)
		script := ""
		for i := 0; i < depth; i++ {
			mc.Explore(true)
			op := ops[mc.Choose(len(ops))]
			if faults == 0 {
				mc.Explore(false)
			}
			script += string(op)
			l.live = true
			switch op {
			case 's':
				l.write(10)
			case 'm':
				l.write(30)
			case 'b': // longer than the limit
				l.write(limit + 20)
			case 'h': // longer than the write buffer
				l.write(5000)
			case 'k': // two fill the write buffer
				l.write(3000)
			case 't': // buffered records are written out by time
				mc.Advance(6e9)
			case 'd':
				l.nextDay()
			case 'c':
				l.w.Close()
			case 'r': // the process ends and starts again
				l.w.Close()
				if len(l.hit) == 0 {
					l.check(true)
				}
				if len(l.hit) > 0 {
					break // what could not be written out is lost with the process
				}
				l.open()
			}
			mc.Quiesce()
			l.live = false
			mc.Explore(false)
		}
		// the faults are over: writing works at once
		for i := 0; i < 2; i++ {
			err := l.write(10)
			must(err == nil, "after %s with faults %v, which are over, a write failed: %v", script, l.hit, err)
			mc.Quiesce()
		}
		if len(script)%2 == 0 {
			must(l.w.Close() == nil, "close failed after %s (faults %v)", script, l.hit)
		} else {
			mc.Advance(6e9) // the time-out writes the buffer out
		}
		mc.Quiesce()
		l.readable("end")
		l.check(true)
		mc.Outcome("%s %v", script, l.hit)
	}
}

// logMany: many records and rotations.
func logMany() {
	boot()
	limit := []int{40, 100, 5000, 20000, 1 << 20}[mc.Choose(5)]
	sizes := [][]int{{10}, {30, 7}, {999, 5}, {4095, 10}, {4096}, {4097, 4000}, {9000, 10, 50}}[mc.Choose(7)]
	every := []int{1 << 20, 1, 13, 50}[mc.Choose(4)]
	mc.Explore(false)
	l := newLog(limit, 0)
	l.lazy = true
	for i := 0; i < 150; i++ {
		must(l.write(sizes[i%len(sizes)]) == nil, "write %d failed", i)
		if i%every == every-1 {
			switch i / every % 4 {
			case 0:
				mc.Advance(6e9)
			case 1:
				l.w.Close()
			case 2:
				if every > 1 {
					l.nextDay()
				}
			}
		}
	}
	must(l.w.Close() == nil, "close failed")
	mc.Quiesce()
	l.readable("end")
	l.check(true)
	mc.Outcome("%d %v %d", limit, sizes, every)
}

// logRace: writers, time-outs, rotation and closing at once.
func logRace(limit int, sizes []int, acts ...string) func() {
	return func() {
		boot()
		var l *logRun
		mc.NoExplore(func() {
			l = newLog(limit, 0)
			l.write(10)
			l.days = false
		})
		per := map[int][]int{}
		var fns []func()
		for k, a := range acts {
			k := k
			switch a {
			case "w":
				fns = append(fns, func() {
					for _, n := range sizes {
						mc.Share("recs", 1)
						per[k] = append(per[k], len(l.recs))
						err := l.write(n)
						must(err == nil, "a write failed: %v", err)
					}
				})
			case "close":
				fns = append(fns, func() { must(l.w.Close() == nil, "close failed") })
			case "tick":
				fns = append(fns, func() { mc.Sleep(5e9 - 1e6) })
			case "limit":
				fns = append(fns, func() { l.w.SetMaxSize(int64(limit / 2)); l.w.SetMaxAge(3) })
			case "day":
				fns = append(fns, func() { mc.Jump(24 * 3600e9) })
			}
		}
		join(fns...)
		mc.Quiesce()
		mc.Explore(false)
		mc.Advance(6e9)
		l.readable("end")
		l.check(false)
		// each writer's records in its order
		pos := map[int]int{}
		n := 0
		for _, f := range logFiles() {
			for _, s := range strings.SplitAfter(string(f.data), "\n") {
				if s != "" {
					pos[l.byLine[s]] = n
					n++
				}
			}
		}
		for k, rs := range per {
			for i := 1; i < len(rs); i++ {
				must(pos[rs[i]] > pos[rs[i-1]], "records of writer %d are out of order", k)
			}
		}
		mc.Outcome("%d", n)
	}
}

// logExpiry: which files the daily clean-up removes.
func logExpiry(zone int) func() {
	return func() {
		boot()
		mc.Explore(false)
		_ = time.Unix(0, 0).Local().String()
		*time.Local = *time.FixedZone("Z", zone*3600)
		l := newLog(1000, 0)
		mc.Explore(true)
		age := []int{0, -1, 1, 2, 30}[mc.Choose(5)]
		off := []time.Duration{-time.Hour, -time.Second, time.Second, time.Hour, 13 * time.Hour, 25 * time.Hour}[mc.Choose(6)]
		sz := mc.Choose(2)
		mc.Explore(false)
		l.w.SetMaxAge(age)
		l.write(10)
		l.nextDay()
		now := time.Unix(0, mc.NowNano())
		days := age
		if days < 1 {
			days = 40
		}
		at := now.AddDate(0, 0, -days).Add(-off) // off > 0: older than the limit
		st := at.Format(".2006-01-02-150405.000000")
		own := "app" + st + ".zip"
		plain := "app" + st + ".log"
		others := []string{"app2" + st + ".zip", "ap" + st + ".zip", st + ".zip", "app" + st, "app" + st + ".zip.bak", "app-" + st + ".zip",
			"other.txt", "app.zip", "app.2020-01-01.zip", "app.2020-01-01-000000.zip", "xapp" + st + ".zip", "app" + st + ".tar.zip"}
		f := xos.Fs()
		put := func(n string) {
			f.Nodes[logDir+"/"+n] = &xos.Inode{Data: []byte("x"), Mod: at.UnixNano(), Mode: 0o644}
		}
		put(own)
		put(plain)
		for _, n := range others {
			put(n)
		}
		f.Nodes[logDir+"/app"+at.Add(-time.Hour).Format(".2006-01-02-150405.000000")+".zip"] = &xos.Inode{Dir: true, Mod: at.UnixNano(), Mode: 0o755}
		dir := logDir + "/app" + at.Add(-time.Hour).Format(".2006-01-02-150405.000000") + ".zip"
		f.Fault = nil
		if sz == 0 {
			l.write(10)
		} else {
			l.write(2000)
		}
		mc.Quiesce()
		there := func(n string) bool { return f.Nodes[logDir+"/"+n] != nil }
		for _, n := range others {
			must(there(n), "the clean-up removed %s, which is not a rotated file of this log", n)
		}
		must(f.Nodes[dir] != nil, "the clean-up removed a directory")
		old := age > 0 && off > 0
		must(there(own) == !old, "rotated file of %v, clean-up at %v with %d days to keep: kept %v", at, now, age, there(own))
		must(there(plain) || old, "an uncompressed rotated file younger than the limit was removed")
		n := 0
		for _, p := range f.Children(logDir) {
			if strings.HasPrefix(path.Base(p), "app."+time.Unix(0, mc.Epoch).Format("2006-01-02")) && path.Base(p) != own && path.Base(p) != plain {
				n++
			}
		}
		must(n >= 1 || age == 1, "yesterday's file is gone")
		mc.Outcome("%d %v", age, off)
	}
}

func init() {
	hz := func(c *mc.Config) *mc.Config { c.Horizon = 60 * 24 * 3600e9; return c }
	a := func(name string, w int, q, t *mc.Config, body func(), bounds string) {
		if q != nil {
			q = hz(q)
		}
		if t != nil {
			t = hz(t)
		}
		add(&Scenario{Prop: "C19", Name: "C19/" + name, Q: q, T: t, Body: body, Weight: w, Bounds: bounds})
	}
	a("seq-small", 3, data(), nil, logSeq(64, 5, 0, "smbtdcr"), "every sequence of 5 operations (3 record sizes, time-out, next day, close, restart), limit 64 bytes")
	a("many", 3, long(data()), nil, logMany, "150 records of 7 patterns of sizes, 5 limits, time-outs, closes and days at 4 rates")
	a("seq-large", 3, data(), nil, logSeq(9000, 5, 0, "skhtdcr"), "every sequence of 5 operations with records around the buffer size, limit 9000 bytes")
	a("fault-small", 4, data(), nil, logSeq(64, 4, 1, "smbtdcr"), "every sequence of 4 operations with one file fault at every place")
	a("fault-large", 4, data(), nil, logSeq(9000, 4, 1, "skhtd"), "every sequence of 4 operations around the buffer size with one file fault at every place")
	a("fault2-small", 4, data(), nil, logSeq(40, 3, 2, "smtd"), "every sequence of 3 operations with two file faults at every pair of places")
	a("seq-small-deep", 5, nil, data(), logSeq(64, 6, 0, "smbtdcr"), "every sequence of 6 operations")
	a("fault-small-deep", 5, nil, data(), logSeq(64, 5, 1, "smbtdcr"), "every sequence of 5 operations with one file fault at every place")
	a("fault-large-deep", 5, nil, data(), logSeq(9000, 5, 1, "skhtdc"), "every sequence of 5 operations with one file fault at every place")
	a("fault2-small-deep", 5, nil, data(), logSeq(40, 4, 2, "smbtd"), "every sequence of 4 operations with two file faults at every pair of places")
	a("fault3-small-deep", 5, nil, data(), logSeq(40, 3, 3, "smbtd"), "every sequence of 3 operations with three file faults at every place")
	a("race-2", 3, b(4), b(5), logRace(64, []int{20, 25}, "w", "w"), "two writers of 2 records, limit 64")
	a("race-3", 3, b(2), b(3), logRace(64, []int{20, 25}, "w", "w", "w"), "three writers of 2 records, limit 64")
	a("race-close", 3, b(3), b(4), logRace(100, []int{20, 25}, "w", "w", "close"), "two writers and a close")
	a("race-close2", 3, b(3), b(4), logRace(100, []int{20}, "w", "close", "close"), "a writer and two closes")
	a("race-tick", 3, bc(2), bc(3), logRace(64, []int{20, 25}, "w", "w", "tick"), "two writers and the timed write-out")
	a("race-limit", 3, b(3), b(4), logRace(200, []int{40, 45}, "w", "w", "limit"), "two writers and a change of the limits")
	a("race-day", 3, b(3), b(4), logRace(200, []int{40, 45}, "w", "w", "day"), "two writers and the change of the day")
	a("race-huge", 3, b(3), b(4), logRace(20000, []int{3000, 3000}, "w", "w", "close"), "two writers filling the write buffer and a close")
	for _, z := range []int{0, 8, -8, 13} {
		a(fmt.Sprintf("expiry-utc%+d", z), 1, data(), nil, logExpiry(z), "5 retention settings x 6 ages around the limit x foreign files of 13 name forms")
	}
}
