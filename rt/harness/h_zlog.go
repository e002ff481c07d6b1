package main

import (
	"fmt"
	"regexp"
	"runtime"
	"strings"
	"time"

	"github.com/aceld/zinx/zlog"
	"github.com/aceld/zinx/zzmc/mc"
	xcontext "github.com/aceld/zinx/zzmc/xcontext"
	xos "github.com/aceld/zinx/zzmc/xos"
)

// ---- C20: the logger ---------------------------------------------------------------------

var levelNames = []string{"[DEBUG]", "[INFO]", "[WARN]", "[ERROR]", "[PANIC]", "[FATAL]"}

type exited struct{ code int }

// logOut collects what the logger emits: to standard error, to its file and to its hook.
type logOut struct {
	err  []string
	hook []string
	file string
}

func watchLog() *logOut {
	o := &logOut{}
	f := xos.Fs()
	f.Tick = 1e3
	f.Sink = func(name string, b []byte) {
		if name == "/dev/stderr" {
			o.err = append(o.err, string(b))
		}
	}
	f.OnExit = func(code int) { panic(exited{code}) }
	return o
}

func fileText(dir, name string) string {
	if n := xos.Fs().Nodes[dir+"/"+name]; n != nil {
		return string(n.Data)
	}
	return ""
}

// emit logs msg at a level through one of the entry points and reports the line
// of the call, what it panicked with and whether the process ended.
func emit(how string, l *zlog.ZinxLoggerCore, level int, msg string) (line int, r interface{}) {
	_, _, line, _ = runtime.Caller(0)
	line += 3
	core := []func(){ // the calls must stay on one line
		func() { l.Debugf("%s", msg) }, func() { l.Infof("%s", msg) }, func() { l.Warnf("%s", msg) }, func() { l.Errorf("%s", msg) }, func() { l.Panicf("%s", msg) }, func() { l.Fatalf("%s", msg) }}
	coreln := []func(){
		func() { l.Debug(msg) }, func() { l.Info(msg) }, func() { l.Warn(msg) }, func() { l.Error(msg) }, func() { l.Panic(msg) }, func() { l.Fatal(msg) }}
	std := []func(){
		func() { zlog.Debugf("%s", msg) }, func() { zlog.Infof("%s", msg) }, func() { zlog.Warnf("%s", msg) }, func() { zlog.Errorf("%s", msg) }, func() { zlog.Panicf("%s", msg) }, func() { zlog.Fatalf("%s", msg) }}
	stdln := []func(){
		func() { zlog.Debug(msg) }, func() { zlog.Info(msg) }, func() { zlog.Warn(msg) }, func() { zlog.Error(msg) }, func() { zlog.Panic(msg) }, func() { zlog.Fatal(msg) }}
	ctx := xcontext.Background()
	ins := []func(){
		func() { zlog.Ins().DebugF("%s", msg) }, func() { zlog.Ins().InfoF("%s", msg) }, nil, func() { zlog.Ins().ErrorF("%s", msg) }, nil, nil}
	insx := []func(){
		func() { zlog.Ins().DebugFX(ctx, "%s", msg) }, func() { zlog.Ins().InfoFX(ctx, "%s", msg) }, nil, func() { zlog.Ins().ErrorFX(ctx, "%s", msg) }, nil, nil}
	t := map[string][]func(){"core": core, "coreln": coreln, "std": std, "stdln": stdln, "ins": ins, "insx": insx}
	at := map[string]int{"core": 0, "coreln": 2, "std": 4, "stdln": 6, "ins": 9, "insx": 11}
	f := t[how][level]
	if f == nil {
		return -1, nil
	}
	return line + at[how], catch(f)
}

// wantLine is the line a call must produce.
func wantLine(prefix string, flag, level int, t time.Time, file string, line int, msg string) *regexp.Regexp {
	s := "^"
	if prefix != "" {
		s += regexp.QuoteMeta("<" + prefix + ">")
	}
	if flag&zlog.BitDate != 0 {
		s += regexp.QuoteMeta(t.Format("2006/01/02 "))
	}
	if flag&zlog.BitMicroSeconds != 0 {
		s += regexp.QuoteMeta(t.Format("15:04:05.")) + "[0-9]{6} "
	} else if flag&zlog.BitTime != 0 {
		s += regexp.QuoteMeta(t.Format("15:04:05 "))
	}
	if flag&zlog.BitLevel != 0 {
		s += regexp.QuoteMeta(levelNames[level])
	}
	if flag&zlog.BitShortFile != 0 {
		s += fmt.Sprintf("%s:%d: ", regexp.QuoteMeta(file[strings.LastIndex(file, "/")+1:]), line)
	} else if flag&zlog.BitLongFile != 0 {
		s += fmt.Sprintf("%s:%d: ", regexp.QuoteMeta(file), line)
	}
	s += regexp.QuoteMeta(strings.TrimSuffix(msg, "\n")) + "\n$"
	return regexp.MustCompile(s)
}

// logLine: one call under every flag set, level, threshold, entry point, message and destination.
func logLine(how string) func() {
	return func() {
		boot()
		mc.Explore(false)
		o := watchLog()
		_, file, _, _ := runtime.Caller(0)
		mc.Explore(true)
		flag := mc.Choose(64)
		level := mc.Choose(6)
		thr := mc.Choose(7)
		kind := mc.Choose(4) // message
		dest := mc.Choose(2)
		if flag%5 != level%5 { // the messages and destinations vary with one part of the flag sets
			kind, dest = 0, dest
		}
		mc.Explore(false)
		zlog.SetLogger(zlogDefault)
		l := zlog.StdZinxLog
		prefix := ""
		if strings.HasPrefix(how, "core") {
			l = zlog.NewZinxLog("pre", flag)
			prefix = "pre"
		} else {
			l.ResetFlags(flag)
			l.SetPrefix("")
			if kind == 1 {
				l.SetPrefix("x y")
				prefix = "x y"
			}
		}
		eq("Flags", l.Flags(), flag)
		if dest == 1 {
			l.SetLogFile("/work/zl", "z.log")
		}
		l.SetLogHook(func(b []byte) { o.hook = append(o.hook, string(b)) })
		l.SetLogLevel(thr)
		msg := []string{"a message", "", "two\nlines\n", strings.Repeat("0123456789", 1000) + "!"}[kind]
		line, r := emit(how, l, level, msg)
		if line < 0 {
			mc.Outcome("none")
			return
		}
		mc.Quiesce()
		mc.Advance(6e9)
		now := time.Unix(0, mc.Epoch)
		var got []string
		if dest == 1 {
			if s := fileText("/work/zl", "z.log"); s != "" {
				got = append(got, s)
			}
			eq("lines on standard error", len(o.err), 0)
		} else {
			got = o.err
		}
		what := fmt.Sprintf("%s at level %d, threshold %d, flags %06b, message %q", how, level, thr, flag, msg)
		if level < thr {
			eq("output of "+what, fmt.Sprintf("%q", got), "[]")
			eq("hook after "+what, len(o.hook), 0)
			must(r == nil, "%s: panic or exit %v", what, r)
			mc.Outcome("off")
			return
		}
		must(len(got) == 1, "%s: output %q", what, got)
		m := msg
		if strings.HasSuffix(how, "ln") {
			m += "\n"
			if strings.HasSuffix(msg, "\n") {
				m = msg + "\n" // Sprintln keeps the message's own newline
			}
		}
		re := wantLine(prefix, flag, level, now, file, line, m)
		must(re.MatchString(got[0]), "%s: output %q, want %s", what, got[0], re)
		eq("what the hook saw", fmt.Sprintf("%q", o.hook), fmt.Sprintf("%q", got))
		switch level {
		case zlog.LogPanic:
			_, isExit := r.(exited)
			must(r != nil && !isExit, "%s did not panic", what)
			must(strings.Contains(fmt.Sprint(r), strings.TrimSuffix(msg, "\n")), "%s panicked with %v", what, r)
		case zlog.LogFatal:
			x, isExit := r.(exited)
			must(isExit && x.code != 0, "%s did not end the process", what)
		default:
			must(r == nil, "%s: panic or exit %v", what, r)
		}
		mc.Outcome("on")
	}
}

// logSetup: every sequence of reconfigurations and calls, on a logger of
// its own or through the package functions for the standard one.
func logSetup(depth int, std bool) func() {
	return func() {
		boot()
		mc.Explore(false)
		o := watchLog()
		var l setupLog
		core := zlog.StdZinxLog
		if std {
			l = stdLog{}
			zlog.ResetFlags(zlog.BitLevel | zlog.BitDate)
			zlog.SetPrefix("")
			zlog.SetLogLevel(0)
		} else {
			core = zlog.NewZinxLog("", zlog.BitLevel|zlog.BitDate)
			l = core
		}
		var wantErr, wantHook []string
		want := map[string]string{}
		thr, flag, prefix, file := 0, zlog.BitLevel|zlog.BitDate, "", ""
		cons := false
		hook := 0
		now := time.Unix(0, mc.Epoch)
		script := ""
		for i := 0; i < depth; i++ {
			mc.Explore(true)
			op := mc.Choose(13)
			mc.Explore(false)
			script += fmt.Sprintf(" %d", op)
			say := func(level int, more ...string) {
				if level < thr {
					return
				}
				s := ""
				if prefix != "" {
					s = "<" + prefix + ">"
				}
				if flag&zlog.BitDate != 0 {
					s += now.Format("2006/01/02 ")
				}
				if flag&zlog.BitLevel != 0 {
					s += levelNames[level]
				}
				s += fmt.Sprintf("m%d\n", i) + strings.Join(more, "")
				if file == "" {
					wantErr = append(wantErr, s)
				} else {
					want[file] += s
					if cons {
						wantErr = append(wantErr, s)
					}
				}
				if hook > 0 {
					wantHook = append(wantHook, fmt.Sprint(hook)+s)
				}
			}
			switch op {
			case 0:
				l.Debugf("m%d", i)
				say(0)
			case 1:
				l.Warn(fmt.Sprintf("m%d", i))
				say(2)
			case 2:
				l.Errorf("m%d", i)
				say(3)
			case 3:
				thr = 4
				l.SetLogLevel(4)
			case 4:
				thr = 0
				l.SetLogLevel(0)
			case 5:
				prefix = "p"
				l.SetPrefix("p")
			case 6:
				flag = zlog.BitLevel
				l.ResetFlags(flag)
			case 7:
				flag |= zlog.BitDate
				l.AddFlag(zlog.BitDate)
			case 8:
				file, cons = "a.log", false
				l.SetLogFile("/work/zl", "a.log")
			case 9:
				file, cons = "b.log", false
				l.SetLogFile("/work/zl", "b.log")
			case 10:
				k := i + 1
				hook = k
				core.SetLogHook(func(b []byte) { o.hook = append(o.hook, fmt.Sprint(k)+string(b)) })
			case 11:
				l.SetCons(true) // has an effect once there is a file
				if file != "" {
					cons = true
				}
			case 12: // an error message with the stacks of all goroutines
				l.Stack("m", i)
				say(3, "STACK\n")
			}
			eq("flags after"+script, l.Flags(), flag)
			mc.Quiesce()
		}
		mc.Advance(6e9)
		eq("standard error after"+script, noStack(o.err), fmt.Sprintf("%q", wantErr))
		eq("hook after"+script, noStack(o.hook), fmt.Sprintf("%q", wantHook))
		for _, n := range []string{"a.log", "b.log"} {
			eq(n+" after"+script, noStack([]string{fileText("/work/zl", n)}), fmt.Sprintf("%q", []string{want[n]}))
		}
		mc.Outcome("%s", script)
	}
}

type setupLog interface {
	Debugf(string, ...interface{})
	Warn(...interface{})
	Errorf(string, ...interface{})
	Stack(...interface{})
	SetLogLevel(int)
	SetPrefix(string)
	Flags() int
	ResetFlags(int)
	AddFlag(int)
	SetLogFile(string, string)
	SetCons(bool)
}

// stdLog is the package's functions.
type stdLog struct{}

func (stdLog) Debugf(f string, v ...interface{}) { zlog.Debugf(f, v...) }
func (stdLog) Warn(v ...interface{})             { zlog.Warn(v...) }
func (stdLog) Errorf(f string, v ...interface{}) { zlog.Errorf(f, v...) }
func (stdLog) Stack(v ...interface{})            { zlog.Stack(v...) }
func (stdLog) SetLogLevel(n int)                 { zlog.SetLogLevel(n) }
func (stdLog) SetPrefix(p string)                { zlog.SetPrefix(p) }
func (stdLog) Flags() int                        { return zlog.Flags() }
func (stdLog) ResetFlags(n int)                  { zlog.ResetFlags(n) }
func (stdLog) AddFlag(n int)                     { zlog.AddFlag(n) }
func (stdLog) SetLogFile(d, n string)            { zlog.SetLogFile(d, n) }
func (stdLog) SetCons(b bool)                    { zlog.SetCons(b) }

// the stand-in for runtime.Stack, or a real one
var stackRe = regexp.MustCompile(`(?:\nstack|\n(?:goroutine \d+ \[[^\n]*\n(?:[^\n]+\n)*\n*)+)\n*`)

// noStack prints the lines with the stacks in them cut out.
func noStack(l []string) string {
	for i := range l {
		l[i] = stackRe.ReplaceAllString(l[i], "\nSTACK\n")
	}
	return fmt.Sprintf("%q", l)
}

// logCalls: callers and reconfigurations at once.
func logCalls(dest string, flag int, acts ...string) func() {
	return func() {
		boot()
		var o *logOut
		var l *zlog.ZinxLoggerCore
		mc.NoExplore(func() {
			o = watchLog()
			l = zlog.NewZinxLog("", flag)
			if dest == "file" {
				l.SetLogFile("/work/zl", "a.log")
			}
			l.SetLogHook(func(b []byte) {
				s := string(b)
				mc.Yield()
				must(string(b) == s, "a line changed while the hook was looking at it")
				o.hook = append(o.hook, s)
			})
			mc.Quiesce()
		})
		var names []string
		order := map[string][]string{}
		var fns []func()
		prefixes := map[string]bool{"": true}
		reset, lower, hookoff := false, false, false
		for i, a := range acts {
			i := i
			n := fmt.Sprint(i)
			switch a {
			case "log":
				for k := 0; k < 2; k++ {
					names = append(names, fmt.Sprintf("m%d.%d-%s", i, k, strings.Repeat(n, 6)))
				}
				fns = append(fns, func() {
					for k := 0; k < 2; k++ {
						m := fmt.Sprintf("m%d.%d-%s", i, k, strings.Repeat(n, 6))
						order[n] = append(order[n], m)
						if k == 0 {
							l.Infof("%s", m)
						} else {
							l.Error(m)
						}
					}
				})
			case "prefix":
				prefixes["p"] = true
				fns = append(fns, func() { l.SetPrefix("p") })
			case "flags":
				reset = true
				fns = append(fns, func() { l.ResetFlags(zlog.BitLevel); l.AddFlag(zlog.BitDate) })
			case "level":
				lower = true
				fns = append(fns, func() { l.SetLogLevel(zlog.LogError) })
			case "file":
				fns = append(fns, func() { l.SetLogFile("/work/zl", "b.log") })
			case "hook":
				hookoff = true
				fns = append(fns, func() { l.SetLogHook(func(b []byte) { o.hook = append(o.hook, string(b)) }) })
			}
		}
		join(fns...)
		mc.Quiesce()
		mc.Explore(false)
		mc.Advance(11e9)
		text := strings.Join(o.err, "") + fileText("/work/zl", "a.log") + fileText("/work/zl", "b.log")
		cnt := map[string]int{}
		pos := map[string]int{}
		re := regexp.MustCompile(`^(<p>)?(\d{4}/\d\d/\d\d )?(\d\d:\d\d:\d\d )?(\[INFO\]|\[ERROR\])?(h_zlog\.go:\d+: )?(m\d\.\d-(\d)+)\n$`)
		var lines []string
		for i, s := range strings.SplitAfter(text, "\n") {
			if s == "" {
				continue
			}
			m := re.FindStringSubmatch(s)
			must(m != nil, "the output holds a line nobody logged: %q", s)
			lines = append(lines, s)
			cnt[m[6]]++
			pos[m[6]] = i
			must(!strings.Contains(m[6], ".0-") || m[4] != "[ERROR]", "wrong level: %q", s)
			must(!strings.Contains(m[6], ".1-") || m[4] != "[INFO]", "wrong level: %q", s)
			must(m[1] == "" || prefixes["p"], "wrong prefix: %q", s)
			if !reset {
				must((m[2] != "") == (flag&zlog.BitDate != 0) && (m[3] != "") == (flag&zlog.BitTime != 0) && (m[4] != "") == (flag&zlog.BitLevel != 0) && (m[5] != "") == (flag&zlog.BitShortFile != 0), "wrong header: %q", s)
			}
			must(m[5] == "" || !strings.Contains(m[5], ":0:"), "no line number: %q", s)
		}
		for _, n := range names {
			must(cnt[n] == 1 || (cnt[n] == 0 && lower && strings.Contains(n, ".0-")), "%s was logged once and is in the output %d times:\n%s", n, cnt[n], text)
		}
		for _, o := range order {
			if cnt[o[0]] > 0 && dest != "both" {
				must(pos[o[0]] < pos[o[1]], "lines of one caller are out of order:\n%s", text)
			}
		}
		_ = hookoff
		a, b := map[string]int{}, map[string]int{}
		for _, s := range lines {
			a[s]++
		}
		for _, s := range o.hook {
			b[s]++
		}
		eq("lines the hook saw", fmt.Sprint(b), fmt.Sprint(a))
		mc.Outcome("ok")
	}
}

var zlogDefault = zlog.Ins()

func init() {
	for _, h := range []string{"core", "coreln", "std", "stdln", "ins", "insx"} {
		add(&Scenario{Prop: "C20", Name: "C20/line-" + h, Q: data(), Body: logLine(h), Weight: 3, Bounds: "64 flag sets x 6 levels x 7 thresholds x 4 messages x 2 destinations"})
	}
	add(&Scenario{Prop: "C20", Name: "C20/setup", Q: data(), Body: logSetup(4, false), Weight: 3, Bounds: "every sequence of 4 of 13 calls and reconfigurations"})
	add(&Scenario{Prop: "C20", Name: "C20/setup-deep", T: data(), Body: logSetup(5, false), Weight: 3, Bounds: "every sequence of 5 of 13 calls and reconfigurations"})
	add(&Scenario{Prop: "C20", Name: "C20/std-setup", Q: data(), Body: logSetup(4, true), Weight: 3, Bounds: "every sequence of 4 of 13 calls and reconfigurations through the package functions"})
	def := zlog.BitDefault
	for _, d := range []string{"err", "file"} {
		a := func(name string, bd, flag int, acts ...string) {
			add(&Scenario{Prop: "C20", Name: "C20/" + d + "-" + name, Q: b(bd + 1), T: b(bd + 2), Body: logCalls(d, flag, acts...), Weight: 2, Bounds: fmt.Sprintf("at once %v", acts)})
		}
		a("two", 4, def, "log", "log")
		a("two-plain", 4, zlog.BitLevel|zlog.BitDate, "log", "log")
		a("three", 3, def, "log", "log", "log")
		a("prefix", 3, def, "log", "log", "prefix")
		a("flags", 3, def, "log", "log", "flags")
		a("level", 3, def, "log", "log", "level")
		a("hook", 3, def, "log", "log", "hook")
		a("switch", 4, def, "log", "file")
		a("switch2", 3, def, "log", "log", "file")
	}
}
