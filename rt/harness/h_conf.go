package main

import (
	"encoding/json"
	"fmt"
	"net/http"
	"path"
	"reflect"
	"strings"
	"syscall"
	"time"

	"github.com/aceld/zinx/zconf"
	"github.com/aceld/zinx/zlog"
	"github.com/aceld/zinx/znet"
	"github.com/aceld/zinx/zzmc/mc"
	xhttp "github.com/aceld/zinx/zzmc/xhttp"
	xkcp "github.com/aceld/zinx/zzmc/xkcp"
	net "github.com/aceld/zinx/zzmc/xnet"
	xos "github.com/aceld/zinx/zzmc/xos"
	xws "github.com/aceld/zinx/zzmc/xws"
)

// ---- C21: configuration ------------------------------------------------------------------

// setField gives field i of c a value that differs from the default; alt picks another one.
func setField(c *zconf.Config, i, alt int) {
	v := reflect.ValueOf(c).Elem().Field(i)
	switch v.Kind() {
	case reflect.String:
		v.SetString(fmt.Sprintf("v%d-%d", i, alt))
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Int, reflect.Int64:
		v.SetInt(int64(3 + 7*i + alt))
	case reflect.Uint32:
		v.SetUint(uint64(3 + 7*i + alt))
	default:
		mc.Fail("configuration field of kind %v", v.Kind())
	}
	if reflect.TypeOf(*c).Field(i).Name == "LogIsolationLevel" {
		v.SetInt(int64(1 + alt))
	}
}

func diff(got, want zconf.Config, skip ...string) string {
	g, w := reflect.ValueOf(got), reflect.ValueOf(want)
	var out []string
	for i := 0; i < g.NumField(); i++ {
		n := g.Type().Field(i).Name
		if g.Field(i).Interface() != w.Field(i).Interface() && !strings.Contains(strings.Join(skip, ","), n) {
			out = append(out, fmt.Sprintf("%s is %v, want %v", n, g.Field(i).Interface(), w.Field(i).Interface()))
		}
	}
	return strings.Join(out, "; ")
}

var confFields = reflect.TypeOf(zconf.Config{}).NumField()

// pickFields picks no, one or two (three) fields.
func pickFields(n int) (out []int) {
	for len(out) < n {
		lo := 0
		if len(out) > 0 {
			lo = out[len(out)-1] + 1
		}
		k := mc.Choose(confFields - lo + 1)
		if k == 0 {
			break
		}
		out = append(out, lo+k-1)
		if lo+k-1 == confFields-1 {
			break
		}
	}
	return out
}

func names(fs []int) (out []string) {
	for _, f := range fs {
		out = append(out, reflect.TypeOf(zconf.Config{}).Field(f).Name)
	}
	return out
}

// fileConf makes the process start with a configuration file.
func fileConf(c map[string]interface{}, at string) {
	f := xos.Fs()
	b, _ := json.Marshal(c)
	f.Nodes["/work/conf"] = &xos.Inode{Dir: true, Mode: syscall.S_IFDIR | 0o755}
	f.Nodes[at] = &xos.Inode{Data: b, Mode: 0o644}
	mc.Restart()
	zlog.SetLogger(nullLog{})
}

func asMap(c zconf.Config, fs []int) map[string]interface{} {
	m := map[string]interface{}{}
	v := reflect.ValueOf(c)
	for _, i := range fs {
		m[v.Type().Field(i).Name] = v.Field(i).Interface()
	}
	return m
}

// confMerge: a user configuration over the defaults or over a configuration file.
func confMerge(entry string, n int, overFile bool) func() {
	return func() {
		mc.Explore(false)
		mc.NoExplore(func() { zlog.SetLogger(nullLog{}) })
		fileOff := 0
		if overFile {
			var all zconf.Config
			var ix []int
			mc.Explore(true)
			off := mc.Choose(2) == 1 // the file sets its switches off
			mc.Explore(false)
			if off {
				fileOff = 1
			}
			for i := 0; i < confFields; i++ {
				setField(&all, i, 1)
				if v := reflect.ValueOf(&all).Elem().Field(i); off && v.Kind() == reflect.Bool {
					v.SetBool(false)
				}
				ix = append(ix, i)
			}
			fileConf(asMap(all, ix), "/work/conf/zinx.json")
			eq("configuration file in force", diff(*zconf.GlobalObject, all), "")
		}
		base := *zconf.GlobalObject
		mc.Explore(true)
		fs := pickFields(n)
		mc.Explore(false)
		c := &zconf.Config{}
		want := base
		for _, i := range fs {
			setField(c, i, 0)
			setField(&want, i, 0)
		}
		want.KcpStreamMode = c.KcpStreamMode // always the user's
		given := *c
		skip := ""
		switch entry {
		case "merge":
			zconf.UserConfToGlobal(c)
		case "server":
			s := znet.NewUserConfServer(c)
			eq("server name", s.ServerName(), want.Name)
		case "slices":
			if r := catch(func() { znet.NewUserConfDefaultRouterSlicesServer(&zconf.Config{}) }); r == nil {
				mc.Fail("a router-slice server was built without router slices")
			}
			eq("configuration after the refusal", diff(*zconf.GlobalObject, base), "")
			c.RouterSlicesMode, want.RouterSlicesMode, given.RouterSlicesMode = true, true, true
			znet.NewUserConfDefaultRouterSlicesServer(c)
		}
		mc.Quiesce()
		d := diff(*zconf.GlobalObject, want, skip)
		must(d == "", "with %v set (over a file: %v): %s", names(fs), overFile, d)
		eq("the user's own configuration", diff(*c, given), "")
		mc.Outcome("%v %d", fs, fileOff)
	}
}

// confFile: a configuration file over the defaults.
func confFile(n int) func() {
	return func() {
		mc.Explore(false)
		mc.NoExplore(func() { zlog.SetLogger(nullLog{}) })
		base := *zconf.GlobalObject
		mc.Explore(true)
		fs := pickFields(n)
		mc.Explore(false)
		var c zconf.Config
		want := base
		for _, i := range fs {
			setField(&c, i, 0)
			setField(&want, i, 0)
		}
		m := asMap(c, fs)
		m["NoSuchField"] = 5
		fileConf(m, "/work/conf/zinx.json")
		eq(fmt.Sprintf("configuration from a file with %v", names(fs)), diff(*zconf.GlobalObject, want), "")
		mc.Outcome("%v", fs)
	}
}

// confPlace: where the file is looked for, and what happens without one.
func confPlace() func() {
	return func() {
		mc.Explore(false)
		mc.NoExplore(func() { zlog.SetLogger(nullLog{}) })
		base := *zconf.GlobalObject
		f := xos.Fs()
		mc.Explore(true)
		env := []string{"", "/etc/zinx.json", "rel/zinx.json"}[mc.Choose(3)]
		def := mc.Choose(2) == 1 // there is a file at the default place
		file := mc.Choose(3)     // none, good, broken at the place in use
		mc.Explore(false)
		use := "/work/conf/zinx.json"
		if env != "" {
			f.Env[zconf.EnvConfigFilePathKey] = env
			use = path.Join("/work", env)
			if path.IsAbs(env) {
				use = env
			}
		}
		f.Nodes[path.Dir(use)] = &xos.Inode{Dir: true}
		f.Nodes["/work/conf"] = &xos.Inode{Dir: true}
		if def {
			f.Nodes["/work/conf/zinx.json"] = &xos.Inode{Data: []byte(`{"Name":"default place","MaxConn":5}`)}
		}
		want := base
		switch file {
		case 0:
			delete(f.Nodes, use)
		case 1:
			f.Nodes[use] = &xos.Inode{Data: []byte(`{"Name":"place in use","TCPPort":1234}`)}
			want.Name, want.TCPPort = "place in use", 1234
		case 2:
			f.Nodes[use] = &xos.Inode{Data: []byte(`{"Name":"broken","TCPPort":"x"`)}
		}
		r := catch(mc.Restart)
		eq("path of the configuration file", zconf.GetConfigFilePath(), use)
		if file == 2 {
			must(r != nil, "a broken configuration file was accepted")
			mc.Outcome("broken")
			return
		}
		must(r == nil, "starting panicked: %v", r)
		eq("configuration", diff(*zconf.GlobalObject, want), "")
		mc.Outcome("%v %v %v", env, def, file)
	}
}

// confRun: what a server built from a configuration does.
func confRun() func() {
	return func() {
		mc.Explore(false)
		mc.NoExplore(func() { zlog.SetLogger(nullLog{}) })
		zconf.GlobalObject.WorkerPoolSize = 1
		mc.Explore(true)
		mode := []string{"", zconf.ServerModeTcp, zconf.ServerModeWebsocket, zconf.ServerModeKcp, "all"}[mc.Choose(5)]
		tp, wp, kp := []int{0, 7001}[mc.Choose(2)], []int{0, 7002}[mc.Choose(2)], []int{0, 7003}[mc.Choose(2)]
		wpath := []string{"", "/sub"}[mc.Choose(2)]
		tlsOn := mc.Choose(4) // neither, both, only the certificate, only the key
		mc.Explore(false)
		c := &zconf.Config{Mode: mode, TCPPort: tp, WsPort: wp, KcpPort: kp, WsPath: wpath}
		wantTLS := ""
		switch tlsOn {
		case 1:
			c.CertFile, c.PrivateKeyFile = "cert.pem", "key.pem"
			wantTLS = "cert.pem+key.pem"
		case 2:
			c.CertFile = "cert.pem"
		case 3:
			c.PrivateKeyFile = "key.pem"
		}
		s := znet.NewUserConfServer(c)
		s.Start()
		mc.Quiesce()
		or := func(a, b int) string {
			if a == 0 {
				a = b
			}
			return fmt.Sprint(a)
		}
		tcp := mode == "" || mode == zconf.ServerModeTcp || mode == "all"
		ws := mode == zconf.ServerModeWebsocket || mode == "all"
		kcp := mode == zconf.ServerModeKcp
		for _, p := range []string{"8999", "7001", "9000", "7002", "9001", "7003"} {
			eq(fmt.Sprintf("mode %q: TCP listener on %s", mode, p), net.Lookup("tcp", p) != nil, tcp && p == or(tp, 8999))
			eq(fmt.Sprintf("mode %q: WebSocket listener on %s", mode, p), xhttp.Listening(p), ws && p == or(wp, 9000))
			eq(fmt.Sprintf("mode %q: KCP listener on %s", mode, p), net.Lookup("kcp", p) != nil, kcp && p == or(kp, 9001))
		}
		if tcp {
			eq("key pair of the TCP listener", net.Lookup("tcp", or(tp, 8999)).TLS, wantTLS)
			_, err := net.DialPort(TCP, or(tp, 8999))
			must(err == nil, "cannot connect: %v", err)
			mc.Quiesce()
			eq("connections after a TCP client came", s.GetConnMgr().Len(), 1)
		}
		if ws {
			w := wpath
			if w == "" {
				w = "/"
			}
			for _, u := range []string{"/", "/sub", "/other"} {
				before := s.GetConnMgr().Len()
				resp := &xws.Response{RA: &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 50001}}
				r, _ := http.NewRequest("GET", "http://127.0.0.1"+u, nil)
				must(xhttp.Deliver(or(wp, 9000), resp, r, nil), "nobody serves WebSocket requests")
				mc.Quiesce()
				eq(fmt.Sprintf("connected at %s when the path is %s", u, w), s.GetConnMgr().Len()-before == 1, u == w || w == "/")
			}
		}
		mc.Outcome("%s %d %d %d", mode, tp, wp, kp)
	}
}

// confKcp: the KCP settings reach the sessions.
func confKcp() func() {
	return func() {
		mc.Explore(false)
		mc.NoExplore(func() { zlog.SetLogger(nullLog{}) })
		zconf.GlobalObject.WorkerPoolSize = 1
		mc.Explore(true)
		set := mc.Choose(32)<<5 | mc.Choose(32)
		mc.Explore(false)
		want := xkcp.Options{NoDelay: 1, Interval: 10, Resend: 2, Nc: 1, Snd: 32, Rcv: 32}
		c := &zconf.Config{Mode: zconf.ServerModeKcp}
		on := func(i int) bool { return set>>i&1 == 1 }
		if on(0) {
			c.KcpACKNoDelay, want.ACKNoDelay = true, true
		}
		if on(1) {
			c.KcpStreamMode, want.StreamMode = true, true
		}
		if on(2) {
			c.KcpNoDelay, want.NoDelay = 41, 41
		}
		if on(3) {
			c.KcpInterval, want.Interval = 42, 42
		}
		if on(4) {
			c.KcpResend, want.Resend = 43, 43
		}
		if on(5) {
			c.KcpNc, want.Nc = 44, 44
		}
		if on(6) {
			c.KcpSendWindow, want.Snd = 45, 45
		}
		if on(7) {
			c.KcpRecvWindow, want.Rcv = 46, 46
		}
		if on(8) {
			c.KcpFecDataShards, want.Data = 47, 47
		}
		if on(9) {
			c.KcpFecParityShards, want.Parity = 48, 48
		}
		s := znet.NewUserConfServer(c)
		s.Start()
		mc.Quiesce()
		p := connect(KCP)
		must(p != nil, "refused")
		mc.Quiesce()
		eq("settings of a KCP session", fmt.Sprintf("%+v", xkcp.Last().Opt), fmt.Sprintf("%+v", want))
		mc.Outcome("%d", set)
	}
}

// confLog: the logging settings take effect.
func confLog(how string) func() {
	return func() {
		mc.Explore(false)
		o := watchLog()
		f := xos.Fs()
		mc.Explore(true)
		set := mc.Choose(1 << 6)
		mc.Explore(false)
		on := func(i int) bool { return set>>i&1 == 1 }
		c := &zconf.Config{}
		var fs []int
		put := func(i int, name string, f func()) bool {
			if !on(i) {
				return false
			}
			f()
			sf, _ := reflect.TypeOf(*c).FieldByName(name)
			fs = append(fs, sf.Index[0])
			return true
		}
		file := put(0, "LogFile", func() { c.LogFile = "z.log" })
		dir := put(1, "LogDir", func() { c.LogDir = "/var/zl" })
		size := put(2, "LogFileSize", func() { c.LogFileSize = 200 })
		cons := put(3, "LogCons", func() { c.LogCons = true })
		days := put(4, "LogSaveDays", func() { c.LogSaveDays = 3 })
		level := put(5, "LogIsolationLevel", func() { c.LogIsolationLevel = 2 })
		switch how {
		case "user":
			zconf.UserConfToGlobal(c)
		case "file":
			fileConf(asMap(*c, fs), "/work/conf/zinx.json")
			o.err = nil // the complaint about a missing file of the first start
		case "split": // the file names the log file, the user's configuration sets the rest
			fileConf(map[string]interface{}{"LogFile": "z.log", "LogDir": "/work/other"}, "/work/conf/zinx.json")
			o.err = nil
			zconf.UserConfToGlobal(c)
			file = true
		}
		mc.Quiesce()
		o.err = nil
		at := "/work/log"
		if how == "split" {
			at = "/work/other"
		}
		if dir {
			at = "/var/zl"
		}
		old := at + "/z" + time.Unix(0, mc.Epoch).AddDate(0, 0, -10).Format(".2006-01-02-150405.000000") + ".zip"
		if file {
			f.Nodes[old] = &xos.Inode{Data: []byte("x"), Mode: 0o644}
		}
		zlog.Infof("information")
		for i := 0; i < 6; i++ {
			zlog.Errorf("error %d %s", i, strings.Repeat("x", 30))
			mc.Quiesce()
		}
		mc.Advance(6e9)
		mc.Jump(24 * 3600e9)
		zlog.Errorf("next day")
		mc.Quiesce()
		mc.Advance(6e9)
		what := fmt.Sprintf("log settings file=%v dir=%v size=%v console=%v days=%v level=%v by %s", file, dir, size, cons, days, level, how)
		n := 8
		if level {
			n = 7
		}
		inErr := len(o.err)
		if !file {
			eq(what+": lines on standard error", inErr, n)
			for p := range f.Nodes {
				must(!strings.HasSuffix(p, "z.log"), "%s: a log file was made", what)
			}
			mc.Outcome("%d", set)
			return
		}
		if cons {
			eq(what+": lines on standard error", inErr, n)
		} else {
			eq(what+": lines on standard error", inErr, 0)
		}
		zips, lines := 0, 0
		for _, p := range f.Children(at) {
			b := path.Base(p)
			switch {
			case p == old:
			case b == "z.log":
				lines += strings.Count(string(f.Nodes[p].Data), "\n")
			case strings.HasSuffix(b, ".zip"):
				zips++
				d, err := unzip(f.Nodes[p].Data)
				must(err == nil, "damaged zip")
				lines += strings.Count(string(d), "\n")
			}
		}
		eq(what+": lines in "+at, lines, n)
		must((zips > 1) == size, "%s: %d rotated files", what, zips)
		eq(what+": the file of ten days ago is kept", f.Nodes[old] != nil, !days)
		mc.Outcome("%d", set)
	}
}

func init() {
	hz := func(c *mc.Config) *mc.Config { c.Horizon = 60 * 24 * 3600e9; return c }
	a := func(name string, body func(), bounds string) {
		add(&Scenario{Prop: "C21", Name: "C21/" + name, Q: hz(data()), Body: body, Weight: 2, Bounds: bounds})
	}
	t := func(name string, body func(), bounds string) {
		add(&Scenario{Prop: "C21", Name: "C21/" + name, T: hz(data()), Body: body, Weight: 5, Bounds: bounds})
	}
	for _, e := range []string{"merge", "server", "slices"} {
		a("user-"+e, confMerge(e, 2, false), "every configuration with at most two fields set, over the defaults")
		a("user-"+e+"-over-file", confMerge(e, 2, true), "every configuration with at most two fields set, over a configuration file that sets all fields")
		t("user-"+e+"-three", confMerge(e, 3, false), "every configuration with at most three fields set, over the defaults")
		t("user-"+e+"-over-file-three", confMerge(e, 3, true), "every configuration with at most three fields set, over a configuration file that sets all fields")
	}
	a("file", confFile(2), "every configuration file with at most two fields")
	t("file-three", confFile(3), "every configuration file with at most three fields")
	a("place", confPlace(), "environment variable x file at the default place x file absent, good or broken")
	a("listen", confRun(), "5 modes x 3 ports set or not x WebSocket path set or not")
	a("kcp", confKcp(), "every subset of the 10 KCP settings")
	for _, h := range []string{"user", "file", "split"} {
		a("log-"+h, confLog(h), "every subset of the 6 logging settings")
	}
}
