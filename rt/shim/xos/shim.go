// Package xos replaces package os: an in-memory file system whose operations
// are scheduling points and can be made to fail.
package xos

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	mc "github.com/aceld/zinx/zzmc/mc"
)

type Inode struct {
	Data []byte
	Mod  int64
	Dir  bool
	Mode fs.FileMode
	Torn bool
}

// FS is the in-memory file system of one execution.
type FS struct {
	o     mc.Obj
	Nodes map[string]*Inode
	// Fault decides whether an operation fails; n is the size of a write.  It
	// returns how many bytes of a failing write reach the file.
	Fault           func(op, path string, n int) (int, error)
	Env             map[string]string
	Wd              string
	Exits           int
	Ops             []string
	Trace           bool
	Opened, ClosedN int
	// Tick is the time an operation takes.
	Tick int64
	// Sink receives what is written to standard output and standard error.
	Sink func(name string, b []byte)
	// OnExit replaces the end of the process.
	OnExit func(code int)
}

func Fs() *FS {
	return mc.Local("fs", func() any {
		f := &FS{Nodes: map[string]*Inode{"/": {Dir: true, Mode: fs.ModeDir | 0o755}}, Env: map[string]string{}, Wd: "/work"}
		f.Nodes["/work"] = &Inode{Dir: true, Mode: fs.ModeDir | 0o755}
		return f
	}).(*FS)
}

func (f *FS) step(op, path string, write bool) {
	if mc.S == nil {
		return
	}
	mc.ShimPoint(&f.o, "os."+op, nil)
	mc.ShimEffect(&f.o, write || f.Tick > 0, mc.Mix(mc.HashStr(op), mc.HashStr(path)))
	mc.Jump(f.Tick)
	if f.Trace {
		f.Ops = append(f.Ops, op+" "+path)
	}
}

func (f *FS) clean(p string) string {
	if !filepath.IsAbs(p) {
		p = filepath.Join(f.Wd, p)
	}
	return filepath.Clean(p)
}

func (f *FS) fault(op, path string, n int) (int, error) {
	if f.Fault != nil {
		return f.Fault(op, path, n)
	}
	return 0, nil
}

func perr(op, path string, e error) error { return &fs.PathError{Op: op, Path: path, Err: e} }

type File struct {
	name   string
	n      *Inode
	pos    int
	flag   int
	closed bool
	sink   bool
	dirpos bool
}

var (
	Stdout = &File{name: "/dev/stdout", sink: true}
	Stderr = &File{name: "/dev/stderr", sink: true}
	Stdin  = &File{name: "/dev/stdin", sink: true}
)

func now() int64 { return mc.NowNano() }

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	f := Fs()
	f.step("OpenFile", name, true)
	p := f.clean(name)
	if _, err := f.fault("open", p, 0); err != nil {
		return nil, perr("open", name, err)
	}
	n := f.Nodes[p]
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		d := f.Nodes[filepath.Dir(p)]
		if d == nil {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if !d.Dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		n = &Inode{Mod: now(), Mode: perm}
		f.Nodes[p] = n
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.Dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if flag&os.O_TRUNC != 0 {
			n.Data = nil
			n.Mod = now()
		}
	}
	f.Opened++
	return &File{name: name, n: n, flag: flag}, nil
}
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

func (h *File) Name() string { return h.name }
func (h *File) Fd() uintptr  { return 3 }
func (h *File) Write(b []byte) (int, error) {
	if h == nil {
		return 0, os.ErrInvalid
	}
	if mc.S == nil || mc.Aborting() {
		return len(b), nil
	}
	f := Fs()
	if h.sink {
		if f.Sink != nil {
			mc.ShimPoint(&f.o, "os.Stderr.Write", nil)
			mc.ShimEffect(&f.o, true, mc.HashBytes(b))
			f.Sink(h.name, append([]byte{}, b...))
		}
		return len(b), nil
	}
	mc.ShimPoint(&f.o, "os.File.Write", nil)
	mc.ShimEffect(&f.o, true, mc.HashBytes(b))
	mc.Jump(f.Tick)
	if h.closed {
		return 0, perr("write", h.name, os.ErrClosed)
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", h.name, syscall.EBADF)
	}
	k, err := f.fault("write", f.clean(h.name), len(b))
	if err == nil {
		k = len(b)
	}
	if h.flag&os.O_APPEND != 0 {
		h.pos = len(h.n.Data)
	}
	for len(h.n.Data) < h.pos+k {
		h.n.Data = append(h.n.Data, 0)
	}
	copy(h.n.Data[h.pos:], b[:k])
	h.pos += k
	h.n.Mod = now()
	if err != nil {
		return k, perr("write", h.name, err)
	}
	return k, nil
}
func (h *File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }
func (h *File) Read(b []byte) (int, error) {
	if h == nil {
		return 0, os.ErrInvalid
	}
	f := Fs()
	f.step("File.Read", h.name, false)
	if h.closed {
		return 0, perr("read", h.name, os.ErrClosed)
	}
	if h.n == nil {
		return 0, io.EOF
	}
	if _, err := f.fault("read", f.clean(h.name), len(b)); err != nil {
		return 0, perr("read", h.name, err)
	}
	if h.pos >= len(h.n.Data) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	k := copy(b, h.n.Data[h.pos:])
	h.pos += k
	return k, nil
}
func (h *File) Seek(off int64, wh int) (int64, error) {
	switch wh {
	case 0:
		h.pos = int(off)
	case 1:
		h.pos += int(off)
	case 2:
		h.pos = len(h.n.Data) + int(off)
	}
	return int64(h.pos), nil
}
func (h *File) Close() error {
	if h == nil {
		return os.ErrInvalid
	}
	if h.sink || mc.S == nil || mc.Aborting() {
		return nil
	}
	f := Fs()
	f.step("File.Close", h.name, true)
	if h.closed {
		return perr("close", h.name, os.ErrClosed)
	}
	h.closed = true
	f.ClosedN++
	if _, err := f.fault("close", f.clean(h.name), 0); err != nil {
		return perr("close", h.name, err)
	}
	return nil
}
func (h *File) Sync() error { return nil }
func (h *File) Truncate(n int64) error {
	if int(n) <= len(h.n.Data) {
		h.n.Data = h.n.Data[:n]
	}
	return nil
}
func (h *File) Stat() (fs.FileInfo, error) {
	if h == nil {
		return nil, os.ErrInvalid
	}
	if h.sink {
		return info{filepath.Base(h.name), &Inode{}}, nil
	}
	f := Fs()
	f.step("File.Stat", h.name, false)
	if h.closed {
		return nil, perr("stat", h.name, os.ErrClosed)
	}
	return snap(h.name, h.n), nil
}
func (h *File) ReadDir(n int) ([]fs.DirEntry, error) { return ReadDir(h.name) }
func (h *File) Readdir(n int) ([]fs.FileInfo, error) {
	es, err := ReadDir(h.name)
	var out []fs.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}

type info struct {
	name string
	n    *Inode
}

func snap(name string, n *Inode) info {
	c := *n
	return info{filepath.Base(name), &c}
}
func (i info) Name() string               { return i.name }
func (i info) Size() int64                { return int64(len(i.n.Data)) }
func (i info) Mode() fs.FileMode          { return i.n.Mode }
func (i info) ModTime() time.Time         { return time.Unix(0, i.n.Mod) }
func (i info) IsDir() bool                { return i.n.Dir }
func (i info) Sys() any                   { return nil }
func (i info) Type() fs.FileMode          { return i.n.Mode.Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }
func (i info) String() string             { return i.name }

func Stat(name string) (fs.FileInfo, error) {
	f := Fs()
	f.step("Stat", name, false)
	p := f.clean(name)
	if _, err := f.fault("stat", p, 0); err != nil {
		return nil, perr("stat", name, err)
	}
	n := f.Nodes[p]
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return snap(p, n), nil
}
func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }
func MkdirAll(path string, perm fs.FileMode) error {
	f := Fs()
	f.step("MkdirAll", path, true)
	p := f.clean(path)
	if _, err := f.fault("mkdir", p, 0); err != nil {
		return perr("mkdir", path, err)
	}
	for q := p; q != "/"; q = filepath.Dir(q) {
		if n := f.Nodes[q]; n != nil {
			if !n.Dir {
				return perr("mkdir", q, syscall.ENOTDIR)
			}
			break
		}
		f.Nodes[q] = &Inode{Dir: true, Mode: fs.ModeDir | perm, Mod: now()}
	}
	return nil
}
func Mkdir(path string, perm fs.FileMode) error {
	f := Fs()
	p := f.clean(path)
	if f.Nodes[p] != nil {
		return perr("mkdir", path, syscall.EEXIST)
	}
	if f.Nodes[filepath.Dir(p)] == nil {
		return perr("mkdir", path, syscall.ENOENT)
	}
	return MkdirAll(path, perm)
}
func Remove(name string) error {
	f := Fs()
	f.step("Remove", name, true)
	p := f.clean(name)
	if _, err := f.fault("remove", p, 0); err != nil {
		return perr("remove", name, err)
	}
	if f.Nodes[p] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	for q := range f.Nodes {
		if strings.HasPrefix(q, p+"/") {
			return perr("remove", name, syscall.ENOTEMPTY)
		}
	}
	delete(f.Nodes, p)
	return nil
}
func RemoveAll(name string) error {
	f := Fs()
	f.step("RemoveAll", name, true)
	p := f.clean(name)
	for q := range f.Nodes {
		if q == p || strings.HasPrefix(q, p+"/") {
			delete(f.Nodes, q)
		}
	}
	return nil
}
func Rename(a, b string) error {
	f := Fs()
	f.step("Rename", a+"->"+b, true)
	p, q := f.clean(a), f.clean(b)
	if _, err := f.fault("rename", p, 0); err != nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: err}
	}
	n := f.Nodes[p]
	if n == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	delete(f.Nodes, p)
	f.Nodes[q] = n
	return nil
}
func ReadDir(name string) ([]fs.DirEntry, error) {
	f := Fs()
	f.step("ReadDir", name, false)
	p := f.clean(name)
	if _, err := f.fault("readdir", p, 0); err != nil {
		return nil, perr("open", name, err)
	}
	n := f.Nodes[p]
	if n == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if !n.Dir {
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	var out []fs.DirEntry
	for _, q := range f.Children(p) {
		out = append(out, snap(q, f.Nodes[q]))
	}
	return out, nil
}

// Children lists the direct entries of a directory in order.
func (f *FS) Children(p string) []string {
	var out []string
	for q := range f.Nodes {
		if q != p && filepath.Dir(q) == p {
			out = append(out, q)
		}
	}
	sort.Strings(out)
	return out
}
func ReadFile(name string) ([]byte, error) {
	f := Fs()
	f.step("ReadFile", name, false)
	p := f.clean(name)
	if _, err := f.fault("read", p, 0); err != nil {
		return nil, perr("read", name, err)
	}
	n := f.Nodes[p]
	if n == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if n.Dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	return append([]byte{}, n.Data...), nil
}
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	h, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = h.Write(data)
	if e := h.Close(); err == nil {
		err = e
	}
	return err
}
func Chmod(string, fs.FileMode) error { return nil }
func Truncate(name string, n int64) error {
	f := Fs()
	if x := f.Nodes[f.clean(name)]; x != nil && int(n) <= len(x.Data) {
		x.Data = x.Data[:n]
	}
	return nil
}
func Getwd() (string, error) { return Fs().Wd, nil }
func TempDir() string        { return "/tmp" }
func Getenv(k string) string { return Fs().Env[k] }
func LookupEnv(k string) (string, bool) {
	v, ok := Fs().Env[k]
	return v, ok
}
func Setenv(k, v string) error  { Fs().Env[k] = v; return nil }
func Unsetenv(k string) error   { delete(Fs().Env, k); return nil }
func Hostname() (string, error) { return "host", nil }
func Getpid() int               { return 4711 }

// Exit ends the process: the model checker reports it unless the scenario expects it.
func Exit(code int) {
	if mc.S == nil {
		return
	}
	Fs().Exits++
	if f := Fs().OnExit; f != nil {
		f(code)
	}
	mc.Fail("the process called os.Exit(%d)", code)
}

func Symlink(a, b string) error { return errors.New("not modelled") }
func Link(a, b string) error    { return errors.New("not modelled") }
func Chtimes(name string, a, m time.Time) error {
	if n := Fs().Nodes[Fs().clean(name)]; n != nil {
		n.Mod = m.UnixNano()
	}
	return nil
}
func Chdir(d string) error { Fs().Wd = d; return nil }

var _ = fmt.Sprint
