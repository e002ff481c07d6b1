package xhttp

import (
	"crypto/tls"
	"log"
	"net"
	"net/http"
	"strings"
	"time"

	mc "github.com/aceld/zinx/zzmc/mc"
	xcontext "github.com/aceld/zinx/zzmc/xcontext"
	xnet "github.com/aceld/zinx/zzmc/xnet"
)

type muxes struct {
	def  *http.ServeMux
	open map[string]http.Handler
}

func m() *muxes {
	return mc.Local("http", func() any { return &muxes{def: http.NewServeMux(), open: map[string]http.Handler{}} }).(*muxes)
}

func HandleFunc(pattern string, h func(http.ResponseWriter, *http.Request)) {
	m().def.HandleFunc(pattern, h)
}
func Handle(pattern string, h http.Handler) { m().def.Handle(pattern, h) }

// Server models http.Server.
type Server struct {
	Addr                                                      string
	Handler                                                   http.Handler
	TLSConfig                                                 *tls.Config
	ReadTimeout, ReadHeaderTimeout, WriteTimeout, IdleTimeout time.Duration
	MaxHeaderBytes                                            int
	ConnState                                                 func(net.Conn, http.ConnState)
	ErrorLog                                                  *log.Logger
	BaseContext                                               func(net.Listener) xcontext.Context
	ConnContext                                               func(ctx xcontext.Context, c net.Conn) xcontext.Context
	DisableGeneralOptionsHandler                              bool

	ls     []net.Listener
	o      mc.Obj
	closed bool
	onShut []func()
}

func port(a string) string {
	if i := strings.LastIndex(a, ":"); i >= 0 {
		return a[i+1:]
	}
	return a
}

func (s *Server) isClosed() bool {
	mc.ShimEffect(&s.o, false, 1)
	return s.closed
}

func (s *Server) ListenAndServe() error {
	if s.isClosed() {
		return http.ErrServerClosed
	}
	l, err := xnet.ListenOn("http", port(s.Addr))
	if err != nil {
		return err
	}
	return s.Serve(l)
}

// Serve serves on a listener opened by the caller.  Requests are handed over
// by Deliver, so Accept only waits for the listener to be closed.
func (s *Server) Serve(l net.Listener) error {
	mc.ShimPoint(&s.o, "http.Serve", nil)
	mc.ShimEffect(&s.o, true, 2)
	if s.closed {
		l.Close()
		return http.ErrServerClosed
	}
	s.ls = append(s.ls, l)
	h := s.Handler
	if h == nil {
		h = m().def
	}
	pt := port(l.Addr().String())
	m().open[pt] = h
	for {
		c, err := l.Accept()
		if err == nil {
			c.Close() // raw bytes are no HTTP request
			continue
		}
		delete(m().open, pt)
		if s.isClosed() {
			return http.ErrServerClosed
		}
		return err
	}
}
func (s *Server) ServeTLS(l net.Listener, c, k string) error { return s.Serve(l) }
func (s *Server) ListenAndServeTLS(c, k string) error        { return s.ListenAndServe() }
func (s *Server) Close() error {
	mc.ShimPoint(&s.o, "http.Close", nil)
	mc.ShimEffect(&s.o, true, 3)
	s.closed = true
	var err error
	for _, l := range s.ls {
		if e := l.Close(); e != nil && err == nil {
			err = e
		}
	}
	s.ls = nil
	return err
}
func (s *Server) Shutdown(ctx xcontext.Context) error {
	for _, f := range s.onShut {
		mc.Spawn("http-shutdown", f)
	}
	return s.Close()
}
func (s *Server) RegisterOnShutdown(f func()) { s.onShut = append(s.onShut, f) }
func (s *Server) SetKeepAlivesEnabled(bool)   {}

func Serve(l net.Listener, h http.Handler) error { return (&Server{Handler: h}).Serve(l) }

func ListenAndServe(addr string, h http.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}
func ListenAndServeTLS(addr, c, k string, h http.Handler) error { return ListenAndServe(addr, h) }

// Listening tells whether an HTTP server is up on the port.
func Listening(p string) bool { return m().open[p] != nil }

// Deliver hands a request to the server on port p in a thread of its own and
// reports whether somebody was listening.  A panicking handler is contained,
// as net/http does.
func Deliver(p string, w http.ResponseWriter, r *http.Request, done func(panicked any)) bool {
	h := m().open[p]
	if h == nil {
		return false
	}
	mc.Spawn("http-handler", func() {
		ok := false
		defer func() {
			if mc.Aborting() {
				return
			}
			var e any
			if !ok {
				e = recover()
			}
			if done != nil {
				done(e)
			}
		}()
		h.ServeHTTP(w, r)
		ok = true
	})
	return true
}
