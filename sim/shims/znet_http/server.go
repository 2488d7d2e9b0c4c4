package http

import (
	"bufio"
	"bytes"
	realctx "context"
	"crypto/tls"
	"fmt"
	"io"
	"log"
	realnet "net"
	real "net/http"
	"strconv"
	"strings"
	"time"

	"github.com/vivint/rothko/internal/zsim"
	"github.com/vivint/rothko/internal/zsim/zcontext"
	"github.com/vivint/rothko/internal/zsim/znet"
	"github.com/vivint/rothko/internal/zsim/zos"
	zt "github.com/vivint/rothko/internal/zsim/ztime"
)

// Server stands in for net/http's server: request parsing, header handling
// and everything around the handler are real or follow the documentation;
// connection management is reimplemented on the simulated network.
type Server struct {
	Addr              string
	Handler           real.Handler
	TLSConfig         *tls.Config
	ReadTimeout       time.Duration
	ReadHeaderTimeout time.Duration
	WriteTimeout      time.Duration
	IdleTimeout       time.Duration
	MaxHeaderBytes    int
	ErrorLog          *log.Logger
	BaseContext       func(realnet.Listener) realctx.Context
	ConnContext       func(ctx realctx.Context, c realnet.Conn) realctx.Context
	ConnState         func(realnet.Conn, real.ConnState)

	st *srvState
}

type srvState struct {
	shutdown bool
	lis      []realnet.Listener
	conns    []*srvConn
	onShut   []func()
}

func (s *Server) state() *srvState {
	if s.st == nil {
		s.st = &srvState{}
	}
	return s.st
}

type srvConn struct {
	s        *Server
	nc       realnet.Conn
	sc       *zsim.Conn
	busy     bool
	isNew    bool
	born     int64
	done     bool
	br       *bufio.Reader
	hijacked bool
	tls      bool
}

func (s *Server) ListenAndServe() error {
	if s.state().shutdown {
		return real.ErrServerClosed
	}
	addr := s.Addr
	if addr == "" {
		addr = ":http"
	}
	l, err := net.Listen("tcp", addr)
	if err != nil {
		return err
	}
	return s.Serve(l)
}

// TLSHello is what a client sends first on a connection that stands for an
// encrypted one.
const TLSHello = "zsim-tls\n"

// tlsListener marks the connections it accepts as encrypted ones.
type tlsListener struct{ realnet.Listener }

// ServeTLS loads the certificate as net/http does. The encryption itself is
// only stood for by TLSHello.
func (s *Server) ServeTLS(l realnet.Listener, cert, key string) error {
	c := s.TLSConfig
	if c == nil || len(c.Certificates) == 0 && c.GetCertificate == nil && c.GetConfigForClient == nil || cert != "" || key != "" {
		cb, err := os.ReadFile(cert)
		if err != nil {
			return err
		}
		kb, err := os.ReadFile(key)
		if err != nil {
			return err
		}
		if _, err := tls.X509KeyPair(cb, kb); err != nil {
			return err
		}
	}
	return s.Serve(tlsListener{l})
}

func (s *Server) ListenAndServeTLS(cert, key string) error { return s.ServeTLS(nil, cert, key) }

func (s *Server) RegisterOnShutdown(f func()) { s.state().onShut = append(s.state().onShut, f) }
func (s *Server) SetKeepAlivesEnabled(bool)   {}

func (s *Server) Serve(l realnet.Listener) error {
	zsim.YS()
	st := s.state()
	if st.shutdown {
		return real.ErrServerClosed
	}
	st.lis = append(st.lis, l)
	base := realctx.Background()
	if s.BaseContext != nil {
		base = s.BaseContext(l)
	}
	ctx := realctx.WithValue(base, real.ServerContextKey, s)
	delay := time.Duration(0)
	defer l.Close()
	for {
		if zsim.Killed() {
			return real.ErrServerClosed
		}
		c, err := l.Accept()
		if zsim.Killed() {
			return real.ErrServerClosed
		}
		if err != nil {
			if st.shutdown {
				return real.ErrServerClosed
			}
			if ne, ok := err.(interface{ Temporary() bool }); ok && ne.Temporary() {
				if delay == 0 {
					delay = 5 * time.Millisecond
				} else {
					delay *= 2
				}
				if delay > time.Second {
					delay = time.Second
				}
				zt.Sleep(delay)
				continue
			}
			return err
		}
		delay = 0
		sc := &srvConn{s: s, nc: c, isNew: true, born: zsim.S.Now, br: bufio.NewReader(c)}
		_, sc.tls = l.(tlsListener)
		if tc, ok := c.(*net.TCPConn); ok {
			sc.sc = tc.C
		}
		st.conns = append(st.conns, sc)
		cctx := ctx
		if s.ConnContext != nil {
			cctx = s.ConnContext(ctx, c)
		}
		zsim.Go(func() { sc.serve(cctx) })
	}
}

func (s *Server) drop(sc *srvConn) {
	st := s.state()
	for i, x := range st.conns {
		if x == sc {
			st.conns = append(st.conns[:i:i], st.conns[i+1:]...)
			return
		}
	}
}

func (sc *srvConn) serve(ctx realctx.Context) {
	defer func() {
		if !zsim.Killed() {
			if r := recover(); r != nil {
				// net/http recovers handler panics and drops the connection
				zsim.Probe("http handler panic")
				if HandlerPanic != nil && r != real.ErrAbortHandler {
					HandlerPanic(r)
				}
			}
			sc.s.drop(sc)
			sc.nc.Close()
		}
	}()
	ctx = realctx.WithValue(ctx, real.LocalAddrContextKey, sc.nc.LocalAddr())
	if sc.tls {
		b, err := sc.br.Peek(len(TLSHello))
		if zsim.Killed() || err != nil {
			return
		}
		if string(b) != TLSHello {
			io.WriteString(sc.nc, "HTTP/1.0 400 Bad Request\r\n\r\nClient sent an HTTP request to an HTTPS server.\n")
			return
		}
		sc.br.Discard(len(b))
	}
	for {
		if zsim.Killed() {
			return
		}
		req, err := real.ReadRequest(sc.br)
		if zsim.Killed() {
			return
		}
		if err != nil {
			if err != io.EOF && !strings.Contains(err.Error(), "connection") && err != io.ErrUnexpectedEOF {
				io.WriteString(sc.nc, "HTTP/1.1 400 Bad Request\r\nContent-Type: text/plain; charset=utf-8\r\nConnection: close\r\n\r\n400 Bad Request")
			}
			return
		}
		sc.busy, sc.isNew = true, false
		if sc.s.st.shutdown {
			// raced with Shutdown: the connection was closed under us or
			// will be after this request
		}
		rctx, cancel := context.WithCancel(ctx)
		if sc.sc != nil {
			sc.sc.SetGone(func() { context.CancelNow(rctx) })
		}
		req.RemoteAddr = sc.nc.RemoteAddr().String()
		if req.Body == nil {
			req.Body = real.NoBody
		}
		req = req.WithContext(rctx)
		w := &response{c: sc, req: req, h: real.Header{}}
		h := sc.s.Handler
		if h == nil {
			h = real.DefaultServeMux
		}
		h.ServeHTTP(w, req)
		if zsim.Killed() {
			return
		}
		w.finish()
		cancel()
		if sc.sc != nil {
			sc.sc.SetGone(nil)
		}
		sc.busy = false
		if w.err != nil || req.Close || sc.s.st.shutdown || w.closeAfter {
			return
		}
	}
}

// HandlerPanic, when set by a harness, is told about panics of handlers.
var HandlerPanic func(v interface{})

type response struct {
	c          *srvConn
	req        *real.Request
	h          real.Header
	code       int
	wrote      bool
	written    int
	sent       bool
	chunked    bool
	buf        bytes.Buffer
	snap       real.Header
	err        error
	closeAfter bool
}

func (w *response) Header() real.Header { return w.h }

func (w *response) WriteHeader(code int) {
	if w.wrote {
		return
	}
	w.wrote = true
	w.code = code
	w.snap = w.h.Clone()
}

func (w *response) Write(p []byte) (int, error) {
	if !w.wrote {
		w.WriteHeader(200)
	}
	if w.err != nil {
		return 0, w.err
	}
	if w.req.Method == "HEAD" {
		return len(p), nil
	}
	if cl, err := strconv.Atoi(w.snap.Get("Content-Length")); err == nil && w.written+len(p) > cl {
		return 0, real.ErrContentLength
	}
	w.written += len(p)
	if w.snap.Get("Content-Type") == "" && len(p) > 0 && w.buf.Len() == 0 && !w.sent {
		w.snap.Set("Content-Type", real.DetectContentType(p))
	}
	w.buf.Write(p)
	if w.buf.Len() > 2048 {
		w.flush(false)
	}
	if w.err != nil {
		return 0, w.err
	}
	return len(p), nil
}

func (w *response) Flush() {
	if !w.wrote {
		w.WriteHeader(200)
	}
	w.flush(false)
}

func (w *response) out(b []byte) {
	if w.err == nil {
		_, w.err = w.c.nc.Write(b)
	}
}

func (w *response) flush(last bool) {
	var b bytes.Buffer
	if !w.sent {
		w.sent = true
		fmt.Fprintf(&b, "HTTP/1.1 %d %s\r\n", w.code, real.StatusText(w.code))
		if w.snap.Get("Content-Length") == "" && w.code != 304 && w.code != 204 {
			if last {
				w.snap.Set("Content-Length", strconv.Itoa(w.buf.Len()))
			} else {
				w.chunked = true
				w.snap.Set("Transfer-Encoding", "chunked")
			}
		}
		if w.req.Close || w.c.s.st.shutdown {
			w.snap.Set("Connection", "close")
			w.closeAfter = true
		}
		w.snap.Write(&b)
		b.WriteString("\r\n")
	}
	if w.buf.Len() > 0 {
		if w.chunked {
			fmt.Fprintf(&b, "%x\r\n", w.buf.Len())
		}
		b.Write(w.buf.Bytes())
		if w.chunked {
			b.WriteString("\r\n")
		}
		w.buf.Reset()
	}
	if last && w.chunked {
		b.WriteString("0\r\n\r\n")
	}
	w.out(b.Bytes())
}

func (w *response) finish() {
	if !w.wrote {
		w.WriteHeader(200)
	}
	if cl, err := strconv.Atoi(w.snap.Get("Content-Length")); err == nil && w.written != cl && w.req.Method != "HEAD" && w.code != 304 {
		// like net/http, rather than let the client wait for the rest
		w.closeAfter = true
	}
	io.Copy(io.Discard, io.LimitReader(w.req.Body, 256<<10))
	w.flush(true)
}

// Shutdown closes listeners and idle connections and waits for the others.
func (s *Server) Shutdown(ctx realctx.Context) error {
	zsim.YS()
	if zsim.Killed() {
		return nil
	}
	st := s.state()
	st.shutdown = true
	for _, l := range append([]realnet.Listener(nil), st.lis...) {
		l.Close()
	}
	for _, f := range st.onShut {
		zsim.Go(f)
	}
	poll := time.Millisecond
	for {
		quiet := true
		for _, sc := range append([]*srvConn(nil), st.conns...) {
			idle := !sc.busy && !sc.isNew
			if sc.isNew && zsim.S.Now-sc.born > int64(5*time.Second) {
				idle = true
			}
			if idle {
				sc.nc.Close()
				s.drop(sc)
				continue
			}
			quiet = false
		}
		if quiet {
			return nil
		}
		t := zt.NewTimer(poll)
		i := zsim.Select(false, zsim.RecvCase(ctx.Done()), zsim.RecvCase(t.C))
		t.Stop()
		if zsim.Killed() {
			return nil
		}
		if i == 0 {
			return ctx.Err()
		}
		poll *= 2
		if poll > 500*time.Millisecond {
			poll = 500 * time.Millisecond
		}
	}
}

// Close closes everything at once.
func (s *Server) Close() error {
	st := s.state()
	st.shutdown = true
	var err error
	for _, l := range append([]realnet.Listener(nil), st.lis...) {
		if e := l.Close(); e != nil {
			err = e
		}
	}
	for _, sc := range append([]*srvConn(nil), st.conns...) {
		sc.nc.Close()
		s.drop(sc)
	}
	return err
}

func Serve(l realnet.Listener, h real.Handler) error { return (&Server{Handler: h}).Serve(l) }
func ListenAndServe(addr string, h real.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}
