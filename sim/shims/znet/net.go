package net

import (
	"context"
	"errors"
	"io"
	real "net"
	"os"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/vivint/rothko/internal/zsim"
)

type timeoutErr struct{}

func (timeoutErr) Error() string     { return "i/o timeout" }
func (timeoutErr) Timeout() bool     { return true }
func (timeoutErr) Temporary() bool   { return true }
func (timeoutErr) Is(err error) bool { return err == os.ErrDeadlineExceeded }

func conv(op string, err error) error {
	var e error
	switch err {
	case nil:
		return nil
	case zsim.ErrEOF:
		return io.EOF
	case zsim.ErrNClosed:
		e = real.ErrClosed
	case zsim.ErrReset:
		e = os.NewSyscallError(op, syscall.ECONNRESET)
	case zsim.ErrPipe:
		e = os.NewSyscallError(op, syscall.EPIPE)
	case zsim.ErrTimeout:
		e = timeoutErr{}
	case zsim.ErrNoFD:
		e = os.NewSyscallError("accept4", syscall.EMFILE)
	case zsim.ErrRefused:
		e = os.NewSyscallError("connect", syscall.ECONNREFUSED)
	case zsim.ErrInUse:
		e = os.NewSyscallError("bind", syscall.EADDRINUSE)
	default:
		e = err
	}
	return &real.OpError{Op: op, Net: "tcp", Err: e}
}

func addrOf(s string) *real.TCPAddr {
	i := strings.LastIndexByte(s, ':')
	port, _ := strconv.Atoi(s[i+1:])
	return &real.TCPAddr{IP: real.IPv4(127, 0, 0, 1), Port: port}
}

// TCPConn is one end of a simulated connection.
type TCPConn struct{ C *zsim.Conn }

func (c *TCPConn) Read(p []byte) (int, error)  { n, err := c.C.Read(p); return n, conv("read", err) }
func (c *TCPConn) Write(p []byte) (int, error) { n, err := c.C.Write(p); return n, conv("write", err) }
func (c *TCPConn) Close() error                { return conv("close", c.C.Close()) }
func (c *TCPConn) CloseWrite() error           { return conv("close", c.C.CloseWrite()) }
func (c *TCPConn) CloseRead() error            { return nil }
func (c *TCPConn) LocalAddr() real.Addr        { return addrOf(c.C.Local) }
func (c *TCPConn) RemoteAddr() real.Addr       { return addrOf(c.C.Remote) }

func abs(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := zsim.UntilHook(t)
	if d <= 0 {
		return 1
	}
	return zsim.S.Now + int64(d)
}

func (c *TCPConn) SetDeadline(t time.Time) error {
	a := abs(t)
	c.C.SetDeadlines(a, a, true, true)
	return nil
}
func (c *TCPConn) SetReadDeadline(t time.Time) error {
	c.C.SetDeadlines(abs(t), 0, true, false)
	return nil
}
func (c *TCPConn) SetWriteDeadline(t time.Time) error {
	c.C.SetDeadlines(0, abs(t), false, true)
	return nil
}
func (c *TCPConn) SetKeepAlive(bool) error                  { return nil }
func (c *TCPConn) SetKeepAlivePeriod(d time.Duration) error { return nil }
func (c *TCPConn) SetNoDelay(bool) error                    { return nil }
func (c *TCPConn) SetLinger(int) error                      { return nil }
func (c *TCPConn) SetReadBuffer(int) error                  { return nil }
func (c *TCPConn) SetWriteBuffer(int) error                 { return nil }

// TCPListener is a simulated listening socket.
type TCPListener struct {
	L  *zsim.Lis
	dl int64
}

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	c, err := l.L.Accept()
	if err != nil {
		return nil, conv("accept", err)
	}
	return &TCPConn{c}, nil
}

func (l *TCPListener) Accept() (real.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

func (l *TCPListener) Close() error    { return conv("close", l.L.Close()) }
func (l *TCPListener) Addr() real.Addr { return addrOf(l.L.Addr) }
func (l *TCPListener) SetDeadline(t time.Time) error {
	zsim.Unsupported("TCPListener.SetDeadline")
	return nil
}

func badAddr(address string) error {
	if address == "" {
		return nil // any port
	}
	if _, _, err := real.SplitHostPort(address); err != nil {
		return &real.OpError{Op: "listen", Net: "tcp", Err: err}
	}
	return nil
}

func Listen(network, address string) (real.Listener, error) {
	if !strings.HasPrefix(network, "tcp") {
		return nil, errors.New("zsim: network " + network)
	}
	if err := badAddr(address); err != nil {
		return nil, err
	}
	if address == "" {
		address = ":0"
	}
	l, err := zsim.S.Net.Listen(address)
	if err != nil {
		return nil, conv("listen", err)
	}
	if l == nil {
		return nil, real.ErrClosed
	}
	return &TCPListener{L: l}, nil
}

func ListenTCP(network string, laddr *real.TCPAddr) (*TCPListener, error) {
	l, err := Listen(network, laddr.String())
	if err != nil {
		return nil, err
	}
	return l.(*TCPListener), nil
}

func Dial(network, address string) (real.Conn, error) {
	c, err := zsim.S.Net.Dial(address)
	if err != nil {
		return nil, conv("dial", err)
	}
	return &TCPConn{c}, nil
}

func DialTimeout(network, address string, d time.Duration) (real.Conn, error) {
	return Dial(network, address)
}

func DialTCP(network string, laddr, raddr *real.TCPAddr) (*TCPConn, error) {
	c, err := Dial(network, raddr.String())
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

// ListenConfig opens simulated sockets.
type ListenConfig struct {
	Control   func(network, address string, c syscall.RawConn) error
	KeepAlive time.Duration
}

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (real.Listener, error) {
	return Listen(network, address)
}

// Dialer opens simulated connections.
type Dialer struct {
	Timeout   time.Duration
	KeepAlive time.Duration
}

func (d *Dialer) Dial(network, address string) (real.Conn, error) { return Dial(network, address) }

func (d *Dialer) DialContext(ctx context.Context, network, address string) (real.Conn, error) {
	return Dial(network, address)
}

func Pipe() (real.Conn, real.Conn) {
	zsim.Unsupported("net.Pipe")
	return nil, nil
}
