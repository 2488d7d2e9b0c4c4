package os

import (
	"errors"
	"io"
	real "os"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/vivint/rothko/internal/zsim"
)

// Args are the arguments of the simulated command line.
var Args = []string{"rothko"}

// Stdout and friends go nowhere.
var (
	Stdin  = &File{name: "/dev/stdin", fd: -10}
	Stdout = &File{name: "/dev/stdout", fd: -11}
	Stderr = &File{name: "/dev/stderr", fd: -12}
)

func perr(op, path string, e syscall.Errno) error {
	return &real.PathError{Op: op, Path: path, Err: e}
}

// File is an open file of the simulated file system.
type File struct {
	name   string
	fd     int
	closed bool
	left   []zsim.Dirent
}

func OpenFile(name string, flag int, perm real.FileMode) (*File, error) {
	fd, e := zsim.SysOpen(name, flag, uint32(perm.Perm()))
	if e != 0 {
		return nil, perr("open", name, e)
	}
	return &File{name: name, fd: fd}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, real.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, real.O_RDWR|real.O_CREATE|real.O_TRUNC, 0666)
}

func NewFile(fd uintptr, name string) *File { return &File{name: name, fd: int(fd)} }

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return uintptr(f.fd) }

func (f *File) check(op string) error {
	if f == nil {
		return real.ErrInvalid
	}
	if f.closed {
		return &real.PathError{Op: op, Path: f.name, Err: real.ErrClosed}
	}
	return nil
}

func (f *File) Close() error {
	if err := f.check("close"); err != nil {
		return err
	}
	if f.fd < 0 {
		return nil
	}
	f.closed = true
	if e := zsim.SysClose(f.fd); e != 0 {
		return perr("close", f.name, e)
	}
	return nil
}

func (f *File) Read(p []byte) (int, error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	if f.fd < 0 {
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n, e := zsim.SysRead(f.fd, p, -1)
	if e != 0 {
		return 0, perr("read", f.name, e)
	}
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *File) ReadAt(p []byte, off int64) (n int, err error) {
	if err := f.check("read"); err != nil {
		return 0, err
	}
	for n < len(p) {
		m, e := zsim.SysRead(f.fd, p[n:], off+int64(n))
		if e != 0 {
			return n, perr("read", f.name, e)
		}
		if m == 0 {
			return n, io.EOF
		}
		n += m
	}
	return n, nil
}

func (f *File) Write(p []byte) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	if f.fd < 0 {
		return len(p), nil
	}
	n, e := zsim.SysWrite(f.fd, p, -1)
	if e != 0 {
		return n, perr("write", f.name, e)
	}
	return n, nil
}

func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if err := f.check("write"); err != nil {
		return 0, err
	}
	n, e := zsim.SysWrite(f.fd, p, off)
	if e != 0 {
		return n, perr("write", f.name, e)
	}
	return n, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.check("seek"); err != nil {
		return 0, err
	}
	n, e := zsim.SysSeek(f.fd, off, whence)
	if e != 0 {
		return 0, perr("seek", f.name, e)
	}
	f.left = nil
	return n, nil
}

func (f *File) Sync() error { return f.check("sync") }

func (f *File) Truncate(size int64) error {
	if err := f.check("truncate"); err != nil {
		return err
	}
	if e := zsim.SysTruncate(f.fd, size, false); e != 0 {
		return perr("truncate", f.name, e)
	}
	return nil
}

func (f *File) Chmod(mode real.FileMode) error { return f.check("chmod") }

type fileStat struct{ st zsim.Stat }

func (s fileStat) Name() string { return s.st.Name }
func (s fileStat) Size() int64  { return s.st.Size }
func (s fileStat) Mode() real.FileMode {
	m := real.FileMode(s.st.Mode)
	if s.st.Dir {
		m |= real.ModeDir
	}
	return m
}
func (s fileStat) ModTime() time.Time { return time.Unix(0, s.st.Mtime) }
func (s fileStat) IsDir() bool        { return s.st.Dir }
func (s fileStat) Sys() interface{}   { return &syscall.Stat_t{Ino: s.st.Ino, Size: s.st.Size} }

func (f *File) Stat() (real.FileInfo, error) {
	if err := f.check("stat"); err != nil {
		return nil, err
	}
	st, e := zsim.SysFstat(f.fd)
	if e != 0 {
		return nil, perr("stat", f.name, e)
	}
	return fileStat{st}, nil
}

func Stat(name string) (real.FileInfo, error) {
	st, e := zsim.SysStat(name)
	if e != 0 {
		return nil, perr("stat", name, e)
	}
	return fileStat{st}, nil
}

func Lstat(name string) (real.FileInfo, error) {
	fi, err := Stat(name)
	if pe, ok := err.(*real.PathError); ok {
		pe.Op = "lstat"
	}
	return fi, err
}

func (f *File) dirents(op string, n int) (out []zsim.Dirent, err error) {
	if err := f.check(op); err != nil {
		return nil, err
	}
	for {
		for len(f.left) > 0 && (n <= 0 || len(out) < n) {
			d := f.left[0]
			f.left = f.left[1:]
			if d.Name != "." && d.Name != ".." {
				out = append(out, d)
			}
		}
		if n > 0 && len(out) >= n {
			return out, nil
		}
		l, e := zsim.SysReadDir(f.fd, 100)
		if e != 0 {
			return out, perr(op, f.name, e)
		}
		if len(l) == 0 {
			if n > 0 && len(out) == 0 {
				return nil, io.EOF
			}
			return out, nil
		}
		f.left = l
	}
}

func (f *File) Readdirnames(n int) (names []string, err error) {
	l, err := f.dirents("readdirent", n)
	for _, d := range l {
		names = append(names, d.Name)
	}
	return names, err
}

func (f *File) Readdir(n int) (out []real.FileInfo, err error) {
	l, err := f.dirents("readdirent", n)
	for _, d := range l {
		out = append(out, fileStat{d.Stat})
	}
	return out, err
}

type dirEntry struct{ fileStat }

func (d dirEntry) Type() real.FileMode          { return d.Mode().Type() }
func (d dirEntry) Info() (real.FileInfo, error) { return d.fileStat, nil }

func (f *File) ReadDir(n int) (out []real.DirEntry, err error) {
	l, err := f.dirents("readdirent", n)
	for _, d := range l {
		out = append(out, dirEntry{fileStat{d.Stat}})
	}
	return out, err
}

func ReadDir(name string) ([]real.DirEntry, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	l, err := f.ReadDir(-1)
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	return l, err
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm real.FileMode) error {
	f, err := OpenFile(name, real.O_WRONLY|real.O_CREATE|real.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Mkdir(name string, perm real.FileMode) error {
	if e := zsim.SysMkdir(name, uint32(perm)); e != 0 {
		return perr("mkdir", name, e)
	}
	return nil
}

func MkdirAll(path string, perm real.FileMode) error {
	dir, err := Stat(path)
	if err == nil {
		if dir.IsDir() {
			return nil
		}
		return perr("mkdir", path, syscall.ENOTDIR)
	}
	i := len(path)
	for i > 0 && path[i-1] == '/' {
		i--
	}
	j := i
	for j > 0 && path[j-1] != '/' {
		j--
	}
	if j > 1 {
		if err := MkdirAll(path[:j-1], perm); err != nil {
			return err
		}
	}
	err = Mkdir(path, perm)
	if err != nil {
		dir, err1 := Lstat(path)
		if err1 == nil && dir.IsDir() {
			return nil
		}
		return err
	}
	return nil
}

func Remove(name string) error {
	e := zsim.SysUnlink(name, false)
	if e == 0 {
		return nil
	}
	e1 := syscall.Errno(0)
	if e == syscall.EISDIR {
		if e1 = zsim.SysUnlink(name, true); e1 == 0 {
			return nil
		}
		e = e1
	}
	return perr("remove", name, e)
}

func RemoveAll(path string) error {
	err := Remove(path)
	if err == nil || real.IsNotExist(err) {
		return nil
	}
	if !errors.Is(err, syscall.ENOTEMPTY) {
		return err
	}
	l, err := ReadDir(path)
	if err != nil {
		return err
	}
	for _, d := range l {
		if err := RemoveAll(path + "/" + d.Name()); err != nil {
			return err
		}
	}
	return Remove(path)
}

func Rename(from, to string) error {
	if e := zsim.SysRename(from, to); e != 0 {
		return &real.LinkError{Op: "rename", Old: from, New: to, Err: e}
	}
	return nil
}

func Link(from, to string) error {
	if e := zsim.SysLink(from, to); e != 0 {
		return &real.LinkError{Op: "link", Old: from, New: to, Err: e}
	}
	return nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, real.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func Chmod(name string, mode real.FileMode) error { _, err := Stat(name); return err }

func Chtimes(name string, a, m time.Time) error { _, err := Stat(name); return err }

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	prefix, suffix := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		prefix, suffix = pattern[:i], pattern[i+1:]
	}
	for try := 0; ; try++ {
		name := dir + "/" + prefix + itoa(zsim.Rand63()%1e9) + suffix
		f, err := OpenFile(name, real.O_RDWR|real.O_CREATE|real.O_EXCL, 0600)
		if real.IsExist(err) && try < 100 {
			continue
		}
		return f, err
	}
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	prefix, suffix := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		prefix, suffix = pattern[:i], pattern[i+1:]
	}
	for try := 0; ; try++ {
		name := dir + "/" + prefix + itoa(zsim.Rand63()%1e9) + suffix
		err := Mkdir(name, 0700)
		if real.IsExist(err) && try < 100 {
			continue
		}
		return name, err
	}
}

func itoa(n int64) string {
	var b [20]byte
	i := len(b)
	for {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
		if n == 0 {
			return string(b[i:])
		}
	}
}

func TempDir() string           { return "/tmp" }
func Getwd() (string, error)    { return "/", nil }
func Getpid() int               { return 1000 + zsim.CurProc().ID }
func Hostname() (string, error) { return "sim", nil }
func Getpagesize() int          { return 4096 }

// Environment of the simulated machine: empty.
func Getenv(key string) string                      { return "" }
func LookupEnv(key string) (string, bool)           { return "", false }
func Environ() []string                             { return nil }
func Setenv(key, value string) error                { return nil }
func Unsetenv(key string) error                     { return nil }
func Expand(s string, m func(string) string) string { return real.Expand(s, m) }

// Exit ends the simulated process at once.
func Exit(code int) { zsim.ExitProcess(code) }
