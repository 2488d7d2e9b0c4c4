package syscall

import (
	real "syscall"
	"unsafe"

	"github.com/vivint/rothko/internal/zsim"
)

func errOf(e real.Errno) error {
	if e == 0 {
		return nil
	}
	return e
}

func cstr(p uintptr) string {
	ptr := *(*unsafe.Pointer)(unsafe.Pointer(&p))
	var b []byte
	for {
		c := *(*byte)(ptr)
		if c == 0 {
			return string(b)
		}
		b = append(b, c)
		ptr = unsafe.Add(ptr, 1)
	}
}

func bytesOf(p, n uintptr) []byte {
	if n == 0 {
		return nil
	}
	return unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&p))), n)
}

const atFDCWD = -100

func dispatch(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err real.Errno) {
	switch trap {
	case real.SYS_OPEN:
		fd, e := zsim.SysOpen(cstr(a1), int(a2), uint32(a3))
		return uintptr(fd), 0, e
	case real.SYS_OPENAT:
		path := cstr(a2)
		if path == "" || path[0] != '/' {
			if int32(a1) != atFDCWD {
				path = zsim.FDPath(int(a1)) + "/" + path
			}
		}
		fd, e := zsim.SysOpen(path, int(a3), uint32(a4))
		return uintptr(fd), 0, e
	case real.SYS_CLOSE:
		return 0, 0, zsim.SysClose(int(a1))
	case real.SYS_MMAP:
		if a1 != 0 {
			zsim.Unsupported("mmap at a fixed address")
		}
		addr, e := zsim.SysMmap(int(a5), a2, int(a3), int(a4), int64(a6))
		return addr, 0, e
	case real.SYS_MUNMAP:
		return 0, 0, zsim.SysMunmap(a1, a2)
	case real.SYS_MSYNC:
		return 0, 0, zsim.SysMsync(a1, a2)
	case real.SYS_MADVISE, real.SYS_FSYNC, real.SYS_FDATASYNC:
		return 0, 0, 0
	case real.SYS_FTRUNCATE:
		return 0, 0, zsim.SysTruncate(int(a1), int64(a2), false)
	case real.SYS_FALLOCATE:
		return 0, 0, errnoOf(Fallocate(int(a1), uint32(a2), int64(a3), int64(a4)))
	case real.SYS_READ:
		n, e := zsim.SysRead(int(a1), bytesOf(a2, a3), -1)
		return uintptr(n), 0, e
	case real.SYS_WRITE:
		n, e := zsim.SysWrite(int(a1), bytesOf(a2, a3), -1)
		return uintptr(n), 0, e
	case real.SYS_PREAD64:
		n, e := zsim.SysRead(int(a1), bytesOf(a2, a3), int64(a4))
		return uintptr(n), 0, e
	case real.SYS_PWRITE64:
		n, e := zsim.SysWrite(int(a1), bytesOf(a2, a3), int64(a4))
		return uintptr(n), 0, e
	case real.SYS_UNLINK:
		return 0, 0, zsim.SysUnlink(cstr(a1), false)
	case real.SYS_RMDIR:
		return 0, 0, zsim.SysUnlink(cstr(a1), true)
	case real.SYS_MKDIR:
		return 0, 0, zsim.SysMkdir(cstr(a1), uint32(a2))
	case real.SYS_RENAME:
		return 0, 0, zsim.SysRename(cstr(a1), cstr(a2))
	case real.SYS_GETDENTS64:
		n, err := ReadDirent(int(a1), bytesOf(a2, a3))
		return uintptr(n), 0, errnoOf(err)
	}
	zsim.Unsupported("system call %d", trap)
	return 0, 0, real.ENOSYS
}

func errnoOf(err error) real.Errno {
	if err == nil {
		return 0
	}
	if e, ok := err.(real.Errno); ok {
		return e
	}
	return real.EIO
}

func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err real.Errno) {
	return dispatch(trap, a1, a2, a3, 0, 0, 0)
}

func RawSyscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err real.Errno) {
	return dispatch(trap, a1, a2, a3, 0, 0, 0)
}

func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err real.Errno) {
	return dispatch(trap, a1, a2, a3, a4, a5, a6)
}

func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err real.Errno) {
	return dispatch(trap, a1, a2, a3, a4, a5, a6)
}

func Open(path string, mode int, perm uint32) (fd int, err error) {
	fd, e := zsim.SysOpen(path, mode, perm)
	return fd, errOf(e)
}

func Openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {
	if path == "" || path[0] != '/' {
		if dirfd != atFDCWD {
			path = zsim.FDPath(dirfd) + "/" + path
		}
	}
	return Open(path, flags, mode)
}

func Close(fd int) error { return errOf(zsim.SysClose(fd)) }

func Read(fd int, p []byte) (int, error) {
	n, e := zsim.SysRead(fd, p, -1)
	return n, errOf(e)
}

func Pread(fd int, p []byte, off int64) (int, error) {
	n, e := zsim.SysRead(fd, p, off)
	return n, errOf(e)
}

func Write(fd int, p []byte) (int, error) {
	n, e := zsim.SysWrite(fd, p, -1)
	return n, errOf(e)
}

func Pwrite(fd int, p []byte, off int64) (int, error) {
	n, e := zsim.SysWrite(fd, p, off)
	return n, errOf(e)
}

func Seek(fd int, offset int64, whence int) (int64, error) {
	n, e := zsim.SysSeek(fd, offset, whence)
	return n, errOf(e)
}

func Ftruncate(fd int, length int64) error { return errOf(zsim.SysTruncate(fd, length, false)) }

func Fallocate(fd int, mode uint32, off int64, length int64) error {
	if mode != 0 {
		zsim.Unsupported("fallocate mode %#x", mode)
		return real.EOPNOTSUPP
	}
	if length <= 0 || off < 0 {
		return real.EINVAL
	}
	return errOf(zsim.SysTruncate(fd, off+length, true))
}

func Fsync(fd int) error     { return nil }
func Fdatasync(fd int) error { return nil }
func Sync()                  {}

func Mkdir(path string, mode uint32) error { return errOf(zsim.SysMkdir(path, mode)) }
func Rmdir(path string) error              { return errOf(zsim.SysUnlink(path, true)) }
func Unlink(path string) error             { return errOf(zsim.SysUnlink(path, false)) }
func Rename(from, to string) error         { return errOf(zsim.SysRename(from, to)) }
func Link(from, to string) error           { return errOf(zsim.SysLink(from, to)) }

func fillStat(st *real.Stat_t, s zsim.Stat) {
	*st = real.Stat_t{Ino: s.Ino, Size: s.Size, Nlink: uint64(s.Nlink), Mode: s.Mode, Blksize: 4096}
	if s.Dir {
		st.Mode |= real.S_IFDIR
	} else {
		st.Mode |= real.S_IFREG
	}
}

func Stat(path string, st *real.Stat_t) error {
	s, e := zsim.SysStat(path)
	if e == 0 {
		fillStat(st, s)
	}
	return errOf(e)
}

func Lstat(path string, st *real.Stat_t) error { return Stat(path, st) }

func Fstat(fd int, st *real.Stat_t) error {
	s, e := zsim.SysFstat(fd)
	if e == 0 {
		fillStat(st, s)
	}
	return errOf(e)
}

// Mmap and Munmap with byte slices.
func Mmap(fd int, offset int64, length int, prot int, flags int) ([]byte, error) {
	a, e := zsim.SysMmap(fd, uintptr(length), prot, flags, offset)
	if e != 0 {
		return nil, e
	}
	return bytesOf(a, uintptr(length)), nil
}

func Munmap(b []byte) error {
	if len(b) == 0 {
		return real.EINVAL
	}
	return errOf(zsim.SysMunmap(uintptr(unsafe.Pointer(&b[0])), uintptr(len(b))))
}

func Getrlimit(resource int, rlim *real.Rlimit) error {
	if resource == real.RLIMIT_NOFILE {
		n := uint64(1024)
		if zsim.S != nil {
			n = zsim.S.FS.NoFile
		}
		*rlim = real.Rlimit{Cur: n, Max: n}
		return nil
	}
	zsim.Unsupported("getrlimit %d", resource)
	return real.EINVAL
}

func Setrlimit(resource int, rlim *real.Rlimit) error { return nil }

func Getpid() int      { return 1000 + zsim.CurProc().ID }
func Getpagesize() int { return 4096 }

// ReadDirent fills buf with linux_dirent64 records.
func ReadDirent(fd int, buf []byte) (n int, err error) {
	ents, e := zsim.SysReadDir(fd, 0)
	if e != 0 {
		return 0, e
	}
	const nameOff = 19
	for _, d := range ents {
		l := (nameOff + len(d.Name) + 1 + 7) &^ 7
		if n+l > len(buf) {
			zsim.SetDirPos(fd, d)
			if n == 0 {
				return 0, real.EINVAL
			}
			return n, nil
		}
		r := buf[n : n+l]
		for i := range r {
			r[i] = 0
		}
		*(*uint64)(unsafe.Pointer(&r[0])) = d.Ino
		*(*uint16)(unsafe.Pointer(&r[16])) = uint16(l)
		r[18] = real.DT_REG
		if d.Dir {
			r[18] = real.DT_DIR
		}
		copy(r[nameOff:], d.Name)
		n += l
	}
	return n, nil
}
