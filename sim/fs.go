package zsim

// fs.go: the simulated machine's file system, memory mappings and descriptor
// tables. Its contents survive process crashes exactly as the page cache does;
// every other byte of a process is lost. All entry points run on the
// scheduler's side (OnSched) so that the race detector sees only the code
// under test.

import (
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

const pageSize = 4096

// Inode is a file or directory.
type Inode struct {
	Ino   uint64
	Dir   map[string]*Inode // nil for files
	names []string          // sorted
	data  []byte            // file contents
	ext   int64             // offset of the extent in the arena, -1 if none
	extN  int64
	Nlink int
	Mtime int64
	Mode  uint32
	opens int
	freed bool

	// a file that was lengthened without space being set aside for it: what
	// is behind holeAt takes up no space until something is stored there
	sparse bool
	holeAt int64
}

func (n *Inode) IsDir() bool { return n.Dir != nil }
func (n *Inode) Size() int64 { return int64(len(n.data)) }

// FSFault makes operations fail: after Skip matching operations, the next
// Count ones fail with Errno.
type FSFault struct {
	Op     string `json:"op"` // open create mkdir fallocate mmap munmap readdir unlink rename stat read write getrlimit close
	Errno  int    `json:"errno"`
	Skip   int    `json:"skip"`
	Count  int    `json:"count"`
	Prefix string `json:"prefix,omitempty"`
	Sub    string `json:"sub,omitempty"`   // path contains
	Stall  int64  `json:"stall,omitempty"` // take so long instead of failing
	seen   int
	Hits   int `json:"-"`
}

// FS is the file system plus resource limits.
type FS struct {
	Root    *Inode
	nextIno uint64
	Faults  []*FSFault
	Cap     int64 // capacity in bytes for file data, 0 = unlimited
	used    int64
	MaxFD   int // descriptors per process, 0 = unlimited
	MaxMaps int // mappings per process
	NoFile  uint64
	Ops     map[string]int64
	arenaAt int64
	OnOp    func(op, path string)
	stall   int64 // of the operation in progress
	holes   []*Inode
	Log     []string
}

// FD is an open descriptor.
type FD struct {
	Num    int
	ino    *Inode
	Path   string
	Flags  int
	off    int64
	dirPos uint64
	conn   interface{}
}

// Mapping is a live or released memory mapping of a process.
type Mapping struct {
	Addr, Len uintptr
	real      uintptr
	realLen   uintptr
	ino       *Inode
	Path      string
	Live      bool
	roAt      uintptr // stores from here on fail, if ro
	ro        bool
	prot      uintptr
	P         *Proc
}

// OSProc is the operating system's state of one process.
type OSProc struct {
	fds       map[int]*FD
	maps      []*Mapping
	Cwd       string
	Umask     uint32
	PeakFD    int
	PeakMap   int
	netHooked bool
}

func (p *Proc) OS() *OSProc {
	o, _ := p.Data.(*OSProc)
	if o == nil {
		o = &OSProc{fds: map[int]*FD{}, Cwd: "/"}
		p.Data = o
		p.OnDeath(func(p *Proc) { o.die() })
	}
	return o
}

func (o *OSProc) die() {
	for _, m := range o.maps {
		m.release()
	}
	for _, f := range o.fds {
		if f.ino != nil {
			f.ino.opens--
			S.FS.reclaim(f.ino)
		}
	}
	o.fds = map[int]*FD{}
}

// LiveMaps returns the live mappings of the process.
func (o *OSProc) LiveMaps() (out []*Mapping) {
	for _, m := range o.maps {
		if m.Live {
			out = append(out, m)
		}
	}
	return out
}

// NumFDs returns the number of open descriptors.
func (o *OSProc) NumFDs() int { return len(o.fds) }

// FDPaths lists the paths of the open descriptors.
func (o *OSProc) FDPaths() (out []string) {
	for _, f := range o.fds {
		out = append(out, f.Path)
	}
	sort.Strings(out)
	return out
}

// ---------------------------------------------------------------------------
// arena: one memfd per worker holds the contents of mapped files

const arenaSize = 1 << 32

var (
	arenaFD   = -1
	arenaBase uintptr
)

func arenaInit() {
	if arenaFD >= 0 {
		return
	}
	name := []byte("zsim\x00")
	fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(&name[0])), 1, 0)
	if e != 0 {
		panic("zsim: memfd_create: " + e.Error())
	}
	if err := syscall.Ftruncate(int(fd), arenaSize); err != nil {
		panic("zsim: ftruncate arena: " + err.Error())
	}
	a, _, e := syscall.Syscall6(syscall.SYS_MMAP, 0, arenaSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED|0x4000, fd, 0)
	if e != 0 {
		panic("zsim: mmap arena: " + e.Error())
	}
	arenaFD, arenaBase = int(fd), a
}

func bytesAt(addr uintptr, n int) []byte {
	return unsafe.Slice((*byte)(*(*unsafe.Pointer)(unsafe.Pointer(&addr))), n)
}

var liveMappings []*Mapping // of this run, live or released

// newFS starts a run with an empty file system.
func newFS() *FS {
	fs := &FS{nextIno: 1, Ops: map[string]int64{}, NoFile: 1024}
	fs.Root = fs.newInode(true)
	return fs
}

func (fs *FS) cleanup() {
	for _, m := range liveMappings {
		syscall.Syscall(syscall.SYS_MUNMAP, m.real, m.realLen, 0)
	}
	liveMappings = liveMappings[:0]
	if fs.arenaAt > 0 {
		// give the pages back: they must read as zeros for the next run
		if fs.arenaAt <= 1<<18 {
			clear(bytesAt(arenaBase, int(fs.arenaAt)))
		} else {
			syscall.Syscall6(syscall.SYS_FALLOCATE, uintptr(arenaFD), 3, 0, uintptr(fs.arenaAt), 0, 0)
		}
		fs.arenaAt = 0
	}
}

func (fs *FS) newInode(dir bool) *Inode {
	fs.nextIno++
	n := &Inode{Ino: fs.nextIno, ext: -1, Nlink: 1, Mode: 0644, Mtime: S0now()}
	if dir {
		n.Dir = map[string]*Inode{}
		n.Mode = 0755
	}
	return n
}

func S0now() int64 {
	if S != nil {
		return S.WallNow()
	}
	return 0
}

// toArena moves the contents of a file into an extent of at least n bytes so
// that it can be mapped.
func (fs *FS) toArena(n *Inode, want int64) bool {
	if n.ext >= 0 {
		return want <= n.extN
	}
	arenaInit()
	sz := (want + pageSize - 1) / pageSize * pageSize
	if sz < 4*pageSize {
		sz = 4 * pageSize
	}
	if fs.arenaAt+sz > arenaSize {
		return false
	}
	n.ext, n.extN = fs.arenaAt, sz
	fs.arenaAt += sz
	buf := bytesAt(arenaBase+uintptr(n.ext), int(sz))
	copy(buf, n.data)
	n.data = buf[:len(n.data):sz]
	return true
}

// resize sets the length of a file, zero filling.
func (fs *FS) resize(n *Inode, size int64) syscall.Errno {
	old := int64(len(n.data))
	if size > old && fs.Cap > 0 && fs.used+size-old > fs.Cap {
		S.Errs++
		FaultHit("disk full ENOSPC")
		return syscall.ENOSPC
	}
	fs.used += size - old
	if n.ext >= 0 {
		if size > n.extN {
			Unsupported("a mapped file grew from %d to %d bytes", old, size)
			return syscall.EFBIG
		}
		buf := bytesAt(arenaBase+uintptr(n.ext), int(n.extN))
		if size < old {
			clear(buf[size:old])
		}
		n.data = buf[:size:n.extN]
		return 0
	}
	if size <= old {
		n.data = n.data[:size:size]
	} else {
		n.data = append(n.data, make([]byte, size-old)...)
	}
	return 0
}

// ---------------------------------------------------------------------------
// faults

func (fs *FS) fault(op, path string) syscall.Errno {
	fs.Ops[op]++
	if fs.OnOp != nil {
		fs.OnOp(op, path)
	}
	if S.cur != nil && S.cur.P == S.World {
		return 0 // the harness looks at the disk without interference
	}
	for _, f := range fs.Faults {
		if f.Op != op || !strings.HasPrefix(path, f.Prefix) || f.Sub != "" && !strings.Contains(path, f.Sub) {
			continue
		}
		f.seen++
		if f.seen > f.Skip && f.seen <= f.Skip+f.Count {
			f.Hits++
			if f.Stall > 0 {
				FaultHit(op + " stalled")
				if S.TraceOn {
					Tracef("fault %s %s: stalls for %v", op, path, time.Duration(f.Stall))
				}
				fs.stall += f.Stall
				continue
			}
			S.Errs++
			FaultHit(op + " " + errName(syscall.Errno(f.Errno)))
			if S.TraceOn {
				Tracef("fault %s %s: %v", op, path, syscall.Errno(f.Errno))
			}
			return syscall.Errno(f.Errno)
		}
	}
	return 0
}

// HasFaults reports whether a fault is still armed for the operation.
func (fs *FS) FaultsPending() bool {
	for _, f := range fs.Faults {
		if f.seen < f.Skip+f.Count {
			return true
		}
	}
	return false
}

func errName(e syscall.Errno) string {
	switch e {
	case syscall.ENOSPC:
		return "ENOSPC"
	case syscall.EIO:
		return "EIO"
	case syscall.EMFILE:
		return "EMFILE"
	case syscall.ENFILE:
		return "ENFILE"
	case syscall.ENOMEM:
		return "ENOMEM"
	case syscall.EACCES:
		return "EACCES"
	case syscall.EINTR:
		return "EINTR"
	case syscall.EROFS:
		return "EROFS"
	}
	return e.Error()
}

// ---------------------------------------------------------------------------
// paths

func (o *OSProc) abs(path string) string {
	if !strings.HasPrefix(path, "/") {
		path = o.Cwd + "/" + path
	}
	return path
}

// lookup walks the path. For a missing last component it returns the parent.
func (fs *FS) lookup(path string) (parent *Inode, name string, n *Inode, e syscall.Errno) {
	cur := fs.Root
	var stack []*Inode
	var parts []string
	for _, c := range strings.Split(path, "/") {
		if c == "" || c == "." {
			continue
		}
		parts = append(parts, c)
	}
	if len(path) > 4095 {
		return nil, "", nil, syscall.ENAMETOOLONG
	}
	if strings.IndexByte(path, 0) >= 0 {
		return nil, "", nil, syscall.EINVAL
	}
	trail := strings.HasSuffix(path, "/")
	for i, c := range parts {
		if !cur.IsDir() {
			return nil, "", nil, syscall.ENOTDIR
		}
		if len(c) > 255 {
			return nil, "", nil, syscall.ENAMETOOLONG
		}
		if c == ".." {
			if len(stack) > 0 {
				cur = stack[len(stack)-1]
				stack = stack[:len(stack)-1]
			}
			continue
		}
		next := cur.Dir[c]
		if next == nil {
			if i == len(parts)-1 {
				return cur, c, nil, syscall.ENOENT
			}
			return nil, "", nil, syscall.ENOENT
		}
		if i == len(parts)-1 {
			if trail && !next.IsDir() {
				return nil, "", nil, syscall.ENOTDIR
			}
			return cur, c, next, 0
		}
		stack = append(stack, cur)
		cur = next
	}
	return nil, "", cur, 0
}

func (d *Inode) add(name string, n *Inode) {
	if d.Dir[name] == nil {
		i := sort.SearchStrings(d.names, name)
		d.names = append(d.names, "")
		copy(d.names[i+1:], d.names[i:])
		d.names[i] = name
	}
	d.Dir[name] = n
	d.Mtime = S0now()
}

func (d *Inode) remove(name string) {
	if d.Dir[name] != nil {
		delete(d.Dir, name)
		i := sort.SearchStrings(d.names, name)
		d.names = append(d.names[:i:i], d.names[i+1:]...)
		d.Mtime = S0now()
	}
}

// ---------------------------------------------------------------------------
// system calls. Each runs fn in one step.

func osCall(fn func(fs *FS, o *OSProc)) {
	YS()
	s := S
	if s == nil || s.cur == nil {
		panic("zsim: system call outside of the simulation")
	}
	if s.cur.killed {
		return
	}
	p := s.cur.P
	var stall int64
	s.OnSched(func() {
		if len(s.FS.holes) > 0 {
			s.FS.checkHoles()
		}
		fn(s.FS, p.OS())
		if len(s.FS.holes) > 0 {
			s.FS.checkHoles()
		}
		stall, s.FS.stall = s.FS.stall, 0
	})
	if stall > 0 && p != s.World {
		t := s.cur
		t.stalled = true
		s.Sleep(time.Duration(stall))
		t.stalled = false
	}
}

// SysOpen is open(2).
func SysOpen(path string, flags int, mode uint32) (fd int, e syscall.Errno) {
	e = syscall.EBADF
	osCall(func(fs *FS, o *OSProc) {
		fd, e = fs.open(o, path, flags, mode)
		Tracef("open %s %#x = %d %v", path, flags, fd, e)
	})
	return
}

func (fs *FS) open(o *OSProc, path string, flags int, mode uint32) (int, syscall.Errno) {
	path = o.abs(path)
	parent, name, n, e := fs.lookup(path)
	op := "open"
	if n == nil && flags&syscall.O_CREAT != 0 && parent != nil {
		op = "create"
	}
	if fe := fs.fault(op, path); fe != 0 {
		return -1, fe
	}
	if fs.MaxFD > 0 && len(o.fds) >= fs.MaxFD {
		S.Errs++
		FaultHit("descriptor limit EMFILE")
		return -1, syscall.EMFILE
	}
	if e != 0 {
		if e != syscall.ENOENT || parent == nil || flags&syscall.O_CREAT == 0 {
			return -1, e
		}
		if strings.HasSuffix(path, "/") {
			return -1, syscall.EISDIR
		}
		n = fs.newInode(false)
		parent.add(name, n)
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return -1, syscall.EEXIST
		}
		if n.IsDir() && flags&3 != syscall.O_RDONLY {
			return -1, syscall.EISDIR
		}
		if !n.IsDir() && flags&syscall.O_DIRECTORY != 0 {
			return -1, syscall.ENOTDIR
		}
		if flags&syscall.O_TRUNC != 0 && !n.IsDir() {
			fs.resize(n, 0)
			n.Mtime = S0now()
		}
	}
	num := 3
	for o.fds[num] != nil {
		num++
	}
	n.opens++
	o.fds[num] = &FD{Num: num, ino: n, Path: path, Flags: flags}
	if len(o.fds) > o.PeakFD {
		o.PeakFD = len(o.fds)
	}
	return num, 0
}

// SysClose is close(2).
func SysClose(fd int) (e syscall.Errno) {
	osCall(func(fs *FS, o *OSProc) {
		f := o.fds[fd]
		if f == nil {
			e = syscall.EBADF
			return
		}
		e = fs.fault("close", f.Path)
		if f.ino != nil {
			f.ino.opens--
			fs.reclaim(f.ino)
		}
		delete(o.fds, fd)
	})
	return
}

// Stat is what stat reports.
type Stat struct {
	Name  string
	Size  int64
	Mode  uint32
	Dir   bool
	Mtime int64
	Ino   uint64
	Nlink int
}

func (n *Inode) stat(name string) Stat {
	return Stat{Name: name, Size: n.Size(), Mode: n.Mode, Dir: n.IsDir(), Mtime: n.Mtime, Ino: n.Ino, Nlink: n.Nlink}
}

func base(p string) string {
	p = strings.TrimRight(p, "/")
	if i := strings.LastIndexByte(p, '/'); i >= 0 {
		p = p[i+1:]
	}
	if p == "" {
		return "/"
	}
	return p
}

// SysStat is stat(2).
func SysStat(path string) (st Stat, e syscall.Errno) {
	e = syscall.EBADF
	osCall(func(fs *FS, o *OSProc) {
		path = o.abs(path)
		if e = fs.fault("stat", path); e != 0 {
			return
		}
		var n *Inode
		_, _, n, e = fs.lookup(path)
		if e == 0 {
			st = n.stat(base(path))
		}
	})
	return
}

// SysFstat is fstat(2).
func SysFstat(fd int) (st Stat, e syscall.Errno) {
	e = syscall.EBADF
	osCall(func(fs *FS, o *OSProc) {
		f := o.fds[fd]
		if f == nil || f.ino == nil {
			return
		}
		if e = fs.fault("fstat", f.Path); e != 0 {
			return
		}
		st = f.ino.stat(base(f.Path))
	})
	return
}

// SysMkdir is mkdir(2).
func SysMkdir(path string, mode uint32) (e syscall.Errno) {
	e = syscall.EBADF
	osCall(func(fs *FS, o *OSProc) {
		path = o.abs(path)
		if e = fs.fault("mkdir", path); e != 0 {
			return
		}
		parent, name, n, le := fs.lookup(strings.TrimRight(path, "/"))
		switch {
		case n != nil:
			e = syscall.EEXIST
		case parent == nil:
			e = le
		default:
			parent.add(name, fs.newInode(true))
			e = 0
		}
		Tracef("mkdir %s = %v", path, e)
	})
	return
}

// SysUnlink removes a file (dir false) or an empty directory (dir true).
func SysUnlink(path string, dir bool) (e syscall.Errno) {
	e = syscall.EBADF
	osCall(func(fs *FS, o *OSProc) {
		path = o.abs(path)
		parent, name, n, le := fs.lookup(strings.TrimRight(path, "/"))
		if le != 0 {
			e = le
			return
		}
		if n.IsDir() != dir {
			if dir {
				e = syscall.ENOTDIR
			} else {
				e = syscall.EISDIR
			}
			return
		}
		if e = fs.fault("unlink", path); e != 0 {
			return
		}
		if parent == nil {
			e = syscall.EBUSY
			return
		}
		if dir && len(n.Dir) > 0 {
			e = syscall.ENOTEMPTY
			return
		}
		parent.remove(name)
		n.Nlink--
		fs.reclaim(n)
		Tracef("unlink %s", path)
	})
	return
}

// reclaim gives the space of a removed file back once nothing holds it.
func (fs *FS) reclaim(n *Inode) {
	if n.Nlink <= 0 && n.opens == 0 && !n.IsDir() && !n.freed && !n.mapped() {
		n.freed = true
		fs.used -= n.backed()
	}
}

// backed is how much of the file takes up space.
func (n *Inode) backed() int64 {
	if n.sparse && n.holeAt < n.Size() {
		return n.holeAt
	}
	return n.Size()
}

// back sets space aside up to the offset.
func (fs *FS) back(n *Inode, to int64) syscall.Errno {
	to = (to + pageSize - 1) / pageSize * pageSize
	if !n.sparse || to <= n.holeAt {
		return 0
	}
	was, hole := n.backed(), n.holeAt
	n.holeAt = to
	d := n.backed() - was
	if fs.Cap > 0 && fs.used+d > fs.Cap {
		n.holeAt = hole
		S.Errs++
		FaultHit("disk full ENOSPC")
		return syscall.ENOSPC
	}
	fs.used += d
	n.sparse = n.holeAt < n.Size()
	return 0
}

// checkHoles finds out which holes were filled through mappings, and lets
// stores into holes fail while the disk is full, as they do with a SIGBUS.
func (fs *FS) checkHoles() {
	l := fs.holes[:0]
	for _, n := range fs.holes {
		if !n.sparse || n.freed {
			n.sparse = false
		} else {
			l = append(l, n)
			to := n.holeAt
			for at := n.holeAt; at < n.Size(); at++ {
				if n.data[at] != 0 {
					to = at + 1
				}
			}
			if to > n.holeAt {
				was := n.backed()
				n.holeAt = (to + pageSize - 1) / pageSize * pageSize
				fs.used += n.backed() - was
			}
		}
		full := n.sparse && fs.Cap > 0 && fs.used+n.Size()-n.backed() > fs.Cap
		for _, m := range liveMappings {
			if m.ino != n || !m.Live || m.ro == full && (!full || m.roAt == uintptr(n.holeAt)) {
				continue
			}
			if m.ro {
				syscall.Syscall(syscall.SYS_MPROTECT, m.real, m.realLen, m.prot)
			}
			m.ro, m.roAt = full, uintptr(n.holeAt)
			if full && m.roAt < m.realLen {
				FaultHit("disk full below a mapped hole")
				syscall.Syscall(syscall.SYS_MPROTECT, m.real+m.roAt, m.realLen-m.roAt, m.prot&syscall.PROT_READ)
			}
		}
	}
	fs.holes = l
}

func (n *Inode) mapped() bool {
	for _, m := range liveMappings {
		if m.ino == n && m.Live {
			return true
		}
	}
	return false
}

// SysRename is rename(2).
func SysRename(from, to string) (e syscall.Errno) {
	e = syscall.EBADF
	osCall(func(fs *FS, o *OSProc) {
		from, to = o.abs(from), o.abs(to)
		if e = fs.fault("rename", to); e != 0 {
			return
		}
		fp, fname, fn, fe := fs.lookup(from)
		if fe != 0 {
			e = fe
			return
		}
		tp, tname, tn, te := fs.lookup(to)
		if tn == nil && tp == nil {
			e = te
			return
		}
		if fn == tn {
			e = 0
			return
		}
		if tn != nil {
			switch {
			case tn.IsDir() && !fn.IsDir():
				e = syscall.EISDIR
				return
			case !tn.IsDir() && fn.IsDir():
				e = syscall.ENOTDIR
				return
			case tn.IsDir() && len(tn.Dir) > 0:
				e = syscall.ENOTEMPTY
				return
			}
			tn.Nlink--
			fs.reclaim(tn)
		}
		fp.remove(fname)
		tp.add(tname, fn)
		e = 0
		Tracef("rename %s %s", from, to)
	})
	return
}

// SysLink is link(2).
func SysLink(from, to string) (e syscall.Errno) {
	e = syscall.EBADF
	osCall(func(fs *FS, o *OSProc) {
		from, to = o.abs(from), o.abs(to)
		if e = fs.fault("link", to); e != 0 {
			return
		}
		_, _, fn, fe := fs.lookup(from)
		if fe != 0 {
			e = fe
			return
		}
		if fn.IsDir() {
			e = syscall.EPERM
			return
		}
		tp, tname, tn, te := fs.lookup(to)
		if tn != nil {
			e = syscall.EEXIST
			return
		}
		if tp == nil {
			e = te
			return
		}
		fn.Nlink++
		tp.add(tname, fn)
		e = 0
	})
	return
}

// SysTruncate changes the size of an open file; falloc only extends.
func SysTruncate(fd int, size int64, falloc bool) (e syscall.Errno) {
	e = syscall.EBADF
	osCall(func(fs *FS, o *OSProc) {
		f := o.fds[fd]
		if f == nil || f.ino == nil {
			return
		}
		if f.ino.IsDir() || f.Flags&3 == syscall.O_RDONLY {
			return
		}
		op := "ftruncate"
		if falloc {
			op = "fallocate"
		}
		if size < 0 || falloc && size == 0 {
			e = syscall.EINVAL
			return
		}
		if e = fs.fault(op, f.Path); e != 0 {
			// a failed allocation may leave part of the file behind
			if falloc && e == syscall.ENOSPC && size > f.ino.Size() && Chance(StFS, 0.3) {
				FaultHit("fallocate ENOSPC with partial allocation")
				part := f.ino.Size() + int64(Choice(StFS, int(size-f.ino.Size())))
				fs.grow(f.ino, part)
			}
			return
		}
		if falloc && size <= f.ino.Size() {
			e = fs.back(f.ino, size)
			return
		}
		n := f.ino
		if falloc {
			if e = fs.back(n, n.Size()); e == 0 {
				e = fs.grow(n, size)
			}
		} else {
			was, used, old, limit := n.backed(), fs.used, n.Size(), fs.Cap
			fs.Cap = 0
			e = fs.grow(n, size)
			fs.Cap = limit
			if e == 0 {
				if size > old && !n.sparse {
					n.sparse, n.holeAt = true, (old+pageSize-1)/pageSize*pageSize
					fs.holes = append(fs.holes, n)
				}
				fs.used = used + n.backed() - was
			}
		}
		f.ino.Mtime = S0now()
		Tracef("%s %s %d = %v", op, f.Path, size, e)
	})
	return
}

func (fs *FS) grow(n *Inode, size int64) syscall.Errno {
	if size > 1<<30 {
		return syscall.EFBIG
	}
	if !fs.toArena(n, size) {
		if size > n.extN && !n.mapped() {
			// move to a bigger extent
			old := append([]byte(nil), n.data...)
			n.ext, n.data = -1, old
			if !fs.toArena(n, size) {
				return syscall.ENOSPC
			}
		}
	}
	return fs.resize(n, size)
}

// SysMmap maps a file.
func SysMmap(fd int, length uintptr, prot, flags int, off int64) (addr uintptr, e syscall.Errno) {
	e = syscall.EBADF
	osCall(func(fs *FS, o *OSProc) {
		f := o.fds[fd]
		if f == nil || f.ino == nil || f.ino.IsDir() {
			return
		}
		if e = fs.fault("mmap", f.Path); e != 0 {
			return
		}
		if length == 0 {
			e = syscall.EINVAL
			return
		}
		if off != 0 || flags&syscall.MAP_SHARED == 0 {
			Unsupported("mmap with offset %d flags %#x", off, flags)
			e = syscall.EINVAL
			return
		}
		if prot&syscall.PROT_WRITE != 0 && f.Flags&3 != syscall.O_RDWR {
			e = syscall.EACCES
			return
		}
		live := len(o.LiveMaps())
		if fs.MaxMaps > 0 && live >= fs.MaxMaps {
			S.Errs++
			FaultHit("mapping limit ENOMEM")
			e = syscall.ENOMEM
			return
		}
		n := f.ino
		if !fs.toArena(n, n.Size()) {
			e = syscall.ENOMEM
			return
		}
		rl := (length + pageSize - 1) / pageSize * pageSize
		if int64(rl) > n.extN {
			Unsupported("mapping of %d bytes beyond the end of %s (%d bytes)", length, f.Path, n.Size())
			e = syscall.ENOMEM
			return
		}
		a, _, re := syscall.Syscall6(syscall.SYS_MMAP, 0, rl, uintptr(prot), syscall.MAP_SHARED, uintptr(arenaFD), uintptr(n.ext))
		if re != 0 {
			panic("zsim: real mmap failed: " + re.Error())
		}
		m := &Mapping{Addr: a, Len: length, real: a, realLen: rl, prot: uintptr(prot), ino: n, Path: f.Path, Live: true, P: S.cur.P}
		liveMappings = append(liveMappings, m)
		o.maps = append(o.maps, m)
		if live+1 > o.PeakMap {
			o.PeakMap = live + 1
		}
		addr, e = a, 0
		Tracef("mmap %s %d = #%d", f.Path, length, len(liveMappings))
	})
	return
}

func (m *Mapping) release() {
	if !m.Live {
		return
	}
	m.Live = false
	// keep the address range reserved: a later access faults
	_, _, e := syscall.Syscall(syscall.SYS_MPROTECT, m.real, m.realLen, 0)
	if e != 0 {
		panic("zsim: mprotect: " + e.Error())
	}
	S.FS.reclaim(m.ino)
}

// SysMunmap is munmap(2).
func SysMunmap(addr, length uintptr) (e syscall.Errno) {
	osCall(func(fs *FS, o *OSProc) {
		for i := len(o.maps) - 1; i >= 0; i-- {
			m := o.maps[i]
			if m.Addr != addr {
				continue
			}
			if !m.Live {
				S.Fail("munmap-twice", "munmap of an already released mapping of %s (another mapping may live at this address by then)", m.Path)
				e = syscall.EINVAL
				return
			}
			if e = fs.fault("munmap", m.Path); e != 0 {
				return
			}
			if (length+pageSize-1)/pageSize != (m.Len+pageSize-1)/pageSize {
				S.Fail("munmap-length", "munmap of %d bytes of a mapping of %d bytes of %s", length, m.Len, m.Path)
				return
			}
			m.release()
			Tracef("munmap %s", m.Path)
			return
		}
		S.Fail("munmap-bad-address", "munmap of address %#x which was never mapped", addr&0xfff)
		e = syscall.EINVAL
	})
	return
}

// SysMsync is msync(2).
func SysMsync(addr, length uintptr) (e syscall.Errno) {
	osCall(func(fs *FS, o *OSProc) {
		for _, m := range o.maps {
			if m.Addr <= addr && addr < m.Addr+m.realLen {
				if !m.Live {
					S.Fail("use-after-unmap", "msync of a released mapping of %s", m.Path)
					return
				}
				e = fs.fault("msync", m.Path)
				return
			}
		}
		e = syscall.ENOMEM
	})
	return
}

// SysRead reads at the descriptor's offset (off < 0) or at off.
func SysRead(fd int, p []byte, off int64) (n int, e syscall.Errno) {
	e = syscall.EBADF
	osCall(func(fs *FS, o *OSProc) {
		f := o.fds[fd]
		if f == nil || f.ino == nil {
			return
		}
		if f.ino.IsDir() {
			e = syscall.EISDIR
			return
		}
		if e = fs.fault("read", f.Path); e != 0 {
			return
		}
		at := off
		if off < 0 {
			at = f.off
		}
		if at < int64(len(f.ino.data)) {
			q := p
			if len(q) > 1 && S.cur.P != S.World && Chance(StFS, 0.02) {
				FaultHit("short read")
				q = q[:1+Choice(StFS, len(q)-1)]
			}
			n = copy(q, f.ino.data[at:])
		}
		if off < 0 {
			f.off += int64(n)
		}
	})
	return
}

// SysWrite writes at the descriptor's offset (off < 0) or at off.
func SysWrite(fd int, p []byte, off int64) (n int, e syscall.Errno) {
	e = syscall.EBADF
	osCall(func(fs *FS, o *OSProc) {
		f := o.fds[fd]
		if f == nil || f.ino == nil {
			return
		}
		if f.ino.IsDir() || f.Flags&3 == syscall.O_RDONLY {
			return
		}
		fe := fs.fault("write", f.Path)
		if fe != 0 {
			// some of it arrives
			p = p[:len(p)/2]
		}
		defer func() {
			if fe != 0 {
				e = fe
			}
		}()
		at := off
		if off < 0 {
			at = f.off
			if f.Flags&syscall.O_APPEND != 0 {
				at = f.ino.Size()
			}
		}
		if f.ino.sparse {
			if e = fs.back(f.ino, f.ino.Size()); e != 0 {
				return
			}
			e = syscall.EBADF
		}
		for e = 0; at+int64(len(p)) > f.ino.Size(); {
			if f.ino.ext >= 0 {
				e = fs.grow(f.ino, at+int64(len(p)))
			} else {
				e = fs.resize(f.ino, at+int64(len(p)))
			}
			if e == 0 {
				break
			}
			if e != syscall.ENOSPC || len(p) < 2 {
				return
			}
			// what fits is written
			fe, e = e, 0
			p = p[:len(p)/2]
		}
		n = copy(f.ino.data[at:], p)
		if off < 0 {
			f.off = at + int64(n)
		}
		f.ino.Mtime = S0now()
	})
	return
}

// SysSeek is lseek(2).
func SysSeek(fd int, off int64, whence int) (res int64, e syscall.Errno) {
	e = syscall.EBADF
	osCall(func(fs *FS, o *OSProc) {
		f := o.fds[fd]
		if f == nil || f.ino == nil {
			return
		}
		e = 0
		switch whence {
		case 0:
			res = off
		case 1:
			res = f.off + off
		case 2:
			res = f.ino.Size() + off
		}
		if res < 0 {
			e = syscall.EINVAL
			return
		}
		if f.ino.IsDir() {
			f.dirPos = 0
		}
		f.off = res
	})
	return
}

// Dirent is one directory entry.
type Dirent struct {
	Ino  uint64
	Name string
	Dir  bool
	Stat Stat
	pos  uint64
}

func dirHash(name string, salt uint64) uint64 {
	h := salt ^ 0xcbf29ce484222325
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 0x100000001b3
	}
	r := rng{h}
	return r.next()>>2 + 16
}

// SysReadDir returns up to max entries after the descriptor's position, in an
// order decided by the seed. Entries present throughout are returned exactly
// once, like getdents(2).
func SysReadDir(fd int, max int) (out []Dirent, e syscall.Errno) {
	e = syscall.EBADF
	osCall(func(fs *FS, o *OSProc) {
		f := o.fds[fd]
		if f == nil || f.ino == nil {
			return
		}
		if !f.ino.IsDir() {
			e = syscall.ENOTDIR
			return
		}
		if e = fs.fault("readdir", f.Path); e != 0 {
			return
		}
		var all []Dirent
		for _, name := range f.ino.names {
			pos := dirHash(name, S.Seed^f.ino.Ino)
			if pos > f.dirPos {
				n := f.ino.Dir[name]
				all = append(all, Dirent{n.Ino, name, n.IsDir(), n.stat(name), pos})
			}
		}
		if f.dirPos < 1 {
			all = append(all, Dirent{f.ino.Ino, ".", true, Stat{}, 1})
		}
		if f.dirPos < 2 {
			all = append(all, Dirent{f.ino.Ino, "..", true, Stat{}, 2})
		}
		sort.Slice(all, func(i, j int) bool { return all[i].pos < all[j].pos })
		if max > 0 && len(all) > max {
			all = all[:max]
		}
		if len(all) > 1 && S.cur.P != S.World && Chance(StFS, 0.1) {
			FaultHit("directory listed in pieces")
			all = all[:1+Choice(StFS, len(all)-1)]
		}
		if len(all) > 0 {
			f.dirPos = all[len(all)-1].pos
		}
		out = all
	})
	return
}

// SetDirPos rewinds the directory position to just before the entry that did
// not fit into the caller's buffer.
func SetDirPos(fd int, d Dirent) {
	osCall(func(fs *FS, o *OSProc) {
		if f := o.fds[fd]; f != nil {
			f.dirPos = d.pos - 1
		}
	})
}

// FDPath returns the path of a descriptor of the current process.
func FDPath(fd int) (p string) {
	osCall(func(fs *FS, o *OSProc) {
		if f := o.fds[fd]; f != nil {
			p = f.Path
		}
	})
	return
}

// ---------------------------------------------------------------------------
// direct access for harnesses (no interleaving, no faults)

// Mkdirs creates a directory and its parents.
func (fs *FS) Mkdirs(path string) *Inode {
	cur := fs.Root
	for _, c := range strings.Split(path, "/") {
		if c == "" {
			continue
		}
		n := cur.Dir[c]
		if n == nil {
			n = fs.newInode(true)
			cur.add(c, n)
		}
		cur = n
	}
	return cur
}

// WriteFile stores a file.
func (fs *FS) WriteFile(path string, data []byte) {
	i := strings.LastIndexByte(path, '/')
	d := fs.Mkdirs(path[:i])
	n := d.Dir[path[i+1:]]
	if n == nil {
		n = fs.newInode(false)
		d.add(path[i+1:], n)
	}
	fs.resize(n, int64(len(data)))
	copy(n.data, data)
}

// Find returns the inode of a path or nil.
func (fs *FS) Find(path string) *Inode {
	_, _, n, e := fs.lookup(path)
	if e != 0 {
		return nil
	}
	return n
}

// Rename gives a directory's entry another name that is not in use.
func (n *Inode) Rename(from, to string) {
	c := n.Dir[from]
	if c == nil || n.Dir[to] != nil {
		return
	}
	n.remove(from)
	n.add(to, c)
}

// Data returns the live contents of a file.
func (n *Inode) Data() []byte { return n.data }

// Walk visits all paths below p in order.
func (fs *FS) Walk(p string, fn func(path string, n *Inode)) {
	n := fs.Find(p)
	if n == nil {
		return
	}
	fs.walk(strings.TrimRight(p, "/"), n, fn)
}

func (fs *FS) walk(p string, n *Inode, fn func(path string, n *Inode)) {
	fn(p, n)
	for _, name := range append([]string(nil), n.names...) {
		if c := n.Dir[name]; c != nil {
			fs.walk(p+"/"+name, c, fn)
		}
	}
}

// snapshot of all file contents, for tearing the last statement of a crash.
type snapshot map[*Inode][]byte

func (fs *FS) snap() snapshot {
	sn := snapshot{}
	fs.walk("", fs.Root, func(_ string, n *Inode) {
		if n.ext >= 0 && len(n.data) > 0 {
			sn[n] = append([]byte(nil), n.data...)
		}
	})
	return sn
}

// Tear rolls back part of what changed since the snapshot: only a prefix (in
// address order, in units of eight bytes) of the last store sequence survives.
func (fs *FS) tear(sn snapshot) {
	fs.walk("", fs.Root, func(path string, n *Inode) {
		old, ok := sn[n]
		if !ok || len(old) != len(n.data) {
			return
		}
		var units []int
		for u := 0; u*8 < len(old); u++ {
			lo, hi := u*8, u*8+8
			if hi > len(old) {
				hi = len(old)
			}
			if string(old[lo:hi]) != string(n.data[lo:hi]) {
				units = append(units, u)
			}
		}
		if len(units) < 2 {
			return
		}
		keep := len(units) - Choice(StFS, len(units))
		if keep == len(units) {
			return
		}
		FaultHit("torn store at crash")
		for _, u := range units[keep:] {
			lo, hi := u*8, u*8+8
			if hi > len(old) {
				hi = len(old)
			}
			copy(n.data[lo:hi], old[lo:hi])
		}
		Tracef("torn store: %s kept %d of %d changed words", path, keep, len(units))
	})
}

// CrashAt kills process p when the run reaches the given statement; with torn
// set, the stores of the statement in progress reach memory only in part.
func (s *Sim) CrashAt(at int64, p *Proc, torn bool) {
	var sn snapshot
	s.SetCrash(at, func(phase int) {
		if phase == 0 {
			if torn {
				sn = s.FS.snap()
			}
			return
		}
		if p.Dead {
			return
		}
		if sn != nil {
			s.FS.tear(sn)
		}
		FaultHit("crash")
		Tracef("crash of %s", p.Name)
		s.Kill(p)
	})
}

// CrashOnStore kills process p at the n-th statement from now that changes the
// contents of a file through a mapping of it, or d statements later. Torn
// keeps only part of that change. It gives up after limit statements.
func (s *Sim) CrashOnStore(n int, d, limit int64, p *Proc, torn bool) {
	type img struct {
		ino *Inode
		old []byte
	}
	var imgs []img
	seen := 0
	end := s.Step() + limit
	look := func() (changed bool) {
		if seen != len(liveMappings) {
			seen = len(liveMappings)
			imgs = imgs[:0]
			have := map[*Inode]bool{}
			for _, m := range liveMappings {
				if m.P == p && !have[m.ino] {
					have[m.ino] = true
					imgs = append(imgs, img{m.ino, append([]byte(nil), m.ino.data...)})
				}
			}
			return false
		}
		for _, i := range imgs {
			if string(i.old) != string(i.ino.data) {
				return true
			}
		}
		return false
	}
	var watch func(phase int)
	watch = func(phase int) {
		if phase == 0 {
			s.SetCrash(s.crashAt, watch)
			return
		}
		if p.Dead || s.Step() > end {
			return
		}
		if look() {
			if n--; n <= 0 && d > 0 {
				s.CrashAt(s.Step()+d, p, torn)
				return
			}
			if n <= 0 {
				if torn {
					sn := snapshot{}
					for _, i := range imgs {
						sn[i.ino] = i.old
					}
					s.FS.tear(sn)
				}
				FaultHit("crash at a store")
				Tracef("crash of %s at a store", p.Name)
				s.Kill(p)
				return
			}
			for k := range imgs {
				imgs[k].old = append(imgs[k].old[:0], imgs[k].ino.data...)
			}
		}
		s.SetCrash(s.Step()+1, watch)
	}
	look()
	s.SetCrash(s.Step()+1, watch)
}
