package simfs

import (
	"encoding/binary"
	"sort"
	"syscall"
	"unsafe"
)

// Fault is what the simulator decided to do to one system call.
type Fault struct {
	Errno syscall.Errno // 0: no error
	N     int           // reads and writes: at most N bytes are transferred (with Errno 0: a short transfer); -1: no limit
	After bool          // the effect takes place, then the error is returned
	Lose  bool          // close, fsync: what was not yet forced out is lost
}

// NoFault is the absence of a fault.
var NoFault = Fault{N: -1}

func cstr(p unsafe.Pointer) string {
	if p == nil {
		return ""
	}
	n := 0
	for *(*byte)(unsafe.Add(p, n)) != 0 {
		n++
	}
	return string(unsafe.Slice((*byte)(p), n))
}

func buf(p unsafe.Pointer, n uintptr) []byte {
	if n == 0 || p == nil {
		return nil
	}
	return unsafe.Slice((*byte)(p), int(n))
}

// Call is one system call in the Linux/amd64 ABI.
type Call struct {
	Task int
	Trap uintptr
	A    *[6]uintptr
	P    *[6]unsafe.Pointer
}

// Name is the name of the system call.
func (c *Call) Name() string { return TrapName(c.Trap) }

// Bytes is the memory behind argument i.
func (c *Call) Bytes(i, n int) string { return string(buf(c.P[i], uintptr(n))) }

// Path is the (first) path the call names, if any.
func (c *Call) Path() string {
	switch c.Trap {
	case syscall.SYS_OPENAT, syscall.SYS_MKDIRAT, syscall.SYS_UNLINKAT, syscall.SYS_FCHMODAT, syscall.SYS_FACCESSAT, 439, 452,
		syscall.SYS_READLINKAT, syscall.SYS_NEWFSTATAT, syscall.SYS_RENAMEAT, 316, syscall.SYS_LINKAT, syscall.SYS_UTIMENSAT, syscall.SYS_FCHOWNAT:
		return cstr(c.P[1])
	case syscall.SYS_TRUNCATE, syscall.SYS_CHDIR, syscall.SYS_SYMLINKAT, syscall.SYS_OPEN, syscall.SYS_STAT, syscall.SYS_LSTAT, syscall.SYS_UNLINK,
		syscall.SYS_MKDIR, syscall.SYS_RMDIR, syscall.SYS_RENAME, syscall.SYS_CHMOD, syscall.SYS_ACCESS, syscall.SYS_CREAT:
		return cstr(c.P[0])
	}
	return ""
}

var trapNames = map[uintptr]string{
	syscall.SYS_OPENAT: "openat", syscall.SYS_READ: "read", syscall.SYS_WRITE: "write", syscall.SYS_CLOSE: "close",
	syscall.SYS_FSTAT: "fstat", syscall.SYS_NEWFSTATAT: "newfstatat", syscall.SYS_MKDIRAT: "mkdirat", syscall.SYS_RENAMEAT: "renameat",
	316: "renameat2", syscall.SYS_UNLINKAT: "unlinkat", syscall.SYS_FSYNC: "fsync", syscall.SYS_FDATASYNC: "fdatasync",
	syscall.SYS_FTRUNCATE: "ftruncate", syscall.SYS_TRUNCATE: "truncate", syscall.SYS_PREAD64: "pread64", syscall.SYS_PWRITE64: "pwrite64",
	syscall.SYS_LSEEK: "lseek", syscall.SYS_FCHMOD: "fchmod", syscall.SYS_FCHMODAT: "fchmodat", syscall.SYS_READLINKAT: "readlinkat",
	syscall.SYS_SYMLINKAT: "symlinkat", syscall.SYS_LINKAT: "linkat", syscall.SYS_GETDENTS64: "getdents64", syscall.SYS_FCNTL: "fcntl",
	syscall.SYS_GETCWD: "getcwd", syscall.SYS_CHDIR: "chdir", syscall.SYS_UMASK: "umask", syscall.SYS_FACCESSAT: "faccessat", 439: "faccessat2", 452: "fchmodat2",
	syscall.SYS_UTIMENSAT: "utimensat", syscall.SYS_FLOCK: "flock", syscall.SYS_SYNC: "sync", syscall.SYS_FALLOCATE: "fallocate",
	326: "copy_file_range", syscall.SYS_SENDFILE: "sendfile", syscall.SYS_SPLICE: "splice", 332: "statx", syscall.SYS_STATFS: "statfs", syscall.SYS_FSTATFS: "fstatfs",
	syscall.SYS_FCHOWN: "fchown", syscall.SYS_FCHOWNAT: "fchownat", 306: "syncfs", 277: "sync_file_range", syscall.SYS_IOCTL: "ioctl",
	syscall.SYS_WRITEV: "writev", syscall.SYS_READV: "readv", syscall.SYS_MMAP: "mmap", syscall.SYS_MUNMAP: "munmap", syscall.SYS_GETPID: "getpid",
}

// TrapName names a system call number.
func TrapName(t uintptr) string {
	if n, ok := trapNames[t]; ok {
		return n
	}
	return "sys_" + itoa(int(t))
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	neg := n < 0
	if neg {
		n = -n
	}
	s := ""
	for n > 0 {
		s = string(rune('0'+n%10)) + s
		n /= 10
	}
	if neg {
		s = "-" + s
	}
	return s
}

const neg1 = ^uintptr(0)

// Do executes a system call under the given fault.
func (fs *FS) Do(c *Call, f Fault) (uintptr, syscall.Errno) {
	if f.Errno != 0 && !f.After && !f.Lose {
		return neg1, f.Errno
	}
	r, e := fs.do(c, f)
	if e == 0 && f.Errno != 0 {
		return neg1, f.Errno
	}
	if e != 0 {
		return neg1, e
	}
	return r, 0
}

func (fs *FS) do(c *Call, f Fault) (uintptr, syscall.Errno) {
	a, p := c.A, c.P
	switch c.Trap {
	case syscall.SYS_OPENAT:
		return fs.open(c.Task, int(int32(a[0])), cstr(p[1]), int(a[2]), uint32(a[3]))
	case syscall.SYS_OPEN:
		return fs.open(c.Task, -100, cstr(p[0]), int(a[1]), uint32(a[2]))
	case syscall.SYS_CREAT:
		return fs.open(c.Task, -100, cstr(p[0]), syscall.O_CREAT|syscall.O_WRONLY|syscall.O_TRUNC, uint32(a[1]))
	case syscall.SYS_READ, syscall.SYS_PREAD64:
		return fs.read(c, f)
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		return fs.write(c, f)
	case syscall.SYS_CLOSE:
		return fs.close(int(a[0]), f)
	case syscall.SYS_FSTAT:
		of := fs.fds[int(a[0])]
		if of == nil {
			return 0, syscall.EBADF
		}
		fs.fill(fs.nodes[of.Ino], p[1])
		return 0, 0
	case syscall.SYS_NEWFSTATAT:
		if a[3]&0x1000 != 0 && cstr(p[1]) == "" { // AT_EMPTY_PATH
			of := fs.fds[int(int32(a[0]))]
			if of == nil {
				return 0, syscall.EBADF
			}
			fs.fill(fs.nodes[of.Ino], p[2])
			return 0, 0
		}
		return fs.stat(int(int32(a[0])), cstr(p[1]), p[2], a[3]&0x100 == 0)
	case syscall.SYS_STAT:
		return fs.stat(-100, cstr(p[0]), p[1], true)
	case syscall.SYS_LSTAT:
		return fs.stat(-100, cstr(p[0]), p[1], false)
	case syscall.SYS_MKDIRAT:
		return fs.mkdir(int(int32(a[0])), cstr(p[1]), uint32(a[2]))
	case syscall.SYS_MKDIR:
		return fs.mkdir(-100, cstr(p[0]), uint32(a[1]))
	case syscall.SYS_RENAMEAT, 316:
		fl := uintptr(0)
		if c.Trap == 316 {
			fl = a[4]
		}
		return fs.rename(int(int32(a[0])), cstr(p[1]), int(int32(a[2])), cstr(p[3]), fl)
	case syscall.SYS_RENAME:
		return fs.rename(-100, cstr(p[0]), -100, cstr(p[1]), 0)
	case syscall.SYS_UNLINKAT:
		return fs.unlink(int(int32(a[0])), cstr(p[1]), a[2]&0x200 != 0)
	case syscall.SYS_UNLINK:
		return fs.unlink(-100, cstr(p[0]), false)
	case syscall.SYS_RMDIR:
		return fs.unlink(-100, cstr(p[0]), true)
	case syscall.SYS_LINKAT:
		return fs.link(int(int32(a[0])), cstr(p[1]), int(int32(a[2])), cstr(p[3]))
	case syscall.SYS_SYMLINKAT:
		return fs.symlink(cstr(p[0]), int(int32(a[1])), cstr(p[2]))
	case syscall.SYS_READLINKAT:
		return fs.readlink(int(int32(a[0])), cstr(p[1]), buf(p[2], a[3]))
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC, 306:
		of := fs.fds[int(a[0])]
		if of == nil {
			return 0, syscall.EBADF
		}
		fs.sync(of.Ino, f.Lose)
		return 0, 0
	case syscall.SYS_SYNC:
		for i := range fs.nodes {
			fs.log = append(fs.log, logOp{kind: opSync, ino: i})
		}
		return 0, 0
	case 277: // sync_file_range gives no durability guarantee
		return 0, 0
	case syscall.SYS_FTRUNCATE:
		of := fs.fds[int(a[0])]
		if of == nil {
			return 0, syscall.EBADF
		}
		if of.Flags&syscall.O_ACCMODE == syscall.O_RDONLY {
			return 0, syscall.EINVAL
		}
		fs.truncate(of.Ino, int64(a[1]))
		return 0, 0
	case syscall.SYS_TRUNCATE:
		ap, e := fs.abs(-100, cstr(p[0]))
		if e != 0 {
			return 0, e
		}
		_, _, nd, e := fs.walk(ap, true)
		if e != 0 {
			return 0, e
		}
		if nd == nil {
			return 0, syscall.ENOENT
		}
		if nd.isDir() {
			return 0, syscall.EISDIR
		}
		if !fs.may(nd, 2) {
			return 0, syscall.EACCES
		}
		fs.truncate(nd.Ino, int64(a[1]))
		return 0, 0
	case syscall.SYS_FALLOCATE:
		return 0, syscall.EOPNOTSUPP
	case syscall.SYS_LSEEK:
		of := fs.fds[int(a[0])]
		if of == nil {
			return 0, syscall.EBADF
		}
		nd := fs.nodes[of.Ino]
		o := int64(a[1])
		switch a[2] {
		case 1:
			o += of.Off
		case 2:
			o += int64(len(nd.Data))
		case 0:
		default:
			return 0, syscall.EINVAL
		}
		if o < 0 {
			return 0, syscall.EINVAL
		}
		of.Off = o
		if nd.isDir() && o == 0 {
			of.DirPos = 0
		}
		return uintptr(o), 0
	case syscall.SYS_FCHMOD:
		of := fs.fds[int(a[0])]
		if of == nil {
			return 0, syscall.EBADF
		}
		return fs.chmod(fs.nodes[of.Ino], uint32(a[1]))
	case syscall.SYS_FCHMODAT, 452, syscall.SYS_CHMOD:
		dfd, path, mode := int(int32(a[0])), "", uint32(0)
		if c.Trap == syscall.SYS_CHMOD {
			dfd, path, mode = -100, cstr(p[0]), uint32(a[1])
		} else {
			path, mode = cstr(p[1]), uint32(a[2])
		}
		nd, e := fs.lookup(dfd, path, !(c.Trap == 452 && a[3]&0x100 != 0))
		if e != 0 {
			return 0, e
		}
		return fs.chmod(nd, mode)
	case syscall.SYS_FCHOWN, syscall.SYS_FCHOWNAT:
		return 0, 0 // one user only: changing to oneself
	case syscall.SYS_UTIMENSAT:
		return 0, 0
	case syscall.SYS_FACCESSAT, 439, syscall.SYS_ACCESS:
		dfd, path, m := int(int32(a[0])), "", uint32(0)
		if c.Trap == syscall.SYS_ACCESS {
			dfd, path, m = -100, cstr(p[0]), uint32(a[1])
		} else {
			path, m = cstr(p[1]), uint32(a[2])
		}
		nd, e := fs.lookup(dfd, path, true)
		if e != 0 {
			return 0, e
		}
		if m != 0 && !fs.may(nd, m) {
			return 0, syscall.EACCES
		}
		return 0, 0
	case syscall.SYS_GETDENTS64:
		return fs.getdents(int(a[0]), buf(p[1], a[2]))
	case syscall.SYS_FCNTL:
		if fs.fds[int(a[0])] == nil {
			return 0, syscall.EBADF
		}
		switch a[1] {
		case syscall.F_GETFL:
			return uintptr(fs.fds[int(a[0])].Flags), 0
		case syscall.F_GETFD, syscall.F_SETFD:
			return 0, 0
		case syscall.F_SETFL:
			return 0, syscall.EINVAL // keeps regular files off the poller, as epoll would
		case syscall.F_SETLK, syscall.F_SETLKW:
			return 0, 0
		}
		return 0, syscall.EINVAL
	case syscall.SYS_FLOCK:
		return 0, 0
	case syscall.SYS_GETCWD:
		b := buf(p[0], a[1])
		if len(b) < len(fs.Cwd)+1 {
			return 0, syscall.ERANGE
		}
		copy(b, fs.Cwd)
		b[len(fs.Cwd)] = 0
		return uintptr(len(fs.Cwd) + 1), 0
	case syscall.SYS_UMASK:
		o := fs.Umask
		fs.Umask = uint32(a[0]) & 0o777
		return uintptr(o), 0
	case syscall.SYS_CHDIR, syscall.SYS_FCHDIR:
		path := ""
		if c.Trap == syscall.SYS_CHDIR {
			path = cstr(p[0])
		} else if of := fs.fds[int(a[0])]; of == nil {
			return 0, syscall.EBADF
		} else {
			path = of.Path
		}
		nd, e := fs.lookup(-100, path, true)
		switch {
		case e != 0:
			return 0, e
		case !nd.isDir():
			return 0, syscall.ENOTDIR
		case !fs.may(nd, 1):
			return 0, syscall.EACCES
		}
		if path[0] != '/' {
			path = fs.Cwd + "/" + path
		}
		if real := fs.nameOf(nd); real != "" {
			path = real
		}
		fs.Cwd = path
		return 0, 0
	case syscall.SYS_GETPID:
		return 4242, 0
	case 326, syscall.SYS_SENDFILE, syscall.SYS_SPLICE, 332, syscall.SYS_IOCTL:
		return 0, syscall.ENOSYS
	}
	fs.Unsupported = append(fs.Unsupported, TrapName(c.Trap))
	return 0, syscall.ENOSYS
}

func (fs *FS) lookup(dirfd int, path string, follow bool) (*Inode, syscall.Errno) {
	ap, e := fs.abs(dirfd, path)
	if e != 0 {
		return nil, e
	}
	_, _, nd, e := fs.walk(ap, follow)
	if e != 0 {
		return nil, e
	}
	if nd == nil {
		return nil, syscall.ENOENT
	}
	return nd, 0
}

func (fs *FS) open(task, dirfd int, path string, flags int, mode uint32) (uintptr, syscall.Errno) {
	ap, e := fs.abs(dirfd, path)
	if e != 0 {
		return 0, e
	}
	follow := flags&syscall.O_NOFOLLOW == 0 && !(flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0)
	par, name, nd, e := fs.walk(ap, follow)
	if e != 0 {
		return 0, e
	}
	acc := flags & syscall.O_ACCMODE
	if flags&0x410000 == 0x410000 { // O_TMPFILE
		return 0, syscall.EOPNOTSUPP
	}
	if nd == nil {
		if flags&syscall.O_CREAT == 0 {
			return 0, syscall.ENOENT
		}
		if !fs.may(par, 2|1) {
			return 0, syscall.EACCES
		}
		ino, pi, m, uid, now := fs.next, par.Ino, IFReg|(mode&0o7777&^fs.Umask), fs.EUID, fs.Now
		fs.meta(func(fs *FS) {
			pd := fs.nodes[pi]
			if pd == nil {
				return
			}
			fs.nodes[ino] = &Inode{Ino: ino, Mode: m, UID: uid, Nlink: 1, MTime: now}
			fs.next = max(fs.next, ino+1)
			pd.Dir[name] = ino
		})
		nd = fs.nodes[ino]
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return 0, syscall.EEXIST
		}
		if nd.isLnk() {
			return 0, syscall.ELOOP
		}
		if nd.isDir() && (acc != syscall.O_RDONLY || flags&syscall.O_CREAT != 0) {
			return 0, syscall.EISDIR
		}
		if !nd.isDir() && flags&syscall.O_DIRECTORY != 0 {
			return 0, syscall.ENOTDIR
		}
		var want uint32
		if acc != syscall.O_WRONLY {
			want |= 4
		}
		if acc != syscall.O_RDONLY {
			want |= 2
		}
		if flags&syscall.O_TRUNC != 0 {
			want |= 2
		}
		if !fs.may(nd, want) {
			return 0, syscall.EACCES
		}
		if flags&syscall.O_TRUNC != 0 && len(nd.Data) > 0 {
			fs.truncate(nd.Ino, 0)
		}
	}
	fd := fs.nextFD
	fs.nextFD++
	fs.fds[fd] = &OpenFile{FD: fd, Owner: task, Ino: nd.Ino, Flags: flags &^ syscall.O_CLOEXEC, Path: ap}
	return uintptr(fd), 0
}

func (fs *FS) read(c *Call, f Fault) (uintptr, syscall.Errno) {
	fd := int(c.A[0])
	of := fs.fds[fd]
	if of == nil || of.Flags&syscall.O_ACCMODE == syscall.O_WRONLY {
		return 0, syscall.EBADF
	}
	nd := fs.nodes[of.Ino]
	if nd.isDir() {
		return 0, syscall.EISDIR
	}
	b := buf(c.P[1], c.A[2])
	off := of.Off
	if c.Trap == syscall.SYS_PREAD64 {
		off = int64(c.A[3])
	}
	n := 0
	if off < int64(len(nd.Data)) {
		lim := len(b)
		if f.N >= 0 && f.N < lim {
			lim = max(f.N, 1)
			lim = min(lim, len(b))
		}
		n = copy(b[:lim], nd.Data[off:])
	}
	if c.Trap == syscall.SYS_READ {
		of.Off += int64(n)
	}
	return uintptr(n), 0
}

func (fs *FS) write(c *Call, f Fault) (uintptr, syscall.Errno) {
	fd := int(c.A[0])
	of := fs.fds[fd]
	if of == nil || of.Flags&syscall.O_ACCMODE == syscall.O_RDONLY {
		return 0, syscall.EBADF
	}
	b := buf(c.P[1], c.A[2])
	if f.N >= 0 && f.N < len(b) {
		b = b[:f.N]
	}
	nd := fs.nodes[of.Ino]
	off := of.Off
	if c.Trap == syscall.SYS_PWRITE64 {
		off = int64(c.A[3])
	} else if of.Flags&syscall.O_APPEND != 0 {
		off = int64(len(nd.Data))
	}
	if fs.Quota >= 0 {
		grow := off + int64(len(b)) - int64(len(nd.Data))
		if free := fs.Quota - fs.used(); grow > max(free, 0) {
			fit := int64(len(b)) - (grow - max(free, 0))
			if fit <= 0 {
				return 0, syscall.ENOSPC
			}
			b = b[:fit]
		}
	}
	fs.rawWrite(of.Ino, off, b)
	fs.log = append(fs.log, logOp{kind: opWrite, ino: of.Ino, off: off, data: append([]byte(nil), b...)})
	if c.Trap == syscall.SYS_WRITE {
		of.Off = off + int64(len(b))
	}
	fs.changed()
	return uintptr(len(b)), 0
}

func (fs *FS) truncate(ino int, size int64) {
	now := fs.Now
	fs.meta(func(fs *FS) {
		nd := fs.nodes[ino]
		if nd == nil {
			return
		}
		if int64(len(nd.Data)) > size {
			nd.Data = append([]byte(nil), nd.Data[:size]...)
		} else if int64(len(nd.Data)) < size {
			nd.Data = append(nd.Data, make([]byte, size-int64(len(nd.Data)))...)
		}
		nd.MTime = now
	})
}

func (fs *FS) sync(ino int, lose bool) {
	if lose {
		last := -1
		for i := range fs.log {
			if fs.log[i].kind == opSync && fs.log[i].ino == ino && !fs.log[i].lost {
				last = i
			}
		}
		for i := range fs.log {
			if i > last && fs.log[i].kind == opWrite && fs.log[i].ino == ino {
				fs.log[i].lost = true
			}
		}
		fs.log = append(fs.log, logOp{kind: opSync, ino: ino, lost: true})
		return
	}
	fs.log = append(fs.log, logOp{kind: opSync, ino: ino})
}

// close releases the descriptor. With Lose, the write-back the close was waiting
// for failed: what was written and not yet synced is gone for every reader
// (network file systems and quota report it only here).
func (fs *FS) close(fd int, f Fault) (uintptr, syscall.Errno) {
	of := fs.fds[fd]
	if of == nil {
		return 0, syscall.EBADF
	}
	delete(fs.fds, fd)
	if f.Lose {
		last := -1
		for i := range fs.log {
			if fs.log[i].kind == opSync && fs.log[i].ino == of.Ino && !fs.log[i].lost {
				last = i
			}
		}
		keep := int64(-1)
		for i := last + 1; i < len(fs.log); i++ {
			if op := &fs.log[i]; op.kind == opWrite && op.ino == of.Ino {
				op.lost = true
				if keep < 0 || op.off < keep {
					keep = op.off
				}
			}
		}
		if nd := fs.nodes[of.Ino]; keep >= 0 && nd != nil && keep < int64(len(nd.Data)) {
			if f.N > 0 {
				keep = min(keep+int64(f.N), int64(len(nd.Data))-1)
			}
			fs.truncate(of.Ino, keep)
		}
	}
	fs.gc()
	return 0, 0
}

func (fs *FS) chmod(nd *Inode, mode uint32) (uintptr, syscall.Errno) {
	if fs.EUID != 0 && nd.UID != fs.EUID {
		return 0, syscall.EPERM
	}
	ino := nd.Ino
	fs.meta(func(fs *FS) {
		if nd := fs.nodes[ino]; nd != nil {
			nd.Mode = nd.Mode&TypeMask | mode&0o7777
		}
	})
	return 0, 0
}

func (fs *FS) mkdir(dirfd int, path string, mode uint32) (uintptr, syscall.Errno) {
	ap, e := fs.abs(dirfd, path)
	if e != 0 {
		return 0, e
	}
	for len(ap) > 1 && ap[len(ap)-1] == '/' {
		ap = ap[:len(ap)-1]
	}
	par, name, nd, e := fs.walk(ap, false)
	if e != 0 {
		return 0, e
	}
	if nd != nil {
		return 0, syscall.EEXIST
	}
	if !fs.may(par, 2|1) {
		return 0, syscall.EACCES
	}
	ino, pi, m, uid := fs.next, par.Ino, IFDir|(mode&0o7777&^fs.Umask), fs.EUID
	fs.meta(func(fs *FS) {
		pd := fs.nodes[pi]
		if pd == nil {
			return
		}
		fs.nodes[ino] = &Inode{Ino: ino, Mode: m, UID: uid, Nlink: 2, Dir: map[string]int{}}
		fs.next = max(fs.next, ino+1)
		pd.Dir[name] = ino
	})
	return 0, 0
}

func (fs *FS) rename(d1 int, p1 string, d2 int, p2 string, flags uintptr) (uintptr, syscall.Errno) {
	a1, e := fs.abs(d1, p1)
	if e != 0 {
		return 0, e
	}
	a2, e := fs.abs(d2, p2)
	if e != 0 {
		return 0, e
	}
	par1, n1, nd1, e := fs.walk(a1, false)
	if e != 0 {
		return 0, e
	}
	par2, n2, nd2, e := fs.walk(a2, false)
	if e != 0 {
		return 0, e
	}
	if nd1 == nil {
		return 0, syscall.ENOENT
	}
	if n1 == "" || n2 == "" {
		return 0, syscall.EBUSY
	}
	if !fs.may(par1, 2|1) || !fs.may(par2, 2|1) {
		return 0, syscall.EACCES
	}
	if nd1 == nd2 {
		return 0, 0
	}
	if fs.device(par1) != fs.device(par2) {
		return 0, syscall.EXDEV
	}
	if flags&1 != 0 && nd2 != nil { // RENAME_NOREPLACE
		return 0, syscall.EEXIST
	}
	if flags&^1 != 0 {
		return 0, syscall.EINVAL
	}
	if nd2 != nil {
		if nd2.isDir() && !nd1.isDir() {
			return 0, syscall.EISDIR
		}
		if !nd2.isDir() && nd1.isDir() {
			return 0, syscall.ENOTDIR
		}
		if nd2.isDir() && len(nd2.Dir) > 0 {
			return 0, syscall.ENOTEMPTY
		}
	}
	i1, i2, src := par1.Ino, par2.Ino, nd1.Ino
	fs.meta(func(fs *FS) {
		x, y := fs.nodes[i1], fs.nodes[i2]
		if x == nil || y == nil || x.Dir[n1] != src {
			return
		}
		delete(x.Dir, n1)
		y.Dir[n2] = src
	})
	fs.gc()
	return 0, 0
}

func (fs *FS) unlink(dirfd int, path string, dir bool) (uintptr, syscall.Errno) {
	ap, e := fs.abs(dirfd, path)
	if e != 0 {
		return 0, e
	}
	par, name, nd, e := fs.walk(ap, false)
	if e != 0 {
		return 0, e
	}
	if nd == nil {
		return 0, syscall.ENOENT
	}
	if name == "" {
		return 0, syscall.EBUSY
	}
	if !fs.may(par, 2|1) {
		return 0, syscall.EACCES
	}
	if dir && !nd.isDir() {
		return 0, syscall.ENOTDIR
	}
	if !dir && nd.isDir() {
		return 0, syscall.EISDIR
	}
	if dir && len(nd.Dir) > 0 {
		return 0, syscall.ENOTEMPTY
	}
	pi := par.Ino
	fs.meta(func(fs *FS) {
		if pd := fs.nodes[pi]; pd != nil {
			delete(pd.Dir, name)
		}
	})
	fs.gc()
	return 0, 0
}

func (fs *FS) link(d1 int, p1 string, d2 int, p2 string) (uintptr, syscall.Errno) {
	nd, e := fs.lookup(d1, p1, false)
	if e != 0 {
		return 0, e
	}
	if nd.isDir() {
		return 0, syscall.EPERM
	}
	a2, e := fs.abs(d2, p2)
	if e != 0 {
		return 0, e
	}
	par, name, nd2, e := fs.walk(a2, false)
	if e != 0 {
		return 0, e
	}
	if nd2 != nil {
		return 0, syscall.EEXIST
	}
	if !fs.may(par, 2|1) {
		return 0, syscall.EACCES
	}
	if fs.device(par) != fs.deviceOf(nd) {
		return 0, syscall.EXDEV
	}
	pi, ino := par.Ino, nd.Ino
	fs.meta(func(fs *FS) {
		pd := fs.nodes[pi]
		if pd == nil || fs.nodes[ino] == nil {
			return
		}
		pd.Dir[name] = ino
	})
	return 0, 0
}

func (fs *FS) symlink(target string, dfd int, path string) (uintptr, syscall.Errno) {
	ap, e := fs.abs(dfd, path)
	if e != 0 {
		return 0, e
	}
	par, name, nd, e := fs.walk(ap, false)
	if e != 0 {
		return 0, e
	}
	if nd != nil {
		return 0, syscall.EEXIST
	}
	if !fs.may(par, 2|1) {
		return 0, syscall.EACCES
	}
	ino, pi, uid := fs.next, par.Ino, fs.EUID
	fs.meta(func(fs *FS) {
		pd := fs.nodes[pi]
		if pd == nil {
			return
		}
		fs.nodes[ino] = &Inode{Ino: ino, Mode: IFLnk | 0o777, UID: uid, Nlink: 1, Target: target}
		fs.next = max(fs.next, ino+1)
		pd.Dir[name] = ino
	})
	return 0, 0
}

func (fs *FS) readlink(dfd int, path string, b []byte) (uintptr, syscall.Errno) {
	nd, e := fs.lookup(dfd, path, false)
	if e != 0 {
		return 0, e
	}
	if !nd.isLnk() {
		return 0, syscall.EINVAL
	}
	return uintptr(copy(b, nd.Target)), 0
}

func (fs *FS) stat(dirfd int, path string, st unsafe.Pointer, follow bool) (uintptr, syscall.Errno) {
	nd, e := fs.lookup(dirfd, path, follow)
	if e != 0 {
		return 0, e
	}
	fs.fill(nd, st)
	return 0, 0
}

func (fs *FS) fill(nd *Inode, p unsafe.Pointer) {
	st := (*syscall.Stat_t)(p)
	*st = syscall.Stat_t{}
	st.Dev, st.Ino, st.Nlink, st.Mode, st.Uid = fs.deviceOf(nd), uint64(nd.Ino), uint64(nd.Nlink), nd.Mode, nd.UID
	st.Size, st.Blksize, st.Blocks = int64(len(nd.Data)), 4096, int64(len(nd.Data)+511)/512
	if nd.isLnk() {
		st.Size = int64(len(nd.Target))
	}
	st.Mtim.Sec, st.Mtim.Nsec = nd.MTime/1e9, nd.MTime%1e9
}

func (fs *FS) getdents(fd int, b []byte) (uintptr, syscall.Errno) {
	of := fs.fds[fd]
	if of == nil {
		return 0, syscall.EBADF
	}
	nd := fs.nodes[of.Ino]
	if !nd.isDir() {
		return 0, syscall.ENOTDIR
	}
	var names []string
	for n := range nd.Dir {
		names = append(names, n)
	}
	sort.Strings(names)
	n := 0
	for of.DirPos < len(names) {
		name := names[of.DirPos]
		l := (19 + len(name) + 1 + 7) &^ 7
		if n+l > len(b) {
			break
		}
		c := fs.nodes[nd.Dir[name]]
		e := b[n : n+l]
		clear(e)
		binary.LittleEndian.PutUint64(e[0:], uint64(c.Ino))
		binary.LittleEndian.PutUint64(e[8:], uint64(of.DirPos+1))
		binary.LittleEndian.PutUint16(e[16:], uint16(l))
		switch c.Mode & TypeMask {
		case IFDir:
			e[18] = 4
		case IFLnk:
			e[18] = 10
		default:
			e[18] = 8
		}
		copy(e[19:], name)
		n += l
		of.DirPos++
	}
	if n == 0 && of.DirPos < len(names) {
		return 0, syscall.EINVAL
	}
	return uintptr(n), 0
}
