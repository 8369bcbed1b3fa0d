package work

import (
	"syscall"

	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func errs(es ...syscall.Errno) []syscall.Errno { return es }

// fault picks something that really happens to this kind of call.
func fault(r *simrt.Rng, c *simfs.Call, hard, soft bool) (simrt.Dec, bool) {
	d := simrt.Dec{K: "f", Bytes: -1}
	var e []syscall.Errno
	pick := func() {
		if len(e) > 0 {
			d.Errno = int(e[r.Intn(len(e))])
		}
	}
	if soft && (!hard || r.Intn(4) == 0) {
		switch c.Trap {
		case syscall.SYS_READ, syscall.SYS_PREAD64, syscall.SYS_WRITE, syscall.SYS_PWRITE64:
			if r.Intn(2) == 0 && int(c.A[2]) > 1 {
				d.Bytes = 1 + r.Intn(min(int(c.A[2])-1, 700))
				return d, true
			}
			e = errs(syscall.EINTR)
		case syscall.SYS_OPENAT, syscall.SYS_FSYNC, syscall.SYS_FDATASYNC, syscall.SYS_NEWFSTATAT, syscall.SYS_MKDIRAT:
			e = errs(syscall.EINTR)
		}
		pick()
		if d.Errno != 0 {
			return d, true
		}
		if !hard {
			return d, false
		}
	}
	if !hard {
		return d, false
	}
	switch c.Trap {
	case syscall.SYS_OPENAT:
		e = errs(syscall.EACCES, syscall.EMFILE, syscall.ENFILE, syscall.EIO, syscall.ENOMEM)
		if c.A[2]&(syscall.O_CREAT) != 0 {
			e = append(e, syscall.ENOSPC, syscall.EROFS, syscall.EDQUOT)
		}
	case syscall.SYS_READ, syscall.SYS_PREAD64:
		e = errs(syscall.EIO)
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		e = errs(syscall.ENOSPC, syscall.EIO, syscall.EDQUOT)
		if n := int(c.A[2]); n > 1 && r.Intn(3) > 0 {
			// part of it reaches the file, the rest does not fit
			d.Bytes = 1 + r.Intn(n-1)
			d.Errno = 0
			return d, true // the next write of the task fails for good: see Sample
		}
	case syscall.SYS_CLOSE:
		e = errs(syscall.EIO, syscall.ENOSPC, syscall.EDQUOT)
		d.After = true
		d.Lose = r.Intn(2) == 0
	case syscall.SYS_FSYNC, syscall.SYS_FDATASYNC:
		e = errs(syscall.EIO, syscall.ENOSPC)
		d.Lose = r.Intn(2) == 0
	case syscall.SYS_RENAMEAT, 316:
		e = errs(syscall.EIO, syscall.ENOSPC, syscall.EACCES, syscall.EBUSY, syscall.EXDEV)
		d.After = r.Intn(8) == 0
	case syscall.SYS_MKDIRAT:
		e = errs(syscall.EACCES, syscall.ENOSPC, syscall.EROFS, syscall.EIO)
	case syscall.SYS_UNLINKAT:
		e = errs(syscall.EIO, syscall.EACCES, syscall.EBUSY)
	case syscall.SYS_NEWFSTATAT, syscall.SYS_FSTAT:
		e = errs(syscall.EIO, syscall.EACCES, syscall.ENOMEM)
	case syscall.SYS_FCHMOD, syscall.SYS_FCHMODAT, 452:
		e = errs(syscall.EPERM, syscall.EIO, syscall.EROFS)
	case syscall.SYS_READLINKAT:
		e = errs(syscall.EIO, syscall.EACCES)
	case syscall.SYS_LINKAT, syscall.SYS_SYMLINKAT, syscall.SYS_FTRUNCATE:
		e = errs(syscall.EIO, syscall.ENOSPC)
	case syscall.SYS_LSEEK:
		e = errs(syscall.EIO)
	}
	pick()
	return d, d.Errno != 0
}

// callKind puts the variants of a system call together.
func callKind(n string) string {
	switch n {
	case "renameat", "renameat2", "rename":
		return "rename"
	case "open", "creat":
		return "openat"
	case "pwrite64", "writev":
		return "write"
	case "pread64", "readv":
		return "read"
	case "fdatasync":
		return "fsync"
	case "fchmodat", "fchmodat2", "chmod":
		return "fchmod"
	case "statx", "fstat", "stat", "lstat":
		return "newfstatat"
	}
	return n
}
