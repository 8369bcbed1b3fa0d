// Package simrt is the scheduler of the simulation. Every goroutine of the
// system under test is parked whenever it is not the one the scheduler chose;
// statements of the repository (Y) and system calls (Hook) are the scheduling
// points. One goroutine, the monitor, decides everything.
//
// The hand-over uses the runtime's own park/ready, which creates no
// happens-before edge, so under the race detector the only ordering between
// tasks is the one the program itself established. For the same reason what
// tasks and monitor share lives in plain fields touched by functions marked
// norace.
package simrt

import (
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"
)

// MaxCallers bounds the callers of one run.
const MaxCallers = 192

// MaxTasks bounds the goroutines of one run (callers plus goroutines the code
// under test starts).
const MaxTasks = 1 << 15

type taskState uint8

const (
	stNone  taskState = iota
	stRun             // granted, or blocked in a primitive of its own
	stReady           // parked at a scheduling point
	stCall            // parked at a system call
	stDelay           // sleeping until wakeAt (simulated time)
	stDone
)

// Task is one simulated thread.
type Task struct {
	ID      int
	Foreign bool
	Root    int // the caller that started it, perhaps through others; -1: unknown

	state  taskState
	goid   uint64
	g      uintptr
	steps  int // statements executed
	calls  int // system calls made
	stops  int // times it stopped for another reason (blocked, finished)
	marks  int // harness events
	site   int // last site
	rand   uint64
	wakeAt int64
	served int // call number + 1 whose delay has been served
	prio   int
	atY    bool // parked in front of a statement of its own
	paused int  // statement number + 1 at which it slept

	call   Call
	fn     func()
	Panic  any
	PStack string
}

// Call is a system call a task has made, with staged arguments.
type Call struct {
	Trap uintptr
	A    [6]uintptr
	B    [6][]byte // staged memory behind pointer arguments
	Ret  uintptr
	Err  syscall.Errno
	Pass bool // let the kernel have it
}

var (
	on       bool
	curGoid  uint64
	cur      *Task
	atomic   bool
	left     int // statements until the next forced stop of the current task
	hot      []bool
	monGoid  uint64
	tasks    [MaxTasks]Task
	ntasks   int
	live     [MaxTasks]int32 // tasks that have not ended, ascending
	nlive    int
	pruned   int // ntasks when last pruned
	seq      int64
	total    int64
	maxSteps int64
)

// Seq returns the next event number.
//
//go:norace
func Seq() int64 { seq++; return seq }

// Y is the scheduling point in front of every statement of the repository.
//
//go:norace
func Y(site int) {
	if !on {
		return
	}
	if runtime.SimGoid() != curGoid {
		yOther(site)
		return
	}
	left--
	cur.steps++
	cur.site = site
	if left <= 0 || hot[site] {
		if atomic && total+int64(-left) < maxSteps {
			return
		}
		cur.atY = true
		stop(cur, stReady)
	}
}

//go:norace
func yOther(site int) {
	if !runtime.SimInBubble() || runtime.SimGoid() == monGoid {
		return
	}
	t := self()
	t.steps++
	t.site = site
	stop(t, stReady)
}

// self finds or registers the task of the calling goroutine.
//
//go:norace
func self() *Task {
	id := runtime.SimGoid()
	if id == curGoid {
		return cur
	}
	for _, i := range live[:nlive] {
		if tasks[i].goid == id {
			return &tasks[i]
		}
	}
	if ntasks == MaxTasks {
		panic("simrt: too many goroutines in one run")
	}
	t := &tasks[ntasks]
	ntasks++
	reset(t)
	t.ID = ntasks - 1
	t.Foreign, t.Root = true, -1
	p := runtime.SimParent()
	for _, i := range live[:nlive] {
		if tasks[i].goid == p {
			t.Root = tasks[i].Root
		}
	}
	t.goid = id
	t.g = runtime.SimG()
	t.state = stRun
	live[nlive] = int32(t.ID)
	nlive++
	return t
}

//go:norace
func reset(t *Task) {
	t.Foreign, t.state, t.goid, t.g, t.steps, t.calls, t.stops, t.site = false, stNone, 0, 0, 0, 0, 0, 0
	t.marks, t.served, t.rand, t.wakeAt, t.prio, t.paused, t.fn, t.Panic, t.PStack = 0, 0, 0, 0, 0, 0, nil, nil, ""
	t.atY = false
	t.call = Call{Trap: ^uintptr(0)}
}

//go:norace
func stop(t *Task, s taskState) {
	t.state = s
	runtime.SimPark()
}

// Pause makes the calling task sleep for d of simulated time.
//
//go:norace
func Pause(d time.Duration) {
	if !on {
		return
	}
	t := self()
	t.wakeAt = int64(d)
	stop(t, stDelay)
}

// Atomic makes what follows, up to Atomic(false), one step of the schedule. It
// must not block.
//
//go:norace
func Atomic(b bool) { atomic = b }

// Point is a scheduling point of the harness itself.
//
//go:norace
func Point() {
	if !on || runtime.SimGoid() == monGoid {
		return
	}
	t := self()
	t.fn = nil
	t.call.Trap = trapFn
	stop(t, stCall)
}

const (
	trapFn   = ^uintptr(1)
	trapExit = ^uintptr(2)
)

// Exit is told that the code under test ends the process; for a task it does not
// return.
//
//go:norace
func Exit(code int) {
	s := string(debug.Stack())
	if !strings.Contains(s, "yanun0323/goast") {
		return
	}
	if !on || runtime.SimGoid() == monGoid {
		os.Stderr.WriteString("fatal error: the library called os.Exit(" + strconv.Itoa(code) + ")\n" + s)
		return
	}
	t := self()
	t.call.Trap = trapExit
	t.PStack = "caller " + strconv.Itoa(t.ID) + ": the library ended the process with os.Exit(" + strconv.Itoa(code) + ")"
	stop(t, stCall)
}

// Do runs f on the monitor, as one indivisible event of the calling task.
//
//go:norace
func Do(f func()) {
	t := self()
	t.fn = f
	t.call.Trap = trapFn
	stop(t, stCall)
}

// TaskID returns the number of the calling task, or -1.
//
//go:norace
func TaskID() int {
	if !on || runtime.SimGoid() == monGoid || !runtime.SimInBubble() {
		return -1
	}
	return self().ID
}

// Hook is installed as the system-call hook.
//
//go:norace
func Hook(trap uintptr, a *[6]uintptr, p *[6]unsafe.Pointer) (uintptr, syscall.Errno, bool) {
	if !on || runtime.SimGoid() == monGoid {
		return 0, 0, false
	}
	t := self()
	c := &t.call
	c.Trap, c.Ret, c.Err, c.Pass = trap, 0, 0, false
	for i := 0; i < 6; i++ {
		c.A[i] = a[i]
		c.B[i] = nil
		if p[i] != nil {
			n, in := ptrLen(trap, i, a)
			switch {
			case n == -1: // C string
				n = 0
				for *(*byte)(unsafe.Add(p[i], n)) != 0 {
					n++
				}
				n++
				c.B[i] = stage(p[i], n, true)
			case n > 0:
				c.B[i] = stage(p[i], n, in)
			}
		}
	}
	stop(t, stCall)
	if c.Pass {
		return 0, 0, false
	}
	if c.Err == 0 {
		for i := 0; i < 6; i++ {
			if p[i] == nil || c.B[i] == nil {
				continue
			}
			n, in := ptrLen(trap, i, a)
			if in || n <= 0 {
				continue
			}
			if ptrRet(trap) && int(c.Ret) < n {
				n = int(c.Ret)
			}
			for j := 0; j < n; j++ {
				*(*byte)(unsafe.Add(p[i], j)) = c.B[i][j]
			}
		}
	}
	return c.Ret, c.Err, true
}

//go:norace
func stage(p unsafe.Pointer, n int, in bool) []byte {
	b := make([]byte, n)
	if in {
		for j := 0; j < n; j++ {
			b[j] = *(*byte)(unsafe.Add(p, j))
		}
	}
	return b
}

// ptrRet: the result is the number of bytes stored.
//
//go:norace
func ptrRet(trap uintptr) bool {
	switch trap {
	case syscall.SYS_READ, syscall.SYS_PREAD64, syscall.SYS_GETDENTS64, syscall.SYS_READLINKAT, syscall.SYS_GETCWD, 318:
		return true
	}
	return false
}

// ptrLen tells how much memory argument i points to and whether it is input.
//
//go:norace
func ptrLen(trap uintptr, i int, a *[6]uintptr) (n int, in bool) {
	const path = -1
	switch trap {
	case syscall.SYS_READ, syscall.SYS_PREAD64, syscall.SYS_GETDENTS64:
		if i == 1 {
			return int(a[2]), false
		}
	case syscall.SYS_WRITE, syscall.SYS_PWRITE64:
		if i == 1 {
			return int(a[2]), true
		}
	case syscall.SYS_OPENAT, syscall.SYS_MKDIRAT, syscall.SYS_UNLINKAT, syscall.SYS_FCHMODAT, syscall.SYS_FACCESSAT,
		syscall.SYS_FCHOWNAT, 439, 452, syscall.SYS_UTIMENSAT:
		if i == 1 {
			return path, true
		}
		if trap == syscall.SYS_UTIMENSAT && i == 2 {
			return 32, true
		}
	case syscall.SYS_FSTAT:
		if i == 1 {
			return int(unsafe.Sizeof(syscall.Stat_t{})), false
		}
	case syscall.SYS_NEWFSTATAT:
		if i == 1 {
			return path, true
		}
		if i == 2 {
			return int(unsafe.Sizeof(syscall.Stat_t{})), false
		}
	case syscall.SYS_READLINKAT:
		if i == 1 {
			return path, true
		}
		if i == 2 {
			return int(a[3]), false
		}
	case syscall.SYS_RENAMEAT, 316, syscall.SYS_LINKAT:
		if i == 1 || i == 3 {
			return path, true
		}
	case syscall.SYS_SYMLINKAT:
		if i == 0 || i == 2 {
			return path, true
		}
	case syscall.SYS_GETCWD, 318:
		if i == 0 {
			return int(a[1]), false
		}
	case syscall.SYS_TRUNCATE, syscall.SYS_CHDIR, syscall.SYS_OPEN, syscall.SYS_UNLINK, syscall.SYS_MKDIR, syscall.SYS_RMDIR,
		syscall.SYS_CHMOD, syscall.SYS_ACCESS, syscall.SYS_CREAT:
		if i == 0 {
			return path, true
		}
	case syscall.SYS_RENAME, syscall.SYS_LINK, syscall.SYS_SYMLINK:
		if i == 0 || i == 1 {
			return path, true
		}
	case syscall.SYS_STAT, syscall.SYS_LSTAT:
		if i == 0 {
			return path, true
		}
		if i == 1 {
			return int(unsafe.Sizeof(syscall.Stat_t{})), false
		}
	}
	return 0, false
}
