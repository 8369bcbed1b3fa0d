// Command prep derives, from the Go installation and from the current working
// tree of the repository under test, the overlay that puts every source of
// nondeterminism behind the simulator:
//
//   - the standard library is patched at four narrow places (system calls,
//     mutex slow paths, the runtime's random source, goroutine ids), and
//   - every function of the repository gets a scheduling point in front of each
//     statement (simrt.Y), on the same line, so positions stay those of the
//     repository.
//
// Nothing is written into the repository; the result is a -overlay JSON file.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "prep: "+f+"\n", a...)
	os.Exit(2)
}

type patch struct {
	old, new string
}

func main() {
	goroot := flag.String("goroot", "", "GOROOT")
	repo := flag.String("repo", "/repo", "repository")
	tools := flag.String("tools", "", "directory of golang.org/x/tools")
	out := flag.String("out", "", "output directory")
	inpkg := flag.String("inpkg", "", "extra file to add to the root package of the repository")
	flag.Parse()
	if *goroot == "" || *out == "" {
		die("usage: prep -goroot G -out DIR")
	}
	repl := map[string]string{}
	stdPatches(*goroot, *out, repl)
	copyTools(*tools, *out, *repo)
	sites := instrument(*repo, *out, repl)
	if *inpkg != "" {
		repl[filepath.Join(*repo, "zz_verif_inpkg.go")] = *inpkg
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": repl}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		die("%v", err)
	}
	sb, _ := json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), sb, 0o644); err != nil {
		die("%v", err)
	}
}

func patchFile(goroot, out string, repl map[string]string, rel string, ps []patch) {
	patchAbs(filepath.Join(goroot, "src", rel), out, repl, strings.ReplaceAll(rel, "/", "__"), ps)
}

const simGo = `
// simGoCommand stands in for the go command inside the simulation.
func simGoCommand(cmd *exec.Cmd) error {
	if len(cmd.Args) > 1 && cmd.Args[1] == "env" && cmd.Stdout != nil {
		_, err := io.WriteString(cmd.Stdout, "{\"GO111MODULE\":\"\",\"GOFLAGS\":\"\",\"GOINSECURE\":\"\",\"GOMOD\":\"\",\"GOMODCACHE\":\"/gopath/pkg/mod\",\"GONOPROXY\":\"\",\"GONOSUMDB\":\"\",\"GOPATH\":\"/gopath\",\"GOPROXY\":\"off\",\"GOROOT\":\"/goroot\",\"GOSUMDB\":\"off\",\"GOWORK\":\"\"}")
		return err
	}
	return fmt.Errorf("the simulated go command only knows env")
}
`

// copyTools makes a copy of the part of golang.org/x/tools the repository uses,
// in which the go command is the simulated one, and a go.mod that selects it.
func copyTools(tools, out, repo string) {
	dst := filepath.Join(out, "xtools")
	for _, d := range []string{"imports", "internal/imports", "internal/gocommand", "internal/gopathwalk", "internal/stdlib",
		"internal/event", "internal/event/core", "internal/event/keys", "internal/event/label", "go/ast/astutil"} {
		fs, err := filepath.Glob(filepath.Join(tools, d, "*.go"))
		if err != nil || len(fs) == 0 {
			die("golang.org/x/tools: nothing in %s", d)
		}
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				die("%v", err)
			}
			if d == "internal/gocommand" && filepath.Base(f) == "invoke.go" {
				b = []byte(apply(f, string(b), []patch{
					{"func runCmdContext(ctx context.Context, cmd *exec.Cmd) (err error) {\n",
						simGo + "\nfunc runCmdContext(ctx context.Context, cmd *exec.Cmd) (err error) {\n\tif syscall.SimHook != nil && syscall.SimInBubble() {\n\t\treturn simGoCommand(cmd)\n\t}\n"},
					{"import (\n", "import (\n\t\"syscall\"\n"},
				}))
			}
			writeFile(filepath.Join(dst, d, filepath.Base(f)), b)
		}
	}
	b, err := os.ReadFile(filepath.Join(tools, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	writeFile(filepath.Join(dst, "go.mod"), b)
	m, err := os.ReadFile("go.mod")
	if err != nil {
		die("%v", err)
	}
	abs, err := filepath.Abs(repo)
	if err != nil {
		die("%v", err)
	}
	m = []byte(strings.Replace(string(m), "goast => /repo\n", "goast => "+abs+"\n", 1))
	writeFile(filepath.Join(out, "sim.mod"), append(m, "\nreplace golang.org/x/tools => "+dst+"\n"...))
	m, err = os.ReadFile("go.sum")
	if err != nil {
		die("%v", err)
	}
	writeFile(filepath.Join(out, "sim.sum"), m)
}

func apply(rel, s string, ps []patch) string {
	for _, p := range ps {
		if strings.Count(s, p.old) != 1 {
			die("%s: patch anchor found %d times, want 1: %q", rel, strings.Count(s, p.old), p.old)
		}
		s = strings.Replace(s, p.old, p.new, 1)
	}
	return s
}

func patchAbs(src, out string, repl map[string]string, name string, ps []patch) {
	b, err := os.ReadFile(src)
	if err != nil {
		die("%v", err)
	}
	dst := filepath.Join(out, "std", name)
	writeFile(dst, []byte(apply(src, string(b), ps)))
	repl[src] = dst
}

func writeFile(dst string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(dst), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(dst, b, 0o644); err != nil {
		die("%v", err)
	}
}

func stdPatches(goroot, out string, repl map[string]string) {
	// System calls: everything that is not the runtime's own goes through here.
	patchFile(goroot, out, repl, "syscall/syscall_linux.go", []patch{
		{"func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n",
			"func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n" +
				"\tif SimHook != nil {\n\t\tvar ok bool\n\t\tif r1, err, ok = simDispatch(trap, &a1, &a2, &a3, nil, nil, nil); ok {\n\t\t\treturn r1, 0, err\n\t\t}\n\t}\n"},
		{"func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n",
			"func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n" +
				"\tif SimHook != nil {\n\t\tvar ok bool\n\t\tif r1, err, ok = simDispatch(trap, &a1, &a2, &a3, &a4, &a5, &a6); ok {\n\t\t\treturn r1, 0, err\n\t\t}\n\t}\n"},
		{"func rawSyscallNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr)\n", "func rawSyscallNoError(trap, a1, a2, a3 uintptr) (r1, r2 uintptr)\n" + simDispatchSrc},
	})
	patchFile(goroot, out, repl, "syscall/zsyscall_linux_amd64.go", []patch{
		{"func Getpid() (pid int) {\n", "func Getpid() (pid int) {\n\tif SimHook != nil && simInBubble() {\n\t\treturn 4242\n\t}\n"},
		{"func Getppid() (ppid int) {\n", "func Getppid() (ppid int) {\n\tif SimHook != nil && simInBubble() {\n\t\treturn 4241\n\t}\n"},
		{"func Umask(mask int) (oldmask int) {\n",
			"func Umask(mask int) (oldmask int) {\n\tif SimHook != nil {\n\t\ta1, z2, z3 := uintptr(mask), uintptr(0), uintptr(0)\n\t\tif r, _, ok := simDispatch(SYS_UMASK, &a1, &z2, &z3, nil, nil, nil); ok {\n\t\t\treturn int(r)\n\t\t}\n\t}\n"},
	})
	patchFile(goroot, out, repl, "syscall/exec_unix.go", []patch{
		{"func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n",
			"func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n\tif SimHook != nil && simInBubble() {\n\t\treturn 0, EAGAIN // no child processes inside the simulation\n\t}\n"},
	})
	patchFile(goroot, out, repl, "os/proc.go", []patch{
		{"func Exit(code int) {\n", "func Exit(code int) {\n\tif syscall.SimExit != nil && syscall.SimInBubble() {\n\t\tsyscall.SimExit(code)\n\t}\n"},
	})
	// A mutex must not change its behaviour with the wall clock.
	patchFile(goroot, out, repl, "internal/sync/mutex.go", []patch{
		{"starvationThresholdNs = 1e6", "starvationThresholdNs = 1 << 62"},
	})
	patchFile(goroot, out, repl, "internal/syscall/unix/getrandom.go", []patch{
		{"func GetRandom(p []byte, flags GetRandomFlag) (n int, err error) {\n",
			"func GetRandom(p []byte, flags GetRandomFlag) (n int, err error) {\n\tif syscall.SimHook != nil && syscall.SimInBubble() {\n\t\tsyscall.SimFillRandom(p)\n\t\treturn len(p), nil\n\t}\n"},
	})
	add := filepath.Join(out, "std", "testing__synctest__zz_sim.go")
	writeFile(add, []byte("package synctest\n\nimport isynctest \"internal/synctest\"\n\n// SimRun runs f in a new bubble.\nfunc SimRun(f func()) { isynctest.Run(f) }\n"))
	repl[filepath.Join(goroot, "src/testing/synctest/zz_sim.go")] = add

	// Randomness: inside the bubble the runtime's random source (map iteration
	// order, temporary file names, math/rand's global source, sync.Pool under
	// the race detector, select) is a stream the simulator seeds per task.
	patchFile(goroot, out, repl, "runtime/rand.go", []patch{
		{"func rand() uint64 {\n",
			"func rand() uint64 {\n\tif simRandOn && simInBubble() {\n\t\tsimRandState += 0x9e3779b97f4a7c15\n\t\tz := simRandState\n\t\tz = (z ^ z>>30) * 0xbf58476d1ce4e5b9\n\t\tz = (z ^ z>>27) * 0x94d049bb133111eb\n\t\treturn z ^ z>>31\n\t}\n"},
		{"\tglobalRand.state.Init(*seed)\n", "\tfor i := range seed {\n\t\tseed[i] = byte(i + 1) // fixed: hash keys must be the same in every process\n\t}\n\tglobalRand.state.Init(*seed)\n"},
	})
	patchFile(goroot, out, repl, "runtime/select.go", []patch{
		{"j := cheaprandn(uint32(norder + 1))", "j := simSelectRandn(uint32(norder + 1))"},
	})
	patchFile(goroot, out, repl, "runtime/proc.go", []patch{
		{"_GoidCacheBatch = 16", "_GoidCacheBatch = 1"},
		{"const forcePreemptNS = 10 * 1000 * 1000 // 10ms", "const forcePreemptNS = 1 << 60 // the simulator decides who runs"},
		{"const randomizeScheduler = raceenabled", "const randomizeScheduler = false"},
		{"	// Poll network.\n	// This netpoll is only an optimization", "	// Nothing can run without the simulator's say: ask it.\n	if gp := simIdleTake(); gp != nil {\n		return gp, false, false\n	}\n\n	// Poll network.\n	// This netpoll is only an optimization"},
	})
	// Only goroutines of the simulation hold the locks and serve the channels that its
	// goroutines wait for, also those made before it began: time may pass meanwhile.
	patchFile(goroot, out, repl, "runtime/runtime2.go", []patch{
		{"	waitReasonSynctestRun:           true,\n", "	waitReasonSynctestRun:           true,\n	waitReasonSyncMutexLock:         true,\n	waitReasonSyncRWMutexRLock:      true,\n	waitReasonSyncRWMutexLock:       true,\n	waitReasonSemacquire:            true,\n	waitReasonSyncWaitGroupWait:     true,\n	waitReasonChanReceive:           true,\n	waitReasonChanSend:              true,\n	waitReasonSelect:                true,\n"},
	})
	add = filepath.Join(out, "std", "runtime__zz_sim.go")
	writeFile(add, []byte(runtimeSim))
	repl[filepath.Join(goroot, "src/runtime/zz_sim.go")] = add
}

const runtimeSim = `package runtime

import "unsafe"

var simRandOn bool
var simRandState uint64

//go:nosplit
func simInBubble() bool {
	gp := getg()
	if gp.m == nil || gp.m.curg == nil {
		return false
	}
	return gp.m.curg == gp && gp.bubble != nil
}

// SimInBubble reports whether the calling goroutine is part of a simulation.
//
//go:nosplit
func SimInBubble() bool { return simInBubble() }

//go:linkname syscall_simInBubble syscall.simInBubble
//go:nosplit
func syscall_simInBubble() bool { return simInBubble() }

// SimG identifies the calling goroutine.
//
//go:nosplit
func SimG() uintptr { return uintptr(unsafe.Pointer(getg())) }

// SimDead reports whether goroutine goid, which had gp, has ended.
func SimDead(gp uintptr, goid uint64) bool {
	g := *(**g)(unsafe.Pointer(&gp))
	s := readgstatus(g) &^ _Gscan
	return g.goid != goid || s == _Gdead || s == _Gdeadextra
}

// SimParent is the number of the goroutine that made the calling one.
//
//go:nosplit
func SimParent() uint64 { return getg().parentGoid }

// SimGoid is the calling goroutine's creation number.
//
//go:nosplit
func SimGoid() uint64 { return getg().goid }

// SimRandSwap installs a state of the simulated random stream and returns the old one.
func SimRandSwap(on bool, st uint64) uint64 {
	old := simRandState
	simRandOn, simRandState = on, st
	return old
}

// SimOthersDurable reports whether every other goroutine of the bubble waits
// for something only the bubble (or its clock) can provide.
func SimOthersDurable() bool {
	b := getg().bubble
	return b != nil && b.running == 1
}

// SimPark parks the calling goroutine until SimReady.
func SimPark() {
	gopark(nil, nil, waitReasonSynctestChanReceive, traceBlockSynctest, 1)
}

// SimReady makes a goroutine parked by SimPark runnable.
func SimReady(gp uintptr) {
	goready((*g)(*(*unsafe.Pointer)(unsafe.Pointer(&gp))), 1)
}

var simIdleG uintptr

// SimIdle returns when no other goroutine can run.
func SimIdle() {
	gopark(simIdleCommit, nil, waitReasonZero, traceBlockSynctest, 1)
}

func simIdleCommit(gp *g, _ unsafe.Pointer) bool {
	simIdleG = uintptr(unsafe.Pointer(gp))
	return true
}

func simIdleTake() *g {
	if simIdleG == 0 {
		return nil
	}
	gp := (*g)(*(*unsafe.Pointer)(unsafe.Pointer(&simIdleG)))
	simIdleG = 0
	casgstatus(gp, _Gwaiting, _Grunnable)
	return gp
}

func simSelectRandn(n uint32) uint32 {
	if simRandOn && simInBubble() {
		return uint32(rand() % uint64(n))
	}
	return cheaprandn(n)
}
`

const simDispatchSrc = `
// SimHook, if set, sees every system call made by a goroutine of the simulation.
var SimHook func(trap uintptr, a *[6]uintptr, p *[6]unsafe.Pointer) (r uintptr, err Errno, handled bool)

// SimExit, if set, is told that a goroutine of the simulation ends the process.
var SimExit func(code int)

func simInBubble() bool

// SimInBubble reports whether the caller is part of a simulation.
func SimInBubble() bool { return simInBubble() }

// SimFillRandom stands in for the kernel's random source.
func SimFillRandom(p []byte) {
	for i := range p {
		p[i] = byte(simRand() >> 13)
	}
}

//go:linkname simRand runtime.rand
func simRand() uint64

//go:nosplit
//go:nocheckptr
//go:norace
func simDispatch(trap uintptr, a1, a2, a3, a4, a5, a6 *uintptr) (r uintptr, err Errno, handled bool) {
	if !simInBubble() {
		return 0, 0, false
	}
	var a [6]uintptr
	var p [6]unsafe.Pointer
	a[0], a[1], a[2] = *a1, *a2, *a3
	if a4 != nil {
		a[3], a[4], a[5] = *a4, *a5, *a6
	}
	m := simPtrArgs(trap)
	for i := 0; i < 6; i++ {
		if m&(1<<i) != 0 {
			p[i] = *(*unsafe.Pointer)(unsafe.Pointer(&a[i]))
		}
	}
	// Both arrays must stay on the stack: only there are the pointers adjusted
	// when the stack moves while the task is parked.
	r, err, handled = simCall(trap, (*[6]uintptr)(simNoEscape(unsafe.Pointer(&a))), (*[6]unsafe.Pointer)(simNoEscape(unsafe.Pointer(&p))))
	if !handled { // the stack may have moved: take the pointers again
		if m&1 != 0 {
			*a1 = uintptr(p[0])
		}
		if m&2 != 0 {
			*a2 = uintptr(p[1])
		}
		if m&4 != 0 {
			*a3 = uintptr(p[2])
		}
		if a4 != nil {
			if m&8 != 0 {
				*a4 = uintptr(p[3])
			}
			if m&16 != 0 {
				*a5 = uintptr(p[4])
			}
			if m&32 != 0 {
				*a6 = uintptr(p[5])
			}
		}
	}
	return
}

//go:nosplit
//go:nocheckptr
func simNoEscape(p unsafe.Pointer) unsafe.Pointer {
	x := uintptr(p)
	return unsafe.Pointer(x ^ 0)
}

//go:noinline
//go:norace
func simCall(trap uintptr, a *[6]uintptr, p *[6]unsafe.Pointer) (r uintptr, err Errno, handled bool) {
	return SimHook(trap, a, p)
}

//go:nosplit
//go:norace
func simPtrArgs(trap uintptr) uint8 {
	switch trap {
	case SYS_READ, SYS_WRITE, SYS_PREAD64, SYS_PWRITE64, SYS_GETDENTS64, SYS_GETDENTS,
		SYS_OPENAT, SYS_MKDIRAT, SYS_UNLINKAT, SYS_FCHMODAT, SYS_FACCESSAT, SYS_FSTAT,
		SYS_WRITEV, SYS_READV, SYS_PWRITEV, SYS_PREADV, SYS_FCHOWNAT, SYS_MKNODAT, SYS_FSTATFS:
		return 2
	case 439 /* faccessat2 */, 452 /* fchmodat2 */ :
		return 2
	case SYS_READLINKAT, SYS_NEWFSTATAT, SYS_UTIMENSAT, SYS_FUTIMESAT:
		return 2 | 4
	case SYS_RENAMEAT, SYS_LINKAT, 316 /* renameat2 */, 326 /* copy_file_range */ :
		return 2 | 8
	case SYS_SYMLINKAT, SYS_PREAD64 + 1000000:
		return 1 | 4
	case SYS_TRUNCATE, SYS_CHDIR, SYS_GETCWD, SYS_OPEN, SYS_UNLINK, SYS_MKDIR,
		SYS_RMDIR, SYS_CHMOD, SYS_ACCESS, SYS_CREAT, 318 /* getrandom */ :
		return 1
	case SYS_STATFS, SYS_STAT, SYS_LSTAT, SYS_RENAME, SYS_LINK, SYS_SYMLINK, SYS_READLINK, SYS_GETXATTR, SYS_SETXATTR:
		return 1 | 2
	case SYS_SENDFILE:
		return 4
	case 332 /* statx */ :
		return 2 | 16
	}
	return 0
}
`

type site struct {
	File string
	Line int
	Func string
}

func skipByConstraint(src []byte) bool {
	for _, ln := range strings.Split(string(src), "\n") {
		t := strings.TrimSpace(ln)
		if strings.HasPrefix(t, "package ") {
			return false
		}
		if constraint.IsGoBuild(t) {
			x, err := constraint.Parse(t)
			if err == nil && !x.Eval(func(tag string) bool {
				return tag == "linux" || tag == "amd64" || tag == "unix" || tag == "gc" || strings.HasPrefix(tag, "go1.")
			}) {
				return true
			}
		}
	}
	return false
}

func instrument(repo, out string, repl map[string]string) []site {
	var files []string
	filepath.WalkDir(repo, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			die("%v", err)
		}
		if d.IsDir() {
			n := d.Name()
			if p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	var sites []site
	for _, f := range files {
		src, err := os.ReadFile(f)
		if err != nil {
			die("%v", err)
		}
		if skipByConstraint(src) {
			continue
		}
		rel, _ := filepath.Rel(repo, f)
		if strings.HasPrefix(rel, "assert/") {
			continue // test helper: imports testing, not part of the library
		}
		ns, changed := instrumentFile(rel, src, &sites)
		if !changed {
			continue
		}
		dst := filepath.Join(out, "repo", strings.ReplaceAll(rel, "/", "__"))
		writeFile(dst, ns)
		repl[f] = dst
	}
	return sites
}

func instrumentFile(rel string, src []byte, sites *[]site) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	if err != nil {
		die("the repository does not parse: %v", err)
	}
	tf := fset.File(f.Pos())
	ins := map[int][]string{}
	n := 0
	fn := ""
	at := func(pos token.Pos) {
		off := tf.Offset(pos)
		ins[off] = append(ins[off], fmt.Sprintf("simrt.Y(%d);", len(*sites)))
		*sites = append(*sites, site{rel, tf.Line(pos), fn})
		n++
	}
	list := func(ss []ast.Stmt) {
		for _, s := range ss {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			at(s.Pos())
		}
	}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.FuncDecl:
			fn = x.Name.Name
			if x.Body != nil && len(x.Body.List) == 0 {
				at(x.Body.Rbrace)
			}
		case *ast.BlockStmt:
			list(x.List)
		case *ast.CaseClause:
			list(x.Body)
		case *ast.CommClause:
			list(x.Body)
		case *ast.ForStmt:
			if len(x.Body.List) == 0 {
				at(x.Body.Rbrace)
			}
		case *ast.RangeStmt:
			if len(x.Body.List) == 0 {
				at(x.Body.Rbrace)
			}
		}
		return true
	})
	if n == 0 {
		return src, false
	}
	// case clauses are children of the switch's BlockStmt: their "statements"
	// are the clauses themselves, which cannot take a call in front of them.
	drop := map[int]bool{}
	ast.Inspect(f, func(nd ast.Node) bool {
		switch x := nd.(type) {
		case *ast.CaseClause:
			drop[tf.Offset(x.Pos())] = true
		case *ast.CommClause:
			drop[tf.Offset(x.Pos())] = true
		}
		return true
	})
	nameEnd := tf.Offset(f.Name.End())
	var offs []int
	for o := range ins {
		if !drop[o] {
			offs = append(offs, o)
		}
	}
	sort.Ints(offs)
	var b bytes.Buffer
	last := 0
	put := func(o int, s string) {
		b.Write(src[last:o])
		b.WriteString(s)
		last = o
	}
	put(nameEnd, "; import simrt \"verif.local/sim/simrt\"")
	for _, o := range offs {
		put(o, ins[o][0])
	}
	b.Write(src[last:])
	return b.Bytes(), true
}
