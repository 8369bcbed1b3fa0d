package work

import (
	"errors"
	"fmt"
	"go/format"
	"hash/fnv"
	"path"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
	"golang.org/x/tools/imports"
	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

// World is one simulated run.
type World struct {
	Sc    *Scenario
	FS    *simfs.FS
	Env   *simrt.Env
	Hist  []Hist // finished segments
	Res   Result
	SegI  int
	NSite int

	asts        []goast.Ast
	joined      []string // text of each prepared AST, as written by the harness's own walk
	exp         map[string]string
	cur         [][]Hist // current segment: [task][op]
	curOp       [simrt.MaxCallers]*Hist
	fatal       map[int]int // errno every further write of the task gets
	nfault      int
	foreignHard int
	allowed     map[string]map[string]bool // per watched file: contents a reader may see
	absentOK    map[string]bool
	startVal    map[string]value // per watched file, at the start of the segment
	startTree   map[string]simfs.Entry
	spy         func(*simfs.Call) // sees every call after it was made
	busy        map[string]int    // saves under way, per file
	preVal      map[*Hist]value
	preTree     map[*Hist][]simfs.Entry // of a caller's directory, before a call that must be refused
	rng         simrt.Rng
	stdout      int
	output      []byte
	Trace       func(string)
	raceN       func() int
	grew        int // segments that left goroutines behind
	raceAt      int // races reported when the last segment ended
	wg          *sync.WaitGroup
	shared      *memShared
	loaded      [simrt.MaxCallers]goast.Ast // what the caller loaded last
	Refs        *Refs
	Dirty       bool // this process must not make further runs
}

// State is what survives the restart of the simulated process.
type State struct {
	Sc   *Scenario
	Img  *simfs.Image
	Hist []Hist
	Res  Result
	SegI int
}

func (w *World) viol(class, f string, a ...any) {
	d := fmt.Sprintf(f, a...)
	for _, v := range w.Res.Viol {
		if v.Class == class {
			return
		}
	}
	w.Res.Viol = append(w.Res.Viol, Violation{class, d})
	if w.Env != nil && w.Env.Event != nil {
		w.Env.Event("VIOLATED " + class + ": " + d)
	}
}

func (w *World) probe(n string) { w.Res.Probes[n]++ }

func clip(s string) string {
	if len(s) > 160 {
		return fmt.Sprintf("%q... (%d bytes)", s[:160], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// NewWorld prepares a run; st is non-nil after a simulated restart.
func NewWorld(sc *Scenario, st *State, nsites int, races func() int) *World {
	w := &World{Sc: sc, NSite: nsites, raceN: races}
	if st != nil {
		w.FS, w.Hist, w.Res, w.SegI = simfs.Load(st.Img), st.Hist, st.Res, st.SegI
		w.FS.Umask = sc.Umask
		if sc.Cwd != "" {
			w.FS.Cwd = sc.Cwd
		}
		if w.Res.Faults == nil {
			w.Res.Faults = map[string]int{}
		}
		if w.Res.Probes == nil {
			w.Res.Probes = map[string]int{}
		}
		return w
	}
	w.Res = Result{Seed: sc.Seed, Faults: map[string]int{}, Probes: map[string]int{}, Shape: sc.Shape, Digest: 0xcbf29ce484222325}
	w.FS = w.initialFS()
	return w
}

func (w *World) initialFS() *simfs.FS {
	sc := w.Sc
	fs := simfs.New()
	for _, f := range sc.Files {
		if f.Like != 0 {
			continue
		}
		h := hashStr(sc.Seed, f.Path)
		fs.Now = time.Now().UnixNano() - []int64{0, 1, 60, 3600, 86400, 1e9}[h>>40%6]*1e9
		fs.Put(f.Path, f.Data, f.Mode)
	}
	for _, f := range sc.Files {
		if f.Like == 0 {
			continue
		}
		fs.Now = time.Now().UnixNano() - []int64{0, 61, 3600, 1e9}[f.Like%4]*1e9
		if p := w.nameLike(f.Path, f.Like); p != "" {
			if _, ok := fs.Read(p); !ok {
				fs.Put(p, f.Data, f.Mode)
				w.probe("bystander-like-temporary")
			}
		}
	}
	fs.Put(simfs.TmpDir, "", simfs.IFDir|0o1777)
	fs.Umask, fs.EUID = sc.Umask, sc.EUID
	if sc.Cwd != "" {
		fs.Cwd = sc.Cwd
	}
	fs.Chown(sc.EUID)
	fs.Checkpoint()
	return fs
}

// made is a name that the code under test made up when it saved to a file.
type made struct{ dir, pre, mid, suf string }

var madeUp struct {
	done bool
	all  []made
}

// nameLike is a name that looks like those the code under test makes up when it saves
// to file, but belongs to somebody else.
func (w *World) nameLike(file string, like uint64) string {
	const dir, base = "/verif/names", "look_at_me.go"
	if !madeUp.done {
		madeUp.done = true
		var runs [2][]string
		for k := range runs {
			fs := simfs.New()
			fs.Put(dir+"/"+base, "package old\n", 0o644)
			fs.Checkpoint()
			seen := map[string]bool{}
			w.spy = func(c *simfs.Call) {
				if p := c.Path(); strings.HasPrefix(p, "/") && path.Base(p) != base && !seen[p] {
					if _, ok := fs.Read(p); ok && (c.Trap == syscall.SYS_OPENAT) {
						seen[p] = true
						runs[k] = append(runs[k], p)
					}
				}
			}
			seed := w.Sc.Seed
			w.Sc.Seed = uint64(k) + 12345
			w.solo(fs, func() {
				scs, err := goast.ParseScope(0, []byte("package x\n"))
				if err == nil {
					if a, err := goast.NewAst(scs...); err == nil {
						a.Save(dir + "/" + base)
					}
				}
			})
			w.Sc.Seed = seed
			w.spy = nil
		}
		for i := range min(len(runs[0]), len(runs[1])) {
			a, b := runs[0][i], runs[1][i]
			m := made{dir: path.Dir(a)}
			a, b = path.Base(a), path.Base(b)
			k := 0
			for k < min(len(a), len(b)) && a[k] == b[k] {
				k++
			}
			m.pre, a, b = a[:k], a[k:], b[k:]
			k = 0
			for k < min(len(a), len(b)) && a[len(a)-1-k] == b[len(b)-1-k] {
				k++
			}
			m.suf, m.mid = a[len(a)-k:], a[:len(a)-k]
			madeUp.all = append(madeUp.all, m)
		}
	}
	if len(madeUp.all) == 0 {
		return ""
	}
	m := madeUp.all[like/7%uint64(len(madeUp.all))]
	d := path.Dir(file)
	if m.dir != dir {
		d = m.dir
	}
	r := simrt.Rng(like)
	mid := ""
	switch r.Intn(6) {
	case 0:
		mid = "notes"
	case 1: // none
	case 2:
		mid = m.mid + "0"
	case 3:
		mid = "old-" + m.mid
	default: // as good as the real thing
		for _, c := range m.mid {
			mid += string([]rune("0123456789")[r.Intn(10)])
			_ = c
		}
	}
	fit := func(s string) string { return strings.ReplaceAll(s, base, path.Base(file)) }
	return d + "/" + fit(m.pre) + mid + fit(m.suf)
}

// textOf is the harness's own rendering of an AST.
func textOf(a goast.Ast) string {
	var b strings.Builder
	for _, sc := range a.Scope() {
		for n := sc.Node(); n != nil; n = n.Next() {
			b.WriteString(n.Text())
		}
	}
	return b.String()
}

// digestAst is everything a caller can observe of an AST.
func digestAst(a goast.Ast) string {
	h := fnv.New64a()
	p, err := a.Package()
	fmt.Fprintf(h, "%s|%v\n", p, err)
	for _, sc := range a.Scope() {
		digestScope(h, sc)
	}
	return fmt.Sprintf("%016x", h.Sum64())
}

func digestScope(h interface{ Write([]byte) (int, error) }, sc goast.Scope) {
	get := func(n string, f func() (string, bool)) {
		v, ok := f()
		if !ok {
			v = ""
		}
		fmt.Fprintf(h, "%s=%s,%v;", n, v, ok)
	}
	fmt.Fprintf(h, "%s@%d;", sc.Kind(), sc.Line())
	get("T", sc.GetTypeName)
	get("S", sc.GetStructName)
	get("I", sc.GetInterfaceName)
	get("F", sc.GetFuncName)
	get("M", sc.GetMethodName)
	get("R", sc.GetMethodReceiver)
	for n := sc.Node(); n != nil; n = n.Next() {
		fmt.Fprintf(h, "%d/%d/%q;", n.Line(), n.Kind(), n.Text())
	}
}

// makeAst prepares an AST without the simulated disk.
func (w *World) makeAst(s AstSpec) (goast.Ast, error) {
	switch s.How {
	case "loaded": // from a file of the simulated disk
		var a goast.Ast
		var err error
		if !w.solo(w.FS.Clone(), func() { a, err = goast.ParseAst(s.Path) }) {
			return nil, errors.New("no result")
		}
		return a, err
	case "grown": // a piece at a time
		scs, err := goast.ParseScope(0, []byte(w.Sc.Srcs[s.Src]))
		if err != nil {
			return nil, err
		}
		k := len(scs)
		for k > 1 && scs[k-1].Kind() != scope.Package {
			k--
		}
		r := simrt.Rng(uint64(len(w.Sc.Srcs[s.Src])))
		a, err := goast.NewAst(scs[:k]...)
		if err != nil {
			return goast.NewAst(scs...)
		}
		for k < len(scs) {
			n := min(k+1+r.Intn(3), len(scs))
			a.AppendScope(scs[k:n]...)
			k = n
		}
		return a, nil
	case "none":
		scs, err := goast.ParseScope(0, []byte(w.Sc.Srcs[s.Src]))
		if err != nil {
			return nil, err
		}
		a, err := goast.NewAst(scs...)
		if err != nil {
			return nil, err
		}
		return a.SetScope(nil), nil
	case "built":
		t := w.Sc.Srcs[s.Src]
		i := strings.Index(t, "\n\n")
		a, err := goast.NewAst(
			goast.NewScope(0, scope.Package, goast.NewNodes(0, "package", " ", "built", "\n")),
			goast.NewScope(1, scope.Variable, goast.NewNodes(1, "var", " ", "marker", " ", "=", " ", fmt.Sprintf("%q", "built:"+clip(t[:max(i, 0)])+fmt.Sprint(len(t))), "\n")),
		)
		return a, err
	}
	scs, err := goast.ParseScope(0, []byte(w.Sc.Srcs[s.Src]))
	if err != nil {
		return nil, err
	}
	a, err := goast.NewAst(scs...)
	if err != nil {
		return nil, err
	}
	switch s.How {
	case "edited":
		a = a.Copy()
		k := 0
		a.IterScope(func(sc goast.Scope) bool {
			sc.Node().IterNext(func(n *goast.Node) bool {
				if strings.HasPrefix(n.Text(), "marker") {
					n.SetText("edited" + n.Text())
				}
				k++
				return true
			})
			return true
		})
	case "messy": // formats to something else than its text
		a.IterScope(func(sc goast.Scope) bool {
			sc.Node().IterNext(func(n *goast.Node) bool {
				if n.Text() == "=" && n.Prev() != nil && n.Prev().Text() == " " {
					n.SetText("   =    ")
				}
				return true
			})
			return true
		})
	case "broken": // does not parse as Go
		done := false
		a.IterScope(func(sc goast.Scope) bool {
			sc.Node().IterNext(func(n *goast.Node) bool {
				if n.Text() == "var" && !done {
					n.SetText("var {{{ broken")
					done = true
				}
				return true
			})
			return true
		})
	case "shuffled": // the scopes in another order, some appended
		l := slices.Clone(a.Scope())
		r := simrt.Rng(uint64(len(w.Sc.Srcs[s.Src]))*977 + uint64(s.Src))
		for k := 1 + r.Intn(3); k > 0; k-- {
			i, j := r.Intn(len(l)), r.Intn(len(l))
			l[i], l[j] = l[j], l[i]
		}
		if l[0].Kind() == scope.Package && r.Intn(2) == 0 {
			l = append(l[1:], l[0])
		}
		a = a.SetScope(l)
		for k := r.Intn(3); k > 0; k-- {
			a.AppendScope(tag(r.Next()))
		}
	case "odd":
		l := slices.Clone(a.Scope())
		r := simrt.Rng(uint64(len(w.Sc.Srcs[s.Src]))*979 + uint64(s.Src))
		for k := 1 + r.Intn(4); k > 0; k-- {
			l = slices.Insert(l, r.Intn(len(l)+1), oddScope(&r))
		}
		for k := r.Intn(4); k > 0; k-- {
			n := l[r.Intn(len(l))].Node()
			if n = at(n, r.Intn(max(count(n), 1))); r.Intn(2) == 0 {
				n.SetText(oddText(&r))
			} else {
				n.SetKind(oddKind(&r))
			}
		}
		a = a.SetScope(l)
	case "empty":
		a.IterScope(func(sc goast.Scope) bool {
			sc.Node().IterNext(func(n *goast.Node) bool { n.SetText(""); return true })
			return true
		})
	}
	return a, nil
}

// What is below can be made with the library, but is not what it makes of sources.

func oddText(r *simrt.Rng) string {
	l := [...]string{"", "", " ", "\n", "\r\n", "\r", "a\nb\n", "\t ", "\x00", "\xff\xfe", "世界", "\ufeff", "func", "//", "/* open", "`", "\"", "}", "( )", "package q"}
	if i := r.Intn(len(l) + 2); i < len(l) {
		return l[i]
	}
	if r.Intn(60) == 0 {
		return strings.Repeat("long ", 13000+r.Intn(10000))
	}
	return strings.Repeat("long ", 1+r.Intn(400))
}

func oddKind(r *simrt.Rng) kind.Kind {
	l := [...]kind.Kind{kind.None, kind.None, kind.Raw, kind.Comment, kind.Func, kind.FuncName, kind.TypeName, kind.MethodReceiverType, kind.Struct, kind.Interface, kind.Package, {}, {"my", "own"}, {"", "x"}}
	return l[r.Intn(len(l))]
}

func oddNode(r *simrt.Rng) *goast.Node {
	line := []int{0, -1, -2, -100, 7, 1 << 20, 1 << 40}[r.Intn(7)]
	if r.Intn(2) == 0 {
		return goast.NewNode(line, oddText(r))
	}
	return goast.NewNode(line, oddText(r), oddKind(r))
}

func oddScope(r *simrt.Rng) goast.Scope {
	ks := [...]scope.Kind{scope.Unknown, scope.Package, scope.Comment, scope.InnerComment, scope.Import, scope.Variable, scope.Const, scope.Type, scope.Func, "", "mine"}
	k := ks[r.Intn(len(ks))]
	line := []int{0, -1, -5, 3, 1 << 30}[r.Intn(5)]
	if r.Intn(6) == 0 {
		return goast.NewScope(line, k, nil)
	}
	n := oddNode(r)
	for i := r.Intn(6); i > 0; i-- {
		n.InsertNext(oddNode(r))
	}
	if r.Intn(3) == 0 { // it begins within a chain
		for i := 1 + r.Intn(3); i > 0; i-- {
			n.InsertPrev(oddNode(r))
		}
	}
	return goast.NewScope(line, k, n)
}

func render(joined string) string {
	b, err := format.Source([]byte(joined))
	if err != nil {
		return joined
	}
	return string(b)
}

// expect is what a save of prepared AST a to file must leave there.
func (w *World) expect(ti int, op *Op) string {
	if op.C == 1 && w.loaded[ti] != nil {
		return render(textOf(w.loaded[ti]))
	}
	if op.Auto == 2 {
		return w.exp[fmt.Sprintf("%d|%s", op.Ast, op.File)]
	}
	return w.exp[fmt.Sprintf("%d", op.Ast)]
}

// solo runs f as the only task, without faults, on its own copy of the disk.
func (w *World) solo(fs *simfs.FS, f func()) bool {
	e := &simrt.Env{Seed: Mix3(w.Sc.Seed, uint64(w.SegI), 99), MaxSteps: 1 << 40, NSites: w.NSite, Replay: true}
	e.Do = func(c *simfs.Call, ft simfs.Fault) (uintptr, syscall.Errno) { return w.doOn(fs, c, ft) }
	e.Start()
	wg := &sync.WaitGroup{}
	wg.Add(1)
	ok := e.Phase([]func(){func() { defer wg.Done(); f() }})
	o := e.End()
	if !ok {
		w.Dirty = true
		w.viol("solo-"+o.Kind, "a single caller without faults: %s", o.Detail)
		return false
	}
	wg.Wait()
	return true
}

// Mix3 hashes three words.
func Mix3(a, b, c uint64) uint64 { return simrt.Mix(simrt.Mix(a, b), c) }

// prepare makes the ASTs and works out what each save must produce.
func (w *World) prepare() bool {
	w.exp = map[string]string{}
	w.asts, w.joined = nil, nil
	for i, s := range w.Sc.Asts {
		a, err := w.makeAst(s)
		if err != nil {
			w.viol("prepare", "well-formed source %d was refused: %v", s.Src, err)
			return false
		}
		t := textOf(a)
		if (s.How == "parsed") && t != w.Sc.Srcs[s.Src] {
			w.viol("lossy", "the parsed source %d has a different text: %s", s.Src, diff(w.Sc.Srcs[s.Src], t))
		}
		if w.isMem() { // one that nobody looked at
			if a, err = w.makeAst(s); err != nil {
				w.viol("not-deterministic", "well-formed source %d was refused the second time: %v", s.Src, err)
				return false
			}
		}
		w.asts = append(w.asts, a)
		w.joined = append(w.joined, t)
		w.exp[fmt.Sprint(i)] = render(t)
	}
	type job struct{ key, file, text string }
	var jobs []job
	for _, ops := range w.Sc.Segs[w.SegI].Tasks {
		for _, op := range ops {
			if op.K == "save" && op.Auto == 2 {
				jobs = append(jobs, job{fmt.Sprintf("%d|%s", op.Ast, op.File), op.Path, w.joined[op.Ast]})
			}
		}
	}
	if len(jobs) == 0 {
		return true
	}
	res := make([]string, len(jobs))
	if !w.solo(w.FS.Clone(), func() {
		for i, j := range jobs {
			res[i] = j.text
			if j.text == "" {
				continue
			}
			p := j.file
			if !strings.HasSuffix(p, ".go") {
				p += ".go"
			}
			if b, err := imports.Process(p, []byte(j.text), nil); err == nil {
				res[i] = string(b)
			}
		}
	}) {
		return false
	}
	for i, j := range jobs {
		w.exp[j.key] = res[i]
	}
	return true
}

func diff(want, got string) string {
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	cut := func(s string) string {
		if i < len(s) {
			return clip(s[i:])
		}
		return "end"
	}
	return fmt.Sprintf("at byte %d want %s, got %s", i, cut(want), cut(got))
}

// doOn is the kernel: standard streams and the simulated disk.
func (w *World) doOn(fs *simfs.FS, c *simfs.Call, f simfs.Fault) (uintptr, syscall.Errno) {
	if fd := int(c.A[0]); (c.Trap == syscall.SYS_WRITE) && (fd == 1 || fd == 2) {
		if f.Errno != 0 {
			return ^uintptr(0), f.Errno
		}
		n := int(c.A[2])
		if f.N >= 0 && f.N < n {
			n = f.N
		}
		if fd == 1 {
			w.stdout += n
			if fs == w.FS {
				w.output = append(w.output, c.Bytes(1, n)...)
			}
		}
		if w.Trace != nil {
			w.Trace(fmt.Sprintf("output fd=%d %q", fd, c.Bytes(1, n)))
		}
		return uintptr(n), 0
	}
	fs.Now = time.Now().UnixNano()
	r, e := fs.Do(c, f)
	if w.spy != nil {
		w.spy(c)
	}
	return r, e
}

func (w *World) do(c *simfs.Call, f simfs.Fault) (uintptr, syscall.Errno) {
	r, e := w.doOn(w.FS, c, f)
	h := w.opOf(c.Task)
	if h == nil {
		h = w.onlyOp()
	}
	if h != nil {
		h.Calls++
		if f.Errno != 0 || f.N >= 0 {
			h.Faults++
		}
	}
	if e != 0 && e != syscall.EINTR {
		injected := f.Errno == e
		if injected || e == syscall.ENOSPC || e == syscall.EDQUOT {
			clean := c.Trap == syscall.SYS_UNLINKAT || c.Trap == syscall.SYS_UNLINK
			if h := w.opOf(c.Task); h != nil {
				h.Hard++
				if h.Hard < 40 {
					h.At += c.Name() + ":" + simrt.ErrName(e) + " "
				}
				if clean {
					h.Lost++
				}
			} else { // in a goroutine the code under test started, for one of those
				w.foreignHard++
				for _, h := range w.curOp[:len(w.cur)] {
					if h != nil {
						h.Far++
						if clean {
							h.Lost++
						}
					}
				}
			}
		}
	}
	return r, e
}

// opOf is the call that a caller is making.
func (w *World) opOf(task int) *Hist {
	if task < len(w.cur) {
		return w.curOp[task]
	}
	return nil
}

// onlyOp is the call under way, if there is just one.
func (w *World) onlyOp() (op *Hist) {
	for _, h := range w.curOp[:len(w.cur)] {
		if h != nil && op != nil {
			return nil
		}
		if h != nil {
			op = h
		}
	}
	return op
}

// sample decides the fate of a call in sampling mode.
func (w *World) sample(t *simrt.Task, idx int, c *simfs.Call) (simrt.Dec, bool) {
	fc := &w.Sc.Segs[w.SegI].Faults
	r := &w.rng
	stdio := false
	if c.Trap == syscall.SYS_WRITE && (c.A[0] == 1 || c.A[0] == 2) {
		stdio = true
		if r.P(fc.Stdio) {
			es := errs(syscall.ENOSPC, syscall.EIO, syscall.EAGAIN, syscall.EINTR)
			d := simrt.Dec{K: "f", Bytes: -1, Errno: int(es[r.Intn(len(es))])}
			if d.Errno == int(syscall.EINTR) && r.Intn(2) == 0 && c.A[2] > 1 {
				d.Errno, d.Bytes = 0, 1+r.Intn(int(c.A[2])-1)
			}
			return d, true
		}
	}
	if fc.Crash != "" && t.Root == fc.CrashT && idx == fc.CrashN {
		d := simrt.Dec{K: "x", Bytes: -1}
		switch r.Intn(3) {
		case 0:
			d.After = true
		case 1:
			if c.Trap == syscall.SYS_WRITE && c.A[2] > 1 {
				d.After, d.Bytes = true, 1+r.Intn(int(c.A[2])-1)
			}
		}
		return d, true
	}
	if stdio {
		return simrt.Dec{}, false
	}
	if e := w.fatal[t.ID]; e != 0 && (c.Trap == syscall.SYS_WRITE || c.Trap == syscall.SYS_PWRITE64) {
		w.fatal[t.ID] = 0
		return simrt.Dec{K: "f", Bytes: -1, Errno: e}, true
	}
	if fc.Stall > 0 {
		if (t.ID == fc.Task) != fc.Crowd && !t.Foreign && idx+1 == fc.Call { // for whom others work is unknown
			return simrt.Dec{K: "d", Delay: fc.Stall}, true
		}
		return simrt.Dec{}, false
	}
	if fc.Delay > 0 && r.P(fc.Delay) {
		return simrt.Dec{K: "d", Delay: 1 + int64(r.Next()%uint64(max(fc.MaxD, 1)))}, true
	}
	if k := callKind(c.Name()); len(fc.Only) > 0 && !has(fc.Only, k) && !(k == "openat" && c.A[2]&syscall.O_CREAT != 0 && has(fc.Only, "create")) {
		return simrt.Dec{}, false
	}
	if fc.Max > 0 && w.nfault >= fc.Max {
		return simrt.Dec{}, false
	}
	if h := w.opOf(t.ID); h != nil && h.Hard > stubborn || h == nil && w.foreignHard > stubborn {
		return simrt.Dec{}, false
	}
	hit := false
	if fc.Call > 0 && t.Root == fc.Task && idx+1 >= fc.Call && idx+1 <= fc.Call+fc.Span {
		hit = true
	}
	if fc.Rate > 0 && r.P(fc.Rate) {
		hit = true
	}
	if !hit {
		return simrt.Dec{}, false
	}
	d, ok := fault(r, c, fc.Hard, fc.Soft)
	if ok && fc.Errno != 0 && (d.Errno != 0 || d.Bytes >= 0) {
		d.Errno, d.Bytes = fc.Errno, -1
		if callKind(c.Name()) == "rename" {
			d.After = false
		}
	}
	if ok {
		w.nfault++
		if d.Errno == 0 && fc.Hard && (c.Trap == syscall.SYS_WRITE || c.Trap == syscall.SYS_PWRITE64) && r.Intn(2) == 0 {
			es := errs(syscall.ENOSPC, syscall.EIO, syscall.EDQUOT)
			w.fatal[t.ID] = int(es[r.Intn(len(es))])
		}
	}
	return d, ok
}

// Run executes the remaining segments. restart is called when the simulated
// process dies: it must continue the run in a new process and not return.
func (w *World) Run(restart func(*State)) *Result {
	races := w.raceN()
	for w.SegI < len(w.Sc.Segs) {
		crashed, ok := w.runSeg()
		n := w.raceN()
		if w.Dirty {
			n = w.raceAt
		}
		if n > races {
			w.viol("data-race", "the race detector reported %d race(s) between concurrent callers", n-races)
			races = n
		}
		w.SegI++
		if !ok || w.Res.Trouble != "" {
			break
		}
		if crashed && w.SegI < len(w.Sc.Segs) && len(w.Res.Viol) == 0 {
			restart(&State{Sc: w.Sc, Img: w.FS.Image(), Hist: w.Hist, Res: w.Res, SegI: w.SegI})
			return nil
		}
		if len(w.Res.Viol) > 0 {
			break
		}
	}
	if len(w.Res.Viol) == 0 && w.Res.Trouble == "" {
		w.final()
	}
	if len(w.FS.Unsupported) > 0 {
		sort.Strings(w.FS.Unsupported)
		w.Res.Trouble = "system calls the simulation does not model: " + strings.Join(w.FS.Unsupported, ",")
	}
	return &w.Res
}

func (w *World) runSeg() (crashed, ok bool) {
	seg := &w.Sc.Segs[w.SegI]
	if seg.Faults.Quota > 0 {
		w.FS.Free(seg.Faults.Quota)
	} else {
		w.FS.Quota = -1
	}
	if !w.prepare() {
		return false, false
	}
	w.rng = simrt.Rng(Mix3(w.Sc.Seed, uint64(w.SegI), 7))
	w.curOp = [simrt.MaxCallers]*Hist{}
	w.fatal = map[int]int{}
	w.loaded = [simrt.MaxCallers]goast.Ast{}
	w.nfault, w.foreignHard, w.stdout, w.output = 0, 0, 0, nil
	w.allowed, w.absentOK = map[string]map[string]bool{}, map[string]bool{}
	w.beforeSeg()

	e := &simrt.Env{Seed: Mix3(w.Sc.Seed, uint64(w.SegI), 1), Policy: seg.Policy, Plan: seg.Plan, Replay: w.Sc.Replay, MaxSteps: w.Sc.MaxSteps, NSites: w.NSite, Event: w.Trace}
	w.Env = e
	e.Do = w.do
	e.Sample = w.sample
	w.FS.OnChange = w.onChange
	w.cur = make([][]Hist, len(seg.Tasks))
	w.wg = &sync.WaitGroup{}
	var fns []func()
	for i, ops := range seg.Tasks {
		w.cur[i] = make([]Hist, len(ops))
		for j := range ops {
			w.cur[i][j] = Hist{Seg: w.SegI, Task: i, Op: j, K: ops[j].K, File: ops[j].File, Want: ops[j].Want}
		}
		w.wg.Add(1)
		fns = append(fns, func() {
			defer w.wg.Done()
			w.caller(i, ops)
		})
	}
	left0 := 0
	if w.Sc.Prop == "C05" && len(w.Sc.Segs) > 2 {
		left0 = runtime.NumGoroutine()
	}
	e.Start()
	done := e.Phase(fns)
	w.raceAt = w.raceN() // if it ended early, the harness reads what its callers were writing
	w.FS.OnChange = nil
	if left0 > 0 && done {
		e.Drain()
		if runtime.NumGoroutine() > left0 {
			if w.grew++; w.grew == 3 { // a pool of workers grows once
				w.viol("leaked-goroutine", "each of three rounds of calls, all of which returned, left goroutines behind for good: %d in the last one", runtime.NumGoroutine()-left0)
			}
		}
	}
	o := e.End()
	if done {
		w.wg.Wait()
	}
	r := &w.Res
	r.Steps += o.Steps
	for _, pc := range []int64{1, 2, 5, 10, 20} {
		if o.Steps > w.Sc.MaxSteps/100*pc {
			r.Probes[fmt.Sprintf("used more than %d%% of the step budget", pc)]++
		}
	}
	r.Switches += o.Switches
	r.Preempts += o.Preempts
	r.Calls += o.Calls
	r.SimNS += int64(o.SimTime)
	for k, v := range o.Faults {
		r.Faults[k] += v
	}
	sort.Slice(o.Edges, func(i, j int) bool { return o.Edges[i] < o.Edges[j] })
	r.Edges = append(r.Edges, o.Edges...)
	r.Digest = simrt.Mix(r.Digest, o.Digest)
	r.Plans = append(r.Plans, o.Decs)
	for _, t := range w.cur {
		for _, h := range t {
			if h.Inv != 0 {
				r.Ops++
			}
			w.Hist = append(w.Hist, h)
			if h.Panic != "" {
				w.viol("panic", "%s of caller %d panicked: %s", h.K, h.Task, h.Panic)
			}
			r.Digest = hashStr(r.Digest, h.K, h.Err, h.Val, h.Dig, h.Note)
		}
	}
	w.Env = nil
	if !done {
		w.Dirty = true
	}
	switch o.Kind {
	case "deadlock", "budget", "exit":
		w.viol(o.Kind, "%s", o.Detail)
		return false, false
	}
	crashed = o.Kind == "crash"
	if seg.Faults.Crash != "" {
		if crashed {
			r.Crashes++
		}
		if seg.Faults.Crash == "power" {
			cr := simrt.Rng(Mix3(w.Sc.Seed, uint64(w.SegI), 13))
			w.FS.PowerLoss(func(n int) int { return cr.Intn(n) })
			w.probe("power-loss")
		} else {
			w.FS.CrashProcess()
		}
	}
	w.afterSeg(crashed)
	return seg.Faults.Crash != "", true
}

func hashStr(d uint64, ss ...string) uint64 {
	for _, s := range ss {
		for i := 0; i < len(s); i++ {
			d ^= uint64(s[i])
			d *= 0x100000001b3
		}
		d ^= 0xff
		d *= 0x100000001b3
	}
	return d
}

// caller is the body of one simulated thread.
func (w *World) caller(ti int, ops []Op) {
	mem := w.isMem()
	for i := range ops {
		op := &ops[i]
		h := &w.cur[ti][i]
		if op.Think > 0 {
			simrt.Pause(time.Duration(op.Think))
		}
		if mem {
			simrt.Point()
			h.Inv = simrt.Seq()
			w.guard(ti, op, h)
			h.Ret = simrt.Seq()
			continue
		}
		simrt.Do(func() { w.begin(ti, op, h) })
		w.guard(ti, op, h)
		simrt.Do(func() { w.end(ti, op, h) })
	}
}

func (w *World) guard(ti int, op *Op, h *Hist) {
	defer func() {
		if p := recover(); p != nil {
			h.Panic = fmt.Sprint(p) + "\n" + trimStack(string(debug.Stack()))
		}
	}()
	w.exec(ti, op, h)
}

func trimStack(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "goast") {
			out = append(out, strings.TrimSpace(l))
		}
	}
	if len(out) > 8 {
		out = out[:8]
	}
	return strings.Join(out, "; ")
}

func (w *World) exec(ti int, op *Op, h *Hist) {
	switch op.K {
	case "save":
		a := w.asts[op.Ast]
		if op.C == 1 && w.loaded[ti] != nil {
			a = w.loaded[ti]
		}
		var err error
		switch op.Auto {
		case 0:
			err = a.Save(op.Path)
		case 1:
			err = a.Save(op.Path, false)
		case 2:
			err = a.Save(op.Path, true)
		}
		if err != nil {
			h.Err = err.Error()
		}
	case "parse":
		a, err := goast.ParseAst(op.Path)
		if err != nil {
			h.Err = err.Error()
			h.NX = errors.Is(err, goast.ErrNotExist)
			h.NP = errors.Is(err, goast.ErrNoPackage)
			if a != nil {
				h.Note = "an AST was returned together with an error"
			}
			return
		}
		if a == nil {
			h.Note = "neither an AST nor an error was returned"
			return
		}
		h.Val = textOf(a)
		h.Dig = digestAst(a)
		h.Pkg, _ = a.Package()
		w.loaded[ti] = a
		if a.File() != op.Path || a.Dir() != filepath.Dir(op.Path) || a.Filename() != filepath.Base(op.Path) || a.Ext() != filepath.Ext(op.Path) {
			h.Note = fmt.Sprintf("the AST of %q says file %q, dir %q, name %q, ext %q", op.Path, a.File(), a.Dir(), a.Filename(), a.Ext())
		}
	case "ext": // done by the harness already
	case "touch": // change the AST that is to be saved
		a := w.asts[op.Ast]
		if op.C == 1 && w.loaded[ti] != nil {
			a = w.loaded[ti]
		}
		touch(a, op.A)
	default:
		w.execMem(ti, op, h)
	}
}

// touch edits an AST.
func touch(a goast.Ast, seed int) {
	r := simrt.Rng(seed)
	done := false
	how := r.Intn(4)
	a.IterScope(func(sc goast.Scope) bool {
		sc.Node().IterNext(func(n *goast.Node) bool {
			if !strings.Contains(n.Text(), "marker") || done {
				return true
			}
			done = true
			switch how {
			case 0:
				n.SetText(fmt.Sprintf("marker%x", seed&0xffff))
			case 1: // as long as before
				n.SetText(strings.Replace(n.Text(), "marker", "m"+strings.Repeat(string(rune('a'+r.Intn(26))), 5), 1))
			case 2:
				n.InsertNext(goast.NewNode(n.Line(), fmt.Sprintf("x%x", seed&0xffff)))
			case 3:
				n.SetText(n.Text() + fmt.Sprintf(" /* %x */", seed&0xffff))
			}
			return false
		})
		return !done
	})
	if !done {
		a.AppendScope(tag(uint64(seed)))
	}
}

// external is what another program does to a file.
func (w *World) external(op *Op, h *Hist) {
	if op.A > 2 {
		ch := w.FS.OnChange
		w.FS.OnChange = nil
		defer func() { w.FS.OnChange = ch }()
		w.FS.Now = time.Now().UnixNano()
		switch {
		case op.A == 3 && w.FS.Relink(op.Path, op.S):
			e := w.startTree[op.Path]
			e.Target = op.S
			w.startTree[op.Path] = e
			w.probe("external-relink")
		case op.A == 4 && w.FS.RemoveAll(op.Path):
			for p := range w.startTree {
				if p == op.Path || strings.HasPrefix(p, op.Path+"/") {
					delete(w.startTree, p)
				}
			}
			for f := range w.allowed {
				if strings.HasPrefix(f, op.Path+"/") {
					w.absentOK[f] = true
				}
			}
			w.probe("external-rmdir")
		}
		h.Dig = "done"
		return
	}
	var data *string
	if op.A != 2 {
		data = &op.S
		if op.B == 1 { // as long as what is there
			if v := w.read(op.File); !v.Absent && len(v.Data) > 0 {
				b := []byte(v.Data)
				if i := strings.Index(v.Data, "mark-"); i >= 0 && i+5 < len(b) {
					if i += 5; b[i] == '7' {
						b[i] = '8'
					} else {
						b[i] = '7'
					}
				}
				s := string(b)
				data = &s
			}
		}
	}
	if data == nil {
		w.absentOK[op.File] = true
	} else if w.allowed[op.File] != nil {
		w.allowed[op.File][*data] = true
	}
	ch := w.FS.OnChange
	w.FS.OnChange = nil
	w.FS.Now = time.Now().UnixNano()
	ok := w.FS.External(op.File, data, op.A == 1)
	w.FS.OnChange = ch
	if !ok {
		return
	}
	h.Dig = "done"
	if data == nil {
		h.NX = true
		delete(w.startTree, op.File)
	} else {
		h.Val = *data
		m, _ := w.FS.Mode(op.File)
		w.startTree[op.File] = simfs.Entry{Path: op.File, Mode: m, Data: *data}
	}
	w.probe("external-change")
	if ch != nil {
		ch()
	}
}
