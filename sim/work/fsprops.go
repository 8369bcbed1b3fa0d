package work

import (
	"fmt"
	"go/format"
	"go/parser"
	"go/token"
	"path"
	"slices"
	"strings"
	"time"

	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

// value is what a reader of a file finds.
type value struct {
	Data   string
	Absent bool
}

func (v value) String() string {
	if v.Absent {
		return "no file"
	}
	return clip(v.Data)
}

func (w *World) isMem() bool { return MemProp(w.Sc.Prop) }

// MemProp tells whether a property is about memory shared between callers; its
// callers record what they see themselves.
func MemProp(p string) bool {
	switch p {
	case "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15":
		return true
	}
	return false
}

func (w *World) read(f string) value {
	d, ok := w.FS.Read(f)
	return value{d, !ok}
}

func (w *World) beforeSeg() {
	w.startVal, w.startTree = map[string]value{}, map[string]simfs.Entry{}
	w.busy, w.preVal, w.preTree = map[string]int{}, map[*Hist]value{}, map[*Hist][]simfs.Entry{}
	for _, f := range w.Sc.Watch {
		v := w.read(f)
		w.startVal[f] = v
		w.allowed[f] = map[string]bool{}
		if v.Absent {
			w.absentOK[f] = true
		} else {
			w.allowed[f][v.Data] = true
		}
	}
	for _, e := range w.FS.Tree() {
		w.startTree[e.Path] = e
	}
	if w.isMem() {
		w.memBefore()
	}
}

// checkVisible: whoever looks at a watched file now finds a complete version.
func (w *World) checkVisible(when string) {
	for _, f := range w.Sc.Watch {
		v := w.read(f)
		if v.Absent {
			if !w.absentOK[f] {
				w.viol("vanished", "%s the file %s does not exist, although it existed before and nothing removes files", when, f)
			}
			continue
		}
		if w.allowed[f][v.Data] {
			continue
		}
		class := "torn"
		for a := range w.allowed[f] {
			if len(v.Data) < len(a) && strings.HasPrefix(a, v.Data) {
				class = "torn"
			}
		}
		w.viol(class, "%s the file %s holds %s, which is neither what it held before nor what any caller saved there completely", when, f, v)
	}
}

func (w *World) onChange() {
	switch w.Sc.Prop {
	case "C01":
		w.checkVisible("during the run")
	case "C05":
		w.checkBystanders("during the run", false)
	}
}

func (w *World) begin(ti int, op *Op, h *Hist) {
	h.Inv = simrt.Seq()
	h.T0 = time.Now().UnixNano()
	w.curOp[ti] = h
	if op.K == "ext" {
		w.external(op, h)
		return
	}
	if op.K != "save" && op.K != "parse" {
		return
	}
	if op.K == "save" {
		h.Val = w.expect(ti, op)
		w.busy[op.File]++
		if w.allowed[op.File] != nil && op.Want == "ok" {
			w.allowed[op.File][h.Val] = true
		}
	}
	w.preVal[h] = w.read(op.File)
	if w.Sc.Prop == "C02" && op.K == "save" && op.Want == "err" {
		w.preTree[h] = w.under(ti)
	}
}

// under is what there is in the directory of a caller.
func (w *World) under(ti int) (l []simfs.Entry) {
	d := path.Dir(w.Sc.Files[0].Path) + fmt.Sprintf("/t%d", ti)
	for _, e := range w.FS.Tree() {
		if e.Path == d || strings.HasPrefix(e.Path, d+"/") {
			l = append(l, e)
		}
	}
	return
}

func (w *World) end(ti int, op *Op, h *Hist) {
	h.Ret = simrt.Seq()
	h.T1 = time.Now().UnixNano()
	w.curOp[ti] = nil
	h.FDs = w.FS.OpenBy(ti)
	if h.Panic != "" {
		return
	}
	if op.K == "touch" && (op.C == 0 || w.loaded[ti] == nil) {
		w.joined[op.Ast] = textOf(w.asts[op.Ast])
		w.exp[fmt.Sprint(op.Ast)] = render(w.joined[op.Ast])
	}
	if op.K == "save" {
		w.busy[op.File]--
	}
	if h.Note != "" && op.K == "parse" {
		w.viol("odd-result", "caller %d: %s of %s: %s", ti, op.K, op.Path, h.Note)
	}
	switch w.Sc.Prop {
	case "C02":
		w.endC02(ti, op, h)
	case "C03":
		w.endC03(op, h)
	case "C05":
		if h.FDs > 0 {
			w.viol("leaked-descriptor", "%s of %s returned (error %q) with %d descriptor(s) still open", op.K, op.Path, h.Err, h.FDs)
		}
	case "C06":
		w.endC06(ti, op, h)
	}
}

// endC02: a save that says it worked did, exactly; one that says it failed had a
// reason. No other caller touches the file meanwhile.
func (w *World) endC02(ti int, op *Op, h *Hist) {
	pre := w.preVal[h]
	if op.K != "save" {
		return
	}
	now := w.read(op.File)
	switch {
	case h.Err == "" && op.Want == "err":
		w.viol("accepted", "saving %s to %s must be refused, but no error was returned", w.Sc.Asts[op.Ast].How, op.Path)
	case h.Err == "" && h.Val != now.Data:
		w.viol("untruthful", "saving to %s returned no error%s, but the file differs from the rendered AST: %s", op.Path, after(h), diffV(h.Val, now))
	case h.Err == "" && h.hit() > 0 && !w.stored(op.File, h.Val):
		w.viol("untruthful", "saving to %s returned no error%s, but the disk said it could not take the data: only the cache holds it", op.Path, after(h))
	case h.Err != "" && op.Want == "ok" && h.hit() == 0:
		w.viol("spurious-error", "saving to %s failed although the disk worked: %s", op.Path, h.Err)
	case h.Err != "" && h.hit() == 0 && now != pre:
		w.viol("refused-but-changed", "the refused save to %s changed the file from %s to %s", op.Path, pre, now)
	case h.Err != "" && op.Want == "err" && h.hit() == 0 && len(path.Base(op.File)) < 255:
		if now := w.under(ti); !slices.Equal(now, w.preTree[h]) {
			w.viol("refused-but-changed", "the refused save to %s (%s) changed something: %s", op.Path, h.Err, treeDiff(w.preTree[h], now))
		}
	}
	switch {
	case h.Err == "" && h.hit() > 0:
		w.probe("save-ok-despite-fault")
	case h.Err == "":
		w.probe("save-ok")
	case h.hit() > 0:
		w.probe("save-failed-by-fault")
	default:
		w.probe("save-refused")
	}
}

// restC02: what a save reported stays true when whatever it left behind to be done
// is done as well.
func (w *World) restC02() {
	for ti := range w.cur {
		seen := map[string]bool{}
		for j := len(w.cur[ti]) - 1; j >= 0; j-- {
			h := &w.cur[ti][j]
			if h.K == "ext" {
				break
			}
			if h.K != "save" || seen[h.File] {
				continue
			}
			seen[h.File] = true
			if h.Err != "" || h.Panic != "" || h.Ret == 0 {
				continue
			}
			switch now := w.read(h.File); {
			case now.Data != h.Val:
				w.viol("untruthful", "at rest, %s differs from what the last save of it reported to have written: %s", h.File, diffV(h.Val, now))
			case len(w.Res.Faults) > 0 && !w.stored(h.File, h.Val):
				w.viol("untruthful", "saving to %s returned no error, but the disk said later that it could not take the data: only the cache holds it", h.File)
			}
		}
	}
}

// stored tells whether the disk accepted the content.
func (w *World) stored(f, want string) bool {
	d, ok := w.FS.AtBest(f)
	return ok && d == want
}

func treeDiff(a, b []simfs.Entry) string {
	m := map[string]simfs.Entry{}
	for _, e := range a {
		m[e.Path] = e
	}
	for _, e := range b {
		o, ok := m[e.Path]
		delete(m, e.Path)
		switch {
		case !ok:
			return e.Path + " is new (" + typeName(e.Mode) + ")"
		case o != e:
			return e.Path + " is different"
		}
	}
	for p := range m {
		return p + " is gone"
	}
	return "nothing"
}

func after(h *Hist) string {
	if h.At != "" {
		return " (faults that hit it: " + strings.TrimSpace(h.At) + ")"
	}
	return ""
}

func diffV(want string, got value) string {
	if got.Absent {
		return "there is no file"
	}
	return diff(want, got.Data)
}

// loadOutcome is what loading a file with the given content must give.
func loadOutcome(v value) (text string, class string) {
	if v.Absent {
		return "", "nx"
	}
	b, err := format.Source([]byte(v.Data))
	if err != nil {
		return "", "err"
	}
	if !hasPackage(v.Data) || !hasPackage(string(b)) {
		return "", "err"
	}
	return string(b), "ok"
}

func hasPackage(s string) bool {
	_, err := parser.ParseFile(token.NewFileSet(), "", s, parser.PackageClauseOnly)
	return err == nil
}

func packageOf(s string) string {
	f, err := parser.ParseFile(token.NewFileSet(), "", s, parser.PackageClauseOnly)
	if err != nil || f.Name == nil {
		return ""
	}
	return f.Name.Name
}

func (w *World) endC03(op *Op, h *Hist) {
	if op.K != "parse" {
		return
	}
	v := w.preVal[h]
	text, class := loadOutcome(v)
	if op.Want != "" {
		class = op.Want
	}
	switch {
	case h.NX && class != "nx":
		w.viol("false-not-exist", "loading %s%s reported that the file does not exist; it does: %s", op.Path, after(h), v)
	case h.NP && class != "err":
		w.viol("false-no-package", "loading %s%s reported that it has no package clause; it is: %s", op.Path, after(h), v)
	case h.Err == "" && class == "nx":
		w.viol("loaded-nothing", "loading %s gave an AST although there is no such file", op.Path)
	case h.Err == "" && class == "err":
		w.viol("loaded-invalid", "loading %s gave an AST although the file cannot be loaded: %s", op.Path, v)
	case h.Err == "" && h.Val != text:
		w.viol("incomplete-load", "loading %s returned no error%s, but the AST is not the file's content: %s", op.Path, after(h), diff(text, h.Val))
	case h.Err == "" && h.Pkg != packageOf(v.Data) && packageOf(v.Data) != "_": // "_" names no package
		w.viol("wrong-package", "the AST of %s says it is package %q; it is %q", op.Path, h.Pkg, packageOf(v.Data))
	case class == "nx" && h.hit() == 0 && !h.NX:
		w.viol("not-exist-unrecognised", "loading the missing %s failed with %q, which is not ErrNotExist", op.Path, h.Err)
	case h.Err != "" && class == "ok" && h.hit() == 0:
		w.viol("spurious-error", "loading %s failed although the disk worked and the file is well-formed: %s", op.Path, h.Err)
	}
	switch {
	case h.Err == "" && h.hit() > 0:
		w.probe("load-ok-despite-fault")
	case h.Err == "":
		w.probe("load-ok")
	case h.NX:
		w.probe("load-not-exist")
	case h.hit() > 0:
		w.probe("load-failed-by-fault")
	default:
		w.probe("load-refused")
	}
}

// hit counts the failures this call may have met.
func (h *Hist) hit() int { return h.Hard + h.Far }

// stubborn is the number of failing calls after which a load or save should have
// given up; none gets more.
const stubborn = 300

// endC06: bounded work per call, and callers on other files are not held up.
func (w *World) endC06(ti int, op *Op, h *Hist) {
	if op.K == "save" || op.K == "parse" {
		n := len(h.Val) + len(w.preVal[h].Data)
		if h.Hard > stubborn {
			w.viol("keeps-trying", "%s of %s does not give up: it made %d calls that failed for good (%s...)", op.K, op.Path, h.Hard, clipTo(h.At, 60))
		} else if h.Calls > 400+4*h.Faults+n/64 {
			w.viol("too-many-calls", "%s of %s (%d bytes, %d faults) made %d system calls", op.K, op.Path, n, h.Faults, h.Calls)
		}
	}
	const limit = int64(30 * time.Minute)
	if fc := &w.Sc.Segs[w.SegI].Faults; fc.Stall > 0 && (ti == fc.Task) == fc.Crowd && h.T1-h.T0 > limit {
		w.viol("held-up", "%s of %s by caller %d took %v of simulated time because of other callers' stalled calls on other files", op.K, op.Path, ti, time.Duration(h.T1-h.T0))
	}
	if op.K == "save" || op.K == "parse" {
		w.settled(op, h)
	}
}

// settled: without a fault in this call, it does what it should, whatever
// happened before.
func (w *World) settled(op *Op, h *Hist) {
	if h.hit() > 0 {
		w.probe("op-hit-by-fault")
		return
	}
	if h.Err != "" && op.Want == "ok" {
		w.viol("no-recovery", "%s of %s failed although no fault hits it any more: %s", op.K, op.Path, h.Err)
	}
	if h.Err == "" && op.Want == "ok" && op.K == "save" && op.B == 0 {
		if now := w.read(op.File); now.Data != h.Val {
			w.viol("no-recovery", "after the save to %s the file differs from the rendered AST: %s", op.Path, diffV(h.Val, now))
		}
	}
	w.probe("op-clean")
}

func (w *World) ops(seg int) (out []*Op) {
	for _, t := range w.Sc.Segs[seg].Tasks {
		for i := range t {
			out = append(out, &t[i])
		}
	}
	return
}

// checkBystanders: nothing but the files being saved changes. At rest, nothing
// unexpected is left behind either.
func (w *World) checkBystanders(when string, rest bool) {
	target := map[string]bool{}
	newDir := map[string]bool{}
	for _, op := range w.ops(w.SegI) {
		if op.K == "save" {
			target[op.File] = true
			for d := path.Dir(op.File); d != "/" && d != "."; d = path.Dir(d) {
				newDir[d] = true
			}
		}
	}
	seen := map[string]bool{}
	for _, e := range w.FS.Tree() {
		seen[e.Path] = true
		old, had := w.startTree[e.Path]
		typ := e.Mode & simfs.TypeMask
		switch {
		case had && old.Mode&simfs.TypeMask != typ:
			w.viol("retyped", "%s %s turned from a %s into a %s", when, e.Path, typeName(old.Mode), typeName(e.Mode))
		case had && old.Mode != e.Mode && (rest || !target[e.Path]):
			w.viol("mode-changed", "%s the permissions of %s are %o; they were %o", when, e.Path, e.Mode&0o7777, old.Mode&0o7777)
		case had && !target[e.Path] && (old.Data != e.Data || old.Target != e.Target):
			w.viol("bystander-changed", "%s %s, which nobody saves to, changed: %s", when, e.Path, diff(old.Data+old.Target, e.Data+e.Target))
		case !had && rest && typ == simfs.IFDir && newDir[e.Path]:
			if m := e.Mode & 0o7777; m != 0o777&^w.Sc.Umask {
				w.viol("new-dir-mode", "%s the new directory %s has permissions %o under umask %o", when, e.Path, m, w.Sc.Umask)
			}
		case !had && rest && typ == simfs.IFReg && target[e.Path]:
			if m := e.Mode & 0o7777; m != 0o666&^w.Sc.Umask {
				w.viol("new-file-mode", "%s the new file %s has permissions %o under umask %o", when, e.Path, m, w.Sc.Umask)
			}
		case !had && rest:
			lost := 0
			for _, t := range w.cur {
				for i := range t {
					lost += t[i].Lost
				}
			}
			if lost == 0 {
				w.viol("left-behind", "%s %s was left behind (%s)", when, e.Path, typeName(e.Mode))
			} else {
				w.probe("debris-after-failed-cleanup")
			}
		}
	}
	for p := range w.startTree {
		if !seen[p] {
			w.viol("vanished", "%s %s is gone", when, p)
		}
	}
}

func typeName(m uint32) string {
	switch m & simfs.TypeMask {
	case simfs.IFDir:
		return "directory"
	case simfs.IFLnk:
		return "symbolic link"
	}
	return "file"
}

func (w *World) afterSeg(crashed bool) {
	seg := &w.Sc.Segs[w.SegI]
	if w.isMem() {
		if !crashed {
			w.memAfter()
			w.checkProcess()
		}
		return
	}
	died := seg.Faults.Crash != ""
	switch w.Sc.Prop {
	case "C01":
		when := "afterwards"
		if died {
			when = "after the " + seg.Faults.Crash + " crash"
		}
		w.checkVisible(when)
	case "C02":
		w.restC02()
	case "C05":
		if !died && w.FS.OpenCount() > 0 {
			f := w.FS.OpenFDs()[0]
			w.viol("leaked-descriptor", "after every call returned, %d descriptor(s) are still open, one of them on %s", w.FS.OpenCount(), f.Path)
		}
		w.checkBystanders("at rest", !died)
		if !died {
			w.checkProcess()
		}
	}
}

// checkProcess: the settings all callers of the process share are as they were.
func (w *World) checkProcess() {
	cwd := w.Sc.Cwd
	if cwd == "" {
		cwd = "/"
	}
	if w.FS.Cwd != cwd || w.FS.Umask != w.Sc.Umask {
		w.viol("process-state", "at rest the process's directory is %s and its umask %o; they were %s and %o", w.FS.Cwd, w.FS.Umask, cwd, w.Sc.Umask)
	}
}

func (w *World) final() {
	switch w.Sc.Prop {
	case "C04":
		w.checkLinear()
	}
}
