package work

import (
	"fmt"
	"hash/fnv"
	"path"
	"strconv"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/helper"
	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

// memShared is what the callers of the memory properties work on.
type memShared struct {
	sess   []*sess
	out    [][]string // what each call showed, by caller and call
	ref    [][]string
	refFS  *simfs.FS
	fs0    *simfs.FS
	before []string // dumps of the shared ASTs' twins
	twins  []goast.Ast
	chain  *chainWorld
}

func sum(s string) string {
	h := fnv.New64a()
	h.Write([]byte(s))
	return strconv.FormatUint(h.Sum64(), 16)
}

// Refs are what fresh processes showed for the sources of the pool.
type Refs struct{ M map[string]string }

// memProp tells how a property's callers are checked.
func sessionProp(p string) bool {
	switch p {
	case "C07", "C08", "C09", "C10", "C15":
		return true
	}
	return false
}

func (w *World) newSess(ref bool, asts []goast.Ast) *sess {
	return &sess{w: w, ref: ref, asts: asts}
}

// bases derives the ASTs the scenario wants to exist before the callers start.
func (w *World) bases(ref bool, asts []goast.Ast) map[int]goast.Ast {
	m := map[int]goast.Ast{}
	s := w.newSess(ref, asts)
	for _, t := range w.Sc.Segs[w.SegI].Tasks {
		for _, op := range t {
			if op.K == "based" {
				if _, ok := m[op.A]; !ok {
					switch {
					case op.B < 0:
						m[op.A] = asts[op.Ast]
					default:
						m[op.A] = s.derive(asts[op.Ast], op.B, uint64(1000+op.A))
					}
				}
			}
		}
	}
	return m
}

func (w *World) memBefore() {
	w.shared = &memShared{}
	m := w.shared
	seg := &w.Sc.Segs[w.SegI]
	switch w.Sc.Prop {
	case "C11", "C12":
		w.chainBefore()
		return
	case "C14":
		w.trieBefore()
		return
	}
	helper.SetDebug(seg.Debug)
	m.fs0 = w.FS.Clone()
	if sessionProp(w.Sc.Prop) {
		m.twins = nil
		for _, s := range w.Sc.Asts {
			a, err := w.makeAst(s)
			if err != nil {
				w.viol("prepare", "well-formed source %d was refused: %v", s.Src, err)
				return
			}
			m.twins = append(m.twins, a)
		}
		if w.Sc.Prop == "C10" || w.Sc.Prop == "C09" { // room to grow behind each list
			for i := range w.asts {
				k := i % 4
				for j := 0; j < k; j++ {
					x := tag(uint64(5000 + j))
					w.asts[i].AppendScope(x)
					m.twins[i] = m.twins[i].SetScope(append(append([]goast.Scope(nil), m.twins[i].Scope()...), tag(uint64(5000+j))))
				}
			}
		}
		if seg.RefFirst {
			w.reference()
			helper.SetDebug(seg.Debug)
		}
	}
	b := w.bases(false, w.asts)
	for range seg.Tasks {
		s := w.newSess(false, w.asts)
		s.base = b
		m.sess = append(m.sess, s)
		m.out = append(m.out, nil)
	}
	for i, t := range seg.Tasks {
		m.out[i] = make([]string, len(t))
	}
}

// reference lets each caller do its calls alone.
func (w *World) reference() {
	m := w.shared
	fs := m.fs0.Clone()
	m.refFS = fs
	tasks := w.Sc.Segs[w.SegI].Tasks
	m.ref = make([][]string, len(tasks))
	for _, a := range m.twins {
		m.before = append(m.before, string(dumpAst(nil, a)))
	}
	helper.SetDebug(false)
	b := w.bases(true, m.twins)
	ok := w.solo(fs, func() {
		for i, t := range tasks {
			s := w.newSess(w.Sc.Prop == "C09" || w.Sc.Prop == "C10", m.twins)
			s.base = b
			m.ref[i] = make([]string, len(t))
			for j := range t {
				if t[j].K == "debug" || t[j].K == "print" {
					continue
				}
				m.ref[i][j] = string(s.op(&t[j], nil))
			}
		}
	})
	if !ok {
		m.ref = nil
	}
}

func (w *World) execMem(ti int, op *Op, h *Hist) {
	m := w.shared
	switch op.K {
	case "debug":
		helper.SetDebug(op.A == 1)
		return
	case "print":
		helper.DebugPrint(op.S)
		return
	case "det":
		h.Dig = sum(w.det(op))
		return
	case "chain":
		w.chainOp(ti, op, h)
		return
	case "trie":
		w.trieOp(ti, op, h)
		return
	}
	out := string(m.sess[ti].op(op, nil))
	m.out[ti][h.Op] = out
	h.Dig = sum(out)
}

// det shows everything the library makes of one source.
func (w *World) det(op *Op) string {
	src := PoolSource(op.Src)
	s := w.newSess(false, nil)
	scs, err := goast.ParseScope(0, []byte(src))
	b := dumpErr(nil, err)
	if err != nil {
		return string(b)
	}
	b = dumpScopes(b, scs)
	for _, sc := range scs {
		b = str(b, sc.Description())
	}
	a, err := goast.NewAst(scs...)
	b = dumpErr(b, err)
	if err != nil {
		return string(b)
	}
	b = dumpMeta(b, a)
	b = str(b, a.Description())
	b = dumpAst(b, a.Copy())
	b = str(b, textOf(a))
	s.a = a
	if op.B > 0 { // the same edits
		b = s.edit(b, uint64(op.B))
		b = s.edit(b, uint64(op.B)+1)
	}
	err = a.Save(op.Path)
	b = boolean(b, err == nil)
	if d, ok := w.FS.Read(op.File); ok && err == nil {
		b = str(b, d)
	}
	l, err := goast.ParseAst(op.Path)
	b = boolean(b, err == nil)
	if err == nil {
		b = dumpScopes(b, l.Scope())
		b = str(b, l.Description())
	}
	for i, f := range strings.Fields(src) {
		if i < 40 {
			b = dumpChain(b, goast.NewNodes(i, f, " ", f))
		}
	}
	return string(b)
}

func (w *World) memAfter() {
	m := w.shared
	seg := &w.Sc.Segs[w.SegI]
	switch w.Sc.Prop {
	case "C11", "C12":
		w.chainAfter()
		return
	case "C14":
		return
	case "C13":
		for _, t := range w.cur {
			for i := range t {
				h := &t[i]
				if h.K != "det" || h.Ret == 0 || h.Panic != "" {
					continue
				}
				k := DetKey(&seg.Tasks[h.Task][h.Op])
				want, ok := "", false
				if w.Refs != nil {
					want, ok = w.Refs.M[k]
				}
				if !ok {
					continue // this run makes the reference
				}
				w.probe("compared")
				if h.Dig != want {
					w.viol("not-deterministic", "source %s of the pool gave result %s; in a fresh process of its own it gave %s", k, h.Dig, want)
				}
			}
		}
		return
	}
	debugOn := seg.Debug
	for _, t := range seg.Tasks {
		for _, op := range t {
			if op.K == "debug" && op.A == 1 {
				debugOn = true
			}
		}
	}
	if w.Sc.Prop == "C15" {
		w.checkSwitch()
	}
	helper.SetDebug(false)
	if len(w.Res.Viol) > 0 {
		return
	}
	if w.Sc.Prop == "C15" {
		w.checkOutput(debugOn)
	}
	if m.ref == nil {
		w.reference()
	}
	if m.ref == nil {
		return
	}
	for i, t := range seg.Tasks {
		for j := range t {
			h := &w.cur[i][j]
			if h.Ret == 0 || h.Panic != "" || t[j].K == "debug" || t[j].K == "print" {
				continue
			}
			w.probe("compared")
			if got, want := m.out[i][j], m.ref[i][j]; got != want {
				w.viol("interference", "call %d (%s) of caller %d showed something else than the same calls made alone: %s", j, t[j].K, i, lineDiff(want, got))
				return
			}
		}
	}
	for i, a := range w.asts {
		if w.Sc.Prop == "C08" && i < len(m.before) {
			if now := string(dumpAst(nil, a)); now != m.before[i] {
				w.viol("reader-changed-it", "AST %d was only read, but it changed: %s", i, lineDiff(m.before[i], now))
			}
		}
	}
	switch w.Sc.Prop {
	case "C09":
		w.checkDisjoint()
		if len(w.Res.Viol) == 0 {
			for i, a := range w.asts {
				if !w.edited(i) {
					if now := string(dumpAst(nil, a)); i < len(m.before) && now != m.before[i] {
						w.viol("original-changed", "only copies of AST %d were edited, but it changed: %s", i, lineDiff(m.before[i], now))
					}
				}
			}
		}
	}
	w.compareTrees()
}

// edited: some caller edits the prepared AST itself.
func (w *World) edited(i int) bool {
	for _, t := range w.Sc.Segs[w.SegI].Tasks {
		on := false
		for _, op := range t {
			switch op.K {
			case "use":
				on = op.Ast == i
			case "based":
				on = op.B < 0 && op.Ast == i
			case "copy", "scopecopy", "derive", "mk", "load":
				on = false
			case "edit", "append":
				if on {
					return true
				}
			}
		}
	}
	return false
}

// checkDisjoint: no node belongs to two ASTs.
func (w *World) checkDisjoint() {
	owner := map[*goast.Node]string{}
	note := func(name string, a goast.Ast) {
		for _, sc := range a.Scope() {
			i := 0
			for n := sc.Node().First(); n != nil && i < nodeLimit; n = n.Next() {
				i++
				if o, ok := owner[n]; ok && o != name {
					w.viol("shared-node", "the node %q belongs to %s and to %s", n.Text(), o, name)
					return
				}
				owner[n] = name
			}
		}
	}
	for i, a := range w.asts {
		note(fmt.Sprintf("AST %d", i), a)
	}
	seen := map[goast.Ast]bool{}
	for i, s := range w.shared.sess {
		for k, a := range s.held {
			if !seen[a] {
				seen[a] = true
				note(fmt.Sprintf("copy %d of caller %d", k, i), a)
			}
		}
	}
	for k, a := range w.shared.firstBases() {
		if !seen[a] {
			seen[a] = true
			note(fmt.Sprintf("copy %d made at first", k), a)
		}
	}
}

func (m *memShared) firstBases() map[int]goast.Ast {
	out := map[int]goast.Ast{}
	if len(m.sess) == 0 {
		return out
	}
	for k, a := range m.sess[0].base {
		own := true
		for _, x := range m.sess[0].asts {
			if x == a {
				own = false
			}
		}
		if own {
			out[k] = a
		}
	}
	return out
}

// compareTrees: the files the callers left are those they leave when alone.
func (w *World) compareTrees() {
	m := w.shared
	if m.refFS == nil || w.Sc.Segs[w.SegI].Faults.Hard {
		return
	}
	want := map[string]simfs.Entry{}
	for _, e := range m.refFS.Tree() {
		want[e.Path] = e
	}
	for _, e := range w.FS.Tree() {
		o, ok := want[e.Path]
		delete(want, e.Path)
		switch {
		case !ok:
			w.viol("extra-file", "%s exists only when the callers run together", e.Path)
		case o.Data != e.Data:
			w.viol("wrong-file", "%s differs from what its caller writes when alone: %s", e.Path, diff(o.Data, e.Data))
		case o.Mode != e.Mode:
			w.viol("wrong-mode", "%s has mode %o, %o when its caller is alone", e.Path, e.Mode, o.Mode)
		}
	}
	for p := range want {
		w.viol("missing-file", "%s is missing when the callers run together", p)
	}
}

// checkSwitch: when all callers are done, diagnostics are as the last of them left them.
func (w *World) checkSwitch() {
	seg := &w.Sc.Segs[w.SegI]
	on, last := seg.Debug, (*Hist)(nil)
	for i, t := range seg.Tasks {
		for j := range t {
			if h := &w.cur[i][j]; t[j].K == "debug" && (last == nil || h.Inv > last.Inv) {
				on, last = t[j].A == 1, h
			}
		}
	}
	for i, t := range seg.Tasks {
		for j := range t {
			if h := &w.cur[i][j]; t[j].K == "debug" && h != last && h.Ret > last.Inv {
				return // both at the same time
			}
		}
	}
	n := w.stdout
	if !w.solo(w.FS.Clone(), func() { helper.DebugPrint("at the end") }) {
		return
	}
	w.probe("switch-checked")
	if printed := w.stdout > n; printed != on {
		w.viol("switch-lost", "the last call switched diagnostics to on=%v, but when all callers were done a message was printed=%v", on, printed)
	}
}

func (w *World) checkOutput(debugOn bool) {
	seg := &w.Sc.Segs[w.SegI]
	if !debugOn && len(w.output) > 0 {
		w.viol("chatter", "diagnostics are off, but standard output got %s", clip(string(w.output)))
	}
	if seg.Faults.Stdio > 0 || len(seg.Tasks) != 1 {
		return
	}
	on := seg.Debug
	for _, op := range seg.Tasks[0] {
		switch op.K {
		case "debug":
			on = op.A == 1
		case "print":
			got := strings.Contains(string(w.output), op.S)
			if got != on {
				w.viol("wrong-output", "DebugPrint(%q) with diagnostics on=%v: printed=%v", op.S, on, got)
			}
			w.probe("print-checked")
		}
	}
}

func lineDiff(want, got string) string {
	a, b := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			g := "the end"
			if i < len(b) {
				g = clip(b[i])
			}
			return fmt.Sprintf("at line %d of %d expected %s, got %s", i+1, len(a), clip(a[i]), g)
		}
	}
	return fmt.Sprintf("expected %d lines, got %d", len(a), len(b))
}

// PoolSize is the number of sources C13 knows.
const PoolSize = 96

// short are sources that many files have in common.
var short = []string{"package x\n", "package x\n\nimport \"fmt\"\n\nvar _ = fmt.Sprint\n", "package main\n\nfunc main() {}\n", "// Package x is.\npackage x\n", "package x\n\ntype T struct{}\n", "package x\n\nfunc f(a, b int) int { return a }\n"}

// PoolSource is a source of the pool.
func PoolSource(i int) string {
	if i%4 == 3 { // as the one before, but for a few letters
		s := PoolSource(i - 1)
		switch i % 3 {
		case 0:
			return strings.Replace(s, "marker", "merkar", 1)
		case 1:
			return strings.Replace(s, "mark-", "mork-", -1)
		}
		if j := strings.LastIndex(s, "\n}"); j > 0 {
			return s[:j] + "\n\t// more" + s[j:]
		}
		return strings.Replace(s, "marker", "marking", -1)
	}
	if i%12 == 5 {
		return short[i/12%len(short)]
	}
	s := Source(uint64(i)*7919+11, i%8)
	if i%3 == 0 {
		s = Formatted(uint64(i)*7919+11, i%8)
	}
	return s
}

// DetKey names what a "det" call does.
func DetKey(op *Op) string { return fmt.Sprintf("%d/%d", op.Src, op.B) }

// RefScenario computes one reference in a process of its own.
func RefScenario(key string) *Scenario {
	var src, b int
	fmt.Sscanf(key, "%d/%d", &src, &b)
	return &Scenario{Prop: "C13", Seed: 777_000 + uint64(src), Umask: 0o022, Cwd: "/ref", MaxSteps: 1 << 40,
		Files: []FileSpec{{Path: "/ref/x.txt", Data: "x", Mode: 0o644}},
		Segs:  []Seg{{Tasks: [][]Op{{{K: "det", Src: src, B: b, Path: "/ref/out.go", File: "/ref/out.go"}}}}}}
}

// RefKeys lists the references a scenario needs.
func RefKeys(sc *Scenario) (l []string) {
	for _, s := range sc.Segs {
		for _, t := range s.Tasks {
			for i := range t {
				if t[i].K == "det" {
					l = append(l, DetKey(&t[i]))
				}
			}
		}
	}
	return
}

// ---- generators

func (g *scGen) mem() {
	switch g.sc.Prop {
	case "C07":
		g.c07()
	case "C08":
		g.c08()
	case "C09":
		g.c09()
	case "C10":
		g.c10()
	case "C11", "C12":
		g.chains()
	case "C13":
		g.c13()
	case "C14":
		g.c14()
	case "C15":
		g.c15()
	}
}

func (g *scGen) seed() int { return int(g.r.Next() >> 20) }

// any is a source of any size, now and then one of the few short ones everybody has.
func (g *scGen) any() int {
	if !g.p(0.25) {
		return g.src(g.size())
	}
	g.sc.Srcs = append(g.sc.Srcs, g.one(short...))
	return len(g.sc.Srcs) - 1
}

// private calls of one caller with things of its own.
func (g *scGen) private(t, n int) []Op {
	var l []Op
	own := func(name string) (string, string) {
		f := fmt.Sprintf("%s/t%d/%s", g.root, t, name)
		return f, g.arg(f)
	}
	mk := func() {
		if g.p(0.35) {
			f, p := own(fmt.Sprintf("in%d.go", g.n(3)))
			if _, ok := g.sc.has(f); !ok {
				src := g.sc.Srcs[g.any()]
				if g.p(0.2) {
					src = strings.ReplaceAll(src, " = ", "   =  ")
				}
				g.sc.Files = append(g.sc.Files, FileSpec{Path: f, Data: src, Mode: 0o644})
			}
			l = append(l, Op{K: "load", Path: p, File: f})
			return
		}
		l = append(l, Op{K: "mk", Src: g.any()})
	}
	mk()
	for len(l) < n {
		switch g.n(16) {
		case 0:
			mk()
		case 1, 2:
			f, p := own(g.one("a.go", "b.go", "new/c.go"))
			l = append(l, Op{K: "write", Path: p, File: f, Auto: g.n(2)})
		case 3:
			l = append(l, Op{K: "kinds", Src: g.src(1)})
		case 4:
			l = append(l, Op{K: "nodes", Src: g.src(1), A: g.n(30)})
		case 5, 6, 7:
			l = append(l, Op{K: "edit", A: g.seed()})
		case 8:
			l = append(l, Op{K: "copy"})
		case 9:
			l = append(l, Op{K: "desc"})
		case 10:
			l = append(l, Op{K: "scopes", Src: g.src(g.size())})
		case 11:
			l = append(l, Op{K: "append", A: g.seed(), B: g.n(3)})
		case 12:
			l = append(l, Op{K: g.one("names", "back", "find", "sdesc", "meta")})
		case 13:
			l = append(l, Op{K: "nodecopy", A: g.n(100), B: g.n(1000)})
		case 14:
			l = append(l, Op{K: "derive", A: g.seed(), B: g.n(6)})
		default:
			f, p := own("gone.go")
			l = append(l, Op{K: "load", Path: p, File: f})
		}
		l[len(l)-1].Think = g.think()
	}
	return l
}

func (g *scGen) mempolicy(n int) simrt.Policy {
	p := g.policy(n)
	if g.p(0.25) { // long stretches, one forced stop or two
		p = simrt.Policy{Prio: true}
		for i := 1 + g.n(3); i > 0; i-- {
			p.Changes = append(p.Changes, 1+g.n(n))
		}
		for i := range p.Changes {
			for j := i; j > 0 && p.Changes[j] < p.Changes[j-1]; j-- {
				p.Changes[j], p.Changes[j-1] = p.Changes[j-1], p.Changes[j]
			}
		}
	}
	return p
}

func (g *scGen) c07() {
	sc := g.sc
	nt := 2 + g.n(3)
	var seg Seg
	for t := 0; t < nt; t++ {
		seg.Tasks = append(seg.Tasks, g.private(t, 1+g.n(6)))
	}
	sc.Shape = "private"
	if g.p(0.2) { // everybody does the same
		src := g.any()
		loaded := g.p(0.4)
		for t := range seg.Tasks {
			op := Op{K: "mk", Src: src}
			if loaded {
				f := fmt.Sprintf("%s/t%d/same.go", g.root, t)
				g.sc.Files = append(g.sc.Files, FileSpec{Path: f, Data: g.sc.Srcs[src], Mode: 0o644})
				op = Op{K: "load", Path: g.arg(f), File: f}
			}
			seg.Tasks[t] = append([]Op{op}, seg.Tasks[t][1:]...)
		}
		sc.Shape = "same-source"
	}
	if g.p(0.03) {
		f := fmt.Sprintf("%s/auto/x.go", g.root)
		seg.Tasks = append(seg.Tasks, []Op{{K: "mk", Src: g.src(1)}, {K: "write", Path: f, File: f, Auto: 2}})
		sc.Shape += "+imports"
	} else if g.p(0.3) {
		var s string
		seg.Faults, s = g.diskFaults(nt, 1, "soft", "delay")
		sc.Shape += "+" + s
	}
	seg.RefFirst = g.p(0.3)
	seg.Policy = g.mempolicy(40000 * nt)
	sc.Segs = []Seg{seg}
}

// mast adds a prepared AST, which may be one from a file.
func (g *scGen) mast(hows ...string) int {
	s := AstSpec{How: g.one(hows...), Src: g.src([]int{0, 0, 1, 2, 3}[g.n(5)])}
	if g.p(0.08) {
		g.sc.Srcs[s.Src] = g.one(short...)
	}
	if s.How == "loaded" {
		s.Path = g.put(fmt.Sprintf("from/f%d.go", len(g.sc.Asts)), g.sc.Srcs[s.Src], 0o644)
		if g.p(0.3) {
			s.Path = strings.TrimPrefix(s.Path, strings.TrimSuffix(g.sc.Cwd, "/")+"/")
		}
	}
	g.sc.Asts = append(g.sc.Asts, s)
	return len(g.sc.Asts) - 1
}

func (g *scGen) c08() {
	sc := g.sc
	nt := 2 + g.n(3)
	na := 1 + g.n(2)
	for i := 0; i < na; i++ {
		g.mast("parsed", "loaded", "loaded", "grown", "edited", "built", "messy", "broken", "shuffled", "odd", "odd")
	}
	var seg Seg
	for t := 0; t < nt; t++ {
		var l []Op
		l = append(l, Op{K: "use", Ast: g.n(na)})
		for k := 1 + g.n(5); k > 0; k-- {
			switch g.n(12) {
			case 0:
				l = append(l, Op{K: "use", Ast: g.n(na)})
			case 1, 2:
				f := fmt.Sprintf("%s/t%d/%s", g.root, t, g.one("a.go", "b.go"))
				l = append(l, Op{K: "write", Path: g.arg(f), File: f, Auto: g.n(2)})
			case 3:
				l = append(l, Op{K: "peekcopy"})
			case 4:
				l = append(l, Op{K: "desc"})
			case 5:
				l = append(l, Op{K: "iter", A: g.n(5)})
			default:
				l = append(l, Op{K: g.one("dump", "dump", "text", "names", "back", "find", "sdesc", "meta")})
			}
		}
		seg.Tasks = append(seg.Tasks, l)
	}
	sc.Shape = fmt.Sprintf("readers-%d/asts-%d", nt, na)
	if g.p(0.2) {
		seg.Faults, _ = g.diskFaults(nt, 1, "soft", "delay")
	}
	seg.RefFirst = g.p(0.3)
	seg.Policy = g.mempolicy(25000 * nt)
	sc.Segs = []Seg{seg}
}

func (g *scGen) c09() {
	sc := g.sc
	nt := 2 + g.n(3)
	na := 1 + g.n(2)
	for i := 0; i < na; i++ {
		g.mast("parsed", "loaded", "edited", "built", "shuffled", "odd")
	}
	var seg Seg
	owner := -1
	if g.p(0.6) {
		owner = g.n(nt) // this one edits the original; the others got their copies before
		sc.Shape = "owner-edits"
	} else {
		sc.Shape = "copy-under-way"
	}
	for t := 0; t < nt; t++ {
		var l []Op
		switch {
		case t == owner:
			l = append(l, Op{K: "based", Ast: 0, A: t, B: -1})
		case owner >= 0:
			l = append(l, Op{K: "based", Ast: 0, A: t, B: 5})
		default:
			l = append(l, Op{K: "use", Ast: g.n(na)}, Op{K: g.one("copy", "copy", "scopecopy")})
			if g.p(0.3) {
				l = append([]Op{l[0], {K: "dump"}}, l[1:]...)
			}
		}
		for k := 1 + g.n(5); k > 0; k-- {
			switch g.n(8) {
			case 0:
				l = append(l, Op{K: g.one("copy", "scopecopy")})
			case 1:
				l = append(l, Op{K: "nodecopy", A: g.n(100), B: g.n(1000)})
			case 2:
				l = append(l, Op{K: "append", A: g.seed(), B: g.n(3)})
			case 3:
				l = append(l, Op{K: "dump"})
			default:
				l = append(l, Op{K: "edit", A: g.seed()})
			}
		}
		l = append(l, Op{K: "dump"})
		seg.Tasks = append(seg.Tasks, l)
	}
	seg.RefFirst = g.p(0.3)
	seg.Policy = g.mempolicy(25000 * nt)
	sc.Segs = []Seg{seg}
}

func (g *scGen) c10() {
	sc := g.sc
	nt := 2 + g.n(3)
	for i := 0; i < 4; i++ {
		g.mast("parsed", "built", "shuffled", "loaded", "odd")
	}
	base := g.n(4)
	var seg Seg
	before := g.p(0.7)
	for t := 0; t < nt; t++ {
		var l []Op
		if before {
			how := g.n(4)
			if t == 0 && g.p(0.5) {
				how = -1
			}
			l = append(l, Op{K: "based", Ast: base, A: t, B: how})
		} else {
			l = append(l, Op{K: "use", Ast: base}, Op{K: "derive", A: g.seed(), B: g.n(4)})
		}
		for k := 1 + g.n(6); k > 0; k-- {
			switch g.n(10) {
			case 7:
				l = append(l, Op{K: "take"}, Op{K: "grow", A: g.seed(), B: 1 + g.n(2)})
				l = append(l, Op{K: "fill", B: g.n(6)})
				l = append(l, Op{K: g.one("grow", "append"), A: g.seed()}, Op{K: g.one("grow", "append"), A: g.seed()})
			case 8:
				l = append(l, Op{K: "fill", B: g.n(6)})
			case 9:
				l = append(l, Op{K: "grow", A: g.seed(), B: g.n(4)})
			case 0:
				l = append(l, Op{K: "take"})
			case 1:
				l = append(l, Op{K: "grow", A: g.seed()})
			case 2:
				l = append(l, Op{K: "derive", A: g.seed(), B: g.n(6)})
			case 3:
				l = append(l, Op{K: "heads"})
			default:
				l = append(l, Op{K: "append", A: g.seed(), B: g.n(3)})
			}
		}
		l = append(l, Op{K: "heads"})
		seg.Tasks = append(seg.Tasks, l)
	}
	sc.Shape = fmt.Sprintf("derived-before=%v", before)
	seg.RefFirst = g.p(0.3)
	seg.Policy = g.mempolicy(3000 * nt)
	if g.p(0.5) {
		seg.Policy.Mean = []int{2, 5, 20, 60}[g.n(4)]
	}
	sc.Segs = []Seg{seg}
}

func (g *scGen) c13() {
	sc := g.sc
	nt := 1 + g.n(4)
	var seg Seg
	few, most := PoolSize, 2
	first := 0
	if g.p(0.5) { // what was done with it, or with its likes, before
		few, most = 1+g.n(4), 4
		first = g.n(PoolSize - few + 1)
	}
	for t := 0; t < nt; t++ {
		var l []Op
		for k := 1 + g.n(most); k > 0; k-- {
			f := fmt.Sprintf("%s/t%d/%s.go", g.root, t, g.one("a", "b"))
			i := first + g.n(few)
			if few < PoolSize && g.p(0.4) { // take it, change it, then take it again
				g.sc.Srcs = append(g.sc.Srcs, PoolSource(i))
				l = append(l, Op{K: "mk", Src: len(g.sc.Srcs) - 1})
				for e := 1 + g.n(8); e > 0; e-- {
					l = append(l, Op{K: "edit", A: g.seed()})
				}
				if g.p(0.3) {
					l = append(l, Op{K: "write", Path: g.arg(f), File: f})
				}
			}
			l = append(l, Op{K: "det", Src: i, B: g.n(3) * 100, Path: g.arg(f), File: f, Think: g.think() * int64(g.n(100000))})
		}
		seg.Tasks = append(seg.Tasks, l)
	}
	if g.p(0.2) {
		seg.Tasks = append(seg.Tasks, g.private(nt, 1+g.n(3)))
		nt++
		sc.Shape = "with-others"
	} else {
		sc.Shape = fmt.Sprintf("pool-%d", nt)
	}
	if g.p(0.2) {
		seg.Faults, _ = g.diskFaults(nt, 1, "soft", "delay")
	}
	seg.Policy = g.mempolicy(60000 * nt)
	sc.Segs = []Seg{seg}
}

func (g *scGen) c15() {
	sc := g.sc
	var seg Seg
	if g.p(0.25) { // one caller: what is printed when
		l := g.private(0, 2+g.n(3))
		var m []Op
		for i := range l {
			if g.p(0.6) {
				m = append(m, Op{K: "debug", A: g.n(2)})
			}
			m = append(m, Op{K: "print", S: fmt.Sprintf("token-%d-%x", i, g.seed())}, l[i])
		}
		seg.Tasks = [][]Op{m}
		seg.Debug = g.p(0.3)
		sc.Shape = "one-caller"
	} else {
		nt := 2 + g.n(3)
		toggle := g.p(0.75)
		for t := 0; t < nt; t++ {
			l := g.private(t, 1+g.n(4))
			if g.p(0.3) {
				f := fmt.Sprintf("%s/t%d/broken.go", g.root, t)
				l = append(l, Op{K: "mk", Src: g.src(1)}, Op{K: "edit", A: g.seed()}, Op{K: "write", Path: f, File: f})
			}
			if toggle && g.p(0.6) {
				var m []Op
				for i := range l {
					if g.p(0.5) {
						m = append(m, Op{K: "debug", A: g.n(2)})
					}
					m = append(m, l[i])
				}
				l = m
			}
			seg.Tasks = append(seg.Tasks, l)
		}
		sc.Shape = fmt.Sprintf("toggle=%v", toggle)
		if toggle {
			if g.p(0.7) {
				var l []Op
				for k := 1 + g.n(5); k > 0; k-- {
					l = append(l, Op{K: "debug", A: g.n(2)})
				}
				seg.Tasks = append(seg.Tasks, l)
			}
			seg.Debug = g.p(0.5)
		}
		if g.p(0.5) {
			seg.Faults.Stdio = []float64{0.05, 0.3, 1}[g.n(3)]
			sc.Shape += "+stdio"
		}
	}
	seg.RefFirst = g.p(0.3)
	seg.Policy = g.mempolicy(40000 * len(seg.Tasks))
	sc.Segs = []Seg{seg}
}

var _ = path.Base

// Runs is the number of runs of a tier.
func Runs(prop, tier string) int {
	n := map[string]int{
		"C01": 25000, "C02": 70000, "C03": 60000, "C04": 40000, "C05": 40000, "C06": 18000,
		"C07": 14000, "C08": 28000, "C09": 28000, "C10": 24000, "C11": 400000, "C12": 300000,
		"C13": 20000, "C14": 150000, "C15": 14000,
	}[prop]
	if tier == "thorough" {
		n *= 12
	}
	return n
}
