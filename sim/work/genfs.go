package work

import (
	"fmt"
	"path"
	"strings"
	"syscall"

	"verif.local/sim/simfs"
	"verif.local/sim/simrt"
)

// scGen draws a scenario.
type scGen struct {
	r     *simrt.Rng
	sc    *Scenario
	root  string
	nsite int
	nsrc  uint64
	bytes int
}

func (g *scGen) n(k int) int             { return g.r.Intn(k) }
func (g *scGen) p(x float64) bool        { return g.r.P(x) }
func (g *scGen) one(ss ...string) string { return ss[g.n(len(ss))] }

// Generate draws the scenario of one run.
func Generate(prop string, seed uint64, tier string, nsite int) *Scenario {
	var h uint64
	for _, c := range prop {
		h = h*131 + uint64(c)
	}
	r := simrt.Rng(Mix3(seed, h, 5))
	g := &scGen{r: &r, nsite: nsite}
	g.sc = &Scenario{Prop: prop, Seed: seed, Tier: tier, Umask: 0o022}
	g.root = fmt.Sprintf("/w%x", r.Next()&0xfffff)
	g.sc.Cwd = g.root
	g.put("keep.txt", "bystander", 0o644)
	switch g.n(12) {
	case 0:
		g.sc.Cwd = "/"
	case 1:
		g.sc.Cwd = g.root + "/" + g.one("t0", "wd/in")
		g.put(g.sc.Cwd[len(g.root)+1:]+"/keep.txt", "bystander", 0o644)
	}
	switch prop {
	case "C01":
		g.c01()
	case "C02":
		g.c02()
	case "C03":
		g.c03()
	case "C04":
		g.c04()
	case "C05":
		g.c05()
	case "C06":
		g.c06()
	default:
		g.mem()
	}
	g.finish()
	return g.sc
}

func (g *scGen) finish() {
	n := 0
	for _, s := range g.sc.Srcs {
		n += len(s)
	}
	for _, f := range g.sc.Files {
		n += len(f.Data)
	}
	ops := 0
	for _, s := range g.sc.Segs {
		for _, t := range s.Tasks {
			ops += len(t)
			for _, op := range t {
				if op.K == "det" {
					n += len(PoolSource(op.Src))
				}
			}
		}
	}
	// The budget is there for loops that never end: it is some hundred times what
	// the run needs with the code as it was when this was written.
	g.sc.MaxSteps = 20_000_000 + int64(n)*5000*int64(1+ops)
	switch g.sc.Prop {
	case "C11", "C12", "C14": // long chains and keys
		g.sc.MaxSteps += 1_500_000_000
	}
}

// src adds a fresh source text.
func (g *scGen) src(size int) int {
	g.nsrc++
	t := Formatted(Mix3(g.sc.Seed, g.nsrc, 17), size)
	if p := g.sc.Prop; size == 0 && (p == "C02" || p == "C03" || p == "C05" || p == "C06") && g.p(0.1) {
		t = g.one(short...)
	}
	g.sc.Srcs = append(g.sc.Srcs, t)
	return len(g.sc.Srcs) - 1
}

// big is a long source.
func (g *scGen) big() int {
	i := g.src(2)
	var b strings.Builder
	b.WriteString(g.sc.Srcs[i])
	switch g.n(6) {
	case 0: // many lines in one token
		fmt.Fprintf(&b, "\nvar tall = `%s`\n", strings.Repeat("row\n", 100+g.n(6000)))
		g.sc.Srcs[i] = b.String()
		return i
	case 1: // a long line
		fmt.Fprintf(&b, "\nvar wide = \"%s\"\n", strings.Repeat("column ", 1000+g.n(15000)))
		g.sc.Srcs[i] = b.String()
		return i
	case 2: // more than a megabyte, once in a while
		if g.n(12) == 0 {
			fmt.Fprintf(&b, "\n/* %s */\n", strings.Repeat("a comment without end ", 48_000+g.n(60_000)))
		}
	}
	b.WriteString("\nvar bulk = []string{\n")
	for k, n := 0, 30+g.n(500)*g.n(4); k < n; k++ {
		fmt.Fprintf(&b, "\t\"line %06d of the bulk of this file, which makes it long\",\n", k)
	}
	b.WriteString("}\n")
	g.sc.Srcs[i] = b.String()
	return i
}

func (g *scGen) size() int { return []int{0, 0, 1, 1, 2, 3, 5}[g.n(7)] }

func (g *scGen) put(name, data string, mode uint32) string {
	p := name
	if !strings.HasPrefix(p, "/") {
		p = g.root + "/" + name
	}
	g.sc.Files = append(g.sc.Files, FileSpec{Path: p, Data: data, Mode: mode})
	return p
}

// ast adds a prepared AST.
func (g *scGen) ast(hows ...string) int {
	src := g.src(g.size())
	g.sc.Asts = append(g.sc.Asts, AstSpec{How: g.one(hows...), Src: src})
	return len(g.sc.Asts) - 1
}

var goodHows = []string{"parsed", "parsed", "parsed", "edited", "edited", "built", "messy", "broken", "shuffled", "odd", "grown"}

// arg is one of the ways to name a file.
func (g *scGen) arg(file string) string {
	a := file
	if strings.HasSuffix(a, ".go") && g.p(0.3) {
		a = strings.TrimSuffix(a, ".go")
		if strings.HasSuffix(a, ".go") || strings.HasSuffix(a, "/") {
			a += ".go"
		}
	}
	rel := strings.TrimPrefix(a, strings.TrimSuffix(g.sc.Cwd, "/")+"/")
	if rel == a || g.p(0.5) {
		switch g.n(6) {
		case 0:
			return path.Dir(a) + "//" + path.Base(a)
		case 1:
			return path.Dir(a) + "/./" + path.Base(a)
		}
		return a
	}
	switch g.n(4) {
	case 0:
		return "./" + rel
	case 1:
		if g.sc.Cwd == "/" {
			return "../" + rel
		}
		return "../" + path.Base(g.sc.Cwd) + "/" + rel
	}
	return rel
}

func (g *scGen) autoArg() int { return g.n(2) }

func (g *scGen) policy(steps int) simrt.Policy {
	var p simrt.Policy
	p.StopRnd = g.p(0.8)
	switch g.n(6) {
	case 0:
		p.SysProb = 0.1 + 0.1*float64(g.n(6))
	case 1, 2:
		p.Mean = []int{3, 10, 30, 100, 300, 1000, 3000, 10000, 30000}[g.n(9)]
		p.SysProb = 0.1 * float64(g.n(7))
	case 3:
		p.Prio = true
		for i := g.n(5); i > 0; i-- {
			p.Changes = append(p.Changes, 1+g.n(max(steps, 2)))
		}
		for i := range p.Changes {
			for j := i; j > 0 && p.Changes[j] < p.Changes[j-1]; j-- {
				p.Changes[j], p.Changes[j-1] = p.Changes[j-1], p.Changes[j]
			}
		}
	case 4:
		for i := 1 + g.n(8); i > 0; i-- {
			p.Hot = append(p.Hot, g.n(max(g.nsite, 1)))
		}
		p.HotProb = 0.2 + 0.2*float64(g.n(4))
		p.SysProb = 0.3
	}
	if g.sc.Prop != "C06" && (p.Mean > 0 || len(p.Changes)+len(p.Hot) > 0) && (g.p(0.15) || g.sc.Prop == "C13" && g.p(0.2)) {
		p.Stall = []float64{0.01, 0.1, 0.5}[g.n(3)]
	}
	return p
}

// saveOp makes a save to file.
func (g *scGen) saveOp(file string, hows ...string) Op {
	if len(hows) == 0 {
		hows = goodHows
	}
	return Op{K: "save", Ast: g.ast(hows...), Path: g.arg(file), File: file, Auto: g.autoArg(), Want: "ok", Think: g.think()}
}

func (g *scGen) think() int64 {
	if g.p(0.9) {
		return 0
	}
	return int64(g.n(1_000_000_000))
}

// links makes symbolic links in dir that lead to file, which is in dir or below it,
// and returns a name that goes through them.
func (g *scGen) links(dir, id, file string) string {
	rel := strings.TrimPrefix(file, g.root+"/"+dir+"/")
	l := g.put(dir+"/ln"+id+".go", g.one(file, rel, "./"+rel), simfs.IFLnk|0o777)
	for i := 0; i < 3 && g.p(0.35); i++ { // a link to the link
		switch g.n(3) {
		case 0:
			l = g.put(fmt.Sprintf("%s/ln%s-%d.go", dir, id, i), g.one(strings.TrimPrefix(l, g.root+"/"+dir+"/"), l), simfs.IFLnk|0o777)
		case 1: // in a directory next to it
			l = g.put(fmt.Sprintf("%s/lnd%s-%d/l.go", dir, id, i), l, simfs.IFLnk|0o777)
		case 2: // in a directory that is reached through a link itself
			g.put(fmt.Sprintf("%s/far%s-%d/sub/l.go", dir, id, i), "../../"+strings.TrimPrefix(l, g.root+"/"+dir+"/"), simfs.IFLnk|0o777)
			g.put(fmt.Sprintf("%s/near%s-%d", dir, id, i), fmt.Sprintf("far%s-%d/sub", id, i), simfs.IFLnk|0o777)
			l = fmt.Sprintf("%s/%s/near%s-%d/l.go", g.root, dir, id, i)
		}
	}
	return l
}

// autoDir makes a save with imports resolved, alone in its directory.
func (g *scGen) autoOp(i int) Op {
	f := fmt.Sprintf("%s/auto%d/x.go", g.root, i)
	op := g.saveOp(f, "parsed", "parsed", "edited", "messy", "broken")
	op.Auto = 2
	return op
}

func (g *scGen) watch(f string) string {
	for _, x := range g.sc.Watch {
		if x == f {
			return f
		}
	}
	g.sc.Watch = append(g.sc.Watch, f)
	return f
}

// version is the initial content of a target file.
func (g *scGen) version() string {
	if g.p(0.1) {
		return "// not go at all {{{ old-" + fmt.Sprint(g.n(1000)) + "\n"
	}
	return g.sc.Srcs[g.src(g.size())]
}

// target is a file callers save to; it may exist already.
func (g *scGen) target(name string, exists float64) string {
	f := g.root + "/" + name
	if g.p(exists) {
		mode := uint32(0o644)
		if g.p(0.2) {
			mode = []uint32{0o600, 0o640, 0o664, 0o755}[g.n(4)]
		}
		g.put(name, g.version(), mode)
	}
	return g.watch(f)
}

func (g *scGen) names(n int) []string {
	pool := []string{"a.go", "b.go", "gen/a.go", "deep/er/dir/x.go", "usecase/usecase.go", "with space.go", "a_test.go", ".hidden.go", "x.y.go"}
	if g.p(0.15) {
		long := strings.Repeat("n", 245)
		if g.sc.Prop != "C05" { // as long as a name can be
			long += "nnnnnnn"
		}
		pool = append(pool, long+".go", "öl/世界.go", "100%d%s.go", "[a-z]*?.go", "$HOME.go", "a\nb.go", "-f.go", "..go", ".go", "A.GO.go", "go.go", "x.go.go", "x~.go", "#x#.go", "a;b&c|d.go", "d.go/e.go", " .go", "C:\\x.go")
	}
	var out []string
	for len(out) < n {
		s := pool[g.n(len(pool))]
		if !has(out, s) {
			out = append(out, s)
		}
	}
	return out
}

// diskFaults picks a fault regime.
func (g *scGen) diskFaults(tasks, calls int, kinds ...string) (f FaultCfg, shape string) {
	shape = g.one(kinds...)
	switch shape {
	case "soft":
		f = FaultCfg{Rate: 0.05 + 0.1*float64(g.n(5)), Soft: true}
	case "rate":
		f = FaultCfg{Rate: 0.02 + 0.04*float64(g.n(4)), Hard: true, Soft: g.p(0.5), Max: 1 + g.n(4)}
	case "target":
		f = FaultCfg{Task: g.n(tasks), Call: 1 + g.n(calls), Hard: true, Max: 1}
	case "persist":
		f = FaultCfg{Task: g.n(tasks), Call: 1 + g.n(calls), Span: 1 + g.n(12), Hard: true}
	case "only":
		f = FaultCfg{Rate: 0.5, Hard: true, Max: 1 + g.n(2), Only: []string{g.one("write", "close", "openat", "read", "fsync", "rename", "rename", "newfstatat", "unlinkat", "mkdirat")}}
	case "dead", "again": // one kind of call fails in one way, for ever or for some time
		f = FaultCfg{Rate: 1, Hard: true, Only: []string{g.one("openat", "openat", "create", "create", "write", "read", "close", "fsync", "rename", "rename", "rename", "fchmod", "unlinkat", "mkdirat", "newfstatat", "readlinkat")}}
		var e []syscall.Errno
		switch f.Only[0] {
		case "openat", "create":
			e = errs(syscall.EMFILE, syscall.EMFILE, syscall.ENFILE, syscall.EIO, syscall.EACCES, syscall.ENOSPC, syscall.ETXTBSY, syscall.EBUSY, syscall.ESTALE, syscall.ENOMEM, syscall.EROFS, syscall.EAGAIN)
		case "write":
			e = errs(syscall.ENOSPC, syscall.EIO, syscall.EDQUOT)
		case "rename":
			e = errs(syscall.EBUSY, syscall.EACCES, syscall.ENOSPC, syscall.EIO, syscall.EXDEV, syscall.ESTALE)
		default:
			e = errs(syscall.EIO, syscall.EACCES, syscall.ENOSPC, syscall.EBUSY, syscall.ESTALE, syscall.ENOMEM)
		}
		f.Errno = int(e[g.n(len(e))])
		if f.Only[0] != "unlinkat" && g.p(0.15) {
			f.Only = append(f.Only, "unlinkat")
		}
		if shape == "again" {
			f.Max = 1 + g.n(8)
		}
	case "quota":
		f = FaultCfg{Quota: 1 + int64(g.n(1500))}
	case "delay":
		f = FaultCfg{Delay: 0.05 + 0.1*float64(g.n(4)), MaxD: 1 + int64(g.n(5_000_000_000))}
	}
	if shape != "delay" && shape != "none" && g.p(0.15) {
		f.Delay, f.MaxD = 0.05, 1_000_000_000
	}
	return f, shape
}

const callsPerSave = 16

// story turns a caller's calls into more of a story, in which what was done
// before matters: the same save again, the same AST changed and saved again, a
// file loaded, changed and saved, and other programs that change, replace or
// remove the file meanwhile.
func (g *scGen) story(l []Op, most int, exts ...string) []Op {
	if !g.p(0.45) {
		return l
	}
	seen := map[string]Op{}
	var out []Op
	add := func(op Op) {
		if len(out) < most {
			out = append(out, op)
		}
	}
	ext := func(f string) {
		if len(exts) == 0 || !has(g.sc.Watch, f) {
			return
		}
		op := Op{K: "ext", File: f, S: g.sc.Srcs[g.src(g.size())], Think: g.think()}
		switch g.one(exts...) {
		case "write":
			op.A, op.B = 1, g.n(2)
		case "replace":
			op.A, op.B = 0, g.n(2)
		case "remove":
			op.A = 2
		case "garbage-replace":
			op.S = g.one("", "package", "not go at all {{{")
		case "garbage":
			op.A, op.S = g.n(2), g.one("", "package", "not go at all {{{", op.S[:g.n(len(op.S))])
		}
		add(op)
	}
	for _, op := range l {
		add(op)
		if op.Auto == 2 {
			continue
		}
		for k := g.n(3); k > 0; k-- {
			again := op
			again.Think = g.think()
			switch {
			case op.K == "save" && op.Want == "ok":
				switch g.n(7) {
				case 0, 1: // the same once more
				case 2:
					add(Op{K: "touch", Ast: op.Ast, A: g.seed()})
				case 3: // other content in between
					o2 := again
					o2.Ast = g.ast("parsed", "edited", "built", "messy")
					add(o2)
				case 4:
					ext(op.File)
				case 5: // what was saved before this
					if p, ok := seen[op.File]; ok {
						again.Ast = p.Ast
					}
				case 6: // load, change, save
					add(Op{K: "parse", Path: op.Path, File: op.File})
					if g.p(0.7) {
						add(Op{K: "touch", Ast: op.Ast, A: g.seed(), C: 1})
					}
					again.C = 1
				}
				seen[op.File] = op
				add(again)
			case op.K == "parse":
				if g.p(0.6) {
					ext(op.File)
				}
				add(again)
			}
		}
	}
	return out
}

// moving: what a path leads to changes between two calls. The calls are made by op
// from a path and the file it stands for.
func (g *scGen) moving(dir string, op func(p, f string) Op) (l []Op) {
	do := func(p, f string) {
		for k := 1 + g.n(2); k > 0; k-- {
			l = append(l, op(p, f))
		}
	}
	ext := func(a int, p, s string) {
		l = append(l, Op{K: "ext", A: a, Path: p, S: s, Think: g.think()})
	}
	abs := g.root + "/" + dir
	switch g.n(3) {
	case 0: // a link to a file
		a, b := g.target(dir+"/mv/a.go", 0.8), g.target(dir+"/mv/b.go", 0.8)
		p := g.put(dir+"/mv/cur.go", "a.go", simfs.IFLnk|0o777)
		do(p, a)
		for k := 1 + g.n(3); k > 0; k-- {
			ext(3, p, g.one("b.go", b, "./b.go"))
			do(p, b)
			if k > 1 {
				ext(3, p, g.one("a.go", a))
				do(p, a)
			}
		}
	case 1: // a link to a directory
		a, b := g.target(dir+"/mv/v1/f.go", 0.8), g.target(dir+"/mv/v2/f.go", 0.8)
		g.put(dir+"/mv/v1/z.txt", "", 0o644)
		g.put(dir+"/mv/v2/z.txt", "", 0o644)
		c := g.put(dir+"/mv/cur", "v1", simfs.IFLnk|0o777)
		do(c+"/f.go", a)
		for k := 1 + g.n(3); k > 0; k-- {
			ext(3, c, g.one("v2", path.Dir(b)))
			do(c+"/f.go", b)
			if k > 1 {
				ext(3, c, g.one("v1", path.Dir(a)))
				do(c+"/f.go", a)
			}
		}
	case 2: // a directory that vanishes
		f := g.target(dir+"/mv/deep/down/f.go", 0.6)
		f2 := g.target(dir+"/mv/deep/f2.go", 0.4)
		for k := 1 + g.n(3); k > 0; k-- {
			do(f, f)
			if g.p(0.3) {
				do(f2, f2)
			}
			ext(4, abs+g.one("/mv/deep", "/mv/deep/down", "/mv"), "")
		}
		do(f, f)
	}
	return l
}

// c01: savers and readers on a few files; the process or the machine dies
// anywhere, several times.
func (g *scGen) c01() {
	sc := g.sc
	names := g.names(1 + g.n(3))
	var files []string
	for _, n := range names {
		files = append(files, g.target(n, 0.7))
	}
	link := ""
	if path.Dir(files[0]) != g.root && g.p(0.3) { // one of them also has another name
		link = g.links(strings.TrimPrefix(path.Dir(files[0]), g.root+"/"), "a", files[0])
	}
	segs := 1
	kind := g.n(10)
	switch {
	case kind < 6:
		segs = 1 + g.n(3)
	}
	for s := 0; s < segs; s++ {
		var seg Seg
		nt := []int{1, 1, 2, 3}[g.n(4)]
		ops := 0
		for t := 0; t < nt; t++ {
			var l []Op
			for k := 1 + g.n(3); k > 0; k-- {
				f := files[g.n(len(files))]
				switch {
				case g.p(0.85):
					op := g.saveOp(f)
					if g.p(0.04) {
						op.Ast, op.Want = g.ast("empty", "none"), "err"
					}
					if op.Want == "ok" && g.p(0.02) && kind < 6 {
						sc.Asts[op.Ast] = AstSpec{How: "parsed", Src: g.big()}
					}
					if f == files[0] && link != "" && g.p(0.4) {
						op.Path = link
					}
					l = append(l, op)
				default:
					l = append(l, Op{K: "parse", Path: g.arg(f), File: f, Think: g.think()})
				}
				ops++
			}
			l = g.story(l, 9, "write", "replace", "remove", "garbage")
			seg.Tasks = append(seg.Tasks, l)
		}
		if g.p(0.05) && kind != 6 && kind != 7 {
			op := g.autoOp(s)
			if g.p(0.5) {
				g.put(strings.TrimPrefix(op.File, g.root+"/"), g.version(), 0o644)
			}
			g.watch(op.File)
			seg.Tasks = append(seg.Tasks, []Op{op})
			nt++
		}
		switch {
		case kind < 6:
			seg.Faults.Crash = g.one("process", "process", "power")
			seg.Faults.CrashT = g.n(nt)
			seg.Faults.CrashN = g.n(callsPerSave * len(seg.Tasks[seg.Faults.CrashT]))
			sc.Shape = fmt.Sprintf("crash-%s/%d", seg.Faults.Crash, segs)
			if g.p(0.1) {
				seg.Faults.Rate, seg.Faults.Soft = 0.1, true
			}
			if g.p(0.1) && !hasAuto(seg.Tasks) {
				seg.Faults.Rate, seg.Faults.Hard, seg.Faults.Max = 0.1, true, 2
			}
		case kind < 9 && !hasAuto(seg.Tasks):
			seg.Faults, sc.Shape = g.diskFaults(nt, callsPerSave*2, "rate", "target", "only", "persist", "again", "dead", "quota", "soft")
		default:
			seg.Faults, sc.Shape = g.diskFaults(nt, 1, "none", "delay", "soft")
		}
		seg.Policy = g.policy(2000 * ops)
		sc.Segs = append(sc.Segs, seg)
	}
}

func hasAuto(ts [][]Op) bool {
	for _, t := range ts {
		for _, o := range t {
			if o.Auto == 2 {
				return true
			}
		}
	}
	return false
}

// c02: each caller saves to files of its own.
func (g *scGen) c02() {
	sc := g.sc
	sc.Umask = []uint32{0o022, 0o022, 0o077, 0o002, 0}[g.n(5)]
	if g.p(0.4) {
		sc.EUID = 1000
	}
	nt := []int{1, 1, 2, 3}[g.n(4)]
	var seg Seg
	auto := g.p(0.06)
	for t := 0; t < nt; t++ {
		var files []string
		for _, n := range g.names(1 + g.n(2)) {
			files = append(files, g.target(fmt.Sprintf("t%d/%s", t, n), 0.6))
		}
		var l []Op
		for k := 1 + g.n(4); k > 0; k-- {
			f := files[g.n(len(files))]
			op := g.saveOp(f)
			switch x := g.n(42); {
			case x == 0 || x > 39:
				op.Ast, op.Want = g.ast("empty", "none"), "err"
			case x == 1:
				f = fmt.Sprintf("%s/t%d/%s.go", g.root, t, strings.Repeat("n", 256))
				op.Path, op.File, op.Want = f, f, "err"
			case x == 2: // a directory is in the way
				d := fmt.Sprintf("t%d/dir%d.go", t, k)
				if g.p(0.5) {
					g.put(d+"/inside.txt", "x", 0o644)
				} else {
					g.put(d, "", simfs.IFDir|0o755)
				}
				op.Path = g.root + "/" + d
				op.File, op.Want = op.Path, "err"
			case x == 3: // the parent is a file
				op.Path = fmt.Sprintf("%s/keep.txt/x%d.go", g.root, k)
				op.File, op.Want = op.Path, "err"
			case x == 4 && sc.EUID != 0:
				op.File = g.put(fmt.Sprintf("t%d/ro%d.go", t, k), g.version(), 0o444)
				op.Path, op.Want = g.arg(op.File), "err"
			case x == 5 && sc.EUID != 0:
				g.put(fmt.Sprintf("t%d/locked", t), "", simfs.IFDir|0o555)
				op.File = fmt.Sprintf("%s/t%d/locked/new%d.go", g.root, t, k)
				op.Path, op.Want = g.arg(op.File), "err"
			case x == 6: // through a symbolic link
				op.File = g.target(fmt.Sprintf("t%d/real%d.go", t, k), 0.8)
				op.Path = g.links(fmt.Sprintf("t%d", t), fmt.Sprint(k), op.File)
			case x == 7: // through a linked directory
				op.File = g.target(fmt.Sprintf("t%d/rd/f%d.go", t, k), 0.8)
				g.put(fmt.Sprintf("t%d/rd/z.txt", t), "", 0o644)
				g.put(fmt.Sprintf("t%d/ld", t), "rd", simfs.IFLnk|0o777)
				op.Path = fmt.Sprintf("%s/t%d/ld/f%d.go", g.root, t, k)
			case x == 12: // .. leads out of where a link leads to
				sub := fmt.Sprintf("t%d/far/in%d", t, k)
				g.put(sub+"/z.txt", "", 0o644)
				g.put(fmt.Sprintf("t%d/near%d", t, k), fmt.Sprintf("far/in%d", k), simfs.IFLnk|0o777)
				op.File = g.target(fmt.Sprintf("t%d/far/%s%d.go", t, g.one("y", "new/y", "not/yet/y"), k), 0.4)
				op.Path = strings.Replace(op.File, "/far/", fmt.Sprintf("/near%d/../", k), 1)
			case x == 8:
				sc.Asts[op.Ast] = AstSpec{How: g.one("parsed", "messy"), Src: g.big()}
			case x == 9: // same AST, same file again
				if len(l) > 0 && l[len(l)-1].Want == "ok" {
					op = l[len(l)-1]
				}
			case x == 11: // a link that goes round
				a := fmt.Sprintf("t%d/ring%d", t, k)
				op.Path = g.put(a+"a.go", path.Base(a)+"b.go", simfs.IFLnk|0o777)
				g.put(a+"b.go", g.one(path.Base(a)+"a.go", "./"+path.Base(a)+"b.go"), simfs.IFLnk|0o777)
				op.File, op.Want = op.Path, "err"
			case x == 10:
				op.File = fmt.Sprintf("%s/t%d/a file.txt.go", g.root, t)
				op.Path = strings.TrimSuffix(op.File, g.one("", ".go"))
			}
			l = append(l, op)
		}
		l = g.story(l, 9, "write", "replace", "remove", "garbage")
		if g.p(0.12) {
			m := g.moving(fmt.Sprintf("t%d", t), func(p, f string) Op {
				op := g.saveOp(f)
				op.Path = p
				return op
			})
			l = append(m[:min(len(m), 9)], l[:min(len(l), 3)]...)
		}
		seg.Tasks = append(seg.Tasks, l)
	}
	if auto {
		seg.Tasks[0] = append(seg.Tasks[0], g.autoOp(0))
		seg.Faults, sc.Shape = g.diskFaults(nt, 1, "none", "soft", "none")
		sc.Shape += "+imports"
	} else {
		seg.Faults, sc.Shape = g.diskFaults(nt, callsPerSave*2, "none", "soft", "soft", "rate", "rate", "target", "target", "target", "only", "only", "persist", "again", "dead", "quota", "delay")
	}
	seg.Policy = g.policy(4000 * nt)
	sc.Segs = []Seg{seg}
}

// c03: loads of everything a path can stand for.
func (g *scGen) c03() {
	sc := g.sc
	if g.p(0.3) {
		sc.EUID = 1000
	}
	type file struct{ path, file, want string }
	var fs []file
	add := func(name, data string) string {
		return g.put(name, data, []uint32{0o644, 0o600, 0o444, 0o755}[g.n(4)])
	}
	for i := 1 + g.n(3); i > 0; i-- {
		name := fmt.Sprintf("s%d.go", i)
		if g.p(0.3) {
			name = fmt.Sprintf("sub/dir%d/s.go", i)
		}
		switch x := g.n(24); {
		case x < 12:
			f := add(name, g.sc.Srcs[g.src(g.size())])
			fs = append(fs, file{g.arg(f), f, "ok"})
		case x < 15: // not gofmt-clean
			s := g.sc.Srcs[g.src(g.size())]
			switch g.n(6) {
			default:
				s = strings.ReplaceAll(s, " = ", "   =  ")
			case 0:
				s = strings.ReplaceAll(s, "\n", "\r\n")
			case 1:
				s = "\xef\xbb\xbf" + s
			case 2:
				s = strings.TrimRight(s, "\n")
			case 3:
				s = "\n \t\n" + s + "\n\n\n"
			}
			f := add(name, s)
			fs = append(fs, file{g.arg(f), f, "ok"})
		case x == 15: // cut short
			s := g.sc.Srcs[g.src(2)]
			f := add(name, s[:g.n(len(s))])
			fs = append(fs, file{g.arg(f), f, "any"})
		case x == 16:
			f := add(name, g.one("", "func broken( {\n", "not go", "\x00\x01", "\x00package x\n", "package x\n\x00", "package x\n\nvar a = \"\xff\x00\"\n", "\xfe\xffpackage x\n", "package x\n\nvar s = `open\n", "package x\n/* open\n", "package", "var x = 1\n", "func F() {}\n", "// only words\n"))
			fs = append(fs, file{g.arg(f), f, "err"})
		case x == 17: // missing
			f := g.root + "/" + g.one("nope.go", "no/such/dir.go", "s1.go.go")
			fs = append(fs, file{g.arg(f), f, "nx"})
		case x == 18: // a directory
			g.put(name+"/x.txt", "", 0o644)
			fs = append(fs, file{g.root + "/" + name, g.root + "/" + name, "err"})
		case x == 19: // parent is a file
			fs = append(fs, file{g.root + "/keep.txt/x.go", g.root + "/keep.txt/x.go", "err"})
		case x == 20 && sc.EUID != 0:
			f := g.put(name, g.sc.Srcs[g.src(1)], 0o000)
			fs = append(fs, file{g.arg(f), f, "err"})
		case x == 21: // symbolic link
			f := add(name, g.sc.Srcs[g.src(1)])
			l := g.put(fmt.Sprintf("ln%d.go", i), f, simfs.IFLnk|0o777)
			fs = append(fs, file{g.arg(l), f, "ok"})
		case x == 22: // dangling link
			if g.p(0.3) { // goes round
				a := fmt.Sprintf("ring%d", i)
				l := g.put(a+"a.go", a+"b.go", simfs.IFLnk|0o777)
				g.put(a+"b.go", g.one(a+"a.go", "./"+a+"b.go"), simfs.IFLnk|0o777)
				fs = append(fs, file{g.arg(l), l, "err"})
				break
			}
			l := g.put(fmt.Sprintf("dl%d.go", i), "gone.go", simfs.IFLnk|0o777)
			fs = append(fs, file{g.arg(l), l, "nx"})
		default:
			if g.p(0.25) {
				f := add(name, g.sc.Srcs[g.big()])
				fs = append(fs, file{g.arg(f), f, "ok"})
			} else {
				f := add(name, g.sc.Srcs[g.src(3)])
				fs = append(fs, file{g.arg(f), f, "ok"})
			}
		}
	}
	nt := []int{1, 1, 2, 3}[g.n(4)]
	var seg Seg
	changing := nt == 1 && g.p(0.6)
	if changing {
		for _, f := range fs {
			if f.want == "ok" || f.want == "nx" || f.want == "any" {
				g.watch(f.file)
			}
		}
	}
	for t := 0; t < nt; t++ {
		var l []Op
		for k := 1 + g.n(3); k > 0; k-- {
			f := fs[g.n(len(fs))]
			w := f.want
			if w == "any" {
				w = ""
			}
			l = append(l, Op{K: "parse", Path: f.path, File: f.file, Want: w, Think: g.think()})
		}
		if changing {
			for i := range l {
				if l[i].Want == "ok" || l[i].Want == "nx" {
					l[i].Want = ""
				}
			}
			l = g.story(l, 9, "write", "replace", "remove", "garbage")
		}
		if g.p(0.1) {
			m := g.moving(fmt.Sprintf("t%d", t), func(p, f string) Op {
				return Op{K: "parse", Path: p, File: f, Think: g.think()}
			})
			l = append(m[:min(len(m), 9)], l[:min(len(l), 3)]...)
		}
		seg.Tasks = append(seg.Tasks, l)
	}
	seg.Faults, sc.Shape = g.diskFaults(nt, 10, "none", "soft", "soft", "soft", "rate", "rate", "target", "target", "only", "persist", "again", "delay")
	seg.Policy = g.policy(60000 * nt)
	sc.Segs = []Seg{seg}
}

// c04: savers and loaders of the same files.
func (g *scGen) c04() {
	sc := g.sc
	var files []string
	for _, n := range g.names(1 + g.n(2)) {
		files = append(files, g.target(n, 0.75))
	}
	link := ""
	if _, ok := sc.has(files[0]); ok && g.p(0.15) {
		link = g.put("zlink.go", files[0], simfs.IFLnk|0o777)
	}
	segs := 1
	if g.p(0.2) {
		segs = 2
	}
	for s := 0; s < segs; s++ {
		var seg Seg
		nt := 2 + g.n(3)
		left := 24/segs - 3*nt
		for t := 0; t < nt; t++ {
			var l []Op
			for k := 1 + g.n(3); k > 0; k-- {
				f := files[g.n(len(files))]
				var op Op
				if g.p(0.5) {
					op = g.saveOp(f, "parsed", "parsed", "edited", "built", "messy", "broken")
				} else {
					op = Op{K: "parse", Path: g.arg(f), File: f, Think: g.think()}
				}
				if link != "" && f == files[0] && g.p(0.4) {
					op.Path = link
				}
				l = append(l, op)
			}
			if n := len(l); left > 0 {
				l = g.story(l, n+left, "replace", "replace", "remove", "garbage-replace")
				left -= len(l) - n
			}
			seg.Tasks = append(seg.Tasks, l)
		}
		seg.Faults, sc.Shape = g.diskFaults(nt, callsPerSave*2, "none", "none", "none", "soft", "delay", "rate", "target", "again")
		if s < segs-1 {
			seg.Faults.Crash = "process"
			seg.Faults.CrashT = g.n(nt)
			seg.Faults.CrashN = g.n(callsPerSave * len(seg.Tasks[seg.Faults.CrashT]))
			sc.Shape += "+crash"
		}
		seg.Policy = g.policy(20000 * nt)
		sc.Segs = append(sc.Segs, seg)
	}
}

// c05: what lies around stays as it is.
func (g *scGen) c05() {
	sc := g.sc
	sc.Umask = []uint32{0o022, 0o022, 0o077, 0o027, 0o002, 0}[g.n(6)]
	names := g.names(1 + g.n(2))
	var files []string
	for _, n := range names {
		f := g.root + "/" + n
		if g.p(0.7) {
			g.put(n, g.version(), []uint32{0o644, 0o600, 0o640, 0o664, 0o755, 0o444, 0o400, 0o666}[g.n(8)])
		}
		files = append(files, g.watch(f))
		if g.p(0.6) { // what other programs, or an earlier version, left next to it
			d, b := path.Dir(n), path.Base(n)
			for _, s := range []string{b + ".tmp", "." + b + ".tmp", b + "~", b + ".bak", b + ".new", "tmp", strings.TrimSuffix(b, ".go"), b + ".go", ".#" + b, b + ".swp", "_" + b, b + ".lock", ".tmp-" + b, b + ".orig"} {
				if s != "" && g.p(0.4) {
					g.put(strings.TrimPrefix(d+"/"+s, "./"), "bystander "+s, []uint32{0o644, 0o600}[g.n(2)])
				}
			}
			for k := g.n(4); k > 0; k-- {
				sc.Files = append(sc.Files, FileSpec{Path: f, Data: fmt.Sprint("bystander ", k), Mode: []uint32{0o644, 0o600}[g.n(2)], Like: 1 + uint64(g.n(1<<30))})
			}
		}
	}
	link := ""
	if g.p(0.3) {
		link = g.put("zl/link.go", files[0], simfs.IFLnk|0o777)
		switch g.n(4) {
		case 0:
			link = g.put("zl/link2.go", g.one("link.go", "../zl/link.go", link), simfs.IFLnk|0o777)
		case 1:
			g.put("zm/deep/l.go", "../../zl/link.go", simfs.IFLnk|0o777)
			g.put("zn", "zm/deep", simfs.IFLnk|0o777)
			link = g.root + "/zn/l.go"
		}
		if _, ok := sc.has(files[0]); !ok { // dangling at first
			sc.Shape = "dangling"
		}
	}
	g.put("other/readme.md", "# hi", 0o644)
	segs := 1
	if g.p(0.25) {
		segs = 2
	}
	rounds := g.p(0.1) // what stays behind each time
	if rounds {
		segs = 4
	}
	shape := ""
	for s := 0; s < segs; s++ {
		var seg Seg
		nt := []int{1, 1, 2, 3}[g.n(4)]
		for t := 0; t < nt; t++ {
			var l []Op
			for k := 1 + g.n(3); k > 0; k-- {
				f := files[g.n(len(files))]
				op := g.saveOp(f)
				if g.p(0.1) {
					op.Ast, op.Want = g.ast("empty", "none"), "err"
				}
				if g.p(0.3) {
					op = Op{K: "parse", Path: g.arg(f), File: f, Think: g.think()}
				}
				if link != "" && f == files[0] && g.p(0.5) {
					op.Path = link
				}
				if g.p(0.05) {
					op.Path, op.File, op.Want = g.root+"/other", g.root+"/other.go", "ok"
				}
				l = append(l, op)
			}
			if nt == 1 {
				l = g.story(l, 9, "write", "replace", "remove", "garbage")
			} else {
				l = g.story(l, 6)
			}
			seg.Tasks = append(seg.Tasks, l)
		}
		if g.p(0.03) {
			seg.Tasks = append(seg.Tasks, []Op{g.autoOp(s)})
			seg.Faults, shape = g.diskFaults(nt, 1, "none", "soft")
			shape += "+imports"
		} else {
			seg.Faults, shape = g.diskFaults(nt, callsPerSave*2, "none", "soft", "rate", "rate", "target", "target", "target", "only", "only", "persist", "again", "dead", "quota", "delay")
			if rounds && g.p(0.4) {
				seg.Faults, shape = g.diskFaults(nt, callsPerSave, "rate", "dead")
			} else if rounds && g.p(0.5) {
				seg.Faults, shape = FaultCfg{Delay: 0.1, MaxD: 7_200_000_000_000}, "slow"
			}
		}
		if s < segs-1 && !rounds {
			seg.Faults.Crash = "process"
			seg.Faults.CrashT = g.n(nt)
			seg.Faults.CrashN = g.n(callsPerSave * len(seg.Tasks[seg.Faults.CrashT]))
			shape += "+crash"
		}
		seg.Policy = g.policy(4000 * nt)
		sc.Segs = append(sc.Segs, seg)
	}
	if rounds {
		sc.Shape += " rounds"
	}
	sc.Shape = strings.TrimPrefix(sc.Shape+" "+shape, " ")
}

func (sc *Scenario) has(p string) (string, bool) {
	for _, f := range sc.Files {
		if f.Path == p {
			return f.Data, true
		}
	}
	return "", false
}

// c06: calls come back, and once the trouble is over things work again.
func (g *scGen) c06() {
	sc := g.sc
	nt := 1 + g.n(3)
	crowd := g.p(0.04)
	if crowd {
		nt = 4 + g.n(14)
	}
	files := make([][]string, max(nt, 3))
	absent := map[string]bool{}
	for t := range files {
		for _, n := range g.names(1 + g.n(2)) {
			f := fmt.Sprintf("t%d/%s", t, n)
			if g.p(0.85) {
				g.put(f, g.sc.Srcs[g.src(g.size())], 0o644)
			} else {
				absent[g.root+"/"+f] = true
			}
			files[t] = append(files[t], g.watch(g.root+"/"+f))
		}
	}
	seg := func(nt int, parses float64) (s Seg) {
		for t := 0; t < nt; t++ {
			var l []Op
			for k := 1 + g.n(3); k > 0; k-- {
				f := files[t][g.n(len(files[t]))]
				if g.p(parses) {
					op := Op{K: "parse", Path: g.arg(f), File: f, Want: "ok"}
					if absent[f] {
						op.Want = ""
					}
					l = append(l, op)
				} else {
					l = append(l, g.saveOp(f, "parsed", "edited", "built", "messy"))
				}
			}
			s.Tasks = append(s.Tasks, g.story(l, 6, "write", "replace"))
		}
		s.Policy = g.policy(8000 * nt)
		return s
	}
	if crowd { // all callers but one have to wait for the disk
		s := seg(nt, 0.3)
		s.Faults = FaultCfg{Task: g.n(nt), Call: 1 + g.n(15), Stall: int64(3600e9), Crowd: true}
		sc.Segs = []Seg{s}
		sc.Shape = "crowd"
		return
	}
	switch g.n(6) {
	case 5: // other programs remove and replace the files at any time
		s := seg(nt, 0.3)
		var m []Op
		for k := 2 + g.n(8); k > 0; k-- {
			fs := files[g.n(nt)]
			op := Op{K: "ext", File: fs[g.n(len(fs))], S: g.sc.Srcs[g.src(0)], Think: int64(g.n(1_000_000_000))}
			op.A = []int{0, 1, 2, 2}[g.n(4)]
			m = append(m, op)
		}
		s.Tasks = append(s.Tasks, m)
		for _, t := range s.Tasks {
			for i := range t {
				t[i].Want = "" // no crash, and an end, is all there is to say
			}
		}
		s.Faults = FaultCfg{Delay: 0.2 + 0.3*float64(g.n(3)), MaxD: 1 + int64(g.n(2_000_000_000))}
		after := seg(nt, 0)
		sc.Segs = []Seg{s, after}
		sc.Shape = "meddling"
	case 0: // a slow disk under one caller
		nt = 2 + g.n(2)
		s := seg(nt, 0.4)
		s.Faults = FaultCfg{Task: g.n(nt), Call: 1 + g.n(20), Stall: int64(3600e9)}
		sc.Segs = []Seg{s}
		sc.Shape = "stall"
	case 1: // repeated crashes
		n := 2 + g.n(4)
		for i := 0; i < n; i++ {
			s := seg(nt, 0.2)
			s.Faults.Crash = g.one("process", "process", "power")
			s.Faults.CrashT = g.n(nt)
			s.Faults.CrashN = g.n(callsPerSave * len(s.Tasks[s.Faults.CrashT]))
			sc.Segs = append(sc.Segs, s)
		}
		sc.Segs = append(sc.Segs, seg(nt, 0.5))
		sc.Shape = "crashes"
	default:
		s := seg(nt, 0.4)
		s.Faults, sc.Shape = g.diskFaults(nt, callsPerSave*2, "persist", "persist", "dead", "dead", "dead", "again", "rate", "soft", "only", "quota", "delay")
		if sc.Shape == "soft" && g.p(0.3) { // interrupted over and over
			s.Faults.Rate = 0.95
			s.Faults.Max = 100 + g.n(200)
			sc.Shape = "storm"
		}
		sc.Segs = []Seg{s, seg(nt, 0.5)}
	}
}
