// Package work holds the workloads, fault models and oracles: what the
// simulated callers do, and what must be true of what they observe.
package work

import (
	"fmt"
	"go/format"
	"go/scanner"
	"go/token"
	"strings"

	"verif.local/sim/simrt"
)

// Gen writes a random Go source file. Every file carries a marker that is
// unique to its seed, so that each observed value can be traced to one write.
type gen struct {
	r    *simrt.Rng
	mark string
	n    int
	b    strings.Builder
}

func (g *gen) pick(ss ...string) string { return ss[g.r.Intn(len(ss))] }

func (g *gen) name(up bool) string {
	g.n++
	p := g.pick("alpha", "beta", "user", "order", "node", "item", "cfg", "svc", "req", "res")
	if up {
		p = strings.ToUpper(p[:1]) + p[1:]
	}
	return fmt.Sprintf("%s%d", p, g.n)
}

func (g *gen) typ(d int) string {
	if d <= 0 {
		return g.pick("int", "string", "bool", "error", "float64", "[]byte", "any")
	}
	switch g.r.Intn(20) {
	case 9:
		return g.pick("chan<- ", "<-chan ") + g.typ(0)
	case 10:
		return fmt.Sprintf("[%d + (%d - 1)*len(%q)]%s", g.r.Intn(9), g.r.Intn(9), g.pick("a", "]", "{"), g.typ(d-1))
	case 11:
		return "[unsafe.Sizeof(Thing{}) - size(pkg.Other{})]" + g.typ(0)
	case 12:
		return "struct{ " + g.name(false) + ", " + g.name(false) + " " + g.typ(0) + " }"
	case 13:
		return "map[[2]" + g.pick("int", "string") + "]struct{}"
	case 14:
		return "func(" + g.name(false) + ", " + g.name(false) + " int, rest ..." + g.typ(0) + ") (n " + g.typ(0) + ", err error)"
	case 15:
		return "interface{ " + g.name(true) + "(" + g.typ(0) + ") " + g.typ(0) + " }"
	case 16:
		return "Generic[" + g.typ(0) + ", " + g.typ(d-1) + "]"
	case 17:
		return "func() func(" + g.typ(0) + ") " + g.typ(0)
	case 18:
		return "(" + g.typ(d-1) + ")"
	case 0:
		return "[]" + g.typ(d-1)
	case 1:
		return "map[string]" + g.typ(d-1)
	case 2:
		return "*" + g.pick("int", "string", "Thing", "pkg.Other")
	case 3:
		return "chan " + g.typ(0)
	case 4:
		return "func(" + g.typ(0) + ") " + g.typ(0)
	case 5:
		return "[4]" + g.typ(d-1)
	case 6:
		return "pkg.Other"
	default:
		return g.typ(0)
	}
}

func (g *gen) lit() string {
	switch g.r.Intn(17) {
	case 7:
		return g.pick(`"\\"`, `'"'`, `'\''`, `'{'`, `'}'`, `'('`, `')'`, "'`'", `'\\'`, `'/'`, `"'"`, "\"`\"", `"/*"`, `"*/"`, `"//"`, `'世'`, `"\\\""`, `"\u4e16"`)
	case 8:
		return g.pick("0b1010_1", "1i", "0x1p-2", ".5", "0o17", "1_000")
	case 9:
		return fmt.Sprintf("%q +\n\t\t%q", g.pick("#line 1 \"done\"\n", "a\\", "x\"", "{"), g.pick("int a = b;\n", "}", "\\", "\"y"))
	case 10:
		return g.pick("map[string][]int{\"a\": {1}, \"b\": {2, 3}}", "struct{ a int }{1}", "[...]string{2: \"x\", 5: \"}\"}", "[]func(){func() {}, func() { _ = '}' }}", "Generic[int, string]{}", "&Thing{name: \"a\", inner: []*Thing{{}, nil}}", "Thing{}.name[1:2]")
	case 11:
		return g.pick("func(a int) (b string, err error) { return \"\", nil }", "func() int { return 1 }()", "func(xs ...any) {}")
	case 12:
		return g.pick("-x", "!ok", "<-ch", "^y &^ z", "a << 2 | b>>3", "*p", "&q", "x.(*Thing)", "y[1:len(y)-1:cap(y)]")
	case 13:
		return g.pick("``", `""`, "`\\`", "`\n`", "`func no() {\n`", "`\t/* ` + \" */\"")
	case 0:
		return fmt.Sprint(g.r.Intn(100000))
	case 1:
		return fmt.Sprintf("%q", g.pick("hello", "a b", "tab\there", "say \"hi\"", "päöü", "{brace", "(paren", "// not a comment", "世界"))
	case 2:
		return "`raw " + g.pick("text", "{ }", "// x", "\"quoted\"", "line one\n\tline two") + "`"
	case 3:
		return g.pick("true", "false")
	case 4:
		return g.pick("1.5", "0x1f", "1e9", "07")
	case 5:
		return "[]int{1, 2, " + fmt.Sprint(g.r.Intn(50)) + "}"
	default:
		return fmt.Sprintf("%d + %d*(%d-1)", g.r.Intn(9), g.r.Intn(9), g.r.Intn(9))
	}
}

func (g *gen) p(f string, a ...any) { fmt.Fprintf(&g.b, f, a...) }

func (g *gen) comment(ind string) {
	switch g.r.Intn(9) {
	case 3:
		g.p("%s%s\n", ind, g.pick("//go:generate stringer -type=X", "//", "//nolint", "// \"quote", "// `tick", "// */", "// {", "// 世界 – ünï", "/**/", "/* // */", "/* \" */"))
	case 0:
		g.p("%s// %s %s\n", ind, g.pick("note", "TODO", "see", "explains"), g.name(false))
	case 1:
		g.p("%s/* %s */\n", ind, g.pick("block", "inner comment", "func not() {}"))
	case 2:
		if ind == "" {
			g.p("/*\n%s\n\nmore words\n*/\n", g.name(false))
		}
	}
}

func (g *gen) stmts(ind string, d int) {
	n := 1 + g.r.Intn(3)
	for i := 0; i < n; i++ {
		switch g.r.Intn(19) {
		case 10:
			if d > 0 {
				g.p("%sselect {\n%scase v, ok := <-ch:\n", ind, ind)
				g.stmts(ind+"\t", d-1)
				g.p("%s\t_, _ = v, ok\n%scase out <- %s:\n%sdefault:\n%s}\n", ind, ind, g.lit(), ind, ind)
			}
		case 11:
			if d > 0 {
				l := g.pick("func_", "type1", "variable", "constant", "packages", "Loop")
				g.p("%s:\n%sfor {\n", l, ind)
				g.stmts(ind+"\t", d-1)
				g.p("%s\tbreak %s\n%s}\n", ind, l, ind)
			}
		case 12:
			if d > 0 {
				g.p("%sfor k, v := range %s {\n", ind, g.pick("m", "10", "seq()", "[]int{1}", "map[string]int{}"))
				g.stmts(ind+"\t", d-1)
				g.p("%s\t_, _ = k, v\n%s}\n", ind, ind)
			}
		case 13:
			g.p("%sgo func(a int, b ...string) {\n", ind)
			g.stmts(ind+"\t", 0)
			g.p("%s}(%d, %q)\n", ind, g.r.Intn(9), "x")
		case 14:
			g.p("%sobj.\n%s\tFirst(%d).\n%s\tThen(func(e error) bool { return e == nil }).\n%s\tLast()\n", ind, ind, g.r.Intn(9), ind, ind)
		case 15:
			g.p("%svar %s %s\n", ind, g.name(false), g.typ(2))
		case 16:
			g.p("%stype %s struct {\n%s\t%s %s\n%s}\n", ind, g.name(false), ind, g.name(false), g.typ(1), ind)
		case 17:
			g.p("%sreturn\n", ind)
		case 0:
			g.p("%s%s := %s\n", ind, g.name(false), g.lit())
		case 1:
			if d > 0 {
				g.p("%sif x := %d; x > 1 {\n", ind, g.r.Intn(9))
				g.stmts(ind+"\t", d-1)
				g.p("%s} else {\n", ind)
				g.stmts(ind+"\t", d-1)
				g.p("%s}\n", ind)
			}
		case 2:
			if d > 0 {
				g.p("%sfor i := 0; i < %d; i++ {\n", ind, g.r.Intn(9))
				g.stmts(ind+"\t", d-1)
				g.p("%s}\n", ind)
			}
		case 3:
			if d > 0 {
				g.p("%sswitch v := any(%d).(type) {\n%scase int:\n", ind, g.r.Intn(9), ind)
				g.stmts(ind+"\t", d-1)
				g.p("%sdefault:\n%s\t_ = v\n%s}\n", ind, ind, ind)
			}
		case 4:
			g.p("%sdefer func() { _ = recover() }()\n", ind)
		case 5:
			g.p("%sfn%d := func(a int, b string) error {\n%s\treturn nil\n%s}\n%s_ = fn%d\n", ind, g.n, ind, ind, ind, g.n)
		case 6:
			g.comment(ind)
		case 7:
			g.p("%s_ = map[string]int{\"a\": 1, \"b\": %d}\n", ind, g.r.Intn(9))
		case 8:
			g.p("%sfmt.Println(%s)\n", ind, g.lit())
		default:
			g.p("%s_ = %s // %s\n", ind, g.lit(), g.name(false))
		}
	}
}

func (g *gen) params() string {
	n := g.r.Intn(4)
	if g.r.Intn(8) == 0 {
		return g.pick("int, string", "_ int, _ string", "a, b int, c ...string", "\n\ta int,\n\tb func(x, y int) (z error), // why\n", "a /* inline */ int", "*Thing, pkg.Other", "ctx context.Context, opts ...func(*Thing)", "fn func(a int, b string) error, m map[string]func()", "世 int, é string", "a [3]int, b struct{ x, y int }")
	}
	var ps []string
	for i := 0; i < n; i++ {
		ps = append(ps, g.name(false)+" "+g.typ(1))
	}
	return strings.Join(ps, ", ")
}

func (g *gen) results() string {
	switch g.r.Intn(9) {
	case 4:
		return " " + g.typ(2)
	case 5:
		return g.pick(" []/*c*/int", " /* result */ error", " map[string]/*c*/[]/*d*/int", " *pkg.Other /* why not */", " (a, b int /* pair */, err error)", " (int, /* second */ error)", " func() (int, error)", " (func(a int) error, error)", " <-chan struct{}", " interface{ M() }", " struct{ a int }")
	case 0:
		return ""
	case 1:
		return " error"
	case 2:
		return " (" + g.typ(0) + ", error)"
	default:
		return " (" + g.name(false) + " " + g.typ(0) + ", err error)"
	}
}

func (g *gen) decl() {
	g.comment("")
	switch g.r.Intn(24) {
	case 11:
		g.p("type (\n\t%s = %s\n\n\t// inner\n\t%s struct {\n\t\t%s %s\n\t}\n\t%s func(%s)\n)\n\n", g.name(true), g.typ(2), g.name(true), g.name(true), g.typ(1), g.name(true), g.params())
	case 12:
		g.p("func %s[T any, K comparable, N ~int | ~string](a T, m map[K]N) (T, error) {\n", g.name(true))
		g.stmts("\t", 1)
		g.p("}\n\n")
	case 13:
		g.p("func (%s%s) %s(%s)%s {\n", g.pick("", "x ", "_ "), g.pick("*Thing", "Thing", "*Generic[T, K]", "Generic[_, V]"), g.name(true), g.params(), g.results())
		g.stmts("\t", 2)
		g.p("}\n\n")
	case 14:
		g.p("func %s(%s)%s // no body\n\n", g.name(false), g.params(), g.pick("", " error", " (int, error)"))
	case 15:
		g.p("var _ %s = %s\n\n", g.pick("Iface", "pkg.Iface"), g.pick("(*Thing)(nil)", "Thing{}"))
	case 16:
		g.p("type %s struct {\n\tpkg.Other\n\t*Thing `json:\",inline\"`\n\ta, b, c %s // three\n\tfn func(%s)%s\n\t_ [0]func()\n}\n\n", g.name(true), g.typ(1), g.params(), g.pick("", " error", " (int, error)"))
	case 17:
		g.p("type %s interface {\n\tpkg.Iface\n\t~int | ~[]byte | string\n\t%s(%s)%s // says\n\n\t/* x */ %s()\n}\n\n", g.name(true), g.name(true), g.params(), g.results(), g.name(true))
	case 18:
		g.p("type %s[T interface{ ~[]E }, E any] %s\n\n", g.name(true), g.pick("[]T", "map[string]T", "struct{ v T }", "func(T) E", "interface{ m(T) }", "Generic[T, E]"))
	case 19:
		g.p("%s\n\n", g.pick("type ()", "var ()", "const ()", "func _() {}", "type _ struct{}", "type _ interface{}", "func init() {}", "var x, y = 1, 2", "var π, 世 = 3, \"界\"", "var f func(int) = func(a int) { _ = a }", "const (\n\ta, b = iota, 1 << iota\n\t_, _\n)"))
	case 20:
		g.p("type _ %s\n\n", g.typ(3))
	case 21:
		g.p("type %s = %s // alias\n\n", g.name(true), g.typ(2))
	case 22:
		g.p("var %s = func(%s)%s {\n", g.name(false), g.params(), g.pick("", " error", " (int, error)"))
		g.stmts("\t", 1)
		g.p("}\n\n")
	case 23:
		g.p("type %s %s\n\n", g.name(true), g.typ(3))
	case 0:
		g.p("var %s = %s\n\n", g.name(false), g.lit())
	case 1:
		g.p("var (\n")
		for i := g.r.Intn(3); i >= 0; i-- {
			g.comment("\t")
			g.p("\t%s %s = %s\n", g.name(false), g.typ(0), g.lit())
		}
		g.p(")\n\n")
	case 2:
		g.p("const (\n\t%s = iota\n\t%s\n\t%s // last\n)\n\n", g.name(true), g.name(true), g.name(true))
	case 3:
		g.p("const %s = %q\n\n", g.name(true), g.mark)
	case 4:
		g.p("type %s struct {\n", g.name(true))
		for i := g.r.Intn(4); i >= 0; i-- {
			g.comment("\t")
			tag := ""
			if g.r.Intn(3) == 0 {
				tag = " `json:\"" + g.name(false) + ",omitempty\"`"
			}
			g.p("\t%s %s%s\n", g.name(true), g.typ(2), tag)
		}
		g.p("}\n\n")
	case 5:
		g.p("type %s interface {\n", g.name(true))
		for i := g.r.Intn(3); i >= 0; i-- {
			g.p("\t%s(%s)%s\n", g.name(true), g.params(), g.results())
		}
		g.p("}\n\n")
	case 6:
		g.p("type %s %s\n\n", g.name(true), g.typ(1))
	case 7:
		g.p("func (r *%s) %s(%s)%s {\n", g.name(true), g.name(true), g.params(), g.results())
		g.stmts("\t", 2)
		g.p("}\n\n")
	case 8:
		g.p("type %s[T any] struct {\n\tvalue T\n}\n\n", g.name(true))
	default:
		g.p("func %s(%s)%s {\n", g.name(g.r.Intn(2) == 0), g.params(), g.results())
		g.stmts("\t", 2)
		g.p("}\n\n")
	}
}

// Source writes a Go file; size is the number of declarations.
func Source(seed uint64, size int) string {
	r := simrt.Rng(seed)
	g := &gen{r: &r, mark: fmt.Sprintf("mark-%x", seed)}
	switch r.Intn(8) {
	case 2:
		g.p("%s", g.pick("//go:build linux && !cgo\n\n", "// Code generated by x. DO NOT EDIT.\n\n", "/* Copyright */ ", "/**/", "/* a */ // b\n\n", "// +build ignore\n\n//go:build ignore\n\n", "\n\n", "#"[:0]))
	case 0:
		g.p("// Package doc %s.\n//\n// More.\n", g.mark)
	case 1:
		g.p("/*\nPackage comment.\n*/\n")
	}
	g.p("package %s\n\n", g.pick("alpha", "main", "usecase", "exported", "pkg1", "alpha", "main", "usecase", "string", "int64", "世界", "_x1", "package_", "func_test"))
	switch r.Intn(3) {
	case 0:
		g.p("import \"fmt\"\n\n")
	case 1:
		g.p("import (\n\t\"context\"\n\t\"fmt\"\n\n\tpkg \"example.com/some/pkg\" // why\n)\n\n")
	}
	g.p("// %s\nvar marker = %q\n\n", g.mark, g.mark)
	for i := 0; i < size; i++ {
		g.decl()
	}
	switch r.Intn(12) {
	case 0:
		g.p("// the end")
	case 1:
		g.p("/* the end */")
	case 2:
		g.p("func end() {}")
	}
	src := g.b.String()
	if r.Intn(3) == 0 {
		if s := g.sprinkle(src); s != "" {
			return s
		}
	}
	return src
}

// sprinkle puts comments between the tokens of src; "" if that is no Go any more.
func (g *gen) sprinkle(src string) string {
	var (
		s    scanner.Scanner
		b    strings.Builder
		last int
		fs   = token.NewFileSet()
		f    = fs.AddFile("", fs.Base(), len(src))
		rate = 1 + g.r.Intn(60)
	)
	s.Init(f, []byte(src), nil, scanner.ScanComments)
	for {
		pos, t, _ := s.Scan()
		if t == token.EOF {
			break
		}
		if g.r.Intn(rate) != 0 || g.r.Intn(2) == 0 {
			continue
		}
		o := f.Offset(pos)
		b.WriteString(src[last:o])
		b.WriteString(g.pick(" /* c */ ", "/*c*/", "/* \" { */", "/*(*/", "/* a\nb */", "/*`*/", "/**/", "/* func */", "/*/ */"))
		last = o
	}
	b.WriteString(src[last:])
	if _, err := format.Source([]byte(b.String())); err != nil {
		return ""
	}
	return b.String()
}

// Formatted is Source after gofmt; it panics if the generator is broken.
func Formatted(seed uint64, size int) string {
	b, err := format.Source([]byte(Source(seed, size)))
	if err != nil {
		panic("work: generated source does not format: " + err.Error())
	}
	return string(b)
}
