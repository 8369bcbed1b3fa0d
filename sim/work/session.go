package work

import (
	"path/filepath"
	"slices"
	"strconv"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/charset"
	"github.com/yanun0323/goast/helper"
	"github.com/yanun0323/goast/kind"
	"github.com/yanun0323/goast/scope"
	"verif.local/sim/simrt"
)

// A session is what one caller does with the library: a sequence of calls on
// things it owns, or shares with others where the property says so. Every call
// gives a dump of all the caller could see of it. The dumps are made without
// fmt, whose pools would order the callers in the eyes of the race detector.
//
// A reference session does the same calls alone; where the property is about
// copies or derived lists, it makes them by the harness's own means, so that
// nothing can be shared.
type sess struct {
	w    *World
	ref  bool // reference session
	asts []goast.Ast
	base map[int]goast.Ast // derived before the phase, by number
	a    goast.Ast
	ids  []int // model of the scope list of a (C10)
	held []goast.Ast
	list []goast.Scope
}

func num(b []byte, n int) []byte { return append(strconv.AppendInt(b, int64(n), 10), '|') }
func str(b []byte, s string) []byte {
	b = strconv.AppendInt(b, int64(len(s)), 10)
	b = append(b, ':')
	return append(append(b, s...), '|')
}
func boolean(b []byte, v bool) []byte {
	if v {
		return append(b, "t|"...)
	}
	return append(b, "f|"...)
}

const nodeLimit = 1 << 19

func dumpNode(b []byte, n *goast.Node) []byte {
	b = num(b, n.Line())
	k := n.Kind()
	b = str(b, k[0])
	b = str(b, k[1])
	b = str(b, n.Text())
	return append(b, '\n')
}

func dumpChain(b []byte, n *goast.Node) []byte {
	i := 0
	for ; n != nil; n = n.Next() {
		if i++; i > nodeLimit {
			return append(b, "endless chain\n"...)
		}
		b = dumpNode(b, n)
	}
	return b
}

func dumpNames(b []byte, sc goast.Scope) []byte {
	for _, f := range [...]func() (string, bool){sc.GetTypeName, sc.GetStructName, sc.GetInterfaceName, sc.GetFuncName, sc.GetMethodName, sc.GetMethodReceiver} {
		s, ok := f()
		b = boolean(b, ok)
		if ok {
			b = str(b, s)
		}
	}
	return append(b, '\n')
}

func dumpScope(b []byte, sc goast.Scope) []byte {
	b = append(b, "scope "...)
	b = str(b, string(sc.Kind()))
	b = num(b, sc.Line())
	b = append(b, '\n')
	b = dumpNames(b, sc)
	b = num(b, countPrev(sc.Node()))
	return dumpChain(b, sc.Node())
}

func dumpScopes(b []byte, scs []goast.Scope) []byte {
	for _, sc := range scs {
		b = dumpScope(b, sc)
	}
	return b
}

func dumpMeta(b []byte, a goast.Ast) []byte {
	p, err := a.Package()
	b = str(b, p)
	b = dumpErr(b, err)
	for _, s := range [...]string{a.File(), a.Dir(), a.Filename(), a.Ext()} {
		b = str(b, s)
	}
	return append(b, '\n')
}

func dumpAst(b []byte, a goast.Ast) []byte {
	if a == nil {
		return append(b, "nil ast\n"...)
	}
	return dumpScopes(dumpMeta(b, a), a.Scope())
}

func dumpErr(b []byte, err error) []byte {
	if err == nil {
		return append(b, "ok|"...)
	}
	return str(b, err.Error())
}

func count(n *goast.Node) (k int) {
	for ; n != nil && k < nodeLimit; n = n.Next() {
		k++
	}
	return
}

func countPrev(n *goast.Node) (k int) {
	for n = n.Prev(); n != nil && k < nodeLimit; n = n.Prev() {
		k++
	}
	return
}

func at(n *goast.Node, i int) *goast.Node {
	for ; i > 0 && n != nil; i-- {
		n = n.Next()
	}
	return n
}

// rebuildNode copies a chain by hand and returns the counterpart of n.
func rebuildNode(n *goast.Node) *goast.Node {
	if n == nil {
		return nil
	}
	first, i := n, 0
	for first.Prev() != nil && i < nodeLimit {
		first = first.Prev()
		i++
	}
	var head, last, mine *goast.Node
	for x := first; x != nil; x = x.Next() {
		c := goast.NewNode(x.Line(), x.Text(), x.Kind())
		if last == nil {
			head = c
		} else {
			last.InsertNext(c)
		}
		last = c
		if x == n {
			mine = c
		}
	}
	_ = head
	return mine
}

func rebuildScope(sc goast.Scope) goast.Scope {
	return goast.NewScope(sc.Line()-1, sc.Kind(), rebuildNode(sc.Node()))
}

func rebuildAst(a goast.Ast) goast.Ast {
	var l []goast.Scope
	for _, sc := range a.Scope() {
		l = append(l, rebuildScope(sc))
	}
	return a.SetScope(l)
}

func (s *sess) copyAst(a goast.Ast) goast.Ast {
	if s.ref {
		return rebuildAst(a)
	}
	return a.Copy()
}

// scopes is the list a caller gets of an AST.
func (s *sess) scopes(a goast.Ast) []goast.Scope {
	l := a.Scope()
	if s.ref {
		l = slices.Clone(l)
	}
	return l
}

// give is the list a caller hands to the library.
func (s *sess) give(l []goast.Scope) []goast.Scope {
	if s.ref {
		return slices.Clone(l)
	}
	return l
}

func (s *sess) appendTo(x ...goast.Scope) {
	if s.ref {
		s.a = s.a.SetScope(append(slices.Clone(s.a.Scope()), x...))
		return
	}
	s.a.AppendScope(x...)
}

// tag makes a scope that can be told from all others.
func tag(seed uint64) goast.Scope {
	k := []scope.Kind{scope.Comment, scope.Variable, scope.Func, scope.Type, scope.Import, scope.Const, scope.InnerComment, scope.Package, scope.Unknown}[seed%9]
	return goast.NewScope(int(seed%97), k, goast.NewNodes(int(seed%97), "// ", "tag", strconv.FormatUint(seed, 16), "\n"))
}

// derive makes an AST from another, in one of the ways there are.
func (s *sess) derive(a goast.Ast, how int, seed uint64) goast.Ast {
	l := s.scopes(a)
	switch how % 6 {
	case 0:
		return a.SetScope(s.give(l))
	case 1:
		n, err := goast.NewAst(s.give(l)...)
		if err != nil {
			return a.SetScope(s.give(l))
		}
		return n
	case 2:
		return a.SetScope(s.give(append(l, tag(seed))))
	case 3:
		n, err := goast.NewAst(s.give(append(l, tag(seed), tag(seed+1)))...)
		if err != nil {
			return a.SetScope(s.give(l))
		}
		return n
	case 4:
		return a.SetScope(s.give(l[:len(l)/2]))
	default:
		return s.copyAst(a)
	}
}

func heads(b []byte, l []goast.Scope) []byte {
	for _, sc := range l {
		b = str(b, string(sc.Kind()))
		b = num(b, sc.Line())
		b = str(b, sc.Node().Text())
		b = str(b, at(sc.Node(), 2).Text())
	}
	return append(b, '\n')
}

// edit changes the session's AST in a way drawn from seed.
func (s *sess) edit(b []byte, seed uint64) []byte {
	r := simrt.Rng(seed)
	l := s.a.Scope()
	if len(l) == 0 {
		return append(b, "nothing to edit\n"...)
	}
	si := r.Intn(len(l))
	sc := l[si]
	head := sc.Node()
	n := count(head)
	j := r.Intn(max(n, 1))
	x := at(head, j)
	b = num(num(num(b, si), j), n)
	nn := goast.NewNode(int(r.Next()%50), "/*ins"+strconv.FormatUint(r.Next()%1000, 10)+"*/")
	switch k := r.Intn(12); k {
	case 0, 1:
		x.SetText(x.Text() + "_" + strconv.Itoa(k))
	case 2:
		x.SetKind(kind.Comment)
	case 3:
		x.InsertNext(nn)
	case 4:
		if j > 0 {
			x.InsertPrev(nn)
		}
	case 5:
		b = dumpChain(b, x.TakeNext())
	case 6:
		if j > 1 {
			b = dumpChain(b, x.TakePrev())
		}
	case 7:
		if a, c := x.Next(), x.Next().Next(); c != nil {
			x.CombineNext(kind.Raw, a, c)
		}
	case 8:
		if n-j < 6 {
			b = dumpChain(b, x.RemoveNext())
		}
	case 9:
		if n-j < 6 {
			nn.InsertNext(goast.NewNode(7, "tail"))
			x.ReplaceNext(nn)
		}
	case 10:
		s.appendTo(tag(r.Next()))
	case 11:
		for y := head; y != nil; y = y.Next() {
			if y.Text() == x.Text() {
				y.SetText("all" + y.Text())
			}
		}
	}
	return dumpAst(b, s.a)
}

// op does one call and dumps what it showed.
func (s *sess) op(op *Op, b []byte) []byte {
	w := s.w
	own := func() bool {
		if s.a == nil {
			b = append(b, "no ast\n"...)
			return false
		}
		return true
	}
	switch op.K {
	case "use": // one of the prepared ASTs
		s.a = s.asts[op.Ast]
		return b
	case "based": // one derived before the callers started
		s.a = s.base[op.A]
		return heads(b, s.a.Scope())
	case "mk":
		scs, err := goast.ParseScope(op.A, []byte(w.Sc.Srcs[op.Src]))
		b = dumpErr(b, err)
		if err != nil {
			return b
		}
		a, err := goast.NewAst(scs...)
		b = dumpErr(b, err)
		s.a = a
		return dumpAst(b, a)
	case "scopes":
		scs, err := goast.ParseScope(op.A, []byte(w.Sc.Srcs[op.Src]))
		return dumpScopes(dumpErr(b, err), scs)
	case "load":
		a, err := goast.ParseAst(op.Path)
		b = dumpErr(b, err)
		if err != nil {
			return b
		}
		s.a = a
		return dumpAst(b, a)
	case "write":
		if !own() {
			return b
		}
		return dumpErr(b, s.save(op))
	case "kinds":
		for i, f := range strings.FieldsFunc(w.Sc.Srcs[op.Src], func(r rune) bool { return r == ' ' || r == '\n' || r == '\t' }) {
			if i > 60 {
				break
			}
			k := kind.New(f)
			b = str(b, k.String())
			c, ok := k.GetClose()
			b = boolean(str(b, c.String()), ok)
			b = str(b, scope.Kind(f).String())
			b = str(b, helper.TidyText(f))
			b = boolean(b, charset.GolangKeywords.Contain(f))
			b = boolean(b, len(f) > 0 && charset.SeparatorCharset.Contain(f[0]))
		}
		return b
	case "nodes":
		words := strings.SplitAfter(clipTo(w.Sc.Srcs[op.Src], 400), " ")
		n := goast.NewNodes(op.A, words...)
		b = dumpChain(b, n)
		for i := len(words) - 1; i > 0; i -= 3 {
			x := at(n, i)
			b = num(b, count(x))
			b = dumpNode(b, x.First())
		}
		b = dumpNode(b, n.Last())
		return append(b, n.Description()...)
	}
	if !own() {
		return b
	}
	switch op.K {
	case "dump":
		return dumpAst(b, s.a)
	case "text":
		return str(b, textOf(s.a))
	case "desc":
		return str(b, s.a.Description())
	case "sdesc":
		for _, sc := range s.a.Scope() {
			b = str(b, sc.Description())
		}
		return b
	case "names":
		for _, sc := range s.a.Scope() {
			b = dumpNames(b, sc)
		}
		return b
	case "meta":
		return dumpMeta(b, s.a)
	case "iter":
		k := 0
		s.a.IterScope(func(sc goast.Scope) bool {
			b = num(str(b, string(sc.Kind())), sc.Line())
			k++
			return k != op.A
		})
		return b
	case "find":
		for _, sc := range s.a.Scope() {
			n := sc.Node().IterNext(func(n *goast.Node) bool { return n.Kind() != kind.FuncName && n.Kind() != kind.TypeName })
			b = dumpNode(b, n)
		}
		return b
	case "back":
		for _, sc := range s.a.Scope() {
			k := 0
			sc.Node().Last().IterPrev(func(n *goast.Node) bool {
				b = dumpNode(b, n)
				k++
				return k < 40
			})
			b = dumpNode(b, sc.Node().First())
		}
		return b
	case "copy":
		s.a = s.copyAst(s.a)
		s.held = append(s.held, s.a)
		return dumpAst(b, s.a)
	case "peekcopy": // a copy that is looked at and dropped
		return dumpAst(b, s.copyAst(s.a))
	case "scopecopy": // an AST of copied scopes
		var l []goast.Scope
		for _, sc := range s.a.Scope() {
			if s.ref {
				l = append(l, rebuildScope(sc))
			} else {
				l = append(l, sc.Copy())
			}
		}
		s.a = s.a.SetScope(l)
		s.held = append(s.held, s.a)
		return dumpAst(b, s.a)
	case "nodecopy":
		l := s.a.Scope()
		if len(l) == 0 {
			return b
		}
		head := l[op.A%len(l)].Node()
		x := at(head, op.B%max(count(head), 1))
		if x == nil {
			return append(b, "no node\n"...)
		}
		var c *goast.Node
		if s.ref {
			c = rebuildNode(x)
		} else {
			c = x.Copy(true)
		}
		one := goast.NewNode(x.Line(), x.Text(), x.Kind())
		if !s.ref && op.A%2 == 0 {
			one = x.Copy()
		} else if !s.ref {
			one = x.Copy(false)
		}
		b = dumpNode(b, one)
		b = boolean(b, one.Next() == nil && one.Prev() == nil && (s.ref || (one != x && c != x)))
		b = boolean(b, count(c.First()) == count(x.First()))
		c.SetText("copied")
		c.InsertNext(goast.NewNode(1, "inserted"))
		one.SetText("single")
		b = dumpChain(b, c.First())
		return dumpChain(b, x.First())
	case "edit":
		return s.edit(b, uint64(op.A))
	case "append":
		var l []goast.Scope
		for i := 0; i <= op.B; i++ {
			l = append(l, tag(uint64(op.A+i)))
		}
		s.appendTo(l...)
		return heads(b, s.a.Scope())
	case "derive":
		s.a = s.derive(s.a, op.B, uint64(op.A))
		s.held = append(s.held, s.a)
		return heads(b, s.a.Scope())
	case "take": // keep the list the AST gave
		s.list = s.scopes(s.a)
		return heads(b, s.list)
	case "grow": // append to the kept list
		for i := 0; i <= op.B; i++ {
			s.list = append(s.list, tag(uint64(op.A+i)))
		}
		return heads(heads(b, s.list), s.a.Scope())
	case "fill": // an AST gets the kept list, or a part of it
		l := s.list
		if op.B > 3 {
			l = l[:len(l)/2]
		}
		switch op.B % 4 {
		case 0, 1:
			s.a = s.a.SetScope(nil)
			s.appendTo(l...)
		case 2:
			s.a = s.a.SetScope(s.give(l))
		case 3:
			if a, err := goast.NewAst(s.give(l)...); err == nil {
				s.a = a
			}
		}
		s.held = append(s.held, s.a)
		return heads(heads(b, s.list), s.a.Scope())
	case "heads":
		return heads(heads(b, s.list), s.a.Scope())
	}
	return append(b, "unknown op "+op.K...)
}

func (s *sess) save(op *Op) error {
	switch op.Auto {
	case 1:
		return s.a.Save(op.Path, false)
	case 2:
		return s.a.Save(op.Path, true)
	}
	return s.a.Save(op.Path)
}

func clipTo(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func dirOf(p string) string { return filepath.Dir(p) }
