package work

import (
	"fmt"
	"slices"
	"strings"

	"github.com/yanun0323/goast"
	"github.com/yanun0323/goast/kind"
	"verif.local/sim/simrt"
)

// chainWorld is a heap of nodes several callers edit, one call at a time, and
// its model: lists of node numbers. The model knows nothing of links; an edit
// is a cut and a splice of lists.
type chainWorld struct {
	nodes []*goast.Node
	id    map[*goast.Node]int
	text  []string
	kind  []kind.Kind
	line  []int
	lists [][]int
	ast   goast.Ast
	scs   []int // model of the AST's scopes, by number
	scid  map[goast.Scope]int
	iters int // iterations under way
	depth [simrt.MaxCallers]int
	fresh int
}

func (c *chainWorld) add(n *goast.Node, text string, k kind.Kind, line int) int {
	c.nodes = append(c.nodes, n)
	c.text = append(c.text, text)
	c.kind = append(c.kind, k)
	c.line = append(c.line, line)
	i := len(c.nodes) - 1
	c.id[n] = i
	return i
}

// where finds a node: list and position.
func (c *chainWorld) where(x int) (int, int) {
	for l := range c.lists {
		if i := slices.Index(c.lists[l], x); i >= 0 {
			return l, i
		}
	}
	return -1, -1
}

func (c *chainWorld) next(x int) int {
	l, i := c.where(x)
	if l < 0 || i+1 >= len(c.lists[l]) {
		return -1
	}
	return c.lists[l][i+1]
}

func (c *chainWorld) prev(x int) int {
	l, i := c.where(x)
	if l < 0 || i == 0 {
		return -1
	}
	return c.lists[l][i-1]
}

// cut separates x from what precedes it.
func (c *chainWorld) cut(x int) {
	l, i := c.where(x)
	if i <= 0 {
		return
	}
	tail := slices.Clone(c.lists[l][i:])
	c.lists[l] = c.lists[l][:i:i]
	c.lists = append(c.lists, tail)
}

// cutAfter separates x from what follows it.
func (c *chainWorld) cutAfter(x int) {
	if n := c.next(x); n >= 0 {
		c.cut(n)
	}
}

// join appends the list starting with y to the one ending with x.
func (c *chainWorld) join(x, y int) {
	lx, ix := c.where(x)
	ly, iy := c.where(y)
	if lx == ly || ix != len(c.lists[lx])-1 || iy != 0 {
		panic("work: bad join")
	}
	c.lists[lx] = append(c.lists[lx], c.lists[ly]...)
	c.lists = slices.Delete(c.lists, ly, ly+1)
}

func (c *chainWorld) isolate(x int) { c.cut(x); c.cutAfter(x) }

func (c *chainWorld) node(i int) *goast.Node {
	if i < 0 {
		return nil
	}
	return c.nodes[i]
}

func (c *chainWorld) name(n *goast.Node) string {
	if n == nil {
		return "nil"
	}
	if i, ok := c.id[n]; ok {
		return fmt.Sprintf("n%d", i)
	}
	return "a node nobody made"
}

// compare checks every link and every node against the model.
func (c *chainWorld) compare() string {
	prev, next := make([]int, len(c.nodes)), make([]int, len(c.nodes))
	for _, l := range c.lists {
		for i, x := range l {
			prev[x], next[x] = -1, -1
			if i > 0 {
				prev[x] = l[i-1]
			}
			if i+1 < len(l) {
				next[x] = l[i+1]
			}
		}
	}
	for i, n := range c.nodes {
		if p := n.Prev(); p != c.node(prev[i]) {
			return fmt.Sprintf("n%d is preceded by %s, must be %s", i, c.name(p), c.name(c.node(prev[i])))
		}
		if x := n.Next(); x != c.node(next[i]) {
			return fmt.Sprintf("n%d is followed by %s, must be %s", i, c.name(x), c.name(c.node(next[i])))
		}
		if n.Text() != c.text[i] {
			return fmt.Sprintf("n%d says %s, must be %s", i, clip(n.Text()), clip(c.text[i]))
		}
		if n.Kind() != c.kind[i] {
			return fmt.Sprintf("n%d is of kind %v, must be %v", i, n.Kind(), c.kind[i])
		}
		if n.Line() != c.line[i] {
			return fmt.Sprintf("n%d is on line %d, must be %d", i, n.Line(), c.line[i])
		}
	}
	return ""
}

func (w *World) chainBefore() {
	c := &chainWorld{id: map[*goast.Node]int{}, scid: map[goast.Scope]int{}}
	w.shared.chain = c
	r := simrt.Rng(Mix3(w.Sc.Seed, 3, uint64(w.SegI)))
	lists := 2 + r.Intn(3)
	k := 0
	long := 0
	if r.Intn(40) == 0 {
		long = 20 + r.Intn(1200)
	}
	for i := 0; i < lists; i++ {
		var words []string
		for j := 1 + r.Intn(6) + long; j > 0; j-- {
			words = append(words, []string{"func", "name", "(", ")", " ", "x", "\n", "a\nb", "\"s\"", "{", "}", "int", "", "\n\n", "/*\n\n*/", "世\r\n"}[r.Intn(16)]+[]string{"", fmt.Sprint(k)}[r.Intn(2)])
			k++
		}
		long = 0
		words[0] = strings.ReplaceAll(words[0], "\n", "")
		line := r.Intn(12) - 3
		no := line
		head := goast.NewNodes(line, words...)
		var l []int
		for j, n := 0, head; n != nil; j, n = j+1, n.Next() {
			if j >= len(words) {
				w.viol("refinement", "NewNodes of %d texts made more nodes", len(words))
				return
			}
			l = append(l, c.add(n, words[j], kind.New(words[j]), no))
			no += strings.Count(words[j], "\n")
		}
		if len(l) != len(words) {
			w.viol("refinement", "NewNodes of %d texts made %d nodes", len(words), len(l))
			return
		}
		c.lists = append(c.lists, l)
	}
	for j := 1 + r.Intn(3); j > 0; j-- {
		c.lists = append(c.lists, []int{c.single(&r)})
	}
	scs := []goast.Scope{goast.NewScope(0, "package", goast.NewNodes(0, "package", " ", "p", "\n"))}
	for j := r.Intn(5); j > 0; j-- {
		scs = append(scs, chainTag(&r))
	}
	a, err := goast.NewAst(scs...)
	if err != nil {
		w.viol("prepare", "NewAst: %v", err)
		return
	}
	c.ast = a
	for i, s := range scs {
		c.scs = append(c.scs, i)
		c.scid[s] = i
	}
	if e := c.compare(); e != "" {
		w.viol("refinement", "after making the chains: %s", e)
	}
}

func chainTag(r *simrt.Rng) goast.Scope {
	if r.Intn(5) == 0 {
		return oddScope(r)
	}
	return tag(r.Next())
}

// single makes a node without neighbours.
func (c *chainWorld) single(r *simrt.Rng) int {
	c.fresh++
	t := fmt.Sprintf("new%d", c.fresh)
	line := r.Intn(45) - 5
	if r.Intn(6) == 0 {
		t = oddText(r)
	}
	switch r.Intn(3) {
	case 0:
		return c.add(goast.NewNode(line, t, kind.Comment), t, kind.Comment, line)
	default:
		return c.add(goast.NewNode(line, t), t, kind.New(t), line)
	}
}

func (w *World) note(h *Hist, f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	if h.At != "" {
		h.At += "; "
	}
	h.At += s
	if w.Trace != nil {
		w.Trace("   " + s)
	}
}

func (w *World) want(h *Hist, what string, got, want *goast.Node) {
	if got != want {
		c := w.shared.chain
		w.viol("wrong-result", "%s: %s is %s, must be %s", h.At, what, c.name(got), c.name(want))
	}
}

// chainOp is one call of a caller on the shared nodes.
func (w *World) chainOp(ti int, op *Op, h *Hist) {
	if len(w.Res.Viol) > 0 {
		return
	}
	r := simrt.Rng(uint64(op.A))
	switch op.S {
	case "edit":
		simrt.Atomic(true)
		w.chainEdit(&r, h)
		simrt.Atomic(false)
	case "iter":
		w.chainIter(ti, &r, h, op)
	case "scopes":
		w.scopeIter(ti, &r, h, op)
	case "append":
		simrt.Atomic(true)
		w.chainAppend(&r, h)
		simrt.Atomic(false)
	}
	if op.S == "long" {
		simrt.Atomic(true)
		w.longChain(&r, h)
		simrt.Atomic(false)
	}
	h.Dig = sum(h.At)
}

// longChain does to a chain of more nodes than a file of some megabytes has what
// must not depend on how many they are.
func (w *World) longChain(r *simrt.Rng, h *Hist) {
	n := 60_000 + r.Intn(100_000)
	if r.Intn(3) == 0 {
		n = 1 << (10 + r.Intn(8))
		n += r.Intn(3) - 1
	}
	words := make([]string, n)
	for i := range words {
		words[i] = []string{"x", " ", "func", "\n"}[(i*7+i/64)&3]
	}
	head := goast.NewNodes(0, words...)
	w.note(h, "a chain of %d nodes", n)
	all := make([]*goast.Node, 0, n)
	walk := func(what string, from *goast.Node, iter func(*goast.Node, func(*goast.Node) bool) *goast.Node, want func(i int) *goast.Node, n int) bool {
		i := 0
		wrong := false
		end := iter(from, func(x *goast.Node) bool {
			wrong = wrong || i >= n || want != nil && x != want(i) || want == nil && x.Text() != words[i]
			i++
			return !wrong
		})
		if wrong || i != n || end != nil {
			w.viol("long-chain", "%s of a chain of %d nodes: wrong after %d of %d callbacks", what, len(words), i, n)
			return false
		}
		return true
	}
	fwd := func(x *goast.Node, f func(*goast.Node) bool) *goast.Node { return x.IterNext(f) }
	back := func(x *goast.Node, f func(*goast.Node) bool) *goast.Node { return x.IterPrev(f) }
	if !walk("IterNext", head, fwd, nil, n) {
		return
	}
	for x := head; x != nil; x = x.Next() {
		all = append(all, x)
	}
	last := all[len(all)-1]
	k := r.Intn(n)
	if len(all) != n || head.Last() != last || all[k].First() != head || all[k].Last() != last {
		w.viol("long-chain", "First and Last of a chain of %d nodes are not its ends", n)
		return
	}
	if !walk("IterPrev", last, back, func(i int) *goast.Node { return all[n-1-i] }, n) ||
		!walk("IterNext", all[k], fwd, func(i int) *goast.Node { return all[k+i] }, n-k) {
		return
	}
	if stop := head.IterNext(func(x *goast.Node) bool { return x != all[k] }); stop != all[k] {
		w.viol("long-chain", "IterNext of a chain of %d nodes did not stop at number %d", n, k)
		return
	}
	cp := all[k].Copy(true)
	if f := cp.First(); f == head || !walk("the copy", f, fwd, nil, n) {
		w.viol("long-chain", "the copy of a chain of %d nodes is another chain", n)
		return
	}
	rest := all[k].RemoveNext()
	if !walk("RemoveNext", head, fwd, func(i int) *goast.Node { return all[i] }, k+1) {
		return
	}
	if k+1 < n && (rest != all[k+1] || !walk("what RemoveNext returned", rest, fwd, func(i int) *goast.Node { return all[k+1+i] }, n-k-1)) {
		w.viol("long-chain", "RemoveNext of a chain of %d nodes at number %d", n, k)
	}
	w.probe("long-chain")
}

func (w *World) chainAppend(r *simrt.Rng, h *Hist) {
	c := w.shared.chain
	var l []goast.Scope
	for i := 1 + r.Intn(3); i > 0; i-- {
		s := chainTag(r)
		c.scid[s] = len(c.scid)
		c.scs = append(c.scs, c.scid[s])
		l = append(l, s)
	}
	c.ast.AppendScope(l...)
	w.note(h, "AppendScope of %d", len(l))
	w.checkScopes(h)
}

func (w *World) checkScopes(h *Hist) {
	c := w.shared.chain
	got := c.ast.Scope()
	if len(got) != len(c.scs) {
		w.viol("wrong-result", "%s: the AST has %d scopes, must have %d", h.At, len(got), len(c.scs))
		return
	}
	for i, s := range got {
		if id, ok := c.scid[s]; !ok || id != c.scs[i] {
			w.viol("wrong-result", "%s: scope %d of the AST is another one", h.At, i)
			return
		}
	}
}

// chainEdit does one random call and the same to the model. It is one step of
// the schedule.
func (w *World) chainEdit(r *simrt.Rng, h *Hist) {
	c := w.shared.chain
	pick := func() int { return r.Intn(len(c.nodes)) }
	n := pick()
	x := c.nodes[n]
	nn := pick()
	if r.Intn(5) == 0 && len(c.nodes) < 40 {
		nn = c.single(r)
		c.lists = append(c.lists, []int{nn})
	}
	y := c.nodes[nn]
	before := func(a, b int) bool { // a comes before b in one list
		la, ia := c.where(a)
		lb, ib := c.where(b)
		return la == lb && ia < ib
	}
	switch k := r.Intn(22); k {
	case 0, 1, 2:
		w.note(h, "n%d.InsertNext(n%d)", n, nn)
		var p, q *goast.Node
		if n != nn && c.next(n) != nn {
			p, q = c.node(c.prev(nn)), c.node(c.next(nn))
			c.isolate(nn)
			f := c.next(n)
			c.cutAfter(n)
			c.join(n, nn)
			if f >= 0 {
				c.join(nn, f)
			}
		}
		gp, gq := x.InsertNext(y)
		w.want(h, "the old previous node", gp, p)
		w.want(h, "the old next node", gq, q)
	case 3, 4, 5:
		w.note(h, "n%d.InsertPrev(n%d)", n, nn)
		var p, q *goast.Node
		if n != nn && c.prev(n) != nn {
			p, q = c.node(c.prev(nn)), c.node(c.next(nn))
			c.isolate(nn)
			f := c.prev(n)
			c.cut(n)
			c.join(nn, n)
			if f >= 0 {
				c.join(f, nn)
			}
		}
		gp, gq := x.InsertPrev(y)
		w.want(h, "the old previous node", gp, p)
		w.want(h, "the old next node", gq, q)
	case 6, 7:
		if n != nn && c.next(n) != nn && before(nn, n) {
			w.note(h, "nothing")
			break // would close a ring
		}
		w.note(h, "n%d.ReplaceNext(n%d)", n, nn)
		var p, q *goast.Node
		if n != nn && c.next(n) != nn {
			p, q = c.node(c.prev(nn)), c.node(c.next(n))
			c.cut(nn)
			c.cutAfter(n)
			c.join(n, nn)
		}
		gp, gq := x.ReplaceNext(y)
		w.want(h, "the old previous node of the incoming node", gp, p)
		w.want(h, "the old next node of the current node", gq, q)
	case 8, 9:
		if n != nn && c.prev(n) != nn && before(n, nn) {
			w.note(h, "nothing")
			break
		}
		w.note(h, "n%d.ReplacePrev(n%d)", n, nn)
		var p, q *goast.Node
		if n != nn && c.prev(n) != nn {
			p, q = c.node(c.prev(n)), c.node(c.next(nn))
			c.cutAfter(nn)
			c.cut(n)
			c.join(nn, n)
		}
		gp, gq := x.ReplacePrev(y)
		w.want(h, "the old previous node of the current node", gp, p)
		w.want(h, "the old next node of the incoming node", gq, q)
	case 10:
		w.note(h, "n%d.TakeNext()", n)
		t := c.next(n)
		if t >= 0 {
			f := c.next(t)
			c.isolate(t)
			if f >= 0 {
				c.join(n, f)
			}
		}
		w.want(h, "the taken node", x.TakeNext(), c.node(t))
	case 11:
		w.note(h, "n%d.TakePrev()", n)
		t := c.prev(n)
		if t >= 0 {
			f := c.prev(t)
			c.isolate(t)
			if f >= 0 {
				c.join(f, n)
			}
		}
		w.want(h, "the taken node", x.TakePrev(), c.node(t))
	case 12:
		w.note(h, "n%d.RemoveNext()", n)
		t := c.next(n)
		c.cutAfter(n)
		w.want(h, "the removed node", x.RemoveNext(), c.node(t))
	case 13:
		w.note(h, "n%d.RemovePrev()", n)
		t := c.prev(n)
		c.cut(n)
		w.want(h, "the removed node", x.RemovePrev(), c.node(t))
	case 14:
		w.note(h, "n%d.Isolate()", n)
		c.isolate(n)
		x.Isolate()
	case 15, 16:
		// usually the neighbours, in order; they may be any
		var l []int
		rev := k == 16
		for i, m := 0, n; i < 1+r.Intn(4); i++ {
			if rev {
				m = c.prev(m)
			} else {
				m = c.next(m)
			}
			if m < 0 {
				break
			}
			l = append(l, m)
		}
		if r.Intn(4) == 0 && nn != n && !slices.Contains(l, nn) {
			l = append(l, nn)
		}
		args := make([]*goast.Node, 0, len(l)+1)
		text := c.text[n]
		for _, m := range l {
			args = append(args, c.nodes[m])
			if rev {
				text = c.text[m] + text
			} else {
				text += c.text[m]
			}
		}
		if r.Intn(3) == 0 { // these are ignored
			args = append(args, nil, x)
		}
		kd := []kind.Kind{kind.Raw, kind.Comment, kind.String}[r.Intn(3)]
		var got *goast.Node
		if rev {
			w.note(h, "n%d.CombinePrev(n%v)", n, l)
			got = x.CombinePrev(kd, args...)
		} else {
			w.note(h, "n%d.CombineNext(n%v)", n, l)
			got = x.CombineNext(kd, args...)
		}
		c.kind[n] = kd
		c.text[n] = text
		for _, m := range l {
			c.isolate(m)
		}
		w.want(h, "the combined node", got, x)
	case 17:
		t := fmt.Sprintf("text%d", r.Intn(1000))
		if r.Intn(3) == 0 {
			t = oddText(r)
		}
		w.note(h, "n%d.SetText(%q)", n, t)
		x.SetText(t)
		c.text[n] = t
	case 18:
		kd := oddKind(r)
		w.note(h, "n%d.SetKind(%v)", n, kd)
		x.SetKind(kd)
		c.kind[n] = kd
	case 19:
		w.note(h, "n%d.First() and Last()", n)
		l, _ := c.where(n)
		w.want(h, "First", x.First(), c.nodes[c.lists[l][0]])
		w.want(h, "Last", x.Last(), c.nodes[c.lists[l][len(c.lists[l])-1]])
	case 20:
		w.chainCopy(h, n, r.Intn(2) == 0)
	case 21:
		w.nilCalls(h)
	}
	if e := c.compare(); e != "" {
		w.viol("refinement", "after %s: %s", h.At, e)
	}
}

// chainCopy compares a copy with the model and throws it away.
func (w *World) chainCopy(h *Hist, n int, deep bool) {
	c := w.shared.chain
	x := c.nodes[n]
	w.note(h, "n%d.Copy(%v)", n, deep)
	same := func(g *goast.Node, i int) bool {
		return g != nil && g.Text() == c.text[i] && g.Kind() == c.kind[i] && g.Line() == c.line[i]
	}
	if !deep {
		for _, g := range []*goast.Node{x.Copy(), x.Copy(false)} {
			if !same(g, n) || g.Prev() != nil || g.Next() != nil {
				w.viol("wrong-result", "%s: the copy is not the single node", h.At)
			}
		}
		return
	}
	g := x.Copy(true)
	l, i := c.where(n)
	list := c.lists[l]
	for k, m := i, g; ; k, m = k+1, m.Next() {
		if k == len(list) {
			if m != nil {
				w.viol("wrong-result", "%s: the copy goes on where the chain ends", h.At)
			}
			break
		}
		if !same(m, list[k]) || m == c.nodes[list[k]] || (k+1 < len(list) && m.Next().Prev() != m) {
			w.viol("wrong-result", "%s: the copy differs from the chain at n%d", h.At, list[k])
			return
		}
	}
	for k, m := i, g; ; k, m = k-1, m.Prev() {
		if k < 0 {
			if m != nil {
				w.viol("wrong-result", "%s: the copy goes on before the start of the chain", h.At)
			}
			break
		}
		if !same(m, list[k]) {
			w.viol("wrong-result", "%s: the copy differs from the chain at n%d", h.At, list[k])
			return
		}
	}
}

// nilCalls: a missing neighbour can be asked like any other.
func (w *World) nilCalls(h *Hist) {
	w.note(h, "calls on a missing node")
	var z *goast.Node
	visits := 0
	f := func(*goast.Node) bool { visits++; return true }
	if z.Next() != nil || z.Prev() != nil || z.First() != nil || z.Last() != nil || z.Copy() != nil || z.Copy(true) != nil ||
		z.IterNext(f) != nil || z.IterPrev(f) != nil || visits != 0 || z.Text() != "" || z.Kind() != kind.None {
		w.viol("wrong-result", "%s: something was found", h.At)
	}
	z.SetText("x")
	z.SetKind(kind.Raw)
	z.Isolate()
	if z.TakeNext() != nil || z.TakePrev() != nil || z.RemoveNext() != nil || z.RemovePrev() != nil {
		w.viol("wrong-result", "%s: something was taken", h.At)
	}
}

// chainIter walks while others, and the callback itself, edit. Between two
// callbacks nothing else happens, so the next node is the one that follows (or
// precedes) the current one when the callback returns.
func (w *World) chainIter(ti int, r *simrt.Rng, h *Hist, op *Op) {
	c := w.shared.chain
	start := r.Intn(len(c.nodes))
	back := r.Intn(2) == 0
	stopAt := -1
	if r.Intn(3) > 0 {
		stopAt = r.Intn(8)
	}
	panicAt := -1
	if r.Intn(5) == 0 {
		panicAt = r.Intn(5)
	}
	step := c.next
	if back {
		step = c.prev
	}
	k, exp := 0, start
	limit := 400 + 4*len(c.nodes)
	var panicked any
	simrt.Atomic(true)
	c.iters++
	c.depth[ti]++
	w.note(h, "iterate from n%d back=%v {", start, back)
	cb := func(m *goast.Node) (more bool) {
		if len(w.Res.Viol) > 0 {
			simrt.Atomic(true)
			return false
		}
		if m != c.node(exp) {
			w.viol("wrong-visit", "%s: visit %d is of %s, must be %s", h.At, k, c.name(m), c.name(c.node(exp)))
			simrt.Atomic(true)
			return false
		}
		simrt.Atomic(false)
		simrt.Point()
		for i := r.Intn(3); i > 0 && op.B > 0; i-- {
			simrt.Atomic(true)
			w.chainEdit(r, h)
			simrt.Atomic(false)
		}
		if op.B > 1 && c.depth[ti] < 3 && r.Intn(6) == 0 {
			w.chainIter(ti, r, h, op)
		}
		simrt.Point()
		simrt.Atomic(true)
		k++
		if k-1 == panicAt {
			panic("callback gives up")
		}
		if k-1 == stopAt || k > limit {
			return false
		}
		exp = step(c.id[m])
		return true
	}
	var got *goast.Node
	func() {
		defer func() {
			if p := recover(); p != nil {
				if s, ok := p.(string); !ok || !strings.HasPrefix(s, "callback gives up") {
					panic(p)
				}
				panicked = p
			}
		}()
		if back {
			got = c.nodes[start].IterPrev(cb)
		} else {
			got = c.nodes[start].IterNext(cb)
		}
	}()
	c.iters--
	c.depth[ti]--
	w.note(h, "} visits=%d", k)
	if len(w.Res.Viol) == 0 {
		switch {
		case panicked != nil:
			w.probe("callback-panicked")
		case k > 0 && (k-1 == stopAt || k > limit):
			w.probe("stopped-early")
			w.want(h, "the node the iteration stopped at", got, c.node(exp))
		default:
			w.probe("ran-to-the-end")
			if exp >= 0 {
				w.viol("wrong-visit", "%s: the iteration ended before %s", h.At, c.name(c.node(exp)))
			}
			w.want(h, "the result of an iteration that ran to the end", got, nil)
		}
		if e := c.compare(); e != "" {
			w.viol("refinement", "after %s: %s", h.At, e)
		}
	}
	simrt.Atomic(false)
}

// scopeIter goes over the scopes of the shared AST while others append.
func (w *World) scopeIter(ti int, r *simrt.Rng, h *Hist, op *Op) {
	c := w.shared.chain
	stopAt, panicAt := -1, -1
	if r.Intn(3) > 0 {
		stopAt = r.Intn(6)
	}
	if r.Intn(6) == 0 {
		panicAt = r.Intn(3)
	}
	simrt.Atomic(true)
	snap := slices.Clone(c.scs)
	k := 0
	c.iters++
	w.note(h, "IterScope over %d {", len(snap))
	stopped, panicked := false, false
	func() {
		defer func() {
			if p := recover(); p != nil {
				if s, ok := p.(string); !ok || s != "callback gives up" {
					panic(p)
				}
				panicked = true
			}
		}()
		c.ast.IterScope(func(s goast.Scope) bool {
			if len(w.Res.Viol) > 0 {
				return false
			}
			if stopped {
				w.viol("wrong-visit", "%s: a visit after the callback asked to stop", h.At)
				return false
			}
			if k >= len(snap) || c.scid[s] != snap[k] {
				w.viol("wrong-visit", "%s: visit %d is not of the scope that was at this place when the iteration began", h.At, k)
				return false
			}
			simrt.Atomic(false)
			simrt.Point()
			if op.B > 0 && r.Intn(3) == 0 {
				simrt.Atomic(true)
				w.chainAppend(r, h)
				simrt.Atomic(false)
			}
			simrt.Point()
			simrt.Atomic(true)
			k++
			if k-1 == panicAt {
				panic("callback gives up")
			}
			stopped = k-1 == stopAt
			return !stopped
		})
	}()
	c.iters--
	w.note(h, "} visits=%d", k)
	if len(w.Res.Viol) == 0 {
		if !stopped && !panicked && k != len(snap) {
			w.viol("wrong-visit", "%s: %d of %d scopes were visited", h.At, k, len(snap))
		}
		w.checkScopes(h)
	}
	simrt.Atomic(false)
}

func (w *World) chainAfter() {
	c := w.shared.chain
	if len(w.Res.Viol) > 0 || c == nil {
		return
	}
	if e := c.compare(); e != "" {
		w.viol("refinement", "at the end: %s", e)
	}
	w.Res.Probes["nodes"] += len(c.nodes)
}

func (g *scGen) chains() {
	sc := g.sc
	nt := 1 + g.n(4)
	var seg Seg
	for t := 0; t < nt; t++ {
		var l []Op
		for k := 2 + g.n(14); k > 0; k-- {
			op := Op{K: "chain", S: "edit", A: g.seed()}
			if sc.Prop == "C12" {
				switch g.n(6) {
				case 0, 1, 2:
					op.S, op.B = "iter", g.n(3)
				case 3:
					op.S, op.B = "scopes", g.n(2)
				case 4:
					op.S = "append"
				}
			}
			l = append(l, op)
		}
		if t == 0 && g.p(0.001) {
			l = append(l, Op{K: "chain", S: "long", A: g.seed()})
		}
		seg.Tasks = append(seg.Tasks, l)
	}
	sc.Shape = fmt.Sprintf("callers-%d", nt)
	seg.Policy = simrt.Policy{StopRnd: true, SysProb: []float64{0.2, 0.5, 0.9}[g.n(3)], Mean: []int{1, 2, 4, 8, 20}[g.n(5)]}
	sc.Segs = []Seg{seg}
}

// c14: several callers fill and ask one trie.
func (g *scGen) c14() {
	sc := g.sc
	nt := 1 + g.n(4)
	var seg Seg
	for t := 0; t < nt; t++ {
		var l []Op
		for k := 2 + g.n(8); k > 0; k-- {
			l = append(l, Op{K: "trie", S: g.one("add", "add", "add", "find", "new"), A: g.seed()})
		}
		seg.Tasks = append(seg.Tasks, l)
	}
	sc.Shape = fmt.Sprintf("callers-%d", nt)
	seg.Policy = simrt.Policy{StopRnd: true, SysProb: []float64{0.2, 0.5, 0.9}[g.n(3)], Mean: []int{1, 3, 10}[g.n(3)]}
	sc.Segs = []Seg{seg}
}
