//go:build verif_trie

package work

import (
	"fmt"
	"slices"

	"github.com/yanun0323/goast"
	"verif.local/sim/simrt"
)

// The trie, and the table it must agree with.
type trieWorld struct {
	t goast.VerifTrie
	m map[string]int
	n int
}

var tries map[*World]*trieWorld = map[*World]*trieWorld{}

func trieKey(r *simrt.Rng) string {
	ab := "ab/*\"n"
	if r.Intn(3) == 0 {
		return []string{"any", "an", "anyone", "func", "fun", "for", "//", "/*", "*/", "/", "\n", "interface", "int", "int8", "int16", "i",
			"é", "è", "éa", "èa", "日本", "日", "月", "a界", "a畍", "€/", "Any", "ANY", "aN", "Func", "Int", "É", "😀", "😁", "", "a\x00", "\x00", "\xff"}[r.Intn(38)]
	}
	n := 1 + r.Intn(5)
	switch r.Intn(30 + 70) {
	case 29:
		if r.Intn(4) == 0 {
			ab, n = "ab", 60+r.Intn(250)
		}
	case 0, 30, 31:
		ab = "aAbBzZ*"
	case 1, 32, 33:
		ab, n = "ab", 10+r.Intn(40)
	case 2, 34, 35:
		for len(ab) < 200 {
			ab += string([]byte{byte(r.Intn(256))})
		}
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = ab[r.Intn(len(ab))]
	}
	return string(b)
}

func (w *World) trieBefore() {
	clear(tries)
	tries[w] = &trieWorld{m: map[string]int{}, t: goast.VerifNewTrie(map[string]int{})}
}

// trieOp is one call on the shared trie; calls do not overlap.
func (w *World) trieOp(ti int, op *Op, h *Hist) {
	if len(w.Res.Viol) > 0 {
		return
	}
	simrt.Atomic(true)
	defer simrt.Atomic(false)
	tw := tries[w]
	r := simrt.Rng(uint64(op.A))
	switch op.S {
	case "new": // the order in which a table is read varies with the simulated randomness
		tw.m = map[string]int{}
		for i := r.Intn(12); i > 0; i-- {
			tw.n++
			tw.m[trieKey(&r)] = tw.n
		}
		tw.t = goast.VerifNewTrie(tw.m)
		w.note(h, "newTrie(%v)", tw.m)
	case "add":
		k, v := trieKey(&r), tw.n+1
		tw.n++
		if r.Intn(12) == 0 {
			v = 0 // the value a bare prefix has
		}
		tw.t.Add(k, v)
		nm := map[string]int{}
		for a, b := range tw.m {
			nm[a] = b
		}
		nm[k] = v
		tw.m = nm
		w.note(h, "AddText(%q, %d)", k, v)
	case "find":
		for i := 0; i < 6; i++ {
			w.trieFind(h, trieKey(&r))
		}
	}
	for k := range tw.m {
		for i := 1; i <= len(k); i++ {
			if i > 24 && i < len(k)-4 { // of a long key, some prefixes
				i += r.Intn(1 + (len(k)-4-i)/2)
			}
			w.trieFind(h, k[:i])
		}
		w.trieFind(h, k+"z")
		w.trieFind(h, swapCase(k))
	}
	h.Dig = sum(h.At)
}

func swapCase(k string) string {
	b := []byte(k)
	for i, c := range b {
		if c|0x20 >= 'a' && c|0x20 <= 'z' {
			b[i] ^= 0x20
		}
	}
	return string(b)
}

func (w *World) trieFind(h *Hist, k string) {
	tw := tries[w]
	if k == "" && len(tw.m) == 0 {
		return
	}
	want := tw.m[k]
	known := false
	for a := range tw.m {
		if len(a) >= len(k) && a[:len(k)] == k {
			known = true
		}
	}
	rev := []byte(k)
	slices.Reverse(rev)
	for _, f := range []struct {
		name string
		find func() (int, bool)
	}{
		{"FindText", func() (int, bool) { return tw.t.Text(k) }},
		{"FindByte", func() (int, bool) { return tw.t.Bytes([]byte(k)) }},
		{"FindTextReversely", func() (int, bool) { return tw.t.TextRev(string(rev)) }},
		{"FindByteReversely", func() (int, bool) { return tw.t.BytesRev(rev) }},
	} {
		v, ok := f.find()
		if ok != known || (ok && v != want) || (!ok && v != 0) {
			w.viol("wrong-lookup", "after %s: %s of %q gave %d, %v; must give %d, %v", h.At, f.name, k, v, ok, want, known)
			return
		}
	}
	w.Res.Probes[fmt.Sprintf("found=%v", known)]++
}
