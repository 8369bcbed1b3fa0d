package goast

// VerifTrie lets the simulation use the package's trie.
type VerifTrie struct{ t trie[int] }

// VerifNewTrie makes a trie from a table.
func VerifNewTrie(m map[string]int) VerifTrie { return VerifTrie{newTrie(m)} }

func (v VerifTrie) Add(s string, x int)          { _ = v.t.AddText(s, x) }
func (v VerifTrie) Text(s string) (int, bool)    { return v.t.FindText(s) }
func (v VerifTrie) TextRev(s string) (int, bool) { return v.t.FindTextReversely(s) }
func (v VerifTrie) Bytes(b []byte) (int, bool)   { return v.t.FindByte(b) }
func (v VerifTrie) BytesRev(b []byte) (int, bool) {
	if r, ok := any(v.t).(interface{ FindByteReversely([]byte) (int, bool) }); ok {
		return r.FindByteReversely(b)
	}
	return v.t.FindTextReversely(string(b))
}
