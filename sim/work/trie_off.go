//go:build !verif_trie

package work

func (w *World) trieBefore()                    { w.Res.Trouble = "this build has no access to the trie" }
func (w *World) trieOp(ti int, op *Op, h *Hist) {}
