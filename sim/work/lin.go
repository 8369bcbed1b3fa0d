package work

import (
	"fmt"
	"sort"
	"strings"
)

// linOp is one completed or pending operation on one file.
type linOp struct {
	inv, ret int64
	write    bool
	val      string // write: content; read: outcome
	gone     bool   // write: there is no file afterwards
	maybe    bool   // may or may not have taken effect
	desc     string
}

const segSpan = int64(1) << 40

// outcome is what a load of the given content reports.
func outcome(v value) string {
	t, c := loadOutcome(v)
	if c == "ok" {
		return "text:" + t
	}
	return c
}

// checkLinear: for every file there is one order of the saves and loads, in
// keeping with their real-time order, in which every load sees the last save.
func (w *World) checkLinear() {
	first := w.initialFS()
	for _, f := range w.Sc.Watch {
		var ops []linOp
		for i := range w.Hist {
			h := &w.Hist[i]
			if h.File != f || h.Inv == 0 || (h.K != "save" && h.K != "parse" && (h.K != "ext" || h.Dig == "")) || h.Panic != "" {
				continue
			}
			op := linOp{inv: h.Inv + int64(h.Seg)*segSpan, ret: h.Ret + int64(h.Seg)*segSpan}
			if h.Ret == 0 { // the process died meanwhile
				op.ret = int64(h.Seg+1)*segSpan - 1
			}
			op.desc = fmt.Sprintf("caller %d.%d %s [%d,%d]", h.Seg, h.Task, h.K, op.inv, op.ret)
			switch h.K {
			case "ext":
				op.write, op.val, op.gone = true, h.Val, h.NX
				op.desc += " by another program of " + value{h.Val, h.NX}.short()
			case "save":
				op.write = true
				op.val = h.Val
				op.maybe = h.Err != "" || h.Ret == 0
				if h.Err != "" && h.hit() == 0 && h.Want == "ok" {
					w.viol("spurious-error", "a save to %s failed although the disk worked: %s", f, h.Err)
					return
				}
				if h.Want == "err" {
					continue
				}
				op.desc += " of " + clip(tail(h.Val)) + " error " + fmt.Sprintf("%q", h.Err)
			default:
				if h.Ret == 0 {
					continue
				}
				if h.Err != "" && !h.NX && h.hit() > 0 {
					continue
				}
				switch {
				case h.NX:
					op.val = "nx"
				case h.Err != "":
					op.val = "err"
				default:
					op.val = "text:" + h.Val
				}
				op.desc += " saw " + clip(tail(op.val)) + " error " + fmt.Sprintf("%q", h.Err)
			}
			ops = append(ops, op)
		}
		if len(ops) > 24 {
			w.Res.Trouble = fmt.Sprintf("history of %d operations on one file is too long to check", len(ops))
			return
		}
		d0, ok := first.Read(f)
		init := value{d0, !ok}
		if !linearizable(ops, init) {
			sort.Slice(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })
			var d []string
			for _, o := range ops {
				d = append(d, o.desc)
			}
			w.viol("not-linearizable", "no order of these calls on %s explains what they saw (initially %s): %s", f, init, strings.Join(d, "; "))
		}
		w.probe("histories-checked")
	}
}

// tail picks the part of a text that tells one value from another.
func tail(s string) string {
	if i := strings.Index(s, "mark-"); i >= 0 {
		e := i
		for e < len(s) && s[e] != '"' && s[e] != '\n' && s[e] != ' ' && s[e] != '.' {
			e++
		}
		return fmt.Sprintf("%s (%d bytes)", s[i:e], len(s))
	}
	return s
}

func (v value) short() string {
	if v.Absent {
		return "no file"
	}
	return clip(tail(v.Data))
}

// linearizable searches for a witness (Wing & Gong, with memoised states).
func linearizable(ops []linOp, init value) bool {
	sort.Slice(ops, func(i, j int) bool { return ops[i].inv < ops[j].inv })
	n := len(ops)
	vals := []string{outcome(init)}
	for _, o := range ops {
		if o.write {
			vals = append(vals, outcome(value{Data: o.val, Absent: o.gone}))
		} else {
			vals = append(vals, "")
		}
	}
	type state struct {
		done uint32
		last int
	}
	seen := map[state]bool{}
	var full uint32 = 1<<n - 1
	var rec func(done uint32, last int) bool
	rec = func(done uint32, last int) bool {
		if done == full {
			return true
		}
		s := state{done, last}
		if seen[s] {
			return false
		}
		seen[s] = true
		limit := int64(1) << 62
		for i := 0; i < n; i++ {
			if done>>i&1 == 0 && ops[i].ret < limit {
				limit = ops[i].ret
			}
		}
		for i := 0; i < n; i++ {
			if done>>i&1 == 1 || ops[i].inv > limit {
				continue
			}
			d := done | 1<<i
			if ops[i].write {
				if rec(d, i+1) {
					return true
				}
				if ops[i].maybe && rec(d, last) {
					return true
				}
				continue
			}
			if vals[last] == ops[i].val && rec(d, last) {
				return true
			}
		}
		return false
	}
	return rec(0, 0)
}
