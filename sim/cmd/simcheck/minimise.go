package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif.local/sim/simrt"
	"verif.local/sim/work"
)

// Replay is the file a violation is reported with.
type Replay struct {
	Property string         `json:"property"`
	Class    string         `json:"class"`
	Detail   string         `json:"detail"`
	Seed     uint64         `json:"seed"`
	Race     bool           `json:"race_detector"`
	Minimal  bool           `json:"minimised"`
	Note     string         `json:"note,omitempty"`
	Before   []uint64       `json:"runs_before,omitempty"` // runs of the same process that must precede it
	Scenario *work.Scenario `json:"scenario"`
	History  []work.Hist    `json:"history,omitempty"`
	Trace    []string       `json:"trace,omitempty"`
	Report   []string       `json:"race_report,omitempty"`
}

type minimised struct {
	f       found
	before  []uint64
	minimal bool
	note    string
	res     *work.Result
	trace   []string
	race    string
}

// try runs one scenario in a fresh process and looks for the same class.
func try(sc *work.Scenario, class string, before []uint64, trace string) (*work.Violation, *work.Result, procOut) {
	j := Job{Prop: *prop, Tier: *tier, Trace: trace, Full: true}
	for _, s := range before {
		j.Scs = append(j.Scs, work.Generate(*prop, s, *tier, len(sites)))
	}
	j.Scs = append(j.Scs, sc)
	if *prop == "C13" {
		j.Refs = refsForScs(j.Scs)
	}
	po := runJob(j)
	if po.died {
		if v, ok := deathOf(po); ok && v.Class == class {
			return &v, nil, po
		}
		return nil, nil, po
	}
	r := po.results[len(po.results)-1]
	for i := range r.Viol {
		if r.Viol[i].Class == class {
			return &r.Viol[i], r, po
		}
	}
	return nil, r, po
}

func minimise(f found) minimised {
	m := minimised{f: f}
	deadline := time.Now().Add(120 * time.Second)
	class := f.v.Class
	v, r, po := try(f.sc, class, nil, "")
	if v == nil {
		if len(f.pre) > 0 {
			if v, r, po = try(f.sc, class, f.pre, ""); v != nil {
				m.before = f.pre
				// fewer predecessors?
				for _, k := range []int{1, 2, 4, 8, 16, 32} {
					if k < len(f.pre) {
						if v2, r2, po2 := try(f.sc, class, f.pre[len(f.pre)-k:], ""); v2 != nil {
							m.before, v, r, po = f.pre[len(f.pre)-k:], v2, r2, po2
							break
						}
					}
				}
			}
		}
		if v == nil {
			m.note = "the violation did not show again when replayed alone in a fresh process"
			m.race = f.race
			return m
		}
	}
	if class == "no-end" {
		m.f.v, m.race, m.note = *v, po.race, "not minimised: it takes too long"
		return m
	}
	best := f.sc
	m.f.v, m.res, m.race = *v, r, po.race
	accept := func(c *work.Scenario, v *work.Violation, r *work.Result, po procOut) {
		best = c
		m.f.v, m.res, m.race = *v, r, po.race
	}
	// first tries candidates eight at a time and takes the first that still fails.
	first := func(cs []*work.Scenario) bool {
		for i := 0; i < len(cs) && time.Now().Before(deadline); i += 8 {
			part := cs[i:min(i+8, len(cs))]
			type o struct {
				v  *work.Violation
				r  *work.Result
				po procOut
			}
			outs := make([]o, len(part))
			var wg sync.WaitGroup
			for k := range part {
				wg.Add(1)
				go func() {
					defer wg.Done()
					v, r, po := try(part[k], class, m.before, "")
					outs[k] = o{v, r, po}
				}()
			}
			wg.Wait()
			for k := range outs {
				if outs[k].v != nil {
					accept(part[k], outs[k].v, outs[k].r, outs[k].po)
					return true
				}
			}
		}
		return false
	}
	for round := 0; round < 3; round++ {
		changed := false
		// drop whole callers and calls
		for again := true; again && time.Now().Before(deadline); {
			var cs []*work.Scenario
			for s := range best.Segs {
				for t := range best.Segs[s].Tasks {
					if len(best.Segs[s].Tasks[t]) > 0 {
						c := clone(best)
						c.Segs[s].Tasks[t] = nil
						cs = append(cs, c)
					}
				}
			}
			if len(best.Segs) > 1 {
				for s := range best.Segs {
					c := clone(best)
					c.Segs = append(c.Segs[:s:s], c.Segs[s+1:]...)
					cs = append(cs, c)
				}
			}
			again = first(cs)
			changed = changed || again
		}
		for again := true; again && time.Now().Before(deadline); {
			var cs []*work.Scenario
			for s := range best.Segs {
				for t := range best.Segs[s].Tasks {
					for o := range best.Segs[s].Tasks[t] {
						c := clone(best)
						l := c.Segs[s].Tasks[t]
						c.Segs[s].Tasks[t] = append(l[:o:o], l[o+1:]...)
						cs = append(cs, c)
					}
				}
			}
			again = first(cs)
			changed = changed || again
		}
		// ddmin over the decisions
		for s := range best.Segs {
			if s >= len(best.Segs) {
				break
			}
			for gran := 2; len(best.Segs[s].Plan) > 0 && time.Now().Before(deadline); {
				plan := best.Segs[s].Plan
				n := len(plan)
				size := (n + gran - 1) / gran
				var cs []*work.Scenario
				if gran == 2 {
					c := clone(best)
					c.Segs[s].Plan = nil
					cs = append(cs, c)
				}
				for i := 0; i < n; i += size {
					c := clone(best)
					c.Segs[s].Plan = append(append([]simrt.Dec(nil), plan[:i]...), plan[min(i+size, n):]...)
					cs = append(cs, c)
				}
				if first(cs) {
					changed = true
					gran = max(2, gran-1)
					continue
				}
				if size == 1 {
					break
				}
				gran = min(gran*2, n)
			}
		}
		// smaller values
		var cs []*work.Scenario
		for i := range best.Segs {
			for t := range best.Segs[i].Tasks {
				for o := range best.Segs[i].Tasks[t] {
					if best.Segs[i].Tasks[t][o].Think > 0 {
						c := clone(best)
						c.Segs[i].Tasks[t][o].Think = 0
						cs = append(cs, c)
					}
				}
			}
			if best.Segs[i].Faults.Quota > 0 || best.Segs[i].Faults.Crash == "power" {
				continue
			}
		}
		for i := range best.Files {
			c := clone(best)
			c.Files = append(c.Files[:i:i], c.Files[i+1:]...)
			cs = append(cs, c)
		}
		if first(cs) {
			changed = true
		}
		if !changed {
			break
		}
	}
	m.minimal = time.Now().Before(deadline)
	m.f.sc = best
	tf := filepath.Join(*scratch, "min.trace")
	os.Remove(tf)
	if v, r, po := try(best, class, m.before, tf); v != nil {
		m.f.v = *v
		if r != nil {
			m.res = r
		}
		m.race = po.race
		if b, err := os.ReadFile(tf); err == nil {
			m.trace = strings.Split(strings.TrimSpace(string(b)), "\n")
		}
	}
	return m
}

func clone(s *work.Scenario) *work.Scenario {
	b, _ := json.Marshal(s)
	c := &work.Scenario{}
	json.Unmarshal(b, c)
	return c
}

func writeReplay(m minimised) string {
	r := Replay{Property: *prop, Class: m.f.v.Class, Detail: m.f.v.Detail, Seed: m.f.seed, Race: raceBuild, Minimal: m.minimal, Note: m.note, Before: m.before, Scenario: m.f.sc}
	if m.res != nil {
		r.History = m.res.Hist
	}
	r.Trace = annotate(m.trace)
	if len(r.Trace) > 600 {
		r.Trace = append(r.Trace[:300:300], append([]string{"..."}, r.Trace[len(r.Trace)-300:]...)...)
	}
	if m.race != "" {
		l := strings.Split(m.race, "\n")
		if len(l) > 120 {
			l = l[:120]
		}
		r.Report = l
	}
	b, _ := json.MarshalIndent(r, "", " ")
	dir := filepath.Join(*verif, "replays")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", *prop, m.f.v.Class, m.f.seed))
	if err := os.WriteFile(p, append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
	return p
}

// annotate adds source positions to site numbers.
func annotate(tr []string) []string {
	for i, l := range tr {
		j := strings.Index(l, " site=")
		if j < 0 {
			continue
		}
		var n int
		fmt.Sscanf(l[j:], " site=%d", &n)
		if n > 0 && n < len(sites) {
			tr[i] = l + fmt.Sprintf(" (%s:%d %s)", sites[n].File, sites[n].Line, sites[n].Fn)
		}
	}
	return tr
}

func doReplay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		die("%v", err)
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		die("%v", err)
	}
	*prop = r.Property
	if r.Race != raceBuild {
		die("this replay needs the build with race detector = %v", r.Race)
	}
	*tier = r.Scenario.Tier
	v, _, po := try(r.Scenario, r.Class, r.Before, "")
	if v == nil {
		fmt.Printf("replay of %s: the violation %s does not occur\n", file, r.Class)
		return 0
	}
	fmt.Printf("%s: %s\n", v.Class, v.Detail)
	if v.Class == "data-race" {
		fmt.Println(po.race)
	}
	if v.Detail != r.Detail && v.Class != "data-race" {
		fmt.Printf("(recorded: %s)\n", r.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
	return 1
}
