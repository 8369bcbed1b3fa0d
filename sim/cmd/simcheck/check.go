package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"verif.local/sim/work"
)

// plan says how much a tier explores.
type plan struct {
	runs   int
	wall   time.Duration
	chunk  int
	verify int // runs repeated to show that they repeat exactly
}

func planFor(prop, tier string) plan {
	p := plan{runs: work.Runs(prop, tier), wall: 100 * time.Second, chunk: 60, verify: 120}
	if tier == "thorough" {
		p.wall, p.verify = 600*time.Second, 600
	}
	if raceBuild {
		p.chunk = 30
	}
	if prop == "C13" {
		p.chunk = 16
	}
	if *runs > 0 {
		p.runs = *runs
	}
	if *budget > 0 {
		p.wall = *budget
	}
	if *verifyF > 0 {
		p.verify = *verifyF
	}
	if *chunkF > 0 {
		p.chunk = *chunkF
	}
	return p
}

type found struct {
	v    work.Violation
	sc   *work.Scenario
	seed uint64
	pre  []uint64 // runs the same process made before, if they matter
	race string
	stde string
}

type totals struct {
	mu       sync.Mutex
	res      int
	steps    int64
	simNS    int64
	switches int64
	preempts int64
	calls    int64
	ops      int64
	crashes  int64
	faults   map[string]int64
	probes   map[string]int64
	shapes   map[string]int64
	edges    map[uint64]struct{}
	digests  map[uint64]struct{}
	nontriv  int
	bySeed   map[uint64]uint64
	found    []found
	trouble  string
	deaths   []procOut
	deadJobs []Job
	alone    bool // every run in a fresh process
	wall     time.Duration
	verified int
	unequal  []string // runs that did not repeat exactly
}

func newTotals() *totals {
	return &totals{faults: map[string]int64{}, probes: map[string]int64{}, shapes: map[string]int64{}, edges: map[uint64]struct{}{}, digests: map[uint64]struct{}{}, bySeed: map[uint64]uint64{}}
}

// slow notes a run that took very long once, but not again.
func (t *totals) slow(seed uint64) {
	fmt.Printf("WARNING: run %d did not end in time once, but did when repeated\n", seed)
}

func (t *totals) snapshotDeaths() []procOut {
	t.mu.Lock()
	defer t.mu.Unlock()
	return t.deaths
}

func (t *totals) add(job Job, po procOut) {
	t.mu.Lock()
	defer t.mu.Unlock()
	for i, r := range po.results {
		t.res++
		t.steps += r.Steps
		t.simNS += r.SimNS
		t.switches += int64(r.Switches)
		t.preempts += int64(r.Preempts)
		t.calls += int64(r.Calls)
		t.ops += int64(r.Ops)
		t.crashes += int64(r.Crashes)
		nf := 0
		for k, v := range r.Faults {
			t.faults[k] += int64(v)
			nf += v
		}
		for k, v := range r.Probes {
			t.probes[k] += int64(v)
		}
		t.shapes[r.Shape]++
		for _, e := range r.Edges {
			t.edges[e] = struct{}{}
		}
		if r.Preempts > 0 || nf > 0 || r.Crashes > 0 {
			if _, ok := t.digests[r.Digest]; !ok {
				t.digests[r.Digest] = struct{}{}
				t.nontriv++
			}
		}
		t.bySeed[r.Seed] = r.Digest
		if *dump {
			fmt.Printf("RUN %d %016x %d\n", r.Seed, r.Digest, r.Since)
		}
		if r.Trouble != "" && t.trouble == "" {
			t.trouble = fmt.Sprintf("seed %d: %s", r.Seed, r.Trouble)
		}
		for _, v := range r.Viol {
			f := found{v: v, sc: r.Scenario, seed: r.Seed, race: po.race}
			for k := i - r.Since; k < i; k++ {
				if k >= 0 {
					f.pre = append(f.pre, po.results[k].Seed)
				}
			}
			t.found = append(t.found, f)
		}
	}
	if po.died {
		t.deaths = append(t.deaths, po)
		t.deadJobs = append(t.deadJobs, job)
	}
}

func check() int {
	start := time.Now()
	p := planFor(*prop, *tier)
	fmt.Printf("simcheck %s tier=%s seed=%d runs=%d race-detector=%v\n", *prop, *tier, baseSeed(), p.runs, raceBuild)
	t := newTotals()
	if c := search(t, p); c != 0 {
		return c
	}
	if len(t.found) == 0 {
		verify(t, p)
	}
	if len(t.unequal) > 0 && len(t.found) == 0 {
		// The code keeps state between calls, so that a run depends on the
		// runs its process made before it. Give every run its own process.
		fmt.Printf("%d of %d runs did not repeat exactly (%s): searching again with a fresh process for every run\n", len(t.unequal), len(t.unequal)+t.verified, t.unequal[0])
		t = newTotals()
		t.alone = true
		p.wall = min(p.wall, 200*time.Second)
		if c := search(t, p); c != 0 {
			return c
		}
		if len(t.found) == 0 {
			verify(t, p)
		}
		if len(t.unequal) > 0 && len(t.found) == 0 {
			fmt.Printf("WARNING: the simulation does not control everything this code depends on: %d of %d runs did not repeat exactly (%s); no violation in any of them\n", len(t.unequal), len(t.unequal)+t.verified, t.unequal[0])
		}
	}

	known := loadKnown()
	code := 0
	var reported []map[string]any
	seen := map[string]bool{}
	sort.SliceStable(t.found, func(i, j int) bool { return t.found[i].seed < t.found[j].seed })
	for _, f := range t.found {
		if k := known.match(*prop, f.v); k != "" {
			if !seen["known "+k] {
				seen["known "+k] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, k)
			}
			continue
		}
		if seen[f.v.Class] || len(reported) >= 3 {
			continue
		}
		seen[f.v.Class] = true
		m := minimise(f)
		path := writeReplay(m)
		fmt.Printf("%s: %s\n", m.f.v.Class, m.f.v.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		reported = append(reported, map[string]any{"class": m.f.v.Class, "detail": m.f.v.Detail, "replay": path, "seed": f.seed})
		code = 1
	}
	writeEvidence(t, p, start, reported)
	rate := float64(t.res) / t.wall.Hours()
	fmt.Printf("%s: %d runs in %.1fs (%.0f/h), %d distinct non-trivial, %d switch edges, simulated %s, %d crashes, %d repeated exactly, %d violation(s)\n",
		*prop, t.res, t.wall.Seconds(), rate, t.nontriv, len(t.edges), time.Duration(t.simNS).Round(time.Millisecond), t.crashes, t.verified, len(reported))
	return code
}

// search makes the runs.
func search(t *totals, p plan) int {
	start := time.Now()
	seedOf := func(i int) uint64 { return uint64(baseSeed())<<32 + uint64(i) }
	next := 0
	var mu sync.Mutex
	take := func() []uint64 {
		mu.Lock()
		defer mu.Unlock()
		t.mu.Lock()
		stop := len(t.found) >= 8 || t.trouble != "" || len(t.deaths) >= 4
		t.mu.Unlock()
		if stop || next >= p.runs || time.Since(start) > p.wall {
			return nil
		}
		var s []uint64
		for len(s) < p.chunk && next < p.runs {
			s = append(s, seedOf(next))
			next++
		}
		return s
	}
	var wg sync.WaitGroup
	for i := 0; i < *workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for s := take(); s != nil; s = take() {
				job := Job{Prop: *prop, Tier: *tier, Seeds: s, Refs: refsFor(s), Alone: t.alone}
				po := runJob(job)
				t.add(job, po)
				for po.died && po.at >= 0 && po.at+1 < job.len() && len(t.snapshotDeaths()) < 4 { // go on behind the run it died in
					job.Seeds = job.Seeds[po.at+1:]
					po = runJob(job)
					t.add(job, po)
				}
			}
		}()
	}
	wg.Wait()
	t.wall = time.Since(start)
	if t.trouble != "" && len(t.found) == 0 {
		fmt.Fprintf(os.Stderr, "simcheck: no verdict: %s\n", t.trouble)
		return 2
	}

	// Deaths of worker processes: the same run alone in a fresh process.
	for i, d := range t.deaths {
		if len(t.found) > 0 {
			break
		}
		if d.at < 0 {
			fmt.Fprintf(os.Stderr, "simcheck: a worker died before its first run: %s\n", d.stderr)
			return 2
		}
		po := runJob(Job{Prop: *prop, Tier: *tier, Seeds: []uint64{d.seed}, Refs: refsFor([]uint64{d.seed})})
		v, ok := deathOf(po)
		var pre []uint64
		if d.hung && (!po.died || !ok) && !t.alone { // with what the process did before
			part := t.deadJobs[i].Seeds[:d.at+1]
			po = runJob(Job{Prop: *prop, Tier: *tier, Seeds: part, Refs: refsFor(part)})
			v, ok = deathOf(po)
			pre = part[:d.at]
		}
		if d.hung && (!po.died || !ok) { // a very slow machine, for all we know
			t.slow(d.seed)
			continue
		}
		if !po.died || !ok {
			v, ok = deathOf(d)
			if !ok {
				fmt.Fprintf(os.Stderr, "simcheck: no verdict: worker died in run %d (hung %v), alone: %v\n%s\n", d.seed, d.hung, po.died, d.stderr)
				return 2
			}
		}
		sc := work.Generate(*prop, d.seed, *tier, len(sites))
		t.found = append(t.found, found{v: v, sc: sc, seed: d.seed, pre: pre, stde: d.stderr})
	}
	return 0
}

// verify repeats a sample of runs: as sampled, in other processes with other
// predecessors; and as replays of their recorded decisions.
func verify(t *totals, p plan) {
	var seeds []uint64
	for s := range t.bySeed {
		seeds = append(seeds, s)
	}
	sort.Slice(seeds, func(i, j int) bool { return seeds[i] < seeds[j] })
	n := min(p.verify, len(seeds))
	var pick []uint64
	for i := 0; i < n; i++ {
		pick = append(pick, seeds[i*len(seeds)/n])
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	per := max(1, (n+7)/8)
	for i := 0; i < len(pick); i += per {
		part := pick[i:min(i+per, len(pick))]
		wg.Add(1)
		go func() {
			defer wg.Done()
			refs := refsFor(part)
			po := runJob(Job{Prop: *prop, Tier: *tier, Seeds: part, Full: true, Refs: refs, Alone: t.alone})
			var po2 procOut
			if !po.died {
				var scs []*work.Scenario
				for _, r := range po.results {
					scs = append(scs, r.Scenario)
				}
				po2 = runJob(Job{Prop: *prop, Tier: *tier, Scs: scs, Refs: refs, Full: true, Alone: t.alone})
			}
			mu.Lock()
			defer mu.Unlock()
			for which, o := range []procOut{po, po2} {
				if o.died && o.hung {
					again := runJob(Job{Prop: *prop, Tier: *tier, Seeds: []uint64{o.seed}, Refs: refs})
					if v, ok := deathOf(again); again.died && ok {
						t.found = append(t.found, found{v: v, sc: work.Generate(*prop, o.seed, *tier, len(sites)), seed: o.seed, stde: again.stderr})
					} else {
						t.slow(o.seed)
					}
					return
				}
				if o.died {
					t.unequal = append(t.unequal, fmt.Sprintf("run %d died on repetition: %s", o.seed, o.stderr))
					if v, ok := deathOf(o); ok {
						t.found = append(t.found, found{v: v, sc: work.Generate(*prop, o.seed, *tier, len(sites)), seed: o.seed, stde: o.stderr})
					}
					return
				}
				for k, r := range o.results {
					for _, v := range r.Viol { // only when repeated: the process's earlier runs differ
						f := found{v: v, sc: r.Scenario, seed: r.Seed, race: o.race}
						if which == 0 && !t.alone {
							f.pre = part[k-r.Since : k]
						}
						t.found = append(t.found, f)
					}
				}
			}
			for k, r := range po.results {
				want := t.bySeed[part[k]]
				switch {
				case r.Digest != want:
					t.unequal = append(t.unequal, fmt.Sprintf("run %d gave %016x, then %016x", part[k], want, r.Digest))
				case po2.results[k].Digest != want:
					t.unequal = append(t.unequal, fmt.Sprintf("run %d gave %016x, its replay %016x", part[k], want, po2.results[k].Digest))
				default:
					t.verified++
				}
			}
		}()
	}
	wg.Wait()
	sort.Strings(t.unequal)
}

// known findings: lines "finding: property=C01 class=torn match=<text> :: <what fails>".
type knownList []struct{ prop, class, match, what string }

func loadKnown() (k knownList) {
	b, err := os.ReadFile(filepath.Join(*verif, "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: ")
		if !ok {
			continue
		}
		head, what, _ := strings.Cut(rest, " :: ")
		e := struct{ prop, class, match, what string }{what: what}
		if i := strings.Index(head, " match="); i >= 0 {
			e.match = head[i+7:]
			head = head[:i]
		}
		for _, w := range strings.Fields(head) {
			if v, ok := strings.CutPrefix(w, "property="); ok {
				e.prop = v
			}
			if v, ok := strings.CutPrefix(w, "class="); ok {
				e.class = v
			}
		}
		k = append(k, e)
	}
	return k
}

func (k knownList) match(prop string, v work.Violation) string {
	for _, e := range k {
		if e.prop == prop && e.class == v.Class && e.match != "" && strings.Contains(v.Detail, e.match) {
			return e.what
		}
	}
	return ""
}

func writeEvidence(t *totals, p plan, start time.Time, reported []map[string]any) {
	seed := baseSeed()
	cov := map[string]any{
		"evaluations":         t.res,
		"distinct_nontrivial": t.nontriv,
		"rule": "one evaluation is one simulated execution drawn from one seed (workload, schedule, faults, crash point). It counts as distinct and non-trivial if at least one preemption, fault or crash happened in it and the digest of its event sequence " +
			"(every task switch with the tasks' positions, every system call with its result, every result the callers saw) was not produced by an earlier run",
		"runs_per_hour":                    int64(float64(t.res) / t.wall.Hours()),
		"seeds":                            fmt.Sprintf("%d..%d", uint64(seed)<<32, uint64(seed)<<32+uint64(max(t.res, 1)-1)),
		"simulated_time_s":                 float64(t.simNS) / 1e9,
		"statements_executed":              t.steps,
		"operations":                       t.ops,
		"system_calls_simulated":           t.calls,
		"task_switches":                    t.switches,
		"preemptions":                      t.preempts,
		"crashes":                          t.crashes,
		"faults_injected":                  t.faults,
		"conditions_reached":               t.probes,
		"workload_shapes":                  t.shapes,
		"distinct_switch_edges":            len(t.edges),
		"distinct_switch_edges_measure":    "pairs (position of the task switched from, position of the task switched to), a position being a statement of the repository or a system-call number",
		"runs_repeated_and_replayed_equal": t.verified,
		"runs_that_did_not_repeat":         len(t.unequal),
		"fresh_process_for_every_run":      t.alone,
		"instrumented_statements":          len(sites),
		"race_detector":                    raceBuild,
		"real_components":                  "all of github.com/yanun0323/goast from /repo's working tree, golang.org/x/tools/imports (its calls of the go command answered from constants), and the Go standard library and runtime with the scheduling, randomness and system-call entry points redirected",
		"stub_components":                  "kernel file system, standard streams, clock and process life cycle (simulated); subprocesses refused",
		"samples":                          samples(p),
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": seed, "level": "exploration",
		"coverage": cov,
		"assumptions": []string{
			"interleavings are explored at the granularity of statements of the repository and system calls, under sequential consistency; unsynchronised accesses are left to the race detector where the check uses it",
			"the simulated disk keeps metadata operations in order and data not forced out in any part; it has one user",
			"sampling: a clean batch is evidence, not proof",
		},
		"wall_s": time.Since(start).Seconds(),
	}
	ev["violations"] = len(reported)
	if len(reported) > 0 {
		cov["reported"] = reported
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("%v", err)
	}
	dir := filepath.Join(*verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, *prop+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}

// samples shows the first runs of this check as they were generated.
func samples(p plan) []any {
	var out []any
	for i := 0; i < 3 && i < p.runs; i++ {
		sc := work.Generate(*prop, uint64(baseSeed())<<32+uint64(i), *tier, len(sites))
		var files []string
		for _, f := range sc.Files {
			files = append(files, fmt.Sprintf("%s %o %dB", f.Path, f.Mode, len(f.Data)))
		}
		out = append(out, map[string]any{"seed": sc.Seed, "shape": sc.Shape, "files": files, "asts": sc.Asts, "segments": sc.Segs, "umask": sc.Umask})
	}
	return out
}
