package main

import (
	"bufio"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"syscall"

	"verif.local/sim/simrt"
	"verif.local/sim/work"
)

// Job is what one worker process does.
type Job struct {
	Prop   string   `json:"prop"`
	Tier   string   `json:"tier"`
	Seeds  []uint64 `json:"seeds,omitempty"`
	Replay bool     `json:"replay,omitempty"`
	Scs    []*work.Scenario
	NSites int
	Out    string
	Trace  string // file for the event trace
	Full   bool   // keep scenario and history of every run
	Alone  bool   // a fresh process for every run
	Refs   *work.Refs
}

func (j *Job) len() int { return max(len(j.Seeds), len(j.Scs)) }

// resume is what a worker tells its successor after a simulated restart.
type resume struct {
	Index, Since int
	State        *work.State
}

func worker(jobFile string) {
	var job Job
	b, err := os.ReadFile(jobFile)
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, &job); err != nil {
		die("%v", err)
	}
	st := resume{}
	if f, err := os.Open(jobFile + ".state"); err == nil {
		if err := gob.NewDecoder(f).Decode(&st); err != nil {
			die("state: %v", err)
		}
		f.Close()
		os.Remove(jobFile + ".state")
	}
	os.Unsetenv("TMPDIR") // the simulated one is /tmp
	out, err := os.OpenFile(job.Out, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
	if err != nil {
		die("%v", err)
	}
	var trace func(string)
	var tw *bufio.Writer
	if job.Trace != "" {
		f, err := os.OpenFile(job.Trace, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		if err != nil {
			die("%v", err)
		}
		tw = bufio.NewWriter(f)
		trace = func(s string) { tw.WriteString(s + "\n") }
	}
	again := func(r resume) {
		if tw != nil {
			tw.Flush()
		}
		f, err := os.Create(jobFile + ".state")
		if err == nil {
			err = gob.NewEncoder(f).Encode(&r)
		}
		if err == nil {
			err = f.Close()
		}
		if err == nil {
			err = syscall.Exec(os.Args[0], os.Args, os.Environ())
		}
		die("restart: %v", err)
	}
	os.Stdout.Sync()
	simrt.InBubble(func() {
		since := st.Since
		for i := st.Index; i < job.len(); i++ {
			var w *work.World
			if st.State != nil {
				w = work.NewWorld(st.State.Sc, st.State, job.NSites, races)
				st.State = nil
			} else {
				var sc *work.Scenario
				if len(job.Scs) > 0 {
					sc = job.Scs[i]
				} else {
					sc = work.Generate(job.Prop, job.Seeds[i], job.Tier, job.NSites)
				}
				w = work.NewWorld(sc, nil, job.NSites, races)
			}
			w.Trace = trace
			w.Refs = job.Refs
			// Announce the run, so that a death can be attributed.
			fmt.Fprintf(out, "{\"start\":%d,\"seed\":%d}\n", i, w.Sc.Seed)
			res := w.Run(func(s *work.State) { again(resume{i, since, s}) })
			res.Since = since
			since++
			if len(res.Viol) > 0 || job.Full {
				sc := *w.Sc
				sc.Segs = append([]work.Seg(nil), sc.Segs...)
				for k := range sc.Segs {
					if k < len(res.Plans) {
						sc.Segs[k].Plan = res.Plans[k]
					} else {
						sc.Segs[k].Plan = nil
					}
				}
				sc.Replay = true
				res.Scenario = &sc
				res.Hist = w.Hist
			}
			res.Plans = nil
			b, err := json.Marshal(res)
			if err != nil {
				die("%v", err)
			}
			if _, err := out.Write(append(b, '\n')); err != nil {
				die("%v", err)
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if i+1 < job.len() && (ms.HeapAlloc > 600<<20 || len(w.Sc.Segs) > 1 || w.Dirty || job.Alone) {
				again(resume{i + 1, 0, nil})
			}
		}
		if tw != nil {
			tw.Flush()
		}
		os.Exit(0) // callers of a run that ended early are still parked
	})
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "simcheck: "+f+"\n", a...)
	os.Exit(3)
}
