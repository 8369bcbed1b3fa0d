// simcheck searches simulated executions of the repository for a violation of
// one property.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/sim/work"
)

var (
	prop    = flag.String("prop", "", "property")
	tier    = flag.String("tier", "quick", "quick or thorough")
	runs    = flag.Int("runs", 0, "number of runs (0: by tier)")
	budget  = flag.Duration("budget", 0, "wall-clock budget (0: by tier)")
	verif   = flag.String("verif", "/verif", "where evidence and replays go")
	scratch = flag.String("scratch", "", "scratch directory")
	sitesF  = flag.String("sites", "", "sites.json of this build")
	replayF = flag.String("replay", "", "replay this file")
	seedF   = flag.Int64("one", -1, "run one seed and show it")
	after   = flag.Int("after", 0, "with -one: run so many seeds before it")
	keep    = flag.Bool("keep", false, "keep the scratch directory")
	workers = flag.Int("workers", 8, "worker processes")
	chunkF  = flag.Int("chunk", 0, "runs per worker process")
	verifyF = flag.Int("verify", 0, "repeat so many runs to show that they repeat exactly")
	dump    = flag.Bool("dump", false, "print seed and digest of every run")
)

type site struct {
	File string
	Line int
	Fn   string
}

var sites []site

func main() {
	if len(os.Args) > 2 && os.Args[1] == "worker" {
		worker(os.Args[2])
		return
	}
	flag.Parse()
	if s := os.Getenv("VERIF_TIER"); s != "" && !flagSet("tier") {
		*tier = s
	}
	b, err := os.ReadFile(*sitesF)
	if err != nil {
		die("%v", err)
	}
	if err := json.Unmarshal(b, &sites); err != nil {
		die("%v", err)
	}
	if *scratch == "" {
		*scratch, err = os.MkdirTemp("", "simcheck")
		if err != nil {
			die("%v", err)
		}
	} else if err := os.MkdirAll(*scratch, 0o755); err != nil {
		die("%v", err)
	}
	code := 0
	switch {
	case *replayF != "":
		code = doReplay(*replayF)
	case *seedF >= 0:
		code = one(uint64(*seedF))
	default:
		code = check()
	}
	if !*keep {
		os.RemoveAll(*scratch)
	}
	os.Exit(code)
}

func flagSet(n string) (ok bool) {
	flag.Visit(func(f *flag.Flag) { ok = ok || f.Name == n })
	return
}

var (
	jobN  int
	jobMu sync.Mutex
)

// outcome of a worker process.
type procOut struct {
	results []*work.Result
	died    bool
	hung    bool
	busy    float64 // seconds of processor time of the run it hung in
	at      int     // index of the run it died in
	seed    uint64
	stderr  string
	race    string
}

// runJob runs a worker process to its end.
func runJob(job Job) procOut {
	jobMu.Lock()
	jobN++
	name := filepath.Join(*scratch, fmt.Sprintf("job%06d", jobN))
	jobMu.Unlock()
	job.Out = name + ".out"
	job.NSites = len(sites)
	b, _ := json.Marshal(job)
	if err := os.WriteFile(name, b, 0o644); err != nil {
		die("%v", err)
	}
	defer func() {
		if !*keep {
			l, _ := filepath.Glob(name + "*")
			for _, f := range l {
				os.Remove(f)
			}
		}
	}()
	exe, _ := os.Executable()
	cmd := exec.Command(exe, "worker", name)
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=/nonexistent", "GODEBUG=asyncpreemptoff=1", "TMPDIR=/tmp", "TZ=UTC",
		"GORACE=atexit_sleep_ms=0 suppress_equal_stacks=0 suppress_equal_addresses=0 halt_on_error=0 exitcode=0 log_path=" + name + ".race"}
	cmd.Dir = "/"
	var errb bytes.Buffer
	cmd.Stderr = &limited{b: &errb}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		die("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	po := procOut{}
	size, idle, busy := int64(-1), 0, 0.0
	for wait := true; wait; {
		select {
		case err = <-done:
			wait = false
		case <-time.After(5 * time.Second):
			var n int64
			if fi, e := os.Stat(job.Out); e == nil {
				n = fi.Size()
			}
			if n != size {
				size, idle, busy = n, 0, cpuOf(cmd.Process.Pid)
				continue
			}
			idle++
			if po.busy = cpuOf(cmd.Process.Pid) - busy; idle >= 12 && po.busy > endless || idle >= 60 {
				po.hung = true
				syscall.Kill(cmd.Process.Pid, syscall.SIGQUIT) // shows where it is
				select {
				case err = <-done:
				case <-time.After(10 * time.Second):
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					err = <-done
				}
				wait = false
			}
		}
	}
	data, _ := os.ReadFile(job.Out)
	po.at = -1
	for _, l := range bytes.Split(data, []byte("\n")) {
		if len(l) == 0 {
			continue
		}
		if bytes.HasPrefix(l, []byte(`{"start"`)) {
			var s struct {
				Start int
				Seed  uint64
			}
			json.Unmarshal(l, &s)
			po.at, po.seed = s.Start, s.Seed
			continue
		}
		r := &work.Result{}
		if e := json.Unmarshal(l, r); e != nil {
			if err == nil {
				die("bad worker output: %v", e)
			}
			continue
		}
		po.results = append(po.results, r)
	}
	if job.Trace != "" {
		_ = job.Trace
	}
	rl, _ := filepath.Glob(name + ".race.*")
	sort.Strings(rl)
	for _, f := range rl {
		b, _ := os.ReadFile(f)
		po.race += string(b)
	}
	po.stderr = errb.String()
	if err != nil || po.hung {
		po.died = true
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 3 {
			die("worker: %s", po.stderr)
		}
	} else if len(po.results) != job.len() {
		die("worker returned %d results for %d runs: %s", len(po.results), job.len(), po.stderr)
	}
	return po
}

// endless is the processor time, in seconds, after which a run counts as one
// that does not end; runs take some milliseconds.
const endless = 45

// cpuOf is the processor time a child of this process has used, in seconds.
func cpuOf(pid int) float64 {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	s, _ := strconv.ParseFloat(f[12], 64)
	return (u + s) / 100
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<16 {
		l.b.Write(p)
	}
	return len(p), nil
}

// deathOf turns the death of a worker into a violation, if it is the fault of
// the code under test.
func deathOf(po procOut) (work.Violation, bool) {
	s := po.stderr
	if po.hung {
		if po.busy < endless || !strings.Contains(s, "yanun0323/goast") {
			return work.Violation{}, false
		}
		return work.Violation{Class: "no-end", Detail: fmt.Sprintf("a run that takes a moment did not end within %d s of processor time; a caller is in %s", endless, strings.Join(goastFrames(s), " < "))}, true
	}
	i := strings.Index(s, "fatal error: ")
	if i < 0 {
		i = strings.Index(s, "panic: ")
		if i < 0 {
			return work.Violation{}, false
		}
		g := s[i:]
		if j := strings.Index(g, "\n\ngoroutine "); j >= 0 {
			g = g[j+2:]
			if k := strings.Index(g, "\n\n"); k >= 0 {
				g = g[:k]
			}
		}
		if !strings.Contains(g, "created by github.com/yanun0323/goast") && !strings.Contains(g, "created by golang.org/x/tools") {
			return work.Violation{}, false
		}
	}
	line := s[i:]
	if j := strings.IndexByte(line, '\n'); j >= 0 {
		line = line[:j]
	}
	if strings.Contains(line, "simrt: ") || strings.Contains(line, "out of memory") || strings.Contains(line, "all goroutines are asleep") {
		return work.Violation{}, false
	}
	if !strings.Contains(s, "yanun0323/goast") {
		return work.Violation{}, false
	}
	return work.Violation{Class: "process-died", Detail: "the whole process died: " + line + "; in " + strings.Join(goastFrames(s[i:]), " < ")}, true
}

func goastFrames(s string) (at []string) {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "github.com/yanun0323/goast") && len(at) < 4 {
			at = append(at, l)
		}
	}
	return
}

func baseSeed() int64 {
	s := os.Getenv("VERIF_SEED")
	if s == "" {
		return 1
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		die("VERIF_SEED: %v", err)
	}
	return n
}

func one(seed uint64) int {
	var seeds []uint64
	for i := *after; i >= 0; i-- {
		seeds = append(seeds, seed-uint64(i))
	}
	po := runJob(Job{Prop: *prop, Tier: *tier, Seeds: seeds, Trace: filepath.Join(*scratch, "trace"), Full: true, Refs: refsFor(seeds)})
	if po.died {
		fmt.Println("died:", po.stderr)
		return 3
	}
	t, _ := os.ReadFile(filepath.Join(*scratch, "trace"))
	fmt.Print(string(t))
	b, _ := json.MarshalIndent(po.results[len(po.results)-1], "", " ")
	fmt.Println(string(b))
	fmt.Println(po.race, po.stderr)
	// The same run from its recorded plan.
	last := po.results[len(po.results)-1]
	rp := runJob(Job{Prop: *prop, Tier: *tier, Scs: []*work.Scenario{last.Scenario}, Trace: filepath.Join(*scratch, "trace-replay"), Full: true, Refs: refsFor(seeds[len(seeds)-1:])})
	if rp.died {
		fmt.Println("replay died:", rp.stderr)
		return 3
	}
	t2, _ := os.ReadFile(filepath.Join(*scratch, "trace-replay"))
	if rp.results[0].Digest != last.Digest {
		fmt.Printf("replay: %016x, first run %016x\n", rp.results[0].Digest, last.Digest)
		fmt.Print(string(t2))
	}
	return 0
}
