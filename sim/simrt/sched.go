package simrt

import (
	"runtime"
	"runtime/debug"
	"syscall"
	"testing/synctest"
	"time"
	"unsafe"

	"verif.local/sim/simfs"
)

// Dec is one decision of the scheduler or the fault injector that differs from
// the default (keep running; no fault). It is keyed by what the task itself has
// done so far, so dropping one decision leaves the others meaningful.
type Dec struct {
	K  string `json:"k"`            // y: preempt at statement; c: at system call; m: at a harness event; s: choice when a task stops; f: fault; d: delay; p: delay at a statement; x: crash
	T  int    `json:"t"`            // task
	N  int    `json:"n"`            // its statement, system call or stop number
	To int    `json:"to,omitempty"` // task to run instead
	// faults and crashes
	Errno int    `json:"errno,omitempty"`
	Bytes int    `json:"bytes,omitempty"` // transfer limit; -1: none
	After bool   `json:"after,omitempty"`
	Lose  bool   `json:"lose,omitempty"`
	Delay int64  `json:"delay,omitempty"`
	Call  string `json:"call,omitempty"` // for the reader: system call and path
}

type decKey struct {
	k    string
	t, n int
}

// Policy says how interleavings are sampled.
type Policy struct {
	Mean    int     `json:"mean"`          // mean statements between random preemptions; 0: none
	SysProb float64 `json:"sysp"`          // probability of a switch at a system call
	Hot     []int   `json:"hot,omitempty"` // sites that always stop
	HotProb float64 `json:"hotp"`          // probability of a switch at a hot site
	StopRnd bool    `json:"stoprnd"`       // random choice when a task stops
	Prio    bool    `json:"prio"`          // PCT: strict priorities, changed at random points
	Changes []int   `json:"changes,omitempty"`
	Stall   float64 `json:"stall,omitempty"` // probability that a task that stops at a statement sleeps there
}

// Outcome of a run.
type Outcome struct {
	Kind     string // ok, crash, deadlock, budget, panic
	Detail   string
	Steps    int64
	Switches int
	Preempts int
	Calls    int
	SimTime  time.Duration
	Digest   uint64
	Decs     []Dec
	Faults   map[string]int // kind -> times fired
	CrashAt  string
	Foreign  int
	Edges    []uint64 // switch points seen (site -> site), hashed
}

// Env is one simulated run.
type Env struct {
	Seed     uint64
	Policy   Policy
	Plan     []Dec // replay: exactly these decisions
	Replay   bool
	MaxSteps int64
	NSites   int

	// Sample decides, in sampling mode, what happens to a call.
	Sample func(t *Task, idx int, c *simfs.Call) (Dec, bool)
	// Do executes a call.
	Do func(c *simfs.Call, f simfs.Fault) (uintptr, syscall.Errno)
	// Event, if set, gets a line per event (replay with trace).
	Event func(string)

	rng     Rng
	plan    map[decKey]Dec
	planY   map[int][]int // task -> planned statements, ascending
	out     Outcome
	edges   map[uint64]struct{}
	started int
	runner  int
	stalls  int
	since   int64
	blocked bool // somebody was blocked in a primitive during the last step
	now0    time.Time
}

// Rng is splitmix64.
type Rng uint64

// Next draws.
func (r *Rng) Next() uint64 {
	*r += 0x9e3779b97f4a7c15
	z := uint64(*r)
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// Intn draws from [0,n).
func (r *Rng) Intn(n int) int { return int(r.Next() % uint64(n)) }

// P is true with probability p.
func (r *Rng) P(p float64) bool { return float64(r.Next()>>11)/(1<<53) < p }

// Geo draws a geometric number with the given mean (at least 1).
func (r *Rng) Geo(mean int) int {
	if mean > 64 { // coarse for long gaps
		return 1 + r.Intn(2*mean)
	}
	n := 1
	for n < 100*mean && r.Intn(mean) != 0 {
		n++
	}
	return n
}

// Mix hashes two words.
func Mix(a, b uint64) uint64 {
	r := Rng(a ^ b*0x9e3779b97f4a7c15)
	return r.Next()
}

func (e *Env) fold(vs ...uint64) {
	h := e.out.Digest
	for _, v := range vs {
		for i := 0; i < 8; i++ {
			h ^= v & 0xff
			h *= 0x100000001b3
			v >>= 8
		}
	}
	e.out.Digest = h
}

// InBubble runs f as the monitor of a fresh simulation process.
func InBubble(f func()) {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	syscall.SimHook = Hook
	syscall.SimExit = Exit
	synctest.SimRun(func() {
		monGoid = runtime.SimGoid()
		f()
	})
}

// Start begins a run; it must be called by the monitor.
func (e *Env) Start() {
	e.rng = Rng(Mix(e.Seed, 0x5c4ed))
	e.out = Outcome{Faults: map[string]int{}, Digest: 0xcbf29ce484222325}
	e.edges = map[uint64]struct{}{}
	e.plan = map[decKey]Dec{}
	e.planY = map[int][]int{}
	for _, d := range e.Plan {
		k := d.K
		if k == "x" {
			k = "f"
		}
		e.plan[decKey{k, d.T, d.N}] = d
		if k == "y" || k == "p" {
			e.planY[d.T] = append(e.planY[d.T], d.N)
		}
	}
	for _, l := range e.planY {
		for i := range l { // insertion sort
			for j := i; j > 0 && l[j] < l[j-1]; j-- {
				l[j], l[j-1] = l[j-1], l[j]
			}
		}
	}
	e.now0 = time.Now()
	if len(hot) < e.NSites+1 {
		hot = make([]bool, e.NSites+1)
	}
	clear(hot)
	if !e.Replay {
		for _, h := range e.Policy.Hot {
			if h >= 0 && h < len(hot) {
				hot[h] = true
			}
		}
	}
	startState(e.MaxSteps)
}

//go:norace
func startState(max int64) {
	for i := 0; i < ntasks; i++ {
		reset(&tasks[i])
	}
	ntasks, nlive, pruned, seq, total, maxSteps = 0, 0, 0, 0, 0, max
}

// Phase runs the given callers concurrently to completion. It returns false if
// the run ended (crash, deadlock, step budget).
func (e *Env) Phase(fns []func()) bool {
	base := addTasks(len(fns))
	for i, f := range fns {
		e.spawn(base+i, f)
	}
	enable(true)
	runtime.SimIdle()
	ok := e.loop()
	enable(false)
	return ok
}

// enable is true only while tasks may run.
//
//go:norace
func enable(b bool) { on = b; curGoid = 0; cur = nil; atomic = false }

//go:norace
func addTasks(n int) int {
	if ntasks+n > MaxCallers {
		panic("simrt: too many tasks")
	}
	b := ntasks
	for i := 0; i < n; i++ {
		reset(&tasks[b+i])
		tasks[b+i].ID, tasks[b+i].Root = b+i, b+i
		tasks[b+i].state = stRun
		live[nlive] = int32(b + i)
		nlive++
	}
	ntasks += n
	return b
}

func (e *Env) spawn(id int, f func()) {
	t := &tasks[id]
	setRand(t, Mix(e.Seed, uint64(id)+1000), e.rng.Intn(1<<20))
	go func() { taskMain(t, f) }()
}

//go:norace
func setRand(t *Task, r uint64, prio int) { t.rand, t.prio = r, prio }

//go:norace
func taskMain(t *Task, f func()) {
	t.goid = runtime.SimGoid()
	t.g = runtime.SimG()
	stop(t, stReady)
	f()
	t.state = stDone
}

// grant lets t run until it stops; returns when nothing can run any more.
//
//go:norace
func (e *Env) grant(t *Task) {
	if t.call.Trap != ^uintptr(0) && t.state == stCall {
		if !e.execCall(t) {
			return
		}
	}
	t.state, t.atY = stRun, false
	e.blocked = false
	for _, i := range live[:nlive] {
		if o := &tasks[i]; o != t && o.state == stRun {
			e.blocked = true
		}
	}
	e.setLeft(t)
	cur = t
	curGoid = t.goid
	before := t.steps
	runtime.SimRandSwap(true, t.rand)
	runtime.SimReady(t.g)
	runtime.SimIdle()
	t.rand = runtime.SimRandSwap(false, 0)
	total += int64(t.steps - before)
	cur, curGoid = nil, 0
}

//go:norace
func (e *Env) setLeft(t *Task) {
	n := int(min(maxSteps-total+1, 100001))
	if e.Replay {
		l := e.planY[t.ID]
		for len(l) > 0 && l[0] <= t.steps {
			l = l[1:]
		}
		e.planY[t.ID] = l
		if len(l) > 0 {
			n = min(n, l[0]-t.steps)
		}
	} else {
		if e.Policy.Mean > 0 {
			n = min(n, e.rng.Geo(e.Policy.Mean))
		}
		for _, c := range e.Policy.Changes {
			if int64(c) > total {
				n = min(n, int(int64(c)-total))
				break
			}
		}
	}
	left = n
}

//go:norace
func (e *Env) ready(t *Task) bool { return t.state == stReady || t.state == stCall }

//go:norace
func (e *Env) readyList(buf []int) []int {
	buf = buf[:0]
	for _, i := range live[:nlive] {
		if e.ready(&tasks[i]) {
			buf = append(buf, int(i))
		}
	}
	return buf
}

//go:norace
func (e *Env) loop() bool {
	var buf []int
	last := -1
	for {
		if ntasks-pruned > 32 {
			prune()
		}
		// Goroutines that turned up by themselves get their random stream.
		for _, i := range live[:nlive] {
			if tasks[i].Foreign && tasks[i].rand == 0 {
				setRand(&tasks[i], Mix(e.Seed, uint64(i)+1000), e.rng.Intn(1<<20))
				e.out.Foreign++
			}
		}
		if total > maxSteps || e.out.Calls > 50000 {
			return e.finish("budget", "the run did not finish within the step budget")
		}
		buf = e.readyList(buf)
		if len(buf) == 0 {
			if !e.wakeDelayed() {
				if e.allDone() {
					return true
				}
				if !e.waitClock() {
					return e.finish("deadlock", "every unfinished caller is blocked and nothing can wake it")
				}
			}
			continue
		}
		if e.stall(last) {
			continue
		}
		n := e.choose(last, buf)
		t := &tasks[n]
		if n != last {
			e.out.Switches++
			if last >= 0 {
				a := uint64(tasks[last].site)
				if tasks[last].state == stCall {
					a = 1<<20 | uint64(tasks[last].call.Trap)
				}
				b := uint64(t.site)
				if t.state == stCall {
					b = 1<<20 | uint64(t.call.Trap)
				}
				e.edges[a<<32|b] = struct{}{}
			}
			e.fold(uint64(n), uint64(t.steps), uint64(t.calls))
			if e.Event != nil {
				e.ev("switch", t, "")
			}
		}
		e.grant(t)
		if e.out.Kind != "" {
			return false
		}
		last = n
	}
}

// prune forgets goroutines that have ended.
//
//go:norace
func prune() {
	n := 0
	for _, i := range live[:nlive] {
		if t := &tasks[i]; t.Foreign && t.state == stRun && runtime.SimDead(t.g, t.goid) {
			t.state = stDone
			continue
		}
		live[n] = i
		n++
	}
	nlive, pruned = n, ntasks
}

// wakeDelayed advances the clock to the next sleeping task, if there is one.
//
//go:norace
func (e *Env) wakeDelayed() bool {
	var w *Task
	for _, i := range live[:nlive] {
		t := &tasks[i]
		if t.state == stDelay && (w == nil || t.wakeAt < w.wakeAt) {
			w = t
		}
	}
	if w == nil {
		return false
	}
	if w.wakeAt > 0 {
		time.Sleep(time.Duration(w.wakeAt))
		d := w.wakeAt
		for _, i := range live[:nlive] {
			if t := &tasks[i]; t.state == stDelay {
				t.wakeAt -= d
			}
		}
	}
	for _, i := range live[:nlive] {
		if t := &tasks[i]; t.state == stDelay && t.wakeAt <= 0 {
			if t.call.Trap != ^uintptr(0) {
				t.state = stCall
			} else {
				t.state = stReady
			}
		}
	}
	return true
}

// waitClock lets simulated time pass for goroutines with timers of their own.
//
//go:norace
func (e *Env) waitClock() bool {
	var buf []int
	for d := time.Millisecond; d < time.Hour; d *= 2 {
		if !runtime.SimOthersDurable() {
			return false
		}
		runtime.SimRandSwap(true, Mix(e.Seed, uint64(total)))
		time.Sleep(d)
		runtime.SimIdle()
		runtime.SimRandSwap(false, 0)
		if buf = e.readyList(buf); len(buf) > 0 || e.allDone() {
			return true
		}
	}
	return false
}

// Drain lets the goroutines the code under test has started go on, after the end
// of the callers, for some hours of simulated time.
func (e *Env) Drain() {
	enable(true)
	for d := time.Millisecond; d < 4*time.Hour; d *= 4 {
		runtime.SimRandSwap(true, Mix(e.Seed, uint64(d)))
		time.Sleep(d)
		runtime.SimIdle()
		runtime.SimRandSwap(false, 0)
		e.loop()
	}
	enable(false)
}

// stall makes the task that just stopped at a statement sleep there.
//
//go:norace
func (e *Env) stall(last int) bool {
	if last < 0 || !tasks[last].atY || tasks[last].state != stReady {
		return false
	}
	t := &tasks[last]
	var d Dec
	if e.Replay {
		var ok bool
		if d, ok = e.plan[decKey{"p", last, t.steps}]; !ok || t.paused == t.steps+1 {
			return false
		}
	} else {
		if e.Policy.Stall == 0 || e.stalls >= 30 || t.paused == t.steps+1 || !e.rng.P(e.Policy.Stall) {
			return false
		}
		d = Dec{K: "p", T: last, N: t.steps, Delay: 1 + int64(e.rng.Next()>>(22+uint(e.rng.Intn(30))))}
	}
	e.stalls++
	t.paused = t.steps + 1
	e.out.Decs = append(e.out.Decs, d)
	e.out.Faults["stall at a statement"]++
	e.ev("stall", t, "")
	t.wakeAt = d.Delay
	t.state = stDelay
	return true
}

//go:norace
func (e *Env) allDone() bool {
	for _, i := range live[:nlive] {
		if t := &tasks[i]; !t.Foreign && t.state != stDone {
			return false
		}
	}
	return true
}

//go:norace
func (e *Env) choose(last int, ready []int) int {
	var key decKey
	self := -1
	def := ready[0]
	for _, r := range ready {
		if r == last {
			self = r
		}
	}
	if self >= 0 {
		t := &tasks[self]
		def = self
		if t.state == stCall && t.call.Trap == trapFn {
			key = decKey{"m", self, t.marks}
		} else if t.state == stCall {
			key = decKey{"c", self, t.calls}
		} else {
			key = decKey{"y", self, t.steps}
		}
	} else {
		n := 0
		if last >= 0 {
			tasks[last].stops++
			n = tasks[last].stops
			for _, r := range ready {
				if r > last {
					def = r
					break
				}
			}
		} else {
			e.started++
			n = e.started
		}
		key = decKey{"s", last, n}
	}
	if e.Replay {
		if d, ok := e.plan[key]; ok {
			for _, r := range ready {
				if r == d.To {
					def = r
					break
				}
			}
		}
		return def
	}
	pick := def
	if len(ready) > 1 {
		sw := false
		if e.Policy.Prio && self >= 0 {
			if self != e.runner {
				e.runner, e.since = self, total
			} else if total-e.since > 100000 { // strict priorities must not starve anybody for ever
				tasks[self].prio = -abs(tasks[self].prio) - 1 - e.rng.Intn(1000)
				e.since = total
			}
		}
		switch {
		case e.Policy.Prio:
			if key.k == "y" {
				for _, c := range e.Policy.Changes {
					if int64(c) == total {
						tasks[self].prio = -tasks[self].prio - e.rng.Intn(1000)
					}
				}
			}
			for _, r := range ready {
				if tasks[r].prio > tasks[pick].prio {
					pick = r
				}
			}
		case key.k == "y":
			if hot[tasks[self].site] {
				sw = e.rng.P(e.Policy.HotProb)
			} else {
				sw = true
			}
		case key.k == "c" || key.k == "m":
			sw = e.rng.P(e.Policy.SysProb)
		case e.Policy.StopRnd:
			pick = ready[e.rng.Intn(len(ready))]
		}
		if sw {
			pick = ready[e.rng.Intn(len(ready))]
		}
	}
	if pick != def {
		e.out.Preempts++
	}
	// If somebody was blocked in a primitive of the program when the running
	// task was let go, the stop itself matters, even if the task goes on
	// afterwards: whoever it woke got to run in between.
	if pick != def || (key.k == "y" && e.blocked) {
		e.out.Decs = append(e.out.Decs, Dec{K: key.k, T: key.t, N: key.n, To: pick})
	}
	return pick
}

// execCall carries out the pending call of t. False: t does not go on now.
//
//go:norace
func (e *Env) execCall(t *Task) bool {
	c := &t.call
	if c.Trap == trapFn {
		t.marks++
		c.Trap = ^uintptr(0)
		if t.fn != nil {
			t.fn()
			t.fn = nil
		}
		return true
	}
	if c.Trap == trapExit {
		return e.finish("exit", t.PStack)
	}
	idx := t.calls
	var p [6]unsafe.Pointer
	for i := range p {
		if len(c.B[i]) > 0 {
			p[i] = unsafe.Pointer(&c.B[i][0])
		}
	}
	sc := &simfs.Call{Task: t.ID, Trap: c.Trap, A: &c.A, P: &p}
	var d Dec
	have, slow := false, false
	if e.Replay {
		if t.served != idx+1 {
			d, slow = e.plan[decKey{"d", t.ID, idx}]
		}
		if !slow {
			d, have = e.plan[decKey{"f", t.ID, idx}]
		}
	} else if t.served != idx+1 && e.Sample != nil {
		d, have = e.Sample(t, idx, sc)
		if have && d.K == "d" {
			slow, have = true, false
		}
	}
	if slow {
		d.T, d.N = t.ID, idx
		d.Call = sc.Name() + " " + sc.Path()
		e.out.Decs = append(e.out.Decs, d)
		e.out.Faults["delay"]++
		e.ev("delay", t, d.Call)
		t.served = idx + 1
		t.wakeAt = d.Delay
		t.state = stDelay
		return false
	}
	f := simfs.NoFault
	if have {
		d.T, d.N = t.ID, idx
		d.Call = sc.Name() + " " + sc.Path()
		e.out.Decs = append(e.out.Decs, d)
		f = simfs.Fault{Errno: syscall.Errno(d.Errno), N: d.Bytes, After: d.After, Lose: d.Lose}
		if d.K == "x" {
			e.out.CrashAt = d.Call
			e.out.Faults["crash"]++
			if d.After {
				f.After = false
				e.Do(sc, f)
			}
			e.ev("crash", t, d.Call)
			e.finish("crash", d.Call)
			return false
		}
		e.out.Faults[faultName(sc, d)]++
		e.ev("fault", t, d.Call+" "+faultName(sc, d))
	}
	t.calls++
	e.out.Calls++
	r, en := e.Do(sc, f)
	c.Ret, c.Err = r, en
	e.fold(uint64(t.ID), uint64(c.Trap), uint64(r), uint64(en), uint64(t.steps))
	if e.Event != nil {
		e.ev("call", t, sc.Name()+" "+sc.Path()+" = "+itoa(int(r))+" "+errStr(en))
	}
	c.Trap = ^uintptr(0)
	return true
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}

func errStr(e syscall.Errno) string {
	if e == 0 {
		return ""
	}
	return e.Error()
}

func itoa(n int) string {
	var b [24]byte
	i := len(b)
	neg := n < 0
	if neg {
		n = -n
	}
	for {
		i--
		b[i] = byte('0' + n%10)
		n /= 10
		if n == 0 {
			break
		}
	}
	if neg {
		i--
		b[i] = '-'
	}
	return string(b[i:])
}

func faultName(c *simfs.Call, d Dec) string {
	n := c.Name()
	if d.Errno != 0 {
		n += ":" + ErrName(syscall.Errno(d.Errno))
		if d.Bytes > 0 {
			n += "+partial"
		}
		if d.After {
			n += "+applied"
		}
		if d.Lose {
			n += "+lost"
		}
	} else {
		n += ":short"
	}
	return n
}

// ErrName is the symbolic name of an errno.
func ErrName(e syscall.Errno) string {
	switch e {
	case syscall.EIO:
		return "EIO"
	case syscall.ENOSPC:
		return "ENOSPC"
	case syscall.EINTR:
		return "EINTR"
	case syscall.EACCES:
		return "EACCES"
	case syscall.EMFILE:
		return "EMFILE"
	case syscall.ENFILE:
		return "ENFILE"
	case syscall.ENOMEM:
		return "ENOMEM"
	case syscall.EROFS:
		return "EROFS"
	case syscall.EDQUOT:
		return "EDQUOT"
	case syscall.EXDEV:
		return "EXDEV"
	case syscall.EBUSY:
		return "EBUSY"
	case syscall.EPERM:
		return "EPERM"
	case syscall.EAGAIN:
		return "EAGAIN"
	}
	return itoa(int(e))
}

//go:norace
func (e *Env) ev(kind string, t *Task, s string) {
	if e.Event != nil {
		e.Event(kind + " task=" + itoa(t.ID) + " step=" + itoa(t.steps) + " call=" + itoa(t.calls) + " site=" + itoa(t.site) + " " + s)
	}
}

func (e *Env) finish(kind, detail string) bool {
	e.out.Kind, e.out.Detail = kind, detail
	return false
}

// End returns what happened.
//
//go:norace
func (e *Env) End() *Outcome {
	if e.out.Kind == "" {
		e.out.Kind = "ok"
	}
	e.out.Steps = total
	e.out.SimTime = time.Since(e.now0)
	for k := range e.edges {
		e.out.Edges = append(e.out.Edges, k)
	}
	return &e.out
}

// Fold mixes harness observations into the digest.
func (e *Env) Fold(vs ...uint64) { e.fold(vs...) }

// FoldString mixes a string in.
func (e *Env) FoldString(s string) {
	for i := 0; i < len(s); i++ {
		e.out.Digest ^= uint64(s[i])
		e.out.Digest *= 0x100000001b3
	}
}

// Calls of a task so far (monitor only).
//
//go:norace
func (t *Task) Calls() int { return t.calls }
