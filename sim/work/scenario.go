package work

import (
	"encoding/json"
	"unicode/utf8"

	"verif.local/sim/simrt"
)

// Op is one call a simulated caller makes.
type Op struct {
	K     string `json:"k"`
	Ast   int    `json:"ast,omitempty"`  // prepared AST
	Src   int    `json:"src,omitempty"`  // source text
	Path  string `json:"path,omitempty"` // argument
	File  string `json:"file,omitempty"` // the file it stands for
	Auto  int    `json:"auto,omitempty"` // 0: argument omitted, 1: false, 2: true
	Think int64  `json:"think,omitempty"`
	Want  string `json:"want,omitempty"` // ok, err, nx: what must happen when nothing goes wrong
	A     int    `json:"a,omitempty"`
	B     int    `json:"b,omitempty"`
	C     int    `json:"c,omitempty"`
	S     string `json:"s,omitempty"`
}

// AstSpec says how a prepared AST is made.
type AstSpec struct {
	How string `json:"how"` // see makeAst
	Src int    `json:"src"`

	Path string `json:"path,omitempty"` // loaded from this file
}

// FileSpec is a file of the initial tree.
type FileSpec struct {
	Path string
	Data string
	Mode uint32
	Like uint64 // not Path, but a name like those the code under test makes up when it saves to Path
}

// fileJSON is how a FileSpec is written down: JSON texts are UTF-8, files need
// not be.
type fileJSON struct {
	Path string `json:"path"`
	Data string `json:"data,omitempty"`
	Raw  []byte `json:"raw,omitempty"`
	Mode uint32 `json:"mode"`
	Like uint64 `json:"like,omitempty"`
}

func (f FileSpec) MarshalJSON() ([]byte, error) {
	if utf8.ValidString(f.Data) {
		return json.Marshal(fileJSON{f.Path, f.Data, nil, f.Mode, f.Like})
	}
	return json.Marshal(fileJSON{f.Path, "", []byte(f.Data), f.Mode, f.Like})
}

func (f *FileSpec) UnmarshalJSON(b []byte) error {
	var j fileJSON
	if err := json.Unmarshal(b, &j); err != nil {
		return err
	}
	*f = FileSpec{j.Path, j.Data, j.Mode, j.Like}
	if j.Raw != nil {
		f.Data = string(j.Raw)
	}
	return nil
}

// FaultCfg says which faults are sampled.
type FaultCfg struct {
	Rate   float64  `json:"rate,omitempty"`  // per call
	Task   int      `json:"task,omitempty"`  // targeted: this task ...
	Call   int      `json:"call,omitempty"`  // ... at this call (1-based); 0: none
	Span   int      `json:"span,omitempty"`  // ... and this many calls after it
	Hard   bool     `json:"hard,omitempty"`  // errors (otherwise only EINTR and short transfers)
	Soft   bool     `json:"soft,omitempty"`  // EINTR and short transfers
	Delay  float64  `json:"delay,omitempty"` // probability of a slow call
	MaxD   int64    `json:"maxd,omitempty"`  // longest delay
	Stdio  float64  `json:"stdio,omitempty"` // faults on standard output and error
	Stall  int64    `json:"stall,omitempty"` // delay of the targeted call, instead of a fault
	Crowd  bool     `json:"crowd,omitempty"` // stall every other task instead
	Quota  int64    `json:"quota,omitempty"` // free bytes; 0: unlimited
	Max    int      `json:"max,omitempty"`   // at most so many faults
	Crash  string   `json:"crash,omitempty"` // process, power
	CrashT int      `json:"crasht,omitempty"`
	CrashN int      `json:"crashn,omitempty"`
	Errno  int      `json:"errno,omitempty"` // always this error
	Only   []string `json:"only,omitempty"`  // restrict to these system calls
}

// Seg is what happens between two (re)starts of the process.
type Seg struct {
	Tasks  [][]Op       `json:"tasks"`
	Faults FaultCfg     `json:"faults"`
	Policy simrt.Policy `json:"policy"`
	Plan   []simrt.Dec  `json:"plan,omitempty"`

	Debug    bool `json:"debug,omitempty"`     // diagnostics on at the start
	RefFirst bool `json:"ref_first,omitempty"` // reference sessions before, not after
}

// Scenario is everything one run depends on.
type Scenario struct {
	Prop     string     `json:"prop"`
	Seed     uint64     `json:"seed"`
	Tier     string     `json:"tier"`
	Srcs     []string   `json:"srcs,omitempty"`
	Asts     []AstSpec  `json:"asts,omitempty"`
	Files    []FileSpec `json:"files,omitempty"`
	Watch    []string   `json:"watch,omitempty"`
	Cwd      string     `json:"cwd,omitempty"`
	Umask    uint32     `json:"umask"`
	EUID     uint32     `json:"euid,omitempty"`
	Segs     []Seg      `json:"segs"`
	Replay   bool       `json:"replay,omitempty"` // use the plans, sample nothing
	MaxSteps int64      `json:"max_steps"`
	Shape    string     `json:"shape,omitempty"` // which generator branch
	Ref      []string   `json:"ref,omitempty"`   // digests from fresh processes
	RefSeeds []uint64   `json:"ref_seeds,omitempty"`
}

// Violation is a broken property.
type Violation struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
}

// Hist is what one call of one caller did.
type Hist struct {
	Seg    int    `json:"seg"`
	Task   int    `json:"task"`
	Op     int    `json:"op"`
	K      string `json:"k"`
	File   string `json:"file"`
	Inv    int64  `json:"inv"`
	Ret    int64  `json:"ret"` // 0: never returned
	Err    string `json:"err,omitempty"`
	NX     bool   `json:"nx,omitempty"`
	NP     bool   `json:"np,omitempty"`  // it said there is no package clause
	Pkg    string `json:"pkg,omitempty"` // package of the AST loaded
	Panic  string `json:"panic,omitempty"`
	Val    string `json:"val,omitempty"` // what a load saw; what a save writes
	Dig    string `json:"dig,omitempty"`
	Hard   int    `json:"hard,omitempty"` // hard faults that hit it
	Far    int    `json:"far,omitempty"`  // failures in goroutines that the code under test started
	Lost   int    `json:"lost,omitempty"` // a cleanup call was made to fail
	At     string `json:"at,omitempty"`
	FDs    int    `json:"fds,omitempty"` // descriptors it left open
	Calls  int    `json:"calls,omitempty"`
	Faults int    `json:"faults,omitempty"`
	Want   string `json:"want,omitempty"`
	T0, T1 int64  `json:"-"`
	Note   string `json:"note,omitempty"`
}

// Result of a run.
type Result struct {
	Seed     uint64         `json:"seed"`
	Viol     []Violation    `json:"viol,omitempty"`
	Digest   uint64         `json:"digest"`
	Steps    int64          `json:"steps"`
	Switches int            `json:"switches"`
	Preempts int            `json:"preempts"`
	Calls    int            `json:"calls"`
	Ops      int            `json:"ops"`
	SimNS    int64          `json:"sim_ns"`
	Faults   map[string]int `json:"faults,omitempty"`
	Probes   map[string]int `json:"probes,omitempty"`
	Edges    []uint64       `json:"edges,omitempty"`
	Shape    string         `json:"shape,omitempty"`
	Crashes  int            `json:"crashes,omitempty"`
	Plans    [][]simrt.Dec  `json:"plans,omitempty"`
	Hist     []Hist         `json:"hist,omitempty"`
	Trouble  string         `json:"trouble,omitempty"` // harness limitation: not a verdict
	Scenario *Scenario      `json:"scenario,omitempty"`
	Since    int            `json:"since"` // runs made by the same process before this one
}
