package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"

	"MODULE/internal/verifsim/simrt"
	"MODULE/internal/verifsim/sio"
)

// Op is one step of a plan.
type Op struct {
	K   string      `json:"k"`
	A   []int64     `json:"a,omitempty"`
	S   []string    `json:"s,omitempty"`
	Env *Env        `json:"env,omitempty"`
	F   []sio.Fault `json:"f,omitempty"`
}

func (o *Op) arg(i int) int {
	if i < len(o.A) {
		return int(o.A[i])
	}
	return 0
}
func (o *Op) str(i int) string {
	if i < len(o.S) {
		return o.S[i]
	}
	return ""
}
func (o *Op) env() Env {
	if o.Env != nil {
		return *o.Env
	}
	return Env{CPUs: 2}
}

// Plan is one simulated run, written out: everything that happens in it is a
// function of the plan and the code.
type Plan struct {
	Prop string           `json:"prop"`
	Seed uint64           `json:"seed"`
	Idx  int              `json:"idx"`
	Tmpl string           `json:"tmpl"`
	P    map[string]int64 `json:"p,omitempty"`
	Ops  []Op             `json:"ops,omitempty"`
}

func (p *Plan) get(k string) int { return int(p.P[k]) }
func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	var q Plan
	json.Unmarshal(b, &q)
	return &q
}

// Violation is a broken property.
type Violation struct {
	Class string `json:"class"` // stable name of what is wrong
	Msg   string `json:"msg"`
}

type failure struct{ v Violation }

// Run is the state of one simulated run.
type Run struct {
	Plan       *Plan
	base       string
	nDir       int
	keepLog    bool
	keepWrites bool // keep all that is written, also to files that go

	Procs         int
	Steps         uint64
	IO            uint64
	Switches      uint64
	Fired         map[string]int
	Inter         []uint64
	Hash          uint64
	Trail         []string
	EventLog      []string
	Probes        map[string]int
	NonTriv       bool
	VTime         uint64 // simulated milliseconds
	Oracles       int    // facts checked
	Sample        string
	hurt          *hurt
	devs          map[string][]simrt.Dev
	FaultsPlanned int
}

func (r *Run) fail(class, f string, a ...interface{}) {
	panic(failure{Violation{class, fmt.Sprintf(f, a...)}})
}

// broken is for trouble of the harness itself: never a violation.
func (r *Run) broken(f string, a ...interface{}) {
	panic(harnessErr{fmt.Errorf(f, a...)})
}

// probe counts that a rare condition was reached.
func (r *Run) probe(s string) { r.Probes[s]++ }

func (r *Run) note(f string, a ...interface{}) {
	r.Trail = append(r.Trail, fmt.Sprintf(f, a...))
}

// mark folds a harness observation into the run's hash.
func (r *Run) mark(b []byte) {
	for _, c := range b {
		r.Hash = (r.Hash ^ uint64(c)) * 1099511628211
	}
}

// Dir makes a fresh directory (one machine's disk).
func (r *Run) Dir(name string) string {
	r.nDir++
	d := filepath.Join(r.base, fmt.Sprintf("%s-%d", name, r.nDir))
	if err := os.Mkdir(d, 0755); err != nil {
		panic(harnessErr{err})
	}
	return d
}

// DirWith makes a directory holding copies of the given files.
func (r *Run) DirWith(name string, files map[string][]byte) string {
	d := r.Dir(name)
	for _, n := range keys(files) {
		writeFile(d, n, files[n])
	}
	return d
}

func keys(m map[string][]byte) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// sameFiles compares two directories' contents except for the given names.
func diffFiles(a, b map[string][]byte, except ...string) string {
	skip := map[string]bool{}
	for _, e := range except {
		skip[e] = true
	}
	for _, n := range keys(a) {
		if skip[n] {
			continue
		}
		x, ok := b[n]
		if !ok {
			return n + " is gone"
		}
		if !bytes.Equal(a[n], x) {
			return fmt.Sprintf("%s changed (%d to %d bytes, %s)", n, len(a[n]), len(x), firstDiff(a[n], x))
		}
	}
	return ""
}

func firstDiff(a, b []byte) string {
	for i := range a {
		if i >= len(b) {
			return fmt.Sprintf("second ends at %d", i)
		}
		if a[i] != b[i] {
			return fmt.Sprintf("first difference at byte %d", i)
		}
	}
	if len(b) > len(a) {
		return fmt.Sprintf("first ends at %d", len(a))
	}
	return "equal"
}

// Outcome of executing a plan.
type Outcome struct {
	V       *Violation
	Harness string
	R       *Run
}

// ownPanic marks a run that a panic of the harness itself cut short.
const ownPanic = "harness panic: "

// Execute runs a plan in a fresh scratch directory under base.
func Execute(p *Plan, base string, keepLog bool) (o Outcome) {
	pr := props[p.Prop]
	if pr == nil {
		o.Harness = "unknown property " + p.Prop
		return
	}
	dir, err := os.MkdirTemp(base, "r")
	if err != nil {
		o.Harness = err.Error()
		return
	}
	r := &Run{Plan: p, base: dir, keepLog: keepLog, Fired: map[string]int{}, Probes: map[string]int{}, devs: map[string][]simrt.Dev{}}
	o.R = r
	defer func() {
		os.Chdir(base)
		if strings.HasPrefix(dir, base+"/") {
			os.RemoveAll(dir)
		}
		if e := recover(); e != nil {
			switch e := e.(type) {
			case failure:
				o.V = &e.v
			case harnessErr:
				o.Harness = e.err.Error()
			default:
				// (a command that panics is caught where it runs: this is ours)
				o.Harness = fmt.Sprintf("%s%v\n%s", ownPanic, e, debug.Stack())
			}
		}
	}()
	pr.Exec(r, p)
	return
}

// Prop is a property's check.
type Prop struct {
	ID       string
	Gen      func(r *Rng, idx int, thorough bool) *Plan
	Exec     func(*Run, *Plan)
	Quick    int // runs
	Thorough int
	Rule     string
	Assume   []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// MakePlan is the plan of run idx under a seed.
func MakePlan(prop string, seed uint64, idx int, thorough bool) *Plan {
	rng := NewRng(mix(seed)^mix(uint64(idx)+0x5151), prop)
	pl := props[prop].Gen(rng, idx, thorough)
	pl.Prop, pl.Seed, pl.Idx = prop, seed, idx
	if pl.P == nil {
		pl.P = map[string]int64{}
	}
	roam(pl, NewRng(mix(seed)^mix(uint64(idx)+0x7171), prop+"roam"))
	return pl
}

// genEnv draws the environment of one process, swarm style.
func genEnv(r *Rng) Env {
	e := Env{CPUs: r.Pick(1, 2, 2, 3, 4, 5, 7, 8, 16), Rng: r.U()}
	if r.P(1, 2) {
		e.Batch = r.Pick(4, 8, 16, 32)
	}
	if r.P(1, 2) {
		e.Buf = r.Pick(64, 128, 256, 512, 65536)
	}
	if r.P(1, 3) {
		e.Chunk = r.U() | 1
		e.ChunkN = r.Pick(1, 2, 7, 31, 64, 1000)
	}
	switch r.N(6) {
	case 0, 1:
	case 2, 3:
		e.Sched = simrt.Sched{Policy: "random", Seed: r.U(), Rate: uint64(r.Pick(1, 3, 10, 50, 200))}
	default:
		e.Sched = simrt.Sched{Policy: "pct", Seed: r.U(), Rate: uint64(r.Pick(20, 100, 500, 3000)), Depth: r.Pick(1, 2, 3, 8)}
	}
	return e
}

// calmEnv has fresh randomness and nothing else unusual.
func calmEnv(r *Rng) Env { return Env{CPUs: r.Pick(1, 2, 4), Rng: r.U()} }

func envp(e Env) *Env { return &e }

// must runs a command that has to succeed for the run to go on; failing is
// reported under the given class.
func (r *Run) must(class string, p *Proc) *Proc {
	if !p.OK() {
		r.fail(class, "%s", p)
	}
	return p
}
