package harness

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/consensys/gnark/logger"
	"github.com/urfave/cli/v2"

	"MODULE/internal/verifsim/simrt"
	"MODULE/internal/verifsim/sos"
)

// Main is the entry point of the simulated binary.
func Main(rm func()) {
	realMain = rm
	cli.OsExiter = func(code int) { sos.Exit(code) }
	cli.ErrWriter = sos.Stderr
	logger.Disable()
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim check|worker|replay ...")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2:]))
	case "replay":
		os.Exit(replay(os.Args[2:]))
	case "selftest":
		os.Exit(selftest(os.Args[2:]))
	case "plan":
		idx, _ := strconv.Atoi(os.Args[4])
		seed, _ := strconv.ParseUint(os.Args[3], 10, 64)
		b, _ := json.MarshalIndent(MakePlan(os.Args[2], seed, idx, false), "", " ")
		fmt.Println(string(b))
	default:
		os.Exit(3)
	}
}

// ---------------------------------------------------------------- worker

type request struct {
	Prop     string `json:"prop,omitempty"`
	Seed     uint64 `json:"seed,omitempty"`
	Idx      int    `json:"idx,omitempty"`
	Thorough bool   `json:"thorough,omitempty"`
	Plan     *Plan  `json:"plan,omitempty"`
	Log      bool   `json:"log,omitempty"`
	Devs     bool   `json:"devs,omitempty"`
}

// wide tells the few runs on really large files: they take a minute or more,
// and are left out where the machine is too slow for them.
func (q *request) wide() bool {
	p := q.Plan
	if p == nil {
		p = MakePlan(q.Prop, q.Seed, q.Idx, q.Thorough)
	}
	return p.P["wide"] == 1
}

type response struct {
	V        *Violation             `json:"v,omitempty"`
	Harness  string                 `json:"harness,omitempty"`
	Hash     uint64                 `json:"hash"`
	Procs    int                    `json:"procs"`
	Steps    uint64                 `json:"steps"`
	IO       uint64                 `json:"io"`
	Switches uint64                 `json:"switches"`
	Fired    map[string]int         `json:"fired,omitempty"`
	Inter    []uint64               `json:"inter,omitempty"`
	Probes   map[string]int         `json:"probes,omitempty"`
	NonTriv  bool                   `json:"nontriv"`
	VTime    uint64                 `json:"vtime,omitempty"`
	Oracles  int                    `json:"oracles"`
	Sample   string                 `json:"sample,omitempty"`
	Tmpl     string                 `json:"tmpl,omitempty"`
	Trail    []string               `json:"trail,omitempty"`
	Log      []string               `json:"log,omitempty"`
	Devs     map[string][]simrt.Dev `json:"devs,omitempty"`
	Bye      bool                   `json:"bye,omitempty"`
}

func rss() uint64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseUint(f[1], 10, 64)
	return n * 4096
}

const rssSoft, rssHard = 1 << 30, 3 << 30

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	base := fs.String("base", "", "")
	fs.Parse(args)
	debug.SetGCPercent(-1)
	nopGC()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	proto := os.NewFile(3, "proto")
	out := json.NewEncoder(proto)
	if null, err := os.OpenFile("/dev/null", os.O_RDWR, 0); err == nil {
		syscall.Dup2(int(null.Fd()), 1)
	}
	var limit atomic.Uint64
	limit.Store(1)
	go func() { // memory guard: ends the process before the machine suffers
		for {
			time.Sleep(20 * time.Millisecond)
			if rss() > rssHard*limit.Load() {
				fmt.Fprintln(os.Stderr, "verif: memory guard")
				if os.Getenv("VERIF_STACKS") != "" {
					b := make([]byte, 1<<16)
					os.Stderr.Write(b[:runtime.Stack(b, true)])
				}
				os.Exit(77)
			}
		}
	}()
	if err := os.MkdirAll(*base, 0755); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	warmup(*base)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			os.Exit(0)
		}
		var q request
		if err := json.Unmarshal(line, &q); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		p := q.Plan
		if p == nil {
			p = MakePlan(q.Prop, q.Seed, q.Idx, q.Thorough)
		}
		if p.P["wide"] == 1 { // such a run needs collecting, and is its process's last
			debug.SetGCPercent(150)
			limit.Store(2)
		}
		o := Execute(p, *base, q.Log)
		resp := response{V: o.V, Harness: o.Harness, Tmpl: p.Tmpl}
		if r := o.R; r != nil {
			resp.Hash, resp.Procs, resp.Steps, resp.IO, resp.Switches = r.Hash, r.Procs, r.Steps, r.IO, r.Switches
			resp.Fired, resp.Inter, resp.Probes, resp.NonTriv, resp.VTime, resp.Oracles, resp.Sample = r.Fired, r.Inter, r.Probes, r.NonTriv, r.VTime, r.Oracles, r.Sample
			if o.V != nil || o.Harness != "" || q.Log {
				resp.Trail = r.Trail
				resp.Log = r.EventLog
			}
			if q.Devs {
				resp.Devs = r.devs
			}
		}
		resp.Bye = rss() > rssSoft || p.P["wide"] == 1 || strings.HasPrefix(o.Harness, ownPanic)
		if err := out.Encode(resp); err != nil {
			os.Exit(3)
		}
		if resp.Bye {
			os.Exit(0)
		}
	}
}

// ---------------------------------------------------------------- worker handles

type handle struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errb *tail
	base string
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 8192 {
		t.b = append([]byte(nil), t.b[:2048]...) // the beginning tells why a Go program died
	}
	return len(p), nil
}

type pool struct {
	scratch string
	mu      sync.Mutex
	n       int
}

func (p *pool) spawn() (*handle, error) {
	p.mu.Lock()
	p.n++
	base := filepath.Join(p.scratch, fmt.Sprintf("w%d", p.n))
	p.mu.Unlock()
	self, err := os.Executable()
	if err != nil {
		return nil, err
	}
	c := exec.Command(self, "worker", "-base", base)
	c.Env = append(os.Environ(), "GOGC=off", "GOMAXPROCS=2", "GOTRACEBACK=single")
	c.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	in, err := c.StdinPipe()
	if err != nil {
		return nil, err
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	c.ExtraFiles = []*os.File{pw}
	h := &handle{cmd: c, in: in, out: bufio.NewReaderSize(pr, 1<<20), errb: &tail{}, base: base}
	c.Stderr = h.errb
	runtime.LockOSThread() // Pdeathsig follows the thread
	err = c.Start()
	runtime.UnlockOSThread()
	if err != nil {
		return nil, err
	}
	pw.Close()
	return h, nil
}

func (p *pool) drop(h *handle) {
	if h == nil {
		return
	}
	h.in.Close()
	h.cmd.Process.Kill()
	h.cmd.Wait()
	if strings.HasPrefix(h.base, p.scratch+"/") {
		os.RemoveAll(h.base)
	}
}

var errTimeout = fmt.Errorf("wall-clock watchdog")

func (h *handle) call(q request, limit time.Duration) (response, error) {
	var r response
	b, _ := json.Marshal(q)
	if _, err := h.in.Write(append(b, '\n')); err != nil {
		return r, err
	}
	fired := make(chan bool, 1)
	t := time.AfterFunc(limit, func() { fired <- true; h.cmd.Process.Kill() })
	line, err := h.out.ReadBytes('\n')
	t.Stop()
	if err != nil {
		select {
		case <-fired:
			return r, errTimeout
		default:
		}
		return r, err
	}
	return r, json.Unmarshal(line, &r)
}

// runner owns at most one worker process and restarts it as needed.
type runner struct {
	p *pool
	h *handle
}

// do executes a request; a worker that dies is tried again once from scratch.
func (w *runner) do(q request, fresh bool) (response, error) {
	limit := 60 * time.Second
	if q.wide() {
		limit = 240 * time.Second
	}
	for try := 0; ; try++ {
		if fresh && try == 0 || w.h == nil {
			w.p.drop(w.h)
			h, err := w.p.spawn()
			if err != nil {
				return response{}, err
			}
			w.h = h
		}
		r, err := w.h.call(q, limit)
		if err == nil {
			if r.Bye {
				w.h.cmd.Wait()
				w.p.drop(w.h)
				w.h = nil
			}
			return r, nil
		}
		w.h.in.Close()
		w.h.cmd.Wait()
		var cpu time.Duration
		if ps := w.h.cmd.ProcessState; ps != nil {
			cpu = ps.UserTime() + ps.SystemTime()
		}
		msg := firstLines(string(w.h.errb.b), 3)
		if f := os.Getenv("VERIF_DEATH"); f != "" {
			os.WriteFile(f, w.h.errb.b, 0o666)
		}
		w.p.drop(w.h)
		w.h = nil
		if err == errTimeout && q.wide() {
			return response{}, errTimeout
		}
		if try > 0 {
			if err == errTimeout && cpu > hangCPU {
				// Not a matter of a busy machine: the fresh process did nothing
				// but this run, and used up as much time itself.
				return response{V: &Violation{hangClass, fmt.Sprintf("a command does not end: the run needs seconds, and was ended after %d s of processor time", int(cpu.Seconds()))}, Procs: 1}, nil
			}
			if err == errTimeout && try == 1 { // a very busy machine
				limit *= 2
				continue
			}
			if err == errTimeout {
				return response{}, fmt.Errorf("run %s/%d: no answer within %v", q.Prop, q.Idx, limit)
			}
			// The run kills its process every time: the code under test died
			// in a way no handler can catch (fatal error, out of memory).
			return response{V: &Violation{"process-death", "the simulated command takes the whole process down: " + msg}, Procs: 1}, nil
		}
		limit = limit * 5 / 2
	}
}

// A run of ordinary size takes seconds. One that is still going after this
// much processor time of its own is stuck in a loop too slow for the limit on
// scheduling points to end it in time.
const (
	hangCPU   = 100 * time.Second
	hangClass = "endless"
)

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, " | ")
}

// deathOK lists properties for which a command that dies is not a violation
// (it did not accept, did not report success).
var deathOK = map[string]bool{}

// ---------------------------------------------------------------- check

type known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Class    string `json:"class"`
	Match    string `json:"match"`
	Note     string `json:"note"`
}

func loadKnown(verif string) []known {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.jsonl"))
	if err != nil {
		return nil
	}
	var l []known
	for _, s := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(s) == "" {
			continue
		}
		var k known
		if json.Unmarshal([]byte(s), &k) == nil && k.Status == "known" {
			l = append(l, k)
		}
	}
	return l
}

func isKnown(l []known, prop string, v *Violation) *known {
	for i := range l {
		if l[i].Property == prop && l[i].Class == v.Class && l[i].Match != "" && strings.Contains(v.Msg, l[i].Match) {
			return &l[i]
		}
	}
	return nil
}

type options struct {
	prop, tier, verif, instr string
	seed                     uint64
	jobs, runs               int
	wall                     time.Duration
	from                     int
	keepGoing                bool
}

func check(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	var o options
	fs.StringVar(&o.prop, "prop", "", "")
	fs.StringVar(&o.tier, "tier", "quick", "")
	fs.StringVar(&o.verif, "verif", "/verif", "")
	fs.StringVar(&o.instr, "instr", "", "")
	fs.Uint64Var(&o.seed, "seed", 1, "")
	fs.IntVar(&o.jobs, "jobs", runtime.NumCPU(), "")
	fs.IntVar(&o.runs, "runs", 0, "")
	fs.IntVar(&o.from, "from", 0, "")
	fs.DurationVar(&o.wall, "wall", 0, "")
	fs.BoolVar(&o.keepGoing, "all", false, "keep going and list the violation classes")
	fs.Parse(args)
	pr := props[o.prop]
	if pr == nil {
		fmt.Println("unknown property", o.prop)
		return 3
	}
	thorough := o.tier == "thorough"
	if o.runs == 0 {
		o.runs = pr.Quick
		if thorough {
			o.runs = pr.Thorough
		}
	}
	if o.wall == 0 {
		o.wall = 240 * time.Second
		if thorough {
			o.wall = 720 * time.Second
		}
	}
	start := time.Now()
	scratch, err := scratchDir()
	if err != nil {
		fmt.Println(err)
		return 3
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, os.Interrupt, syscall.SIGTERM)
	go func() { <-sig; os.RemoveAll(scratch); os.Exit(3) }()
	defer os.RemoveAll(scratch)
	p := &pool{scratch: scratch}

	type result struct {
		idx int
		r   response
		err error
	}
	var mu sync.Mutex
	nextIdx := o.from
	stop := false
	results := make(chan result, 64)
	var wg sync.WaitGroup
	for j := 0; j < o.jobs; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &runner{p: p}
			defer func() { p.drop(w.h) }()
			for {
				mu.Lock()
				if stop || nextIdx >= o.from+o.runs || time.Since(start) > o.wall {
					mu.Unlock()
					return
				}
				i := nextIdx
				nextIdx++
				mu.Unlock()
				r, err := w.do(request{Prop: o.prop, Seed: o.seed, Idx: i, Thorough: thorough}, false)
				results <- result{i, r, err}
			}
		}()
	}
	go func() { wg.Wait(); close(results) }()

	ev := newTally()
	kn := loadKnown(o.verif)
	var worst *result
	classes := map[string]int{}
	harnessTrouble := ""
	knownSeen := map[string]bool{}
	firstHash := map[int]uint64{}
	for res := range results {
		res := res
		if res.err == errTimeout {
			ev.skipped++
			continue
		}
		if res.err != nil {
			harnessTrouble = res.err.Error()
			mu.Lock()
			stop = true
			mu.Unlock()
			continue
		}
		if res.r.V != nil && (res.r.V.Class == "process-death" || res.r.V.Class == hangClass) && deathOK[o.prop] {
			res.r.V = nil
		}
		if res.r.Harness != "" {
			// Neither a pass nor a violation: the run does not count.
			ev.aborted++
			fmt.Printf("run %d aborted: %s\n", res.idx, firstLines(res.r.Harness, 12))
			if ev.aborted <= 1+o.runs/100 {
				continue
			}
		}
		if res.r.Harness != "" {
			harnessTrouble = fmt.Sprintf("run %d: %s\n  %s", res.idx, res.r.Harness, strings.Join(res.r.Trail, "\n  "))
			mu.Lock()
			stop = true
			mu.Unlock()
			continue
		}
		ev.add(res.r)
		firstHash[res.idx] = res.r.Hash
		if v := res.r.V; v != nil {
			if k := isKnown(kn, o.prop, v); k != nil {
				if !knownSeen[k.Class+k.Match] {
					knownSeen[k.Class+k.Match] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, k.Note)
				}
				continue
			}
			classes[v.Class]++
			if o.keepGoing {
				if classes[v.Class] <= 3 {
					fmt.Printf("[%d %s] %s: %s\n    %s\n", res.idx, res.r.Tmpl, v.Class, v.Msg, strings.Join(res.r.Trail, "\n    "))
				}
				continue
			}
			mu.Lock()
			stop = true
			mu.Unlock()
			if worst == nil || res.idx < worst.idx {
				worst = &res
			}
		}
	}
	for _, k := range kn {
		if k.Property == o.prop && !knownSeen[k.Class+k.Match] {
			fmt.Printf("KNOWN-FINDING: property=%s %s (not met in this run)\n", o.prop, k.Note)
		}
	}
	if o.keepGoing {
		fmt.Println("violation classes:", classes)
	}
	nviol := 0
	code := 0
	if worst != nil {
		nviol = 1
		path, err := report(p, o, worst.idx, worst.r, thorough)
		if err != nil {
			harnessTrouble = err.Error()
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, path)
			code = 1
		}
	}
	// Determinism: some of the runs once more, in fresh processes.
	if code == 0 && harnessTrouble == "" && len(firstHash) > 0 && !o.keepGoing {
		same, bad := recheck(p, o, firstHash, thorough)
		ev.rechecked = same
		if bad != "" { // no reason to doubt what was seen, but worth knowing
			fmt.Println("NOTE: a run did not repeat exactly:", bad)
			ev.unrepeated = bad
		}
	}
	wall := time.Since(start).Seconds()
	if err := ev.write(o, pr, wall, nviol); err != nil {
		fmt.Println("evidence:", err)
		return 3
	}
	fmt.Printf("%s %s seed=%d: %d runs, %d distinct non-trivial, %d commands, %.1f s\n", o.prop, o.tier, o.seed, ev.runs, len(ev.distinct), ev.procs, wall)
	if code == 1 {
		return 1
	}
	if harnessTrouble != "" {
		fmt.Println("CHECK ERROR:", harnessTrouble)
		return 3
	}
	return code
}

func scratchDir() (string, error) {
	for _, b := range []string{"/dev/shm", os.TempDir()} {
		if d, err := os.MkdirTemp(b, "verif-sim-"); err == nil {
			return d, nil
		}
	}
	return "", fmt.Errorf("no scratch directory")
}

func recheck(p *pool, o options, first map[int]uint64, thorough bool) (int, string) {
	var idx []int
	for i := range first {
		idx = append(idx, i)
	}
	sort.Ints(idx)
	n := 16
	if thorough {
		n = 64
	}
	if k, err := strconv.Atoi(os.Getenv("VERIF_RECHECK")); err == nil {
		n = k
	}
	step := len(idx)/n + 1
	var sel []int
	for i := 0; i < len(idx); i += step {
		sel = append(sel, idx[i])
	}
	ch := make(chan int, len(sel))
	for _, i := range sel {
		ch <- i
	}
	close(ch)
	var mu sync.Mutex
	bad := ""
	same := 0
	var wg sync.WaitGroup
	for j := 0; j < 3; j++ { // another worker count than the search
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := &runner{p: p}
			defer func() { p.drop(w.h) }()
			for i := range ch {
				r, err := w.do(request{Prop: o.prop, Seed: o.seed, Idx: i, Thorough: thorough}, false)
				mu.Lock()
				if err != nil {
					bad = err.Error()
				} else if r.Hash != first[i] {
					bad = fmt.Sprintf("run %d gave %x, then %x", i, first[i], r.Hash)
				} else {
					same++
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return same, bad
}

// ---------------------------------------------------------------- evidence

type tally struct {
	runs, procs int
	steps, io   uint64
	switches    uint64
	fired       map[string]int
	inter       map[uint64]bool
	probes      map[string]int
	distinct    map[uint64]bool
	vtime       uint64
	oracles     int
	samples     []string
	seenTmpl    map[string]int
	rechecked   int
	unrepeated  string
	skipped     int
	aborted     int
}

func newTally() *tally {
	return &tally{fired: map[string]int{}, inter: map[uint64]bool{}, probes: map[string]int{}, distinct: map[uint64]bool{}, seenTmpl: map[string]int{}}
}

func (t *tally) add(r response) {
	t.runs++
	t.procs += r.Procs
	t.steps += r.Steps
	t.io += r.IO
	t.switches += r.Switches
	t.vtime += r.VTime
	t.oracles += r.Oracles
	for k, v := range r.Fired {
		t.fired[k] += v
	}
	for k, v := range r.Probes {
		t.probes[k] += v
	}
	for _, x := range r.Inter {
		t.inter[x] = true
	}
	if r.NonTriv {
		t.distinct[r.Hash] = true
		if r.Sample != "" && t.seenTmpl[r.Tmpl] == 0 && len(t.samples) < 12 {
			t.samples = append(t.samples, r.Tmpl+": "+r.Sample)
		}
	}
	t.seenTmpl[r.Tmpl]++
}

var realComponents = []string{"the repository's whole command line (main, actions, common, keys, lagrange, phase1, phase2), compiled from the working tree with instrumentation", "gnark and gnark-crypto (unchanged)", "urfave/cli (unchanged)"}
var stubComponents = []string{"process and goroutine scheduler (cooperative, seeded)", "os files (real bytes in a scratch directory behind the fault engine; power loss and close errors simulated)", "crypto/rand.Reader (seeded stream, recorded)", "runtime.NumCPU", "log.Fatal and os.Exit (end the simulated process)", "clock and network of the ceremony runs (virtual)", "gnark's own files in Split dumps are read without faults"}

func (t *tally) write(o options, pr *Prop, wall float64, nviol int) error {
	samples := t.samples
	if len(samples) == 0 {
		samples = []string{"no non-trivial run"}
	}
	cov := map[string]interface{}{
		"evaluations":            t.runs,
		"distinct_nontrivial":    len(t.distinct),
		"rule":                   pr.Rule,
		"samples":                samples,
		"commands_executed":      t.procs,
		"facts_checked":          t.oracles,
		"scheduling_points":      t.steps,
		"task_switches":          t.switches,
		"distinct_interleavings": len(t.inter),
		"file_operations":        t.io,
		"faults_fired":           t.fired,
		"conditions_reached":     t.probes,
		"runs_by_template":       t.seenTmpl,
		"seeds_per_hour":         int(float64(t.runs) / wall * 3600),
		"commands_per_hour":      int(float64(t.procs) / wall * 3600),
		"simulated_seconds":      float64(t.vtime) / 1000,
		"simulated_time_measure": "virtual network time of ceremony runs; the commands themselves have no clock, their progress is counted in scheduling points",
		"replayed_identically":   t.rechecked,
		"not_repeated":           t.unrepeated,
		"skipped_as_too_slow":    t.skipped,
		"aborted_by_the_harness": t.aborted,
		"instrumentation":        o.instr,
		"real_components":        realComponents,
		"stubbed_components":     stubComponents,
	}
	ev := map[string]interface{}{
		"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "exploration",
		"coverage": cov, "wall_s": wall, "violations": nviol,
		"assumptions": append([]string{"sampled, not enumerated: a clean run is evidence, not proof", "discrete logarithms and SHA-256 collisions are out of reach"}, pr.Assume...),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		return err
	}
	os.MkdirAll(filepath.Join(o.verif, "evidence"), 0755)
	return os.WriteFile(filepath.Join(o.verif, "evidence", o.prop+".json"), append(b, '\n'), 0644)
}

// ---------------------------------------------------------------- minimise, replay

// Replay is the replay file.
type Replay struct {
	Property  string     `json:"property"`
	Violation *Violation `json:"violation"`
	Seed      uint64     `json:"seed"`
	Idx       int        `json:"idx"`
	Hash      uint64     `json:"hash,string"`
	Plan      *Plan      `json:"plan"`
	Original  *Plan      `json:"original_plan,omitempty"`
	Tries     int        `json:"minimisation_runs"`
	Trail     []string   `json:"trail"`
	Events    []string   `json:"events,omitempty"`
	Note      string     `json:"note,omitempty"`
}

func report(p *pool, o options, idx int, first response, thorough bool) (string, error) {
	plan := MakePlan(o.prop, o.seed, idx, thorough)
	w := &runner{p: p}
	defer func() { p.drop(w.h) }()
	class := first.V.Class
	var base response
	again := false
	if class == hangClass { // has been repeated already; minimising would take hours
		rep := Replay{Property: o.prop, Seed: o.seed, Idx: idx, Plan: plan, Original: plan, Violation: first.V, Note: "not minimised: every attempt takes minutes"}
		return rep.save(o, fmt.Sprintf("%s-%d-%d.json", o.prop, o.seed, idx))
	}
	for i := 0; i < 4 && !again; i++ {
		r, err := w.do(request{Plan: plan, Devs: true}, true)
		if err != nil {
			return "", err
		}
		if r.V != nil && r.V.Class == class {
			base, again = r, true
		}
	}
	if !again {
		return "", fmt.Errorf("run %d reported %s (%s) once, but not when repeated", idx, class, first.V.Msg)
	}
	min, tries := plan, 0
	if plan.P["wide"] != 1 {
		min, tries = minimise(p, o, plan, base, class)
	}
	rep := Replay{Property: o.prop, Seed: o.seed, Idx: idx, Plan: min, Original: plan, Tries: tries}
	r1, err1 := w.do(request{Plan: min, Log: true}, true)
	r2, err2 := r1, err1
	if plan.P["wide"] != 1 {
		r2, err2 = w.do(request{Plan: min, Log: true}, true)
	}
	if err1 != nil || err2 != nil || r1.V == nil || r2.V == nil || r1.V.Class != class || r2.V.Class != class {
		rep.Plan = plan
		rep.Note = "the minimised plan did not repeat; this is the original"
		for i := 0; i < 4 && (r1.V == nil || r1.V.Class != class); i++ {
			r1, _ = w.do(request{Plan: plan, Log: true}, true)
		}
		if r1.V == nil {
			return "", fmt.Errorf("run %d: %s does not repeat", idx, class)
		}
	} else if r1.Hash != r2.Hash {
		rep.Note = "the code under test is not deterministic under the simulator's control: event hashes differ between repetitions"
	}
	rep.Violation, rep.Hash, rep.Trail = r1.V, r1.Hash, r1.Trail
	if len(r1.Log) < 400 {
		rep.Events = r1.Log
	} else {
		rep.Events = r1.Log[len(r1.Log)-400:]
	}
	return rep.save(o, fmt.Sprintf("%s-%d-%d.json", o.prop, o.seed, idx))
}

func (rep *Replay) save(o options, name string) (string, error) {
	dir := filepath.Join(o.verif, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, name)
	b, _ := json.MarshalIndent(rep, "", " ")
	fmt.Printf("%s: %s: %s\n", o.prop, rep.Violation.Class, rep.Violation.Msg)
	for _, t := range rep.Trail {
		fmt.Println("   ", t)
	}
	return path, os.WriteFile(path, append(b, '\n'), 0644)
}

func minimise(p *pool, o options, plan *Plan, base response, class string) (*Plan, int) {
	deadline := time.Now().Add(60 * time.Second)
	tries := 0
	best := plan.clone()
	ws := make([]*runner, o.jobs)
	for i := range ws {
		ws[i] = &runner{p: p}
	}
	defer func() {
		for _, w := range ws {
			p.drop(w.h)
		}
	}()
	// test runs candidates in parallel and returns the first (by order) that still fails.
	test := func(c []*Plan) (int, response) {
		type out struct {
			r  response
			ok bool
		}
		for lo := 0; lo < len(c); lo += len(ws) {
			if time.Now().After(deadline) || tries > 400 {
				return -1, response{}
			}
			hi := lo + len(ws)
			if hi > len(c) {
				hi = len(c)
			}
			outs := make([]out, hi-lo)
			var wg sync.WaitGroup
			for i := lo; i < hi; i++ {
				wg.Add(1)
				tries++
				go func(i int) {
					defer wg.Done()
					r, err := ws[i-lo].do(request{Plan: c[i], Devs: true}, false)
					outs[i-lo] = out{r, err == nil && r.V != nil && r.V.Class == class}
				}(i)
			}
			wg.Wait()
			for i := range outs {
				if outs[i].ok {
					return lo + i, outs[i].r
				}
			}
		}
		return -1, response{}
	}
	last := base
	for round := 0; round < 12; round++ {
		changed := false
		for _, gen := range []func(*Plan, response) []*Plan{dropOps, dropFaults, calm, toTrace, shrinkTrace, shrinkInts} {
			for {
				c := gen(best, last)
				if len(c) == 0 {
					break
				}
				i, r := test(c)
				if i < 0 {
					break
				}
				best, last, changed = c[i], r, true
			}
		}
		if !changed || time.Now().After(deadline) {
			break
		}
	}
	return best, tries
}

func dropOps(p *Plan, _ response) []*Plan {
	var l []*Plan
	n := len(p.Ops)
	if n > 3 {
		for _, h := range [][2]int{{0, n / 2}, {n / 2, n}} {
			q := p.clone()
			q.Ops = append(append([]Op{}, q.Ops[:h[0]]...), q.Ops[h[1]:]...)
			l = append(l, q)
		}
	}
	for i := n - 1; i >= 0; i-- {
		q := p.clone()
		q.Ops = append(q.Ops[:i:i], q.Ops[i+1:]...)
		l = append(l, q)
	}
	return l
}

func dropFaults(p *Plan, _ response) []*Plan {
	var l []*Plan
	for i := range p.Ops {
		for j := range p.Ops[i].F {
			q := p.clone()
			f := q.Ops[i].F
			q.Ops[i].F = append(f[:j:j], f[j+1:]...)
			l = append(l, q)
		}
	}
	return l
}

func calm(p *Plan, _ response) []*Plan {
	var l []*Plan
	add := func(i int, f func(*Env) bool) {
		q := p.clone()
		if q.Ops[i].Env != nil && f(q.Ops[i].Env) {
			l = append(l, q)
		}
	}
	for i := range p.Ops {
		add(i, func(e *Env) bool { ok := e.Sched.Policy != ""; e.Sched = simrt.Sched{}; return ok })
		add(i, func(e *Env) bool { ok := e.Chunk != 0; e.Chunk, e.ChunkN = 0, 0; return ok })
		add(i, func(e *Env) bool { ok := e.Stale != 0; e.Stale = 0; return ok })
		add(i, func(e *Env) bool { ok := e.Paths != 0; e.Paths = 0; return ok })
		add(i, func(e *Env) bool { ok := e.Batch != 0; e.Batch = 0; return ok })
		add(i, func(e *Env) bool { ok := e.Buf != 0; e.Buf = 0; return ok })
		add(i, func(e *Env) bool { ok := e.CPUs > 1; e.CPUs = 1; return ok })
		add(i, func(e *Env) bool { ok := e.CPUs > 2; e.CPUs = 2; return ok })
	}
	return l
}

// toTrace replaces a random schedule by the list of its decisions.
func toTrace(p *Plan, last response) []*Plan {
	q := p.clone()
	n := 0
	for i := range q.Ops {
		e := q.Ops[i].Env
		if e == nil || (e.Sched.Policy != "random" && e.Sched.Policy != "pct") {
			continue
		}
		d, ok := last.Devs[fmt.Sprint(e.Sched.Seed)]
		if !ok || len(d) > 5000 {
			continue
		}
		e.Sched = simrt.Sched{Policy: "trace", Trace: d}
		n++
	}
	if n == 0 {
		return nil
	}
	return []*Plan{q}
}

func shrinkTrace(p *Plan, _ response) []*Plan {
	var l []*Plan
	for i := range p.Ops {
		e := p.Ops[i].Env
		if e == nil || len(e.Sched.Trace) == 0 {
			continue
		}
		n := len(e.Sched.Trace)
		for _, parts := range []int{2, 4, 8, 16, n} {
			if parts > n || parts > 24 {
				continue
			}
			for k := 0; k < parts; k++ {
				lo, hi := k*n/parts, (k+1)*n/parts
				q := p.clone()
				t := q.Ops[i].Env.Sched.Trace
				q.Ops[i].Env.Sched.Trace = append(append([]simrt.Dev{}, t[:lo]...), t[hi:]...)
				if len(q.Ops[i].Env.Sched.Trace) == 0 {
					q.Ops[i].Env.Sched = simrt.Sched{}
				}
				l = append(l, q)
			}
		}
	}
	return l
}

func shrinkInts(p *Plan, _ response) []*Plan {
	var l []*Plan
	var ks []string
	for k := range p.P {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if strings.HasPrefix(k, "seed") || k == "tmpl" {
			continue
		}
		v := p.P[k]
		for _, c := range []int64{0, 1, 2, v / 2, v - 1} {
			if c >= 0 && c < v {
				q := p.clone()
				q.P[k] = c
				l = append(l, q)
			}
		}
	}
	for i := range p.Ops {
		for j, v := range p.Ops[i].A {
			for _, c := range []int64{0, 1, v / 2, v - 1} {
				if c >= 0 && c < v {
					q := p.clone()
					q.Ops[i].A[j] = c
					l = append(l, q)
				}
			}
		}
	}
	if len(l) > 96 {
		l = l[:96]
	}
	return l
}

func replay(args []string) int {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		return 3
	}
	var rep Replay
	if err := json.Unmarshal(b, &rep); err != nil {
		fmt.Println(err)
		return 3
	}
	scratch, err := scratchDir()
	if err != nil {
		fmt.Println(err)
		return 3
	}
	defer os.RemoveAll(scratch)
	p := &pool{scratch: scratch}
	w := &runner{p: p}
	defer func() { p.drop(w.h) }()
	r, err := w.do(request{Plan: rep.Plan, Log: true}, true)
	if err != nil {
		fmt.Println(err)
		return 3
	}
	for _, t := range r.Trail {
		fmt.Println("   ", t)
	}
	if r.V == nil {
		fmt.Println("NOT REPRODUCED: the property holds on this replay", r.Harness)
		return 0
	}
	fmt.Printf("%s: %s: %s\n", rep.Property, r.V.Class, r.V.Msg)
	if rep.Violation != nil && r.V.Class == rep.Violation.Class && r.Hash == rep.Hash {
		fmt.Println("REPRODUCED exactly (event hash", strconv.FormatUint(r.Hash, 16)+")")
	} else {
		fmt.Println("a violation, but not the same execution as recorded")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rep.Property, args[0])
	return 1
}

// selftest runs many seeds twice, in other processes and at another worker
// count, and compares the event hashes.
func selftest(args []string) int {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	n := fs.Int("n", 200, "")
	one := fs.String("prop", "", "")
	fs.Parse(args)
	scratch, err := scratchDir()
	if err != nil {
		return 3
	}
	defer os.RemoveAll(scratch)
	p := &pool{scratch: scratch}
	var ids []string
	for id := range props {
		if *one == "" || *one == id {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	bad := 0
	for _, id := range ids {
		var hs [2][]uint64
		for pass, jobs := range []int{8, 5} {
			hs[pass] = make([]uint64, *n)
			ch := make(chan int, *n)
			for i := 0; i < *n; i++ {
				k := i
				if pass == 1 {
					k = *n - 1 - i
				}
				ch <- k
			}
			close(ch)
			var wg sync.WaitGroup
			for j := 0; j < jobs; j++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					w := &runner{p: p}
					defer func() { p.drop(w.h) }()
					for i := range ch {
						r, err := w.do(request{Prop: id, Seed: 7, Idx: i}, false)
						if err == nil {
							hs[pass][i] = r.Hash
						}
					}
				}()
			}
			wg.Wait()
		}
		diff := 0
		for i := range hs[0] {
			if hs[0][i] != hs[1][i] || hs[0][i] == 0 {
				diff++
				if diff < 4 {
					fmt.Printf("%s run %d: %x vs %x\n", id, i, hs[0][i], hs[1][i])
				}
			}
		}
		fmt.Printf("%s: %d seeds twice, %d differ\n", id, *n, diff)
		bad += diff
	}
	if bad > 0 {
		return 1
	}
	return 0
}
