// Package harness drives the real command line of the repository inside the
// simulator, checks what it does against reference models, and searches over
// seeds for violations.
package harness

import (
	"bytes"
	"crypto/rand"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strings"

	"MODULE/internal/verifsim/simrt"
	"MODULE/internal/verifsim/sio"
	"MODULE/internal/verifsim/smathrand"
	"MODULE/internal/verifsim/smathrandv2"
	"MODULE/internal/verifsim/sos"
)

var realMain func()

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Rng is the harness's own generator.
type Rng struct{ s uint64 }

func NewRng(seed uint64, label string) *Rng {
	h := seed
	for i := 0; i < len(label); i++ {
		h = mix(h ^ uint64(label[i])<<1)
	}
	return &Rng{mix(h)}
}
func (r *Rng) U() uint64 { r.s += 0x9e3779b97f4a7c15; return mix(r.s) }
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U() % uint64(n))
}
func (r *Rng) P(num, den int) bool      { return r.N(den) < num }
func (r *Rng) Pick(l ...int) int        { return l[r.N(len(l))] }
func (r *Rng) PickS(l ...string) string { return l[r.N(len(l))] }
func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, 0, n+8)
	for len(b) < n {
		b = binary.LittleEndian.AppendUint64(b, r.U())
	}
	return b[:n]
}

// entropy replaces the operating system's randomness: a seeded stream that
// remembers what it gave and can fail.
type entropy struct {
	seed, ctr uint64
	log       [][]byte
	total     int
	failed    int
	flip      int    // 1 + index of the 4-byte piece to change
	flipX     uint32 // how
	blk       []byte
	blkN      uint64
	pat       int // 1 + the only 2-byte piece of each 32-byte block that varies; from 17: of the field element it stands for; or patSmooth
}

// With patSmooth every 32-byte block stands for a multiple of smallOrder: just
// one of the outcomes true randomness may have, but one that annihilates points
// of that order.
const patSmooth, smallOrder = 1000, 10069

var ent = &entropy{}

func (e *entropy) Read(p []byte) (int, error) {
	if sio.E != nil && simrt.Active() {
		if f := sio.E.Begin("rng", ""); f != nil {
			switch f.Act {
			case "crash", "power":
				sio.E.Die(f)
			case "short":
				if len(p) > 1 {
					sio.E.Hit("rng-short")
					p = p[:1+int(f.Arg%uint64(len(p)-1))]
				}
			default:
				e.failed++
				sio.E.Hit("rng-error")
				sio.E.Note("rng", "", 0, "err")
				if fromRandRead() {
					simrt.Exit(2) // crypto/rand.Read ends the process
				}
				return 0, sio.ErrEntropy
			}
		}
	}
	var b [8]byte
	for i := range p {
		if e.ctr%8 == 0 || i == 0 {
			binary.LittleEndian.PutUint64(b[:], mix(mix(e.seed)^(e.ctr/8)*0xd1342543de82ef95))
		}
		p[i] = b[e.ctr%8]
		if e.pat > 16 {
			p[i] = e.element(e.ctr / 32)[e.ctr%32]
		} else if e.pat > 0 {
			p[i] = 0x11
			if o := e.ctr % 32; int(o/2) == e.pat-1 {
				p[i] = byte((e.ctr/32 + 1) >> (8 * (o % 2)))
			}
		}
		if e.flip > 0 && e.ctr/4 == uint64(e.flip-1) {
			p[i] ^= byte(e.flipX >> (8 * (e.ctr % 4)))
		}
		e.ctr++
	}
	e.total += len(p)
	e.log = append(e.log, append([]byte(nil), p...))
	return len(p), nil
}

// element makes block n such that the field element drawn from it varies in
// one 2-byte piece only.
func (e *entropy) element(n uint64) []byte {
	if e.blk != nil && e.blkN == n {
		return e.blk
	}
	var x Fr
	if e.pat == patSmooth {
		var k Fr
		k.SetBytes(NewRng(e.seed+n, "smooth").Bytes(28))
		x.SetUint64(smallOrder)
		x.Mul(&x, &k)
	} else {
		v := bytes.Repeat([]byte{0x11}, 32) // big-endian
		o := 31 - 2*(e.pat-17)
		v[o], v[o-1] = byte(n+1), byte((n+1)>>8)
		x.SetBytes(v)
	}
	e.blk, e.blkN = make([]byte, 0, 32), n
	for i := 0; i < 4; i++ {
		e.blk = binary.LittleEndian.AppendUint64(e.blk, x[i])
	}
	return e.blk
}

// fromRandRead: crypto/rand.Read treats a failing Reader as fatal.
func fromRandRead() bool {
	pc := make([]uintptr, 16)
	n := runtime.Callers(3, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if f.Function == "crypto/rand.Read" {
			return true
		}
		if !more {
			return false
		}
	}
}

// Env is the environment of one simulated process.
type Env struct {
	CPUs   int         `json:"cpus"`
	Batch  int         `json:"batch,omitempty"`
	Buf    int         `json:"buf,omitempty"`
	Chunk  uint64      `json:"chunk,omitempty"`
	ChunkN int         `json:"chunkn,omitempty"`
	Sched  simrt.Sched `json:"sched"`
	Rng    uint64      `json:"rng"`
	Cap    uint64      `json:"cap,omitempty"`
	Flip   int         `json:"flip,omitempty"`
	FlipX  uint32      `json:"flipx,omitempty"`
	Pat    int         `json:"pat,omitempty"`
	Stale  uint64      `json:"stale,omitempty"` // outputs exist already
	Paths  int         `json:"paths,omitempty"` // files lie in other directories
}

// Proc is a finished simulated process.
type Proc struct {
	Args     []string
	Dir      string
	Res      simrt.Result
	Out, Err string
	Draws    [][]byte
	Drawn    int
	Eng      *sio.Engine
}

// OK reports success as a caller of the command sees it.
func (p *Proc) OK() bool { return p.Res.Kind == "exit" && p.Res.Code == 0 }

// Clean reports an orderly failure: an error exit, not a crash or hang.
func (p *Proc) Clean() bool { return p.Res.Kind == "exit" && p.Res.Code != 0 }

func (p *Proc) String() string {
	s := fmt.Sprintf("%s -> %s", strings.Join(p.Args, " "), p.Res.Kind)
	if p.Res.Kind == "exit" {
		s += fmt.Sprintf(" %d", p.Res.Code)
	}
	if p.Res.Kind == "panic" {
		s += ": " + firstLine(p.Res.Panic)
	}
	if e := strings.TrimSpace(p.Err); e != "" {
		s += " (" + firstLine(e) + ")"
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// Exec runs the real command line in dir as one simulated process.
func (r *Run) Exec(dir string, env Env, faults []sio.Fault, args ...string) *Proc {
	if err := os.Chdir(dir); err != nil {
		panic(harnessErr{err})
	}
	given := args
	back := func() {}
	if env.Stale != 0 && len(args) > 0 {
		back = r.litter(dir, env.Stale, args)
		r.probe("old outputs present")
	}
	if env.Paths != 0 && len(args) > 0 {
		clean := back
		var home func()
		args, home = r.elsewhere(dir, env.Paths, args)
		back = func() { home(); clean() }
		r.probe("files in other directories")
	}
	eng := sio.New()
	eng.Faults = faults
	eng.Chunk, eng.ChunkMax = env.Chunk, env.ChunkN
	eng.KeepLog = r.keepLog
	if r.keepWrites {
		eng.Kept = map[string][]byte{}
	}
	sio.E = eng
	sos.Reset()
	smathrand.Reset(env.Rng)
	smathrandv2.Reset(env.Rng)
	sos.Args = append([]string{"setup"}, args...)
	ent = &entropy{seed: env.Rng, flip: env.Flip, flipX: env.FlipX, pat: env.Pat}
	rand.Reader = ent
	cfg := simrt.Config{CPUs: env.CPUs, Batch: env.Batch, Buf: env.Buf, Cap: env.Cap, Sched: env.Sched}
	if cfg.Cap == 0 {
		cfg.Cap = 10000000 // ordinary runs need less than 0.4 million, mid ones less than one
	}
	simrt.Reset()
	res := simrt.Run(cfg, realMain)
	eng.AfterCrash()
	sio.E = nil
	back()
	args = given
	if env.Sched.Policy == "random" || env.Sched.Policy == "pct" {
		k := fmt.Sprint(env.Sched.Seed)
		if _, dup := r.devs[k]; dup {
			r.devs[k] = nil
		} else {
			r.devs[k] = res.Devs
		}
	}
	p := &Proc{Args: args, Dir: dir, Res: res, Out: sos.OutBuf.String(), Err: sos.ErrBuf.String(), Draws: ent.log, Drawn: ent.total, Eng: eng}
	rand.Reader = &entropy{seed: mix(env.Rng ^ 0xabcdef)} // for library use by the harness
	r.account(p)
	return p
}

func (r *Run) account(p *Proc) {
	r.Procs++
	r.Steps += p.Res.Steps
	r.IO += p.Eng.Events
	r.Switches += p.Res.Switches
	for k, v := range p.Eng.Fired {
		r.Fired[k] += v
	}
	if p.Res.Switches > 0 {
		r.Inter = append(r.Inter, p.Res.Hash)
	}
	r.Hash = mix(r.Hash ^ p.Res.Hash ^ mix(p.Eng.Hash) ^ p.Res.Steps ^ uint64(p.Res.Code)<<40)
	for _, b := range []byte(p.Out) {
		r.Hash = (r.Hash ^ uint64(b)) * 1099511628211
	}
	r.Trail = append(r.Trail, p.String())
	r.FaultsPlanned += len(p.Eng.Faults)
	if r.keepLog {
		r.EventLog = append(r.EventLog, fmt.Sprintf("== %v kind=%s code=%d steps=%d hash=%x", p.Args, p.Res.Kind, p.Res.Code, p.Res.Steps, p.Res.Hash))
		for _, e := range p.Eng.Log {
			r.EventLog = append(r.EventLog, fmt.Sprintf("%s %s %d %s", e.Kind, e.File, e.N, e.Fault))
		}
	}
}

type harnessErr struct{ err error }

// Snapshot reads all files of a directory.
func Snapshot(dir string) map[string][]byte {
	m := map[string][]byte{}
	es, err := os.ReadDir(dir)
	if err != nil {
		panic(harnessErr{err})
	}
	for _, e := range es {
		if i, err := e.Info(); err == nil && i.Size() > 1<<30 {
			continue // an input of which most is a hole
		}
		if e.Type().IsRegular() {
			b, err := os.ReadFile(filepath.Join(dir, e.Name()))
			if err != nil {
				panic(harnessErr{err})
			}
			m[e.Name()] = b
		}
	}
	return m
}

func readFile(dir, name string) []byte {
	b, err := os.ReadFile(filepath.Join(dir, name))
	if err != nil {
		if os.IsNotExist(err) {
			return nil
		}
		panic(harnessErr{err})
	}
	return b
}

func writeFile(dir, name string, b []byte) {
	if err := os.WriteFile(filepath.Join(dir, name), b, 0644); err != nil {
		panic(harnessErr{err})
	}
}
