package harness

import (
	"bytes"
	"fmt"
	"strings"

	"MODULE/internal/verifsim/sio"
)

// ------------------------------------------------------------- C12

// wideEnv is genEnv with more unusual CPU counts.
func wideEnv(r *Rng) Env {
	e := genEnv(r)
	if r.P(1, 3) {
		e.CPUs = r.Pick(6, 9, 10, 11, 12, 13, 15, 17, 24, 31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 128, 200, 256)
	}
	return e
}

func genC12(r *Rng, idx int, thorough bool) *Plan {
	p := &Plan{P: map[string]int64{}}
	genScene(r, p, sceneKinds[idx%len(sceneKinds)])
	if p.P["power"] < 4 && r.P(1, 2) {
		p.P["power"]++
	}
	if thorough && r.P(1, 6) {
		p.P["power"] = int64(r.Pick(5, 6))
	}
	if r.P(1, 3) {
		genCircuit(r, p.P, 40)
	}
	if (p.Tmpl == "p2n" || p.Tmpl == "p2np") && r.P(2, 3) {
		bigTarget(r, p.P, thorough)
	}
	if strings.HasPrefix(p.Tmpl, "p1v") || p.Tmpl == "p2v" {
		p.P["forge"] = int64(r.N(3)) // 0: the honest file
	} else if r.P(1, 8) {
		p.P["cut"] = int64(1 + r.N(1<<20))
	}
	n := 4
	for i := 0; i < n; i++ {
		e := wideEnv(r)
		p.Ops = append(p.Ops, Op{K: "again", S: []string{paramAttacks1[r.N(len(paramAttacks1))], paramAttacks2[r.N(len(paramAttacks2))]},
			A: []int64{int64(r.N(1 << 20)), int64(r.N(1 << 20)), int64(r.N(1 << 20)), int64(r.N(1 << 20))}, Env: &e})
	}
	return p
}

// bigTarget makes a circuit large enough for the Lagrange transformation to
// spread over the CPUs.
// midTarget is a circuit with more constraints, wires, inputs or committed
// values than a byte can count.
func midTarget(r *Rng, p map[string]int64) {
	p["target"] = int64(r.Pick(255, 256, 257, 300, 400, 511, 512, 513))
	p["gates"] = int64(1 + r.N(20))
	p["sec"] = int64(1 + r.N(300))
	if p["unused"] > 0 {
		p["unused"] = int64(r.Pick(1, 20, 260))
		p["sec"] += p["unused"]
	}
	if r.P(1, 3) {
		p["pub"] = int64(r.Pick(254, 255, 256, 257, 300))
	}
	if p["comsec"] > 0 && r.P(1, 2) {
		p["comsec"] = int64(r.Pick(100, 255, 256, 257, 300))
	}
	if p["compub"] > 0 && r.P(1, 2) {
		p["compub"] = p["pub"]
	}
}

// wideWires is a small circuit with wires beyond what two bytes can count.
func wideWires(r *Rng, p map[string]int64) {
	p["target"] = int64(r.Pick(5, 16, 33))
	p["gates"] = int64(1 + r.N(20))
	p["unused"] = int64(65536 - r.N(40))
	p["sec"] = p["unused"] + int64(1+r.N(30))
	p["raw"] = int64(r.N(2))
	p["wide"] = 1
}

// midRun says which runs have such a circuit.
func midRun(idx int) bool { return idx%101 == 22 }

func bigTarget(r *Rng, p map[string]int64, thorough bool) {
	p["target"] = int64(r.Pick(33, 34, 40, 64, 64, 65, 80))
	if thorough && r.P(1, 4) {
		p["target"] = int64(r.Pick(127, 128, 129, 200, 257))
	}
	p["gates"] = int64(1 + r.N(4))
}

// forge changes a verification's main file as one of the attacks would.
func (s *Scene) forge(op *Op, rng *Rng) {
	switch s.Kind {
	case "p1v", "p1vt":
		f := s.Chain1.forge()
		f.pts = clonePts(f.pts)
		attackParams1(f, s.Chain1, op, rng)
		s.Files["in.ph1"] = f.bytes()
		s.Desc += " forged by " + op.str(0)
	case "p2v":
		c := chainOf(s.Q)
		for i := 0; i < 1+int(rng.U()%3); i++ {
			c.contribute(randFr(rng), rng)
		}
		f := c.forge()
		o := *op
		o.S = op.S[1:]
		attackParams2(f, c, &o, rng)
		s.Files["in.ph2"] = f.bytes()
		s.Desc += " forged by " + o.str(0)
	}
}

func (s *Scene) mainFile() string {
	for _, n := range []string{"in.ph1", "in.ph2", "in.ptau", "s.vk.save"} {
		if _, ok := s.Files[n]; ok {
			return n
		}
	}
	return "c.r1cs"
}

func execC12(r *Run, p *Plan) {
	rng := NewRng(uint64(p.P["seedx"]), "x")
	s := r.scene(p.Tmpl, p, rng)
	if p.get("forge") > 0 && len(p.Ops) > 0 {
		s.forge(&p.Ops[0], rng)
	}
	if c := p.get("cut"); c > 0 && s.Kind != "p1n" {
		n := s.mainFile()
		b := s.Files[n]
		s.Files[n] = b[:modn(c, len(b))]
		s.Desc += " cut short"
	}
	ent := rng.U()
	base := r.try(s, Env{CPUs: 1, Rng: ent}, nil)
	r.Sample = s.Desc + ": " + firstLine(base.String())
	if base.hangs() {
		r.fail("hangs", "%s: %s", s.Desc, base)
	}
	for i := range p.Ops {
		e := p.Ops[i].env()
		e.Rng = ent
		t := r.try(s, e, nil)
		r.Oracles++
		where := fmt.Sprintf("%s, CPUs %d, batch %d, schedule %s", s.Desc, e.CPUs, e.Batch, e.Sched.Policy)
		if t.hangs() {
			r.fail("hangs", "%s: %s", where, t)
		}
		if t.OK() != base.OK() {
			r.fail("verdict-differs", "%s: %s, but one CPU without interleaving gives: %s", where, t, base)
		}
		if t.OK() {
			if d := sameResult(base, t); d != "" {
				r.fail("result-differs", "%s: from the run with one CPU without interleaving, %s", where, d)
			}
			if a, b := listedHashes(base.Out), listedHashes(t.Out); strings.Join(a, " ") != strings.Join(b, " ") {
				r.fail("hashes-differ", "%s: lists %v, with one CPU %v", where, b, a)
			}
			r.NonTriv = r.NonTriv || t.Res.Switches > 0 || e.CPUs > 1
		}
		r.done(t)
	}
	if base.OK() {
		r.probe("ok " + s.Kind)
	} else {
		r.probe("refused " + s.Kind)
		r.NonTriv = true
	}
	r.done(base)
}

// ------------------------------------------------------------- C13, C14

func genFaults(r *Rng, p *Plan, kinds []string, acts map[string][]string, n int) {
	if r.P(1, 2) { // every operation of one kind on one file, for a stretch
		k := kinds[r.N(len(kinds))]
		a := acts[k]
		act, rep, file := a[r.N(len(a))], int64(r.N(2)), int64(1+r.N(1<<20))
		from := int64(r.Pick(0, 0, 0, 0, 20, 40, r.N(200)))
		for i := int64(0); i < 20; i++ {
			p.Ops = append(p.Ops, Op{K: "fault", S: []string{k, act}, A: []int64{1000000 + from + i, int64(r.U() >> 1), rep, file, 1}})
		}
		n /= 2
	}
	for i := 0; i < n; i++ {
		k := kinds[r.N(len(kinds))]
		a := acts[k]
		p.Ops = append(p.Ops, Op{K: "fault", S: []string{k, a[r.N(len(a))]}, A: []int64{genAt(r), int64(r.U() >> 1), int64(r.N(2)), int64(r.Pick(0, 1+r.N(1<<20)))}})
	}
}

// fault is the fault an operation of the plan stands for, placed by what an
// undisturbed execution did: args are the place, a detail, whether it persists,
// and, if set, which file it is confined to (and that places count from the
// start and don't wrap).
func (op *Op) fault(eng *sio.Engine) (sio.Fault, bool) {
	f := sio.Fault{Kind: op.str(0), Act: op.str(1), Arg: uint64(op.A[1]), Rep: op.arg(2) == 1}
	n := eng.Counts[f.Kind]
	if op.arg(3) > 0 && f.Kind != "any" {
		var l []string
		for k := range eng.FCounts {
			if strings.HasPrefix(k, f.Kind+":") && len(k) > len(f.Kind)+1 {
				l = append(l, k)
			}
		}
		sortStrings(l)
		if len(l) > 0 {
			k := l[modn(op.arg(3), len(l))]
			f.File, n = k[len(f.Kind)+1:], eng.FCounts[k]
		}
	}
	if n == 0 || op.arg(4) == 1 && int(op.A[0]-1000000) >= n {
		return f, false
	}
	f.At = at(op.A[0], n)
	return f, true
}

// place says in words where a fault strikes.
func place(f sio.Fault, eng *sio.Engine) string {
	n, where := eng.Counts[f.Kind], ""
	if f.File != "" {
		n, where = eng.FCounts[f.Kind+":"+f.File], " of "+f.File
	}
	s := fmt.Sprintf("%s at %s %d of %d%s", f.Act, f.Kind, f.At, n, where)
	if f.Rep {
		s += ", persisting"
	}
	return s
}

var writeKinds = []string{"write", "write", "write", "create", "close", "seek", "sync"}
var writeActs = map[string][]string{"write": {"err", "short", "full", "full"}, "create": {"err", "full"}, "close": {"err"}, "seek": {"err"}, "sync": {"err"}, "rename": {"err"}}
var makers = []string{"p1n", "p1c", "p1t", "p2n", "p2np", "p2c", "key", "keys", "sol"}

func genC13(r *Rng, idx int, thorough bool) *Plan {
	p := &Plan{P: map[string]int64{}}
	genScene(r, p, makers[idx%len(makers)])
	e := genEnv(r)
	if r.P(1, 2) {
		e = calmEnv(r)
	}
	p.Ops = []Op{{K: "env", Env: &e}}
	genFaults(r, p, writeKinds, writeActs, 10)
	return p
}

func execC13(r *Run, p *Plan) {
	rng := NewRng(uint64(p.P["seedx"]), "x")
	s := r.scene(p.Tmpl, p, rng)
	env := p.envOf("env")
	base := r.try(s, env, nil)
	defer r.done(base)
	r.Sample = fmt.Sprintf("%s, %d writes, %d creates", s.Desc, base.Eng.Counts["write"], base.Eng.Counts["create"])
	if !base.OK() {
		r.fail("fails-without-faults", "%s: %s", s.Desc, base)
	}
	if s.Kind == "p2n" || s.Kind == "p2np" {
		r.sameOutputs(s, base, env, rng.PickS("evals", "srs.lag"))
	}
	ops := p.Ops
	// Operations that the shipped code doesn't need: each fails once.
	for _, k := range []string{"rename", "remove", "truncate"} {
		for n := 0; n < base.Eng.Counts[k] && n < 4; n++ {
			ops = append(ops[:len(ops):len(ops)], Op{K: "fault", S: []string{k, "err"}, A: []int64{1000000 + int64(n), 5 + int64(n)<<8, 0, 0, 1}})
		}
	}
	for i := range ops {
		op := &ops[i]
		if op.K != "fault" {
			continue
		}
		f, ok := op.fault(base.Eng)
		if !ok {
			continue
		}
		e, fl := env, []sio.Fault{f}
		what := fmt.Sprintf("%s with %s", s.Desc, place(f, base.Eng))
		switch op.A[1] % 6 {
		case 0:
			e.Stale = uint64(op.A[1]) | 1
			what += " over old outputs"
		case 1: // nor do old outputs alone harm
			e.Stale = uint64(op.A[1]) | 1
			fl, what = nil, s.Desc+" over old outputs"
		}
		t := r.try(s, e, fl)
		r.Oracles++
		if fl == nil && !t.OK() {
			r.fail("fails-without-faults", "%s: %s", what, t)
		}
		if t.Eng.FaultHit > 0 {
			r.NonTriv = true
		}
		if t.hangs() {
			r.fail("hangs", "%s: %s", what, t)
		}
		if t.OK() {
			if d := sameResult(base, t); d != "" {
				r.fail("incomplete-success", "%s: the command reports success, but %s", what, d)
			}
			r.probe("unharmed")
		} else {
			r.probe("reported")
		}
		r.done(t)
	}
}

var readKinds = []string{"read", "read", "read", "read", "open", "seek", "stat", "rclose"}
var readActs = map[string][]string{"read": {"err", "err", "short"}, "open": {"err"}, "seek": {"err"}, "stat": {"err"}, "rclose": {"err"}}

func genC14(r *Rng, idx int, thorough bool) *Plan {
	p := &Plan{P: map[string]int64{}}
	kinds := append(append([]string{}, sceneKinds[1:]...), "p1v", "p1vt", "p2v") // p1n reads nothing
	genScene(r, p, kinds[idx%len(kinds)])
	e := genEnv(r)
	if r.P(1, 2) {
		e = calmEnv(r)
	}
	e.Chunk = 0
	if e.Buf == 0 && r.P(2, 3) {
		e.Buf = r.Pick(16, 32, 64, 64, 128)
	}
	p.Ops = []Op{{K: "env", Env: &e}}
	genFaults(r, p, readKinds, readActs, 9)
	for i := 0; i < 2; i++ {
		p.Ops = append(p.Ops, Op{K: "chunk", A: []int64{int64(r.U()>>1) | 1, int64(r.Pick(1, 2, 3, 7, 31, 33, 64, 1000))}})
	}
	return p
}

func execC14(r *Run, p *Plan) {
	rng := NewRng(uint64(p.P["seedx"]), "x")
	s := r.scene(p.Tmpl, p, rng)
	env := p.envOf("env")
	base := r.try(s, env, nil)
	defer r.done(base)
	r.Sample = fmt.Sprintf("%s, %d reads, %d opens, %d seeks", s.Desc, base.Eng.Counts["read"], base.Eng.Counts["open"], base.Eng.Counts["seek"])
	if !base.OK() {
		r.fail("fails-without-faults", "%s: %s", s.Desc, base)
	}
	// What the command reads to the end when nothing goes wrong.
	var full []string
	for _, n := range keys(s.Files) {
		if len(s.Files[n]) > 0 && base.Eng.FullyRead(n, int64(len(s.Files[n]))) {
			full = append(full, n)
		}
	}
	for i := range p.Ops {
		op := &p.Ops[i]
		e := env
		var fl []sio.Fault
		what := s.Desc
		harmless := false
		switch op.K {
		case "chunk":
			e.Chunk, e.ChunkN = uint64(op.A[0]), int(op.A[1])
			what += fmt.Sprintf(" with reads of at most %d bytes", e.ChunkN)
			harmless = true
		case "fault":
			f, ok := op.fault(base.Eng)
			if !ok {
				continue
			}
			fl = []sio.Fault{f}
			what += " with " + place(f, base.Eng)
			harmless = f.Act == "short"
		default:
			continue
		}
		t := r.try(s, e, fl)
		r.Oracles++
		if t.Eng.FaultHit > 0 || e.Chunk != 0 {
			r.NonTriv = true
		}
		if t.hangs() {
			r.fail("hangs", "%s: %s", what, t)
		}
		if harmless && !t.OK() {
			r.fail("short-read-fails", "%s: %s", what, t)
		}
		if t.OK() {
			if d := sameResult(base, t); d != "" {
				r.fail("wrong-success", "%s: the command reports success, but %s", what, d)
			}
			if a, b := listedHashes(base.Out), listedHashes(t.Out); strings.Join(a, " ") != strings.Join(b, " ") {
				r.fail("hashes-differ", "%s: lists %v, without faults %v", what, b, a)
			}
			if s.Verify && !harmless && t.Eng.FaultHit > 0 {
				for _, n := range full {
					if !t.Eng.FullyRead(n, int64(len(s.Files[n]))) {
						r.fail("accepts-unread", "%s: verification accepts although it never read all of %s", what, n)
					}
				}
				f := fl[0]
				if f.Rep && f.File == "" && f.Kind == "read" && base.Eng.DataReads > f.At && f.At <= base.Eng.LastData {
					r.fail("accepts-unread", "%s: verification accepts although no read works any more, and data was still to come", what)
				}
			}
			r.probe("unharmed")
		} else {
			r.probe("reported")
		}
		r.done(t)
	}
}

// sameOutputs names the phase-2 file like one of the files the command writes
// besides: success would mean that one of them is lost.
func (r *Run) sameOutputs(s *Scene, base *Trial, env Env, name string) {
	args := append([]string{}, s.Args...)
	for i := range args {
		if args[i] == s.OutP2 {
			args[i] = name
		}
	}
	t := r.try(s, env, nil, args...)
	r.Oracles++
	if t.OK() && (!bytes.Equal(t.After[name], base.After[s.OutP2]) || !bytes.Equal(t.After[name], base.After[name])) {
		r.fail("incomplete-success", "%s: %s reports success, but %s can't be two files", s.Desc, strings.Join(args, " "), name)
	}
	r.done(t)
}

func init() {
	register(&Prop{ID: "C12", Quick: 2000, Thorough: 9000, Exec: execC12, Gen: genC12,
		Rule:   "a run is one command on one input (honest, forged or cut short): executed once on one simulated CPU without interleaving, then four times with the same entropy under other CPU counts (1 to 256), batch and buffer sizes and seeded schedules; verdict, listed hashes and every byte of every file must agree and every execution must end; non-trivial if an execution with several CPUs or task switches was compared",
		Assume: []string{"interleavings at statement granularity (no weak-memory effects)", "powers up to 4 (quick) or 6 (thorough), circuits up to about 40 constraints"}})
	register(&Prop{ID: "C13", Quick: 2800, Thorough: 9000, Exec: execC13, Gen: genC13,
		Rule:   "a run is one file-writing command: executed once without faults, then ten times with one write, create, close, seek or sync failing, coming up short or meeting a full disk, once or from then on; success must mean files equal to the fault-free ones; non-trivial if a fault took effect",
		Assume: []string{"files gnark itself reads (split dumps) see no faults", "a failing close of a written file loses its tail"}})
	register(&Prop{ID: "C14", Quick: 2000, Thorough: 9000, Exec: execC14, Gen: genC14,
		Rule:   "a run is one command: executed once without faults, then with single or persisting read, open, seek or stat failures and with short reads at seeded places; success must mean the fault-free result, short reads must never matter, and verification must not accept what it could not read; non-trivial if a fault took effect",
		Assume: []string{"files gnark itself reads (split dumps) see no faults"}})
	for _, c := range []string{"C12", "C13", "C14"} {
		deathOK[c] = false
	}
}
