package harness

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"

	"MODULE/internal/verifsim/sio"
)

// Scene is one command with everything it needs, and what is known about it.
type Scene struct {
	Kind   string
	Args   []string
	Files  map[string][]byte
	Verify bool
	Desc   string
	// for ceremony files the command writes: how to tell a complete one
	OutP1, OutP2 string
	Origin       []byte
	Chain1       *Chain1
	Q            *QAP
	Cir          *Circuit
	Delta        Fr
}

// sceneKinds lists the commands; verifications last.
var sceneKinds = []string{"p1n", "p1c", "p1t", "p2n", "p2np", "p2c", "key", "keys", "sol", "p1v", "p1vt", "p2v"}

// ptau is the uncompressed file of an external ceremony.
func ptau(power int, x Exps, rng *Rng) []byte {
	p := x.points(power)
	return ptauOf(&p, rng)
}

func ptauOf(p *P1Points, rng *Rng) []byte {
	b := rng.Bytes(64)
	g1 := func(l []G1) {
		for i := range l {
			r := l[i].RawBytes()
			b = append(b, r[:]...)
		}
	}
	g2 := func(l ...G2) {
		for i := range l {
			r := l[i].RawBytes()
			b = append(b, r[:]...)
		}
	}
	g1(p.Tau1)
	g2(p.Tau2...)
	g1(p.Alpha1)
	g1(p.Beta1)
	g2(p.Beta2)
	return b
}

// scene builds the scene of a kind from the plan's parameters.
func (r *Run) scene(kind string, p *Plan, rng *Rng) *Scene {
	s := &Scene{Kind: kind, Files: map[string][]byte{}}
	// Files that the command has nothing to do with.
	s.Files["notes.txt"] = []byte("hashes seen so far: none\n")
	s.Files["older.ph1"] = rng.Bytes(300)
	power := p.get("power")
	if power < 1 {
		power = 1
	}
	recs := p.get("recs")
	chain1 := func(n int, transformed bool) *Chain1 {
		var c *Chain1
		if transformed {
			c = newChain1(power, randExps(rng), true)
		} else {
			c = newChain1(power, unitExps(), false)
		}
		for i := 0; i < n; i++ {
			c.contribute(randExps(rng), rng)
		}
		s.Chain1 = c
		return c
	}
	circuit := func(lazy bool) (*Circuit, *QAP, []byte, int) {
		cir := r.circuitOf(p, lazy)
		n := len(rows(cir.CS))
		ph1, x := honestP1(powerFor(n)+p.get("extra"), recs, rng)
		s.Cir = cir
		s.Q = NewQAP(cir.CS, x)
		return cir, s.Q, ph1, n
	}
	chain2 := func(n int) *Chain2 {
		_, q, _, _ := circuit(false)
		c := chainOf(q)
		for i := 0; i < n; i++ {
			c.contribute(randFr(rng), rng)
		}
		s.Delta = c.last()
		return c
	}
	switch kind {
	case "p1n":
		s.Args, s.OutP1 = []string{"p1n", fmt.Sprint(power), "out.ph1"}, "out.ph1"
		s.Chain1 = newChain1(power, unitExps(), false)
	case "p1c":
		c := chain1(recs, p.get("transformed") == 1)
		s.Files["in.ph1"] = c.file(recs)
		s.Args, s.OutP1, s.Origin = []string{"p1c", "in.ph1", "out.ph1"}, "out.ph1", c.Origin
	case "p1v":
		s.Files["in.ph1"] = chain1(recs+1, false).file(recs + 1)
		s.Args, s.Verify = []string{"p1v", "in.ph1"}, true
	case "p1vt":
		c := chain1(recs+1, true)
		s.Files["in.ph1"], s.Files["origin.ph1"] = c.file(recs+1), c.Origin
		s.Args, s.Verify = []string{"p1vt", "in.ph1", "origin.ph1"}, true
	case "p1t":
		x := randExps(rng)
		s.Files["in.ptau"] = ptau(power+p.get("extra"), x, rng)
		s.Chain1 = newChain1(power, x, true)
		s.Args, s.OutP1 = []string{"p1t", "in.ptau", "out.ph1", fmt.Sprint(power + p.get("extra")), fmt.Sprint(power)}, "out.ph1"
	case "p2n":
		cir, _, ph1, _ := circuit(p.get("lazy") == 1)
		s.Files["in.ph1"], s.Files["c.r1cs"] = ph1, cir.Bytes
		s.Args, s.OutP2 = []string{"p2n", "in.ph1", "c.r1cs", "out.ph2"}, "out.ph2"
	case "p2np":
		cir, _, ph1, n := circuit(p.get("lazy") == 1)
		s.Files["in.ph1"] = ph1
		nbR1C := cir.CS.GetNbR1C()
		part := p.get("part")
		if part < 1 {
			part = 1
		}
		for k, b := range r.dump(p, p.get("lazy") == 1, part) {
			s.Files[k] = b
		}
		s.Args, s.OutP2 = []string{"p2np", "in.ph1", "s", "out.ph2", fmt.Sprint(n), fmt.Sprint(nbR1C), fmt.Sprint(part)}, "out.ph2"
	case "p2c":
		c := chain2(recs)
		s.Files["in.ph2"], s.Files["origin.ph2"] = c.file(recs), c.file(0)
		s.Args, s.OutP2, s.Origin = []string{"p2c", "in.ph2", "out.ph2"}, "out.ph2", c.file(0)
	case "p2v":
		c := chain2(recs + 1)
		s.Files["in.ph2"], s.Files["origin.ph2"] = c.file(recs+1), c.file(0)
		s.Args, s.Verify = []string{"p2v", "in.ph2", "origin.ph2"}, true
	case "key", "keys", "sol":
		c := chain2(recs)
		s.Files["in.ph2"] = c.file(recs)
		s.Files["evals"] = append(append([]byte(nil), s.Q.evalsHead()...), gobCom(s.Q.Com)...)
		s.Args = []string{"key", "in.ph2"}
		if kind != "key" {
			s.Args = []string{"keys", "in.ph2", "s"}
		}
		if kind == "sol" {
			d := r.DirWith("pre", s.Files)
			r.must("extract-failed", r.Exec(d, Env{CPUs: 2, Rng: rng.U()}, nil, s.Args...))
			s.Files = Snapshot(d)
			r.dropDir(d)
			s.Args = []string{"sol", "s"}
		}
	default:
		r.broken("no scene %s", kind)
	}
	s.Desc = kind
	if s.Cir != nil {
		s.Desc += fmt.Sprintf(" (%d constraints, %d records)", len(rows(s.Cir.CS)), recs)
	} else {
		s.Desc += fmt.Sprintf(" (power %d, %d records)", power, recs)
	}
	return s
}

// dump writes the split form of the plan's circuit and returns its files.
func (r *Run) dump(p *Plan, lazy bool, part int) map[string][]byte {
	d := r.Dir("dump")
	os.Chdir(d)
	c := r.circuitOf(p, lazy) // SplitDumpBinary uses the system up
	if err := safely(func() error { return c.CS.SplitDumpBinary("s", part) }); err != nil {
		r.broken("dump: %v", err)
	}
	m := Snapshot(d)
	r.dropDir(d)
	return m
}

// genScene draws a kind's parameters.
func genScene(r *Rng, p *Plan, kind string) {
	p.Tmpl = kind
	p.P["seedx"] = int64(r.U() >> 1)
	p.P["power"] = int64(r.Pick(1, 1, 2, 2, 3, 4))
	p.P["recs"] = int64(r.Pick(0, 1, 1, 2, 3))
	p.P["extra"] = int64(r.Pick(0, 0, 1, 2))
	p.P["transformed"] = int64(r.N(2))
	p.P["lazy"] = int64(r.N(2))
	p.P["part"] = int64(r.Pick(1, 2, 3, 5, 1000))
	genCircuit(r, p.P, 12)
	switch kind {
	case "keys", "sol", "p2np", "p2n", "p2c":
		if r.P(1, 2) {
			genCommit(r, p.P)
		}
	}
}

// Trial is one execution of a scene.
type Trial struct {
	*Proc
	Dir    string
	Before map[string][]byte
	After  map[string][]byte
}

// try executes a scene in a directory of its own. Call done afterwards.
func (r *Run) try(s *Scene, env Env, faults []sio.Fault, args ...string) *Trial {
	t := &Trial{Dir: r.DirWith("t", s.Files), Before: s.Files}
	if len(args) == 0 {
		args = s.Args
	}
	t.Proc = r.Exec(t.Dir, env, faults, args...)
	t.After = Snapshot(t.Dir)
	return t
}

func (r *Run) done(t *Trial) { r.dropDir(t.Dir) }

// changed lists the files that are new or different.
func (t *Trial) changed() map[string]bool {
	m := map[string]bool{}
	for n, b := range t.After {
		if o, ok := t.Before[n]; !ok || !bytes.Equal(o, b) {
			m[n] = true
		}
	}
	for n := range t.Before {
		if _, ok := t.After[n]; !ok {
			m[n] = true
		}
	}
	return m
}

// hangs reports a command that never ended.
func (p *Proc) hangs() bool { return p.Res.Kind == "deadlock" || p.Res.Kind == "steplimit" }

// sameResult compares what two successful trials of a scene left behind.
// Commitment keys are random by nature but drawn from the same stream here.
func sameResult(a, b *Trial) string {
	out := a.changed()
	for _, n := range keys(a.After) {
		x, ok := b.After[n]
		if !ok {
			return fmt.Sprintf("%s is missing", n)
		}
		if !bytes.Equal(a.After[n], x) {
			what := "input "
			if out[n] {
				what = "output "
			}
			return fmt.Sprintf("%s%s differs (%d and %d bytes, %s)", what, n, len(a.After[n]), len(x), firstDiff(a.After[n], x))
		}
	}
	return ""
}

// at turns a fraction in millionths (or a small negative or positive offset
// encoded beyond that) into an operation index below n.
func at(x int64, n int) int {
	if n <= 0 {
		return 0
	}
	switch {
	case x >= 2000000: // from the end
		k := n - 1 - int(x-2000000)
		if k < 0 {
			k = 0
		}
		return k
	case x >= 1000000: // from the start
		k := int(x - 1000000)
		if k >= n {
			k = n - 1
		}
		return k
	}
	return int(uint64(x) * uint64(n) / 1000000)
}

// genAt draws a position.
func genAt(r *Rng) int64 {
	switch r.N(5) {
	case 0:
		return 1000000 + int64(r.N(6))
	case 1, 2:
		return 2000000 + int64(r.N(6))
	}
	return int64(r.N(1000000))
}

func join(dir, name string) string { return filepath.Join(dir, name) }

func sortStrings(l []string) { sort.Strings(l) }
