package harness

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"

	"MODULE/internal/verifsim/simrt"
)

var hashRe = regexp.MustCompile(`[0-9a-f]{64}`)

// listedHashes are the digests a verification printed, in order.
func listedHashes(out string) []string {
	var l []string
	for _, h := range hashRe.FindAllString(out, -1) {
		if len(l) == 0 || l[len(l)-1] != h {
			l = append(l, h)
		}
	}
	return l
}

// checkListing: the ledger appears in order, and nothing else is listed.
func checkListing(out string, ledger []string) error {
	got := listedHashes(out)
	in := map[string]bool{}
	for _, h := range ledger {
		in[h] = true
	}
	i := 0
	for _, h := range got {
		if !in[h] {
			return fmt.Errorf("a hash is listed that no contributor saw: %s", h)
		}
		if i < len(ledger) && h == ledger[i] {
			i++
		}
	}
	if i < len(ledger) {
		return fmt.Errorf("contribution %d of %d (%s) is not listed in its place", i+1, len(ledger), ledger[i])
	}
	return nil
}

// Chain1 is an honest phase-1 ceremony built by the model, with known secrets.
type Chain1 struct {
	Power  int
	Origin []byte // transformed start file, nil for an initialised ceremony
	States []Exps // before and after each contribution
	Recs   []*Rec1
}

func randExps(r *Rng) Exps { return Exps{randFr(r), randFr(r), randFr(r)} }

func newChain1(power int, start Exps, transformed bool) *Chain1 {
	c := &Chain1{Power: power, States: []Exps{start}}
	if transformed {
		c.Origin = c.file(0)
	}
	return c
}

func (c *Chain1) last() Exps { return c.States[len(c.States)-1] }
func (c *Chain1) prevHash() []byte {
	if len(c.Recs) == 0 {
		return nil
	}
	return c.Recs[len(c.Recs)-1].Hash
}

// contribute appends an honest record.
func (c *Chain1) contribute(d Exps, r *Rng) {
	rec, n := makeRec1(c.last(), d, c.prevHash(), r)
	rec.bytes()
	c.Recs = append(c.Recs, rec)
	c.States = append(c.States, n)
}

// file is the ceremony file after n contributions.
func (c *Chain1) file(n int) []byte {
	x := c.States[n]
	p := x.points(c.Power)
	return buildP1(c.Power, &p, c.Recs[:n])
}

// enlarge turns the phase-1 file into one of a larger power: every section gets
// room for as many points as that takes, of which only those of the smaller
// power are there. The rest is a hole in the file.
func (r *Run) enlarge(dir, name string, power, to int) {
	b := readFile(dir, name)
	n, m := int64(1)<<power, int64(1)<<to
	from, at := int64(3), int64(3)
	f, err := os.Create(dir + "/" + name)
	if err != nil {
		panic(harnessErr{err})
	}
	defer f.Close()
	put := func(b []byte, at int64) {
		if _, err := f.WriteAt(b, at); err != nil {
			panic(harnessErr{err})
		}
	}
	put(append([]byte{byte(to)}, b[1:3]...), 0)
	for _, s := range [][2]int64{{32 * (2*n - 1), 32 * (2*m - 1)}, {32 * n, 32 * m}, {32 * n, 32 * m}, {64 * n, 64 * m}} {
		put(b[from:from+s[0]], at)
		from += s[0]
		at += s[1]
	}
	put(b[from:], at)
}

// enlargePtau does the same to an external file.
func (r *Run) enlargePtau(dir, name string, power, to int) {
	b := readFile(dir, name)
	n, m := int64(1)<<power, int64(1)<<to
	from, at := int64(64), int64(64)
	f, err := os.Create(dir + "/" + name)
	if err != nil {
		panic(harnessErr{err})
	}
	defer f.Close()
	put := func(b []byte, at int64) {
		if _, err := f.WriteAt(b, at); err != nil {
			panic(harnessErr{err})
		}
	}
	put(b[:64], 0)
	for _, s := range [][2]int64{{64 * (2*n - 1), 64 * (2*m - 1)}, {128 * n, 128 * m}, {64 * n, 64 * m}, {64 * n, 64 * m}} {
		put(b[from:from+s[0]], at)
		from += s[0]
		at += s[1]
	}
	put(b[from:], at)
}

func buildP1(power int, p *P1Points, recs []*Rec1) []byte {
	b := append(p1Header(power, len(recs)), p.bytes()...)
	for _, r := range recs {
		b = append(b, r.bytes()...)
	}
	return b
}

// verify1 runs the phase-1 verification the way a user does.
func (r *Run) verify1(env Env, file, origin []byte) *Proc {
	m := map[string][]byte{"cur.ph1": file}
	args := []string{"p1v", "cur.ph1"}
	if origin != nil {
		m["origin.ph1"] = origin
		args = []string{"p1vt", "cur.ph1", "origin.ph1"}
	}
	d := r.DirWith("v", m)
	p := r.Exec(d, env, nil, args...)
	r.dropDir(d)
	return p
}

func (r *Run) dropDir(d string) {
	os.Chdir(r.base)
	if filepath.Dir(d) == r.base {
		os.RemoveAll(d)
	}
}

// Chain2 is an honest phase-2 ceremony with known secrets over arbitrary points.
type Chain2 struct {
	H      Header2
	Z, PKK []Fr // scalars at delta = start
	Deltas []Fr
	Recs   []*Rec2
}

func newChain2(h Header2, start Fr, r *Rng) *Chain2 {
	c := &Chain2{H: h, Deltas: []Fr{start}}
	c.Z = coefs(r, h.Domain-1)
	c.PKK = coefs(r, h.Witness)
	return c
}

func chainOf(q *QAP) *Chain2 {
	return &Chain2{H: q.H, Deltas: []Fr{one()}, Z: q.Z, PKK: q.PKK}
}

func (c *Chain2) last() Fr { return c.Deltas[len(c.Deltas)-1] }
func (c *Chain2) prevHash() []byte {
	if len(c.Recs) == 0 {
		return nil
	}
	return c.Recs[len(c.Recs)-1].Hash
}

func (c *Chain2) contribute(d Fr, r *Rng) {
	rec, n := makeRec2(c.last(), d, c.prevHash(), r)
	rec.bytes()
	c.Recs = append(c.Recs, rec)
	c.Deltas = append(c.Deltas, n)
}

func (c *Chain2) pts(n int) *P2Points {
	var k Fr
	k.Div(&c.Deltas[0], &c.Deltas[n])
	return &P2Points{D1: g1x(&c.Deltas[n]), D2: g2x(&c.Deltas[n]), Z: batch1(scaled(c.Z, &k)), PKK: batch1(scaled(c.PKK, &k))}
}

func (p *P2Points) bytes() []byte {
	b := enc(false, p.D1, p.D2)
	for _, l := range [][]G1{p.Z, p.PKK} {
		for i := range l {
			x := l[i].Bytes()
			b = append(b, x[:]...)
		}
	}
	return b
}

func buildP2(h Header2, p *P2Points, recs []*Rec2) []byte {
	b := p.bytes()
	for _, r := range recs {
		b = append(b, r.bytes()...)
	}
	h.Contributions = len(recs)
	return (&P2{Raw: b}).withHeader(h)
}

func (c *Chain2) file(n int) []byte { return buildP2(c.H, c.pts(n), c.Recs[:n]) }

func (r *Run) verify2(env Env, file, origin []byte) *Proc {
	d := r.DirWith("v", map[string][]byte{"cur.ph2": file, "origin.ph2": origin})
	p := r.Exec(d, env, nil, "p2v", "cur.ph2", "origin.ph2")
	r.dropDir(d)
	return p
}

// circuitOf builds the plan's circuit, adjusting it until gnark compiles it.
func (r *Run) circuitOf(p *Plan, lazify bool) *Circuit {
	s := specOf(p)
	var err error
	for i := 0; i < 8; i++ {
		var c *Circuit
		if e := safely(func() (e error) { c, e = s.Build(lazify); return }); e == nil {
			switch cs := c.CS; {
			case cs.GetNbSecretVariables()+cs.NbInternalVariables == 0:
				r.probe("circuit without witness")
			case cs.GetNbSecretVariables() == 0:
				r.probe("circuit without secret inputs")
			case cs.NbInternalVariables == 0:
				r.probe("circuit without internal wires")
			}
			return c
		} else {
			err = e
		}
		s.Seed = mix(s.Seed)
	}
	r.broken("no circuit from %+v: %v", s, err)
	return nil
}

// warmup runs one fixed ceremony so that process-wide state (gob type numbers,
// lazily built tables) is the same before every run.
func warmup(base string) {
	dir, err := os.MkdirTemp(base, "warm")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	r := &Run{Plan: &Plan{}, base: dir, Fired: map[string]int{}, Probes: map[string]int{}, devs: map[string][]simrt.Dev{}}
	rng := NewRng(1, "warmup")
	c, err := CircuitSpec{Seed: 5, Pub: 2, Sec: 2, Gates: 2, ComPub: 1, ComSec: 1}.Build(false)
	if err != nil {
		fmt.Fprintln(os.Stderr, "warmup:", err)
		os.Exit(3)
	}
	ch := newChain1(3, unitExps(), false)
	ch.contribute(randExps(rng), rng)
	d := r.DirWith("w", map[string][]byte{"a.ph1": ch.file(1), "c.r1cs": c.Bytes})
	env := Env{CPUs: 2, Rng: 9}
	r.Exec(d, env, nil, "p1c", "a.ph1", "b.ph1")
	r.Exec(d, env, nil, "p1v", "b.ph1")
	r.Exec(d, env, nil, "p2n", "a.ph1", "c.r1cs", "0.ph2")
	r.Exec(d, env, nil, "p2c", "0.ph2", "1.ph2")
	r.Exec(d, env, nil, "p2v", "1.ph2", "0.ph2")
	r.Exec(d, env, nil, "key", "1.ph2")
	r.Exec(d, env, nil, "keys", "1.ph2", "s")
	r.Exec(d, env, nil, "sol", "s")
	for _, lazy := range []bool{false, true} {
		p := &Plan{P: map[string]int64{"seedc": 5, "pub": 2, "sec": 2, "gates": 4, "comsec": 1}}
		n := len(rows(r.circuitOf(p, lazy).CS))
		k := r.circuitOf(p, lazy).CS.GetNbR1C()
		f := r.dump(p, lazy, 2)
		f["a.ph1"], _ = honestP1(powerFor(n), 1, rng)
		d := r.DirWith("w", f)
		r.Exec(d, env, nil, "p2np", "a.ph1", "s", "0.ph2", fmt.Sprint(n), fmt.Sprint(k), "2")
	}
	h := newChain2(Header2{Domain: 2}, one(), rng)
	parseP2(h.file(0))
	q := NewQAP(c.CS, ch.last())
	q.checkMono(Snapshot(d), ptr(one()))
	q.checkCom(nil)
	os.Chdir(base)
	os.RemoveAll(dir)
}
