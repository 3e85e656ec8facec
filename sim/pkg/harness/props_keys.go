package harness

import (
	"bytes"
	"fmt"
	"os"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/backend/witness"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
)

// prover makes a proof with extracted keys.
type prover func(w witness.Witness) (groth16.Proof, error)

// checkProofs: proofs for satisfying witnesses are accepted, and the same
// proofs for other public inputs are rejected.
func (r *Run) checkProofs(cir *Circuit, q *QAP, prove prover, vkb []byte, rng *Rng, n int) (int, error) {
	vk := groth16.NewVerifyingKey(ecc.BN254)
	if err := safely(func() error { _, e := vk.ReadFrom(bytes.NewReader(vkb)); return e }); err != nil {
		return 0, fmt.Errorf("the verifying key can't be read: %v", err)
	}
	done := 0
	for try := 0; try < 4*n && done < n; try++ {
		full, pub, err := cir.Witness(rng.U())
		if err != nil {
			continue
		}
		if err := cir.CS.IsSolved(full); err != nil && !q.Com.Is() {
			r.probe("witness does not satisfy")
			continue
		}
		var proof groth16.Proof
		if err := safely(func() (e error) { proof, e = prove(full); return }); err != nil {
			return done, fmt.Errorf("proving a satisfying witness failed: %v", err)
		}
		if err := safely(func() error { return groth16.Verify(proof, vk, pub) }); err != nil {
			return done, fmt.Errorf("a proof of a satisfying witness is rejected: %v", err)
		}
		done++
		r.Oracles++
		for i := 0; i < cir.CS.GetNbPublicVariables()-1; i++ {
			if q.VKK[i+1].IsZero() { // an input that occurs nowhere
				continue
			}
			other, err := changedPublic(pub, i, randFr(rng))
			if err != nil {
				r.broken("%v", err)
			}
			if err := safely(func() error { return groth16.Verify(proof, vk, other) }); err == nil {
				return done, fmt.Errorf("a proof is accepted for another value of public input %d", i)
			}
			r.Oracles++
		}
	}
	return done, nil
}

// ------------------------------------------------------------- C10

func genC10(r *Rng, idx int, thorough bool) *Plan {
	p := &Plan{P: map[string]int64{"seedx": int64(r.U() >> 1)}}
	max := 20
	if thorough {
		max = 60
	}
	genCircuit(r, p.P, max)
	p.Tmpl = []string{"chain", "model", "chain", "zero"}[idx%4]
	if idx%41 == 7 {
		p.P["mimc"] = 1
		p.P["lazy"] = int64(idx / 41 % 2)
		p.Tmpl = "mimc"
	}
	if midRun(idx) && p.P["mimc"] == 0 {
		midTarget(r, p.P)
	}
	if r.P(1, 2) && p.P["target"] < 200 {
		p.P["extra"] = int64(r.Pick(1, 2))
	}
	p.P["recs"] = int64(r.N(3))
	n := 1 + r.N(3)
	if p.Tmpl == "zero" {
		n = 0
	}
	e := genEnv(r)
	e.Batch = 0
	p.Ops = append(p.Ops, Op{K: "init", Env: &e})
	for i := 0; i < n; i++ {
		e := genEnv(r)
		p.Ops = append(p.Ops, Op{K: "c", Env: &e})
	}
	e2 := genEnv(r)
	p.Ops = append(p.Ops, Op{K: "key", Env: &e2})
	if wideRun(idx, thorough) {
		wideWires(r, p.P)
		for i := range p.Ops {
			p.Ops[i].Env = envp(wideSections(r))
		}
	}
	return p
}

// upToKeys runs a ceremony up to (not including) key extraction: in directory
// d there are then cur.ph2 and evals, made for delta.
func (r *Run) upToKeys(p *Plan, cir *Circuit, q *QAP, ph1 []byte, rng *Rng) (d string, delta Fr) {
	chain := chainOf(q)
	delta = one()
	if p.Tmpl == "model" {
		n := 0
		for i := range p.Ops {
			if p.Ops[i].K == "c" {
				chain.contribute(randFr(rng), rng)
				n++
			}
		}
		return r.DirWith("k", map[string][]byte{"cur.ph2": chain.file(n), "evals": append(append([]byte(nil), q.evalsHead()...), gobCom(q.Com)...), "c.r1cs": cir.Bytes}), chain.last()
	}
	d = r.DirWith("k", map[string][]byte{"c.ph1": ph1, "c.r1cs": cir.Bytes})
	env := Env{CPUs: 2, Rng: rng.U()}
	for i := range p.Ops {
		if p.Ops[i].K == "init" {
			env = p.Ops[i].env()
		}
	}
	r.must("init-failed", r.Exec(d, env, nil, "p2n", "c.ph1", "c.r1cs", "cur.ph2"))
	for i := range p.Ops {
		op := &p.Ops[i]
		if op.K != "c" {
			continue
		}
		pr := r.must("contribute-failed", r.Exec(d, op.env(), nil, "p2c", "cur.ph2", "next.ph2"))
		in, out := readFile(d, "cur.ph2"), readFile(d, "next.ph2")
		f, err := findSecret2(in, out, delta, pr)
		if err != nil {
			r.fail("bad-contribution", "%v", err)
		}
		delta = f
		os.Rename(d+"/next.ph2", d+"/cur.ph2")
	}
	return d, delta
}

// findSecret2 recovers the accumulated delta after a contribution.
func findSecret2(in, out []byte, old Fr, p *Proc) (Fr, error) {
	o, err := parseP2(out)
	if err != nil {
		return Fr{}, err
	}
	pt, err := o.points()
	if err != nil {
		return Fr{}, err
	}
	for _, c := range candidates(p.Draws) {
		var x Fr
		x.Mul(&old, &c)
		if g := g1x(&x); g.Equal(&pt.D1) {
			return x, nil
		}
	}
	return Fr{}, fmt.Errorf("the new delta isn't the old one times any value drawn")
}

func execC10(r *Run, p *Plan) {
	rng := NewRng(uint64(p.P["seedx"]), "x")
	cir := r.circuitOf(p, p.get("lazy") == 1)
	n := len(rows(cir.CS))
	ph1, x := honestP1(powerFor(n)+p.get("extra"), p.get("recs"), rng)
	q := NewQAP(cir.CS, x)
	d, delta := r.upToKeys(p, cir, q, ph1, rng)
	env := Env{CPUs: 2, Rng: rng.U()}
	for i := range p.Ops {
		if p.Ops[i].K == "key" {
			env = p.Ops[i].env()
		}
	}
	pr := r.Exec(d, env, nil, "key", "cur.ph2")
	r.Oracles++
	nc := len(p.Ops) - 2
	r.Sample = fmt.Sprintf("%d constraints, %d wires, %d public, %d contributions", n, wiresOf(cir.CS), cir.CS.GetNbPublicVariables(), nc)
	if !pr.OK() {
		r.fail("extract-failed", "%s: %s", r.Sample, pr)
	}
	files := Snapshot(d)
	if err := q.checkMono(files, &delta); err != nil {
		r.fail("wrong-keys", "%s: %v", r.Sample, err)
	}
	r.NonTriv = true
	done, err := r.checkProofs(cir, q, func(w witness.Witness) (groth16.Proof, error) {
		pk := groth16.NewProvingKey(ecc.BN254)
		if _, err := pk.ReadFrom(bytes.NewReader(files["pk"])); err != nil {
			return nil, err
		}
		return groth16.Prove(cir.CS, pk, w)
	}, files["vk"], rng, 1)
	if err != nil {
		r.fail("keys-do-not-work", "%s: %v", r.Sample, err)
	}
	if done == 0 {
		r.probe("no satisfying witness found")
	}
}

// ------------------------------------------------------------- C11

func genC11(r *Rng, idx int, thorough bool) *Plan {
	p := &Plan{P: map[string]int64{"seedx": int64(r.U() >> 1)}}
	max := 20
	if thorough {
		max = 50
	}
	genCircuit(r, p.P, max)
	p.Tmpl = []string{"plain", "commit", "plain", "commit"}[idx%4]
	if p.Tmpl == "commit" {
		genCommit(r, p.P)
	}
	if idx%17 == 5 {
		p.P["mimc"] = 1
		p.Tmpl += "-mimc"
	}
	p.P["lazy"] = 1
	if r.P(1, 5) {
		p.P["lazy"] = 0
	}
	p.P["part"] = int64(r.Pick(1, 2, 3, 5, 7, 10, 50, 100000))
	p.P["extra"] = int64(r.Pick(0, 0, 1))
	p.P["recs"] = int64(r.N(3))
	p.P["after"] = int64(r.N(2))
	if midRun(idx) && p.P["mimc"] == 0 {
		midTarget(r, p.P)
	}
	if giantRun(idx) {
		p.P["giant"] = int64(r.Pick(20, 23, 24, 25, 26, 28))
		p.P["extra"] = 0
	}
	for i, k := range []string{"init", "parted", "keys", "sol"} {
		e := genEnv(r)
		if i < 2 {
			e.Batch = 0
		}
		p.Ops = append(p.Ops, Op{K: k, Env: &e})
	}
	for i := r.N(3); i > 0; i-- {
		e := genEnv(r)
		p.Ops = append(p.Ops, Op{K: "c", Env: &e})
	}
	if wideRun(idx, thorough) {
		wideWires(r, p.P)
		for i := range p.Ops {
			p.Ops[i].Env = envp(wideSections(r))
		}
	}
	return p
}

func (p *Plan) envOf(kind string) Env {
	for i := range p.Ops {
		if p.Ops[i].K == kind {
			return p.Ops[i].env()
		}
	}
	return Env{CPUs: 2, Rng: uint64(p.P["seedx"])}
}

// loadSplit reads a dump the way a prover does. The library ends the process
// when a file is missing, so that is looked at first.
func loadSplit(session string, nbR1C, part int) (*cs_bn254.R1CS, error) {
	cs := groth16.NewCS(ecc.BN254)
	err := safely(func() error { cs.LoadFromSplitBinaryConcurrent(session, nbR1C, part, 2); return nil })
	if err != nil {
		return nil, err
	}
	return cs.(*cs_bn254.R1CS), nil
}

func execC11(r *Run, p *Plan) {
	rng := NewRng(uint64(p.P["seedx"]), "x")
	lazy := p.get("lazy") == 1
	cir := r.circuitOf(p, lazy)
	n := len(rows(cir.CS))
	nbR1C := cir.CS.GetNbR1C()
	part := p.get("part")
	if part < 1 {
		part = 1
	}
	ph1, x := honestP1(powerFor(n)+p.get("extra"), p.get("recs"), rng)
	q := NewQAP(cir.CS, x)
	r.Sample = fmt.Sprintf("%d constraints (%d stored) in parts of %d, %d wires, %d committed, %d contributions", n, nbR1C, part, wiresOf(cir.CS), len(cir.CS.CommitmentInfo.Committed), len(p.Ops)-4)

	dr := r.DirWith("reg", map[string][]byte{"c.ph1": ph1, "c.r1cs": cir.Bytes})
	enlarge := func(d string, env Env) Env {
		if g := p.get("giant"); g > powerFor(n)+p.get("extra") {
			r.enlarge(d, "c.ph1", powerFor(n)+p.get("extra"), g)
			env.Stale, env.Paths = 0, 0
			r.probe(fmt.Sprintf("phase-1 file of power %d", g))
		}
		return env
	}
	reg := r.Exec(dr, enlarge(dr, p.envOf("init")), nil, "p2n", "c.ph1", "c.r1cs", "0.ph2")
	d := r.DirWith("par", map[string][]byte{"c.ph1": ph1})
	os.Chdir(d)
	dump := r.circuitOf(p, lazy) // SplitDumpBinary uses the system up
	if err := safely(func() error { return dump.CS.SplitDumpBinary("s", part) }); err != nil {
		r.probe("dump failed")
		return
	}
	par := r.Exec(d, enlarge(d, p.envOf("parted")), nil, "p2np", "c.ph1", "s", "0.ph2", fmt.Sprint(n), fmt.Sprint(nbR1C), fmt.Sprint(part))
	r.Oracles++
	if reg.OK() && !par.OK() {
		r.fail("parted-failed", "%s: the regular way works, the parted doesn't: %s", r.Sample, par)
	}
	if !par.OK() {
		r.fail("init-failed", "%s: %s", r.Sample, par)
	}
	a, b := Snapshot(dr), Snapshot(d)
	if reg.OK() {
		for _, f := range []string{"0.ph2", "srs.lag", "evals"} {
			if !bytes.Equal(a[f], b[f]) {
				r.fail("parted-differs", "%s: %s of the parted initialisation differs from the regular one's: %s", r.Sample, f, firstDiff(a[f], b[f]))
			}
		}
	}
	if err := q.checkInit(b, "0.ph2"); err != nil {
		r.fail("wrong-parameters", "%s: %v", r.Sample, err)
	}
	r.NonTriv = true
	delta := one()
	os.Rename(d+"/0.ph2", d+"/cur.ph2")
	for i := range p.Ops {
		if p.Ops[i].K != "c" {
			continue
		}
		pr := r.must("contribute-failed", r.Exec(d, p.Ops[i].env(), nil, "p2c", "cur.ph2", "next.ph2"))
		f, err := findSecret2(readFile(d, "cur.ph2"), readFile(d, "next.ph2"), delta, pr)
		if err != nil {
			r.fail("bad-contribution", "%v", err)
		}
		delta = f
		os.Rename(d+"/next.ph2", d+"/cur.ph2")
	}
	ke := r.Exec(d, p.envOf("keys"), nil, "keys", "cur.ph2", "s")
	if !ke.OK() {
		r.fail("extract-failed", "%s: %s", r.Sample, ke)
	}
	files := Snapshot(d)
	if err := q.checkSplit(files, "s", &delta); err != nil {
		r.fail("wrong-keys", "%s: %v", r.Sample, err)
	}
	r.Oracles++
	so := r.Exec(d, p.envOf("sol"), nil, "sol", "s")
	if !so.OK() {
		r.fail("sol-failed", "%s: %s", r.Sample, so)
	}
	{
		if err := q.checkSol(string(readFile(d, "s.sol")), &delta); err != nil {
			r.fail("wrong-solidity", "%s: %v", r.Sample, err)
		}
		r.Oracles++
	}
	if cir.CS.CommitmentInfo.NbPublicCommitted() > 2 {
		// gnark's prover itself panics (Commitment.SerializeCommitment)
		r.probe("more committed public inputs than gnark's prover can take")
		return
	}
	os.Chdir(d)
	done, err := r.checkProofs(cir, q, func(w witness.Witness) (groth16.Proof, error) {
		cs, err := loadSplit("s", nbR1C, part)
		if err != nil {
			return nil, err
		}
		pks, err := groth16.ReadSegmentProveKey(ecc.BN254, "s")
		if err != nil {
			return nil, err
		}
		return groth16.ProveRoll(cs, pks[0], pks[1], w, "s")
	}, files["s.vk.save"], rng, 1)
	if err != nil {
		r.fail("keys-do-not-work", "%s: %v", r.Sample, err)
	}
	if done == 0 {
		r.probe("no satisfying witness found")
	}
}

var numAny = regexp.MustCompile(`\b[0-9]+\b`)

// checkSol: the numbers in the contract's verifyingKey function are the key's,
// in order, and so are the public points in its verifyProof function.
func (q *QAP) checkSol(src string, d *Fr) error {
	i, j := strings.Index(src, "function verifyingKey"), strings.Index(src, "function verifyProof")
	if i < 0 || j < i {
		return fmt.Errorf("the contract lacks its functions")
	}
	body := src[i:j]
	if k := strings.Index(body, "\n    }"); k > 0 {
		body = body[:k]
	}
	nums := func(s string) (l []string) {
		for _, x := range numAny.FindAllString(s, -1) {
			if len(x) > 30 {
				l = append(l, x)
			}
		}
		return
	}
	var want []string
	g1 := func(p G1) { want = append(want, p.X.String(), p.Y.String()) }
	g2 := func(p G2) { want = append(want, p.X.A1.String(), p.X.A0.String(), p.Y.A1.String(), p.Y.A0.String()) }
	g1(g1x(&q.X.Alpha))
	g2(g2x(&q.X.Beta))
	g2(gen2)
	g2(g2x(d))
	got := nums(body)
	if len(got) != len(want) {
		return fmt.Errorf("the contract's key has %d coordinates, not %d", len(got), len(want))
	}
	for k := range want {
		if got[k] != want[k] {
			return fmt.Errorf("coordinate %d of the contract's key is %s, not %s", k, got[k], want[k])
		}
	}
	// Nothing but source text, and all of it.
	depth := 0
	for k, c := range src {
		switch {
		case c == '{':
			depth++
		case c == '}':
			depth--
		case c == utf8.RuneError, c < ' ' && c != '\n' && c != '\t' && c != '\r':
			return fmt.Errorf("byte %d of the contract is no text", k)
		}
	}
	if depth != 0 || !strings.HasSuffix(strings.TrimSpace(src), "}") {
		return fmt.Errorf("the contract doesn't end where it should")
	}
	// K: zero points are written as 0.
	rest := src[j:]
	for w, p := range batch1(q.VKK) {
		for c, x := range []string{p.X.String(), p.Y.String()} {
			m := regexp.MustCompile(`uint256\(` + x + `\)`).FindStringIndex(rest)
			if m == nil {
				return fmt.Errorf("coordinate %d of the key's public point %d isn't in its place in the contract", c, w)
			}
			rest = rest[m[1]:]
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C10", Quick: 1200, Thorough: 9000, Exec: execC10, Gen: genC10,
		Rule:   "a run is one random circuit taken through p2n and contributions (or a model-built phase-2 file and evaluation file with known secrets) and the real key extraction under its own schedule, buffers and read chunking; every byte of pk and vk is compared with the keys computed from the circuit and the secrets, and a proof of a random satisfying witness is made, verified, and refused for other public inputs; non-trivial if the keys were compared",
		Assume: []string{"gnark's prover and verifier are used as they are", "circuits of up to about 30 (quick) or 70 (thorough) constraints, plus MiMC ones"}})
	register(&Prop{ID: "C11", Quick: 600, Thorough: 8000, Exec: execC11, Gen: genC11,
		Rule:   "a run is one random circuit initialised both regularly and from a split dump with a random part size, each under its own schedule; files are compared byte for byte and with the QAP, then contributions, split key extraction and Solidity export run and every key file and contract constant is compared with the values computed from circuit and secrets, and split-key proofs are made and verified; non-trivial if the initialisations were compared",
		Assume: []string{"gnark's dump, split prover and Solidity template are used as they are; gnark reads dumps without injected faults"}})
}
