package harness

import (
	"bytes"
	"fmt"

	"MODULE/internal/verifsim/sio"
)

// ------------------------------------------------------------- C05

func genC05(r *Rng, idx int, thorough bool) *Plan {
	p := &Plan{P: map[string]int64{"seedx": int64(r.U() >> 1)}}
	max := 24
	if thorough {
		max = 60
	}
	genCircuit(r, p.P, max)
	p.Tmpl = []string{"plain", "commit", "plain", "too-small", "plain", "commit"}[idx%6]
	if p.Tmpl == "commit" {
		genCommit(r, p.P)
	}
	if idx%37 == 5 {
		p.P["mimc"] = 1
		p.Tmpl = "mimc"
		p.P["lazy"] = int64(idx / 37 % 2)
	}
	p.P["extra"] = int64(r.Pick(0, 0, 0, 1, 1, 2)) // power beyond what the circuit needs
	p.P["recs"] = int64(r.N(3))
	if idx%11 == 3 && p.Tmpl != "mimc" {
		bigTarget(r, p.P, thorough)
	}
	if midRun(idx) && p.Tmpl != "mimc" && p.Tmpl != "too-small" {
		midTarget(r, p.P)
	}
	e := wideEnv(r)
	e.Batch = 0
	if wideRun(idx, thorough) {
		p.Tmpl = r.PickS("plain", "commit")
		if p.Tmpl == "commit" {
			genCommit(r, p.P)
		}
		wideWires(r, p.P)
		e = wideSections(r)
	}
	p.Ops = []Op{{K: "init", Env: &e}}
	if giantRun(idx) && p.Tmpl != "too-small" {
		p.P["giant"] = int64(r.Pick(20, 23, 24, 25, 26, 28))
		p.P["extra"] = 0
	}
	return p
}

// giantRun says which runs read a file of gigabytes (most of it a hole).
func giantRun(idx int) bool { return idx%31 == 12 }

// powerFor is the smallest power the tool has for so many constraints.
func powerFor(n int) int {
	k := 1
	for 1<<k < n {
		k++
	}
	return k
}

// honestP1 is a phase-1 file (made by the model) with secrets known to the harness.
func honestP1(power, recs int, rng *Rng) ([]byte, Exps) {
	c := newChain1(power, unitExps(), false)
	if recs == 0 { // the start of a transformed ceremony
		c = newChain1(power, randExps(rng), true)
	}
	for i := 0; i < recs; i++ {
		c.contribute(randExps(rng), rng)
	}
	return c.file(len(c.Recs)), c.last()
}

func execC05(r *Run, p *Plan) {
	rng := NewRng(uint64(p.P["seedx"]), "x")
	cir := r.circuitOf(p, p.get("lazy") == 1)
	n := len(rows(cir.CS))
	power := powerFor(n) + p.get("extra")
	if p.Tmpl == "too-small" {
		power = powerFor(n) - 1
		if power < 1 {
			power = 1
		}
	}
	ph1, x := honestP1(power, p.get("recs"), rng)
	d := r.DirWith("c", map[string][]byte{"c.ph1": ph1, "c.r1cs": cir.Bytes})
	env := p.Ops[0].env()
	if g := p.get("giant"); g > power {
		r.enlarge(d, "c.ph1", power, g)
		power = g
		env.Stale, env.Paths = 0, 0
		r.probe(fmt.Sprintf("phase-1 file of power %d", g))
	}
	pr := r.Exec(d, env, nil, "p2n", "c.ph1", "c.r1cs", "0.ph2")
	r.Oracles++
	r.Sample = fmt.Sprintf("%s: %d constraints, %d wires, %d public, %d committed, power %d", p.Tmpl, n, wiresOf(cir.CS), cir.CS.GetNbPublicVariables(), len(cir.CS.CommitmentInfo.Committed), power)
	if 1<<power < n {
		r.NonTriv = true
		if pr.OK() {
			r.fail("too-small-accepted", "power %d was accepted for %d constraints", power, n)
		}
		if !pr.Clean() {
			r.fail("too-small-crash", "power %d for %d constraints: %s", power, n, pr)
		}
		return
	}
	if !pr.OK() {
		r.fail("init-failed", "%s: %s", r.Sample, pr)
	}
	q := NewQAP(cir.CS, x)
	if err := q.checkInit(Snapshot(d), "0.ph2"); err != nil {
		r.fail("wrong-parameters", "%s: %v", r.Sample, err)
	}
	r.NonTriv = true
}

// ------------------------------------------------------------- C06, C07

func genHeader2(r *Rng, p map[string]int64, thorough bool) {
	p["domain"] = int64(r.Pick(1, 1, 2, 3, 4, 5)) // log2
	p["witness"] = int64(r.Pick(0, 1, 2, 3, 5, 8, 13, 16, 17, 33))
	if thorough && r.P(1, 6) {
		p["domain"] = int64(r.Pick(6, 7))
		p["witness"] = int64(r.N(200))
	}
	p["wirediff"] = int64(r.Pick(1, 2, 3, 60, 200)) // other header values; they shift where the points start
	p["start"] = int64(r.N(3))
}

func headerOf(p *Plan) Header2 {
	d := p.get("domain")
	if d < 1 {
		d = 1
	}
	h := Header2{Domain: 1 << d, Witness: p.get("witness"), Public: p.get("wirediff")}
	h.Wires = h.Witness + h.Public
	h.Constraints = h.Domain - d%2
	return h
}

func genChain2(r *Rng, idx int, thorough, verify bool) *Plan {
	p := &Plan{P: map[string]int64{"seedx": int64(r.U() >> 1)}}
	p.Tmpl = []string{"synthetic", "circuit", "prefix", "synthetic"}[idx%4]
	genHeader2(r, p.P, thorough)
	if p.Tmpl == "circuit" {
		genCircuit(r, p.P, 16)
		if r.P(1, 3) {
			genCommit(r, p.P)
		}
		p.P["recs"] = 1
	}
	n := 1 + r.N(5)
	if p.Tmpl == "prefix" {
		p.P["prefix"] = int64(r.Pick(1, 2, 3, 5, 10, 30, 62, 63, 64))
		n = 1 + r.N(3)
		if idx%32 == 2 {
			p.P["prefix"] = int64(r.Pick(126, 127, 128, 200, 255, 256))
		}
	}
	for i := 0; i < n; i++ {
		e := genEnv(r)
		op := Op{K: "c", Env: &e}
		if verify && r.P(1, 3) {
			a := r.Pick(0, 1, 2)
			op.F = []sio.Fault{{Kind: r.PickS("write", "read", "any"), At: r.N(8), Act: []string{"err", "crash", "power"}[a], Arg: r.U()}}
		}
		p.Ops = append(p.Ops, op)
	}
	if wideRun(idx, thorough) {
		p.Tmpl = "prefix"
		p.P["domain"], p.P["witness"], p.P["prefix"] = 8, int64(65537+r.N(100)), 1
		if r.P(1, 2) {
			p.P["domain"], p.P["witness"] = 17, 30
		}
		p.P["wide"] = 1
		k := "c"
		if verify {
			k = "v"
		}
		p.Ops = []Op{{K: k, Env: envp(wideSections(r))}}
		return p
	}
	if verify && longRun(idx, thorough) {
		p.Tmpl, p.P["wide"] = "prefix", 1
		p.P["prefix"] = int64(r.Pick(1000, 1001, 1024, 1025, 1030, 2049, 4097))
		p.Ops = []Op{{K: "v", Env: envp(wideSections(r))}}
		return p
	}
	if verify {
		e := genEnv(r)
		p.Ops = append(p.Ops, Op{K: "v", Env: &e})
		if r.P(1, 2) {
			at := r.N(len(p.Ops))
			e := genEnv(r)
			p.Ops = append(p.Ops[:at:at], append([]Op{{K: "v", Env: &e}}, p.Ops[at:]...)...)
		}
	}
	return p
}

// startP2 prepares the origin and the current file.
func (r *Run) startP2(p *Plan, rng *Rng) (origin, cur []byte, delta Fr, ledger []string, what string) {
	if p.Tmpl == "circuit" {
		cir := r.circuitOf(p, false)
		n := len(rows(cir.CS))
		ph1, _ := honestP1(powerFor(n), 1, rng)
		d := r.DirWith("c", map[string][]byte{"c.ph1": ph1, "c.r1cs": cir.Bytes})
		r.must("init-failed", r.Exec(d, calmEnv(rng), nil, "p2n", "c.ph1", "c.r1cs", "0.ph2"))
		b := readFile(d, "0.ph2")
		r.dropDir(d)
		if _, err := parseP2(b); err != nil {
			r.fail("bad-initial-file", "p2n wrote %v", err)
		}
		return b, b, one(), nil, fmt.Sprintf("circuit with %d constraints", n)
	}
	start := one()
	c := newChain2(headerOf(p), start, rng)
	for i := 0; i < p.get("prefix"); i++ {
		c.contribute(randFr(rng), rng)
	}
	for _, rec := range c.Recs {
		ledger = append(ledger, fmt.Sprintf("%x", rec.Hash))
	}
	return c.file(0), c.file(len(c.Recs)), c.last(), ledger, fmt.Sprintf("header %+v, %d earlier records", c.H, len(c.Recs))
}

func execC06(r *Run, p *Plan) {
	rng := NewRng(uint64(p.P["seedx"]), "x")
	_, cur, delta, _, what := r.startP2(p, rng)
	r.Sample = fmt.Sprintf("%s, %d contributions", what, len(p.Ops))
	for i := range p.Ops {
		op := &p.Ops[i]
		d := r.DirWith("n", map[string][]byte{"in.ph2": cur})
		pr := r.must("contribute-failed", r.Exec(d, op.env(), nil, "p2c", "in.ph2", "out.ph2"))
		out := readFile(d, "out.ph2")
		r.dropDir(d)
		f, err := checkContribute2(cur, out, delta, pr, rng)
		r.Oracles++
		if err != nil {
			r.fail("bad-contribution", "contribution %d, %s: %v", i, what, err)
		}
		if !f.Known {
			r.probe("secrets not found among draws")
			break
		}
		delta, cur = f.New, out
		r.NonTriv = true
		r.mark([]byte(f.HashHex))
	}
}

func execC07(r *Run, p *Plan) {
	rng := NewRng(uint64(p.P["seedx"]), "x")
	origin, cur, _, ledger, what := r.startP2(p, rng)
	made := 0
	for i := range p.Ops {
		op := &p.Ops[i]
		switch op.K {
		case "c":
			d := r.DirWith("n", map[string][]byte{"in.ph2": cur})
			if len(op.F) > 0 {
				pr := r.Exec(d, op.env(), op.F, "p2c", "in.ph2", "out.ph2")
				if pr.Eng.FaultHit > 0 {
					r.probe("failed attempt repeated")
				}
			}
			e := op.env()
			e.Rng = mix(e.Rng)
			pr := r.must("contribute-failed", r.Exec(d, e, nil, "p2c", "in.ph2", "out.ph2"))
			cur = readFile(d, "out.ph2")
			r.dropDir(d)
			hs := hashRe.FindAllString(pr.Out, -1)
			if len(hs) == 0 {
				r.fail("no-hash", "the contributor was told no hash")
			}
			ledger = append(ledger, hs[len(hs)-1])
			made++
		case "v":
			if len(ledger) == 0 {
				continue
			}
			pr := r.verify2(op.env(), cur, origin)
			r.Oracles++
			if !pr.OK() {
				r.fail("honest-rejected", "%s, %d contributions: %s", what, len(ledger), pr)
			}
			if err := checkListing(pr.Out, ledger); err != nil {
				r.fail("wrong-listing", "%s: %v", what, err)
			}
			r.NonTriv = true
		}
	}
	r.Sample = fmt.Sprintf("%s, %d contributions", what, made)
}

// ------------------------------------------------------------- C08, C09

func genSound2(r *Rng, idx int, own, other []string, ownK, otherK string, thorough bool) *Plan {
	p := &Plan{P: map[string]int64{"seedx": int64(r.U() >> 1)}, Tmpl: "synthetic"}
	genHeader2(r, p.P, thorough)
	if r.P(1, 2) && p.P["witness"] == 0 {
		p.P["witness"] = 5
	}
	p.P["recs"] = int64(r.Pick(1, 1, 2, 3))
	if thorough && r.P(1, 8) {
		p.P["recs"] = int64(r.Pick(5, 20, 40))
	}
	p.Ops = genAttacks(r, idx, own, other, ownK, otherK, 6)
	if r.P(1, 8) {
		p.P["real"] = 1
	}
	if ownK == "params" && wideRun(idx, thorough) {
		p.P["real"] = 0
		p.P["domain"], p.P["witness"], p.P["recs"] = 17, 5, 1
		p.Ops = wideAttacks(r, 1<<17-1)
		p.P["wide"] = 1
	}
	return p
}

func execSound2(params bool) func(*Run, *Plan) {
	return func(r *Run, p *Plan) {
		rng := NewRng(uint64(p.P["seedx"]), "x")
		c := newChain2(headerOf(p), one(), rng)
		n := p.get("recs")
		if n < 1 {
			n = 1
		}
		for i := 0; i < n; i++ {
			c.contribute(randFr(rng), rng)
		}
		origin := c.file(0)
		honest := c.file(n)
		if p.get("start") == 1 && !params { // origin files may carry records of their own
			r.probe("origin with records")
		}
		ctl := r.verify2(calmEnv(rng), honest, origin)
		if !ctl.OK() {
			r.probe("control rejected")
		}
		if !ctl.OK() && p.get("wide") == 0 || p.get("real") == 1 {
			r.real(params, origin, origin, p, rng)
		}
		r.Sample = fmt.Sprintf("header %+v, %d records:", c.H, n)
		for i := range p.Ops {
			op := &p.Ops[i]
			arng := NewRng(uint64(p.P["seedx"])+uint64(op.arg(0))*977+uint64(op.arg(3)), op.str(0))
			var f *forge2
			what := op.str(0)
			r.Sample += " " + what
			if op.K == "params" {
				f = c.forge()
				attackParams2(f, c, op, arng)
			} else {
				f, what = attackChain2(c, op, arng)
			}
			b := f.bytes()
			if bytes.Equal(b, honest) {
				continue
			}
			pr := r.verify2(op.env(), b, origin)
			r.Oracles++
			if !pr.OK() {
				r.probe("rejected " + op.str(0))
				if ctl.OK() {
					r.NonTriv = true
				}
				continue
			}
			lay, ch, pa := RefVerifyP2(b, origin, arng)
			switch {
			case lay == nil && ch == nil && pa == nil:
				r.probe("accepted, and rightly")
			case params && pa != nil:
				r.fail("accepts-bad-parameters", "%d records, batch %d: verification accepts a file changed by %q %v: %v", n, op.env().Batch, what, op.A, pa)
			case !params && ch != nil:
				r.fail("accepts-bad-chain", "%d records: verification accepts a chain changed by %q %v: %v", n, what, op.A, ch)
			case lay != nil:
				r.fail("accepts-bad-layout", "%d records: verification accepts a file changed by %q %v: %v", n, what, op.A, lay)
			default:
				r.probe("accepted, another property's business")
			}
		}
	}
}

func init() {
	register(&Prop{ID: "C05", Quick: 1200, Thorough: 12000, Exec: execC05, Gen: genC05,
		Rule:   "a run is one random circuit (additions, products, inverses, selections, constants, unused and unconstrained inputs, committed inputs, sizes around powers of two, MiMC) initialised by the real p2n from a phase-1 file with known secrets, under its own schedule, CPU count and chunking, and every byte of the phase-2, Lagrange and evaluation files compared with an independent evaluation of the circuit's QAP; non-trivial if the comparison (or, for a too small phase-1 file, the refusal) was decided",
		Assume: []string{"circuits of up to about 30 (quick) or 70 (thorough) constraints, plus MiMC ones", "gnark's compiled constraint system is taken as the circuit"}})
	register(&Prop{ID: "C06", Quick: 2200, Thorough: 13000, Exec: execC06,
		Gen:    func(r *Rng, idx int, th bool) *Plan { return genChain2(r, idx, th, false) },
		Rule:   "a run is one phase-2 ceremony (start: p2n on a random circuit, or a synthetic origin with any header, or a chain of up to 256 records) in which every contribution runs the real p2c under its own schedule, CPU count, batch and buffer size and read chunking; non-trivial if at least one contribution's delta was recovered from the recorded entropy and all output points were compared with the input scaled by it",
		Assume: []string{"domains up to 32 (quick) or 128 (thorough)"}})
	register(&Prop{ID: "C07", Quick: 1500, Thorough: 10000, Exec: execC07,
		Gen:    func(r *Rng, idx int, th bool) *Plan { return genChain2(r, idx, th, true) },
		Rule:   "a run is one phase-2 ceremony with contributions that may first fail or crash and are then repeated, then verified against its origin under its own schedule, sizes and chunking; non-trivial if a verification of at least one contribution ran",
		Assume: []string{"domains up to 32 (quick) or 128 (thorough), chains up to 260 records"}})
	register(&Prop{ID: "C08", Quick: 2000, Thorough: 12000, Exec: execSound2(true),
		Gen: func(r *Rng, idx int, th bool) *Plan {
			return genSound2(r, idx, paramAttacks2, chainAttacks2, "params", "chain", th)
		},
		Rule:   "a run builds one honest phase-2 ceremony with known secrets, then for each attack writes a file whose header or parameters are forged in that way and runs the real verification against the origin under its own schedule; acceptance is judged by an independent verifier; non-trivial if the honest file was accepted and a forgery was refused",
		Assume: []string{"the forgeries come from a catalogue of attack shapes with random positions and factors"}})
	register(&Prop{ID: "C09", Quick: 2200, Thorough: 12000, Exec: execSound2(false),
		Gen: func(r *Rng, idx int, th bool) *Plan {
			return genSound2(r, idx, chainAttacks2, paramAttacks2, "chain", "params", th)
		},
		Rule:   "a run builds one honest phase-2 ceremony with known secrets, then for each attack writes a file whose contribution chain is forged in that way with everything else consistent, and runs the real verification; acceptance is judged by an independent verifier; non-trivial if the honest file was accepted and a forgery was refused",
		Assume: []string{"chains of up to 3 (quick) or 40 (thorough) records"}})
	deathOK["C08"], deathOK["C09"] = true, true
}
