package harness

import (
	"fmt"
)

// ------------------------------------------------------------- C03, C04

// genAttacks draws attacks: most from the property's own catalogue, some from
// the other one, whose forgeries may break this property too.
func genAttacks(r *Rng, idx int, own, other []string, ownK, otherK string, n int) []Op {
	var ops []Op
	for i := 0; i < n; i++ {
		e := genEnv(r)
		name, k := own[modn(idx*n+i, len(own))], ownK
		if i == n-1 {
			name, k = other[modn(idx, len(other))], otherK
		}
		op := Op{K: k, S: []string{name}, Env: &e}
		b := e.Batch
		if b == 0 {
			b = 8
		}
		at := func() int64 {
			if r.P(1, 2) {
				return int64(b*r.N(4) + r.Pick(-1, 0, 0, 1))
			}
			return int64(r.N(1 << 20))
		}
		op.A = []int64{int64(r.N(1 << 20)), at(), at(), int64(r.N(1 << 20))}
		ops = append(ops, op)
	}
	return ops
}

// wideAttacks is an attack on points beyond the 65536th.
func wideAttacks(r *Rng, n int) []Op {
	at := func() int64 { return int64(1<<16 + r.N(n-1<<16-2)) }
	return []Op{{K: "params", S: []string{r.PickS("point", "pair", "triple")}, Env: envp(wideSections(r)),
		A: []int64{0, at(), at(), int64(r.Pick(0, 2, 4, 5, 7))}}}
}

func genSound1(r *Rng, idx int, own, other []string, ownK, otherK string, thorough bool) *Plan {
	p := &Plan{P: map[string]int64{"seedx": int64(r.U() >> 1)}}
	p.Tmpl = []string{"init", "init", "transformed"}[idx%3]
	p.P["power"] = int64(r.Pick(1, 2, 2, 3, 3, 4, 4, 5))
	p.P["recs"] = int64(r.Pick(1, 1, 2, 2, 3))
	if thorough && r.P(1, 8) {
		p.P["power"] = int64(r.Pick(6, 7))
	}
	if r.P(1, 12) || thorough && r.P(1, 8) {
		p.P["recs"] = int64(r.Pick(5, 9, 17))
	}
	p.Ops = genAttacks(r, idx, own, other, ownK, otherK, 5)
	if r.P(1, 8) {
		p.P["real"] = 1
	}
	if ownK == "params" && wideRun(idx, thorough) {
		p.P["real"] = 0
		p.Tmpl, p.P["power"], p.P["recs"] = "init", 16, 1
		p.Ops = wideAttacks(r, 1<<17-1)
		p.P["wide"] = 1
	}
	return p
}

func honestChain1(p *Plan, rng *Rng) *Chain1 {
	power, recs := p.get("power"), p.get("recs")
	if power < 1 {
		power = 1
	}
	if recs < 1 {
		recs = 1
	}
	var c *Chain1
	if p.Tmpl == "transformed" {
		c = newChain1(power, randExps(rng), true)
	} else {
		c = newChain1(power, unitExps(), false)
	}
	for i := 0; i < recs; i++ {
		c.contribute(randExps(rng), rng)
	}
	return c
}

func execSound1(params bool) func(*Run, *Plan) {
	return func(r *Run, p *Plan) {
		rng := NewRng(uint64(p.P["seedx"]), "x")
		c := honestChain1(p, rng)
		honest := c.file(len(c.Recs))
		r.Sample = fmt.Sprintf("power %d, %d records, start %s:", c.Power, len(c.Recs), p.Tmpl)
		ctl := r.verify1(calmEnv(rng), honest, c.Origin)
		if !ctl.OK() {
			r.probe("control rejected") // C02's business
		}
		if !ctl.OK() && p.get("wide") == 0 || p.get("real") == 1 {
			r.real(params, c.Origin, c.file(0), p, rng)
		}
		for i := range p.Ops {
			op := &p.Ops[i]
			arng := NewRng(uint64(p.P["seedx"])+uint64(op.arg(0))*977+uint64(op.arg(3)), op.str(0))
			var f *forge1
			what := op.str(0)
			if op.K == "params" {
				f = c.forge()
				f.pts = clonePts(f.pts)
				attackParams1(f, c, op, arng)
			} else {
				f, what = attackChain1(c, op, arng)
			}
			b := f.bytes()
			if string(b) == string(honest) {
				continue
			}
			pr := r.verify1(op.env(), b, c.Origin)
			r.Oracles++
			if !pr.OK() {
				r.probe("rejected " + op.str(0))
				if ctl.OK() {
					r.NonTriv = true
				}
				continue
			}
			lay, ch, pa := RefVerifyP1(b, c.Origin, arng)
			if lay == nil && ch == nil && pa == nil {
				r.probe("accepted, and rightly")
				continue
			}
			switch {
			case params && pa != nil:
				r.fail("accepts-bad-parameters", "power %d, %d records, batch %d: verification accepts parameters changed by %q %v: %v", c.Power, len(c.Recs), op.env().Batch, what, op.A, pa)
			case !params && ch != nil:
				r.fail("accepts-bad-chain", "power %d, %d records: verification accepts a chain changed by %q %v: %v", c.Power, len(c.Recs), what, op.A, ch)
			case lay != nil:
				r.fail("accepts-bad-layout", "power %d, %d records: verification accepts a file changed by %q %v: %v", c.Power, len(c.Recs), what, op.A, lay)
			default:
				r.probe("accepted, another property's business")
			}
			_ = i
		}
		for _, op := range p.Ops {
			r.Sample += " " + op.str(0)
		}
	}
}

// real judges a ceremony that the real commands made, and accept, by what it
// should have been: prover and verifier may have gone wrong together.
func (r *Run) real(params bool, origin, start []byte, p *Plan, rng *Rng) {
	phase, verb := 1, "p1c"
	if p.Tmpl == "synthetic" {
		phase, verb = 2, "p2c"
	}
	d := r.DirWith("real", map[string][]byte{"0.cer": start})
	n := 2 + p.get("recs")%2
	for i := 0; i < n; i++ {
		if !r.Exec(d, calmEnv(rng), nil, verb, fmt.Sprintf("%d.cer", i), fmt.Sprintf("%d.cer", i+1)).OK() {
			r.dropDir(d)
			return
		}
	}
	b := readFile(d, fmt.Sprintf("%d.cer", n))
	r.dropDir(d)
	var pr *Proc
	var lay, ch, pa error
	if phase == 1 {
		pr = r.verify1(calmEnv(rng), b, origin)
	} else {
		pr = r.verify2(calmEnv(rng), b, origin)
	}
	r.Oracles++
	if !pr.OK() {
		return
	}
	if phase == 1 {
		lay, ch, pa = RefVerifyP1(b, origin, rng)
	} else {
		lay, ch, pa = RefVerifyP2(b, origin, rng)
	}
	r.probe("ceremony of the real commands judged")
	what := fmt.Sprintf("phase %d, %d contributions made by %s: verification accepts them, but", phase, n, verb)
	switch {
	case params && pa != nil:
		r.fail("accepts-bad-parameters", "%s %v", what, pa)
	case !params && ch != nil:
		r.fail("accepts-bad-chain", "%s %v", what, ch)
	case lay != nil:
		r.fail("accepts-bad-layout", "%s %v", what, lay)
	}
}

func init() {
	register(&Prop{ID: "C03", Quick: 1000, Thorough: 9000, Exec: execSound1(true),
		Gen: func(r *Rng, idx int, th bool) *Plan {
			return genSound1(r, idx, paramAttacks1, chainAttacks1, "params", "chain", th)
		},
		Rule:   "a run builds one honest ceremony with known secrets, then for each attack writes a file whose parameters are forged in that way (point, suffix, range or section replaced or rescaled, compensating pairs within and across batches, foreign or stale parameters, degenerate sections, bit flips) and runs the real verification under its own schedule; acceptance is judged by an independent verifier; non-trivial if the honest file was accepted and a forgery was refused",
		Assume: []string{"powers up to 5 (quick) or 7 (thorough)", "the forgeries come from a catalogue of attack shapes with random positions and factors"}})
	register(&Prop{ID: "C04", Quick: 1000, Thorough: 9000, Exec: execSound1(false),
		Gen: func(r *Rng, idx int, th bool) *Plan {
			return genSound1(r, idx, chainAttacks1, paramAttacks1, "chain", "params", th)
		},
		Rule:   "a run builds one honest ceremony with known secrets, then for each attack writes a file whose contribution chain is forged in that way (a record with a wrong, replayed or degenerate proof, wrong binding, wrong digest, wrong or zero update, dropped, duplicated, swapped, forked, spliced records, wrong counts, trailing or missing bytes) with everything else consistent, and runs the real verification; acceptance is judged by an independent verifier; non-trivial if the honest file was accepted and a forgery was refused",
		Assume: []string{"chains of up to 3 (quick) or 17 (thorough) records"}})
	deathOK["C03"], deathOK["C04"] = true, true
}
