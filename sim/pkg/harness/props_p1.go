package harness

import (
	"fmt"

	"MODULE/internal/verifsim/sio"
)

// ------------------------------------------------------------- C01, C02

// wideRun says which runs work on sections of more than 65536 points.
func wideRun(idx int, thorough bool) bool { return idx == 9 || thorough && idx%1000 == 9 }

// longRun says which verifications are of more than a thousand contributions.
func longRun(idx int, thorough bool) bool { return idx == 8 || thorough && idx%1000 == 8 }

// wideSections is an environment for such a run: few interruptions, batches of
// the shipped size.
func wideSections(r *Rng) Env {
	return Env{CPUs: r.Pick(1, 4, 8, 16), Rng: r.U(), Cap: 4000000000}
}

// genChain1 plans a phase-1 ceremony: how it starts and its contributions.
func genChain1(r *Rng, idx int, thorough bool, verify bool) *Plan {
	p := &Plan{P: map[string]int64{}}
	p.P["power"] = int64(r.Pick(1, 1, 2, 2, 3, 3, 4, 5))
	if thorough && r.P(1, 4) {
		p.P["power"] = int64(r.Pick(6, 7, 8))
	}
	p.P["seedx"] = int64(r.U() >> 1)
	n := 1 + r.N(5)
	p.Tmpl = []string{"init", "transformed", "prefix", "init", "transformed", "prefix"}[idx%6]
	long := []int{1, 2, 3, 5, 6, 7, 20, 40}
	if idx%24 == 2 {
		long = []int{254, 255, 256}
		p.P["power"] = 1
	}
	switch p.Tmpl {
	case "prefix":
		p.P["prefix"] = int64(r.Pick(long...))
		n = 1 + r.N(3)
	case "transformed":
		if r.P(1, 3) {
			p.P["prefix"] = int64(1 + r.N(3))
		}
	}
	for i := 0; i < n; i++ {
		e := genEnv(r)
		op := Op{K: "c", Env: &e}
		if verify && r.P(1, 3) { // an attempt that fails first
			a := r.Pick(0, 1, 2)
			op.F = []sio.Fault{{Kind: r.PickS("write", "read", "any"), At: r.N(12), Act: []string{"err", "crash", "power"}[a], Arg: r.U()}}
			if a == 0 {
				op.F[0].Rep = r.P(1, 2)
			}
		}
		p.Ops = append(p.Ops, op)
	}
	if wideRun(idx, thorough) { // more points than two bytes can count
		p.P["power"], p.P["prefix"], p.P["wide"] = 16, 1, 1
		p.Ops = nil
		if !verify {
			p.Tmpl = "prefix"
			p.Ops = []Op{{K: "c", Env: envp(wideSections(r))}}
		}
	}
	if verify {
		e := genEnv(r)
		if wideRun(idx, thorough) {
			p.Tmpl = "prefix"
			p.Ops = []Op{{K: "v", Env: envp(wideSections(r))}}
			p.P["power"] = 16
			return p
		}
		if longRun(idx, thorough) {
			p.Tmpl, p.P["wide"], p.P["power"] = "prefix", 1, 1
			p.P["prefix"] = int64(r.Pick(1000, 1001, 1024, 1025, 1030))
			p.Ops = []Op{{K: "v", Env: envp(wideSections(r))}}
			return p
		}
		p.Ops = append(p.Ops, Op{K: "v", Env: &e})
		if r.P(1, 2) {
			at := r.N(len(p.Ops))
			e := genEnv(r)
			p.Ops = append(p.Ops[:at:at], append([]Op{{K: "v", Env: &e}}, p.Ops[at:]...)...)
		}
	}
	return p
}

// startP1 prepares the starting file of a plan.
func (r *Run) startP1(p *Plan, rng *Rng) (*Chain1, []byte) {
	power := p.get("power")
	if power < 1 {
		power = 1
	}
	var ch *Chain1
	switch p.Tmpl {
	case "init":
		d := r.Dir("coord")
		e := calmEnv(rng)
		if p.P["seedx"]%3 == 0 {
			e.Stale = rng.U() | 1
		}
		pr := r.must("p1n-failed", r.Exec(d, e, nil, "p1n", fmt.Sprint(power), "0.ph1"))
		_ = pr
		ch = newChain1(power, unitExps(), false)
		b := readFile(d, "0.ph1")
		r.dropDir(d)
		if want := ch.file(0); string(want) != string(b) {
			r.fail("bad-initial-file", "p1n %d wrote something else than the generators: %s", power, firstDiff(want, b))
		}
		return ch, b
	case "transformed":
		ch = newChain1(power, randExps(rng), true)
	default:
		ch = newChain1(power, unitExps(), false)
	}
	for i := 0; i < p.get("prefix"); i++ {
		ch.contribute(randExps(rng), rng)
	}
	return ch, ch.file(len(ch.Recs))
}

func (c *Chain1) hashes() []string {
	var l []string
	for _, r := range c.Recs {
		l = append(l, fmt.Sprintf("%x", r.Hash))
	}
	return l
}

func execC01(r *Run, p *Plan) {
	if p.Tmpl == "full" {
		execFullChain(r, p)
		return
	}
	rng := NewRng(uint64(p.P["seedx"]), "x")
	ch, cur := r.startP1(p, rng)
	x := ch.last()
	for i := range p.Ops {
		op := &p.Ops[i]
		d := r.DirWith("n", map[string][]byte{"in.ph1": cur})
		pr := r.must("contribute-failed", r.Exec(d, op.env(), nil, "p1c", "in.ph1", "out.ph1"))
		out := readFile(d, "out.ph1")
		r.dropDir(d)
		f, err := checkContribute1(cur, out, x, pr, rng)
		r.Oracles++
		if err != nil {
			r.fail("bad-contribution", "contribution %d at power %d on %d records: %v", i, ch.Power, (len(cur)-3-p1ParamSize(ch.Power))/recSize1, err)
		}
		if !f.Known {
			r.probe("secrets not found among draws")
			break
		}
		x, cur = f.New, out
		r.NonTriv = true
		r.mark([]byte(f.HashHex))
		if op.env().Batch != 0 && op.env().Batch < 2<<ch.Power-1 {
			r.probe("several batches")
		}
	}
	r.Sample = fmt.Sprintf("power %d, %d earlier records, %d contributions", ch.Power, p.get("prefix"), len(p.Ops))
}

// execFullChain: the count is two bytes wide; a 65536th contribution must not wrap it.
func execFullChain(r *Run, p *Plan) {
	rng := NewRng(uint64(p.P["seedx"]), "x")
	ch := newChain1(1, unitExps(), false)
	ch.contribute(randExps(rng), rng)
	pt := ch.last()
	pp := pt.points(1)
	b := append(p1Header(1, 65535), pp.bytes()...)
	rec := ch.Recs[0].bytes()
	for i := 0; i < 65535; i++ {
		b = append(b, rec...)
	}
	d := r.DirWith("n", map[string][]byte{"in.ph1": b})
	pr := r.Exec(d, p.Ops[0].env(), nil, "p1c", "in.ph1", "out.ph1")
	r.NonTriv = true
	r.Oracles++
	r.Sample = "a file with 65535 records"
	if pr.OK() {
		out := readFile(d, "out.ph1")
		if _, err := parseP1(out); err != nil {
			r.fail("count-overflow", "a contribution to a file with 65535 records succeeded with a wrong count: %v", err)
		}
	}
}

func execC02(r *Run, p *Plan) {
	rng := NewRng(uint64(p.P["seedx"]), "x")
	ch, cur := r.startP1(p, rng)
	ledger := ch.hashes()
	made := 0
	for i := range p.Ops {
		op := &p.Ops[i]
		switch op.K {
		case "c":
			d := r.DirWith("n", map[string][]byte{"in.ph1": cur})
			if len(op.F) > 0 {
				pr := r.Exec(d, op.env(), op.F, "p1c", "in.ph1", "out.ph1")
				if pr.OK() && pr.Eng.FaultHit == 0 {
					r.probe("fault missed")
				} else {
					r.probe("failed attempt repeated")
				}
			}
			e := op.env()
			e.Rng = mix(e.Rng)
			pr := r.must("contribute-failed", r.Exec(d, e, nil, "p1c", "in.ph1", "out.ph1"))
			out := readFile(d, "out.ph1")
			r.dropDir(d)
			hs := hashRe.FindAllString(pr.Out, -1)
			if len(hs) == 0 {
				r.fail("no-hash", "the contributor was told no hash")
			}
			ledger = append(ledger, hs[len(hs)-1])
			cur = out
			made++
		case "v":
			if len(ledger) == 0 {
				continue
			}
			pr := r.verify1(op.env(), cur, ch.Origin)
			r.Oracles++
			if !pr.OK() {
				r.fail("honest-rejected", "power %d, %d contributions: %s", ch.Power, len(ledger), pr)
			}
			if err := checkListing(pr.Out, ledger); err != nil {
				r.fail("wrong-listing", "power %d, %d contributions: %v", ch.Power, len(ledger), err)
			}
			r.NonTriv = true
		}
	}
	r.Sample = fmt.Sprintf("power %d, %d earlier records, %d contributions, start %s", ch.Power, p.get("prefix"), made, p.Tmpl)
}

func init() {
	register(&Prop{ID: "C01", Quick: 800, Thorough: 12000, Exec: execC01,
		Gen: func(r *Rng, idx int, thorough bool) *Plan {
			p := genChain1(r, idx, thorough, false)
			if idx%200 == 199 {
				p.Tmpl = "full"
				e := calmEnv(r)
				p.Ops = []Op{{K: "c", Env: &e}}
			}
			return p
		},
		Rule:   "a run is one phase-1 ceremony (start: p1n, a transformed file, or a model-built chain of up to 257 records) in which every contribution runs the real p1c under its own seeded schedule, CPU count, batch size, buffer size and read chunking; non-trivial if at least one contribution's secrets were recovered from the recorded entropy and every output point was compared with the input scaled by them",
		Assume: []string{"powers up to 5 (quick) or 8 (thorough), batch sizes reduced so that batch boundaries occur"}})
	register(&Prop{ID: "C02", Quick: 400, Thorough: 9000, Exec: execC02,
		Gen:    func(r *Rng, idx int, thorough bool) *Plan { return genChain1(r, idx, thorough, true) },
		Rule:   "a run is one phase-1 ceremony with contributions that may first fail or crash and are then repeated, followed by verification under its own schedule, CPU count, batch and buffer sizes and read chunking; non-trivial if a verification of at least one contribution ran",
		Assume: []string{"powers up to 5 (quick) or 8 (thorough)"}})
}
