package harness

import (
	"bytes"
	"fmt"
	"strings"
)

// ------------------------------------------------------------- C17

var wrongOrigins = []string{"tau", "alpha", "beta", "all", "tau1", "alpha1", "beta1", "tau2", "beta2", "swap-ab", "generators", "chain", "first", "other-transform", "none", "truncated", "neg-tau1", "neg-beta2", "twice"}

func genC17(r *Rng, idx int, thorough bool) *Plan {
	p := &Plan{P: map[string]int64{"seedx": int64(r.U() >> 1)}}
	p.Tmpl = []string{"exact", "chain", "exact", "chain", "higher"}[idx%5]
	in := r.Pick(1, 2, 2, 3, 3, 4, 5, 6)
	if thorough && r.P(1, 5) {
		in = r.Pick(7, 8, 9)
	}
	out := 1 + r.N(in)
	if r.P(1, 4) {
		out = in
	}
	p.P["in"], p.P["out"] = int64(in), int64(out)
	e := wideEnv(r)
	p.Ops = []Op{{K: "t", Env: &e}}
	switch p.Tmpl {
	case "higher":
		for i := 0; i < 4; i++ {
			e := genEnv(r)
			p.Ops = append(p.Ops, Op{K: "h", A: []int64{int64(r.Pick(1, 1, 2, 3, 20, 230, 256, 257)), int64(r.N(3))}, Env: &e})
		}
	case "exact":
		if giantRun(idx) {
			p.P["giant"] = int64(r.Pick(20, 23, 24, 25, 26, 28))
		}
	case "chain":
		if out > 4 {
			p.P["out"] = int64(r.Pick(1, 2, 3, 4))
		}
		n := 1 + r.N(3)
		for i := 0; i < n; i++ {
			e := genEnv(r)
			p.Ops = append(p.Ops, Op{K: "c", Env: &e})
		}
		for i := 0; i < 5; i++ {
			e := genEnv(r)
			p.Ops = append(p.Ops, Op{K: "o", S: []string{wrongOrigins[modn(idx+i*4, len(wrongOrigins))]}, A: []int64{int64(r.N(1 << 20))}, Env: &e})
		}
	}
	return p
}

// loosePoints are points without any relation to each other.
func loosePoints(power int, rng *Rng) *P1Points {
	n := 1 << power
	p := &P1Points{Tau1: batch1(coefs(rng, 2*n-1)), Alpha1: batch1(coefs(rng, n)), Beta1: batch1(coefs(rng, n)), Tau2: batch2(coefs(rng, n))}
	x := randFr(rng)
	p.Beta2 = g2x(&x)
	return p
}

// cutPoints keeps what a smaller power needs.
func cutPoints(p *P1Points, power int) *P1Points {
	n := 1 << power
	return &P1Points{Tau1: p.Tau1[:2*n-1], Alpha1: p.Alpha1[:n], Beta1: p.Beta1[:n], Tau2: p.Tau2[:n], Beta2: p.Beta2}
}

func execC17(r *Run, p *Plan) {
	rng := NewRng(uint64(p.P["seedx"]), "x")
	in, out := p.get("in"), p.get("out")
	if in < 1 {
		in = 1
	}
	if out < 1 {
		out = 1
	}
	if out > in {
		out = in
	}
	x := randExps(rng)
	pts := loosePoints(in, rng)
	if p.Tmpl == "chain" {
		q := x.points(in)
		pts = &q
	}
	file := ptauOf(pts, rng)
	r.Sample = fmt.Sprintf("%s, power %d to %d", p.Tmpl, in, out)
	env := p.envOf("t")
	d := r.DirWith("t", map[string][]byte{"in.ptau": file})
	claim := in
	if g := p.get("giant"); g > in {
		r.enlargePtau(d, "in.ptau", in, g)
		claim = g
		env.Stale, env.Paths = 0, 0
	}
	pr := r.must("transform-failed", r.Exec(d, env, nil, "p1t", "in.ptau", "0.ph1", fmt.Sprint(claim), fmt.Sprint(out)))
	got := readFile(d, "0.ph1")
	_ = pr
	r.Oracles++
	want := buildP1(out, cutPoints(pts, out), nil)
	if !bytes.Equal(want, got) {
		r.fail("wrong-transform", "p1t from power %d to %d: %s (%d and %d bytes)", in, out, firstDiff(want, got), len(want), len(got))
	}
	if claim == in && !bytes.Equal(readFile(d, "in.ptau"), file) {
		r.fail("harms-input", "p1t changed its input")
	}
	r.dropDir(d)
	r.mark(got[:32])
	r.NonTriv = true
	r.probe(fmt.Sprintf("power %d to %d", claim, out))
	switch p.Tmpl {
	case "higher":
		for i := range p.Ops {
			op := &p.Ops[i]
			if op.K != "h" {
				continue
			}
			up := op.arg(0)
			args := []string{"p1t", "in.ptau", "0.ph1", fmt.Sprint(in), fmt.Sprint(in + up)}
			if op.arg(1) == 2 && up < 20 { // claims a power the file doesn't have
				args[3] = fmt.Sprint(in + up)
			}
			d := r.DirWith("t", map[string][]byte{"in.ptau": file})
			pr := r.Exec(d, op.env(), nil, args...)
			r.dropDir(d)
			r.Oracles++
			if pr.OK() {
				r.fail("higher-power-accepted", "%s on a file of power %d succeeds", strings.Join(args, " "), in)
			}
			if !pr.Clean() {
				r.fail("higher-power-crashes", "%s on a file of power %d: %s", strings.Join(args, " "), in, pr)
			}
		}
	case "chain":
		cur := got
		for i := range p.Ops {
			op := &p.Ops[i]
			switch op.K {
			case "c":
				d := r.DirWith("n", map[string][]byte{"in.ph1": cur})
				r.must("contribute-failed", r.Exec(d, op.env(), nil, "p1c", "in.ph1", "out.ph1"))
				cur = readFile(d, "out.ph1")
				r.dropDir(d)
			case "o":
				if len(cur) == len(got) {
					continue
				}
				r.otherOrigin(op, cur, got, x, out, rng)
			}
		}
	}
}

// otherOrigin verifies a chain against its own origin and a different one.
func (r *Run) otherOrigin(op *Op, cur, own []byte, x Exps, power int, rng *Rng) {
	if pr := r.verify1(op.env(), cur, own); !pr.OK() {
		r.fail("own-origin-rejected", "power %d: %s", power, pr)
	}
	kind := op.str(0)
	arng := NewRng(uint64(op.arg(0)), kind)
	y := x
	q := x.points(power)
	q = clonePts(q)
	var b []byte
	one := func(i int, g G1) {
		if i == 0 {
			q.Tau1[1] = g
		} else {
			q.sec(i)[0] = g
		}
	}
	f := randFr(arng)
	switch kind {
	case "tau":
		y.Tau = f
	case "alpha":
		y.Alpha = f
	case "beta":
		y.Beta = f
	case "all":
		y = randExps(arng)
	case "swap-ab":
		y.Alpha, y.Beta = x.Beta, x.Alpha
	case "twice":
		y.Tau.Mul(&x.Tau, &x.Tau)
	case "generators":
		y = unitExps()
	case "tau1":
		one(0, g1x(&f))
	case "alpha1":
		one(1, g1x(&f))
	case "beta1":
		one(2, g1x(&f))
	case "neg-tau1":
		one(0, neg1(q.Tau1[1]))
	case "tau2":
		q.Tau2[1] = g2x(&f)
	case "beta2":
		q.Beta2 = g2x(&f)
	case "neg-beta2":
		q.Beta2 = neg2(q.Beta2)
	case "chain":
		b = cur
	case "first": // the origin is cut out of the chain's own head
		b = append(p1Header(power, 0), cur[3:3+p1ParamSize(power)]...)
	case "other-transform":
		z := randExps(arng)
		d := r.DirWith("t", map[string][]byte{"in.ptau": ptau(power, z, arng)})
		r.must("transform-failed", r.Exec(d, op.env(), nil, "p1t", "in.ptau", "o.ph1", fmt.Sprint(power), fmt.Sprint(power)))
		b = readFile(d, "o.ph1")
		r.dropDir(d)
	case "truncated":
		b = own[:modn(op.arg(0), 3+32*(2<<power)+64)]
	case "none":
	default:
		r.broken("no origin %s", kind)
	}
	switch {
	case b != nil:
	case kind == "none":
	default:
		if y != x {
			q = y.points(power)
		}
		b = append(p1Header(power, 0), q.bytes()...)
		if bytes.Equal(b, own) {
			return
		}
	}
	pr := r.verify1(op.env(), cur, b)
	r.Oracles++
	if pr.OK() {
		r.fail("other-origin-accepted", "power %d: verification accepts the chain against an origin that differs (%s)", power, kind)
	}
	if pr.hangs() {
		r.fail("hangs", "power %d, origin %s: %s", power, kind, pr)
	}
	r.probe("rejected " + kind)
}

func init() {
	register(&Prop{ID: "C17", Quick: 1800, Thorough: 20000, Gen: genC17, Exec: execC17,
		Rule:   "a run transforms one generated external file (points without any relation to each other, so that every position is told apart, or a consistent ceremony) with the real p1t under its own CPU count, schedule, batch and buffer sizes and read chunking, compares every byte with the expected file, then either requests higher powers, or contributes to the result with the real p1c and verifies the chain against its own and against other origins; non-trivial if the transformed file was compared",
		Assume: []string{"external powers up to 6 (quick) or 9 (thorough)", "the external format is the one documented in docs/Format.md and phase1.Transform: 64-byte hash, uncompressed sections TauG1, TauG2, AlphaG1, BetaG1, BetaG2"}})
}
