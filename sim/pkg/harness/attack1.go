package harness

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fp"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// Attacks on phase-1 files. Each builds one forged file from an honest
// ceremony with known secrets; the reference verifier says whether the forgery
// really is one.

type forge1 struct {
	power  int
	count  int // header count; -1: number of records
	pts    P1Points
	recs   [][]byte
	params []byte // overrides pts
	cut    int
	tail   []byte
}

func (f *forge1) bytes() []byte {
	n := f.count
	if n < 0 {
		n = len(f.recs)
	}
	b := p1Header(f.power, n)
	if f.params != nil {
		b = append(b, f.params...)
	} else {
		b = append(b, f.pts.bytes()...)
	}
	for _, r := range f.recs {
		b = append(b, r...)
	}
	b = append(b, f.tail...)
	if f.cut > 0 && f.cut < len(b) {
		b = b[:len(b)-f.cut]
	}
	return b
}

func (c *Chain1) forge() *forge1 {
	x := c.last()
	f := &forge1{power: c.Power, count: -1, pts: x.points(c.Power)}
	for _, r := range c.Recs {
		f.recs = append(f.recs, r.bytes())
	}
	return f
}

func (p *P1Points) sec(k int) []G1 { return [][]G1{p.Tau1, p.Alpha1, p.Beta1}[k%3] }

func clonePts(p P1Points) P1Points {
	cp := func(a []G1) []G1 { return append([]G1{}, a...) }
	return P1Points{cp(p.Tau1), cp(p.Alpha1), cp(p.Beta1), append([]G2{}, p.Tau2...), p.Beta2}
}

func neg1(p G1) G1    { p.Neg(&p); return p }
func neg2(p G2) G2    { p.Neg(&p); return p }
func add1(a, b G1) G1 { a.Add(&a, &b); return a }
func add2(a, b G2) G2 { a.Add(&a, &b); return a }

func modn(a, n int) int {
	if n <= 0 {
		return 0
	}
	a %= n
	if a < 0 {
		a += n
	}
	return a
}

// pointAttack changes single points of a list.
func hit1(s []G1, i, how int, other []G1, r *Rng) {
	k := randFr(r)
	switch modn(how, 8) {
	case 0:
		s[i] = g1x(&k)
	case 1:
		s[i] = G1{}
	case 2:
		s[i] = s[modn(i+1, len(s))]
	case 3:
		s[i] = gen1
	case 4:
		s[i] = neg1(s[i])
	case 5:
		s[i] = mul1(&s[i], &k)
	case 6:
		if len(other) > 0 {
			s[i] = other[modn(i, len(other))]
		}
	case 7:
		s[i] = add1(s[i], gen1)
	}
}

func hit2(s []G2, i, how int, r *Rng) {
	k := randFr(r)
	switch modn(how, 8) {
	case 0:
		s[i] = g2x(&k)
	case 1:
		s[i] = G2{}
	case 2:
		s[i] = s[modn(i+1, len(s))]
	case 3:
		s[i] = gen2
	case 4:
		s[i] = neg2(s[i])
	case 5, 6:
		s[i] = mul2(&s[i], &k)
	case 7:
		s[i] = add2(s[i], gen2)
	}
}

var paramAttacks1 = []string{"point", "suffix", "pair", "section-scale", "alien", "section-tau", "triple", "swap", "range", "swapsec", "stale", "zero", "flip", "beta", "cross-pair", "power", "small-order", "mix", "mix"}

// attackParams1 applies a named attack to the parameters.
func attackParams1(f *forge1, c *Chain1, op *Op, r *Rng) {
	x := c.last()
	s := modn(op.arg(0), 4) // 3 is TauG2
	n := 1 << c.Power
	ln := n
	if s == 0 {
		ln = 2*n - 1
	}
	i, j := modn(op.arg(1), ln), modn(op.arg(2), ln)
	if i > j {
		i, j = j, i
	}
	how := op.arg(3)
	k := randFr(r)
	switch op.str(0) {
	case "point":
		i = modn(op.arg(1), ln)
		if s < 3 {
			hit1(f.pts.sec(s), i, how, f.pts.sec(s+1), r)
		} else {
			hit2(f.pts.Tau2, i, how, r)
		}
	case "suffix", "range", "section-scale":
		a, b := i, ln
		if op.str(0) == "range" {
			b = j + 1
		}
		if op.str(0) == "section-scale" {
			a = 0
		}
		if how%3 == 0 {
			k = x.Tau
		}
		for q := a; q < b; q++ {
			if s < 3 {
				f.pts.sec(s)[q] = mul1(&f.pts.sec(s)[q], &k)
			} else {
				f.pts.Tau2[q] = mul2(&f.pts.Tau2[q], &k)
			}
		}
	case "pair", "triple", "cross-pair":
		if i == j {
			j = modn(i+1, ln)
		}
		d1, d2 := g1x(&k), g2x(&k)
		add := func(q int, m int) {
			if q < 0 || q >= ln {
				return
			}
			for ; m > 0; m-- {
				if s < 3 {
					f.pts.sec(s)[q] = add1(f.pts.sec(s)[q], d1)
				} else {
					f.pts.Tau2[q] = add2(f.pts.Tau2[q], d2)
				}
			}
			for ; m < 0; m++ {
				if s < 3 {
					f.pts.sec(s)[q] = add1(f.pts.sec(s)[q], neg1(d1))
				} else {
					f.pts.Tau2[q] = add2(f.pts.Tau2[q], neg2(d2))
				}
			}
		}
		if op.str(0) == "triple" {
			add(i, 1)
			add(i+1, -2)
			add(i+2, 1)
		} else if op.str(0) == "cross-pair" {
			b := op.env().Batch // the same place in two batches
			if b == 0 {
				b = 4
			}
			step := b - how%2 // with and without an overlap of one point
			a := modn(op.arg(1), step)
			if ln > step {
				add(a, 1)
				add(a+step, -1)
			} else {
				add(0, 1)
				add(ln-1, -1)
			}
		} else {
			add(i, 1)
			add(j, -1)
		}
	case "section-tau":
		y := x
		y.Tau = k
		q := y.points(c.Power)
		switch s {
		case 0:
			f.pts.Tau1 = q.Tau1
		case 1:
			f.pts.Alpha1 = q.Alpha1
		case 2:
			f.pts.Beta1 = q.Beta1
		default:
			f.pts.Tau2 = q.Tau2
		}
	case "alien":
		y := randExps(r)
		m := 1 + modn(how, 15)
		if m&1 == 0 {
			y.Tau = x.Tau
		}
		if m&2 == 0 {
			y.Alpha = x.Alpha
		}
		if m&4 == 0 {
			y.Beta = x.Beta
		}
		b2 := f.pts.Beta2
		f.pts = y.points(c.Power)
		if m&8 != 0 {
			f.pts.Beta2 = b2
		}
	case "mix": // some of the parts agree on another state
		y := randExps(r)
		switch modn(op.arg(0), 4) {
		case 0:
			y = c.States[0]
		case 1:
			y = c.States[len(c.States)-2]
		}
		m := 1 + modn(how, 126)
		pick := func(bit int, a, b Fr) Fr {
			if m>>bit&1 == 1 {
				return b
			}
			return a
		}
		at := func(tau, alpha, beta int) P1Points {
			z := Exps{Tau: pick(tau, x.Tau, y.Tau), Alpha: pick(alpha, x.Alpha, y.Alpha), Beta: pick(beta, x.Beta, y.Beta)}
			return z.points(c.Power)
		}
		f.pts = P1Points{at(0, 4, 5).Tau1, at(1, 4, 5).Alpha1, at(2, 4, 5).Beta1, at(3, 4, 5).Tau2, at(0, 4, 6).Beta2}
	case "swap":
		if s < 3 {
			l := f.pts.sec(s)
			l[i], l[j] = l[j], l[i]
		} else {
			f.pts.Tau2[i], f.pts.Tau2[j] = f.pts.Tau2[j], f.pts.Tau2[i]
		}
	case "swapsec":
		if how%2 == 0 {
			f.pts.Alpha1, f.pts.Beta1 = f.pts.Beta1, f.pts.Alpha1
		} else {
			f.pts.Alpha1 = append([]G1{}, f.pts.Tau1[modn(op.arg(1), 2):][:n]...)
		}
	case "stale":
		y := c.States[modn(op.arg(1), len(c.States))]
		q := y.points(c.Power)
		switch modn(how, 5) {
		case 0:
			f.pts = q
		case 1:
			f.pts.Tau1 = q.Tau1
		case 2:
			f.pts.Alpha1 = q.Alpha1
		case 3:
			f.pts.Beta1 = q.Beta1
		case 4:
			f.pts.Beta2 = q.Beta2
		}
	case "zero":
		m := 1 + modn(how, 31)
		for q := 0; q < 3; q++ {
			if m>>q&1 == 1 {
				l := f.pts.sec(q)
				for z := range l {
					l[z] = G1{}
				}
			}
		}
		if m&8 != 0 {
			for z := range f.pts.Tau2 {
				f.pts.Tau2[z] = G2{}
			}
		}
		if m&16 != 0 {
			f.pts.Beta2 = G2{}
		}
	case "flip":
		b := f.pts.bytes()
		at := modn(op.arg(1)*65537+op.arg(2), len(b))
		b[at] ^= 1 << modn(how, 8)
		f.params = b
	case "small-order":
		// A point outside the subgroup, off by a point of small order, which a
		// random combination of the points sees only most of the time.
		t := smallOrderPoint(r)
		if op.Env != nil { // what the verifier draws
			op.Env.Pat = patSmooth
		}
		switch l := f.pts.Tau2; modn(how, 4) {
		case 0:
			f.pts.Beta2 = add2(f.pts.Beta2, t)
		case 1:
			i = modn(op.arg(1), ln)
			if s == 3 {
				l[i] = add2(l[i], t)
				break
			}
			fallthrough
		default:
			l[len(l)-1] = add2(l[len(l)-1], t)
		}
	case "beta":
		l := []G2{f.pts.Beta2}
		hit2(l, 0, how, r)
		f.pts.Beta2 = l[0]
	case "power":
		// A smaller power's worth of points behind a changed header, or not.
		switch modn(how, 3) {
		case 0:
			f.power = c.Power + 1
		case 1:
			if c.Power > 1 {
				f.power = c.Power - 1
			}
		case 2:
			f.power = modn(op.arg(1), 27)
			if f.power > 12 { // (no memory bombs here: C19 has them)
				f.power = c.Power + 2
			}
		}
	}
}

var chainAttacks1 = []string{"jump", "drop", "jump", "dup", "hash", "jump", "swaprec", "fliprec", "fork", "jump", "replay", "count", "trail", "trunc", "none", "zeroes"}

// st1 is a state whose halves need not agree.
type st1 struct{ T1, A1, B1, T2, B2 Fr }

func stOf(x Exps) st1 { return st1{x.Tau, x.Alpha, x.Beta, x.Tau, x.Beta} }

func (s *st1) points(power int, byT2 bool) P1Points {
	n := 1 << power
	o := one()
	t := s.T1
	if byT2 {
		t = s.T2
	}
	var p P1Points
	p.Tau1 = batch1(powersOf(&o, &t, 2*n-1))
	p.Alpha1 = batch1(powersOf(&s.A1, &t, n))
	p.Beta1 = batch1(powersOf(&s.B1, &t, n))
	p.Tau2 = batch2(powersOf(&o, &s.T2, n))
	p.Beta2 = g2x(&s.B2)
	return p
}

// record of a state with proofs for the given factors.
func recOf(s *st1, pok [3]Fr, prev []byte, r *Rng) *Rec1 {
	rec := &Rec1{Tau1: g1x(&s.T1), Alpha1: g1x(&s.A1), Beta1: g1x(&s.B1), Tau2: g2x(&s.T2), Beta2: g2x(&s.B2)}
	for i, k := range []*PK{&rec.PTau, &rec.PAlpha, &rec.PBeta} {
		n := randFr(r)
		*k = makePK(&pok[i], &n, prev, byte(i+1))
	}
	return rec
}

func (s *st1) times(d Exps) st1 {
	n := *s
	n.T1.Mul(&n.T1, &d.Tau)
	n.T2.Mul(&n.T2, &d.Tau)
	n.A1.Mul(&n.A1, &d.Alpha)
	n.B1.Mul(&n.B1, &d.Beta)
	n.B2.Mul(&n.B2, &d.Beta)
	return n
}

const jumpKinds1 = 20

// jump replaces contribution k by a forged one; the rest of the ceremony goes
// on honestly from there, and the parameters match what the records say.
func jump1(c *Chain1, k, kind, sel int, byT2 bool, r *Rng) (*forge1, string) {
	f := &forge1{power: c.Power, count: -1}
	cur := stOf(c.States[0])
	var prev, prev2 []byte
	var olds []*Rec1
	what := ""
	for i := range c.Recs {
		var d Exps
		d.Tau.Div(&c.States[i+1].Tau, &c.States[i].Tau)
		d.Alpha.Div(&c.States[i+1].Alpha, &c.States[i].Alpha)
		d.Beta.Div(&c.States[i+1].Beta, &c.States[i].Beta)
		next := cur.times(d)
		pok := [3]Fr{d.Tau, d.Alpha, d.Beta}
		var rec *Rec1
		pks := func() *PK { return []*PK{&rec.PTau, &rec.PAlpha, &rec.PBeta}[sel] }
		if i != k {
			rec = recOf(&next, pok, prev, r)
		} else {
			y := randFr(r)
			rnd := func() Fr { return randFr(r) }
			switch kind {
			case 0: // the proof is for another secret
				what = "proof for another secret"
				pok[sel] = rnd()
				rec = recOf(&next, pok, prev, r)
			case 1:
				what = "state jumps, proofs for other secrets"
				next = st1{rnd(), rnd(), rnd(), Fr{}, Fr{}}
				next.T2, next.B2 = next.T1, next.B1
				rec = recOf(&next, [3]Fr{rnd(), rnd(), rnd()}, prev, r)
			case 2:
				what = "proof bound to another hash"
				rec = recOf(&next, pok, prev, r)
				h := r.Bytes(32)
				if len(prev) > 0 && r.P(1, 2) {
					h = prev2
				}
				n := rnd()
				*pks() = makePK(&pok[sel], &n, h, byte(sel+1))
			case 3:
				what = "proof made for another of the three"
				rec = recOf(&next, pok, prev, r)
				n := rnd()
				*pks() = makePK(&pok[sel], &n, prev, byte((sel+1)%3+1))
			case 4:
				what = "proof replayed from an earlier record"
				rec = recOf(&next, pok, prev, r)
				if len(olds) > 0 {
					o := olds[r.N(len(olds))]
					*pks() = []PK{o.PTau, o.PAlpha, o.PBeta}[sel]
				} else {
					rec.PTau, rec.PAlpha = rec.PAlpha, rec.PTau
				}
			case 5:
				what = "all-zero proofs, arbitrary new state"
				next = st1{rnd(), rnd(), rnd(), Fr{}, Fr{}}
				next.T2, next.B2 = next.T1, next.B1
				rec = recOf(&next, pok, prev, r)
				rec.PTau, rec.PAlpha, rec.PBeta = PK{}, PK{}, PK{}
			case 6:
				what = "one all-zero proof"
				switch sel {
				case 0:
					next.T1, next.T2 = y, y
				case 1:
					next.A1 = y
				default:
					next.B1, next.B2 = y, y
				}
				rec = recOf(&next, pok, prev, r)
				*pks() = PK{}
			case 7:
				what = "proof with zero S and SX"
				if sel == 0 {
					next.T2 = y
				} else if sel == 2 {
					next.B2 = y
				}
				rec = recOf(&next, pok, prev, r)
				var z G1
				c := challenge(&z, &z, prev, byte(sel+1))
				*pks() = PK{z, z, mul2(&c, &pok[sel])}
			case 8:
				what = "G2 half of tau updated by another factor"
				next.T2.Mul(&next.T2, &y)
				rec = recOf(&next, pok, prev, r)
			case 9:
				what = "G2 half of beta updated by another factor"
				next.B2.Mul(&next.B2, &y)
				rec = recOf(&next, pok, prev, r)
			case 10:
				what = "alpha updated by another factor than proved"
				next.A1.Mul(&next.A1, &y)
				rec = recOf(&next, pok, prev, r)
			case 11:
				what = "wrong digest, later records build on it"
				rec = recOf(&next, pok, prev, r)
				rec.bytes()
				rec.Hash = append([]byte{}, rec.Hash...)
				rec.Hash[r.N(32)] ^= byte(1 << r.N(8))
			case 12:
				what = "zero secret"
				var z Fr
				pok[sel] = z
				var d2 = d
				switch sel {
				case 0:
					d2.Tau = z
				case 1:
					d2.Alpha = z
				default:
					d2.Beta = z
				}
				next = cur.times(d2)
				rec = recOf(&next, pok, prev, r)
			case 13:
				what = "all secrets zero"
				var z Exps
				next = cur.times(z)
				rec = recOf(&next, [3]Fr{}, prev, r)
				if r.P(1, 2) {
					rec.PTau, rec.PAlpha, rec.PBeta = PK{}, PK{}, PK{}
				}
			case 14:
				what = "SX does not match S"
				rec = recOf(&next, pok, prev, r)
				kk := pks()
				kk.SX = g1x(&y)
				ch := challenge(&kk.S, &kk.SX, prev, byte(sel+1))
				kk.SPX = mul2(&ch, &pok[sel])
			case 15:
				what = "SPX does not match SX"
				rec = recOf(&next, pok, prev, r)
				pks().SPX = mul2(&pks().SPX, &y)
			case 16:
				what = "beta updated by another factor than proved"
				next.B1.Mul(&next.B1, &y)
				next.B2.Mul(&next.B2, &y)
				rec = recOf(&next, pok, prev, r)
			case 17:
				what = "tau updated by another factor than proved"
				next.T1.Mul(&next.T1, &y)
				next.T2.Mul(&next.T2, &y)
				rec = recOf(&next, pok, prev, r)
			case 18:
				what = "identity update with zero proofs"
				next = cur
				rec = recOf(&next, [3]Fr{one(), one(), one()}, prev, r)
				rec.PTau, rec.PAlpha, rec.PBeta = PK{}, PK{}, PK{}
			default:
				what = "digest of the record before"
				rec = recOf(&next, pok, prev, r)
				rec.Hash = append([]byte{}, prev...)
				if len(prev) == 0 {
					rec.Hash = make([]byte, 32)
				}
			}
		}
		f.recs = append(f.recs, rec.bytes())
		prev2, prev = prev, rec.Hash
		olds = append(olds, rec)
		cur = next
	}
	f.pts = cur.points(c.Power, byT2)
	return f, fmt.Sprintf("record %d: %s", k, what)
}

// attackChain1 builds a forged chain.
func attackChain1(c *Chain1, op *Op, r *Rng) (*forge1, string) {
	n := len(c.Recs)
	k := modn(op.arg(0), n)
	how := op.arg(1)
	name := op.str(0)
	f := c.forge()
	switch name {
	case "jump":
		return jump1(c, k, modn(how, jumpKinds1), modn(op.arg(2), 3), op.arg(3)%2 == 1, r)
	case "drop":
		f.recs = append(f.recs[:k:k], f.recs[k+1:]...)
		if how%3 == 0 {
			f.count = n
		}
	case "dup":
		f.recs = append(f.recs[:k+1:k+1], f.recs[k:]...)
		if how%3 == 0 {
			f.count = n
		}
	case "swaprec":
		j := modn(k+1, n)
		f.recs[k], f.recs[j] = f.recs[j], f.recs[k]
	case "hash":
		b := append([]byte{}, f.recs[k]...)
		b[608+modn(op.arg(2), 32)] ^= 1 << modn(how, 8)
		f.recs[k] = b
	case "fliprec":
		b := append([]byte{}, f.recs[k]...)
		b[modn(op.arg(2), recSize1)] ^= 1 << modn(how, 8)
		f.recs[k] = b
	case "fork":
		// a record made honestly on another branch
		o := &Chain1{Power: c.Power, Origin: c.Origin, States: append([]Exps{}, c.States[:k+1]...), Recs: append([]*Rec1{}, c.Recs[:k]...)}
		o.contribute(randExps(r), r)
		f.recs[k] = o.Recs[k].bytes()
		if how%2 == 0 { // its parameters too
			x := o.last()
			f.pts = x.points(c.Power)
		}
	case "replay":
		f.recs = append(f.recs, f.recs[k])
	case "count":
		f.count = n + []int{1, -1, 2, -2, 256, 65535 - n}[modn(how, 6)]
		if f.count < 0 {
			f.count = 0
		}
	case "trail":
		f.tail = r.Bytes(1 + modn(how, 700))
		if how%3 == 0 {
			f.tail = f.recs[k]
		}
	case "trunc":
		f.cut = 1 + modn(how, 1400)
	case "none":
		x := c.States[0]
		f.pts = x.points(c.Power)
		f.recs = nil
		if how%2 == 0 {
			x := c.last()
			f.pts = x.points(c.Power)
		}
	case "zeroes":
		b := make([]byte, recSize1)
		for _, o := range []int{0, 32, 64, 96, 160, 224, 256, 288, 352, 384, 416, 480, 512, 544} {
			b[o] = 0x40
		}
		if how%2 == 0 {
			rec, err := decRec1(b)
			if err == nil {
				rec.Hash = nil
				b = rec.bytes()
			}
		}
		f.recs[k] = b
		if how%4 < 2 {
			z := Exps{}
			f.pts = z.points(c.Power)
		}
	}
	return f, name
}

// smallOrderPoint is a point of the curve of G2 of order smallOrder.
func smallOrderPoint(r *Rng) G2 {
	n := new(big.Int).Lsh(fp.Modulus(), 1)
	n.Sub(n, fr.Modulus()) // the cofactor
	n.Mul(n, fr.Modulus())
	rest := new(big.Int)
	if n, rest = n.DivMod(n, big.NewInt(smallOrder), rest); rest.Sign() != 0 {
		panic("wrong order")
	}
	for {
		q := r.Bytes(64)
		q[0] = q[0]&0x1f | 0x80
		var p G2
		if bn254.NewDecoder(bytes.NewReader(q), bn254.NoSubgroupChecks()).Decode(&p) != nil {
			continue
		}
		var a, b bn254.G2Jac
		b.FromAffine(&p)
		for i := n.BitLen() - 1; i >= 0; i-- { // (ScalarMultiplication is for the subgroup only)
			a.DoubleAssign()
			if n.Bit(i) == 1 {
				a.AddAssign(&b)
			}
		}
		if p.FromJacobian(&a); !p.IsInfinity() {
			return p
		}
	}
}
