package harness

import "fmt"

// Attacks on phase-2 files.

type forge2 struct {
	h      Header2
	count  int
	pts    *P2Points
	recs   [][]byte
	params []byte
	cut    int
	tail   []byte
	origin []byte // if the attack changes what is compared against
}

func (f *forge2) bytes() []byte {
	b := f.params
	if b == nil {
		b = f.pts.bytes()
	}
	b = append([]byte{}, b...)
	for _, r := range f.recs {
		b = append(b, r...)
	}
	b = append(b, f.tail...)
	h := f.h
	h.Contributions = f.count
	if f.count < 0 {
		h.Contributions = len(f.recs)
	}
	b = (&P2{Raw: b}).withHeader(h)
	if f.cut > 0 && f.cut < len(b) {
		b = b[:len(b)-f.cut]
	}
	return b
}

func (c *Chain2) forge() *forge2 {
	f := &forge2{h: c.H, count: -1, pts: c.pts(len(c.Recs))}
	for _, r := range c.Recs {
		f.recs = append(f.recs, r.bytes())
	}
	return f
}

var paramAttacks2 = []string{"point", "suffix", "pair", "scale", "header", "delta", "alien", "triple", "swap", "range", "stale", "zero", "flip", "cross-pair", "shrink", "cut", "compensate", "mix", "mix"}

func attackParams2(f *forge2, c *Chain2, op *Op, r *Rng) {
	sec := modn(op.arg(0), 2)
	l := f.pts.Z
	if sec == 1 && len(f.pts.PKK) > 0 || len(l) == 0 {
		l = f.pts.PKK
	}
	other := f.pts.Z
	how := op.arg(3)
	k := randFr(r)
	ln := len(l)
	i, j := modn(op.arg(1), ln), modn(op.arg(2), ln)
	if i > j {
		i, j = j, i
	}
	if ln == 0 && op.str(0) != "header" && op.str(0) != "delta" && op.str(0) != "mix" && op.str(0) != "cut" {
		return
	}
	switch op.str(0) {
	case "point":
		hit1(l, modn(op.arg(1), ln), how, other, r)
	case "suffix", "range", "scale":
		a, b := i, ln
		if op.str(0) == "range" {
			b = j + 1
		}
		if op.str(0) == "scale" {
			a = 0
		}
		for q := a; q < b; q++ {
			l[q] = mul1(&l[q], &k)
		}
	case "compensate": // Z by k, PKK by 1/k
		var inv Fr
		inv.Inverse(&k)
		for q := range f.pts.Z {
			f.pts.Z[q] = mul1(&f.pts.Z[q], &k)
		}
		for q := range f.pts.PKK {
			f.pts.PKK[q] = mul1(&f.pts.PKK[q], &inv)
		}
	case "pair", "triple", "cross-pair":
		d := g1x(&k)
		add := func(q, m int) {
			if q < 0 || q >= ln {
				return
			}
			for ; m > 0; m-- {
				l[q] = add1(l[q], d)
			}
			for ; m < 0; m++ {
				l[q] = add1(l[q], neg1(d))
			}
		}
		switch op.str(0) {
		case "pair":
			if i == j {
				j = modn(i+1, ln)
			}
			add(i, 1)
			add(j, -1)
		case "triple":
			add(i, 1)
			add(i+1, -2)
			add(i+2, 1)
		default:
			b := op.env().Batch
			if b == 0 {
				b = 4
			}
			a := modn(op.arg(1), b)
			if ln > a+b {
				add(a, 1)
				add(a+b, -1)
			} else {
				add(0, 1)
				add(ln-1, -1)
			}
		}
	case "swap":
		l[i], l[j] = l[j], l[i]
		if how%3 == 0 && len(f.pts.PKK) > 0 && len(f.pts.Z) > 0 {
			a, b := modn(op.arg(1), len(f.pts.Z)), modn(op.arg(2), len(f.pts.PKK))
			f.pts.Z[a], f.pts.PKK[b] = f.pts.PKK[b], f.pts.Z[a]
		}
	case "delta":
		switch modn(how, 6) {
		case 0:
			f.pts.D1 = g1x(&k)
		case 1:
			f.pts.D2 = g2x(&k)
		case 2:
			f.pts.D1, f.pts.D2 = g1x(&k), g2x(&k)
		case 3:
			f.pts.D1, f.pts.D2 = G1{}, G2{}
		case 4: // everything consistent with another delta than the records say
			var d Fr
			d.Mul(&k, ptr(c.last()))
			var inv Fr
			inv.Inverse(&k)
			f.pts.D1, f.pts.D2 = g1x(&d), g2x(&d)
			for q := range f.pts.Z {
				f.pts.Z[q] = mul1(&f.pts.Z[q], &inv)
			}
			for q := range f.pts.PKK {
				f.pts.PKK[q] = mul1(&f.pts.PKK[q], &inv)
			}
		case 5:
			f.pts.D2 = neg2(f.pts.D2)
		}
	case "alien":
		o := newChain2(c.H, c.Deltas[0], r)
		o.Deltas, o.Recs = c.Deltas, c.Recs
		q := o.pts(len(o.Recs))
		switch modn(how, 3) {
		case 0:
			f.pts.Z = q.Z
		case 1:
			f.pts.PKK = q.PKK
		default:
			f.pts = q
		}
	case "mix": // some of the parts agree on another delta
		switch modn(op.arg(1), 4) {
		case 0: // the origin's
			k.Inverse(ptr(c.last()))
			k.Mul(&k, &c.Deltas[0])
		case 1: // the one before
			k.Inverse(ptr(c.last()))
			k.Mul(&k, &c.Deltas[len(c.Deltas)-2])
		}
		var inv Fr
		inv.Inverse(&k)
		m := 1 + modn(how, 14)
		if m&1 != 0 {
			f.pts.D1 = mul1(&f.pts.D1, &k)
		}
		if m&2 != 0 {
			f.pts.D2 = mul2(&f.pts.D2, &k)
		}
		if m&4 != 0 {
			for q := range f.pts.Z {
				f.pts.Z[q] = mul1(&f.pts.Z[q], &inv)
			}
		}
		if m&8 != 0 {
			for q := range f.pts.PKK {
				f.pts.PKK[q] = mul1(&f.pts.PKK[q], &inv)
			}
		}
	case "stale":
		q := c.pts(modn(op.arg(1), len(c.Deltas)))
		switch modn(how, 4) {
		case 0:
			f.pts = q
		case 1:
			f.pts.Z = q.Z
		case 2:
			f.pts.PKK = q.PKK
		case 3:
			f.pts.D1, f.pts.D2 = q.D1, q.D2
		}
	case "zero":
		m := 1 + modn(how, 3)
		if m&1 != 0 {
			for q := range f.pts.Z {
				f.pts.Z[q] = G1{}
			}
		}
		if m&2 != 0 {
			for q := range f.pts.PKK {
				f.pts.PKK[q] = G1{}
			}
		}
	case "flip":
		b := f.pts.bytes()
		b[modn(op.arg(1)*65537+op.arg(2), len(b))] ^= 1 << modn(how, 8)
		f.params = b
	case "header":
		h := &f.h
		v := []*int{&h.Wires, &h.Witness, &h.Public, &h.PrivateCommitted, &h.Constraints, &h.Domain}[modn(op.arg(1), 6)]
		*v += []int{1, -1, 2, 7}[modn(how, 4)]
		if *v < 0 {
			*v = 1
		}
	case "shrink": // fewer points, header to match
		if modn(how, 2) == 0 && len(f.pts.PKK) > 0 {
			f.pts.PKK = f.pts.PKK[:len(f.pts.PKK)-1]
			f.h.Witness--
		} else if len(f.pts.Z) > 1 {
			f.pts.Z = f.pts.Z[:len(f.pts.Z)/2]
			f.h.Domain /= 2
		}
	case "cut":
		f.cut = 1 + modn(op.arg(1)*65537+op.arg(2), len(f.pts.bytes())+len(f.recs)*recSize2)
	}
}

var chainAttacks2 = []string{"jump", "drop", "jump", "dup", "hash", "jump", "swaprec", "fliprec", "fork", "jump", "replay", "count", "trail", "trunc", "none", "zeroes"}

const jumpKinds2 = 13

func jump2(c *Chain2, k, kind int, r *Rng) (*forge2, string) {
	f := &forge2{h: c.H, count: -1}
	cur := c.Deltas[0]
	var prev, prev2 []byte
	var olds []*Rec2
	what := ""
	for i := range c.Recs {
		var d, next Fr
		d.Div(&c.Deltas[i+1], &c.Deltas[i])
		next.Mul(&cur, &d)
		n, y := randFr(r), randFr(r)
		mk := func(x Fr, h []byte, dst byte) *Rec2 {
			return &Rec2{Delta: g1x(&next), P: makePK(&x, &n, h, dst)}
		}
		var rec *Rec2
		if i != k {
			rec = mk(d, prev, 1)
		} else {
			switch kind {
			case 0:
				what = "proof for another secret"
				rec = mk(y, prev, 1)
			case 1:
				what = "delta updated by another factor than proved"
				next.Mul(&next, &y)
				rec = mk(d, prev, 1)
			case 2:
				what = "proof bound to another hash"
				h := r.Bytes(32)
				if len(prev) > 0 && r.P(1, 2) {
					h = prev2
				}
				rec = mk(d, h, 1)
			case 3:
				what = "proof made for another domain"
				rec = mk(d, prev, byte(2+r.N(2)))
			case 4:
				what = "proof replayed from an earlier record"
				rec = mk(d, prev, 1)
				if len(olds) > 0 {
					rec.P = olds[r.N(len(olds))].P
				} else {
					rec.P = makePK(&y, &n, nil, 1)
				}
			case 5:
				what = "all-zero proof, arbitrary delta"
				next = y
				rec = mk(d, prev, 1)
				rec.P = PK{}
			case 6:
				what = "zero S and SX"
				rec = mk(d, prev, 1)
				var z G1
				ch := challenge(&z, &z, prev, 1)
				rec.P = PK{z, z, mul2(&ch, &d)}
			case 7:
				what = "SX does not match S"
				rec = mk(d, prev, 1)
				rec.P.SX = g1x(&y)
				ch := challenge(&rec.P.S, &rec.P.SX, prev, 1)
				rec.P.SPX = mul2(&ch, &d)
			case 8:
				what = "SPX does not match SX"
				rec = mk(d, prev, 1)
				rec.P.SPX = mul2(&rec.P.SPX, &y)
			case 9:
				what = "wrong digest, later records build on it"
				rec = mk(d, prev, 1)
				rec.bytes()
				rec.Hash = append([]byte{}, rec.Hash...)
				rec.Hash[r.N(32)] ^= byte(1 << r.N(8))
			case 10:
				what = "zero secret"
				next = Fr{}
				rec = mk(Fr{}, prev, 1)
				if r.P(1, 2) {
					rec.P = PK{}
				}
			case 11:
				what = "digest of the record before"
				rec = mk(d, prev, 1)
				rec.Hash = append([]byte{}, prev...)
				if len(prev) == 0 {
					rec.Hash = make([]byte, 32)
				}
			default:
				what = "update of another base"
				next = y
				rec = mk(d, prev, 1)
			}
		}
		f.recs = append(f.recs, rec.bytes())
		prev2, prev = prev, rec.Hash
		olds = append(olds, rec)
		cur = next
	}
	q := *c
	q.Deltas = append(append([]Fr{}, c.Deltas[0]), cur)
	if cur.IsZero() {
		f.pts = &P2Points{Z: make([]G1, len(c.Z)), PKK: make([]G1, len(c.PKK))}
	} else {
		f.pts = q.pts(1)
	}
	return f, fmt.Sprintf("record %d: %s", k, what)
}

func attackChain2(c *Chain2, op *Op, r *Rng) (*forge2, string) {
	n := len(c.Recs)
	k := modn(op.arg(0), n)
	how := op.arg(1)
	name := op.str(0)
	f := c.forge()
	switch name {
	case "jump":
		return jump2(c, k, modn(how, jumpKinds2), r)
	case "drop":
		f.recs = append(f.recs[:k:k], f.recs[k+1:]...)
		if how%3 == 0 {
			f.count = n
		}
	case "dup":
		f.recs = append(f.recs[:k+1:k+1], f.recs[k:]...)
		if how%3 == 0 {
			f.count = n
		}
	case "swaprec":
		j := modn(k+1, n)
		f.recs[k], f.recs[j] = f.recs[j], f.recs[k]
	case "hash":
		b := append([]byte{}, f.recs[k]...)
		b[160+modn(op.arg(2), 32)] ^= 1 << modn(how, 8)
		f.recs[k] = b
	case "fliprec":
		b := append([]byte{}, f.recs[k]...)
		b[modn(op.arg(2), recSize2)] ^= 1 << modn(how, 8)
		f.recs[k] = b
	case "fork":
		o := &Chain2{H: c.H, Z: c.Z, PKK: c.PKK, Deltas: append([]Fr{}, c.Deltas[:k+1]...), Recs: append([]*Rec2{}, c.Recs[:k]...)}
		o.contribute(randFr(r), r)
		f.recs[k] = o.Recs[k].bytes()
		if how%2 == 0 {
			f.pts = o.pts(k + 1)
		}
	case "replay":
		f.recs = append(f.recs, f.recs[k])
	case "count":
		f.count = n + []int{1, -1, 2, -2, 256, 1000000}[modn(how, 6)]
		if f.count < 0 {
			f.count = 0
		}
	case "trail":
		f.tail = r.Bytes(1 + modn(how, 300))
		if how%3 == 0 {
			f.tail = f.recs[k]
		}
	case "trunc":
		f.cut = 1 + modn(how, 500)
	case "none":
		f.recs = nil
		if how%2 == 0 {
			f.pts = c.pts(0)
		}
	case "zeroes":
		b := make([]byte, recSize2)
		for _, o := range []int{0, 32, 64, 96} {
			b[o] = 0x40
		}
		if how%2 == 0 {
			if rec, err := decRec2(b); err == nil {
				rec.Hash = nil
				b = rec.bytes()
			}
		}
		f.recs[k] = b
		if how%4 < 2 {
			f.pts.D1, f.pts.D2 = G1{}, G2{}
		}
	}
	return f, name
}
