package harness

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"math/big"
	"strings"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

// Independent model of phase-1 files, written from docs/Format.md and [BGM17].

type (
	G1 = bn254.G1Affine
	G2 = bn254.G2Affine
	Fr = fr.Element
)

var gen1, gen2 = func() (G1, G2) { _, _, a, b := bn254.Generators(); return a, b }()

func bi(x *Fr) *big.Int { var b big.Int; x.BigInt(&b); return &b }

func mul1(p *G1, x *Fr) G1 { var q G1; q.ScalarMultiplication(p, bi(x)); return q }
func mul2(p *G2, x *Fr) G2 { var q G2; q.ScalarMultiplication(p, bi(x)); return q }
func g1x(x *Fr) G1         { return mul1(&gen1, x) }
func g2x(x *Fr) G2         { return mul2(&gen2, x) }

func batch1(xs []Fr) []G1 {
	if len(xs) == 0 {
		return nil
	}
	return sparse(xs, func(x []Fr) []G1 { return bn254.BatchScalarMultiplicationG1(&gen1, x) })
}

// sparse leaves out the zeros, which cost as much as the rest.
func sparse[T any](xs []Fr, f func([]Fr) []T) []T {
	var l []Fr
	for i := range xs {
		if !xs[i].IsZero() {
			l = append(l, xs[i])
		}
	}
	if len(l) == len(xs) {
		return f(xs)
	}
	r := make([]T, len(xs))
	if len(l) == 0 {
		return r
	}
	p := f(l)
	k := 0
	for i := range xs {
		if !xs[i].IsZero() {
			r[i] = p[k]
			k++
		}
	}
	return r
}

func batch2(xs []Fr) []G2 {
	if len(xs) == 0 {
		return nil
	}
	return sparse(xs, func(x []Fr) []G2 { return bn254.BatchScalarMultiplicationG2(&gen2, x) })
}

func powersOf(a, b *Fr, n int) []Fr {
	r := make([]Fr, n)
	cur := *a
	for i := range r {
		r[i] = cur
		cur.Mul(&cur, b)
	}
	return r
}

func one() Fr { var o Fr; o.SetOne(); return o }

// Exps are the accumulated secrets of a phase-1 state.
type Exps struct{ Tau, Alpha, Beta Fr }

func unitExps() Exps { return Exps{one(), one(), one()} }

func randFr(r *Rng) Fr {
	for {
		var x Fr
		x.SetBytes(r.Bytes(48))
		if !x.IsZero() {
			return x
		}
	}
}

// P1Points are the points of a phase-1 file.
type P1Points struct {
	Tau1, Alpha1, Beta1 []G1
	Tau2                []G2
	Beta2               G2
}

func (x *Exps) points(power int) P1Points {
	n := 1 << power
	o := one()
	var p P1Points
	p.Tau1 = batch1(powersOf(&o, &x.Tau, 2*n-1))
	p.Alpha1 = batch1(powersOf(&x.Alpha, &x.Tau, n))
	p.Beta1 = batch1(powersOf(&x.Beta, &x.Tau, n))
	p.Tau2 = batch2(powersOf(&o, &x.Tau, n))
	p.Beta2 = g2x(&x.Beta)
	return p
}

func (p *P1Points) bytes() []byte {
	var b bytes.Buffer
	for _, s := range [][]G1{p.Tau1, p.Alpha1, p.Beta1} {
		for i := range s {
			x := s[i].Bytes()
			b.Write(x[:])
		}
	}
	for i := range p.Tau2 {
		x := p.Tau2[i].Bytes()
		b.Write(x[:])
	}
	x := p.Beta2.Bytes()
	b.Write(x[:])
	return b.Bytes()
}

const (
	recSize1 = 640
	recSize2 = 192
)

func p1ParamSize(power int) int { return 192<<power + 32 }

// Section describes where a section of points lies in a phase-1 file.
type Section struct {
	Name  string
	Off   int
	Count int
	Size  int // bytes per point
}

func p1Sections(power int) []Section {
	n := 1 << power
	o := 3
	var s []Section
	add := func(name string, c, sz int) { s = append(s, Section{name, o, c, sz}); o += c * sz }
	add("TauG1", 2*n-1, 32)
	add("AlphaTauG1", n, 32)
	add("BetaTauG1", n, 32)
	add("TauG2", n, 64)
	add("BetaG2", 1, 64)
	return s
}

// P1 is a parsed phase-1 file.
type P1 struct {
	Power int
	Count int
	Raw   []byte
	Recs  [][]byte
}

func p1Header(power, count int) []byte {
	b := []byte{byte(power), 0, 0}
	binary.BigEndian.PutUint16(b[1:], uint16(count))
	return b
}

// parseP1 checks the exact layout.
func parseP1(b []byte) (*P1, error) {
	if len(b) < 3 {
		return nil, errors.New("short header")
	}
	p := &P1{Power: int(b[0]), Count: int(binary.BigEndian.Uint16(b[1:])), Raw: b}
	if p.Power < 1 || p.Power > 24 {
		return nil, fmt.Errorf("power %d", p.Power)
	}
	ps := p1ParamSize(p.Power)
	want := 3 + ps + recSize1*p.Count
	if len(b) != want {
		return nil, fmt.Errorf("file has %d bytes, layout needs %d", len(b), want)
	}
	for i := 0; i < p.Count; i++ {
		o := 3 + ps + i*recSize1
		p.Recs = append(p.Recs, b[o:o+recSize1])
	}
	return p, nil
}

func (p *P1) params() []byte { return p.Raw[3 : 3+p1ParamSize(p.Power)] }

func dec1(b []byte) (G1, error) {
	var p G1
	if len(b) < 32 || b[0]>>6 == 0 {
		return p, errors.New("not a compressed G1 point")
	}
	_, err := p.SetBytes(b[:32])
	return p, err
}

func dec2(b []byte) (G2, error) {
	var p G2
	if len(b) < 64 || b[0]>>6 == 0 {
		return p, errors.New("not a compressed G2 point")
	}
	_, err := p.SetBytes(b[:64])
	return p, err
}

// points decodes the parameter sections.
func (p *P1) points() (*P1Points, error) {
	var r P1Points
	for _, s := range p1Sections(p.Power) {
		for i := 0; i < s.Count; i++ {
			at := p.Raw[s.Off+i*s.Size:]
			if s.Size == 32 {
				x, err := dec1(at)
				if err != nil {
					return nil, fmt.Errorf("%s[%d]: %v", s.Name, i, err)
				}
				switch s.Name {
				case "TauG1":
					r.Tau1 = append(r.Tau1, x)
				case "AlphaTauG1":
					r.Alpha1 = append(r.Alpha1, x)
				default:
					r.Beta1 = append(r.Beta1, x)
				}
			} else {
				x, err := dec2(at)
				if err != nil {
					return nil, fmt.Errorf("%s[%d]: %v", s.Name, i, err)
				}
				if s.Name == "TauG2" {
					r.Tau2 = append(r.Tau2, x)
				} else {
					r.Beta2 = x
				}
			}
		}
	}
	return &r, nil
}

// PK is a knowledge proof.
type PK struct {
	S, SX G1
	SPX   G2
}

// Rec1 is a phase-1 contribution record.
type Rec1 struct {
	Tau1, Alpha1, Beta1 G1
	Tau2, Beta2         G2
	PTau, PAlpha, PBeta PK
	Hash                []byte
}

func decPK(b []byte) (PK, error) {
	var k PK
	var err error
	if k.S, err = dec1(b); err != nil {
		return k, err
	}
	if k.SX, err = dec1(b[32:]); err != nil {
		return k, err
	}
	k.SPX, err = dec2(b[64:128])
	return k, err
}

func decRec1(b []byte) (*Rec1, error) {
	var r Rec1
	var err error
	for i, p := range []*G1{&r.Tau1, &r.Alpha1, &r.Beta1} {
		if *p, err = dec1(b[32*i:]); err != nil {
			return nil, err
		}
	}
	if r.Tau2, err = dec2(b[96:]); err != nil {
		return nil, err
	}
	if r.Beta2, err = dec2(b[160:]); err != nil {
		return nil, err
	}
	for i, p := range []*PK{&r.PTau, &r.PAlpha, &r.PBeta} {
		if *p, err = decPK(b[224+128*i:]); err != nil {
			return nil, err
		}
	}
	r.Hash = b[608:640]
	return &r, nil
}

func (k *PK) bytes() []byte {
	a, b, c := k.S.Bytes(), k.SX.Bytes(), k.SPX.Bytes()
	return append(append(append([]byte{}, a[:]...), b[:]...), c[:]...)
}

// bytes encodes the record; a nil Hash is computed.
func (r *Rec1) bytes() []byte {
	var b []byte
	for _, p := range []*G1{&r.Tau1, &r.Alpha1, &r.Beta1} {
		x := p.Bytes()
		b = append(b, x[:]...)
	}
	for _, p := range []*G2{&r.Tau2, &r.Beta2} {
		x := p.Bytes()
		b = append(b, x[:]...)
	}
	for _, k := range []*PK{&r.PTau, &r.PAlpha, &r.PBeta} {
		b = append(b, k.bytes()...)
	}
	if r.Hash == nil {
		h := sha256.Sum256(b)
		r.Hash = h[:]
	}
	return append(b, r.Hash...)
}

// challenge is the G2 point a proof is made over.
func challenge(s, sx *G1, prev []byte, dst byte) G2 {
	m := append([]byte{}, s.Marshal()...)
	m = append(m, sx.Marshal()...)
	m = append(m, prev...)
	p, err := bn254.HashToG2(m, []byte{dst})
	if err != nil {
		panic(harnessErr{err})
	}
	return p
}

func makePK(x, s *Fr, prev []byte, dst byte) PK {
	var k PK
	k.S = g1x(s)
	k.SX = mul1(&k.S, x)
	c := challenge(&k.S, &k.SX, prev, dst)
	k.SPX = mul2(&c, x)
	return k
}

// checkPK: the proof shows knowledge of x with SX = x·S.
func (k *PK) check(prev []byte, dst byte) error {
	if k.S.IsInfinity() || k.SX.IsInfinity() || k.SPX.IsInfinity() {
		return errors.New("degenerate proof")
	}
	c := challenge(&k.S, &k.SX, prev, dst)
	if !sameRatio(&k.S, &k.SX, &c, &k.SPX) {
		return errors.New("proof of knowledge does not hold")
	}
	return nil
}

// sameRatio: b1/a1 in G1 equals b2/a2 in G2.
func sameRatio(a1, b1 *G1, a2, b2 *G2) bool {
	var na G1
	na.Neg(a1)
	ok, err := bn254.PairingCheck([]G1{na, *b1}, []G2{*b2, *a2})
	return err == nil && ok
}

// makeRec1 builds the record of an update of state old by d.
func makeRec1(old Exps, d Exps, prev []byte, r *Rng) (*Rec1, Exps) {
	n := old
	n.Tau.Mul(&n.Tau, &d.Tau)
	n.Alpha.Mul(&n.Alpha, &d.Alpha)
	n.Beta.Mul(&n.Beta, &d.Beta)
	rec := &Rec1{Tau1: g1x(&n.Tau), Alpha1: g1x(&n.Alpha), Beta1: g1x(&n.Beta), Tau2: g2x(&n.Tau), Beta2: g2x(&n.Beta)}
	s1, s2, s3 := randFr(r), randFr(r), randFr(r)
	rec.PTau = makePK(&d.Tau, &s1, prev, 1)
	rec.PAlpha = makePK(&d.Alpha, &s2, prev, 2)
	rec.PBeta = makePK(&d.Beta, &s3, prev, 3)
	return rec, n
}

// origin of a chain in points.
type origin1 struct {
	Tau1, Alpha1, Beta1 G1
	Tau2, Beta2         G2
}

func genOrigin() origin1 { return origin1{gen1, gen1, gen1, gen2, gen2} }

func fileOrigin(b []byte) (origin1, error) {
	var o origin1
	p, err := parseP1(b)
	if err != nil {
		return o, err
	}
	s := p1Sections(p.Power)
	get := func(k, i int) []byte { return b[s[k].Off+i*s[k].Size:] }
	if o.Tau1, err = dec1(get(0, 1)); err != nil {
		return o, err
	}
	if o.Alpha1, err = dec1(get(1, 0)); err != nil {
		return o, err
	}
	if o.Beta1, err = dec1(get(2, 0)); err != nil {
		return o, err
	}
	if o.Tau2, err = dec2(get(3, 1)); err != nil {
		return o, err
	}
	o.Beta2, err = dec2(get(4, 0))
	return o, err
}

// refChain1 verifies the record chain and returns the last record.
func refChain1(p *P1, o origin1) (*Rec1, error) {
	if p.Count == 0 {
		return nil, errors.New("no contribution")
	}
	prev := o
	var prevHash []byte
	var last *Rec1
	for i, raw := range p.Recs {
		r, err := decRec1(raw)
		if err != nil {
			return nil, fmt.Errorf("record %d: %v", i, err)
		}
		fail := func(what string) error { return fmt.Errorf("record %d: %s", i, what) }
		for _, x := range []*G1{&r.Tau1, &r.Alpha1, &r.Beta1} {
			if x.IsInfinity() {
				return nil, fail("zero secret")
			}
		}
		if r.Tau2.IsInfinity() || r.Beta2.IsInfinity() {
			return nil, fail("zero secret")
		}
		for k, pk := range []*PK{&r.PTau, &r.PAlpha, &r.PBeta} {
			if err := pk.check(prevHash, byte(k+1)); err != nil {
				return nil, fail(err.Error())
			}
		}
		if !updated1(&prev.Tau1, &r.Tau1, &r.PTau, prevHash, 1) || !updated1(&prev.Alpha1, &r.Alpha1, &r.PAlpha, prevHash, 2) || !updated1(&prev.Beta1, &r.Beta1, &r.PBeta, prevHash, 3) {
			return nil, fail("update in G1 does not match its proof")
		}
		if !sameRatio(&r.PTau.S, &r.PTau.SX, &prev.Tau2, &r.Tau2) || !sameRatio(&r.PBeta.S, &r.PBeta.SX, &prev.Beta2, &r.Beta2) {
			return nil, fail("update in G2 does not match its proof")
		}
		h := sha256.Sum256(raw[:608])
		// The digest is over the canonical encoding.
		c := *r
		c.Hash = nil
		cb := c.bytes()
		if !bytes.Equal(cb[608:], r.Hash) && !bytes.Equal(h[:], r.Hash) {
			return nil, fail("wrong digest")
		}
		prev = origin1{r.Tau1, r.Alpha1, r.Beta1, r.Tau2, r.Beta2}
		prevHash = r.Hash
		last = r
	}
	return last, nil
}

func updated1(old, new *G1, k *PK, prev []byte, dst byte) bool {
	c := challenge(&k.S, &k.SX, prev, dst)
	return sameRatio(old, new, &c, &k.SPX)
}

// coefs are the reference verifier's own challenge coefficients.
func coefs(r *Rng, n int) []Fr {
	c := make([]Fr, n)
	for i := range c {
		c[i] = randFr(r)
	}
	return c
}

func msm1(p []G1, c []Fr) G1 {
	var r G1
	if _, err := r.MultiExp(p, c, ecc.MultiExpConfig{NbTasks: 1}); err != nil {
		panic(harnessErr{err})
	}
	return r
}
func msm2(p []G2, c []Fr) G2 {
	var r G2
	if _, err := r.MultiExp(p, c, ecc.MultiExpConfig{NbTasks: 1}); err != nil {
		panic(harnessErr{err})
	}
	return r
}

// refParams1 checks the parameters against the last record.
func refParams1(pt *P1Points, last *Rec1, r *Rng) error {
	for _, s := range [][]G1{pt.Tau1, pt.Alpha1, pt.Beta1} {
		for i := range s {
			if s[i].IsInfinity() {
				return errors.New("zero point in parameters")
			}
		}
	}
	if !pt.Tau1[0].Equal(&gen1) || !pt.Tau2[0].Equal(&gen2) {
		return errors.New("parameters do not start at the generators")
	}
	if !pt.Tau1[1].Equal(&last.Tau1) || !pt.Alpha1[0].Equal(&last.Alpha1) || !pt.Beta1[0].Equal(&last.Beta1) ||
		!pt.Tau2[1].Equal(&last.Tau2) || !pt.Beta2.Equal(&last.Beta2) {
		return errors.New("parameters are not those of the last record")
	}
	if !sameRatio(&gen1, &last.Tau1, &gen2, &last.Tau2) || !sameRatio(&gen1, &last.Beta1, &gen2, &last.Beta2) {
		return errors.New("G1 and G2 disagree")
	}
	for k, s := range [][]G1{pt.Tau1, pt.Alpha1, pt.Beta1} {
		c := coefs(r, len(s)-1)
		a, b := msm1(s[:len(s)-1], c), msm1(s[1:], c)
		if !sameRatio(&a, &b, &gen2, &last.Tau2) {
			return fmt.Errorf("section %d is not geometric in tau", k)
		}
	}
	c := coefs(r, len(pt.Tau2)-1)
	a, b := msm2(pt.Tau2[:len(c)], c), msm2(pt.Tau2[1:], c)
	if !sameRatio(&gen1, &last.Tau1, &a, &b) {
		return errors.New("TauG2 is not geometric in tau")
	}
	return nil
}

// RefVerifyP1 is the reference verifier. part: "chain", "params" or "" for both.
func RefVerifyP1(b []byte, origin []byte, r *Rng) (layout, chain, params error) {
	p, err := parseP1(b)
	if err != nil {
		return err, nil, nil
	}
	o := genOrigin()
	if origin != nil {
		if o, err = fileOrigin(origin); err != nil {
			return nil, err, nil
		}
	}
	last, cerr := refChain1(p, o)
	pt, perr := p.points()
	if perr == nil {
		if last == nil && p.Count > 0 {
			last, _ = decRec1(p.Recs[p.Count-1])
		}
		if last == nil {
			return nil, cerr, errors.New("no last record")
		}
		perr = refParams1(pt, last, r)
	}
	return nil, cerr, perr
}

// candidates lists every scalar the observed randomness may have become.
func candidates(draws [][]byte) []Fr {
	var out []Fr
	seen := map[Fr]bool{}
	add := func(x Fr) {
		if !x.IsZero() && !seen[x] {
			seen[x] = true
			out = append(out, x)
		}
	}
	q := fr.Modulus()
	one := func(b []byte) {
		if len(b) == 32 {
			// gnark-crypto's SetRandom: little-endian Montgomery limbs, top bits cleared.
			var c [32]byte
			copy(c[:], b)
			c[31] &= 0x3f
			var x Fr
			for i := 0; i < 4; i++ {
				x[i] = binary.LittleEndian.Uint64(c[8*i:])
			}
			le := new(big.Int)
			rev := make([]byte, 32)
			for i := range c {
				rev[31-i] = c[i]
			}
			le.SetBytes(rev)
			if le.Cmp(q) < 0 {
				add(x)
				var y Fr
				y.SetBigInt(le)
				add(y)
			}
			// crypto/rand.Int: big-endian, top bits cleared.
			copy(c[:], b)
			c[0] &= 0x3f
			v := new(big.Int).SetBytes(c[:])
			if v.Cmp(q) < 0 {
				var y Fr
				y.SetBigInt(v)
				add(y)
			}
		}
		if len(b) >= 32 && len(b) <= 64 {
			var y Fr
			y.SetBytes(b)
			add(y)
		}
	}
	for _, d := range draws {
		if len(d) <= 64 {
			one(d)
		}
	}
	// The stream in 32-byte steps, for implementations that read in other portions.
	var all []byte
	for _, d := range draws {
		all = append(all, d...)
		if len(all) > 4096 {
			break
		}
	}
	for _, w := range []int{32, 48, 64} {
		for i := 0; i+w <= len(all); i += w {
			one(all[i : i+w])
		}
	}
	return out
}

// Found1 is what checkContribute1 learnt.
type Found1 struct {
	D        Exps // the contributor's own secrets
	New      Exps
	Nonces   []Fr
	Known    bool // the secrets were found among the entropy draws
	NonceOK  bool
	HashHex  string
	NewRec   []byte
	Distinct bool
}

// checkContribute1 decides C01 for one contribution: in with secrets old became out.
func checkContribute1(in, out []byte, old Exps, p *Proc, rng *Rng) (*Found1, error) {
	pi, err := parseP1(in)
	if err != nil {
		return nil, fmt.Errorf("harness: input: %v", err)
	}
	po, err := parseP1(out)
	if err != nil {
		return nil, fmt.Errorf("output layout: %v", err)
	}
	if po.Power != pi.Power {
		return nil, fmt.Errorf("power changed from %d to %d", pi.Power, po.Power)
	}
	if po.Count != pi.Count+1 {
		return nil, fmt.Errorf("count went from %d to %d", pi.Count, po.Count)
	}
	for i := range pi.Recs {
		if !bytes.Equal(pi.Recs[i], po.Recs[i]) {
			return nil, fmt.Errorf("earlier record %d was changed", i)
		}
	}
	rec, err := decRec1(po.Recs[pi.Count])
	if err != nil {
		return nil, fmt.Errorf("new record: %v", err)
	}
	h := sha256.Sum256(po.Recs[pi.Count][:608])
	if !bytes.Equal(h[:], rec.Hash) {
		return nil, errors.New("new record's digest is wrong")
	}
	f := &Found1{NewRec: po.Recs[pi.Count], HashHex: hex.EncodeToString(rec.Hash)}
	if !strings.Contains(p.Out, f.HashHex) {
		return nil, errors.New("the contributor was not told the record's hash")
	}
	pt, err := po.points()
	if err != nil {
		return nil, fmt.Errorf("output points: %v", err)
	}
	if !rec.Tau1.Equal(&pt.Tau1[1]) || !rec.Alpha1.Equal(&pt.Alpha1[0]) || !rec.Beta1.Equal(&pt.Beta1[0]) || !rec.Tau2.Equal(&pt.Tau2[1]) || !rec.Beta2.Equal(&pt.Beta2) {
		return nil, errors.New("new record does not carry the new first points")
	}
	if rec.Tau1.IsInfinity() || rec.Alpha1.IsInfinity() || rec.Beta1.IsInfinity() {
		return nil, errors.New("zero secret")
	}
	var prev []byte
	if pi.Count > 0 {
		prev = pi.Recs[pi.Count-1][608:640]
	}
	for k, pk := range []*PK{&rec.PTau, &rec.PAlpha, &rec.PBeta} {
		if err := pk.check(prev, byte(k+1)); err != nil {
			return nil, fmt.Errorf("proof %d: %v", k, err)
		}
	}
	// Find the secrets among the entropy draws.
	cands := candidates(p.Draws)
	cb := batch1(cands)
	find := func(old *Fr, target *G1) (Fr, bool) {
		var inv Fr
		inv.Inverse(old)
		want := mul1(target, &inv)
		for i := range cb {
			if cb[i].Equal(&want) {
				return cands[i], true
			}
		}
		return Fr{}, false
	}
	var ok [3]bool
	f.D.Tau, ok[0] = find(&old.Tau, &rec.Tau1)
	f.D.Alpha, ok[1] = find(&old.Alpha, &rec.Alpha1)
	f.D.Beta, ok[2] = find(&old.Beta, &rec.Beta1)
	f.Known = ok[0] && ok[1] && ok[2]
	o := one()
	f.NonceOK = true
	for _, pk := range []*PK{&rec.PTau, &rec.PAlpha, &rec.PBeta} {
		s, found := find(&o, &pk.S)
		f.NonceOK = f.NonceOK && found
		f.Nonces = append(f.Nonces, s)
	}
	if f.Known {
		f.New = old
		f.New.Tau.Mul(&f.New.Tau, &f.D.Tau)
		f.New.Alpha.Mul(&f.New.Alpha, &f.D.Alpha)
		f.New.Beta.Mul(&f.New.Beta, &f.D.Beta)
		want := f.New.points(po.Power)
		if !bytes.Equal(want.bytes(), po.params()) {
			return f, fmt.Errorf("parameters are not the scaled ones: %s", diffPoints(&want, pt))
		}
		if x := mul1(&rec.PTau.S, &f.D.Tau); !x.Equal(&rec.PTau.SX) {
			return f, errors.New("proof is for another tau")
		}
		if x := mul1(&rec.PAlpha.S, &f.D.Alpha); !x.Equal(&rec.PAlpha.SX) {
			return f, errors.New("proof is for another alpha")
		}
		if x := mul1(&rec.PBeta.S, &f.D.Beta); !x.Equal(&rec.PBeta.SX) {
			return f, errors.New("proof is for another beta")
		}
		return f, nil
	}
	// Without the secrets: the same facts by pairings.
	if err := refParams1(pt, rec, rng); err != nil {
		return f, err
	}
	po1 := origin1{g1x(&old.Tau), g1x(&old.Alpha), g1x(&old.Beta), g2x(&old.Tau), g2x(&old.Beta)}
	if !updated1(&po1.Tau1, &rec.Tau1, &rec.PTau, prev, 1) || !updated1(&po1.Alpha1, &rec.Alpha1, &rec.PAlpha, prev, 2) || !updated1(&po1.Beta1, &rec.Beta1, &rec.PBeta, prev, 3) {
		return f, errors.New("proof is for another secret")
	}
	return f, nil
}

func diffPoints(want, got *P1Points) string {
	name := []string{"TauG1", "AlphaTauG1", "BetaTauG1"}
	for k, s := range [][]G1{want.Tau1, want.Alpha1, want.Beta1} {
		g := [][]G1{got.Tau1, got.Alpha1, got.Beta1}[k]
		for i := range s {
			if !s[i].Equal(&g[i]) {
				return fmt.Sprintf("first difference at %s[%d]", name[k], i)
			}
		}
	}
	for i := range want.Tau2 {
		if !want.Tau2[i].Equal(&got.Tau2[i]) {
			return fmt.Sprintf("first difference at TauG2[%d]", i)
		}
	}
	if !want.Beta2.Equal(&got.Beta2) {
		return "BetaG2 differs"
	}
	return "only the encoding differs"
}
