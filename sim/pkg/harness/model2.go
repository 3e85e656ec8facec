package harness

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/gob"
	"encoding/hex"
	"errors"
	"fmt"
	"math/bits"
	"reflect"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"
	"github.com/consensys/gnark/constraint"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
)

// Independent model of phase 2 and of the keys, computed with known secrets.

// Header2 mirrors the phase-2 header.
type Header2 struct {
	Wires            int
	Witness          int
	Public           int
	PrivateCommitted int
	Constraints      int
	Domain           int
	Contributions    int
}

func fmtVector(v any) []Fr {
	l, ok := v.(fr.Vector)
	if !ok {
		panic(harnessErr{fmt.Errorf("witness vector is %T", v)})
	}
	return append([]Fr{}, l...)
}

// P2 is a parsed phase-2 file.
type P2 struct {
	H    Header2
	Off  int // where the points start
	Raw  []byte
	Recs [][]byte
}

func (h *Header2) sane() error {
	lim := 1 << 26
	for _, v := range []int{h.Wires, h.Witness, h.Public, h.PrivateCommitted, h.Constraints, h.Contributions} {
		if v < 0 || v > lim {
			return fmt.Errorf("header value %d", v)
		}
	}
	if h.Domain < 1 || h.Domain > lim {
		return fmt.Errorf("domain %d", h.Domain)
	}
	return nil
}

func (h *Header2) paramSize() int { return 96 + 32*(h.Domain-1) + 32*h.Witness }

// parseP2 checks the exact layout.
func parseP2(b []byte) (*P2, error) {
	p := &P2{Raw: b}
	rd := bytes.NewReader(b)
	if err := safely(func() error { return gob.NewDecoder(rd).Decode(&p.H) }); err != nil {
		return nil, fmt.Errorf("header: %v", err)
	}
	p.Off = len(b) - rd.Len()
	if err := p.H.sane(); err != nil {
		return nil, err
	}
	want := p.Off + p.H.paramSize() + recSize2*p.H.Contributions
	if len(b) != want {
		return nil, fmt.Errorf("file has %d bytes, layout needs %d", len(b), want)
	}
	for i := 0; i < p.H.Contributions; i++ {
		o := p.Off + p.H.paramSize() + i*recSize2
		p.Recs = append(p.Recs, b[o:o+recSize2])
	}
	return p, nil
}

func safely(f func() error) (err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("%v", e)
		}
	}()
	return f()
}

func (p *P2) params() []byte { return p.Raw[p.Off : p.Off+p.H.paramSize()] }

func (p *P2) sections() []Section {
	o := p.Off
	var s []Section
	add := func(name string, c, sz int) { s = append(s, Section{name, o, c, sz}); o += c * sz }
	add("DeltaG1", 1, 32)
	add("DeltaG2", 1, 64)
	add("Z", p.H.Domain-1, 32)
	add("PKK", p.H.Witness, 32)
	return s
}

// withHeader rebuilds the file with another header.
func (p *P2) withHeader(h Header2) []byte {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(struct {
		Wires            int
		Witness          int
		Public           int
		PrivateCommitted int
		Constraints      int
		Domain           int
		Contributions    int
	}(h)); err != nil {
		panic(harnessErr{err})
	}
	return append(b.Bytes(), p.Raw[p.Off:]...)
}

// P2Points are the points of a phase-2 file.
type P2Points struct {
	D1     G1
	D2     G2
	Z, PKK []G1
}

func (p *P2) points() (*P2Points, error) {
	var r P2Points
	var err error
	b := p.params()
	if r.D1, err = dec1(b); err != nil {
		return nil, fmt.Errorf("DeltaG1: %v", err)
	}
	if r.D2, err = dec2(b[32:]); err != nil {
		return nil, fmt.Errorf("DeltaG2: %v", err)
	}
	b = b[96:]
	for i := 0; i < p.H.Domain-1+p.H.Witness; i++ {
		x, err := dec1(b[32*i:])
		if err != nil {
			return nil, fmt.Errorf("point %d: %v", i, err)
		}
		if i < p.H.Domain-1 {
			r.Z = append(r.Z, x)
		} else {
			r.PKK = append(r.PKK, x)
		}
	}
	return &r, nil
}

// Rec2 is a phase-2 contribution record.
type Rec2 struct {
	Delta G1
	P     PK
	Hash  []byte
}

func decRec2(b []byte) (*Rec2, error) {
	var r Rec2
	var err error
	if r.Delta, err = dec1(b); err != nil {
		return nil, err
	}
	if r.P, err = decPK(b[32:]); err != nil {
		return nil, err
	}
	r.Hash = b[160:192]
	return &r, nil
}

func (r *Rec2) bytes() []byte {
	d := r.Delta.Bytes()
	b := append(append([]byte{}, d[:]...), r.P.bytes()...)
	if r.Hash == nil {
		h := sha256.Sum256(b)
		r.Hash = h[:]
	}
	return append(b, r.Hash...)
}

func makeRec2(old, d Fr, prev []byte, r *Rng) (*Rec2, Fr) {
	var n Fr
	n.Mul(&old, &d)
	s := randFr(r)
	return &Rec2{Delta: g1x(&n), P: makePK(&d, &s, prev, 1)}, n
}

// refChain2 verifies the record chain starting from the origin's delta.
func refChain2(p *P2, d G1) (*Rec2, error) {
	if p.H.Contributions == 0 {
		return nil, errors.New("no contribution")
	}
	prev := d
	var prevHash []byte
	var last *Rec2
	for i, raw := range p.Recs {
		r, err := decRec2(raw)
		if err != nil {
			return nil, fmt.Errorf("record %d: %v", i, err)
		}
		if r.Delta.IsInfinity() {
			return nil, fmt.Errorf("record %d: zero secret", i)
		}
		if err := r.P.check(prevHash, 1); err != nil {
			return nil, fmt.Errorf("record %d: %v", i, err)
		}
		if !updated1(&prev, &r.Delta, &r.P, prevHash, 1) {
			return nil, fmt.Errorf("record %d: update does not match its proof", i)
		}
		h := sha256.Sum256(raw[:160])
		c := *r
		c.Hash = nil
		cb := c.bytes()
		if !bytes.Equal(cb[160:], r.Hash) && !bytes.Equal(h[:], r.Hash) {
			return nil, fmt.Errorf("record %d: wrong digest", i)
		}
		prev, prevHash, last = r.Delta, r.Hash, r
	}
	return last, nil
}

// RefVerifyP2 is the reference verifier.
func RefVerifyP2(cur, org []byte, r *Rng) (layout, chain, params error) {
	p, err := parseP2(cur)
	if err != nil {
		return err, nil, nil
	}
	// Of the origin only the part before its records counts.
	var o P2
	rd := bytes.NewReader(org)
	if err := safely(func() error { return gob.NewDecoder(rd).Decode(&o.H) }); err != nil {
		return fmt.Errorf("origin: %v", err), nil, nil
	}
	o.Raw, o.Off = org, len(org)-rd.Len()
	if err := o.H.sane(); err != nil {
		return fmt.Errorf("origin: %v", err), nil, nil
	}
	if len(org) < o.Off+o.H.paramSize() {
		return errors.New("origin is too short"), nil, nil
	}
	hp, ho := p.H, o.H
	hp.Contributions, ho.Contributions = 0, 0
	if hp != ho {
		return nil, nil, errors.New("headers differ")
	}
	op, err := o.points()
	if err != nil {
		return fmt.Errorf("origin: %v", err), nil, nil
	}
	last, cerr := refChain2(p, op.D1)
	pt, err := p.points()
	if err != nil {
		return nil, cerr, err
	}
	return nil, cerr, refParams2(pt, op, last, r)
}

func refParams2(pt, op *P2Points, last *Rec2, r *Rng) error {
	if pt.D1.IsInfinity() || pt.D2.IsInfinity() {
		return errors.New("zero delta")
	}
	if last != nil && !last.Delta.Equal(&pt.D1) {
		return errors.New("delta is not the last record's")
	}
	if !sameRatio(&op.D1, &pt.D1, &op.D2, &pt.D2) {
		return errors.New("delta in G1 and G2 disagree")
	}
	for k, s := range [][2][]G1{{pt.Z, op.Z}, {pt.PKK, op.PKK}} {
		if len(s[0]) == 0 {
			continue
		}
		c := coefs(r, len(s[0]))
		a, b := msm1(s[0], c), msm1(s[1], c)
		// a·δ = b
		if !sameRatio(&a, &b, &op.D2, &pt.D2) {
			return fmt.Errorf("%s is not the origin's divided by delta", [...]string{"Z", "PKK"}[k])
		}
		for i := range s[0] {
			if s[0][i].IsInfinity() != s[1][i].IsInfinity() {
				return errors.New("point vanished or appeared")
			}
		}
	}
	return nil
}

// Found2 is what checkContribute2 learnt.
type Found2 struct {
	D, New  Fr
	Nonces  []Fr
	Known   bool
	NonceOK bool
	HashHex string
}

// checkContribute2 decides C06 for one contribution.
func checkContribute2(in, out []byte, old Fr, p *Proc, rng *Rng) (*Found2, error) {
	pi, err := parseP2(in)
	if err != nil {
		return nil, fmt.Errorf("harness: input: %v", err)
	}
	po, err := parseP2(out)
	if err != nil {
		return nil, fmt.Errorf("output layout: %v", err)
	}
	want := pi.H
	want.Contributions++
	if po.H != want {
		return nil, fmt.Errorf("header is %+v, should be %+v", po.H, want)
	}
	for i := range pi.Recs {
		if !bytes.Equal(pi.Recs[i], po.Recs[i]) {
			return nil, fmt.Errorf("earlier record %d was changed", i)
		}
	}
	raw := po.Recs[pi.H.Contributions]
	rec, err := decRec2(raw)
	if err != nil {
		return nil, fmt.Errorf("new record: %v", err)
	}
	h := sha256.Sum256(raw[:160])
	if !bytes.Equal(h[:], rec.Hash) {
		return nil, errors.New("new record's digest is wrong")
	}
	f := &Found2{HashHex: hex.EncodeToString(rec.Hash)}
	if !strings.Contains(p.Out, f.HashHex) {
		return nil, errors.New("the contributor was not told the record's hash")
	}
	pt, err := po.points()
	if err != nil {
		return nil, fmt.Errorf("output points: %v", err)
	}
	ip, err := pi.points()
	if err != nil {
		return nil, fmt.Errorf("harness: input points: %v", err)
	}
	if !rec.Delta.Equal(&pt.D1) {
		return nil, errors.New("new record does not carry the new delta")
	}
	if rec.Delta.IsInfinity() {
		return nil, errors.New("zero secret")
	}
	var prev []byte
	if n := len(pi.Recs); n > 0 {
		prev = pi.Recs[n-1][160:192]
	}
	if err := rec.P.check(prev, 1); err != nil {
		return nil, err
	}
	cands := candidates(p.Draws)
	cb := batch1(cands)
	var inv Fr
	inv.Inverse(&old)
	t := mul1(&rec.Delta, &inv)
	for i := range cb {
		if cb[i].Equal(&t) {
			f.D, f.Known = cands[i], true
		}
		if cb[i].Equal(&rec.P.S) {
			f.Nonces, f.NonceOK = []Fr{cands[i]}, true
		}
	}
	if !f.Known {
		if !updated1(&ip.D1, &rec.Delta, &rec.P, prev, 1) {
			return f, errors.New("proof is for another delta")
		}
		return f, refParams2(pt, ip, rec, rng)
	}
	f.New.Mul(&old, &f.D)
	var di Fr
	di.Inverse(&f.D)
	if x := mul1(&rec.P.S, &f.D); !x.Equal(&rec.P.SX) {
		return f, errors.New("proof is for another delta")
	}
	if x := mul1(&ip.D1, &f.D); !x.Equal(&pt.D1) {
		return f, errors.New("DeltaG1 is not the scaled one")
	}
	if x := mul2(&ip.D2, &f.D); !x.Equal(&pt.D2) {
		return f, errors.New("DeltaG2 is not the scaled one")
	}
	for i := range ip.Z {
		if x := mul1(&ip.Z[i], &di); !x.Equal(&pt.Z[i]) {
			return f, fmt.Errorf("Z[%d] is not the scaled one", i)
		}
	}
	for i := range ip.PKK {
		if x := mul1(&ip.PKK[i], &di); !x.Equal(&pt.PKK[i]) {
			return f, fmt.Errorf("PKK[%d] is not the scaled one", i)
		}
	}
	return f, nil
}

// ------------------------------------------------------------- QAP

// QAP holds the scalars behind every phase-2 value and key.
type QAP struct {
	H                     Header2
	X                     Exps
	LagTau, LagAl, LagBe  []Fr
	A, B, L               []Fr // per wire
	Z                     []Fr // in file order
	VKK, CKK, PKK         []Fr
	Com                   constraint.Commitment
	vkkW, ckkW, pkkW      []int
	InfA, InfB            []bool
	NInfA, NInfB          uint64
	lagCache, evalsPoints []byte
}

func domainFor(n int) int {
	d := 2
	for d < n {
		d *= 2
	}
	return d
}

// lagrangeAt evaluates the Lagrange basis of the domain at tau.
func lagrangeAt(n int, tau *Fr) []Fr {
	w := fft.NewDomain(uint64(n)).Generator
	var tn, o, ninv Fr
	o.SetOne()
	tn.Set(tau)
	for i := 1; i < n; i *= 2 {
		tn.Square(&tn)
	}
	var zn Fr
	zn.Sub(&tn, &o)
	ninv.SetUint64(uint64(n))
	ninv.Inverse(&ninv)
	r := make([]Fr, n)
	wi := o
	for i := range r {
		if zn.IsZero() {
			if wi.Equal(tau) {
				r[i].SetOne()
			}
		} else {
			var d Fr
			d.Sub(tau, &wi)
			d.Inverse(&d)
			r[i].Mul(&zn, &wi)
			r[i].Mul(&r[i], &ninv)
			r[i].Mul(&r[i], &d)
		}
		wi.Mul(&wi, &w)
	}
	return r
}

// NewQAP evaluates a circuit at the secrets.
func NewQAP(cs *cs_bn254.R1CS, x Exps) *QAP {
	q := &QAP{X: x, Com: cs.CommitmentInfo}
	rs := rows(cs)
	n := domainFor(len(rs))
	q.LagTau = lagrangeAt(n, &x.Tau)
	q.LagAl, q.LagBe = make([]Fr, n), make([]Fr, n)
	for i := range q.LagTau {
		q.LagAl[i].Mul(&q.LagTau[i], &x.Alpha)
		q.LagBe[i].Mul(&q.LagTau[i], &x.Beta)
	}
	wires := wiresOf(cs)
	q.A, q.B, q.L = make([]Fr, wires), make([]Fr, wires), make([]Fr, wires)
	C := make([]Fr, wires)
	acc := func(to []Fr, e constraint.LinearExpression, l *Fr) {
		for _, t := range e {
			var v Fr
			v.Mul(&cs.Coefficients[t.CoeffID()], l)
			to[t.WireID()].Add(&to[t.WireID()], &v)
		}
	}
	for i, r := range rs {
		acc(q.A, r.L, &q.LagTau[i])
		acc(q.B, r.R, &q.LagTau[i])
		acc(C, r.O, &q.LagTau[i])
	}
	for w := range q.L {
		var a, b Fr
		a.Mul(&q.A[w], &x.Beta)
		b.Mul(&q.B[w], &x.Alpha)
		q.L[w].Add(&a, &b)
		q.L[w].Add(&q.L[w], &C[w])
	}
	npub := cs.GetNbPublicVariables()
	com := map[int]bool{}
	if q.Com.Is() {
		for _, w := range q.Com.Committed {
			if w >= npub {
				com[w] = true
			}
		}
	}
	for w := 0; w < wires; w++ {
		switch {
		case w < npub || (q.Com.Is() && w == q.Com.CommitmentIndex):
			q.VKK, q.vkkW = append(q.VKK, q.L[w]), append(q.vkkW, w)
		case com[w]:
			q.CKK, q.ckkW = append(q.CKK, q.L[w]), append(q.ckkW, w)
		default:
			q.PKK, q.pkkW = append(q.PKK, q.L[w]), append(q.pkkW, w)
		}
	}
	zs := make([]Fr, n)
	p := powersOf(ptr(one()), &x.Tau, 2*n)
	for i := 0; i < n-1; i++ {
		zs[i].Sub(&p[i+n], &p[i])
	}
	q.Z = make([]Fr, n-1)
	sh := 64 - bits.TrailingZeros64(uint64(n))
	for i := 0; i < n; i++ {
		if j := int(bits.Reverse64(uint64(i)) >> sh); j < n-1 {
			q.Z[j] = zs[i]
		}
	}
	q.InfA, q.InfB = make([]bool, wires), make([]bool, wires)
	for w := 0; w < wires; w++ {
		if q.A[w].IsZero() {
			q.InfA[w] = true
			q.NInfA++
		}
		if q.B[w].IsZero() {
			q.InfB[w] = true
			q.NInfB++
		}
	}
	q.H = Header2{Wires: wires, Witness: len(q.PKK), Public: len(q.VKK), PrivateCommitted: len(q.CKK), Constraints: len(rs), Domain: n}
	return q
}

func ptr[T any](x T) *T { return &x }

func enc(raw bool, vs ...any) []byte {
	var b bytes.Buffer
	var e *bn254.Encoder
	if raw {
		e = bn254.NewEncoder(&b, bn254.RawEncoding())
	} else {
		e = bn254.NewEncoder(&b)
	}
	for _, v := range vs {
		switch x := v.(type) {
		case G1:
			v = &x
		case G2:
			v = &x
		}
		if err := e.Encode(v); err != nil {
			panic(harnessErr{err})
		}
	}
	return b.Bytes()
}

// p2params is the parameter part of the phase-2 file at delta d.
func (q *QAP) p2params(d *Fr) []byte {
	var inv Fr
	inv.Inverse(d)
	var b bytes.Buffer
	b.Write(enc(false, g1x(d), g2x(d)))
	for _, l := range [][]Fr{q.Z, q.PKK} {
		for _, p := range batch1(scaled(l, &inv)) {
			x := p.Bytes()
			b.Write(x[:])
		}
	}
	return b.Bytes()
}

func scaled(l []Fr, k *Fr) []Fr {
	r := make([]Fr, len(l))
	for i := range l {
		r[i].Mul(&l[i], k)
	}
	return r
}

func nz1(p []G1) []G1 {
	if p == nil {
		return []G1{}
	}
	return p
}

func (q *QAP) lagFile() []byte {
	if q.lagCache == nil {
		q.lagCache = enc(false, batch1(q.LagTau), batch1(q.LagAl), batch1(q.LagBe), batch2(q.LagTau))
	}
	return q.lagCache
}

// evalsHead is the evaluation file without the trailing commitment info.
func (q *QAP) evalsHead() []byte {
	if q.evalsPoints == nil {
		q.evalsPoints = enc(false, g1x(&q.X.Alpha), g1x(&q.X.Beta), g2x(&q.X.Beta), batch1(q.A), batch1(q.B), batch2(q.B), nz1(batch1(q.VKK)), nz1(batch1(q.CKK)))
	}
	return q.evalsPoints
}

func (q *QAP) checkCom(tail []byte) error {
	var c constraint.Commitment
	rd := bytes.NewReader(tail)
	if err := safely(func() error { return gob.NewDecoder(rd).Decode(&c) }); err != nil {
		return fmt.Errorf("commitment info: %v", err)
	}
	if rd.Len() != 0 {
		return fmt.Errorf("%d bytes after the commitment info", rd.Len())
	}
	if len(c.Committed) != len(q.Com.Committed) || c.NbPrivateCommitted != q.Com.NbPrivateCommitted || c.CommitmentIndex != q.Com.CommitmentIndex || c.HintID != q.Com.HintID ||
		(len(c.Committed) > 0 && (!reflect.DeepEqual(c.Committed, q.Com.Committed) || !reflect.DeepEqual(c.CommittedAndCommitment, q.Com.CommittedAndCommitment))) {
		return fmt.Errorf("commitment info is %+v, the circuit's is %+v", c, q.Com)
	}
	return nil
}

// checkInit decides C05 for the three files of an initialisation.
func (q *QAP) checkInit(files map[string][]byte, ph2 string) error {
	p, err := parseP2(files[ph2])
	if err != nil {
		return fmt.Errorf("phase-2 layout: %v", err)
	}
	if p.H != q.H {
		return fmt.Errorf("header is %+v, should be %+v", p.H, q.H)
	}
	if w, g := q.p2params(ptr(one())), p.params(); !bytes.Equal(w, g) {
		return fmt.Errorf("phase-2 parameters differ from the circuit's QAP: %s", where2(p, w, g))
	}
	if w, g := q.lagFile(), files["srs.lag"]; !bytes.Equal(w, g) {
		return fmt.Errorf("srs.lag differs: %s", firstDiff(w, g))
	}
	w, g := q.evalsHead(), files["evals"]
	if len(g) < len(w) || !bytes.Equal(w, g[:len(w)]) {
		return fmt.Errorf("evals differs from the circuit's QAP: %s", q.whereEvals(w, g))
	}
	return q.checkCom(g[len(w):])
}

func where2(p *P2, w, g []byte) string {
	for i := range w {
		if i >= len(g) || w[i] != g[i] {
			for _, s := range p.sections() {
				if o := i + p.Off; o >= s.Off && o < s.Off+s.Count*s.Size {
					return fmt.Sprintf("%s[%d]", s.Name, (o-s.Off)/s.Size)
				}
			}
		}
	}
	return firstDiff(w, g)
}

func (q *QAP) whereEvals(w, g []byte) string {
	n := len(q.A)
	at := len(w)
	for i := range w {
		if i >= len(g) || w[i] != g[i] {
			at = i
			break
		}
	}
	for _, s := range []Section{{"alpha", 0, 1, 32}, {"beta1", 32, 1, 32}, {"beta2", 64, 1, 64}, {"A", 132, n, 32}, {"B1", 136 + 32*n, n, 32}, {"B2", 140 + 64*n, n, 64},
		{"VKK", 144 + 128*n, len(q.VKK), 32}, {"CKK", 148 + 128*n + 32*len(q.VKK), len(q.CKK), 32}} {
		if at >= s.Off && at < s.Off+s.Count*s.Size {
			return fmt.Sprintf("%s[%d]", s.Name, (at-s.Off)/s.Size)
		}
	}
	return firstDiff(w, g)
}

func drop1(p []G1) []G1 {
	r := []G1{}
	for i := range p {
		if !p[i].IsInfinity() {
			r = append(r, p[i])
		}
	}
	return r
}
func drop2(p []G2) []G2 {
	r := []G2{}
	for i := range p {
		if !p[i].IsInfinity() {
			r = append(r, p[i])
		}
	}
	return r
}

// pkFile is the expected monolithic proving key.
func (q *QAP) pkFile(d *Fr) []byte {
	var inv Fr
	inv.Inverse(d)
	var b bytes.Buffer
	if _, err := fft.NewDomain(uint64(q.H.Domain)).WriteTo(&b); err != nil {
		panic(harnessErr{err})
	}
	b.Write(enc(false, g1x(&q.X.Alpha), g1x(&q.X.Beta), g1x(d), drop1(batch1(q.A)), drop1(batch1(q.B)), batch1(scaled(q.Z, &inv)), nz1(batch1(scaled(q.PKK, &inv))),
		g2x(&q.X.Beta), g2x(d), drop2(batch2(q.B)), uint64(q.H.Wires), q.NInfA, q.NInfB, q.InfA, q.InfB))
	return b.Bytes()
}

// splitFiles are the expected raw split proving key files.
func (q *QAP) splitFiles(d *Fr) map[string][]byte {
	var inv Fr
	inv.Inverse(d)
	return map[string][]byte{
		"pk.E":  enc(true, uint64(q.H.Domain), g1x(&q.X.Alpha), g1x(&q.X.Beta), g1x(d), g2x(&q.X.Beta), g2x(d), uint64(q.H.Wires), q.NInfA, q.NInfB, q.InfA, q.InfB),
		"pk.A":  enc(true, drop1(batch1(q.A))),
		"pk.B1": enc(true, drop1(batch1(q.B))),
		"pk.Z":  enc(true, batch1(scaled(q.Z, &inv))),
		"pk.K":  enc(true, nz1(batch1(scaled(q.PKK, &inv)))),
		"pk.B2": enc(true, drop2(batch2(q.B))),
	}
}

// takePedersen checks a commitment key at the start of b and returns its length.
func (q *QAP) takePedersen(b []byte) (int, error) {
	n := len(q.CKK)
	want := 2*128 + 2*(4+64*n)
	if len(b) < want {
		return 0, fmt.Errorf("commitment key is too short")
	}
	var g, root G2
	var sig, bas []G1
	dec := bn254.NewDecoder(bytes.NewReader(b[:want]))
	for _, v := range []any{&g, &root, &sig, &bas} {
		if binary.BigEndian.Uint32(b[256:260]) != uint32(n) {
			return 0, fmt.Errorf("commitment key has %d elements, should have %d", binary.BigEndian.Uint32(b[256:260]), n)
		}
		if err := dec.Decode(v); err != nil {
			return 0, fmt.Errorf("commitment key: %v", err)
		}
	}
	if g.IsInfinity() || root.IsInfinity() {
		return 0, errors.New("commitment key is degenerate")
	}
	if len(bas) != n {
		return 0, errors.New("commitment key has a wrong basis")
	}
	for i, w := range batch1(q.CKK) {
		if !bas[i].Equal(&w) {
			return 0, fmt.Errorf("commitment key basis %d is not the circuit's", i)
		}
		ok, err := bn254.PairingCheck([]G1{bas[i], sig[i]}, []G2{g, root})
		if err != nil || !ok {
			return 0, fmt.Errorf("commitment key element %d is inconsistent", i)
		}
	}
	return want, nil
}

// checkVK checks a verifying key file.
func (q *QAP) checkVK(b []byte, d *Fr) error {
	n, err := q.takePedersen(b)
	if err != nil {
		return err
	}
	b = b[n:]
	w := enc(true, g1x(&q.X.Alpha), g1x(&q.X.Beta), g2x(&q.X.Beta), gen2, g1x(d), g2x(d), nz1(batch1(q.VKK)))
	if len(b) < len(w) || !bytes.Equal(w, b[:len(w)]) {
		return fmt.Errorf("verifying key differs: %s", firstDiff(w, b))
	}
	return q.checkCom(b[len(w):])
}

// checkMono checks pk and vk.
func (q *QAP) checkMono(files map[string][]byte, d *Fr) error {
	if w, g := q.pkFile(d), files["pk"]; !bytes.Equal(w, g) {
		return fmt.Errorf("proving key differs from the ceremony's: %s", firstDiff(w, g))
	}
	return q.checkVK(files["vk"], d)
}

// checkSplit checks all split key files of a session.
func (q *QAP) checkSplit(files map[string][]byte, session string, d *Fr) error {
	w := q.splitFiles(d)
	for _, n := range keysOf(w) {
		g := files[session+"."+n+".save"]
		if !bytes.Equal(w[n], g) {
			return fmt.Errorf("%s differs from the ceremony's: %s", n, firstDiff(w[n], g))
		}
	}
	if err := q.checkVK(files[session+".vk.save"], d); err != nil {
		return err
	}
	ck := files[session+".pk.CommitmentKey.save"]
	n, err := q.takePedersen(ck)
	if err != nil {
		return err
	}
	if vk := files[session+".vk.save"]; !bytes.Equal(ck[:n], vk[:n]) {
		return errors.New("proving and verifying key have different commitment keys")
	}
	return nil
}

func keysOf(m map[string][]byte) []string { return keys(m) }

func gobCom(c constraint.Commitment) []byte {
	var b bytes.Buffer
	if err := gob.NewEncoder(&b).Encode(c); err != nil {
		panic(harnessErr{err})
	}
	return b.Bytes()
}
