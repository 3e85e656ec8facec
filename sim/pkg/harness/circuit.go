package harness

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/std/hash/mimc"
)

// CircuitSpec describes a random circuit; the circuit is a function of it.
type CircuitSpec struct {
	Seed    uint64
	Pub     int // public inputs
	Out     int // of them, how many are asserted equal to a computed value
	Sec     int
	Gates   int
	ComPub  int  // committed public inputs
	ComSec  int  // committed private wires
	Mimc    int  // hash gadgets (lazy constraints)
	Unused  int  // secret inputs that occur in no constraint
	Target  int  // pad with products up to this many constraints
	PubUnus int  // public inputs that occur in no constraint
	Raw     int  // constraints over arbitrary wires that no gadget would make
	NoSec   bool // no secret inputs
	Linear  bool // no products, and so no internal wires
}

type gate struct {
	op, a, b, c int
	k           int64
}

const (
	gAdd = iota
	gSub
	gMul
	gMulC
	gAddC
	gInv
	gIsZero
	gSelect
	gBin
	gNeg
	gXor
	gDivC
	nGates
)

type circ struct {
	Pub  []frontend.Variable `gnark:",public"`
	Sec  []frontend.Variable
	spec *CircuitSpec `gnark:"-"`
	gs   []gate       `gnark:"-"`
	outs []int        `gnark:"-"` // value index asserted equal to Pub[i]
	coms []int        `gnark:"-"`
	pad  int          `gnark:"-"`
}

// Define builds the constraints.
func (c *circ) Define(api frontend.API) error {
	var v []frontend.Variable
	for i := 0; i < len(c.Pub)-len(c.outs)-c.spec.PubUnus; i++ {
		v = append(v, c.Pub[i])
	}
	for i := 0; i < len(c.Sec)-c.spec.Unused; i++ {
		v = append(v, c.Sec[i])
	}
	for _, g := range c.gs {
		var x frontend.Variable
		switch g.op {
		case gAdd:
			x = api.Add(v[g.a], v[g.b], api.Mul(v[g.c], g.k))
		case gSub:
			x = api.Sub(v[g.a], v[g.b])
		case gMul:
			x = api.Mul(v[g.a], v[g.b])
		case gMulC:
			x = api.Mul(v[g.a], g.k)
		case gAddC:
			x = api.Add(v[g.a], g.k)
		case gInv:
			x = api.Inverse(v[g.a])
		case gIsZero:
			x = api.IsZero(v[g.a])
		case gSelect:
			x = api.Select(api.IsZero(v[g.a]), v[g.b], v[g.c])
		case gBin:
			b := api.ToBinary(api.IsZero(v[g.a]), 3)
			x = api.Add(b[0], api.Mul(b[1], 2), v[g.b])
		case gNeg:
			x = api.Neg(v[g.a])
		case gXor:
			x = api.Xor(api.IsZero(v[g.a]), api.IsZero(v[g.b]))
		case gDivC:
			x = api.Mul(v[g.a], new(big.Int).ModInverse(big.NewInt(g.k), ecc.BN254.ScalarField()))
		}
		v = append(v, x)
	}
	for i := 0; i < c.spec.Mimc; i++ {
		h, err := mimc.NewMiMC(api)
		if err != nil {
			return err
		}
		h.Write(v[i%len(v)])
		s := h.Sum()
		api.Mul(s, v[0])
	}
	if len(c.coms) > 0 {
		var l []frontend.Variable
		for _, i := range c.coms {
			if i < 0 {
				l = append(l, c.Pub[-1-i])
			} else {
				l = append(l, v[i])
			}
		}
		cm, err := api.Compiler().Commit(l...)
		if err != nil {
			return err
		}
		api.AssertIsDifferent(cm, 0)
		api.Mul(cm, v[0])
	}
	for i, o := range c.outs {
		api.AssertIsEqual(c.Pub[len(c.Pub)-c.spec.PubUnus-len(c.outs)+i], v[o])
	}
	for i := 0; i < c.pad; i++ {
		api.Mul(v[i%len(v)], v[(i/2)%len(v)])
	}
	return nil
}

// Circuit is a compiled circuit with a way to make satisfying witnesses.
type Circuit struct {
	Spec  CircuitSpec
	CS    *cs_bn254.R1CS
	Bytes []byte // the .r1cs file
	c     *circ
}

func small(r *Rng) int64 {
	return int64(r.Pick(0, 1, -1, 2, 3, -2, 5, 7, 1<<20, -12345, 1<<40))
}

// Build compiles a circuit. lazify applies gnark's Lazify before serialising.
func (s CircuitSpec) Build(lazify bool) (*Circuit, error) {
	r := NewRng(s.Seed, "circuit")
	if s.Out > s.Pub {
		s.Out = s.Pub
	}
	if s.Linear {
		s.Raw, s.Target, s.Mimc = 0, 0, 0
		if s.Out == 0 { // the only constraints there are
			s.Out = 1
			s.Pub++
		}
	}
	if s.NoSec {
		s.Sec, s.Unused = 0, 0
		if s.Pub == s.Out {
			s.Pub++
		}
	} else if s.Sec-s.Unused < 1 {
		s.Sec = s.Unused + 1
	}
	if s.PubUnus > s.Pub-s.Out {
		s.PubUnus = s.Pub - s.Out
	}
	if s.NoSec && s.PubUnus == s.Pub-s.Out {
		s.PubUnus--
	}
	c := &circ{Pub: make([]frontend.Variable, s.Pub), Sec: make([]frontend.Variable, s.Sec), spec: &s}
	n := s.Pub - s.Out - s.PubUnus + s.Sec - s.Unused
	base := n
	var products []int // values that are their own wire
	if s.Gates < 1 {
		s.Gates = 1
	}
	for i := 0; i < s.Gates; i++ {
		g := gate{op: r.N(nGates), a: r.N(n), b: r.N(n), c: r.N(n), k: small(r)}
		if i == 0 {
			g.op = gMul
		}
		if s.Linear {
			g.op = []int{gAdd, gSub, gMulC, gAddC, gNeg, gDivC}[g.op%6]
		}
		if (g.op == gMulC || g.op == gDivC) && g.k == 0 {
			g.k = 3
		}
		if g.op == gDivC && g.k < 0 {
			g.k = -g.k
		}
		if g.op == gMul || g.op == gInv {
			products = append(products, n)
		}
		// An inverse needs something that is not structurally zero.
		if g.op == gInv || g.op == gIsZero || g.op == gSelect || g.op == gBin || g.op == gXor {
			g.a, g.b = r.N(base), r.N(base)
		}
		c.gs = append(c.gs, g)
		n++
	}
	for i := 0; i < s.Out; i++ {
		c.outs = append(c.outs, base+r.N(s.Gates))
	}
	for i := 0; i < s.ComPub && i < s.Pub; i++ {
		c.coms = append(c.coms, -1-i)
	}
	for i := 0; i < s.ComSec; i++ {
		// private inputs and products
		first := s.Pub - s.Out - s.PubUnus
		l := append([]int{}, products...)
		for j := first; j < base; j++ {
			l = append(l, j)
		}
		if len(l) > 0 {
			c.coms = append(c.coms, l[r.N(len(l))])
		}
	}
	build := func() (*cs_bn254.R1CS, error) {
		// (compiling is deterministic, and so is what raw adds to it)
		ccs, err := frontend.Compile(ecc.BN254.ScalarField(), r1cs.NewBuilder, c, frontend.IgnoreUnconstrainedInputs())
		if err != nil {
			return nil, err
		}
		cs := ccs.(*cs_bn254.R1CS)
		s.addRaw(cs)
		return cs, nil
	}
	cs, err := build()
	if err != nil {
		return nil, err
	}
	if d := s.Target - cs.GetNbConstraints(); d > 0 {
		c.pad = d
		if cs, err = build(); err != nil {
			return nil, err
		}
	}
	if lazify {
		cs.Lazify()
	}
	var b bytes.Buffer
	if _, err := cs.WriteTo(&b); err != nil {
		return nil, err
	}
	return &Circuit{Spec: s, CS: cs, Bytes: b.Bytes(), c: c}, nil
}

// addRaw appends constraints over arbitrary wires, each of which determines one
// wire of its own so that every assignment that satisfied the circuit still
// does. What the frontend compiles has a shape of its own: the constant wire in
// some places and not in others, short expressions on the right, products on
// the right-hand side alone. These have any shape: empty expressions, dense
// ones, wires that occur on one side only.
func (s CircuitSpec) addRaw(cs *cs_bn254.R1CS) {
	r := NewRng(s.Seed, "raw")
	if s.Raw == 0 {
		return
	}
	pub := cs.GetNbPublicVariables()
	coef := func() Fr {
		var k Fr
		if r.P(1, 4) {
			return randFr(r)
		}
		for k.IsZero() {
			k.SetInt64(small(r))
		}
		return k
	}
	term := func(w int) constraint.Term {
		k := coef()
		var c constraint.Coeff
		copy(c[:], k[:])
		return cs.MakeTerm(&c, w)
	}
	expr := func(n int, how int) (e constraint.LinearExpression) {
		switch how {
		case 0: // nothing
		case 1: // every wire there is
			for w := 0; w < n; w++ {
				e = append(e, term(w))
			}
		case 2: // the constant wire
			e = append(e, term(0))
		case 3: // inputs other than the constant
			for w := 1; w < pub+cs.GetNbSecretVariables(); w++ {
				if r.P(1, 2) {
					e = append(e, term(w))
				}
			}
		default: // a few
			for w := 0; w < n; w++ {
				if r.P(2, n+2) {
					e = append(e, term(w))
				}
			}
		}
		return e
	}
	for i := 0; i < s.Raw; i++ {
		n := wiresOf(cs)
		c := constraint.R1C{L: expr(n, r.N(6)), R: expr(n, r.N(6)), O: expr(n, r.N(6))}
		own := cs.AddInternalVariable()
		switch r.N(4) {
		case 0: // determined on the left, by a right that is not zero
			c.R = constraint.LinearExpression{term(0)}
			c.L = append(c.L, term(own))
		case 1:
			c.L = constraint.LinearExpression{term(0)}
			c.R = append(c.R, term(own))
		default:
			c.O = append(c.O, term(own))
		}
		cs.AddConstraint(c)
	}
}

// Witness makes a satisfying assignment; ok is false if this seed gives none.
func (q *Circuit) Witness(seed uint64) (full, public witness.Witness, err error) {
	r := NewRng(seed, "witness")
	a := &circ{Pub: make([]frontend.Variable, len(q.c.Pub)), Sec: make([]frontend.Variable, len(q.c.Sec)), spec: q.c.spec, gs: q.c.gs, outs: q.c.outs, coms: q.c.coms, pad: q.c.pad}
	var v []Fr
	input := func() Fr {
		switch r.N(6) {
		case 0:
			var x Fr
			x.SetInt64(int64(1 + r.N(3)))
			return x
		case 1:
			var x Fr
			x.SetInt64(int64(-1 - r.N(3)))
			return x
		}
		return randFr(r)
	}
	no := len(q.c.outs)
	for i := range a.Pub {
		x := input()
		a.Pub[i] = bi(&x)
		if i < len(a.Pub)-no-q.Spec.PubUnus {
			v = append(v, x)
		}
	}
	for i := range a.Sec {
		x := input()
		a.Sec[i] = bi(&x)
		if i < len(a.Sec)-q.Spec.Unused {
			v = append(v, x)
		}
	}
	iz := func(x Fr) Fr {
		var o Fr
		if x.IsZero() {
			o.SetOne()
		}
		return o
	}
	for _, g := range q.c.gs {
		var x, k, t Fr
		k.SetInt64(g.k)
		switch g.op {
		case gAdd:
			t.Mul(&v[g.c], &k)
			x.Add(&v[g.a], &v[g.b])
			x.Add(&x, &t)
		case gSub:
			x.Sub(&v[g.a], &v[g.b])
		case gMul:
			x.Mul(&v[g.a], &v[g.b])
		case gMulC:
			x.Mul(&v[g.a], &k)
		case gAddC:
			x.Add(&v[g.a], &k)
		case gInv:
			if v[g.a].IsZero() {
				return nil, nil, fmt.Errorf("no inverse")
			}
			x.Inverse(&v[g.a])
		case gIsZero:
			x = iz(v[g.a])
		case gSelect:
			x = v[g.c]
			if v[g.a].IsZero() {
				x = v[g.b]
			}
		case gBin:
			x = iz(v[g.a])
			x.Add(&x, &v[g.b])
		case gNeg:
			x.Neg(&v[g.a])
		case gXor:
			p, s := iz(v[g.a]), iz(v[g.b])
			if !p.Equal(&s) {
				x.SetOne()
			}
		case gDivC:
			k.Inverse(&k)
			x.Mul(&v[g.a], &k)
		}
		v = append(v, x)
	}
	for i, o := range q.c.outs {
		a.Pub[len(a.Pub)-q.Spec.PubUnus-no+i] = bi(&v[o])
	}
	if full, err = frontend.NewWitness(a, ecc.BN254.ScalarField()); err != nil {
		return nil, nil, err
	}
	public, err = full.Public()
	return
}

// withPublic is the same public witness with input i changed.
func changedPublic(pub witness.Witness, i int, to Fr) (witness.Witness, error) {
	w, err := witness.New(ecc.BN254.ScalarField())
	if err != nil {
		return nil, err
	}
	vec := pub.Vector()
	vals := fmtVector(vec)
	if i >= len(vals) {
		return nil, fmt.Errorf("no public input %d", i)
	}
	vals[i] = to
	ch := make(chan any, len(vals))
	for k := range vals {
		ch <- vals[k]
	}
	close(ch)
	return w, w.Fill(len(vals), 0, ch)
}

// specOf reads a circuit from a plan.
func specOf(p *Plan) CircuitSpec {
	return CircuitSpec{Seed: uint64(p.P["seedc"]), Pub: p.get("pub"), Out: p.get("out"), Sec: p.get("sec"), Gates: p.get("gates"),
		ComPub: p.get("compub"), ComSec: p.get("comsec"), Mimc: p.get("mimc"), Unused: p.get("unused"), Target: p.get("target"), PubUnus: p.get("pubunus"), Raw: p.get("raw"),
		NoSec: p.get("nosec") == 1, Linear: p.get("linear") == 1}
}

// genCircuit fills a plan's circuit parameters.
func genCircuit(r *Rng, p map[string]int64, maxCons int) {
	p["seedc"] = int64(r.U() >> 1)
	p["pub"] = int64(r.N(5))
	if p["pub"] > 0 {
		p["out"] = int64(r.N(int(p["pub"]) + 1))
	}
	p["sec"] = int64(1 + r.N(4))
	p["gates"] = int64(1 + r.N(maxCons/2))
	if r.P(1, 4) {
		p["unused"] = int64(1 + r.N(2))
		p["sec"] += p["unused"]
	}
	if r.P(1, 6) && p["pub"] > p["out"] {
		p["pubunus"] = 1
	}
	if r.P(1, 3) { // sizes around powers of two matter for the domain
		k := 1 << (1 + r.N(log2(maxCons)))
		p["target"] = int64(k + r.Pick(-1, 0, 1))
		p["gates"] = int64(1 + r.N(4))
	}
	if r.P(1, 3) {
		p["raw"] = int64(1 + r.N(4))
		if p["target"] > 0 && p["raw"] >= p["target"] {
			delete(p, "raw")
		}
	}
	if r.P(1, 10) {
		p["nosec"] = 1
	}
	if r.P(1, 12) {
		p["linear"] = 1
	}
}

func genCommit(r *Rng, p map[string]int64) {
	p["compub"] = int64(r.N(3))
	p["comsec"] = int64(r.N(5))
	if p["compub"]+p["comsec"] == 0 {
		p["comsec"] = 1
	}
	if p["compub"] > p["pub"] {
		p["pub"] = p["compub"]
	}
}

func log2(n int) int {
	k := 0
	for 1<<(k+1) <= n {
		k++
	}
	return k
}

func wiresOf(cs *cs_bn254.R1CS) int {
	return cs.NbInternalVariables + cs.GetNbPublicVariables() + cs.GetNbSecretVariables()
}

// rows lists all constraints, lazy ones included, in solving order.
func rows(cs *cs_bn254.R1CS) []constraint.R1C {
	n := cs.GetNbConstraints()
	l := make([]constraint.R1C, n)
	for i := range l {
		l[i] = cs.GetConstraintToSolve(i)
	}
	return l
}
