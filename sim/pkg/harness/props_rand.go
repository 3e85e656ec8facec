package harness

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"math/big"

	"MODULE/internal/verifsim/sio"
)

// ------------------------------------------------------------- C16

var drawers = []string{"p1c", "p2c", "keys", "p1v", "p1vt", "p2v"}

func genC16(r *Rng, idx int, thorough bool) *Plan {
	p := &Plan{P: map[string]int64{}}
	mode := []string{"deps", "fail", "leak", "fail", "volume", "weak"}[idx%6]
	k := drawers[(idx/6)%len(drawers)]
	switch mode {
	case "deps":
		k = []string{"p1c", "p2c"}[(idx/6)%2]
	case "leak":
		k = []string{"p1c", "p2c", "keys"}[(idx/6)%3]
	case "volume", "weak":
		k = []string{"p1v", "p1vt", "p2v"}[(idx/6)%3]
	}
	genScene(r, p, k)
	p.Tmpl = mode + "-" + k
	if k == "keys" {
		genCommit(r, p.P)
	}
	switch mode {
	case "deps":
		p.P["power"] = int64(r.Pick(1, 1, 2))
		genCircuit(r, p.P, 4)
	case "weak":
		p.P["power"] = int64(r.Pick(1, 2, 3))
		p.P["sec"] = 3
		genCircuit(r, p.P, 8)
		p.P["where"] = int64(r.N(1 << 20))
	case "volume":
		p.P["power"] = int64(r.Pick(1, 2, 3, 4, 5))
		genCircuit(r, p.P, 30)
	}
	e := genEnv(r)
	if r.P(1, 2) || mode == "deps" {
		e = calmEnv(r)
	}
	if mode == "leak" {
		p.P["power"] = int64(r.Pick(1, 2, 3, 4))
		if r.P(3, 4) {
			e.Buf = r.Pick(16, 32, 64, 128)
		}
	}
	p.Ops = []Op{{K: "env", Env: &e}}
	switch mode {
	case "fail":
		for i := 0; i < 8; i++ {
			p.Ops = append(p.Ops, Op{K: "fault", S: []string{"rng", "err"}, A: []int64{genAt(r), 0, int64(r.Pick(0, 1, 1))}})
		}
		p.Ops = append(p.Ops, Op{K: "fault", S: []string{"rng", "short"}, A: []int64{genAt(r), int64(r.U() >> 1), 0}})
	case "leak":
		for i := 0; i < 6; i++ {
			k := writeKinds[r.N(len(writeKinds))]
			if r.P(1, 4) {
				k = r.PickS("read", "read", "open", "rng")
			}
			p.Ops = append(p.Ops, Op{K: "fault", S: []string{k, "err"}, A: []int64{genAt(r), int64(r.U() >> 1), int64(r.N(2))}})
		}
		for i := 0; i < 4; i++ {
			p.Ops = append(p.Ops, Op{K: "spoil", A: []int64{int64(r.N(1 << 30)), int64(r.N(1 << 30)), int64(r.N(3))}})
		}
	}
	return p
}

func execC16(r *Run, p *Plan) {
	rng := NewRng(uint64(p.P["seedx"]), "x")
	i := bytes.IndexByte([]byte(p.Tmpl), '-')
	mode, kind := p.Tmpl[:i], p.Tmpl[i+1:]
	s := r.scene(kind, p, rng)
	env := p.envOf("env")
	switch mode {
	case "deps":
		r.deps(s, env, rng)
	case "fail":
		r.rngFail(s, env, p)
	case "leak":
		r.leaks(s, env, p)
	case "volume":
		r.volume(s, env, p)
	case "weak":
		r.weak(s, env, p, rng)
	}
}

// items are what a contribution shows of each secret and nonce.
func items(s *Scene, out []byte) (names []string, vals [][]byte, err error) {
	pt := func(p *G1) []byte { b := p.Bytes(); return b[:] }
	if s.OutP1 != "" {
		f, err := parseP1(out)
		if err != nil || len(f.Recs) == 0 {
			return nil, nil, fmt.Errorf("output: %v", err)
		}
		c, err := decRec1(f.Recs[len(f.Recs)-1])
		if err != nil {
			return nil, nil, err
		}
		return []string{"tau", "alpha", "beta", "tau's nonce", "alpha's nonce", "beta's nonce"},
			[][]byte{pt(&c.Tau1), pt(&c.Alpha1), pt(&c.Beta1), pt(&c.PTau.S), pt(&c.PAlpha.S), pt(&c.PBeta.S)}, nil
	}
	f, err := parseP2(out)
	if err != nil || len(f.Recs) == 0 {
		return nil, nil, fmt.Errorf("output: %v", err)
	}
	c, err := decRec2(f.Recs[len(f.Recs)-1])
	if err != nil {
		return nil, nil, err
	}
	return []string{"delta", "delta's nonce"}, [][]byte{pt(&c.Delta), pt(&c.P.S)}, nil
}

// deps changes the entropy stream four bytes at a time and watches which
// secrets and nonces change: each has to depend on enough bytes of its own.
func (r *Run) deps(s *Scene, env Env, rng *Rng) {
	once := func(e Env) (*Trial, [][]byte, []string) {
		t := r.try(s, e, nil)
		r.done(t)
		if !t.OK() {
			r.fail("fails-without-faults", "%s: %s", s.Desc, t)
		}
		names, v, err := items(s, t.After["out.ph"+s.Kind[1:2]])
		if err != nil {
			r.fail("bad-output", "%s: %v", s.Desc, err)
		}
		return t, v, names
	}
	// A stream without rejected samples is the shortest one.
	var best *Trial
	var bv [][]byte
	var names []string
	for i := 0; i < 8; i++ {
		e := env
		e.Rng = mix(env.Rng + uint64(i))
		t, v, n := once(e)
		if best == nil || t.Drawn < best.Drawn {
			best, bv, names = t, v, n
			env.Rng = e.Rng
		}
		if i == 0 {
			env.Rng = e.Rng
		}
	}
	r.Sample = fmt.Sprintf("%s: %d bytes drawn for %d values", s.Desc, best.Drawn, len(names))
	for i := range bv {
		for j := 0; j < i; j++ {
			if bytes.Equal(bv[i], bv[j]) {
				r.fail("shared-randomness", "%s: %s and %s are the same", s.Desc, names[j], names[i])
			}
		}
	}
	if e := truncated(s, best, bv, names); e != "" {
		r.fail("not-in-full", "%s: %s", s.Desc, e)
	}
	own := make([]int, len(names))
	any := make([]int, len(names))
	limit := best.Drawn / 4
	if limit > 160 {
		limit = 160
	}
	for c := 0; c < limit; c++ {
		var v [][]byte
		for try := 0; try < 12; try++ {
			e := env
			e.Flip, e.FlipX = c+1, uint32(mix(env.Rng+uint64(c*16+try)))|1
			t, w, _ := once(e)
			if t.Drawn == best.Drawn {
				v = w
				break
			}
		}
		if v == nil {
			continue
		}
		hit, last := 0, 0
		for i := range v {
			if !bytes.Equal(v[i], bv[i]) {
				any[i]++
				hit++
				last = i
			}
		}
		if hit == 1 {
			own[last]++
		}
		r.Oracles++
	}
	r.NonTriv = true
	for i, n := range names {
		if any[i] < 7 {
			r.fail("not-fresh", "%s: %s depends on only %d bytes of the system's randomness (of %d drawn)", s.Desc, n, 4*any[i], best.Drawn)
		}
		if own[i] < 6 {
			r.fail("correlated", "%s: %s shares its randomness with other values: only %d bytes are its own (of %d drawn)", s.Desc, n, 4*own[i], best.Drawn)
		}
	}
}

// truncated looks for values made from only a part of what was drawn for them.
func truncated(s *Scene, t *Trial, vals [][]byte, names []string) string {
	var ks []Fr
	var ds []string
	add := func(v *big.Int, d string) {
		var x Fr
		x.SetBigInt(v)
		if v.Sign() > 0 && !x.IsZero() {
			ks, ds = append(ks, x), append(ds, d)
		}
	}
	parts := func(v *big.Int, d string) {
		for k := uint(8); k <= 240; k += 8 {
			m := new(big.Int).Lsh(big.NewInt(1), k)
			add(m.Mod(v, m), fmt.Sprintf("the low %d bits of %s", k, d))
			add(new(big.Int).Rsh(v, 256-k), fmt.Sprintf("the high %d bits of %s", k, d))
			if k%64 == 0 {
				l := new(big.Int).Rsh(v, k)
				add(l.And(l, new(big.Int).SetUint64(^uint64(0))), "one limb of "+d)
			}
		}
	}
	full := candidates(t.Draws)
	nd := 0
	for _, d := range t.Draws {
		if len(d) < 16 || len(d) > 64 || nd > 12 {
			continue
		}
		nd++
		rev := make([]byte, len(d))
		for i := range d {
			rev[len(d)-1-i] = d[i]
		}
		parts(new(big.Int).SetBytes(d), "the bytes drawn")
		parts(new(big.Int).SetBytes(rev), "the bytes drawn")
		if len(d) == 32 {
			rev[0] &= 0x3f
			parts(new(big.Int).SetBytes(rev), "the bytes drawn")
			for _, x := range candidates([][]byte{d}) {
				parts(bi(&x), "the field element drawn")
			}
		}
	}
	// Exponents of what the values are updates of.
	base := make([]Fr, len(names))
	for i := range base {
		base[i] = one()
	}
	if s.OutP1 != "" && s.Chain1 != nil {
		x := s.Chain1.last()
		base[0], base[1], base[2] = x.Tau, x.Alpha, x.Beta
	} else if s.Q != nil {
		base[0] = s.Delta
	}
	for i, n := range names {
		mulAll := func(l []Fr) []G1 {
			o := make([]Fr, len(l))
			for j := range l {
				o[j].Mul(&l[j], &base[i])
			}
			return batch1(o)
		}
		known := false
		for _, p := range mulAll(full) {
			b := p.Bytes()
			known = known || bytes.Equal(b[:], vals[i])
		}
		if known {
			continue
		}
		for j, p := range mulAll(ks) {
			b := p.Bytes()
			if bytes.Equal(b[:], vals[i]) {
				return fmt.Sprintf("%s is only %s", n, ds[j])
			}
		}
	}
	return ""
}

// rngFail makes the entropy source fail.
func (r *Run) rngFail(s *Scene, env Env, p *Plan) {
	base := r.try(s, env, nil)
	defer r.done(base)
	if !base.OK() {
		r.fail("fails-without-faults", "%s: %s", s.Desc, base)
	}
	n := base.Eng.Counts["rng"]
	r.Sample = fmt.Sprintf("%s: entropy fails at one of %d draws", s.Desc, n)
	if n == 0 {
		if s.Kind != "keys" {
			r.fail("not-fresh", "%s: the command draws no randomness", s.Desc)
		}
		return
	}
	for i := range p.Ops {
		op := &p.Ops[i]
		if op.K != "fault" {
			continue
		}
		f, ok := op.fault(base.Eng)
		if !ok {
			continue
		}
		t := r.try(s, env, []sio.Fault{f})
		r.Oracles++
		what := fmt.Sprintf("%s, entropy %s at draw %d of %d", s.Desc, f.Act, f.At, n)
		if t.Eng.FaultHit > 0 {
			r.NonTriv = true
		}
		if t.hangs() {
			r.fail("hangs", "%s: %s", what, t)
		}
		switch {
		case f.Act == "short":
			// Every draw is of the same size, so whole ones add up to a multiple.
			l := len(base.Draws[0])
			for _, d := range base.Draws {
				if len(d) != l {
					l = 1
				}
			}
			if t.OK() && t.Drawn%l != 0 {
				r.fail("entropy-short", "%s: the command succeeds with %d bytes of randomness instead of %d, having asked for %d at a time", what, t.Drawn, base.Drawn, l)
			}
		case t.OK() && t.Eng.FaultHit > 0 && (f.Rep || t.Drawn < base.Drawn):
			r.fail("entropy-failure-ignored", "%s: the command reports success", what)
		}
		r.done(t)
	}
}

// volume: verification's coefficients take enough randomness.
func (r *Run) volume(s *Scene, env Env, p *Plan) {
	t := r.try(s, env, nil)
	defer r.done(t)
	r.Oracles++
	if !t.OK() {
		r.probe("honest file refused")
		return
	}
	pts := 0
	if s.Chain1 != nil {
		pts = 2<<s.Chain1.Power - 1
	} else {
		pts = s.Q.H.Domain - 1
		if s.Q.H.Witness > pts {
			pts = s.Q.H.Witness
		}
	}
	r.NonTriv = true
	r.Sample = fmt.Sprintf("%s: verification draws %d bytes for sections of up to %d points", s.Desc, t.Drawn, pts)
	if t.Drawn < 16*(pts-1) || t.Drawn < 16 {
		r.fail("not-fresh", "%s: verification draws only %d bytes of randomness, for a section of %d points", s.Desc, t.Drawn, pts)
	}
	seen := map[string]bool{}
	for _, d := range t.Draws {
		if len(d) >= 16 && seen[string(d)] {
			r.broken("the simulated entropy repeats itself")
		}
		seen[string(d)] = true
	}
}

// weak: the coefficients depend on every part of the randomness drawn for
// them. Two neighbouring points of one section are changed so that the changes
// cancel exactly if their coefficients are equal, and the entropy varies in
// only two bytes of every 32; coefficients that leave those out are equal.
func (r *Run) weak(s *Scene, env Env, p *Plan, rng *Rng) {
	ctl := r.try(s, env, nil)
	defer r.done(ctl)
	if !ctl.OK() {
		r.probe("honest file refused")
		return
	}
	k := randFr(rng)
	d, nd := g1x(&k), neg1(g1x(&k))
	w := p.get("where")
	sec := ""
	if s.Chain1 != nil {
		f := s.Chain1.forge()
		f.pts = clonePts(f.pts)
		if x := w % 4; x == 3 {
			l := f.pts.Tau2
			i := modn(w/4, len(l)-1)
			l[i], l[i+1] = add2(l[i], g2x(&k)), add2(l[i+1], neg2(g2x(&k)))
			sec = fmt.Sprintf("TauG2[%d]", i)
		} else {
			l := f.pts.sec(x)
			i := modn(w/4, len(l)-1)
			l[i], l[i+1] = add1(l[i], d), add1(l[i+1], nd)
			sec = fmt.Sprintf("%s[%d]", []string{"TauG1", "AlphaTauG1", "BetaTauG1"}[x], i)
		}
		s.Files["in.ph1"] = f.bytes()
	} else {
		c := chainOf(s.Q)
		c.contribute(randFr(rng), rng)
		f := c.forge()
		l, n := f.pts.Z, "Z"
		if w%2 == 1 {
			l, n = f.pts.PKK, "PKK"
		}
		if len(l) < 2 {
			return
		}
		i := modn(w/2, len(l)-1)
		l[i], l[i+1] = add1(l[i], d), add1(l[i+1], nd)
		sec = fmt.Sprintf("%s[%d]", n, i)
		s.Files["in.ph2"] = f.bytes()
	}
	r.Sample = fmt.Sprintf("%s, %s and its neighbour changed oppositely", s.Desc, sec)
	for piece := 0; piece < 32; piece++ {
		e := env
		e.Pat = piece + 1
		t := r.try(s, e, nil)
		r.Oracles++
		if t.hangs() {
			r.fail("hangs", "%s: %s", r.Sample, t)
		}
		if t.OK() {
			r.fail("weak-coefficients", "%s: accepted when the entropy varies only in bytes %d and %d of 32%s: the coefficients leave them out", r.Sample, 2*(piece%16), 2*(piece%16)+1, map[bool]string{true: " of the field elements it stands for"}[piece >= 16])
		}
		r.done(t)
	}
	r.NonTriv = true
}

// derived adds values from which a secret can be computed: powers of secrets,
// those times another secret, sums and differences of two.
func derived(l []Fr) []Fr {
	seen := map[Fr]bool{}
	var o []Fr
	add := func(x Fr) {
		if !seen[x] && bi(&x).BitLen() > 200 {
			seen[x] = true
			o = append(o, x)
		}
	}
	for i, x := range l {
		seen[x] = true
		o = append(o, x)
		if i > 11 {
			continue
		}
		for j, y := range l {
			if j > 11 {
				continue
			}
			var s Fr
			s.Add(&x, &y)
			add(s)
			s.Sub(&x, &y)
			add(s)
			p := y
			n := 66
			if j > 5 || i > 5 {
				n = 3
			}
			for k := 0; k < n; k++ {
				p.Mul(&p, &x)
				add(p)
			}
		}
	}
	return o
}

// forms lists how a scalar or drawn bytes might appear in a file or text.
func forms(draws [][]byte) map[string]string {
	m := map[string]string{}
	raw := func(b []byte, what string) {
		if len(b) < 16 {
			return
		}
		m[string(b[:16])] = what
		m[string(b[len(b)-16:])] = what
		rev := make([]byte, len(b))
		for i := range b {
			rev[len(b)-1-i] = b[i]
		}
		m[string(rev[:16])] = what
		m[string(rev[len(rev)-16:])] = what
		for _, x := range [][]byte{b, rev} {
			h := hex.EncodeToString(x)
			m[h[:20]], m[h[len(h)-20:]] = what, what
			m[string(bytes.ToUpper([]byte(h[:20])))] = what
			m[base64.StdEncoding.EncodeToString(x)[:20]] = what
			n := new(big.Int).SetBytes(x).String()
			if len(n) > 24 {
				m[n[:24]], m[n[len(n)-24:]] = what, what
			}
		}
	}
	for _, d := range draws {
		if len(d) <= 64 {
			raw(d, "drawn bytes")
		}
	}
	for _, x := range derived(candidates(draws)) {
		b := x.Bytes()
		raw(b[:], "a secret")
		var y Fr
		y.Inverse(&x)
		c := y.Bytes()
		raw(c[:], "a secret's inverse")
		var mont []byte
		for i := 0; i < 4; i++ {
			mont = binary.LittleEndian.AppendUint64(mont, x[i])
		}
		raw(mont, "a secret in Montgomery form")
		var neg Fr
		neg.Neg(&x)
		for _, v := range []*Fr{&x, &y, &neg} {
			for _, n := range []string{v.String(), bi(v).String()} {
				if len(n) > 26 {
					m[n[1:25]], m[n[len(n)-24:]] = "a secret in decimal", "a secret in decimal"
				}
			}
			reg := v.Bits()
			for i := 0; i < 4; i++ {
				for _, l := range []uint64{v[i], reg[i]} {
					if l > 1e16 {
						m[fmt.Sprint(l)[:17]] = "a limb of a secret"
					}
				}
			}
		}
	}
	return m
}

func (r *Run) leaks(s *Scene, env Env, p *Plan) {
	search := func(t *Trial, what string) {
		texts := map[string][]byte{"the standard output": []byte(t.Out), "the standard error": []byte(t.Err)}
		for n := range t.changed() {
			if b, ok := t.After[n]; ok {
				texts[n] = b
			}
		}
		for n, b := range t.Eng.Kept {
			if _, ok := t.After[n]; !ok {
				texts[n+" (which is gone in the end)"] = b
			}
		}
		// Every 16..24 byte window is looked up.
		f := forms(t.Draws)
		lens := map[int]bool{}
		for k := range f {
			lens[len(k)] = true
		}
		for _, n := range keys(texts) {
			b := string(texts[n])
			for l := range lens {
				for i := 0; i+l <= len(b); i++ {
					if w, ok := f[b[i:i+l]]; ok {
						r.fail("leak", "%s: %s contains %s at %d", what, n, w, i)
					}
				}
			}
			r.Oracles++
		}
	}
	r.keepWrites = true
	t := r.try(s, env, nil)
	if !t.OK() {
		r.fail("fails-without-faults", "%s: %s", s.Desc, t)
	}
	search(t, s.Desc)
	r.NonTriv = len(t.Draws) > 0
	r.Sample = fmt.Sprintf("%s: %d draws searched for in %d files", s.Desc, len(t.Draws), len(t.changed()))
	base := t
	for i := range p.Ops {
		op := &p.Ops[i]
		if in, _, _ := argFiles(s.Args); op.K == "spoil" && len(in) > 0 {
			// The input turns out to be damaged after secrets were drawn.
			n := s.Args[in[0]]
			b := append([]byte(nil), s.Files[n]...)
			if len(b) == 0 {
				continue
			}
			switch x := modn(op.arg(0), len(b)); op.arg(2) {
			case 0:
				b = b[:x]
			case 1:
				b[x] ^= byte(1 << modn(op.arg(1), 8))
			default:
				b = append(b, 0)
			}
			s2 := *s
			s2.Files = map[string][]byte{}
			for k, v := range s.Files {
				s2.Files[k] = v
			}
			s2.Files[n] = b
			t := r.try(&s2, env, nil)
			search(t, s.Desc+", with a damaged input")
			r.done(t)
			continue
		}
		if op.K != "fault" {
			continue
		}
		if f, ok := p.Ops[i].fault(base.Eng); ok {
			t := r.try(s, env, []sio.Fault{f})
			search(t, fmt.Sprintf("%s, %s at %s %d", s.Desc, f.Act, f.Kind, f.At))
			r.done(t)
		}
	}
	r.done(base)
}

func init() {
	register(&Prop{ID: "C16", Quick: 1200, Thorough: 9000, Exec: execC16, Gen: genC16,
		Rule:   "a run takes one command that needs randomness: (deps) a contribution is repeated with the entropy stream changed four bytes at a time, and every secret and nonce must depend on at least 28 bytes of it, 24 of them its own; (fail) the entropy source fails or comes up short at seeded draws, which must never end in success; (leak) everything written (also to files that are gone in the end) and printed, also under faults and for damaged inputs, is searched for the drawn values, their powers and combinations of two in many encodings; (weak) verification must refuse two opposite changes of neighbouring points under entropy that varies in only two bytes of every 32, for each two; (volume) verification draws at least 16 bytes per point of its largest section; non-trivial if the entropy was changed, failed, searched for or counted",
		Assume: []string{"the operating system's generator itself is trusted", "leaks in other encodings than the usual ones, or of other combinations of secrets than powers, products and sums of two, are not searched for"}})
}
