package harness

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254"
)

// ------------------------------------------------------------- C19

var damages = []string{"empty", "cut", "cut", "cutsec", "grow", "growrec", "flip", "flip", "byte", "head", "head", "headflip", "notcurve", "bigx", "badinf", "subgroup", "rawflag", "infinity", "other", "subgroup", "zeros", "ff", "noflag"}

func genC19(r *Rng, idx int, thorough bool) *Plan {
	p := &Plan{P: map[string]int64{}}
	mode := []string{"verify", "use", "verify", "args"}[idx%4]
	var kind string
	switch mode {
	case "verify":
		kind = []string{"p1v", "p2v", "p1vt"}[idx/4%3]
	case "use":
		kind = []string{"p1c", "p2c", "p2n", "key", "p1t", "p2np", "keys"}[idx/4%7]
	default:
		kind = sceneKinds[idx/4%len(sceneKinds)]
	}
	genScene(r, p, kind)
	p.P["lazy"] = 0
	if p.P["power"] > 3 {
		p.P["power"] = 3
	}
	p.P["mode"] = int64(map[string]int{"verify": 0, "use": 1, "args": 2}[mode])
	n := 5
	for i := 0; i < n; i++ {
		e := genEnv(r)
		op := Op{K: mode, Env: &e, A: []int64{int64(r.N(1 << 20)), int64(r.N(1 << 20)), int64(r.N(1 << 20)), int64(r.N(1 << 20))}}
		op.S = []string{damages[modn(idx/4*n+i, len(damages))]}
		if r.P(1, 3) {
			op.S[0] = damages[r.N(len(damages))]
		}
		p.Ops = append(p.Ops, op)
	}
	return p
}

// layoutOf finds the sections of points of a ceremony file, records included.
func layoutOf(b []byte, phase int) (secs []Section, head int) {
	rec := func(off, i, phase int) {
		sizes := []int{32, 32, 32, 64, 64, 32, 32, 64, 32, 32, 64, 32, 32, 64}
		if phase == 2 {
			sizes = []int{32, 32, 32, 64}
		}
		for _, s := range sizes {
			secs = append(secs, Section{fmt.Sprintf("record %d", i), off, 1, s})
			off += s
		}
	}
	if phase == 1 {
		p, err := parseP1(b)
		if err != nil {
			return nil, 3
		}
		secs = p1Sections(p.Power)
		for i := range p.Recs {
			rec(3+p1ParamSize(p.Power)+i*recSize1, i, 1)
		}
		return secs, 3
	}
	p, err := parseP2(b)
	if err != nil {
		return nil, 1
	}
	secs = append(secs, p.sections()...)
	for i := range p.Recs {
		rec(p.Off+p.H.paramSize()+i*recSize2, i, 2)
	}
	return secs, p.Off
}

var oddSizes = []int{0, -1, 1, 2, 3, 1 << 16, 1 << 26, 1 << 28, 1<<31 - 1, 1 << 31, 1 << 33, math.MaxInt64, math.MinInt64}

// hurt is a point replaced by something that is not in the group.
type hurt struct {
	Sec string
	I   int
}

// uses says whether a scene's command works with a point of its main file.
func (s *Scene) uses(h *hurt) bool {
	n := 0
	switch s.Kind {
	case "p1c", "p2c":
		return true
	case "key", "keys":
		return h.I == 0 && (h.Sec == "DeltaG1" || h.Sec == "DeltaG2") || h.Sec == "Z" || h.Sec == "PKK"
	case "p1t":
		n = 1 << s.Chain1.Power
	case "p2n", "p2np":
		n = s.Q.H.Domain
	default:
		return false
	}
	switch h.Sec {
	case "TauG1":
		return h.I < 2*n-1
	case "AlphaTauG1", "BetaTauG1", "TauG2":
		return h.I < n
	}
	return h.Sec == "BetaG2"
}

// ptauSections is where an external file has its points.
func ptauSections(power int) []Section {
	n := 1 << power
	o := 64
	var s []Section
	add := func(name string, c, sz int) { s = append(s, Section{name, o, c, sz}); o += c * sz }
	add("TauG1", 2*n-1, 64)
	add("TauG2", n, 128)
	add("AlphaTauG1", n, 64)
	add("BetaTauG1", n, 64)
	add("BetaG2", 1, 128)
	return s
}

// badRaw is an uncompressed point that is not in the group.
func badRaw(size int, curve bool, rng *Rng) []byte {
	for {
		q := rng.Bytes(size)
		for i := 0; i < size; i += 32 {
			q[i] &= 0x1f
		}
		if size == 128 && !curve {
			q = rng.Bytes(64)
			q[0] = q[0]&0x1f | 0x80
			var e G2
			if bn254.NewDecoder(bytes.NewReader(q), bn254.NoSubgroupChecks()).Decode(&e) != nil || e.IsInSubGroup() {
				continue
			}
			b := e.RawBytes()
			return b[:]
		}
		return q // some 2^-254 of them are on the curve
	}
}

// damage spoils a ceremony file.
func (r *Run) damage(b []byte, phase int, op *Op, rng *Rng, others [][]byte) ([]byte, string) {
	secs, head := layoutOf(b, phase)
	if len(secs) == 0 {
		r.broken("no layout of a phase-%d file", phase)
	}
	b = append([]byte(nil), b...)
	name := op.str(0)
	x, y := op.arg(0), op.arg(1)
	s := secs[modn(x, len(secs))]
	if y%3 > 0 { // parameters and the last record rather than all records
		s = secs[modn(x, 4)]
	}
	if s.Count == 0 {
		s = secs[0]
	}
	off := s.Off + s.Size*modn(op.arg(2), s.Count)
	what := fmt.Sprintf("%s (%s, byte %d)", name, s.Name, off)
	switch name {
	case "empty":
		return nil, name
	case "cut":
		n := modn(x*31+y, len(b))
		return b[:n], fmt.Sprintf("cut to %d of %d bytes", n, len(b))
	case "cutsec":
		n := off + y%3 - 1
		if n >= len(b) || n < 0 {
			n = len(b) - 1
		}
		return b[:n], fmt.Sprintf("cut to %d of %d bytes", n, len(b))
	case "grow":
		return append(b, rng.Bytes(1+modn(x, 800))...), "extended"
	case "growrec":
		n := recSize1
		if phase == 2 {
			n = recSize2
		}
		if len(b) < n {
			n = len(b)
		}
		return append(b, b[len(b)-n:]...), "extended by its last record"
	case "flip":
		i := modn(x*1031+y, len(b))
		b[i] ^= 1 << modn(op.arg(2), 8)
		return b, fmt.Sprintf("bit flipped in byte %d", i)
	case "byte":
		i := modn(x*1031+y, len(b))
		b[i] = byte(op.arg(2))
		return b, fmt.Sprintf("byte %d set to %d", i, b[i])
	case "headflip":
		i := modn(x, head)
		b[i] ^= 1 << modn(y, 8)
		return b, fmt.Sprintf("bit flipped in header byte %d", i)
	case "head":
		if phase == 1 {
			switch x % 3 {
			case 0:
				b[0] = []byte{0, 1, 2, 3, 5, 20, 26, 27, 28, 29, 31, 32, 62, 63, 64, 65, 127, 128, 255}[modn(y, 19)]
			case 1:
				b[1], b[2] = byte(op.arg(2)), byte(op.arg(3))
			case 2:
				b[1], b[2] = 0xff, 0xff
			}
			return b, fmt.Sprintf("header set to %x", b[:3])
		}
		p, err := parseP2(b)
		if err != nil {
			r.broken("%v", err)
		}
		h := p.H
		f := []*int{&h.Wires, &h.Witness, &h.Public, &h.PrivateCommitted, &h.Constraints, &h.Domain, &h.Contributions}[modn(x, 7)]
		if y%4 == 0 {
			*f += 1 + op.arg(2)%3
		} else if y%4 == 1 {
			*f -= 1 + op.arg(2)%3
		} else {
			*f = oddSizes[modn(op.arg(2), len(oddSizes))]
		}
		var out []byte
		if err := safely(func() error { out = (&P2{Raw: b[p.Off:]}).withHeader(h); return nil }); err != nil {
			return b, "nothing"
		}
		return out, fmt.Sprintf("header set to %+v", h)
	case "notcurve", "subgroup":
		for i := 0; i < 400; i++ {
			q := rng.Bytes(s.Size)
			q[0] = q[0]&0x1f | 0x80 | byte(i&1)<<6
			var e1 G1
			var e2 G2
			dec := bn254.NewDecoder(bytes.NewReader(q), bn254.NoSubgroupChecks())
			var err error
			in := true
			if s.Size == 32 {
				err = dec.Decode(&e1)
			} else if err = dec.Decode(&e2); err == nil {
				in = e2.IsInSubGroup()
			}
			if name == "notcurve" && err != nil || name == "subgroup" && err == nil && !in || name == "subgroup" && s.Size == 32 && err == nil {
				copy(b[off:], q)
				if name == "notcurve" || s.Size == 64 {
					r.hurt = &hurt{s.Name, (off - s.Off) / s.Size}
				}
				return b, what
			}
		}
	case "bigx": // not reduced modulo p
		for i := 0; i < s.Size; i++ {
			b[off+i] = 0xff
		}
		b[off] = 0xbf
		if y%2 == 0 {
			b[off] = 0xff
		}
	case "badinf":
		b[off] = 0x40
		b[off+1+modn(x, s.Size-1)] |= 1
	case "infinity":
		copy(b[off:], make([]byte, s.Size))
		b[off] = 0x40
	case "rawflag", "noflag":
		b[off] &= 0x3f
	case "zeros", "ff":
		v := byte(0)
		if name == "ff" {
			v = 0xff
		}
		from := modn(x*517, len(b))
		to := from + 1 + modn(y, 2000)
		for i := from; i < to && i < len(b); i++ {
			b[i] = v
		}
		return b, fmt.Sprintf("bytes %d to %d set to %d", from, to, v)
	case "other":
		if len(others) > 0 {
			return others[modn(x, len(others))], "another kind of file"
		}
	}
	return b, what
}

func execC19(r *Run, p *Plan) {
	rng := NewRng(uint64(p.P["seedx"]), "x")
	s := r.scene(p.Tmpl, p, rng)
	r.Sample = s.Desc + ":"
	base := r.try(s, Env{CPUs: 2, Rng: rng.U()}, nil)
	ok := base.OK()
	r.done(base)
	if !ok {
		r.probe("control fails")
	}
	for i := range p.Ops {
		op := &p.Ops[i]
		arng := NewRng(uint64(p.P["seedx"])+uint64(op.arg(0))*977+uint64(op.arg(3)), "d")
		r.Sample += " " + op.str(0)
		if op.K == "args" {
			r.badArgs(s, op, arng)
		} else {
			r.badFile(s, op, arng)
		}
	}
	r.NonTriv = ok
}

func (r *Run) badFile(s *Scene, op *Op, rng *Rng) {
	name := s.mainFile()
	phase := 1
	if name == "in.ph2" {
		phase = 2
	}
	if s.Kind == "p2v" && op.arg(3)%4 == 0 {
		name = "origin.ph2"
	}
	if s.Kind == "p1vt" && op.arg(3)%4 == 0 {
		name = "origin.ph1"
	}
	orig := s.Files[name]
	var others [][]byte
	for _, n := range keys(s.Files) {
		if n != name {
			others = append(others, s.Files[n])
		}
	}
	var b []byte
	var what string
	r.hurt = nil
	if name == "in.ptau" {
		b, what = r.damagePtau(orig, s, op, rng)
	} else {
		b, what = r.damage(orig, phase, op, rng, others)
	}
	if bytes.Equal(b, orig) {
		return
	}
	files := map[string][]byte{}
	for k, v := range s.Files {
		files[k] = v
	}
	files[name] = b
	t := r.try(&Scene{Files: files}, op.env(), nil, s.Args...)
	defer r.done(t)
	r.Oracles++
	desc := fmt.Sprintf("%s, %s %s", s.Desc, name, what)
	if t.hangs() {
		r.fail("hangs", "%s: %s", desc, t)
	}
	if t.Res.Kind != "exit" {
		r.fail("crashes", "%s: %s", desc, t)
	}
	if !t.OK() {
		r.probe("refused " + op.str(0))
		if strings.TrimSpace(t.Err+t.Out) == "" {
			r.fail("silent-failure", "%s: fails without saying why", desc)
		}
		return
	}
	switch {
	case s.Verify && strings.HasPrefix(name, "in."):
		var lay, ch, pa error
		switch s.Kind {
		case "p1v":
			lay, ch, pa = RefVerifyP1(b, nil, rng)
		case "p1vt":
			lay, ch, pa = RefVerifyP1(b, s.Files["origin.ph1"], rng)
		case "p2v":
			lay, ch, pa = RefVerifyP2(b, s.Files["origin.ph2"], rng)
		}
		if lay != nil || ch != nil || pa != nil {
			r.fail("accepted", "%s: verification succeeds (%v %v %v)", desc, lay, ch, pa)
		}
		r.probe("accepted, and rightly")
	default:
		if why := tooShort(b, name, s); why != "" {
			r.fail("success-on-short-file", "%s: reports success although %s", desc, why)
		}
		if r.hurt != nil && s.uses(r.hurt) {
			r.fail("uses-bad-point", "%s: reports success although %s[%d] is no point of the group", desc, r.hurt.Sec, r.hurt.I)
		}
		r.probe("not refused " + op.str(0))
	}
}

// tooShort says whether a file lacks parameters its header announces (or, for
// a contribution, records).
func tooShort(b []byte, name string, s *Scene) string {
	need := 0
	switch {
	case name == "in.ptau":
		need = len(s.Files[name])
	case strings.HasSuffix(name, ".ph1"):
		if len(b) < 3 {
			return "there is no header"
		}
		if b[0] > 30 {
			return "its power is impossible"
		}
		need = 3 + p1ParamSize(int(b[0]))
		if s.Kind == "p1c" {
			need += recSize1 * (int(b[1])<<8 | int(b[2]))
		}
	default:
		var h Header2
		rd := bytes.NewReader(b)
		if err := safely(func() error { return gob.NewDecoder(rd).Decode(&h) }); err != nil {
			return "there is no proper header"
		}
		if h.sane() != nil {
			return "" // sizes no file can have, which not every command needs
		}
		need = len(b) - rd.Len() + h.paramSize()
		if s.Kind == "p2c" {
			need += recSize2 * h.Contributions
		}
	}
	if len(b) < need {
		return fmt.Sprintf("%d of the file's %d bytes are missing", need-len(b), need)
	}
	return ""
}

func (r *Run) damagePtau(b []byte, s *Scene, op *Op, rng *Rng) ([]byte, string) {
	b = append([]byte(nil), b...)
	x, y := op.arg(0), op.arg(1)
	switch op.str(0) {
	case "empty":
		return nil, "empty"
	case "cut", "cutsec", "grow", "growrec", "head":
		n := modn(x*31+y, len(b))
		if op.str(0) == "head" {
			n = len(b) - 1 - modn(x, 130)
		}
		return b[:n], fmt.Sprintf("cut to %d of %d bytes", n, len(b))
	case "ff", "zeros", "bigx":
		from := modn(x*517, len(b))
		for i := from; i < from+300 && i < len(b); i++ {
			b[i] = 0xff
		}
		return b, fmt.Sprintf("bytes from %d overwritten", from)
	}
	if op.str(0) == "notcurve" || op.str(0) == "subgroup" {
		var in int
		fmt.Sscan(s.Args[3], &in)
		secs := ptauSections(in)
		sec := secs[modn(x, len(secs))]
		if op.str(0) == "subgroup" {
			sec = secs[1+3*modn(x, 2)]
		}
		i := modn(y, sec.Count)
		if y%2 == 0 { // among those the command uses
			i = modn(i, 1<<s.Chain1.Power)
		}
		r.hurt = &hurt{sec.Name, i}
		copy(b[sec.Off+i*sec.Size:], badRaw(sec.Size, op.str(0) == "notcurve", rng))
		return b, fmt.Sprintf("%s (%s[%d])", op.str(0), sec.Name, i)
	}
	i := modn(x*1031+y, len(b))
	b[i] ^= 1 << modn(op.arg(2), 8)
	return b, fmt.Sprintf("bit flipped in byte %d", i)
}

var badNumbers = []string{"", "x", "0", "-1", "1.5", "0x3", "2^3", "99999999999999999999", "1e2", " 2", "255", "256", "257", "258", "259", "-255", "65537", "4294967297", "4294967298", "29", "30", "31", "64"}

func (r *Run) badArgs(s *Scene, op *Op, rng *Rng) {
	args := append([]string(nil), s.Args...)
	x, y := op.arg(0), op.arg(1)
	k := 1 + modn(y, len(args)-1)
	numeric := func(i int) bool { return args[i] != "" && strings.Trim(args[i], "0123456789") == "" }
	what := ""
	for k2 := 1; k2 < len(args) && x%3 == 0; k2++ { // prefer numbers
		i := 1 + modn(y+k2, len(args)-1)
		if numeric(i) {
			k = i
			break
		}
	}
	switch {
	case x%7 == 1:
		args = append(args[:k:k], args[k+1:]...)
		what = "an argument less"
	case x%7 == 2:
		args = append(args[:k:k], append([]string{fmt.Sprint(op.arg(2))}, args[k:]...)...)
		what = "an argument more"
	case x%7 == 4:
		args = args[:1]
		what = "no arguments"
	case numeric(k):
		args[k] = badNumbers[modn(op.arg(2), len(badNumbers))]
		if args[0] == "p2np" && strings.Trim(args[k], "0123456789") == "" && args[k] != "" {
			// any size but the right one is wrong
			if v := args[k]; v == s.Args[k] || k == 6 && oneBatch(s, v) {
				return
			}
		}
		what = "number"
	default:
		if _, in := s.Files[args[k]]; in || args[0] == "p2np" && k == 2 || args[0] == "sol" {
			args[k] = []string{"missing", "no/such", ".", ""}[modn(op.arg(2), 4)]
			if args[0] == "sol" && args[k] == "." {
				args[k] = "missing"
			}
		} else {
			args[k] = []string{"no/such", ".", ""}[modn(op.arg(2), 3)]
		}
		if args[0] == "keys" && k == 2 { // a session is a prefix of names
			args[k] = "no/such"
		}
		what = "path"
	}
	t := r.try(s, op.env(), nil, args...)
	defer r.done(t)
	r.Oracles++
	desc := fmt.Sprintf("%s: %s wrong, %q", s.Desc, what, args)
	if t.hangs() {
		r.fail("hangs", "%s: %s", desc, t)
	}
	if t.Res.Kind != "exit" {
		r.fail("crashes", "%s: %s", desc, t)
	}
	if t.OK() {
		r.fail("bad-arguments-accepted", "%s: %s", desc, t)
	}
	r.probe("refused " + what)
}

// oneBatch: batch sizes that hold the whole circuit all mean the same.
func oneBatch(s *Scene, v string) bool {
	var a, b, n uint64
	fmt.Sscan(s.Args[6], &a)
	fmt.Sscan(s.Args[5], &n)
	if _, err := fmt.Sscan(v, &b); err != nil {
		return false
	}
	return a >= n && b >= n
}

func init() {
	register(&Prop{ID: "C19", Quick: 3600, Thorough: 30000, Gen: genC19, Exec: execC19,
		Rule:   "a run takes one command with a proper input, then spoils the phase-1, phase-2 or external file it reads (cut, extended, bits and bytes changed, header values changed, points off the curve, outside the subgroup, unreduced, badly flagged, infinite, another kind of file) or its arguments (too few, too many, malformed or out-of-range numbers, missing files), and runs the real command each time under its own environment; non-trivial if the command succeeded on the proper input",
		Assume: []string{"a command that takes more than 60 million scheduling points, or whose process exceeds 3 GB, counts as not ending", "circuit files (R1CS, its parts, evals) come from trusted places: only ceremony files are spoiled"}})
}
