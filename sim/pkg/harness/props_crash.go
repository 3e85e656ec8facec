package harness

import (
	"bytes"
	"fmt"
	"os"
	"strings"

	"MODULE/internal/verifsim/sio"
)

// ------------------------------------------------------------- C15

func genC15(r *Rng, idx int, thorough bool) *Plan {
	p := &Plan{P: map[string]int64{}}
	genScene(r, p, makers[idx%len(makers)])
	if r.P(1, 2) && p.P["recs"] == 0 {
		p.P["recs"] = 1
	}
	e := genEnv(r)
	if r.P(1, 2) {
		e = calmEnv(r)
	}
	p.Ops = []Op{{K: "env", Env: &e}}
	for i := 0; i < 6; i++ {
		op := Op{K: "crash", S: []string{r.PickS("any", "any", "write", "write", "close", "create"), r.PickS("crash", "power")}, A: []int64{genAt(r), int64(r.U() >> 1), 0, int64(r.Pick(0, 1+r.N(1<<20)))}}
		v := genEnv(r)
		op.Env = &v
		p.Ops = append(p.Ops, op)
	}
	for i := 0; i < 2; i++ {
		v := genEnv(r)
		p.Ops = append(p.Ops, Op{K: "alias", A: []int64{int64(r.N(1 << 20)), int64(r.N(1 << 20)), int64(r.N(1 << 20))}, Env: &v})
	}
	return p
}

func execC15(r *Run, p *Plan) {
	rng := NewRng(uint64(p.P["seedx"]), "x")
	s := r.scene(p.Tmpl, p, rng)
	env := p.envOf("env")
	base := r.try(s, env, nil)
	defer r.done(base)
	if !base.OK() {
		r.fail("fails-without-faults", "%s: %s", s.Desc, base)
	}
	outs := base.changed()
	r.Sample = fmt.Sprintf("%s, %d file operations", s.Desc, base.Eng.Counts["any"])
	for i := range p.Ops {
		op := &p.Ops[i]
		switch op.K {
		case "crash":
			f, ok := op.fault(base.Eng)
			if !ok {
				continue
			}
			f.Rep = false
			r.crashAt(s, base, outs, env, op.env(), f, rng)
		case "alias":
			r.aliasOf(s, base, env, op, rng)
		}
	}
}

// crashAt kills the command at one point and looks at what is left.
func (r *Run) crashAt(s *Scene, base *Trial, outs map[string]bool, env, env2 Env, f sio.Fault, rng *Rng) {
	t := r.try(s, env, []sio.Fault{f})
	defer r.done(t)
	if t.Eng.FaultHit == 0 {
		return
	}
	what := s.Desc + ", " + place(f, base.Eng)
	r.NonTriv = true
	r.Oracles++
	// Nothing else is touched.
	for _, n := range keys(t.Before) {
		if outs[n] {
			continue
		}
		b, ok := t.After[n]
		if !ok {
			r.fail("harms-files", "%s: %s is gone", what, n)
		}
		if !bytes.Equal(b, t.Before[n]) {
			r.fail("harms-files", "%s: %s changed: %s", what, n, firstDiff(t.Before[n], b))
		}
	}
	// What is left doesn't pass.
	if n := s.OutP1; n != "" {
		if b, ok := t.After[n]; ok {
			_, had := t.Before[n]
			r.partial1(what, b, !had, base.After[n], s, env2, rng)
		}
	}
	if n := s.OutP2; n != "" {
		if b, ok := t.After[n]; ok {
			_, had := t.Before[n]
			r.partial2(what, b, !had, base.After[n], s, t.After, env2, rng)
		}
	}
	if s.Kind == "p2n" || s.Kind == "p2np" {
		if b, ok := t.After["evals"]; ok && len(b) < len(base.After["evals"]) && bytes.Equal(t.After[s.OutP2], base.After[s.OutP2]) {
			k := r.try(&Scene{Files: map[string][]byte{"in.ph2": base.After[s.OutP2], "evals": b}}, env2, nil, "key", "in.ph2")
			r.Oracles++
			if k.hangs() {
				r.fail("hangs", "%s: then key extraction: %s", what, k)
			}
			if k.OK() {
				r.fail("partial-passes", "%s: key extraction succeeds with %d of %d bytes of evals", what, len(b), len(base.After["evals"]))
			}
			r.done(k)
		}
	}
	// Doing it again works, on top of whatever is left.
	again := r.Exec(t.Dir, env, nil, s.Args...)
	r.Oracles++
	if !again.OK() {
		r.fail("repeat-fails", "%s: repeating the command: %s", what, again)
	}
	after := Snapshot(t.Dir)
	for n := range outs {
		if !bytes.Equal(after[n], base.After[n]) {
			r.fail("repeat-differs", "%s: repeating the command gives another %s: %s", what, n, firstDiff(base.After[n], after[n]))
		}
	}
}

// partial1: a phase-1 file left by a crash.
func (r *Run) partial1(what string, b []byte, fresh bool, whole []byte, s *Scene, env Env, rng *Rng) {
	lay, ch, pa := RefVerifyP1(b, s.Origin, rng)
	v := r.verify1(env, b, s.Origin)
	r.Oracles++
	if v.hangs() {
		r.fail("hangs", "%s: then verification: %s", what, v)
	}
	if v.OK() && (lay != nil || ch != nil || pa != nil) {
		r.fail("partial-passes", "%s: verification accepts the %d of %d bytes left", what, len(b), len(whole))
	}
	if v.OK() && fresh && !bytes.Equal(b, whole) {
		r.fail("partial-passes", "%s: the file left isn't the contribution, but verification accepts it (%d bytes, the contribution has %d)", what, len(b), len(whole))
	}
	if v.OK() {
		r.probe("complete after all")
	} else {
		r.probe("left file refused")
	}
	if len(b) < len(whole) && lay != nil { // (what is left is no file of its own)
		c := r.try(&Scene{Files: map[string][]byte{"part.ph1": b}}, env, nil, "p1c", "part.ph1", "next.ph1")
		r.Oracles++
		if c.hangs() {
			r.fail("hangs", "%s: then contributing: %s", what, c)
		}
		if c.OK() {
			r.fail("partial-passes", "%s: the next contribution succeeds on %d of %d bytes", what, len(b), len(whole))
		}
		r.done(c)
	}
}

// partial2: a phase-2 file left by a crash.
func (r *Run) partial2(what string, b []byte, fresh bool, whole []byte, s *Scene, after map[string][]byte, env Env, rng *Rng) {
	if s.Origin != nil {
		lay, ch, pa := RefVerifyP2(b, s.Origin, rng)
		v := r.verify2(env, b, s.Origin)
		r.Oracles++
		if v.hangs() {
			r.fail("hangs", "%s: then verification: %s", what, v)
		}
		if v.OK() && (lay != nil || ch != nil || pa != nil) {
			r.fail("partial-passes", "%s: verification accepts the %d of %d bytes left", what, len(b), len(whole))
		}
		if v.OK() && fresh && !bytes.Equal(b, whole) {
			r.fail("partial-passes", "%s: the file left isn't the contribution, but verification accepts it (%d bytes, the contribution has %d)", what, len(b), len(whole))
		}
		if v.OK() {
			r.probe("complete after all")
		} else {
			r.probe("left file refused")
		}
	}
	if _, err := parseP2(b); len(b) >= len(whole) || err == nil {
		return
	}
	c := r.try(&Scene{Files: map[string][]byte{"part.ph2": b}}, env, nil, "p2c", "part.ph2", "next.ph2")
	r.Oracles++
	if c.hangs() {
		r.fail("hangs", "%s: then contributing: %s", what, c)
	}
	if c.OK() {
		r.fail("partial-passes", "%s: the next contribution succeeds on %d of %d bytes", what, len(b), len(whole))
	}
	r.done(c)
	// A truncated origin doesn't serve for verification either.
	if s.Origin == nil && s.Q != nil {
		ch := chainOf(s.Q)
		ch.contribute(randFr(rng), rng)
		v := r.verify2(env, ch.file(1), b)
		r.Oracles++
		if v.OK() {
			r.fail("partial-passes", "%s: verification succeeds against %d of %d bytes of the origin", what, len(b), len(whole))
		}
	}
	if e, ok := after["evals"]; ok {
		k := r.try(&Scene{Files: map[string][]byte{"part.ph2": b, "evals": e}}, env, nil, "key", "part.ph2")
		if k.hangs() {
			r.fail("hangs", "%s: then key extraction: %s", what, k)
		}
		if k.OK() {
			r.fail("partial-passes", "%s: key extraction succeeds on %d of %d bytes of the phase-2 file", what, len(b), len(whole))
		}
		r.done(k)
	}
}

// aliasOf makes one of the command's outputs the same file as one of its
// inputs: the command must fail and leave the input as it is.
func (r *Run) aliasOf(s *Scene, base *Trial, env Env, op *Op, rng *Rng) {
	// Inputs named on the command line or read by convention.
	var ins []string
	for _, n := range keys(s.Files) {
		if (base.Eng.Opened[n] || strings.HasPrefix(n, "s.r1cs.")) && len(s.Files[n]) > 0 {
			ins = append(ins, n)
		}
	}
	var outs []string
	for n := range base.changed() {
		outs = append(outs, n)
	}
	sortStrings(outs)
	if len(ins) == 0 || len(outs) == 0 {
		return
	}
	in, out := ins[modn(op.arg(0), len(ins))], outs[modn(op.arg(1), len(outs))]
	argIn, argOut := -1, -1
	if _, _, session := argFiles(s.Args); session > 0 && modn(op.arg(2)/6, 3) == 0 {
		// the session has an odd name
		odd := oddName(modn(op.arg(2)/18, len(oddNames)), "s")
		name := func(n string) string {
			if strings.HasPrefix(n, "s.") {
				return odd + n[1:]
			}
			return n
		}
		t := *s
		t.Args, t.Files = append([]string{}, s.Args...), map[string][]byte{}
		t.Args[session] = odd
		for n, b := range s.Files {
			t.Files[name(n)] = b
		}
		s, in, out = &t, name(in), name(out)
	}
	for i, a := range s.Args {
		if i > 0 && a == in {
			argIn = i
		}
		if i > 0 && a == out {
			argOut = i
		}
	}
	args := append([]string{}, s.Args...)
	files := map[string][]byte{}
	for n, b := range s.Files {
		files[n] = b
	}
	d := r.DirWith("al", files)
	defer r.dropDir(d)
	how := modn(op.arg(2), 6)
	keep := in // where the input's bytes are
	desc := ""
	switch {
	case argOut > 0 && how < 3: // name the input as the output
		args[argOut] = []string{in, "./" + in, d + "/" + in}[how]
		desc = "output " + []string{in, "./" + in, "(absolute path of) " + in}[how]
	case argOut > 0 && how == 3, argOut < 0 && how%2 == 0: // the output is a link to the input
		if os.Symlink(in, join(d, out)) != nil {
			return
		}
		desc = out + " is a symbolic link to " + in
	case argOut > 0 && how == 4, argOut < 0 && argIn < 0:
		if os.Link(join(d, in), join(d, out)) != nil {
			return
		}
		desc = out + " is a hard link to " + in
	case argIn > 0: // the input has the name of an output
		if os.Rename(join(d, in), join(d, out)) != nil {
			return
		}
		args[argIn] = out
		keep = out
		desc = "input named " + out
	default:
		return
	}
	pr := r.Exec(d, env, nil, args...)
	r.Oracles++
	r.NonTriv = true
	r.probe("output is input")
	what := fmt.Sprintf("%s, %s (%s)", s.Desc, desc, strings.Join(pr.Args, " "))
	if pr.hangs() {
		r.fail("hangs", "%s: %s", what, pr)
	}
	if !bytes.Equal(readFile(d, keep), s.Files[in]) {
		r.fail("destroys-input", "%s: the input %s had %d bytes and has %d; %s", what, in, len(s.Files[in]), len(readFile(d, keep)), pr)
	}
	if pr.OK() {
		r.fail("overwrite-succeeds", "%s: the command reports success", what)
	}
}

func init() {
	register(&Prop{ID: "C15", Quick: 1400, Thorough: 9000, Exec: execC15, Gen: genC15,
		Rule:   "a run is one file-writing command: executed once undisturbed, then killed or hit by a power loss (unsynced writes lost, torn or zeroed) at seeded file operations; all other files are compared, what is left goes through the real verification, the next contribution and key extraction, and the command is repeated on top of it; and commands whose output is the same file as an input, by name, path, symbolic or hard link; non-trivial if a crash struck or such a command ran",
		Assume: []string{"zero-filled or torn bytes inside a file of full length are only required to fail verification"}})
}
