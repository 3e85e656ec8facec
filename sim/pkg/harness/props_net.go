package harness

import (
	"bytes"
	"container/heap"
	"fmt"
	"os"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/backend/witness"

	"MODULE/internal/verifsim/sio"
)

// ------------------------------------------------------------- C18
//
// A whole ceremony in virtual time: a coordinator and contributors on a network
// that loses, duplicates, delays, reorders and damages messages, with
// partitions, slow nodes, crashes inside any command, storage and entropy
// faults, and contributors that cheat. Every command is the real one. The
// coordinator follows the README: send the latest file, verify what comes
// back, compare the hashes, retry.

type msg struct {
	from, to int
	attempt  int
	file     []byte
	hash     string // what the sender attests in public
	touched  bool
}

type event struct {
	at  uint64
	seq int
	do  func()
}

type events []event

func (e events) Len() int { return len(e) }
func (e events) Less(i, j int) bool {
	return e[i].at < e[j].at || e[i].at == e[j].at && e[i].seq < e[j].seq
}
func (e events) Swap(i, j int)       { e[i], e[j] = e[j], e[i] }
func (e *events) Push(x interface{}) { *e = append(*e, x.(event)) }
func (e *events) Pop() interface{} {
	o := *e
	x := o[len(o)-1]
	*e = o[:len(o)-1]
	return x
}

// node is a contributor.
type node struct {
	id       int
	op       *Op
	honest   bool
	downTill uint64
	slow     uint64
	attested map[string]bool
	made     map[string]madeBy // by hash
	attempts int
	cheats   []cheat
	done     bool
	home     string // its directory, if it keeps one
}

// cheat is a file a cheater sent, with the chain it would be if it were proper.
type cheat struct {
	file []byte
	c1   *Chain1
	c2   *Chain2
}

type madeBy struct {
	proc    *Proc
	in, out []byte
}

type ceremony struct {
	*Run
	p       *Plan
	rng     *Rng
	now     uint64
	seq     int
	q       events
	msgs    int
	cmds    int
	phase   int
	nodes   []*node
	turn    *node
	queue   []*node
	first   []byte
	cur     []byte
	origin  []byte // what p1vt or p2v compares with; nil for p1v
	ledger  []string
	states  [][]byte // accepted files, for stale answers
	c1      *Chain1  // nil once a secret is unknown
	c2      *Chain2
	touched map[int]bool // attempts (of the turn) that met a fault
	down    uint64       // the coordinator is down until then
}

func genC18(r *Rng, idx int, thorough bool) *Plan {
	p := &Plan{P: map[string]int64{"seedx": int64(r.U() >> 1)}}
	p.Tmpl = []string{"init", "transformed", "init"}[idx%3]
	max := 8
	if thorough {
		max = 24
	}
	genCircuit(r, p.P, max)
	p.P["split"] = int64(r.N(2))
	if p.P["split"] == 1 && r.P(1, 2) {
		genCommit(r, p.P)
	}
	p.P["lazy"] = 0
	p.P["extra"] = int64(r.Pick(0, 0, 1))
	part := func(ph string, n int) {
		hon := r.N(n)
		for i := 0; i < n; i++ {
			kind := "honest"
			if i != hon && r.P(2, 3) {
				kind = r.PickS("replay", "fork", "restart", "params", "params", "chain", "chain", "garbage", "valid", "other", "silent", "drop", "refork", "refork")
			}
			e := genEnv(r)
			a := []int64{int64(r.N(1 << 20)), int64(r.N(1 << 20)), int64(r.N(1 << 20)), int64(r.N(1 << 20)), int64(r.N(1 << 20))}
			p.Ops = append(p.Ops, Op{K: ph, S: []string{kind}, A: a, Env: &e})
		}
	}
	part("p1", 1+r.N(4))
	part("p2", 1+r.N(4))
	e := genEnv(r)
	p.Ops = append(p.Ops, Op{K: "coord", Env: &e})
	n := r.N(8)
	for i := 0; i < n; i++ {
		switch r.N(6) {
		case 0, 1:
			p.Ops = append(p.Ops, Op{K: "net", S: []string{r.PickS("loss", "dup", "delay", "corrupt", "cut", "dup", "empty", "rival")}, A: []int64{int64(1 + r.N(30)), int64(r.U() >> 1)}})
		case 2:
			p.Ops = append(p.Ops, Op{K: "part", A: []int64{int64(1 + r.N(4)), int64(r.N(120000)), int64(1000 + r.N(200000))}})
		case 3:
			p.Ops = append(p.Ops, Op{K: "slow", A: []int64{int64(1 + r.N(4)), int64(r.Pick(3, 10, 30, 100, 1000))}})
		default:
			f := sio.Fault{Kind: r.PickS("write", "read", "any", "any", "create", "close", "rng"), At: r.N(r.Pick(3, 12, 60)), Act: r.PickS("err", "err", "crash", "power", "short"), Arg: r.U() >> 1, Rep: r.P(1, 4)}
			if f.Kind == "rng" && f.Act == "short" || f.Kind == "any" && f.Act == "short" {
				f.Act = "err"
			}
			p.Ops = append(p.Ops, Op{K: "cmd", A: []int64{int64(1 + r.N(30))}, F: []sio.Fault{f}})
		}
	}
	return p
}

func (c *ceremony) after(ms uint64, f func()) {
	c.seq++
	heap.Push(&c.q, event{c.now + ms, c.seq, f})
}

// run executes the real command as node n's process (0: the coordinator).
func (c *ceremony) run(dir string, env Env, args ...string) (p *Proc, touched bool) {
	c.cmds++
	var fs []sio.Fault
	for i := range c.p.Ops {
		op := &c.p.Ops[i]
		if op.K == "cmd" && op.arg(0) == c.cmds {
			fs = append(fs, op.F...)
		}
	}
	env.Rng = mix(env.Rng ^ uint64(c.cmds)*0x9e37)
	p = c.Exec(dir, env, fs, args...)
	if p.hangs() {
		c.fail("hangs", "%s", p)
	}
	return p, len(p.Eng.Fired) > 0 && p.Eng.FaultHit > 0
}

func crashed(p *Proc) bool { return p.Res.Kind == "crash" }

// send puts a message on the network.
func (c *ceremony) send(m msg, deliver func(msg)) {
	c.msgs++
	d := 20 + mix(uint64(c.msgs)^uint64(c.p.P["seedx"]))%400
	copies := 1
	for i := range c.p.Ops {
		op := &c.p.Ops[i]
		switch op.K {
		case "net":
			if op.arg(0) != c.msgs {
				continue
			}
			m.touched = true
			c.Fired["net-"+op.str(0)]++
			x := uint64(op.A[1])
			switch op.str(0) {
			case "loss":
				copies = 0
			case "dup":
				copies = 2
			case "delay":
				d += 1000 + x%300000
			case "corrupt":
				b := append([]byte(nil), m.file...)
				if len(b) > 0 {
					b[x%uint64(len(b))] ^= 1 << (x >> 40 % 8)
				}
				m.file = b
			case "cut":
				if len(m.file) > 0 {
					m.file = m.file[:x%uint64(len(m.file))]
				}
			case "empty":
				m.file = nil
			case "rival":
				m.file = c.rival(m.file, x)
			}
		case "part":
			who := m.from + m.to // one of them is the coordinator, 0
			if uint64(op.A[1]) <= c.now && c.now < uint64(op.A[1]+op.A[2]) && op.arg(0) == who {
				m.touched = true
				copies = 0
				c.Fired["net-partition"]++
			}
		}
	}
	if m.touched {
		c.touched[m.attempt] = true
	}
	for i := 0; i < copies; i++ {
		m := m
		c.after(d*uint64(1+3*i), func() { deliver(m) })
	}
}

// rival returns a file as good as f that isn't f: its last contribution is
// somebody else's. Without contributions it returns f.
func (c *ceremony) rival(f []byte, seed uint64) []byte {
	if len(c.ledger) == 0 || !bytes.Equal(f, c.cur) {
		return f
	}
	base, cmd, ext := c.first, "p1c", ".ph1"
	if n := len(c.states); n > 1 {
		base = c.states[n-2]
	}
	if c.phase == 2 {
		cmd, ext = "p2c", ".ph2"
	}
	d := c.DirWith("rival", map[string][]byte{"in" + ext: base})
	defer c.dropDir(d)
	if p := c.Exec(d, calmEnv(NewRng(seed, "rival")), nil, cmd, "in"+ext, "out"+ext); !p.OK() {
		return f
	}
	c.probe("a file with another last contribution")
	return readFile(d, "out"+ext)
}

// ask sends the latest file to whose turn it is.
func (c *ceremony) ask() {
	n := c.turn
	n.attempts++
	a := n.attempts
	if c.now < c.down {
		c.after(c.down-c.now, func() { c.retry(n, a) })
		return
	}
	limit := 14
	if !n.honest {
		limit = 3 + n.op.arg(4)%2
	}
	if a > limit {
		if n.honest {
			c.fail("no-progress", "phase %d: contributor %d isn't through after %d attempts and %d s", c.phase, n.id, limit, c.now/1000)
		}
		c.probe("gave up on a cheater")
		c.next()
		return
	}
	c.send(msg{to: n.id, attempt: a, file: c.cur}, func(m msg) { c.contributor(n, m) })
	t := uint64(30000) << uint(a)
	c.after(t, func() { c.retry(n, a) })
}

// retry asks again unless something has moved since attempt a.
func (c *ceremony) retry(n *node, a int) {
	if c.turn == n && n.attempts == a {
		c.ask()
	}
}

func (c *ceremony) next() {
	c.turn = nil
	if len(c.queue) == 0 {
		return
	}
	c.turn, c.queue = c.queue[0], c.queue[1:]
	c.touched = map[int]bool{}
	c.ask()
}

// contributor receives the latest file.
func (c *ceremony) contributor(n *node, m msg) {
	if c.now < n.downTill {
		c.touched[m.attempt] = true
		return
	}
	reply := func(file []byte, hash string, took uint64) {
		if hash != "" {
			n.attested[hash] = true
		}
		c.after(took*n.slow, func() {
			if c.now < n.downTill {
				c.touched[m.attempt] = true
				return
			}
			c.send(msg{from: n.id, attempt: m.attempt, file: file, hash: hash}, c.coordinator)
		})
	}
	if !n.honest {
		if f, h, ok := c.cheat(n); ok {
			c.probe("cheat " + n.op.str(0))
			reply(f, h, 700)
		}
		return
	}
	cmd, ext := "p1c", ".ph1"
	if c.phase == 2 {
		cmd, ext = "p2c", ".ph2"
	}
	// Half of the contributors do it in a new directory every time; the others
	// use the same names again, and meet what earlier attempts left.
	d := n.home
	if d == "" {
		d = c.Dir("node")
		if n.op.arg(3)%2 == 1 {
			n.home = d
		}
	} else {
		c.probe("contributor uses its directory again")
	}
	writeFile(d, "in"+ext, m.file)
	p, t := c.run(d, n.op.env(), cmd, "in"+ext, "out"+ext)
	out := readFile(d, "out"+ext)
	if n.home == "" {
		c.dropDir(d)
	}
	if t {
		c.touched[m.attempt] = true
	}
	if crashed(p) {
		n.downTill = c.now + 4000
		return
	}
	if !p.OK() {
		if !t && bytes.Equal(m.file, c.cur) && c.turn == n {
			c.fail("contribute-failed", "phase %d: contributor %d: %s", c.phase, n.id, p)
		}
		return
	}
	hs := hashRe.FindAllString(p.Out, -1)
	if len(hs) == 0 {
		c.fail("no-hash", "phase %d: contributor %d was told no hash", c.phase, n.id)
	}
	h := hs[len(hs)-1]
	n.made[h] = madeBy{p, m.file, out}
	reply(out, h, 1000)
}

// coordinator receives a file.
func (c *ceremony) coordinator(m msg) {
	n := c.turn
	if n == nil || m.from != n.id {
		c.probe("late answer ignored")
		return
	}
	if c.now < c.down {
		c.touched[m.attempt] = true
		return
	}
	a := n.attempts
	var env Env
	for i := range c.p.Ops {
		if c.p.Ops[i].K == "coord" {
			env = c.p.Ops[i].env()
		}
	}
	p, t := c.verify(env, m.file)
	if t {
		c.touched[m.attempt] = true
	}
	if crashed(p) {
		c.down = c.now + 6000
		c.probe("coordinator restarted")
		c.after(6000, func() { c.retry(n, a) })
		return
	}
	ok := p.OK() && n.attested[m.hash] && checkListing(p.Out, append(append([]string(nil), c.ledger...), m.hash)) == nil
	if ok {
		c.accept(n, m)
		return
	}
	c.probe("answer refused")
	if n.honest && !c.touched[m.attempt] && !m.touched {
		c.fail("honest-refused", "phase %d: nothing went wrong, but the coordinator can't accept contributor %d's file: %s, listing: %v", c.phase, n.id, p, checkListing(p.Out, append(append([]string(nil), c.ledger...), m.hash)))
	}
	if n.attempts == a {
		c.ask()
	}
}

func (c *ceremony) verify(env Env, file []byte) (*Proc, bool) {
	var d string
	var args []string
	switch {
	case c.phase == 2:
		d = c.DirWith("coord", map[string][]byte{"new.ph2": file, "0.ph2": c.origin})
		args = []string{"p2v", "new.ph2", "0.ph2"}
	case c.origin != nil:
		d = c.DirWith("coord", map[string][]byte{"new.ph1": file, "0.ph1": c.origin})
		args = []string{"p1vt", "new.ph1", "0.ph1"}
	default:
		d = c.DirWith("coord", map[string][]byte{"new.ph1": file})
		args = []string{"p1v", "new.ph1"}
	}
	p, t := c.run(d, env, args...)
	c.dropDir(d)
	return p, t
}

// accept takes a verified file as the latest, and checks that it deserves it.
func (c *ceremony) accept(n *node, m msg) {
	c.Oracles++
	what := fmt.Sprintf("phase %d, contributor %d (%s), contribution %d", c.phase, n.id, n.op.str(0), len(c.ledger)+1)
	var lay, ch, pa error
	var recs [][]byte
	prev := 0
	if c.phase == 1 {
		lay, ch, pa = RefVerifyP1(m.file, c.origin, c.rng)
		if o, err := parseP1(m.file); err == nil {
			recs = o.Recs
			prev = 608
		}
	} else {
		lay, ch, pa = RefVerifyP2(m.file, c.origin, c.rng)
		if o, err := parseP2(m.file); err == nil {
			recs = o.Recs
			prev = 160
		}
	}
	for _, e := range []error{lay, ch, pa} {
		if e != nil {
			c.fail("accepts-bad-file", "%s: the coordinator accepts a file that isn't right: %v", what, e)
		}
	}
	ledger := append(append([]string(nil), c.ledger...), m.hash)
	if len(recs) != len(ledger) {
		c.fail("wrong-transcript", "%s: the accepted file has %d records for %d attested contributions", what, len(recs), len(ledger))
	}
	for i, b := range recs {
		if h := fmt.Sprintf("%x", b[prev:]); h != ledger[i] {
			c.fail("wrong-transcript", "%s: record %d of the accepted file isn't the attested contribution", what, i)
		}
	}
	// What the secrets are now.
	if mk, ok := n.made[m.hash]; ok {
		if c.phase == 1 && c.c1 != nil {
			f, err := checkContribute1(mk.in, mk.out, c.c1.last(), mk.proc, c.rng)
			if err != nil {
				c.fail("bad-contribution", "%s: %v", what, err)
			}
			rec, err2 := decRec1(recs[len(recs)-1])
			if f.Known && err2 == nil {
				c.c1.States, c.c1.Recs = append(c.c1.States, f.New), append(c.c1.Recs, rec)
			} else {
				c.c1 = nil
			}
		}
		if c.phase == 2 && c.c2 != nil {
			f, err := checkContribute2(mk.in, mk.out, c.c2.last(), mk.proc, c.rng)
			if err != nil {
				c.fail("bad-contribution", "%s: %v", what, err)
			}
			rec, err2 := decRec2(recs[len(recs)-1])
			if f.Known && err2 == nil {
				c.c2.Deltas, c.c2.Recs = append(c.c2.Deltas, f.New), append(c.c2.Recs, rec)
			} else {
				c.c2 = nil
			}
		}
	} else {
		c1, c2 := c.c1, c.c2
		c.c1, c.c2 = nil, nil
		for _, k := range n.cheats {
			if bytes.Equal(k.file, m.file) {
				if k.c1 != nil && bytes.Equal(k.c1.file(len(k.c1.Recs)), m.file) {
					c.c1 = k.c1
				}
				if k.c2 != nil && bytes.Equal(k.c2.file(len(k.c2.Recs)), m.file) {
					c.c1, c.c2 = c1, k.c2
				}
			}
		}
		if c.phase == 1 {
			c.c2 = c2
		}
		c.probe("a cheater's proper contribution")
	}
	c.cur, c.ledger = m.file, ledger
	c.states = append(c.states, m.file)
	n.done = true
	c.mark([]byte(m.hash))
	c.next()
}

func (c *Chain1) clone(n int) *Chain1 {
	return &Chain1{Power: c.Power, Origin: c.Origin, States: append([]Exps(nil), c.States[:n+1]...), Recs: append([]*Rec1(nil), c.Recs[:n]...)}
}

func (c *Chain2) clone(n int) *Chain2 {
	d := *c
	d.Deltas, d.Recs = append([]Fr(nil), c.Deltas[:n+1]...), append([]*Rec2(nil), c.Recs[:n]...)
	return &d
}

// cheat makes what a cheater answers with, and what it attests.
func (c *ceremony) cheat(n *node) (file []byte, hash string, ok bool) {
	rng := NewRng(uint64(c.p.P["seedx"])+uint64(n.op.arg(0))*977+uint64(len(n.cheats)), n.op.str(0))
	kind := n.op.str(0)
	if kind == "silent" {
		return nil, "", false
	}
	op := &Op{A: []int64{int64(rng.N(1 << 20)), int64(n.op.arg(1)), int64(n.op.arg(2)), int64(n.op.arg(3))}}
	k := cheat{}
	size := recSize1
	var b []byte
	if c.phase == 1 {
		b = c.cheat1(n, kind, op, &k, rng)
	} else {
		size = recSize2
		b = c.cheat2(n, kind, op, &k, rng)
	}
	if b == nil {
		b = c.cur // replay
	}
	if kind == "garbage" {
		b = append([]byte(nil), b...)
		switch rng.N(5) {
		case 0:
			b = b[:rng.N(len(b)+1)]
		case 1:
			b[rng.N(len(b))] ^= byte(1 << rng.N(8))
		case 2:
			b = rng.Bytes(rng.N(2000))
		case 3:
			b = append(b, rng.Bytes(1+rng.N(900))...)
		case 4:
			b = nil
		}
	}
	k.file = b
	n.cheats = append(n.cheats, k)
	if len(b) >= size {
		hash = fmt.Sprintf("%x", b[len(b)-32:])
	}
	return b, hash, true
}

func (c *ceremony) cheat1(n *node, kind string, op *Op, k *cheat, rng *Rng) []byte {
	if c.c1 == nil {
		return nil
	}
	cnt := len(c.c1.Recs)
	ch := c.c1.clone(cnt)
	switch kind {
	case "replay":
		return nil
	case "fork", "refork":
		if cnt == 0 {
			return nil
		}
		ch = c.c1.clone(rng.N(cnt))
		ch.contribute(randExps(rng), rng)
		for kind == "refork" && len(ch.Recs) <= cnt {
			ch.contribute(randExps(rng), rng)
		}
		return ch.file(len(ch.Recs))
	case "restart":
		ch = newChain1(c.c1.Power, randExps(rng), true)
		if rng.N(2) == 0 {
			ch = newChain1(c.c1.Power, unitExps(), false)
		}
		for len(ch.Recs) <= cnt {
			ch.contribute(randExps(rng), rng)
		}
		return ch.file(len(ch.Recs))
	case "other":
		d := randExps(rng)
		switch rng.N(3) {
		case 0:
			d.Tau = one()
		case 1:
			d.Alpha = one()
		case 2:
			d = unitExps()
		}
		ch.contribute(d, rng)
		k.c1 = ch
		return ch.file(cnt + 1)
	}
	ch.contribute(randExps(rng), rng)
	k.c1 = ch
	f := ch.forge()
	switch kind {
	case "params":
		op.S = []string{paramAttacks1[rng.N(len(paramAttacks1))]}
		f.pts = clonePts(f.pts)
		attackParams1(f, ch, op, rng)
	case "chain":
		op.S = []string{chainAttacks1[rng.N(len(chainAttacks1))]}
		f, _ = attackChain1(ch, op, rng)
	case "drop":
		if len(f.recs) > 1 {
			i := rng.N(len(f.recs) - 1)
			f.recs = append(f.recs[:i:i], f.recs[i+1:]...)
		}
	}
	return f.bytes()
}

func (c *ceremony) cheat2(n *node, kind string, op *Op, k *cheat, rng *Rng) []byte {
	if c.c2 == nil {
		return nil
	}
	cnt := len(c.c2.Recs)
	ch := c.c2.clone(cnt)
	switch kind {
	case "replay":
		return nil
	case "fork", "refork":
		if cnt == 0 {
			return nil
		}
		ch = c.c2.clone(rng.N(cnt))
		ch.contribute(randFr(rng), rng)
		for kind == "refork" && len(ch.Recs) <= cnt {
			ch.contribute(randFr(rng), rng)
		}
		return ch.file(len(ch.Recs))
	case "restart": // a ceremony of its own for a circuit of the same shape
		ch = newChain2(c.c2.H, one(), rng)
		for len(ch.Recs) <= cnt {
			ch.contribute(randFr(rng), rng)
		}
		return ch.file(len(ch.Recs))
	case "other":
		ch.contribute(one(), rng)
		k.c2 = ch
		return ch.file(cnt + 1)
	}
	ch.contribute(randFr(rng), rng)
	k.c2 = ch
	f := ch.forge()
	switch kind {
	case "params":
		op.S = []string{paramAttacks2[rng.N(len(paramAttacks2))]}
		attackParams2(f, ch, op, rng)
	case "chain":
		op.S = []string{chainAttacks2[rng.N(len(chainAttacks2))]}
		f, _ = attackChain2(ch, op, rng)
	case "drop":
		if len(f.recs) > 1 {
			i := rng.N(len(f.recs) - 1)
			f.recs = append(f.recs[:i:i], f.recs[i+1:]...)
		}
	}
	return f.bytes()
}

// insist runs one of the coordinator's own commands until it works.
func (c *ceremony) insist(dir string, env Env, args ...string) *Proc {
	for i := 0; i < 12; i++ {
		p, t := c.run(dir, env, args...)
		c.now += 2000
		if p.OK() {
			return p
		}
		if !t {
			c.fail("command-fails", "nothing went wrong, but %s", p)
		}
	}
	c.fail("no-progress", "%v doesn't succeed in 12 attempts", args)
	return nil
}

// contributions runs one phase's contributors to the end.
func (c *ceremony) contributions(phase int, key string) {
	c.phase, c.ledger, c.states, c.first = phase, nil, nil, c.cur
	c.nodes, c.queue = nil, nil
	for i := range c.p.Ops {
		op := &c.p.Ops[i]
		if op.K != key {
			continue
		}
		n := &node{id: len(c.nodes) + 1, op: op, honest: op.str(0) == "honest", slow: 1, attested: map[string]bool{}, made: map[string]madeBy{}}
		for j := range c.p.Ops {
			if o := &c.p.Ops[j]; o.K == "slow" && o.arg(0) == n.id {
				n.slow = uint64(1 + o.arg(1))
			}
		}
		c.nodes = append(c.nodes, n)
		c.queue = append(c.queue, n)
	}
	c.next()
	for steps := 0; c.turn != nil; steps++ {
		if steps > 4000 || len(c.q) == 0 {
			c.fail("no-progress", "phase %d: no end after %d events, %d s", phase, steps, c.now/1000)
		}
		e := heap.Pop(&c.q).(event)
		if e.at > c.now {
			c.now = e.at
		}
		e.do()
	}
	c.q = nil // what is still under way arrives too late
	for _, n := range c.nodes {
		if n.honest && !n.done {
			c.fail("no-progress", "phase %d: honest contributor %d isn't part of the ceremony", phase, n.id)
		}
	}
}

func execC18(r *Run, p *Plan) {
	rng := NewRng(uint64(p.P["seedx"]), "x")
	c := &ceremony{Run: r, p: p, rng: rng}
	defer func() { r.VTime = c.now }()
	cir := r.circuitOf(p, false)
	n := len(rows(cir.CS))
	power := powerFor(n) + p.get("extra")
	split := p.get("split") == 1 || len(cir.CS.CommitmentInfo.Committed) > 0
	var env Env
	for i := range p.Ops {
		if p.Ops[i].K == "coord" {
			env = p.Ops[i].env()
		}
	}
	r.Sample = fmt.Sprintf("%s, power %d, %d constraints:", p.Tmpl, power, n)
	for _, op := range p.Ops {
		switch op.K {
		case "p1", "p2", "net", "part", "slow":
			r.Sample += " " + op.K + ":" + op.str(0)
		case "cmd":
			r.Sample += " cmd:" + op.F[0].Kind + "-" + op.F[0].Act
		}
	}

	// Phase 1
	d := r.Dir("coord1")
	if p.Tmpl == "transformed" {
		x := randExps(rng)
		writeFile(d, "in.ptau", ptau(power+1, x, rng))
		c.insist(d, env, "p1t", "in.ptau", "0.ph1", fmt.Sprint(power+1), fmt.Sprint(power))
		c.c1 = newChain1(power, x, true)
		c.origin = readFile(d, "0.ph1")
	} else {
		c.insist(d, env, "p1n", fmt.Sprint(power), "0.ph1")
		c.c1 = newChain1(power, unitExps(), false)
	}
	c.cur = readFile(d, "0.ph1")
	if !bytes.Equal(c.cur, c.c1.file(0)) {
		r.fail("bad-initial-file", "the phase-1 file to start from is wrong")
	}
	r.dropDir(d)
	c.contributions(1, "p1")
	if c.c1 != nil {
		if f := c.c1.file(len(c.ledger)); !bytes.Equal(f, c.cur) {
			r.fail("secrets-missing", "the final phase-1 file isn't made with the product of all contributors' secrets: %s", firstDiff(f, c.cur))
		}
	}
	r.Oracles++

	// Phase 2
	d = r.DirWith("coord2", map[string][]byte{"last.ph1": c.cur})
	part := 1 + p.get("seedx")%7
	if part < 1 {
		part = 1
	}
	nbR1C := cir.CS.GetNbR1C()
	if split {
		for k, b := range r.dump(p, false, part) {
			writeFile(d, k, b)
		}
		c.insist(d, env, "p2np", "last.ph1", "s", "0.ph2", fmt.Sprint(n), fmt.Sprint(nbR1C), fmt.Sprint(part))
	} else {
		writeFile(d, "c.r1cs", cir.Bytes)
		c.insist(d, env, "p2n", "last.ph1", "c.r1cs", "0.ph2")
	}
	c.cur = readFile(d, "0.ph2")
	c.origin = c.cur
	var q *QAP
	if c.c1 != nil {
		q = NewQAP(cir.CS, c.c1.last())
		if err := q.checkInit(Snapshot(d), "0.ph2"); err != nil {
			r.fail("wrong-parameters", "%v", err)
		}
		c.c2 = chainOf(q)
	} else {
		r.probe("phase-1 secrets unknown")
	}
	c.contributions(2, "p2")
	var delta *Fr
	if c.c2 != nil {
		x := c.c2.last()
		delta = &x
		want, err := parseP2(c.c2.file(len(c.ledger)))
		got, err2 := parseP2(c.cur)
		if err != nil || err2 != nil {
			r.fail("bad-layout", "the final phase-2 file: %v %v", err, err2)
		}
		pts, err := got.points() // infinity has several encodings
		if err != nil {
			r.fail("bad-layout", "the final phase-2 file: %v", err)
		}
		if want.H != got.H || !bytes.Equal(want.params(), pts.bytes()) {
			r.fail("secrets-missing", "the final phase-2 file isn't made with the product of all contributors' secrets: %s", where2(want, want.params(), pts.bytes()))
		}
	}
	r.Oracles++

	// Keys
	writeFile(d, "last.ph2", c.cur)
	defer r.dropDir(d)
	var prove prover
	vk := "vk"
	if split {
		c.insist(d, env, "keys", "last.ph2", "s")
		c.insist(d, env, "sol", "s")
		vk = "s.vk.save"
		os.Chdir(d)
		prove = func(w witness.Witness) (groth16.Proof, error) {
			cs, err := loadSplit("s", nbR1C, part)
			if err != nil {
				return nil, err
			}
			pks, err := groth16.ReadSegmentProveKey(ecc.BN254, "s")
			if err != nil {
				return nil, err
			}
			return groth16.ProveRoll(cs, pks[0], pks[1], w, "s")
		}
	} else {
		c.insist(d, env, "key", "last.ph2")
		prove = func(w witness.Witness) (groth16.Proof, error) {
			pk := groth16.NewProvingKey(ecc.BN254)
			if _, err := pk.ReadFrom(bytes.NewReader(readFile(d, "pk"))); err != nil {
				return nil, err
			}
			return groth16.Prove(cir.CS, pk, w)
		}
	}
	files := Snapshot(d)
	if q != nil && delta != nil {
		var err error
		if split {
			if err = q.checkSplit(files, "s", delta); err == nil {
				err = q.checkSol(string(files["s.sol"]), delta)
			}
		} else {
			err = q.checkMono(files, delta)
		}
		if err != nil {
			r.fail("wrong-keys", "%v", err)
		}
	}
	if q == nil {
		q = NewQAP(cir.CS, randExps(rng)) // only to tell which public inputs occur
	}
	os.Chdir(d)
	done, err := r.checkProofs(cir, q, prove, files[vk], rng, 1)
	if err != nil {
		r.fail("keys-do-not-work", "%v", err)
	}
	if done == 0 {
		r.probe("no satisfying witness found")
	}
	r.NonTriv = len(c.ledger) > 0
}

func init() {
	register(&Prop{ID: "C18", Quick: 800, Thorough: 8000, Gen: genC18, Exec: execC18,
		Rule:   "a run is one whole ceremony in virtual time: a coordinator and up to 5 contributors per phase on a simulated network with losses, duplicates, delays, damage and partitions, slow nodes, crashes and storage and entropy faults inside commands, and cheating contributors, from initialisation to proofs with the final keys; non-trivial if a phase-2 contribution was accepted",
		Assume: []string{"contributors' attestations are public and can't be forged by others", "the coordinator compares the listed hashes with the attested ones, as the README asks", "each circuit's phase 2 has a directory of its own", "circuits of up to 8 (quick) or 24 (thorough) generated gates"}})
}
