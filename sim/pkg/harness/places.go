package harness

import (
	"bytes"
	"os"
	"path/filepath"
	"strings"
	"time"
)

// What else a command may meet: its outputs exist already and are longer, and
// its files lie elsewhere than in the directory it runs in.

// roams lists the properties whose runs do that.
var roams = map[string]bool{"C01": true, "C02": true, "C05": true, "C06": true, "C07": true, "C10": true, "C11": true, "C17": true, "C18": true}

func roam(p *Plan, r *Rng) {
	if !roams[p.Prop] {
		return
	}
	for i := range p.Ops {
		e := p.Ops[i].Env
		if e == nil {
			continue
		}
		if r.P(1, 4) {
			e.Stale = r.U() | 1
		}
		if r.P(1, 3) {
			e.Paths = 1 + r.N(4)
			if r.P(1, 2) {
				e.Paths = 5 + r.N(len(oddNames))
			}
		}
	}
}

// argFiles tells which arguments name inputs, the output, and a session.
func argFiles(args []string) (in []int, out, session int) {
	out, session = -1, -1
	at := func(i int) int {
		if i < len(args) {
			return i
		}
		return -1
	}
	switch args[0] {
	case "p1n":
		out = at(2)
	case "p1c", "p2c", "p1t":
		in, out = []int{1}, at(2)
	case "p1v", "key":
		in = []int{1}
	case "p1vt", "p2v":
		in = []int{1, 2}
	case "p2n":
		in, out = []int{1, 2}, at(3)
	case "p2np":
		in, out, session = []int{1}, at(3), at(2)
	case "keys":
		in, session = []int{1}, at(2)
	case "sol":
		session = at(1)
	}
	for _, i := range in {
		if i >= len(args) {
			in = nil
		}
	}
	return
}

// outputsOf lists the files a command writes.
func outputsOf(args []string) []string {
	_, out, session := argFiles(args)
	var l []string
	if out > 0 {
		l = append(l, args[out])
	}
	switch args[0] {
	case "p2n", "p2np":
		l = append(l, "evals", "srs.lag")
	case "key":
		l = append(l, "pk", "vk")
	case "keys":
		if session > 0 {
			for _, x := range []string{"E", "A", "B1", "Z", "K", "B2", "CommitmentKey"} {
				l = append(l, args[session]+".pk."+x+".save")
			}
			l = append(l, args[session]+".vk.save")
		}
	case "sol":
		if session > 0 {
			l = append(l, args[session]+".sol")
		}
	}
	return l
}

// litter puts old files where the command is going to write. The function it
// returns removes what the command left as it was.
func (r *Run) litter(dir string, seed uint64, args []string) func() {
	rng := NewRng(seed, "stale")
	old := map[string][]byte{}
	var input []byte
	if in, _, _ := argFiles(args); len(in) > 0 {
		input = readFile(dir, args[in[0]])
	}
	// Older than all inputs, or newer; and how to tell that one wasn't touched.
	stamp := time.Unix([]int64{400000000, 2400000000}[rng.N(2)], 0)
	twin := map[string][]byte{}
	if rng.P(1, 3) {
		twin = r.twin(dir, rng, args)
	}
	for _, n := range outputsOf(args) {
		if strings.ContainsRune(n, '/') {
			continue
		}
		if _, err := os.Lstat(filepath.Join(dir, n)); err == nil {
			continue
		}
		var b []byte
		switch rng.N(4) {
		case 0:
			b = rng.Bytes(1 + rng.N(100))
		case 1:
			b = rng.Bytes(20000 + rng.N(20000))
		case 2:
			b = append(append(b, input...), rng.Bytes(rng.N(3000))...)
		default:
			b = append(append(b, input...), input...)
		}
		if t, ok := twin[n]; ok {
			b = t
		}
		old[n] = b
		writeFile(dir, n, b)
		if err := os.Chtimes(filepath.Join(dir, n), stamp, stamp); err != nil {
			panic(harnessErr{err})
		}
	}
	return func() {
		for n, b := range old {
			fi, err := os.Lstat(filepath.Join(dir, n))
			if err == nil && fi.ModTime().Equal(stamp) && bytes.Equal(readFile(dir, n), b) {
				os.Remove(filepath.Join(dir, n))
			}
		}
	}
}

// twin returns what the command writes when its main input is that of another
// ceremony of the same shape.
func (r *Run) twin(dir string, rng *Rng, args []string) map[string][]byte {
	verb := map[string]string{"p1c": "p1c", "p2n": "p1c", "p2np": "p1c", "p2c": "p2c", "key": "p2c", "keys": "p2c"}[args[0]]
	in, _, _ := argFiles(args)
	if verb == "" || len(in) == 0 {
		return nil
	}
	files, size := Snapshot(dir), 0
	for _, b := range files {
		size += len(b)
	}
	name := args[in[0]]
	if _, ok := files[name]; !ok || size > 1<<19 {
		return nil
	}
	d := r.DirWith("twin", files)
	defer func() {
		r.dropDir(d)
		if err := os.Chdir(dir); err != nil {
			panic(harnessErr{err})
		}
	}()
	if !r.Exec(d, calmEnv(rng), nil, verb, name, "twin.tmp").OK() {
		return nil
	}
	if err := os.Rename(filepath.Join(d, "twin.tmp"), filepath.Join(d, name)); err != nil {
		panic(harnessErr{err})
	}
	if !r.Exec(d, calmEnv(rng), nil, args...).OK() {
		return nil
	}
	m := map[string][]byte{}
	for _, n := range outputsOf(args) {
		m[n] = readFile(d, n)
	}
	r.probe("outputs of another ceremony present")
	return m
}

// elsewhere moves the command's files to other directories, and back when it
// has ended.
func (r *Run) elsewhere(dir string, how int, args []string) ([]string, func()) {
	in, out, session := argFiles(args)
	q := append([]string(nil), args...)
	plain := func(n string) bool { return n != "" && !strings.ContainsRune(n, '/') }
	ok := func(err error) {
		if err != nil {
			panic(harnessErr{err})
		}
	}
	type move struct{ home, away string }
	var moves []move
	var links []string
	from, to := "in put", "öut.d"
	pre := ""
	switch how {
	case 2: // absolute, by a name that doesn't depend on where the run is
		pre = "/proc/self/cwd/"
	case 3:
		pre = "./" + to + "/../"
	}
	away := func(d, n string) string { return d + "/" + n }
	if how >= 5 { // the same directory, but names that mean something elsewhere
		r.probe("odd names")
		away = func(d, n string) string { return oddName(how-5, n) }
	}
	ok(os.MkdirAll(filepath.Join(dir, from), 0755))
	ok(os.MkdirAll(filepath.Join(dir, to), 0755))
	seen := map[string]bool{}
	for _, i := range in {
		n := args[i]
		fi, err := os.Lstat(filepath.Join(dir, n))
		if !plain(n) || err != nil || !fi.Mode().IsRegular() {
			continue
		}
		there := away(from, n)
		if !seen[n] {
			seen[n] = true
			ok(os.Rename(filepath.Join(dir, n), filepath.Join(dir, there)))
			moves = append(moves, move{n, there})
			if how == 4 { // a link to it stays
				ok(os.Symlink(there, filepath.Join(dir, n)))
				links = append(links, n)
			}
		}
		if how != 4 {
			q[i] = pre + there
		}
	}
	if out > 0 && plain(args[out]) && !seen[args[out]] {
		n := args[out]
		if _, err := os.Lstat(filepath.Join(dir, n)); err == nil {
			ok(os.Rename(filepath.Join(dir, n), filepath.Join(dir, away(to, n))))
		}
		q[out] = pre + away(to, n)
		moves = append(moves, move{n, away(to, n)})
	}
	sess, far := "", ""
	if session > 0 && plain(args[session]) && how != 4 {
		s := args[session]
		es, err := os.ReadDir(dir)
		ok(err)
		for _, e := range es {
			if strings.HasPrefix(e.Name(), s+".") && e.Type().IsRegular() && !seen[e.Name()] {
				ok(os.Rename(filepath.Join(dir, e.Name()), filepath.Join(dir, away(from, s)+e.Name()[len(s):])))
			}
		}
		q[session] = pre + away(from, s)
		if how >= 5 {
			sess, far = s, away(from, s)
		}
	}
	return q, func() {
		for _, n := range links {
			ok(os.Remove(filepath.Join(dir, n)))
		}
		for _, m := range moves {
			if _, err := os.Lstat(filepath.Join(dir, m.away)); err == nil {
				ok(os.Rename(filepath.Join(dir, m.away), filepath.Join(dir, m.home)))
			}
		}
		if sess != "" {
			es, err := os.ReadDir(dir)
			ok(err)
			for _, e := range es {
				if strings.HasPrefix(e.Name(), far+".") {
					ok(os.Rename(filepath.Join(dir, e.Name()), filepath.Join(dir, sess+e.Name()[len(far):])))
				}
			}
		}
		for _, d := range []string{from, to} {
			es, err := os.ReadDir(filepath.Join(dir, d))
			ok(err)
			for _, e := range es {
				ok(os.Rename(filepath.Join(dir, d, e.Name()), filepath.Join(dir, e.Name())))
			}
			ok(os.Remove(filepath.Join(dir, d)))
		}
	}
}

// oddNames are names with characters that mean something to shells, patterns,
// formats and programs that take names apart; # stands for the plain name.
var oddNames = []string{"%d%s-#", "a.b.#.v2", "[x]#", "*#?", "~#", "$HOME #", "# ", "#.r1cs", "#.pk.E.save", "LONG#", "{a,b}#", "é\u0301\\#", "#.tmp"}

func oddName(i int, n string) string {
	o := oddNames[i%len(oddNames)]
	o = strings.Replace(o, "LONG", strings.Repeat("x", 200), 1)
	return strings.Replace(o, "#", n, 1)
}
