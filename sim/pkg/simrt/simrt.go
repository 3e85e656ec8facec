// Package simrt is the cooperative scheduler the instrumented code runs on.
// One task runs at a time; at every scheduling point a seeded choice (or an
// explicit trace) decides who continues.
package simrt

import (
	"fmt"
	"hash/fnv"
	"math"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"time"
)

// ---------------------------------------------------------------- choices

// Dev is one recorded decision that differs from the default (stay on the
// current task if it can run, otherwise the lowest runnable task).
type Dev struct {
	At   uint64 `json:"at"`
	Task int    `json:"task"`
}

// Sched describes how decisions are made in one run.
type Sched struct {
	Policy string `json:"policy"`          // "default", "random", "pct", "trace"
	Seed   uint64 `json:"seed,omitempty"`  // of the decisions
	Rate   uint64 `json:"rate,omitempty"`  // random: preempt once in Rate points
	Depth  int    `json:"depth,omitempty"` // pct: priority changes
	Trace  []Dev  `json:"trace,omitempty"` // trace: explicit deviations
}

// Config of one simulated process.
type Config struct {
	CPUs  int    // what runtime.NumCPU reports
	Batch int    // value of the batch-size knobs (0: as shipped)
	Buf   int    // default buffer size of bufio (0: as shipped)
	Cap   uint64 // step limit
	Sched Sched
}

// Result of one simulated process.
type Result struct {
	Kind     string // "exit", "panic", "crash", "deadlock", "steplimit"
	Code     int
	Panic    string
	Steps    uint64 // scheduling points passed
	Switches uint64
	Tasks    int
	MaxLive  int
	Hash     uint64 // of the interleaving
	Devs     []Dev
	Blocked  uint64
}

type task struct {
	id      int
	wake    chan struct{}
	cond    func() bool // non-nil: blocked until true
	done    bool
	prio    uint64
	started bool
	fn      func()
	ext     bool // waiting on something outside the simulation
}

type sched struct {
	coins    uint64
	cfg      Config
	tasks    []*task // live, by id
	cur      *task
	nextID   int
	dec      uint64
	rng      uint64
	changes  []uint64
	trace    map[uint64]int
	killed   bool
	res      Result
	finished chan struct{}
	hash     uint64
	low      uint64
	chans    map[uintptr]*chanState
	keep     []interface{}
	timers   []*Timer
	timerSeq uint64
	idles    int
	fired    uint64
}

type killSentinel struct{}

var (
	s     *sched
	steps uint64
	next  uint64 = math.MaxUint64
	// KillHook is called once when the process dies, before anything unwinds.
	KillHook func()
)

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// Coin is a repeatable number for choices other than those of the scheduler.
func Coin() uint64 {
	if s == nil {
		return 1
	}
	s.coins++
	return mix(s.coins * 0x9e3779b97f4a7c15)
}

func (s *sched) rand() uint64 { s.rng++; return mix(s.rng * 0x9e3779b97f4a7c15) }

// Active reports whether a simulated process is running.
func Active() bool { return s != nil }

// Killed reports whether the running process is dead (only unwinding remains).
func Killed() bool { return s != nil && s.killed }

// Steps is the number of scheduling points passed so far by the process.
func Steps() uint64 { return steps }

// Run executes fn as the main function of a simulated process.
func Run(cfg Config, fn func()) Result {
	if cfg.CPUs <= 0 {
		cfg.CPUs = 4
	}
	if cfg.Cap == 0 {
		cfg.Cap = 200000000
	}
	n := &sched{cfg: cfg, rng: mix(cfg.Sched.Seed), finished: make(chan struct{}), chans: map[uintptr]*chanState{}}
	h := fnv.New64a()
	n.hash = h.Sum64()
	if cfg.Sched.Policy == "trace" {
		n.trace = map[uint64]int{}
		for _, d := range cfg.Sched.Trace {
			n.trace[d.At] = d.Task
		}
	}
	n.low = 1 << 62
	s = n
	steps, jumped = 0, 0
	root := n.newTask(fn)
	n.cur = root
	n.res.Kind = "exit"
	n.setNext()
	n.start(root)
	<-n.finished
	next = math.MaxUint64
	s = nil
	n.res.Steps = steps
	n.res.Hash = n.hash
	n.res.Tasks = n.nextID
	return n.res
}

func (n *sched) newTask(fn func()) *task {
	t := &task{id: n.nextID, wake: make(chan struct{}, 1), fn: fn}
	n.nextID++
	t.prio = 1<<40 + n.rand()%(1<<40)
	n.tasks = append(n.tasks, t)
	if len(n.tasks) > n.res.MaxLive {
		n.res.MaxLive = len(n.tasks)
	}
	return t
}

func (n *sched) setNext() {
	if n.killed || len(n.tasks) > 1 {
		next = 0
	} else {
		next = n.cfg.Cap
	}
}

func (n *sched) start(t *task) {
	t.started = true
	go func() {
		defer n.end(t)
		if n.killed {
			return
		}
		t.fn()
	}()
}

// end runs when a task's function returned or panicked.
func (n *sched) end(t *task) {
	if e := recover(); e != nil {
		if _, ok := e.(killSentinel); !ok && !n.killed {
			n.res.Kind, n.res.Code = "panic", 2
			n.res.Panic = fmt.Sprint(e) + "\n" + string(debug.Stack())
			n.die()
		}
	} else if t.id == 0 && !n.killed {
		n.die() // main returned: the process ends
	}
	t.done = true
	for i, x := range n.tasks {
		if x == t {
			n.tasks = append(n.tasks[:i:i], n.tasks[i+1:]...)
			break
		}
	}
	n.setNext()
	if len(n.tasks) == 0 {
		close(n.finished)
		return
	}
	if x := n.pick(nil); x != nil {
		n.resume(x)
		return
	}
}

// die marks the process dead.
func (n *sched) die() {
	if n.killed {
		return
	}
	n.killed = true
	if KillHook != nil {
		KillHook()
	}
	next = 0
}

// Exit ends the process like os.Exit.
func Exit(code int) {
	if s == nil {
		panic("verif: exit outside the simulation")
	}
	if !s.killed {
		s.res.Kind, s.res.Code = "exit", code
		s.die()
	}
	panic(killSentinel{})
}

// Crash ends the process at once (kill -9 or power loss).
func Crash(kind string) {
	if !s.killed {
		s.res.Kind, s.res.Code = kind, -1
		s.die()
	}
	panic(killSentinel{})
}

// CheckAlive unwinds a task of a dead process.
func CheckAlive() {
	if s != nil && s.killed {
		panic(killSentinel{})
	}
}

func (n *sched) resume(t *task) {
	n.cur = t
	if !t.started {
		n.start(t)
		return
	}
	t.wake <- struct{}{}
}

// runnable lists the tasks that can run, by id.
func (n *sched) runnable() []*task {
	var r []*task
	for _, t := range n.tasks {
		if n.killed || t.cond == nil || t.cond() {
			r = append(r, t)
		}
	}
	return r
}

// pick chooses the task to run next; cur is the current task if it may go on.
func (n *sched) pick(cur *task) *task {
	n.dec++
	if n.killed {
		if len(n.tasks) > 0 {
			return n.tasks[0]
		}
		return nil
	}
	n.due()
	run := n.runnable()
	for i := 0; len(run) == 0; i++ {
		if n.idle() {
			i = 0
			run = n.runnable()
			continue
		}
		ext := false
		for _, t := range n.tasks {
			ext = ext || t.ext
		}
		if ext && i < 2000 { // a channel fed from outside the instrumented code
			time.Sleep(time.Millisecond)
			run = n.runnable()
			continue
		}
		n.res.Kind, n.res.Code = "deadlock", 2
		n.die()
		return n.tasks[0]
	}
	def := run[0]
	if cur != nil {
		for _, t := range run {
			if t == cur {
				def = cur
			}
		}
	}
	ch := def
	switch n.cfg.Sched.Policy {
	case "trace":
		if id, ok := n.trace[n.dec]; ok {
			for _, t := range run {
				if t.id == id {
					ch = t
				}
			}
		}
	case "random":
		ch = run[n.rand()%uint64(len(run))]
	case "pct":
		for _, t := range run {
			if t.prio > ch.prio {
				ch = t
			}
		}
	}
	if ch != def && len(n.res.Devs) < 200000 {
		n.res.Devs = append(n.res.Devs, Dev{n.dec, ch.id})
	}
	if ch != cur {
		n.res.Switches++
		n.hash = mix(n.hash ^ uint64(ch.id)<<32 ^ n.dec)
	}
	return ch
}

// Y is a scheduling point.
func Y() {
	steps++
	if steps >= next {
		slow()
	}
}

func slow() {
	n := s
	if n == nil {
		return
	}
	if n.killed {
		panic(killSentinel{})
	}
	if steps >= n.cfg.Cap {
		n.res.Kind, n.res.Code = "steplimit", -1
		n.die()
		panic(killSentinel{})
	}
	// Decide cheaply whether this point is a decision.
	switch n.cfg.Sched.Policy {
	case "random":
		if n.cfg.Sched.Rate > 1 && n.rand()%n.cfg.Sched.Rate != 0 {
			n.dec++
			return
		}
	case "pct":
		if n.cfg.Sched.Rate > 0 && n.rand()%n.cfg.Sched.Rate == 0 && n.cfg.Sched.Depth > 0 {
			n.cfg.Sched.Depth--
			n.low--
			n.cur.prio = n.rand() % (1 << 30)
		}
	case "trace":
		if _, ok := n.trace[n.dec+1]; !ok {
			n.dec++
			return
		}
	default:
		n.dec++
		return
	}
	n.switchTo(n.pick(n.cur))
}

// Yield always offers the processor.
func Yield() {
	if s == nil {
		return
	}
	CheckAlive()
	if len(s.timers) > 0 {
		s.dec++
		s.due()
	}
	if len(s.tasks) > 1 {
		s.switchTo(s.pick(s.cur))
	}
}

func (n *sched) switchTo(t *task) {
	me := n.cur
	if t == me {
		if n.killed {
			panic(killSentinel{})
		}
		return
	}
	n.resume(t)
	<-me.wake
	if n.killed {
		panic(killSentinel{})
	}
}

// Block suspends the current task until cond holds.
func Block(cond func() bool, ext bool) {
	n := s
	if n == nil {
		for !cond() {
			runtime.Gosched()
		}
		return
	}
	CheckAlive()
	if cond() {
		return
	}
	n.res.Blocked++
	me := n.cur
	me.cond, me.ext = cond, ext
	n.switchTo(n.pick(me))
	me.cond, me.ext = nil, false
}

// Go starts a task.
func Go(fn func()) {
	if s == nil {
		go fn()
		return
	}
	CheckAlive()
	s.newTask(fn)
	s.setNext()
	Y()
}

// NumCPU is the number of processors of the simulated machine.
func NumCPU() int {
	if s == nil {
		return runtime.NumCPU()
	}
	return s.cfg.CPUs
}

// K returns the value of a batch-size knob whose shipped value is def.
func K(def int) int {
	if s != nil && s.cfg.Batch > 0 {
		return s.cfg.Batch
	}
	return def
}

// BufSize is the default buffer size of bufio readers and writers.
func BufSize() int {
	if s != nil && s.cfg.Buf > 0 {
		return s.cfg.Buf
	}
	return 4096
}

// ---------------------------------------------------------------- channels

type chanState struct {
	buf    []interface{}
	capa   int
	closed bool
	sendq  []*sudog // senders waiting (unbuffered or full)
	recvq  []*sudog // receivers waiting
}

type sudog struct {
	val  interface{}
	ok   bool
	done bool
	sel  *selState
	idx  int
}

type selState struct {
	fired bool
	idx   int
}

func (g *sudog) live() bool { return g.sel == nil || !g.sel.fired }
func (g *sudog) fire(v interface{}, ok bool) {
	g.val, g.ok, g.done = v, ok, true
	if g.sel != nil {
		g.sel.fired, g.sel.idx = true, g.idx
	}
}

func state(ch interface{}, capa int) *chanState {
	p := reflect.ValueOf(ch).Pointer()
	c := s.chans[p]
	if c == nil {
		c = &chanState{capa: capa}
		s.chans[p] = c
		s.keep = append(s.keep, ch) // keeps the address in use
	}
	return c
}

func popLive(q *[]*sudog) *sudog {
	for len(*q) > 0 {
		g := (*q)[0]
		*q = (*q)[1:]
		if !g.done && g.live() {
			return g
		}
	}
	return nil
}

func (c *chanState) trySend(v interface{}) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if g := popLive(&c.recvq); g != nil {
		g.fire(v, true)
		return true
	}
	if len(c.buf) < c.capa {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

func (c *chanState) tryRecv() (interface{}, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if g := popLive(&c.sendq); g != nil {
			c.buf = append(c.buf, g.val)
			g.fire(nil, true)
		}
		return v, true, true
	}
	if g := popLive(&c.sendq); g != nil {
		v := g.val
		g.fire(nil, true)
		return v, true, true
	}
	if c.closed {
		return nil, false, true
	}
	return nil, false, false
}

// Send returns the send operation of ch.
func Send[T any](ch chan<- T) func(T) {
	if s == nil {
		return func(v T) { ch <- v }
	}
	return func(v T) {
		Yield()
		if ch == nil {
			Block(func() bool { return false }, false)
		}
		c := state(ch, cap(ch))
		if c.trySend(v) {
			return
		}
		g := &sudog{val: v}
		c.sendq = append(c.sendq, g)
		Block(func() bool { return g.done || c.closed }, false)
		if !g.done {
			panic("send on closed channel")
		}
	}
}

// Recv receives from ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 receives from ch and reports whether a value came.
func Recv2[T any](ch <-chan T) (T, bool) {
	if s == nil {
		v, ok := <-ch
		return v, ok
	}
	var zero T
	Yield()
	if ch == nil {
		Block(func() bool { return false }, false)
	}
	c := state(ch, cap(ch))
	conv := func(v interface{}, ok bool) (T, bool) {
		if !ok || v == nil {
			return zero, ok
		}
		return v.(T), ok
	}
	if v, ok, done := c.tryRecv(); done {
		return conv(v, ok)
	}
	g := &sudog{}
	c.recvq = append(c.recvq, g)
	var ev T
	eok, ext := false, false
	Block(func() bool {
		if g.done || c.closed {
			return true
		}
		select {
		case ev, eok = <-ch:
			ext = true
			g.done = true
			return true
		default:
		}
		return false
	}, true)
	if ext {
		return ev, eok
	}
	if g.done {
		return conv(g.val, g.ok)
	}
	g.done = true
	v, ok, _ := c.tryRecv()
	return conv(v, ok)
}

// Close closes ch.
func Close[T any](ch chan<- T) {
	if s == nil {
		close(ch)
		return
	}
	if s.killed { // deferred close while unwinding
		return
	}
	Y()
	c := state(ch, cap(ch))
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	for {
		g := popLive(&c.recvq)
		if g == nil {
			break
		}
		g.fire(nil, false)
	}
}

// ChanLen is len(ch).
func ChanLen[T any](ch chan T) int {
	if s == nil {
		return len(ch)
	}
	return len(state(ch, cap(ch)).buf)
}

// SelCase is one case of a select.
type SelCase interface {
	try() bool
	wait(*selState, int) *sudog
	finish(*sudog)
	poll() bool
}

// RecvCase is a receive case.
type RecvCase[T any] struct {
	Val T
	Ok  bool
	ch  <-chan T
	c   *chanState
}

// SRecv makes a receive case.
func SRecv[T any](ch <-chan T) *RecvCase[T] {
	r := &RecvCase[T]{ch: ch}
	if s != nil && ch != nil {
		r.c = state(ch, cap(ch))
	}
	return r
}
func (r *RecvCase[T]) set(v interface{}, ok bool) {
	r.Ok = ok
	if ok && v != nil {
		r.Val = v.(T)
	}
}
func (r *RecvCase[T]) try() bool {
	if r.c == nil {
		return false
	}
	v, ok, done := r.c.tryRecv()
	if done {
		r.set(v, ok)
	}
	return done
}
func (r *RecvCase[T]) wait(st *selState, i int) *sudog {
	g := &sudog{sel: st, idx: i}
	if r.c != nil {
		r.c.recvq = append(r.c.recvq, g)
	}
	return g
}
func (r *RecvCase[T]) finish(g *sudog) { r.set(g.val, g.ok) }
func (r *RecvCase[T]) poll() bool {
	if r.ch == nil {
		return false
	}
	select {
	case v, ok := <-r.ch:
		r.Val, r.Ok = v, ok
		return true
	default:
		return false
	}
}

// SendCase is a send case.
type SendCase[T any] struct {
	v  T
	ch chan<- T
	c  *chanState
}

// SSend makes a send case.
func SSend[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] {
		r := &SendCase[T]{ch: ch, v: v}
		if s != nil && ch != nil {
			r.c = state(ch, cap(ch))
		}
		return r
	}
}
func (r *SendCase[T]) try() bool { return r.c != nil && r.c.trySend(r.v) }
func (r *SendCase[T]) wait(st *selState, i int) *sudog {
	g := &sudog{sel: st, idx: i, val: r.v}
	if r.c != nil {
		r.c.sendq = append(r.c.sendq, g)
	}
	return g
}
func (r *SendCase[T]) finish(*sudog) {}
func (r *SendCase[T]) poll() bool    { return r.c != nil && r.c.closed }

// Select runs a select statement and returns the index of the chosen case, or -1.
func Select(hasDefault bool, cases ...SelCase) int {
	if s == nil {
		panic("verif: select outside the simulation")
	}
	Yield()
	n := s
	order := make([]int, len(cases))
	for i := range order {
		order[i] = i
	}
	// The order depends on the seed and the place only, so that a trace replays it.
	key := make([]uint64, len(cases))
	for i := range key {
		key[i] = mix(n.cfg.Sched.Seed ^ n.dec<<8 ^ uint64(i))
	}
	sort.Slice(order, func(a, b int) bool { return key[order[a]] < key[order[b]] })
	for _, i := range order {
		if cases[i].try() || cases[i].poll() {
			return i
		}
	}
	if hasDefault {
		return -1
	}
	st := &selState{idx: -1}
	gs := make([]*sudog, len(cases))
	for i := range cases {
		gs[i] = cases[i].wait(st, i)
	}
	polled := -1
	Block(func() bool {
		if st.fired {
			return true
		}
		for i := range cases {
			if cases[i].poll() {
				polled = i
				st.fired = true
				return true
			}
		}
		return false
	}, true)
	if polled >= 0 {
		return polled
	}
	cases[st.idx].finish(gs[st.idx])
	return st.idx
}
