// Package ssync shadows sync for the code under simulation.
package ssync

import (
	"MODULE/internal/verifsim/simrt"
)

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	simrt.Y()
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
}
func (w *WaitGroup) Done() {
	if simrt.Killed() {
		return
	}
	w.Add(-1)
}
func (w *WaitGroup) Wait() { simrt.Yield(); simrt.Block(func() bool { return w.n == 0 }, false) }
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	simrt.Go(func() { defer w.Done(); f() })
}

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	simrt.Yield()
	simrt.Block(func() bool { return !m.locked }, false)
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	simrt.Yield()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	if simrt.Killed() {
		return
	}
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	simrt.Y()
}

type Locker interface {
	Lock()
	Unlock()
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	simrt.Yield()
	simrt.Block(func() bool { return !m.w && m.r == 0 }, false)
	m.w = true
}
func (m *RWMutex) Unlock() {
	if simrt.Killed() {
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	simrt.Y()
}
func (m *RWMutex) RLock() {
	simrt.Yield()
	simrt.Block(func() bool { return !m.w }, false)
	m.r++
}
func (m *RWMutex) RUnlock() {
	if simrt.Killed() {
		return
	}
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	simrt.Y()
}
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Cond struct {
	L Locker
	q []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	b := new(bool)
	c.q = append(c.q, b)
	c.L.Unlock()
	simrt.Block(func() bool { return *b }, false)
	c.L.Lock()
}
func (c *Cond) Signal() {
	simrt.Y()
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
}
func (c *Cond) Broadcast() {
	simrt.Y()
	for _, b := range c.q {
		*b = true
	}
	c.q = nil
}

// Pool mostly gives back what was put last, which is what shows a value that is
// used after having been put; now and then it misses, as it legally may.
type Pool struct {
	New func() interface{}
	l   []interface{}
}

func (p *Pool) Get() interface{} {
	simrt.Y()
	if k := len(p.l); k > 0 && simrt.Coin()%4 != 0 {
		x := p.l[k-1]
		p.l = p.l[:k-1]
		return x
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x interface{}) {
	if x != nil && !simrt.Killed() {
		p.l = append(p.l, x)
		simrt.Y()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
