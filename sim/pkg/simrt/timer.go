package simrt

import "time"

// Timer is a timer of the simulated process. It fires when the process's clock
// has passed its time, or, the clock jumping forward, when every task waits.
type Timer struct {
	at     time.Duration
	period time.Duration
	seq    uint64
	fire   func()
	active bool
}

// clock jumps (time that passed while nothing ran).
var jumped time.Duration

// maxIdle bounds how often one process's clock jumps because all tasks wait.
const maxIdle = 20000

// Clock is the time since the process started.
func Clock() time.Duration { return jumped + time.Duration(steps)*time.Microsecond }

// Start arms t to fire after d, and every period from then on if it is not zero.
func (t *Timer) Start(d, period time.Duration, fire func()) {
	t.Stop()
	if s == nil || s.killed {
		return
	}
	if d < 0 {
		d = 0
	}
	s.timerSeq++
	t.at, t.period, t.seq, t.fire, t.active = Clock()+d, period, s.timerSeq, fire, true
	s.timers = append(s.timers, t)
}

// Stop disarms t and reports whether it was armed.
func (t *Timer) Stop() bool {
	was := t.active
	t.active = false
	if s != nil {
		for i, x := range s.timers {
			if x == t {
				s.timers = append(s.timers[:i:i], s.timers[i+1:]...)
				break
			}
		}
	}
	return was
}

func (n *sched) earliest() *Timer {
	var e *Timer
	for _, t := range n.timers {
		if e == nil || t.at < e.at || t.at == e.at && t.seq < e.seq {
			e = t
		}
	}
	return e
}

// due fires the timers whose time has come.
func (n *sched) due() {
	if len(n.timers) == 0 || n.killed {
		return
	}
	// Now and then the clock jumps to the next tick: computing takes long.
	if mix(n.cfg.Sched.Seed^n.dec*0x9e3779b97f4a7c15^0x71)%64 == 0 {
		ticks := true
		for _, t := range n.timers {
			ticks = ticks && t.period > 0
		}
		if ticks {
			n.jump()
		}
	}
	for i := 0; i < 1000; i++ {
		e := n.earliest()
		if e == nil || e.at > Clock() {
			return
		}
		if e.period > 0 {
			e.at += e.period
			if c := Clock(); e.at <= c { // ticks nobody took are dropped
				e.at = c + e.period
			}
		} else {
			e.Stop()
		}
		n.fired++
		e.fire()
	}
}

// jump moves the clock to the next timer.
func (n *sched) jump() {
	if e := n.earliest(); e != nil && e.at > Clock() {
		jumped += e.at - Clock()
	}
}

// idle lets time pass when every task waits; false if no timer is armed.
func (n *sched) idle() bool {
	if len(n.timers) == 0 || n.idles >= maxIdle {
		return false
	}
	n.idles++
	n.jump()
	n.due()
	return true
}

// TimerSend delivers v on a timer's channel unless one waits there already.
func TimerSend(ch chan time.Time, v time.Time) {
	if s != nil && !s.killed {
		state(ch, cap(ch)).trySend(v)
	}
}

// Spawn starts a task from a timer.
func Spawn(fn func()) {
	if s != nil && !s.killed {
		s.newTask(fn)
		s.setNext()
	}
}
