// Package stime shadows time for the code under simulation: the clock is the
// simulated process's step count, plus the time in which every task waited.
package stime

import (
	"time"

	"MODULE/internal/verifsim/simrt"
)

var base = time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)

func Now() time.Time                  { return base.Add(simrt.Clock()) }
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func Sleep(d time.Duration) {
	if d <= 0 || !simrt.Active() {
		simrt.Yield()
		return
	}
	over := false
	var t simrt.Timer
	t.Start(d, 0, func() { over = true })
	simrt.Block(func() bool { return over }, false)
}

// Timer is time.Timer.
type Timer struct {
	C    <-chan time.Time
	t    simrt.Timer
	fire func()
}

func NewTimer(d time.Duration) *Timer {
	c := make(chan time.Time, 1)
	t := &Timer{C: c, fire: func() { simrt.TimerSend(c, Now()) }}
	t.t.Start(d, 0, t.fire)
	return t
}
func AfterFunc(d time.Duration, f func()) *Timer {
	t := &Timer{fire: func() { simrt.Spawn(f) }}
	t.t.Start(d, 0, t.fire)
	return t
}
func (t *Timer) Stop() bool { return t.t.Stop() }
func (t *Timer) Reset(d time.Duration) bool {
	was := t.t.Stop()
	t.t.Start(d, 0, t.fire)
	return was
}
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }

// Ticker is time.Ticker.
type Ticker struct {
	C    <-chan time.Time
	t    simrt.Timer
	fire func()
}

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, fire: func() { simrt.TimerSend(c, Now()) }}
	t.t.Start(d, d, t.fire)
	return t
}
func (t *Ticker) Stop() { t.t.Stop() }
func (t *Ticker) Reset(d time.Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.t.Start(d, d, t.fire)
}
func Tick(d time.Duration) <-chan time.Time {
	if d <= 0 {
		return nil
	}
	return NewTicker(d).C
}
