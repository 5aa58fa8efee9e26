// Package simtime replaces time: the clock is the simulator's.
package simtime

import (
	"time"

	"github.com/Harvey-OS/ninep/sim/simrt"
)

// Epoch is simulated time zero.
var Epoch = time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)

func Now() Time {
	if s := simrt.Cur(); s != nil {
		return Epoch.Add(s.Now)
	}
	return Epoch
}
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }
func Sleep(d Duration)      { simrt.Sleep(d) }

type Timer struct {
	C    <-chan Time
	c    chan Time
	f    func()
	gen  *int
	live *bool
}

func (t *Timer) start(d Duration) {
	*t.gen++
	g := *t.gen
	*t.live = true
	gen, live, c, f := t.gen, t.live, t.c, t.f
	simrt.Go("timer", func() {
		simrt.Sleep(d)
		if *gen != g || !*live {
			return
		}
		*live = false
		if f != nil {
			f()
			return
		}
		select {
		case c <- Now():
		default:
		}
	})
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c, gen: new(int), live: new(bool)}
	t.start(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f, gen: new(int), live: new(bool)}
	t.start(d)
	return t
}

func (t *Timer) Stop() bool {
	was := *t.live
	*t.live = false
	*t.gen++
	t.drain()
	return was
}

func (t *Timer) drain() {
	if t.c != nil {
		select {
		case <-t.c:
		default:
		}
	}
}

func (t *Timer) Reset(d Duration) bool {
	was := *t.live
	t.drain()
	t.start(d)
	return was
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

type Ticker struct {
	C   <-chan Time
	c   chan Time
	gen *int
}

func (t *Ticker) start(d Duration) {
	*t.gen++
	g, gen, c := *t.gen, t.gen, t.c
	simrt.Go("ticker", func() {
		for *gen == g {
			simrt.Sleep(d)
			if *gen != g {
				return
			}
			select {
			case c <- Now():
			default:
			}
		}
	})
}

func NewTicker(d Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, gen: new(int)}
	t.start(d)
	return t
}
func (t *Ticker) Stop() { *t.gen++ }
func (t *Ticker) Reset(d Duration) {
	if d <= 0 {
		panic("non-positive interval for Ticker.Reset")
	}
	t.start(d)
}
func Tick(d Duration) <-chan Time { return NewTicker(d).C }
