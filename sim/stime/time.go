// Package stime stands in for package time inside the simulation: every clock
// and timer reads simulated time.
package stime

import (
	"time"

	"verif.local/sim/simrt"
)

type (
	Duration   = time.Duration
	Time       = time.Time
	Month      = time.Month
	Weekday    = time.Weekday
	Location   = time.Location
	ParseError = time.ParseError
)

const (
	Nanosecond  = time.Nanosecond
	Microsecond = time.Microsecond
	Millisecond = time.Millisecond
	Second      = time.Second
	Minute      = time.Minute
	Hour        = time.Hour
	RFC3339     = time.RFC3339
	RFC3339Nano = time.RFC3339Nano
)

var UTC = time.UTC

func Unix(s, n int64) Time                     { return time.Unix(s, n) }
func ParseDuration(s string) (Duration, error) { return time.ParseDuration(s) }

func Now() Time {
	if simrt.S == nil {
		return time.Unix(1_600_000_000, 0)
	}
	return time.Unix(1_600_000_000, simrt.S.Now())
}
func Since(t Time) Duration { return Now().Sub(t) }
func Until(t Time) Duration { return t.Sub(Now()) }

func Sleep(d Duration) {
	if s := simrt.SyncPoint(); s != nil {
		s.Sleep(int64(d))
	}
}

func After(d Duration) <-chan Time { return NewTimer(d).C }

type Timer struct {
	C      <-chan Time
	c      chan Time
	cancel func() bool
	f      func()
}

func (t *Timer) arm(d Duration) {
	s := simrt.S
	t.cancel = s.At(int64(d), func() {
		if t.f != nil {
			f := t.f
			s.Spawn("timer", f).Daemon = true
			return
		}
		s.Spawn("timer", func() {
			simrt.Select(true, simrt.CaseSend(t.c)(Now()))
		}).Daemon = true
	})
}

func NewTimer(d Duration) *Timer {
	c := make(chan Time, 1)
	t := &Timer{C: c, c: c}
	t.arm(d)
	return t
}

func AfterFunc(d Duration, f func()) *Timer {
	t := &Timer{f: f}
	t.arm(d)
	return t
}

func (t *Timer) Stop() bool { simrt.SyncPoint(); return t.cancel() }
func (t *Timer) Reset(d Duration) bool {
	simrt.SyncPoint()
	was := t.cancel()
	t.arm(d)
	return was
}

type Ticker struct {
	C    <-chan Time
	stop bool
	d    Duration
	c    chan Time
}

func NewTicker(d Duration) *Ticker {
	c := make(chan Time, 1)
	t := &Ticker{C: c, c: c, d: d}
	var arm func()
	n := 0
	arm = func() {
		simrt.S.At(int64(t.d), func() {
			if t.stop || n > 10000 {
				return
			}
			n++
			simrt.S.Spawn("tick", func() { simrt.Select(true, simrt.CaseSend(t.c)(Now())) }).Daemon = true
			arm()
		})
	}
	arm()
	return t
}
func (t *Ticker) Stop()            { t.stop = true }
func (t *Ticker) Reset(d Duration) { t.d = d }
func Tick(d Duration) <-chan Time  { return NewTicker(d).C }
