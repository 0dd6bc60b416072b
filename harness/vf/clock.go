package zzvf

import "time"

// Virtual clock, in whole seconds from Epoch plus nanoseconds.
const Epoch = 1600000127

type Ticker struct {
	C       <-chan time.Time
	c       chan time.Time
	period  int64 // seconds (rounded up), 0: one shot
	next    int64
	stopped bool
	f       func()
}

type Timer = Ticker

var (
	clockSec int64
	tickers  []*Ticker
)

func resetClock() { clockSec, tickers = 0, nil }

func nowTime() time.Time { return time.Unix(Epoch+clockSec, 0) }

func Now() time.Time {
	SchedPoint()
	return nowTime()
}
func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

func secs(d time.Duration) int64 { return int64((d + time.Second - 1) / time.Second) }

func NewTicker(d time.Duration) *Ticker {
	if d <= 0 {
		panic("non-positive interval for NewTicker")
	}
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, period: secs(d), next: clockSec + secs(d)}
	tickers = append(tickers, t)
	return t
}
func Tick(d time.Duration) <-chan time.Time { return NewTicker(d).C }
func NewTimer(d time.Duration) *Ticker {
	c := make(chan time.Time, 1)
	t := &Ticker{C: c, c: c, next: clockSec + secs(d)}
	tickers = append(tickers, t)
	return t
}
func After(d time.Duration) <-chan time.Time { return NewTimer(d).C }
func AfterFunc(d time.Duration, f func()) *Ticker {
	t := NewTimer(d)
	t.f = f
	return t
}
func (t *Ticker) Stop() bool {
	was := !t.stopped
	t.stopped = true
	return was
}
func (t *Ticker) Reset(d time.Duration) bool {
	was := !t.stopped
	t.stopped = false
	if t.period > 0 {
		t.period = secs(d)
	}
	t.next = clockSec + secs(d)
	return was
}
func Sleep(d time.Duration) {
	end := clockSec + secs(d)
	SchedPoint()
	WaitUntil(func() bool { return clockSec >= end })
}

// SetClock moves the clock without delivering ticks
func SetClock(sec int64) { clockSec = sec }

func Clock() int64 { return clockSec }

// Deliver makes every running ticker tick now, whatever its period
func Deliver() {
	for _, t := range tickers {
		if !t.stopped {
			fire(t)
		}
	}
}

func fire(t *Ticker) {
	if t.period == 0 {
		t.stopped = true
	}
	if t.f != nil {
		f := t.f
		Go(f)
		return
	}
	if len(t.c) == 0 {
		t.c <- nowTime()
	}
}

// Advance moves the clock second by second; tickers tick when due and the
// other tasks run after each second.
func Advance(n int) {
	for i := 0; i < n; i++ {
		clockSec++
		for _, t := range tickers {
			if !t.stopped && t.next <= clockSec {
				t.next = clockSec + t.period
				fire(t)
			}
		}
		Settle()
	}
}
