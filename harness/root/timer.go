package go808

import (
	vf "gitee.com/coco/go808/zzvf"
)

var vhAllKeys = []string{"1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12"}
var vhKeys = vhAllKeys[:3]

// vhTimer is a timer with the reference for what it must do
type vhTimer struct {
	t       *CountdownTimer
	period  int
	now     int
	expire  []int // per key
	active  []bool
	fired   []int // what the timer did
	want    []int
	unknown int
}

func vhNewTimer(period int) *vhTimer { return vhNewTimerOf(period, 3) }

func vhNewTimerOf(period, n int) *vhTimer {
	vf.Sched(0, false)
	vhKeys = vhAllKeys[:n]
	x := &vhTimer{period: period, expire: make([]int, n), active: make([]bool, n), fired: make([]int, n), want: make([]int, n)}
	x.t = NewCountdownTimer(int64(period), func(key string) {
		for i, k := range vhKeys {
			if k == key {
				x.fired[i]++
				return
			}
		}
		x.unknown++
	})
	vf.Settle()
	return x
}

func (x *vhTimer) update(i int) {
	x.t.Update(vhKeys[i])
	x.expire[i], x.active[i] = x.now+x.period, true
}

func (x *vhTimer) remove(i int) {
	x.t.Remove(vhKeys[i])
	x.active[i] = false
}

func (x *vhTimer) advance(d int) {
	x.now += d
	vf.SetClock(int64(x.now))
}

func (x *vhTimer) tick() {
	vf.Deliver()
	vf.Settle()
	for i := range vhKeys {
		if x.active[i] && x.expire[i] <= x.now {
			x.active[i] = false
			x.want[i]++
		}
		vf.Assert(x.fired[i] >= x.want[i], "a key whose time is over does not time out at the next check")
		vf.Assert(x.fired[i] <= x.want[i], "a key times out early, twice, or after it was removed")
	}
	vf.Assert(x.unknown == 0, "an unknown key times out")
}

// 3 keys updated in turn with arbitrary pauses of 0-20 s, then 2 (thorough: 3)
// of: updating a key again, removing a key, advancing the clock and checking,
// changing the period and updating a key;
// then a check at an arbitrary time, and one when everything is over. Period
// 1-10 s, arbitrary.
//
//vf:covers fired,quiet
func vhC23_keys() {
	x := vhNewTimer(vf.Range(1, 10))
	for i := range vhKeys {
		if i > 0 {
			x.advance(vf.Range(0, 20))
		}
		x.update(i)
	}
	for k := 0; k < vhDelays(2, 3); k++ {
		switch vf.Choose(4) {
		case 3:
			x.period = vf.Range(1, 10)
			x.t.SetExpiration(int64(x.period))
			x.update(vf.Choose(3))
		case 0:
			x.advance(vf.Range(0, 20))
			x.update(vf.Choose(3))
		case 1:
			x.remove(vf.Choose(3))
		case 2:
			x.advance(vf.Range(0, 20))
			x.tick()
		}
	}
	x.advance(vf.Range(0, 20))
	x.tick()
	if x.want[0]+x.want[1]+x.want[2] > 0 {
		vf.Cover("fired")
	} else {
		vf.Cover("quiet")
	}
	x.advance(1000)
	x.tick()
	x.advance(1000)
	x.tick()
}

// 12 keys updated at one second's distance, in order or in an order mixed up;
// then any key is updated again and any other removed or updated too (thorough:
// in addition any two further ones); a check every second
func vhC23_many() {
	n := 12
	x := vhNewTimerOf(15, n)
	step := []int{1, 5, 7, 11}[vf.Choose(4)]
	for i := 0; i < n; i++ {
		x.update(i * step % n)
		x.advance(1)
		x.tick()
	}
	a := vf.Choose(n)
	x.update(a)
	b := vf.Choose(n)
	if vf.Choose(2) == 1 {
		x.remove(b)
	} else {
		x.advance(1)
		x.tick()
		x.update(b)
	}
	if vf.Thorough() {
		x.remove(vf.Choose(n))
		x.update(vf.Choose(n))
	}
	for i := 0; i < 20; i++ {
		x.advance(1)
		x.tick()
	}
}

// two keys updated at any two times up to 2^33 s (beyond 2038 and 2106) from the
// start, any period up to 2^33 s, checked at any two times
func vhC23_far() {
	x := vhNewTimer(vf.Range(1, 1<<33))
	x.advance(vf.Range(0, 1<<33))
	x.update(0)
	x.advance(vf.Range(0, 1<<33))
	x.update(1)
	x.advance(vf.Range(0, 1<<34))
	x.tick()
	x.advance(vf.Range(0, 1<<34))
	x.tick()
}

// changing the period: it applies to later updates only; 0 and negative
// periods are ignored
func vhC23_period() {
	x := vhNewTimer(vf.Range(1, 10))
	x.update(0)
	p := vf.Range(0, 13) - 3
	x.t.SetExpiration(int64(p))
	if p > 0 {
		x.period = p
	}
	x.update(1)
	x.advance(vf.Range(0, 20))
	x.tick()
	x.update(vf.Choose(2))
	x.advance(vf.Range(0, 20))
	x.tick()
	x.advance(1000)
	x.tick()
}

// one key, checked at every second of 4 (thorough: 6) seconds, updated in any
// subset of them, period 1-3: the timeout is never early and never late
func vhC23_seconds() {
	x := vhNewTimer(1 + vf.Choose(3))
	x.update(0)
	for s := 0; s < vhDelays(5, 8); s++ {
		if vf.Choose(2) == 1 {
			x.update(0)
		}
		x.advance(1)
		x.tick()
	}
}

// a timer whose callback is nil, a callback that updates or removes keys, and
// removing a key that is not there
//
//vf:covers none,update,remove
func vhC23_callback() {
	switch vf.Choose(3) {
	case 0:
		vf.Cover("none")
		vf.Sched(0, false)
		t := NewCountdownTimer(1, nil)
		vf.Settle()
		t.Update("1")
		vf.SetClock(5)
		vf.Deliver()
		vf.Settle()
		t.Remove("1")
		t.Update("1")
		vf.SetClock(10)
		vf.Deliver()
		vf.Settle()
	case 1:
		vf.Cover("update")
		vf.Sched(0, false)
		n := 0
		var t *CountdownTimer
		t = NewCountdownTimer(2, func(key string) {
			n++
			t.Update(key)
		})
		vf.Settle()
		t.Update("1")
		for i := 1; i <= 3; i++ {
			vf.SetClock(int64(4*i - 1))
			vf.Deliver()
			vf.Settle()
			vf.Assert(n == i, "a key updated in its own timeout does not time out again, or at once")
			vf.SetClock(int64(4 * i))
			vf.Deliver()
			vf.Settle()
			vf.Assert(n == i, "a key updated in its own timeout times out early")
		}
	case 2:
		vf.Cover("remove")
		x := vhNewTimer(2)
		x.t.Remove("nothing")
		x.update(0)
		x.update(1)
		x.remove(0)
		x.remove(0)
		x.advance(2)
		x.tick()
		x.remove(1)
		x.update(0)
		x.advance(2)
		x.tick()
	}
}

// two goroutines updating (or one removing) the same key at the same time while
// another key is pending, then checks: the key times out exactly once, one
// period after the last update, or never if the removal came last; schedules
// with at most 2 (thorough: 3) delays between the statements of the root package
//
//vf:covers updates,removal
func vhC23_concurrent() {
	x := vhNewTimer(5)
	x.update(1)
	if vf.Choose(2) == 1 {
		x.update(0)
	}
	x.advance(1)
	removal := vf.Choose(2) == 1
	left := 2
	vf.SetDelays(vhDelays(2, 3))
	vf.SetFine(true)
	vf.Go(func() {
		x.t.Update("1")
		left--
	})
	vf.Go(func() {
		if removal {
			x.t.Remove("1")
		} else {
			x.t.Update("1")
		}
		left--
	})
	vf.WaitUntil(func() bool { return left == 0 })
	vf.SetFine(false)
	vf.SetDelays(0)
	x.now = 4
	vf.SetClock(4)
	vf.Deliver()
	vf.Settle()
	vf.Assert(x.fired[0] == 0, "a key times out early")
	vf.SetClock(6)
	vf.Deliver()
	vf.Settle()
	vf.Assert(x.fired[1] == 1, "another key is disturbed")
	if removal {
		vf.Cover("removal")
		vf.Assert(x.fired[0] <= 1, "a key times out twice")
	} else {
		vf.Cover("updates")
		vf.Assert(x.fired[0] == 1, "a key updated concurrently does not time out once")
	}
	was := x.fired[0]
	// the key is as good as new
	x.t.Update("1")
	vf.SetClock(10)
	vf.Deliver()
	vf.Settle()
	vf.Assert(x.fired[0] == was, "a key times out early or twice")
	x.t.Remove("1")
	vf.SetClock(30)
	vf.Deliver()
	vf.Settle()
	vf.Assert(x.fired[0] == was, "a removed key times out")
	vf.Assert(x.fired[1] == 1, "another key times out twice")
}

// an update while the check that would time the key out is running: the key
// times out at that check or not, and once more one period after the update;
// schedules with at most 2 (thorough: 3) delays
func vhC23_race() {
	x := vhNewTimer(2)
	x.t.Update("1")
	x.t.Update("2")
	vf.SetClock(2)
	done := false
	vf.SetDelays(vhDelays(2, 3))
	vf.SetFine(true)
	vf.Go(func() {
		x.t.Update("1")
		done = true
	})
	vf.Deliver()
	vf.WaitUntil(func() bool { return done && x.fired[1] == 1 })
	vf.SetFine(false)
	vf.SetDelays(0)
	vf.Settle()
	vf.Assert(x.fired[0] <= 1, "a key times out twice in one check")
	was := x.fired[0]
	vf.SetClock(3)
	vf.Deliver()
	vf.Settle()
	vf.Assert(x.fired[0] == was, "an updated key times out early")
	vf.SetClock(4)
	vf.Deliver()
	vf.Settle()
	vf.Assert(x.fired[0] == was+1, "an updated key does not time out")
	vf.SetClock(40)
	vf.Deliver()
	vf.Settle()
	vf.Assert(x.fired[0] == was+1 && x.fired[1] == 1, "a key times out twice")
}
