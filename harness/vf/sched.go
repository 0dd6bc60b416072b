package zzvf

// Cooperative scheduler. Exactly one task holds the token; at every scheduling
// point the next task is chosen by Choose, so a schedule is part of the
// recorded inputs. The default is to go on with the current task, or with the
// next runnable one in round-robin order when it blocks; every deviation costs
// one unit of the delay budget.

type task struct {
	id    int
	tok   chan int
	ready func() bool // nil: runnable
	idle  bool        // runnable only when nothing else is
	done  bool
}

var (
	tasks    []*task
	cur      *task
	delays   int
	fine     bool
	switches int
	abort    chan int
	mapUse   []mapAccess
)

type mapAccess struct {
	m     interface{}
	t     *task
	write bool
}

// Reset forgets all scheduler, clock, file and connection state.
func Reset() {
	tasks, cur, delays, fine, finer, switches = nil, nil, 0, false, false, 0
	mapUse = nil
	abort = make(chan int, 1)
	resetClock()
	resetFS()
	resetNet()
	resetCrypto()
	resetSync()
}

// Sched starts the scheduler with the harness as the first task. budget is the
// number of deviations from the default schedule; fineGrained adds scheduling
// points between the statements of the root package.
func Sched(budget int, fineGrained bool) {
	boot()
	delays, fine = budget, fineGrained
}

// SetFine turns the statement-level scheduling points on or off
func SetFine(on bool) { fine = on }

// SetDelays changes what is left of the delay budget
func SetDelays(n int) { delays = n }

func boot() {
	if cur == nil {
		if abort == nil {
			k, l := keys, seals
			Reset()
			keys, seals = k, l
		}
		cur = &task{id: 0, tok: make(chan int, 1)}
		tasks = []*task{cur}
	}
}

// Go starts a task
func Go(f func()) {
	boot()
	t := &task{id: len(tasks), tok: make(chan int, 1)}
	tasks = append(tasks, t)
	go func() {
		<-t.tok
		defer taskExit(t)
		f()
	}()
	SchedPoint()
}

func taskExit(t *task) {
	if r := recover(); r != nil {
		if _, ok := r.(stopRun); !ok {
			recordFailure("a goroutine panicked")
		}
		abort <- 1
		return
	}
	t.done = true
	next := pickNext(t, false)
	if next == nil {
		recordFailure("deadlock: every goroutine is blocked")
		abort <- 1
		return
	}
	cur = next
	next.tok <- 1
}

func runnable(t *task) bool {
	return !t.done && !t.idle && (t.ready == nil || t.ready())
}

func pickNext(self *task, goOn bool) *task {
	var c []*task
	if goOn && runnable(self) {
		c = append(c, self)
	}
	n := len(tasks)
	for i := 1; i < n; i++ {
		t := tasks[(self.id+i)%n]
		if runnable(t) {
			c = append(c, t)
		}
	}
	if len(c) == 0 {
		for i := 0; i < n; i++ {
			t := tasks[(self.id+i)%n]
			if !t.done && t.idle {
				return t
			}
		}
		return nil
	}
	k := 0
	if len(c) > 1 && delays > 0 {
		k = Choose(len(c))
		if k > 0 {
			delays--
		}
	}
	return c[k]
}

func switchTo(next, self *task) {
	if next == nil {
		Fail("deadlock: every goroutine is blocked")
		return
	}
	if next == self {
		return
	}
	switches++
	cur = next
	next.tok <- 1
	if self.id == 0 {
		select {
		case <-self.tok:
		case <-abort:
			panic(stopRun{})
		}
		return
	}
	<-self.tok
}

// SchedPoint lets another task run
func SchedPoint() {
	if cur == nil || len(tasks) == 1 {
		return
	}
	self := cur
	if delays > 0 {
		switchTo(pickNext(self, true), self)
	}
}

// PP is the statement-level scheduling point of the protocol package
func PP() {
	if finer {
		SchedPoint()
	}
}

// SetFiner turns the scheduling points of the protocol package on or off (they
// are there for the properties of finerProps only)
func SetFiner(on bool) { finer = on }

var finer bool

// P is the statement-level scheduling point
func P() {
	if fine {
		SchedPoint()
	}
}

// WaitUntil blocks the task until cond holds
func WaitUntil(cond func() bool) {
	if cond() {
		return
	}
	boot()
	self := cur
	self.ready = cond
	for !cond() {
		switchTo(pickNext(self, false), self)
	}
	self.ready = nil
}

// Settle lets all other tasks run until none of them can go on
func Settle() {
	if cur == nil {
		return
	}
	self := cur
	self.idle = true
	switchTo(pickNext(self, false), self)
	self.idle = false
}

// Yield lets the other tasks run first, without costing delay budget
func Yield() { Settle() }

// Live is the number of tasks that have not ended
func Live() int {
	n := 0
	for _, t := range tasks {
		if !t.done {
			n++
		}
	}
	return n
}

// CurTask identifies the running task
func CurTask() int {
	if cur == nil {
		return 0
	}
	return cur.id
}

// Select waits for one of the cases
func Select(hasDefault bool, cases ...func() bool) int {
	SchedPoint()
	for {
		var c []int
		for i, f := range cases {
			if f() {
				c = append(c, i)
			}
		}
		if len(c) > 0 {
			k := 0
			if len(c) > 1 && delays > 0 {
				k = Choose(len(c))
				if k > 0 {
					delays--
				}
			}
			return c[k]
		}
		if hasDefault {
			return -1
		}
		WaitUntil(func() bool {
			for _, f := range cases {
				if f() {
					return true
				}
			}
			return false
		})
	}
}

func CanRecv(c interface{}) bool { return !chanNil(c) && (chanLen(c) > 0 || chanClosed(c)) }
func CanSend(c interface{}) bool { return !chanNil(c) && chanRoom(c) }

// WaitRecv and WaitSend come before a channel operation
func WaitRecv(c interface{}) {
	SchedPoint()
	WaitUntil(func() bool { return CanRecv(c) })
}

func WaitSend(c interface{}) {
	SchedPoint()
	WaitUntil(func() bool { return CanSend(c) })
}

// BeforeClose comes before close(c)
func BeforeClose(c interface{}) {
	SchedPoint()
	noteClosed(c)
}

// MapAccess comes before a statement that uses map m: two tasks using a map at
// the same time, one of them writing, is what the Go runtime ends the process for.
func MapAccess(m interface{}, write bool) {
	if !fine || cur == nil {
		return
	}
	id := mapID(m)
	if id == nil {
		return
	}
	self := cur
	for _, a := range mapUse {
		if a.t != self && a.m == id && (a.write || write) {
			Fail("concurrent map access")
		}
	}
	mapUse = append(mapUse, mapAccess{id, self, write})
	SchedPoint()
	for i := range mapUse {
		if mapUse[i].t == self && mapUse[i].m == id {
			mapUse = append(mapUse[:i:i], mapUse[i+1:]...)
			break
		}
	}
}
