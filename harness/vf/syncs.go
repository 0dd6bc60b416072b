package zzvf

import "sync/atomic"

func resetSync() {}

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	SchedPoint()
	WaitUntil(func() bool { return !m.locked })
	m.locked = true
}

func (m *Mutex) TryLock() bool {
	SchedPoint()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}

func (m *Mutex) Unlock() {
	if !m.locked {
		Fail("unlock of unlocked mutex")
	}
	m.locked = false
	SchedPoint()
}

type RWMutex struct {
	w       bool
	readers int
	waiting int
}

func (m *RWMutex) Lock() {
	SchedPoint()
	if m.w || m.readers > 0 {
		m.waiting++
		WaitUntil(func() bool { return !m.w && m.readers == 0 })
		m.waiting--
	}
	m.w = true
}

func (m *RWMutex) Unlock() {
	if !m.w {
		Fail("unlock of unlocked RWMutex")
	}
	m.w = false
	SchedPoint()
}

func (m *RWMutex) RLock() {
	SchedPoint()
	WaitUntil(func() bool { return !m.w && m.waiting == 0 })
	m.readers++
}

func (m *RWMutex) RUnlock() {
	if m.readers == 0 {
		Fail("read unlock of unlocked RWMutex")
	}
	m.readers--
	SchedPoint()
}

func (m *RWMutex) TryLock() bool {
	SchedPoint()
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	return true
}

func (m *RWMutex) TryRLock() bool {
	SchedPoint()
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	return true
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct{ n int }

func (w *WaitGroup) Add(d int) {
	w.n += d
	if w.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	SchedPoint()
}
func (w *WaitGroup) Done() { w.Add(-1) }
func (w *WaitGroup) Wait() {
	SchedPoint()
	WaitUntil(func() bool { return w.n == 0 })
}
func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	SchedPoint()
	if o.done {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Cond struct {
	L   Locker
	gen int
	ws  []*int
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	w := new(int)
	c.ws = append(c.ws, w)
	c.L.Unlock()
	WaitUntil(func() bool { return *w == 1 })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.ws) > 0 {
		*c.ws[0] = 1
		c.ws = c.ws[1:]
	}
	SchedPoint()
}
func (c *Cond) Broadcast() {
	for _, w := range c.ws {
		*w = 1
	}
	c.ws = nil
	SchedPoint()
}

type Pool struct {
	New func() interface{}
	x   []interface{}
}

func (p *Pool) Get() interface{} {
	if n := len(p.x); n > 0 {
		v := p.x[n-1]
		p.x = p.x[:n-1]
		return v
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
func (p *Pool) Put(v interface{}) { p.x = append(p.x, v) }

// Map is sync.Map
type Map struct {
	m    map[interface{}]interface{}
	keys []interface{}
}

func (m *Map) Load(k interface{}) (interface{}, bool) {
	SchedPoint()
	v, ok := m.m[k]
	return v, ok
}
func (m *Map) put(k, v interface{}) {
	if m.m == nil {
		m.m = make(map[interface{}]interface{})
	}
	if _, ok := m.m[k]; !ok {
		m.keys = append(m.keys, k)
	}
	m.m[k] = v
}
func (m *Map) del(k interface{}) {
	delete(m.m, k)
	for i, x := range m.keys {
		if x == k {
			m.keys = append(m.keys[:i:i], m.keys[i+1:]...)
			return
		}
	}
}
func (m *Map) Store(k, v interface{}) {
	SchedPoint()
	m.put(k, v)
}
func (m *Map) LoadOrStore(k, v interface{}) (interface{}, bool) {
	SchedPoint()
	if x, ok := m.m[k]; ok {
		return x, true
	}
	m.put(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k interface{}) (interface{}, bool) {
	SchedPoint()
	v, ok := m.m[k]
	if ok {
		m.del(k)
	}
	return v, ok
}
func (m *Map) Swap(k, v interface{}) (interface{}, bool) {
	SchedPoint()
	x, ok := m.m[k]
	m.put(k, v)
	return x, ok
}
func (m *Map) CompareAndSwap(k, o, n interface{}) bool {
	SchedPoint()
	if x, ok := m.m[k]; ok && x == o {
		m.put(k, n)
		return true
	}
	return false
}
func (m *Map) CompareAndDelete(k, o interface{}) bool {
	SchedPoint()
	if x, ok := m.m[k]; ok && x == o {
		m.del(k)
		return true
	}
	return false
}
func (m *Map) Delete(k interface{}) {
	SchedPoint()
	if _, ok := m.m[k]; ok {
		m.del(k)
	}
}
func (m *Map) Clear() {
	SchedPoint()
	m.m, m.keys = nil, nil
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	SchedPoint()
	keys := append([]interface{}(nil), m.keys...)
	for _, k := range keys {
		if v, ok := m.m[k]; ok {
			if !f(k, v) {
				return
			}
		}
	}
}

// sync/atomic with scheduling points
func LoadInt32(p *int32) int32         { SchedPoint(); return atomic.LoadInt32(p) }
func LoadInt64(p *int64) int64         { SchedPoint(); return atomic.LoadInt64(p) }
func LoadUint32(p *uint32) uint32      { SchedPoint(); return atomic.LoadUint32(p) }
func LoadUint64(p *uint64) uint64      { SchedPoint(); return atomic.LoadUint64(p) }
func StoreInt32(p *int32, v int32)     { SchedPoint(); atomic.StoreInt32(p, v) }
func StoreInt64(p *int64, v int64)     { SchedPoint(); atomic.StoreInt64(p, v) }
func StoreUint32(p *uint32, v uint32)  { SchedPoint(); atomic.StoreUint32(p, v) }
func StoreUint64(p *uint64, v uint64)  { SchedPoint(); atomic.StoreUint64(p, v) }
func AddInt32(p *int32, d int32) int32 { SchedPoint(); return atomic.AddInt32(p, d) }
func AddInt64(p *int64, d int64) int64 { SchedPoint(); return atomic.AddInt64(p, d) }
func AddUint32(p *uint32, d uint32) uint32 {
	SchedPoint()
	return atomic.AddUint32(p, d)
}
func AddUint64(p *uint64, d uint64) uint64 {
	SchedPoint()
	return atomic.AddUint64(p, d)
}
func SwapInt32(p *int32, v int32) int32     { SchedPoint(); return atomic.SwapInt32(p, v) }
func SwapInt64(p *int64, v int64) int64     { SchedPoint(); return atomic.SwapInt64(p, v) }
func SwapUint32(p *uint32, v uint32) uint32 { SchedPoint(); return atomic.SwapUint32(p, v) }
func SwapUint64(p *uint64, v uint64) uint64 { SchedPoint(); return atomic.SwapUint64(p, v) }
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	SchedPoint()
	return atomic.CompareAndSwapInt32(p, o, n)
}
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	SchedPoint()
	return atomic.CompareAndSwapInt64(p, o, n)
}
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	SchedPoint()
	return atomic.CompareAndSwapUint32(p, o, n)
}
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	SchedPoint()
	return atomic.CompareAndSwapUint64(p, o, n)
}

type AtomicInt32 struct{ v int32 }

func (a *AtomicInt32) Load() int32                    { return LoadInt32(&a.v) }
func (a *AtomicInt32) Store(v int32)                  { StoreInt32(&a.v, v) }
func (a *AtomicInt32) Add(d int32) int32              { return AddInt32(&a.v, d) }
func (a *AtomicInt32) Swap(v int32) int32             { return SwapInt32(&a.v, v) }
func (a *AtomicInt32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(&a.v, o, n) }

type AtomicInt64 struct{ v int64 }

func (a *AtomicInt64) Load() int64                    { return LoadInt64(&a.v) }
func (a *AtomicInt64) Store(v int64)                  { StoreInt64(&a.v, v) }
func (a *AtomicInt64) Add(d int64) int64              { return AddInt64(&a.v, d) }
func (a *AtomicInt64) Swap(v int64) int64             { return SwapInt64(&a.v, v) }
func (a *AtomicInt64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(&a.v, o, n) }

type AtomicUint32 struct{ v uint32 }

func (a *AtomicUint32) Load() uint32                    { return LoadUint32(&a.v) }
func (a *AtomicUint32) Store(v uint32)                  { StoreUint32(&a.v, v) }
func (a *AtomicUint32) Add(d uint32) uint32             { return AddUint32(&a.v, d) }
func (a *AtomicUint32) Swap(v uint32) uint32            { return SwapUint32(&a.v, v) }
func (a *AtomicUint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(&a.v, o, n) }

type AtomicUint64 struct{ v uint64 }

func (a *AtomicUint64) Load() uint64                    { return LoadUint64(&a.v) }
func (a *AtomicUint64) Store(v uint64)                  { StoreUint64(&a.v, v) }
func (a *AtomicUint64) Add(d uint64) uint64             { return AddUint64(&a.v, d) }
func (a *AtomicUint64) Swap(v uint64) uint64            { return SwapUint64(&a.v, v) }
func (a *AtomicUint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(&a.v, o, n) }

type AtomicBool struct{ v uint32 }

func b32(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}
func (a *AtomicBool) Load() bool       { return LoadUint32(&a.v) == 1 }
func (a *AtomicBool) Store(v bool)     { StoreUint32(&a.v, b32(v)) }
func (a *AtomicBool) Swap(v bool) bool { return SwapUint32(&a.v, b32(v)) == 1 }
func (a *AtomicBool) CompareAndSwap(o, n bool) bool {
	return CompareAndSwapUint32(&a.v, b32(o), b32(n))
}

type AtomicValue struct{ v interface{} }

func (a *AtomicValue) Load() interface{}   { SchedPoint(); return a.v }
func (a *AtomicValue) Store(v interface{}) { SchedPoint(); a.v = v }
