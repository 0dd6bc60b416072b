package main

import (
	"fmt"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Engine is one run over one harness function.
type Engine struct {
	prog           *ssa.Program
	queryTimeoutMs int
	cross          int
	stats          SolverStats

	mu       sync.Mutex
	funcs    map[string]bool
	queue    []*Work
	active   int
	cond     *sync.Cond
	deadline time.Time
	onViol   func(msg string, in []InputVal) bool // confirms a candidate; true stops the exploration
	confirm  sync.WaitGroup
	stop     bool

	maxPaths int64
	maxSteps int64
	workers  int

	paths, ended, assumed, decisions, steps, asserts, assertsSolver int64
	limits                                                          map[string]int
	unsupp                                                          map[string]int
	viol                                                            map[string]*Violation
	violOrder                                                       []string
	covers                                                          map[string]int
	samples                                                         []*Sample
	maxSamples                                                      int
	rng                                                             uint64
	machines                                                        []*Machine
	maxDepth                                                        int
	fn                                                              *ssa.Function
	initLogs                                                        map[string]bool
	panics                                                          []string
	expired                                                         int32
}

type Decision struct {
	eq    bool
	taken bool
	v     uint64
}

type Work struct {
	dec   []Decision
	model Model
}

type InputVal struct {
	Name string `json:"name"`
	W    uint8  `json:"w"`
	V    uint64 `json:"v"`
}

type ObsVal struct {
	Tag string `json:"tag"`
	V   string `json:"v"`
}

type Violation struct {
	Msg    string     `json:"msg"`
	Inputs []InputVal `json:"inputs"`
	Count  int        `json:"count"`
}

type Sample struct {
	Inputs []InputVal `json:"inputs"`
	Obs    []ObsVal   `json:"obs"`
	Covers []string   `json:"covers,omitempty"`
}

type obsRec struct {
	tag string
	v   Value
}

type inputRec struct {
	name string
	t    *Term
}

type Path struct {
	m      *Machine
	eng    *Engine
	dec    []Decision
	pos    int
	taken  []Decision
	model  Model
	pcset  map[*Term]bool
	groups map[*Term]*group
	inputs []inputRec
	obs    []obsRec
	covers []string
	ptrs   map[*Cell][]Cell
	nvar   int
	why    string
	viold  bool
	known  map[*Term]*Term // terms the path condition fixes to a constant
	kvars  map[*Term]bool
	memo   map[*Term]*Term
}

// simp rewrites t under the equalities of the path condition.
func (p *Path) simp(t *Term) *Term {
	if len(p.known) == 0 || t.IsConst() {
		return t
	}
	hit := false
	for _, v := range p.m.tt.Vars(t) {
		if p.kvars[v] {
			hit = true
			break
		}
	}
	if !hit {
		return t
	}
	return p.subst(t)
}

func (p *Path) subst(t *Term) *Term {
	if t == nil || t.IsConst() {
		return t
	}
	if k, ok := p.known[t]; ok {
		return k
	}
	if t.op == OpVar {
		return t
	}
	if r, ok := p.memo[t]; ok {
		return r
	}
	r := t
	a, b, c := p.subst(t.a), p.subst(t.b), p.subst(t.c)
	if a != t.a || b != t.b || c != t.c {
		r = p.m.tt.Rebuild(t, a, b, c)
		if k, ok := p.known[r]; ok {
			r = k
		}
	}
	p.memo[t] = r
	return r
}

func (p *Path) learn(t, k *Term) {
	if p.known == nil {
		p.known, p.kvars = map[*Term]*Term{}, map[*Term]bool{}
	}
	p.known[t] = k
	for _, v := range p.m.tt.Vars(t) {
		p.kvars[v] = true
	}
	p.memo = map[*Term]*Term{}
}

type group struct {
	cons []*Term
	vars []*Term
}

func (p *Path) addCons(c *Term) {
	if c.IsConst() || p.pcset[c] {
		return
	}
	p.pcset[c] = true
	if c.op == OpAnd {
		p.addCons(c.a)
		p.addCons(c.b)
		return
	}
	switch {
	case c.op == OpEq && c.b.IsConst():
		p.learn(c.a, c.b)
	case c.op == OpVar && c.w == 0:
		p.learn(c, p.m.tt.tru)
	case c.op == OpNot && c.a.op == OpVar:
		p.learn(c.a, p.m.tt.fls)
	}
	vs := p.m.tt.Vars(c)
	var g *group
	for _, v := range vs {
		h := p.groups[v]
		if h == nil || h == g {
			continue
		}
		if g == nil {
			g = h
			continue
		}
		if len(h.cons)+len(h.vars) > len(g.cons)+len(g.vars) {
			g, h = h, g
		}
		g.cons = append(g.cons, h.cons...)
		g.vars = append(g.vars, h.vars...)
		for _, x := range h.vars {
			p.groups[x] = g
		}
	}
	if g == nil {
		g = &group{}
	}
	for _, v := range vs {
		if p.groups[v] == nil {
			p.groups[v] = g
			g.vars = append(g.vars, v)
		}
	}
	g.cons = append(g.cons, c)
}

func (p *Path) slice(c *Term) []*Term {
	out := []*Term{c}
	var seen []*group
	for _, v := range p.m.tt.Vars(c) {
		g := p.groups[v]
		if g == nil {
			continue
		}
		dup := false
		for _, s := range seen {
			if s == g {
				dup = true
			}
		}
		if !dup {
			seen = append(seen, g)
			out = append(out, g.cons...)
		}
	}
	return out
}

// feasible: is c possible on this path? Gives a complete model when it is.
func (p *Path) feasible(c *Term) (Result, Model) {
	if c.False() {
		return Unsat, nil
	}
	n := p.m.tt.Not(c)
	if p.pcset[n] {
		return Unsat, nil
	}
	if atomic.LoadInt32(&p.eng.expired) == 1 {
		p.limit("time limit")
		panic(pathEnd{"time limit"})
	}
	p.m.solver.deadline = p.eng.deadline
	r, m := p.m.solver.Check(p.slice(c))
	if r != Sat {
		return r, nil
	}
	full := make(Model, len(p.model)+len(m))
	for k, v := range p.model {
		full[k] = v
	}
	for k, v := range m {
		full[k] = v
	}
	return Sat, full
}

func (p *Path) eval(t *Term) uint64 { return p.m.tt.Eval(t, p.model) }

func (p *Path) fork(d Decision, m Model) {
	dec := make([]Decision, len(p.taken)+1)
	copy(dec, p.taken)
	dec[len(p.taken)] = d
	p.eng.push(&Work{dec, m})
}

func (p *Path) branch(c *Term) bool {
	c = p.simp(c)
	if c.IsConst() {
		return c.True()
	}
	// already decided on this path
	if p.pcset[c] {
		return true
	}
	n := p.m.tt.Not(c)
	if p.pcset[n] {
		return false
	}
	if p.pos < len(p.dec) {
		d := p.dec[p.pos]
		p.pos++
		p.taken = append(p.taken, d)
		if d.eq {
			panic(Unsupported{"replay of decisions diverged"})
		}
		if d.taken {
			p.addCons(c)
		} else {
			p.addCons(n)
		}
		return d.taken
	}
	atomic.AddInt64(&p.eng.decisions, 1)
	v := p.eval(c) == 1
	mine, other := c, n
	if !v {
		mine, other = n, c
	}
	switch r, m := p.feasible(other); r {
	case Sat:
		p.fork(Decision{taken: !v}, m)
	case Unknown:
		p.limit("solver gave no answer at a branch")
	}
	p.taken = append(p.taken, Decision{taken: v})
	p.pos = len(p.dec)
	p.dec = p.dec[:p.pos]
	p.addCons(mine)
	return v
}

func (p *Path) concretise(t *Term) uint64 {
	n := 0
	for {
		t = p.simp(t)
		if t.IsConst() {
			return t.val
		}
		n++
		if p.pos < len(p.dec) {
			d := p.dec[p.pos]
			p.pos++
			p.taken = append(p.taken, d)
			if !d.eq {
				panic(Unsupported{"replay of decisions diverged"})
			}
			c := p.m.tt.Eq(t, p.m.tt.Const(t.w, d.v))
			if d.taken {
				p.addCons(c)
				return d.v
			}
			p.addCons(p.m.tt.Not(c))
			continue
		}
		if n > 600 {
			p.limit("more than 600 values for one forked value")
			panic(pathEnd{"concretise limit"})
		}
		atomic.AddInt64(&p.eng.decisions, 1)
		v := p.eval(t)
		c := p.m.tt.Eq(t, p.m.tt.Const(t.w, v))
		other := p.m.tt.Not(c)
		switch r, m := p.feasible(other); r {
		case Sat:
			p.fork(Decision{eq: true, taken: false, v: v}, m)
		case Unknown:
			p.limit("solver gave no answer at a fork")
		}
		p.taken = append(p.taken, Decision{eq: true, taken: true, v: v})
		p.addCons(c)
		return v
	}
}

func (p *Path) newVar(w uint8, name string) *Term {
	p.nvar++
	t := p.m.tt.Var(w, fmt.Sprintf("v%d_%s", p.nvar, name))
	return t
}

func (p *Path) newVarRange(w uint8, name string, lo, hi uint64) *Term {
	p.nvar++
	if lo == 0 && hi == mask(w) {
		return p.m.tt.Var(w, fmt.Sprintf("v%d_%s", p.nvar, name))
	}
	return p.m.tt.VarRange(w, fmt.Sprintf("v%d_%s", p.nvar, name), lo, hi)
}

func (p *Path) assume(c *Term) {
	c = p.simp(c)
	if c.True() {
		return
	}
	if c.False() {
		panic(pathEnd{"assume"})
	}
	if p.pos < len(p.dec) {
		p.addCons(c)
		return
	}
	if p.eval(c) != 1 {
		r, m := p.feasible(c)
		switch r {
		case Unsat:
			panic(pathEnd{"assume"})
		case Unknown:
			p.limit("solver gave no answer at an assumption")
			panic(pathEnd{"limit"})
		}
		p.model = m
		p.m.tt.NewEval()
	}
	p.addCons(c)
}

func (p *Path) assert(c *Term, msg string) {
	atomic.AddInt64(&p.eng.asserts, 1)
	c = p.simp(c)
	if c.True() {
		return
	}
	if p.pos < len(p.dec) {
		p.addCons(c)
		return
	}
	atomic.AddInt64(&p.eng.assertsSolver, 1)
	neg := p.m.tt.Not(c)
	r, m := p.feasible(neg)
	switch r {
	case Sat:
		p.report(msg, m)
	case Unknown:
		p.limit("solver gave no answer for an assertion")
	}
	if c.False() {
		panic(pathEnd{"assert"})
	}
	// go on where the assertion holds
	p.assume(c)
}

func (p *Path) report(msg string, model Model) {
	p.viold = true
	in := p.inputVals(model)
	e := p.eng
	e.mu.Lock()
	defer e.mu.Unlock()
	if v := e.viol[msg]; v != nil {
		v.Count++
		return
	}
	e.viol[msg] = &Violation{Msg: msg, Inputs: in, Count: 1}
	e.violOrder = append(e.violOrder, msg)
	if e.onViol != nil {
		e.confirm.Add(1)
		go func() {
			defer e.confirm.Done()
			if e.onViol(msg, in) {
				// confirmed: nothing more to find out here
				atomic.StoreInt32(&e.expired, 1)
				e.mu.Lock()
				e.stop = true
				e.mu.Unlock()
				e.cond.Broadcast()
			}
		}()
	}
}

func (p *Path) violation(msg string) { p.report(msg, p.model) }

func (p *Path) inputVals(model Model) []InputVal {
	tt := p.m.tt
	tt.NewEval()
	out := make([]InputVal, len(p.inputs))
	for i, r := range p.inputs {
		out[i] = InputVal{r.name, r.t.w, tt.Eval(r.t, model)}
	}
	tt.NewEval()
	return out
}

func (p *Path) limit(why string) {
	p.eng.mu.Lock()
	p.eng.limits[why]++
	p.eng.mu.Unlock()
}

func (e *Engine) noteFunc(fn *ssa.Function) {
	e.mu.Lock()
	e.funcs[fn.String()] = true
	e.mu.Unlock()
}

func (e *Engine) notePtr(m *Machine, p *Cell, c []Cell) {
	if m.path != nil {
		m.path.ptrs[p] = c
	}
}

func (e *Engine) push(w *Work) {
	e.mu.Lock()
	e.queue = append(e.queue, w)
	if len(w.dec) > e.maxDepth {
		e.maxDepth = len(w.dec)
	}
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Engine) pop() *Work {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return nil
		}
		if n := len(e.queue); n > 0 {
			// mostly depth first; now and then the oldest item, which spreads the workers
			i := n - 1
			if e.active < e.workers/2 {
				i = 0
			}
			w := e.queue[i]
			if i == 0 {
				e.queue = e.queue[1:]
			} else {
				e.queue = e.queue[:i]
			}
			e.active++
			return w
		}
		if e.active == 0 {
			e.stop = true
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Engine) donePath() {
	e.mu.Lock()
	e.active--
	if e.active == 0 && len(e.queue) == 0 {
		e.stop = true
	}
	if !e.stop && (time.Now().After(e.deadline) || atomic.LoadInt64(&e.paths) >= e.maxPaths) {
		if len(e.queue) > 0 || e.active > 0 {
			why := "time limit"
			if e.paths >= e.maxPaths {
				why = "path limit"
			}
			e.limits[why]++
		}
		e.stop = true
	}
	e.mu.Unlock()
	e.cond.Broadcast()
}

// Run explores fn exhaustively within the limits.
func (e *Engine) Run(fn *ssa.Function) {
	e.fn = fn
	e.cond = sync.NewCond(&e.mu)
	e.funcs, e.limits, e.unsupp, e.viol, e.covers, e.initLogs = map[string]bool{}, map[string]int{}, map[string]int{}, map[string]*Violation{}, map[string]int{}, map[string]bool{}
	e.queue = []*Work{{nil, Model{}}}
	var wg sync.WaitGroup
	for i := 0; i < e.workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var m *Machine
			defer func() {
				if m != nil {
					m.solver.Close()
				}
			}()
			for {
				w := e.pop()
				if w == nil {
					return
				}
				if m == nil || m.tt.next > 6_000_000 {
					if m != nil {
						m.solver.Close()
					}
					m = NewMachine(e)
					m.initModule()
				}
				func() {
					defer e.donePath()
					defer func() {
						if r := recover(); r != nil { // engine failure: never silent
							e.mu.Lock()
							e.panics = append(e.panics, fmt.Sprint(r))
							if debugPanics {
								e.stop = true
								e.mu.Unlock()
								panic(r)
							}
							e.mu.Unlock()
							m.solver.Close()
							m = nil
						}
					}()
					m.runPath(w, fn)
				}()
			}
		}()
	}
	// watchdog for the deadline while paths are long
	stopWatch := make(chan struct{})
	go func() {
		t := time.NewTicker(200 * time.Millisecond)
		defer t.Stop()
		for {
			select {
			case <-stopWatch:
				return
			case <-t.C:
				if time.Now().After(e.deadline) {
					atomic.StoreInt32(&e.expired, 1)
				}
			}
		}
	}()
	wg.Wait()
	e.confirm.Wait()
	close(stopWatch)
}

func (m *Machine) runPath(w *Work, fn *ssa.Function) {
	e := m.eng
	p := &Path{m: m, eng: e, dec: w.dec, model: w.model, pcset: map[*Term]bool{}, groups: map[*Term]*group{}, ptrs: map[*Cell][]Cell{}}
	m.path = p
	m.tt.NewEval()
	m.trail = m.trail[:0]
	m.trailOn = true
	m.steps = 0
	m.maxSteps = e.maxSteps
	m.nthread = 0
	m.nchan = 0
	m.tolerant = false
	m.unixReg = map[*Term]*Agg{}
	m.closedCh = map[*ChanV]bool{}
	th := &Thread{id: 0}
	m.threads, m.cur = []*Thread{th}, th
	end := "end"
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					end = x.why
				case Unsupported:
					end = "unsupported"
					e.mu.Lock()
					e.unsupp[x.msg]++
					e.mu.Unlock()
				default:
					m.rollback()
					panic(r)
				}
			}
		}()
		m.pushCall(th, &Closure{fn: fn}, nil, -1, fkNormal)
		m.runThreads(th)
	}()
	atomic.AddInt64(&e.paths, 1)
	atomic.AddInt64(&e.steps, m.steps)
	switch end {
	case "end":
		atomic.AddInt64(&e.ended, 1)
		if !p.viold {
			m.sample(p)
		}
	case "assume":
		atomic.AddInt64(&e.assumed, 1)
	}
	e.mu.Lock()
	if end == "end" {
		for _, c := range p.covers {
			e.covers[c]++
		}
	}
	for _, l := range m.initLog {
		e.initLogs[l] = true
	}
	e.mu.Unlock()
	m.rollback()
	m.trailOn = false
	m.path = nil
}

// sample keeps a random selection of path witnesses for native validation
func (m *Machine) sample(p *Path) {
	e := m.eng
	n := atomic.LoadInt64(&e.ended)
	e.mu.Lock()
	keep := len(e.samples) < e.maxSamples
	slot := -1
	if !keep && e.maxSamples > 0 {
		e.rng = e.rng*6364136223846793005 + 1442695040888963407
		k := int64(e.rng>>33) % n
		if k < int64(e.maxSamples) {
			slot = int(k)
		}
	}
	e.mu.Unlock()
	if !keep && slot < 0 {
		return
	}
	s := &Sample{Inputs: p.inputVals(p.model), Covers: p.covers}
	m.tt.NewEval()
	for _, o := range p.obs {
		s.Obs = append(s.Obs, ObsVal{o.tag, m.obsText(o.v, p.model)})
	}
	e.mu.Lock()
	if keep && len(e.samples) < e.maxSamples {
		e.samples = append(e.samples, s)
	} else if slot >= 0 && slot < len(e.samples) {
		e.samples[slot] = s
	}
	e.mu.Unlock()
}

func (m *Machine) obsText(v Value, model Model) string {
	switch x := v.(type) {
	case *Term:
		return fmt.Sprintf("%d", m.tt.Eval(x, model))
	case Str:
		if x.lazy != nil && !x.lazy.done {
			return "?"
		}
		x = x.forced()
		b := make([]byte, x.Len())
		for i := range b {
			b[i] = byte(m.tt.Eval(m.strByte(x, i), model))
		}
		return fmt.Sprintf("%x", b)
	case Slice:
		b := make([]byte, len(x.c))
		for i := range b {
			t, ok := x.c[i].v.(*Term)
			if !ok {
				return "?"
			}
			b[i] = byte(m.tt.Eval(t, model))
		}
		return fmt.Sprintf("%x", b)
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return m.obsText(x.v, model)
	}
	return "?"
}

func sortedKeys(m map[string]bool) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var debugPanics = false
