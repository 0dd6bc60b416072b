package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync/atomic"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// ---- compiled functions

type opnd int32 // >= 0 register, < 0 constant ^i

type cinstr struct {
	in   ssa.Instruction
	dst  int32
	ops  []opnd
	aux  interface{}
	kind uint8
}

type cblock struct {
	ins  []cinstr
	phis []cphi
	b    *ssa.BasicBlock
}

type cphi struct {
	dst   int32
	edges []opnd
}

type cfunc struct {
	short   func(*Machine, []Value) (Value, bool)
	fn      *ssa.Function
	blocks  []cblock
	consts  []Value
	nreg    int
	pool    [][]Value
	nparams int
	intr    intrinsic
	entered bool
}

const (
	kOther = iota
	kUnOp
	kBinOp
	kCall
	kFieldAddr
	kIndexAddr
	kStore
	kJump
	kIf
	kReturn
)

type deferred struct {
	fn      Value // *Closure or *ssa.Builtin
	builtin *ssa.Builtin
	args    []Value
	call    *ssa.CallCommon
}

const (
	fkNormal     = iota
	fkRunDefer   // deferred call run by RunDefers
	fkPanicDefer // deferred call run while panicking
)

type Frame struct {
	cf     *cfunc
	regs   []Value
	blk    int
	prev   int
	pc     int
	defers []deferred
	dst    int32 // register of the caller to receive the result (-1: none)
	kind   uint8
	rundef bool      // executing RunDefers
	unw    bool      // unwinding: running defers because of a panic
	rec    bool      // panic recovered in this frame; finish defers, then leave through Recover
	unwP   *panicRec // the panic being unwound through this frame
}

type panicRec struct {
	val       Iface
	recovered bool
	goexit    bool
	where     string
}

type Thread struct {
	id      int
	frames  []*Frame
	panics  []*panicRec
	blocked bool
	done    bool
	wake    func() // performs the completion of a blocked operation
	wakeIdx *waiter
	name    string
}

// ---- machine

type Machine struct {
	eng     *Engine
	prog    *ssa.Program
	tt      *TermTable
	solver  *Solver
	funcs   map[*ssa.Function]*cfunc
	globals map[*ssa.Global]*Cell
	inited  map[*ssa.Package]int // 1 running, 2 done
	trail   []trailEntry
	trailOn bool

	threads []*Thread
	cur     *Thread
	nthread int

	path     *Path
	steps    int64
	maxSteps int64
	tolerant bool
	errStrT  types.Type // runtime.errorString
	methods  map[mkey]*ssa.Function
	unixReg  map[*Term]*Agg
	closedCh map[*ChanV]bool
	nchan    int
	initLog  []string
	fresh    int
}

type mkey struct {
	t types.Type
	f *types.Func
}

type pathEnd struct{ why string }

func NewMachine(eng *Engine) *Machine {
	m := &Machine{eng: eng, prog: eng.prog, tt: NewTermTable(), funcs: map[*ssa.Function]*cfunc{}, globals: map[*ssa.Global]*Cell{}, inited: map[*ssa.Package]int{}, methods: map[mkey]*ssa.Function{}}
	m.solver = NewSolver(m.tt, &eng.stats, eng.queryTimeoutMs)
	m.solver.cross = eng.cross
	if p := eng.prog.ImportedPackage("runtime"); p != nil {
		if t := p.Type("errorString"); t != nil {
			m.errStrT = t.Type()
		}
	}
	return m
}

func (m *Machine) compile(fn *ssa.Function) *cfunc {
	if cf := m.funcs[fn]; cf != nil {
		return cf
	}
	cf := &cfunc{fn: fn}
	m.funcs[fn] = cf
	cf.intr = m.lookupIntrinsic(fn)
	if cf.intr != nil {
		return cf
	}
	cf.short = shortcuts[fn.String()]
	if len(fn.Blocks) == 0 {
		return cf
	}
	idx := map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) {
		idx[v] = n
		n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	cf.nparams = len(fn.Params)
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	cf.nreg = int(n)
	cidx := map[ssa.Value]opnd{}
	var pkgs []*ssa.Package
	op := func(v ssa.Value) opnd {
		if v == nil {
			return ^opnd(0)
		}
		if i, ok := idx[v]; ok {
			return opnd(i)
		}
		if o, ok := cidx[v]; ok {
			return o
		}
		var val Value
		switch c := v.(type) {
		case *ssa.Const:
			val = m.constVal(c)
		case *ssa.Global:
			if c.Pkg != nil {
				pkgs = append(pkgs, c.Pkg)
			}
			val = m.global(c)
		case *ssa.Function:
			val = &Closure{fn: c}
		case *ssa.Builtin:
			val = c
		default:
			unsup("operand %T", v)
		}
		cf.consts = append(cf.consts, val)
		o := ^opnd(len(cf.consts) - 1)
		cidx[v] = o
		return o
	}
	cf.consts = append(cf.consts, nil) // slot 0: nil operand
	cf.blocks = make([]cblock, len(fn.Blocks))
	for bi, b := range fn.Blocks {
		cb := &cf.blocks[bi]
		cb.b = b
		for _, in := range b.Instrs {
			if phi, ok := in.(*ssa.Phi); ok {
				p := cphi{dst: idx[phi]}
				for _, e := range phi.Edges {
					p.edges = append(p.edges, op(e))
				}
				cb.phis = append(cb.phis, p)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = idx[v]
			}
			var rands [10]*ssa.Value
			for _, r := range in.Operands(rands[:0]) {
				if r == nil {
					ci.ops = append(ci.ops, ^opnd(0))
				} else {
					ci.ops = append(ci.ops, op(*r))
				}
			}
			switch in.(type) {
			case *ssa.UnOp:
				ci.kind = kUnOp
			case *ssa.BinOp:
				ci.kind = kBinOp
			case *ssa.Call:
				ci.kind = kCall
			case *ssa.FieldAddr:
				ci.kind = kFieldAddr
			case *ssa.IndexAddr:
				ci.kind = kIndexAddr
			case *ssa.Store:
				ci.kind = kStore
			case *ssa.Jump:
				ci.kind = kJump
			case *ssa.If:
				ci.kind = kIf
			case *ssa.Return:
				ci.kind = kReturn
			}
			cb.ins = append(cb.ins, ci)
		}
	}
	for _, p := range pkgs {
		m.initPackage(p)
	}
	return cf
}

func (m *Machine) global(g *ssa.Global) *Cell {
	if c := m.globals[g]; c != nil {
		return c
	}
	c := &Cell{}
	et := g.Type().Underlying().(*types.Pointer).Elem()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(Unsupported); ok {
					c.v = Poison{u.msg}
					return
				}
				panic(r)
			}
		}()
		c.v = m.zero(et)
		// error variables of packages whose initialisers are not run
		if g.Pkg != nil && initSkip[g.Pkg.Pkg.Path()] && types.Identical(et, types.Universe.Lookup("error").Type()) {
			c.v = m.newError(Str{s: g.String()})
		}
	}()
	m.globals[g] = c
	return c
}

// initModule initialises the packages of the repository before any path runs
func (m *Machine) initModule() {
	for _, p := range m.prog.AllPackages() {
		if p.Pkg.Path() == modPath || strings.HasPrefix(p.Pkg.Path(), modPath+"/") {
			m.initPackage(p)
		}
	}
}

// initPackage runs the package initialiser once, tolerating what cannot be executed.
func (m *Machine) initPackage(p *ssa.Package) {
	if m.inited[p] != 0 {
		return
	}
	m.inited[p] = 1
	fn := p.Func("init")
	if fn == nil || len(fn.Blocks) == 0 {
		m.inited[p] = 2
		return
	}
	if initSkip[p.Pkg.Path()] {
		m.inited[p] = 2
		return
	}
	// nested execution on a separate thread list, no undo logging
	oldTrail, oldThreads, oldCur, oldTol, oldSteps, oldMax, oldPath := m.trailOn, m.threads, m.cur, m.tolerant, m.steps, m.maxSteps, m.path
	m.trailOn, m.tolerant = false, true
	m.steps, m.maxSteps = 0, 30_000_000
	m.path = nil
	th := &Thread{id: -1}
	m.threads, m.cur = []*Thread{th}, th
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case Unsupported:
					m.initLog = append(m.initLog, p.Pkg.Path()+": "+x.msg)
				case pathEnd:
					m.initLog = append(m.initLog, p.Pkg.Path()+": "+x.why)
				default:
					panic(r)
				}
			}
		}()
		m.pushCall(th, &Closure{fn: fn}, nil, -1, fkNormal)
		m.runThreads(th)
	}()
	m.trailOn, m.threads, m.cur, m.tolerant, m.steps, m.maxSteps, m.path = oldTrail, oldThreads, oldCur, oldTol, oldSteps, oldMax, oldPath
	m.inited[p] = 2
}

func (m *Machine) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return m.zero(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(u); ok {
			v := constant.ToInt(c.Value)
			if i, exact := constant.Int64Val(v); exact {
				return m.tt.Const(w, uint64(i))
			}
			x, _ := constant.Uint64Val(v)
			return m.tt.Const(w, x)
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return m.tt.Bool(constant.BoolVal(c.Value))
		case types.String, types.UntypedString:
			return Str{s: constant.StringVal(c.Value)}
		case types.Float64, types.UntypedFloat:
			f, _ := constant.Float64Val(c.Value)
			return Float{f: f}
		case types.Float32:
			f, _ := constant.Float32Val(c.Value)
			return Float{f: float64(f)}
		}
	}
	return Poison{"constant of type " + t.String()}
}

// ---- decisions

func (m *Machine) branch(c *Term) bool {
	if c.IsConst() {
		return c.val == 1
	}
	if m.path == nil {
		unsup("symbolic branch during initialisation")
	}
	return m.path.branch(c)
}

// concretise forks over the possible values of t
func (m *Machine) concretise(t *Term) uint64 {
	if t.IsConst() {
		return t.val
	}
	if m.path == nil {
		unsup("symbolic value during initialisation")
	}
	return m.path.concretise(t)
}

func (m *Machine) concInt(v Value) int {
	t, ok := v.(*Term)
	if !ok {
		if p, ok := v.(Poison); ok {
			unsup("use of %s", p.why)
		}
		unsup("integer expected, got %T", v)
	}
	return int(sx(m.concretise(t), t.w))
}

// ---- calls

func (m *Machine) pushCall(th *Thread, fv Value, args []Value, dst int32, kind uint8) *Frame {
	cl, ok := fv.(*Closure)
	if !ok {
		if p, ok := fv.(Poison); ok {
			unsup("call of %s", p.why)
		}
		unsup("call of %T", fv)
	}
	if cl == nil {
		m.runtimePanic("runtime error: invalid memory address or nil pointer dereference")
	}
	if cl.native != nil {
		r := cl.native(m, args)
		if dst >= 0 {
			th.frames[len(th.frames)-1].regs[dst] = r
		}
		return nil
	}
	cf := m.compile(cl.fn)
	if cf.intr != nil {
		r := cf.intr(m, cl.fn, args)
		if tc, ok := r.(tailCall); ok {
			return m.pushCall(th, tc.fv, tc.args, dst, kind)
		}
		if dst >= 0 {
			th.frames[len(th.frames)-1].regs[dst] = r
		}
		return nil
	}
	if len(cf.blocks) == 0 {
		unsup("call of external function %s", cl.fn)
	}
	if cf.short != nil {
		if r, ok := cf.short(m, args); ok {
			if dst >= 0 {
				th.frames[len(th.frames)-1].regs[dst] = r
			}
			return nil
		}
	}
	if !cf.entered {
		cf.entered = true
		if m.path != nil {
			m.eng.noteFunc(cl.fn)
		}
	}
	if len(th.frames) > 2000 {
		unsup("call depth")
	}
	var regs []Value
	if n := len(cf.pool); n > 0 {
		regs = cf.pool[n-1]
		cf.pool = cf.pool[:n-1]
	} else {
		regs = make([]Value, cf.nreg)
	}
	copy(regs, args)
	copy(regs[cf.nparams:], cl.free)
	f := &Frame{cf: cf, regs: regs, dst: dst, kind: kind, prev: -1}
	th.frames = append(th.frames, f)
	return f
}

func (m *Machine) runtimePanic(msg string) {
	panic(goPanic{Iface{m.errStrT, Str{s: strings.TrimPrefix(msg, "runtime error: ")}}, msg})
}

// goPanic is the Go-level panic thrown by instruction execution, handled by the step loop
type goPanic struct {
	val Iface
	msg string
}

func (m *Machine) startPanic(th *Thread, val Iface) {
	where := ""
	for i := len(th.frames) - 1; i >= 0 && len(where) < 400; i-- {
		f := th.frames[i]
		where += f.cf.fn.String() + "@" + m.posOf(f) + " < "
	}
	th.panics = append(th.panics, &panicRec{val: val, where: where})
	m.unwind(th)
}

func (m *Machine) posOf(f *Frame) string {
	b := &f.cf.blocks[f.blk]
	i := f.pc - 1
	if i < 0 {
		i = 0
	}
	for ; i >= 0; i-- {
		if i < len(b.ins) {
			if p := b.ins[i].in.Pos(); p.IsValid() {
				ps := m.prog.Fset.Position(p)
				return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
			}
		}
	}
	return "?"
}

// unwind continues a panic: runs the next deferred call or pops the frame
func (m *Machine) unwind(th *Thread) {
	for {
		if len(th.frames) == 0 {
			p := th.panics[len(th.panics)-1]
			m.uncaught(th, p)
			return
		}
		f := th.frames[len(th.frames)-1]
		p := th.panics[len(th.panics)-1]
		if f.unw && f.unwP != nil && f.unwP != p {
			// a panic raised by a deferred call replaces the one being handled
			for i, q := range th.panics {
				if q == f.unwP {
					th.panics = append(th.panics[:i:i], th.panics[i+1:]...)
					break
				}
			}
		}
		f.unw, f.unwP = true, p
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			m.runDeferred(th, f, d, fkPanicDefer)
			return
		}
		m.popFrame(th)
		// a deferred call that panics itself: the panic goes on in the frame that was running defers
	}
}

func (m *Machine) popFrame(th *Thread) *Frame {
	f := th.frames[len(th.frames)-1]
	th.frames[len(th.frames)-1] = nil
	th.frames = th.frames[:len(th.frames)-1]
	m.release(f)
	return f
}

func (m *Machine) release(f *Frame) {
	for i := range f.regs {
		f.regs[i] = nil
	}
	f.cf.pool = append(f.cf.pool, f.regs)
	f.regs = nil
}

func (m *Machine) runDeferred(th *Thread, owner *Frame, d deferred, kind uint8) {
	if d.builtin != nil {
		func() {
			m.execBuiltin(th, owner, d.builtin, d.args, d.call)
		}()
		m.deferReturned(th, kind)
		return
	}
	n := len(th.frames)
	fr := m.pushCall(th, d.fn, d.args, -1, kind)
	if fr == nil && len(th.frames) == n { // native
		m.deferReturned(th, kind)
		return
	}
}

// deferReturned: the deferred call of the top frame has returned
func (m *Machine) deferReturned(th *Thread, kind uint8) {
	f := th.frames[len(th.frames)-1]
	if kind == fkPanicDefer {
		p := th.panics[len(th.panics)-1]
		if p.recovered {
			th.panics = th.panics[:len(th.panics)-1]
			f.unw, f.unwP = false, nil
			f.rec = true
			m.contRecovered(th, f)
			return
		}
		m.unwind(th)
		return
	}
	if f.rec {
		m.contRecovered(th, f)
		return
	}
	// RunDefers instruction continues
	m.contRunDefers(th, f)
}

func (m *Machine) contRunDefers(th *Thread, f *Frame) {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		m.runDeferred(th, f, d, fkRunDefer)
		return
	}
	f.rundef = false
}

func (m *Machine) contRecovered(th *Thread, f *Frame) {
	if len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		m.runDeferred(th, f, d, fkRunDefer)
		return
	}
	f.rec = false
	if f.cf.fn.Recover != nil {
		f.prev = f.blk
		f.blk = f.cf.fn.Recover.Index
		f.pc = 0
		return
	}
	res := f.cf.fn.Signature.Results()
	var v Value
	switch res.Len() {
	case 0:
	case 1:
		v = m.zero(res.At(0).Type())
	default:
		v = m.zero(res)
	}
	m.doReturn(th, v)
}

func (m *Machine) doReturn(th *Thread, v Value) {
	f := m.popFrame(th)
	if len(th.frames) == 0 {
		th.done = true
		return
	}
	if f.kind != fkNormal {
		m.deferReturned(th, f.kind)
		return
	}
	if f.dst >= 0 {
		th.frames[len(th.frames)-1].regs[f.dst] = v
	}
}

func (m *Machine) panicText(p *panicRec) string {
	i := p.val
	if i.t == nil {
		return "panic(nil)"
	}
	if m.errStrT != nil && types.Identical(i.t, m.errStrT) {
		return "runtime error: " + i.v.(Str).s
	}
	if s, ok := i.v.(Str); ok {
		if s.isConcrete() {
			return s.forced().s
		}
	}
	return "panic of type " + i.t.String()
}

func (m *Machine) uncaught(th *Thread, p *panicRec) {
	th.done = true
	if m.path == nil {
		m.initLog = append(m.initLog, "panic in init: "+m.panicText(p)+" "+p.where)
		panic(pathEnd{"panic in init"})
	}
	m.path.violation("uncaught panic: " + m.panicText(p) + " at " + p.where)
	panic(pathEnd{"panic"})
}

// ---- running

func (m *Machine) runThreads(main *Thread) {
	for {
		if main.done {
			return
		}
		if m.cur.done || m.cur.blocked {
			var next *Thread
			for _, t := range m.threads {
				if !t.done && !t.blocked {
					next = t
					break
				}
			}
			if next == nil {
				if m.path != nil {
					m.path.violation("all goroutines are blocked")
				}
				panic(pathEnd{"deadlock"})
			}
			m.cur = next
			// drop finished threads
			k := 0
			for _, t := range m.threads {
				if !t.done || t == main {
					m.threads[k] = t
					k++
				}
			}
			m.threads = m.threads[:k]
		}
		m.runThread(m.cur)
	}
}

func (m *Machine) runThread(th *Thread) {
	for !th.done && !th.blocked {
		m.runFrames(th)
	}
}

// runFrames executes until a Go-level panic is thrown or the thread stops
func (m *Machine) runFrames(th *Thread) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				m.startPanicSafe(th, gp.val)
				return
			}
			if u, ok := r.(Unsupported); ok && len(th.frames) > 0 && !strings.Contains(u.msg, " [at ") {
				f := th.frames[len(th.frames)-1]
				u.msg += " [at " + f.cf.fn.String() + " " + m.posOf(f) + "]"
				panic(u)
			}
			panic(r)
		}
	}()
	for !th.done && !th.blocked {
		m.step(th)
	}
}

func (m *Machine) startPanicSafe(th *Thread, v Iface) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok { // native deferred call panicked
				m.startPanicSafe(th, gp.val)
				return
			}
			panic(r)
		}
	}()
	m.startPanic(th, v)
}

func (f *Frame) val(o opnd) Value {
	if o >= 0 {
		return f.regs[o]
	}
	return f.cf.consts[^o]
}

func (m *Machine) jump(f *Frame, to int) {
	f.prev = f.blk
	f.blk = to
	f.pc = 0
	cb := &f.cf.blocks[to]
	if len(cb.phis) > 0 {
		pi := -1
		for i, p := range cb.b.Preds {
			if p.Index == f.prev {
				pi = i
				break
			}
		}
		if len(cb.phis) == 1 {
			p := &cb.phis[0]
			f.regs[p.dst] = f.val(p.edges[pi])
			return
		}
		tmp := make([]Value, len(cb.phis))
		for i := range cb.phis {
			tmp[i] = f.val(cb.phis[i].edges[pi])
		}
		for i := range cb.phis {
			f.regs[cb.phis[i].dst] = tmp[i]
		}
	}
}

func (m *Machine) step(th *Thread) {
	f := th.frames[len(th.frames)-1]
	if f.rundef {
		m.contRunDefers(th, f)
		return
	}
	cb := &f.cf.blocks[f.blk]
	m.steps++
	if m.steps > m.maxSteps {
		if m.path != nil {
			m.path.limit("step limit")
			m.path.violation(hangMsg) // confirmed only if the native run does not end either
		}
		panic(pathEnd{"step limit"})
	}
	if m.steps&0x3ff == 0 && m.path != nil && atomic.LoadInt32(&m.eng.expired) == 1 {
		m.path.limit("time limit")
		panic(pathEnd{"time limit"})
	}
	ci := &cb.ins[f.pc]
	f.pc++
	if m.tolerant && len(th.frames) == 1 {
		m.stepTolerant(th, f, ci)
		return
	}
	m.exec(th, f, ci)
}

func (m *Machine) stepTolerant(th *Thread, f *Frame, ci *cinstr) {
	// calls inside an initialiser are run in a nested loop so that failures stay local
	if c, ok := ci.in.(*ssa.Call); ok && f.cf.fn.Name() == "init" || f.cf.fn.Synthetic == "package initializer" && ok {
		callee := c.Call.StaticCallee()
		if callee != nil && callee.Name() == "init" && callee.Pkg != f.cf.fn.Pkg {
			return // other packages are initialised on demand
		}
		base := len(th.frames)
		func() {
			defer func() {
				if r := recover(); r != nil {
					var why string
					switch x := r.(type) {
					case Unsupported:
						why = x.msg
					case goPanic:
						why = "panic " + x.msg
					case pathEnd:
						if x.why == "step limit" {
							panic(r)
						}
						why = x.why
					default:
						panic(r)
					}
					m.initLog = append(m.initLog, f.cf.fn.String()+": "+why)
					for len(th.frames) > base {
						m.popFrame(th)
					}
					th.done, th.blocked = false, false
					th.panics = nil
					if ci.dst >= 0 {
						f.regs[ci.dst] = m.poisonOf(c.Type(), why)
					}
				}
			}()
			m.exec(th, f, ci)
			for len(th.frames) > base {
				m.stepNested(th)
			}
		}()
		return
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				why := ""
				switch x := r.(type) {
				case Unsupported:
					why = x.msg
				case goPanic:
					why = x.msg
				default:
					panic(r)
				}
				m.initLog = append(m.initLog, f.cf.fn.String()+": "+why)
				if ci.dst >= 0 {
					if v, ok := ci.in.(ssa.Value); ok {
						f.regs[ci.dst] = m.poisonOf(v.Type(), why)
					}
				}
			}
		}()
		m.exec(th, f, ci)
	}()
}

func (m *Machine) stepNested(th *Thread) {
	defer func() {
		if r := recover(); r != nil {
			if gp, ok := r.(goPanic); ok {
				m.startPanicSafe(th, gp.val)
				return
			}
			panic(r)
		}
	}()
	m.step(th)
	if th.blocked {
		unsup("blocking in initialiser")
	}
}

func (m *Machine) poisonOf(t types.Type, why string) Value {
	if tp, ok := t.(*types.Tuple); ok {
		out := make(Tuple, tp.Len())
		for i := range out {
			out[i] = Poison{why}
		}
		return out
	}
	return Poison{why}
}

func (m *Machine) nilDeref() {
	m.runtimePanic("runtime error: invalid memory address or nil pointer dereference")
}

func (m *Machine) ptr(v Value) *Cell {
	switch p := v.(type) {
	case *Cell:
		if p == nil {
			m.nilDeref()
		}
		return p
	case SymPtr:
		i := m.concretise(p.idx)
		return &p.c[i]
	case Poison:
		unsup("use of %s", p.why)
	}
	unsup("pointer expected, got %T", v)
	return nil
}

func (m *Machine) load(v Value) Value {
	if sp, ok := v.(SymPtr); ok {
		return m.symLoad(sp)
	}
	p := m.ptr(v)
	x := p.v
	if a, ok := x.(*Agg); ok {
		return copyVal(a)
	}
	return x
}

func (m *Machine) symLoad(sp SymPtr) Value {
	lo, hi := int(sp.idx.lo), len(sp.c)-1
	if sp.idx.hi < uint64(hi) {
		hi = int(sp.idx.hi)
	}
	if hi-lo < 512 {
		ok := true
		for i := lo; i <= hi; i++ {
			if _, isT := sp.c[i].v.(*Term); !isT {
				ok = false
				break
			}
		}
		if ok {
			r := sp.c[hi].v.(*Term)
			for i := hi - 1; i >= lo; i-- {
				r = m.tt.Ite(m.tt.Eq(sp.idx, m.int(i)), sp.c[i].v.(*Term), r)
			}
			return r
		}
	}
	return copyVal(sp.c[m.concretise(sp.idx)].v)
}

func (m *Machine) storeTo(p Value, v Value) {
	if sp, ok := p.(SymPtr); ok {
		t, isT := v.(*Term)
		if isT && len(sp.c) <= 64 {
			for i := range sp.c {
				if _, ok := sp.c[i].v.(*Term); !ok {
					isT = false
				}
			}
			if isT {
				for i := range sp.c {
					m.setCell(&sp.c[i], m.tt.Ite(m.tt.Eq(sp.idx, m.int(i)), t, sp.c[i].v.(*Term)))
				}
				return
			}
		}
		m.store(&sp.c[m.concretise(sp.idx)], v)
		return
	}
	m.store(m.ptr(p), v)
}

// idx64 converts an index operand to a 64 bit term (sign or zero extended)
func (m *Machine) idx64(v Value, t types.Type) *Term {
	x, ok := v.(*Term)
	if !ok {
		if p, ok := v.(Poison); ok {
			unsup("use of %s", p.why)
		}
		unsup("index of type %T", v)
	}
	_, signed, _ := typeInt(t)
	if signed {
		return m.tt.Sext(x, 64)
	}
	return m.tt.Zext(x, 64)
}

func (m *Machine) indexCells(c []Cell, i *Term) Value {
	n := uint64(len(c))
	if i.IsConst() {
		if i.val >= n {
			m.runtimePanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(i.val), n))
		}
		return &c[i.val]
	}
	if !m.branch(m.tt.Ult(i, m.tt.Const(64, n))) {
		m.runtimePanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
	return SymPtr{c, i}
}

func (m *Machine) exec(th *Thread, f *Frame, ci *cinstr) {
	switch ci.kind {
	case kUnOp:
		in := ci.in.(*ssa.UnOp)
		x := f.val(ci.ops[0])
		switch in.Op {
		case token.MUL:
			f.regs[ci.dst] = m.load(x)
			return
		case token.ARROW:
			m.recv(th, f, ci, x, in.CommaOk)
			return
		}
		f.regs[ci.dst] = m.unop(in, x)
		return
	case kBinOp:
		in := ci.in.(*ssa.BinOp)
		f.regs[ci.dst] = m.binop(in.Op, f.val(ci.ops[0]), f.val(ci.ops[1]), in.X.Type(), in.Y.Type())
		return
	case kFieldAddr:
		in := ci.in.(*ssa.FieldAddr)
		p := m.ptr(f.val(ci.ops[0]))
		a, ok := p.v.(*Agg)
		if !ok {
			if po, isP := p.v.(Poison); isP {
				unsup("use of %s", po.why)
			}
			unsup("field %d of %T", in.Field, p.v)
		}
		f.regs[ci.dst] = &a.cells[in.Field]
		return
	case kIndexAddr:
		in := ci.in.(*ssa.IndexAddr)
		x := f.val(ci.ops[0])
		i := m.idx64(f.val(ci.ops[1]), in.Index.Type())
		switch s := x.(type) {
		case Slice:
			f.regs[ci.dst] = m.indexCells(s.c, i)
		default:
			a, ok := m.ptr(x).v.(*Agg)
			if !ok {
				unsup("index of %T", x)
			}
			f.regs[ci.dst] = m.indexCells(a.cells, i)
		}
		return
	case kStore:
		m.storeTo(f.val(ci.ops[0]), f.val(ci.ops[1]))
		return
	case kJump:
		m.jump(f, f.cf.blocks[f.blk].b.Succs[0].Index)
		return
	case kIf:
		c, ok := f.val(ci.ops[0]).(*Term)
		if !ok {
			unsup("branch on %T", f.val(ci.ops[0]))
		}
		b := f.cf.blocks[f.blk].b
		if m.branch(c) {
			m.jump(f, b.Succs[0].Index)
		} else {
			m.jump(f, b.Succs[1].Index)
		}
		return
	case kReturn:
		var v Value
		switch len(ci.ops) {
		case 0:
		case 1:
			v = f.val(ci.ops[0])
		default:
			t := make(Tuple, len(ci.ops))
			for i, o := range ci.ops {
				t[i] = f.val(o)
			}
			v = t
		}
		m.doReturn(th, v)
		return
	case kCall:
		in := ci.in.(*ssa.Call)
		m.call(th, f, &in.Call, ci, ci.dst)
		return
	}
	switch in := ci.in.(type) {
	case *ssa.Alloc:
		f.regs[ci.dst] = &Cell{v: m.zero(in.Type().Underlying().(*types.Pointer).Elem())}
	case *ssa.Field:
		switch a := f.val(ci.ops[0]).(type) {
		case *Agg:
			f.regs[ci.dst] = copyVal(a.cells[in.Field].v)
		default:
			unsup("field of %T", a)
		}
	case *ssa.Index:
		x := f.val(ci.ops[0])
		i := m.idx64(f.val(ci.ops[1]), in.Index.Type())
		switch a := x.(type) {
		case *Agg:
			f.regs[ci.dst] = m.load(m.indexCells(a.cells, i))
		case Str:
			f.regs[ci.dst] = m.strIndex(a, i)
		default:
			unsup("index of %T", x)
		}
	case *ssa.Convert:
		f.regs[ci.dst] = m.convert(f.val(ci.ops[0]), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		f.regs[ci.dst] = m.convert(f.val(ci.ops[0]), in.X.Type(), in.Type())
	case *ssa.ChangeType:
		f.regs[ci.dst] = f.val(ci.ops[0])
	case *ssa.ChangeInterface:
		f.regs[ci.dst] = f.val(ci.ops[0])
	case *ssa.MakeInterface:
		v := f.val(ci.ops[0])
		if p, ok := v.(Poison); ok {
			unsup("use of %s", p.why)
		}
		f.regs[ci.dst] = Iface{in.X.Type(), copyVal(v)}
	case *ssa.MakeClosure:
		fv := f.val(ci.ops[0]).(*Closure)
		free := make([]Value, len(ci.ops)-1)
		for i := range free {
			free[i] = f.val(ci.ops[i+1])
		}
		f.regs[ci.dst] = &Closure{fn: fv.fn, free: free}
	case *ssa.MakeMap:
		f.regs[ci.dst] = newMap()
	case *ssa.MakeChan:
		n := m.concInt(f.val(ci.ops[0]))
		if n < 0 {
			m.runtimePanic("makechan: size out of range")
		}
		m.nchan++
		f.regs[ci.dst] = &ChanV{cap: n, id: m.nchan}
	case *ssa.MakeSlice:
		lt := m.idx64(f.val(ci.ops[0]), in.Len.Type())
		capT := m.idx64(f.val(ci.ops[1]), in.Cap.Type())
		if !lt.IsConst() {
			// a symbolic length: negative or absurd lengths panic; others are forked over
			if !m.branch(m.tt.Ult(lt, m.tt.Const(64, 1<<47))) {
				m.runtimePanic("runtime error: makeslice: len out of range")
			}
		}
		n := int(m.concretise(lt))
		if n < 0 || int64(n) > 1<<47 {
			m.runtimePanic("runtime error: makeslice: len out of range")
		}
		cp := n
		if capT.IsConst() {
			cp = int(capT.val)
			if cp < n {
				m.runtimePanic("runtime error: makeslice: cap out of range")
			}
		} else if !m.branch(m.tt.And(m.tt.Ule(lt, capT), m.tt.Ult(capT, m.tt.Const(64, 1<<47)))) {
			m.runtimePanic("runtime error: makeslice: cap out of range")
		}
		if cp > 1<<26 {
			unsup("make of %d elements", cp)
		}
		c := make([]Cell, n, cp)
		m.fillZero(c[:cp], in.Type().Underlying().(*types.Slice).Elem())
		f.regs[ci.dst] = Slice{c}
	case *ssa.Slice:
		f.regs[ci.dst] = m.sliceOp(f, ci, in)
	case *ssa.SliceToArrayPointer:
		s := f.val(ci.ops[0]).(Slice)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s.c) < n {
			m.runtimePanic("runtime error: cannot convert slice to array pointer")
		}
		if s.c == nil {
			f.regs[ci.dst] = (*Cell)(nil)
		} else {
			f.regs[ci.dst] = &Cell{v: &Agg{cells: s.c[:n:n]}}
		}
	case *ssa.Extract:
		t, ok := f.val(ci.ops[0]).(Tuple)
		if !ok {
			unsup("extract of %T", f.val(ci.ops[0]))
		}
		f.regs[ci.dst] = t[in.Index]
	case *ssa.Lookup:
		m.lookup(f, ci, in)
	case *ssa.MapUpdate:
		mp, ok := f.val(ci.ops[0]).(*MapV)
		if !ok {
			unsup("map update of %T", f.val(ci.ops[0]))
		}
		if mp == nil {
			panic(goPanic{Iface{m.errStrT, Str{s: "assignment to entry in nil map"}}, "assignment to entry in nil map"})
		}
		m.mapSet(mp, f.val(ci.ops[1]), f.val(ci.ops[2]))
	case *ssa.Range:
		switch x := f.val(ci.ops[0]).(type) {
		case *MapV:
			f.regs[ci.dst] = &MapIter{m: x}
		case Str:
			f.regs[ci.dst] = &StrIter{s: x.forced()}
		default:
			unsup("range over %T", x)
		}
	case *ssa.Next:
		f.regs[ci.dst] = m.next(in, f.val(ci.ops[0]))
	case *ssa.TypeAssert:
		f.regs[ci.dst] = m.typeAssert(in, f.val(ci.ops[0]))
	case *ssa.Defer:
		d := deferred{call: &in.Call}
		fv, args := m.prepCall(f, &in.Call, ci)
		if b, ok := fv.(*ssa.Builtin); ok {
			d.builtin = b
		}
		d.fn, d.args = fv, args
		f.defers = append(f.defers, d)
	case *ssa.RunDefers:
		f.rundef = true
		m.contRunDefers(th, f)
	case *ssa.Go:
		fv, args := m.prepCall(f, &in.Call, ci)
		m.spawn(fv, args)
	case *ssa.Panic:
		v := f.val(ci.ops[0])
		i, ok := v.(Iface)
		if !ok {
			unsup("panic with %T", v)
		}
		panic(goPanic{i, ""})
	case *ssa.Send:
		m.send(th, f, f.val(ci.ops[0]), f.val(ci.ops[1]))
	case *ssa.Select:
		m.sel(th, f, ci, in)
	default:
		unsup("instruction %T", ci.in)
	}
}

func (m *Machine) spawn(fv Value, args []Value) *Thread {
	m.nthread++
	t := &Thread{id: m.nthread}
	m.threads = append(m.threads, t)
	n := len(t.frames)
	m.pushCall(t, fv, args, -1, fkNormal)
	if len(t.frames) == n {
		t.done = true
	}
	return t
}

func (m *Machine) prepCall(f *Frame, c *ssa.CallCommon, ci *cinstr) (Value, []Value) {
	// operand order: Value, Args...
	if c.IsInvoke() {
		recv := f.val(ci.ops[0])
		i, ok := recv.(Iface)
		if !ok {
			if p, ok := recv.(Poison); ok {
				unsup("method call on %s", p.why)
			}
			unsup("invoke on %T", recv)
		}
		if i.t == nil {
			m.nilDeref()
		}
		fn := m.method(i.t, c.Method)
		args := make([]Value, len(c.Args)+1)
		args[0] = i.v
		if _, isAgg := i.v.(*Agg); isAgg {
			args[0] = copyVal(i.v)
		}
		for k := range c.Args {
			args[k+1] = f.val(ci.ops[k+1])
		}
		return &Closure{fn: fn}, args
	}
	args := make([]Value, len(c.Args))
	for k := range c.Args {
		args[k] = f.val(ci.ops[k+1])
	}
	return f.val(ci.ops[0]), args
}

func (m *Machine) method(t types.Type, meth *types.Func) *ssa.Function {
	k := mkey{t, meth}
	if fn := m.methods[k]; fn != nil {
		return fn
	}
	fn := m.prog.LookupMethod(t, meth.Pkg(), meth.Name())
	if fn == nil {
		unsup("method %s of %s", meth.Name(), t)
	}
	m.methods[k] = fn
	return fn
}

func (m *Machine) call(th *Thread, f *Frame, c *ssa.CallCommon, ci *cinstr, dst int32) {
	fv, args := m.prepCall(f, c, ci)
	if b, ok := fv.(*ssa.Builtin); ok {
		r := m.execBuiltin(th, f, b, args, c)
		if dst >= 0 {
			f.regs[dst] = r
		}
		return
	}
	m.pushCall(th, fv, args, dst, fkNormal)
}

func (m *Machine) strIndex(s Str, i *Term) Value {
	s = s.forced()
	n := uint64(s.Len())
	if i.IsConst() {
		if i.val >= n {
			m.runtimePanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", int64(i.val), n))
		}
		return m.strByte(s, int(i.val))
	}
	if !m.branch(m.tt.Ult(i, m.tt.Const(64, n))) {
		m.runtimePanic(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
	lo, hi := int(i.lo), int(n)-1
	if i.hi < uint64(hi) {
		hi = int(i.hi)
	}
	if hi-lo > 512 {
		return m.strByte(s, int(m.concretise(i)))
	}
	r := m.strByte(s, hi)
	for k := hi - 1; k >= lo; k-- {
		r = m.tt.Ite(m.tt.Eq(i, m.int(k)), m.strByte(s, k), r)
	}
	return r
}

func (m *Machine) sliceOp(f *Frame, ci *cinstr, in *ssa.Slice) Value {
	x := f.val(ci.ops[0])
	// operands: X, Low, High, Max (nil ones included)
	get := func(k int, v ssa.Value, def int) (*Term, int) {
		if v == nil {
			return nil, def
		}
		t := m.idx64(f.val(ci.ops[k]), v.Type())
		if t.IsConst() {
			return nil, int(int64(t.val))
		}
		return t, 0
	}
	var c []Cell
	switch s := x.(type) {
	case Str:
		s = s.forced()
		n := s.Len()
		lt, lo := get(1, in.Low, 0)
		ht, hi := get(2, in.High, n)
		if lt != nil || ht != nil {
			lo, hi = m.symBounds(lt, lo, ht, hi, n, n)
		}
		if lo < 0 || hi < lo || hi > n {
			m.runtimePanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", lo, hi, n))
		}
		return m.substr(s, lo, hi)
	case Slice:
		c = s.c
	case *Cell:
		a, ok := m.ptr(s).v.(*Agg)
		if !ok {
			unsup("slice of pointer to %T", s.v)
		}
		c = a.cells
	case Poison:
		unsup("use of %s", s.why)
	default:
		unsup("slice of %T", x)
	}
	_, mx := get(3, in.Max, cap(c))
	if in.Max != nil {
		t := m.idx64(f.val(ci.ops[3]), in.Max.Type())
		mx = int(m.concretise(t))
	}
	lt, lo := get(1, in.Low, 0)
	ht, hi := get(2, in.High, len(c))
	if lt != nil || ht != nil {
		lo, hi = m.symBounds(lt, lo, ht, hi, len(c), cap(c))
	}
	if mx < 0 || mx > cap(c) || hi < 0 || hi > mx || lo < 0 || lo > hi {
		m.runtimePanic(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] with capacity %d", lo, hi, mx, cap(c)))
	}
	return Slice{c[lo:hi:mx]}
}

// symBounds decides the out-of-range outcome symbolically, then forks over the valid values
func (m *Machine) symBounds(lt *Term, lo int, ht *Term, hi int, n, cp int) (int, int) {
	l, h := lt, ht
	if l == nil {
		l = m.int(lo)
	}
	if h == nil {
		h = m.int(hi)
	}
	ok := m.tt.And(m.tt.Ule(l, h), m.tt.Ule(h, m.int(cp)))
	if !m.branch(ok) {
		m.runtimePanic("runtime error: slice bounds out of range")
	}
	return int(m.concretise(l)), int(m.concretise(h))
}

func (m *Machine) lookup(f *Frame, ci *cinstr, in *ssa.Lookup) {
	x := f.val(ci.ops[0])
	switch a := x.(type) {
	case Str:
		f.regs[ci.dst] = m.strIndex(a, m.idx64(f.val(ci.ops[1]), in.Index.Type()))
	case *MapV:
		e := m.mapFind(a, f.val(ci.ops[1]))
		var v Value
		if e != nil {
			v = copyVal(e.v.v)
		} else {
			v = m.zero(in.X.Type().Underlying().(*types.Map).Elem())
		}
		if in.CommaOk {
			f.regs[ci.dst] = Tuple{v, m.tt.Bool(e != nil)}
		} else {
			f.regs[ci.dst] = v
		}
	case Poison:
		unsup("use of %s", a.why)
	default:
		unsup("lookup in %T", x)
	}
}

func (m *Machine) next(in *ssa.Next, it Value) Value {
	switch x := it.(type) {
	case *MapIter:
		if x.m != nil {
			for x.pos < len(x.m.entries) {
				e := x.m.entries[x.pos]
				x.pos++
				if !e.dead {
					return Tuple{m.tt.tru, e.k, copyVal(e.v.v)}
				}
			}
		}
		return Tuple{m.tt.fls, nil, nil}
	case *StrIter:
		n := x.s.Len()
		if x.pos >= n {
			return Tuple{m.tt.fls, m.int(0), m.tt.Const(32, 0)}
		}
		p := x.pos
		r, sz := m.decodeRune(x.s, p)
		x.pos += sz
		return Tuple{m.tt.tru, m.int(p), r}
	}
	unsup("next on %T", it)
	return nil
}

func (m *Machine) decodeRune(s Str, p int) (*Term, int) {
	if s.b == nil {
		r, sz := utf8.DecodeRuneInString(s.s[p:])
		return m.tt.Const(32, uint64(uint32(r))), sz
	}
	b := s.b[p]
	if m.branch(m.tt.Ult(b, m.tt.Const(8, 0x80))) {
		return m.tt.Zext(b, 32), 1
	}
	var buf []byte
	for i := p; i < len(s.b) && i < p+4; i++ {
		if i > p && s.b[i].IsConst() == false && m.branch(m.tt.Ult(s.b[i], m.tt.Const(8, 0x80))) {
			buf = append(buf, 0x20)
			break
		}
		buf = append(buf, byte(m.concretise(s.b[i])))
	}
	r, sz := utf8.DecodeRune(buf)
	return m.tt.Const(32, uint64(uint32(r))), sz
}

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (m *Machine) typeAssert(in *ssa.TypeAssert, v Value) Value {
	i, ok := v.(Iface)
	if !ok {
		if p, ok := v.(Poison); ok {
			unsup("use of %s", p.why)
		}
		unsup("type assertion on %T", v)
	}
	match := false
	var res Value
	if i.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			match = m.implements(i.t, it)
			res = i
		} else {
			match = types.Identical(i.t, in.AssertedType)
			res = copyVal(i.v)
		}
	}
	if !match {
		if in.CommaOk {
			return Tuple{m.zero(in.AssertedType), m.tt.fls}
		}
		msg := "interface conversion: interface is nil, not " + in.AssertedType.String()
		if i.t != nil {
			msg = "interface conversion: interface is " + i.t.String() + ", not " + in.AssertedType.String()
		}
		panic(goPanic{Iface{m.errStrT, Str{s: msg}}, msg})
	}
	if in.CommaOk {
		return Tuple{res, m.tt.tru}
	}
	return res
}

func (m *Machine) unop(in *ssa.UnOp, x Value) Value {
	switch in.Op {
	case token.NOT:
		return m.tt.Not(x.(*Term))
	case token.SUB:
		switch v := x.(type) {
		case *Term:
			return m.tt.Neg(v)
		case Float:
			if v.fp != nil {
				return m.fp1(OpFpNeg, v, 0)
			}
			if v.t != nil {
				return Float{t: m.tt.Neg(v.t)}
			}
			return Float{f: -v.f}
		}
	case token.XOR:
		return m.tt.Bvnot(x.(*Term))
	}
	if p, ok := x.(Poison); ok {
		unsup("use of %s", p.why)
	}
	unsup("unary %s on %T", in.Op, x)
	return nil
}

func (m *Machine) binop(op token.Token, a, b Value, ta, tb types.Type) Value {
	switch op {
	case token.EQL:
		return m.eq(a, b)
	case token.NEQ:
		return m.tt.Not(m.eq(a, b))
	}
	switch x := a.(type) {
	case *Term:
		y, ok := b.(*Term)
		if !ok {
			break
		}
		return m.intBin(op, x, y, ta, tb)
	case Str:
		y, ok := b.(Str)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return m.concat(x, y)
		case token.LSS:
			return m.strLess(x, y)
		case token.GTR:
			return m.strLess(y, x)
		case token.LEQ:
			return m.tt.Not(m.strLess(y, x))
		case token.GEQ:
			return m.tt.Not(m.strLess(x, y))
		}
	case Float:
		y, ok := b.(Float)
		if !ok {
			break
		}
		r := m.floatBin(op, x, y)
		if f, ok := r.(Float); ok {
			if b, ok := ta.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
				return m.to32(f)
			}
		}
		return r
	}
	if p, ok := a.(Poison); ok {
		unsup("use of %s", p.why)
	}
	if p, ok := b.(Poison); ok {
		unsup("use of %s", p.why)
	}
	unsup("binary %s on %T, %T", op, a, b)
	return nil
}

func (m *Machine) floatBin(op token.Token, x, y Float) Value {
	if x.conc() && y.conc() {
		switch op {
		case token.ADD:
			return Float{f: x.f + y.f}
		case token.SUB:
			return Float{f: x.f - y.f}
		case token.MUL:
			return Float{f: x.f * y.f}
		case token.QUO:
			return Float{f: x.f / y.f}
		case token.LSS:
			return m.tt.Bool(x.f < y.f)
		case token.LEQ:
			return m.tt.Bool(x.f <= y.f)
		case token.GTR:
			return m.tt.Bool(x.f > y.f)
		case token.GEQ:
			return m.tt.Bool(x.f >= y.f)
		}
	}
	tx, ok1 := m.floatInt(x)
	ty, ok2 := m.floatInt(y)
	if ok1 && ok2 {
		switch op {
		case token.LSS:
			return m.tt.Slt(tx, ty)
		case token.LEQ:
			return m.tt.Sle(tx, ty)
		case token.GTR:
			return m.tt.Slt(ty, tx)
		case token.GEQ:
			return m.tt.Sle(ty, tx)
		}
		// integers that stay exactly representable
		const lim = 1 << 26
		if tx.hi <= lim && ty.hi <= lim {
			switch op {
			case token.ADD:
				return Float{t: m.tt.Add(tx, ty)}
			case token.SUB:
				return Float{t: m.tt.Sub(tx, ty)}
			case token.MUL:
				return Float{t: m.tt.Mul(tx, ty)}
			}
		}
	}
	fx, fy := m.fpTerm(x), m.fpTerm(y)
	switch op {
	case token.ADD:
		return m.fpVal(m.tt.fp(OpFpAdd, fx, fy, 0))
	case token.SUB:
		return m.fpVal(m.tt.fp(OpFpSub, fx, fy, 0))
	case token.MUL:
		return m.fpVal(m.tt.fp(OpFpMul, fx, fy, 0))
	case token.QUO:
		return m.fpVal(m.tt.fp(OpFpDiv, fx, fy, 0))
	case token.LSS:
		return m.tt.fp(OpFpLt, fx, fy, 0)
	case token.LEQ:
		return m.tt.fp(OpFpLe, fx, fy, 0)
	case token.GTR:
		return m.tt.fp(OpFpLt, fy, fx, 0)
	case token.GEQ:
		return m.tt.fp(OpFpLe, fy, fx, 0)
	}
	unsup("symbolic floating point %s", op)
	return nil
}

func (m *Machine) intBin(op token.Token, x, y *Term, ta, tb types.Type) Value {
	tt := m.tt
	w, signed, ok := typeInt(ta)
	if !ok { // booleans
		switch op {
		case token.AND:
			return tt.And(x, y)
		case token.OR:
			return tt.Or(x, y)
		}
		unsup("binary %s on %s", op, ta)
	}
	switch op {
	case token.ADD:
		return tt.Add(x, y)
	case token.SUB:
		return tt.Sub(x, y)
	case token.MUL:
		return tt.Mul(x, y)
	case token.QUO, token.REM:
		if !m.branch(tt.Not(tt.Eq(y, tt.Const(w, 0)))) {
			m.runtimePanic("runtime error: integer divide by zero")
		}
		switch {
		case op == token.QUO && signed:
			return tt.Sdiv(x, y)
		case op == token.QUO:
			return tt.Udiv(x, y)
		case signed:
			return tt.Srem(x, y)
		default:
			return tt.Urem(x, y)
		}
	case token.AND:
		return tt.Bvand(x, y)
	case token.OR:
		return tt.Bvor(x, y)
	case token.XOR:
		return tt.Bvxor(x, y)
	case token.AND_NOT:
		return tt.Bvand(x, tt.Bvnot(y))
	case token.SHL, token.SHR:
		wy, sy, _ := typeInt(tb)
		if sy {
			if !m.branch(tt.Sle(tt.Const(wy, 0), y)) {
				m.runtimePanic("runtime error: negative shift amount")
			}
		}
		// bring the amount to width w, saturating
		var s *Term
		if wy > w {
			s = tt.Ite(tt.Ult(y, tt.Const(wy, uint64(w))), tt.Extract(y, 0, w), tt.Const(w, uint64(w)))
			if y.IsConst() && y.val >= uint64(w) {
				s = tt.Const(w, uint64(w))
			}
		} else {
			s = tt.Zext(y, w)
		}
		if op == token.SHL {
			return tt.Shl(x, s)
		}
		if signed {
			return tt.Ashr(x, s)
		}
		return tt.Lshr(x, s)
	case token.LSS:
		if signed {
			return tt.Slt(x, y)
		}
		return tt.Ult(x, y)
	case token.LEQ:
		if signed {
			return tt.Sle(x, y)
		}
		return tt.Ule(x, y)
	case token.GTR:
		if signed {
			return tt.Slt(y, x)
		}
		return tt.Ult(y, x)
	case token.GEQ:
		if signed {
			return tt.Sle(y, x)
		}
		return tt.Ule(y, x)
	}
	unsup("integer operation %s", op)
	return nil
}

func (m *Machine) convert(v Value, from, to types.Type) Value {
	if p, ok := v.(Poison); ok {
		unsup("use of %s", p.why)
	}
	uf, ut := from.Underlying(), to.Underlying()
	if wt, _, ok := typeInt(to); ok {
		switch x := v.(type) {
		case *Term:
			_, fs, isInt := typeInt(from)
			if isInt {
				if fs {
					return m.tt.Sext(x, wt)
				}
				return m.tt.Zext(x, wt)
			}
		case Float:
			if x.fp != nil {
				return m.tt.Extract(m.fpToInt(x), 0, wt)
			}
			if x.t != nil {
				return m.tt.Sext(x.t, wt)
			}
			_, signed, _ := typeInt(to)
			if signed || x.f < 0 {
				return m.tt.Const(wt, uint64(int64(x.f)))
			}
			return m.tt.Const(wt, uint64(x.f))
		case *Cell: // unsafe.Pointer -> uintptr
			unsup("conversion of a pointer to an integer")
		}
	}
	if b, ok := ut.(*types.Basic); ok {
		switch b.Kind() {
		case types.Float64, types.Float32:
			switch x := v.(type) {
			case *Term:
				_, signed, _ := typeInt(from)
				if x.IsConst() {
					var f float64
					if signed {
						f = float64(sx(x.val, x.w))
					} else {
						f = float64(x.val)
					}
					if b.Kind() == types.Float32 {
						f = float64(float32(f))
					}
					return Float{f: f}
				}
				var t *Term
				if signed {
					t = m.tt.Sext(x, 64)
				} else {
					t = m.tt.Zext(x, 64)
				}
				// exactly representable range only
				lim := uint64(1) << 53
				if t.hi > lim {
					in := m.tt.And(m.tt.Sle(m.tt.Const(64, -lim), t), m.tt.Sle(t, m.tt.Const(64, lim)))
					if !m.branch(in) {
						if !signed && x.w == 64 && m.branch(m.tt.Slt(t, m.tt.Const(64, 0))) {
							unsup("symbolic integer beyond 2^63 converted to float")
						}
						r := m.fpVal(m.tt.mk(OpFpInt, 64, t, nil, nil, 0, ""))
						if b.Kind() == types.Float32 {
							unsup("large symbolic integer converted to float32")
						}
						return r
					}
				}
				if b.Kind() == types.Float32 {
					return m.to32(Float{t: t})
				}
				return Float{t: t}
			case Float:
				if b.Kind() == types.Float32 {
					return m.to32(x)
				}
				return x
			}
		case types.String:
			switch x := v.(type) {
			case Str:
				return x
			case Slice:
				el := uf.(*types.Slice).Elem().Underlying().(*types.Basic)
				if el.Kind() == types.Uint8 {
					return mkStr(m.bytesOf(x))
				}
				out := Str{}
				for i := range x.c {
					out = m.concat(out, m.runeStr(x.c[i].v.(*Term)))
				}
				return out
			case *Term:
				return m.runeStr(m.tt.Zext(x, 32))
			}
		case types.UnsafePointer:
			switch x := v.(type) {
			case *Cell:
				return x
			case SymPtr:
				return m.ptr(x)
			}
		}
	}
	if s, ok := ut.(*types.Slice); ok {
		if x, isS := v.(Str); isS {
			if s.Elem().Underlying().(*types.Basic).Kind() == types.Uint8 {
				return m.mkBytes(m.strTerms(x))
			}
			x = x.forced()
			var cells []Cell
			for p := 0; p < x.Len(); {
				r, n := m.decodeRune(x, p)
				cells = append(cells, Cell{r})
				p += n
			}
			if cells == nil {
				cells = []Cell{}
			}
			return Slice{cells}
		}
		return v
	}
	if _, ok := ut.(*types.Pointer); ok {
		if c, ok := v.(*Cell); ok {
			return c // unsafe.Pointer -> *T; layout is not checked
		}
	}
	if types.Identical(uf, ut) {
		return v
	}
	unsup("conversion %s -> %s", from, to)
	return nil
}

func (m *Machine) runeStr(r *Term) Str {
	if r.IsConst() {
		return Str{s: string(rune(int32(r.val)))}
	}
	if m.branch(m.tt.Ult(r, m.tt.Const(32, 0x80))) {
		return Str{b: []*Term{m.tt.Extract(r, 0, 8)}}
	}
	return Str{s: string(rune(int32(m.concretise(r))))}
}

// ---- builtins

func (m *Machine) execBuiltin(th *Thread, f *Frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	for _, a := range args {
		if p, ok := a.(Poison); ok {
			unsup("use of %s", p.why)
		}
	}
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Str:
			return m.int(x.Len())
		case Slice:
			return m.int(len(x.c))
		case *MapV:
			if x == nil {
				return m.int(0)
			}
			return m.int(x.n)
		case *ChanV:
			if x == nil {
				return m.int(0)
			}
			return m.int(len(x.buf))
		case *Agg:
			return m.int(len(x.cells))
		case *Cell:
			return m.int(len(x.v.(*Agg).cells))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return m.int(cap(x.c))
		case *ChanV:
			if x == nil {
				return m.int(0)
			}
			return m.int(x.cap)
		case *Agg:
			return m.int(len(x.cells))
		case *Cell:
			return m.int(len(x.v.(*Agg).cells))
		}
	case "append":
		s := args[0].(Slice)
		var add []Cell
		switch y := args[1].(type) {
		case Slice:
			add = y.c
		case Str:
			ts := m.strTerms(y)
			add = make([]Cell, len(ts))
			for i, t := range ts {
				add[i].v = t
			}
		}
		if len(add) == 0 {
			return s
		}
		n := len(s.c)
		if n+len(add) <= cap(s.c) {
			r := s.c[:n+len(add)]
			vals := make([]Value, len(add))
			for i := range add {
				vals[i] = add[i].v
			}
			for i := range vals {
				m.store(&r[n+i], vals[i])
			}
			return Slice{r}
		}
		nc := growCap(cap(s.c), n+len(add), c.Args[0].Type().Underlying().(*types.Slice).Elem())
		r := make([]Cell, n+len(add), nc)
		for i := range s.c {
			r[i].v = copyVal(s.c[i].v)
		}
		for i := range add {
			r[n+i].v = copyVal(add[i].v)
		}
		m.fillZero(r[n+len(add):nc], c.Args[0].Type().Underlying().(*types.Slice).Elem())
		return Slice{r}
	case "copy":
		d := args[0].(Slice)
		var src []Cell
		switch y := args[1].(type) {
		case Slice:
			src = y.c
		case Str:
			ts := m.strTerms(y)
			src = make([]Cell, len(ts))
			for i, t := range ts {
				src[i].v = t
			}
		}
		n := min(len(d.c), len(src))
		vals := make([]Value, n)
		for i := 0; i < n; i++ {
			vals[i] = src[i].v
			if _, ok := vals[i].(*Agg); ok {
				vals[i] = copyVal(vals[i])
			}
		}
		for i := 0; i < n; i++ {
			m.store(&d.c[i], vals[i])
		}
		return m.int(n)
	case "delete":
		if mp := args[0].(*MapV); mp != nil {
			m.mapDelete(mp, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapV:
			if x != nil {
				for _, e := range x.entries {
					if !e.dead {
						m.mapKill(x, e)
					}
				}
			}
		case Slice:
			el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x.c {
				m.store(&x.c[i], m.zero(el))
			}
		}
		return nil
	case "panic":
		panic(goPanic{args[0].(Iface), ""})
	case "recover":
		// valid only when called directly by a deferred function run by a panic
		if f.kind == fkPanicDefer && len(th.panics) > 0 {
			p := th.panics[len(th.panics)-1]
			// the frame below f must be the one being unwound
			if len(th.frames) >= 2 && th.frames[len(th.frames)-2].unw && !p.recovered {
				p.recovered = true
				return p.val
			}
		}
		return Iface{}
	case "close":
		ch := args[0].(*ChanV)
		m.closeChan(ch)
		return nil
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			var less *Term
			switch x := r.(type) {
			case *Term:
				_, signed, _ := typeInt(c.Args[0].Type())
				if signed {
					less = m.tt.Slt(a.(*Term), x)
				} else {
					less = m.tt.Ult(a.(*Term), x)
				}
				if b.Name() == "min" {
					r = m.tt.Ite(less, a.(*Term), x)
				} else {
					r = m.tt.Ite(less, x, a.(*Term))
				}
			case Float:
				y := a.(Float)
				if !x.conc() || !y.conc() {
					lt := m.floatBin(token.LSS, x, y).(*Term)
					if m.branch(lt) == (b.Name() == "min") {
						r = x
					} else {
						r = y
					}
					break
				}
				if b.Name() == "min" {
					r = Float{f: math.Min(x.f, y.f)}
				} else {
					r = Float{f: math.Max(x.f, y.f)}
				}
			default:
				unsup("min/max of %T", r)
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Cell); ok && p == nil {
			m.nilDeref()
		}
		return args[0]
	case "ssa:deferstack":
		return (*Cell)(nil)
	case "String": // unsafe.String
		p, n := args[0], m.concInt(args[1])
		return mkStr(m.cellsFrom(p, n))
	case "StringData":
		s := args[0].(Str).forced()
		ts := m.strTerms(s)
		if len(ts) == 0 {
			return (*Cell)(nil)
		}
		sl := m.mkBytes(ts)
		m.eng.notePtr(m, &sl.c[0], sl.c)
		return &sl.c[0]
	case "SliceData":
		s := args[0].(Slice)
		if cap(s.c) == 0 {
			return (*Cell)(nil)
		}
		full := s.c[:cap(s.c)]
		m.eng.notePtr(m, &full[0], full)
		return &full[0]
	case "Slice":
		n := m.concInt(args[1])
		p := args[0].(*Cell)
		if n == 0 {
			return Slice{[]Cell{}}
		}
		if c, ok := m.path.ptrs[p]; ok && len(c) >= n {
			return Slice{c[:n]}
		}
	}
	unsup("builtin %s on %T", b.Name(), args)
	return nil
}

func (m *Machine) cellsFrom(p Value, n int) []*Term {
	if n == 0 {
		return nil
	}
	c, ok := p.(*Cell)
	if ok && m.path != nil {
		if full, ok := m.path.ptrs[c]; ok && len(full) >= n {
			return m.bytesOf(Slice{full[:n]})
		}
	}
	unsup("unsafe.String")
	return nil
}

var sizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

// growCap follows the runtime's growslice
func growCap(old, need int, elem types.Type) int {
	nc := old
	if need > old*2 {
		nc = need
	} else if old < 256 {
		nc = old * 2
	} else {
		for nc < need {
			nc += (nc + 768) / 4
		}
	}
	es := sizes.Sizeof(elem)
	if es == 0 {
		return need
	}
	b := int64(nc) * es
	if b <= 32768 {
		for _, c := range sizeClasses {
			if b <= c {
				b = c
				break
			}
		}
	} else {
		b = (b + 8191) / 8192 * 8192
	}
	return int(b / es)
}

const hangMsg = "does not terminate"
