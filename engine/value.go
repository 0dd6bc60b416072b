package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term          integers, booleans
//	Float          float64 (concrete, or an exactly represented symbolic integer)
//	Str            string
//	Slice          slice (c == nil: nil slice)
//	*Cell          pointer (also unsafe.Pointer)
//	SymPtr         pointer to an element at a symbolic index
//	*Agg           struct or array
//	*MapV, Iface, *Closure, *ChanV, Tuple, Poison, RV, *DecVal
type Value interface{}

type Cell struct{ v Value }

type Agg struct{ cells []Cell }

type Slice struct{ c []Cell }

type SymPtr struct {
	c   []Cell
	idx *Term // 64 bit, known to be in range
}

type Float struct {
	f  float64
	t  *Term // when non-nil: the value is the signed integer t
	fp *Term // when non-nil: the double term
}

type Iface struct {
	t types.Type // nil: nil interface
	v Value
}

type Closure struct {
	fn     *ssa.Function
	free   []Value
	native func(m *Machine, args []Value) Value
	name   string
}

type Tuple []Value

type Poison struct{ why string }

// RV stands for reflect.Value
type RV struct{ i Iface }

// DecVal stands for the *big.Int inside decimal.Decimal: sign and magnitude
type DecVal struct {
	neg *Term
	mag *Term // 64 bit
}

type Str struct {
	s    string
	b    []*Term // symbolic bytes when non-nil
	lazy *lazyStr
}

type lazyStr struct {
	force func() Str
	done  bool
	v     Str
}

type mapEntry struct {
	k    Value
	v    Cell
	dead bool
}

type MapV struct {
	entries []*mapEntry
	idx     map[string]*mapEntry // concrete keys
	nsym    int                  // entries with symbolic keys
	n       int
	id      *Cell
}

func (mp *MapV) live() []*mapEntry {
	var out []*mapEntry
	for _, e := range mp.entries {
		if !e.dead {
			out = append(out, e)
		}
	}
	return out
}

type ChanV struct {
	buf    []Value
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	id     int
}

type waiter struct {
	th   *Thread
	val  Value
	ok   bool
	done *bool // shared among select cases
	idx  int   // select case index
	sel  bool
}

type MapIter struct {
	m   *MapV
	pos int
}
type StrIter struct {
	s   Str
	pos int
}

type Unsupported struct{ msg string }

func unsup(format string, a ...interface{}) {
	panic(Unsupported{fmt.Sprintf(format, a...)})
}

func (s Str) forced() Str {
	if s.lazy != nil {
		if !s.lazy.done {
			s.lazy.v = s.lazy.force().forced()
			s.lazy.done = true
		}
		return s.lazy.v
	}
	return s
}

func (s Str) Len() int {
	s = s.forced()
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (s Str) isConcrete() bool {
	if s.lazy != nil && !s.lazy.done {
		return false
	}
	return s.forced().b == nil
}

func (m *Machine) strByte(s Str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return m.tt.Const(8, uint64(s.s[i]))
}

func (m *Machine) strTerms(s Str) []*Term {
	s = s.forced()
	if s.b != nil {
		return s.b
	}
	out := make([]*Term, len(s.s))
	for i := range out {
		out[i] = m.tt.Const(8, uint64(s.s[i]))
	}
	return out
}

// mkStr builds a string from byte terms, concrete when possible
func mkStr(b []*Term) Str {
	for _, t := range b {
		if !t.IsConst() {
			return Str{b: b}
		}
	}
	x := make([]byte, len(b))
	for i, t := range b {
		x[i] = byte(t.val)
	}
	return Str{s: string(x)}
}

func (m *Machine) substr(s Str, lo, hi int) Str {
	s = s.forced()
	if s.b != nil {
		return mkStr(s.b[lo:hi])
	}
	return Str{s: s.s[lo:hi]}
}

func (m *Machine) concat(a, b Str) Str {
	a0, b0 := a, b
	if a.lazy != nil && !a.lazy.done || b.lazy != nil && !b.lazy.done {
		return Str{lazy: &lazyStr{force: func() Str { return m.concat(a0.forced(), b0.forced()) }}}
	}
	a, b = a.forced(), b.forced()
	if a.b == nil && b.b == nil {
		return Str{s: a.s + b.s}
	}
	out := make([]*Term, 0, a.Len()+b.Len())
	out = append(out, m.strTerms(a)...)
	out = append(out, m.strTerms(b)...)
	return Str{b: out}
}

func (m *Machine) strEq(a, b Str) *Term {
	if a.lazy != nil && a.lazy == b.lazy {
		return m.tt.tru
	}
	a, b = a.forced(), b.forced()
	if a.Len() != b.Len() {
		return m.tt.fls
	}
	if a.b == nil && b.b == nil {
		return m.tt.Bool(a.s == b.s)
	}
	r := m.tt.tru
	for i := 0; i < a.Len(); i++ {
		r = m.tt.And(r, m.tt.Eq(m.strByte(a, i), m.strByte(b, i)))
	}
	return r
}

func (m *Machine) strLess(a, b Str) *Term {
	a, b = a.forced(), b.forced()
	if a.b == nil && b.b == nil {
		return m.tt.Bool(a.s < b.s)
	}
	n := min(a.Len(), b.Len())
	r := m.tt.Bool(a.Len() < b.Len())
	for i := n - 1; i >= 0; i-- {
		x, y := m.strByte(a, i), m.strByte(b, i)
		r = m.tt.Or(m.tt.Ult(x, y), m.tt.And(m.tt.Eq(x, y), r))
	}
	return r
}

// ---- types

func intWidth(b *types.Basic) (w uint8, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func typeInt(t types.Type) (w uint8, signed bool, ok bool) {
	if b, isb := t.Underlying().(*types.Basic); isb {
		return intWidth(b)
	}
	return 0, false, false
}

func (m *Machine) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intWidth(u); ok {
			return m.tt.Const(w, 0)
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return m.tt.fls
		case types.Float64, types.Float32, types.UntypedFloat:
			return Float{}
		case types.String, types.UntypedString:
			return Str{}
		case types.UnsafePointer, types.UntypedNil:
			return (*Cell)(nil)
		}
		return Poison{"zero of " + t.String()}
	case *types.Pointer:
		return (*Cell)(nil)
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*MapV)(nil)
	case *types.Chan:
		return (*ChanV)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Name() == "Value" && n.Obj().Pkg().Path() == "reflect" {
			return RV{}
		}
		a := &Agg{cells: make([]Cell, u.NumFields())}
		for i := range a.cells {
			a.cells[i].v = m.zero(u.Field(i).Type())
		}
		return a
	case *types.Array:
		n := int(u.Len())
		a := &Agg{cells: make([]Cell, n)}
		m.fillZero(a.cells, u.Elem())
		return a
	case *types.Tuple:
		out := make(Tuple, u.Len())
		for i := range out {
			out[i] = m.zero(u.At(i).Type())
		}
		return out
	}
	unsup("zero value of %s", t)
	return nil
}

func (m *Machine) fillZero(c []Cell, elem types.Type) {
	if len(c) == 0 {
		return
	}
	z := m.zero(elem)
	c[0].v = z
	if _, ok := z.(*Agg); ok {
		for i := 1; i < len(c); i++ {
			c[i].v = m.zero(elem)
		}
		return
	}
	for i := 1; i < len(c); i++ {
		c[i].v = z
	}
}

func copyVal(v Value) Value {
	if a, ok := v.(*Agg); ok {
		n := &Agg{cells: make([]Cell, len(a.cells))}
		for i := range a.cells {
			n.cells[i].v = copyVal(a.cells[i].v)
		}
		return n
	}
	return v
}

func copyAggInto(dst *Agg, src *Agg) *Agg { // untrailed, for fresh memory
	for i := range src.cells {
		dst.cells[i].v = copyVal(src.cells[i].v)
	}
	return dst
}

// store writes v into *p keeping the identity of aggregates, with undo logging.
func (m *Machine) store(p *Cell, v Value) {
	if src, ok := v.(*Agg); ok {
		if dst, ok := p.v.(*Agg); ok && len(dst.cells) == len(src.cells) {
			if dst == src {
				return
			}
			for i := range src.cells {
				m.store(&dst.cells[i], src.cells[i].v)
			}
			return
		}
		v = copyVal(v)
	}
	m.setCell(p, v)
}

func (m *Machine) setCell(p *Cell, v Value) {
	if m.trailOn {
		m.trail = append(m.trail, trailEntry{c: p, old: p.v})
	}
	p.v = v
}

type trailEntry struct {
	c   *Cell
	old Value
	fn  func()
}

func (m *Machine) undo(fn func()) {
	if m.trailOn {
		m.trail = append(m.trail, trailEntry{fn: fn})
	}
}

func (m *Machine) rollback() {
	for i := len(m.trail) - 1; i >= 0; i-- {
		e := &m.trail[i]
		if e.fn != nil {
			e.fn()
		} else {
			e.c.v = e.old
		}
		*e = trailEntry{}
	}
	m.trail = m.trail[:0]
}

// ---- equality

func (m *Machine) eq(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return m.tt.Eq(x, y)
		}
	case Str:
		return m.strEq(x, b.(Str))
	case Float:
		y := b.(Float)
		if x.conc() && y.conc() {
			return m.tt.Bool(x.f == y.f)
		}
		if x.fp != nil || y.fp != nil {
			return m.tt.fp(OpFpEq, m.fpTerm(x), m.fpTerm(y), 0)
		}
		tx, ok1 := m.floatInt(x)
		ty, ok2 := m.floatInt(y)
		if ok1 && ok2 {
			return m.tt.Eq(tx, ty)
		}
		if !ok1 || !ok2 { // an integer never equals a non-integer
			return m.tt.fls
		}
	case *Cell:
		if y, ok := b.(*Cell); ok {
			return m.tt.Bool(x == y)
		}
	case *MapV:
		return m.tt.Bool(x == b.(*MapV))
	case *ChanV:
		return m.tt.Bool(x == b.(*ChanV))
	case *Closure:
		y := b.(*Closure)
		if x == nil || y == nil {
			return m.tt.Bool(x == y)
		}
	case Slice:
		y := b.(Slice)
		if x.c == nil || y.c == nil {
			return m.tt.Bool(x.c == nil && y.c == nil)
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			unsup("compare interface with %T", b)
		}
		if x.t == nil || y.t == nil {
			return m.tt.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return m.tt.fls
		}
		if !types.Comparable(x.t) {
			m.runtimePanic("runtime error: comparing uncomparable type " + x.t.String())
		}
		return m.eq(x.v, y.v)
	case *Agg:
		y := b.(*Agg)
		r := m.tt.tru
		for i := range x.cells {
			r = m.tt.And(r, m.eq(x.cells[i].v, y.cells[i].v))
		}
		return r
	case RV:
	}
	if p, ok := a.(Poison); ok {
		unsup("use of %s", p.why)
	}
	if p, ok := b.(Poison); ok {
		unsup("use of %s", p.why)
	}
	unsup("equality of %T and %T", a, b)
	return nil
}

func (m *Machine) floatInt(f Float) (*Term, bool) {
	if f.t != nil {
		return f.t, true
	}
	if f.fp != nil {
		return nil, false
	}
	if f.f == math.Trunc(f.f) && math.Abs(f.f) < 1<<62 {
		return m.tt.Const(64, uint64(int64(f.f))), true
	}
	return nil, false
}

// ---- maps

// canon gives a canonical text of a concrete key; ok is false for symbolic keys
func (m *Machine) canon(v Value, sb *strings.Builder) bool {
	switch x := v.(type) {
	case *Term:
		if !x.IsConst() {
			return false
		}
		fmt.Fprintf(sb, "i%d,", x.val)
	case Str:
		x = x.forced()
		if x.b != nil {
			return false
		}
		fmt.Fprintf(sb, "s%d:%s,", len(x.s), x.s)
	case *Cell:
		fmt.Fprintf(sb, "p%p,", x)
	case *ChanV:
		fmt.Fprintf(sb, "c%p,", x)
	case Iface:
		if x.t == nil {
			sb.WriteString("nil,")
			return true
		}
		if !types.Comparable(x.t) {
			m.runtimePanic("runtime error: hash of unhashable type " + x.t.String())
		}
		sb.WriteString("t" + x.t.String() + ":")
		return m.canon(x.v, sb)
	case *Agg:
		sb.WriteString("{")
		for i := range x.cells {
			if !m.canon(x.cells[i].v, sb) {
				return false
			}
		}
		sb.WriteString("}")
	case Float:
		if !x.conc() {
			return false
		}
		fmt.Fprintf(sb, "f%x,", math.Float64bits(x.f))
	case Poison:
		unsup("use of %s", x.why)
	default:
		unsup("map key %T", v)
	}
	return true
}

func (m *Machine) mapFind(mp *MapV, k Value) *mapEntry {
	if mp == nil {
		return nil
	}
	var sb strings.Builder
	conc := m.canon(k, &sb)
	if conc {
		if e := mp.idx[sb.String()]; e != nil {
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.entries {
		if e.dead {
			continue
		}
		c := m.eq(k, e.k)
		if c.False() {
			continue
		}
		if m.branch(c) {
			return e
		}
	}
	return nil
}

func (m *Machine) mapSet(mp *MapV, k, v Value) {
	if e := m.mapFind(mp, k); e != nil {
		m.store(&e.v, v)
		return
	}
	e := &mapEntry{k: copyVal(k), v: Cell{copyVal(v)}}
	var sb strings.Builder
	old := mp.entries
	if m.canon(k, &sb) {
		key := sb.String()
		prev := mp.idx[key]
		mp.idx[key] = e
		m.undo(func() {
			if prev == nil {
				delete(mp.idx, key)
			} else {
				mp.idx[key] = prev
			}
			mp.entries = old
			mp.n--
		})
	} else {
		mp.nsym++
		m.undo(func() { mp.nsym--; mp.entries = old; mp.n-- })
	}
	mp.n++
	mp.entries = append(old, e)
}

func (m *Machine) mapDelete(mp *MapV, k Value) {
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	m.mapKill(mp, e)
}

func (m *Machine) mapKill(mp *MapV, e *mapEntry) {
	var sb strings.Builder
	e.dead = true
	mp.n--
	if m.canon(e.k, &sb) {
		key := sb.String()
		delete(mp.idx, key)
		m.undo(func() { e.dead = false; mp.n++; mp.idx[key] = e })
	} else {
		mp.nsym--
		m.undo(func() { e.dead = false; mp.n++; mp.nsym++ })
	}
}

func newMap() *MapV { return &MapV{idx: map[string]*mapEntry{}} }

// ---- byte slices

func (m *Machine) bytesOf(v Value) []*Term {
	s := v.(Slice)
	out := make([]*Term, len(s.c))
	for i := range s.c {
		t, ok := s.c[i].v.(*Term)
		if !ok {
			unsup("byte slice with %T", s.c[i].v)
		}
		out[i] = t
	}
	return out
}

func (m *Machine) mkBytes(b []*Term) Slice {
	c := make([]Cell, len(b))
	for i, t := range b {
		c[i].v = t
	}
	return Slice{c}
}

func (m *Machine) constBytes(b []byte) Slice {
	c := make([]Cell, len(b))
	for i, t := range b {
		c[i].v = m.tt.Const(8, uint64(t))
	}
	return Slice{c}
}

func (m *Machine) int(n int) *Term { return m.tt.Const(64, uint64(int64(n))) }
