package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Terms are hash-consed bit-vector / boolean expressions. Width 0 is Bool.
type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpIte
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpMul
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpBvand
	OpBvor
	OpBvxor
	OpShl
	OpLshr
	OpAshr
	OpConcat
	OpExtract // val = lo
	OpZext
	OpSext
	OpUF // name, one argument, 64 -> 64
)

type Term struct {
	op      Op
	w       uint8
	id      uint32
	a, b, c *Term
	val     uint64
	lo, hi  uint64 // unsigned range
	name    string
	vars    []*Term
	varsOK  bool
	evGen   uint32
	evVal   uint64
	defGen  uint32 // solver definition generation
}

type tkey struct {
	op      Op
	w       uint8
	a, b, c uint32
	val     uint64
	name    string
}

type opkey struct {
	op   Op
	a, b uint32
}

type TermTable struct {
	memo  map[opkey]*Term
	tab   map[tkey]*Term
	next  uint32
	small [65][257]*Term
	tru   *Term
	fls   *Term
	evGen uint32
}

func NewTermTable() *TermTable {
	t := &TermTable{tab: map[tkey]*Term{}, next: 1, memo: map[opkey]*Term{}}
	t.tru = t.Const(0, 1)
	t.fls = t.Const(0, 0)
	return t
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (tt *TermTable) mk(op Op, w uint8, a, b, c *Term, val uint64, name string) *Term {
	k := tkey{op, w, tid(a), tid(b), tid(c), val, name}
	if t, ok := tt.tab[k]; ok {
		return t
	}
	t := &Term{op: op, w: w, a: a, b: b, c: c, val: val, name: name, id: tt.next}
	tt.next++
	tt.setRange(t)
	tt.tab[k] = t
	return t
}

func (tt *TermTable) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if v <= 256 {
		if t := tt.small[w][v]; t != nil {
			return t
		}
	}
	t := tt.mk(OpConst, w, nil, nil, nil, v, "")
	if v <= 256 {
		tt.small[w][v] = t
	}
	return t
}

func (tt *TermTable) Bool(b bool) *Term {
	if b {
		return tt.tru
	}
	return tt.fls
}

func (tt *TermTable) Var(w uint8, name string) *Term {
	return tt.mk(OpVar, w, nil, nil, nil, 0, name)
}

// VarRange is a variable restricted to lo..hi (unsigned); the solver asserts the range.
func (tt *TermTable) VarRange(w uint8, name string, lo, hi uint64) *Term {
	name = fmt.Sprintf("%s_r%d_%d", name, lo, hi)
	t := tt.mk(OpVar, w, nil, nil, nil, 0, name)
	t.lo, t.hi = lo, hi
	return t
}

func (t *Term) IsConst() bool { return t.op == OpConst }
func (t *Term) True() bool    { return t.op == OpConst && t.val == 1 && t.w == 0 }
func (t *Term) False() bool   { return t.op == OpConst && t.val == 0 && t.w == 0 }

func sx(v uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(v)
	}
	sh := 64 - w
	return int64(v<<sh) >> sh
}

func (tt *TermTable) setRange(t *Term) {
	m := mask(t.w)
	t.lo, t.hi = 0, m
	switch t.op {
	case OpConst:
		t.lo, t.hi = t.val, t.val
	case OpIte:
		t.lo, t.hi = min(t.b.lo, t.c.lo), max(t.b.hi, t.c.hi)
	case OpAdd:
		l, c1 := bits.Add64(t.a.lo, t.b.lo, 0)
		h, c2 := bits.Add64(t.a.hi, t.b.hi, 0)
		if t.w < 64 {
			c1, c2 = l>>t.w, h>>t.w
		}
		if c1 == c2 {
			t.lo, t.hi = l&m, h&m
		}
	case OpMul:
		h1, l := bits.Mul64(t.a.hi, t.b.hi)
		if h1 == 0 && l <= m {
			t.lo, t.hi = t.a.lo*t.b.lo, l
		}
	case OpUdiv:
		if t.b.lo > 0 {
			t.lo, t.hi = t.a.lo/t.b.hi, t.a.hi/t.b.lo
		}
	case OpUrem:
		if t.b.lo > 0 {
			t.hi = min(t.a.hi, t.b.hi-1)
		}
	case OpBvand:
		t.hi = min(t.a.hi, t.b.hi)
	case OpBvor, OpBvxor:
		n := max(bits.Len64(t.a.hi), bits.Len64(t.b.hi))
		t.hi = min(m, mask(uint8(n))|0)
		if n == 0 {
			t.hi = 0
		}
		if t.op == OpBvor {
			t.lo = max(t.a.lo, t.b.lo)
		}
	case OpLshr:
		if t.b.IsConst() {
			if t.b.val >= uint64(t.w) {
				t.lo, t.hi = 0, 0
			} else {
				t.lo, t.hi = t.a.lo>>t.b.val, t.a.hi>>t.b.val
			}
		} else {
			t.hi = t.a.hi
		}
	case OpShl:
		if t.b.IsConst() && t.b.val < uint64(t.w) {
			if t.a.hi <= m>>t.b.val {
				t.lo, t.hi = t.a.lo<<t.b.val, t.a.hi<<t.b.val
			}
		}
	case OpConcat: // a high, b low
		t.lo = t.a.lo<<t.b.w | t.b.lo
		t.hi = t.a.hi<<t.b.w | t.b.hi
	case OpZext:
		t.lo, t.hi = t.a.lo, t.a.hi
	case OpSext:
		if t.a.hi < uint64(1)<<(t.a.w-1) {
			t.lo, t.hi = t.a.lo, t.a.hi
		}
	case OpExtract:
		if t.val == 0 && t.a.hi <= m {
			t.lo, t.hi = t.a.lo, t.a.hi
		} else if t.a.hi>>t.val <= m {
			t.lo, t.hi = t.a.lo>>t.val, t.a.hi>>t.val
		}
	}
}

func (t *Term) nonneg() bool { return t.w > 0 && t.hi < uint64(1)<<(t.w-1) }

// ---- booleans

func (tt *TermTable) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return tt.Bool(a.val == 0)
	case OpNot:
		return a.a
	case OpUlt:
		if a.b.IsConst() && (a.a.op == OpAdd || a.a.op == OpMul) {
			return tt.mk(OpNot, 0, a, nil, nil, 0, "")
		}
		return tt.Ule(a.b, a.a)
	case OpUle:
		return tt.Ult(a.b, a.a)
	case OpSlt:
		return tt.Sle(a.b, a.a)
	case OpSle:
		return tt.Slt(a.b, a.a)
	}
	return tt.mk(OpNot, 0, a, nil, nil, 0, "")
}

func (tt *TermTable) And(a, b *Term) *Term {
	if a.IsConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.IsConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tt.Not(a) == b {
		return tt.fls
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpAnd, 0, a, b, nil, 0, "")
}

func (tt *TermTable) Or(a, b *Term) *Term {
	if a.IsConst() {
		if a.val == 1 {
			return a
		}
		return b
	}
	if b.IsConst() {
		if b.val == 1 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if tt.Not(a) == b {
		return tt.tru
	}
	if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpOr, 0, a, b, nil, 0, "")
}

func (tt *TermTable) Ite(c, a, b *Term) *Term {
	if c.IsConst() {
		if c.val == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.IsConst() && b.IsConst() {
			if a.val == 1 {
				return c
			}
			return tt.Not(c)
		}
		return tt.Or(tt.And(c, a), tt.And(tt.Not(c), b))
	}
	if c.op == OpNot {
		return tt.Ite(c.a, b, a)
	}
	return tt.mk(OpIte, a.w, c, a, b, 0, "")
}

func (tt *TermTable) Eq(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return tt.Eq0(a, b)
	}
	k := opkey{OpEq, a.id, b.id}
	if r, ok := tt.memo[k]; ok {
		return r
	}
	r := tt.Eq0(a, b)
	tt.memo[k] = r
	return r
}

func (tt *TermTable) Eq0(a, b *Term) *Term {
	if a == b {
		return tt.tru
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width %d %d", a.w, b.w))
	}
	if a.IsConst() && b.IsConst() {
		return tt.Bool(a.val == b.val)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a.w == 0 {
		if b.IsConst() {
			if b.val == 1 {
				return a
			}
			return tt.Not(a)
		}
		if tt.Not(a) == b {
			return tt.fls
		}
	} else {
		if a.hi < b.lo || b.hi < a.lo {
			return tt.fls
		}
		if b.IsConst() {
			switch a.op {
			case OpIte:
				if a.b.IsConst() && a.c.IsConst() {
					x, y := a.b.val == b.val, a.c.val == b.val
					if x && y {
						return tt.tru
					}
					if x {
						return a.a
					}
					if y {
						return tt.Not(a.a)
					}
					return tt.fls
				}
				if a.b.IsConst() && a.b.val != b.val {
					return tt.And(tt.Not(a.a), tt.Eq(a.c, b))
				}
				if a.c.IsConst() && a.c.val != b.val {
					return tt.And(a.a, tt.Eq(a.b, b))
				}
			case OpAdd:
				if a.b.IsConst() {
					return tt.Eq(a.a, tt.Const(a.w, b.val-a.b.val))
				}
				if b.val == 0 && noWrapAdd(a.a, a.b) {
					return tt.And(tt.Eq(a.a, b), tt.Eq(a.b, b))
				}
			case OpMul:
				if a.b.IsConst() {
					if h, l := bits.Mul64(a.a.hi, a.b.val); h == 0 && l <= mask(a.w) {
						if b.val%a.b.val != 0 {
							return tt.fls
						}
						return tt.Eq(a.a, tt.Const(a.w, b.val/a.b.val))
					}
				}
			case OpBvxor:
				if a.b.IsConst() {
					return tt.Eq(a.a, tt.Const(a.w, b.val^a.b.val))
				}
			case OpZext:
				if b.val > mask(a.a.w) {
					return tt.fls
				}
				return tt.Eq(a.a, tt.Const(a.a.w, b.val))
			case OpSext:
				v := uint64(sx(b.val, a.a.w)) & mask(a.w)
				if v != b.val {
					return tt.fls
				}
				return tt.Eq(a.a, tt.Const(a.a.w, b.val))
			case OpExtract:
				if a.val == 0 && a.a.hi <= mask(a.w) {
					return tt.Eq(a.a, tt.Const(a.a.w, b.val))
				}
			case OpConcat:
				return tt.And(tt.Eq(a.a, tt.Const(a.a.w, b.val>>a.b.w)), tt.Eq(a.b, tt.Const(a.b.w, b.val)))
			}
		} else {
			// Same-shaped concats compare piecewise.
			pa, pb := tt.pieces(a), tt.pieces(b)
			if len(pa) > 1 && len(pa) == len(pb) {
				same := true
				for i := range pa {
					if pa[i].w != pb[i].w {
						same = false
					}
				}
				if same {
					r := tt.tru
					for i := range pa {
						r = tt.And(r, tt.Eq(tt.pieceTerm(pa[i]), tt.pieceTerm(pb[i])))
					}
					return r
				}
			}
			// x+c == y+c, (x+y) == (x+z)
			if a.op == OpAdd && b.op == OpAdd {
				if a.b == b.b {
					return tt.Eq(a.a, b.a)
				}
				if a.a == b.a {
					return tt.Eq(a.b, b.b)
				}
				if x, y, ok := tt.cancelSums(a, b); ok {
					return tt.Eq(x, y)
				}
			}
		}
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpEq, 0, a, b, nil, 0, "")
}

func (tt *TermTable) Ult(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return tt.Ult0(a, b)
	}
	k := opkey{OpUlt, a.id, b.id}
	if r, ok := tt.memo[k]; ok {
		return r
	}
	r := tt.Ult0(a, b)
	tt.memo[k] = r
	return r
}

func (tt *TermTable) Ult0(a, b *Term) *Term {
	if a == b {
		return tt.fls
	}
	if a.hi < b.lo {
		return tt.tru
	}
	if a.lo >= b.hi {
		return tt.fls
	}
	if b.IsConst() && b.val == 1 {
		return tt.Eq(a, tt.Const(a.w, 0))
	}
	if !a.IsConst() && (a.op == OpAdd || b.op == OpMul) && !b.IsConst() && tt.sumContains(a, b) {
		return tt.fls
	}
	if b.IsConst() && (a.op == OpAdd || a.op == OpMul) {
		if q, r := tt.linDiv(a, b.val); q != nil && r.hi < b.val {
			return tt.Eq(q, tt.Const(a.w, 0))
		}
	}
	if a.op == OpZext && b.IsConst() && b.val <= mask(a.a.w) {
		return tt.Ult(a.a, tt.Const(a.a.w, b.val))
	}
	if b.op == OpZext && a.IsConst() && a.val <= mask(b.a.w) {
		return tt.Ult(tt.Const(b.a.w, a.val), b.a)
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return tt.Ult(a.a, b.a)
	}
	return tt.mk(OpUlt, 0, a, b, nil, 0, "")
}

func (tt *TermTable) Ule(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return tt.Ule0(a, b)
	}
	k := opkey{OpUle, a.id, b.id}
	if r, ok := tt.memo[k]; ok {
		return r
	}
	r := tt.Ule0(a, b)
	tt.memo[k] = r
	return r
}

func (tt *TermTable) Ule0(a, b *Term) *Term {
	if a == b {
		return tt.tru
	}
	if a.hi <= b.lo {
		return tt.tru
	}
	if a.lo > b.hi {
		return tt.fls
	}
	if !b.IsConst() && (b.op == OpAdd || a.op == OpMul) && !a.IsConst() && tt.sumContains(b, a) {
		return tt.tru
	}
	if a.IsConst() && a.val > 0 && (b.op == OpAdd || b.op == OpMul) {
		return tt.Not(tt.Ult(b, a))
	}
	if b.IsConst() && b.val < mask(b.w) && (a.op == OpAdd || a.op == OpMul) {
		return tt.Ult(a, tt.Const(b.w, b.val+1))
	}
	if a.op == OpZext && b.IsConst() && b.val <= mask(a.a.w) {
		return tt.Ule(a.a, tt.Const(a.a.w, b.val))
	}
	if b.op == OpZext && a.IsConst() && a.val <= mask(b.a.w) {
		return tt.Ule(tt.Const(b.a.w, a.val), b.a)
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return tt.Ule(a.a, b.a)
	}
	return tt.mk(OpUle, 0, a, b, nil, 0, "")
}

func (tt *TermTable) Slt(a, b *Term) *Term {
	if a == b {
		return tt.fls
	}
	if a.IsConst() && b.IsConst() {
		return tt.Bool(sx(a.val, a.w) < sx(b.val, b.w))
	}
	if a.nonneg() && b.nonneg() {
		return tt.Ult(a, b)
	}
	sgn := uint64(1) << (a.w - 1)
	if a.nonneg() && b.lo >= sgn {
		return tt.fls
	}
	if b.nonneg() && a.lo >= sgn {
		return tt.tru
	}
	if a.lo >= sgn && b.lo >= sgn {
		return tt.Ult(a, b)
	}
	return tt.mk(OpSlt, 0, a, b, nil, 0, "")
}

func (tt *TermTable) Sle(a, b *Term) *Term {
	if a == b {
		return tt.tru
	}
	if a.IsConst() && b.IsConst() {
		return tt.Bool(sx(a.val, a.w) <= sx(b.val, b.w))
	}
	if a.nonneg() && b.nonneg() {
		return tt.Ule(a, b)
	}
	sgn := uint64(1) << (a.w - 1)
	if a.nonneg() && b.lo >= sgn {
		return tt.fls
	}
	if b.nonneg() && a.lo >= sgn {
		return tt.tru
	}
	if a.lo >= sgn && b.lo >= sgn {
		return tt.Ule(a, b)
	}
	return tt.mk(OpSle, 0, a, b, nil, 0, "")
}

// Rebuild makes the term of t's kind over new operands.
func (tt *TermTable) Rebuild(t, a, b, c *Term) *Term {
	switch t.op {
	case OpNot:
		return tt.Not(a)
	case OpAnd:
		return tt.And(a, b)
	case OpOr:
		return tt.Or(a, b)
	case OpIte:
		return tt.Ite(a, b, c)
	case OpEq:
		return tt.Eq(a, b)
	case OpUlt:
		return tt.Ult(a, b)
	case OpUle:
		return tt.Ule(a, b)
	case OpSlt:
		return tt.Slt(a, b)
	case OpSle:
		return tt.Sle(a, b)
	case OpAdd:
		return tt.Add(a, b)
	case OpMul:
		return tt.Mul(a, b)
	case OpUdiv:
		return tt.Udiv(a, b)
	case OpUrem:
		return tt.Urem(a, b)
	case OpSdiv:
		return tt.Sdiv(a, b)
	case OpSrem:
		return tt.Srem(a, b)
	case OpBvand:
		return tt.Bvand(a, b)
	case OpBvor:
		return tt.Bvor(a, b)
	case OpBvxor:
		return tt.Bvxor(a, b)
	case OpShl:
		return tt.Shl(a, b)
	case OpLshr:
		return tt.Lshr(a, b)
	case OpAshr:
		return tt.Ashr(a, b)
	case OpConcat:
		return tt.fromPieces(append(append([]piece{}, tt.pieces(b)...), tt.pieces(a)...))
	case OpExtract:
		return tt.Extract(a, uint8(t.val), t.w)
	case OpZext:
		return tt.Zext(a, t.w)
	case OpSext:
		return tt.Sext(a, t.w)
	case OpUF:
		return tt.UF(t.name, a)
	case OpFpInt:
		if a.IsConst() {
			return tt.mk(OpFpConst, 64, nil, nil, nil, math.Float64bits(float64(int64(a.val))), "")
		}
		return tt.mk(OpFpInt, 64, a, nil, nil, 0, "")
	}
	if isFP(t.op) && t.a != nil {
		return tt.fp(t.op, a, b, t.val)
	}
	return t
}

// ---- bit pieces (concatenation normal form)

type piece struct {
	t  *Term // nil: constant c
	lo uint8
	w  uint8
	c  uint64
}

// pieces returns the parts of t from low to high bits.
func (tt *TermTable) pieces(t *Term) []piece {
	switch t.op {
	case OpConst:
		return []piece{{w: t.w, c: t.val}}
	case OpConcat:
		return append(tt.pieces(t.b), tt.pieces(t.a)...)
	case OpZext:
		return append(tt.pieces(t.a), piece{w: t.w - t.a.w})
	case OpExtract:
		return []piece{{t: t.a, lo: uint8(t.val), w: t.w}}
	}
	if n := uint8(bits.Len64(t.hi)); n < t.w {
		if n == 0 {
			return []piece{{w: t.w}}
		}
		return []piece{{t: t, lo: 0, w: n}, {w: t.w - n}}
	}
	return []piece{{t: t, lo: 0, w: t.w}}
}

func (p piece) sub(lo, w uint8) piece {
	if p.t == nil {
		return piece{w: w, c: (p.c >> lo) & mask(w)}
	}
	return piece{t: p.t, lo: p.lo + lo, w: w}
}

func slicePieces(ps []piece, lo, w uint8) []piece {
	var out []piece
	pos := uint8(0)
	for _, p := range ps {
		s, e := pos, pos+p.w
		l, h := max(s, lo), min(e, lo+w)
		if l < h {
			out = append(out, p.sub(l-s, h-l))
		}
		pos = e
	}
	return out
}

func (tt *TermTable) pieceTerm(p piece) *Term {
	if p.t == nil {
		return tt.Const(p.w, p.c)
	}
	if p.lo == 0 && p.w == p.t.w {
		return p.t
	}
	return tt.mk(OpExtract, p.w, p.t, nil, nil, uint64(p.lo), "")
}

func (tt *TermTable) fromPieces(ps []piece) *Term {
	var q []piece
	for _, p := range ps {
		if p.w == 0 {
			continue
		}
		if n := len(q); n > 0 {
			l := &q[n-1]
			if l.t == nil && p.t == nil {
				l.c |= p.c << l.w
				l.w += p.w
				continue
			}
			if l.t != nil && l.t == p.t && l.lo+l.w == p.lo {
				l.w += p.w
				continue
			}
		}
		q = append(q, p)
	}
	// a piece holding all significant bits of its term, followed by zeros, is the term itself
	for i := 0; i+1 < len(q); i++ {
		p, z := &q[i], &q[i+1]
		if p.t != nil && p.lo == 0 && p.w < p.t.w && z.t == nil && bits.Len64(p.t.hi) <= int(p.w) {
			d := p.t.w - p.w
			if z.w >= d && z.c&mask(d) == 0 {
				p.w = p.t.w
				z.w -= d
				z.c >>= d
				if z.w == 0 {
					q = append(q[:i+1], q[i+2:]...)
				}
			}
		}
	}
	t := tt.pieceTerm(q[0])
	for i, p := range q[1:] {
		if p.t == nil && p.c == 0 && i == len(q)-2 {
			t = tt.mk(OpZext, t.w+p.w, t, nil, nil, 0, "")
		} else {
			x := tt.pieceTerm(p)
			if t.op == OpConst && x.op == OpConst {
				t = tt.Const(t.w+x.w, x.val<<t.w|t.val)
			} else {
				t = tt.mk(OpConcat, t.w+x.w, x, t, nil, 0, "")
			}
		}
	}
	return t
}

func (tt *TermTable) Extract(a *Term, lo, w uint8) *Term {
	if lo == 0 && w == a.w {
		return a
	}
	switch a.op {
	case OpConst:
		return tt.Const(w, a.val>>lo)
	case OpConcat, OpZext, OpExtract:
		return tt.fromPieces(slicePieces(tt.pieces(a), lo, w))
	case OpBvand:
		return tt.Bvand(tt.Extract(a.a, lo, w), tt.Extract(a.b, lo, w))
	case OpBvor:
		return tt.Bvor(tt.Extract(a.a, lo, w), tt.Extract(a.b, lo, w))
	case OpBvxor:
		return tt.Bvxor(tt.Extract(a.a, lo, w), tt.Extract(a.b, lo, w))
	case OpAdd:
		if lo == 0 {
			return tt.Add(tt.Extract(a.a, lo, w), tt.Extract(a.b, lo, w))
		}
	case OpMul:
		if lo == 0 {
			return tt.Mul(tt.Extract(a.a, lo, w), tt.Extract(a.b, lo, w))
		}
	case OpSext:
		if lo+w <= a.a.w {
			return tt.Extract(a.a, lo, w)
		}
	case OpIte:
		if a.b.IsConst() || a.c.IsConst() {
			return tt.Ite(a.a, tt.Extract(a.b, lo, w), tt.Extract(a.c, lo, w))
		}
	}
	if lo > 0 && a.hi>>lo == 0 {
		return tt.Const(w, 0)
	}
	if ps := tt.pieces(a); len(ps) > 1 {
		return tt.fromPieces(slicePieces(ps, lo, w))
	}
	return tt.mk(OpExtract, w, a, nil, nil, uint64(lo), "")
}

func (tt *TermTable) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return tt.Extract(a, 0, w)
	}
	if a.w == 0 {
		return tt.Ite(a, tt.Const(w, 1), tt.Const(w, 0))
	}
	if a.IsConst() {
		return tt.Const(w, a.val)
	}
	if a.op == OpIte && a.b.IsConst() && a.c.IsConst() {
		return tt.Ite(a.a, tt.Zext(a.b, w), tt.Zext(a.c, w))
	}
	return tt.fromPieces(append(tt.pieces(a), piece{w: w - a.w}))
}

func (tt *TermTable) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		return tt.Extract(a, 0, w)
	}
	if a.IsConst() {
		return tt.Const(w, uint64(sx(a.val, a.w)))
	}
	if a.nonneg() {
		return tt.Zext(a, w)
	}
	return tt.mk(OpSext, w, a, nil, nil, 0, "")
}

// disjoint combination: at every bit at most one side is not constant zero
func (tt *TermTable) combineDisjoint(a, b *Term) *Term {
	pa, pb := tt.pieces(a), tt.pieces(b)
	if len(pa) == 1 && len(pb) == 1 {
		return nil
	}
	var out []piece
	i, j := 0, 0
	var oa, ob uint8
	for i < len(pa) && j < len(pb) {
		w := min(pa[i].w-oa, pb[j].w-ob)
		x, y := pa[i].sub(oa, w), pb[j].sub(ob, w)
		switch {
		case x.t == nil && x.c == 0:
			out = append(out, y)
		case y.t == nil && y.c == 0:
			out = append(out, x)
		default:
			return nil
		}
		oa += w
		ob += w
		if oa == pa[i].w {
			i, oa = i+1, 0
		}
		if ob == pb[j].w {
			j, ob = j+1, 0
		}
	}
	return tt.fromPieces(out)
}

func (tt *TermTable) Bvand(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return tt.Const(a.w, a.val&b.val)
		}
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.w) {
			return a
		}
		if b.val&(b.val+1) == 0 && a.hi <= b.val {
			return a
		}
		// mask with few runs
		runs := 0
		for i := uint8(0); i < a.w; {
			bit := b.val >> i & 1
			j := i
			for j < a.w && b.val>>j&1 == bit {
				j++
			}
			runs++
			i = j
		}
		if runs <= 5 && (a.op != OpAdd && a.op != OpMul || true) {
			ps := tt.pieces(a)
			if a.op == OpBvxor || a.op == OpBvor || a.op == OpBvand {
				ps = nil
			}
			if ps != nil {
				var out []piece
				for i := uint8(0); i < a.w; {
					bit := b.val >> i & 1
					j := i
					for j < a.w && b.val>>j&1 == bit {
						j++
					}
					if bit == 1 {
						out = append(out, slicePieces(ps, i, j-i)...)
					} else {
						out = append(out, piece{w: j - i})
					}
					i = j
				}
				return tt.fromPieces(out)
			}
		}
		if a.op == OpIte && a.b.IsConst() && a.c.IsConst() {
			return tt.Ite(a.a, tt.Bvand(a.b, b), tt.Bvand(a.c, b))
		}
		if a.op == OpBvand && a.b.IsConst() {
			return tt.Bvand(a.a, tt.Const(a.w, a.b.val&b.val))
		}
		if a.op == OpBvor && a.b.IsConst() {
			return tt.Bvor(tt.Bvand(a.a, b), tt.Const(a.w, a.b.val&b.val))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpBvand, a.w, a, b, nil, 0, "")
}

func (tt *TermTable) Bvor(a, b *Term) *Term {
	if a == b {
		return a
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return tt.Const(a.w, a.val|b.val)
		}
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return b
		}
	}
	if r := tt.combineDisjoint(a, b); r != nil {
		return r
	}
	if b.IsConst() {
		// Setting bits: replace those bits of the pieces by ones.
		if a.op != OpBvxor && a.op != OpBvor && a.op != OpBvand && a.op != OpIte {
			ps := tt.pieces(a)
			var out []piece
			for i := uint8(0); i < a.w; {
				bit := b.val >> i & 1
				j := i
				for j < a.w && b.val>>j&1 == bit {
					j++
				}
				if bit == 1 {
					out = append(out, piece{w: j - i, c: mask(j - i)})
				} else {
					out = append(out, slicePieces(ps, i, j-i)...)
				}
				i = j
			}
			if len(out) <= 6 {
				return tt.fromPieces(out)
			}
		}
		if a.op == OpIte && a.b.IsConst() && a.c.IsConst() {
			return tt.Ite(a.a, tt.Bvor(a.b, b), tt.Bvor(a.c, b))
		}
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpBvor, a.w, a, b, nil, 0, "")
}

func (tt *TermTable) Bvxor(a, b *Term) *Term {
	if a == b {
		return tt.Const(a.w, 0)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return tt.Const(a.w, a.val^b.val)
		}
		if b.val == 0 {
			return a
		}
		if a.op == OpBvxor && a.b.IsConst() {
			return tt.Bvxor(a.a, tt.Const(a.w, a.b.val^b.val))
		}
	} else {
		// normalise xor chains: sort leaves, cancel pairs
		var leaves []*Term
		var c uint64
		var walk func(t *Term)
		walk = func(t *Term) {
			if t.op == OpBvxor {
				walk(t.a)
				walk(t.b)
			} else if t.IsConst() {
				c ^= t.val
			} else {
				leaves = append(leaves, t)
			}
		}
		walk(a)
		walk(b)
		for i := 1; i < len(leaves); i++ {
			for j := i; j > 0 && leaves[j].id < leaves[j-1].id; j-- {
				leaves[j], leaves[j-1] = leaves[j-1], leaves[j]
			}
		}
		var out []*Term
		for _, l := range leaves {
			if n := len(out); n > 0 && out[n-1] == l {
				out = out[:n-1]
			} else {
				out = append(out, l)
			}
		}
		var t *Term
		for _, l := range out {
			if t == nil {
				t = l
			} else {
				t = tt.mk(OpBvxor, a.w, t, l, nil, 0, "")
			}
		}
		if t == nil {
			return tt.Const(a.w, c)
		}
		if c != 0 {
			t = tt.mk(OpBvxor, a.w, t, tt.Const(a.w, c), nil, 0, "")
		}
		return t
	}
	if r := tt.combineDisjoint(a, b); r != nil {
		return r
	}
	return tt.mk(OpBvxor, a.w, a, b, nil, 0, "")
}

func (tt *TermTable) Bvnot(a *Term) *Term {
	return tt.Bvxor(a, tt.Const(a.w, ^uint64(0)))
}

func noWrapAdd(a, b *Term) bool {
	s, c := bits.Add64(a.hi, b.hi, 0)
	return c == 0 && s <= mask(a.w)
}

func (tt *TermTable) Add(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return tt.Add0(a, b)
	}
	k := opkey{OpAdd, a.id, b.id}
	if r, ok := tt.memo[k]; ok {
		return r
	}
	r := tt.Add0(a, b)
	tt.memo[k] = r
	return r
}

func (tt *TermTable) Add0(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return tt.Const(a.w, a.val+b.val)
		}
		if b.val == 0 {
			return a
		}
		if a.op == OpAdd && a.b.IsConst() {
			return tt.Add(a.a, tt.Const(a.w, a.b.val+b.val))
		}
		if a.op == OpIte && a.b.IsConst() && a.c.IsConst() {
			return tt.Ite(a.a, tt.Add(a.b, b), tt.Add(a.c, b))
		}
		if r := tt.addHigh(a, b.val); r != nil {
			return r
		}
		if a.op == OpZext && a.a.op == OpAdd && a.a.b.IsConst() && !addMayWrap(a.a) {
			return tt.Add(tt.Add(tt.Zext(a.a.a, a.w), tt.addConstExt(a.a, a.w)), b)
		}
	} else {
		// move constants outward
		if a.op == OpAdd && a.b.IsConst() {
			return tt.Add(tt.Add(a.a, b), a.b)
		}
		if b.op == OpAdd && b.b.IsConst() {
			return tt.Add(tt.Add(a, b.a), b.b)
		}
		if isNegation(a, b) {
			return tt.Const(a.w, 0)
		}
		// collect n*x + x for small cases
		if a == b {
			return tt.Mul(a, tt.Const(a.w, 2))
		}
	}
	if r := tt.combineDisjoint(a, b); r != nil {
		return r
	}
	if !b.IsConst() {
		if r := tt.divRemJoin(a, b); r != nil {
			return r
		}
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpAdd, a.w, a, b, nil, 0, "")
}

// isNegation: a + b is zero because every summand occurs with both signs.
func isNegation(a, b *Term) bool {
	x, y := a, b
	for x.op == OpAdd {
		x = x.a
	}
	for y.op == OpAdd {
		y = y.a
	}
	neg := func(t *Term) bool { return t.op == OpMul && t.b.IsConst() && t.b.val>>(t.w-1) == 1 }
	if neg(x) == neg(y) {
		return false
	}
	la, lb := sumLeaves(a, nil), sumLeaves(b, nil)
	if len(la) != len(lb) {
		return false
	}
	m := mask(a.w)
	for _, l := range la {
		ok := false
		for j := range lb {
			if lb[j].x == l.x && (lb[j].k+l.k)&m == 0 {
				lb[j].x, ok = nil, true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// addHigh adds a constant to a concatenation whose top piece is constant when
// the constant has no bits below that piece: only the top piece changes.
func (tt *TermTable) addHigh(a *Term, c uint64) *Term {
	if a.op != OpConcat && a.op != OpZext {
		return nil
	}
	ps := tt.pieces(a)
	top := ps[len(ps)-1]
	if top.t != nil {
		return nil
	}
	at := a.w - top.w
	if c&mask(at) != 0 || at == 0 {
		return nil
	}
	q := append([]piece{}, ps...)
	q[len(q)-1].c = (top.c + c>>at) & mask(top.w)
	return tt.fromPieces(q)
}

// cancelSums removes summands that occur on both sides (exact modulo 2^w).
func (tt *TermTable) cancelSums(a, b *Term) (*Term, *Term, bool) {
	la, lb := sumLeaves(a, nil), sumLeaves(b, nil)
	var x, y []linTerm
	used := make([]bool, len(lb))
	for _, l := range la {
		hit := false
		for j, m := range lb {
			if !used[j] && m == l {
				used[j], hit = true, true
				break
			}
		}
		if !hit {
			x = append(x, l)
		}
	}
	if len(x) == len(la) {
		return nil, nil, false
	}
	for j, m := range lb {
		if !used[j] {
			y = append(y, m)
		}
	}
	sum := func(ls []linTerm) *Term {
		r := tt.Const(a.w, 0)
		for _, l := range ls {
			r = tt.Add(r, tt.Mul(l.x, tt.Const(a.w, l.k)))
		}
		return r
	}
	return sum(x), sum(y), true
}

// sumContains: a is a non-wrapping sum that contains every summand of b.
func (tt *TermTable) sumContains(a, b *Term) bool {
	la := sumLeaves(a, nil)
	tot := uint64(0)
	for _, l := range la {
		h, p := bits.Mul64(l.x.hi, l.k)
		s, c := bits.Add64(tot, p, 0)
		if h != 0 || c != 0 || s > mask(a.w) {
			return false
		}
		tot = s
	}
	used := make([]bool, len(la))
	for _, l := range sumLeaves(b, nil) {
		ok := false
		for i, m := range la {
			if !used[i] && l.x == m.x && l.k <= m.k {
				used[i], ok = true, true
				break
			}
			// (x/c)*k <= x*n when k <= c*n
			if !used[i] && l.x.op == OpUdiv && l.x.b.IsConst() {
				c := l.x.b.val
				if m.x.op == OpUdiv && m.x.a == l.x.a && m.x.b.IsConst() && m.x.b.val > 0 && c%m.x.b.val == 0 {
					c /= m.x.b.val
				} else if l.x.a != m.x {
					c = 0
				}
				if c > 0 && (l.k/c < m.k || l.k == c*m.k && l.k/c == m.k) {
					used[i], ok = true, true
					break
				}
			}
			if !used[i] && l.x.IsConst() && m.x.IsConst() && l.k == 1 && m.k == 1 && l.x.val <= m.x.val {
				used[i], ok = true, true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

func sumLeaves(t *Term, out []linTerm) []linTerm {
	switch {
	case t.op == OpAdd:
		return sumLeaves(t.b, sumLeaves(t.a, out))
	case t.op == OpMul && t.b.IsConst():
		return append(out, linTerm{t.a, t.b.val})
	}
	return append(out, linTerm{t, 1})
}

// divRemJoin rewrites k*c*(z/c) + k*(z%c) inside a sum to k*z.
func (tt *TermTable) divRemJoin(a, b *Term) *Term {
	has := func(t *Term) bool {
		for _, l := range sumLeaves(t, nil) {
			if l.x.op == OpUrem && l.x.b.IsConst() {
				return true
			}
		}
		return false
	}
	if !has(a) && !has(b) {
		return nil
	}
	ls := sumLeaves(b, sumLeaves(a, nil))
	m := mask(a.w)
	for i, l := range ls {
		if l.x.op != OpUrem || !l.x.b.IsConst() {
			continue
		}
		z, c := l.x.a, l.x.b.val
		q := tt.Udiv(z, l.x.b)
		for j, l2 := range ls {
			if j != i && l2.x == q && l2.k&m == (l.k*c)&m {
				r := tt.Mul(z, tt.Const(a.w, l.k))
				for n, l3 := range ls {
					if n != i && n != j {
						r = tt.Add(r, tt.Mul(l3.x, tt.Const(a.w, l3.k)))
					}
				}
				return r
			}
		}
	}
	return nil
}

// addMayWrap: could x+c (c const, possibly "negative") wrap inconsistently?
func addMayWrap(t *Term) bool {
	l, c1 := bits.Add64(t.a.lo, t.b.lo, 0)
	h, c2 := bits.Add64(t.a.hi, t.b.hi, 0)
	if t.w < 64 {
		c1, c2 = l>>t.w, h>>t.w
	}
	return c1 != c2
}

// addConstExt: the constant of t = x+c (which consistently wraps or not), as a w-bit constant
func (tt *TermTable) addConstExt(t *Term, w uint8) *Term {
	l, c1 := bits.Add64(t.a.lo, t.b.lo, 0)
	if t.w < 64 {
		c1 = l >> t.w
	}
	v := t.b.val
	if c1 != 0 {
		v = v - (mask(t.w) + 1)
	}
	return tt.Const(w, v)
}

func (tt *TermTable) Neg(a *Term) *Term {
	if a.IsConst() {
		return tt.Const(a.w, -a.val)
	}
	return tt.Mul(a, tt.Const(a.w, ^uint64(0)))
}

func (tt *TermTable) Sub(a, b *Term) *Term {
	if a == b {
		return tt.Const(a.w, 0)
	}
	if b.IsConst() {
		return tt.Add(a, tt.Const(a.w, -b.val))
	}
	return tt.Add(a, tt.Neg(b))
}

func (tt *TermTable) Mul(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return tt.Mul0(a, b)
	}
	k := opkey{OpMul, a.id, b.id}
	if r, ok := tt.memo[k]; ok {
		return r
	}
	r := tt.Mul0(a, b)
	tt.memo[k] = r
	return r
}

func (tt *TermTable) Mul0(a, b *Term) *Term {
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.IsConst() {
			return tt.Const(a.w, a.val*b.val)
		}
		switch b.val {
		case 0:
			return b
		case 1:
			return a
		}
		if b.val&(b.val-1) == 0 {
			return tt.Shl(a, tt.Const(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
		if a.op == OpMul && a.b.IsConst() {
			return tt.Mul(a.a, tt.Const(a.w, a.b.val*b.val))
		}
		if a.op == OpAdd {
			return tt.Add(tt.Mul(a.a, b), tt.Mul(a.b, b))
		}
		if a.op == OpIte && a.b.IsConst() && a.c.IsConst() {
			return tt.Ite(a.a, tt.Mul(a.b, b), tt.Mul(a.c, b))
		}
	} else if a.id > b.id {
		a, b = b, a
	}
	return tt.mk(OpMul, a.w, a, b, nil, 0, "")
}

// linear decomposition without wrap: t = sum coef_i * x_i + k
type linTerm struct {
	x *Term
	k uint64
}

func (tt *TermTable) linear(t *Term) (parts []linTerm, k uint64, ok bool) {
	switch {
	case t.IsConst():
		return nil, t.val, true
	case t.op == OpAdd:
		if !noWrapAdd(t.a, t.b) {
			return []linTerm{{t, 1}}, 0, true
		}
		p1, k1, ok1 := tt.linear(t.a)
		p2, k2, ok2 := tt.linear(t.b)
		if !ok1 || !ok2 {
			return nil, 0, false
		}
		return append(p1, p2...), k1 + k2, true
	case t.op == OpMul && t.b.IsConst():
		h, l := bits.Mul64(t.a.hi, t.b.val)
		if h != 0 || l > mask(t.w) {
			return []linTerm{{t, 1}}, 0, true
		}
		p1, k1, ok1 := tt.linear(t.a)
		if !ok1 {
			return nil, 0, false
		}
		out := make([]linTerm, len(p1))
		for i, p := range p1 {
			out[i] = linTerm{p.x, p.k * t.b.val}
		}
		return out, k1 * t.b.val, true
	case t.op == OpShl && t.b.IsConst() || t.op == OpConcat || t.op == OpZext:
		// shifts by constants are in piece form: concat with zero low bits
		ps := tt.pieces(t)
		if len(ps) >= 2 && ps[0].t == nil && ps[0].c == 0 && ps[0].w < 63 {
			hi := tt.fromPieces(append(append([]piece{}, ps[1:]...), piece{w: ps[0].w}))
			p1, k1, ok1 := tt.linear(hi)
			if !ok1 {
				return nil, 0, false
			}
			m := uint64(1) << ps[0].w
			out := make([]linTerm, len(p1))
			for i, p := range p1 {
				out[i] = linTerm{p.x, p.k * m}
			}
			return out, k1 * m, true
		}
		if t.op == OpZext {
			p1, k1, ok1 := tt.linear(t.a)
			if !ok1 {
				return nil, 0, false
			}
			out := make([]linTerm, len(p1))
			for i, p := range p1 {
				out[i] = linTerm{tt.Zext(p.x, t.w), p.k}
			}
			return out, k1, true
		}
	}
	return []linTerm{{t, 1}}, 0, true
}

// divide t by constant c using the linear form; nil, nil when not simplifiable
func (tt *TermTable) linDiv(t *Term, c uint64) (q, r *Term) {
	if c == 0 {
		return nil, nil
	}
	parts, k, ok := tt.linear(t)
	if !ok || len(parts) == 0 {
		return nil, nil
	}
	q = tt.Const(t.w, k/c)
	r = tt.Const(t.w, k%c)
	rhi := k % c
	any := false
	for _, p := range parts {
		if p.k%c == 0 {
			q = tt.Add(q, tt.Mul(p.x, tt.Const(t.w, p.k/c)))
			any = true
		} else {
			// split coefficient: k = c*m + rest
			m, rest := p.k/c, p.k%c
			if m > 0 {
				q = tt.Add(q, tt.Mul(p.x, tt.Const(t.w, m)))
				any = true
			}
			h, l := bits.Mul64(p.x.hi, rest)
			if h != 0 {
				return nil, nil
			}
			s, cc := bits.Add64(rhi, l, 0)
			if cc != 0 {
				return nil, nil
			}
			rhi = s
			r = tt.Add(r, tt.Mul(p.x, tt.Const(t.w, rest)))
		}
	}
	if rhi < c {
		return q, r
	}
	if any && rhi <= mask(t.w) {
		// t = c*q0 + r0 with r0 >= c possible: t/c = q0 + r0/c, t%c = r0%c
		q2 := tt.mk(OpUdiv, t.w, r, tt.Const(t.w, c), nil, 0, "")
		r2 := tt.mk(OpUrem, t.w, r, tt.Const(t.w, c), nil, 0, "")
		return tt.Add(q, q2), r2
	}
	return nil, nil
}

func (tt *TermTable) Udiv(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return tt.Udiv0(a, b)
	}
	k := opkey{OpUdiv, a.id, b.id}
	if r, ok := tt.memo[k]; ok {
		return r
	}
	r := tt.Udiv0(a, b)
	tt.memo[k] = r
	return r
}

func (tt *TermTable) Udiv0(a, b *Term) *Term {
	if b.IsConst() && b.val != 0 {
		if a.IsConst() {
			return tt.Const(a.w, a.val/b.val)
		}
		if b.val&(b.val-1) == 0 {
			return tt.Lshr(a, tt.Const(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
		if a.hi < b.val {
			return tt.Const(a.w, 0)
		}
		if q, _ := tt.linDiv(a, b.val); q != nil {
			return q
		}
		if a.op == OpZext {
			n := a.a.w
			if b.val <= mask(n) {
				return tt.Zext(tt.Udiv(a.a, tt.Const(n, b.val)), a.w)
			}
		}
		// (x / c1) / c2
		if a.op == OpUdiv && a.b.IsConst() {
			h, l := bits.Mul64(a.b.val, b.val)
			if h == 0 && l <= mask(a.w) {
				return tt.Udiv(a.a, tt.Const(a.w, l))
			}
		}
	}
	return tt.mk(OpUdiv, a.w, a, b, nil, 0, "")
}

func (tt *TermTable) Urem(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return tt.Urem0(a, b)
	}
	k := opkey{OpUrem, a.id, b.id}
	if r, ok := tt.memo[k]; ok {
		return r
	}
	r := tt.Urem0(a, b)
	tt.memo[k] = r
	return r
}

func (tt *TermTable) Urem0(a, b *Term) *Term {
	if b.IsConst() && b.val != 0 {
		if a.IsConst() {
			return tt.Const(a.w, a.val%b.val)
		}
		if b.val&(b.val-1) == 0 {
			return tt.Bvand(a, tt.Const(a.w, b.val-1))
		}
		if a.hi < b.val {
			return a
		}
		if _, r := tt.linDiv(a, b.val); r != nil {
			return r
		}
		if a.op == OpZext {
			n := a.a.w
			if b.val <= mask(n) {
				return tt.Zext(tt.Urem(a.a, tt.Const(n, b.val)), a.w)
			}
		}
	}
	return tt.mk(OpUrem, a.w, a, b, nil, 0, "")
}

func (tt *TermTable) Sdiv(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.val != 0 {
		x, y := sx(a.val, a.w), sx(b.val, b.w)
		if y == -1 {
			return tt.Const(a.w, uint64(-x))
		}
		return tt.Const(a.w, uint64(x/y))
	}
	if a.nonneg() && b.nonneg() {
		return tt.Udiv(a, b)
	}
	return tt.mk(OpSdiv, a.w, a, b, nil, 0, "")
}

func (tt *TermTable) Srem(a, b *Term) *Term {
	if a.IsConst() && b.IsConst() && b.val != 0 {
		x, y := sx(a.val, a.w), sx(b.val, b.w)
		if y == -1 {
			return tt.Const(a.w, 0)
		}
		return tt.Const(a.w, uint64(x%y))
	}
	if a.nonneg() && b.nonneg() {
		return tt.Urem(a, b)
	}
	return tt.mk(OpSrem, a.w, a, b, nil, 0, "")
}

// Shl, Lshr, Ashr: b has the same width as a; amounts >= w give 0 / sign fill (Go and SMT-LIB agree).
func (tt *TermTable) Shl(a, b *Term) *Term {
	if b.IsConst() {
		if b.val >= uint64(a.w) {
			return tt.Const(a.w, 0)
		}
		if a.IsConst() {
			return tt.Const(a.w, a.val<<b.val)
		}
		if b.val == 0 {
			return a
		}
		k := uint8(b.val)
		return tt.fromPieces(append([]piece{{w: k}}, slicePieces(tt.pieces(a), 0, a.w-k)...))
	}
	if a.IsConst() && a.val == 0 {
		return a
	}
	if b.lo >= uint64(a.w) {
		return tt.Const(a.w, 0)
	}
	return tt.mk(OpShl, a.w, a, b, nil, 0, "")
}

func (tt *TermTable) Lshr(a, b *Term) *Term {
	if b.IsConst() {
		if b.val >= uint64(a.w) {
			return tt.Const(a.w, 0)
		}
		if a.IsConst() {
			return tt.Const(a.w, a.val>>b.val)
		}
		if b.val == 0 {
			return a
		}
		k := uint8(b.val)
		switch a.op {
		case OpBvand, OpBvor, OpBvxor:
			x, y := tt.Lshr(a.a, b), tt.Lshr(a.b, b)
			switch a.op {
			case OpBvand:
				return tt.Bvand(x, y)
			case OpBvor:
				return tt.Bvor(x, y)
			}
			return tt.Bvxor(x, y)
		}
		if a.hi>>k == 0 {
			return tt.Const(a.w, 0)
		}
		return tt.fromPieces(append(slicePieces(tt.pieces(a), k, a.w-k), piece{w: k}))
	}
	if a.IsConst() && a.val == 0 {
		return a
	}
	return tt.mk(OpLshr, a.w, a, b, nil, 0, "")
}

func (tt *TermTable) Ashr(a, b *Term) *Term {
	if a.nonneg() {
		return tt.Lshr(a, b)
	}
	if b.IsConst() && a.IsConst() {
		s := b.val
		if s >= uint64(a.w) {
			s = uint64(a.w) - 1
		}
		return tt.Const(a.w, uint64(sx(a.val, a.w)>>s))
	}
	if b.IsConst() && b.val == 0 {
		return a
	}
	return tt.mk(OpAshr, a.w, a, b, nil, 0, "")
}

func (tt *TermTable) UF(name string, a *Term) *Term {
	return tt.mk(OpUF, 64, a, nil, nil, 0, name)
}

// ---- evaluation under a model (variables missing from the model are 0)

type Model map[string]uint64

func (tt *TermTable) NewEval() { tt.evGen++ }

func (tt *TermTable) Eval(t *Term, m Model) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if t.evGen == tt.evGen {
		return t.evVal
	}
	var v uint64
	if isFP(t.op) {
		v = tt.evalFP(t, m)
		t.evGen, t.evVal = tt.evGen, v
		return v
	}
	switch t.op {
	case OpVar:
		var ok bool
		if v, ok = m[t.name]; !ok {
			v = t.lo
		}
	case OpNot:
		v = tt.Eval(t.a, m) ^ 1
	case OpAnd:
		v = tt.Eval(t.a, m)
		if v == 1 {
			v = tt.Eval(t.b, m)
		}
	case OpOr:
		v = tt.Eval(t.a, m)
		if v == 0 {
			v = tt.Eval(t.b, m)
		}
	case OpIte:
		if tt.Eval(t.a, m) == 1 {
			v = tt.Eval(t.b, m)
		} else {
			v = tt.Eval(t.c, m)
		}
	case OpUF:
		v = tt.Eval(t.a, m)
	case OpExtract:
		v = tt.Eval(t.a, m) >> t.val
	case OpZext:
		v = tt.Eval(t.a, m)
	case OpSext:
		v = uint64(sx(tt.Eval(t.a, m), t.a.w))
	default:
		x, y := tt.Eval(t.a, m), tt.Eval(t.b, m)
		w := t.a.w
		b2 := func(b bool) uint64 {
			if b {
				return 1
			}
			return 0
		}
		switch t.op {
		case OpEq:
			v = b2(x == y)
		case OpUlt:
			v = b2(x < y)
		case OpUle:
			v = b2(x <= y)
		case OpSlt:
			v = b2(sx(x, w) < sx(y, w))
		case OpSle:
			v = b2(sx(x, w) <= sx(y, w))
		case OpAdd:
			v = x + y
		case OpMul:
			v = x * y
		case OpUdiv:
			if y == 0 {
				v = mask(w)
			} else {
				v = x / y
			}
		case OpUrem:
			if y == 0 {
				v = x
			} else {
				v = x % y
			}
		case OpSdiv:
			if y == 0 {
				if sx(x, w) < 0 {
					v = 1
				} else {
					v = mask(w)
				}
			} else if sx(y, w) == -1 {
				v = -x
			} else {
				v = uint64(sx(x, w) / sx(y, w))
			}
		case OpSrem:
			if y == 0 {
				v = x
			} else if sx(y, w) == -1 {
				v = 0
			} else {
				v = uint64(sx(x, w) % sx(y, w))
			}
		case OpBvand:
			v = x & y
		case OpBvor:
			v = x | y
		case OpBvxor:
			v = x ^ y
		case OpShl:
			if y < uint64(w) {
				v = x << y
			}
		case OpLshr:
			if y < uint64(w) {
				v = x >> y
			}
		case OpAshr:
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			v = uint64(sx(x, w) >> y)
		case OpConcat:
			v = x<<t.b.w | y
		default:
			panic("eval op")
		}
	}
	v &= mask(t.w)
	t.evGen, t.evVal = tt.evGen, v
	return v
}

// Vars returns the variables of t (cached).
func (tt *TermTable) Vars(t *Term) []*Term {
	if t.varsOK {
		return t.vars
	}
	var out []*Term
	switch {
	case t.op == OpVar:
		out = []*Term{t}
	case t.op == OpConst || t.op == OpFpConst:
	default:
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x == nil {
				continue
			}
			out = mergeVars(out, tt.Vars(x))
		}
	}
	t.vars, t.varsOK = out, true
	return out
}

func mergeVars(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := make([]*Term, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i].id < b[j].id:
			out = append(out, a[i])
			i++
		case a[i].id > b[j].id:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	return append(out, b[j:]...)
}

// ---- SMT-LIB

func (t *Term) sort() string {
	if t.w == 0 {
		return "Bool"
	}
	if fpSort(t.op) {
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func constText(t *Term) string {
	if t.w == 0 {
		if t.val == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

var smtOps = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpIte: "ite", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpAdd: "bvadd", OpMul: "bvmul", OpUdiv: "bvudiv", OpUrem: "bvurem", OpSdiv: "bvsdiv", OpSrem: "bvsrem", OpBvand: "bvand", OpBvor: "bvor", OpBvxor: "bvxor",
	OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpConcat: "concat"}

// ref gives the SMT name of a term already defined (or an inline constant)
func (t *Term) ref() string {
	if t.op == OpConst {
		return constText(t)
	}
	if t.op == OpVar {
		return t.name
	}
	return fmt.Sprintf("t%d", t.id)
}

func (t *Term) body() string {
	if isFP(t.op) {
		return t.fpBody()
	}
	switch t.op {
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.val+uint64(t.w)-1, t.val, t.a.ref())
	case OpZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, t.a.ref())
	case OpUF:
		return fmt.Sprintf("(%s %s)", t.name, t.a.ref())
	}
	var sb strings.Builder
	sb.WriteString("(" + smtOps[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" " + x.ref())
		}
	}
	sb.WriteString(")")
	return sb.String()
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	if t.op == OpConst || t.op == OpVar {
		if t.op == OpConst && t.w > 0 {
			return fmt.Sprintf("%d:%d", t.val, t.w)
		}
		return t.ref()
	}
	if d == 0 {
		return "..."
	}
	var sb strings.Builder
	n := smtOps[t.op]
	switch t.op {
	case OpExtract:
		n = fmt.Sprintf("ext%d+%d", t.val, t.w)
	case OpZext:
		n = fmt.Sprintf("zext%d", t.w)
	case OpSext:
		n = fmt.Sprintf("sext%d", t.w)
	case OpUF:
		n = t.name
	}
	if isFP(t.op) {
		n = fmt.Sprintf("fp%d", t.op-OpFpInt)
	}
	sb.WriteString("(" + n)
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" " + x.str(d-1))
		}
	}
	sb.WriteString(")")
	return sb.String()
}
