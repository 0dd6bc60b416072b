package main

import (
	"fmt"
	"math"
)

// Floating point: Float is a constant, a signed integer term (exactly
// representable), or an IEEE double term (SMT-LIB FloatingPoint sort, decided
// by cvc5). Double terms have w = 64 and one of the operators below; they are
// only used by these operators.

const (
	OpFpInt   Op = 64 + iota // signed 64-bit integer -> double, nearest even
	OpFpConst                // val = bits
	OpFpAdd
	OpFpSub
	OpFpMul
	OpFpDiv
	OpFpNeg
	OpFpAbs
	OpFpRound // val = 0 to zero, 1 down, 2 up, 3 nearest (half away), 4 nearest even
	OpFp32    // rounded to single precision
	OpFpToInt // -> 64 bits signed, to zero
	OpFpLt
	OpFpLe
	OpFpEq
)

var fpModes = []string{"RTZ", "RTN", "RTP", "RNA", "RNE"}

func isFP(op Op) bool   { return op >= OpFpInt }
func fpSort(op Op) bool { return op >= OpFpInt && op <= OpFp32 }

func (tt *TermTable) fp(op Op, a, b *Term, val uint64) *Term {
	w := uint8(64)
	if op >= OpFpLt {
		w = 0
	}
	if a.op == OpFpConst && (b == nil || b.op == OpFpConst) {
		t := Term{op: op, w: w, a: a, b: b, val: val}
		v := tt.evalFP(&t, Model{})
		if fpSort(op) {
			return tt.mk(OpFpConst, 64, nil, nil, nil, v, "")
		}
		return tt.Const(w, v)
	}
	return tt.mk(op, w, a, b, nil, val, "")
}

func (tt *TermTable) evalFP(t *Term, m Model) uint64 {
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	if t.op == OpFpConst {
		return t.val
	}
	x := tt.Eval(t.a, m)
	if t.op == OpFpInt {
		return math.Float64bits(float64(int64(x)))
	}
	f := math.Float64frombits(x)
	var g float64
	if t.b != nil {
		g = math.Float64frombits(tt.Eval(t.b, m))
	}
	switch t.op {
	case OpFpAdd:
		f += g
	case OpFpSub:
		f -= g
	case OpFpMul:
		f *= g
	case OpFpDiv:
		f /= g
	case OpFpNeg:
		f = -f
	case OpFpAbs:
		f = math.Abs(f)
	case OpFpRound:
		f = []func(float64) float64{math.Trunc, math.Floor, math.Ceil, math.Round, math.RoundToEven}[t.val](f)
	case OpFp32:
		f = float64(float32(f))
	case OpFpToInt:
		return uint64(int64(f))
	case OpFpLt:
		return b2(f < g)
	case OpFpLe:
		return b2(f <= g)
	case OpFpEq:
		return b2(f == g)
	}
	return math.Float64bits(f)
}

func (t *Term) fpBody() string {
	const d = "(_ to_fp 11 53)"
	switch t.op {
	case OpFpInt:
		return fmt.Sprintf("(%s RNE %s)", d, t.a.ref())
	case OpFpConst:
		return fmt.Sprintf("(%s (_ bv%d 64))", d, t.val)
	case OpFpAdd, OpFpSub, OpFpMul, OpFpDiv:
		return fmt.Sprintf("(fp.%s RNE %s %s)", map[Op]string{OpFpAdd: "add", OpFpSub: "sub", OpFpMul: "mul", OpFpDiv: "div"}[t.op], t.a.ref(), t.b.ref())
	case OpFpNeg:
		return fmt.Sprintf("(fp.neg %s)", t.a.ref())
	case OpFpAbs:
		return fmt.Sprintf("(fp.abs %s)", t.a.ref())
	case OpFpRound:
		return fmt.Sprintf("(fp.roundToIntegral %s %s)", fpModes[t.val], t.a.ref())
	case OpFp32:
		return fmt.Sprintf("(%s RNE ((_ to_fp 8 24) RNE %s))", d, t.a.ref())
	case OpFpToInt:
		return fmt.Sprintf("((_ fp.to_sbv 64) RTZ %s)", t.a.ref())
	case OpFpLt:
		return fmt.Sprintf("(fp.lt %s %s)", t.a.ref(), t.b.ref())
	case OpFpLe:
		return fmt.Sprintf("(fp.leq %s %s)", t.a.ref(), t.b.ref())
	case OpFpEq:
		return fmt.Sprintf("(fp.eq %s %s)", t.a.ref(), t.b.ref())
	}
	panic("fp op")
}

// fpTerm gives the double term of a Float
func (m *Machine) fpTerm(x Float) *Term {
	switch {
	case x.fp != nil:
		return x.fp
	case x.t != nil:
		if x.t.IsConst() {
			return m.tt.mk(OpFpConst, 64, nil, nil, nil, math.Float64bits(float64(int64(x.t.val))), "")
		}
		return m.tt.mk(OpFpInt, 64, x.t, nil, nil, 0, "")
	}
	return m.tt.mk(OpFpConst, 64, nil, nil, nil, math.Float64bits(x.f), "")
}

// fpVal is the Float of a double term
func (m *Machine) fpVal(t *Term) Float {
	if t.op == OpFpConst {
		return Float{f: math.Float64frombits(t.val)}
	}
	return Float{fp: t}
}

func (x Float) conc() bool { return x.t == nil && x.fp == nil }

// fp1 applies an operator with one operand
func (m *Machine) fp1(op Op, x Float, val uint64) Float {
	return m.fpVal(m.tt.fp(op, m.fpTerm(x), nil, val))
}

// to32 rounds to single precision
func (m *Machine) to32(x Float) Float {
	if x.conc() {
		return Float{f: float64(float32(x.f))}
	}
	if x.t != nil {
		lim := uint64(1) << 24
		if x.t.hi <= lim {
			return x
		}
	}
	return m.fp1(OpFp32, x, 0)
}

func (m *Machine) fpToInt(x Float) *Term { return m.tt.fp(OpFpToInt, m.fpTerm(x), nil, 0) }
