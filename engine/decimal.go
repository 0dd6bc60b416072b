package main

import (
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// decimal.Decimal is modelled as {value: *DecVal (sign, 64-bit magnitude), exp}; exp is concrete.
// Operations that could overflow the magnitude are reported as unsupported, never wrapped.

const decPkg = "github.com/shopspring/decimal"

func (m *Machine) mkDec(neg, mag *Term, exp int) *Agg {
	return &Agg{cells: []Cell{{&DecVal{neg, mag}}, {m.tt.Const(32, uint64(uint32(int32(exp))))}}}
}

func (m *Machine) dec(v Value) (*Term, *Term, int) {
	a, ok := v.(*Agg)
	if !ok {
		unsup("decimal value %T", v)
	}
	exp := int(int32(a.cells[1].v.(*Term).val))
	switch d := a.cells[0].v.(type) {
	case *DecVal:
		return d.neg, d.mag, exp
	case *Cell:
		if d == nil {
			return m.tt.fls, m.tt.Const(64, 0), exp
		}
	}
	unsup("decimal with a real big.Int")
	return nil, nil, 0
}

func (m *Machine) decFromInt(v *Term, exp int) *Agg {
	v = m.tt.Sext(v, 64)
	if n := m.tt.Neg(v); !v.IsConst() && n.hi <= math.MaxInt64 && v.hi > math.MaxInt64 {
		return m.mkDec(m.tt.tru, n, exp) // v = -n, n >= 0
	}
	neg := m.tt.Slt(v, m.tt.Const(64, 0))
	return m.mkDec(neg, m.tt.Ite(neg, m.tt.Neg(v), v), exp)
}

func (m *Machine) mulMag(a, b *Term) *Term {
	if h, _ := bits.Mul64(a.hi, b.hi); h != 0 {
		unsup("decimal magnitude beyond 64 bits")
	}
	return m.tt.Mul(a, b)
}

func (m *Machine) scaleUp(mag *Term, k int) *Term {
	if k > 19 {
		if mag.IsConst() && mag.val == 0 {
			return mag
		}
		unsup("decimal scale")
	}
	p := uint64(1)
	for i := 0; i < k; i++ {
		p *= 10
	}
	return m.mulMag(mag, m.tt.Const(64, p))
}

// align brings two decimals to a common exponent
func (m *Machine) alignDec(a, b Value) (n1, m1, n2, m2 *Term, exp int) {
	n1, m1, e1 := m.dec(a)
	n2, m2, e2 := m.dec(b)
	exp = min(e1, e2)
	m1 = m.scaleUp(m1, e1-exp)
	m2 = m.scaleUp(m2, e2-exp)
	return
}

func (m *Machine) decCmp(a, b Value, op string) *Term {
	tt := m.tt
	n1, m1, n2, m2, _ := m.alignDec(a, b)
	z := tt.Const(64, 0)
	n1, n2 = tt.And(n1, tt.Not(tt.Eq(m1, z))), tt.And(n2, tt.Not(tt.Eq(m2, z)))
	eq := tt.And(tt.Eq(m1, m2), tt.Eq(n1, n2))
	lt := tt.Ite(n1, tt.Ite(n2, tt.Ult(m2, m1), tt.tru), tt.Ite(n2, tt.fls, tt.Ult(m1, m2)))
	switch op {
	case "==":
		return eq
	case "<":
		return lt
	}
	return nil
}

func (m *Machine) decSub(a, b Value) Value {
	tt := m.tt
	n1, m1, n2, m2, exp := m.alignDec(a, b)
	return m.addSM(n1, m1, tt.Not(n2), m2, exp)
}

func (m *Machine) addSM(n1, m1, n2, m2 *Term, exp int) Value {
	tt := m.tt
	if m1.IsConst() && m1.val == 0 {
		return m.mkDec(n2, m2, exp)
	}
	if m2.IsConst() && m2.val == 0 {
		return m.mkDec(n1, m1, exp)
	}
	if _, c := bits.Add64(m1.hi, m2.hi, 0); c != 0 {
		unsup("decimal magnitude beyond 64 bits")
	}
	same := tt.Eq(n1, n2)
	ge := tt.Ule(m2, m1)
	mag := tt.Ite(same, tt.Add(m1, m2), tt.Ite(ge, tt.Sub(m1, m2), tt.Sub(m2, m1)))
	neg := tt.Ite(same, n1, tt.Ite(ge, n1, n2))
	return m.mkDec(neg, mag, exp)
}

// rescaleDown divides the magnitude by 10^k, truncating
func (m *Machine) scaleDown(mag *Term, k int) *Term {
	if k > 19 {
		return m.tt.Const(64, 0)
	}
	p := uint64(1)
	for i := 0; i < k; i++ {
		p *= 10
	}
	return m.tt.Udiv(mag, m.tt.Const(64, p))
}

func (m *Machine) decTrunc(v Value, prec int) Value {
	n, mag, exp := m.dec(v)
	if prec >= 0 && -prec > exp {
		return m.mkDec(n, m.scaleDown(mag, -prec-exp), -prec)
	}
	return m.mkDec(n, mag, exp)
}

func (m *Machine) intPart(v Value) *Term {
	n, mag, exp := m.dec(v)
	if exp >= 0 {
		mag = m.scaleUp(mag, exp)
	} else {
		mag = m.scaleDown(mag, -exp)
	}
	if mag.hi > math.MaxInt64 {
		unsup("decimal integer part beyond int64")
	}
	return m.tt.Ite(n, m.tt.Neg(mag), mag)
}

func (m *Machine) decFromFloat(f float64) *Agg {
	s := strconv.FormatFloat(f, 'e', -1, 64)
	neg := strings.HasPrefix(s, "-")
	s = strings.TrimPrefix(s, "-")
	parts := strings.Split(s, "e")
	e, _ := strconv.Atoi(parts[1])
	digits := parts[0]
	if i := strings.IndexByte(digits, '.'); i >= 0 {
		e -= len(digits) - i - 1
		digits = digits[:i] + digits[i+1:]
	}
	v, err := strconv.ParseUint(digits, 10, 64)
	if err != nil {
		unsup("decimal from float %v", f)
	}
	return m.mkDec(m.tt.Bool(neg), m.tt.Const(64, v), e)
}

func (m *Machine) decDiv(a, b Value) Value {
	n1, m1, e1 := m.dec(a)
	n2, m2, e2 := m.dec(b)
	if !m2.IsConst() {
		unsup("decimal division by a symbolic value")
	}
	if m2.val == 0 {
		panic(goPanic{Iface{types.Typ[types.String], Str{s: "decimal division by 0"}}, "decimal division by 0"})
	}
	c, e := m2.val, e2
	for c%10 == 0 {
		c /= 10
		e++
	}
	neg := m.tt.Not(m.tt.Eq(n1, n2))
	// exact cases: division by a power of ten (possibly times 2 or 5)
	mul := uint64(1)
	exp := e1 - e
	for c%2 == 0 {
		c /= 2
		mul *= 5
		exp--
	}
	for c%5 == 0 {
		c /= 5
		mul *= 2
		exp--
	}
	if c != 1 || exp < -16 {
		if m1.IsConst() && m1.val == 0 {
			return m.mkDec(m.tt.fls, m1, 0)
		}
		unsup("inexact decimal division")
	}
	return m.mkDec(neg, m.mulMag(m1, m.tt.Const(64, mul)), exp)
}

// decFloat: the nearest double (exact operands, one correctly rounded division)
func (m *Machine) decFloat(v Value) Float {
	n, g, e := m.dec(v)
	if g.hi >= 1<<53 || e > 0 || e < -22 {
		unsup("float of a large decimal")
	}
	x := Float{t: m.tt.Ite(n, m.tt.Neg(g), g)}
	if x.t.IsConst() {
		x = Float{f: float64(int64(x.t.val))}
	}
	if e == 0 {
		return x
	}
	return m.floatBin(token.QUO, x, Float{f: math.Pow10(-e)}).(Float)
}

// decFromFP: the shortest decimal that gives the double; known when the double
// is an integer of at most 15 digits divided by a power of ten
func (m *Machine) decFromFP(t *Term) Value {
	neg := false
	if t.op == OpFpNeg {
		neg, t = true, t.a
	}
	if t.op == OpFpDiv && t.a.op == OpFpInt && t.b.op == OpFpConst && t.a.a.hi < 1e15 {
		d := math.Float64frombits(t.b.val)
		for k := 1; k <= 15; k++ {
			if d == math.Pow10(k) {
				return m.mkDec(m.tt.Bool(neg), t.a.a, -k)
			}
		}
	}
	unsup("decimal from a symbolic float")
	return nil
}

var decimalIntrinsics map[string]intrinsic

func init() {
	d := func(n string) string { return "(" + decPkg + ".Decimal)." + n }
	decimalIntrinsics = map[string]intrinsic{
		decPkg + ".New": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.decFromInt(arg(m, a[0]), m.concInt(a[1]))
		},
		decPkg + ".NewFromInt":   func(m *Machine, fn *ssa.Function, a []Value) Value { return m.decFromInt(arg(m, a[0]), 0) },
		decPkg + ".NewFromInt32": func(m *Machine, fn *ssa.Function, a []Value) Value { return m.decFromInt(arg(m, a[0]), 0) },
		decPkg + ".NewFromFloat": func(m *Machine, fn *ssa.Function, a []Value) Value {
			f := a[0].(Float)
			if f.fp != nil {
				return m.decFromFP(f.fp)
			}
			if f.t != nil {
				return m.decFromInt(f.t, 0)
			}
			return m.decFromFloat(f.f)
		},
		decPkg + ".NewFromString": func(m *Machine, fn *ssa.Function, a []Value) Value {
			f, err := strconv.ParseFloat(concStr(m, a[0]), 64)
			if err != nil {
				return Tuple{m.mkDec(m.tt.fls, m.tt.Const(64, 0), 0), m.newError(Str{s: "can't convert to decimal"})}
			}
			return Tuple{m.decFromFloat(f), Iface{}}
		},
		decPkg + ".RequireFromString": func(m *Machine, fn *ssa.Function, a []Value) Value {
			f, err := strconv.ParseFloat(concStr(m, a[0]), 64)
			if err != nil {
				unsup("decimal text")
			}
			return m.decFromFloat(f)
		},
		d("Mul"): func(m *Machine, fn *ssa.Function, a []Value) Value {
			n1, m1, e1 := m.dec(a[0])
			n2, m2, e2 := m.dec(a[1])
			return m.mkDec(m.tt.Not(m.tt.Eq(n1, n2)), m.mulMag(m1, m2), e1+e2)
		},
		d("Div"): func(m *Machine, fn *ssa.Function, a []Value) Value { return m.decDiv(a[0], a[1]) },
		d("Add"): func(m *Machine, fn *ssa.Function, a []Value) Value {
			n1, m1, n2, m2, exp := m.alignDec(a[0], a[1])
			return m.addSM(n1, m1, n2, m2, exp)
		},
		d("Sub"): func(m *Machine, fn *ssa.Function, a []Value) Value { return m.decSub(a[0], a[1]) },
		d("Neg"): func(m *Machine, fn *ssa.Function, a []Value) Value {
			n, g, e := m.dec(a[0])
			return m.mkDec(m.tt.Not(n), g, e)
		},
		d("Abs"): func(m *Machine, fn *ssa.Function, a []Value) Value {
			_, g, e := m.dec(a[0])
			return m.mkDec(m.tt.fls, g, e)
		},
		d("Shift"): func(m *Machine, fn *ssa.Function, a []Value) Value {
			n, g, e := m.dec(a[0])
			return m.mkDec(n, g, e+m.concInt(a[1]))
		},
		d("Truncate"): func(m *Machine, fn *ssa.Function, a []Value) Value { return m.decTrunc(a[0], m.concInt(a[1])) },
		d("Floor"): func(m *Machine, fn *ssa.Function, a []Value) Value {
			n, g, e := m.dec(a[0])
			if e >= 0 {
				return a[0]
			}
			p := pow10(-e)
			if -e > 18 {
				unsup("decimal floor")
			}
			q, r := m.tt.Udiv(g, m.tt.Const(64, p)), m.tt.Urem(g, m.tt.Const(64, p))
			up := m.tt.And(n, m.tt.Not(m.tt.Eq(r, m.tt.Const(64, 0))))
			return m.mkDec(n, m.tt.Add(q, m.tt.Zext(up, 64)), 0)
		},
		d("Round"): func(m *Machine, fn *ssa.Function, a []Value) Value {
			n, g, e := m.dec(a[0])
			pl := m.concInt(a[1])
			if -pl <= e {
				return a[0]
			}
			k := -pl - e
			if k > 18 {
				unsup("decimal round")
			}
			p := pow10(k)
			return m.mkDec(n, m.tt.Udiv(m.tt.Add(g, m.tt.Const(64, p/2)), m.tt.Const(64, p)), -pl)
		},
		d("Float64"): func(m *Machine, fn *ssa.Function, a []Value) Value {
			return Tuple{m.decFloat(a[0]), Poison{"the exactness of a float"}}
		},
		d("InexactFloat64"): func(m *Machine, fn *ssa.Function, a []Value) Value { return m.decFloat(a[0]) },
		d("IntPart"):        func(m *Machine, fn *ssa.Function, a []Value) Value { return m.intPart(a[0]) },
		d("Equal"):          func(m *Machine, fn *ssa.Function, a []Value) Value { return m.decCmp(a[0], a[1], "==") },
		d("Equals"):         func(m *Machine, fn *ssa.Function, a []Value) Value { return m.decCmp(a[0], a[1], "==") },
		d("LessThan"):       func(m *Machine, fn *ssa.Function, a []Value) Value { return m.decCmp(a[0], a[1], "<") },
		d("GreaterThan"):    func(m *Machine, fn *ssa.Function, a []Value) Value { return m.decCmp(a[1], a[0], "<") },
		d("LessThanOrEqual"): func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.tt.Not(m.decCmp(a[1], a[0], "<"))
		},
		d("GreaterThanOrEqual"): func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.tt.Not(m.decCmp(a[0], a[1], "<"))
		},
		d("Cmp"): func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.tt.Ite(m.decCmp(a[0], a[1], "=="), m.int(0), m.tt.Ite(m.decCmp(a[0], a[1], "<"), m.int(-1), m.int(1)))
		},
		d("Sign"): func(m *Machine, fn *ssa.Function, a []Value) Value {
			n, g, _ := m.dec(a[0])
			return m.tt.Ite(m.tt.Eq(g, m.int(0)), m.int(0), m.tt.Ite(n, m.int(-1), m.int(1)))
		},
		d("IsNegative"): func(m *Machine, fn *ssa.Function, a []Value) Value {
			n, g, _ := m.dec(a[0])
			return m.tt.And(n, m.tt.Not(m.tt.Eq(g, m.int(0))))
		},
		d("IsPositive"): func(m *Machine, fn *ssa.Function, a []Value) Value {
			n, g, _ := m.dec(a[0])
			return m.tt.And(m.tt.Not(n), m.tt.Not(m.tt.Eq(g, m.int(0))))
		},
		d("IsZero"): func(m *Machine, fn *ssa.Function, a []Value) Value {
			_, g, _ := m.dec(a[0])
			return m.tt.Eq(g, m.int(0))
		},
		d("Exponent"): func(m *Machine, fn *ssa.Function, a []Value) Value {
			_, _, e := m.dec(a[0])
			return m.tt.Const(32, uint64(uint32(int32(e))))
		},
	}
}
