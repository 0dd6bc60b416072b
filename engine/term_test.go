package main

import (
	"fmt"
	"math/rand"
	"testing"
)

// The simplifying constructors against plain 64-bit arithmetic: random
// expressions are built twice, as terms and as numbers under a fixed valuation.
func TestSimplifier(t *testing.T) {
	n := 40000
	if testing.Short() {
		n = 4000
	}
	for seed := 0; seed < n; seed++ {
		r := rand.New(rand.NewSource(int64(seed)))
		tt := NewTermTable()
		type vr struct {
			t  *Term
			lo uint64
			hi uint64
		}
		var vars []vr
		for i := 0; i < 5; i++ {
			w := []uint8{8, 8, 16, 32, 64}[r.Intn(5)]
			name := fmt.Sprintf("x%d", i)
			lo, hi := uint64(0), mask(w)
			switch r.Intn(3) {
			case 0:
				hi = []uint64{1, 9, 10, 99, 59, 15, 127}[r.Intn(7)]
			case 1:
				lo = uint64(r.Intn(50))
				hi = lo + uint64(r.Intn(100)) + 1
			}
			var v *Term
			if lo == 0 && hi == mask(w) {
				v = tt.Var(w, name)
			} else {
				v = tt.VarRange(w, name, lo, hi)
			}
			vars = append(vars, vr{v, lo, hi})
		}
		const K = 4
		models := make([]Model, K)
		for k := range models {
			models[k] = Model{}
			for _, v := range vars {
				var x uint64
				if v.lo == 0 && v.hi == mask(v.t.w) {
					x = r.Uint64() & mask(v.t.w)
					if r.Intn(3) == 0 {
						x = uint64(r.Intn(4))
					}
				} else {
					x = v.lo + r.Uint64()%(v.hi-v.lo+1)
				}
				models[k][v.t.name] = x
			}
		}
		type ev struct {
			t *Term
			v [K]uint64
		}
		var pool []ev
		for _, v := range vars {
			var e ev
			e.t = v.t
			for k := range models {
				e.v[k] = models[k][v.t.name]
			}
			pool = append(pool, e)
		}
		addConst := func(w uint8) ev {
			c := []uint64{0, 1, 2, 10, 16, 100, 1000, 0x7d, 0x7e, 255, 4, 8, 3, 7, mask(w), mask(w) >> 1, 60, 256, 65536, 1000000}[r.Intn(20)] & mask(w)
			e := ev{t: tt.Const(w, c)}
			for k := range e.v {
				e.v[k] = c
			}
			return e
		}
		pick := func(w uint8) ev {
			if r.Intn(4) == 0 {
				return addConst(w)
			}
			for i := 0; i < 12; i++ {
				e := pool[r.Intn(len(pool))]
				if e.t.w == w {
					return e
				}
			}
			e := pool[r.Intn(len(pool))]
			for e.t.w == 0 {
				e = pool[r.Intn(5)]
			}
			var o ev
			if e.t.w < w {
				if r.Intn(3) == 0 {
					o.t = tt.Sext(e.t, w)
					for k := range e.v {
						o.v[k] = uint64(sx(e.v[k], e.t.w)) & mask(w)
					}
				} else {
					o.t = tt.Zext(e.t, w)
					o.v = e.v
				}
			} else if e.t.w > w {
				lo := uint8(r.Intn(int(e.t.w-w) + 1))
				if r.Intn(2) == 0 {
					lo = lo / 8 * 8
				}
				o.t = tt.Extract(e.t, lo, w)
				for k := range e.v {
					o.v[k] = e.v[k] >> lo & mask(w)
				}
			} else {
				o = e
			}
			return o
		}
		pickB := func() ev {
			for i := 0; i < 8; i++ {
				e := pool[r.Intn(len(pool))]
				if e.t.w == 0 {
					return e
				}
			}
			a, b := pick(8), pick(8)
			o := ev{t: tt.Eq(a.t, b.t)}
			for k := range o.v {
				if a.v[k] == b.v[k] {
					o.v[k] = 1
				}
			}
			return o
		}
		b2u := func(b bool) uint64 {
			if b {
				return 1
			}
			return 0
		}
		for step := 0; step < 14; step++ {
			w := []uint8{8, 16, 32, 64, 64}[r.Intn(5)]
			op := r.Intn(23)
			var o ev
			nm := ""
			if op < 14 {
				a, b := pick(w), pick(w)
				m := mask(w)
				var f func(x, y uint64) uint64
				switch op {
				case 0, 1:
					nm = "add"
					o.t, f = tt.Add(a.t, b.t), func(x, y uint64) uint64 { return x + y }
				case 2:
					nm = "sub"
					o.t, f = tt.Sub(a.t, b.t), func(x, y uint64) uint64 { return x - y }
				case 3:
					nm = "mul"
					o.t, f = tt.Mul(a.t, b.t), func(x, y uint64) uint64 { return x * y }
				case 4:
					nm = "udiv"
					c := addConst(w)
					if c.v[0] == 0 {
						continue
					}
					b = c
					o.t, f = tt.Udiv(a.t, b.t), func(x, y uint64) uint64 { return x / y }
				case 5:
					nm = "urem"
					c := addConst(w)
					if c.v[0] == 0 {
						continue
					}
					b = c
					o.t, f = tt.Urem(a.t, b.t), func(x, y uint64) uint64 { return x % y }
				case 6:
					nm = "sdiv"
					c := addConst(w)
					if c.v[0] == 0 {
						continue
					}
					b = c
					o.t, f = tt.Sdiv(a.t, b.t), func(x, y uint64) uint64 {
						X, Y := sx(x, w), sx(y, w)
						if Y == -1 {
							return uint64(-X)
						}
						return uint64(X / Y)
					}
				case 7:
					nm = "srem"
					c := addConst(w)
					if c.v[0] == 0 {
						continue
					}
					b = c
					o.t, f = tt.Srem(a.t, b.t), func(x, y uint64) uint64 {
						X, Y := sx(x, w), sx(y, w)
						if Y == -1 {
							return 0
						}
						return uint64(X % Y)
					}
				case 8:
					nm = "and"
					o.t, f = tt.Bvand(a.t, b.t), func(x, y uint64) uint64 { return x & y }
				case 9:
					nm = "or"
					o.t, f = tt.Bvor(a.t, b.t), func(x, y uint64) uint64 { return x | y }
				case 10:
					nm = "xor"
					o.t, f = tt.Bvxor(a.t, b.t), func(x, y uint64) uint64 { return x ^ y }
				case 11, 12, 13:
					if r.Intn(3) > 0 {
						c := uint64(r.Intn(int(w)))
						if r.Intn(2) == 0 {
							c = c / 8 * 8
						}
						b = ev{t: tt.Const(w, c), v: [K]uint64{c, c, c, c}}
					}
					sh := func(y uint64) uint {
						if y > 64 {
							return 64
						}
						return uint(y)
					}
					switch op {
					case 11:
						nm = "shl"
						o.t, f = tt.Shl(a.t, b.t), func(x, y uint64) uint64 {
							if y >= uint64(w) {
								return 0
							}
							return x << sh(y)
						}
					case 12:
						nm = "lshr"
						o.t, f = tt.Lshr(a.t, b.t), func(x, y uint64) uint64 { return x >> sh(y) }
					case 13:
						nm = "ashr"
						o.t, f = tt.Ashr(a.t, b.t), func(x, y uint64) uint64 { return uint64(sx(x, w) >> sh(y)) }
					}
				}
				for k := range o.v {
					o.v[k] = f(a.v[k], b.v[k]) & m
				}
			} else {
				switch op {
				case 14:
					nm = "ite"
					c, a, b := pickB(), pick(w), pick(w)
					o.t = tt.Ite(c.t, a.t, b.t)
					for k := range o.v {
						if c.v[k] == 1 {
							o.v[k] = a.v[k]
						} else {
							o.v[k] = b.v[k]
						}
					}
				case 15, 16, 17, 18, 19:
					a, b := pick(w), pick(w)
					var f func(x, y uint64) bool
					switch op {
					case 15:
						nm = "eq"
						o.t, f = tt.Eq(a.t, b.t), func(x, y uint64) bool { return x == y }
					case 16:
						nm = "ult"
						o.t, f = tt.Ult(a.t, b.t), func(x, y uint64) bool { return x < y }
					case 17:
						nm = "ule"
						o.t, f = tt.Ule(a.t, b.t), func(x, y uint64) bool { return x <= y }
					case 18:
						nm = "slt"
						o.t, f = tt.Slt(a.t, b.t), func(x, y uint64) bool { return sx(x, w) < sx(y, w) }
					case 19:
						nm = "sle"
						o.t, f = tt.Sle(a.t, b.t), func(x, y uint64) bool { return sx(x, w) <= sx(y, w) }
					}
					for k := range o.v {
						o.v[k] = b2u(f(a.v[k], b.v[k]))
					}
				case 20:
					nm = "not"
					a := pickB()
					o.t = tt.Not(a.t)
					for k := range o.v {
						o.v[k] = 1 - a.v[k]
					}
				case 21:
					nm = "band"
					a, b := pickB(), pickB()
					o.t = tt.And(a.t, b.t)
					for k := range o.v {
						o.v[k] = a.v[k] & b.v[k]
					}
				case 22:
					nm = "bor"
					a, b := pickB(), pickB()
					o.t = tt.Or(a.t, b.t)
					for k := range o.v {
						o.v[k] = a.v[k] | b.v[k]
					}
				}
			}
			for k := range models {
				tt.NewEval()
				got := tt.Eval(o.t, models[k])
				if got != o.v[k] {
					t.Fatalf("seed %d step %d %s: got %d want %d: %s model %v", seed, step, nm, got, o.v[k], o.t, models[k])
				}
				if o.t.w > 0 && (got < o.t.lo || got > o.t.hi) {
					t.Fatalf("seed %d step %d %s: range [%d,%d] excludes %d: %s", seed, step, nm, o.t.lo, o.t.hi, got, o.t)
				}
			}
			pool = append(pool, o)
		}
		if seed%200 == 0 { // the SMT text means the same
			var st SolverStats
			sol := NewSolver(tt, &st, 10000)
			for _, e := range pool[5:] {
				as := []*Term{}
				for _, v := range vars {
					as = append(as, tt.Eq(v.t, tt.Const(v.t.w, models[0][v.t.name])))
				}
				d := e.t
				if d.w == 0 {
					if e.v[0] == 1 {
						d = tt.Not(d)
					}
				} else {
					d = tt.mk(OpNot, 0, tt.mk(OpEq, 0, e.t, tt.Const(e.t.w, e.v[0]), nil, 0, ""), nil, nil, 0, "")
				}
				if d.IsConst() {
					continue
				}
				if r, _ := sol.Check(append(as, d)); r != Unsat {
					t.Fatalf("seed %d: solver says %v for %s", seed, r, e.t)
				}
			}
			sol.Close()
		}
	}
}
