package main

import (
	"go/types"
	"time"

	"golang.org/x/tools/go/ssa"
)

// time.Time is modelled as {wall: kind, ext, loc} with
//   kind 0: ext = packed civil fields (year-1, month-1, day-1, hour, minute, second) in loc
//   kind 1: ext = Unix seconds
//   kind 2: ext = nanoseconds since 0001-01-01 00:00:00
// Local time is UTC+8 all year round (the native replay sets time.Local so).

const localOffset = 8 * 3600

func (m *Machine) timeGlobal(name string) Value {
	p := m.eng.prog.ImportedPackage("time")
	if p == nil {
		unsup("package time not loaded")
	}
	return m.load(m.global(p.Members[name].(*ssa.Global)))
}

// offset of a location from UTC in seconds
func (m *Machine) offset(loc Value) int64 {
	c, _ := loc.(*Cell)
	if c == nil {
		return 0
	}
	if l, ok := m.timeGlobal("Local").(*Cell); ok && l == c {
		return localOffset
	}
	if l, ok := m.timeGlobal("UTC").(*Cell); ok && l == c {
		return 0
	}
	unsup("time in a location other than Local and UTC")
	return 0
}

func (m *Machine) offOf(a *Agg) int64 { return m.offset(a.cells[2].v) }

// zonePair: the first argument of a comparison with its zone made explicit
func (m *Machine) sameZone(a, b *Agg) bool { return m.offOf(a) == m.offOf(b) }

func (m *Machine) mkTime(kind uint64, ext *Term, loc Value) *Agg {
	if loc == nil {
		loc = (*Cell)(nil)
	}
	return &Agg{cells: []Cell{{m.tt.Const(64, kind)}, {ext}, {loc}}}
}

func timeParts(a *Agg) (uint64, *Term) {
	k, ok := a.cells[0].v.(*Term)
	if !ok || !k.IsConst() {
		unsup("time value of unknown kind")
	}
	return k.val, a.cells[1].v.(*Term)
}

type civil struct{ y, mo, d, h, mi, s, ns *Term } // 64 bit, real values (month 1..12)

func (m *Machine) packCivil(c civil) *Term {
	tt := m.tt
	ex := func(t *Term, sub uint64, w uint8) *Term { return tt.Extract(tt.Add(t, tt.Const(64, -sub)), 0, w) }
	ps := []*Term{ex(c.s, 0, 6), ex(c.mi, 0, 6), ex(c.h, 0, 5), ex(c.d, 1, 5), ex(c.mo, 1, 4), ex(c.y, 1, 14), tt.Const(24, 0)}
	var all []piece
	for _, p := range ps {
		all = append(all, tt.pieces(p)...)
	}
	return tt.fromPieces(all)
}

func (m *Machine) civilOf(a *Agg) civil {
	tt := m.tt
	kind, e := timeParts(a)
	switch kind {
	case 0:
		f := func(lo, w uint8, add uint64) *Term {
			return tt.Add(tt.Zext(tt.Extract(e, lo, w), 64), tt.Const(64, add))
		}
		return civil{y: f(26, 14, 1), mo: f(22, 4, 1), d: f(17, 5, 1), h: f(12, 5, 0), mi: f(6, 6, 0), s: f(0, 6, 0), ns: tt.Const(64, 0)}
	case 1:
		e = tt.Add(e, tt.Const(64, uint64(m.offOf(a))))
		if e.IsConst() {
			t := time.Unix(int64(e.val), 0).UTC()
			return m.civilConst(t)
		}
		return m.freshCivil(e)
	case 2:
		if m.offOf(a) != 0 {
			unsup("local time near the zero time")
		}
		if e.IsConst() {
			t := time.Time{}.Add(time.Duration(e.val))
			c := m.civilConst(t)
			c.ns = tt.Const(64, uint64(t.Nanosecond()))
			return c
		}
		const day = 86400_000_000_000
		if !m.branch(tt.Ult(e, tt.Const(64, 2*day))) {
			unsup("time far from the zero time")
		}
		d := tt.Const(64, 1)
		if !m.branch(tt.Ult(e, tt.Const(64, day))) {
			d = tt.Const(64, 2)
			e = tt.Sub(e, tt.Const(64, day))
		}
		q := func(x *Term, k uint64) *Term { return tt.Udiv(x, tt.Const(64, k)) }
		r := func(x *Term, k uint64) *Term { return tt.Urem(x, tt.Const(64, k)) }
		return civil{y: tt.Const(64, 1), mo: tt.Const(64, 1), d: d, h: q(e, 3600_000_000_000), mi: q(r(e, 3600_000_000_000), 60_000_000_000),
			s: q(r(e, 60_000_000_000), 1_000_000_000), ns: r(e, 1_000_000_000)}
	}
	unsup("time kind %d", kind)
	return civil{}
}

func (m *Machine) civilConst(t time.Time) civil {
	c := func(v int) *Term { return m.tt.Const(64, uint64(v)) }
	return civil{c(t.Year()), c(int(t.Month())), c(t.Day()), c(t.Hour()), c(t.Minute()), c(t.Second()), c(0)}
}

// freshCivil introduces civil fields for a symbolic instant, tied by the calendar formula
func (m *Machine) freshCivil(e *Term) civil {
	p := m.path
	c := civil{y: p.newVarRange(64, "cy", 1970, 2200), mo: p.newVarRange(64, "cm", 1, 12), d: p.newVarRange(64, "cd", 1, 31),
		h: p.newVarRange(64, "ch", 0, 23), mi: p.newVarRange(64, "cmi", 0, 59), s: p.newVarRange(64, "cs", 0, 59), ns: m.tt.Const(64, 0)}
	p.assume(m.validDate(c))
	p.assume(m.tt.Eq(m.unixOf(c), e))
	return c
}

func (m *Machine) isLeap(y *Term) *Term {
	tt := m.tt
	z := func(k uint64) *Term { return tt.Eq(tt.Urem(y, tt.Const(64, k)), tt.Const(64, 0)) }
	if y.lo >= 1901 && y.hi <= 2099 {
		return tt.Eq(tt.Bvand(y, tt.Const(64, 3)), tt.Const(64, 0))
	}
	return tt.And(z(4), tt.Or(tt.Not(z(100)), z(400)))
}

func (m *Machine) daysIn(y, mo *Term) *Term {
	tt := m.tt
	k := func(v uint64) *Term { return tt.Const(64, v) }
	is := func(n uint64) *Term { return tt.Eq(mo, k(n)) }
	return tt.Ite(is(2), tt.Ite(m.isLeap(y), k(29), k(28)), tt.Ite(tt.Or(tt.Or(is(4), is(6)), tt.Or(is(9), is(11))), k(30), k(31)))
}

func (m *Machine) validDate(c civil) *Term {
	tt := m.tt
	in := func(t *Term, lo, hi uint64) *Term {
		return tt.And(tt.Ule(tt.Const(64, lo), t), tt.Ule(t, tt.Const(64, hi)))
	}
	r := tt.And(in(c.mo, 1, 12), tt.And(tt.Ule(tt.Const(64, 1), c.d), tt.Ule(c.d, m.daysIn(c.y, c.mo))))
	return tt.And(r, tt.And(in(c.h, 0, 23), tt.And(in(c.mi, 0, 59), in(c.s, 0, 59))))
}

func (m *Machine) unixOf(c civil) *Term {
	tt := m.tt
	k := func(v int64) *Term { return tt.Const(64, uint64(v)) }
	y0 := tt.Sub(c.y, k(1))
	days := tt.Mul(y0, k(365))
	days = tt.Add(days, tt.Udiv(y0, k(4)))
	days = tt.Sub(days, tt.Udiv(y0, k(100)))
	days = tt.Add(days, tt.Udiv(y0, k(400)))
	cum := []int64{0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334}
	cm := k(cum[11])
	for i := 10; i >= 0; i-- {
		cm = tt.Ite(tt.Eq(c.mo, k(int64(i+1))), k(cum[i]), cm)
	}
	days = tt.Add(days, cm)
	days = tt.Add(days, tt.Ite(tt.And(m.isLeap(c.y), tt.Ult(k(2), c.mo)), k(1), k(0)))
	days = tt.Add(days, c.d)
	days = tt.Sub(days, k(719163))
	r := tt.Mul(days, k(86400))
	r = tt.Add(r, tt.Mul(c.h, k(3600)))
	r = tt.Add(r, tt.Mul(c.mi, k(60)))
	return tt.Add(r, c.s)
}

func (m *Machine) timeUnix(a *Agg) *Term {
	kind, e := timeParts(a)
	if kind == 1 {
		return e
	}
	if kind == 2 {
		if e.IsConst() {
			return m.tt.Const(64, uint64(time.Time{}.Add(time.Duration(e.val)).Unix()))
		}
		unsup("Unix time of an offset from the zero time")
	}
	u := m.tt.Sub(m.unixOf(m.civilOf(a)), m.tt.Const(64, uint64(m.offOf(a))))
	if !u.IsConst() {
		m.unixReg[u] = a
	}
	return u
}

func (m *Machine) fromUnix(sec *Term, loc Value) *Agg {
	if loc == nil {
		loc = (*Cell)(nil)
	}
	if a := m.unixReg[sec]; a != nil && m.offOf(a) == m.offset(loc) {
		return m.mkTime(0, a.cells[1].v.(*Term), loc)
	}
	if sec.IsConst() {
		t := time.Unix(int64(sec.val)+m.offset(loc), 0).UTC()
		if t.Year() >= 1 && t.Year() < 16384 {
			return m.mkTime(0, m.packCivil(m.civilConst(t)), loc)
		}
	}
	return m.mkTime(1, sec, loc)
}

func (m *Machine) timeEq(a, b *Agg) *Term {
	ka, ea := timeParts(a)
	kb, eb := timeParts(b)
	if ka == kb && (ka != 0 || m.sameZone(a, b)) {
		return m.tt.Eq(ea, eb)
	}
	return m.tt.Eq(m.timeUnix(a), m.timeUnix(b))
}

func (m *Machine) timeLess(a, b *Agg) *Term {
	ka, ea := timeParts(a)
	kb, eb := timeParts(b)
	if ka == kb && (ka != 0 || m.sameZone(a, b)) {
		if ka == 0 {
			return m.tt.Ult(ea, eb)
		}
		return m.tt.Slt(ea, eb)
	}
	return m.tt.Slt(m.timeUnix(a), m.timeUnix(b))
}

type layoutTok struct {
	lit string
	std string
}

func parseLayout(l string) []layoutTok {
	var out []layoutTok
	for len(l) > 0 {
		found := ""
		for _, s := range []string{"2006", "01", "02", "15", "04", "05", "06"} {
			if len(l) >= len(s) && l[:len(s)] == s {
				found = s
				break
			}
		}
		if found != "" {
			out = append(out, layoutTok{std: found})
			l = l[len(found):]
			continue
		}
		c := l[0]
		if c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == ',' {
			if c == 'T' {
				out = append(out, layoutTok{lit: "T"})
				l = l[1:]
				continue
			}
			unsup("time layout %q", l)
		}
		out = append(out, layoutTok{lit: string(c)})
		l = l[1:]
	}
	return out
}

func (m *Machine) timeFormat(a *Agg, layout string) Str {
	c := m.civilOf(a)
	out := Str{}
	for _, t := range parseLayout(layout) {
		switch t.std {
		case "":
			out = m.concat(out, Str{s: t.lit})
		case "2006":
			out = m.concat(out, m.digits(c.y, 4))
		case "06":
			out = m.concat(out, m.digits(m.tt.Urem(c.y, m.tt.Const(64, 100)), 2))
		case "01":
			out = m.concat(out, m.digits(c.mo, 2))
		case "02":
			out = m.concat(out, m.digits(c.d, 2))
		case "15":
			out = m.concat(out, m.digits(c.h, 2))
		case "04":
			out = m.concat(out, m.digits(c.mi, 2))
		case "05":
			out = m.concat(out, m.digits(c.s, 2))
		}
	}
	return out
}

func (m *Machine) timeParse(layout string, v Str, loc Value) Value {
	tt := m.tt
	b := m.strTerms(v)
	fail := func() Value {
		t := m.namedType("time", "ParseError")
		return Tuple{m.zeroTime(), Iface{types.NewPointer(t), &Cell{v: m.zero(t)}}}
	}
	k := func(n uint64) *Term { return tt.Const(64, n) }
	c := civil{k(1), k(1), k(1), k(0), k(0), k(0), k(0)}
	num := func(n int) (*Term, bool) {
		if len(b) < n {
			return nil, false
		}
		r := k(0)
		for i := 0; i < n; i++ {
			d := tt.Sub(b[i], tt.Const(8, '0'))
			if !m.branch(tt.Ult(d, tt.Const(8, 10))) {
				return nil, false
			}
			r = tt.Add(tt.Mul(r, k(10)), tt.Zext(d, 64))
		}
		b = b[n:]
		return r, true
	}
	for _, t := range parseLayout(layout) {
		if t.std == "" {
			if len(b) < len(t.lit) || !m.branch(m.strEq(mkStr(b[:len(t.lit)]), Str{s: t.lit})) {
				return fail()
			}
			b = b[len(t.lit):]
			continue
		}
		n := len(t.std)
		x, ok := num(n)
		if !ok {
			return fail()
		}
		lim := func(lo, hi uint64) bool {
			return m.branch(tt.And(tt.Ule(k(lo), x), tt.Ule(x, k(hi))))
		}
		ok = true
		switch t.std {
		case "2006":
			c.y = x
		case "06":
			if m.branch(tt.Ule(k(69), x)) {
				c.y = tt.Add(x, k(1900))
			} else {
				c.y = tt.Add(x, k(2000))
			}
		case "01":
			c.mo = x
			ok = lim(1, 12)
		case "02":
			c.d = x
		case "15":
			c.h = x
			ok = lim(0, 23)
		case "04":
			c.mi = x
			ok = lim(0, 59)
		case "05":
			c.s = x
			ok = lim(0, 59)
			if ok && len(b) >= 2 && m.branch(tt.Or(tt.Eq(b[0], tt.Const(8, '.')), tt.Eq(b[0], tt.Const(8, ',')))) {
				unsup("fractional seconds in a parsed time")
			}
		}
		if !ok {
			return fail()
		}
	}
	if len(b) > 0 {
		return fail()
	}
	if !m.branch(tt.And(tt.Ule(k(1), c.d), tt.Ule(c.d, m.daysIn(c.y, c.mo)))) {
		return fail()
	}
	if !m.branch(tt.Ule(k(1), c.y)) {
		unsup("year 0")
	}
	return Tuple{m.mkTime(0, m.packCivil(c), loc), Iface{}}
}

func (m *Machine) zeroTime() *Agg { return m.mkTime(0, m.tt.Const(64, 0), nil) }

func timeField(f func(c civil) *Term) intrinsic {
	return func(m *Machine, fn *ssa.Function, a []Value) Value { return f(m.civilOf(a[0].(*Agg))) }
}

var timeIntrinsics map[string]intrinsic

func init() {
	timeIntrinsics = map[string]intrinsic{
		"time.Date": func(m *Machine, fn *ssa.Function, a []Value) Value {
			c := civil{arg(m, a[0]), m.tt.Sext(arg(m, a[1]), 64), arg(m, a[2]), arg(m, a[3]), arg(m, a[4]), arg(m, a[5]), m.int(0)}
			if ns := arg(m, a[6]); !ns.IsConst() || ns.val != 0 {
				unsup("time.Date with nanoseconds")
			}
			ok := m.tt.And(m.validDate(c), m.tt.And(m.tt.Ule(m.int(1), c.y), m.tt.Ule(c.y, m.int(9999))))
			if !m.branch(ok) {
				if c.y.IsConst() && c.mo.IsConst() && c.d.IsConst() && c.h.IsConst() && c.mi.IsConst() && c.s.IsConst() {
					t := time.Date(int(c.y.val), time.Month(c.mo.val), int(c.d.val), int(c.h.val), int(c.mi.val), int(c.s.val), 0, time.UTC)
					return m.mkTime(0, m.packCivil(m.civilConst(t)), a[7])
				}
				unsup("time.Date with fields out of range")
			}
			return m.mkTime(0, m.packCivil(c), a[7])
		},
		"time.Unix": func(m *Machine, fn *ssa.Function, a []Value) Value {
			if ns := arg(m, a[1]); !ns.IsConst() || ns.val != 0 {
				unsup("time.Unix with nanoseconds")
			}
			return m.fromUnix(arg(m, a[0]), m.timeGlobal("Local"))
		},
		"(time.Time).Unix": func(m *Machine, fn *ssa.Function, a []Value) Value { return m.timeUnix(a[0].(*Agg)) },
		"(time.Time).UnixNano": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.tt.Mul(m.timeUnix(a[0].(*Agg)), m.int(1e9))
		},
		"(time.Time).UnixMilli": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.tt.Mul(m.timeUnix(a[0].(*Agg)), m.int(1e3))
		},
		"(time.Time).Format": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.timeFormat(a[0].(*Agg), concStr(m, a[1]))
		},
		"(time.Time).Year":       timeField(func(c civil) *Term { return c.y }),
		"(time.Time).Month":      timeField(func(c civil) *Term { return c.mo }),
		"(time.Time).Day":        timeField(func(c civil) *Term { return c.d }),
		"(time.Time).Hour":       timeField(func(c civil) *Term { return c.h }),
		"(time.Time).Minute":     timeField(func(c civil) *Term { return c.mi }),
		"(time.Time).Second":     timeField(func(c civil) *Term { return c.s }),
		"(time.Time).Nanosecond": timeField(func(c civil) *Term { return c.ns }),
		"(time.Time).Clock": func(m *Machine, fn *ssa.Function, a []Value) Value {
			c := m.civilOf(a[0].(*Agg))
			return Tuple{c.h, c.mi, c.s}
		},
		"(time.Time).Date": func(m *Machine, fn *ssa.Function, a []Value) Value {
			c := m.civilOf(a[0].(*Agg))
			return Tuple{c.y, c.mo, c.d}
		},
		"(time.Time).Equal":  func(m *Machine, fn *ssa.Function, a []Value) Value { return m.timeEq(a[0].(*Agg), a[1].(*Agg)) },
		"(time.Time).Before": func(m *Machine, fn *ssa.Function, a []Value) Value { return m.timeLess(a[0].(*Agg), a[1].(*Agg)) },
		"(time.Time).After":  func(m *Machine, fn *ssa.Function, a []Value) Value { return m.timeLess(a[1].(*Agg), a[0].(*Agg)) },
		"(time.Time).IsZero": func(m *Machine, fn *ssa.Function, a []Value) Value {
			k, e := timeParts(a[0].(*Agg))
			if k == 1 {
				return m.tt.Eq(e, m.int(-62135596800))
			}
			if m.offOf(a[0].(*Agg)) != 0 {
				return m.tt.fls
			}
			return m.tt.Eq(e, m.int(0))
		},
		"(time.Time).Add": func(m *Machine, fn *ssa.Function, a []Value) Value {
			t, d := a[0].(*Agg), arg(m, a[1])
			k, e := timeParts(t)
			if d.IsConst() && d.val == 0 {
				return t
			}
			if k == 0 && e.IsConst() && e.val == 0 && m.offOf(t) == 0 {
				return m.mkTime(2, d, t.cells[2].v)
			}
			if k == 2 {
				return m.mkTime(2, m.tt.Add(e, d), t.cells[2].v)
			}
			if d.IsConst() && int64(d.val)%1e9 == 0 {
				return m.fromUnix(m.tt.Add(m.timeUnix(t), m.int(int(int64(d.val)/1e9))), t.cells[2].v)
			}
			// seconds times a symbolic count
			if parts, kk, ok := m.tt.linear(d); ok && kk%1e9 == 0 {
				s := m.tt.Const(64, kk/1e9)
				good := true
				for _, p := range parts {
					if p.k%1e9 != 0 {
						good = false
						break
					}
					s = m.tt.Add(s, m.tt.Mul(p.x, m.tt.Const(64, p.k/1e9)))
				}
				if good {
					return m.fromUnix(m.tt.Add(m.timeUnix(t), s), t.cells[2].v)
				}
			}
			unsup("time.Add of a symbolic duration")
			return nil
		},
		"(time.Time).Sub": func(m *Machine, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(*Agg), a[1].(*Agg)
			kx, ex := timeParts(x)
			ky, ey := timeParts(y)
			if kx == 2 && ky == 2 {
				return m.tt.Sub(ex, ey)
			}
			return m.tt.Mul(m.tt.Sub(m.timeUnix(x), m.timeUnix(y)), m.int(1e9))
		},
		"(time.Time).Truncate": func(m *Machine, fn *ssa.Function, a []Value) Value {
			d := arg(m, a[1])
			k, _ := timeParts(a[0].(*Agg))
			if k != 2 && d.IsConst() && d.val == 1e9 {
				return a[0]
			}
			unsup("time.Truncate")
			return nil
		},
		"(time.Time).In": func(m *Machine, fn *ssa.Function, a []Value) Value { return m.withLoc(a[0].(*Agg), a[1]) },
		"(time.Time).Local": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.withLoc(a[0].(*Agg), m.timeGlobal("Local"))
		},
		"(time.Time).UTC": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.withLoc(a[0].(*Agg), m.timeGlobal("UTC"))
		},
		"(time.Time).Round":    func(m *Machine, fn *ssa.Function, a []Value) Value { return a[0] },
		"(time.Time).Location": func(m *Machine, fn *ssa.Function, a []Value) Value { return a[0].(*Agg).cells[2].v },
		"time.ParseInLocation": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.timeParse(concStr(m, a[0]), a[1].(Str).forced(), a[2])
		},
		"time.Parse": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.timeParse(concStr(m, a[0]), a[1].(Str).forced(), nil)
		},
		"time.runtimeNano": func(m *Machine, fn *ssa.Function, a []Value) Value { return m.int(1) },
		"time.runtimeNow":  func(m *Machine, fn *ssa.Function, a []Value) Value { return m.int(1) },
	}
}

func (m *Machine) withLoc(a *Agg, loc Value) *Agg {
	if k, _ := timeParts(a); k != 2 && m.offOf(a) != m.offset(loc) {
		return m.fromUnix(m.timeUnix(a), loc)
	}
	n := copyVal(a).(*Agg)
	n.cells[2].v = loc
	return n
}
