package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *Machine, fn *ssa.Function, args []Value) Value

type tailCall struct {
	fv   Value
	args []Value
}

const vfPath = "gitee.com/coco/go808/zzvf"

// packages whose initialisers are not run
var initSkip = map[string]bool{
	"runtime": true, "os": true, "syscall": true, "net": true, "net/http": true, "reflect": true, "internal/godebug": true, "internal/poll": true,
	"github.com/sirupsen/logrus": true, "crypto/rsa": true, "crypto/rand": true, "testing": true, "internal/cpu": true, "log": true,
}

func nop(m *Machine, fn *ssa.Function, args []Value) Value { return m.resultZero(fn) }

func (m *Machine) resultZero(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(res.At(0).Type())
	}
	return m.zero(res)
}

func (m *Machine) lookupIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if fn.Origin() != nil {
		name = fn.Origin().String()
	}
	if in, ok := intrinsics[name]; ok {
		return in
	}
	if in, ok := timeIntrinsics[name]; ok {
		return in
	}
	if in, ok := decimalIntrinsics[name]; ok {
		return in
	}
	if to, ok := redirects[name]; ok {
		if p := m.prog.ImportedPackage(vfPath); p != nil {
			if f := p.Func(to); f != nil {
				return func(m *Machine, _ *ssa.Function, args []Value) Value {
					return tailCall{&Closure{fn: f}, args}
				}
			}
		}
	}
	if fn.Pkg != nil {
		switch fn.Pkg.Pkg.Path() {
		case "github.com/sirupsen/logrus":
			return logStub
		case "runtime/debug":
			return nop
		}
	} else if strings.Contains(name, "github.com/sirupsen/logrus.") {
		return logStub
	}
	return nil
}

// logging does nothing; pointer results are dummies so that calls can be chained
func logStub(m *Machine, fn *ssa.Function, args []Value) Value {
	res := fn.Signature.Results()
	if res.Len() == 1 {
		if p, ok := res.At(0).Type().Underlying().(*types.Pointer); ok {
			return &Cell{v: m.zero(p.Elem())}
		}
	}
	return m.resultZero(fn)
}

// redirects run a replacement written in Go in the vf package
var redirects = map[string]string{
	"errors.Is": "ErrorsIs",
}

var intrinsics map[string]intrinsic

// shortcuts summarise a common case of a library function; otherwise its body runs
var shortcuts = map[string]func(*Machine, []Value) (Value, bool){
	"(golang.org/x/text/encoding/simplifiedchinese.gbkDecoder).Transform": asciiCopy,
	"(golang.org/x/text/encoding/simplifiedchinese.gbkEncoder).Transform": asciiCopy,
}

// asciiCopy: ASCII text is copied unchanged by the GB18030 coders (one fork for
// the whole text instead of one per byte)
func asciiCopy(m *Machine, args []Value) (Value, bool) {
	dst, src := args[1].(Slice), args[2].(Slice)
	if len(src.c) == 0 || len(dst.c) < len(src.c) {
		return nil, false
	}
	c, sym := m.tt.tru, false
	b := m.bytesOf(src)
	for _, t := range b {
		sym = sym || !t.IsConst()
		c = m.tt.And(c, m.tt.Ult(t, m.tt.Const(8, 0x80)))
	}
	if !sym || !m.branch(c) {
		return nil, false
	}
	for i, t := range b {
		dst.c[i].v = t
	}
	n := m.int(len(b))
	return Tuple{n, n, Iface{}}, true
}

func arg(m *Machine, v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		if p, ok := v.(Poison); ok {
			unsup("use of %s", p.why)
		}
		unsup("integer argument expected, got %T", v)
	}
	return t
}

func concStr(m *Machine, v Value) string {
	s, ok := v.(Str)
	if !ok {
		unsup("string argument expected, got %T", v)
	}
	s = s.forced()
	if s.b != nil {
		unsup("symbolic string where a concrete one is needed")
	}
	return s.s
}

func atomicLoad(m *Machine, fn *ssa.Function, args []Value) Value { return m.load(args[0]) }
func atomicStore(m *Machine, fn *ssa.Function, args []Value) Value {
	m.storeTo(args[0], args[1])
	return nil
}
func atomicAdd(m *Machine, fn *ssa.Function, args []Value) Value {
	v := m.tt.Add(arg(m, m.load(args[0])), arg(m, args[1]))
	m.storeTo(args[0], v)
	return v
}
func atomicSwap(m *Machine, fn *ssa.Function, args []Value) Value {
	v := m.load(args[0])
	m.storeTo(args[0], args[1])
	return v
}
func atomicCAS(m *Machine, fn *ssa.Function, args []Value) Value {
	if m.branch(m.eq(m.load(args[0]), args[1])) {
		m.storeTo(args[0], args[2])
		return m.tt.tru
	}
	return m.tt.fls
}

func (m *Machine) namedType(pkg, name string) types.Type {
	p := m.prog.ImportedPackage(pkg)
	if p == nil || p.Type(name) == nil {
		unsup("type %s.%s not loaded", pkg, name)
	}
	return p.Type(name).Type()
}

// newError builds an error value with a (possibly lazy) text
func (m *Machine) newError(s Str) Iface {
	t := m.namedType("errors", "errorString")
	return Iface{types.NewPointer(t), &Cell{v: &Agg{cells: []Cell{{s}}}}}
}

func (m *Machine) sliceIfaces(v Value) []Iface {
	s, ok := v.(Slice)
	if !ok {
		unsup("variadic arguments: %T", v)
	}
	out := make([]Iface, len(s.c))
	for i := range s.c {
		out[i] = s.c[i].v.(Iface)
	}
	return out
}

func (m *Machine) input(name string, t *Term) *Term {
	m.path.inputs = append(m.path.inputs, inputRec{name, t})
	return t
}

func nondet(w uint8, name string) intrinsic {
	return func(m *Machine, fn *ssa.Function, args []Value) Value {
		return m.input(name, m.path.newVar(w, name))
	}
}

func init() {
	intrinsics = map[string]intrinsic{
		vfPath + ".Byte": nondet(8, "byte"),
		vfPath + ".U16":  nondet(16, "u16"),
		vfPath + ".U32":  nondet(32, "u32"),
		vfPath + ".U64":  nondet(64, "u64"),
		vfPath + ".Bool": nondet(0, "bool"),
		vfPath + ".Bytes": func(m *Machine, fn *ssa.Function, args []Value) Value {
			n := m.concInt(args[0])
			c := make([]Cell, n)
			for i := range c {
				c[i].v = m.input("byte", m.path.newVar(8, "b"))
			}
			return Slice{c}
		},
		vfPath + ".anyRange": func(m *Machine, fn *ssa.Function, args []Value) Value {
			lo, hi := m.concInt(args[0]), m.concInt(args[1])
			if lo < 0 || hi < lo {
				unsup("vf.Range(%d, %d)", lo, hi)
			}
			if lo == hi {
				return m.input("range", m.int(lo))
			}
			return m.input("range", m.path.newVarRange(64, "n", uint64(lo), uint64(hi)))
		},
		vfPath + ".anyChoose": func(m *Machine, fn *ssa.Function, args []Value) Value {
			n := m.concInt(args[0])
			if n <= 0 {
				unsup("vf.Choose(%d)", n)
			}
			if n == 1 {
				return m.int(0)
			}
			t := m.input("choose", m.path.newVarRange(64, "c", 0, uint64(n-1)))
			return m.tt.Const(64, m.concretise(t))
		},
		vfPath + ".Pin": func(m *Machine, fn *ssa.Function, args []Value) Value {
			return m.tt.Const(64, m.concretise(arg(m, args[0])))
		},
		vfPath + ".Assume": func(m *Machine, fn *ssa.Function, args []Value) Value {
			m.path.assume(arg(m, args[0]))
			return nil
		},
		vfPath + ".Assert": func(m *Machine, fn *ssa.Function, args []Value) Value {
			m.path.assert(arg(m, args[0]), concStr(m, args[1]))
			return nil
		},
		vfPath + ".Fail": func(m *Machine, fn *ssa.Function, args []Value) Value {
			m.path.assert(m.tt.fls, concStr(m, args[0]))
			return nil
		},
		vfPath + ".Cover": func(m *Machine, fn *ssa.Function, args []Value) Value {
			m.path.covers = append(m.path.covers, concStr(m, args[0]))
			return nil
		},
		vfPath + ".Observe": func(m *Machine, fn *ssa.Function, args []Value) Value {
			v := args[1].(Iface).v
			if s, ok := v.(Slice); ok {
				c := make([]Cell, len(s.c))
				copy(c, s.c)
				v = Slice{c}
			}
			m.path.obs = append(m.path.obs, obsRec{concStr(m, args[0]), v})
			return nil
		},
		vfPath + ".And": func(m *Machine, fn *ssa.Function, args []Value) Value {
			r := m.tt.tru
			for _, c := range args[0].(Slice).c {
				r = m.tt.And(r, c.v.(*Term))
			}
			return r
		},
		vfPath + ".Or": func(m *Machine, fn *ssa.Function, args []Value) Value {
			r := m.tt.fls
			for _, c := range args[0].(Slice).c {
				r = m.tt.Or(r, c.v.(*Term))
			}
			return r
		},
		vfPath + ".Implies": func(m *Machine, fn *ssa.Function, args []Value) Value {
			return m.tt.Or(m.tt.Not(arg(m, args[0])), arg(m, args[1]))
		},
		vfPath + ".IteInt": func(m *Machine, fn *ssa.Function, args []Value) Value {
			return m.tt.Ite(arg(m, args[0]), arg(m, args[1]), arg(m, args[2]))
		},
		vfPath + ".EqBytes": func(m *Machine, fn *ssa.Function, args []Value) Value {
			a, b := m.bytesOf(args[0]), m.bytesOf(args[1])
			if len(a) != len(b) {
				return m.tt.fls
			}
			r := m.tt.tru
			for i := range a {
				r = m.tt.And(r, m.tt.Eq(a[i], b[i]))
			}
			return r
		},
		vfPath + ".Equal": func(m *Machine, fn *ssa.Function, args []Value) Value {
			return m.deepEq(args[0], args[1], nil, 0)
		},
		vfPath + ".Clone": func(m *Machine, fn *ssa.Function, args []Value) Value {
			return m.deepCopy(args[0], nil)
		},
		vfPath + ".chanClosed": func(m *Machine, fn *ssa.Function, args []Value) Value {
			c := args[0].(Iface).v.(*ChanV)
			return m.tt.Bool(c != nil && c.closed)
		},
		vfPath + ".noteClosed": nop,
		vfPath + ".chanLen": func(m *Machine, fn *ssa.Function, args []Value) Value {
			c := args[0].(Iface).v.(*ChanV)
			if c == nil {
				return m.int(0)
			}
			return m.int(len(c.buf))
		},
		vfPath + ".chanRoom": func(m *Machine, fn *ssa.Function, args []Value) Value {
			c := args[0].(Iface).v.(*ChanV)
			return m.tt.Bool(c != nil && (c.closed || len(c.buf) < c.cap))
		},
		vfPath + ".Incompatible": func(m *Machine, fn *ssa.Function, args []Value) Value {
			panic(Unsupported{"harness code that does not fit this tree"})
		},
		vfPath + ".isSymbolic": func(m *Machine, fn *ssa.Function, args []Value) Value { return m.tt.tru },
		vfPath + ".Thorough":   func(m *Machine, fn *ssa.Function, args []Value) Value { return m.tt.Bool(tierThorough) },
		vfPath + ".recordFailure": func(m *Machine, fn *ssa.Function, args []Value) Value {
			m.path.assert(m.tt.fls, concStr(m, args[0]))
			return nil
		},
		vfPath + ".chanNil": func(m *Machine, fn *ssa.Function, args []Value) Value {
			i := args[0].(Iface)
			if i.t == nil {
				return m.tt.tru
			}
			return m.tt.Bool(i.v.(*ChanV) == nil)
		},
		vfPath + ".mapID": func(m *Machine, fn *ssa.Function, args []Value) Value {
			i := args[0].(Iface)
			mp, _ := i.v.(*MapV)
			if mp == nil {
				return Iface{}
			}
			if mp.id == nil {
				mp.id = &Cell{v: m.tt.Const(8, 0)}
			}
			return Iface{types.NewPointer(types.Typ[types.Uint8]), mp.id}
		},
		vfPath + ".MapKeys": func(m *Machine, fn *ssa.Function, args []Value) Value {
			i := args[0].(Iface)
			mp, _ := i.v.(*MapV)
			if mp == nil {
				return Slice{}
			}
			kt := i.t.Underlying().(*types.Map).Key()
			type ks struct {
				s string
				v Value
			}
			var l []ks
			conc := true
			for _, e := range mp.live() {
				s := ""
				switch k := e.k.(type) {
				case *Term:
					conc = conc && k.IsConst()
					s = fmt.Sprint(k.val)
				case Str:
					conc = conc && k.isConcrete()
					if conc {
						s = k.forced().s
					}
				default:
					conc = false
				}
				l = append(l, ks{s, e.k})
			}
			if conc {
				sort.SliceStable(l, func(i, j int) bool {
					if len(l[i].s) != len(l[j].s) {
						return len(l[i].s) < len(l[j].s)
					}
					return l[i].s < l[j].s
				})
			}
			c := make([]Cell, len(l))
			for i := range l {
				k := l[i].v
				if _, ok := kt.Underlying().(*types.Interface); ok {
					c[i].v = k
				} else {
					c[i].v = Iface{kt, k}
				}
			}
			return Slice{c}
		},

		// fmt and errors
		"fmt.Sprintf": func(m *Machine, fn *ssa.Function, args []Value) Value {
			f, a := args[0].(Str), m.sliceIfaces(args[1])
			return m.lazyFormat(f, a)
		},
		"fmt.Sprint": func(m *Machine, fn *ssa.Function, args []Value) Value {
			a := m.sliceIfaces(args[0])
			return Str{lazy: &lazyStr{force: func() Str {
				if len(a) == 1 {
					return m.format("%v", a)
				}
				unsup("fmt.Sprint")
				return Str{}
			}}}
		},
		"fmt.Errorf": func(m *Machine, fn *ssa.Function, args []Value) Value {
			f, a := args[0].(Str), m.sliceIfaces(args[1])
			if f.isConcrete() && strings.Contains(f.forced().s, "%w") {
				for _, x := range a {
					if x.t != nil && types.Implements(x.t, types.Universe.Lookup("error").Type().Underlying().(*types.Interface)) {
						t := m.namedType("fmt", "wrapError")
						return Iface{types.NewPointer(t), &Cell{v: &Agg{cells: []Cell{{m.lazyFormat(f, a)}, {x}}}}}
					}
				}
			}
			return m.newError(m.lazyFormat(f, a))
		},
		"fmt.Println": nop, "fmt.Printf": nop, "fmt.Print": nop, "fmt.Fprintf": nop, "fmt.Fprintln": nop, "fmt.Fprint": nop,
		"encoding/hex.EncodeToString": func(m *Machine, fn *ssa.Function, args []Value) Value {
			b := m.bytesOf(args[0])
			return Str{lazy: &lazyStr{force: func() Str { return m.hexStr(b, false) }}}
		},

		// sync
		"(*sync.Mutex).Lock": nop, "(*sync.Mutex).Unlock": nop, "(*sync.RWMutex).Lock": nop, "(*sync.RWMutex).Unlock": nop, "(*sync.RWMutex).RLock": nop, "(*sync.RWMutex).RUnlock": nop,
		"(*sync.Mutex).TryLock": func(m *Machine, fn *ssa.Function, args []Value) Value { return m.tt.tru },
		"(*sync.Once).Do": func(m *Machine, fn *ssa.Function, args []Value) Value {
			a := m.ptr(args[0]).v.(*Agg)
			c := m.onceCell(a)
			if t, ok := c.v.(*Term); ok && t.IsConst() && t.val == 1 {
				return nil
			}
			m.setCell(c, m.tt.Const(32, 1))
			return tailCall{args[1], nil}
		},
		"(*sync.Pool).Get": func(m *Machine, fn *ssa.Function, args []Value) Value {
			a := m.ptr(args[0]).v.(*Agg)
			nw, _ := a.cells[len(a.cells)-1].v.(*Closure)
			if nw == nil {
				return Iface{}
			}
			return tailCall{nw, nil}
		},
		"(*sync.Pool).Put": nop,
		"runtime.Gosched":  nop, "runtime.GC": nop, "runtime.KeepAlive": nop, "runtime.SetFinalizer": nop,
		"internal/race.Enabled": nop,
		"internal/abi.NoEscape": func(m *Machine, fn *ssa.Function, args []Value) Value { return args[0] },
		"strings.noescape":      func(m *Machine, fn *ssa.Function, args []Value) Value { return args[0] },
		"internal/abi.Escape":   func(m *Machine, fn *ssa.Function, args []Value) Value { return args[0] },
		"(*strings.Builder).String": func(m *Machine, fn *ssa.Function, args []Value) Value {
			a := m.ptr(args[0]).v.(*Agg)
			return mkStr(m.bytesOf(a.cells[1].v))
		},
		"(*strings.Builder).copyCheck": nop,
		"internal/bytealg.MakeNoZero": func(m *Machine, fn *ssa.Function, args []Value) Value {
			n := m.concInt(args[0])
			c := make([]Cell, n, growCap(0, n, types.Typ[types.Uint8]))
			z := m.tt.Const(8, 0)
			full := c[:cap(c)]
			for i := range full {
				full[i].v = z
			}
			return Slice{c}
		},
		"internal/bytealg.IndexByte": func(m *Machine, fn *ssa.Function, a []Value) Value { return m.indexByte(m.bytesOf(a[0]), arg(m, a[1])) },
		"internal/bytealg.IndexByteString": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.indexByte(m.strTerms(a[0].(Str)), arg(m, a[1]))
		},
		"internal/bytealg.LastIndexByte": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.lastIndexByte(m.bytesOf(a[0]), arg(m, a[1]))
		},
		"internal/bytealg.LastIndexByteString": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.lastIndexByte(m.strTerms(a[0].(Str)), arg(m, a[1]))
		},
		"internal/bytealg.Count": func(m *Machine, fn *ssa.Function, a []Value) Value { return m.countByte(m.bytesOf(a[0]), arg(m, a[1])) },
		"internal/bytealg.CountString": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.countByte(m.strTerms(a[0].(Str)), arg(m, a[1]))
		},
		"internal/bytealg.Index": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.indexSub(m.bytesOf(a[0]), m.bytesOf(a[1]))
		},
		"internal/bytealg.IndexString": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.indexSub(m.strTerms(a[0].(Str)), m.strTerms(a[1].(Str)))
		},
		"strings.Index": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.indexSub(m.strTerms(a[0].(Str)), m.strTerms(a[1].(Str)))
		},
		"bytes.Index": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.indexSub(m.bytesOf(a[0]), m.bytesOf(a[1]))
		},
		"internal/bytealg.Compare": func(m *Machine, fn *ssa.Function, a []Value) Value {
			x, y := mkStr(m.bytesOf(a[0])), mkStr(m.bytesOf(a[1]))
			return m.tt.Ite(m.strEq(x, y), m.int(0), m.tt.Ite(m.strLess(x, y), m.int(-1), m.int(1)))
		},
		"bytes.Compare": func(m *Machine, fn *ssa.Function, a []Value) Value {
			x, y := mkStr(m.bytesOf(a[0])), mkStr(m.bytesOf(a[1]))
			return m.tt.Ite(m.strEq(x, y), m.int(0), m.tt.Ite(m.strLess(x, y), m.int(-1), m.int(1)))
		},
		"internal/bytealg.Equal": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.strEq(mkStr(m.bytesOf(a[0])), mkStr(m.bytesOf(a[1])))
		},
		"internal/stringslite.Clone": func(m *Machine, fn *ssa.Function, a []Value) Value { return a[0] },
		"strings.Clone":              func(m *Machine, fn *ssa.Function, a []Value) Value { return a[0] },
		"bytes.Equal": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.strEq(mkStr(m.bytesOf(a[0])), mkStr(m.bytesOf(a[1])))
		},

		// math
		"math.Abs": func(m *Machine, fn *ssa.Function, a []Value) Value {
			x := a[0].(Float)
			if x.fp != nil {
				return m.fp1(OpFpAbs, x, 0)
			}
			if x.t == nil {
				return Float{f: math.Abs(x.f)}
			}
			return Float{t: m.tt.Ite(m.tt.Slt(x.t, m.int(0)), m.tt.Neg(x.t), x.t)}
		},
		"math.Float64bits": func(m *Machine, fn *ssa.Function, a []Value) Value {
			x := a[0].(Float)
			if !x.conc() {
				unsup("bits of a symbolic float")
			}
			return m.tt.Const(64, math.Float64bits(x.f))
		},
		"math.Float64frombits": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return Float{f: math.Float64frombits(m.concretise(arg(m, a[0])))}
		},
		"math.Trunc": floatInt1(math.Trunc, 0), "math.Floor": floatInt1(math.Floor, 1), "math.Ceil": floatInt1(math.Ceil, 2), "math.Round": floatInt1(math.Round, 3), "math.RoundToEven": floatInt1(math.RoundToEven, 4),
		"math.archTrunc": floatInt1(math.Trunc, 0), "math.archFloor": floatInt1(math.Floor, 1), "math.archCeil": floatInt1(math.Ceil, 2),
		"math.Pow": func(m *Machine, fn *ssa.Function, a []Value) Value {
			x, y := a[0].(Float), a[1].(Float)
			if !x.conc() || !y.conc() {
				unsup("symbolic math.Pow")
			}
			return Float{f: math.Pow(x.f, y.f)}
		},

		// reflect
		"reflect.ValueOf": func(m *Machine, fn *ssa.Function, a []Value) Value { return RV{a[0].(Iface)} },
		"(reflect.Value).IsNil": func(m *Machine, fn *ssa.Function, a []Value) Value {
			v := a[0].(RV)
			if v.i.t == nil {
				panic(goPanic{Iface{m.errStrT, Str{s: "reflect: call of reflect.Value.IsNil on zero Value"}}, "reflect IsNil"})
			}
			switch x := v.i.v.(type) {
			case *Cell:
				return m.tt.Bool(x == nil)
			case *MapV:
				return m.tt.Bool(x == nil)
			case Slice:
				return m.tt.Bool(x.c == nil)
			case *Closure:
				return m.tt.Bool(x == nil)
			case *ChanV:
				return m.tt.Bool(x == nil)
			}
			panic(goPanic{Iface{m.errStrT, Str{s: "reflect: call of reflect.Value.IsNil on " + v.i.t.String() + " Value"}}, "reflect IsNil"})
		},
		"(reflect.Value).IsValid": func(m *Machine, fn *ssa.Function, a []Value) Value { return m.tt.Bool(a[0].(RV).i.t != nil) },
		"(reflect.Value).Kind": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.tt.Const(64, uint64(kindOf(a[0].(RV).i.t)))
		},
		"internal/reflectlite.ValueOf": func(m *Machine, fn *ssa.Function, a []Value) Value { return RV{a[0].(Iface)} },
		"(internal/reflectlite.Value).Len": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.int(len(a[0].(RV).i.v.(Slice).c))
		},
		"internal/reflectlite.Swapper": func(m *Machine, fn *ssa.Function, a []Value) Value {
			s := a[0].(Iface).v.(Slice)
			return &Closure{name: "swapper", native: func(m *Machine, args []Value) Value {
				i, j := m.concInt(args[0]), m.concInt(args[1])
				x, y := copyVal(s.c[i].v), copyVal(s.c[j].v)
				m.store(&s.c[i], y)
				m.store(&s.c[j], x)
				return nil
			}}
		},

		// strconv on symbolic numbers
		"strconv.FormatUint": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.fmtInt(arg(m, a[0]), false, m.concInt(a[1]))
		},
		"strconv.FormatInt": func(m *Machine, fn *ssa.Function, a []Value) Value {
			return m.fmtInt(arg(m, a[0]), true, m.concInt(a[1]))
		},
		"strconv.Itoa": func(m *Machine, fn *ssa.Function, a []Value) Value { return m.fmtInt(arg(m, a[0]), true, 10) },
		"strconv.AppendUint": func(m *Machine, fn *ssa.Function, a []Value) Value {
			s := m.fmtInt(arg(m, a[1]), false, m.concInt(a[2]))
			return m.appendTerms(a[0].(Slice), m.strTerms(s))
		},
		"strconv.AppendInt": func(m *Machine, fn *ssa.Function, a []Value) Value {
			s := m.fmtInt(arg(m, a[1]), true, m.concInt(a[2]))
			return m.appendTerms(a[0].(Slice), m.strTerms(s))
		},
		"hash/crc32.init": nop,
	}
	for _, k := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		intrinsics["sync/atomic.Load"+k] = atomicLoad
		intrinsics["sync/atomic.Store"+k] = atomicStore
		intrinsics["sync/atomic.Add"+k] = atomicAdd
		intrinsics["sync/atomic.Swap"+k] = atomicSwap
		intrinsics["sync/atomic.CompareAndSwap"+k] = atomicCAS
	}
}

func floatInt1(f func(float64) float64, mode uint64) intrinsic {
	return func(m *Machine, fn *ssa.Function, a []Value) Value {
		x := a[0].(Float)
		if x.t != nil {
			return x
		}
		if x.fp != nil {
			return m.fp1(OpFpRound, x, mode)
		}
		return Float{f: f(x.f)}
	}
}

func kindOf(t types.Type) int {
	if t == nil {
		return 0
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool:
			return 1
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		case types.Float32:
			return 13
		case types.Float64:
			return 14
		case types.String:
			return 24
		case types.UnsafePointer:
			return 26
		}
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	unsup("kind of %s", t)
	return 0
}

func (m *Machine) onceCell(a *Agg) *Cell {
	// first scalar cell of the struct
	for i := range a.cells {
		switch x := a.cells[i].v.(type) {
		case *Term:
			return &a.cells[i]
		case *Agg:
			if c := m.onceCell(x); c != nil {
				return c
			}
		}
	}
	return nil
}

func (m *Machine) appendTerms(s Slice, ts []*Term) Slice {
	n := len(s.c)
	if n+len(ts) <= cap(s.c) {
		r := s.c[:n+len(ts)]
		for i, t := range ts {
			m.setCell(&r[n+i], t)
		}
		return Slice{r}
	}
	nc := growCap(cap(s.c), n+len(ts), types.Typ[types.Uint8])
	r := make([]Cell, n+len(ts), nc)
	copy(r, s.c)
	for i, t := range ts {
		r[n+i].v = t
	}
	full := r[:nc]
	for i := n + len(ts); i < nc; i++ {
		full[i].v = m.tt.Const(8, 0)
	}
	return Slice{r}
}

func (m *Machine) indexByte(b []*Term, c *Term) Value {
	for i, t := range b {
		if m.branch(m.tt.Eq(t, c)) {
			return m.int(i)
		}
	}
	return m.int(-1)
}

func (m *Machine) lastIndexByte(b []*Term, c *Term) Value {
	for i := len(b) - 1; i >= 0; i-- {
		if m.branch(m.tt.Eq(b[i], c)) {
			return m.int(i)
		}
	}
	return m.int(-1)
}

func (m *Machine) countByte(b []*Term, c *Term) Value {
	r := m.int(0)
	for _, t := range b {
		r = m.tt.Add(r, m.tt.Zext(m.tt.Eq(t, c), 64))
	}
	return r
}

func (m *Machine) indexSub(a, b []*Term) Value {
	for i := 0; i+len(b) <= len(a); i++ {
		if m.branch(m.strEq(mkStr(a[i:i+len(b)]), mkStr(b))) {
			return m.int(i)
		}
	}
	return m.int(-1)
}

func (m *Machine) hexStr(b []*Term, upper bool) Str {
	var out []*Term
	al := m.tt.Const(8, 'a'-10)
	if upper {
		al = m.tt.Const(8, 'A'-10)
	}
	for _, t := range b {
		for _, n := range []*Term{m.tt.Lshr(t, m.tt.Const(8, 4)), m.tt.Bvand(t, m.tt.Const(8, 15))} {
			out = append(out, m.tt.Ite(m.tt.Ult(n, m.tt.Const(8, 10)), m.tt.Add(n, m.tt.Const(8, '0')), m.tt.Add(n, al)))
		}
	}
	return mkStr(out)
}

// fmtInt gives the decimal text of t, forking on the number of digits
func (m *Machine) fmtInt(t *Term, signed bool, base int) Str {
	if t.IsConst() {
		if signed {
			return Str{s: fmtBase(sx(t.val, t.w), base)}
		}
		return Str{s: fmtUBase(t.val, base)}
	}
	if base != 10 {
		unsup("symbolic number in base %d", base)
	}
	t0 := t
	return Str{lazy: &lazyStr{force: func() Str { return m.fmtDec(t0, signed) }}}
}

func (m *Machine) fmtDec(t *Term, signed bool) Str {
	tt := m.tt
	neg := false
	if signed && !t.nonneg() {
		if m.branch(tt.Slt(t, tt.Const(t.w, 0))) {
			neg = true
			t = tt.Neg(t)
		}
	}
	t = tt.Zext(t, 64)
	n := 1
	for p := uint64(10); n < 20; n++ {
		if m.branch(tt.Ult(t, tt.Const(64, p))) {
			break
		}
		p *= 10
	}
	s := m.digits(t, n)
	if neg {
		return m.concat(Str{s: "-"}, s)
	}
	return s
}

// digits: the n low decimal digits of t (64 bit)
func (m *Machine) digits(t *Term, n int) Str {
	tt := m.tt
	out := make([]*Term, n)
	p := uint64(1)
	for i := n - 1; i >= 0; i-- {
		d := tt.Urem(tt.Udiv(t, tt.Const(64, p)), tt.Const(64, 10))
		out[i] = tt.Add(tt.Extract(d, 0, 8), tt.Const(8, '0'))
		if p < 1e19 {
			p *= 10
		}
	}
	return mkStr(out)
}

func fmtBase(v int64, b int) string {
	return big10(v, b)
}

func (m *Machine) lazyFormat(f Str, a []Iface) Str {
	conc := f.isConcrete()
	for _, x := range a {
		switch v := x.v.(type) {
		case *Term:
			conc = conc && v.IsConst()
		case Str:
			conc = conc && v.isConcrete()
		default:
			conc = false
		}
	}
	if conc {
		return m.format(f.forced().s, a)
	}
	return Str{lazy: &lazyStr{force: func() Str {
		f := f.forced()
		if f.b != nil {
			unsup("symbolic format string")
		}
		return m.format(f.s, a)
	}}}
}

// format implements the verbs used with values this engine can show
func (m *Machine) format(f string, args []Iface) Str {
	out := Str{}
	ai := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			j := i
			for j < len(f) && f[j] != '%' {
				j++
			}
			out = m.concat(out, Str{s: f[i:j]})
			i = j
			continue
		}
		i++
		zero, minus, plus, sharp := false, false, false, false
	flags:
		for i < len(f) {
			switch f[i] {
			case '0':
				zero = true
			case '-':
				minus = true
			case '+':
				plus = true
			case '#':
				sharp = true
			default:
				break flags
			}
			i++
		}
		width := 0
		for i < len(f) && f[i] >= '0' && f[i] <= '9' {
			width = width*10 + int(f[i]-'0')
			i++
		}
		if i >= len(f) {
			unsup("format %q", f)
		}
		verb := f[i]
		i++
		if verb == '%' {
			out = m.concat(out, Str{s: "%"})
			continue
		}
		if plus || sharp || minus && verb != 'd' && verb != 's' {
			unsup("format flag in %q", f)
		}
		if ai >= len(args) {
			unsup("format %q: missing argument", f)
		}
		a := args[ai]
		ai++
		var s Str
		switch v := a.v.(type) {
		case *Term:
			_, signed, isInt := typeInt(a.t)
			switch {
			case isInt && (verb == 'd' || verb == 'v'):
				if hasMethod(a.t, "String") || hasMethod(a.t, "Error") {
					if verb == 'v' {
						unsup("format of %s", a.t)
					}
				}
				w := m.tt.Zext(v, 64)
				if signed {
					w = m.tt.Sext(v, 64)
				}
				if zero && width > 0 && width < 20 && !v.IsConst() && (!signed || v.nonneg()) && w.hi < pow10(width) {
					s = m.digits(w, width)
				} else if v.IsConst() {
					if signed {
						s = Str{s: fmt.Sprintf("%d", sx(v.val, v.w))}
					} else {
						s = Str{s: fmt.Sprintf("%d", v.val)}
					}
				} else {
					s = m.fmtDec(w, signed)
				}
			case isInt && verb == 'c':
				s = m.runeStr(m.tt.Zext(v, 32))
			case isInt && (verb == 'x' || verb == 'X') && v.IsConst():
				s = Str{s: fmt.Sprintf("%"+string(verb), v.val)}
			case v.w == 0 && (verb == 'v' || verb == 't'):
				if m.branch(v) {
					s = Str{s: "true"}
				} else {
					s = Str{s: "false"}
				}
			default:
				unsup("format %%%c of %s", verb, a.t)
			}
		case Str:
			switch verb {
			case 's', 'v':
				s = v.forced()
			case 'x':
				s = m.hexStr(m.strTerms(v), false)
			case 'X':
				s = m.hexStr(m.strTerms(v), true)
			default:
				unsup("format %%%c of string", verb)
			}
		case Slice:
			if verb == 'x' || verb == 's' {
				b := m.bytesOf(v)
				if verb == 'x' {
					s = m.hexStr(b, false)
				} else {
					s = mkStr(b)
				}
				break
			}
			unsup("format %%%c of slice", verb)
		default:
			unsup("format %%%c of %v", verb, a.t)
		}
		pad := width - s.Len()
		if pad > 0 {
			fill := " "
			if zero && !minus {
				fill = "0"
			}
			p := Str{s: strings.Repeat(fill, pad)}
			if minus {
				s = m.concat(s, p)
			} else {
				s = m.concat(p, s)
			}
		}
		out = m.concat(out, s)
	}
	return out
}

func hasMethod(t types.Type, name string) bool {
	ms := types.NewMethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return true
		}
	}
	return false
}

func pow10(n int) uint64 {
	p := uint64(1)
	for i := 0; i < n && i < 19; i++ {
		p *= 10
	}
	return p
}

func big10(v int64, b int) string {
	if v < 0 {
		return "-" + fmtUBase(uint64(-v), b)
	}
	return fmtUBase(uint64(v), b)
}

func fmtUBase(v uint64, b int) string {
	const d = "0123456789abcdefghijklmnopqrstuvwxyz"
	if v == 0 {
		return "0"
	}
	var s []byte
	for v > 0 {
		s = append([]byte{d[v%uint64(b)]}, s...)
		v /= uint64(b)
	}
	return string(s)
}

// deepEq: structural equality, without forking. nil and empty slices are equal;
// decimals compare by value, times by instant, pointers by what they point to.
func (m *Machine) deepEq(a, b Value, t types.Type, depth int) *Term {
	if depth > 30 {
		unsup("deep comparison of a cyclic value")
	}
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return m.tt.fls
		}
		if x.t == nil || y.t == nil {
			return m.tt.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return m.tt.fls
		}
		return m.deepEq(x.v, y.v, x.t, depth+1)
	case *Cell:
		y := b.(*Cell)
		if x == nil || y == nil {
			return m.tt.Bool(x == y)
		}
		if x == y {
			return m.tt.tru
		}
		var et types.Type
		if t != nil {
			if p, ok := t.Underlying().(*types.Pointer); ok {
				et = p.Elem()
			}
		}
		return m.deepEq(x.v, y.v, et, depth+1)
	case Slice:
		y := b.(Slice)
		if len(x.c) != len(y.c) {
			return m.tt.fls
		}
		var et types.Type
		if t != nil {
			et = t.Underlying().(*types.Slice).Elem()
		}
		r := m.tt.tru
		for i := range x.c {
			r = m.tt.And(r, m.deepEq(x.c[i].v, y.c[i].v, et, depth+1))
		}
		return r
	case *Agg:
		y := b.(*Agg)
		if isNamed(t, "time", "Time") {
			return m.timeEq(x, y)
		}
		if isNamed(t, "github.com/shopspring/decimal", "Decimal") {
			return m.decCmp(x, y, "==")
		}
		r := m.tt.tru
		for i := range x.cells {
			var ft types.Type
			if t != nil {
				switch u := t.Underlying().(type) {
				case *types.Struct:
					ft = u.Field(i).Type()
				case *types.Array:
					ft = u.Elem()
				}
			}
			r = m.tt.And(r, m.deepEq(x.cells[i].v, y.cells[i].v, ft, depth+1))
		}
		return r
	case *MapV:
		unsup("deep comparison of maps")
	}
	return m.eq(a, b)
}

// deepCopy copies what a value points to (times and decimals are immutable)
func (m *Machine) deepCopy(v Value, t types.Type) Value {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return x
		}
		return Iface{x.t, m.deepCopy(x.v, x.t)}
	case *Cell:
		if x == nil {
			return x
		}
		var et types.Type
		if p, ok := t.Underlying().(*types.Pointer); ok {
			et = p.Elem()
		} else {
			unsup("copy of a pointer of type %v", t)
		}
		return &Cell{m.deepCopy(x.v, et)}
	case Slice:
		if x.c == nil {
			return x
		}
		et := t.Underlying().(*types.Slice).Elem()
		c := make([]Cell, len(x.c))
		for i := range c {
			c[i].v = m.deepCopy(x.c[i].v, et)
		}
		return Slice{c}
	case *Agg:
		if isNamed(t, "time", "Time") || isNamed(t, "github.com/shopspring/decimal", "Decimal") || isNamed(t, "math/big", "Int") {
			return copyVal(x)
		}
		n := &Agg{cells: make([]Cell, len(x.cells))}
		for i := range x.cells {
			var ft types.Type
			switch u := t.Underlying().(type) {
			case *types.Struct:
				ft = u.Field(i).Type()
			case *types.Array:
				ft = u.Elem()
			}
			n.cells[i].v = m.deepCopy(x.cells[i].v, ft)
		}
		return n
	case *MapV, *ChanV:
		unsup("copy of a %T", v)
	}
	return v
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == pkg
}
