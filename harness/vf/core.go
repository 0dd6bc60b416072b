// Package zzvf is the harness library. The same source is executed by the
// symbolic engine (which replaces the functions of this file by symbolic
// versions) and compiled natively for replay, where the values come from a
// recorded list.
package zzvf

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"reflect"
	"sort"
	"time"
	"unsafe"

	"github.com/shopspring/decimal"
)

type inVal struct {
	Name string `json:"name"`
	W    uint8  `json:"w"`
	V    uint64 `json:"v"`
}

type obsVal struct {
	Tag string `json:"tag"`
	V   string `json:"v"`
}

type replayCase struct {
	Harness string  `json:"harness"`
	Tier    string  `json:"tier"`
	Inputs  []inVal `json:"inputs"`
}

type replayResult struct {
	End    string   `json:"end"` // ok, assume, violation, mismatch
	Msg    string   `json:"msg"`
	Obs    []obsVal `json:"obs"`
	Covers []string `json:"covers"`
}

type stopRun struct{}

var (
	natIn   []inVal
	natPos  int
	natRes  replayResult
	natTier string
)

func natStop(end, msg string) {
	if natRes.End == "" {
		natRes.End, natRes.Msg = end, msg
	}
	panic(stopRun{})
}

func natNext(w uint8) uint64 {
	if natPos >= len(natIn) {
		natStop("mismatch", "more inputs asked for than recorded")
	}
	v := natIn[natPos]
	natPos++
	if v.W != w {
		natStop("mismatch", fmt.Sprintf("input %d has width %d, asked for %d", natPos-1, v.W, w))
	}
	return v.V
}

// nondeterministic values
func Byte() byte  { return byte(natNext(8)) }
func U16() uint16 { return uint16(natNext(16)) }
func U32() uint32 { return uint32(natNext(32)) }
func U64() uint64 { return natNext(64) }
func Bool() bool  { return natNext(0) == 1 }

func Bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte()
	}
	return b
}

// Range is a symbolic number in lo..hi
func Range(lo, hi int) int {
	if shape >= 0 {
		steps++
		n := hi - lo + 1
		if n <= 31 {
			if n > 28 {
				n = 28 // a day every month has
			}
			return lo + (steps+shape)%n
		}
		return lo + (steps*7919+shape*104729+31)%n
	}
	return anyRange(lo, hi)
}

// Choose forks: a concrete number in 0..n-1
func Choose(n int) int {
	if shape >= 0 {
		if n-1-shape >= 0 {
			return n - 1 - shape
		}
		return 0
	}
	return anyChoose(n)
}

func anyRange(lo, hi int) int { return int(natNext(64)) }

func anyChoose(n int) int {
	if n == 1 {
		return 0
	}
	return int(natNext(64))
}

var shape, steps = -1, 0

// Shape makes Choose and Range give fixed values, different ones for different
// k: Choose the last value but k (-1: back to symbolic values)
func Shape(k int) { shape, steps = k, 0 }

// Pin makes a symbolic number concrete by forking over its values
func Pin(n int) int { return n }

func Assume(c bool) {
	if !c {
		natStop("assume", "")
	}
}

func Assert(c bool, msg string) {
	if !c {
		natStop("violation", msg)
	}
}

func Fail(msg string) { natStop("violation", msg) }

// Incompatible stands for harness code that does not fit the tree
func Incompatible() string {
	natStop("incompatible", "")
	return ""
}

// recordFailure reports a failure from where a panic would go nowhere
func recordFailure(msg string) {
	if natRes.End == "" {
		natRes.End, natRes.Msg = "violation", msg
	}
}

func Cover(name string) { natRes.Covers = append(natRes.Covers, name) }

func Observe(tag string, v interface{}) {
	natRes.Obs = append(natRes.Obs, obsVal{tag, obsText(v)})
}

func obsText(v interface{}) string {
	r := reflect.ValueOf(v)
	switch r.Kind() {
	case reflect.Invalid:
		return "nil"
	case reflect.Bool:
		if r.Bool() {
			return "1"
		}
		return "0"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		bits := uint(r.Type().Bits())
		u := uint64(r.Int())
		if bits < 64 {
			u &= 1<<bits - 1
		}
		return fmt.Sprintf("%d", u)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprintf("%d", r.Uint())
	case reflect.String:
		return fmt.Sprintf("%x", r.String())
	case reflect.Slice:
		if r.Type().Elem().Kind() == reflect.Uint8 {
			return fmt.Sprintf("%x", r.Bytes())
		}
	}
	return "?"
}

// And, Or, Implies, IteInt and EqBytes build one term instead of forking
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func EqBytes(a, b []byte) bool { return string(a) == string(b) }

// Equal: structural equality; nil and empty slices are equal, decimals compare
// by value, times by instant, pointers by what they point to.
func Equal(a, b interface{}) bool {
	return deepEqual(reflect.ValueOf(a), reflect.ValueOf(b))
}

var (
	decimalType = reflect.TypeOf(decimal.Decimal{})
	timeType    = reflect.TypeOf(time.Time{})
)

func deepEqual(a, b reflect.Value) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return deepEqual(a.Elem(), b.Elem())
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !deepEqual(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.Struct:
		if a.CanInterface() && b.CanInterface() {
			switch a.Type() {
			case decimalType:
				return a.Interface().(decimal.Decimal).Equal(b.Interface().(decimal.Decimal))
			case timeType:
				return a.Interface().(time.Time).Equal(b.Interface().(time.Time))
			}
		}
		for i := 0; i < a.NumField(); i++ {
			if !deepEqual(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	}
	return false
}

// Clone copies a value and what it points to
func Clone(v interface{}) interface{} {
	if v == nil {
		return nil
	}
	src := reflect.ValueOf(v)
	dst := reflect.New(src.Type()).Elem()
	tmp := reflect.New(src.Type()).Elem()
	tmp.Set(src)
	cloneInto(dst, tmp)
	return dst.Interface()
}

// cloneInto: dst and src are addressable
func cloneInto(dst, src reflect.Value) {
	dst = reflect.NewAt(dst.Type(), unsafe.Pointer(dst.UnsafeAddr())).Elem()
	src = reflect.NewAt(src.Type(), unsafe.Pointer(src.UnsafeAddr())).Elem()
	switch src.Kind() {
	case reflect.Ptr:
		if src.IsNil() {
			return
		}
		n := reflect.New(src.Type().Elem())
		cloneInto(n.Elem(), src.Elem())
		dst.Set(n)
	case reflect.Interface:
		if src.IsNil() {
			return
		}
		dst.Set(reflect.ValueOf(Clone(src.Interface())))
	case reflect.Slice:
		if src.IsNil() {
			return
		}
		dst.Set(reflect.MakeSlice(src.Type(), src.Len(), src.Len()))
		for i := 0; i < src.Len(); i++ {
			cloneInto(dst.Index(i), src.Index(i))
		}
	case reflect.Array:
		for i := 0; i < src.Len(); i++ {
			cloneInto(dst.Index(i), src.Index(i))
		}
	case reflect.Struct:
		if src.Type() == timeType || src.Type() == decimalType || src.Type().String() == "big.Int" {
			dst.Set(src)
			return
		}
		for i := 0; i < src.NumField(); i++ {
			cloneInto(dst.Field(i), src.Field(i))
		}
	default:
		dst.Set(src)
	}
}

// Thorough: is this the thorough tier?
func Thorough() bool { return natTier == "thorough" }

// MapKeys gives the keys of a map in a fixed order
func MapKeys(m interface{}) []interface{} {
	v := reflect.ValueOf(m)
	var out []interface{}
	for _, k := range v.MapKeys() {
		out = append(out, k.Interface())
	}
	sort.Slice(out, func(i, j int) bool {
		a, b := fmt.Sprint(out[i]), fmt.Sprint(out[j])
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		return a < b
	})
	return out
}

func isSymbolic() bool { return false }

// channel state
var natClosed = map[uintptr]bool{}

func chanClosed(c interface{}) bool { return natClosed[reflect.ValueOf(c).Pointer()] }
func noteClosed(c interface{})      { natClosed[reflect.ValueOf(c).Pointer()] = true }
func chanLen(c interface{}) int     { return reflect.ValueOf(c).Len() }
func chanRoom(c interface{}) bool {
	v := reflect.ValueOf(c)
	return chanClosed(c) || v.Len() < v.Cap()
}
func chanNil(c interface{}) bool { return c == nil || reflect.ValueOf(c).IsNil() }

// mapID identifies a map
func mapID(m interface{}) interface{} {
	if m == nil {
		return nil
	}
	return reflect.ValueOf(m).Pointer()
}

// RunReplay runs the recorded cases (file named by VF_CASES) and writes the
// results to VF_RESULTS.
func RunReplay(harnesses map[string]func()) error {
	text, err := ioutil.ReadFile(os.Getenv("VF_CASES"))
	if err != nil {
		return err
	}
	var cases []replayCase
	if err := json.Unmarshal(text, &cases); err != nil {
		return err
	}
	var results []replayResult
	for _, c := range cases {
		results = append(results, runCase(harnesses[c.Harness], c))
	}
	out, err := json.Marshal(results)
	if err != nil {
		return err
	}
	return ioutil.WriteFile(os.Getenv("VF_RESULTS"), out, 0644)
}

func runCase(h func(), c replayCase) replayResult {
	time.Local = time.FixedZone("LOC", 8*3600)
	natIn, natPos, natRes, natTier = c.Inputs, 0, replayResult{}, c.Tier
	natClosed = map[uintptr]bool{}
	Reset()
	if h == nil {
		return replayResult{End: "mismatch", Msg: "no such harness"}
	}
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopRun); !ok && natRes.End == "" {
					natRes.End, natRes.Msg = "violation", "panic: "+fmt.Sprint(r)
				}
			}
		}()
		h()
		if natRes.End == "" {
			natRes.End = "ok"
		}
	}()
	<-done
	return natRes
}
