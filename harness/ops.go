package main

import (
	"errors"
	"fmt"
	"math"
	"math/bits"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"

	"github.com/intel/forGoParallel/parallel"
	"github.com/intel/forGoParallel/speculative"
	"pgregory.net/rapid"
)

// The operations of packages parallel and speculative under one roof. A thunk
// operation over k functions is treated as the range [0,k) in batches of one.

// At marks a position of the range at which something happens.
type At struct {
	Pos  int    `json:"pos"` // offset from Low
	Kind string `json:"kind"`
}

// OpCase is one generated call.
type OpCase struct {
	Op        string `json:"op"`
	Typ       string `json:"typ,omitempty"`
	Low       int    `json:"low,omitempty"`
	High      int    `json:"high"`
	N         int    `json:"n,omitempty"`
	Seed      uint64 `json:"seed,omitempty"`
	Panics    []At   `json:"panics,omitempty"`
	JoinPanic []At   `json:"join_panics,omitempty"`
	Dec       []int  `json:"decisive,omitempty"`
	JoinDec   []int  `json:"join_decisive,omitempty"`
	Sched     []byte `json:"sched,omitempty"`
	Free      bool   `json:"free,omitempty"`
	Probe     bool   `json:"probe,omitempty"`
	Twins     int    `json:"twins,omitempty"` // so many equal calls run at the same time (free only)
	Nest      int    `json:"nest,omitempty"`  // every Nest-th function calls the operation itself
	Reuse     bool   `json:"reuse,omitempty"` // the slice of functions is filled with others when the operation has returned
}

func (c *OpCase) isRange() bool { return strings.Contains(c.Op, ".Range") }
func (c *OpCase) isSpec() bool  { return strings.HasPrefix(c.Op, "spec.") }
func (c *OpCase) isReduce() bool {
	return strings.HasSuffix(c.Op, "Reduce")
}

type span struct {
	Lo, Hi int
	S      string
}

type event struct {
	lo, hi int
	panics bool
	val    any // panic value, or value of the decisive function
	kind   string
}

// Env records what one operation did.
type Env struct {
	c        *OpCase
	s        *Sched
	mu       sync.Mutex
	calls    [][2]int
	finished int
	joins    int
	badJoin  string
	events   []event
	// taken when the operation returns
	retCalls, retFinished int
	raw                   *rawOp // plain memory only, see visib.go
}

func newEnv(c *OpCase) *Env {
	e := &Env{c: c, s: &Sched{}}
	if c.Free {
		e.s.free.Store(true)
	}
	return e
}

func mix(a, b uint64) uint64 {
	h, l := bits.Mul64(a^0x9e3779b97f4a7c15, b^0xbf58476d1ce4e5b9)
	return h ^ l ^ (a << 7) ^ (b >> 3)
}

func (e *Env) h(lo, hi int) uint64 {
	return mix(mix(e.c.Seed, uint64(lo)), uint64(hi)*2+1)
}

func (e *Env) in(pos, lo, hi int) bool {
	// positions are offsets from Low; ranges may span almost all integers
	p := uint64(pos)
	return p >= uint64(lo)-uint64(e.c.Low) && p < uint64(hi)-uint64(e.c.Low)
}

func (e *Env) decisive(lo, hi int) bool {
	for _, d := range e.c.Dec {
		if e.in(d, lo, hi) {
			return true
		}
	}
	return false
}

// body is the user function for the batch [lo,hi).
func (e *Env) body(lo, hi int) {
	if e.raw != nil {
		e.raw.body(e, lo, hi)
		return
	}
	e.mu.Lock()
	e.calls = append(e.calls, [2]int{lo, hi})
	e.mu.Unlock()
	defer func() {
		e.mu.Lock()
		e.finished++
		e.mu.Unlock()
	}()
	if e.c.Free {
		for i := e.h(lo, hi) % 4; i > 0; i-- {
			runtime.Gosched()
		}
	}
	e.s.Gate(Key{lo, hi})
	if e.c.Nest > 0 && e.h(lo, hi)%uint64(e.c.Nest) == 0 {
		e.nested(lo, hi)
	}
	for _, p := range e.c.Panics {
		if e.in(p.Pos, lo, hi) {
			e.throw(lo, hi, p.Kind, "f")
		}
	}
	if e.decisive(lo, hi) {
		e.mu.Lock()
		e.events = append(e.events, event{lo: lo, hi: hi, val: e.str(lo, hi)})
		e.mu.Unlock()
	}
}

// nested calls the same operation, with other functions, from a function.
func (e *Env) nested(lo, hi int) {
	h := e.h(lo, hi) >> 8
	sub := OpCase{Op: e.c.Op, Typ: e.c.Typ, High: int(h%7) + 1, N: int(h >> 8 % 5), Seed: h >> 16, Free: true}
	if sub.isRange() {
		sub.Low = -int(h >> 12 % 3)
	}
	if !sub.isReduce() && h>>20%3 == 0 {
		sub.Dec = []int{int(h>>24) % (sub.High - sub.Low)}
	}
	if sub.isSpec() {
		sub.Dec = nil
	}
	n := newEnv(&sub)
	call, fold := n.prepare()
	res := call()
	bs := n.sortedCalls()
	err := tiles(&sub, bs)
	if err == nil {
		if want := fold(bs); !reflect.DeepEqual(res, want) {
			err = fmt.Errorf("result %v, want %v", res, want)
		}
	}
	if err != nil {
		e.mu.Lock()
		e.badJoin = fmt.Sprintf("called from a function of the same operation: %v", err)
		e.mu.Unlock()
	}
}

func (e *Env) str(lo, hi int) string {
	if e.h(lo, hi)%11 == 0 {
		return "" // neutral values must not confuse anything
	}
	return fmt.Sprintf("<%d:%d>", lo, hi)
}

type customErr struct{ tok string }

func (c *customErr) Error() string { return c.tok }

// iserErr cannot be compared, but has an Is method.
type iserErr struct{ toks []string }

func (e iserErr) Error() string { return strings.Join(e.toks, "+") }
func (e iserErr) Is(target error) bool {
	t, ok := target.(iserErr)
	return ok && t.Error() == e.Error()
}

// nilErr is used as a nil pointer, the methods of which work.
type nilErr struct{ error }

func (e *nilErr) Error() string { return "nil error" }

type panicStruct struct {
	A int
	B string
}

type stringerVal struct{ s string }

func (s stringerVal) String() string { return s.s }

var panicKinds = []string{"error", "wrapped", "joined", "custom", "runtime", "string", "int", "struct", "ptr", "stringer", "nil", "nilmap", "iser", "nilerr", "nested", "nestedstr", "long", "slice"}

func (e *Env) throw(lo, hi int, kind, what string) {
	tok := fmt.Sprintf("%s %s %d:%d 100%%d%%s%%!#", harnessPanicMark, what, lo, hi)
	rec := func(v any) {
		e.mu.Lock()
		e.events = append(e.events, event{lo: lo, hi: hi, panics: true, val: v, kind: kind})
		e.mu.Unlock()
	}
	switch kind {
	case "error":
		v := errors.New(tok)
		rec(v)
		panic(v)
	case "wrapped":
		v := fmt.Errorf("outer: %w", errors.New(tok))
		rec(v)
		panic(v)
	case "joined":
		v := errors.Join(errors.New("sibling"), errors.New(tok))
		rec(v)
		panic(v)
	case "custom":
		v := &customErr{tok}
		rec(v)
		panic(v)
	case "runtime":
		i := int(e.h(lo, hi)%1000000) + 5
		rec(fmt.Sprintf("index out of range [%d]", i))
		var a [2]int
		_ = a[i%len2(i)]
		panic("harness: unreachable")
	case "nilmap":
		rec("assignment to entry in nil map")
		var m map[string]int
		m[tok] = 1
	case "iser":
		v := iserErr{[]string{tok}}
		rec(v)
		panic(v)
	case "nilerr":
		var v *nilErr
		rec(v)
		panic(v)
	case "nested":
		v := errors.New(tok)
		rec(v)
		parallel.Do(func() {}, func() {}, func() { panic(v) })
	case "nestedstr":
		rec(tok)
		parallel.Range(0, 4, 4, func(low, _ int) {
			if low == 2 {
				panic(tok)
			}
		})
	case "long":
		v := tok + strings.Repeat("0123456789", 2000) + tok
		rec(v)
		panic(v)
	case "slice":
		v := []any{tok, 1.5, nil, []string{"x"}}
		rec(v)
		panic(v)
	case "int":
		v := int(e.h(lo, hi)>>20) + 1000000
		rec(v)
		panic(v)
	case "struct":
		v := panicStruct{lo, tok}
		rec(v)
		panic(v)
	case "ptr":
		v := &panicStruct{lo, tok}
		rec(v)
		panic(v)
	case "stringer":
		v := stringerVal{tok}
		rec(v)
		panic(v)
	case "nil":
		rec(nil)
		panic(nil)
	default:
		rec(tok)
		panic(tok)
	}
}

func len2(i int) int { return i + 1 }

// delivered reports whether the value that reached the caller is that of ev.
func delivered(ev event, got any) error {
	bad := func() error {
		return fmt.Errorf("the operation panicked with %s, but the left-most panic (batch [%d,%d)) was %v", trunc(fmt.Sprint(got), 600), ev.lo, ev.hi, ev.val)
	}
	switch ev.kind {
	case "error", "wrapped", "joined", "custom", "iser", "nilerr", "nested":
		err, ok := got.(error)
		if !ok || !errors.Is(err, ev.val.(error)) {
			return bad()
		}
		switch u := ev.val.(type) {
		case interface{ Unwrap() error }:
			if !errors.Is(err, u.Unwrap()) {
				return bad()
			}
		case interface{ Unwrap() []error }:
			for _, v := range u.Unwrap() {
				if !errors.Is(err, v) {
					return bad()
				}
			}
		}
		if !strings.Contains(fmt.Sprint(got), ev.val.(error).Error()) {
			return bad()
		}
	case "runtime", "nilmap":
		err, ok := got.(error)
		var re runtime.Error
		if !ok || !errors.As(err, &re) || !strings.Contains(err.Error(), ev.val.(string)) {
			return bad()
		}
	case "nil":
		err, ok := got.(error)
		var re *runtime.PanicNilError
		if !ok || !errors.As(err, &re) {
			return bad()
		}
	default:
		if !strings.Contains(fmt.Sprint(got), fmt.Sprint(ev.val)) {
			return bad()
		}
	}
	return nil
}

func (e *Env) joinOf(x, y span) span {
	r := span{x.Lo, y.Hi, x.S + y.S}
	if e.raw != nil {
		e.raw.join(e, x, y)
		return r
	}
	e.mu.Lock()
	e.joins++
	if x.Hi != y.Lo && e.badJoin == "" {
		e.badJoin = fmt.Sprintf("join called with non-adjacent operands [%d,%d) and [%d,%d)", x.Lo, x.Hi, y.Lo, y.Hi)
	}
	e.mu.Unlock()
	for _, p := range e.c.JoinPanic {
		if e.c.Low+p.Pos == y.Lo {
			e.throw(x.Lo, y.Hi, p.Kind, "join")
		}
	}
	return r
}

func (e *Env) joinDec(x, y span) (span, bool) {
	r := e.joinOf(x, y)
	for _, p := range e.c.JoinDec {
		if e.c.Low+p == y.Lo {
			r.S = "J" + r.S
			e.mu.Lock()
			e.events = append(e.events, event{lo: r.Lo, hi: r.Hi, val: r.S})
			e.mu.Unlock()
			return r, true
		}
	}
	return r, false
}

type addable = parallel.Addable
type multipliable = parallel.Multipliable

func thunks[F any](n int, mk func(i int) F) []F {
	fs := make([]F, n)
	for i := range fs {
		fs[i] = mk(i)
	}
	return fs
}

type namedString string
type namedInt int16

func sumVal[T addable](e *Env, conv func(h uint64, lo, hi int) T) (call func() any, fold func(bs [][2]int) any) {
	call = func() any {
		if e.c.isRange() {
			return parallel.RangeReduceSum(e.c.Low, e.c.High, e.c.N, func(lo, hi int) T {
				e.body(lo, hi)
				return conv(e.h(lo, hi), lo, hi)
			})
		}
		return parallel.ReduceSum(thunks(e.c.High, func(i int) func() T {
			return func() T { e.body(i, i+1); return conv(e.h(i, i+1), i, i+1) }
		})...)
	}
	fold = func(bs [][2]int) any {
		var r T
		for _, b := range bs {
			r += conv(e.h(b[0], b[1]), b[0], b[1])
		}
		return r
	}
	return
}

func prodVal[T multipliable](e *Env, conv func(h uint64) T) (call func() any, fold func(bs [][2]int) any) {
	call = func() any {
		if e.c.isRange() {
			return parallel.RangeReduceProduct(e.c.Low, e.c.High, e.c.N, func(lo, hi int) T {
				e.body(lo, hi)
				return conv(e.h(lo, hi))
			})
		}
		return parallel.ReduceProduct(thunks(e.c.High, func(i int) func() T {
			return func() T { e.body(i, i+1); return conv(e.h(i, i+1)) }
		})...)
	}
	fold = func(bs [][2]int) any {
		var r T = 1
		for _, b := range bs {
			r *= conv(e.h(b[0], b[1]))
		}
		return r
	}
	return
}

var sumTypes = []string{"string", "int", "uint8", "float64", "float32", "complex128", "complex64", "namedString", "namedInt", "uint64", "int32", "uintptr", "int8", "uint", "int64", "uint16", "uint32", "float64!", "float32!"}
var prodTypes = []string{"int", "uint8", "float64", "float32", "complex128", "namedInt", "uint64", "int32", "int8", "uint", "complex64", "uintptr", "int64", "uint16", "uint32", "float64!", "float32!"}

// unusual replaces some numbers by NaN, infinities and zeros. Sums and products of
// these (and of numbers that do not overflow) are still associative.
func unusual(h uint64, x float64) float64 {
	switch h >> 40 % 120 {
	case 0, 1:
		return math.NaN()
	case 2, 3, 4, 5, 6, 7:
		return math.Inf(1)
	case 8, 9, 10:
		return math.Inf(-1)
	case 11, 12, 13, 14, 15, 16, 17:
		return 0
	case 18, 19, 20:
		return math.Copysign(0, -1)
	}
	return x
}

// nanEqual makes NaN results comparable.
func nanEqual(call func() any, fold func([][2]int) any) (func() any, func([][2]int) any) {
	eq := func(v any) any {
		switch f := v.(type) {
		case float64:
			if f != f {
				return "NaN"
			}
		case float32:
			if f != f {
				return "NaN"
			}
		}
		return v
	}
	return func() any { return eq(call()) }, func(bs [][2]int) any { return eq(fold(bs)) }
}

func sumFor(e *Env) (func() any, func([][2]int) any) {
	str := func(h uint64, lo, hi int) string { return e.str(lo, hi) }
	switch e.c.Typ {
	case "int":
		return sumVal(e, func(h uint64, _, _ int) int { return int(h) })
	case "uint8":
		return sumVal(e, func(h uint64, _, _ int) uint8 { return uint8(h) })
	case "float64":
		return sumVal(e, func(h uint64, _, _ int) float64 { return float64(int(h%2000001) - 1000000) })
	case "float64!":
		return nanEqual(sumVal(e, func(h uint64, _, _ int) float64 { return unusual(h, float64(int(h%2001)-1000)) }))
	case "float32!":
		return nanEqual(sumVal(e, func(h uint64, _, _ int) float32 { return float32(unusual(h, float64(int(h%2001)-1000))) }))
	case "float32":
		return sumVal(e, func(h uint64, _, _ int) float32 { return float32(int(h%2001) - 1000) })
	case "complex128":
		return sumVal(e, func(h uint64, _, _ int) complex128 {
			return complex(float64(int(h%2001)-1000), float64(int(h>>32%2001)-1000))
		})
	case "complex64":
		return sumVal(e, func(h uint64, _, _ int) complex64 {
			return complex(float32(int(h%2001)-1000), float32(int(h>>32%2001)-1000))
		})
	case "namedString":
		return sumVal(e, func(h uint64, lo, hi int) namedString { return namedString(str(h, lo, hi)) })
	case "namedInt":
		return sumVal(e, func(h uint64, _, _ int) namedInt { return namedInt(h) })
	case "uint64":
		return sumVal(e, func(h uint64, _, _ int) uint64 { return h })
	case "int32":
		return sumVal(e, func(h uint64, _, _ int) int32 { return int32(h) })
	case "uintptr":
		return sumVal(e, func(h uint64, _, _ int) uintptr { return uintptr(h) })
	case "int8":
		return sumVal(e, func(h uint64, _, _ int) int8 { return int8(h) })
	case "uint":
		return sumVal(e, func(h uint64, _, _ int) uint { return uint(h) })
	case "int64":
		return sumVal(e, func(h uint64, _, _ int) int64 { return int64(h) })
	case "uint16":
		return sumVal(e, func(h uint64, _, _ int) uint16 { return uint16(h) })
	case "uint32":
		return sumVal(e, func(h uint64, _, _ int) uint32 { return uint32(h) })
	default:
		return sumVal(e, str)
	}
}

func prodFor(e *Env) (func() any, func([][2]int) any) {
	// integers: mostly odd so that information is not lost; floats: powers of
	// two with cancelling exponents; complex: units
	odd := func(h uint64) uint64 {
		if h%97 == 0 {
			return 0
		}
		return h | 1
	}
	p2 := func(h uint64) float64 { return math.Ldexp([]float64{1, -1}[h>>8&1], int(h%3)-1) }
	unit := func(h uint64) complex128 { return []complex128{1, -1, 1i, -1i}[h%4] }
	switch e.c.Typ {
	case "uint8":
		return prodVal(e, func(h uint64) uint8 { return uint8(odd(h)) })
	case "float64":
		return prodVal(e, p2)
	case "float64!":
		return nanEqual(prodVal(e, func(h uint64) float64 { return unusual(h, p2(h)) }))
	case "float32!":
		return nanEqual(prodVal(e, func(h uint64) float32 { return float32(unusual(h, p2(h))) }))
	case "float32":
		return prodVal(e, func(h uint64) float32 { return float32(p2(h)) })
	case "complex128":
		return prodVal(e, unit)
	case "complex64":
		return prodVal(e, func(h uint64) complex64 { return complex64(unit(h)) })
	case "namedInt":
		return prodVal(e, func(h uint64) namedInt { return namedInt(odd(h)) })
	case "uint64":
		return prodVal(e, odd)
	case "int32":
		return prodVal(e, func(h uint64) int32 { return int32(odd(h)) })
	case "int8":
		return prodVal(e, func(h uint64) int8 { return int8(odd(h)) })
	case "uint":
		return prodVal(e, func(h uint64) uint { return uint(odd(h)) })
	case "uintptr":
		return prodVal(e, func(h uint64) uintptr { return uintptr(odd(h)) })
	case "int64":
		return prodVal(e, func(h uint64) int64 { return int64(odd(h)) })
	case "uint16":
		return prodVal(e, func(h uint64) uint16 { return uint16(odd(h)) })
	case "uint32":
		return prodVal(e, func(h uint64) uint32 { return uint32(odd(h)) })
	default:
		return prodVal(e, func(h uint64) int { return int(odd(h)) })
	}
}

// reuse fills the slice in which functions were passed to an operation that has
// returned, as a program does that uses the slice again for its next call.
func reuse[F any](e *Env, fs []F, other F) {
	if e.c.Reuse {
		for i := range fs {
			fs[i] = other
		}
	}
}

// strange is a function that the operation was not given.
func strange(e *Env, result bool) func() bool {
	return func() bool {
		e.mu.Lock()
		e.badJoin = "a function was called that the operation was not given: it was put into the slice of the functions after the operation had returned"
		e.mu.Unlock()
		return result
	}
}

type decResult struct {
	S   string
	Dec bool
}

// prepare returns the call of the operation and, where it makes sense without
// decisive outcomes, the fold that a sequential evaluation computes.
func (e *Env) prepare() (call func() any, fold func(bs [][2]int) any) {
	c := e.c
	none := func(bs [][2]int) any { return nil }
	allOf := func(bs [][2]int) any {
		for _, b := range bs {
			if e.decisive(b[0], b[1]) {
				return false
			}
		}
		return true
	}
	anyOf := func(bs [][2]int) any {
		for _, b := range bs {
			if e.decisive(b[0], b[1]) {
				return true
			}
		}
		return false
	}
	concat := func(bs [][2]int) string {
		var sb strings.Builder
		for _, b := range bs {
			sb.WriteString(e.str(b[0], b[1]))
		}
		return sb.String()
	}
	bools := func(dec bool) []func() bool {
		return thunks(c.High, func(i int) func() bool {
			return func() bool { e.body(i, i+1); return e.decisive(i, i+1) == dec }
		})
	}
	boolf := func(dec bool) func(lo, hi int) bool {
		return func(lo, hi int) bool { e.body(lo, hi); return e.decisive(lo, hi) == dec }
	}
	mkspan := func(lo, hi int) span { e.body(lo, hi); return span{lo, hi, e.str(lo, hi)} }
	switch c.Op {
	case "par.Do":
		return func() any {
			parallel.Do(thunks(c.High, func(i int) func() { return func() { e.body(i, i+1) } })...)
			return nil
		}, none
	case "par.And":
		return func() any { return parallel.And(bools(false)...) }, allOf
	case "par.Or":
		return func() any { return parallel.Or(bools(true)...) }, anyOf
	case "par.ReduceSum", "par.RangeReduceSum":
		return sumFor(e)
	case "par.ReduceProduct", "par.RangeReduceProduct":
		return prodFor(e)
	case "par.Reduce":
		return func() any {
			fs := thunks(c.High, func(i int) func() span { return func() span { return mkspan(i, i+1) } })
			return parallel.Reduce(e.joinOf, fs[0], fs[1:]...).S
		}, func(bs [][2]int) any { return concat(bs) }
	case "par.Range":
		return func() any { parallel.Range(c.Low, c.High, c.N, e.body); return nil }, none
	case "par.RangeAnd":
		return func() any { return parallel.RangeAnd(c.Low, c.High, c.N, boolf(false)) }, allOf
	case "par.RangeOr":
		return func() any { return parallel.RangeOr(c.Low, c.High, c.N, boolf(true)) }, anyOf
	case "par.RangeReduce":
		return func() any { return parallel.RangeReduce(c.Low, c.High, c.N, mkspan, e.joinOf).S }, func(bs [][2]int) any { return concat(bs) }
	case "spec.Do":
		return func() any { fs := bools(true); defer reuse(e, fs, strange(e, true)); return speculative.Do(fs...) }, anyOf
	case "spec.And":
		return func() any { fs := bools(false); defer reuse(e, fs, strange(e, false)); return speculative.And(fs...) }, allOf
	case "spec.Or":
		return func() any { fs := bools(true); defer reuse(e, fs, strange(e, true)); return speculative.Or(fs...) }, anyOf
	case "spec.Range":
		return func() any { return speculative.Range(c.Low, c.High, c.N, boolf(true)) }, anyOf
	case "spec.RangeAnd":
		return func() any { return speculative.RangeAnd(c.Low, c.High, c.N, boolf(false)) }, allOf
	case "spec.RangeOr":
		return func() any { return speculative.RangeOr(c.Low, c.High, c.N, boolf(true)) }, anyOf
	case "spec.Reduce":
		return func() any {
			fs := thunks(c.High, func(i int) func() (span, bool) {
				return func() (span, bool) { s := mkspan(i, i+1); return s, e.decisive(i, i+1) }
			})
			defer reuse(e, fs, func() (span, bool) { strange(e, true)(); return span{}, true })
			r, d := speculative.Reduce(e.joinDec, fs[0], fs[1:]...)
			return decResult{r.S, d}
		}, func(bs [][2]int) any { return decResult{concat(bs), false} }
	case "spec.RangeReduce":
		return func() any {
			r, d := speculative.RangeReduce(c.Low, c.High, c.N, func(lo, hi int) (span, bool) {
				s := mkspan(lo, hi)
				return s, e.decisive(lo, hi)
			}, e.joinDec)
			return decResult{r.S, d}
		}, func(bs [][2]int) any { return decResult{concat(bs), false} }
	}
	panic("harness: unknown operation " + c.Op)
}

// exec runs the operation under the case's schedule.
func (e *Env) exec() (res any, out Outcome, fold func(bs [][2]int) any) {
	call, fold := e.prepare()
	var r any
	out = e.s.Run(func() {
		defer func() {
			e.mu.Lock()
			e.retCalls, e.retFinished = len(e.calls), e.finished
			e.mu.Unlock()
		}()
		if e.c.Twins > 0 && e.c.Free {
			wait := e.twins()
			defer wait()
		}
		r = call()
	}, e.c.Sched)
	if out.Returned {
		res = r
	}
	return res, out, fold
}

// twins starts further calls of the same operation with functions of their own.
func (e *Env) twins() (wait func()) {
	var wg sync.WaitGroup
	for i := range e.c.Twins {
		sub := *e.c
		sub.Seed += uint64(i) + 1
		sub.Twins = 0
		call, _ := newEnv(&sub).prepare()
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { _ = recover() }()
			call()
		}()
	}
	return wg.Wait
}

// company adds twins or nested calls to some cases.
func (c *OpCase) company(t *rapid.T) {
	switch rapid.IntRange(0, 11).Draw(t, "company") {
	case 10:
		c.Nest = rapid.IntRange(1, 3).Draw(t, "nest")
	case 11:
		c.Free, c.Sched = true, nil
		c.Twins = rapid.IntRange(1, 6).Draw(t, "twins")
	}
}

func (e *Env) sortedCalls() [][2]int {
	e.mu.Lock()
	defer e.mu.Unlock()
	bs := append([][2]int(nil), e.calls...)
	sortBatches(bs)
	return bs
}

func sortBatches(bs [][2]int) {
	sort.Slice(bs, func(i, j int) bool {
		return bs[i][0] < bs[j][0] || bs[i][0] == bs[j][0] && bs[i][1] < bs[j][1]
	})
}

// tiles checks that the batches are the range, each element once.
func tiles(c *OpCase, bs [][2]int) error {
	show := func() string { return trunc(fmt.Sprint(bs), 400) }
	if !c.isRange() {
		if len(bs) != c.High {
			return fmt.Errorf("%d functions given, but %d calls made: %s", c.High, len(bs), show())
		}
	} else if c.Low == c.High {
		if len(bs) != 1 || bs[0] != [2]int{c.Low, c.Low} {
			return fmt.Errorf("empty range [%d,%d): expected one call with the empty batch, got %s", c.Low, c.High, show())
		}
		return nil
	}
	at := c.Low
	for _, b := range bs {
		if b[0] != at || b[1] <= b[0] {
			return fmt.Errorf("range [%d,%d) n=%d: batches do not tile the range: %s", c.Low, c.High, c.N, show())
		}
		at = b[1]
	}
	if at != c.High {
		return fmt.Errorf("range [%d,%d) n=%d: batches do not cover the range: %s", c.Low, c.High, c.N, show())
	}
	return nil
}

// ---- generators ---------------------------------------------------------------

var parThunkOps = []string{"par.Do", "par.And", "par.Or", "par.Reduce", "par.ReduceSum", "par.ReduceProduct"}
var parRangeOps = []string{"par.Range", "par.RangeAnd", "par.RangeOr", "par.RangeReduce", "par.RangeReduceSum", "par.RangeReduceProduct"}
var specThunkOps = []string{"spec.Do", "spec.And", "spec.Or", "spec.Reduce"}
var specRangeOps = []string{"spec.Range", "spec.RangeAnd", "spec.RangeOr", "spec.RangeReduce"}

func cat(xs ...[]string) (r []string) {
	for _, x := range xs {
		r = append(r, x...)
	}
	return
}

func genSched(t *rapid.T) []byte {
	switch rapid.IntRange(0, 5).Draw(t, "schedkind") {
	case 0:
		return nil // lowest first
	case 1:
		return []byte{255} // (roughly) one fixed rank
	default:
		return rapid.SliceOfN(rapid.Byte(), 1, 24).Draw(t, "sched")
	}
}

// genOp draws an operation with its range or function count; maxFn bounds the
// number of functions or batches.
func genOp(t *rapid.T, ops []string, maxFn int) OpCase {
	c := OpCase{Op: rapid.SampledFrom(ops).Draw(t, "op")}
	c.Seed = uint64(rapid.IntRange(0, 1<<20).Draw(t, "seed"))
	switch {
	case strings.HasSuffix(c.Op, "Sum"):
		c.Typ = rapid.SampledFrom(sumTypes).Draw(t, "typ")
	case strings.HasSuffix(c.Op, "Product"):
		c.Typ = rapid.SampledFrom(prodTypes).Draw(t, "typ")
	}
	small := rapid.IntRange(0, 3).Draw(t, "small")
	huge := maxFn >= 64 && rapid.IntRange(0, 149).Draw(t, "huge") == 149
	if huge {
		small, maxFn = 0, 2500
	}
	if !c.isRange() {
		lo := 0
		if c.isReduce() {
			lo = 1
		}
		if huge {
			lo = 200
		}
		m := maxFn
		if small > 0 {
			m = min(9, maxFn)
		}
		c.High = rapid.IntRange(lo, m).Draw(t, "functions")
		return c
	}
	if small > 0 {
		c.Low = rapid.IntRange(-3, 20).Draw(t, "low")
	} else {
		c.Low = rapid.IntRange(-5000, 5000).Draw(t, "low")
	}
	size := 0
	switch rapid.IntRange(0, 3).Draw(t, "sizekind") {
	case 0, 1:
		size = rapid.IntRange(0, 12).Draw(t, "size")
	case 2:
		size = rapid.IntRange(0, 70).Draw(t, "size")
	default:
		size = rapid.IntRange(0, 3000).Draw(t, "size")
	}
	if huge {
		size = rapid.IntRange(1000, 1<<20).Draw(t, "size")
	}
	c.High = c.Low + size
	switch rapid.IntRange(0, 4).Draw(t, "nkind") {
	case 0:
		c.N = 0
	case 1:
		c.N = rapid.IntRange(1, 4).Draw(t, "n")
	case 2:
		c.N = rapid.IntRange(1, maxFn).Draw(t, "n")
	case 3:
		c.N = min(maxFn, max(1, size+rapid.IntRange(-2, 2).Draw(t, "d")))
	default:
		c.N = min(maxFn, max(1, size/2+rapid.IntRange(-2, 2).Draw(t, "d")))
	}
	if c.N > maxFn {
		c.N = maxFn
	}
	return c
}

// posIn draws a position of the case's range.
func posIn(t *rapid.T, c *OpCase, name string) int {
	size := c.High - c.Low
	if size <= 0 {
		return 0
	}
	return rapid.IntRange(0, size-1).Draw(t, name)
}

func genPositions(t *rapid.T, c *OpCase, name string, maxN int) []int {
	n := rapid.IntRange(0, maxN).Draw(t, name)
	var r []int
	for range n {
		r = append(r, posIn(t, c, name))
	}
	return r
}

func genAts(t *rapid.T, c *OpCase, name string, minN, maxN int) []At {
	n := rapid.IntRange(minN, maxN).Draw(t, name)
	var r []At
	for range n {
		r = append(r, At{posIn(t, c, name), rapid.SampledFrom(panicKinds).Draw(t, "kind")})
	}
	return r
}

// evs and ncalls read the record under the lock: functions may still run.
func (e *Env) evs() []event {
	e.mu.Lock()
	defer e.mu.Unlock()
	return append([]event(nil), e.events...)
}

func (e *Env) ncalls() int {
	e.mu.Lock()
	defer e.mu.Unlock()
	return len(e.calls)
}

func (e *Env) joinState() (int, string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.joins, e.badJoin
}

func leftmost(evs []event) (event, bool) {
	if len(evs) == 0 {
		return event{}, false
	}
	best := evs[0]
	for _, v := range evs[1:] {
		if v.lo < best.lo {
			best = v
		}
	}
	return best, true
}
