package main

import (
	"fmt"
	"math"
	"reflect"
	"sync"

	"github.com/intel/forGoParallel/parallel"
	"pgregory.net/rapid"
)

// ---- C01 ----------------------------------------------------------------------

func genC01(t *rapid.T, cfg *Cfg) OpCase {
	c := genOp(t, cat(parRangeOps, specRangeOps), 3000)
	c.Free = true
	size := c.High - c.Low
	switch rapid.IntRange(0, 7).Draw(t, "edge") {
	case 0: // at the upper end of the integers
		c.High = math.MaxInt - rapid.IntRange(0, 3).Draw(t, "d")
		c.Low = c.High - size
	case 1: // at the lower end
		c.Low = math.MinInt + rapid.IntRange(0, 3).Draw(t, "d")
		c.High = c.Low + size
	case 2: // huge ranges, few batches
		c.Low = rapid.SampledFrom([]int{math.MinInt, math.MinInt + 1, math.MinInt / 2, -1, 0, 1, 12345}).Draw(t, "hlow")
		c.High = rapid.SampledFrom([]int{math.MaxInt, math.MaxInt - 1, math.MaxInt / 2, math.MaxInt/2 + 2, 1 << 40}).Draw(t, "hhigh")
		c.N = rapid.IntRange(0, 200).Draw(t, "hn")
	case 3: // more batches than elements
		if size > 5000 {
			c.High = c.Low + size%5000
			size = c.High - c.Low
		}
		c.N = rapid.SampledFrom([]int{math.MaxInt, math.MaxInt - 1, 1 << 62, 1 << 40, size + 1, size + 7}).Draw(t, "bign")
		if c.N < 1 {
			c.N = 1
		}
	case 4: // invalid arguments
		switch rapid.IntRange(0, 2).Draw(t, "inv") {
		case 0:
			c.High = c.Low - rapid.IntRange(1, 100).Draw(t, "neg")
		case 1:
			c.N = -rapid.IntRange(1, 100).Draw(t, "negn")
		default:
			c.N = rapid.SampledFrom([]int{math.MinInt, -1}).Draw(t, "negn")
			c.High = c.Low
		}
	}
	return c
}

func runC01(x *X, c OpCase) error {
	e := newEnv(&c)
	_, out, _ := e.exec()
	if err := out.hang(); err != nil {
		return err
	}
	bs := e.sortedCalls()
	x.obs = fmt.Sprintf("%d batches, panicked=%v", len(bs), out.Panicked)
	size := uint64(c.High) - uint64(c.Low)
	if c.High < c.Low || c.N < 0 {
		x.Label("invalid arguments")
		if !out.Panicked {
			return fmt.Errorf("%s(%d, %d, %d) has invalid arguments but returned normally after calls %v", c.Op, c.Low, c.High, c.N, bs)
		}
		if len(bs) > 0 {
			return fmt.Errorf("%s(%d, %d, %d) has invalid arguments but the function was called: %v", c.Op, c.Low, c.High, c.N, bs)
		}
		return nil
	}
	x.Label("op %s", c.Op)
	if out.Panicked {
		return fmt.Errorf("%s(%d, %d, %d) panicked: %v", c.Op, c.Low, c.High, c.N, trunc(fmt.Sprint(out.Panic), 1000))
	}
	if _, err := (&Sched{}).Drain(); err != nil {
		return err
	}
	bs = e.sortedCalls()
	if err := tiles(&c, bs); err != nil {
		return fmt.Errorf("%s: %w", c.Op, err)
	}
	if c.N > 0 && len(bs) > c.N {
		return fmt.Errorf("%s(%d, %d, %d): %d batches, more than n", c.Op, c.Low, c.High, c.N, len(bs))
	}
	if c.N != 1 && size >= 2 && len(bs) < 2 {
		return fmt.Errorf("%s(%d, %d, %d): only one batch for a range of %d elements", c.Op, c.Low, c.High, c.N, size)
	}
	x.trivial = len(bs) < 2
	switch {
	case size > math.MaxInt:
		x.Label("size > MaxInt")
	case size > 1<<32:
		x.Label("huge range")
	}
	if c.High > math.MaxInt-10 {
		x.Label("ends near MaxInt")
	}
	if c.Low < 0 {
		x.Label("negative low")
	}
	if uint64(c.N) > size {
		x.Label("n > size")
	}
	if c.N == 0 {
		x.Label("n = 0")
	}
	if size == 0 {
		x.Label("empty range")
	}
	return nil
}

// ---- C02 ----------------------------------------------------------------------

func genC02(t *rapid.T, cfg *Cfg) OpCase {
	c := genOp(t, cat(parThunkOps, parRangeOps), 64)
	if !c.isReduce() {
		c.Dec = genPositions(t, &c, "bools", 3)
	}
	c.Free = rapid.IntRange(0, 2).Draw(t, "free") == 0 || max(c.N, c.High) > 500
	if !c.Free {
		c.Sched = genSched(t)
	}
	c.company(t)
	return c
}

func runC02(x *X, c OpCase) error {
	e := newEnv(&c)
	res, out, fold := e.exec()
	defer e.s.Open()
	if err := out.hang(); err != nil {
		return err
	}
	if out.Panicked {
		return fmt.Errorf("%s panicked although no function did: %s", c.Op, trunc(fmt.Sprint(out.Panic), 1000))
	}
	if _, err := e.s.Drain(); err != nil {
		return err
	}
	bs := e.sortedCalls()
	if err := tiles(&c, bs); err != nil {
		return fmt.Errorf("%s: %w", c.Op, err)
	}
	joins, badJoin := e.joinState()
	if badJoin != "" {
		return fmt.Errorf("%s: %s", c.Op, badJoin)
	}
	if want := fold(bs); !reflect.DeepEqual(res, want) {
		return fmt.Errorf("%s over %d functions/batches (%s): result %v, sequential evaluation gives %v", c.Op, len(bs), c.Typ, trunc(fmt.Sprint(res), 500), trunc(fmt.Sprint(want), 500))
	}
	if c.isReduce() && joins != len(bs)-1 {
		return fmt.Errorf("%s: %d joins for %d functions", c.Op, joins, len(bs))
	}
	x.trivial = len(bs) < 2
	x.obs = fmt.Sprintf("%d batches, result %s", len(bs), trunc(fmt.Sprint(res), 80))
	x.Label("op %s", c.Op)
	if c.Typ != "" {
		x.Label("type %s", c.Typ)
	}
	if len(bs) == 0 {
		x.Label("no functions")
	}
	return nil
}

// ---- C03 ----------------------------------------------------------------------

func genC03(t *rapid.T, cfg *Cfg) OpCase {
	c := genOp(t, cat(parThunkOps, parRangeOps), 48)
	c.Panics = genAts(t, &c, "panics", 0, 3)
	if c.isReduce() {
		c.JoinPanic = genAts(t, &c, "joinpanics", 0, 1)
	} else {
		c.Dec = genPositions(t, &c, "bools", 3)
	}
	if c.Free = rapid.IntRange(0, 3).Draw(t, "free") == 0; !c.Free {
		c.Sched = genSched(t)
	}
	return c
}

func runC03(x *X, c OpCase) error {
	e := newEnv(&c)
	_, out, _ := e.exec()
	defer e.s.Open()
	if err := out.hang(); err != nil {
		return err
	}
	e.mu.Lock()
	atReturn, finished := e.retCalls, e.retFinished
	e.mu.Unlock()
	how := "returned"
	if out.Panicked {
		how = "panicked"
		x.Label("by panic")
	}
	x.obs = fmt.Sprintf("%s with %d of %d calls finished", how, finished, atReturn)
	if finished < atReturn {
		return fmt.Errorf("%s %s while %d of its %d functions were still running", c.Op, how, atReturn-finished, atReturn)
	}
	if err := tiles(&c, e.sortedCallsN(atReturn)); err != nil {
		return fmt.Errorf("%s %s before all its functions had been invoked: %w", c.Op, how, err)
	}
	if _, err := e.s.Drain(); err != nil {
		return err
	}
	if e.ncalls() != atReturn {
		return fmt.Errorf("%s %s, and %d functions were called afterwards", c.Op, how, e.ncalls()-atReturn)
	}
	x.trivial = atReturn < 2
	x.Label("op %s", c.Op)
	return nil
}

func (e *Env) sortedCallsN(n int) [][2]int {
	e.mu.Lock()
	bs := append([][2]int(nil), e.calls[:n]...)
	e.mu.Unlock()
	sortBatches(bs)
	return bs
}

// ---- C04 ----------------------------------------------------------------------

func genC04(t *rapid.T, cfg *Cfg) OpCase {
	c := genOp(t, cat(parThunkOps, parRangeOps), 48)
	if c.isReduce() && rapid.IntRange(0, 2).Draw(t, "joinp") == 0 {
		c.JoinPanic = genAts(t, &c, "joinpanics", 1, 3)
		c.Panics = genAts(t, &c, "panics", 0, 3)
	} else {
		c.Panics = genAts(t, &c, "panics", 1, 5)
		if !c.isReduce() {
			c.Dec = genPositions(t, &c, "bools", 3)
		}
	}
	c.Free = rapid.IntRange(0, 3).Draw(t, "free") == 0
	if !c.Free {
		c.Sched = genSched(t)
	}
	c.company(t)
	return c
}

func runC04(x *X, c OpCase) error {
	e := newEnv(&c)
	_, out, _ := e.exec()
	defer e.s.Open()
	if err := out.hang(); err != nil {
		return err
	}
	if _, err := e.s.Drain(); err != nil {
		return err
	}
	var panics []event
	for _, v := range e.evs() {
		if v.panics {
			panics = append(panics, v)
		}
	}
	ev, any := leftmost(panics)
	x.Label("op %s", c.Op)
	if !any {
		x.trivial = true
		if out.Panicked {
			return fmt.Errorf("%s panicked although nothing it called did: %s", c.Op, trunc(fmt.Sprint(out.Panic), 800))
		}
		return nil
	}
	x.Label("kind %s", ev.kind)
	if len(panics) > 1 {
		x.Label("several panics")
	}
	if !out.Panicked {
		return fmt.Errorf("%s returned normally although batch [%d,%d) panicked with %v: the panic was lost", c.Op, ev.lo, ev.hi, ev.val)
	}
	x.obs = trunc(fmt.Sprint(out.Panic), 80)
	if err := delivered(ev, out.Panic); err != nil {
		return fmt.Errorf("%s: %w", c.Op, err)
	}
	return nil
}

// ---- C05 ----------------------------------------------------------------------

func genC05(t *rapid.T, cfg *Cfg) OpCase {
	maxFn := 63
	if rapid.IntRange(0, 5).Draw(t, "more") == 5 {
		maxFn = 300
	}
	c := genOp(t, cat(parThunkOps, parRangeOps, specThunkOps, specRangeOps), maxFn)
	if cfg.Mode == "many" { // more functions than any fixed number of workers
		n := rapid.IntRange(100, 1<<rapid.IntRange(8, 15).Draw(t, "pow")).Draw(t, "many")
		if c.isRange() {
			c.N = n
			c.High = c.Low + n*rapid.IntRange(1, 3).Draw(t, "each") - rapid.IntRange(0, 50).Draw(t, "less")
		} else {
			c.High = n
		}
	}
	c.Sched = genSched(t)
	return c
}

func runC05(x *X, c OpCase) error {
	e := newEnv(&c)
	e.s.hold = func(Key) bool { return true }
	_, out, _ := e.exec()
	defer e.s.Open()
	if err := out.hang(); err != nil {
		return err
	}
	pend := e.s.Pending()
	var bs [][2]int
	for _, k := range pend {
		bs = append(bs, [2]int{k[0], k[1]})
	}
	x.obs = fmt.Sprintf("%d functions in progress at once", len(bs))
	x.Label("op %s", c.Op)
	if len(bs) >= 1000 {
		x.Label("1000 functions or more")
	}
	x.trivial = len(bs) < 2
	if out.Returned && (c.isRange() || c.High > 0) {
		return fmt.Errorf("%s returned without having called its functions", c.Op)
	}
	if out.Returned {
		return nil
	}
	if err := tiles(&c, bs); err != nil {
		return fmt.Errorf("%s: while all functions called so far wait for the others, the remaining ones are never started: %w", c.Op, err)
	}
	// let them go: the operation must complete
	e.s.hold = nil
	if len(bs) > 100 {
		e.s.Open()
	}
	out = e.s.Continue(c.Sched)
	if err := out.hang(); err != nil {
		return err
	}
	return nil
}

// ---- C06 ----------------------------------------------------------------------

type PrefixCase struct {
	Typ   string `json:"typ"`
	Len   int    `json:"len"`
	Seed  uint64 `json:"seed"`
	Again int    `json:"again,omitempty"` // further calls before the result is looked at again
	Twins int    `json:"twins,omitempty"` // calls at the same time
}

func genC06(t *rapid.T, cfg *Cfg) PrefixCase {
	c := PrefixCase{Typ: rapid.SampledFrom(sumTypes).Draw(t, "typ")}
	switch rapid.IntRange(0, 9).Draw(t, "lenkind") {
	case 0, 1, 2, 3:
		c.Len = rapid.IntRange(0, 40).Draw(t, "len")
	case 4, 5, 6:
		k := rapid.IntRange(0, 12).Draw(t, "pow")
		c.Len = max(0, 1<<k+rapid.IntRange(-2, 2).Draw(t, "d"))
	case 7, 8:
		c.Len = rapid.IntRange(0, 1500).Draw(t, "len")
	default:
		c.Len = rapid.IntRange(0, 20000).Draw(t, "len")
		if rapid.IntRange(0, 7).Draw(t, "huge") == 7 {
			c.Len = 1<<rapid.IntRange(14, 18).Draw(t, "pow") + rapid.IntRange(-2, 2).Draw(t, "d")
		}
	}
	if c.Typ == "string" || c.Typ == "namedString" {
		c.Len = min(c.Len, 700)
	}
	c.Seed = uint64(rapid.IntRange(0, 1<<20).Draw(t, "seed"))
	switch rapid.IntRange(0, 7).Draw(t, "company") {
	case 5:
		c.Again = rapid.IntRange(1, 3).Draw(t, "again")
	case 6:
		c.Twins = rapid.IntRange(1, 3).Draw(t, "twins")
	}
	return c
}

func prefix[T addable](x *X, c PrefixCase, conv func(h uint64, lo, hi int) T) error {
	in := make([]T, c.Len)
	for i := range in {
		in[i] = conv(mix(c.Seed, uint64(i)), i, i+1)
	}
	want := make([]T, c.Len)
	var acc T
	for i := range in {
		if i == 0 {
			acc = in[0]
		} else {
			acc += in[i]
		}
		want[i] = acc
	}
	var got []T
	out := supervise(func() {
		var wg sync.WaitGroup
		for i := range c.Twins {
			other := make([]T, len(in))
			for j := range other {
				other[j] = conv(mix(c.Seed+uint64(i)+7, uint64(j)), j, j+1)
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				parallel.PrefixSum(other)
			}()
		}
		defer wg.Wait()
		got = parallel.PrefixSum(in)
	})
	if err := out.hang(); err != nil {
		return err
	}
	if out.Panicked {
		return fmt.Errorf("PrefixSum of %d elements (%s) panicked: %s", c.Len, c.Typ, trunc(fmt.Sprint(out.Panic), 800))
	}
	if len(got) != len(want) {
		return fmt.Errorf("PrefixSum of %d elements (%s) has %d elements", c.Len, c.Typ, len(got))
	}
	for i := range want {
		if got[i] != want[i] && (got[i] == got[i] || want[i] == want[i]) {
			return fmt.Errorf("PrefixSum of %d elements (%s): element %d is %v, want %v", c.Len, c.Typ, i, got[i], want[i])
		}
	}
	// a later call must not change the result of an earlier one
	var again []T
	if len(in) > 0 {
		for i := range c.Again {
			n := max(1, len(in)*(i+2)/(c.Again+1))
			again = make([]T, n)
			for j := range again {
				again[j] = conv(mix(c.Seed+1, uint64(j)), j, j+1)
			}
			out := supervise(func() { again = parallel.PrefixSum(again) })
			if err := out.hang(); err != nil {
				return err
			}
		}
		for i := range want {
			if got[i] != want[i] && (got[i] == got[i] || want[i] == want[i]) {
				return fmt.Errorf("PrefixSum of %d elements (%s): element %d of the result was changed to %v by later calls, want %v", c.Len, c.Typ, i, got[i], want[i])
			}
		}
	}
	x.trivial = c.Len < 2
	x.Label("type %s", c.Typ)
	if c.Len&(c.Len-1) == 0 {
		x.Label("power of two length")
	}
	return nil
}

func runC06(x *X, c PrefixCase) error {
	switch c.Typ {
	case "int":
		return prefix(x, c, func(h uint64, _, _ int) int { return int(h) })
	case "uint8":
		return prefix(x, c, func(h uint64, _, _ int) uint8 { return uint8(h) })
	case "float64":
		return prefix(x, c, func(h uint64, _, _ int) float64 { return float64(int(h%2000001) - 1000000) })
	case "float32":
		return prefix(x, c, func(h uint64, _, _ int) float32 { return float32(int(h%401) - 200) })
	case "float64!":
		return prefix(x, c, func(h uint64, i, _ int) float64 {
			if i > 200 && h>>20%64 != 0 { // keep long stretches without them
				h &= 1<<40 - 1
				h |= 100 << 40
			}
			return unusual(h, float64(int(h%2001)-1000))
		})
	case "float32!":
		return prefix(x, c, func(h uint64, _, _ int) float32 { return float32(unusual(h, float64(int(h%2001)-1000))) })
	case "complex128":
		return prefix(x, c, func(h uint64, _, _ int) complex128 {
			return complex(float64(int(h%2001)-1000), float64(int(h>>32%2001)-1000))
		})
	case "complex64":
		return prefix(x, c, func(h uint64, _, _ int) complex64 {
			return complex(float32(int(h%401)-200), float32(int(h>>32%401)-200))
		})
	case "namedInt":
		return prefix(x, c, func(h uint64, _, _ int) namedInt { return namedInt(h) })
	case "uint64":
		return prefix(x, c, func(h uint64, _, _ int) uint64 { return h })
	case "int32":
		return prefix(x, c, func(h uint64, _, _ int) int32 { return int32(h) })
	case "uintptr":
		return prefix(x, c, func(h uint64, _, _ int) uintptr { return uintptr(h) })
	case "int8":
		return prefix(x, c, func(h uint64, _, _ int) int8 { return int8(h) })
	case "uint":
		return prefix(x, c, func(h uint64, _, _ int) uint { return uint(h) })
	case "int64":
		return prefix(x, c, func(h uint64, _, _ int) int64 { return int64(h) })
	case "uint16":
		return prefix(x, c, func(h uint64, _, _ int) uint16 { return uint16(h) })
	case "uint32":
		return prefix(x, c, func(h uint64, _, _ int) uint32 { return uint32(h) })
	case "namedString":
		return prefix(x, c, func(h uint64, lo, hi int) namedString { return namedString(rune('a' + h%26)) })
	default:
		return prefix(x, c, func(h uint64, lo, hi int) string {
			if h%7 == 0 {
				return ""
			}
			return string(rune('a' + h%26))
		})
	}
}

func init() {
	define("C01", "a generated range call is non-trivial when it is valid and produces at least two batches, or when its arguments are invalid",
		[]Cfg{{Name: "all-cpus", Quick: 6000}, {Name: "1cpu", CPUs: 1, Quick: 1500}, {Name: "3cpus", CPUs: 3, Quick: 2500}, {Name: "procs2", Procs: 2, Quick: 2500}, {Name: "procs24", Procs: 24, Quick: 500}}, genC01, runC01)
	define("C02", "non-trivial: at least two functions or batches were combined",
		[]Cfg{{Name: "all-cpus", Quick: 4000}, {Name: "1cpu", CPUs: 1, Quick: 1500}, {Name: "3cpus", CPUs: 3, Quick: 2500}, {Name: "race", Race: true, Quick: 700}}, genC02, runC02)
	define("C03", "non-trivial: at least two functions or batches; the order in which they finish is the generated schedule",
		[]Cfg{{Name: "all-cpus", Quick: 4000}, {Name: "1cpu", CPUs: 1, Quick: 1500}, {Name: "procs2", Procs: 2, Quick: 2500}}, genC03, runC03)
	define("C04", "non-trivial: at least one function, batch or join panicked",
		[]Cfg{{Name: "all-cpus", Quick: 4000}, {Name: "1cpu", CPUs: 1, Quick: 1500}, {Name: "race", Race: true, Quick: 700}}, genC04, runC04)
	define("C05", "non-trivial: at least two functions were held in progress at the same moment",
		[]Cfg{{Name: "all-cpus", Quick: 3000}, {Name: "1cpu", CPUs: 1, Quick: 1500}, {Name: "procs1", Procs: 1, Quick: 1500}, {Name: "many", Mode: "many", Quick: 600, Thor: 4000}}, genC05, runC05)
	define("C06", "non-trivial: at least two elements; every element of the result is compared with the sequential prefix sum",
		[]Cfg{{Name: "all-cpus", Quick: 3000}, {Name: "1cpu", CPUs: 1, Quick: 800}, {Name: "race", Race: true, Quick: 400}}, genC06, runC06)
}
