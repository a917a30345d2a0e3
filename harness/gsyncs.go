package main

import (
	"context"
	"errors"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/intel/forGoParallel/gsync"
	"pgregory.net/rapid"
)

// ---- C14: sequential behaviour of Map ------------------------------------------

type MapOp struct {
	Op   string `json:"op"`
	K    int    `json:"k,omitempty"`
	V    int    `json:"v,omitempty"`
	W    int    `json:"w,omitempty"`
	Stop int    `json:"stop,omitempty"`
}

type MapCase struct {
	Typ string  `json:"typ"`
	Ops []MapOp `json:"ops"`
	Big *BigMap `json:"big,omitempty"` // instead
}

type structKey struct {
	A int
	B string
}

var (
	errA, errB = errors.New("a"), errors.New("b")
	ptrs       = [5]*int{nil, new(int), new(int), new(int), new(int)}
)

const mapNK, mapNV = 6, 5

// mapTypes instantiates the interpreter for several key and value types.
var mapTypes = map[string]func(x *X, c MapCase) error{
	"int/int":         mapRun(func(i int) int { return i - 2 }, func(i int) int { return i }, true),
	"string/string":   mapRun(func(i int) string { return strings.Repeat("k", i) }, func(i int) string { return strings.Repeat("v", i) }, true),
	"any/any":         mapRun(anyVal, anyVal, true),
	"any/error":       mapRun(anyVal, errVal, true),
	"error/any":       mapRun(errVal, anyVal, true),
	"struct/struct":   mapRun(func(i int) structKey { return structKey{i % 3, strings.Repeat("x", i/3)} }, func(i int) structKey { return structKey{i, "v"} }, true),
	"ptr/ptr":         mapRun(func(i int) *int { return ptrs[i%5] }, func(i int) *int { return ptrs[i%5] }, true),
	"int/slice":       mapRun(func(i int) int { return i }, func(i int) []int { return [][]int{nil, {}, {1}, {2, 3}, {4}}[i] }, false),
	"array/bool":      mapRun(func(i int) [2]int8 { return [2]int8{int8(i % 2), int8(i / 2)} }, func(i int) bool { return i%2 == 1 }, true),
	"string/stringer": mapRun(func(i int) string { return fmt.Sprint(i) }, stringerOf, true),
	"float/float":     mapRun(func(i int) float64 { return []float64{0, math.Copysign(0, -1), 1, math.Inf(1), -1, 5e-324}[i] }, func(i int) float64 { return float64(i) }, true),
	"chan/emptyany":   mapRun(func(i int) chan int { return chans[i%6] }, func(i int) any { return []any{nil, 0, "", struct{}{}, false}[i] }, true),
}

var chans = [6]chan int{nil, make(chan int), make(chan int), make(chan int), make(chan int), make(chan int)}

func anyVal(i int) any {
	return []any{nil, 0, "", (*int)(nil), structKey{}, 1.5}[i%6]
}

func errVal(i int) error {
	return []error{nil, errA, errB, (*customErr)(nil), context.Canceled, os.ErrExist}[i%6]
}

func stringerOf(i int) fmt.Stringer {
	return []fmt.Stringer{nil, stringerVal{"a"}, stringerVal{""}, (*strings.Builder)(nil), &sharedBuilder}[i%5]
}

var sharedBuilder strings.Builder

var mapTypeNames = sortedKeys(mapTypes)
var mapOps = []string{"Load", "Store", "LoadOrStore", "LoadAndDelete", "Delete", "Swap", "CompareAndSwap", "CompareAndDelete", "Range", "RangeDelete", "RangeStore", "RangeMix"}

func mapRun[K comparable, V any](key func(int) K, val func(int) V, comparableV bool) func(x *X, c MapCase) error {
	eq := func(a, b V) bool {
		if comparableV {
			return any(a) == any(b)
		}
		return reflect.DeepEqual(a, b)
	}
	return func(x *X, c MapCase) error {
		var m gsync.Map[K, V]
		model := map[K]V{}
		var step int
		var cur MapOp
		bad := func(got, want string) error {
			return fmt.Errorf("gsync.Map[%s]: operation %d, %s(key %#v, values %#v, %#v): got %s, want %s", c.Typ, step, cur.Op, key(cur.K), val(cur.V), val(cur.W), got, want)
		}
		two := func(v V, ok bool) string { return fmt.Sprintf("(%#v, %v)", v, ok) }
		var err error
		body := func() {
			for i, op := range c.Ops {
				step, cur = i, op
				k, v, w := key(op.K), val(op.V), val(op.W)
				old, had := model[k]
				switch op.Op {
				case "Load":
					gv, ok := m.Load(k)
					if ok != had || !eq(gv, old) {
						err = bad(two(gv, ok), two(old, had))
						return
					}
				case "Store":
					m.Store(k, v)
					model[k] = v
				case "LoadOrStore":
					gv, ok := m.LoadOrStore(k, v)
					want := old
					if !had {
						want = v
						model[k] = v
					}
					if ok != had || !eq(gv, want) {
						err = bad(two(gv, ok), two(want, had))
						return
					}
				case "LoadAndDelete":
					gv, ok := m.LoadAndDelete(k)
					delete(model, k)
					if ok != had || !eq(gv, old) {
						err = bad(two(gv, ok), two(old, had))
						return
					}
				case "Delete":
					m.Delete(k)
					delete(model, k)
				case "Swap":
					gv, ok := m.Swap(k, v)
					model[k] = v
					if ok != had || !eq(gv, old) {
						err = bad(two(gv, ok), two(old, had))
						return
					}
				case "CompareAndSwap":
					if !comparableV {
						continue
					}
					ok := m.CompareAndSwap(k, v, w)
					want := had && eq(old, v)
					if want {
						model[k] = w
					}
					if ok != want {
						err = bad(fmt.Sprint(ok), fmt.Sprint(want))
						return
					}
				case "CompareAndDelete":
					if !comparableV {
						continue
					}
					ok := m.CompareAndDelete(k, v)
					want := had && eq(old, v)
					if want {
						delete(model, k)
					}
					if ok != want {
						err = bad(fmt.Sprint(ok), fmt.Sprint(want))
						return
					}
				case "RangeMix":
					if err = rangeMix(&m, model, op, key, val, eq, bad); err != nil {
						return
					}
				case "Range", "RangeDelete", "RangeStore":
					before := map[K]V{}
					for k, v := range model {
						before[k] = v
					}
					seen := map[K]bool{}
					calls := 0
					m.Range(func(rk K, rv V) bool {
						calls++
						if err != nil {
							return false
						}
						if op.Stop > 0 && calls > op.Stop {
							err = bad("another call of the function", "Range to stop after the function returned false")
							return false
						}
						mv, ok := model[rk]
						if !ok || !eq(mv, rv) {
							err = bad(fmt.Sprintf("Range visiting %#v = %#v", rk, rv), two(mv, ok))
							return false
						}
						if seen[rk] {
							err = bad(fmt.Sprintf("Range visiting %#v twice", rk), "once")
							return false
						}
						seen[rk] = true
						switch op.Op {
						case "RangeDelete":
							m.Delete(rk)
							delete(model, rk)
						case "RangeStore":
							m.Store(rk, w)
							model[rk] = w
						}
						return op.Stop == 0 || calls < op.Stop
					})
					if err != nil {
						return
					}
					want := len(before)
					if op.Stop > 0 && op.Stop < want {
						want = op.Stop
					}
					if calls != want {
						err = bad(fmt.Sprintf("%d calls", calls), fmt.Sprintf("%d calls", want))
						return
					}
				}
			}
			// final contents
			step, cur = len(c.Ops), MapOp{Op: "final Load"}
			for i := range mapNK {
				cur.K = i
				old, had := model[key(i)]
				gv, ok := m.Load(key(i))
				if ok != had || !eq(gv, old) {
					err = bad(two(gv, ok), two(old, had))
					return
				}
			}
		}
		out := supervise(body)
		if err != nil {
			return err
		}
		if e := out.hang(); e != nil {
			return e
		}
		if out.Panicked {
			return fmt.Errorf("gsync.Map[%s]: operation %d, %s(key %#v, value %#v) panicked: %s", c.Typ, step, cur.Op, key(cur.K), val(cur.V), trunc(fmt.Sprint(out.Panic), 600))
		}
		return nil
	}
}

// rangeMix changes any entries while Range visits the map. Range may show the
// mapping of a key from any point of time during the call, must visit what is
// there all the time, and nothing twice.
func rangeMix[K comparable, V any](m *gsync.Map[K, V], model map[K]V, op MapOp, key func(int) K, val func(int) V, eq func(a, b V) bool, bad func(got, want string) error) (err error) {
	held := map[K][]V{} // mappings that existed at some time during the call
	steady := map[K]bool{}
	for k, v := range model {
		held[k] = []V{v}
		steady[k] = true
	}
	seen := map[K]bool{}
	calls := 0
	stopped := false
	m.Range(func(k K, v V) bool {
		calls++
		switch {
		case err != nil:
			return false
		case stopped:
			err = bad("another call of the function", "Range to stop after the function returned false")
			return false
		case seen[k]:
			err = bad(fmt.Sprintf("Range visiting %#v twice", k), "once")
			return false
		}
		seen[k] = true
		ok := false
		for _, h := range held[k] {
			ok = ok || eq(h, v)
		}
		if !ok {
			err = bad(fmt.Sprintf("Range visiting %#v = %#v", k, v), fmt.Sprintf("one of the values it had during the call: %#v", held[k]))
			return false
		}
		tk := key((op.K + calls*(1+op.V)) % mapNK)
		tv := val((op.W + calls) % mapNV)
		switch (op.V + op.W + calls) % 5 {
		case 0:
			m.Delete(tk)
			delete(model, tk)
			delete(steady, tk)
		case 1:
			m.LoadAndDelete(tk)
			delete(model, tk)
			delete(steady, tk)
		case 2:
			m.Store(tk, tv)
			model[tk] = tv
			held[tk] = append(held[tk], tv)
		case 3:
			m.Swap(tk, tv)
			model[tk] = tv
			held[tk] = append(held[tk], tv)
		default:
			if _, had := model[tk]; !had {
				model[tk] = tv
				held[tk] = append(held[tk], tv)
			}
			m.LoadOrStore(tk, tv)
		}
		stopped = op.Stop > 0 && calls == 2*op.Stop
		return !stopped
	})
	if err == nil && !stopped {
		for k := range steady {
			if !seen[k] {
				return bad(fmt.Sprintf("Range not visiting %#v", k), "a visit of every entry that is present all the time")
			}
		}
	}
	return err
}

func genMapOp(t *rapid.T) MapOp {
	return MapOp{
		Op: rapid.SampledFrom(mapOps).Draw(t, "op"), K: rapid.IntRange(0, mapNK-1).Draw(t, "k"),
		V: rapid.IntRange(0, mapNV-1).Draw(t, "v"), W: rapid.IntRange(0, mapNV-1).Draw(t, "w"),
		Stop: rapid.IntRange(0, 3).Draw(t, "stop"),
	}
}

func genC14(t *rapid.T, cfg *Cfg) MapCase {
	if cfg.Mode == "big" {
		return MapCase{Big: genBigMap(t)}
	}
	return MapCase{Typ: rapid.SampledFrom(mapTypeNames).Draw(t, "typ"),
		Ops: rapid.SliceOfN(rapid.Custom(genMapOp), 1, 40).Draw(t, "ops")}
}

func runC14(x *X, c MapCase) error {
	if c.Big != nil {
		x.Label("large map")
		x.trivial = c.Big.N < 2
		return c.Big.run()
	}
	x.Label("%s", c.Typ)
	stored := map[int]bool{}
	x.trivial = true
	for _, o := range c.Ops {
		if o.Op == "Store" || o.Op == "Swap" || o.Op == "LoadOrStore" {
			stored[o.K] = true
		} else if stored[o.K] {
			x.trivial = false
		}
	}
	return mapTypes[c.Typ](x, c)
}

// ---- C15: linearizability --------------------------------------------------------

type LinCase struct {
	KeyLen  int       `json:"key_len"` // long keys take long to hash: wider windows
	Prefill []int     `json:"prefill"` // value per key, 0 = absent
	Threads [][]MapOp `json:"threads"`
	Rounds  int       `json:"rounds"`
	Seed    uint64    `json:"seed"`
	Storm   *MapStorm `json:"storm,omitempty"` // instead
}

var linOps = []string{"Range", "Load", "Store", "LoadOrStore", "LoadAndDelete", "Delete", "Swap", "CompareAndSwap", "CompareAndDelete"}

func genC15(t *rapid.T, cfg *Cfg) LinCase {
	if cfg.Mode == "storm" || cfg.Race && rapid.IntRange(0, 3).Draw(t, "mode") == 0 {
		return LinCase{Storm: genMapStorm(t, cfg)}
	}
	c := LinCase{Rounds: 30}
	if cfg.Race {
		c.Rounds = 6
	}
	nk := rapid.IntRange(1, 2).Draw(t, "keys")
	for range nk {
		c.Prefill = append(c.Prefill, rapid.IntRange(0, 2).Draw(t, "prefill"))
	}
	c.KeyLen = rapid.SampledFrom([]int{0, 100, 4000, 20000, 60000}).Draw(t, "keylen")
	ops := linOps
	if rapid.IntRange(0, 1).Draw(t, "focus") == 1 {
		// few kinds of operation against each other
		ops = nil
		for range rapid.IntRange(1, 3).Draw(t, "nops") {
			ops = append(ops, rapid.SampledFrom(linOps).Draw(t, "fop"))
		}
	}
	nt := rapid.IntRange(2, 4).Draw(t, "threads")
	for range nt {
		c.Threads = append(c.Threads, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) MapOp {
			return MapOp{Op: rapid.SampledFrom(ops).Draw(t, "op"), K: rapid.IntRange(0, nk-1).Draw(t, "k"),
				V: rapid.IntRange(1, 3).Draw(t, "v"), W: rapid.IntRange(1, 3).Draw(t, "w")}
		}), 1, 5).Draw(t, "tops"))
	}
	c.Seed = uint64(rapid.IntRange(0, 1<<16).Draw(t, "seed"))
	return c
}

type linOut struct {
	V  int
	OK bool
}

// linModel: the state of one key is its value, 0 when absent.
var linModel = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		by := map[int][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(MapOp).K
			by[k] = append(by[k], o)
		}
		var r [][]porcupine.Operation
		for _, v := range by {
			r = append(r, v)
		}
		return r
	},
	Init: func() any { return 0 },
	Step: func(state, input, output any) (bool, any) {
		s, in, out := state.(int), input.(MapOp), output.(linOut)
		loaded := linOut{s, s != 0}
		switch in.Op {
		case "Load":
			return out == loaded, s
		case "Store":
			return true, in.V
		case "LoadOrStore":
			if s != 0 {
				return out == loaded, s
			}
			return out == linOut{in.V, false}, in.V
		case "LoadAndDelete":
			return out == loaded, 0
		case "Delete":
			return true, 0
		case "Swap":
			return out == loaded, in.V
		case "CompareAndSwap":
			if s != 0 && s == in.V {
				return out.OK, in.W
			}
			return !out.OK, s
		default: // CompareAndDelete
			if s != 0 && s == in.V {
				return out.OK, 0
			}
			return !out.OK, s
		}
	},
}

func spinUntil(f *atomic.Int32, n int32) {
	for i := 0; f.Load() < n; i++ {
		if i > 2000 {
			runtime.Gosched()
		}
	}
}

// spinTogether waits until n goroutines run at the same time, which normally
// means that each of them has a P of its own.
// It reports whether that succeeded without yielding.
func spinTogether(f *atomic.Int32, n int32) bool {
	together := true
	start := time.Now()
	for i := 0; f.Load() < n; i++ {
		if i%256 == 255 && time.Since(start) > 4*time.Millisecond {
			together = false
			runtime.Gosched()
		}
	}
	return together
}

func runC15(x *X, c LinCase) error {
	if c.Storm != nil {
		x.Label("storm: %s", c.Storm.Kind)
		return c.Storm.run()
	}
	keys := make([]string, len(c.Prefill))
	for i := range keys {
		keys[i] = strings.Repeat("k", c.KeyLen) + fmt.Sprint(i)
	}
	x.Label("%d threads", len(c.Threads))
	x.Label("key length %d", c.KeyLen)
	overlap := false
	for round := range c.Rounds {
		var m gsync.Map[string, int]
		var clock atomic.Int64
		var hist []porcupine.Operation
		for k, v := range c.Prefill {
			if v != 0 {
				t := clock.Add(1)
				m.Store(keys[k], v)
				hist = append(hist, porcupine.Operation{ClientId: 0, Input: MapOp{Op: "Store", K: k, V: v}, Call: t, Output: linOut{}, Return: clock.Add(1)})
			}
		}
		per := make([][]porcupine.Operation, len(c.Threads))
		var started atomic.Int32
		var wg sync.WaitGroup
		var failure atomic.Pointer[string]
		for ti, ops := range c.Threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						s := fmt.Sprint(r)
						failure.Store(&s)
					}
				}()
				started.Add(1)
				spinUntil(&started, int32(len(c.Threads)))
				for j := mix(c.Seed, uint64(round*10+ti)) % 64; j > 0; j-- {
					started.Load()
				}
				for _, op := range ops {
					var out linOut
					call := clock.Add(1)
					switch op.Op {
					case "Load":
						out.V, out.OK = m.Load(keys[op.K])
					case "Store":
						m.Store(keys[op.K], op.V)
					case "LoadOrStore":
						out.V, out.OK = m.LoadOrStore(keys[op.K], op.V)
					case "LoadAndDelete":
						out.V, out.OK = m.LoadAndDelete(keys[op.K])
					case "Delete":
						m.Delete(keys[op.K])
					case "Swap":
						out.V, out.OK = m.Swap(keys[op.K], op.V)
					case "CompareAndSwap":
						out.OK = m.CompareAndSwap(keys[op.K], op.V, op.W)
					case "CompareAndDelete":
						out.OK = m.CompareAndDelete(keys[op.K], op.V)
					case "Range":
						// counts as one Load per key, some time during the call
						seen := map[string]int{}
						m.Range(func(k string, v int) bool {
							if _, dup := seen[k]; dup {
								s := fmt.Sprintf("Range visited key %s twice", k[max(0, len(k)-3):])
								failure.Store(&s)
							}
							seen[k] = v
							return true
						})
						ret := clock.Add(1)
						for k := range keys {
							v, ok := seen[keys[k]]
							per[ti] = append(per[ti], porcupine.Operation{ClientId: ti + 1, Input: MapOp{Op: "Load", K: k}, Call: call, Output: linOut{v, ok}, Return: ret})
							delete(seen, keys[k])
						}
						if len(seen) > 0 {
							s := "Range visited a key that was never stored"
							failure.Store(&s)
						}
						continue
					}
					per[ti] = append(per[ti], porcupine.Operation{ClientId: ti + 1, Input: op, Call: call, Output: out, Return: clock.Add(1)})
				}
			}()
		}
		wg.Wait()
		if f := failure.Load(); f != nil {
			return fmt.Errorf("a gsync.Map operation failed: %s", *f)
		}
		for _, p := range per {
			hist = append(hist, p...)
		}
		// the final contents
		for k := range keys {
			t := clock.Add(1)
			v, ok := m.Load(keys[k])
			hist = append(hist, porcupine.Operation{ClientId: 0, Input: MapOp{Op: "Load", K: k}, Call: t, Output: linOut{v, ok}, Return: clock.Add(1)})
		}
		if !overlap {
			for i, a := range hist {
				for _, b := range hist[:i] {
					if a.Call < b.Return && b.Call < a.Return && a.Input.(MapOp).K == b.Input.(MapOp).K {
						overlap = true
					}
				}
			}
		}
		if porcupine.CheckOperationsTimeout(linModel, hist, 60*time.Second) == porcupine.Illegal {
			var sb strings.Builder
			for _, h := range hist {
				in := h.Input.(MapOp)
				fmt.Fprintf(&sb, "  thread %d [%d,%d] %s key %d (%d, %d) -> %v\n", h.ClientId, h.Call, h.Return, in.Op, in.K, in.V, in.W, h.Output)
			}
			return fmt.Errorf("concurrent gsync.Map history is not linearizable:\n%s", sb.String())
		}
	}
	x.trivial = !overlap
	return nil
}

// ---- C16: Pool -------------------------------------------------------------------

type PoolOp struct {
	Op string `json:"op"` // Get, Put, PutForeign, SetNew, NilNew
	I  int    `json:"i,omitempty"`
}

type PoolCase struct {
	Mode    string     `json:"mode"` // seq, conc, first
	NilNew  bool       `json:"nil_new,omitempty"`
	Threads [][]PoolOp `json:"threads,omitempty"`
	Puts    int        `json:"puts,omitempty"`
	Rounds  int        `json:"rounds,omitempty"`
}

type pooled struct {
	id    int
	gen   int
	state atomic.Int32 // 0 free or in the pool, 1 held
	pad   [4]int
}

func genC16(t *rapid.T, cfg *Cfg) PoolCase {
	c := PoolCase{Mode: cfg.Mode}
	if c.Mode == "" {
		c.Mode = rapid.SampledFrom([]string{"conc", "first"}).Draw(t, "mode")
	}
	c.NilNew = rapid.IntRange(0, 3).Draw(t, "nilnew") == 0
	switch c.Mode {
	case "first":
		c.Threads = make([][]PoolOp, rapid.IntRange(2, 8).Draw(t, "threads"))
		c.Puts = rapid.IntRange(1, 5).Draw(t, "puts")
		c.Rounds = 20
		return c
	case "seq":
		c.Threads = [][]PoolOp{rapid.SliceOfN(rapid.Custom(func(t *rapid.T) PoolOp {
			return PoolOp{rapid.SampledFrom([]string{"Get", "Get", "Put", "Put", "PutForeign", "SetNew", "NilNew"}).Draw(t, "op"), rapid.IntRange(0, 5).Draw(t, "i")}
		}), 1, 40).Draw(t, "ops")}
	default:
		n := rapid.IntRange(2, 8).Draw(t, "threads")
		for range n {
			c.Threads = append(c.Threads, rapid.SliceOfN(rapid.Custom(func(t *rapid.T) PoolOp {
				return PoolOp{rapid.SampledFrom([]string{"Get", "Get", "Put", "Put", "PutForeign"}).Draw(t, "op"), rapid.IntRange(0, 5).Draw(t, "i")}
			}), 1, 12).Draw(t, "ops"))
		}
		c.Rounds = 20
	}
	return c
}

func runC16(x *X, c PoolCase) error {
	x.Label("mode %s", c.Mode)
	if c.NilNew {
		x.Label("New nil")
	}
	switch c.Mode {
	case "seq":
		return poolSeq(x, c)
	case "first":
		return poolFirst(x, c)
	}
	return poolConc(x, c)
}

// poolSeq: one goroutine, one P, no garbage collection: an exact model.
func poolSeq(x *X, c PoolCase) (err error) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	var p gsync.Pool[pooled]
	gen, ids, news := 0, 0, 0
	setNew := func() {
		gen++
		g := gen
		p.New = func() *pooled { ids++; news++; return &pooled{id: ids, gen: g} }
	}
	nilNew := c.NilNew
	if !nilNew {
		setNew()
	}
	avail := map[*pooled]bool{}
	var held []*pooled
	reusable, reused := 0, 0
	x.trivial = true
	body := func() {
		for i, op := range c.Threads[0] {
			switch op.Op {
			case "Get":
				n0 := news
				o := p.Get()
				what := ""
				switch {
				case o == nil:
					if !nilNew {
						what = "nil although New is set"
					}
				case avail[o]:
					delete(avail, o)
					reused++
					reusable++
					x.trivial = false
					if news != n0 {
						what = "a pooled object, but New was called as well"
					}
				case news == n0+1 && o.id == ids:
					if o.gen != gen {
						what = fmt.Sprintf("an object from an earlier New (%d, now %d)", o.gen, gen)
					}
					if nilNew {
						what = "an object from New although New is nil now"
					}
					if len(avail) > 0 {
						reusable++
					}
				default:
					what = "an object that is neither fresh nor in the pool (handed out before?)"
				}
				if what != "" {
					err = fmt.Errorf("gsync.Pool: operation %d, Get: returned %s", i, what)
					return
				}
				if o == nil && len(avail) > 0 {
					reusable++
				}
				if o != nil {
					held = append(held, o)
				}
			case "Put":
				if len(held) > 0 {
					k := op.I % len(held)
					o := held[k]
					held = append(held[:k], held[k+1:]...)
					avail[o] = true
					p.Put(o)
				}
			case "PutForeign":
				ids++
				o := &pooled{id: ids, gen: -1}
				avail[o] = true
				p.Put(o)
			case "SetNew":
				setNew()
				nilNew = false
			case "NilNew":
				p.New = nil
				nilNew = true
			}
		}
	}
	out := supervise(body)
	if err != nil {
		return err
	}
	if e := out.hang(); e != nil {
		return e
	}
	if out.Panicked {
		return fmt.Errorf("gsync.Pool: an operation panicked: %s", trunc(fmt.Sprint(out.Panic), 600))
	}
	if reusable >= 3 && reused == 0 {
		return fmt.Errorf("gsync.Pool: %d Gets found objects in the pool, but none was reused", reusable)
	}
	return nil
}

// poolConc: many goroutines; every object carries its ownership.
func poolConc(x *X, c PoolCase) error {
	x.trivial = len(c.Threads) < 2
	for range c.Rounds {
		var p gsync.Pool[pooled]
		var ids atomic.Int64
		var known sync.Map
		mk := func() *pooled {
			o := &pooled{id: int(ids.Add(1))}
			known.Store(o, true)
			return o
		}
		if !c.NilNew {
			p.New = mk
		}
		var bad atomic.Pointer[string]
		fail := func(s string) { bad.CompareAndSwap(nil, &s) }
		var started atomic.Int32
		var wg sync.WaitGroup
		for _, ops := range c.Threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						fail(fmt.Sprint("panic: ", r))
					}
				}()
				var held []*pooled
				started.Add(1)
				spinUntil(&started, int32(len(c.Threads)))
				for _, op := range ops {
					switch op.Op {
					case "Get":
						o := p.Get()
						if o == nil {
							if !c.NilNew {
								fail("Get returned nil although New is set")
							}
							continue
						}
						if _, ok := known.Load(o); !ok {
							fail("Get returned an object that nobody made")
						}
						if !o.state.CompareAndSwap(0, 1) {
							fail("Get returned an object that another goroutine holds")
						}
						o.pad[0]++ // races if the object is shared
						held = append(held, o)
					case "Put":
						if len(held) > 0 {
							k := op.I % len(held)
							o := held[k]
							held = append(held[:k], held[k+1:]...)
							o.pad[0]++
							o.state.Store(0)
							p.Put(o)
						}
					case "PutForeign":
						p.Put(mk())
					}
				}
			}()
		}
		wg.Wait()
		if b := bad.Load(); b != nil {
			return fmt.Errorf("gsync.Pool used by %d goroutines: %s", len(c.Threads), *b)
		}
	}
	return nil
}

// poolFirst: the first uses of a pool happen at once; nothing put may be lost.
func poolFirst(x *X, c PoolCase) error {
	if x.cfg.Race {
		// package sync drops objects at random under the race detector
		return poolConc(x, PoolCase{Mode: "conc", NilNew: c.NilNew, Rounds: 5, Threads: [][]PoolOp{
			{{"PutForeign", 0}, {"Get", 0}}, {{"Get", 0}, {"Put", 0}}, {{"PutForeign", 0}, {"Get", 0}}}})
	}
	runtime.GC() // start from a clean state, then keep the collector away
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	for range c.Rounds {
		var p gsync.Pool[pooled]
		objs := map[*pooled]bool{}
		per := make([][]*pooled, len(c.Threads))
		for i := range per {
			for range c.Puts {
				o := &pooled{}
				objs[o] = true
				per[i] = append(per[i], o)
			}
		}
		var started atomic.Int32
		var wg sync.WaitGroup
		for _, os := range per {
			wg.Add(1)
			go func() {
				defer wg.Done()
				started.Add(1)
				spinUntil(&started, int32(len(per)))
				for _, o := range os {
					p.Put(o)
				}
			}()
		}
		wg.Wait()
		var newCalled atomic.Bool
		p.New = func() *pooled { newCalled.Store(true); return &pooled{id: -1} }
		// collect from every P
		var mu sync.Mutex
		var twice bool
		good := 0
		for try := 0; try < 300 && good < 60 && len(objs) > 0; try++ {
			n := runtime.GOMAXPROCS(0)
			var ready, apart atomic.Int32
			var wg sync.WaitGroup
			for range n {
				wg.Add(1)
				go func() {
					defer wg.Done()
					ready.Add(1)
					if !spinTogether(&ready, int32(n)) {
						apart.Add(1)
					}
					for range 3 * c.Puts * len(c.Threads) {
						o := p.Get()
						if o == nil || o.id == -1 {
							break
						}
						mu.Lock()
						if !objs[o] {
							twice = true
						}
						delete(objs, o)
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			if apart.Load() == 0 {
				good++
			}
		}
		if twice {
			return fmt.Errorf("gsync.Pool: an object was handed out twice")
		}
		if len(objs) > 0 && good < 60 {
			// the machine is too busy to look at every P
			x.Label("first use: inconclusive")
			return nil
		}
		if len(objs) > 0 {
			return fmt.Errorf("gsync.Pool: after %d concurrent first uses, %d of the objects put back can no longer be obtained", len(per), len(objs))
		}
	}
	return nil
}

func init() {
	define("C14", "non-trivial: some key is stored and then looked at or changed again",
		[]Cfg{{Name: "all-cpus", Quick: 12000}, {Name: "large", Mode: "big", Quick: 250}}, genC14, runC14)
	define("C15", "non-trivial: at least two operations on the same key overlapped in time",
		[]Cfg{{Name: "all-cpus", Quick: 700}, {Name: "procs2", Procs: 2, Quick: 350}, {Name: "storm", Mode: "storm", Quick: 200}, {Name: "storm-procs2", Mode: "storm", Procs: 2, Quick: 100}, {Name: "race", Race: true, Quick: 300}}, genC15, runC15)
	define("C16", "non-trivial: a pooled object was obtained again, or at least two goroutines used the pool",
		[]Cfg{{Name: "sequential", Procs: 1, Mode: "seq", Quick: 6000}, {Name: "concurrent", Quick: 300}, {Name: "procs2", Procs: 2, Quick: 200}, {Name: "race", Race: true, Quick: 150}}, genC16, runC16)
}
