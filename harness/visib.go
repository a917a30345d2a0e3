package main

import (
	"errors"
	"fmt"
	"runtime"
	"sync"

	"github.com/intel/forGoParallel/gsync"
	"pgregory.net/rapid"
)

// ---- C33: plain memory only ---------------------------------------------------
//
// The functions given to the operations of packages parallel and speculative,
// and the users of a Map or Pool, communicate through plain memory alone. Every
// happens-before edge between them comes from the library: what the race
// detector does not report, and what the values read confirm, is published.

// VisCase is one case: an operation, or goroutines that share a map or a pool.
type VisCase struct {
	Kind string    `json:"kind"` // op, map, own, pool
	Op   *OpCase   `json:"op,omitempty"`
	Rep  int       `json:"rep,omitempty"`
	G    [][]MapOp `json:"g,omitempty"`
	New  bool      `json:"new,omitempty"`
}

// rawSlot is what the function of one batch writes, at the slot of its first element.
type rawSlot struct {
	pre  uint64 // written by the caller before the operation
	hi   int
	val  uint64
	join int // written by joins that consume the batch as part of their right operand
}

type rawOp struct {
	slots []rawSlot
	elem  []uint64
	mu    sync.Mutex // taken only to report a failure
	bad   string
}

func newRawOp(c *OpCase) *rawOp {
	n := c.High - c.Low
	r := &rawOp{slots: make([]rawSlot, n+1), elem: make([]uint64, n)}
	for i := range r.slots {
		r.slots[i].pre = mix(c.Seed, uint64(i))
	}
	return r
}

func (r *rawOp) fail(format string, args ...any) {
	r.mu.Lock()
	if r.bad == "" {
		r.bad = fmt.Sprintf(format, args...)
	}
	r.mu.Unlock()
}

// visErr carries a plain field to whoever recovers the panic.
type visErr struct{ lo, hi int }

func (*visErr) Error() string { return harnessPanicMark + " of a function" }

func (r *rawOp) body(e *Env, lo, hi int) {
	for i := e.h(lo, hi) % 4; i > 0; i-- {
		runtime.Gosched()
	}
	i := lo - e.c.Low
	s := &r.slots[i]
	if s.pre != mix(e.c.Seed, uint64(i)) {
		r.fail("the function of [%d,%d) does not see what the caller wrote before", lo, hi)
	}
	for k := lo; k < hi; k++ {
		r.elem[k-e.c.Low] = mix(e.c.Seed+1, uint64(k))
	}
	s.hi, s.val = hi, e.h(lo, hi)
	for i := e.h(lo, hi) >> 8 % 3; i > 0; i-- {
		runtime.Gosched()
	}
	for _, p := range e.c.Panics {
		if e.in(p.Pos, lo, hi) {
			v := &visErr{}
			v.lo, v.hi = lo, hi
			panic(v)
		}
	}
}

// read checks what the functions of [lo,hi) wrote; the batches are found by walking.
func (r *rawOp) read(e *Env, lo, hi int, who string) {
	at := lo
	for n := 0; n == 0 || at < hi; n++ {
		i := at - e.c.Low
		s := &r.slots[i]
		if s.hi < at || s.hi > hi || s.val != e.h(at, s.hi) {
			r.fail("%s does not see what the function of the batch that starts at %d wrote", who, at)
			return
		}
		for k := at; k < s.hi; k++ {
			if r.elem[k-e.c.Low] != mix(e.c.Seed+1, uint64(k)) {
				r.fail("%s does not see what the function wrote for element %d", who, k)
				return
			}
		}
		if s.hi == at {
			return
		}
		at = s.hi
	}
}

func (r *rawOp) join(e *Env, x, y span) {
	r.read(e, x.Lo, x.Hi, "a join")
	r.read(e, y.Lo, y.Hi, "a join")
	// a join may change what its operands refer to
	r.slots[x.Lo-e.c.Low].join++
	r.slots[y.Lo-e.c.Low].join++
	if e.h(x.Lo, y.Hi)%3 == 0 {
		runtime.Gosched()
	}
}

// ends finds the positions at which something ends the operation early.
func (e *Env) ends() (pos []int) {
	pos = append(pos, e.c.Dec...)
	for _, p := range e.c.Panics {
		pos = append(pos, p.Pos)
	}
	return
}

func genVisOp(t *rapid.T) *OpCase {
	c := genOp(t, cat(parThunkOps, parRangeOps, specOps), 64)
	if n := c.High - c.Low; n > 3000 {
		c.High = c.Low + 3000
	}
	c.Free, c.Probe = true, false
	if !(c.isReduce() && !c.isSpec()) && rapid.IntRange(0, 2).Draw(t, "anydec") == 0 {
		c.Dec = genPositions(t, &c, "dec", 2)
	}
	if rapid.IntRange(0, 3).Draw(t, "anypanic") == 0 {
		c.Panics = genAts(t, &c, "panics", 1, 2)
		for i := range c.Panics {
			c.Panics[i].Kind = "error"
		}
	}
	return &c
}

// runVisOp makes one call; the caller's part runs in the goroutine of the call.
func runVisOp(x *X, c *OpCase) error {
	e := newEnv(c)
	call, _ := e.prepare()
	r := newRawOp(c)
	e.raw = r
	caller := func() {
		var v any
		func() {
			defer func() { v = recover() }()
			call()
		}()
		who := "the caller"
		end := e.ends()
		if v != nil && len(c.Panics) == 0 {
			r.fail("panic: %s", trunc(fmt.Sprint(v), 500))
			return
		}
		if v != nil {
			var ve *visErr
			err, ok := v.(error)
			if !ok || !errors.As(err, &ve) {
				r.fail("the operation panicked with %s", trunc(fmt.Sprint(v), 500))
				return
			}
			who = "the caller, after recovering a panic,"
			r.read(e, ve.lo, ve.hi, who)
		}
		switch {
		case !c.isSpec() || len(end) == 0:
			if c.isRange() || c.High > 0 {
				r.read(e, c.Low, c.High, who)
			}
			if !c.isSpec() {
				// nothing may be running that reads what the caller changes now
				for i := range r.slots {
					r.slots[i].pre++
				}
			}
			if !c.isReduce() || len(c.Panics) > 0 || c.Typ != "" {
				break
			}
			n, joins := 0, 0
			for at := c.Low; ; n++ {
				s := &r.slots[at-c.Low]
				joins += s.join
				if s.hi >= c.High {
					n++
					break
				}
				at = s.hi
			}
			if joins != 2*(n-1) {
				r.fail("%d batches were joined, but the caller sees %d of the %d changes made by joins", n, joins, 2*(n-1))
			}
		case len(end) == 1:
			// exactly one function ends the operation: whatever the
			// others do, the operation knows its outcome
			if c.High > c.Low {
				p := end[0]
				if r.elem[p] != mix(c.Seed+1, uint64(c.Low+p)) {
					r.fail("%s does not see what the decisive function wrote for element %d", who, c.Low+p)
				}
			}
		}
	}
	out := supervise(caller)
	if err := out.hang(); err != nil {
		return err
	}
	if out.Panicked {
		return fmt.Errorf("panic: %s", trunc(fmt.Sprint(out.Panic), 500))
	}
	if _, err := e.s.Drain(); err != nil {
		return err
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.bad != "" {
		return fmt.Errorf("%s: %s", c.Op, r.bad)
	}
	x.trivial = c.High-c.Low < 2
	x.Label("op %s", c.Op)
	switch {
	case len(c.Panics) > 0:
		x.Label("with panics")
	case len(c.Dec) > 0:
		x.Label("with decisive functions or false/true predicates")
	}
	return nil
}

type visObj struct {
	a, b uint64
	n    int
}

func (o *visObj) ok() bool { return o.b == ^o.a }

var visMapOps = []string{"Store", "Load", "LoadOrStore", "LoadAndDelete", "Swap", "CompareAndSwap", "Range", "CompareAndDelete"}
var visOwnOps = []string{"take", "put"}
var visPoolOps = []string{"get", "put", "hold"}

func genVis(t *rapid.T, cfg *Cfg) VisCase {
	c := VisCase{Kind: rapid.SampledFrom([]string{"op", "op", "op", "op", "map", "own", "pool"}).Draw(t, "kind")}
	if c.Kind == "op" {
		c.Op = genVisOp(t)
		c.Rep = rapid.IntRange(1, 3).Draw(t, "rep")
		return c
	}
	ops := map[string][]string{"map": visMapOps, "own": visOwnOps, "pool": visPoolOps}[c.Kind]
	c.New = rapid.Bool().Draw(t, "new")
	n := rapid.IntRange(2, 8).Draw(t, "goroutines")
	keys := rapid.IntRange(1, 3).Draw(t, "keys")
	for range n {
		m := rapid.IntRange(1, 30).Draw(t, "nops")
		g := make([]MapOp, m)
		for i := range g {
			g[i] = MapOp{Op: rapid.SampledFrom(ops).Draw(t, "op"), K: rapid.IntRange(0, keys-1).Draw(t, "k"), V: rapid.IntRange(0, 3).Draw(t, "yield")}
		}
		c.G = append(c.G, g)
	}
	return c
}

func runVis(x *X, c VisCase) error {
	x.Label("kind %s", c.Kind)
	if c.Kind == "op" {
		for range max(1, c.Rep) {
			if err := runVisOp(x, c.Op); err != nil {
				return err
			}
		}
		return nil
	}
	bad := make([]string, len(c.G))
	held := make([]int, len(c.G)) // changes made to owned objects
	final := 0
	out := supervise(func() {
		var start, wg sync.WaitGroup
		start.Add(1)
		var m gsync.Map[int, *visObj]
		var p gsync.Pool[visObj]
		if c.New {
			p.New = func() *visObj { o := new(visObj); o.a, o.b = 1, ^uint64(1); return o }
		}
		if c.Kind == "own" {
			for k := range 3 {
				m.Store(k, &visObj{0, ^uint64(0), 0})
			}
		}
		kept := make([]*visObj, len(c.G))
		for gi, ops := range c.G {
			wg.Add(1)
			go func() {
				defer wg.Done()
				start.Wait()
				var mine *visObj
				touch := func(o *visObj) {
					// o belongs to this goroutine alone now
					if !o.ok() {
						bad[gi] = fmt.Sprintf("an object obtained from the %s has the fields %x and %x: its provider's writes are not visible", c.Kind, o.a, o.b)
					}
					o.a++
					o.b = ^o.a
					o.n++
					held[gi]++
				}
				look := func(o *visObj, ok bool) {
					if ok && (o == nil || !o.ok()) {
						bad[gi] = "an object obtained from the map does not show what was written to it before it was stored"
					}
				}
				for i, op := range ops {
					for range op.V {
						runtime.Gosched()
					}
					fresh := func() *visObj {
						o := new(visObj)
						o.a = uint64(gi*1000 + i + 1)
						o.b = ^o.a
						return o
					}
					switch c.Kind {
					case "map":
						switch op.Op {
						case "Store":
							m.Store(op.K, fresh())
						case "Load":
							look(m.Load(op.K))
						case "LoadOrStore":
							o, _ := m.LoadOrStore(op.K, fresh())
							look(o, true)
						case "LoadAndDelete":
							look(m.LoadAndDelete(op.K))
						case "Swap":
							look(m.Swap(op.K, fresh()))
						case "CompareAndSwap":
							if o, ok := m.Load(op.K); ok {
								look(o, ok)
								m.CompareAndSwap(op.K, o, fresh())
							}
						case "CompareAndDelete":
							if o, ok := m.Load(op.K); ok {
								m.CompareAndDelete(op.K, o)
							}
						case "Range":
							m.Range(func(_ int, o *visObj) bool { look(o, true); return op.K != 1 })
						}
					case "own":
						switch {
						case mine == nil:
							if o, ok := m.LoadAndDelete(op.K); ok {
								mine = o
								touch(mine)
							}
						case op.Op == "put":
							touch(mine)
							if o, ok := m.Swap(op.K, mine); ok {
								mine = o
								touch(mine)
							} else {
								mine = nil
							}
						default:
							touch(mine)
						}
					case "pool":
						switch {
						case mine == nil:
							mine = p.Get()
							if mine == nil {
								if c.New {
									bad[gi] = "Get returned nil although New is set"
								}
								mine = fresh()
							}
							touch(mine)
						case op.Op == "put":
							touch(mine)
							p.Put(mine)
							mine = nil
						default:
							touch(mine)
						}
					}
				}
				kept[gi] = mine
			}()
		}
		start.Done()
		wg.Wait()
		if c.Kind == "own" {
			m.Range(func(_ int, o *visObj) bool { final += o.n; return true })
			for _, o := range kept {
				if o != nil {
					final += o.n
				}
			}
		}
	})
	if err := out.hang(); err != nil {
		return err
	}
	if out.Panicked {
		return fmt.Errorf("panic: %s", trunc(fmt.Sprint(out.Panic), 500))
	}
	total := 0
	for gi := range c.G {
		if bad[gi] != "" {
			return fmt.Errorf("gsync: %s", bad[gi])
		}
		total += held[gi]
	}
	if c.Kind == "own" && final != total {
		return fmt.Errorf("gsync.Map: %d changes were made to objects by their only owners, but %d are visible in the end", total, final)
	}
	x.trivial = len(c.G) < 2
	return nil
}

func init() {
	define("C33", "non-trivial: at least two functions or range elements, or two goroutines that share a map or pool",
		[]Cfg{{Name: "race", Race: true, Quick: 800}, {Name: "race 2 cpus", Race: true, CPUs: 2, Quick: 300}, {Name: "plain", Quick: 1200}, {Name: "plain 1 cpu", CPUs: 1, Quick: 300}}, genVis, runVis)
}
