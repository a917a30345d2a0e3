package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/intel/forGoParallel/gsync"
	"github.com/intel/forGoParallel/parallel"
	"github.com/intel/forGoParallel/pipeline"
	"github.com/intel/forGoParallel/psort"
	"github.com/intel/forGoParallel/speculative"
	"pgregory.net/rapid"
)

// ---- C35: operations in functions of operations ---------------------------------

// Prog is a tree of operations: the functions of an operation run the kids.
type Prog struct {
	Op    string   `json:"op"`
	N     int      `json:"n,omitempty"`     // functions, elements
	Batch int      `json:"batch,omitempty"` // number of batches
	Nodes []string `json:"nodes,omitempty"`
	Meet  bool     `json:"meet,omitempty"` // all functions wait for each other
	Err   int      `json:"err,omitempty"`  // pipeline: element whose receiver calls SetErr, plus one
	Ctx   bool     `json:"ctx,omitempty"`  // pipeline: RunWithContext with a context derived from that of the enclosing one
	Seed  uint64   `json:"seed,omitempty"`
	Kids  []Prog   `json:"kids,omitempty"`
}

type nestRun struct {
	mu  sync.Mutex
	bad string
	m   gsync.Map[uint64, uint64]
	p   gsync.Pool[[]uint64]
	key atomic.Uint64
}

func (r *nestRun) fail(format string, args ...any) {
	r.mu.Lock()
	if r.bad == "" {
		r.bad = fmt.Sprintf(format, args...)
	}
	r.mu.Unlock()
}

// nestErr is the panic value of a program, identified by its seed.
type nestErr struct{ seed uint64 }

func (e *nestErr) Error() string { return fmt.Sprintf("%s %d", harnessPanicMark, e.seed) }

// at is the function or element that runs kid k.
func (p *Prog) at(k int) int { return int((p.Seed>>3 + uint64(k)*7) % uint64(max(1, p.N))) }

// want is the value of the program; found is the seed of its panic, or 0.
func (p *Prog) want() (v uint64, found uint64) {
	if p.Op == "panic" {
		return 0, p.Seed + 1
	}
	for i := range p.N {
		v += mix(p.Seed, uint64(i))
	}
	for k := range p.Kids {
		kv, kf := p.Kids[k].want()
		v += kv
		if kf != 0 {
			found = kf
		}
	}
	return
}

func (p *Prog) size() (n int) {
	n = 1
	for k := range p.Kids {
		n += p.Kids[k].size()
	}
	return
}

func (p *Prog) depth() (n int) {
	for k := range p.Kids {
		n = max(n, p.Kids[k].depth())
	}
	return n + 1
}

// eval runs the program in the calling goroutine.
func (p *Prog) eval(r *nestRun, ctx context.Context) (result uint64) {
	slots := make([]uint64, p.N+1) // plain memory: published by the operations
	var meet sync.WaitGroup
	if p.Meet {
		meet.Add(p.N)
	}
	work := func(i int) uint64 {
		v := mix(p.Seed, uint64(i))
		for k := range p.Kids {
			if p.at(k) == i {
				v += p.Kids[k].eval(r, ctx)
			}
		}
		if p.Meet {
			meet.Done()
			meet.Wait()
		} else if v%3 == 0 {
			runtime.Gosched()
		}
		slots[i] += v
		return v
	}
	batch := func(lo, hi int) (v uint64) {
		for i := lo; i < hi; i++ {
			v += work(i)
		}
		return
	}
	add := func(x, y uint64) uint64 { return x + y }
	sum := func() (v uint64) {
		for _, s := range slots {
			v += s
		}
		return
	}
	bools := func(b bool) []func() bool {
		return thunks(p.N, func(i int) func() bool { return func() bool { work(i); return b } })
	}
	boolf := func(b bool) func(lo, hi int) bool {
		return func(lo, hi int) bool { batch(lo, hi); return b }
	}
	is := func(got, want any) {
		if got != want {
			r.fail("%s returned %v instead of %v", p.Op, got, want)
		}
	}
	vals := thunks(p.N, func(i int) func() uint64 { return func() uint64 { return work(i) } })
	svals := thunks(p.N, func(i int) func() (uint64, bool) { return func() (uint64, bool) { return work(i), false } })
	switch p.Op {
	case "panic":
		panic(&nestErr{p.Seed})
	case "par.Do":
		parallel.Do(thunks(p.N, func(i int) func() { return func() { work(i) } })...)
	case "par.And":
		is(parallel.And(bools(true)...), true)
	case "par.Or":
		is(parallel.Or(bools(false)...), false)
	case "par.ReduceSum":
		is(parallel.ReduceSum(vals...), sum())
	case "par.Reduce":
		is(parallel.Reduce(add, vals[0], vals[1:]...), sum())
	case "par.ReduceProduct":
		parallel.ReduceProduct(vals...)
	case "par.Range":
		parallel.Range(0, p.N, p.Batch, func(lo, hi int) { batch(lo, hi) })
	case "par.RangeAnd":
		is(parallel.RangeAnd(0, p.N, p.Batch, boolf(true)), true)
	case "par.RangeOr":
		is(parallel.RangeOr(0, p.N, p.Batch, boolf(false)), false)
	case "par.RangeReduceSum":
		is(parallel.RangeReduceSum(0, p.N, p.Batch, batch), sum())
	case "par.RangeReduceProduct":
		parallel.RangeReduceProduct(0, p.N, p.Batch, batch)
	case "par.RangeReduce":
		is(parallel.RangeReduce(0, p.N, p.Batch, batch, add), sum())
	case "spec.Do":
		is(speculative.Do(bools(false)...), false)
	case "spec.And":
		is(speculative.And(bools(true)...), true)
	case "spec.Or":
		is(speculative.Or(bools(false)...), false)
	case "spec.Range":
		is(speculative.Range(0, p.N, p.Batch, boolf(false)), false)
	case "spec.RangeAnd":
		is(speculative.RangeAnd(0, p.N, p.Batch, boolf(true)), true)
	case "spec.RangeOr":
		is(speculative.RangeOr(0, p.N, p.Batch, boolf(false)), false)
	case "spec.Reduce":
		v, _ := speculative.Reduce(func(x, y uint64) (uint64, bool) { return x + y, false }, svals[0], svals[1:]...)
		is(v, sum())
	case "spec.RangeReduce":
		v, _ := speculative.RangeReduce(0, p.N, p.Batch, func(lo, hi int) (uint64, bool) { return batch(lo, hi), false }, func(x, y uint64) (uint64, bool) { return x + y, false })
		is(v, sum())
	case "par.PrefixSum":
		a := make([]uint64, p.N)
		for i := range a {
			a[i] = work(i)
		}
		for i, v := range parallel.PrefixSum(a) {
			if i == p.N-1 {
				is(v, sum())
			}
		}
	case "psort.StableSort":
		// the parts that are sorted sequentially run the kids
		n := 0x3000 + int(p.Seed%0x9100)
		d := &nestSorter{recSorter: recSorter{a: (&SortCase{Len: n, Pattern: "few", K: 9, Seed: p.Seed}).recs()}}
		d.seq = func(i, j int) {
			for k := range p.N {
				if x := k * (n / p.N); i <= x && x < j {
					work(k)
				}
			}
		}
		psort.StableSort(d)
		if !slices.IsSortedFunc(d.a, func(x, y rec) int {
			if x.key != y.key {
				return x.key - y.key
			}
			return x.id - y.id
		}) {
			r.fail("StableSort: the result is not in stable sorted order")
		}
	case "psort.Sort":
		batch(0, p.N)
		a := (&SortCase{Len: 3000, Pattern: "random", Seed: p.Seed}).ints()
		b := slices.Clone(a)
		psort.Sort(psort.IntSlice(a))
		slices.Sort(b)
		if !slices.Equal(a, b) || !psort.IntsAreSorted(a) {
			r.fail("Sort: the result is not sorted")
		}
	case "psort.IsSorted":
		batch(0, p.N)
		// collections of which some are sorted, tested at the same time
		var wg sync.WaitGroup
		for g := range 1 + p.Seed>>4%4 {
			h := mix(p.Seed, g)
			n := []int{600, 4000, 20000, 50000}[h%4]
			sorted := h>>2%2 == 0
			a := make([]int, n)
			for i := range a {
				a[i] = i
			}
			if !sorted {
				a[h>>3%uint64(n-1)+1] = -1
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for range 1 + h>>40%4 {
					if psort.IntsAreSorted(a) != sorted {
						r.fail("IsSorted: the result is %v", !sorted)
					}
				}
			}()
		}
		wg.Wait()
	case "gsync":
		batch(0, p.N)
		key := r.key.Add(1) // nobody else uses it
		r.m.Store(key, sum())
		x := r.p.Get()
		if x == nil {
			x = new([]uint64)
		}
		*x = append((*x)[:0], slots...)
		runtime.Gosched()
		if v, ok := r.m.LoadAndDelete(key); !ok || v != sum() || !slices.Equal(*x, slots) {
			r.fail("a map entry or pooled object that nobody else uses has changed")
		}
		r.p.Put(x)
	case "pipe":
		p.pipe(r, &ctx, work)
	default:
		panic("harness: unknown operation " + p.Op)
	}
	return sum()
}

type nestSorter struct {
	recSorter
	seq func(i, j int)
}

func (s *nestSorter) SequentialSort(i, j int) {
	s.seq(i, j)
	s.recSorter.SequentialSort(i, j)
}
func (s *nestSorter) Assign(source psort.StableSorter) func(i, j, n int) {
	return s.recSorter.Assign(source)
}
func (s *nestSorter) NewTemp() psort.StableSorter {
	return &nestTemp{recSorter{a: make([]rec, len(s.a))}}
}

type nestTemp struct{ recSorter }

func (s *nestTemp) Assign(source psort.StableSorter) func(i, j, n int) {
	return s.recSorter.Assign(source)
}

func (p *Prog) pipe(r *nestRun, ctx *context.Context, work func(i int) uint64) {
	src := make([]int, p.N)
	for i := range src {
		src[i] = i
	}
	pl := pipeline.New[[]int](pipeline.NewSlice(src))
	pl.NofBatches(p.Batch)
	setErr := errors.New("set by a receiver")
	setDone := make(chan struct{})
	var mu sync.Mutex
	done := make([]bool, p.N)
	doWork := func(_ int, data []int) []int {
		for _, i := range data {
			if p.Err > 0 {
				// receivers may still be running when Run has returned
				if p.Err == i+1 {
					pl.SetErr(setErr)
					close(setDone)
				}
				continue
			}
			work(i)
			mu.Lock()
			if done[i] {
				r.fail("pipeline: element %d was processed twice", i)
			}
			done[i] = true
			mu.Unlock()
		}
		return data
	}
	var got []int
	var nodes []pipeline.Node[[]int]
	for ni, k := range p.Nodes {
		f := pipeline.Receive(func(_ int, data []int) []int { runtime.Gosched(); return data })
		if ni == int(p.Seed)%len(p.Nodes) {
			f = pipeline.Receive(doWork)
		}
		switch k {
		case "Par":
			nodes = append(nodes, pipeline.Par(f))
		case "LimitedPar":
			nodes = append(nodes, pipeline.LimitedPar(f))
		case "Seq":
			nodes = append(nodes, pipeline.Seq(f))
		case "Ord":
			nodes = append(nodes, pipeline.Ord(f))
		default:
			nodes = append(nodes, pipeline.StrictOrd(f))
		}
	}
	pl.Add(nodes...)
	pl.Add(pipeline.Ord(pipeline.Append(&got)))
	// the error of this pipeline is passed on to others, which are not running
	others := [2]*pipeline.Pipeline[[]int]{pipeline.New[[]int](pipeline.NewSlice(src)), pipeline.New[[]int](pipeline.NewSlice(src))}
	if p.Ctx {
		c, cancel := context.WithCancel(*ctx)
		if p.Err == 0 {
			*ctx = c // for the kids
		}
		pl.RunWithContext(c, func() {
			if p.Err > 0 {
				for _, o := range others {
					o.SetErr(pl.Err())
				}
			}
			cancel()
		})
		cancel()
	} else {
		pl.Run()
	}
	if p.Err > 0 {
		if pl.Err() != setErr {
			r.fail("pipeline: a receiver called SetErr, but Err is %v", pl.Err())
		} else {
			<-setDone // Run may return before SetErr does
		}
		if p.Ctx && (others[0].Err() != setErr || others[1].Err() != setErr) {
			r.fail("pipeline: the cancel function called SetErr of two other pipelines, but Err is %v and %v", others[0].Err(), others[1].Err())
		}
		for i := range src {
			work(i)
		}
		return
	}
	if err := pl.Err(); err != nil {
		r.fail("pipeline: Err is %v although nothing set an error", err)
	}
	if !reflect.DeepEqual(got, src) && len(src) > 0 {
		r.fail("pipeline: %v arrived instead of the numbers below %d", got, p.N)
	}
}

func genProg(t *rapid.T, depth int, canPanic, canPar bool) Prog {
	ops := cat(parThunkOps, parRangeOps, specOps)
	p := Prog{Seed: uint64(rapid.IntRange(0, 1<<20).Draw(t, "seed"))}
	switch rapid.IntRange(0, 9).Draw(t, "kind") {
	case 0, 1, 2:
		p.Op = "pipe"
		p.Nodes = rapid.SliceOfN(rapid.SampledFrom([]string{"Par", "LimitedPar", "LimitedPar", "Seq", "Ord", "StrictOrd"}), 1, 4).Draw(t, "nodes")
		canPanic = false
	case 3:
		p.Op = rapid.SampledFrom([]string{"psort.StableSort", "psort.Sort", "psort.IsSorted", "gsync", "par.PrefixSum"}).Draw(t, "op")
	default:
		p.Op = rapid.SampledFrom(ops).Draw(t, "op")
	}
	p.N = rapid.IntRange(1, 10).Draw(t, "n")
	if rapid.Bool().Draw(t, "allbatches") {
		p.Batch = p.N
	} else {
		p.Batch = rapid.IntRange(0, p.N).Draw(t, "batch")
	}
	if p.Op == "pipe" {
		p.Batch = max(1, p.Batch)
		if depth < 4 && rapid.IntRange(0, 5).Draw(t, "err") == 0 {
			p.Err = rapid.IntRange(1, p.N).Draw(t, "errat")
		}
		p.Ctx = rapid.Bool().Draw(t, "ctx")
	}
	c := OpCase{Op: p.Op}
	if strings.HasPrefix(p.Op, "par.") && p.Op != "par.PrefixSum" || c.isSpec() {
		if (!c.isRange() || p.Batch == p.N) && rapid.IntRange(0, 2).Draw(t, "meet") == 0 {
			p.Meet = true
		}
	}
	if depth > 0 {
		kids := rapid.IntRange(0, 3).Draw(t, "kids")
		if depth >= 4 && kids == 0 {
			kids = 1
		}
		for range kids {
			if canPanic && !p.Meet && rapid.IntRange(0, 9).Draw(t, "panic") == 0 {
				canPanic = false
				p.Kids = append(p.Kids, Prog{Op: "panic", Seed: uint64(rapid.IntRange(0, 1000).Draw(t, "seed"))})
				continue
			}
			k := genProg(t, depth-1, canPanic && !p.Meet, canPar)
			if _, f := k.want(); f != 0 {
				canPanic = false
			}
			p.Kids = append(p.Kids, k)
		}
	}
	return p
}

func genC35(t *rapid.T, cfg *Cfg) Prog {
	return genProg(t, rapid.IntRange(1, 4).Draw(t, "depth"), true, true)
}

func runC35(x *X, p Prog) error {
	r := &nestRun{}
	want, found := p.want()
	var got uint64
	out := supervise(func() { got = p.eval(r, context.Background()) })
	if err := out.hang(); err != nil {
		return err
	}
	if _, err := (&Sched{}).Drain(); err != nil {
		return err
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.bad != "" {
		return errors.New(r.bad)
	}
	x.Label("depth %d", p.depth())
	x.trivial = p.depth() < 2
	x.obs = fmt.Sprintf("%d operations", p.size())
	if found != 0 {
		x.Label("with a panic")
		var ne *nestErr
		err, ok := out.Panic.(error)
		if !out.Panicked || !ok || !errors.As(err, &ne) || ne.seed+1 != found {
			return fmt.Errorf("a function in the tree panicked with the error %d, but the outermost operation ended with panicked=%v value %s", found-1, out.Panicked, trunc(fmt.Sprint(out.Panic), 500))
		}
		return nil
	}
	if out.Panicked {
		return fmt.Errorf("panic: %s", trunc(fmt.Sprint(out.Panic), 1000))
	}
	if got != want {
		return fmt.Errorf("the tree of operations has the value %d instead of %d", got, want)
	}
	return nil
}

func init() {
	define("C35", "non-trivial: at least one operation is called by a function of another one",
		[]Cfg{{Name: "all-cpus", Quick: 500}, {Name: "1cpu", CPUs: 1, Quick: 200}, {Name: "2cpus", CPUs: 2, Quick: 250}, {Name: "procs1", Procs: 1, Quick: 200}, {Name: "race", Race: true, Quick: 100}}, genC35, runC35)
}
