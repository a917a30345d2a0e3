package main

import (
	"fmt"
	"runtime"
	"slices"
	"strings"
	"sync/atomic"

	"github.com/intel/forGoParallel/psort"
	"pgregory.net/rapid"
)

// ---- C34: panics of the collection --------------------------------------------

// SortPanic says where a method of the collection panics.
type SortPanic struct {
	Where string `json:"where"` // lessid, less, swap, seq, assign, newtemp, assignfn
	Pos   int    `json:"pos"`   // index, or for lessid identity of an element
	Skip  int    `json:"skip,omitempty"`
	Kind  string `json:"kind"`
}

// SortPanicCase is a sort of a collection some methods of which panic.
type SortPanicCase struct {
	S      SortCase    `json:"s"`
	Panics []SortPanic `json:"panics"`
	Sched  []byte      `json:"sched,omitempty"`
	Free   bool        `json:"free,omitempty"`
}

type panicSorter struct {
	a   []rec
	arr int
	st  *panicState
}

type panicState struct {
	c       *SortPanicCase
	e       *Env
	s       *Sched
	left    []atomic.Int32
	entered atomic.Int32
	exited  atomic.Int32
	gates   atomic.Int32
	plain   bool
	byMeth  map[string][]int // method -> indices of c.Panics
}

func (st *panicState) enter() func() {
	if st.plain {
		return noop
	}
	st.entered.Add(1)
	return func() { st.exited.Add(1) }
}

func (st *panicState) gate(what, lo, hi, arr int) {
	if st.c.Free || st.gates.Load() > 60 {
		return
	}
	st.gates.Add(1)
	st.s.Gate(Key{what, lo, hi, arr})
}

// hit panics if one of the case's panics is due.
func (st *panicState) hit(where string, match func(p *SortPanic) bool) {
	for _, i := range st.byMeth[where] {
		p := &st.c.Panics[i]
		if match(p) && st.left[i].Add(-1) < 0 {
			st.gate(9, p.Pos, i, 0)
			if st.c.Free {
				runtime.Gosched()
			}
			st.e.throw(p.Pos, p.Pos+i+1, p.Kind, where)
		}
	}
}

func (s *panicSorter) Len() int { return len(s.a) }
func (s *panicSorter) Less(i, j int) bool {
	st := s.st
	defer st.enter()()
	if len(st.byMeth["less"]) > 0 {
		st.hit("less", func(p *SortPanic) bool { return p.Pos == i || p.Pos == j })
	}
	if len(st.byMeth["lessid"]) > 0 {
		st.hit("lessid", func(p *SortPanic) bool { return p.Pos == s.a[i].id || p.Pos == s.a[j].id })
	}
	return s.a[i].key < s.a[j].key
}
func (s *panicSorter) Swap(i, j int) {
	defer s.st.enter()()
	s.st.hit("swap", func(p *SortPanic) bool { return p.Pos == i || p.Pos == j })
	s.a[i], s.a[j] = s.a[j], s.a[i]
}
func (s *panicSorter) SequentialSort(i, j int) {
	defer s.st.enter()()
	s.st.gate(1, i, j, s.arr)
	s.st.hit("seq", func(p *SortPanic) bool { return p.Pos >= i && p.Pos < j })
	slices.SortStableFunc(s.a[i:j], func(x, y rec) int { return x.key - y.key })
}
func (s *panicSorter) NewTemp() psort.StableSorter {
	defer s.st.enter()()
	s.st.gate(2, 0, 0, 0)
	s.st.hit("newtemp", func(p *SortPanic) bool { return true })
	return &panicSorter{a: make([]rec, len(s.a)), arr: s.arr + 1, st: s.st}
}
func (s *panicSorter) Assign(source psort.StableSorter) func(i, j, n int) {
	defer s.st.enter()()
	s.st.gate(3, s.arr, 0, 0)
	s.st.hit("assignfn", func(p *SortPanic) bool { return p.Pos%2 == s.arr%2 })
	src := source.(*panicSorter)
	return func(i, j, n int) {
		defer s.st.enter()()
		s.st.hit("assign", func(p *SortPanic) bool { return p.Pos >= i && p.Pos < i+n })
		copy(s.a[i:i+n], src.a[j:j+n])
	}
}

func genC34(t *rapid.T, cfg *Cfg) SortPanicCase {
	var c SortPanicCase
	c.S = genSort(t, cfg, []string{"Sort", "StableSort", "StableSort", "IsSorted"}, []string{"rec"})
	where := []string{"lessid", "less", "swap", "seq"}
	switch c.S.Op {
	case "StableSort":
		where = []string{"lessid", "less", "seq", "seq", "assign", "assign", "newtemp", "assignfn"}
	case "IsSorted":
		where = []string{"lessid", "less"}
		if rapid.IntRange(0, 3).Draw(t, "srt") > 0 {
			c.S.Pattern = "sorted"
		}
	}
	for range rapid.IntRange(1, 3).Draw(t, "npanics") {
		p := SortPanic{Where: rapid.SampledFrom(where).Draw(t, "where"), Kind: rapid.SampledFrom(panicKinds).Draw(t, "kind")}
		if c.S.Len > 0 {
			p.Pos = rapid.IntRange(0, c.S.Len-1).Draw(t, "pos")
		}
		if rapid.IntRange(0, 2).Draw(t, "later") == 0 {
			p.Skip = rapid.IntRange(1, 6).Draw(t, "skip")
		}
		c.Panics = append(c.Panics, p)
	}
	c.Free = cfg.Race || rapid.IntRange(0, 2).Draw(t, "free") == 0
	if !c.Free {
		c.Sched = genSched(t)
	}
	return c
}

func runC34(x *X, c SortPanicCase) error {
	e := newEnv(&OpCase{Seed: c.S.Seed, Free: true})
	s := &Sched{}
	s.free.Store(c.Free)
	st := &panicState{c: &c, e: e, s: s, left: make([]atomic.Int32, len(c.Panics)), plain: x.cfg.Race, byMeth: map[string][]int{}}
	for i, p := range c.Panics {
		st.left[i].Store(int32(p.Skip))
		st.byMeth[p.Where] = append(st.byMeth[p.Where], i)
	}
	d := &panicSorter{a: c.S.recs(), st: st}
	var entered, exited int32
	out := s.Run(func() {
		defer func() {
			entered, exited = st.entered.Load(), st.exited.Load()
			if x.cfg.Race {
				// races with anything that is still running
				for i := range d.a {
					d.a[i].key ^= 1 << 40
				}
				for i := range d.a {
					d.a[i].key ^= 1 << 40
				}
			}
		}()
		sortOp(c.S.Op, d, d)
	}, c.Sched)
	defer s.Open()
	if err := out.hang(); err != nil {
		return err
	}
	evs := e.evs()
	if _, err := s.Drain(); err != nil {
		return err
	}
	name := fmt.Sprintf("psort.%s of %d elements (%s)", c.S.Op, c.S.Len, c.S.Pattern)
	if entered != exited {
		return fmt.Errorf("%s ended (by panic: %v) while %d methods of the collection were still running", name, out.Panicked, entered-exited)
	}
	if n := st.entered.Load(); n != entered {
		return fmt.Errorf("%s ended (by panic: %v), but used the collection %d times afterwards", name, out.Panicked, n-entered)
	}
	x.trivial = len(evs) == 0
	x.Label("%s", c.S.Op)
	x.obs = fmt.Sprintf("%d panics, panicked %v", len(evs), out.Panicked)
	for _, p := range c.Panics {
		if len(evs) > 0 {
			x.Label("panic in %s", p.Where)
		}
	}
	perm := slices.Clone(d.a)
	slices.SortFunc(perm, func(x, y rec) int { return x.id - y.id })
	isPerm := slices.Equal(perm, c.S.recs())
	if len(evs) == 0 {
		x.Label("no panic")
		if out.Panicked {
			return fmt.Errorf("%s panicked although the collection did not: %s", name, trunc(fmt.Sprint(out.Panic), 1000))
		}
		if !isPerm || c.S.Op != "IsSorted" && !slices.IsSortedFunc(d.a, func(x, y rec) int { return x.key - y.key }) {
			return fmt.Errorf("%s: the result is not a sorted permutation", name)
		}
		return nil
	}
	if !out.Panicked {
		return fmt.Errorf("%s returned normally although a method of the collection panicked with %v", name, evs[0].val)
	}
	var errs []string
	for _, ev := range evs {
		err := delivered(ev, out.Panic)
		if err == nil {
			errs = nil
			break
		}
		errs = append(errs, err.Error())
	}
	if len(errs) > 0 {
		return fmt.Errorf("%s: the panic is none of those of the collection: %s", name, trunc(strings.Join(errs, "; "), 1500))
	}
	if !isPerm && c.S.Op != "StableSort" {
		return fmt.Errorf("%s: after the panic the collection is no longer a permutation of its elements", name)
	}
	return nil
}

func init() {
	define("C34", "non-trivial: at least one method of the collection has panicked",
		[]Cfg{{Name: "all-cpus", Quick: 500}, {Name: "1cpu", CPUs: 1, Quick: 150}, {Name: "procs2", Procs: 2, Quick: 200}, {Name: "race", Race: true, Quick: 60}}, genC34, runC34)
}
