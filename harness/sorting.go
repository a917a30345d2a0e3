package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"math/rand/v2"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"

	"github.com/intel/forGoParallel/psort"
	"pgregory.net/rapid"
)

// SortCase describes one collection; its contents follow from the fields.
type SortCase struct {
	Op      string `json:"op"`
	Typ     string `json:"typ"`
	Len     int    `json:"len"`
	Pattern string `json:"pattern"`
	K       int    `json:"k"` // parameter of the pattern
	Seed    uint64 `json:"seed"`
	Special bool   `json:"special,omitempty"` // NaN, infinities, signed zeros / empty and long strings
	Pos     []int  `json:"pos,omitempty"`
	Hold    []int  `json:"hold,omitempty"`
	Sched   []byte `json:"sched,omitempty"`
	Sweep   bool   `json:"sweep,omitempty"`
	Cover   bool   `json:"cover,omitempty"` // look for neighbours that are never compared
	Twins   int    `json:"twins,omitempty"` // so many other collections are sorted at the same time

	made []int // the keys, where they were found by an adversary
}

var sortPatterns = []string{"random", "few", "sorted", "reversed", "nearly", "organ", "sawtooth", "equal", "prefix", "tail", "blocks", "twins", "push", "adjacent", "rotated", "halves"}

// genKeys produces the integer keys behind a collection.
func (c *SortCase) keys() []int {
	if c.made != nil {
		return slices.Clone(c.made)
	}
	r := rand.New(rand.NewPCG(c.Seed, uint64(c.K)))
	n := c.Len
	a := make([]int, n)
	k := max(1, c.K)
	for i := range a {
		switch c.Pattern {
		case "few":
			a[i] = r.IntN(1 + k%17)
		case "sorted", "nearly", "tail", "prefix":
			a[i] = i / (1 + k%4)
		case "reversed":
			a[i] = (n - i) / (1 + k%3)
		case "organ":
			a[i] = min(i, n-1-i)
		case "sawtooth":
			a[i] = i % (1 + k)
		case "equal":
			a[i] = 7
		case "blocks":
			a[i] = (i / (1 + k)) * 7919 % 101
		case "twins":
			a[i] = r.IntN(n/2 + 1)
		case "adjacent":
			a[i] = i
		case "rotated":
			a[i] = (i + k*37) % n
		case "halves": // two sorted halves
			a[i] = i % ((n + 1) / 2)
		case "push": // sorted, smallest last
			a[i] = i + 1
			if i == n-1 {
				a[i] = 0
			}
		default:
			a[i] = r.IntN(1<<40) - 1<<39
		}
	}
	switch c.Pattern {
	case "nearly":
		if n > 0 {
			for range 1 + k%9 {
				i, j := r.IntN(n), r.IntN(n)
				a[i], a[j] = a[j], a[i]
			}
		}
	case "adjacent":
		if n > 1 {
			for range 1 + k%5 {
				i := r.IntN(n - 1)
				a[i], a[i+1] = a[i+1], a[i]
			}
		}
	case "tail":
		for i := max(0, n-1-k%30); i < n; i++ {
			a[i] = r.IntN(n)
		}
	case "prefix":
		for i := min(n, 8+k%40); i < n; i++ {
			a[i] = r.IntN(n + 1)
		}
	}
	return a
}

func toFloat(k int, special bool, r *rand.Rand) float64 {
	if special {
		switch r.IntN(12) {
		case 0:
			return math.Float64frombits(0x7ff8000000000001 + uint64(r.IntN(1000))<<1 + uint64(r.IntN(2))<<63) // NaNs with sign and payload
		case 1:
			return math.Inf(1)
		case 2:
			return math.Inf(-1)
		case 3:
			return 0
		case 4:
			return math.Copysign(0, -1)
		case 5:
			// neighbours, subnormal and huge numbers
			return []float64{math.Nextafter(float64(k)/4, 1e9), math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.MaxFloat64, -math.MaxFloat64}[r.IntN(5)]
		}
	}
	return float64(k) / 4
}

func toString(k int, special bool, r *rand.Rand) string {
	if special && r.IntN(10) == 0 {
		return []string{"", "\x00", "\xff\xfe", "é", string(bytes.Repeat([]byte("a"), 70))}[r.IntN(5)]
	}
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], uint64(k)^(1<<63))
	return "k" + string(b[2:]) + strconv.Itoa(0)
}

func (c *SortCase) ints() []int { return c.keys() }
func (c *SortCase) floats() []float64 {
	r := rand.New(rand.NewPCG(c.Seed, 99))
	ks := c.keys()
	f := make([]float64, len(ks))
	for i, k := range ks {
		f[i] = toFloat(k, c.Special, r)
	}
	return f
}
func (c *SortCase) strings() []string {
	r := rand.New(rand.NewPCG(c.Seed, 98))
	ks := c.keys()
	f := make([]string, len(ks))
	for i, k := range ks {
		f[i] = toString(k, c.Special, r)
	}
	return f
}

// rec is an element with an identity that Less does not look at.
type rec struct{ key, id int }

func (c *SortCase) recs() []rec {
	ks := c.keys()
	f := make([]rec, len(ks))
	for i, k := range ks {
		f[i] = rec{k, i}
	}
	return f
}

// recSorter is a user-defined collection; desc reverses its order.
type recSorter struct {
	a    []rec
	desc bool
	x    *tracker
	arr  int
}

func (s *recSorter) less(x, y rec) bool {
	if s.desc {
		return x.key > y.key
	}
	return x.key < y.key
}
func (s *recSorter) SequentialSort(i, j int) {
	if s.x != nil {
		defer s.x.enter(s.arr, true, [2]int{i, j})()
	}
	b := s.a[i:j]
	slices.SortStableFunc(b, func(x, y rec) int {
		if s.less(x, y) {
			return -1
		}
		if s.less(y, x) {
			return 1
		}
		return 0
	})
}
func (s *recSorter) Len() int { return len(s.a) }
func (s *recSorter) Less(i, j int) bool {
	if s.x != nil {
		defer s.x.enter(s.arr, false, [2]int{i, i + 1}, [2]int{j, j + 1})()
	}
	return s.less(s.a[i], s.a[j])
}
func (s *recSorter) Swap(i, j int) {
	if s.x != nil {
		defer s.x.enter(s.arr, true, [2]int{i, i + 1}, [2]int{j, j + 1})()
	}
	s.a[i], s.a[j] = s.a[j], s.a[i]
}
func (s *recSorter) NewTemp() psort.StableSorter {
	if s.x != nil {
		s.x.temp()
	}
	return &recSorter{a: make([]rec, len(s.a)), desc: s.desc, x: s.x, arr: s.arr + 1}
}
func (s *recSorter) Assign(source psort.StableSorter) func(i, j, n int) {
	src := baseOf(source)
	return func(i, j, n int) {
		if s.x != nil {
			defer s.x.enter(s.arr, true, [2]int{i, i + n})()
			defer s.x.enter(src.arr, false, [2]int{j, j + n})()
		}
		copy(s.a[i:i+n], src.a[j:j+n])
	}
}

func (s *recSorter) base() *recSorter { return s }

// baseOf returns the recSorter in a collection that embeds one.
func baseOf(s psort.StableSorter) *recSorter { return s.(interface{ base() *recSorter }).base() }

// ---- generators ---------------------------------------------------------------

func genLen(t *rapid.T, op, mode string) int {
	q := []int{0x500}
	if op == "StableSort" {
		q = []int{0x3000, 0x3000, 0x3000 * 4}
		if mode == "big" {
			q = []int{0x3000 * 16, 0x3000 * 5}
		}
	}
	g := rapid.SampledFrom(q).Draw(t, "grain")
	if op == "Sort" && mode == "big" {
		return rapid.SampledFrom([]int{1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 18}).Draw(t, "bigpow") + rapid.IntRange(-5, 3000).Draw(t, "d")
	}
	switch rapid.IntRange(0, 9).Draw(t, "lenkind") {
	case 0:
		return rapid.IntRange(0, 30).Draw(t, "len")
	case 1, 2:
		return g + rapid.IntRange(-3, 14).Draw(t, "d")
	case 3, 4:
		return 2*g + rapid.IntRange(-3, 25).Draw(t, "d")
	case 5:
		return rapid.IntRange(3, 4).Draw(t, "mul")*g + rapid.IntRange(-3, 45).Draw(t, "d")
	case 6, 7:
		return rapid.IntRange(g, 3*g).Draw(t, "len")
	case 8:
		return rapid.IntRange(0, g).Draw(t, "len")
	default:
		m := 12 * g
		if op == "StableSort" {
			m = 2 * g
		}
		return rapid.IntRange(g, m).Draw(t, "len")
	}
}

func genSort(t *rapid.T, cfg *Cfg, ops []string, typs []string) SortCase {
	c := SortCase{Op: rapid.SampledFrom(ops).Draw(t, "op"), Typ: rapid.SampledFrom(typs).Draw(t, "typ")}
	c.Pattern = rapid.SampledFrom(sortPatterns).Draw(t, "pattern")
	c.Len = genLen(t, c.Op, cfg.Mode)
	if c.Op == "Sort" && cfg.Mode == "" && rapid.IntRange(0, 19).Draw(t, "adversary") == 0 {
		c.Pattern, c.Len = "adversary", min(c.Len, 8000)
	}
	c.Seed = uint64(rapid.IntRange(0, 1<<20).Draw(t, "seed"))
	switch rapid.IntRange(0, 2).Draw(t, "kkind") {
	case 0:
		c.K = rapid.IntRange(0, 10).Draw(t, "k")
	case 1:
		c.K = rapid.IntRange(0, 2000).Draw(t, "k")
	default:
		c.K = rapid.SampledFrom([]int{255, 256, 511, 512, 1023, 1024, 1279, 1280}).Draw(t, "k")
	}
	c.Special = rapid.IntRange(0, 1).Draw(t, "special") == 1
	if cfg.Mode == "twins" {
		c.Twins = rapid.IntRange(1, 3).Draw(t, "twins")
	}
	return c
}

var sortTypes = []string{"ints", "floats", "strings", "rec", "recdesc"}

// ---- C10, C11 -----------------------------------------------------------------

// adversary is McIlroy's antiquicksort: a collection that decides the order of its
// elements only while they are compared, so that every pivot turns out to be a bad one.
// What it answers is consistent with the keys it has fixed in the end.
type adversary struct {
	mu                sync.Mutex
	elem              []int // the element at each position
	key               []int // of each element; gas while undecided
	gas, solid, maybe int
}

func newAdversary(n int, fixed ...int) *adversary {
	a := &adversary{elem: make([]int, n), key: make([]int, n), gas: n, maybe: -1}
	for i := range n {
		a.elem[i], a.key[i] = i, a.gas
	}
	for _, i := range fixed {
		if i >= 0 && i < n && a.key[i] == a.gas {
			a.key[i] = a.solid
			a.solid++
		}
	}
	return a
}

func (a *adversary) less(x, y int) bool {
	if a.key[x] == a.gas && a.key[y] == a.gas && x != y {
		if x == a.maybe {
			a.key[x] = a.solid
		} else {
			a.key[y] = a.solid
		}
		a.solid++
	}
	if a.key[x] == a.gas {
		a.maybe = x
	} else if a.key[y] == a.gas {
		a.maybe = y
	}
	return a.key[x] < a.key[y]
}

func (a *adversary) Len() int { return len(a.elem) }
func (a *adversary) Less(i, j int) bool {
	a.mu.Lock()
	defer a.mu.Unlock()
	return a.less(a.elem[i], a.elem[j])
}
func (a *adversary) Swap(i, j int) {
	a.mu.Lock()
	defer a.mu.Unlock()
	a.elem[i], a.elem[j] = a.elem[j], a.elem[i]
}
func (a *adversary) SequentialSort(i, j int) {
	a.mu.Lock()
	defer a.mu.Unlock()
	slices.SortStableFunc(a.elem[i:j], func(x, y int) int {
		switch {
		case a.less(x, y):
			return -1
		case a.less(y, x):
			return 1
		}
		return 0
	})
}

// resist sorts an adversary, judges the result, and keeps the keys it has settled on.
func (c *SortCase) resist() error {
	a := newAdversary(c.Len, 1, c.Len-1, c.Len/2, c.K%(c.Len+1))
	out := supervise(func() { psort.Sort(a) })
	if err := out.hang(); err != nil {
		return err
	}
	if out.Panicked {
		return fmt.Errorf("psort.Sort of an adversary of %d elements panicked: %s", c.Len, trunc(fmt.Sprint(out.Panic), 1500))
	}
	seen := make([]bool, c.Len)
	for i, e := range a.elem {
		if e < 0 || e >= c.Len || seen[e] {
			return fmt.Errorf("psort.Sort of an adversary of %d elements: the result is not a permutation (element %d)", c.Len, i)
		}
		seen[e] = true
		if i > 0 && a.key[e] < a.key[a.elem[i-1]] {
			return fmt.Errorf("psort.Sort of an adversary of %d elements: element %d is less than its predecessor (%d after %d)", c.Len, i, a.key[e], a.key[a.elem[i-1]])
		}
	}
	c.made = a.key
	return nil
}

func runSortCase(x *X, c SortCase) error {
	stable := c.Op == "StableSort"
	if c.Pattern == "adversary" {
		if err := c.resist(); err != nil {
			return err
		}
	}
	x.Label("%s %s", c.Typ, c.Pattern)
	x.trivial = c.Len < 0x500 || stable && c.Len < 0x3000
	call := func(d psort.Sorter, s psort.StableSorter) error {
		out := supervise(func() {
			if c.Twins > 0 {
				wait := c.twins()
				defer wait()
			}
			if stable {
				psort.StableSort(s)
			} else {
				psort.Sort(d)
			}
		})
		if err := out.hang(); err != nil {
			return err
		}
		if out.Panicked {
			return fmt.Errorf("psort.%s of %d %s (%s) panicked: %s", c.Op, c.Len, c.Typ, c.Pattern, trunc(fmt.Sprint(out.Panic), 1500))
		}
		return nil
	}
	diff := func(i int, got, want any) error {
		return fmt.Errorf("psort.%s of %d %s (%s): element %d is %v, want %v", c.Op, c.Len, c.Typ, c.Pattern, i, got, want)
	}
	switch c.Typ {
	case "ints":
		a := c.ints()
		want := slices.Clone(a)
		sort.Ints(want)
		d := psort.IntSlice(a)
		if err := call(d, d); err != nil {
			return err
		}
		for i := range want {
			if a[i] != want[i] {
				return diff(i, a[i], want[i])
			}
		}
	case "strings":
		a := c.strings()
		want := slices.Clone(a)
		sort.Strings(want)
		d := psort.StringSlice(a)
		if err := call(d, d); err != nil {
			return err
		}
		for i := range want {
			if a[i] != want[i] {
				return diff(i, a[i], want[i])
			}
		}
	case "floats":
		a := c.floats()
		want := slices.Clone(a)
		sort.Stable(sort.Float64Slice(want))
		d := psort.Float64Slice(a)
		if err := call(d, d); err != nil {
			return err
		}
		if !stable {
			// equal elements may be in any order: NaNs, and the two zeros
			f := sort.Float64Slice(a)
			for i := 1; i < len(a); i++ {
				if f.Less(i, i-1) {
					return fmt.Errorf("psort.Sort of %d floats (%s): element %d (%v) is less than its predecessor %v", c.Len, c.Pattern, i, a[i], a[i-1])
				}
			}
			canon := func(v []float64) []uint64 {
				r := make([]uint64, len(v))
				for i, x := range v {
					r[i] = math.Float64bits(x)
				}
				slices.Sort(r)
				return r
			}
			g, w := canon(a), canon(want)
			for i := range w {
				if g[i] != w[i] {
					return fmt.Errorf("psort.Sort of %d floats (%s): the result is not a permutation of the input", c.Len, c.Pattern)
				}
			}
			return nil
		}
		for i := range want {
			if math.Float64bits(a[i]) != math.Float64bits(want[i]) {
				return diff(i, a[i], want[i])
			}
		}
	default:
		a := c.recs()
		want := slices.Clone(a)
		d := &recSorter{a: a, desc: c.Typ == "recdesc"}
		(&recSorter{a: want, desc: d.desc}).SequentialSort(0, len(want))
		if err := call(d, d); err != nil {
			return err
		}
		seen := make([]bool, len(a))
		for i := range want {
			if a[i].id < 0 || a[i].id >= len(seen) || seen[a[i].id] {
				return fmt.Errorf("psort.%s of %d elements (%s): the result is not a permutation of the input (element %d: %v)", c.Op, c.Len, c.Pattern, i, a[i])
			}
			seen[a[i].id] = true
			if a[i].key != want[i].key || stable && a[i].id != want[i].id {
				return diff(i, a[i], want[i])
			}
		}
	}
	return nil
}

// twins works on further collections of the same type.
func (c *SortCase) twins() (wait func()) {
	var wg sync.WaitGroup
	for i := range c.Twins {
		sub := *c
		sub.Seed += uint64(i) + 1
		var d psort.StableSorter
		switch c.Typ {
		case "ints":
			d = psort.IntSlice(sub.ints())
		case "floats":
			d = psort.Float64Slice(sub.floats())
		case "strings":
			d = psort.StringSlice(sub.strings())
		default:
			d = &recSorter{a: sub.recs(), desc: c.Typ == "recdesc"}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			sortOp(c.Op, d.(psort.Sorter), d)
		}()
	}
	return wg.Wait
}

// ---- C12 ----------------------------------------------------------------------

func genC12(t *rapid.T, cfg *Cfg) SortCase {
	c := genSort(t, cfg, []string{"IsSorted"}, []string{"ints", "floats", "strings", "rec", "recdesc", "iface"})
	if cfg.Mode == "cover" {
		c.Len = 1<<rapid.IntRange(10, 19).Draw(t, "pow") + rapid.IntRange(-3, 3).Draw(t, "d")
		if rapid.IntRange(0, 3).Draw(t, "any") > 0 {
			c.Len = rapid.IntRange(1<<10, 1<<rapid.IntRange(11, 19).Draw(t, "pow")).Draw(t, "len")
		}
		c.Pattern, c.Special, c.Cover = "sorted", false, true
		return c
	}
	if cfg.Mode == "big" {
		c.Len = 1<<rapid.IntRange(13, 19).Draw(t, "pow") + rapid.IntRange(-3, 3).Draw(t, "d")
		if rapid.Bool().Draw(t, "any") {
			c.Len = rapid.IntRange(0x500*10, 1<<19).Draw(t, "len")
		}
		c.Pattern, c.Special = "sorted", false
		switch rapid.IntRange(0, 3).Draw(t, "where") {
		case 1:
			c.Pos = []int{rapid.IntRange(1, c.Len-1).Draw(t, "pos")}
		case 3: // at the ends
			c.Pos = []int{c.Len - 1 - rapid.IntRange(0, 15).Draw(t, "pos")}
			if rapid.IntRange(0, 3).Draw(t, "start") == 3 {
				c.Pos = []int{rapid.IntRange(1, 25).Draw(t, "pos")}
			}
		case 2: // between two batches
			k := rapid.IntRange(1, 63).Draw(t, "k")
			c.Pos = []int{min(c.Len-1, max(1, int(int64(c.Len)*int64(k)/64)+rapid.IntRange(-1, 1).Draw(t, "d")))}
		}
		return c
	}
	switch rapid.IntRange(0, 3).Draw(t, "mode") {
	case 0: // arbitrary data
	case 1: // every single inversion
		c.Sweep = true
		c.Pattern, c.Special = "sorted", false
		c.Len = min(c.Len, 4000)
	default: // sorted with a few exceptions
		c.Pattern, c.Special = "sorted", c.Special && rapid.IntRange(0, 3).Draw(t, "sp") == 0
		n := rapid.IntRange(0, 3).Draw(t, "npos")
		for range n {
			if c.Len > 1 {
				c.Pos = append(c.Pos, rapid.IntRange(1, c.Len-1).Draw(t, "pos"))
			}
		}
	}
	return c
}

// pairs records which neighbours are compared.
type pairs struct {
	a    []int
	seen []uint32
}

func (p *pairs) Len() int      { return len(p.a) }
func (p *pairs) Swap(i, j int) { p.a[i], p.a[j] = p.a[j], p.a[i] }
func (p *pairs) Less(i, j int) bool {
	if d := i - j; d == 1 || d == -1 {
		atomic.StoreUint32(&p.seen[max(i, j)], 1)
	}
	return p.a[i] < p.a[j]
}

// cover looks for neighbours that are not compared in a sorted collection of
// distinct elements: when they are exchanged, all other comparisons have the same
// results, so the collection seems to be sorted, but is not. These collections are
// then tested.
func (c SortCase) cover(x *X) error {
	x.Label("search for neighbours that are not compared")
	p := &pairs{a: make([]int, c.Len), seen: make([]uint32, c.Len)}
	for i := range p.a {
		p.a[i] = i
	}
	var got bool
	test := func(f func() bool) error {
		out := supervise(func() { got = f() })
		if err := out.hang(); err != nil {
			return err
		}
		if out.Panicked {
			return fmt.Errorf("sortedness test of %d elements panicked: %s", c.Len, trunc(fmt.Sprint(out.Panic), 1000))
		}
		return nil
	}
	if err := test(func() bool { return psort.IsSorted(p) }); err != nil {
		return err
	}
	if !got {
		return fmt.Errorf("sortedness test of %d sorted elements returned false", c.Len)
	}
	var missing []int
	for i := 1; i < c.Len; i++ {
		if atomic.LoadUint32(&p.seen[i]) == 0 {
			missing = append(missing, i)
		}
	}
	x.obs = fmt.Sprintf("%d of %d pairs of neighbours not compared", len(missing), c.Len-1)
	if len(missing) > 40 {
		missing = append(missing[:20:20], missing[len(missing)-20:]...)
	}
	for _, i := range missing {
		for _, typed := range []bool{false, true} {
			p.Swap(i-1, i)
			err := test(func() bool {
				if typed {
					return psort.IntsAreSorted(p.a)
				}
				return psort.IsSorted(p)
			})
			p.Swap(i-1, i)
			if err != nil {
				return err
			}
			if got {
				return fmt.Errorf("sortedness test of %d elements returned true although elements %d and %d are exchanged", c.Len, i-1, i)
			}
		}
	}
	return nil
}

func runC12(x *X, c SortCase) error {
	if c.Cover {
		x.trivial = c.Len < 0x500
		return c.cover(x)
	}
	x.trivial = c.Len < 0x500
	x.Label("%s", c.Typ)
	a := c.recs()
	sorted := c.Pattern == "sorted"
	if sorted {
		for i := range a {
			a[i].key = i / (1 + c.K%4) * 2
		}
	}
	check := func(where string) error {
		var got, want bool
		var call func()
		switch c.Typ {
		case "ints":
			v := make([]int, len(a))
			for i, r := range a {
				v[i] = r.key
			}
			want = sort.IntsAreSorted(v)
			call = func() { got = psort.IntsAreSorted(v) }
		case "floats":
			v := make([]float64, len(a))
			r := rand.New(rand.NewPCG(c.Seed, 99))
			for i := range a {
				v[i] = toFloat(a[i].key, false, r)
			}
			if c.Special {
				v = c.floats()
				if sorted {
					// NaNs sort first, infinities last: a sorted collection with specials
					sort.Stable(sort.Float64Slice(v))
					for _, p := range c.Pos {
						if p < len(v) {
							v[p] = []float64{math.NaN(), math.Inf(-1), math.Inf(1), 0, math.Copysign(math.NaN(), -1)}[p%5]
						}
					}
				}
			}
			want = sort.Float64sAreSorted(v)
			call = func() { got = psort.Float64sAreSorted(v) }
		case "strings":
			v := make([]string, len(a))
			r := rand.New(rand.NewPCG(c.Seed, 98))
			for i := range a {
				v[i] = toString(a[i].key, false, r)
			}
			want = sort.StringsAreSorted(v)
			call = func() { got = psort.StringsAreSorted(v) }
		default:
			d := &recSorter{a: a, desc: c.Typ == "recdesc"}
			var s sort.Interface = d
			if c.Typ == "iface" {
				s = sort.Reverse(sort.Reverse(d)) // not a psort type at all
			}
			if d.desc && sorted {
				for i := range a {
					a[i].key = -a[i].key
				}
				defer func() {
					for i := range a {
						a[i].key = -a[i].key
					}
				}()
			}
			want = sort.IsSorted(s)
			call = func() { got = psort.IsSorted(s) }
		}
		out := supervise(call)
		if err := out.hang(); err != nil {
			return err
		}
		if out.Panicked {
			return fmt.Errorf("sortedness test of %d %s panicked: %s", c.Len, c.Typ, trunc(fmt.Sprint(out.Panic), 1000))
		}
		if got != want {
			return fmt.Errorf("sortedness test of %d %s (%s%s) returned %v, the sequential test %v", c.Len, c.Typ, c.Pattern, where, got, want)
		}
		if want {
			x.Label("sorted")
		} else {
			x.Label("not sorted")
		}
		return nil
	}
	if c.Sweep {
		x.Label("single inversion sweep")
		if err := check(""); err != nil {
			return err
		}
		step := 1
		if c.Typ == "strings" || c.Typ == "floats" {
			step = 7
		}
		for i := 1 + int(c.Seed)%step; i < len(a); i += step {
			old := a[i].key
			a[i].key = a[i-1].key - 1
			err := check(fmt.Sprintf(", element %d lowered below its predecessor", i))
			a[i].key = old
			if err != nil {
				return err
			}
		}
		x.labels = []string{c.Typ, "single inversion sweep"}
		return nil
	}
	for _, p := range c.Pos {
		if p > 0 && p < len(a) {
			a[p].key = a[p-1].key - 1 + p%3
		}
	}
	return check(fmt.Sprintf(", exceptions at %v", c.Pos))
}

// ---- C13 ----------------------------------------------------------------------

// tracker watches the accesses of one call. Accesses that touch one of the
// chosen indices are held until nothing else can run, so that conflicting or
// late accesses have every opportunity to happen.
type tracker struct {
	n        int
	s        *Sched
	hold     map[int]int // index -> number of holds left
	mu       sync.Mutex
	active   []access
	nactive  atomic.Int32
	returned atomic.Bool
	bad      atomic.Pointer[string]
	ntemp    int
	held     int
	plain    bool // race build: no synchronisation on the fast path
	lateHold int
}

type access struct {
	arr   int
	write bool
	lo    int
	hi    int
	id    int
}

func (x *tracker) fail(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	x.bad.CompareAndSwap(nil, &s)
}

func (x *tracker) temp() {
	x.mu.Lock()
	x.ntemp++
	x.mu.Unlock()
}

func noop() {}

func kindOf(write bool) string {
	if write {
		return "write"
	}
	return "read"
}

func (x *tracker) enter(arr int, write bool, rs ...[2]int) func() {
	for _, r := range rs {
		if r[0] < 0 || r[1] > x.n || r[0] > r[1] {
			x.fail("%s access to [%d,%d) of a collection of length %d", kindOf(write), r[0], r[1], x.n)
		}
	}
	if x.plain {
		return noop
	}
	if x.returned.Load() {
		x.fail("%s access to %v after the call has returned", kindOf(write), rs)
	}
	if x.nactive.Load() > 0 {
		x.mu.Lock()
		for _, a := range x.active {
			for _, r := range rs {
				if a.arr == arr && (a.write || write) && a.lo < r[1] && r[0] < a.hi {
					x.fail("conflicting accesses: %s of [%d,%d) while another goroutine of the same call is in a %s of [%d,%d) of the same array", kindOf(write), r[0], r[1], kindOf(a.write), a.lo, a.hi)
				}
			}
		}
		x.mu.Unlock()
	}
	for _, r := range rs {
		for h := range x.hold {
			if h >= r[0] && h < r[1] {
				return x.holdAccess(arr, write, h, rs)
			}
		}
	}
	return noop
}

func (x *tracker) holdAccess(arr int, write bool, h int, rs [][2]int) func() {
	x.mu.Lock()
	// not safe to delete from the map: it is read without the lock
	if x.held >= 60 {
		x.mu.Unlock()
		return noop
	}
	x.held++
	id := x.held
	for _, r := range rs {
		x.active = append(x.active, access{arr, write, r[0], r[1], id})
	}
	x.nactive.Add(1)
	x.mu.Unlock()
	x.s.Gate(Key{h, arr, id})
	if x.returned.Load() {
		x.fail("%s access to %v still in progress after the call has returned", kindOf(write), rs)
	}
	return func() {
		x.mu.Lock()
		x.active = slices.DeleteFunc(x.active, func(a access) bool { return a.id == id })
		x.nactive.Add(-1)
		x.mu.Unlock()
	}
}

func genC13(t *rapid.T, cfg *Cfg) SortCase {
	typs := []string{"rec", "recdesc"}
	if cfg.Race {
		typs = []string{"rec", "ints", "floats", "strings"}
	}
	c := genSort(t, cfg, []string{"IsSorted", "Sort", "StableSort", "Sort", "IsSorted"}, typs)
	if c.Op == "IsSorted" && rapid.IntRange(0, 2).Draw(t, "srt") > 0 {
		c.Pattern = "sorted"
	}
	for range rapid.IntRange(0, 3).Draw(t, "npos") {
		if c.Len > 1 {
			c.Pos = append(c.Pos, rapid.IntRange(0, c.Len-1).Draw(t, "pos"))
		}
	}
	if !cfg.Race && c.Len > 0 {
		for range rapid.IntRange(1, 4).Draw(t, "nhold") {
			c.Hold = append(c.Hold, rapid.IntRange(0, c.Len-1).Draw(t, "hold"))
		}
		c.Sched = genSched(t)
	}
	return c
}

func runC13(x *X, c SortCase) error {
	x.Label("%s %s", c.Op, c.Typ)
	x.trivial = c.Len < 0x500 || c.Op == "StableSort" && c.Len < 0x3000
	const pad = 64
	sentinel := rec{-12345, -67890}
	s := &Sched{}
	tr := &tracker{n: c.Len, s: s, hold: map[int]int{}}
	var run func()
	var after func() error
	padded := func(check bool) {}
	_ = padded
	switch c.Typ {
	case "ints", "floats", "strings":
		s.free.Store(true)
		// plain memory with the race detector; afterwards the caller overwrites
		// its data, which races with anything still running
		switch c.Typ {
		case "ints":
			back := make([]int, c.Len+2*pad)
			copy(back[pad:], c.ints())
			applyPos(back[pad:pad+c.Len], c.Pos, func(v int) int { return v - 1 })
			d := psort.IntSlice(back[pad : pad+c.Len : pad+c.Len])
			run = func() { sortOp(c.Op, d, d) }
			after = func() error { return overwrite(back, pad, c.Len, 0) }
		case "floats":
			back := make([]float64, c.Len+2*pad)
			copy(back[pad:], c.floats())
			applyPos(back[pad:pad+c.Len], c.Pos, func(v float64) float64 { return v - 1 })
			d := psort.Float64Slice(back[pad : pad+c.Len : pad+c.Len])
			run = func() { sortOp(c.Op, d, d) }
			after = func() error { return overwrite(back, pad, c.Len, 0) }
		default:
			back := make([]string, c.Len+2*pad)
			copy(back[pad:], c.strings())
			applyPos(back[pad:pad+c.Len], c.Pos, func(v string) string { return "" })
			d := psort.StringSlice(back[pad : pad+c.Len : pad+c.Len])
			run = func() { sortOp(c.Op, d, d) }
			after = func() error { return overwrite(back, pad, c.Len, "") }
		}
	default:
		back := make([]rec, c.Len+2*pad)
		for i := range back {
			back[i] = sentinel
		}
		copy(back[pad:], c.recs())
		applyPos(back[pad:pad+c.Len], c.Pos, func(v rec) rec { v.key--; return v })
		tr.plain = x.cfg.Race
		if tr.plain {
			s.free.Store(true)
		} else {
			for _, h := range c.Hold {
				tr.hold[h] = 1
			}
		}
		d := &recSorter{a: back[pad : pad+c.Len : pad+c.Len], desc: c.Typ == "recdesc", x: tr}
		run = func() { sortOp(c.Op, d, d); tr.returned.Store(true) }
		after = func() error { return overwrite(back, pad, c.Len, sentinel) }
	}
	out := s.Run(run, c.Sched)
	defer s.Open()
	if err := out.hang(); err != nil {
		return err
	}
	if out.Panicked {
		return fmt.Errorf("psort.%s of %d %s panicked: %s", c.Op, c.Len, c.Typ, trunc(fmt.Sprint(out.Panic), 1500))
	}
	pend := len(s.Pending())
	if x.cfg.Race {
		if err := after(); err != nil {
			return err
		}
		runtime.Gosched()
	}
	if _, err := s.Drain(); err != nil {
		return err
	}
	if b := tr.bad.Load(); b != nil {
		return fmt.Errorf("psort.%s of %d elements (%s): %s", c.Op, c.Len, c.Pattern, *b)
	}
	if pend > 0 {
		return fmt.Errorf("psort.%s of %d elements (%s) returned while %d accesses to the collection were still in progress", c.Op, c.Len, c.Pattern, pend)
	}
	if tr.held > 0 {
		x.Label("accesses held")
	}
	x.obs = fmt.Sprintf("%d accesses held", tr.held)
	return after()
}

func sortOp(op string, d psort.Sorter, s psort.StableSorter) {
	switch op {
	case "IsSorted":
		psort.IsSorted(d)
	case "Sort":
		psort.Sort(d)
	default:
		psort.StableSort(s)
	}
}

func applyPos[T any](a []T, pos []int, f func(T) T) {
	for _, p := range pos {
		if p < len(a) {
			a[p] = f(a[p])
		}
	}
}

// overwrite checks the memory around the collection and then overwrites the
// collection itself.
func overwrite[T comparable](back []T, pad, n int, sentinel T) error {
	for i := range pad {
		if back[i] != sentinel || back[pad+n+i] != sentinel {
			return fmt.Errorf("memory outside the collection was written")
		}
	}
	for i := range n {
		back[pad+i] = sentinel
	}
	return nil
}

func init() {
	define("C10", "non-trivial: at least 1280 elements (the parallel algorithm's grain size)",
		[]Cfg{{Name: "all-cpus", Quick: 1500}, {Name: "1cpu", CPUs: 1, Quick: 300}, {Name: "twins", Mode: "twins", Quick: 100}, {Name: "big", Mode: "big", Quick: 60}, {Name: "procs2", Procs: 2, Quick: 300}, {Name: "race", Race: true, Quick: 150}},
		func(t *rapid.T, cfg *Cfg) SortCase { return genSort(t, cfg, []string{"Sort"}, sortTypes) }, runSortCase)
	define("C11", "non-trivial: at least 12288 elements (the parallel algorithm's grain size)",
		[]Cfg{{Name: "all-cpus", Quick: 350}, {Name: "1cpu", CPUs: 1, Quick: 60}, {Name: "twins", Mode: "twins", Quick: 60}, {Name: "big", Mode: "big", Quick: 12}, {Name: "race", Race: true, Quick: 20}},
		func(t *rapid.T, cfg *Cfg) SortCase { return genSort(t, cfg, []string{"StableSort"}, sortTypes) }, runSortCase)
	define("C12", "non-trivial: at least 1280 elements (the parallel algorithm's grain size)",
		[]Cfg{{Name: "all-cpus", Quick: 600}, {Name: "1cpu", CPUs: 1, Quick: 150}, {Name: "procs2", Procs: 2, Quick: 200}, {Name: "big", Mode: "big", Quick: 120}, {Name: "cover", Mode: "cover", Quick: 100}, {Name: "procs24", Procs: 24, Quick: 100}}, genC12, runC12)
	define("C13", "non-trivial: at least 1280 elements (12288 for StableSort), with accesses held or under the race detector",
		[]Cfg{{Name: "held", Quick: 500}, {Name: "held-procs1", Procs: 1, Quick: 200}, {Name: "race", Race: true, Quick: 250}, {Name: "race-procs2", Race: true, Procs: 2, Quick: 100}}, genC13, runC13)
}

// sortAll runs the sorting operations on n elements.
func sortAll(n int) Outcome {
	a := make([]int, n)
	for i := range a {
		a[i] = int(mix(uint64(n), uint64(i)) >> 1)
	}
	b := slices.Clone(a)
	return supervise(func() {
		psort.IsSorted(psort.IntSlice(a))
		psort.Sort(psort.IntSlice(a))
		psort.StableSort(psort.IntSlice(b))
		psort.IsSorted(psort.IntSlice(b))
	})
}
