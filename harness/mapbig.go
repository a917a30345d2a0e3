package main

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/intel/forGoParallel/gsync"
	"pgregory.net/rapid"
)

// ---- C14: large maps ---------------------------------------------------------------

// BigStep applies an operation to Cnt keys, starting with Lo, Stride apart.
type BigStep struct {
	Op     string `json:"op"`
	Lo     int    `json:"lo"`
	Cnt    int    `json:"cnt"`
	Stride int    `json:"stride"`
	V      int    `json:"v"`
}

type BigMap struct {
	Typ   string    `json:"typ"`
	N     int       `json:"n"`
	Steps []BigStep `json:"steps"`
}

var bigOps = cat([]string{"Range", "RangeStop", "RangeDelete", "RangeDeleteOther", "RangeStore", "RangeRange"}, linOps[1:])

func logInt(t *rapid.T, maxBits int, what string) int {
	b := rapid.IntRange(0, maxBits).Draw(t, what+" bits")
	return rapid.IntRange(1<<b>>1, 1<<b).Draw(t, what)
}

func genBigMap(t *rapid.T) *BigMap {
	c := &BigMap{Typ: rapid.SampledFrom([]string{"int", "string", "any"}).Draw(t, "typ"), N: max(1, logInt(t, 13, "n"))}
	for range rapid.IntRange(2, 12).Draw(t, "steps") {
		c.Steps = append(c.Steps, BigStep{
			Op: rapid.SampledFrom(bigOps).Draw(t, "op"), Lo: rapid.IntRange(0, c.N-1).Draw(t, "lo"),
			Cnt: rapid.IntRange(1, c.N).Draw(t, "cnt"), Stride: rapid.SampledFrom([]int{1, 1, 2, 3, 7}).Draw(t, "stride"), V: rapid.IntRange(1, 5).Draw(t, "v")})
	}
	c.Steps[0].Op, c.Steps[0].Cnt, c.Steps[0].Stride = rapid.SampledFrom([]string{"Store", "LoadOrStore", "Swap"}).Draw(t, "first"), c.N, 1
	return c
}

func bigRun[K comparable](c *BigMap, key func(int) K) error {
	var m gsync.Map[K, int]
	model := map[int]int{}
	index := map[K]int{}
	keys := make([]K, c.N)
	for i := range keys {
		keys[i] = key(i)
		index[keys[i]] = i
	}
	// all calls m.Range and compares with the model
	all := func(what string) error {
		seen := make(map[int]bool, len(model))
		var err error
		m.Range(func(k K, v int) bool {
			i, ok := index[k]
			want, in := model[i]
			switch {
			case !ok || !in:
				err = fmt.Errorf("%s visited the key %v, which is not in the map", what, k)
			case seen[i]:
				err = fmt.Errorf("%s visited the key %v twice", what, k)
			case v != want:
				err = fmt.Errorf("%s visited the key %v with the value %d instead of %d", what, k, v, want)
			}
			seen[i] = true
			return err == nil
		})
		if err == nil && len(seen) != len(model) {
			err = fmt.Errorf("%s visited %d of %d keys", what, len(seen), len(model))
		}
		return err
	}
	for si, s := range c.Steps {
		name := fmt.Sprintf("step %d of a map with %d keys: %s", si, len(model), s.Op)
		switch s.Op {
		case "Range":
			if err := all(name); err != nil {
				return err
			}
			continue
		case "RangeStop", "RangeDelete", "RangeDeleteOther", "RangeStore", "RangeRange":
			calls := 0
			start := make(map[int]int, len(model))
			for k, v := range model {
				start[k] = v
			}
			seen, gone := map[int]bool{}, map[int]bool{}
			var err error
			m.Range(func(k K, v int) bool {
				i, ok := index[k]
				calls++
				if !ok || seen[i] {
					err = fmt.Errorf("%s visited the key %v twice, or it is unknown", name, k)
					return false
				}
				seen[i] = true
				if w, in := start[i]; in && v != w && (s.Op != "RangeStore" || v != s.V) || !in && s.Op != "RangeStore" {
					err = fmt.Errorf("%s visited the key %v with the value %d, expected %d (present: %v)", name, k, v, w, in)
					return false
				}
				switch s.Op {
				case "RangeStop":
					return calls < s.Cnt
				case "RangeDelete":
					m.Delete(k)
					delete(model, i)
				case "RangeDeleteOther":
					j := (i*s.Stride + s.Lo) % c.N
					m.Delete(keys[j])
					delete(model, j)
					gone[j] = true
				case "RangeStore":
					j := (i + s.Lo) % c.N
					m.Store(keys[j], s.V)
					model[j] = s.V
				case "RangeRange":
					if calls == 1+s.Cnt/2 {
						err = all(name + " inside")
					}
				}
				return err == nil
			})
			if err != nil {
				return err
			}
			if s.Op == "RangeStop" {
				if calls != min(s.Cnt, len(model)) {
					return fmt.Errorf("%s made %d calls instead of %d", name, calls, min(s.Cnt, len(model)))
				}
				continue
			}
			for i := range start {
				if !seen[i] && !gone[i] {
					return fmt.Errorf("%s did not visit the key %v", name, keys[i])
				}
			}
			continue
		}
		for n := range s.Cnt {
			i := (s.Lo + n*s.Stride) % c.N
			k := keys[i]
			old, in := model[i]
			var got, want int
			var ok, wantOK bool
			switch s.Op {
			case "Load":
				got, ok = m.Load(k)
				want, wantOK = old, in
			case "Store":
				m.Store(k, s.V+n)
				model[i] = s.V + n
			case "LoadOrStore":
				got, ok = m.LoadOrStore(k, s.V+n)
				want, wantOK = old, in
				if !in {
					want = s.V + n
					model[i] = want
				}
			case "LoadAndDelete":
				got, ok = m.LoadAndDelete(k)
				want, wantOK = old, in
				delete(model, i)
			case "Delete":
				m.Delete(k)
				delete(model, i)
			case "Swap":
				got, ok = m.Swap(k, s.V+n)
				want, wantOK = old, in
				model[i] = s.V + n
			case "CompareAndSwap":
				cmp := old + n%2
				ok = m.CompareAndSwap(k, cmp, s.V)
				if wantOK = in && n%2 == 0; wantOK {
					model[i] = s.V
				}
			case "CompareAndDelete":
				cmp := old + n%2
				ok = m.CompareAndDelete(k, cmp)
				if wantOK = in && n%2 == 0; wantOK {
					delete(model, i)
				}
			}
			if got != want || ok != wantOK {
				return fmt.Errorf("%s of key %v returned %d, %v instead of %d, %v", name, k, got, ok, want, wantOK)
			}
		}
	}
	return all(fmt.Sprintf("a final Range over a map with %d keys", len(model)))
}

func (c *BigMap) run() error {
	switch c.Typ {
	case "int":
		return bigRun(c, func(i int) int { return i * 7 })
	case "string":
		return bigRun(c, func(i int) string { return fmt.Sprint(i, strings.Repeat("x", i%50)) })
	}
	return bigRun(c, func(i int) any {
		switch i % 3 {
		case 0:
			return i
		case 1:
			return fmt.Sprint(i)
		}
		return float64(i)
	})
}

// ---- C15: long concurrent histories with a conserved quantity ------------------------

type MapStorm struct {
	Kind    string `json:"kind"` // counter, token, once, own
	Threads int    `json:"threads"`
	Keys    int    `json:"keys"`
	Ops     int    `json:"ops"`
	Noise   bool   `json:"noise,omitempty"` // one more goroutine calls Range
	Seed    uint64 `json:"seed"`
}

func genMapStorm(t *rapid.T, cfg *Cfg) *MapStorm {
	c := &MapStorm{Kind: rapid.SampledFrom([]string{"counter", "token", "once", "own", "own"}).Draw(t, "kind"),
		Threads: rapid.IntRange(2, 8).Draw(t, "threads"), Keys: max(1, logInt(t, 10, "keys")), Ops: rapid.IntRange(50, 1500).Draw(t, "ops"),
		Noise: rapid.Bool().Draw(t, "noise"), Seed: uint64(rapid.IntRange(0, 1<<20).Draw(t, "seed"))}
	if cfg.Race {
		c.Ops = min(c.Ops, 200)
	}
	return c
}

func (c *MapStorm) run() error {
	var m gsync.Map[int, int]
	var mu sync.Mutex
	var bad error
	fail := func(format string, args ...any) {
		mu.Lock()
		if bad == nil {
			bad = fmt.Errorf(format, args...)
		}
		mu.Unlock()
	}
	var wg sync.WaitGroup
	var ready atomic.Int32
	each := func(f func(t int)) {
		for t := range c.Threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ready.Add(1)
				spinTogether(&ready, int32(c.Threads))
				f(t)
			}()
		}
	}
	stop := make(chan struct{})
	const stable = 64 // keys that nobody changes, below zero
	if c.Noise {
		for i := range stable {
			m.Store(-1-i, i)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 200; n++ {
				select {
				case <-stop:
					return
				default:
				}
				seen := map[int]bool{}
				cnt := 0
				m.Range(func(k, v int) bool {
					if seen[k] {
						fail("Range visited the key %d twice", k)
					}
					seen[k] = true
					if k < 0 {
						cnt++
						if v != -1-k {
							fail("Range visited the key %d, which nobody changes, with the value %d", k, v)
						}
					}
					return true
				})
				if cnt != stable {
					fail("Range visited %d of %d keys that nobody changes", cnt, stable)
				}
			}
		}()
	}
	rnd := func(t, i int) uint64 { return mix(c.Seed, uint64(t)<<32|uint64(i)) }
	var check func() error
	switch c.Kind {
	case "counter":
		// increments by CompareAndSwap are never lost
		done := make([]atomic.Int64, c.Keys)
		each(func(t int) {
			for i := range c.Ops {
				k := int(rnd(t, i) % uint64(c.Keys))
				for {
					v, _ := m.LoadOrStore(k, 0)
					if m.CompareAndSwap(k, v, v+1) {
						break
					}
				}
				done[k].Add(1)
			}
		})
		check = func() error {
			for k := range done {
				if v, _ := m.Load(k); int64(v) != done[k].Load() {
					return fmt.Errorf("key %d was incremented %d times by CompareAndSwap, but has the value %d", k, done[k].Load(), v)
				}
			}
			return nil
		}
	case "token":
		// every value stored is taken once, or is still there at the end
		taken := make([]atomic.Int32, c.Threads*c.Ops+1)
		put := make([]atomic.Int32, c.Threads*c.Ops+1)
		take := func(v int) {
			if v < 1 || v >= len(taken) {
				fail("the value %d was never stored", v)
				return
			}
			if taken[v].Add(1) > 1 {
				fail("the value %d was taken out of the map twice", v)
			}
		}
		each(func(t int) {
			for i := range c.Ops {
				h := rnd(t, i)
				k := int(h % uint64(c.Keys))
				v := t*c.Ops + i + 1
				switch h >> 40 % 6 {
				case 0, 1:
					put[v].Store(1)
					if old, ok := m.Swap(k, v); ok {
						take(old)
					}
				case 2:
					put[v].Store(1)
					if _, loaded := m.LoadOrStore(k, v); loaded {
						put[v].Store(0)
					}
				case 3:
					if old, ok := m.LoadAndDelete(k); ok {
						take(old)
					}
				case 4:
					if old, ok := m.Load(k); ok && m.CompareAndDelete(k, old) {
						take(old)
					}
				case 5:
					if old, ok := m.Load(k); ok {
						put[v].Store(1)
						if m.CompareAndSwap(k, old, v) {
							take(old)
						} else {
							put[v].Store(0)
						}
					}
				}
			}
		})
		check = func() error {
			m.Range(func(k, v int) bool {
				if k >= 0 {
					take(v)
				}
				return true
			})
			for v := range put {
				if p, g := put[v].Load(), taken[v].Load(); p != g {
					return fmt.Errorf("the value %d was stored %d times, and taken or left %d times", v, p, g)
				}
			}
			return nil
		}
	case "once":
		// LoadOrStore: one of the callers stores, all get its value
		winners := make([]atomic.Int32, c.Ops)
		got := make([]atomic.Int32, c.Ops)
		each(func(t int) {
			for i := range c.Ops {
				v, loaded := m.LoadOrStore(i, t+1)
				if !loaded && winners[i].Add(1) > 1 {
					fail("two calls of LoadOrStore stored the key %d", i)
				}
				if !loaded && v != t+1 {
					fail("LoadOrStore(%d, %d) returned %d, false", i, t+1, v)
				}
				if !got[i].CompareAndSwap(0, int32(v)) && got[i].Load() != int32(v) {
					fail("LoadOrStore of key %d returned %d and %d", i, v, got[i].Load())
				}
			}
		})
		check = func() error {
			for i := range winners {
				if v, ok := m.Load(i); !ok || winners[i].Load() != 1 || int32(v) != got[i].Load() {
					return fmt.Errorf("key %d: %d calls of LoadOrStore stored it, the value is %d, %v, and %d was returned", i, winners[i].Load(), v, ok, got[i].Load())
				}
			}
			return nil
		}
	default:
		// what others do to their keys does not change mine
		models := make([]map[int]int, c.Threads)
		each(func(t int) {
			model := map[int]int{}
			models[t] = model
			for i := range c.Ops {
				h := rnd(t, i)
				k := int(h%uint64(c.Keys))*c.Threads + t
				v := int(h >> 50 & 3)
				old, in := model[k]
				var got, want int
				var ok, wantOK bool
				op := linOps[1+int(h>>40%8)]
				switch op {
				case "Load":
					got, ok = m.Load(k)
					want, wantOK = old, in
				case "Store":
					m.Store(k, v)
					model[k] = v
				case "LoadOrStore":
					got, ok = m.LoadOrStore(k, v)
					want, wantOK = old, in
					if !in {
						want, model[k] = v, v
					}
				case "LoadAndDelete":
					got, ok = m.LoadAndDelete(k)
					want, wantOK = old, in
					delete(model, k)
				case "Delete":
					m.Delete(k)
					delete(model, k)
				case "Swap":
					got, ok = m.Swap(k, v)
					want, wantOK = old, in
					model[k] = v
				case "CompareAndSwap":
					ok = m.CompareAndSwap(k, v, v+1)
					if wantOK = in && old == v; wantOK {
						model[k] = v + 1
					}
				case "CompareAndDelete":
					ok = m.CompareAndDelete(k, v)
					if wantOK = in && old == v; wantOK {
						delete(model, k)
					}
				}
				if got != want || ok != wantOK {
					fail("%s of the key %d, which only one goroutine uses, returned %d, %v instead of %d, %v", op, k, got, ok, want, wantOK)
				}
			}
		})
		check = func() error {
			n := 0
			m.Range(func(k, v int) bool {
				if k >= 0 {
					n++
					if w, ok := models[k%c.Threads][k]; !ok || v != w {
						fail("finally Range visited the key %d with the value %d instead of %d, %v", k, v, w, ok)
					}
				}
				return true
			})
			for _, m := range models {
				n -= len(m)
			}
			if n != 0 {
				return fmt.Errorf("finally Range visited %d keys too many", n)
			}
			return nil
		}
	}
	out := supervise(func() {
		wgDone := make(chan struct{})
		go func() { wg.Wait(); close(wgDone) }()
		<-wgDone
	})
	close(stop)
	if err := out.hang(); err != nil {
		return err
	}
	if err := check(); err != nil {
		return errors.Join(err, bad)
	}
	return bad
}
