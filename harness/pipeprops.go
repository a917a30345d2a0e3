package main

import (
	"context"
	"fmt"
	"math"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"

	"github.com/intel/forGoParallel/pipeline"
	"pgregory.net/rapid"
)

var pipeCfgs = func(q int) []Cfg {
	return []Cfg{
		{Name: "default", Quick: q},
		{Name: "gomaxprocs 2", Procs: 2, Quick: q / 2},
		{Name: "1 cpu", CPUs: 1, Quick: q / 2},
		{Name: "2 cpus", CPUs: 2, Quick: q / 2},
	}
}

// ---- C17 ----------------------------------------------------------------------

func genC17(t *rapid.T, cfg *Cfg) PCase {
	if cfg.Mode == "crowd" {
		return PCase{Crowd: genCrowd(t, false)}
	}
	c := genPipe(t, popt{many: 1500, nodes: coreNodes, filters: []string{"recv", "map", "map", "inplace", "rf", "fin", "drop", "ext"}, maxNodes: 5, batches: 24})
	if rapid.IntRange(0, 19).Draw(t, "long") == 19 {
		c.lengthen(t)
	}
	return c
}

// lengthen makes long chains of receivers and nodes.
func (c *PCase) lengthen(t *rapid.T) {
	kinds := []string{"recv", "map", "inplace", "rf"}
	s := &c.Segs[rapid.IntRange(0, len(c.Segs)-1).Draw(t, "longseg")]
	switch rapid.IntRange(0, 2).Draw(t, "how") {
	case 0: // one node with many receivers
		n := PN{K: rapid.SampledFrom(coreNodes).Draw(t, "longnode")}
		for range rapid.IntRange(10, 80).Draw(t, "receivers") {
			n.F = append(n.F, genFilter(t, kinds))
		}
		s.N = append(s.N, n)
	case 1: // many nodes of the same kind
		k := rapid.SampledFrom(coreNodes).Draw(t, "longnode")
		for range rapid.IntRange(5, 40).Draw(t, "longnodes") {
			s.N = append(s.N, PN{K: k, F: []PF{genFilter(t, kinds)}})
		}
	default:
		for range rapid.IntRange(5, 40).Draw(t, "longnodes") {
			s.N = append(s.N, PN{K: rapid.SampledFrom(coreNodes).Draw(t, "longnode"), F: []PF{genFilter(t, kinds)}})
		}
	}
	c.Mode = 2
	c.Src.Len = min(c.Src.Len, 300)
}

func runC17(x *X, c PCase) error {
	if c.Crowd != nil {
		return runCrowd(x, c.Crowd)
	}
	tr, evs, m, err := c.complete(x)
	if err != nil {
		return err
	}
	if err := tr.values(evs, m, true); err != nil {
		return err
	}
	return tr.chain(evs, m)
}

// ---- C18 ----------------------------------------------------------------------

func genC18(t *rapid.T, cfg *Cfg) PCase {
	if cfg.Mode == "crowd" {
		return PCase{Crowd: genCrowd(t, false)}
	}
	return genPipe(t, popt{many: 1500, nodes: []string{"Par", "Par", "LimitedPar", "Seq", "Seq", "Ord", "Ord", "StrictOrd", "Custom"}, filters: []string{"recv", "recv", "map", "rf"}, maxNodes: 5, batches: 24})
}

func runC18(x *X, c PCase) error {
	if c.Crowd != nil {
		return runCrowd(x, c.Crowd)
	}
	tr, evs, m, err := c.complete(x)
	if err != nil {
		return err
	}
	par, tested := false, false
	c.each(func(_ int, pn *PN, _ string) {
		if pn.K == "Par" || pn.K == "LimitedPar" {
			par = true
		} else if par && exclusiveKind(pn.K) {
			tested = true
		}
	})
	x.trivial = x.trivial || !tested
	return tr.ordering(evs, m)
}

// ---- C19 ----------------------------------------------------------------------

type C19Case struct {
	P      PCase `json:"p"`
	Target int   `json:"target"` // node whose functions are held
}

func genC19(t *rapid.T, cfg *Cfg) C19Case {
	if cfg.Mode == "crowd" {
		return C19Case{P: PCase{Crowd: genCrowd(t, true)}}
	}
	o := popt{nodes: []string{"Par", "LimitedPar", "Seq", "Ord", "StrictOrd", "Custom"}, filters: []string{"recv", "map", "rf"}, maxNodes: 3, minBatches: 1, batches: 40, modes: []int{0}}
	o.srcs = allSrcs
	if rapid.IntRange(0, 3).Draw(t, "transforms") == 0 {
		o.trans = []string{"ParTransform", "ParTransform", "LimitedParTransform", "Transform", "OrdTransform"}
		o.maxSegs = 2
	}
	o.maxSteps = 1 << 20
	p := genPipe(t, o)
	var cand []int
	p.each(func(id int, pn *PN, trans string) {
		k := trans
		if pn != nil {
			k = pn.K
		}
		switch k {
		case "Par", "LimitedPar", "ParTransform", "LimitedParTransform":
			cand = append(cand, id)
		}
	})
	if len(cand) == 0 {
		last := &p.Segs[len(p.Segs)-1]
		last.N = append(last.N, PN{K: rapid.SampledFrom([]string{"Par", "LimitedPar"}).Draw(t, "kind"), F: []PF{{K: "recv"}}})
		id := -1
		p.each(func(i int, _ *PN, _ string) { id = i })
		cand = []int{id}
	}
	if rapid.IntRange(0, 49).Draw(t, "many") == 49 {
		n := rapid.IntRange(100, 3000).Draw(t, "batches")
		p.Src = Src{K: "slice", Len: n, Nof: n}
	}
	c := C19Case{P: p, Target: rapid.SampledFrom(cand).Draw(t, "target")}
	id := 0
	c.P.each(func(i int, pn *PN, _ string) {
		if i == c.Target && pn != nil {
			pn.F = append([]PF{{K: "recv"}}, pn.F...)
		}
		id++
	})
	return c
}

func runC19(x *X, cc C19Case) error {
	if cc.P.Crowd != nil {
		return runCrowd(x, cc.P.Crowd)
	}
	c := &cc.P
	tr := c.newTracer()
	// only the first function of the target node is held, and at first for ever
	var held atomic.Bool
	held.Store(true)
	tr.gateOnly = func(k Key) bool { return k[0] == cc.Target && k[1] == 0 }
	tr.s.hold = func(Key) bool { return held.Load() }
	run := tr.prepare()
	kind := tr.nodeKind[cc.Target]
	limited := kind == "LimitedPar" || kind == "LimitedParTransform"
	out := tr.s.Run(func() {
		run()
		tr.log(pev{kind: evReturn})
	}, c.Sched)
	defer tr.s.Open()
	if err := out.hang(); err != nil {
		return err
	}
	ncpu := runtime.NumCPU()
	total := c.Src.Len
	if tr.underlying != nil {
		total = len(tr.underlying)
	}
	pend := len(tr.s.Pending())
	fetched, end, _ := tr.batches()
	c.label(x)
	x.Label("target %s", kind)
	x.obs = fmt.Sprintf("%d of %d batches in progress, %d CPUs", pend, len(fetched), ncpu)
	x.trivial = len(fetched) < 2
	// does anything before the target limit how many batches reach it?
	if !out.Returned {
		bottleneck := false
		seen := false
		c.each(func(id int, pn *PN, trans string) {
			if id == cc.Target {
				seen = true
			}
			_ = bottleneck
		})
		if !seen {
			return fmt.Errorf("harness: no target")
		}
		if limited {
			want := ncpu
			if end {
				want = min(len(fetched), ncpu)
			}
			if pend > ncpu {
				return fmt.Errorf("%s processes %d batches at the same time with %d CPUs", kind, pend, ncpu)
			}
			if pend < want {
				return fmt.Errorf("%s has been handed %d batches (source at its end: %v) but processes only %d of them at the same time with %d CPUs", kind, len(fetched), end, pend, ncpu)
			}
			x.trivial = x.trivial || pend < 2 && ncpu > 1
		} else {
			if !end {
				return fmt.Errorf("%s blocks the pipeline: %d batches in progress, but the source (%d elements) is not read to its end", kind, pend, total)
			}
			if pend != len(fetched) {
				return fmt.Errorf("%s has been handed %d batches but processes only %d of them at the same time", kind, len(fetched), pend)
			}
		}
	} else if len(fetched) > 0 {
		return fmt.Errorf("Run returned although the functions of a %s node are still processing %d batches", kind, pend)
	}
	// let them finish in the generated order
	held.Store(false)
	if len(fetched) > 100 {
		x.Label("many batches")
		tr.s.Open()
	}
	if !out.Returned {
		out = tr.s.Continue(c.Sched)
		if err := out.hang(); err != nil {
			return err
		}
	}
	if out.Panicked {
		return fmt.Errorf("the run panicked: %v", out.Panic)
	}
	return tr.limits(tr.events())
}

// limits: limited nodes never process more batches at once than there are CPUs.
func (tr *tracer) limits(evs []pev) error {
	ncpu := runtime.NumCPU()
	active := map[int]int{}
	for _, e := range evs {
		k := tr.nodeKind[e.node]
		if k != "LimitedPar" && k != "LimitedParTransform" {
			continue
		}
		switch e.kind {
		case evEnter:
			active[e.node]++
			if active[e.node] > ncpu {
				return fmt.Errorf("%s processes %d batches at the same time with %d CPUs", k, active[e.node], ncpu)
			}
		case evLeave:
			active[e.node]--
		}
	}
	return nil
}

// ---- C20 ----------------------------------------------------------------------

func genC20(t *rapid.T, cfg *Cfg) PCase {
	if cfg.Mode == "crowd" {
		return PCase{Crowd: genCrowd(t, false)}
	}
	o := popt{nodes: []string{"Par", "LimitedPar", "LimitedPar", "Seq", "Ord", "StrictOrd", "StrictOrd", "Limit", "Skip", "Custom"},
		filters: []string{"recv", "recv", "recv", "rf", "id", "count", "drop"}, maxNodes: 6, batches: 40}
	if rapid.Bool().Draw(t, "transforms") {
		o.trans, o.maxSegs = allTrans, 3
	}
	return genPipe(t, o)
}

func runC20(x *X, c PCase) error {
	if c.Crowd != nil {
		return runCrowd(x, c.Crowd)
	}
	tr := c.newTracer()
	out := tr.exec()
	defer tr.s.Open()
	if err := out.hang(); err != nil {
		return err
	}
	if out.Panicked {
		return fmt.Errorf("the run panicked: %v", out.Panic)
	}
	if _, err := tr.s.Drain(); err != nil {
		return err
	}
	bs, _, _ := tr.batches()
	c.label(x)
	x.trivial = len(bs) < 3
	x.obs = fmt.Sprintf("%d batches", len(bs))
	return nil
}

// ---- C21 ----------------------------------------------------------------------

func genC21(t *rapid.T, cfg *Cfg) PCase {
	o := popt{nodes: cat(coreNodes, []string{"Limit", "Custom"}), filters: []string{"recv", "rf", "rf", "fin", "map"}, maxNodes: 5, batches: 16}
	if rapid.IntRange(0, 3).Draw(t, "transforms") == 0 {
		o.trans, o.maxSegs = allTrans, 2
	}
	c := genPipe(t, o)
	if rapid.IntRange(0, 2).Draw(t, "faults") == 0 {
		genFaults(t, &c, []string{"cancel", "ctx", "cancel", "seterr"})
	}
	return c
}

// genFaults adds one or two cancellations.
func genFaults(t *rapid.T, c *PCase, dos []string) {
	var ids []int
	c.each(func(id int, pn *PN, trans string) { ids = append(ids, id) })
	for range rapid.IntRange(1, 2).Draw(t, "nfaults") {
		f := Fault{Do: rapid.SampledFrom(dos).Draw(t, "do")}
		ats := []string{"recv", "recv", "recv", "fin", "fetch"}
		if c.Mode != 2 {
			ats = append(ats, "step", "step")
		}
		if c.Notify > 0 {
			ats = append(ats, "notify")
		}
		if c.Ctx && f.Do == "ctx" {
			ats = append(ats, "pre")
		}
		f.At = rapid.SampledFrom(ats).Draw(t, "at")
		switch f.At {
		case "recv":
			f.Node = rapid.SampledFrom(ids).Draw(t, "fnode")
			f.Seq = rapid.IntRange(0, 12).Draw(t, "fseq")
		case "fin":
			f.Node = rapid.SampledFrom(ids).Draw(t, "fnode")
		case "step", "fetch":
			f.Seq = rapid.IntRange(0, 30).Draw(t, "fseq")
		}
		c.Faults = append(c.Faults, f)
	}
}

func runC21(x *X, c PCase) error {
	tr := c.newTracer()
	out := tr.exec()
	defer tr.s.Open()
	if err := out.hang(); err != nil {
		return err
	}
	if out.Panicked {
		return fmt.Errorf("the run panicked: %v", out.Panic)
	}
	if _, err := tr.s.Drain(); err != nil {
		return err
	}
	tr.mu.Lock()
	errSet, cancelled := tr.errSet, tr.cancelled
	tr.mu.Unlock()
	bs, _, err := tr.batches()
	if err != nil {
		return err
	}
	evs := tr.events()
	m := c.model(bs, tr.srcType)
	c.label(x)
	switch {
	case errSet:
		x.Label("failed run")
	case cancelled:
		x.Label("cancelled run")
	default:
		x.Label("complete run")
	}
	x.trivial = len(m.fins) == 0 || len(bs) < 1
	x.obs = fmt.Sprintf("%d finalizers, %d batches", len(m.fins), len(bs))
	return tr.finals(evs, m, !errSet)
}

// ---- C22 ----------------------------------------------------------------------

type C22Case struct {
	Src  Src `json:"src"`
	Node PN  `json:"node"`
	Req  int `json:"req"` // argument of a later NofBatches call used as a query

	More  []PN   `json:"more,omitempty"`  // further nodes behind Node
	Trans string `json:"trans,omitempty"` // and a transform, with Node once more behind it
	Late  bool   `json:"late,omitempty"`
	Via   int    `json:"via,omitempty"`
}

func genC22(t *rapid.T, cfg *Cfg) C22Case {
	c := C22Case{Src: Src{K: rapid.SampledFrom([]string{"slice", "funcknown", "func", "multichan", "scanner", "bytes", "chan"}).Draw(t, "src")}}
	c.Node = PN{K: rapid.SampledFrom(coreNodes).Draw(t, "node"), F: []PF{{K: "recv"}}}
	s := &c.Src
	s.Len = rapid.OneOf(rapid.IntRange(0, 60), rapid.IntRange(0, 400)).Draw(t, "len")
	switch s.K {
	case "slice", "funcknown":
		s.Nof = rapid.OneOf(rapid.IntRange(-2, 20), rapid.SampledFrom([]int{s.Len - 1, s.Len, s.Len + 1, 1000, math.MaxInt, math.MinInt})).Draw(t, "nof")
	default:
		extreme := []int{math.MaxInt, math.MaxInt - 1, math.MaxInt/2 + 1, 1 << 40, -1, math.MinInt}
		s.Inc = rapid.OneOf(rapid.IntRange(0, 12), rapid.IntRange(0, 600), rapid.SampledFrom(extreme)).Draw(t, "inc")
		s.Max = rapid.OneOf(rapid.IntRange(0, 24), rapid.IntRange(0, 5000), rapid.SampledFrom(extreme)).Draw(t, "max")
		if s.K == "func" || s.K == "chan" {
			if rapid.Bool().Draw(t, "short") {
				s.Chunk = rapid.SliceOfN(rapid.IntRange(1, 9), 1, 4).Draw(t, "chunks")
			}
		}
		if rapid.IntRange(0, 3).Draw(t, "long") == 0 {
			s.Len = rapid.IntRange(0, 9000).Draw(t, "longlen")
		}
	}
	c.Req = rapid.IntRange(-1, 0).Draw(t, "query")
	for range rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "more") {
		switch k := rapid.SampledFrom(append([]string{"Limit", "Skip"}, coreNodes...)).Draw(t, "node"); k {
		case "Limit", "Skip":
			// these change the number of elements behind them, but not what is read
			c.More = append(c.More, PN{K: k, A: rapid.IntRange(0, s.Len+2).Draw(t, "n")})
		default:
			f := PF{K: rapid.SampledFrom([]string{"recv", "count", "id"}).Draw(t, "filter")}
			c.More = append(c.More, PN{K: k, F: []PF{f}})
		}
	}
	if rapid.Bool().Draw(t, "transform") {
		c.Trans = rapid.SampledFrom(allTrans).Draw(t, "trans")
		c.Via = rapid.IntRange(0, 63).Draw(t, "via")
	}
	c.Late = rapid.Bool().Draw(t, "late")
	if len(c.More) > 0 || c.Trans != "" {
		s.Len = min(s.Len, 400) // thousands of batches waiting before a StrictOrd node take too long
	}
	return c
}

func runC22(x *X, c C22Case) error {
	pc := PCase{Src: c.Src, Segs: []PS{{N: append([]PN{c.Node}, c.More...), T: c.Trans}}, Mode: 2, Late: c.Late, Via: c.Via}
	if c.Trans != "" {
		pc.Segs = append(pc.Segs, PS{N: []PN{c.Node}})
	}
	nof := c.Src.Nof
	if nof < 1 {
		nof = runtime.NumCPU()
	}
	tr := pc.newTracer()
	tr.nofQuery = c.Req
	out := tr.exec()
	if err := out.hang(); err != nil {
		return err
	}
	if out.Panicked {
		return fmt.Errorf("the run panicked: %v", out.Panic)
	}
	x.Label("source %s", c.Src.K)
	x.obs = fmt.Sprintf("%d fetches", len(tr.fetches))
	bs, _, err := tr.batches()
	if err != nil {
		return err
	}
	x.trivial = len(bs) < 2
	if tr.srcKnown {
		if tr.nofGot[0] != 0 && tr.nofGot[0] != nof {
			return fmt.Errorf("NofBatches(%d) returned %d", c.Src.Nof, tr.nofGot[0])
		}
		if tr.nofGot[1] != nof {
			return fmt.Errorf("NofBatches(%d) after NofBatches(%d) returned %d, expected %d", c.Req, c.Src.Nof, tr.nofGot[1], nof)
		}
		size := len(tr.underlying)
		most := (size + nof - 1) / max(1, nof)
		if nof > size {
			most = 1
		}
		if len(bs) > nof {
			return fmt.Errorf("%d batches for a source of %d elements, but NofBatches is %d", len(bs), size, nof)
		}
		for k, f := range tr.fetches {
			if f.req < 1 || f.req > max(1, most) || f.got > most {
				return fmt.Errorf("fetch %d requests %d elements and gets %d; with %d elements in %d batches no batch has more than %d", k, f.req, f.got, size, nof, most)
			}
		}
		if nof >= 2 && size >= 2 && len(bs) < 2 {
			return fmt.Errorf("a single batch for %d elements and NofBatches %d", size, nof)
		}
		return nil
	}
	inc, mx := c.Src.Inc, c.Src.Max
	if inc < 1 {
		inc = 512
		x.Label("default increment")
	}
	if mx < 1 {
		mx = 4096
		x.Label("default maximum")
	}
	if inc > math.MaxInt/4 || mx > math.MaxInt/4 {
		x.Label("extreme size")
	}
	want := 0
	for k, f := range tr.fetches {
		if want > mx-inc || inc > mx {
			want = mx
		} else {
			want += inc
		}
		if f.req != want {
			return fmt.Errorf("fetch %d requests %d elements, expected min(%d*%d, %d) = %d", k, f.req, k+1, inc, mx, want)
		}
		if c.Src.K != "chan" && f.got > mx {
			return fmt.Errorf("fetch %d got %d elements, more than %d", k, f.got, mx)
		}
	}
	return nil
}

// ---- C26 ----------------------------------------------------------------------

var resultFilters = []string{"every", "notevery", "some", "notany", "append", "append", "count", "count"}

func genC26(t *rapid.T, cfg *Cfg) PCase {
	o := popt{nodes: cat(coreNodes, coreNodes, []string{"Limit", "Skip"}), filters: cat(resultFilters, []string{"map", "inplace", "drop", "ext"}), maxNodes: 4, batches: 20}
	if rapid.IntRange(0, 3).Draw(t, "transforms") == 0 {
		o.trans, o.maxSegs = allTrans, 2
	}
	c := genPipe(t, o)
	switch rapid.IntRange(0, 2).Draw(t, "cancelling") {
	case 0: // predicates that cancel
		c.Ctx = rapid.IntRange(0, 3).Draw(t, "watch") > 0 // to see when the pipeline is cancelled
		for i := range c.Segs {
			for j := range c.Segs[i].N {
				for k := range c.Segs[i].N[j].F {
					f := &c.Segs[i].N[j].F[k]
					if isPred(f.K) {
						f.B = rapid.Bool().Draw(t, "cancel")
						if f.B && c.Src.K == "func" && c.Mode == 2 {
							c.Src.Endless = 2
						}
					}
				}
			}
		}
	case 1:
		if rapid.Bool().Draw(t, "fault") {
			genFaults(t, &c, []string{"cancel"})
		}
	}
	return c
}

func runC26(x *X, c PCase) error {
	may := len(c.Faults) > 0
	c.each(func(_ int, pn *PN, _ string) {
		if pn != nil {
			for _, f := range pn.F {
				may = may || f.B
			}
		}
	})
	if !may {
		tr, evs, m, err := c.complete(x)
		if err != nil {
			return err
		}
		x.trivial = x.trivial || len(tr.results) == 0
		for _, rv := range tr.results {
			x.Label("%s in %s", rv.kind, tr.nodeKind[rv.node])
		}
		if err := tr.resultsOK(evs, m, true); err != nil {
			return err
		}
		return tr.appendsOK(m, true)
	}
	tr := c.newTracer()
	tr.watchCancel = true
	out := tr.exec()
	defer tr.s.Open()
	if err := out.hang(); err != nil {
		return err
	}
	if out.Panicked {
		return fmt.Errorf("the run panicked: %v", out.Panic)
	}
	if c.Ctx {
		defer tr.doCtx()
	}
	bs, end, err := tr.batches()
	if err != nil {
		return err
	}
	evs := tr.events()
	m := c.model(bs, tr.srcType)
	c.label(x)
	x.trivial = len(tr.results) == 0 || m.n < 2
	// a run in which nothing cancelled is a complete run
	cancelled := tr.cancelled
	decided := map[nf]bool{}
	for _, e := range evs {
		if e.kind == evLeave && e.seq < 0 {
			k := nf{e.node, e.f}
			kind := m.pred[k].K
			decisive := e.res == (kind == "some" || kind == "notany")
			decided[k] = decided[k] || decisive
			if decisive && m.pred[k].B {
				cancelled = true
			}
		}
	}
	x.obs = fmt.Sprintf("%d batches, cancelled=%v", m.n, cancelled)
	if cancelled {
		x.Label("cancelled")
	} else {
		x.Label("not cancelled")
		if !end {
			return fmt.Errorf("the run ended before the source was read to its end although nothing cancelled it")
		}
	}
	if err := tr.endless(x, evs); err != nil {
		return err
	}
	if c.Ctx {
		if err := tr.cancelsWhenKnown(x, evs, m); err != nil {
			return err
		}
	}
	if err := tr.resultsOK(evs, m, !cancelled); err != nil {
		return err
	}
	return tr.appendsOK(m, !cancelled)
}

// cancelsWhenKnown checks that the filters with cancelWhenKnown cancel the
// pipeline as soon as their result is known, and only then.
func (tr *tracer) cancelsWhenKnown(x *X, evs []pev, m *pmodel) error {
	pos := func(k nf) int { return slices.Index(m.order, k) }
	known, done := false, false
	passed := map[int]int{} // batches that passed a decided filter, and where
	for _, e := range evs {
		switch e.kind {
		case evCancelled:
			done = true
		case evCancel:
			known = true // by a fault
		case evLeave:
			k := nf{e.node, e.f}
			pf, ok := m.pred[k]
			if !ok || e.seq >= 0 || !pf.B || e.res != (pf.K == "some" || pf.K == "notany") {
				continue
			}
			known = true
			seq := -1
			for s, b := range m.in[k] {
				if sameS(b, e.data) {
					if seq >= 0 {
						seq = -2
						break
					}
					seq = s
				}
			}
			if _, ok := passed[seq]; seq >= 0 && !ok {
				passed[seq] = pos(k)
			}
		case evEnter:
			if e.seq < 0 || done {
				continue
			}
			if at, ok := passed[e.seq]; ok && pos(nf{e.node, e.f}) > at {
				return fmt.Errorf("%s is called for batch %d after %s with cancelWhenKnown has decided its result for the batch, but the pipeline is not cancelled yet", tr.nodeName(nf{e.node, e.f}), e.seq, tr.nodeName(m.order[at]))
			}
		}
	}
	calls := int(tr.cancelCalls.Load())
	if known {
		x.Label("result known, watched")
		if calls == 0 {
			return fmt.Errorf("the result of a filter with cancelWhenKnown is known, but it did not cancel the pipeline")
		}
	} else if calls > 0 {
		return fmt.Errorf("the pipeline was cancelled although no filter with cancelWhenKnown knows its result")
	}
	return nil
}

// ---- C27 ----------------------------------------------------------------------

func genC27(t *rapid.T, cfg *Cfg) PCase {
	o := popt{nodes: []string{"Limit", "Limit", "Skip", "Skip", "Par", "LimitedPar", "Seq", "Ord", "StrictOrd"}, filters: []string{"recv", "map", "append", "count", "size", "drop"}, maxNodes: 5, batches: 16}
	if rapid.IntRange(0, 4).Draw(t, "transforms") == 0 {
		o.trans, o.maxSegs = allTrans, 2
	}
	o.many = 600
	c := genPipe(t, o)
	// make sure that there is a window and that something looks through it
	last := &c.Segs[len(c.Segs)-1]
	has := slices.ContainsFunc(last.N, func(n PN) bool { return n.K == "Limit" || n.K == "Skip" })
	if !has {
		last.N = slices.Insert(last.N, rapid.IntRange(0, len(last.N)).Draw(t, "where"), PN{K: rapid.SampledFrom([]string{"Limit", "Skip"}).Draw(t, "window"), A: rapid.OneOf(rapid.IntRange(0, 20), rapid.IntRange(0, max(1, c.Src.Len))).Draw(t, "n")})
	}
	last.N = append(last.N, PN{K: rapid.SampledFrom(coreNodes).Draw(t, "sink"), F: []PF{{K: "size"}, {K: "recv"}, {K: "count", A: 5}, {K: "append"}}})
	switch rapid.IntRange(0, 3).Draw(t, "special") {
	case 0: // one cancelling limit
		var ws []*PN
		c.each(func(_ int, pn *PN, _ string) {
			if pn != nil && pn.K == "Limit" {
				ws = append(ws, pn)
			}
		})
		if len(ws) > 0 {
			w := ws[rapid.IntRange(0, len(ws)-1).Draw(t, "which")]
			w.B = true
			if c.Src.K == "func" && c.Mode == 2 && w.A >= 0 && w.A < 60 && rapid.Bool().Draw(t, "endless") {
				c.Src.Endless = 2
			}
		}
	case 1:
		if rapid.Bool().Draw(t, "negative skip") {
			c.each(func(_ int, pn *PN, _ string) {
				if pn != nil && pn.K == "Skip" {
					pn.A = -pn.A - 1
				}
			})
		}
	}
	return c
}

func runC27(x *X, c PCase) error {
	cancelAt, negSkip := -1, -1
	var cancelN int
	c.each(func(id int, pn *PN, _ string) {
		if pn == nil {
			return
		}
		if pn.K == "Limit" && pn.B {
			cancelAt, cancelN = id, pn.A
		}
		if pn.K == "Skip" && pn.A < 0 {
			negSkip = id
		}
	})
	if negSkip < 0 && cancelAt < 0 {
		tr, evs, m, err := c.complete(x)
		if err != nil {
			return err
		}
		cut := false
		c.each(func(id int, pn *PN, _ string) {
			if pn != nil && m.win[id] != nil {
				n := len(joinAll(m.win[id]))
				cut = cut || pn.A >= 0 && pn.A < n && (pn.A > 0 || pn.K == "Limit")
			}
		})
		x.trivial = x.trivial || !cut
		if err := tr.values(evs, m, true); err != nil {
			return err
		}
		if err := tr.resultsOK(evs, m, true); err != nil {
			return err
		}
		if err := tr.sizesOK(m); err != nil {
			return err
		}
		return tr.appendsOK(m, true)
	}
	if cancelAt >= 0 {
		c.Ctx = true // to see when the pipeline is cancelled
	}
	tr := c.newTracer()
	tr.watchCancel = true
	out := tr.exec()
	defer tr.s.Open()
	if err := out.hang(); err != nil {
		return err
	}
	if out.Panicked {
		return fmt.Errorf("the run panicked: %v", out.Panic)
	}
	defer tr.doCtx()
	if _, err := tr.s.Drain(); err != nil {
		return err
	}
	bs, _, err := tr.batches()
	if err != nil {
		return err
	}
	evs := tr.events()
	m := c.model(bs, tr.srcType)
	c.label(x)
	if err := tr.endless(x, evs); err != nil {
		return err
	}
	// whatever is called gets what the windows leave of its batch
	if err := tr.values(evs, m, false); err != nil {
		return err
	}
	if negSkip >= 0 {
		x.Label("negative skip")
		if tr.errOf() == nil {
			return fmt.Errorf("Skip with a negative argument, but Err is nil")
		}
		for _, e := range evs {
			if e.kind == evEnter && e.node > negSkip && len(e.data) > 0 && tr.nodeKind[e.node] != "Custom" {
				return fmt.Errorf("Skip with a negative argument let %v through", e.data)
			}
		}
		return nil
	}
	x.Label("cancelling limit")
	// the pipeline is cancelled exactly if all n elements have been reached,
	// and not before
	reached := len(joinAll(m.win[cancelAt]))
	x.obs = fmt.Sprintf("limit %d, %d elements fetched", cancelN, reached)
	x.trivial = cancelN <= 0 || reached < 2
	if cancelN < 0 {
		return nil
	}
	nfetch, total := 0, 0
	var perSeq []int
	for _, b := range m.win[cancelAt] {
		perSeq = append(perSeq, len(b))
	}
	at := -1
	for i, e := range evs {
		switch e.kind {
		case evFetch:
			nfetch++
		case evCancelled:
			if at < 0 {
				at = i
				for s := range min(nfetch, len(perSeq)) {
					total += perSeq[s]
				}
				if total < cancelN {
					return fmt.Errorf("Limit(%d, true) cancelled the pipeline when only %d elements had been fetched for it", cancelN, total)
				}
			}
		}
	}
	// receivers of an ordered node directly behind the limit belong to the same
	// stage and see the complete window
	next, adj := -1, false
	c.each(func(id int, pn *PN, _ string) {
		if id == cancelAt+1 && pn != nil && pn.K == "Ord" {
			next, adj = id, true
		}
	})
	if adj && reached >= cancelN {
		for f := range 8 {
			k := nf{next, f}
			if m.in[k] == nil {
				continue
			}
			got, want := 0, 0
			for _, e := range evs {
				if e.kind == evEnter && e.node == next && e.f == f {
					got += len(e.data)
				}
			}
			for _, b := range m.in[k] {
				want += len(b)
			}
			if at >= 0 && got != want {
				return fmt.Errorf("%s directly behind Limit(%d, true) saw %d of %d elements", tr.nodeName(k), cancelN, got, want)
			}
		}
		x.Label("complete window seen")
	}
	if at < 0 && reached > cancelN {
		return fmt.Errorf("Limit(%d, true) saw %d elements but the pipeline was not cancelled", cancelN, reached)
	}
	return nil
}

// ---- C28 ----------------------------------------------------------------------

func genC28(t *rapid.T, cfg *Cfg) PCase {
	return genPipe(t, popt{nodes: cat(coreNodes, coreNodes, []string{"Limit", "Skip"}), filters: []string{"recv", "recv", "map", "rf", "fin", "drop", "append", "count", "size", "ext"}, maxNodes: 5, trans: allTrans, maxSegs: 4, batches: 16})
}

func runC28(x *X, c PCase) error {
	tr, evs, m, err := c.complete(x)
	if err != nil {
		return err
	}
	x.trivial = x.trivial || len(c.Segs) < 2
	if err := tr.limits(evs); err != nil {
		return err
	}
	if err := tr.values(evs, m, true); err != nil {
		return err
	}
	if err := tr.chain(evs, m); err != nil {
		return err
	}
	if err := tr.ordering(evs, m); err != nil {
		return err
	}
	if err := tr.finals(evs, m, true); err != nil {
		return err
	}
	if err := tr.resultsOK(evs, m, true); err != nil {
		return err
	}
	if err := tr.sizesOK(m); err != nil {
		return err
	}
	return tr.appendsOK(m, true)
}

// ---- C29 ----------------------------------------------------------------------

type C29Case struct {
	P   PCase   `json:"p"`
	Ins []C29In `json:"ins"`
}

type C29In struct {
	Seg int `json:"seg"`
	Pos int `json:"pos"`
	N   PN  `json:"n"`
}

func genC29(t *rapid.T, cfg *Cfg) C29Case {
	o := popt{plain: true, nodes: cat(coreNodes, []string{"Skip", "Limit"}), filters: []string{"recv", "map", "rf", "append", "count"}, maxNodes: 4, batches: 16}
	if rapid.IntRange(0, 3).Draw(t, "transforms") == 0 {
		o.trans, o.maxSegs = allTrans, 2
	}
	c := C29Case{P: genPipe(t, o)}
	if tag := 1; rapid.IntRange(0, 1).Draw(t, "sizes") == 1 { // filters that look at the size
		for _, s := range c.P.Segs {
			for i := range s.N {
				if n := &s.N[i]; len(n.F) > 0 {
					n.F = slices.Insert(slices.Clone(n.F), rapid.IntRange(0, len(n.F)).Draw(t, "at"), PF{K: "size", A: tag})
					tag++
				}
			}
		}
	}
	for range rapid.IntRange(1, 3).Draw(t, "ins") {
		si := rapid.IntRange(0, len(c.P.Segs)-1).Draw(t, "seg")
		in := C29In{Seg: si, Pos: rapid.IntRange(0, len(c.P.Segs[si].N)).Draw(t, "pos"), N: noopNode(t)}
		c.Ins = append(c.Ins, in)
	}
	return c
}

func allOK(tr *tracer, evs []pev, m *pmodel) error {
	if err := tr.values(evs, m, true); err != nil {
		return err
	}
	if err := tr.chain(evs, m); err != nil {
		return err
	}
	if err := tr.ordering(evs, m); err != nil {
		return err
	}
	if err := tr.finals(evs, m, true); err != nil {
		return err
	}
	if err := tr.resultsOK(evs, m, true); err != nil {
		return err
	}
	return tr.appendsOK(m, true)
}

func runC29(x *X, cc C29Case) error {
	var sizes map[int]int
	for range 2 { // the plain pipeline has to be fine, otherwise there is nothing to compare
		var x2 X
		tr, evs, m, err := cc.P.complete(&x2)
		if err == nil {
			err = allOK(tr, evs, m)
		}
		if err != nil {
			x.Label("plain pipeline fails")
			x.trivial = true
			return nil
		}
		sizes = tr.sizeTags
	}
	c := cc.P
	c.Segs = slices.Clone(c.Segs)
	for i := range c.Segs {
		c.Segs[i].N = slices.Clone(c.Segs[i].N)
	}
	for _, in := range cc.Ins {
		s := &c.Segs[in.Seg]
		s.N = slices.Insert(s.N, min(in.Pos, len(s.N)), in.N)
	}
	tr, evs, m, err := c.complete(x)
	if err == nil {
		err = allOK(tr, evs, m)
	}
	if err != nil {
		return fmt.Errorf("after inserting nodes without effect: %w", err)
	}
	for tag, n := range sizes {
		if k, ok := tr.sizeTags[tag]; !ok || k != n {
			return fmt.Errorf("after inserting nodes without effect: filter %d is told that the size is %d, without them %d", tag, k, n)
		}
	}
	return nil
}

// ---- C32 ----------------------------------------------------------------------

type C32Case struct {
	P    PCase  `json:"p"`
	Held int    `json:"held"`           // number of notifiers that block during the whole run
	Self bool   `json:"self"`           // a receiver calls Cancel
	Wait string `json:"wait,omitempty"` // prepare, fetch, recv: there the run waits until all notifiers have been called
}

func genC32(t *rapid.T, cfg *Cfg) C32Case {
	p := genPipe(t, popt{nodes: coreNodes, filters: []string{"recv", "rf"}, maxNodes: 3, batches: 8})
	p.Notify = rapid.IntRange(0, 5).Draw(t, "notifiers")
	c := C32Case{P: p, Held: rapid.IntRange(0, p.Notify).Draw(t, "held")}
	if rapid.IntRange(0, 2).Draw(t, "self") == 0 {
		genFaults(t, &c.P, []string{"cancel", "cancel", "seterr"})
	}
	switch rapid.IntRange(0, 15).Draw(t, "odd") {
	case 11: // a context that is cancelled before
		c.P.Ctx = true
		c.P.Faults = append(c.P.Faults, Fault{Do: "ctx", At: "pre"})
	case 12: // an error that is set before
		c.P.Faults = append(c.P.Faults, Fault{Do: "seterr", At: "pre"})
	case 13: // nothing to do
		c.P.Segs = []PS{{}}
		c.P.Faults = nil
	case 14, 15: // a source that fails
		switch c.P.Src.K {
		case "func", "funcknown", "scanner", "bytes":
			c.P.Src.ErrAt = rapid.IntRange(1, 4).Draw(t, "errat")
		}
	}
	c.Wait = rapid.SampledFrom([]string{"", "", "prepare", "fetch", "recv"}).Draw(t, "wait")
	return c
}

func runC32(x *X, cc C32Case) error {
	c := &cc.P
	tr := c.newTracer()
	tr.watchCancel = true
	s := tr.s
	// notifiers are always gated, also in free mode
	notify := &Sched{}
	notify.hold = func(Key) bool { return true }
	var bad atomic.Pointer[string]
	fail := func(f string, a ...any) {
		m := fmt.Sprintf(f, a...)
		bad.CompareAndSwap(nil, &m)
	}
	var inNotify [8]atomic.Int32
	called := make(chan struct{})
	var ncalled atomic.Int32
	if c.Notify == 0 {
		close(called)
	}
	tr.await = func(where string) {
		if where == cc.Wait {
			<-called
		}
	}
	tr.onNotify = func(i int) {
		inNotify[i].Add(1)
		if int(ncalled.Add(1)) == c.Notify {
			close(called)
		}
		if ctx := tr.ctxOf(); ctx == nil {
			fail("Context is nil in a notifier")
		} else if tr.givenCtx != nil && ctx != tr.givenCtx {
			fail("Context is not the context given to RunWithContext (in a notifier)")
		}
		if i < cc.Held {
			notify.Gate(Key{i})
		}
	}
	tr.onVisit = func() {
		tr.await("recv")
		if ctx := tr.ctxOf(); ctx == nil {
			fail("Context is nil in a receiver")
		} else if tr.givenCtx != nil && ctx != tr.givenCtx {
			fail("Context is not the context given to RunWithContext (in a receiver)")
		}
	}
	out := tr.exec()
	defer notify.Open()
	defer s.Open()
	if n := int(ncalled.Load()); out.Deadlock != "" && n < c.Notify {
		return fmt.Errorf("only %d of %d notifiers were called while the run waits for them (%s)\n%s", n, c.Notify, cc.Wait, trunc(out.Deadlock, 4000))
	}
	if out.Deadlock != "" && cc.Held > 0 {
		return fmt.Errorf("the run does not finish while a notifier blocks: notifiers must run in their own goroutine\n%s", trunc(out.Deadlock, 4000))
	}
	if err := out.hang(); err != nil {
		return err
	}
	if out.Panicked {
		return fmt.Errorf("the run panicked: %v", out.Panic)
	}
	for _, f := range c.Faults {
		if f.At == "pre" && f.Do == "seterr" {
			// nothing runs
			if _, err := s.Drain(); err != nil {
				return err
			}
			x.Label("error before the run")
			for i := range c.Notify {
				if inNotify[i].Load() > 0 {
					return fmt.Errorf("notifier %d was called although the run does not start because of an earlier error", i)
				}
			}
			for _, v := range tr.events() {
				switch v.kind {
				case evFetch, evEnter:
					return fmt.Errorf("a run with an earlier error fetches or processes batches")
				}
			}
			return nil
		}
	}
	ctx := tr.ctxOf()
	if ctx == nil {
		return fmt.Errorf("Context is nil after the run")
	}
	if !c.Ctx && ctx.Err() == nil {
		return fmt.Errorf("the context is not cancelled after Run returned")
	}
	if c.Ctx {
		if ctx != tr.givenCtx {
			return fmt.Errorf("Context is not the context given to RunWithContext")
		}
	}
	notify.Open()
	if _, err := s.Drain(); err != nil {
		return err
	}
	if c.Ctx {
		defer tr.doCtx()
		tr.mu.Lock()
		cancels, cancelled := int(tr.cancelCalls.Load()), tr.cancelled || tr.srcErr != nil
		tr.mu.Unlock()
		byCaller := slices.ContainsFunc(c.Faults, func(f Fault) bool { return f.Do == "ctx" })
		if byCaller {
			x.Label("context cancelled before the run")
		} else if cancelled != (cancels > 0) {
			return fmt.Errorf("Cancel called: %v, but the cancel function given to RunWithContext was called %d times", cancelled, cancels)
		}
	}
	for i := range c.Notify {
		if n := inNotify[i].Load(); n != 1 {
			return fmt.Errorf("notifier %d was called %d times", i, n)
		}
	}
	if b := bad.Load(); b != nil {
		return fmt.Errorf("%s", *b)
	}
	c.label(x)
	x.trivial = c.Notify == 0
	x.obs = fmt.Sprintf("%d notifiers, %d blocking", c.Notify, cc.Held)
	return nil
}

func init() {
	define("C17", "a complete run of at least 2 batches", append(pipeCfgs(1200), Cfg{Name: "crowd", Mode: "crowd", Quick: 60, Thor: 600}), genC17, runC17)
	define("C18", "a complete run of at least 2 batches with an ordered or sequential node behind a parallel one", append(pipeCfgs(1200), Cfg{Name: "crowd", Mode: "crowd", Quick: 60, Thor: 600}), genC18, runC18)
	define("C19", "at least 2 batches reach the held node", []Cfg{
		{Name: "default", Quick: 1500},
		{Name: "1 cpu", CPUs: 1, Quick: 500},
		{Name: "2 cpus", CPUs: 2, Quick: 800},
		{Name: "3 cpus", CPUs: 3, Quick: 800},
		{Name: "gomaxprocs 2", Procs: 2, Quick: 500},
		{Name: "2 cpus, gomaxprocs 12", CPUs: 2, Procs: 12, Quick: 500},
		{Name: "crowd", Mode: "crowd", Quick: 60, Thor: 600},
	}, genC19, runC19)
	define("C20", "a run of at least 3 batches", append(pipeCfgs(2000), Cfg{Name: "crowd", Mode: "crowd", Quick: 60, Thor: 600}), genC20, runC20)
	define("C21", "a run with at least one finalizer and one batch", pipeCfgs(1200), genC21, runC21)
	define("C22", "a run of at least 2 batches", []Cfg{{Name: "default", Quick: 3000}, {Name: "1 cpu", CPUs: 1, Quick: 1000}, {Name: "3 cpus", CPUs: 3, Quick: 1000}}, genC22, runC22)
	define("C26", "at least 2 batches and one result filter", pipeCfgs(1200), genC26, runC26)
	define("C27", "at least 2 batches and a window that cuts something off (or a cancelling limit)", pipeCfgs(1500), genC27, runC27)
	define("C28", "at least 2 batches and one transform", pipeCfgs(1200), genC28, runC28)
	define("C29", "a run of at least 2 batches with inserted nodes", pipeCfgs(1000), genC29, runC29)
	define("C32", "a run with at least one notifier", pipeCfgs(600), genC32, runC32)
}

var _ = context.Background
var _ sync.Mutex
var _ = pipeline.New[int]
