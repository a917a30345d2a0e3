package main

import (
	"fmt"
	"runtime"
	"slices"
	"sort"
	"strings"

	"pgregory.net/rapid"
)

// ---- reference model of a complete run -------------------------------------------

type nf [2]int // node, filter

type pmodel struct {
	n     int                // number of batches
	in2   map[nf][][]string  // what each filter sees, by sequence number
	in    map[nf][][]string  // what each logged function receives, by sequence number
	win   map[int][][]string // input of each Limit and Skip node, by sequence number
	order []nf               // logged functions in program order
	cnt   map[nf]int         // elements seen at each filter
	pred  map[nf]PF
	typ   map[nf]string
	fins  []nf
	out   [][]string // behind the last node
}

// model computes what every function of the pipeline sees for these batches.
func (c *PCase) model(batches [][]string, typ string) *pmodel {
	m := &pmodel{n: len(batches), in: map[nf][][]string{}, in2: map[nf][][]string{}, win: map[int][][]string{}, cnt: map[nf]int{}, pred: map[nf]PF{}, typ: map[nf]string{}}
	cur := slices.Clone(batches)
	base := 0
	see := func(k nf) {
		t := 0
		for _, b := range cur {
			t += len(b)
		}
		m.cnt[k] = t
		m.in2[k] = slices.Clone(cur)
		m.typ[k] = typ
	}
	note := func(k nf) {
		m.in[k] = slices.Clone(cur)
		m.order = append(m.order, k)
	}
	for _, seg := range c.Segs {
		for i, pn := range seg.N {
			id := base + i
			switch pn.K {
			case "Limit":
				m.win[id] = slices.Clone(cur)
				left := pn.A
				for s, b := range cur {
					if pn.A < 0 {
						break
					}
					if len(b) > left {
						cur[s] = b[:left]
					}
					left -= len(cur[s])
				}
			case "Skip":
				m.win[id] = slices.Clone(cur)
				left := pn.A
				for s, b := range cur {
					if pn.A < 0 {
						cur[s] = nil
						continue
					}
					k := min(left, len(b))
					cur[s] = b[k:]
					left -= k
				}
			case "Custom":
				note(nf{id, 0})
			default:
				for f, pf := range pn.F {
					k := nf{id, f}
					see(k)
					if loggedF(pf.K) {
						note(k)
						m.pred[k] = pf
					}
					if pf.K == "fin" || pf.K == "rf" {
						m.fins = append(m.fins, k)
					}
					for s, b := range cur {
						cur[s] = applyF(typ, pf, s, b)
					}
				}
			}
		}
		base += len(seg.N)
		if seg.T != "" {
			note(nf{base, 0})
			to := map[string]string{"int": "string", "string": "int", "bytes": "string"}[typ]
			for s, b := range cur {
				cur[s] = applyT(typ, to, seg.A, s, b)
			}
			typ = to
			base++
		}
	}
	m.out = cur
	return m
}

// batches returns what was fetched from the source, and whether the source was
// read to its end.
func (tr *tracer) batches() (res [][]string, end bool, err error) {
	tr.mu.Lock()
	defer tr.mu.Unlock()
	for i, f := range tr.fetches {
		if f.got == 0 {
			end = true
			if i+1 < len(tr.fetches) {
				return nil, false, fmt.Errorf("the source was asked for more after it had reported its end")
			}
			break
		}
		res = append(res, f.data)
	}
	return
}

func sameS(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func joinAll(bs [][]string) (r []string) {
	for _, b := range bs {
		r = append(r, b...)
	}
	return
}

func (tr *tracer) nodeName(k nf) string {
	return fmt.Sprintf("node %d (%s) function %d", k[0], tr.nodeKind[k[0]], k[1])
}

// ---- checks on a trace -------------------------------------------------------------

// values: no function is called twice for a batch, and every call gets what the
// model says for that batch. With all set, every function must have been
// called for every batch.
func (tr *tracer) values(evs []pev, m *pmodel, all bool) error {
	calls := map[nf]map[int]int{}
	preds := map[nf]map[string]int{}
	for _, e := range evs {
		if e.kind != evEnter {
			continue
		}
		k := nf{e.node, e.f}
		if e.seq < 0 {
			if preds[k] == nil {
				preds[k] = map[string]int{}
				for _, b := range m.in[k] {
					preds[k][strings.Join(b, ",")]++
				}
			}
			d := strings.Join(e.data, ",")
			preds[k][d]--
			if preds[k][d] < 0 {
				return fmt.Errorf("%s: predicate called with %v, which is no batch at this point, or once too often", tr.nodeName(k), e.data)
			}
			continue
		}
		in := m.in[k]
		if e.seq >= len(in) {
			return fmt.Errorf("%s called with sequence number %d, but only %d batches were fetched", tr.nodeName(k), e.seq, len(in))
		}
		if calls[k] == nil {
			calls[k] = map[int]int{}
		}
		calls[k][e.seq]++
		if calls[k][e.seq] > 1 {
			return fmt.Errorf("%s called twice for batch %d", tr.nodeName(k), e.seq)
		}
		if !sameS(in[e.seq], e.data) {
			return fmt.Errorf("%s received %v for batch %d, expected %v", tr.nodeName(k), e.data, e.seq, in[e.seq])
		}
	}
	if !all {
		return nil
	}
	for _, k := range m.order {
		if isPred(m.pred[k].K) {
			for d, n := range preds[k] {
				if n != 0 {
					return fmt.Errorf("%s: predicate not called for batch [%s]", tr.nodeName(k), d)
				}
			}
			if preds[k] == nil && m.n > 0 {
				return fmt.Errorf("%s: predicate never called", tr.nodeName(k))
			}
			continue
		}
		for s := range m.n {
			if calls[k][s] != 1 {
				return fmt.Errorf("%s was not called for batch %d of %d", tr.nodeName(k), s, m.n)
			}
		}
	}
	return nil
}

// chain: for each batch the functions are called in the order of the program.
func (tr *tracer) chain(evs []pev, m *pmodel) error {
	pos := map[nf]int{}
	for i, k := range m.order {
		pos[k] = i
	}
	last := map[int]int{} // seq -> position of the last function left
	active := map[int]int{}
	for _, e := range evs {
		if e.seq < 0 || e.kind != evEnter && e.kind != evLeave {
			continue
		}
		p := pos[nf{e.node, e.f}] + 1
		if e.kind == evEnter {
			if a := active[e.seq]; a != 0 {
				return fmt.Errorf("batch %d enters %s while it is still in %s", e.seq, tr.nodeName(m.order[p-1]), tr.nodeName(m.order[a-1]))
			}
			if last[e.seq] > p {
				return fmt.Errorf("batch %d enters %s after %s", e.seq, tr.nodeName(m.order[p-1]), tr.nodeName(m.order[last[e.seq]-1]))
			}
			active[e.seq] = p
		} else {
			active[e.seq] = 0
			last[e.seq] = p
		}
	}
	return nil
}

func orderedKind(k string) bool {
	switch k {
	case "Ord", "StrictOrd", "OrdTransform", "StrictOrdTransform":
		return true
	}
	return false
}

func exclusiveKind(k string) bool {
	return orderedKind(k) || k == "Seq" || k == "SeqTransform"
}

// ordering: ordered nodes see 0, 1, 2, ...; ordered and sequential nodes have
// one batch at a time.
func (tr *tracer) ordering(evs []pev, m *pmodel) error {
	next := map[nf]int{}
	active := map[int]map[int]int{}
	for _, e := range evs {
		if e.kind != evEnter && e.kind != evLeave {
			continue
		}
		kind := tr.nodeKind[e.node]
		if !exclusiveKind(kind) || e.seq < 0 {
			continue
		}
		if active[e.node] == nil {
			active[e.node] = map[int]int{}
		}
		a := active[e.node]
		if e.kind == evEnter {
			for s, n := range a {
				if n > 0 && s != e.seq {
					return fmt.Errorf("node %d (%s) processes batches %d and %d at the same time", e.node, kind, s, e.seq)
				}
			}
			a[e.seq]++
			if orderedKind(kind) {
				k := nf{e.node, e.f}
				if next[k] != e.seq {
					return fmt.Errorf("%s received batch %d when it should receive batch %d", tr.nodeName(k), e.seq, next[k])
				}
				next[k]++
			}
		} else {
			a[e.seq]--
		}
	}
	return nil
}

// finals: finalizers at most once, after the receivers of their node; with all
// set each exactly once and everything before the return of the run.
func (tr *tracer) finals(evs []pev, m *pmodel, all bool) error {
	count, done := map[nf]int{}, map[nf]int{}
	active := map[int]int{}
	returned := false
	finished := map[int]bool{}
	for _, e := range evs {
		k := nf{e.node, e.f}
		switch e.kind {
		case evEnter:
			active[e.node]++
			if returned && all {
				return fmt.Errorf("%s called after Run returned", tr.nodeName(k))
			}
			if finished[e.node] && all {
				return fmt.Errorf("%s called for batch %d after a finalizer of its node", tr.nodeName(k), e.seq)
			}
		case evLeave:
			active[e.node]--
			if returned && all {
				return fmt.Errorf("Run returned while %s was still processing a batch", tr.nodeName(k))
			}
		case evFin:
			count[k]++
			finished[e.node] = true
			if count[k] > 1 {
				return fmt.Errorf("finalizer of %s called twice", tr.nodeName(k))
			}
			if active[e.node] > 0 {
				return fmt.Errorf("finalizer of %s called while its node still processes a batch", tr.nodeName(k))
			}
		case evFinDone:
			done[k]++
			if returned && all {
				return fmt.Errorf("Run returned before the finalizer of %s did", tr.nodeName(k))
			}
		case evReturn:
			returned = true
		}
	}
	if all {
		for _, k := range m.fins {
			if count[k] != 1 || done[k] != 1 {
				return fmt.Errorf("finalizer of %s was called %d times (finished %d times)", tr.nodeName(k), count[k], done[k])
			}
		}
	}
	return nil
}

// sizesOK: a known size seen by a filter is the number of elements that follow.
func (tr *tracer) sizesOK(m *pmodel) error {
	for k, v := range tr.sizes {
		if v >= 0 && v != m.cnt[nf(k)] {
			return fmt.Errorf("%s was told a total size of %d, but %d elements arrive", tr.nodeName(nf(k)), v, m.cnt[nf(k)])
		}
	}
	return nil
}

// contiguous reports whether got is a concatenation of all (or just some) of
// the batches in some order.
func contiguous(got []string, batches [][]string, all bool) bool {
	var left [][]string
	total := 0
	for _, b := range batches {
		if len(b) > 0 {
			left = append(left, b)
			total += len(b)
		}
	}
	if all && total != len(got) {
		return false
	}
	sort.Slice(left, func(i, j int) bool { return len(left[i]) > len(left[j]) })
	used := make([]bool, len(left))
	budget := 200000
	var rec func(at int) bool
	rec = func(at int) bool {
		if at == len(got) {
			return true
		}
		budget--
		if budget < 0 {
			return true
		}
		for i, b := range left {
			if used[i] || at+len(b) > len(got) || !sameS(b, got[at:at+len(b)]) {
				continue
			}
			dup := false
			for j := range i {
				if !used[j] && sameS(left[j], b) {
					dup = true // the same choice was tried already
				}
			}
			if dup {
				continue
			}
			used[i] = true
			if rec(at + len(b)) {
				return true
			}
			used[i] = false
		}
		return false
	}
	return rec(0)
}

func quantify(kind string, res []bool) bool {
	all, some := true, false
	for _, r := range res {
		all = all && r
		some = some || r
	}
	switch kind {
	case "every":
		return all
	case "notevery":
		return !all
	case "some":
		return some
	}
	return !some
}

// resultsOK checks the result variables of result filters.
func (tr *tracer) resultsOK(evs []pev, m *pmodel, full bool) error {
	logged := map[nf][]bool{}
	for _, e := range evs {
		if e.kind == evLeave && e.seq < 0 {
			k := nf{e.node, e.f}
			logged[k] = append(logged[k], e.res)
		}
	}
	for _, rv := range tr.results {
		k := nf{rv.node, rv.f}
		switch rv.kind {
		case "every", "notevery", "some", "notany":
			if want := quantify(rv.kind, logged[k]); rv.b != want {
				return fmt.Errorf("%s: %s stored %v, but its predicate returned %v", tr.nodeName(k), rv.kind, rv.b, logged[k])
			}
			if full {
				var res []bool
				for _, b := range m.in[k] {
					res = append(res, predS(m.pred[k].A, b))
				}
				if want := quantify(rv.kind, res); rv.b != want {
					return fmt.Errorf("%s: %s stored %v, but over all batches it is %v", tr.nodeName(k), rv.kind, rv.b, want)
				}
			}
		case "count":
			if full && rv.n != m.cnt[k] {
				return fmt.Errorf("%s: Count stored %d, but %d elements passed (result variable was %d before)", tr.nodeName(k), rv.n, m.cnt[k], rv.pre)
			}
		}
	}
	return nil
}

// appendsOK checks Append. in is the input of the filter by sequence number.
func (tr *tracer) appendsOK(m *pmodel, full bool) error {
	in := m.in2
	for _, rv := range tr.results {
		if rv.kind != "append" {
			continue
		}
		k := nf{rv.node, rv.f}
		got := rv.app()
		for i := range rv.pre {
			if i >= len(got) || got[i] != fmt.Sprint(i) {
				return fmt.Errorf("%s: Append changed the former contents of the result: %v", tr.nodeName(k), got)
			}
		}
		got = got[rv.pre:]
		if !full {
			if orderedKind(tr.nodeKind[rv.node]) {
				rest := got
				for _, b := range in[k] {
					if len(rest) == 0 || len(b) > len(rest) || !sameS(b, rest[:len(b)]) {
						break
					}
					rest = rest[len(b):]
				}
				if len(rest) > 0 {
					return fmt.Errorf("%s: Append in an ordered node gave %v, which is no prefix of the batches %v", tr.nodeName(k), got, in[k])
				}
			} else if !contiguous(got, in[k], false) {
				return fmt.Errorf("%s: Append gave %v, which consists of no part of the batches %v", tr.nodeName(k), got, in[k])
			}
			continue
		}
		if orderedKind(tr.nodeKind[rv.node]) {
			if want := joinAll(in[k]); !sameS(got, want) {
				return fmt.Errorf("%s: Append in an ordered node gave %v, expected %v", tr.nodeName(k), got, want)
			}
		} else if !contiguous(got, in[k], true) {
			return fmt.Errorf("%s: Append gave %v, which is no sequence of the batches %v", tr.nodeName(k), got, in[k])
		}
	}
	return nil
}

// ---- generation ---------------------------------------------------------------------

type popt struct {
	nodes, filters, srcs, trans []string
	maxNodes, maxSegs           int
	batches                     int // upper bound of the number of batches
	minBatches                  int
	modes                       []int
	maxSteps                    int  // bound for the number of gated calls
	plain                       bool // no nodes or filters without effect, no special sizes
	many                        int  // upper bound of the number of batches of rare long runs
}

var (
	allSrcs   = []string{"slice", "multichan", "scanner", "bytes", "chan", "func", "funcknown"}
	coreNodes = []string{"Par", "LimitedPar", "Seq", "Ord", "StrictOrd"}
	allTrans  = []string{"Transform", "OrdTransform", "SeqTransform", "ParTransform", "StrictOrdTransform", "LimitedParTransform"}
)

func genSrc(t *rapid.T, o *popt) Src {
	s := Src{K: rapid.SampledFrom(o.srcs).Draw(t, "src")}
	nb := rapid.IntRange(o.minBatches, o.batches).Draw(t, "batches")
	switch s.K {
	case "slice", "funcknown":
		per := rapid.IntRange(1, 4).Draw(t, "per")
		if nb > 0 {
			s.Len = max(0, nb*per-rapid.IntRange(0, per-1).Draw(t, "less"))
		}
		s.Nof = max(1, nb)
		if o.minBatches == 0 {
			switch rapid.IntRange(0, 9).Draw(t, "nof") {
			case 0:
				s.Nof = 0
				s.Len = min(s.Len, max(0, o.batches))
			case 1:
				s.Nof = s.Len + rapid.IntRange(1, 5).Draw(t, "more")
				s.Len = min(s.Len, o.batches)
			}
		}
		if s.K == "funcknown" && rapid.Bool().Draw(t, "short") {
			s.Len = min(s.Len, o.batches)
			s.Chunk = rapid.SliceOfN(rapid.IntRange(1, 3), 1, 4).Draw(t, "chunks")
		}
	case "chan", "func":
		s.Inc = rapid.IntRange(1, 4).Draw(t, "inc")
		s.Max = rapid.IntRange(1, 6).Draw(t, "max")
		s.Chunk = rapid.SliceOfN(rapid.IntRange(1, 3), 1, 4).Draw(t, "chunks")
		s.Len = nb
		if o.minBatches == 0 && rapid.Bool().Draw(t, "bigger") {
			avg := 0
			for _, c := range s.Chunk {
				if s.K == "func" {
					c = min(c, s.Max)
				}
				avg += c
			}
			s.Len = nb * avg / len(s.Chunk) * 4 / 5
		} else if o.minBatches > 0 {
			s.Chunk = nil
			s.Inc, s.Max = 1, 1
			if s.K == "chan" {
				s.Chunk = []int{1}
			}
		}
	default:
		s.Inc = rapid.IntRange(1, 3).Draw(t, "inc")
		s.Max = rapid.IntRange(1, 5).Draw(t, "max")
		s.Len = nb
		if o.minBatches > 0 {
			s.Inc, s.Max = 1, 1
		} else if rapid.Bool().Draw(t, "bigger") {
			s.Len = nb * s.Max * 2 / 3
		}
	}
	return s
}

func genFilter(t *rapid.T, kinds []string) PF {
	pf := PF{K: rapid.SampledFrom(kinds).Draw(t, "filter")}
	switch pf.K {
	case "map", "inplace", "rf", "drop", "ext", "append":
		pf.A = rapid.IntRange(0, 3).Draw(t, "arg")
	case "count":
		pf.A = rapid.SampledFrom([]int{0, 0, 7, -3}).Draw(t, "arg")
	case "every", "notevery", "some", "notany":
		pf.A = rapid.IntRange(0, 12).Draw(t, "arg")
	}
	return pf
}

var windowSizes = []int{0, 1, 2, 3, 5, 8, 13, 40}
var bigWindows = []int{0, 1, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 400, 511, 512, 513, 1000, 1024, 3000}

// noopNode returns a node that has nothing to do.
func noopNode(t *rapid.T) PN {
	switch rapid.IntRange(0, 6).Draw(t, "noop") {
	case 1:
		return PN{K: "Limit", A: -1}
	case 2:
		return PN{K: "Skip"}
	case 3:
		return PN{K: rapid.SampledFrom(coreNodes).Draw(t, "k"), F: []PF{{K: "count", A: 1}}}
	case 4, 5:
		return PN{K: rapid.SampledFrom(coreNodes).Draw(t, "k"), F: []PF{{K: rapid.SampledFrom([]string{"id", "size"}).Draw(t, "f")}}}
	}
	return PN{K: rapid.SampledFrom(coreNodes).Draw(t, "k")}
}

// addNoops inserts nodes and filters without effect.
func (c *PCase) addNoops(t *rapid.T) {
	for range rapid.IntRange(1, 3).Draw(t, "noops") {
		s := &c.Segs[rapid.IntRange(0, len(c.Segs)-1).Draw(t, "noopseg")]
		s.N = slices.Insert(s.N, rapid.IntRange(0, len(s.N)).Draw(t, "nooppos"), noopNode(t))
	}
	if rapid.Bool().Draw(t, "noop filter") {
		c.each(func(_ int, pn *PN, _ string) {
			if pn == nil || pn.K == "Limit" || pn.K == "Skip" || pn.K == "Custom" {
				return
			}
			if rapid.IntRange(0, 2).Draw(t, "noopf") == 0 {
				pn.F = slices.Insert(pn.F, rapid.IntRange(0, len(pn.F)).Draw(t, "nooffpos"), PF{K: rapid.SampledFrom([]string{"id", "size"}).Draw(t, "f")})
			}
		})
	}
}

// enlarge makes the run long or its batches big.
func (c *PCase) enlarge(t *rapid.T, o *popt) {
	c.each(func(_ int, pn *PN, _ string) {
		if pn != nil && (pn.K == "Skip" && pn.A != 0 || pn.K == "Limit" && pn.A >= 0) {
			pn.A = rapid.SampledFrom(bigWindows).Draw(t, "bign")
		}
	})
}

func genNode(t *rapid.T, o *popt) PN {
	pn := PN{K: rapid.SampledFrom(o.nodes).Draw(t, "node")}
	switch pn.K {
	case "Limit", "Skip":
		pn.A = rapid.SampledFrom(windowSizes).Draw(t, "n")
		if pn.K == "Limit" && rapid.IntRange(0, 5).Draw(t, "neg") == 0 {
			pn.A = -1
		}
	case "Custom":
	default:
		for range rapid.IntRange(1, 2).Draw(t, "nfilters") {
			pn.F = append(pn.F, genFilter(t, o.filters))
		}
	}
	return pn
}

// keeps reports whether this node is kept in the pipeline in any case.
func keeps(pn PN) bool {
	if pn.K == "Custom" {
		return true
	}
	for _, f := range pn.F {
		switch f.K {
		case "size", "id", "count":
		default:
			return true
		}
	}
	return false
}

func genPipe(t *rapid.T, o popt) PCase {
	if o.maxNodes == 0 {
		o.maxNodes = 4
	}
	if o.srcs == nil {
		o.srcs = allSrcs
	}
	if o.nodes == nil {
		o.nodes = coreNodes
	}
	if o.modes == nil {
		o.modes = []int{0, 0, 1, 2}
	}
	if o.maxSteps == 0 {
		o.maxSteps = 120
	}
	var c PCase
	nseg := 1
	if len(o.trans) > 0 {
		nseg = rapid.IntRange(1, max(2, o.maxSegs)).Draw(t, "segs")
	}
	funcs := 0
	for i := range nseg {
		var s PS
		lo := 0
		if i == nseg-1 {
			lo = 1
		}
		for range rapid.IntRange(lo, max(1, o.maxNodes/nseg+1)).Draw(t, "nodes") {
			s.N = append(s.N, genNode(t, &o))
		}
		if i < nseg-1 {
			s.T = rapid.SampledFrom(o.trans).Draw(t, "trans")
			s.A = rapid.IntRange(0, 2).Draw(t, "targ")
			funcs++
		}
		c.Segs = append(c.Segs, s)
	}
	last := &c.Segs[nseg-1]
	if !slices.ContainsFunc(last.N, keeps) {
		last.N = append(last.N, PN{K: "Par", F: []PF{{K: "recv"}}})
	}
	for _, s := range c.Segs {
		for _, n := range s.N {
			for _, f := range n.F {
				if loggedF(f.K) {
					funcs++
				}
			}
			if n.K == "Custom" {
				funcs++
			}
		}
	}
	if !o.plain && rapid.IntRange(0, 2).Draw(t, "with noops") == 2 {
		c.addNoops(t)
	}
	c.Mode = rapid.SampledFrom(o.modes).Draw(t, "mode")
	special := 0
	if !o.plain && o.minBatches == 0 {
		special = rapid.IntRange(0, 39).Draw(t, "special size")
	}
	switch special {
	case 38, 39: // many batches
		c.Mode = 2
		c.enlarge(t, &o)
		o.minBatches = 100
		o.batches = max(200, o.many)
	case 36, 37: // big batches
		c.Mode = 2
		c.enlarge(t, &o)
	}
	if c.Mode == 0 && funcs > 0 && o.minBatches == 0 {
		o.batches = min(o.batches, max(3, o.maxSteps/funcs))
	}
	c.Src = genSrc(t, &o)
	switch special {
	case 38, 39:
		c.Src.Chunk = nil
		if c.Src.K != "slice" && c.Src.K != "funcknown" && rapid.Bool().Draw(t, "bigger batches") {
			k := rapid.IntRange(1, 4).Draw(t, "k")
			c.Src.Inc, c.Src.Max = k, k
			c.Src.Len *= k
		}
	case 36, 37:
		k := rapid.SampledFrom([]int{10, 64, 100, 511, 700}).Draw(t, "factor")
		c.Src.Len = c.Src.Len*k + rapid.IntRange(0, k-1).Draw(t, "rest")
		c.Src.Inc *= k
		c.Src.Max *= k
		for i := range c.Src.Chunk {
			c.Src.Chunk[i] *= k
		}
	}
	c.Ctx = rapid.IntRange(0, 3).Draw(t, "ctx") == 0
	c.Seed = rapid.Uint64Range(0, 1<<20).Draw(t, "seed")
	if c.Mode != 2 {
		c.Sched = genSched(t)
	} else if rapid.IntRange(0, 9).Draw(t, "with twins") == 9 {
		c.Twins = rapid.IntRange(1, 3).Draw(t, "twins")
	}
	switch rapid.IntRange(0, 3).Draw(t, "add") {
	case 2:
		c.Grp = rapid.IntRange(2, 3).Draw(t, "group")
	case 3:
		c.Grp = -1
	}
	c.Query = rapid.IntRange(0, 3).Draw(t, "query") == 3
	c.Late = rapid.IntRange(0, 3).Draw(t, "late") == 3
	if p := rapid.IntRange(0, 7).Draw(t, "pack"); p > 5 {
		c.Pack = p - 5
	}
	if len(c.Segs) > 1 {
		c.Via = rapid.IntRange(0, 63).Draw(t, "via")
	}
	return c
}

// nodes calls f for all nodes of the case with their ids.
func (c *PCase) each(f func(id int, pn *PN, trans string)) {
	id := 0
	for i := range c.Segs {
		for j := range c.Segs[i].N {
			f(id, &c.Segs[i].N[j], "")
			id++
		}
		if c.Segs[i].T != "" {
			f(id, nil, c.Segs[i].T)
			id++
		}
	}
}

func (c *PCase) label(x *X) {
	x.Label("source %s", c.Src.K)
	x.Label("mode %s", []string{"gated", "partly gated", "free"}[c.Mode])
	switch c.Pack {
	case 1:
		x.Label("filters of several nodes passed in slices of one array")
	case 2:
		x.Label("slice of filters used again for the next node")
	}
	if c.Via != 0 {
		x.Label("pipeline behind a transform used for settings, faults or Run")
	}
	prev := ""
	c.each(func(_ int, pn *PN, trans string) {
		k := trans
		if pn != nil {
			k = pn.K
		}
		x.Label("node %s", k)
		if prev != "" {
			x.Label("%s > %s", prev, k)
		}
		prev = k
	})
}

// complete runs a case that is expected to run to its end and checks that it
// does; it returns the trace and the model.
func (c *PCase) complete(x *X) (*tracer, []pev, *pmodel, error) {
	tr := c.newTracer()
	out := tr.exec()
	defer tr.s.Open()
	if err := out.hang(); err != nil {
		return tr, nil, nil, err
	}
	if out.Stalled {
		return tr, nil, nil, fmt.Errorf("harness: stalled without hold")
	}
	if out.Panicked {
		return tr, nil, nil, fmt.Errorf("the run panicked: %v", out.Panic)
	}
	bs, end, err := tr.batches()
	if err != nil {
		return tr, nil, nil, err
	}
	if err := tr.errOf(); err != nil {
		return tr, nil, nil, fmt.Errorf("Err is %v after a run without errors", err)
	}
	if !end {
		return tr, nil, nil, fmt.Errorf("the run ended before the source was read to its end (%d batches)", len(bs))
	}
	if got := joinAll(bs); tr.underlying != nil && !sameS(got, tr.underlying) {
		return tr, nil, nil, fmt.Errorf("the batches of the run %v do not concatenate to the source data (%d elements)", bs, len(tr.underlying))
	}
	evs := tr.events()
	m := c.model(bs, tr.srcType)
	c.label(x)
	x.trivial = m.n < 2
	x.obs = fmt.Sprintf("%d batches, %d events", m.n, len(evs))
	return tr, evs, m, nil
}

var _ = runtime.NumCPU
