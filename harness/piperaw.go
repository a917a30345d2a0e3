package main

import (
	"errors"
	"fmt"
	"strings"
	"sync"

	"github.com/intel/forGoParallel/pipeline"
	"pgregory.net/rapid"
)

// ---- C30: plain memory only -------------------------------------------------------
//
// The functions of these pipelines use no lock, channel or atomic operation, so
// that every happens-before edge between them comes from the library: each
// stage writes a mark and a hash of its batch to plain memory, the next stage
// and, after Run, the caller read it, and the race detector watches. Batches
// are modified, shrunk and extended in place, which must not affect others.

const rawMax = 512

type rawState struct {
	prev    map[nf]nf
	has     map[nf]bool
	mark    map[nf]*[rawMax]int
	hash    map[nf]*[rawMax]uint64
	count   map[int]*int // calls of the functions of sequential nodes
	fin     map[nf]*int
	bad     map[nf]*[rawMax]string
	perNode map[int][]nf
	mu      sync.Mutex
	wild    string
}

func newRaw(c *PCase) *rawState {
	r := &rawState{prev: map[nf]nf{}, has: map[nf]bool{}, mark: map[nf]*[rawMax]int{}, hash: map[nf]*[rawMax]uint64{}, count: map[int]*int{}, fin: map[nf]*int{}, bad: map[nf]*[rawMax]string{}, perNode: map[int][]nf{}}
	m := c.model(nil, map[string]string{"scanner": "string", "bytes": "bytes"}[c.Src.K])
	last := nf{-1, -1}
	for _, k := range m.order {
		r.mark[k] = new([rawMax]int)
		r.hash[k] = new([rawMax]uint64)
		r.bad[k] = new([rawMax]string)
		if isPred(m.pred[k].K) {
			continue
		}
		if last[0] >= 0 {
			r.prev[k], r.has[k] = last, true
		}
		last = k
	}
	c.each(func(id int, pn *PN, _ string) { r.count[id] = new(int) })
	for _, k := range m.order {
		r.perNode[k[0]] = append(r.perNode[k[0]], k)
	}
	for _, k := range m.fins {
		r.fin[k] = new(int)
	}
	return r
}

func (r *rawState) stage(tr *tracer, k nf, seq int, in []string) {
	if seq < 0 || seq >= rawMax {
		r.mu.Lock()
		r.wild = fmt.Sprintf("%s was called with sequence number %d", tr.nodeName(k), seq)
		r.mu.Unlock()
		return
	}
	if r.has[k] {
		if p := r.prev[k]; r.mark[p][seq] != seq+1 {
			r.bad[k][seq] = fmt.Sprintf("%s does not see what %s wrote for batch %d", tr.nodeName(k), tr.nodeName(p), seq)
		}
	}
	r.mark[k][seq] = seq + 1
	r.hash[k][seq] = hashS(strings.Join(in, ","))
	if exclusiveKind(tr.nodeKind[k[0]]) {
		*r.count[k[0]]++
	}
	tr.jitter(k[0], k[1], seq)
}

func rawFuncs[E any](tr *tracer, et elemT[E], node, f int, pf PF) (pipeline.Receiver[[]E], pipeline.Finalizer, pipeline.Predicate[[]E]) {
	r := tr.raw
	if r == nil {
		return nil, nil, nil
	}
	k := nf{node, f}
	recv := func(seq int, data []E) []E {
		in := strsOf(et, data)
		r.stage(tr, k, seq, in)
		switch pf.K {
		case "map", "inplace", "rf":
			mapIn(et, data, in, pf)
		case "drop", "ext":
			data = data[:0]
			for _, s := range applyF(et.name, pf, seq, in) {
				data = append(data, et.fromS(s))
			}
		}
		return data
	}
	fin := func() {
		// everything the receivers of this node wrote is visible here
		n := 0
		for _, o := range r.perNode[node] {
			for s := range rawMax {
				if r.mark[o][s] != 0 {
					n++
				}
			}
		}
		*r.fin[k] = 1 + n
	}
	pred := func(data []E) bool {
		in := strsOf(et, data)
		if exclusiveKind(tr.nodeKind[node]) {
			*r.count[node]++
		}
		tr.jitter(node, f, len(data))
		return predS(pf.A, in)
	}
	return recv, fin, pred
}

func genC30(t *rapid.T, cfg *Cfg) PCase {
	o := popt{many: 400, nodes: cat(coreNodes, coreNodes, []string{"Limit", "Skip"}), filters: cat([]string{"recv", "map", "inplace", "rf", "rf", "fin", "drop", "ext", "ext"}, resultFilters), maxNodes: 5, batches: 40, modes: []int{2}}
	if rapid.IntRange(0, 2).Draw(t, "transforms") == 0 {
		o.trans, o.maxSegs = allTrans, 3
	}
	return genPipe(t, o)
}

func runC30(x *X, c PCase) error {
	tr := c.newTracer()
	tr.raw = newRaw(&c)
	out := tr.exec()
	if err := out.hang(); err != nil {
		return err
	}
	if out.Panicked {
		return fmt.Errorf("the run panicked: %v", out.Panic)
	}
	bs, _, err := tr.batches()
	if err != nil {
		return err
	}
	m := c.model(bs, tr.srcType)
	c.label(x)
	x.trivial = m.n < 2
	x.obs = fmt.Sprintf("%d batches, %d functions", m.n, len(m.order))
	if got := joinAll(bs); !sameS(got, tr.underlying) {
		return fmt.Errorf("the fetched batches %v differ from the source data: a batch was changed by what receivers did to another one", bs)
	}
	r := tr.raw
	r.mu.Lock()
	wild := r.wild
	r.mu.Unlock()
	if wild != "" {
		return errors.New(wild)
	}
	calls := map[int]int{}
	for _, k := range m.order {
		calls[k[0]] += m.n
		if isPred(m.pred[k].K) {
			continue
		}
		for s := range m.n {
			if b := r.bad[k][s]; b != "" {
				return fmt.Errorf("%s", b)
			}
			if r.mark[k][s] != s+1 {
				return fmt.Errorf("%s: nothing written for batch %d", tr.nodeName(k), s)
			}
			if want := m.in[k][s]; r.hash[k][s] != hashS(strings.Join(want, ",")) {
				return fmt.Errorf("%s did not see %v in batch %d", tr.nodeName(k), want, s)
			}
		}
	}
	for id, n := range calls {
		if exclusiveKind(tr.nodeKind[id]) && *r.count[id] != n {
			return fmt.Errorf("node %d (%s): a counter incremented in each of %d calls has the value %d", id, tr.nodeKind[id], n, *r.count[id])
		}
	}
	for k, p := range r.fin {
		want := 1
		for _, o := range r.perNode[k[0]] {
			if !isPred(m.pred[o].K) {
				want += m.n
			}
		}
		if *p != want {
			return fmt.Errorf("finalizer of %s saw the results of %d calls, expected %d", tr.nodeName(k), *p-1, want-1)
		}
	}
	for _, rv := range tr.results {
		k := nf{rv.node, rv.f}
		if isPred(rv.kind) {
			var res []bool
			for _, b := range m.in[k] {
				res = append(res, predS(m.pred[k].A, b))
			}
			if want := quantify(rv.kind, res); rv.b != want {
				return fmt.Errorf("%s: %s stored %v, expected %v", tr.nodeName(k), rv.kind, rv.b, want)
			}
		}
		if rv.kind == "count" && rv.n != m.cnt[k] {
			return fmt.Errorf("%s: Count stored %d, but %d elements passed", tr.nodeName(k), rv.n, m.cnt[k])
		}
	}
	return tr.appendsOK(m, true)
}

func init() {
	define("C30", "a run of at least 2 batches", []Cfg{
		{Name: "race", Race: true, Quick: 700},
		{Name: "race 2 cpus", Race: true, CPUs: 2, Quick: 300},
		{Name: "plain", Quick: 1500},
		{Name: "plain 1 cpu", CPUs: 1, Quick: 500},
	}, genC30, runC30)
}
