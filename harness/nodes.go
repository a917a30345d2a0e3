package main

import (
	"context"
	"errors"
	"fmt"
	"runtime"
	"slices"
	"sync"

	"github.com/intel/forGoParallel/pipeline"
	"pgregory.net/rapid"
)

// ---- C36: sources and nodes that user programs define -----------------------------
//
// The source and most nodes of these pipelines are implemented here, against the
// documentation of the interfaces Source and Node, and record how they are used.

// CNode is a node; kinds with a capital letter are those of the library.
//
//	pass    forwards in the goroutine that feeds it
//	spawn   forwards in a new goroutine
//	gather  collects A batches and forwards them in reverse order
//	work    hands batches to a goroutine of its own
//	merge   forwards like pass, and merges with its own kind
//	wrap    delegates to a node of the library, which it contains
//	reject  is not interested in batches
//	reuse   forwards an unchanged batch for even sequence numbers only in a new goroutine
type CNode struct {
	K  string  `json:"k"`
	W  string  `json:"w,omitempty"` // what wrap contains
	A  int     `json:"a,omitempty"`
	F  []CFilt `json:"f,omitempty"`
	D  int     `json:"d,omitempty"`  // what Begin does to the expected size
	T  bool    `json:"t,omitempty"`  // behind this node there is a transform
	Do string  `json:"do,omitempty"` // begin: cancel, seterr
}

// CFilt is a filter of a node.
type CFilt struct {
	NoR bool `json:"nor,omitempty"` // no receiver
	Fin bool `json:"fin,omitempty"` // with a finalizer
	D   int  `json:"d,omitempty"`
}

type CustomCase struct {
	N     int     `json:"n"`
	Known bool    `json:"known,omitempty"`
	Est   int     `json:"est,omitempty"` // the size that Prepare reports is wrong by so many elements
	Nof   int     `json:"nof,omitempty"`
	Inc   int     `json:"inc,omitempty"`
	Max   int     `json:"max,omitempty"`
	Chunk []int   `json:"chunk,omitempty"`  // deviations from the requested sizes
	ErrAt int     `json:"err_at,omitempty"` // the ErrAt-th Fetch fails; -1: Prepare does
	Empty bool    `json:"empty,omitempty"`  // the failing Fetch has no data
	Nodes []CNode `json:"nodes"`
	Grp   int     `json:"grp,omitempty"`
	Ctx   bool    `json:"ctx,omitempty"`
	Seed  uint64  `json:"seed,omitempty"`
	// the StopAt-th call of a receiver (or Feed) stops the run
	Stop   string `json:"stop,omitempty"` // cancel, seterr
	StopAt int    `json:"stop_at,omitempty"`
}

func (c *CustomCase) size() int { return max(0, c.N+c.Est) }

func sizeOp(d, size int) int {
	switch d {
	case 1:
		return -1
	case 2:
		return size + 7
	case 3:
		return 100
	case 4:
		return 0
	}
	return size
}

type cnEv struct {
	kind   string
	node   int // or filter, or transform
	seq, i int
}

type customRun struct {
	c       *CustomCase
	mu      sync.Mutex
	evs     []cnEv
	bad     string
	calls   int
	handles []*pipeline.Pipeline[[]int]
	// the source; plain memory, since its methods must not be called concurrently
	inCall   chan struct{}
	race     bool
	busy     int
	pos      int
	fetches  int
	data     []int
	srcErr   error
	finished string
	prepared bool
	taken    bool
	batches  [][]int
	src      []int
}

func (r *customRun) fail(format string, args ...any) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.bad == "" {
		r.bad = fmt.Sprintf(format, args...)
	}
}

func (r *customRun) log(kind string, node, seq, i int) {
	r.mu.Lock()
	r.evs = append(r.evs, cnEv{kind, node, seq, i})
	r.mu.Unlock()
}

func (r *customRun) jitter(a, b int) {
	h := mix(r.c.Seed, uint64(a)<<32^uint64(b))
	switch h % 7 {
	case 0, 1:
		runtime.Gosched()
	case 2:
		spin(int(h >> 8 % 2000))
	}
}

// ---- the source

var errCustom = errors.New("the source has failed")
var errStop = errors.New("stopped by a node")

func (r *customRun) enter(what string) func() {
	if r.race { // nothing that synchronizes the calls
		r.busy++
		return func() { r.busy-- }
	}
	select {
	case r.inCall <- struct{}{}:
	default:
		r.fail("%s of the source was called while another method of it was running", what)
		return func() {}
	}
	return func() { <-r.inCall }
}

func (r *customRun) Err() error {
	defer r.enter("Err")()
	return r.srcErr
}

func (r *customRun) Prepare(ctx context.Context) int {
	defer r.enter("Prepare")()
	r.log("prepare", 0, 0, 0)
	if r.prepared {
		r.fail("Prepare of the source was called twice")
	}
	r.prepared = true
	if p := r.handles[0]; ctx == nil || ctx != p.Context() {
		r.fail("Prepare of the source did not receive the context of the pipeline")
	}
	if r.c.ErrAt < 0 {
		r.srcErr = errCustom
	}
	if r.c.Known {
		return r.c.size()
	}
	return -1
}

func (r *customRun) Fetch(n int) int {
	defer r.enter("Fetch")()
	r.data, r.taken = nil, false
	r.log("fetch", 0, n, 0)
	if !r.prepared {
		r.fail("Fetch of the source was called before Prepare")
	}
	if r.finished != "" {
		r.fail("Fetch of the source was called after %s", r.finished)
		return 0
	}
	if n < 1 {
		r.fail("Fetch of the source was called for %d elements", n)
		return 0
	}
	r.fetches++
	r.jitter(-1, r.fetches)
	k := n
	if ch := r.c.Chunk; len(ch) > 0 {
		k = max(1, k+ch[r.fetches%len(ch)])
	}
	k = min(k, len(r.src)-r.pos)
	if r.srcErr != nil {
		k = 0
	}
	if r.fetches == r.c.ErrAt {
		r.srcErr = errCustom
		if r.c.Empty {
			k = 0
		}
	}
	if k == 0 {
		r.finished = "a Fetch without data"
		return 0
	}
	if r.srcErr != nil {
		r.finished = "a Fetch that failed"
	}
	r.data = slices.Clone(r.src[r.pos : r.pos+k])
	r.pos += k
	r.batches = append(r.batches, slices.Clone(r.data))
	return k
}

func (r *customRun) Data() []int {
	defer r.enter("Data")()
	r.taken = true
	return r.data
}

// ---- nodes

type customNodeT struct {
	r       *customRun
	id, seg int
	n       CNode
	filters []pipeline.Filter[[]int]
	recvs   []pipeline.Receiver[[]int]
	fins    []pipeline.Finalizer
	inner   pipeline.Node[[]int]
	// of the kinds with goroutines
	mu    sync.Mutex
	wg    sync.WaitGroup
	wait  []func()
	open  bool
	queue chan func()
}

func mapC(id, v int) int { return v*3 + id + 1 }

// filter i of node id
func (r *customRun) filter(id, i int, f CFilt) pipeline.Filter[[]int] {
	key := id*16 + i
	seg := r.segOf(id)
	called := false
	return func(p *pipeline.Pipeline[[]int], kind pipeline.NodeKind, size *int) (recv pipeline.Receiver[[]int], fin pipeline.Finalizer) {
		if called {
			r.fail("filter %d of node %d was called twice", i, id)
		}
		called = true
		if p != r.handles[seg] {
			r.fail("filter %d of node %d received a different pipeline", i, id)
		}
		if want := custKind(r.c.Nodes[id]); want >= 0 && kind != want && !(want == pipeline.Sequential && kind == pipeline.Ordered) {
			r.fail("filter %d of node %d (%s) received the kind %d", i, id, r.c.Nodes[id].K, kind)
		}
		r.log("filter", key, *size, 0)
		*size = sizeOp(f.D, *size)
		if !f.NoR {
			recv = func(seq int, data []int) []int {
				r.log("recv", key, seq, 0)
				r.seen(id, i, seq, data)
				r.ask(p, key, seq)
				r.jitter(key, seq)
				out := make([]int, len(data))
				for j, v := range data {
					out[j] = mapC(key, v)
				}
				r.stop()
				r.log("done", key, seq, 0)
				return out
			}
		}
		if f.Fin {
			fin = func() { r.log("fin", key, 0, 0); r.jitter(key, -5); r.log("findone", key, 0, 0) }
		}
		return
	}
}

// ask asks the pipeline for its state during the run, as receivers do that
// want to give up early. The source is not to be consulted for that: it may be
// fetching the next batch.
func (r *customRun) ask(p *pipeline.Pipeline[[]int], key, seq int) {
	h := mix(r.c.Seed, 0xa5c<<40^uint64(key)<<20^uint64(seq))
	if r.c.Seed%3 != 0 || h%2 != 0 {
		return
	}
	for k := h >> 8 % 4; ; k-- {
		if err := p.Err(); err != nil && err != errStop && err != errCustom {
			r.fail("Err reported %v during the run", err)
		}
		if p.Context() == nil {
			r.fail("there was no context during the run")
		}
		if k == 0 {
			return
		}
		if h>>16%2 == 0 {
			runtime.Gosched()
		} else {
			spin(int(h >> 24 % 1000))
		}
	}
}

func custKind(n CNode) pipeline.NodeKind {
	k := n.K
	if k == "wrap" {
		k = n.W
	}
	switch k {
	case "Ord", "StrictOrd":
		return pipeline.Ordered
	case "Seq":
		return pipeline.Sequential
	case "Par", "LimitedPar":
		return pipeline.Parallel
	case "work":
		return pipeline.Sequential
	}
	return pipeline.Parallel
}

func (r *customRun) stop() {
	r.mu.Lock()
	r.calls++
	hit := r.c.Stop != "" && r.calls == r.c.StopAt
	r.mu.Unlock()
	if hit {
		r.halt(r.c.Stop, r.handles[r.c.StopAt%len(r.handles)])
	}
}

func (r *customRun) halt(do string, p *pipeline.Pipeline[[]int]) {
	r.log("stop "+do, 0, 0, 0)
	if do == "cancel" {
		p.Cancel()
	} else {
		p.SetErr(errStop)
	}
}

// seen checks a batch: node id's filter i (or the entry of the node: -1).
func (r *customRun) seen(id, i, seq int, data []int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if seq < 0 || seq >= r.c.N {
		if r.bad == "" {
			r.bad = fmt.Sprintf("node %d received the sequence number %d", id, seq)
		}
		return
	}
	r.evs = append(r.evs, cnEv{"data", id*16 + i, seq, int(hashInts(data))})
}

func hashInts(d []int) uint64 {
	h := uint64(len(d)) + 17
	for _, v := range d {
		h = mix(h, uint64(v))
	}
	return h
}

func (r *customRun) segOf(id int) int {
	s := 0
	for _, n := range r.c.Nodes[:id] {
		if n.T {
			s++
		}
	}
	return s
}

func (n *customNodeT) TryMerge(next pipeline.Node[[]int]) bool {
	if n.n.K != "merge" {
		return false
	}
	nx, ok := next.(*customNodeT)
	if !ok || nx.n.K != "merge" || n.n.A%2 == 1 {
		return false
	}
	n.r.log("merged", nx.id, n.id, 0)
	n.filters = append(n.filters, nx.filters...)
	n.recvs = append(n.recvs, nx.recvs...)
	n.fins = append(n.fins, nx.fins...)
	return true
}

func (n *customNodeT) StrictOrd() bool { return n.inner != nil && n.inner.StrictOrd() }

func (n *customNodeT) Begin(p *pipeline.Pipeline[[]int], index int, size *int) bool {
	r := n.r
	r.log("begin", n.id, *size, index)
	if p != r.handles[n.seg] {
		r.fail("Begin of node %d received a different pipeline", n.id)
	}
	keep := n.n.K != "reject"
	if n.inner != nil {
		keep = n.inner.Begin(p, index, size)
	} else {
		kind := custKind(n.n)
		want := 0
		for _, f := range n.n.F {
			if !f.NoR {
				want++
			}
		}
		own := len(n.filters) == len(n.n.F)
		n.recvs, n.fins = pipeline.ComposeFilters(p, kind, size, n.filters)
		n.filters = nil
		if own && len(n.recvs) != want {
			r.fail("ComposeFilters returned %d receivers instead of %d", len(n.recvs), want)
		}
	}
	*size = sizeOp(n.n.D, *size)
	r.log("size", n.id, *size, 0)
	if n.n.Do != "" {
		r.halt(n.n.Do, p)
	}
	switch n.n.K {
	case "work":
		n.queue = make(chan func())
		n.wg.Add(1)
		go func() {
			defer n.wg.Done()
			for {
				select {
				case <-p.Context().Done():
					return
				case f, ok := <-n.queue:
					if !ok {
						return
					}
					f()
				}
			}
		}()
	}
	if !keep {
		r.log("rejected", n.id, 0, 0)
	}
	return keep
}

func (n *customNodeT) Feed(p *pipeline.Pipeline[[]int], index, seq int, data []int) {
	r := n.r
	r.log("feed", n.id, seq, index)
	r.seen(n.id, 15, seq, data)
	defer r.log("fed", n.id, seq, 0)
	if p != r.handles[n.seg] {
		r.fail("Feed of node %d received a different pipeline", n.id)
	}
	r.jitter(n.id+1000, seq)
	r.stop()
	if n.inner != nil {
		n.inner.Feed(p, index, seq, data)
		return
	}
	f := func() {
		for _, recv := range n.recvs {
			data = recv(seq, data)
		}
		p.FeedForward(index, seq, data)
	}
	switch n.n.K {
	case "spawn":
		n.wg.Add(1)
		go func() { defer n.wg.Done(); f() }()
	case "reuse":
		if seq%2 == 1 {
			f()
			return
		}
		n.wg.Add(1)
		go func() { defer n.wg.Done(); f() }()
	case "gather":
		n.mu.Lock()
		defer n.mu.Unlock()
		n.wait = append(n.wait, f)
		if n.open || len(n.wait) > n.n.A {
			n.flush()
		}
	case "work":
		select {
		case <-p.Context().Done():
		case n.queue <- f:
		}
	default:
		f()
	}
}

func (n *customNodeT) flush() {
	fs := n.wait
	n.wait = nil
	slices.Reverse(fs)
	for _, f := range fs {
		n.wg.Add(1)
		go func() { defer n.wg.Done(); f() }()
	}
}

func (n *customNodeT) End() {
	r := n.r
	r.log("end", n.id, 0, 0)
	if n.inner != nil {
		n.inner.End()
	} else {
		if n.queue != nil {
			close(n.queue)
		}
		n.mu.Lock()
		n.open = true
		if len(n.wait) > 0 {
			n.flush()
		}
		n.mu.Unlock()
		n.wg.Wait()
		for _, f := range n.fins {
			f()
		}
	}
	r.log("ended", n.id, 0, 0)
}

func libNode(k string, fs []pipeline.Filter[[]int]) pipeline.Node[[]int] {
	switch k {
	case "Par":
		return pipeline.Par(fs...)
	case "LimitedPar":
		return pipeline.LimitedPar(fs...)
	case "Seq":
		return pipeline.Seq(fs...)
	case "Ord":
		return pipeline.Ord(fs...)
	}
	return pipeline.StrictOrd(fs...)
}

func (r *customRun) build() {
	p := pipeline.New[[]int](r)
	r.handles = []*pipeline.Pipeline[[]int]{p}
	if r.c.Nof > 0 {
		p.NofBatches(r.c.Nof)
	}
	p.SetVariableBatchSize(r.c.Inc, r.c.Max)
	var pend []pipeline.Node[[]int]
	for id, n := range r.c.Nodes {
		var fs []pipeline.Filter[[]int]
		for i, f := range n.F {
			fs = append(fs, r.filter(id, i, f))
		}
		node := &customNodeT{r: r, id: id, seg: len(r.handles) - 1, n: n, filters: fs}
		switch {
		case n.K == "wrap":
			node.inner = libNode(n.W, fs)
			pend = append(pend, node)
		case n.lib():
			pend = append(pend, libNode(n.K, fs))
		default:
			pend = append(pend, node)
		}
		if n.T || len(pend) >= r.c.Grp {
			p.Add(pend...)
			pend = nil
		}
		if n.T {
			tid := id
			q := pipeline.Transform(p, func(seq int, data []int) []int {
				r.seen(tid, 14, seq, data)
				out := make([]int, len(data))
				for j, v := range data {
					out[j] = mapC(tid*16+14, v)
				}
				return out
			})
			r.handles = append(r.handles, q)
			p = q
		}
	}
	p.Add(pend...)
}

func (n CNode) lib() bool { return n.K[0] < 'a' }

func genC36(t *rapid.T, cfg *Cfg) CustomCase {
	c := CustomCase{Seed: uint64(rapid.IntRange(0, 1<<20).Draw(t, "seed"))}
	c.N = rapid.IntRange(0, 60).Draw(t, "n")
	c.Known = rapid.Bool().Draw(t, "known")
	if c.Known && rapid.IntRange(0, 3).Draw(t, "estimated") == 0 {
		c.Est = rapid.IntRange(-20, 20).Draw(t, "est")
	}
	if rapid.Bool().Draw(t, "setnof") {
		c.Nof = rapid.IntRange(1, 70).Draw(t, "nof")
	}
	c.Inc = rapid.IntRange(0, 6).Draw(t, "inc")
	c.Max = rapid.IntRange(0, 12).Draw(t, "max")
	if c.Inc == 0 {
		c.Inc = 1
	}
	c.Chunk = rapid.SliceOfN(rapid.IntRange(-4, 0), 0, 4).Draw(t, "chunk")
	c.Grp = rapid.IntRange(1, 4).Draw(t, "grp")
	c.Ctx = rapid.Bool().Draw(t, "ctx")
	switch rapid.IntRange(0, 5).Draw(t, "fault") {
	case 0:
		c.ErrAt = rapid.IntRange(1, 8).Draw(t, "errat")
		c.Empty = rapid.Bool().Draw(t, "empty")
	case 1:
		c.Stop = rapid.SampledFrom([]string{"cancel", "seterr"}).Draw(t, "stop")
		c.StopAt = rapid.IntRange(1, 60).Draw(t, "stopat")
	case 2:
		if rapid.IntRange(0, 3).Draw(t, "prep") == 0 {
			c.ErrAt = -1
		}
	}
	kinds := []string{"pass", "spawn", "gather", "work", "merge", "merge", "wrap", "wrap", "reject", "reuse", "Par", "LimitedPar", "Seq", "Ord", "StrictOrd"}
	wraps := []string{"Par", "LimitedPar", "Seq", "Ord", "StrictOrd"}
	n := rapid.IntRange(1, 7).Draw(t, "nodes")
	for i := range n {
		nd := CNode{K: rapid.SampledFrom(kinds).Draw(t, "kind")}
		if i > 0 && c.Nodes[i-1].K == "merge" {
			// merge at once, or when a node that has declined is removed
			nd.K = rapid.SampledFrom([]string{nd.K, "merge", "merge", "reject"}).Draw(t, "next")
		} else if i > 1 && c.Nodes[i-2].K == "merge" && c.Nodes[i-1].K == "reject" {
			nd.K = "merge"
		}
		if nd.K == "wrap" {
			nd.W = rapid.SampledFrom(wraps).Draw(t, "wrapped")
		}
		nd.A = rapid.IntRange(0, 5).Draw(t, "a")
		for range rapid.IntRange(0, 3).Draw(t, "filters") {
			nd.F = append(nd.F, CFilt{NoR: rapid.IntRange(0, 3).Draw(t, "nor") == 0, Fin: rapid.Bool().Draw(t, "fin"), D: max(0, rapid.IntRange(-6, 4).Draw(t, "fd"))})
		}
		nd.D = max(0, rapid.IntRange(-6, 4).Draw(t, "d"))
		if nd.lib() {
			nd.D = 0
		} else if rapid.IntRange(0, 59).Draw(t, "stopbegin") == 0 {
			nd.Do = rapid.SampledFrom([]string{"cancel", "seterr"}).Draw(t, "do")
		}
		nd.T = i < n-1 && rapid.IntRange(0, 5).Draw(t, "transform") == 0
		c.Nodes = append(c.Nodes, nd)
	}
	// The pipeline knows how to keep its own nodes from holding back the batch a
	// StrictOrd node waits for; nodes in front of it that block, and are not its
	// own, do not exist.
	last := -1
	for i, nd := range c.Nodes {
		if nd.K == "StrictOrd" || nd.W == "StrictOrd" {
			last = i
		}
	}
	for i := range max(last, 0) {
		nd := &c.Nodes[i]
		if nd.K == "work" {
			nd.K = "spawn"
		}
		if nd.K == "wrap" && (nd.W == "Seq" || nd.W == "LimitedPar") {
			nd.W = "Ord"
		}
	}
	return c
}

func runC36(x *X, c CustomCase) error {
	r := &customRun{c: &c, inCall: make(chan struct{}, 1), race: x.cfg.Race}
	r.src = make([]int, c.N)
	for i := range r.src {
		r.src[i] = i
	}
	r.build()
	root := r.handles[0]
	out := supervise(func() {
		if !c.Ctx {
			root.Run()
		} else {
			ctx, cancel := context.WithCancel(context.Background())
			root.RunWithContext(ctx, cancel)
			defer cancel()
		}
		r.log("return", 0, 0, 0)
	})
	if err := out.hang(); err != nil {
		return err
	}
	if out.Panicked {
		return fmt.Errorf("panic: %s", trunc(fmt.Sprint(out.Panic), 1000))
	}
	if _, err := (&Sched{}).Drain(); err != nil {
		return err
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.bad != "" {
		return errors.New(r.bad)
	}
	return r.check(x)
}

func (n CNode) String() string {
	if n.K == "wrap" {
		return "wrap " + n.W
	}
	return n.K
}

func (r *customRun) check(x *X) error {
	c := r.c
	errEnd := r.handles[0].Err()
	custom, late := 0, 0
	beginErr, stopped, setErr := false, false, false
	for _, n := range c.Nodes {
		if !n.lib() {
			custom++
		}
	}
	type nstate struct {
		begun, rejected, merged, ended, done bool
		index                                int
		fed                                  map[int]int
		active                               int
	}
	ns := make([]*nstate, len(c.Nodes))
	for i := range ns {
		ns[i] = &nstate{fed: map[int]int{}, index: -1}
	}
	name := func(i int) string { return fmt.Sprintf("node %d (%s)", i, c.Nodes[i]) }
	recvs := map[[2]int]int{} // filter, seq
	active := map[int]int{}
	fins := map[int]int{}
	hashes := map[[2]int]uint64{}
	returned, feeding := false, false
	lastBegin, lastEnd := -1, -1
	prepared := false
	size := -1 // what the next filter or node should be told
	if c.Known {
		size = c.size()
	}
	lastFilter, lastNode := -1, -1
	crossed := func(to int) { // a transform makes the size unknown
		for i := max(0, lastNode); i < to; i++ {
			if c.Nodes[i].T {
				size = -1
			}
		}
		lastNode = max(lastNode, to)
	}
	for _, e := range r.evs {
		switch e.kind {
		case "stop cancel", "stop seterr":
			stopped = true
			setErr = setErr || e.kind == "stop seterr"
			if !feeding {
				beginErr = true
			}
		case "prepare":
			prepared = true
		case "begin":
			s := ns[e.node]
			if !prepared {
				return fmt.Errorf("Begin of %s was called before Prepare of the source", name(e.node))
			}
			if s.begun || s.merged {
				return fmt.Errorf("Begin of %s was called twice, or after it was merged into another node", name(e.node))
			}
			if e.node < lastBegin {
				return fmt.Errorf("Begin of %s was called after that of %s", name(e.node), name(lastBegin))
			}
			if feeding {
				return fmt.Errorf("Begin of %s was called after the first Fetch", name(e.node))
			}
			if e.i < 0 || e.i >= len(c.Nodes) {
				return fmt.Errorf("Begin of %s received the index %d", name(e.node), e.i)
			}
			crossed(e.node)
			if e.seq != size {
				return fmt.Errorf("Begin of %s received the expected size %d instead of %d", name(e.node), e.seq, size)
			}
			s.begun = true
			lastBegin = e.node
		case "filter":
			if e.node <= lastFilter {
				return fmt.Errorf("filter %d of %s was called after filter %d of %s", e.node%16, name(e.node/16), lastFilter%16, name(lastFilter/16))
			}
			lastFilter = e.node
			crossed(e.node / 16)
			if e.seq != size {
				return fmt.Errorf("filter %d of %s received the expected size %d instead of %d", e.node%16, name(e.node/16), e.seq, size)
			}
			size = sizeOp(c.Nodes[e.node/16].F[e.node%16].D, size)
		case "size":
			size = e.seq
		case "rejected":
			ns[e.node].rejected = true
		case "merged":
			if ns[e.node].begun {
				late++
			}
			ns[e.node].merged = true
		case "fetch":
			if returned {
				return errors.New("Fetch of the source was called after Run had returned")
			}
			feeding = true
			if beginErr {
				return errors.New("Fetch of the source was called although a node had stopped the pipeline in Begin")
			}
		case "feed":
			s := ns[e.node]
			if !s.begun || s.rejected || s.merged {
				return fmt.Errorf("Feed of %s was called although it has not begun, has declined, or was merged into another node", name(e.node))
			}
			if s.ended {
				return fmt.Errorf("Feed of %s was called for batch %d after End", name(e.node), e.seq)
			}
			if s.fed[e.seq]++; s.fed[e.seq] > 1 {
				return fmt.Errorf("Feed of %s was called twice for batch %d", name(e.node), e.seq)
			}
			if s.index >= 0 && s.index != e.i {
				return fmt.Errorf("Feed of %s received the indices %d and %d", name(e.node), s.index, e.i)
			}
			s.index = e.i
			s.active++
		case "fed":
			ns[e.node].active--
		case "end":
			s := ns[e.node]
			if s.ended {
				return fmt.Errorf("End of %s was called twice", name(e.node))
			}
			if !s.begun || s.rejected || s.merged {
				return fmt.Errorf("End of %s was called although it has not begun, has declined, or was merged into another node", name(e.node))
			}
			if s.active > 0 {
				return fmt.Errorf("End of %s was called while Feed was still running", name(e.node))
			}
			if e.node < lastEnd {
				return fmt.Errorf("End of %s was called after that of %s", name(e.node), name(lastEnd))
			}
			if lastEnd >= 0 && !ns[lastEnd].done {
				return fmt.Errorf("End of %s was called while End of %s was still running", name(e.node), name(lastEnd))
			}
			lastEnd = e.node
			s.ended = true
			if returned {
				return fmt.Errorf("End of %s was called after Run had returned", name(e.node))
			}
		case "ended":
			ns[e.node].done = true
		case "recv":
			k := [2]int{e.node, e.seq}
			if recvs[k]++; recvs[k] > 1 {
				return fmt.Errorf("receiver %d of %s was called twice for batch %d", e.node%16, name(e.node/16), e.seq)
			}
			if fins[e.node] > 0 {
				return fmt.Errorf("receiver %d of %s was called after its finalizer", e.node%16, name(e.node/16))
			}
			active[e.node]++
		case "done":
			active[e.node]--
		case "fin":
			if fins[e.node]++; fins[e.node] > 1 {
				return fmt.Errorf("finalizer %d of %s was called twice", e.node%16, name(e.node/16))
			}
			if active[e.node] > 0 {
				return fmt.Errorf("finalizer %d of %s was called while its receiver was running", e.node%16, name(e.node/16))
			}
			if returned {
				return fmt.Errorf("finalizer %d of %s was called after Run had returned", e.node%16, name(e.node/16))
			}
		case "data":
			hashes[[2]int{e.node, e.seq}] = uint64(e.i)
		case "return":
			returned = true
		}
	}
	srcFailed := r.srcErr != nil
	clean := !stopped && !srcFailed
	// the result of the run
	switch {
	case setErr && srcFailed:
		if errEnd != errStop && errEnd != errCustom {
			return fmt.Errorf("Err is %v after the run", errEnd)
		}
	case setErr && errEnd != errStop:
		return fmt.Errorf("a node called SetErr, but Err is %v after the run", errEnd)
	case !setErr && srcFailed && errEnd != errCustom:
		return fmt.Errorf("the source has failed, but Err is %v after the run", errEnd)
	case !setErr && !srcFailed && errEnd != nil:
		return fmt.Errorf("Err is %v although there was no error", errEnd)
	}
	// what every batch should be at every node
	live := make([]bool, len(c.Nodes))
	someLive := false
	for i, n := range c.Nodes {
		s := ns[i]
		if n.lib() {
			for _, f := range n.F {
				live[i] = live[i] || !f.NoR || f.Fin
			}
		} else {
			live[i] = s.begun && !s.rejected || s.merged
			if n.K != "reject" && !s.begun && !s.merged && !beginErr {
				return fmt.Errorf("Begin of %s was not called", name(i))
			}
		}
	}
	// a transform without live nodes behind it is not used
	liveBehind := make([]bool, len(c.Nodes)+1)
	for i := len(c.Nodes) - 1; i >= 0; i-- {
		liveBehind[i] = liveBehind[i+1] || live[i]
	}
	someLive = liveBehind[0]
	for seq, batch := range r.batches {
		cur := slices.Clone(batch)
		check := func(key int, what string) error {
			h, ok := hashes[[2]int{key, seq}]
			if !ok {
				if clean {
					return fmt.Errorf("batch %d did not arrive at %s", seq, what)
				}
				return nil
			}
			if int(h) != int(hashInts(cur)) {
				return fmt.Errorf("batch %d arrived at %s with different data than the nodes before it produce", seq, what)
			}
			return nil
		}
		apply := func(key int) {
			for j := range cur {
				cur[j] = mapC(key, cur[j])
			}
		}
		for i, n := range c.Nodes {
			if live[i] {
				if !n.lib() && !ns[i].merged {
					if err := check(i*16+15, name(i)); err != nil {
						return err
					}
				}
				for j, f := range n.F {
					if f.NoR {
						continue
					}
					if err := check(i*16+j, fmt.Sprintf("filter %d of %s", j, name(i))); err != nil {
						return err
					}
					apply(i*16 + j)
				}
			}
			if n.T && liveBehind[i+1] {
				if err := check(i*16+14, fmt.Sprintf("the transform behind %s", name(i))); err != nil {
					return err
				}
				apply(i*16 + 14)
			}
		}
	}
	for k := range hashes {
		if k[1] >= len(r.batches) {
			return fmt.Errorf("%s received a batch %d, but the source has delivered only %d", name(k[0]/16), k[1], len(r.batches))
		}
	}
	// indices
	for i, prev := 0, -1; i < len(ns); i++ {
		if i > 0 && c.Nodes[i-1].T {
			prev = -1
		}
		if ns[i].index < 0 {
			continue
		}
		if ns[i].index <= prev {
			return fmt.Errorf("Feed of %s received the index %d, not larger than that of a node before it", name(i), ns[i].index)
		}
		prev = ns[i].index
	}
	// the end
	if !setErr && !srcFailed {
		for i, n := range c.Nodes {
			s := ns[i]
			if !n.lib() && s.begun && !s.rejected && !s.merged && !s.done {
				return fmt.Errorf("End of %s was not called, or still running, when Run returned", name(i))
			}
			for j, f := range n.F {
				if live[i] && f.Fin && fins[i*16+j] == 0 {
					return fmt.Errorf("finalizer %d of %s was not called", j, name(i))
				}
			}
		}
		seenReturn := false
		for _, e := range r.evs {
			if e.kind == "return" {
				seenReturn = true
			} else if seenReturn {
				return fmt.Errorf("Run returned before the work was complete (%s %d)", e.kind, e.node)
			}
		}
	}
	if clean && someLive && r.pos != len(r.src) {
		return fmt.Errorf("Run returned although the source had more data")
	}
	x.trivial = custom == 0 || len(r.batches) == 0
	x.obs = fmt.Sprintf("%d batches, err %v", len(r.batches), errEnd)
	for i, n := range c.Nodes {
		if len(r.batches) == 0 {
			break
		}
		x.Label("%s", n)
		if ns[i].merged {
			x.Label("merged")
		}
	}
	if late > 0 {
		x.Label("merged after Begin")
	}
	switch {
	case clean:
		x.Label("clean")
	case srcFailed:
		x.Label("source error")
	case stopped:
		x.Label("stopped")
	}
	return nil
}

func init() {
	define("C36", "non-trivial: at least one node is defined by the harness, and at least one batch was fetched",
		[]Cfg{{Name: "all-cpus", Quick: 500}, {Name: "1cpu", CPUs: 1, Quick: 200}, {Name: "procs2", Procs: 2, Quick: 200}, {Name: "race", Race: true, Quick: 150}}, genC36, runC36)
}
