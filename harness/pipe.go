package main

import (
	"bufio"
	"context"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/intel/forGoParallel/pipeline"
)

// ---- generated pipelines ---------------------------------------------------------

// PF is a filter, PN a node, PS a segment of nodes with the transform behind it.
type PF struct {
	K string `json:"k"`
	A int    `json:"a,omitempty"`
	B bool   `json:"b,omitempty"`
}

type PN struct {
	K string `json:"k"`
	F []PF   `json:"f,omitempty"`
	A int    `json:"a,omitempty"`
	B bool   `json:"b,omitempty"`
}

type PS struct {
	N []PN   `json:"n"`
	T string `json:"t,omitempty"` // kind of the transform to the next segment
	A int    `json:"a,omitempty"` // what the transform does
}

type Src struct {
	K     string `json:"k"` // slice, multichan, scanner, bytes, chan, func, funcknown
	Len   int    `json:"len"`
	Nof   int    `json:"nof,omitempty"`
	Inc   int    `json:"inc,omitempty"`
	Max   int    `json:"max,omitempty"`
	Chunk []int  `json:"chunk,omitempty"`  // func, chan: batch sizes actually delivered
	ErrAt int    `json:"err_at,omitempty"` // the ErrAt-th fetch or read reports an error (0: none)
	Open  bool   `json:"open,omitempty"`   // channels: never closed, the run has to be cancelled
	// func: there is always more data, the run has to be cancelled. 1: the source
	// cancels it by itself after some time; 2: somebody else does.
	Endless int `json:"endless,omitempty"`
}

// Fault is a cancellation or error raised somewhere.
type Fault struct {
	Do   string `json:"do"` // cancel, seterr, ctx
	At   string `json:"at"` // recv, step, fin, fetch, notify, pre
	Node int    `json:"node,omitempty"`
	Seq  int    `json:"seq,omitempty"` // recv: sequence number; step, fetch: ordinal
}

type PCase struct {
	Src    Src     `json:"src"`
	Segs   []PS    `json:"segs"`
	Faults []Fault `json:"faults,omitempty"`
	Ctx    bool    `json:"ctx,omitempty"` // RunWithContext instead of Run
	Sched  []byte  `json:"sched,omitempty"`
	Mode   int     `json:"mode"` // 0 gated, 1 partly gated, 2 free
	Seed   uint64  `json:"seed,omitempty"`
	Notify int     `json:"notify,omitempty"`
	Grp    int     `json:"grp,omitempty"`   // nodes per call of Add (0: 1, negative: all of a segment)
	Late   bool    `json:"late,omitempty"`  // settings and notifiers after the nodes
	Query  bool    `json:"query,omitempty"` // the cancel function passed to RunWithContext asks the pipeline for its error
	Via    int     `json:"via,omitempty"`   // which pipelines of a chain of transforms are used for settings, faults and Run
	Twins  int     `json:"twins,omitempty"` // so many equal runs at the same time (free only)
	Flood  bool    `json:"flood,omitempty"` // cancelled when many batches have been passed to a Par node
	Hold   []int   `json:"hold,omitempty"`  // node, batch: only this call is held (batch -1: the first call of the node)
	Storm  *Storm  `json:"storm,omitempty"` // instead of all the above
	Crowd  *Crowd  `json:"crowd,omitempty"` // instead of all the above
	Pack   int     `json:"pack,omitempty"`  // slices the filters are passed in: 1: share memory, 2: one slice used again for all nodes
}

// ---- elements --------------------------------------------------------------------

func hashS(s string) uint64 {
	h := fnv.New64a()
	io.WriteString(h, s)
	return h.Sum64()
}

// All functions on elements are defined on their printed form, which is what
// the model works with.
type elemT[E any] struct {
	name  string
	toS   func(E) string
	fromS func(string) E
	// grow changes e in place to the element printed as s, which begins with e
	grow func(e E, s string) E
}

// mapIn replaces the elements of a batch by their images in place.
func mapIn[E any](et elemT[E], data []E, in []string, pf PF) {
	for i := range data {
		s := mapS(et.name, in[i], pf.A)
		if et.grow != nil && pf.K == "inplace" {
			data[i] = et.grow(data[i], s)
		} else {
			data[i] = et.fromS(s)
		}
	}
}

var intT = elemT[int]{"int", strconv.Itoa, func(s string) int {
	v, err := strconv.Atoi(s)
	if err != nil {
		panic("harness: not an int: " + s)
	}
	return v
}, nil}
var strT = elemT[string]{"string", func(s string) string { return s }, func(s string) string { return s }, nil}
var bytesT = elemT[[]byte]{"bytes", func(s []byte) string { return string(s) }, func(s string) []byte { return []byte(s) },
	func(e []byte, s string) []byte { return append(e, s[len(e):]...) }}

func mapS(typ, s string, f int) string {
	if typ == "int" {
		v, _ := strconv.Atoi(s)
		return strconv.Itoa(v*3 + f + 1)
	}
	return s + string(rune('a'+f%26))
}

func convS(from, to, s string) string {
	switch {
	case from == "int":
		return "s" + s
	case to == "int":
		return strconv.Itoa(int(hashS(s) >> 3))
	}
	return s
}

// applyF is the effect of a filter on one batch.
func applyF(typ string, f PF, seq int, in []string) []string {
	switch f.K {
	case "map", "rf", "inplace":
		out := make([]string, len(in))
		for i, s := range in {
			out[i] = mapS(typ, s, f.A)
		}
		return out
	case "drop":
		var out []string
		for _, s := range in {
			if hashS(s)%3 != uint64(f.A%3) {
				out = append(out, s)
			}
		}
		return out
	case "ext":
		out := slices.Clone(in)
		for i := range 1 + f.A%2 {
			x := "0"
			if typ != "int" {
				x = "e"
			}
			if len(in) > 0 {
				x = in[len(in)-1]
			}
			out = append(out, mapS(typ, x, 5+i+seq%7))
		}
		return out
	}
	return in
}

// applyT is the effect of a transform function on one batch.
func applyT(from, to string, a, seq int, in []string) []string {
	var out []string
	for _, s := range in {
		switch a {
		case 1:
			if hashS(s)%3 == 0 {
				continue
			}
		case 2:
			out = append(out, convS(from, to, s))
		}
		out = append(out, convS(from, to, s))
	}
	return out
}

func predS(a int, data []string) bool {
	if a%3 == 0 {
		return len(data) > a/3%4
	}
	return hashS(strings.Join(data, ","))%uint64(2+a%7) != 0
}

// logged reports whether receivers of this filter are visible in the trace.
func loggedF(k string) bool {
	switch k {
	case "recv", "map", "rf", "drop", "ext", "every", "notevery", "some", "notany", "inplace":
		return true
	}
	return false
}

func isPred(k string) bool {
	switch k {
	case "every", "notevery", "some", "notany":
		return true
	}
	return false
}

// ---- trace ------------------------------------------------------------------------

const (
	evEnter = iota
	evLeave
	evFin
	evFinDone
	evCancel
	evFetch
	evReturn
	evBegin
	evEnd
	evNotify
	evCancelled // the cancelling call has returned
)

type pev struct {
	kind, node, f, seq int
	data               []string
	res                bool
}

// fetch is one call of the source.
type fetch struct {
	req, got int
	data     []string
}

type resultVar struct {
	node, f int
	kind    string
	b       bool
	n       int
	app     func() []string
	pre     int
}

type tracer struct {
	handles    []handle
	await      func(where string)
	c          *PCase
	s          *Sched
	mu         sync.Mutex
	evs        []pev
	fetches    []fetch
	results    []*resultVar
	cancelled  bool // some fault was executed, or an error set
	errSet     bool
	errs       []error // errors whose SetErr returned true
	setOrder   []bool
	harness    string
	sizes      map[[2]int]int // dataSize seen by "size" filters
	sizeTags   map[int]int    // the same, by tag
	srcErr     error
	underlying []string // what the source holds
	srcType    string

	doCancel func()
	doSetErr func(error) bool
	doCtx    func()
	errOf    func() error
	ctxOf    func() context.Context
	nodeKind map[int]string
	srcKnown bool

	gateOnly    func(Key) bool // gates of other functions stay open
	nofQuery    int
	nofGot      [2]int
	watchCancel bool // log calls of the cancel function given to RunWithContext
	cancelCalls atomic.Int32
	givenCtx    context.Context
	onNotify    func(i int)
	raw         *rawState // record in plain memory instead of the trace
	onVisit     func()
}

func (tr *tracer) log(e pev) int {
	tr.mu.Lock()
	tr.evs = append(tr.evs, e)
	n := len(tr.evs) - 1
	tr.mu.Unlock()
	return n
}

func (tr *tracer) jitter(a, b, c int) {
	for i := mix(tr.c.Seed, uint64(a*1000+b*100+c)) % 5; i > 0; i-- {
		runtime.Gosched()
	}
}

func (tr *tracer) gate(k Key) {
	if tr.gateOnly != nil && !tr.gateOnly(k) {
		return
	}
	switch tr.c.Mode {
	case 0:
		tr.s.Gate(k)
	case 1:
		if mix(tr.c.Seed, uint64(k[0]*31+k[1]*7+k[2]))%3 == 0 {
			tr.s.Gate(k)
		} else {
			tr.jitter(k[0], k[1], k[2])
		}
	default:
		tr.jitter(k[0], k[1], k[2])
	}
}

func (tr *tracer) raise(f Fault) {
	tr.mu.Lock()
	tr.evs = append(tr.evs, pev{kind: evCancel})
	tr.cancelled = true
	if f.Do == "seterr" {
		tr.errSet = true
	}
	tr.mu.Unlock()
	switch f.Do {
	case "seterr":
		err := fmt.Errorf("fault at %s %d/%d", f.At, f.Node, f.Seq)
		ok := tr.doSetErr(err)
		tr.mu.Lock()
		if ok {
			tr.errs = append(tr.errs, err)
		}
		tr.mu.Unlock()
	case "ctx":
		tr.doCtx()
	default:
		tr.doCancel()
	}
	tr.log(pev{kind: evCancelled})
}

func (tr *tracer) faultsAt(at string, node, seq int) {
	for _, f := range tr.c.Faults {
		if f.At == at && f.Node == node && f.Seq == seq {
			tr.raise(f)
		}
	}
}

func strsOf[E any](et elemT[E], data []E) []string {
	if data == nil {
		return nil
	}
	r := make([]string, len(data))
	for i, x := range data {
		r[i] = et.toS(x)
	}
	return r
}

func fromStrs[E any](et elemT[E], data []string) []E {
	if data == nil {
		return nil
	}
	r := make([]E, len(data))
	for i, x := range data {
		r[i] = et.fromS(x)
	}
	return r
}

// visit is the common part of every user function called for a batch.
func (tr *tracer) visit(node, f, seq int, data []string) func(res bool) {
	tr.log(pev{kind: evEnter, node: node, f: f, seq: seq, data: data})
	if tr.onVisit != nil {
		tr.onVisit()
	}
	tr.gate(Key{node, f, seq})
	tr.faultsAt("recv", node, seq)
	return func(res bool) { tr.log(pev{kind: evLeave, node: node, f: f, seq: seq, data: data, res: res}) }
}

func (tr *tracer) finalizer(node, f int) pipeline.Finalizer {
	return func() {
		tr.log(pev{kind: evFin, node: node, f: f})
		tr.gate(Key{node, f, -1})
		tr.faultsAt("fin", node, 0)
		tr.log(pev{kind: evFinDone, node: node, f: f})
	}
}

func mkFilter[E any](tr *tracer, et elemT[E], node, f int, pf PF) pipeline.Filter[[]E] {
	rawRecv, rawFin, rawPred := rawFuncs(tr, et, node, f, pf)
	recv := func(seq int, data []E) []E {
		in := strsOf(et, data)
		done := tr.visit(node, f, seq, in)
		out := data
		switch pf.K {
		case "recv":
		case "inplace":
			mapIn(et, data, in, pf)
		default:
			out = fromStrs(et, applyF(et.name, pf, seq, in))
		}
		done(false)
		return out
	}
	pred := func(data []E) bool {
		in := strsOf(et, data)
		r := predS(pf.A, in)
		done := tr.visit(node, f, -1, in)
		done(r)
		return r
	}
	fin := tr.finalizer(node, f)
	if tr.raw != nil {
		recv, pred, fin = rawRecv, rawPred, rawFin
	}
	rv := &resultVar{node: node, f: f, kind: pf.K}
	switch pf.K {
	case "recv", "map", "inplace":
		return pipeline.Receive(recv)
	case "rf":
		return pipeline.ReceiveAndFinalize(recv, fin)
	case "fin":
		return pipeline.Finalize[[]E](fin)
	case "drop", "ext":
		return func(_ *pipeline.Pipeline[[]E], _ pipeline.NodeKind, size *int) (pipeline.Receiver[[]E], pipeline.Finalizer) {
			*size = -1
			return recv, nil
		}
	case "size":
		return func(_ *pipeline.Pipeline[[]E], _ pipeline.NodeKind, size *int) (pipeline.Receiver[[]E], pipeline.Finalizer) {
			tr.mu.Lock()
			tr.sizes[[2]int{node, f}] = *size
			if pf.A > 0 {
				tr.sizeTags[pf.A] = *size
			}
			tr.mu.Unlock()
			return nil, nil
		}
	case "id":
		return pipeline.Identity[[]E]
	case "count":
		rv.pre = pf.A
		rv.n = pf.A
		tr.results = append(tr.results, rv)
		return pipeline.Count[E](&rv.n)
	case "append":
		var out []E
		for i := range pf.A % 3 {
			out = append(out, et.fromS(strconv.Itoa(i)))
		}
		rv.pre = len(out)
		rv.app = func() []string { return strsOf(et, out) }
		tr.results = append(tr.results, rv)
		return pipeline.Append(&out)
	case "every":
		rv.b = pf.A%2 == 0
		tr.results = append(tr.results, rv)
		return pipeline.Every(&rv.b, pf.B, pred)
	case "notevery":
		rv.b = pf.A%2 == 0
		tr.results = append(tr.results, rv)
		return pipeline.NotEvery(&rv.b, pf.B, pred)
	case "some":
		rv.b = pf.A%2 == 0
		tr.results = append(tr.results, rv)
		return pipeline.Some(&rv.b, pf.B, pred)
	case "notany":
		rv.b = pf.A%2 == 0
		tr.results = append(tr.results, rv)
		return pipeline.NotAny(&rv.b, pf.B, pred)
	}
	panic("harness: unknown filter " + pf.K)
}

// customNode is a user-defined node: it forwards in the calling goroutine.
type customNode[E any] struct {
	tr *tracer
	et elemT[E]
	id int
}

func (n *customNode[E]) TryMerge(pipeline.Node[[]E]) bool { return false }
func (n *customNode[E]) Begin(_ *pipeline.Pipeline[[]E], _ int, size *int) bool {
	n.tr.log(pev{kind: evBegin, node: n.id})
	return true
}
func (n *customNode[E]) StrictOrd() bool { return false }
func (n *customNode[E]) Feed(p *pipeline.Pipeline[[]E], index, seq int, data []E) {
	n.tr.visit(n.id, 0, seq, strsOf(n.et, data))(false)
	p.FeedForward(index, seq, data)
}
func (n *customNode[E]) End() { n.tr.log(pev{kind: evEnd, node: n.id}) }

// packing returns the slices in which the filters of a segment's nodes are
// passed to the constructors. A program may use the memory of such a slice
// again, for the filters of other nodes, for example.
func packing[E any](c *PCase, seg PS, si int) func(i int) []pipeline.Filter[[]E] {
	total := 8
	for _, pn := range seg.N {
		total += len(pn.F)
	}
	mem := make([]pipeline.Filter[[]E], total)
	for i := range mem {
		mem[i] = pipeline.Identity[[]E]
	}
	switch c.Pack {
	case 1: // side by side in any order
		at := make([]int, len(seg.N))
		order := make([]int, len(seg.N))
		for i := range order {
			order[i] = i
		}
		pos := 0
		for k := range order {
			j := k + int(mix(c.Seed, 0x9ac<<32^uint64(si)<<16^uint64(k))%uint64(len(order)-k))
			order[k], order[j] = order[j], order[k]
			at[order[k]] = pos
			pos += len(seg.N[order[k]].F)
		}
		return func(i int) []pipeline.Filter[[]E] { return mem[at[i]:at[i]] }
	case 2:
		return func(int) []pipeline.Filter[[]E] { return mem[:0] }
	}
	return func(int) []pipeline.Filter[[]E] { return nil }
}

func build[E any](tr *tracer, p *pipeline.Pipeline[[]E], et elemT[E], si, base int) {
	seg := tr.c.Segs[si]
	var group []pipeline.Node[[]E]
	add := func(n pipeline.Node[[]E]) {
		group = append(group, n)
		if tr.c.Grp >= 0 && len(group) >= tr.c.Grp {
			p.Add(group...)
			group = nil
		}
	}
	place := packing[E](tr.c, seg, si)
	for i, pn := range seg.N {
		id := base + i
		tr.nodeKind[id] = pn.K
		fs := place(i)
		for f, pf := range pn.F {
			fs = append(fs, mkFilter(tr, et, id, f, pf))
		}
		switch pn.K {
		case "Par":
			add(pipeline.Par(fs...))
		case "LimitedPar":
			add(pipeline.LimitedPar(fs...))
		case "Seq":
			add(pipeline.Seq(fs...))
		case "Ord":
			add(pipeline.Ord(fs...))
		case "StrictOrd":
			add(pipeline.StrictOrd(fs...))
		case "Limit":
			add(pipeline.Limit[E](pn.A, pn.B))
		case "Skip":
			add(pipeline.Skip[E](pn.A))
		case "Custom":
			add(&customNode[E]{tr, et, id})
		default:
			panic("harness: unknown node " + pn.K)
		}
	}
	p.Add(group...)
	if seg.T == "" {
		return
	}
	base += len(seg.N)
	switch q := any(p).(type) {
	case *pipeline.Pipeline[[]int]:
		descend(tr, q, intT, strT, si, base)
	case *pipeline.Pipeline[[]string]:
		descend(tr, q, strT, intT, si, base)
	case *pipeline.Pipeline[[][]byte]:
		descend(tr, q, bytesT, strT, si, base)
	}
}

func descend[S, D any](tr *tracer, p *pipeline.Pipeline[[]S], st elemT[S], dt elemT[D], si, base int) {
	seg := tr.c.Segs[si]
	tr.nodeKind[base] = seg.T
	fn := func(seq int, data []S) []D {
		in := strsOf(st, data)
		if tr.raw != nil {
			tr.raw.stage(tr, nf{base, 0}, seq, in)
			return fromStrs(dt, applyT(st.name, dt.name, seg.A, seq, in))
		}
		done := tr.visit(base, 0, seq, in)
		out := fromStrs(dt, applyT(st.name, dt.name, seg.A, seq, in))
		done(false)
		return out
	}
	var q *pipeline.Pipeline[[]D]
	switch seg.T {
	case "Transform":
		q = pipeline.Transform(p, fn)
	case "OrdTransform":
		q = pipeline.OrdTransform(p, fn)
	case "SeqTransform":
		q = pipeline.SeqTransform(p, fn)
	case "ParTransform":
		q = pipeline.ParTransform(p, fn)
	case "StrictOrdTransform":
		q = pipeline.StrictOrdTransform(p, fn)
	case "LimitedParTransform":
		q = pipeline.LimitedParTransform(p, fn)
	default:
		panic("harness: unknown transform " + seg.T)
	}
	tr.handles = append(tr.handles, q)
	build(tr, q, dt, si+1, base+1)
}

// srcWrap records what the pipeline does with its source.
type srcWrap[E any] struct {
	tr    *tracer
	et    elemT[E]
	inner pipeline.Source[[]E]
	data  []E
}

func (w *srcWrap[E]) Err() error { return w.inner.Err() }
func (w *srcWrap[E]) Prepare(ctx context.Context) int {
	if w.tr.await != nil {
		w.tr.await("prepare")
	}
	return w.inner.Prepare(ctx)
}
func (w *srcWrap[E]) Fetch(n int) int {
	if w.tr.await != nil {
		w.tr.await("fetch")
	}
	w.tr.faultsAt("fetch", 0, len(w.tr.fetches))
	got := w.inner.Fetch(n)
	w.data = nil
	if got > 0 {
		w.data = w.inner.Data()
	}
	w.tr.mu.Lock()
	w.tr.fetches = append(w.tr.fetches, fetch{n, got, strsOf(w.et, w.data)})
	w.tr.evs = append(w.tr.evs, pev{kind: evFetch})
	w.tr.mu.Unlock()
	return got
}
func (w *srcWrap[E]) Data() []E { return w.data }

const noQuery = 1 << 40

var errSource = errors.New("source failure")

// errReader fails after delivering part of its input.
type errReader struct {
	r  io.Reader
	n  int
	tr *tracer
}

func (e *errReader) Read(p []byte) (int, error) {
	if e.n <= 0 {
		e.tr.srcErr = errSource
		return 0, errSource
	}
	n, err := e.r.Read(p[:min(len(p), 16)])
	e.n--
	return n, err
}

func intData(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i*10 + i%7
	}
	return r
}

// handle is what the pipelines of one chain of transforms have in common.
type handle interface {
	NofBatches(n int) int
	SetVariableBatchSize(inc, max int)
	Notify(f func())
	Cancel()
	SetErr(err error) bool
	Err() error
	Context() context.Context
	Run()
	RunWithContext(ctx context.Context, cancel context.CancelFunc)
}

func start[E any](tr *tracer, et elemT[E], inner pipeline.Source[[]E]) (run func(), p *pipeline.Pipeline[[]E]) {
	tr.srcType = et.name
	c := tr.c
	p = pipeline.New[[]E](&srcWrap[E]{tr: tr, et: et, inner: inner})
	var h handle = p
	settings := func() {
		if c.Src.Nof != 0 {
			tr.nofGot[0] = h.NofBatches(c.Src.Nof)
		}
		if tr.nofQuery != noQuery {
			tr.nofGot[1] = h.NofBatches(tr.nofQuery)
		}
		if c.Src.Inc != 0 || c.Src.Max != 0 {
			h.SetVariableBatchSize(c.Src.Inc, c.Src.Max)
		}
		for i := range c.Notify {
			h.Notify(func() {
				tr.log(pev{kind: evNotify, node: i})
				if tr.onNotify != nil {
					tr.onNotify(i)
				}
				tr.gate(Key{-1, i, 0})
				tr.faultsAt("notify", i, 0)
			})
		}
	}
	if !c.Late {
		settings()
	}
	tr.handles = []handle{p}
	build(tr, p, et, 0, 0)
	// the pipelines on both sides of a transform stand for the same run
	h = tr.handles[c.Via%len(tr.handles)]
	if c.Late {
		settings()
	}
	h = tr.handles[c.Via/4%len(tr.handles)]
	tr.doCancel, tr.doSetErr, tr.errOf, tr.ctxOf = h.Cancel, h.SetErr, h.Err, h.Context
	if c.Ctx {
		ctx, cancel := context.WithCancel(context.Background())
		tr.doCtx, tr.givenCtx = cancel, ctx
		given := cancel
		if tr.watchCancel {
			given = func() {
				tr.cancelCalls.Add(1)
				cancel()
				tr.log(pev{kind: evCancelled})
			}
		}
		if c.Query {
			inner := given
			given = func() {
				h.Context()
				h.Err()
				inner()
				h.Err()
			}
		}
		run = func() {
			tr.faultsAt("pre", 0, 0)
			tr.handles[c.Via/16%len(tr.handles)].RunWithContext(ctx, given)
		}
	} else {
		tr.doCtx = h.Cancel
		run = func() {
			tr.faultsAt("pre", 0, 0)
			tr.handles[c.Via/16%len(tr.handles)].Run()
		}
	}
	return
}

func (c *PCase) newTracer() *tracer {
	tr := &tracer{c: c, s: &Sched{}, nofQuery: noQuery, sizes: map[[2]int]int{}, sizeTags: map[int]int{}, nodeKind: map[int]string{}}
	if c.Mode == 2 {
		tr.s.free.Store(true)
	}
	if len(c.Hold) == 2 {
		var first atomic.Bool
		tr.gateOnly = func(k Key) bool {
			return k[0] == c.Hold[0] && k[1] == 0 && (k[2] == c.Hold[1] || c.Hold[1] < 0 && first.CompareAndSwap(false, true))
		}
	}
	return tr
}

// chunker cuts a sequence into the generated chunk sizes.
func (s *Src) chunk(k, req, left int) int {
	n := req
	if len(s.Chunk) > 0 {
		n = max(1, s.Chunk[k%len(s.Chunk)])
	}
	return min(n, req, left)
}

// prepare builds the pipeline of the case.
func (tr *tracer) prepare() (run func()) {
	c := tr.c
	s := &c.Src
	ints := intData(s.Len)
	var strs []string
	for i := range s.Len {
		strs = append(strs, "w"+strconv.Itoa(i))
	}
	reader := func() io.Reader {
		var r io.Reader = strings.NewReader(strings.Join(strs, "\n"))
		if s.ErrAt > 0 {
			r = &errReader{r, s.ErrAt - 1, tr}
		}
		return r
	}
	switch s.K {
	case "scanner":
		tr.underlying = strs
		if s.ErrAt > 0 {
			tr.underlying = nil
		}
		run, _ = start[string](tr, strT, pipeline.NewScanner(reader()))
	case "bytes":
		tr.underlying = strs
		if s.ErrAt > 0 {
			tr.underlying = nil
		}
		run, _ = start[[]byte](tr, bytesT, pipeline.NewBytesScanner(reader()))
	case "multichan":
		tr.underlying = strsOf(intT, ints)
		ch := make(chan int, len(ints))
		for _, v := range ints {
			ch <- v
		}
		if !s.Open {
			close(ch)
		}
		run, _ = start[int](tr, intT, pipeline.NewMultiChan(ch))
	case "chan":
		tr.underlying = strsOf(intT, ints)
		ch := make(chan []int, len(ints)+1)
		for k, at := 0, 0; at < len(ints); k++ {
			n := s.chunk(k, 1<<30, len(ints)-at)
			ch <- slices.Clone(ints[at : at+n])
			at += n
		}
		if !s.Open {
			close(ch)
		}
		run, _ = start[int](tr, intT, pipeline.NewChan(ch))
	case "func", "funcknown":
		tr.underlying = strsOf(intT, ints)
		at, k := 0, 0
		var prep func(context.Context) int
		if s.K == "funcknown" {
			prep = func(context.Context) int {
				if s.Endless > 0 {
					return 1 << 20
				}
				return len(ints)
			}
			tr.srcKnown = true
		}
		if s.ErrAt > 0 {
			tr.underlying = nil
		}
		run, _ = start[int](tr, intT, pipeline.NewFunc(prep, func(n int) (data []int, got int, err error) {
			k++
			if s.Endless > 0 {
				switch {
				case k == 60 && s.Endless == 1:
					tr.mu.Lock()
					done := tr.cancelled
					tr.mu.Unlock()
					if !done {
						tr.raise(Fault{Do: "cancel", At: "fetch"})
					}
				case k > endlessCap:
					return nil, 0, nil
				}
				for range s.chunk(k-1, n, 20) {
					data = append(data, at*10+at%7)
					at++
				}
				return data, len(data), nil
			}
			if s.ErrAt > 0 && k == s.ErrAt {
				tr.srcErr = errSource
				if k%2 == 0 {
					return nil, 0, errSource
				}
				err = errSource
			}
			m := s.chunk(k-1, n, len(ints)-at)
			data = slices.Clone(ints[at : at+m])
			at += m
			return data, m, err
		}))
	default:
		tr.underlying = strsOf(intT, ints)
		tr.srcKnown = true
		run, _ = start[int](tr, intT, pipeline.NewSlice(ints))
	}
	return run
}

// exec runs the case's pipeline.
func (tr *tracer) exec() Outcome {
	run := tr.prepare()
	tr.s.onStep = func(step int) { tr.faultsAt("step", 0, step) }
	out := tr.s.Run(func() {
		if tr.c.Twins > 0 && tr.c.Mode == 2 && !tr.c.Src.Open {
			wait := tr.twins()
			defer wait()
		}
		run()
		tr.log(pev{kind: evReturn})
	}, tr.c.Sched)
	return out
}

// twins starts further runs of equal pipelines.
func (tr *tracer) twins() (wait func()) {
	var wg sync.WaitGroup
	for i := range tr.c.Twins {
		c := *tr.c
		c.Seed += uint64(i) + 1
		tw := c.newTracer()
		run := tw.prepare()
		wg.Add(1)
		go func() {
			defer wg.Done()
			run()
			if c.Ctx {
				tw.doCtx() // the caller of RunWithContext must cancel
			}
		}()
	}
	return wg.Wait
}

// endlessCap is the number of batches after which an endless source gives up.
const endlessCap = 1000

// endless checks that fetching stops when the pipeline is cancelled.
func (tr *tracer) endless(x *X, evs []pev) error {
	if tr.c.Src.Endless == 0 {
		return nil
	}
	x.Label("endless source")
	after, cancelled := 0, false
	for _, e := range evs {
		switch {
		case e.kind == evCancelled:
			cancelled = true
		case e.kind == evFetch && cancelled:
			after++
		}
	}
	if after > 200 {
		return fmt.Errorf("the run went on fetching from an endless source after the pipeline had been cancelled (%d batches)", after)
	}
	return nil
}

// events returns a snapshot of the trace.
func (tr *tracer) events() []pev {
	tr.mu.Lock()
	defer tr.mu.Unlock()
	return slices.Clone(tr.evs)
}

var _ = bufio.ScanLines
