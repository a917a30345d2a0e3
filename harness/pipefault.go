package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"sync"

	"github.com/intel/forGoParallel/pipeline"
	"pgregory.net/rapid"
)

// ---- C23: sources on their own -------------------------------------------------------

type C23Case struct {
	K      string   `json:"k"` // slice, scanner, bytes, chan, multichan, func
	Len    int      `json:"len,omitempty"`
	Tokens []string `json:"tokens,omitempty"`
	Reqs   []int    `json:"reqs"`
	Split  string   `json:"split,omitempty"`
	Buf    int      `json:"buf,omitempty"`
	Reads  []int    `json:"reads,omitempty"` // sizes of the reads
	ErrAt  int      `json:"err_at,omitempty"`
	Eager  bool     `json:"eager,omitempty"`  // the error comes together with the last data
	Cap    int      `json:"cap,omitempty"`    // capacity of the channel
	Cancel int      `json:"cancel,omitempty"` // channels: never closed; cancelled at this quiescence
	Extra  int      `json:"extra,omitempty"`  // elements sent around the cancellation
	Zero   bool     `json:"zero,omitempty"`   // elements with the zero value
	Chunk  []int    `json:"chunk,omitempty"`
	Size   int      `json:"size,omitempty"`
	Typ    string   `json:"typ,omitempty"` // element type: "" (int), any, string, ptr, slice, error
}

func genC23(t *rapid.T, cfg *Cfg) C23Case {
	c := C23Case{K: rapid.SampledFrom([]string{"slice", "scanner", "scanner", "bytes", "bytes", "chan", "multichan", "func"}).Draw(t, "k")}
	big := 1
	if rapid.IntRange(0, 19).Draw(t, "big") == 19 {
		big = 60
	}
	c.Reqs = rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, 40*big)), 1, 6).Draw(t, "reqs")
	switch c.K {
	case "slice":
		c.Typ = rapid.SampledFrom(elemTypes).Draw(t, "typ")
		c.Len = rapid.IntRange(0, 60*big).Draw(t, "len")
		c.Zero = rapid.Bool().Draw(t, "zero")
	case "scanner", "bytes":
		c.Tokens = rapid.SliceOfN(rapid.StringMatching(`[a-zé ,]{0,9}`), 0, 40*min(big, 20)).Draw(t, "tokens")
		if rapid.IntRange(0, 9).Draw(t, "odd text") == 9 && len(c.Tokens) > 0 {
			i := rapid.IntRange(0, len(c.Tokens)-1).Draw(t, "odd")
			c.Tokens[i] = rapid.SampledFrom([]string{"\r", "a\r", "\x00", "\xff\xfe", strings.Repeat("x", 5000), strings.Repeat("y", 70000), "\n\n\n"}).Draw(t, "what")
		}
		c.Split = rapid.SampledFrom([]string{"", "", "words", "runes", "bytes", "commas", "bad"}).Draw(t, "split")
		c.Reads = rapid.SliceOfN(rapid.IntRange(0, 30), 0, 5).Draw(t, "reads")
		if rapid.IntRange(0, 3).Draw(t, "err") == 0 {
			c.ErrAt = rapid.IntRange(1, 12).Draw(t, "errat")
			c.Eager = rapid.Bool().Draw(t, "eager")
		}
		if rapid.IntRange(0, 3).Draw(t, "buf") == 0 {
			c.Buf = rapid.IntRange(1, 24).Draw(t, "bufsize")
		}
	case "chan", "multichan":
		c.Typ = rapid.SampledFrom(elemTypes).Draw(t, "typ")
		c.Len = rapid.IntRange(0, 40*big).Draw(t, "len")
		c.Zero = rapid.Bool().Draw(t, "zero")
		c.Cap = rapid.SampledFrom([]int{0, 0, 1, 3, 100}).Draw(t, "cap")
		if rapid.IntRange(0, 2).Draw(t, "cancel") == 0 {
			c.Cancel = rapid.IntRange(1, 3).Draw(t, "when")
			c.Extra = rapid.IntRange(0, 3).Draw(t, "extra")
		}
	case "func":
		c.Len = rapid.IntRange(0, 60*big).Draw(t, "len")
		c.Chunk = rapid.SliceOfN(rapid.IntRange(1, 12*big), 1, 4).Draw(t, "chunks")
		if rapid.IntRange(0, 2).Draw(t, "err") == 0 {
			c.ErrAt = rapid.IntRange(1, 8).Draw(t, "errat")
			c.Eager = rapid.Bool().Draw(t, "eager")
		}
		c.Size = rapid.SampledFrom([]int{-2, -1, 0, 5, 100}).Draw(t, "size")
	}
	return c
}

// planReader returns its data in the planned pieces.
type planReader struct {
	data  []byte
	reads []int
	k     int
	errAt int
	eager bool
	zero  int
}

func (r *planReader) Read(p []byte) (int, error) {
	r.k++
	if r.errAt > 0 && r.k > r.errAt {
		return 0, errSource
	}
	n := len(p)
	if len(r.reads) > 0 {
		n = r.reads[(r.k-1)%len(r.reads)]
		if n == 0 {
			if r.zero++; r.zero > 5 { // a reader that never returns data is not allowed
				n = 1
			}
		} else {
			r.zero = 0
		}
	}
	n = min(n, len(p), len(r.data))
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if r.errAt == r.k && r.eager {
		return n, errSource
	}
	if len(r.data) == 0 && n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

var errSplit = errors.New("split failure")

func (c *C23Case) setup(s *bufio.Scanner) {
	switch c.Split {
	case "words":
		s.Split(bufio.ScanWords)
	case "runes":
		s.Split(bufio.ScanRunes)
	case "bytes":
		s.Split(bufio.ScanBytes)
	case "commas", "bad":
		n := 0
		s.Split(func(data []byte, atEOF bool) (int, []byte, error) {
			if n++; n > 25 && len(data) > 0 && c.Split == "bad" {
				return 0, nil, errSplit
			}
			if i := bytes.IndexByte(data, ','); i >= 0 {
				return i + 1, data[:i], nil
			}
			if atEOF && len(data) > 0 {
				return len(data), data, bufio.ErrFinalToken
			}
			return 0, nil, nil
		})
	}
	if c.Buf > 0 {
		s.Buffer(make([]byte, 0, min(4, c.Buf)), c.Buf)
	}
}

func (c *C23Case) reader() io.Reader {
	return &planReader{data: []byte(strings.Join(c.Tokens, "\n")), reads: c.Reads, errAt: c.ErrAt, eager: c.Eager}
}

// drainSource fetches until the source reports its end.
func drainSource[E any](src pipeline.Source[[]E], show func(E) string, reqs []int, size int) (got []string, fetches int, err error) {
	var batches [][]E
	var copies [][]string
	for k := 0; ; k++ {
		if k > 100000 {
			return got, k, fmt.Errorf("the source does not end")
		}
		n := reqs[k%len(reqs)]
		f := src.Fetch(n)
		d := src.Data()
		if f != len(d) {
			return got, k, fmt.Errorf("fetch %d of %d elements reported %d, but the batch has %d", k, n, f, len(d))
		}
		if f > n {
			return got, k, fmt.Errorf("fetch %d of %d elements returned %d", k, n, f)
		}
		if f < 0 {
			return got, k, fmt.Errorf("fetch %d returned %d", k, f)
		}
		if f == 0 {
			fetches = k
			break
		}
		var s []string
		for _, e := range d {
			s = append(s, show(e))
		}
		batches = append(batches, d)
		copies = append(copies, s)
		got = append(got, s...)
		if src.Err() != nil { // a pipeline asks no more
			fetches = k + 1
			break
		}
	}
	for i, d := range batches {
		for j, e := range d {
			if show(e) != copies[i][j] {
				return got, fetches, fmt.Errorf("batch %d changed after it was returned: element %d is now %q, was %q", i, j, show(e), copies[i][j])
			}
		}
	}
	return got, fetches, nil
}

func (c *C23Case) elem(i int) int {
	if c.Zero && i%3 != 1 {
		return 0
	}
	return i + 1
}

var elemTypes = []string{"", "", "any", "string", "ptr", "slice", "error"}

var errElems = []error{errors.New("e0"), errors.New("e1"), errors.New("e2")}

func runC23(x *X, c C23Case) error {
	x.Label("source %s", c.K)
	switch c.K {
	case "slice", "chan", "multichan":
	default:
		return runC23Rest(x, c)
	}
	if c.Typ != "" {
		x.Label("elements of type %s", c.Typ)
	}
	switch c.Typ {
	case "any":
		return runC23Elem(x, &c, func(i int) any {
			return []any{nil, i, "", strconv.Itoa(i), false, nil, 1.5}[i%7]
		}, func(e any) string { return fmt.Sprintf("%T %v", e, e) })
	case "error":
		return runC23Elem(x, &c, func(i int) error {
			if i%4 == 0 {
				return nil
			}
			return errElems[i%4-1]
		}, func(e error) string { return fmt.Sprint(e) })
	case "string":
		return runC23Elem(x, &c, func(i int) string {
			if i == 0 {
				return ""
			}
			return "s" + strconv.Itoa(i)
		}, func(e string) string { return "<" + e + ">" })
	case "ptr":
		return runC23Elem(x, &c, func(i int) *int {
			if i == 0 {
				return nil
			}
			return &i
		}, func(e *int) string {
			if e == nil {
				return "nil"
			}
			return strconv.Itoa(*e)
		})
	case "slice":
		return runC23Elem(x, &c, func(i int) []int {
			if i%3 == 0 {
				return nil
			}
			return make([]int, i%5)
		}, func(e []int) string { return fmt.Sprint(e == nil, len(e)) })
	}
	return runC23Elem(x, &c, func(i int) int { return i }, intT.toS)
}

// runC23Elem checks slice and channel sources with elements of any type.
func runC23Elem[E any](x *X, c *C23Case, mk func(int) E, show func(E) string) error {
	elem := func(i int) E { return mk(c.elem(i)) }
	var want, got []string
	var gotErr, err error
	fetches := 0
	size, wantSize := -1, -1
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	switch c.K {
	case "slice":
		var v []E
		for i := range c.Len {
			v = append(v, elem(i))
			want = append(want, show(v[i]))
		}
		wantSize = len(v)
		src := pipeline.NewSlice(slices.Clone(v))
		size = src.Prepare(ctx)
		got, fetches, err = drainSource(src, show, c.Reqs, size)
		gotErr = src.Err()
	case "chan", "multichan":
		ch := make(chan E, c.Cap)
		for i := range c.Len {
			want = append(want, show(elem(i)))
		}
		s := &Sched{}
		stop := make(chan struct{})
		defer close(stop)
		go func() {
			for i := range c.Len {
				if i%4 == 1 {
					runtime.Gosched()
				}
				select {
				case ch <- elem(i):
				case <-stop:
					return
				}
			}
			if c.Cancel == 0 {
				close(ch)
			}
		}()
		res := make(chan struct{})
		var src pipeline.Source[[]E]
		if c.K == "chan" {
			src = &oneChan[E]{inner: pipeline.NewChan((<-chan E)(ch))}
		} else {
			src = pipeline.NewMultiChan((<-chan E)(ch))
		}
		size = src.Prepare(ctx)
		cancelled := false
		out := s.Run(func() {
			got, fetches, err = drainSource(src, show, c.Reqs, size)
			close(res)
		}, nil)
		if out.Deadlock != "" && c.Cancel > 0 {
			// blocked on the empty channel, as it should
			cancelled = true
			if c.Extra > 0 {
				go func() {
					for i := range c.Extra {
						select {
						case ch <- elem(c.Len + i):
						case <-stop:
							return
						}
					}
				}()
				for i := range c.Extra {
					want = append(want, show(elem(c.Len+i)))
				}
			}
			cancel()
			out = s.Continue(nil)
		}
		if err := out.hang(); err != nil {
			return fmt.Errorf("fetching does not end (context cancelled: %v): %w", cancelled, err)
		}
		<-res
		gotErr = src.Err()
		x.obs = fmt.Sprintf("%d of %d elements, cancelled=%v", len(got), len(want), cancelled)
		if c.Cancel > 0 {
			x.Label("cancelled while blocked")
			if !cancelled {
				return fmt.Errorf("%s reported its end although the channel is open and the context not cancelled", c.K)
			}
			if err == nil && (len(got) > len(want) || !sameS(got, want[:len(got)])) {
				return fmt.Errorf("fetched %v from a channel with %v", got, want)
			}
			if c.K == "chan" && err == nil && len(got) < c.Len {
				return fmt.Errorf("only %d of %d elements were delivered before the cancellation", len(got), c.Len)
			}
			if err != nil {
				return err
			}
			if gotErr != nil {
				return fmt.Errorf("error %v after cancellation", gotErr)
			}
			x.trivial = c.Len == 0
			return nil
		}
	}
	if err != nil {
		return err
	}
	if size != wantSize {
		return fmt.Errorf("Prepare reports a size of %d, expected %d", size, wantSize)
	}
	if !sameS(got, want) {
		return fmt.Errorf("%s delivered %d elements %q, expected %d elements %q", c.K, len(got), got, len(want), want)
	}
	if gotErr != nil {
		return fmt.Errorf("the source's error is %v", gotErr)
	}
	x.trivial = fetches < 2
	if x.obs == "" {
		x.obs = fmt.Sprintf("%d elements in %d fetches", len(got), fetches)
	}
	return nil
}

func runC23Rest(x *X, c C23Case) error {
	var want, got []string
	var wantErr, gotErr error
	var err error
	fetches := 0
	size, wantSize := -1, -1
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	switch c.K {
	case "scanner", "bytes":
		ref := bufio.NewScanner(c.reader())
		c.setup(ref)
		for ref.Scan() {
			want = append(want, ref.Text())
		}
		wantErr = ref.Err()
		x.Label("split %q", c.Split)
		if wantErr != nil {
			x.Label("ends with an error")
		}
		if c.K == "scanner" {
			src := pipeline.NewScanner(c.reader())
			c.setup(src.Scanner)
			size = src.Prepare(ctx)
			got, fetches, err = drainSource(src, strT.toS, c.Reqs, size)
			gotErr = src.Err()
		} else {
			src := pipeline.NewBytesScanner(c.reader())
			c.setup(src.Scanner)
			size = src.Prepare(ctx)
			got, fetches, err = drainSource(src, bytesT.toS, c.Reqs, size)
			gotErr = src.Err()
		}
	case "func":
		at, k := 0, 0
		var prep func(context.Context) int
		if c.Size > -2 {
			prep = func(context.Context) int { return c.Size }
			wantSize = c.Size
		}
		var asked []int
		src := pipeline.NewFunc(prep, func(n int) (data []int, m int, err error) {
			asked = append(asked, n)
			k++
			if k == c.ErrAt {
				wantErr = errSource
				if !c.Eager {
					return nil, 0, errSource
				}
				err = errSource
			} else if wantErr != nil {
				return nil, 0, wantErr
			}
			for range min(n, c.Chunk[k%len(c.Chunk)], c.Len-at) {
				data = append(data, at)
				want = append(want, intT.toS(at))
				at++
			}
			return data, len(data), err
		})
		if e := src.Err(); e != nil {
			return fmt.Errorf("error %v before the first fetch", e)
		}
		size = src.Prepare(ctx)
		got, fetches, err = drainSource(src, intT.toS, c.Reqs, size)
		gotErr = src.Err()
		for i, n := range asked {
			if err == nil && n != c.Reqs[i%len(c.Reqs)] {
				return fmt.Errorf("the function was asked for %d elements instead of %d", n, c.Reqs[i%len(c.Reqs)])
			}
		}
	}
	if err != nil {
		return err
	}
	if size != wantSize {
		return fmt.Errorf("Prepare reports a size of %d, expected %d", size, wantSize)
	}
	if wantErr != nil && c.K != "func" && len(got) < len(want) {
		want = want[:len(got)] // the error ends the run early
	}
	if !sameS(got, want) {
		return fmt.Errorf("%s delivered %d elements %q, expected %d elements %q", c.K, len(got), got, len(want), want)
	}
	if !errors.Is(gotErr, wantErr) || (gotErr == nil) != (wantErr == nil) {
		return fmt.Errorf("the source's error is %v, expected %v", gotErr, wantErr)
	}
	x.trivial = fetches < 2
	if x.obs == "" {
		x.obs = fmt.Sprintf("%d elements in %d fetches, error %v", len(got), fetches, gotErr)
	}
	return nil
}

// oneChan shows a Chan, which delivers single elements, as a source of batches.
type oneChan[E any] struct {
	inner *pipeline.Chan[E]
	got   int
}

func (o *oneChan[E]) Err() error                      { return o.inner.Err() }
func (o *oneChan[E]) Prepare(ctx context.Context) int { return o.inner.Prepare(ctx) }
func (o *oneChan[E]) Fetch(n int) int                 { o.got = o.inner.Fetch(n); return o.got }
func (o *oneChan[E]) Data() []E {
	if o.got == 0 {
		return nil
	}
	return []E{o.inner.Data()}
}

// ---- C24: errors --------------------------------------------------------------------

type C24Case struct {
	P     PCase `json:"p"`
	Burst int   `json:"burst,omitempty"` // concurrent SetErr calls at each fault
	End   int   `json:"end,omitempty"`   // SetErr calls concurrent with the end of the run
}

func genC24(t *rapid.T, cfg *Cfg) C24Case {
	modes := []int{0, 1, 2, 2}
	if cfg.Race {
		modes = []int{2}
	}
	o := popt{nodes: cat(coreNodes, []string{"Limit", "Custom"}), filters: []string{"recv", "recv", "map", "rf", "fin"}, maxNodes: 4, batches: 16, modes: modes}
	o.srcs = []string{"slice", "func", "func", "scanner", "bytes", "funcknown", "multichan", "chan"}
	if rapid.IntRange(0, 3).Draw(t, "transforms") == 0 {
		o.trans, o.maxSegs = allTrans, 2
	}
	c := C24Case{P: genPipe(t, o)}
	p := &c.P
	p.Notify = rapid.IntRange(0, 2).Draw(t, "notify")
	if rapid.IntRange(0, 3).Draw(t, "faults") > 0 {
		genFaults(t, p, []string{"seterr"})
		if rapid.IntRange(0, 5).Draw(t, "pre") == 0 {
			p.Faults = append(p.Faults, Fault{Do: "seterr", At: "pre"})
		}
	}
	switch p.Src.K {
	case "func", "funcknown", "scanner", "bytes":
		if rapid.Bool().Draw(t, "srcerr") {
			p.Src.ErrAt = rapid.IntRange(1, 8).Draw(t, "errat")
			// a source may fail because the run has been cancelled
			if rapid.IntRange(0, 2).Draw(t, "cancelled as well") == 2 {
				p.Faults = append(p.Faults, Fault{Do: "cancel", At: "fetch", Seq: max(0, p.Src.ErrAt-rapid.IntRange(0, 2).Draw(t, "before"))})
			}
		}
	}
	c.Burst = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "burst")
	c.End = rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "end")
	return c
}

// errOp is one call of SetErr or Err with the times of its beginning and end.
type errOp struct {
	set      error // nil: a call of Err
	ok       bool
	got      error
	from, to int
	ctxDone  bool // SetErr: the context was cancelled when it returned
	pre      bool
}

type errHist struct {
	mu    sync.Mutex
	clock int
	ops   []errOp
}

func (h *errHist) tick() int {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.clock++
	return h.clock
}

func (h *errHist) add(op errOp) {
	h.mu.Lock()
	h.clock++
	op.to = h.clock
	h.ops = append(h.ops, op)
	h.mu.Unlock()
}

func runC24(x *X, cc C24Case) error {
	c := &cc.P
	tr := c.newTracer()
	h := &errHist{}
	run := tr.prepare()
	setErr, errOf, ctxOf := tr.doSetErr, tr.errOf, tr.ctxOf
	started := false
	get := func() {
		from := h.tick()
		e := errOf()
		h.add(errOp{got: e, from: from})
	}
	set := func(err error) bool {
		op := errOp{set: err, from: h.tick(), pre: !started}
		op.ok = setErr(err)
		if op.ok && !op.pre {
			ctx := ctxOf()
			op.ctxDone = ctx != nil && ctx.Err() != nil
		}
		h.add(op)
		get()
		return op.ok
	}
	tr.onVisit = get
	var wg sync.WaitGroup
	tr.doSetErr = func(err error) bool {
		for i := range cc.Burst {
			wg.Add(1)
			go func() {
				defer wg.Done()
				set(fmt.Errorf("burst %d with %w", i, err))
			}()
		}
		return set(err)
	}
	// errors set before the run
	tr.faultsAt("pre", 0, 0)
	wg.Wait()
	pre := len(h.ops) > 0
	c.Faults = slices.DeleteFunc(slices.Clone(c.Faults), func(f Fault) bool { return f.At == "pre" })
	started = true
	nend := 0
	if cc.End > 0 {
		// the last batch lets other goroutines set errors while the run ends
		n := 0
		c.each(func(id int, _ *PN, _ string) { n = id })
		at := min(4, c.Src.Len/2)
		inner := tr.onVisit
		var once sync.Once
		cnt := 0
		var cm sync.Mutex
		tr.onVisit = func() {
			inner()
			cm.Lock()
			cnt++
			fire := cnt > at
			cm.Unlock()
			if fire {
				once.Do(func() {
					nend = cc.End
					for i := range cc.End {
						wg.Add(1)
						go func() {
							defer wg.Done()
							for k := range 3 * i * n {
								_ = k
								runtime.Gosched()
								get()
							}
							set(fmt.Errorf("late %d", i))
						}()
					}
				})
			}
		}
	}
	tr.s.onStep = func(step int) { tr.faultsAt("step", 0, step) }
	out := tr.s.Run(func() {
		run()
		tr.log(pev{kind: evReturn})
		get()
	}, c.Sched)
	defer tr.s.Open()
	if err := out.hang(); err != nil {
		return err
	}
	if out.Panicked {
		return fmt.Errorf("the run panicked: %v", out.Panic)
	}
	if _, err := tr.s.Drain(); err != nil {
		return err
	}
	wg.Wait()
	get()
	c.label(x)
	// the write-once register
	var winner error
	wins, sets := 0, 0
	for _, op := range h.ops {
		if op.set == nil {
			continue
		}
		sets++
		if op.ok {
			wins++
			winner = op.set
			if !op.pre && !op.ctxDone {
				return fmt.Errorf("SetErr returned true but the context is not cancelled")
			}
		}
	}
	if wins > 1 {
		return fmt.Errorf("SetErr returned true %d times", wins)
	}
	src := tr.srcErr
	if wins == 0 && sets > 0 && src == nil {
		return fmt.Errorf("SetErr was called %d times but never returned true", sets)
	}
	if wins == 0 && src != nil {
		winner = src
	}
	known := 1 << 60 // time from which the error is known to be set
	first := 1 << 60 // time at which it may be set first
	for _, op := range h.ops {
		switch {
		case op.set != nil:
			known = min(known, op.to)
			if op.ok {
				first = min(first, op.from)
			}
		case op.got != nil:
			known = min(known, op.to)
		}
	}
	if wins == 0 {
		first = 0
	}
	for _, op := range h.ops {
		switch {
		case op.set != nil:
			if !op.ok && wins == 1 && op.to < first {
				return fmt.Errorf("SetErr returned false before any error was set")
			}
		case op.got == nil:
			if op.from > known {
				return fmt.Errorf("Err returned nil although an error had been set before")
			}
		default:
			if op.got != winner {
				return fmt.Errorf("Err returned %q, but the first error is %v", op.got, winner)
			}
			if op.to < first {
				return fmt.Errorf("Err returned %q before it was set", op.got)
			}
		}
	}
	if final := errOf(); final != winner {
		return fmt.Errorf("after the run Err is %v, expected %v", final, winner)
	}
	switch {
	case winner == nil:
		x.Label("no error")
		if nend == 0 && !c.Ctx {
			break
		}
	case wins == 0:
		x.Label("source error")
	default:
		x.Label("SetErr wins, %d calls", min(sets, 5))
	}
	x.trivial = sets == 0 && src == nil
	x.obs = fmt.Sprintf("%d SetErr calls, %d Err calls, winner %v", sets, len(h.ops)-sets, winner)
	evs := tr.events()
	if pre {
		x.Label("error before the run")
		for _, e := range evs {
			if e.kind == evEnter || e.kind == evFetch {
				return fmt.Errorf("a run started with an error set processed a batch")
			}
		}
	}
	if winner != nil {
		// a run started afterwards processes nothing
		n := len(evs)
		out := tr.s.Run(run, nil)
		if err := out.hang(); err != nil {
			return fmt.Errorf("second run: %w", err)
		}
		if out.Panicked {
			return fmt.Errorf("second run panicked: %v", out.Panic)
		}
		for _, e := range tr.events()[n:] {
			if e.kind == evEnter || e.kind == evFetch {
				return fmt.Errorf("a run started after the error processed a batch")
			}
		}
		if final := errOf(); final != winner {
			return fmt.Errorf("after another run Err is %v, expected %v", final, winner)
		}
	}
	return nil
}

// ---- C25: cancellation --------------------------------------------------------------

func genC25(t *rapid.T, cfg *Cfg) PCase {
	if cfg.Mode == "storm" {
		return PCase{Storm: genStorm(t)}
	}
	if cfg.Mode == "flood" {
		return genFlood(t)
	}
	switch rapid.IntRange(0, 7).Draw(t, "many batches") {
	case 0, 1:
		return genMany(t)
	case 2:
		return genWaiting(t)
	}
	o := popt{nodes: cat(coreNodes, coreNodes, []string{"Limit", "Custom"}), filters: []string{"recv", "recv", "map", "rf", "fin"}, maxNodes: 5, batches: 24}
	if rapid.IntRange(0, 3).Draw(t, "transforms") == 0 {
		o.trans, o.maxSegs = allTrans, 3
	}
	c := genPipe(t, o)
	c.Notify = rapid.IntRange(0, 1).Draw(t, "notify")
	genFaults(t, &c, []string{"cancel", "ctx", "seterr"})
	if c.Src.K == "chan" || c.Src.K == "multichan" {
		c.Src.Open = rapid.Bool().Draw(t, "open")
	}
	if strings.HasPrefix(c.Src.K, "func") && c.Src.ErrAt == 0 && rapid.IntRange(0, 1).Draw(t, "endless") == 1 {
		c.Src.Endless = 1
		if c.Src.K == "funcknown" {
			c.Src.Nof = 1 << rapid.IntRange(12, 19).Draw(t, "nof")
		}
	}
	return c
}

// genMany generates runs of many batches that are cancelled early on.
func genMany(t *rapid.T) PCase {
	o := popt{nodes: []string{"Par", "Par", "LimitedPar", "Seq", "Ord", "StrictOrd", "StrictOrd"}, filters: []string{"recv", "recv", "rf"}, maxNodes: 3, batches: 400, minBatches: 300, modes: []int{2}}
	if rapid.IntRange(0, 4).Draw(t, "transforms") == 0 {
		o.trans, o.maxSegs = allTrans, 2
	}
	c := genPipe(t, o)
	f := Fault{Do: rapid.SampledFrom([]string{"cancel", "ctx", "seterr"}).Draw(t, "do"), At: rapid.SampledFrom([]string{"recv", "recv", "fetch", "fetch"}).Draw(t, "at")}
	if c.Ctx && rapid.IntRange(0, 5).Draw(t, "pre") == 0 {
		f = Fault{Do: "ctx", At: "pre"}
	} else {
		f.Seq = rapid.IntRange(0, 90).Draw(t, "fseq")
		if f.At == "recv" {
			n := 0
			c.each(func(id int, _ *PN, _ string) { n = id })
			f.Node = rapid.IntRange(0, n).Draw(t, "fnode")
		}
	}
	c.Faults = []Fault{f}
	return c
}

// genWaiting generates runs in which one call is held until nothing else can
// go on, so that many batches wait before (or in) the second node when the
// pipeline is cancelled.
func genWaiting(t *rapid.T) PCase {
	c := PCase{Src: Src{K: "slice"}, Mode: 0, Sched: []byte{0}}
	c.Src.Nof = rapid.IntRange(60, 240).Draw(t, "batches")
	c.Src.Len = c.Src.Nof * rapid.IntRange(1, 2).Draw(t, "per")
	kinds := []string{"recv", "map", "rf"}
	kind := rapid.SampledFrom([]string{"Ord", "Ord", "StrictOrd", "Seq", "LimitedPar"}).Draw(t, "kind")
	nodes := []PN{{K: "Par", F: []PF{genFilter(t, kinds)}}, {K: kind, F: []PF{genFilter(t, kinds)}}}
	if rapid.Bool().Draw(t, "more") {
		nodes = append(nodes, PN{K: rapid.SampledFrom(coreNodes).Draw(t, "third"), F: []PF{genFilter(t, kinds)}})
	}
	c.Segs = []PS{{N: nodes}}
	first := rapid.IntRange(0, 5).Draw(t, "first")
	if rapid.Bool().Draw(t, "before") && (kind == "Ord" || kind == "StrictOrd") {
		c.Hold = []int{0, first}
	} else {
		c.Hold = []int{1, -1}
		first = 0
	}
	f := Fault{Do: rapid.SampledFrom([]string{"cancel", "ctx", "seterr"}).Draw(t, "do"), At: "step"}
	if (kind == "Ord" || kind == "StrictOrd") && rapid.Bool().Draw(t, "in receiver") {
		f.At, f.Node, f.Seq = "recv", 1, first+rapid.IntRange(0, 9).Draw(t, "later")
	}
	c.Ctx = rapid.Bool().Draw(t, "ctx")
	c.Faults = []Fault{f}
	return c
}

// genFlood generates runs in which hundreds of batches have been passed to a
// Par node, but have not been processed yet (there is only one CPU), when the
// pipeline is cancelled.
func genFlood(t *rapid.T) PCase {
	c := PCase{Src: Src{K: "func", Inc: 1, Max: 1, Chunk: []int{1}, Endless: 2}, Mode: 2, Flood: true}
	kinds := []string{"recv", "map", "rf"}
	nodes := []PN{{K: "Par", F: []PF{genFilter(t, kinds)}}}
	for range rapid.IntRange(0, 2).Draw(t, "more") {
		nodes = append(nodes, PN{K: rapid.SampledFrom(coreNodes).Draw(t, "node"), F: []PF{genFilter(t, kinds)}})
	}
	c.Segs = []PS{{N: nodes}}
	c.Ctx = rapid.Bool().Draw(t, "ctx")
	c.Faults = []Fault{{Do: rapid.SampledFrom([]string{"cancel", "ctx", "seterr"}).Draw(t, "do"), At: "fetch", Seq: rapid.IntRange(200, 500).Draw(t, "batches")}}
	return c
}

// flood checks runs of genFlood: most of the batches are dropped.
func (c *PCase) flood(x *X) (err error) {
	c.label(x)
	x.Label("flood")
	for range 5 { // a slow machine may let goroutines in, but not each time
		tr := c.newTracer()
		out := tr.exec()
		if err := out.hang(); err != nil {
			return err
		}
		if out.Panicked {
			return fmt.Errorf("the run panicked: %v", out.Panic)
		}
		evs := tr.events()
		at := slices.IndexFunc(evs, func(e pev) bool { return e.kind == evCancelled })
		if at < 0 {
			return fmt.Errorf("harness: not cancelled")
		}
		fetched, before, after := 0, 0, 0
		for i, e := range evs {
			switch {
			case e.kind == evFetch && i < at:
				fetched++
			case e.kind == evEnter && e.node == 0 && e.f == 0:
				if i < at {
					before++
				} else {
					after++
				}
			}
		}
		n := fetched - before
		x.obs = fmt.Sprintf("%d batches passed to the Par node but not processed when the pipeline was cancelled, %d of them processed", n, after)
		if n < 100 || after <= n/2 {
			x.trivial = n < 100
			return nil
		}
		err = fmt.Errorf("node 0 (Par) was called for %d of the %d batches that waited for it when the pipeline was cancelled", after, n)
	}
	return err
}

// waiting checks cancelled runs of genWaiting.
func (tr *tracer) waiting(x *X, evs []pev, at int) error {
	entered, left := map[int]bool{}, map[int]bool{}
	late := 0
	for i, e := range evs {
		switch {
		case e.kind == evLeave && e.node == 0 && i < at:
			left[e.seq] = true
		case e.kind == evEnter && e.node == 1 && e.f == 0:
			if i < at {
				entered[e.seq] = true
			} else if left[e.seq] {
				late++
			}
		}
	}
	n := 0
	for s := range left {
		if !entered[s] {
			n++
		}
	}
	x.obs = fmt.Sprintf("%d batches waited when the pipeline was cancelled, %d of them processed", n, late)
	if n < 40 {
		return nil
	}
	x.Label("many batches waiting")
	if late > n/2 {
		return fmt.Errorf("node 1 (%s) was called for %d of the %d batches that waited for it when the pipeline was cancelled", tr.nodeKind[1], late, n)
	}
	return nil
}

// finish runs the case, cancelling it when it waits for an open channel.
func (tr *tracer) finish() Outcome {
	out := tr.exec()
	if out.Deadlock != "" && tr.c.Src.Open {
		tr.mu.Lock()
		done := tr.cancelled
		tr.mu.Unlock()
		if !done {
			tr.raise(Fault{Do: "cancel", At: "blocked"})
			out = tr.s.Continue(tr.c.Sched)
		}
	}
	return out
}

func runC25(x *X, c PCase) error {
	if c.Storm != nil {
		return runStorm(x, c.Storm)
	}
	if c.Flood {
		return c.flood(x)
	}
	tr := c.newTracer()
	out := tr.finish()
	defer tr.s.Open()
	if err := out.hang(); err != nil {
		return err
	}
	if out.Panicked {
		return fmt.Errorf("the run panicked: %v", out.Panic)
	}
	if _, err := tr.s.Drain(); err != nil {
		return err
	}
	bs, _, err := tr.batches()
	if err != nil {
		return err
	}
	evs := tr.events()
	m := c.model(bs, tr.srcType)
	c.label(x)
	at := slices.IndexFunc(evs, func(e pev) bool { return e.kind == evCancelled })
	switch {
	case at < 0:
		x.Label("not cancelled")
	default:
		x.Label("cancelled by %s at %s", c.Faults[0].Do, c.Faults[0].At)
	}
	x.trivial = len(bs) < 2 || at < 0
	x.obs = fmt.Sprintf("%d batches fetched, %d events", len(bs), len(evs))
	if err := tr.endless(x, evs); err != nil {
		return err
	}
	if err := tr.values(evs, m, false); err != nil {
		return err
	}
	if err := tr.ordering(evs, m); err != nil {
		return err
	}
	if err := tr.finals(evs, m, false); err != nil {
		return err
	}
	if at < 0 {
		return nil
	}
	if len(c.Hold) == 2 {
		return tr.waiting(x, evs, at)
	}
	// effectiveness: of the many batches that were fetched only after the
	// pipeline had been cancelled, most enter no node
	first, last := 0, 0
	for i, e := range evs {
		if e.kind == evFetch {
			if last++; i < at {
				first++
			}
		}
	}
	left := min(last, len(bs)) - first
	if left < 200 {
		return nil
	}
	x.Label("many batches left")
	after := map[nf]int{}
	for _, e := range evs {
		if e.kind == evEnter && e.seq >= first {
			after[nf{e.node, e.f}]++
		}
	}
	for _, k := range m.order {
		kind := tr.nodeKind[k[0]]
		if k[1] != 0 || kind == "Custom" || kind == "Transform" {
			continue
		}
		if after[k] > left/2 {
			return fmt.Errorf("%s was called for %d of %d batches that were fetched after the pipeline had been cancelled", tr.nodeName(k), after[k], left)
		}
	}
	return nil
}

// ---- C31: no goroutine stays ------------------------------------------------------------

type C31Case struct {
	Op   *OpCase `json:"op,omitempty"`
	P    *PCase  `json:"p,omitempty"`
	Sort int     `json:"sort,omitempty"`
}

func genC31(t *rapid.T, cfg *Cfg) C31Case {
	switch k := rapid.IntRange(0, 9).Draw(t, "what"); {
	case k < 2:
		c := genOp(t, cat(parThunkOps, parRangeOps), 32)
		c.Panics = genAts(t, &c, "panics", 0, 2)
		c.Sched = genSched(t)
		return C31Case{Op: &c}
	case k < 4:
		c := genSpec(t, rapid.Bool().Draw(t, "panics?"))
		return C31Case{Op: &c}
	case k < 5:
		return C31Case{Sort: rapid.IntRange(2, 20000).Draw(t, "sort")}
	}
	if rapid.IntRange(0, 5).Draw(t, "many") == 0 {
		c := genMany(t)
		return C31Case{P: &c}
	}
	o := popt{nodes: cat(coreNodes, coreNodes, []string{"Limit", "Skip", "Custom"}), filters: []string{"recv", "recv", "rf", "id", "count", "fin"}, maxNodes: 5, batches: 12}
	if rapid.IntRange(0, 2).Draw(t, "transforms") == 0 {
		o.trans, o.maxSegs = allTrans, 3
	}
	c := genPipe(t, o)
	c.Notify = rapid.IntRange(0, 1).Draw(t, "notify")
	if rapid.Bool().Draw(t, "faults") {
		genFaults(t, &c, []string{"cancel", "ctx", "seterr", "seterr"})
	}
	switch c.Src.K {
	case "func", "funcknown", "scanner", "bytes":
		if rapid.IntRange(0, 3).Draw(t, "srcerr") == 0 {
			c.Src.ErrAt = rapid.IntRange(1, 8).Draw(t, "errat")
		}
	case "chan", "multichan":
		c.Src.Open = rapid.IntRange(0, 3).Draw(t, "open") == 0
	}
	return C31Case{P: &c}
}

func runC31(x *X, c C31Case) error {
	before := libGoroutines(dumpAll())
	var s *Sched
	var name string
	switch {
	case c.Op != nil:
		e := newEnv(c.Op)
		s = e.s
		name = c.Op.Op
		_, out, _ := e.exec()
		if err := out.hang(); err != nil {
			return err
		}
		x.Label("%s", name)
		x.trivial = len(e.sortedCalls()) < 2
	case c.P != nil:
		tr := c.P.newTracer()
		s = tr.s
		name = "a pipeline"
		out := tr.finish()
		if err := out.hang(); err != nil {
			return err
		}
		c.P.label(x)
		if tr.cancelled {
			x.Label("cancelled")
		}
		if tr.srcErr != nil {
			x.Label("source error")
		}
		x.obs = fmt.Sprintf("%d fetches", len(tr.fetches))
		x.trivial = len(tr.fetches) < 2
		tr.doCtx() // for RunWithContext the caller has to do this
	default:
		s = &Sched{}
		name = "psort"
		out := sortAll(c.Sort)
		if err := out.hang(); err != nil {
			return err
		}
		x.Label("psort")
	}
	dump, err := s.Drain()
	if err != nil {
		return err
	}
	for id, g := range libGoroutines(dump) {
		if _, old := before[id]; !old {
			return fmt.Errorf("a goroutine of %s is left behind after it returned and all its functions have returned:\n%s", name, trunc(g, 3000))
		}
	}
	return nil
}

func init() {
	define("C23", "at least 2 fetches with data (or a cancellation after some data)", []Cfg{{Name: "default", Quick: 8000}, {Name: "gomaxprocs 2", Procs: 2, Quick: 3000}}, genC23, runC23)
	define("C24", "a run with at least one SetErr call or a source error", []Cfg{
		{Name: "default", Quick: 1500},
		{Name: "race", Race: true, Quick: 600},
		{Name: "2 cpus", CPUs: 2, Quick: 700},
	}, genC24, runC24)
	define("C25", "a run of at least 2 batches that is cancelled", append(pipeCfgs(1500), Cfg{Name: "flood", Procs: 1, Mode: "flood", Quick: 100, Thor: 1000}, Cfg{Name: "storm", Mode: "storm", Quick: 150, Thor: 2000}, Cfg{Name: "storm, gomaxprocs 4", Procs: 4, Mode: "storm", Quick: 150, Thor: 2000}), genC25, runC25)
	define("C31", "an operation with at least 2 batches or functions", pipeCfgs(1500), genC31, runC31)
}
