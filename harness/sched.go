package main

import (
	"bytes"
	"fmt"
	"regexp"
	"runtime"
	"runtime/metrics"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Key identifies a point in a user function at which the scheduler can hold it.
type Key [4]int

func (k Key) less(o Key) bool {
	for i := range k {
		if k[i] != o[i] {
			return k[i] < o[i]
		}
	}
	return false
}

type gate struct {
	key Key
	ch  chan struct{}
}

// Sched is a scheduler for user functions: each call of Gate blocks until the
// controlling goroutine (Run) releases it, which happens only when nothing else
// in the process can make progress. Which of the waiting functions continues is
// decided by the generated schedule, so the order in which user functions
// finish is part of the case and not of the machine's timing.
type Sched struct {
	mu      sync.Mutex
	pending []*gate
	free    atomic.Bool
	done    atomic.Bool
	steps   int

	// hold reports whether a gate must not be released (for rendezvous checks).
	hold func(Key) bool
	// onStep is called by the controller before each release.
	onStep func(step int)
}

func (s *Sched) Gate(k Key) {
	if s.free.Load() {
		return
	}
	g := &gate{k, make(chan struct{})}
	s.mu.Lock()
	if s.free.Load() {
		s.mu.Unlock()
		return
	}
	s.pending = append(s.pending, g)
	s.mu.Unlock()
	<-g.ch
}

// Pending returns the keys of all held user functions.
func (s *Sched) Pending() []Key {
	s.mu.Lock()
	defer s.mu.Unlock()
	ks := make([]Key, 0, len(s.pending))
	for _, g := range s.pending {
		ks = append(ks, g.key)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].less(ks[j]) })
	return ks
}

// Open releases everything and stops gating.
func (s *Sched) Open() {
	s.mu.Lock()
	s.free.Store(true)
	for _, g := range s.pending {
		close(g.ch)
	}
	s.pending = nil
	s.mu.Unlock()
}

// Outcome of a supervised call.
type Outcome struct {
	Returned bool
	Panic    any
	Panicked bool
	Deadlock string // non-empty: stack dump proving that nothing can progress
	CPUSpin  string // non-empty: the call consumed an absurd amount of CPU time
	Stalled  bool   // stopped by hold: only held gates remain
}

func (o *Outcome) hang() error {
	switch {
	case o.Deadlock != "":
		return fmt.Errorf("deadlock: every goroutine is blocked and the operation has not returned\n%s", trunc(libStacks(o.Deadlock), 6000))
	case o.CPUSpin != "":
		return fmt.Errorf("no termination: %s", o.CPUSpin)
	}
	return nil
}

var qsamples = []metrics.Sample{
	{Name: "/sched/goroutines/running:goroutines"},
	{Name: "/sched/goroutines/runnable:goroutines"},
	{Name: "/sched/goroutines/not-in-go:goroutines"},
}

func fastQuiet() bool {
	metrics.Read(qsamples)
	return qsamples[0].Value.Uint64() <= 1 && qsamples[1].Value.Uint64() == 0 && qsamples[2].Value.Uint64() == 0
}

var headerRE = regexp.MustCompile(`(?m)^goroutine (\d+) (?:gp=\S+ m=\S+ (?:mp=\S+ )?)?\[([^\]]+)\]:$`)

var blockedStates = map[string]bool{
	"chan receive": true, "chan send": true, "select": true,
	"chan receive (nil chan)": true, "chan send (nil chan)": true, "select (no cases)": true,
	"sync.Cond.Wait": true, "sync.Mutex.Lock": true,
	"sync.RWMutex.RLock": true, "sync.RWMutex.Lock": true,
	"sync.WaitGroup.Wait": true,
}

var dumpBuf = make([]byte, 1<<20)

func dumpAll() []byte {
	for {
		n := runtime.Stack(dumpBuf, true)
		if n < len(dumpBuf) || len(dumpBuf) >= 64<<20 {
			return dumpBuf[:n]
		}
		dumpBuf = make([]byte, 2*len(dumpBuf))
	}
}

// strictQuiet stops the world and reports whether every goroutine except the
// calling one is blocked in a channel or sync operation. Since no harness code
// uses timers, such a state cannot change any more unless the caller acts.
func strictQuiet() (bool, []byte) {
	d := dumpAll()
	for i, m := range headerRE.FindAllSubmatch(d, -1) {
		if i == 0 {
			continue // the caller
		}
		st := string(m[2])
		if j := strings.IndexByte(st, ','); j >= 0 {
			st = st[:j] // wait duration, "locked to thread"
		}
		if !blockedStates[st] {
			return false, d
		}
	}
	return true, d
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// cpuBudget is the CPU time after which a case that normally takes milliseconds
// is reported as not terminating. It is CPU time of this process, not wall
// time, so a busy machine does not shorten it.
var cpuBudget = 60 * time.Second

// settle waits until nothing but the caller can run, or cond becomes true.
// In strict mode quiescence is proved with a stack dump.
func settle(cond func() bool, strict bool) (quiet bool, dump []byte, spin bool) {
	start := time.Duration(-1)
	streak := 0
	for i := 0; ; i++ {
		if cond != nil && cond() {
			return false, nil, false
		}
		if fastQuiet() {
			streak++
			if streak >= 2 {
				if !strict {
					return true, nil, false
				}
				if q, d := strictQuiet(); q {
					return true, d, false
				}
				streak = 0
			}
		} else {
			streak = 0
		}
		switch {
		case i < 300:
			runtime.Gosched()
		case i < 2000:
			time.Sleep(20 * time.Microsecond)
		default:
			time.Sleep(time.Millisecond)
			if i%64 == 0 {
				// the approximate metric may lag; ask the precise one too
				if q, d := strictQuiet(); q {
					return true, d, false
				}
			}
			if start < 0 {
				start = cpuTime()
			} else if i%128 == 0 && cpuTime()-start > cpuBudget {
				return false, nil, true
			}
		}
	}
}

// Run executes f in its own goroutine and controls the gates with the given
// schedule until f returns, deadlocks, or only held gates remain.
func (s *Sched) Run(f func(), schedule []byte) (out Outcome) {
	s.done.Store(false)
	res := &Outcome{}
	go func() {
		ok := false
		defer func() {
			if !ok {
				res.Panic = recover()
				res.Panicked = true
			}
			s.done.Store(true)
		}()
		f()
		ok = true
	}()
	o := s.Continue(schedule)
	if o.Returned {
		o.Panic, o.Panicked = res.Panic, res.Panicked
	}
	return o
}

// Continue resumes controlling after a stall.
func (s *Sched) Continue(schedule []byte) (out Outcome) {
	for {
		quiet, _, spin := settle(s.done.Load, false)
		if spin {
			out.CPUSpin = fmt.Sprintf("more than %v of CPU time used without returning\n%s", cpuBudget, trunc(string(dumpAll()), 5000))
			return
		}
		if !quiet {
			out.Returned = true
			return
		}
		if s.release(schedule) {
			continue
		}
		// nothing releasable: prove it
		quiet, d, spin := settle(func() bool { return s.done.Load() || s.releasable() }, true)
		if spin || (!quiet) {
			continue
		}
		if s.done.Load() || s.releasable() {
			continue
		}
		s.mu.Lock()
		n := len(s.pending)
		s.mu.Unlock()
		if n > 0 {
			out.Stalled = true
			return
		}
		out.Deadlock = string(bytes.Clone(d))
		return
	}
}

func (s *Sched) releasable() bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, g := range s.pending {
		if s.hold == nil || !s.hold(g.key) {
			return true
		}
	}
	return false
}

func (s *Sched) release(schedule []byte) bool {
	if s.onStep != nil && s.releasable() {
		s.onStep(s.steps)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	var cand []*gate
	for _, g := range s.pending {
		if s.hold == nil || !s.hold(g.key) {
			cand = append(cand, g)
		}
	}
	if len(cand) == 0 {
		return false
	}
	sort.SliceStable(cand, func(i, j int) bool { return cand[i].key.less(cand[j].key) })
	var g *gate
	if len(schedule) == 0 {
		g = cand[0]
	} else {
		g = cand[int(schedule[s.steps%len(schedule)])%len(cand)]
	}
	s.steps++
	for i, p := range s.pending {
		if p == g {
			s.pending = append(s.pending[:i], s.pending[i+1:]...)
			break
		}
	}
	close(g.ch)
	return true
}

// Drain opens all gates and waits until the process is quiescent. It returns
// the stack dump at quiescence, or ok=false if that does not happen.
func (s *Sched) Drain() (dump []byte, err error) {
	s.Open()
	quiet, d, spin := settle(nil, true)
	if spin || !quiet {
		return nil, fmt.Errorf("no quiescence after the operation: goroutines keep running\n%s", trunc(string(dumpAll()), 5000))
	}
	return d, nil
}

// --- goroutine leak detection -------------------------------------------------

var goroutineRE = regexp.MustCompile(`(?m)^goroutine (\d+) `)

// libGoroutines returns the goroutines in dump that were created by library
// code, keyed by id.
func libGoroutines(dump []byte) map[string]string {
	res := map[string]string{}
	for _, g := range strings.Split(string(dump), "\n\n") {
		i := strings.LastIndex(g, "created by ")
		if i < 0 || !strings.HasPrefix(g[i+len("created by "):], "github.com/intel/forGoParallel/") {
			continue
		}
		m := goroutineRE.FindStringSubmatch(g)
		if m != nil {
			res[m[1]] = g
		}
	}
	return res
}

// supervise runs f without gates.
func supervise(f func()) Outcome {
	s := &Sched{}
	s.free.Store(true)
	return s.Run(f, nil)
}

// libStacks keeps the goroutines of a dump that are inside library code.
func libStacks(dump string) string {
	var r []string
	for _, g := range strings.Split(dump, "\n\n") {
		if strings.Contains(g, "github.com/intel/forGoParallel/") {
			r = append(r, g)
		}
	}
	return strings.Join(r, "\n\n")
}
