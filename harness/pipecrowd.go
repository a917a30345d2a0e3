package main

import (
	"context"
	"fmt"
	"slices"
	"strings"
	"sync/atomic"
	"time"

	"github.com/intel/forGoParallel/pipeline"
	"pgregory.net/rapid"
)

// ---- crowds of batches ----------------------------------------------------------------
//
// Runs of up to some 30000 batches that are all in a parallel receiver at the same
// time (Meet), or all overtake a few of them (Late): whatever is limited to some fixed
// number of batches (goroutines, slots, stash entries) shows here. The late batches are
// let go, in the given order, when all others have left the receiver.

type Crowd struct {
	N     int      `json:"n"`
	Known bool     `json:"known"` // a source of known size
	Pre   string   `json:"pre,omitempty"`
	Front string   `json:"front"`
	Meet  bool     `json:"meet,omitempty"`
	Late  []int    `json:"late,omitempty"`
	Back  []string `json:"back"`
}

func genCrowd(t *rapid.T, meet bool) *Crowd {
	c := &Crowd{
		N:     1 << rapid.SampledFrom([]int{7, 8, 9, 10, 11, 12, 13, 14}).Draw(t, "pow"),
		Known: rapid.Bool().Draw(t, "known"),
		Pre:   rapid.SampledFrom([]string{"", "", "Seq", "Ord"}).Draw(t, "pre"),
		Front: rapid.SampledFrom([]string{"Par", "Par", "ParTransform"}).Draw(t, "front"),
		Meet:  meet || rapid.IntRange(0, 2).Draw(t, "meet") == 0,
		Back:  rapid.SliceOfN(rapid.SampledFrom([]string{"Ord", "Ord", "Ord", "Seq", "Par", "LimitedPar", "OrdTransform", "SeqTransform", "StrictOrd"}), 1, 3).Draw(t, "back"),
	}
	c.N += rapid.IntRange(-1, c.N).Draw(t, "n")
	if rapid.IntRange(0, 3).Draw(t, "late?") > 0 {
		for range rapid.IntRange(1, 3).Draw(t, "lates") {
			l := rapid.IntRange(0, rapid.SampledFrom([]int{0, 3, c.N - 1}).Draw(t, "where")).Draw(t, "late")
			if !slices.Contains(c.Late, l) {
				c.Late = append(c.Late, l)
			}
		}
	}
	if strings.HasPrefix(c.Front, "Par") && c.Back[0] == "Par" {
		c.Back[0] = "Ord"
	}
	if strings.HasSuffix(c.Back[len(c.Back)-1], "Transform") { // not called if nothing follows
		c.Back = append(c.Back, "Seq")
	}
	if slices.Contains(c.Back, "StrictOrd") { // wakes up all waiting batches for each one
		c.N = min(c.N, 400)
		c.Late = slices.DeleteFunc(c.Late, func(l int) bool { return l >= c.N })
	}
	return c
}

func runCrowd(x *X, c *Crowd) error {
	var bad atomic.Pointer[string]
	fail := func(f string, a ...any) {
		m := fmt.Sprintf(f, a...)
		bad.CompareAndSwap(nil, &m)
	}
	var src pipeline.Source[[]int]
	if c.Known {
		d := make([]int, c.N)
		for i := range d {
			d[i] = i
		}
		src = pipeline.NewSlice(d)
	} else {
		next := 0
		src = pipeline.NewFunc(nil, func(int) ([]int, int, error) {
			if next == c.N {
				return nil, 0, nil
			}
			next++
			return []int{next - 1}, 1, nil
		})
	}
	p := pipeline.New(src)
	p.NofBatches(c.N)
	counts := [][]atomic.Int32{}
	visit := func(what string, excl, ordered bool) func(seq int, d []int) []int {
		stage := len(counts)
		counts = append(counts, make([]atomic.Int32, c.N))
		var active atomic.Int32
		next := 0
		return func(seq int, d []int) []int {
			if seq < 0 || seq >= c.N {
				fail("stage %d (%s): sequence number %d of %d batches", stage, what, seq, c.N)
				return d
			}
			if counts[stage][seq].Add(1) != 1 {
				fail("stage %d (%s): batch %d more than once", stage, what, seq)
			}
			if len(d) != 1 || d[0] != seq {
				fail("stage %d (%s): batch %d is %v", stage, what, seq, trunc(fmt.Sprint(d), 60))
			}
			if excl {
				if active.Add(1) != 1 {
					fail("stage %d (%s): two batches at the same time", stage, what)
				} else if ordered {
					if seq != next {
						fail("stage %d (%s): batch %d where batch %d is due", stage, what, seq, next)
					}
					next = seq + 1
				}
				active.Add(-1)
			}
			return d
		}
	}
	if c.Pre != "" {
		addStages(p, c.Pre, pipeline.Receive(visit(c.Pre, true, true)))
	}
	var arrived, left atomic.Int64
	met := make(chan struct{})
	turn := make([]chan struct{}, len(c.Late)+1)
	for i := range turn {
		turn[i] = make(chan struct{})
	}
	if len(c.Late) == c.N {
		close(turn[0])
	}
	v := visit(c.Front, false, false)
	front := func(seq int, d []int) []int {
		d = v(seq, d)
		if c.Meet {
			if arrived.Add(1) == int64(c.N) {
				close(met)
			}
			<-met
		}
		if i := slices.Index(c.Late, seq); i >= 0 {
			<-turn[i]
			time.Sleep(2*time.Millisecond + time.Duration(c.N)*2*time.Microsecond)
			close(turn[i+1])
		} else if left.Add(1) == int64(c.N-len(c.Late)) {
			close(turn[0])
		}
		return d
	}
	q := p
	if c.Front == "ParTransform" {
		q = pipeline.ParTransform(p, front)
	} else {
		addStages(p, c.Front, pipeline.Receive(front))
	}
	for _, k := range c.Back {
		switch k {
		case "OrdTransform":
			q = pipeline.OrdTransform(q, visit(k, true, true))
		case "SeqTransform":
			q = pipeline.SeqTransform(q, visit(k, true, false))
		default:
			addStages(q, k, pipeline.Receive(visit(k, exclusiveKind(k), k == "Ord" || k == "StrictOrd")))
		}
	}
	s := &Sched{}
	s.free.Store(true)
	out := s.Run(func() { p.RunWithContext(context.WithCancel(context.Background())) }, nil)
	x.Label("crowd %s", c.Front)
	if len(c.Late) > 0 {
		x.Label("crowd overtakes")
	}
	if c.Meet {
		x.Label("crowd meets")
	}
	x.obs = fmt.Sprintf("%d batches", c.N)
	what := fmt.Sprintf("a run of %d batches (%s)", c.N, strings.Trim(strings.Join(append([]string{c.Pre, c.Front}, c.Back...), " "), " "))
	if b := bad.Load(); b != nil {
		return fmt.Errorf("%s: %s", what, *b)
	}
	if err := out.hang(); err != nil {
		return fmt.Errorf("%s: %w", what, err)
	}
	if out.Panicked {
		return fmt.Errorf("%s panicked: %s", what, trunc(fmt.Sprint(out.Panic), 800))
	}
	for st := range counts {
		for i := range counts[st] {
			if counts[st][i].Load() != 1 {
				return fmt.Errorf("%s: stage %d has not processed batch %d", what, st, i)
			}
		}
	}
	return nil
}
