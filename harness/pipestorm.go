package main

import (
	"context"
	"errors"
	"fmt"
	"sync/atomic"

	"github.com/intel/forGoParallel/pipeline"
	"pgregory.net/rapid"
)

// ---- repeated cancellation races ----------------------------------------------------
//
// A run in which many parallel receivers finish at once and queue up before a
// stage that admits them one after the other, while one receiver of that stage
// returns at the very moment the run is cancelled. The moments are shifted a
// little from repetition to repetition. Nothing in the run is instrumented, so
// that the timing is that of the library.

type Storm struct {
	Batches int    `json:"batches"`
	Front   string `json:"front"` // what precedes the admitting stage
	Stage   string `json:"stage"`
	Do      string `json:"do"`
	At      int    `json:"at"`   // batch whose receiver waits for the cancellation
	Wait    int    `json:"wait"` // spins before the cancellation, first repetition
	Step    int    `json:"step"`
	Reps    int    `json:"reps"`
}

var stormFronts = []string{"Par", "Par", "ParTransform", "LimitedPar", "Par,LimitedPar"}
var stormStages = []string{"StrictOrd", "StrictOrd", "LimitedPar,StrictOrd", "Seq,StrictOrd", "Ord", "StrictOrd,Par,StrictOrd"}

func genStorm(t *rapid.T) *Storm {
	return &Storm{
		Batches: rapid.IntRange(20, 80).Draw(t, "batches"),
		Front:   rapid.SampledFrom(stormFronts).Draw(t, "front"),
		Stage:   rapid.SampledFrom(stormStages).Draw(t, "stage"),
		Do:      rapid.SampledFrom([]string{"ctx", "cancel", "seterr"}).Draw(t, "do"),
		At:      rapid.IntRange(1, 8).Draw(t, "at"),
		Wait:    rapid.IntRange(0, 4000).Draw(t, "wait"),
		Step:    rapid.IntRange(1, 200).Draw(t, "step"),
		Reps:    stormReps,
	}
}

const stormReps = 150

var spinSink atomic.Int64

func spin(n int) {
	for range n {
		spinSink.Load()
	}
}

func addStages(p *pipeline.Pipeline[[]int], kinds string, f pipeline.Filter[[]int]) {
	for len(kinds) > 0 {
		k := kinds
		for i := range kinds {
			if kinds[i] == ',' {
				k = kinds[:i]
				break
			}
		}
		kinds = kinds[min(len(kinds), len(k)+1):]
		switch k {
		case "Par":
			p.Add(pipeline.Par(f))
		case "LimitedPar":
			p.Add(pipeline.LimitedPar(f))
		case "Seq":
			p.Add(pipeline.Seq(f))
		case "Ord":
			p.Add(pipeline.Ord(f))
		case "StrictOrd":
			p.Add(pipeline.StrictOrd(f))
		default:
			panic("harness: unknown stage " + k)
		}
	}
}

func (c *Storm) once(rep int) Outcome {
	p := pipeline.New[[]int](pipeline.NewSlice(make([]int, c.Batches)))
	p.NofBatches(c.Batches)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var arrived atomic.Int64
	release := make(chan struct{})
	go1 := make(chan struct{})
	var started, finished atomic.Bool
	limited := c.Front == "LimitedPar"
	front := func(seq int, data []int) []int {
		if !limited {
			// all batches leave the parallel receiver together
			if arrived.Add(1) == int64(c.Batches) {
				close(release)
			}
			select {
			case <-release:
			case <-ctx.Done():
			}
		}
		return data
	}
	q := p
	switch c.Front {
	case "ParTransform":
		q = pipeline.ParTransform(p, front)
	case "Par,LimitedPar":
		p.Add(pipeline.Par(pipeline.Receive(front)))
		p.Add(pipeline.LimitedPar(pipeline.Receive(func(_ int, data []int) []int { return data })))
	default:
		addStages(p, c.Front, pipeline.Receive(front))
	}
	kinds := c.Stage
	addStages(q, kinds, pipeline.Receive(func(seq int, data []int) []int {
		if seq == c.At {
			if started.CompareAndSwap(false, true) {
				close(go1)
			}
			for ctx.Err() == nil && !finished.Load() {
				spin(3)
			}
			spin(rep % 7)
		}
		return data
	}))
	go func() {
		select {
		case <-go1:
		case <-ctx.Done():
			return
		}
		spin(c.Wait + rep*c.Step)
		switch c.Do {
		case "ctx":
			cancel()
		case "cancel":
			p.Cancel()
		default:
			p.SetErr(errors.New("storm"))
		}
		finished.Store(true)
	}()
	s := &Sched{}
	s.free.Store(true)
	return s.Run(func() { p.RunWithContext(ctx, cancel) }, nil)
}

func runStorm(x *X, c *Storm) error {
	x.Label("storm %s > %s, %s", c.Front, c.Stage, c.Do)
	x.obs = fmt.Sprintf("%d repetitions", c.Reps)
	for rep := range c.Reps {
		out := c.once(rep)
		if err := out.hang(); err != nil {
			return fmt.Errorf("a run that is being cancelled (%s) does not return (repetition %d): %w", c.Do, rep, err)
		}
		if out.Panicked {
			return fmt.Errorf("the run panicked: %v", out.Panic)
		}
	}
	return nil
}
