package main

import (
	"fmt"
	"reflect"

	"pgregory.net/rapid"
)

var specOps = cat(specThunkOps, specRangeOps)

// decisive outcome of boolean speculative operations
func decValue(op string) bool {
	return op != "spec.And" && op != "spec.RangeAnd"
}

// checkCalls: no function called twice, nothing outside the range.
func noDoubleCall(c *OpCase, bs [][2]int) error {
	if c.isRange() && c.Low == c.High {
		if len(bs) > 1 {
			return fmt.Errorf("%d calls for an empty range", len(bs))
		}
		return nil
	}
	for i, b := range bs {
		if b[0] < c.Low || b[1] > c.High || b[0] >= b[1] || i > 0 && b[0] < bs[i-1][1] {
			return fmt.Errorf("functions called twice or outside the range: %s", trunc(fmt.Sprint(bs), 400))
		}
	}
	return nil
}

// expectEvent compares the result with the left-most event.
func expectEvent(c *OpCase, ev event, res any, out *Outcome) error {
	if ev.panics {
		if !out.Panicked {
			return fmt.Errorf("%s returned %v although its left-most event is the panic of batch [%d,%d) with %v", c.Op, res, ev.lo, ev.hi, ev.val)
		}
		if err := delivered(ev, out.Panic); err != nil {
			return fmt.Errorf("%s: %w", c.Op, err)
		}
		return nil
	}
	if out.Panicked {
		return fmt.Errorf("%s panicked with %s although its left-most event is the decisive result of [%d,%d)", c.Op, trunc(fmt.Sprint(out.Panic), 500), ev.lo, ev.hi)
	}
	var want any = decValue(c.Op)
	if c.isReduce() {
		want = decResult{ev.val.(string), true}
	}
	if !reflect.DeepEqual(res, want) {
		return fmt.Errorf("%s: result %v, but the left-most decisive outcome, from [%d,%d), is %v", c.Op, trunc(fmt.Sprint(res), 300), ev.lo, ev.hi, trunc(fmt.Sprint(want), 300))
	}
	return nil
}

func genSpec(t *rapid.T, panics bool) OpCase {
	c := genOp(t, specOps, 48)
	if rapid.IntRange(0, 5).Draw(t, "anydec") > 0 {
		c.Dec = genPositions(t, &c, "dec", 4)
	}
	if c.isReduce() {
		c.JoinDec = genPositions(t, &c, "joindec", 2)
	}
	if panics {
		c.Panics = genAts(t, &c, "panics", 1, 4)
		if c.isReduce() {
			c.JoinPanic = genAts(t, &c, "joinpanics", 0, 2)
		}
	}
	c.Free = rapid.IntRange(0, 3).Draw(t, "free") == 0
	if !c.Free {
		c.Sched = genSched(t)
	}
	c.company(t)
	return c
}

func runSpec(x *X, c OpCase) error {
	e := newEnv(&c)
	res, out, fold := e.exec()
	defer e.s.Open()
	if err := out.hang(); err != nil {
		return err
	}
	early := e.retFinished < e.ncalls()
	if _, err := e.s.Drain(); err != nil {
		return err
	}
	bs := e.sortedCalls()
	if err := noDoubleCall(&c, bs); err != nil {
		return fmt.Errorf("%s: %w", c.Op, err)
	}
	joins, badJoin := e.joinState()
	if badJoin != "" {
		return fmt.Errorf("%s: %s", c.Op, badJoin)
	}
	x.Label("op %s", c.Op)
	if c.Reuse && early {
		x.Label("the slice of functions was used again while functions were running")
	}
	x.trivial = len(bs) < 2
	x.obs = fmt.Sprintf("%d events, result %v, panicked %v", len(e.evs()), trunc(fmt.Sprint(res), 60), out.Panicked)
	if early {
		x.Label("returned before all functions finished")
	}
	if len(e.evs()) > 1 {
		x.Label("several events")
	}
	ev, any := leftmost(e.evs())
	if any {
		if ev.panics {
			x.Label("outcome: panic")
		} else {
			x.Label("outcome: decisive")
		}
		return expectEvent(&c, ev, res, &out)
	}
	x.Label("outcome: all combined")
	if out.Panicked {
		return fmt.Errorf("%s panicked although nothing it called did: %s", c.Op, trunc(fmt.Sprint(out.Panic), 800))
	}
	if err := tiles(&c, bs); err != nil {
		return fmt.Errorf("%s: nothing was decisive, but not every function was called exactly once: %w", c.Op, err)
	}
	if e.retFinished != len(bs) {
		return fmt.Errorf("%s: nothing was decisive, but it returned with %d of %d functions finished", c.Op, e.retFinished, len(bs))
	}
	if want := fold(bs); !reflect.DeepEqual(res, want) {
		return fmt.Errorf("%s: result %v, combining all functions left to right gives %v", c.Op, trunc(fmt.Sprint(res), 300), trunc(fmt.Sprint(want), 300))
	}
	if c.isReduce() && joins != len(bs)-1 {
		return fmt.Errorf("%s: %d joins for %d functions", c.Op, joins, len(bs))
	}
	return nil
}

// ---- C08 ----------------------------------------------------------------------

func genC08(t *rapid.T, cfg *Cfg) OpCase {
	c := genOp(t, specOps, 48)
	if c.isReduce() && rapid.IntRange(0, 2).Draw(t, "j") == 0 {
		c.JoinDec = []int{posIn(t, &c, "joindec")}
		c.Dec = genPositions(t, &c, "dec", 1)
	} else {
		c.Dec = append(genPositions(t, &c, "dec", 2), posIn(t, &c, "dec"))
	}
	c.Sched = genSched(t)
	c.Probe = rapid.IntRange(0, 7).Draw(t, "probe") == 0
	return c
}

func runC08(x *X, c OpCase) error {
	// learn the extent of the left-most decisive event
	free := c
	free.Free = true
	e0 := newEnv(&free)
	_, out, _ := e0.exec()
	if err := out.hang(); err != nil {
		return err
	}
	if _, err := e0.s.Drain(); err != nil {
		return err
	}
	ev, any := leftmost(e0.evs())
	x.Label("op %s", c.Op)
	if !any || out.Panicked {
		x.trivial = true
		return nil
	}
	e := newEnv(&c)
	if c.Probe {
		// hold everything to the left of some decisive function
		right := ev
		for _, v := range e0.evs() {
			if v.lo > right.lo {
				right = v
			}
		}
		e.s.hold = func(k Key) bool { return k[0] < right.lo }
		x.Label("probe")
	} else {
		e.s.hold = func(k Key) bool { return k[0] >= ev.hi }
	}
	_, out, _ = e.exec()
	defer e.s.Open()
	if err := out.hang(); err != nil {
		return err
	}
	held := e.s.Pending()
	x.trivial = len(held) == 0
	x.obs = fmt.Sprintf("returned=%v with %d functions still held", out.Returned, len(held))
	if c.Probe {
		if !out.Returned {
			x.Known("left-wait " + c.Op)
		}
	} else {
		if !out.Returned {
			return fmt.Errorf("%s waits for functions to the right (%v held) although [%d,%d) has already reported a decisive outcome", c.Op, held, ev.lo, ev.hi)
		}
		if e.retFinished == e.ncalls() {
			x.Label("returned with nothing outstanding")
		} else {
			x.Label("returned with functions outstanding")
		}
	}
	e.s.hold = nil
	e.s.Open()
	if !out.Returned {
		out = e.s.Continue(nil)
		if err := out.hang(); err != nil {
			return err
		}
	}
	_, err := e.s.Drain()
	return err
}

func init() {
	define("C07", "non-trivial: at least two functions or batches were called",
		[]Cfg{{Name: "all-cpus", Quick: 4500}, {Name: "1cpu", CPUs: 1, Quick: 2000}, {Name: "procs2", Procs: 2, Quick: 2500}, {Name: "race", Race: true, Quick: 700}},
		func(t *rapid.T, cfg *Cfg) OpCase {
			c := genSpec(t, false)
			c.Reuse = !c.isRange() && rapid.IntRange(0, 3).Draw(t, "reuse") == 3
			return c
		}, runSpec)
	define("C08", "non-trivial: there is a decisive function and at least one function was still held unfinished when the operation returned",
		[]Cfg{{Name: "all-cpus", Quick: 3500}, {Name: "1cpu", CPUs: 1, Quick: 1500}, {Name: "procs2", Procs: 2, Quick: 2000}}, genC08, runC08)
	define("C09", "non-trivial: at least two functions or batches, at least one of which is generated to panic",
		[]Cfg{{Name: "all-cpus", Quick: 4500}, {Name: "1cpu", CPUs: 1, Quick: 2000}, {Name: "race", Race: true, Quick: 700}},
		func(t *rapid.T, cfg *Cfg) OpCase { return genSpec(t, true) }, runSpec)
}
