package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"sort"

	"pgregory.net/rapid"
)

// Cfg is one worker configuration of a check: one OS process.
type Cfg struct {
	Name   string `json:"name"`
	Race   bool   `json:"race,omitempty"`
	Procs  int    `json:"procs,omitempty"` // GOMAXPROCS, 0 = default
	CPUs   int    `json:"cpus,omitempty"`  // CPU affinity (what runtime.NumCPU reports), 0 = all
	Quick  int    `json:"quick"`           // generated cases, quick tier (scaled by quickScale)
	Thor   int    `json:"thorough"`        // generated cases, thorough tier (0: derived, see counts)
	Mode   string `json:"mode,omitempty"`  // property-specific generator focus
	OnlyTh bool   `json:"only_thorough,omitempty"`
}

// quickScale multiplies the case counts of a property's configurations, so that
// a quick check takes about ten to twenty seconds on eight idle CPUs; a
// configuration with a Thor count of its own is not scaled.
var quickScale = map[string]int{
	"C01": 6, "C02": 4, "C03": 6, "C04": 4, "C05": 3, "C06": 4, "C07": 4, "C08": 5, "C09": 4,
	"C10": 8, "C11": 3, "C12": 2, "C13": 3, "C14": 10, "C15": 4, "C16": 3,
	"C17": 8, "C18": 8, "C19": 4, "C20": 5, "C21": 8, "C22": 5, "C23": 6, "C24": 4, "C25": 3,
	"C26": 10, "C27": 8, "C28": 8, "C29": 6, "C30": 4, "C31": 6, "C32": 12, "C33": 5, "C34": 3, "C35": 8, "C36": 14,
}

const thoroughFactor = 20

// counts returns the number of generated cases in each tier.
func (p *Prop) counts(c Cfg) (quick, thorough int) {
	if c.Thor > 0 {
		return c.Quick, c.Thor
	}
	q := c.Quick * max(1, quickScale[p.ID])
	return q, thoroughFactor * q
}

// Prop is one registered property check.
type Prop struct {
	ID     string
	Rule   string
	Cfgs   []Cfg
	Assume []string
	// gen draws a case; the result must be JSON-marshalable and complete.
	gen func(t *rapid.T, cfg *Cfg) any
	dec func(b []byte) (any, error)
	run func(x *X, c any) error
}

var props = map[string]*Prop{}

func define[C any](id, rule string, cfgs []Cfg, gen func(t *rapid.T, cfg *Cfg) C, run func(x *X, c C) error) *Prop {
	p := &Prop{
		ID: id, Rule: rule, Cfgs: cfgs,
		gen: func(t *rapid.T, cfg *Cfg) any { return gen(t, cfg) },
		dec: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			return c, err
		},
		run: func(x *X, c any) error { return run(x, c.(C)) },
	}
	props[id] = p
	return p
}

// X is the context of one case execution.
type X struct {
	cfg     *Cfg
	labels  []string
	trivial bool
	obs     string // short observation for the evidence samples
	known   []string
}

func (x *X) Label(format string, args ...any) {
	x.labels = append(x.labels, fmt.Sprintf(format, args...))
}

// Known reports a finding that is listed in the known-findings file.
func (x *X) Known(key string) { x.known = append(x.known, key) }

// Stats of one worker.
type Stats struct {
	Evals      int               `json:"evals"`
	Nontrivial int               `json:"nontrivial"`
	Labels     map[string]int    `json:"labels"`
	Hashes     []uint64          `json:"hashes"`
	Samples    []json.RawMessage `json:"samples"`
	Known      map[string]int    `json:"known"`
	Checks     int               `json:"checks"`
	seen       map[uint64]bool
}

func newStats() *Stats {
	return &Stats{Labels: map[string]int{}, Known: map[string]int{}, seen: map[uint64]bool{}}
}

func (s *Stats) add(x *X, js []byte) {
	s.Evals++
	for _, l := range x.labels {
		s.Labels[l]++
	}
	for _, k := range x.known {
		s.Known[k]++
	}
	if x.trivial {
		return
	}
	s.Nontrivial++
	h := fnv.New64a()
	h.Write(js)
	v := h.Sum64()
	if !s.seen[v] {
		s.seen[v] = true
		// keep a few samples spread over the run
		n := len(s.seen)
		if n == 1 || n == 10 || n == 100 || n == 1000 {
			if len(js) < 2000 {
				m, _ := json.Marshal(map[string]any{"case": json.RawMessage(js), "labels": x.labels, "observed": x.obs})
				s.Samples = append(s.Samples, m)
			}
		}
	}
}

// Violation written by a worker.
type Violation struct {
	Property string          `json:"property"`
	Cfg      Cfg             `json:"cfg"`
	Seed     uint64          `json:"seed"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message"`
	Kind     string          `json:"kind"`
}

// journal keeps the case in flight on disk so that a crash can be attributed.
type journal struct{ f *os.File }

func openJournal(path string) (*journal, error) {
	f, err := os.OpenFile(path, os.O_CREATE|os.O_TRUNC|os.O_RDWR, 0o644)
	return &journal{f}, err
}

func (j *journal) write(iter int, js []byte) {
	if j == nil {
		return
	}
	b := append([]byte(fmt.Sprintf("%012d %012d ", iter, len(js))), js...)
	j.f.WriteAt(b, 0)
}

func readJournal(path string) (iter int, js []byte) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 26 {
		return -1, nil
	}
	var n int
	fmt.Sscanf(string(b[:26]), "%d %d", &iter, &n)
	if 26+n > len(b) {
		return -1, nil
	}
	return iter, b[26 : 26+n]
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(truncated)"
	}
	return s
}
