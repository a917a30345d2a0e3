package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Usage:
//
//	harness drive  -prop C01 -tier quick -seed 1 -racebin BIN -verif DIR
//	harness worker -prop C01 -cfg JSON -tier quick -seed N -checks N -dir DIR [-isolate]
//	harness exec   -prop C01 -cfg JSON -case FILE -reps N
//	harness list
func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness drive|worker|exec|list ...")
		os.Exit(2)
	}
	cmd, args := os.Args[1], os.Args[2:]
	switch cmd {
	case "drive":
		os.Exit(drive(args))
	case "worker":
		os.Exit(worker(args))
	case "exec":
		os.Exit(execCase(args))
	case "list":
		for _, id := range sortedKeys(props) {
			needRace := false
			for _, c := range props[id].Cfgs {
				needRace = needRace || c.Race
			}
			fmt.Println(id, needRace)
		}
	default:
		fmt.Fprintln(os.Stderr, "unknown command", cmd)
		os.Exit(2)
	}
}

// ---- worker -------------------------------------------------------------------

type harnessTB struct {
	name   string
	failed bool
	log    strings.Builder
}

type tbExit struct{}

func (t *harnessTB) Helper()                           {}
func (t *harnessTB) Name() string                      { return t.name }
func (t *harnessTB) Logf(format string, args ...any)   { fmt.Fprintf(&t.log, format+"\n", args...) }
func (t *harnessTB) Log(args ...any)                   { fmt.Fprintln(&t.log, args...) }
func (t *harnessTB) Skipf(format string, args ...any)  { panic(tbExit{}) }
func (t *harnessTB) Skip(args ...any)                  { panic(tbExit{}) }
func (t *harnessTB) SkipNow()                          { panic(tbExit{}) }
func (t *harnessTB) Errorf(format string, args ...any) { t.Logf(format, args...); t.failed = true }
func (t *harnessTB) Error(args ...any)                 { t.Log(args...); t.failed = true }
func (t *harnessTB) Fatalf(format string, args ...any) { t.Errorf(format, args...); t.FailNow() }
func (t *harnessTB) Fatal(args ...any)                 { t.Error(args...); t.FailNow() }
func (t *harnessTB) FailNow()                          { t.failed = true; panic(tbExit{}) }
func (t *harnessTB) Fail()                             { t.failed = true }
func (t *harnessTB) Failed() bool                      { return t.failed }

func setupProcess(cfg *Cfg) {
	if cfg.Procs > 0 {
		runtime.GOMAXPROCS(cfg.Procs)
	}
	debug.SetMaxStack(192 << 20)
	debug.SetGCPercent(400)
}

// memoryLimit is far above what any case needs on a correct library.
const (
	memoryLimit = 7 << 30
	memoryExit  = 68
)

// resident is the number of bytes of memory that a child process uses.
func resident(pid int) int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	var size, res int
	fmt.Sscan(string(b), &size, &res)
	return res * os.Getpagesize()
}

// runGuarded executes one case. A panic raised by library code in a call made
// directly by the check is a violation; a panic of harness code is not.
func runGuarded(p *Prop, x *X, c any) (err error) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		st := string(debug.Stack())
		top := st
		if i := strings.Index(st, "\npanic("); i >= 0 {
			top = st[i+1:]
		}
		for _, l := range strings.Split(top, "\n") {
			if l == "" || l[0] == '\t' || strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "goroutine ") {
				continue
			}
			if strings.HasPrefix(l, "github.com/intel/forGoParallel/") && !strings.Contains(fmt.Sprint(r), "harness:") {
				err = fmt.Errorf("a call of the library panicked: %v\n%s", r, trunc(top, 3000))
				return
			}
			break
		}
		panic(r)
	}()
	return p.run(x, c)
}

// shrinkLimit ends the search for a smaller case.
const shrinkLimit = 40 * time.Second

func worker(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("prop", "", "")
	cfgJS := fs.String("cfg", "", "")
	seed := fs.Uint64("seed", 1, "")
	checks := fs.Int("checks", 100, "")
	dir := fs.String("dir", "", "")
	isolate := fs.Bool("isolate", false, "")
	noshrink := fs.Bool("noshrink", false, "")
	fs.Parse(args)
	p := props[*id]
	var cfg Cfg
	if err := json.Unmarshal([]byte(*cfgJS), &cfg); err != nil || p == nil {
		fmt.Fprintln(os.Stderr, "bad worker arguments", err)
		return 3
	}
	setupProcess(&cfg)
	testing.Init()
	flag.CommandLine.Parse(nil)
	flag.Set("rapid.seed", strconv.FormatUint(*seed, 10))
	flag.Set("rapid.checks", strconv.Itoa(*checks))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "20s")
	if *noshrink {
		flag.Set("rapid.shrinktime", "0s")
		cpuBudget = 10 * time.Second
	}
	j, err := openJournal(filepath.Join(*dir, "journal"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	st := newStats()
	iter := -1
	failing := false
	tb := &harnessTB{name: *id}
	saveStats := sync.OnceFunc(func() {
		st.Checks = iter + 1
		for h := range st.seen {
			st.Hashes = append(st.Hashes, h)
		}
		hb := make([]byte, 8*len(st.Hashes))
		for i, h := range st.Hashes {
			binary.LittleEndian.PutUint64(hb[8*i:], h)
		}
		st.Hashes = nil
		os.WriteFile(filepath.Join(*dir, "hashes"), hb, 0o644)
		b, _ := json.Marshal(st)
		os.WriteFile(filepath.Join(*dir, "stats.json"), b, 0o644)
	})
	prop := func(t *rapid.T) {
		c := p.gen(t, &cfg)
		js, err := json.Marshal(c)
		if err != nil {
			fmt.Fprintln(os.Stderr, "harness: case not serializable:", err)
			os.Exit(3)
		}
		iter++
		x := &X{cfg: &cfg}
		var verr error
		kind := "oracle"
		if *isolate {
			verr = runIsolated(*id, &cfg, js, *dir)
			kind = "crash"
		} else {
			j.write(iter, js)
			reps := 1
			if failing {
				reps = 12 // while shrinking: give schedule-dependent failures a chance
			}
			for r := 0; r < reps && verr == nil; r++ {
				x = &X{cfg: &cfg}
				verr = runGuarded(p, x, c)
			}
			if !failing {
				st.add(x, js)
			}
		}
		if verr != nil {
			if !failing {
				// rapid looks at its own time limit only between successful steps
				time.AfterFunc(shrinkLimit, func() {
					saveStats()
					os.Exit(1)
				})
			}
			failing = true
			v := Violation{Property: *id, Cfg: cfg, Seed: *seed, Case: js, Message: trunc(verr.Error(), 8000), Kind: kind}
			b, _ := json.MarshalIndent(v, "", " ")
			if first := filepath.Join(*dir, "first.json"); kind == "oracle" && iter >= 0 {
				if _, err := os.Stat(first); err != nil {
					fb, _ := json.Marshal(firstViolation{iter, v})
					os.WriteFile(first, fb, 0o644)
				}
			}
			tmp := filepath.Join(*dir, "violation.tmp")
			os.WriteFile(tmp, b, 0o644)
			os.Rename(tmp, filepath.Join(*dir, "violation.json"))
			if *noshrink {
				os.Exit(1)
			}
			t.Fatalf("property violated")
		}
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(tbExit); !ok {
					panic(r)
				}
			}
		}()
		rapid.Check(tb, prop)
	}()
	saveStats()
	if failing {
		return 1
	}
	if tb.failed {
		fmt.Fprintln(os.Stderr, "harness: rapid failed without a violation:", tb.log.String())
		return 3
	}
	return 0
}

// firstViolation is a violation before shrinking, with the number of the case.
type firstViolation struct {
	Iter int
	V    Violation
}

// fails runs the case of a violation repeatedly in a process of its own.
func fails(v *Violation, bin, dir string) bool {
	f := filepath.Join(dir, "confirm.json")
	os.WriteFile(f, v.Case, 0o644)
	cj, _ := json.Marshal(v.Cfg)
	b, a := pinned(&v.Cfg, bin, []string{"exec", "-prop", v.Property, "-cfg", string(cj), "-case", f, "-reps", "20"})
	code, out := runChild(context.Background(), 60*time.Second, b, a...)
	k, _ := classify(code, out)
	return k != "ok"
}

func runIsolated(id string, cfg *Cfg, js []byte, dir string) error {
	f := filepath.Join(dir, "iso.json")
	os.WriteFile(f, js, 0o644)
	cj, _ := json.Marshal(cfg)
	code, out := runChild(context.Background(), 60*time.Second, selfBin(), "exec", "-prop", id, "-cfg", string(cj), "-case", f, "-reps", "6")
	if k, msg := classify(code, out); k == "crash" || k == "race" || k == "violation" {
		return errors.New(msg)
	}
	return nil
}

func selfBin() string {
	p, err := os.Executable()
	if err != nil {
		return os.Args[0]
	}
	return p
}

// execCase runs one stored case; used for replay and for shrinking crashes.
func execCase(args []string) int {
	fs := flag.NewFlagSet("exec", flag.ExitOnError)
	id := fs.String("prop", "", "")
	cfgJS := fs.String("cfg", "{}", "")
	file := fs.String("case", "", "")
	reps := fs.Int("reps", 1, "")
	fs.Parse(args)
	p := props[*id]
	var cfg Cfg
	b, err := os.ReadFile(*file)
	if err == nil {
		err = json.Unmarshal([]byte(*cfgJS), &cfg)
	}
	if err != nil || p == nil {
		fmt.Fprintln(os.Stderr, "bad exec arguments", err)
		return 3
	}
	c, err := p.dec(b)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	setupProcess(&cfg)
	for r := 0; r < *reps; r++ {
		if err := runGuarded(p, &X{cfg: &cfg}, c); err != nil {
			fmt.Println("VIOLATED:", err)
			return 1
		}
	}
	return 0
}

// ---- driver -------------------------------------------------------------------

const (
	raceExit = 66
)

var raceRE = regexp.MustCompile(`WARNING: DATA RACE`)
var panicRE = regexp.MustCompile(`(?m)^(panic: |fatal error: |runtime: goroutine stack exceeds|SIGSEGV|unexpected fault address)`)
var oomRE = regexp.MustCompile(`out of memory|cannot allocate memory|failed to create new OS thread|newosproc|pthread_create failed|ThreadSanitizer failed to allocate|ThreadSanitizer: CHECK failed`)

// classify interprets the ending of a child: "ok", "violation", "race",
// "crash" (the tested code brought the process down) or "error".
func classify(code int, out string) (kind, msg string) {
	switch {
	case code == 0:
		return "ok", ""
	case code == 1:
		return "violation", trunc(out, 8000)
	case code == -9 || code == -15 || code == 137:
		return "error", fmt.Sprintf("worker killed (exit %d)", code)
	case oomRE.MatchString(out):
		return "error", "worker ran out of memory: " + trunc(out, 2000)
	case code == memoryExit:
		return "crash", trunc(out, 3000)
	case code == raceExit && raceRE.MatchString(out):
		return "race", trunc(out[raceRE.FindStringIndex(out)[0]:], 8000)
	case code == 2 && panicRE.MatchString(out):
		// A panic whose goroutine is entirely harness code would be our bug.
		i := panicRE.FindStringIndex(out)[0]
		tail := out[i:]
		if strings.Contains(tail, "harness:") {
			return "error", trunc(tail, 4000)
		}
		first := tail
		if k := strings.Index(tail, "\ngoroutine "); k >= 0 {
			first = tail[k:]
			if e := strings.Index(first[1:], "\n\n"); e >= 0 {
				first = first[:e+1]
			}
		}
		if !strings.Contains(first, "github.com/intel/forGoParallel/") &&
			!strings.Contains(tail, "stack exceeds") && !strings.Contains(tail, "unexpected fault") &&
			!strings.Contains(tail, "fatal error: ") && !strings.Contains(tail, harnessPanicMark) {
			return "error", "panic in harness code: " + trunc(tail, 4000)
		}
		return "crash", "process crashed: " + trunc(tail, 8000)
	default:
		return "error", fmt.Sprintf("exit %d: %s", code, trunc(out, 3000))
	}
}

// harnessPanicMark is contained in the text of every panic that the harness
// injects on purpose into user functions: if one of those kills the process,
// the library failed to recover it.
const harnessPanicMark = "injected-panic"

func runChild(parent context.Context, timeout time.Duration, bin string, args ...string) (int, string) {
	ctx, cancel := context.WithTimeout(parent, timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	var buf bytes.Buffer
	lw := &limitWriter{w: &buf, n: 1 << 20}
	cmd.Stdout, cmd.Stderr = lw, lw
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode="+strconv.Itoa(raceExit), "GOTRACEBACK=all")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	err := cmd.Start()
	var exceeded atomic.Bool
	if err == nil {
		done := make(chan struct{})
		go func() {
			for {
				select {
				case <-done:
					return
				case <-time.After(100 * time.Millisecond):
				}
				if resident(cmd.Process.Pid) > memoryLimit {
					exceeded.Store(true)
					cmd.Process.Kill()
				}
			}
		}()
		err = cmd.Wait()
		close(done)
	}
	if exceeded.Load() {
		return memoryExit, fmt.Sprintf("the calls of this case use up the memory: more than %d GB are in use\n", memoryLimit>>30)
	}
	code := 0
	if err != nil {
		code = 3
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			code = ee.ExitCode()
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				code = -int(ws.Signal())
			}
		} else {
			fmt.Fprintln(lw, err)
		}
	}
	return code, buf.String()
}

type limitWriter struct {
	mu sync.Mutex
	w  *bytes.Buffer
	n  int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.w.Len() < l.n {
		l.w.Write(p)
	}
	return len(p), nil
}

func seedFor(id string, idx int, seed uint64) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%d/%d", id, idx, seed)
	v := h.Sum64() >> 1
	if v == 0 {
		v = 1
	}
	return v
}

type workerResult struct {
	cfg   Cfg
	kind  string
	msg   string
	stats *Stats
	hash  []uint64
	viol  *Violation
}

// smoke is set for short runs that only have to find out whether there is a violation.
var smoke bool

func drive(args []string) int {
	fs := flag.NewFlagSet("drive", flag.ExitOnError)
	id := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	raceBin := fs.String("racebin", "", "")
	verif := fs.String("verif", "/verif", "")
	replay := fs.String("replay", "", "")
	par := fs.Int("par", 4, "")
	div := fs.Int("div", 0, "run only so many times fewer cases and do not shrink (for tools/mutants.py)")
	fs.Parse(args)
	smoke = *div > 0
	if *replay != "" {
		return replayCase(*replay, *raceBin)
	}
	p := props[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		return 2
	}
	start := time.Now()
	tmp, err := os.MkdirTemp("", "verif-"+*id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	var cfgs []Cfg
	for _, c := range p.Cfgs {
		if c.OnlyTh && *tier != "thorough" {
			continue
		}
		if c.Race && *raceBin == "" && !smoke {
			fmt.Fprintln(os.Stderr, "race binary missing")
			return 2
		}
		cfgs = append(cfgs, c)
	}
	type job struct {
		idx    int
		cfg    Cfg
		checks int
	}
	var jobs []job
	for i, c := range cfgs {
		n, thorough := p.counts(c)
		if smoke {
			if c.Race {
				continue
			}
			n = max(10, n / *div)
		}
		shards := 1
		if *tier == "thorough" {
			n = thorough
			shards = 4
			n = (n + shards - 1) / shards
		}
		for s := 0; s < shards; s++ {
			jobs = append(jobs, job{i*1000 + s, c, n})
		}
	}
	results := make([]*workerResult, len(jobs))
	sem := make(chan struct{}, *par)
	var wg sync.WaitGroup
	timeout := 700 * time.Second
	if *tier == "thorough" {
		timeout = 5400 * time.Second
	}
	ctx, stop := context.WithCancel(context.Background()) // ends the other workers after a violation
	defer stop()
	for k, jb := range jobs {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			if ctx.Err() != nil {
				return
			}
			r := runWorker(ctx, *id, jb.cfg, jb.checks, seedFor(*id, jb.idx, *seed), *raceBin, filepath.Join(tmp, fmt.Sprint(k)), timeout)
			results[k] = r
			if r.viol != nil {
				stop()
			}
		}()
	}
	wg.Wait()

	// merge
	labels, known := map[string]int{}, map[string]int{}
	distinct := map[uint64]bool{}
	evals := 0
	var samples []json.RawMessage
	var viol *Violation
	var errs []string
	perCfg := map[string]int{}
	for _, r := range results {
		if r == nil {
			continue
		}
		if r.viol != nil && viol == nil {
			viol = r.viol
		}
		if r.kind == "error" {
			errs = append(errs, r.cfg.Name+": "+r.msg)
		}
		if r.stats != nil {
			evals += r.stats.Evals
			perCfg[r.cfg.Name] += r.stats.Evals
			for k, v := range r.stats.Labels {
				labels[k] += v
			}
			for k, v := range r.stats.Known {
				known[k] += v
			}
			for _, h := range r.hash {
				distinct[h] = true
			}
			samples = append(samples, r.stats.Samples...)
		}
	}
	if len(samples) > 8 {
		sort.SliceStable(samples, func(i, j int) bool { return len(samples[i]) > len(samples[j]) })
		samples = append(samples[:4], samples[len(samples)-4:]...)
	}
	kf := loadKnown(filepath.Join(*verif, "known_findings.json"), *id)
	var unlisted []string
	var listed []string
	for _, k := range sortedKeys(known) {
		if what, ok := kf[k]; ok {
			listed = append(listed, k)
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s; seen %d times)\n", *id, what, k, known[k])
		} else {
			unlisted = append(unlisted, k)
		}
	}
	if len(unlisted) > 0 && viol == nil {
		viol = &Violation{Property: *id, Message: "finding not listed: " + strings.Join(unlisted, ", "), Kind: "finding"}
	}
	nviol := 0
	if viol != nil {
		nviol = 1
	}
	ev := map[string]any{
		"property": *id, "tier": *tier, "seed": *seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         evals,
			"distinct_nontrivial": len(distinct),
			"rule":                p.Rule,
			"samples":             samples,
			"classes":             topLabels(labels, 400),
			"per_configuration":   perCfg,
			"known_findings_seen": listed,
		},
		"assumptions": append([]string{
			"goroutine scheduling inside the library is explored by controlled user functions, GOMAXPROCS and CPU-affinity variation and repetition, not exhaustively",
		}, p.Assume...),
		"wall_s":     time.Since(start).Seconds(),
		"violations": nviol,
	}
	if len(errs) > 0 {
		ev["errors"] = errs
	}
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *id+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if viol != nil {
		rd := filepath.Join(*verif, "replays")
		os.MkdirAll(rd, 0o755)
		rf := filepath.Join(rd, fmt.Sprintf("%s-%d.json", *id, *seed))
		vb, _ := json.MarshalIndent(viol, "", " ")
		os.WriteFile(rf, vb, 0o644)
		fmt.Printf("%s\n", trunc(viol.Message, 3000))
		fmt.Printf("minimal case (%s): %s\n", viol.Cfg.Name, trunc(string(viol.Case), 1500))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *id, rf)
		return 1
	}
	if len(errs) > 0 {
		fmt.Fprintln(os.Stderr, "check error:", strings.Join(errs, "\n"))
		return 3
	}
	fmt.Printf("%s %s: held on %d cases (%d distinct non-trivial) in %.1fs\n", *id, *tier, evals, len(distinct), time.Since(start).Seconds())
	return 0
}

func topLabels(m map[string]int, n int) map[string]int {
	ks := sortedKeys(m)
	sort.SliceStable(ks, func(i, j int) bool { return m[ks[i]] > m[ks[j]] })
	if len(ks) > n {
		ks = ks[:n]
	}
	r := map[string]int{}
	for _, k := range ks {
		r[k] = m[k]
	}
	return r
}

func loadKnown(path, id string) map[string]string {
	res := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return res
	}
	var f struct {
		Findings []struct {
			Property, Key, What string
		} `json:"findings"`
	}
	if json.Unmarshal(b, &f) == nil {
		for _, x := range f.Findings {
			if x.Property == id {
				res[x.Key] = x.What
			}
		}
	}
	return res
}

func binFor(cfg *Cfg, raceBin string) string {
	if cfg.Race {
		return raceBin
	}
	return selfBin()
}

// pinned prefixes the command with taskset when the configuration restricts
// the CPUs.
func pinned(cfg *Cfg, bin string, args []string) (string, []string) {
	if cfg.CPUs > 0 && cfg.CPUs < runtime.NumCPU() {
		if ts, err := exec.LookPath("taskset"); err == nil {
			cpus := allowedCPUs()
			if len(cpus) >= cfg.CPUs {
				// spread single-CPU workers over the machine
				off := 0
				if len(cpus) > cfg.CPUs {
					off = os.Getpid() % (len(cpus) - cfg.CPUs + 1)
				}
				var l []string
				for _, c := range cpus[off : off+cfg.CPUs] {
					l = append(l, strconv.Itoa(c))
				}
				return ts, append([]string{"-c", strings.Join(l, ","), bin}, args...)
			}
		}
	}
	return bin, args
}

func allowedCPUs() (res []int) {
	b, _ := os.ReadFile("/proc/self/status")
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, "Cpus_allowed_list:"); ok {
			for _, part := range strings.Split(strings.TrimSpace(rest), ",") {
				var a, z int
				if n, _ := fmt.Sscanf(part, "%d-%d", &a, &z); n == 2 {
					for i := a; i <= z; i++ {
						res = append(res, i)
					}
				} else if n, _ := fmt.Sscanf(part, "%d", &a); n == 1 {
					res = append(res, a)
				}
			}
		}
	}
	return
}

func runWorker(ctx context.Context, id string, cfg Cfg, checks int, seed uint64, raceBin, dir string, timeout time.Duration) *workerResult {
	os.MkdirAll(dir, 0o755)
	cj, _ := json.Marshal(cfg)
	bin := binFor(&cfg, raceBin)
	wargs := func(seed uint64, checks int, extra ...string) []string {
		return append([]string{"worker", "-prop", id, "-cfg", string(cj), "-seed", strconv.FormatUint(seed, 10), "-checks", strconv.Itoa(checks), "-dir", dir}, extra...)
	}
	args := wargs(seed, checks)
	if smoke {
		args = append(args, "-noshrink")
	}
	b, a := pinned(&cfg, bin, args)
	code, out := runChild(ctx, timeout, b, a...)
	r := &workerResult{cfg: cfg}
	r.kind, r.msg = classify(code, out)
	if sb, err := os.ReadFile(filepath.Join(dir, "stats.json")); err == nil {
		r.stats = newStats()
		json.Unmarshal(sb, r.stats)
		hb, _ := os.ReadFile(filepath.Join(dir, "hashes"))
		for i := 0; i+8 <= len(hb); i += 8 {
			r.hash = append(r.hash, binary.LittleEndian.Uint64(hb[i:]))
		}
	}
	readViol := func() *Violation {
		vb, err := os.ReadFile(filepath.Join(dir, "violation.json"))
		if err != nil {
			return nil
		}
		v := &Violation{}
		if json.Unmarshal(vb, v) != nil {
			return nil
		}
		return v
	}
	switch r.kind {
	case "error":
		r.viol = readViol() // killed while shrinking
	case "violation":
		r.viol = readViol()
		if r.viol == nil {
			r.kind, r.msg = "error", "worker reported a violation but left no file: "+trunc(out, 2000)
		}
		// The shrunk case may fail only because earlier cases left something behind in
		// the process: then shrink again with a process for each attempt.
		var first firstViolation
		fb, err := os.ReadFile(filepath.Join(dir, "first.json"))
		if r.viol == nil || smoke || err != nil || json.Unmarshal(fb, &first) != nil || fails(r.viol, bin, dir) || !fails(&first.V, bin, dir) {
			return r
		}
		r.viol = &first.V
		s2 := seed
		for i := 0; i <= first.Iter; i++ {
			s2 += uint64(i)
		}
		os.Remove(filepath.Join(dir, "violation.json"))
		b, a := pinned(&cfg, bin, wargs(s2, 1, "-isolate"))
		runChild(context.Background(), 75*time.Second, b, a...)
		if v := readViol(); v != nil {
			v.Kind = "oracle"
			r.viol = v
		}
	case "crash", "race":
		if v := readViol(); v != nil {
			// crashed while shrinking an ordinary violation
			r.viol = v
			return r
		}
		iter, js := readJournal(filepath.Join(dir, "journal"))
		r.viol = &Violation{Property: id, Cfg: cfg, Seed: seed, Case: js, Message: r.msg, Kind: r.kind}
		if iter < 0 || smoke {
			return r
		}
		// Shrink out of process: rapid's case number iter starts from this seed.
		s2 := seed
		for i := 0; i <= iter; i++ {
			s2 += uint64(i)
		}
		b, a := pinned(&cfg, bin, wargs(s2, 1, "-isolate"))
		runChild(context.Background(), 75*time.Second, b, a...)
		if v := readViol(); v != nil {
			v.Kind = r.kind
			r.viol = v
		}
	}
	return r
}

func replayCase(path, raceBin string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v Violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	tmp, _ := os.MkdirTemp("", "verif-replay-")
	defer os.RemoveAll(tmp)
	cf := filepath.Join(tmp, "case.json")
	os.WriteFile(cf, v.Case, 0o644)
	cj, _ := json.Marshal(v.Cfg)
	bin, a := pinned(&v.Cfg, binFor(&v.Cfg, raceBin), []string{"exec", "-prop", v.Property, "-cfg", string(cj), "-case", cf, "-reps", "200"})
	code, out := runChild(context.Background(), 300*time.Second, bin, a...)
	k, msg := classify(code, out)
	switch k {
	case "ok":
		fmt.Println("replay: the case passes now")
		return 0
	case "error":
		fmt.Println(msg)
		return 3
	}
	fmt.Println(msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
	return 1
}
