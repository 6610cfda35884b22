package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// A Check decides one property by running its parts: workloads of many cases,
// each of which runs the code under test while a monitor watches.
type Check struct {
	ID   string
	Rule string // how cases are made, and what makes one non-trivial
	// What is assumed or trusted.
	Assumptions []string
	Parts       []Part
}

type Part struct {
	Name string
	// Number of cases per tier.
	Quick, Thorough int
	// One case at a time.
	Serial bool
	// Run in the worker built with the race detector.
	Race bool
	// Cases run in child processes, one at a time in each.
	Child bool
	// How many times more cases than processors at a time, as they mostly sleep.
	Wide int
	Fn   func(t *T)
}

// T is one case: a source of randomness for the workload, and the place where
// the monitor reports what it saw.
type T struct {
	*rand.Rand

	Check    *Check
	Part     *Part
	Index    int
	Thorough bool

	trace   []string
	traceN  int
	key     uint64
	keySet  bool
	trivial bool
	counts  map[string]int64
	sample  string
}

type failure struct{ msg string }

// Failf reports a violation of the property and ends the case.
func (t *T) Failf(format string, a ...any) { panic(failure{fmt.Sprintf(format, a...)}) }

// Inconclusive ends the case without a verdict.
type inconclusive struct{ msg string }

func (t *T) Inconclusivef(format string, a ...any) {
	panic(inconclusive{fmt.Sprintf(format, a...)})
}

// Logf records an event of the case; the log becomes the replay of a violation.
func (t *T) Logf(format string, a ...any) {
	t.traceN++
	if len(t.trace) < 400 {
		t.trace = append(t.trace, fmt.Sprintf(format, a...))
	}
}

// Count counts events the monitor observed.
func (t *T) Count(name string, n int) { t.counts[name] += int64(n) }

// Key identifies what the case exercised, to tell distinct cases apart.
func (t *T) Key(a ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, t.Part.Name, "|")
	fmt.Fprintln(h, a...)
	t.key ^= h.Sum64() * 0x9E3779B97F4A7C15
	t.key = t.key<<7 | t.key>>57
	t.keySet = true
}

// Trivial marks the case as one that exercised nothing of interest.
func (t *T) Trivial() { t.trivial = true }

// Sample describes the case in the evidence.
func (t *T) Sample(format string, a ...any) {
	if t.Index < 3 {
		t.sample = fmt.Sprintf(format, a...)
	}
}

func (t *T) Chance(percent int) bool { return t.IntN(100) < percent }

// Range returns a number in [a, b].
func (t *T) Range(a, b int) int {
	if b <= a {
		return a
	}
	return a + t.IntN(b-a+1)
}

func pick[E any](t *T, s []E) E { return s[t.IntN(len(s))] }

func hash64(s ...string) uint64 {
	h := fnv.New64a()
	for _, x := range s {
		h.Write([]byte(x))
		h.Write([]byte{0})
	}
	return h.Sum64()
}

type Violation struct {
	Property string   `json:"property"`
	Part     string   `json:"part"`
	Case     int      `json:"case"`
	Seed     uint64   `json:"seed"`
	Tier     string   `json:"tier"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace,omitempty"`
	Stack    string   `json:"stack,omitempty"`
	Rerun    string   `json:"rerun"`
}

type Result struct {
	Evaluations int
	Distinct    map[uint64]struct{}
	Counts      map[string]int64
	Samples     []string
	PartCases   map[string]int
	Violation   *Violation
	Inconcl     []string
}

var registry = map[string]*Check{}

func register(c *Check) {
	if registry[c.ID] != nil {
		panic("duplicate check " + c.ID)
	}
	registry[c.ID] = c
}

type runner struct {
	check *Check
	seed  uint64
	tier  string

	mu  sync.Mutex
	res Result

	stop atomic.Bool
	// what each worker is busy with
	busy sync.Map // worker -> busyCase
}

type busyCase struct {
	part  string
	index int
	since time.Time
}

func newCase(c *Check, p *Part, seed uint64, tier string, i int) *T {
	return &T{
		Rand:     rand.New(rand.NewPCG(seed^hash64(c.ID, p.Name), uint64(i)*0x9E3779B97F4A7C15+1)),
		Check:    c,
		Part:     p,
		Index:    i,
		Thorough: tier == "thorough",
		counts:   map[string]int64{},
	}
}

// runCase runs a case and returns the violation it found, if any.
func runCase(t *T, seed uint64, tier string) (v *Violation, inc string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		if i, ok := r.(inconclusive); ok {
			inc = fmt.Sprintf("%s case %d: %s", t.Part.Name, t.Index, i.msg)
			return
		}
		v = &Violation{
			Property: t.Check.ID, Part: t.Part.Name, Case: t.Index, Seed: seed, Tier: tier,
			Trace: t.trace,
			Rerun: fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./run.sh %s --case %s:%d", seed, tier, t.Check.ID, t.Part.Name, t.Index),
		}
		if t.traceN > len(t.trace) {
			v.Trace = append(v.Trace, fmt.Sprintf("... %d more events", t.traceN-len(t.trace)))
		}
		if f, ok := r.(failure); ok {
			v.Message = f.msg
			return
		}
		stack := string(debug.Stack())
		v.Message = fmt.Sprintf("panic: %v", r)
		v.Stack = stack
		if !panicInCodeUnderTest(stack) {
			v = nil
			inc = fmt.Sprintf("%s case %d: the harness panicked: %v\n%s", t.Part.Name, t.Index, r, stack)
		}
	}()
	t.Part.Fn(t)
	return nil, ""
}

// panicInCodeUnderTest reports whether a frame of bento is nearer to the panic
// than any frame of the harness.
func panicInCodeUnderTest(stack string) bool {
	i := strings.LastIndex(stack, "\npanic(")
	if i < 0 {
		i = 0
	}
	for _, l := range strings.Split(stack[i:], "\n") {
		if strings.HasPrefix(l, "main.") || strings.HasPrefix(l, "github.com/metafates/bento/verifh") {
			return false
		}
		if strings.HasPrefix(l, "github.com/metafates/bento") {
			return true
		}
	}
	return false
}

func (r *runner) runPart(p *Part, n int) {
	workers := runtime.GOMAXPROCS(0)
	if p.Serial {
		workers = 1
	}
	workers *= max(1, p.Wide)
	workers = min(workers, n)

	var next atomic.Int64
	var wg sync.WaitGroup

	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			distinct := map[uint64]struct{}{}
			counts := map[string]int64{}
			evals := 0
			child := child{check: r.check, part: p}
			defer child.close()

			for !r.stop.Load() {
				i := int(next.Add(1)) - 1
				if i >= n {
					break
				}
				t := newCase(r.check, p, r.seed, r.tier, i)
				var v *Violation
				var inc string
				if p.Child {
					v, inc = child.run(t, r.seed, r.tier)
				} else {
					r.busy.Store(w, busyCase{p.Name, i, time.Now()})
					v, inc = runCase(t, r.seed, r.tier)
					r.busy.Delete(w)
				}
				evals++
				if t.keySet && !t.trivial {
					distinct[t.key] = struct{}{}
				}
				for k, c := range t.counts {
					counts[k] += c
				}
				if v != nil || inc != "" || t.sample != "" {
					r.mu.Lock()
					if v != nil {
						if r.res.Violation == nil || v.Case < r.res.Violation.Case {
							r.res.Violation = v
						}
						r.stop.Store(true)
					}
					if inc != "" {
						r.res.Inconcl = append(r.res.Inconcl, inc)
						if len(r.res.Inconcl) >= max(12, n/20) {
							r.stop.Store(true)
						}
					}
					if t.sample != "" {
						r.res.Samples = append(r.res.Samples, p.Name+": "+t.sample)
					}
					r.mu.Unlock()
				}
			}

			r.mu.Lock()
			defer r.mu.Unlock()
			for k := range distinct {
				r.res.Distinct[k] = struct{}{}
			}
			for k, c := range counts {
				r.res.Counts[k] += c
			}
			r.res.Evaluations += evals
			r.res.PartCases[p.Name] += evals
		}()
	}
	wg.Wait()
}

const (
	stuckAfter  = 100 * time.Second // of wall time; only then the case is looked at on its own
	stuckCPU    = 60.0              // seconds of CPU time for a case that normally needs milliseconds
	memoryLimit = 5 << 30
)

// watch looks for cases that do not end or eat up all the memory, and replaces
// the process by one that runs only the suspicious case under a CPU time limit.
func (r *runner) watch() {
	for {
		time.Sleep(200 * time.Millisecond)
		var oldest *busyCase
		r.busy.Range(func(_, v any) bool {
			b := v.(busyCase)
			if oldest == nil || b.since.Before(oldest.since) {
				oldest = &b
			}
			return true
		})
		if oldest == nil {
			continue
		}
		if time.Since(oldest.since) > stuckAfter || rss() > memoryLimit {
			self, _ := os.Executable()
			args := []string{self, r.check.ID, "--worker", "--suspect", fmt.Sprintf("%s:%d", oldest.part, oldest.index)}
			_ = syscall.Exec(self, args, os.Environ())
			os.Exit(4)
		}
	}
}

func rss() int64 {
	b, err := os.ReadFile("/proc/self/statm")
	if err != nil {
		return 0
	}
	var a, pages int64
	fmt.Sscan(string(b), &a, &pages)
	return pages * int64(os.Getpagesize())
}

func cpuSeconds() float64 {
	var u syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return float64(u.Utime.Sec+u.Stime.Sec) + float64(u.Utime.Usec+u.Stime.Usec)/1e6
}

// suspect runs a single case that seemed not to end.
func suspect(c *Check, seed uint64, tier, spec string) int {
	p, i := findCase(c, spec)
	t := newCase(c, p, seed, tier, i)
	start := cpuSeconds()
	done := make(chan struct{})
	var v *Violation
	var inc string
	go func() {
		v, inc = runCase(t, seed, tier)
		close(done)
	}()
	began := time.Now()
	for {
		select {
		case <-done:
			if v != nil {
				return report(v)
			}
			fmt.Printf("inconclusive: case %s took suspiciously long but ended %s\n", spec, inc)
			return 3
		case <-time.After(100 * time.Millisecond):
		}
		cpu := cpuSeconds() - start
		mem := rss()
		if cpu > stuckCPU || mem > memoryLimit {
			what := fmt.Sprintf("does not terminate: %.0f s of CPU time and %d MiB of memory used by a case that needs milliseconds", cpu, mem>>20)
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			if !strings.Contains(string(buf), "github.com/metafates/bento") {
				fmt.Println("inconclusive: the harness itself seems to be stuck")
				return 3
			}
			return report(&Violation{Property: c.ID, Part: p.Name, Case: i, Seed: seed, Tier: tier, Message: what, Stack: string(buf),
				Rerun: fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./run.sh %s --case %s", seed, tier, c.ID, spec)})
		}
		if time.Since(began) > 400*time.Second {
			fmt.Println("inconclusive: a case does not end, without using the CPU")
			return 3
		}
	}
}

func findCase(c *Check, spec string) (*Part, int) {
	k := strings.LastIndex(spec, ":")
	var i int
	if k < 0 {
		fatal("bad case %q", spec)
	}
	fmt.Sscan(spec[k+1:], &i)
	for j := range c.Parts {
		if c.Parts[j].Name == spec[:k] {
			return &c.Parts[j], i
		}
	}
	fatal("no part %q", spec[:k])
	return nil, 0
}

func fatal(format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(2)
}

func evidenceDir() string {
	if d := os.Getenv("VERIFH_EVIDENCE"); d != "" {
		return d
	}
	return "/verif/evidence"
}

func report(v *Violation) int {
	path := filepath.Join(evidenceDir(), v.Property+".replay.json")
	b, _ := json.MarshalIndent(v, "", " ")
	_ = os.MkdirAll(evidenceDir(), 0o755)
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	if sig := knownFinding(v); sig != "" {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", v.Property, sig)
		return 0
	}
	fmt.Printf("part=%s case=%d: %s\n", v.Part, v.Case, v.Message)
	if v.Stack != "" {
		fmt.Println(firstLines(v.Stack, 40))
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
	return 1
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// knownFinding returns the description of the known finding that explains the
// violation. Lines of the file: `known: property=<id> match=<text in the message>`.
func knownFinding(v *Violation) string {
	b, err := os.ReadFile("/verif/known_findings.txt")
	if err != nil {
		return ""
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property="+v.Property+" match=")
		if ok && rest != "" && strings.Contains(v.Message, rest) {
			return rest
		}
	}
	return ""
}

type workerResult struct {
	Evaluations int              `json:"evaluations"`
	Distinct    int              `json:"distinct"`
	Counts      map[string]int64 `json:"counts"`
	Samples     []string         `json:"samples"`
	PartCases   map[string]int   `json:"parts"`
	Inconcl     []string         `json:"inconclusive"`
	Violations  int              `json:"violations"`
}

// work runs all parts of the check (those for this build flavour) and writes the result.
func work(c *Check, seed uint64, tier string, race bool, resultPath string) int {
	r := &runner{check: c, seed: seed, tier: tier}
	r.res.Distinct = map[uint64]struct{}{}
	r.res.Counts = map[string]int64{}
	r.res.PartCases = map[string]int{}
	go r.watch()

	for i := range c.Parts {
		p := &c.Parts[i]
		if p.Race != race {
			continue
		}
		n := p.Quick
		if tier == "thorough" {
			n = p.Thorough
		}
		if s := os.Getenv("VERIFH_SCALE"); s != "" {
			// A part of the cases, for experiments.
			var percent int
			fmt.Sscan(s, &percent)
			n = max(1, n*percent/100)
		}
		started := time.Now()
		r.runPart(p, n)
		if os.Getenv("VERIFH_VERBOSE") != "" {
			fmt.Fprintf(os.Stderr, "%s %s: %d cases in %v\n", c.ID, p.Name, n, time.Since(started).Round(time.Millisecond))
		}
		if r.stop.Load() {
			break
		}
	}

	sort.Strings(r.res.Samples)
	wr := workerResult{
		Evaluations: r.res.Evaluations, Distinct: len(r.res.Distinct), Counts: r.res.Counts,
		Samples: r.res.Samples, PartCases: r.res.PartCases, Inconcl: r.res.Inconcl,
	}
	code := 0
	if r.res.Violation != nil {
		wr.Violations = 1
		code = report(r.res.Violation)
	}
	if code == 0 && len(r.res.Inconcl) > 0 {
		for i, s := range r.res.Inconcl {
			if i == 3 {
				fmt.Printf("inconclusive: and %d more\n", len(r.res.Inconcl)-i)
				break
			}
			fmt.Println("inconclusive:", s)
		}
		// A few cases without a verdict are no reason for doubt, many are.
		if len(r.res.Inconcl)*20 > r.res.Evaluations || r.stop.Load() {
			code = 3
		}
	}
	b, _ := json.Marshal(wr)
	if err := os.WriteFile(resultPath, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	return code
}
