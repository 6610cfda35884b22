// Command verifh decides properties of bento by running it under monitors.
//
//	verifh <property>                     supervise a run and write the evidence
//	verifh <property> --case <part>:<i>   run a single case
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fatal("usage: verifh <property>")
	}
	id := os.Args[1]
	if id == "--list" {
		for k := range registry {
			fmt.Println(k)
		}
		return
	}
	if id == "--needs-race" {
		if c := registry[os.Args[2]]; c != nil {
			for _, p := range c.Parts {
				if p.Race {
					return
				}
			}
		}
		os.Exit(1)
	}
	c := registry[id]
	if c == nil {
		fatal("no check for %q", id)
	}

	seed := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			fatal("VERIF_SEED: %v", err)
		}
		seed = uint64(n)
	}
	tier := "quick"
	if os.Getenv("VERIF_TIER") == "thorough" {
		tier = "thorough"
	}

	args := os.Args[2:]
	opt := func(name string) (string, bool) {
		for i, a := range args {
			if a == name {
				if i+1 < len(args) {
					return args[i+1], true
				}
				return "", true
			}
		}
		return "", false
	}

	debug.SetMaxStack(128 << 20)
	debug.SetGCPercent(400)

	if spec, ok := opt("--case"); ok {
		p, i := findCase(c, spec)
		t := newCase(c, p, seed, tier, i)
		v, inc := runCase(t, seed, tier)
		for _, l := range t.trace {
			fmt.Println(l)
		}
		if v != nil {
			os.Exit(report(v))
		}
		fmt.Println("ok", inc, t.counts)
		return
	}
	if part, ok := opt("--child"); ok {
		childMain(c, part, seed, tier)
		return
	}
	if _, ok := opt("--worker"); ok {
		if spec, ok := opt("--suspect"); ok {
			os.Exit(suspect(c, seed, tier, spec))
		}
		_, race := opt("--race")
		path, _ := opt("--result")
		os.Exit(work(c, seed, tier, race, path))
	}
	os.Exit(supervise(c, seed, tier))
}

func supervise(c *Check, seed uint64, tier string) int {
	start := time.Now()
	evidence := filepath.Join(evidenceDir(), c.ID+".json")
	_ = os.Remove(evidence)
	_ = os.Remove(filepath.Join(evidenceDir(), c.ID+".replay.json"))

	dir, err := os.MkdirTemp("", "verifh")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(dir)

	var plain, race bool
	for _, p := range c.Parts {
		if p.Race {
			race = true
		} else {
			plain = true
		}
	}

	total := workerResult{Counts: map[string]int64{}, PartCases: map[string]int{}}
	code := 0

	runOne := func(bin string, isRace bool) {
		resPath := filepath.Join(dir, "result.json")
		_ = os.Remove(resPath)
		args := []string{c.ID, "--worker", "--result", resPath}
		if isRace {
			args = append(args, "--race")
		}
		cmd := exec.Command(bin, args...)
		var stderr bytes.Buffer
		cmd.Stdout = os.Stdout
		cmd.Stderr = io.MultiWriter(os.Stderr, &stderr)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all")
		err := cmd.Run()
		ec := cmd.ProcessState.ExitCode()
		if b, rerr := os.ReadFile(resPath); rerr == nil {
			var wr workerResult
			if json.Unmarshal(b, &wr) == nil {
				total.Evaluations += wr.Evaluations
				total.Distinct += wr.Distinct
				total.Violations += wr.Violations
				for k, v := range wr.Counts {
					total.Counts[k] += v
				}
				for k, v := range wr.PartCases {
					total.PartCases[k] += v
				}
				total.Samples = append(total.Samples, wr.Samples...)
				total.Inconcl = append(total.Inconcl, wr.Inconcl...)
			}
		}
		if err == nil {
			return
		}
		if ec == 1 || ec == 3 {
			if code != 1 {
				code = ec
			}
			total.Violations = max(total.Violations, 1)
			return
		}
		// The worker died.
		if what := crashCause(stderr.String()); what != "" {
			code = report(&Violation{Property: c.ID, Part: "process", Seed: seed, Tier: tier, Message: what, Stack: lastBytes(stderr.String(), 60000),
				Rerun: fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./run.sh %s", seed, tier, c.ID)})
			total.Violations = max(total.Violations, code)
			return
		}
		fmt.Println("inconclusive: the worker died:", err)
		if code != 1 {
			code = 3
		}
	}

	self, _ := os.Executable()
	if plain {
		runOne(self, false)
	}
	if race && code == 0 {
		bin := os.Getenv("VERIFH_RACE_BIN")
		if bin == "" {
			fatal("VERIFH_RACE_BIN is not set")
		}
		runOne(bin, true)
	}

	if code == 0 && (total.Evaluations == 0 || total.Distinct == 0) {
		fmt.Println("inconclusive: nothing was observed")
		code = 3
	}

	samples := total.Samples
	if len(samples) > 12 {
		samples = samples[:12]
	}
	cov := map[string]any{
		"evaluations":         total.Evaluations,
		"distinct_nontrivial": total.Distinct,
		"rule":                c.Rule,
		"samples":             samples,
		"cases_per_part":      total.PartCases,
		"observed_events":     total.Counts,
		"inconclusive_cases":  len(total.Inconcl),
	}
	ev := map[string]any{
		"property": c.ID, "tier": tier, "seed": int64(seed), "level": "exploration",
		"coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": total.Violations,
	}
	if len(c.Assumptions) > 0 {
		ev["assumptions"] = c.Assumptions
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(evidenceDir(), 0o755)
	if err := os.WriteFile(evidence, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	if code == 0 {
		fmt.Printf("ok property=%s cases=%d distinct=%d in %.1f s\n", c.ID, total.Evaluations, total.Distinct, time.Since(start).Seconds())
	}
	return code
}

var bentoFrame = regexp.MustCompile(`(?m)^\s*github\.com/metafates/bento(/widget/\w+|/internal/\w+)?\.`)

// crashCause tells whether a crash of the process is the fault of bento.
func crashCause(stderr string) string {
	for _, mark := range []string{"WARNING: DATA RACE", "fatal error: ", "panic: "} {
		i := strings.Index(stderr, mark)
		if i < 0 {
			continue
		}
		if mark == "fatal error: " && strings.HasPrefix(stderr[i:], "fatal error: out of memory") {
			continue
		}
		if bentoFrame.MatchString(stderr[i:]) {
			end := strings.IndexByte(stderr[i:], '\n')
			if end < 0 {
				end = len(stderr) - i
			}
			return "the process was brought down: " + stderr[i:i+end]
		}
	}
	return ""
}

func lastBytes(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
