package main

// vh check ID: decides one property and writes its evidence.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"
)

// Evidence is /verif/evidence/<id>.json.
type Evidence struct {
	Property    string         `json:"property"`
	Tier        string         `json:"tier"`
	Seed        int64          `json:"seed"`
	Level       string         `json:"level"`
	Coverage    map[string]any `json:"coverage"`
	Assumptions []string       `json:"assumptions,omitempty"`
	WallS       float64        `json:"wall_s"`
	Violations  int            `json:"violations"`
}

// Check is the state of one check run.
type Check struct {
	ID    string
	Tier  string
	Seed  int64
	Dir   string // scratch
	Start time.Time
	Ev    Evidence
	bad   []string // replay texts
}

func (c *Check) thorough() bool { return c.Tier == "thorough" }

// budget is the time for exploration.
func (c *Check) budget() time.Duration {
	if c.thorough() {
		if s := os.Getenv("VERIF_BUDGET"); s != "" {
			if n, err := strconv.Atoi(s); err == nil {
				return time.Duration(n) * time.Second
			}
		}
		return 10 * time.Minute
	}
	return 0
}

// violation records a violation of the property.
func (c *Check) violation(text string) { c.bad = append(c.bad, text) }

// violationAt is a violation of the case named; a case known_findings.txt lists is only reported.
func (c *Check) violationAt(name, text string) {
	if c.isFinding(name) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, name)
		return
	}
	c.violation(text)
}

// isFinding tells whether known_findings.txt lists the case.
func (c *Check) isFinding(name string) bool {
	if findings == nil {
		findings = map[string]bool{}
		b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
		must(err)
		for _, l := range strings.Split(string(b), "\n") {
			// finding: property=ID case="..." text
			if m := findingLine.FindStringSubmatch(l); m != nil {
				findings[m[1]+" "+m[2]] = true
			}
		}
	}
	return findings[c.ID+" "+name]
}

var (
	findings    map[string]bool
	findingLine = regexp.MustCompile(`^finding: property=(\w+) case="([^"]*)"`)
)

func evidenceDir() string { return filepath.Join(verifDir(), "evidence") }

func (c *Check) finish() {
	must(os.MkdirAll(evidenceDir(), 0o755))
	c.Ev.Property, c.Ev.Tier, c.Ev.Seed = c.ID, c.Tier, c.Seed
	c.Ev.WallS = time.Since(c.Start).Seconds()
	c.Ev.Violations = len(c.bad)
	b, err := json.MarshalIndent(c.Ev, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(evidenceDir(), c.ID+".json"), append(b, '\n'), 0o644))
	replay := filepath.Join(evidenceDir(), c.ID+".replay.txt")
	os.Remove(replay)
	if len(c.bad) > 0 {
		n := len(c.bad)
		if n > 5 && os.Getenv("VH_ALL") == "" {
			n = 5
		}
		must(os.WriteFile(replay, []byte(strings.Join(c.bad[:n], "\n\n==== next ====\n\n")), 0o644))
	}
	if os.Getenv("VH_KEEP") == "" {
		os.RemoveAll(c.Dir)
	}
	if len(c.bad) > 0 {
		fmt.Printf("%d violations; first: %s\n", len(c.bad), firstLine(c.bad[0]))
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
		os.Exit(1)
	}
	fmt.Printf("ok property=%s %s %.1fs\n", c.ID, summary(c.Ev.Coverage), c.Ev.WallS)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func summary(m map[string]any) string {
	var out []string
	for _, k := range sortedKeys(m) {
		switch v := m[k].(type) {
		case int, int64, float64, bool:
			out = append(out, fmt.Sprintf("%s=%v", k, v))
		}
	}
	return strings.Join(out, " ")
}

// otherChecks are the checks that do not use the runtime engine alone.
var otherChecks = map[string]func(*Check){}

func cmdCheck(a []string) {
	c := &Check{ID: a[0], Tier: os.Getenv("VERIF_TIER"), Seed: 1, Start: time.Now()}
	if len(a) > 1 {
		c.Tier = a[1]
	}
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	if s := os.Getenv("VERIF_SEED"); s != "" {
		n, err := strconv.ParseInt(s, 10, 64)
		must(err)
		c.Seed = n
	}
	d, err := os.MkdirTemp("", "vh-"+c.ID+"-")
	must(err)
	c.Dir = d
	c.Ev.Coverage = map[string]any{}
	switch {
	case otherChecks[c.ID] != nil:
		otherChecks[c.ID](c)
	case rtChecks[c.ID] != nil:
		c.runtime()
	default:
		fmt.Fprintln(os.Stderr, "no check for", c.ID)
		os.Exit(2)
	}
	c.finish()
}

func (c *Check) addInt(k string, n int) {
	x, _ := c.Ev.Coverage[k].(int)
	c.Ev.Coverage[k] = x + n
}

// runtime generates programs, runs them and validates the traces against the specification.
func (c *Check) runtime() {
	c.Ev.Level = "model_checking"
	c.Ev.Assumptions = []string{
		"backends and custom resolvers are the test driver's; schedules are chosen by the specification (script mode) or by the Go scheduler (burst mode)",
		"programs are generated from the profile of the property (vh/profiles.go) within the abstract syntax of vh/ast.go",
	}
	states, trans := 0, 0
	for round := 0; round == 0 || (c.thorough() && time.Since(c.Start) < c.budget() && len(c.bad) == 0); round++ {
		dir := filepath.Join(c.Dir, fmt.Sprintf("r%d", round))
		must(os.MkdirAll(dir, 0o755))
		e := newEngine(dir)
		for i, pr := range rtChecks[c.ID] {
			mul := 2
			if c.thorough() {
				mul = 4
			}
			e.addProfile(pr, c.Seed*1000+int64(round)*10+int64(i), pr.Progs*mul, pr.Scen)
		}
		e.addProfile(mixed, c.Seed*1000+int64(round)*10+7, mixed.Progs, mixed.Scen)
		if err := e.build(); err != nil {
			c.violation("the programs of this check cannot be generated and compiled\n" + err.Error())
			return
		}
		if err := e.script(); err != nil {
			fmt.Fprintln(os.Stderr, "vh error:", err)
			os.Exit(2)
		}
		if n := mcChecks[c.ID]; n > 0 {
			if c.thorough() {
				n *= 4
			}
			if err := e.modelCheck(n); err != nil {
				fmt.Fprintln(os.Stderr, "vh error:", err)
				os.Exit(2)
			}
			states += e.MCStates
			trans += e.MCGen
			c.addInt("model_checked_programs", e.MCScen)
			c.addInt("model_checked_states", e.MCStates)
		}
		e.run(16)
		if err := e.validate(); err != nil {
			fmt.Fprintln(os.Stderr, "vh error:", err)
			os.Exit(2)
		}
		states += e.ScriptStates + e.TraceStates
		trans += e.ScriptGen + e.TraceGen
		c.addInt("traces_validated_against_impl", e.Accepted)
		c.addInt("programs", len(e.Progs))
		c.addInt("scenarios", len(e.Scen))
		c.addInt("skipped_duplicate_elements", e.Skipped)
		c.addInt("timed_runs_repeated", e.Reruns)
		if round == 0 {
			c.Ev.Coverage["samples"] = e.samples()
		}
		for _, v := range e.Violations {
			c.violation(e.dump(v))
		}
		if os.Getenv("VH_KEEP") == "" {
			os.RemoveAll(dir)
		}
	}
	c.Ev.Coverage["states"] = states
	c.Ev.Coverage["transitions"] = trans
}

// samples are two of the runs, with their traces.
func (e *Engine) samples() []any {
	var out []any
	for i := len(e.Scen) / 3; i < len(e.Scen) && len(out) < 2; i += len(e.Scen)/3 + 1 {
		sc := e.Scen[i]
		var evs []string
		for _, ev := range e.Trace[sc.ID] {
			b, _ := json.Marshal(ev)
			evs = append(evs, string(b))
		}
		out = append(out, map[string]any{"scenario": sc.String(), "program": renderFile(sc.Pkg, []*Prog{sc.Prog}), "trace": evs})
	}
	return out
}
