package main

// The runtime engine: programs -> generated Go -> traces -> TLA+.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Profile is a family of programs and scenarios.
type Profile struct {
	Name  string
	K     Knobs
	S     ScenKnobs
	Progs int // programs (quick)
	Scen  int // scenarios per program (quick)
	Burst bool
	// Keep selects programs (nil: all).
	Keep func(*Prog) bool
	// Tweak changes a scenario.
	Tweak func(*rand.Rand, *Scenario)
	Fixed func(base int) []*Prog
}

// Engine holds one check's scratch module, programs and scenarios.
type Engine struct {
	Dir    string
	S      *Scratch
	Progs  []*Prog
	PkgOf  []string
	Scen   []*Scenario
	Trace  map[string][]J
	Stderr string
	// statistics
	ScriptStates, ScriptGen, TraceStates, TraceGen int
	MCStates, MCGen, MCScen                        int
	Accepted                                       int
	Skipped                                        int
	Reruns                                         int
	Violations                                     []Violation
	phase                                          map[string]float64
}

// Violation is one failed run.
type Violation struct {
	What   string
	Detail string
	Scen   *Scenario
}

func (e *Engine) time(name string, t time.Time) {
	if e.phase == nil {
		e.phase = map[string]float64{}
	}
	e.phase[name] += time.Since(t).Seconds()
	if os.Getenv("VH_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "[%s %.1fs]\n", name, time.Since(t).Seconds())
	}
}

func newEngine(dir string) *Engine {
	return &Engine{Dir: dir, S: newScratch(filepath.Join(dir, "mod")), Trace: map[string][]J{}}
}

const perPkg = 6

// addProfile generates the programs and scenarios of a profile.
func (e *Engine) addProfile(pr *Profile, seed int64, progs, scen int) {
	r := rand.New(rand.NewSource(seed*7919 + int64(len(e.Progs)) + 17))
	n := 0
	var ps []*Prog
	if pr.Fixed != nil {
		ps = pr.Fixed(len(e.Progs))
		progs = len(ps)
	}
	for tries := 0; n < progs && tries < progs*60; tries++ {
		ix := len(e.Progs)
		var p *Prog
		if ps != nil {
			p = ps[n]
		} else {
			p = genProg(r.Int63(), fmt.Sprintf("P%d", ix), pr.K)
			if pr.Keep != nil && !pr.Keep(p) {
				continue
			}
		}
		n++
		e.Progs = append(e.Progs, p)
		pkg := fmt.Sprintf("p%03d", ix/perPkg)
		e.PkgOf = append(e.PkgOf, pkg)
		for j := 0; j < scen; j++ {
			sc := genScenario(r, fmt.Sprintf("r%d", len(e.Scen)), p, pkg, ix, pr.S)
			if pr.Burst {
				sc.Mode = "burst"
			}
			if pr.Tweak != nil {
				pr.Tweak(r, sc)
			}
			e.Scen = append(e.Scen, sc)
		}
	}
}

func (e *Engine) pkgs() []string {
	seen := map[string]bool{}
	var out []string
	for _, p := range e.PkgOf {
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	return out
}

// build generates and compiles everything.
func (e *Engine) build() error {
	t := time.Now()
	byPkg := map[string][]*Prog{}
	for i, p := range e.Progs {
		byPkg[e.PkgOf[i]] = append(byPkg[e.PkgOf[i]], p)
	}
	for pkg, ps := range byPkg {
		e.S.write("proto/"+pkg+".proto", renderFile(pkg, ps))
	}
	if err := e.S.generate(); err != nil {
		return fmt.Errorf("generate: %w", err)
	}
	e.time("generate", t)
	t = time.Now()
	if err := e.S.glue(e.pkgs()); err != nil {
		return err
	}
	if err := e.S.gobuild(false, filepath.Join(e.Dir, "driver"), "./driver"); err != nil {
		return err
	}
	e.time("build", t)
	return nil
}

func writeJSON(path string, v any) {
	b, err := json.Marshal(v)
	must(err)
	must(os.WriteFile(path, b, 0o644))
}

func (e *Engine) progsJ() []any {
	ps := []any{}
	for _, p := range e.Progs {
		ps = append(ps, p.json())
	}
	return ps
}

// script lets the specification choose the schedules.
func (e *Engine) script() error {
	t := time.Now()
	defer func() { e.time("script", t) }()
	var scs []any
	byID := map[string]*Scenario{}
	for _, sc := range e.Scen {
		scs = append(scs, sc.tla())
		byID[sc.ID] = sc
	}
	in := filepath.Join(e.Dir, "script.json")
	writeJSON(in, J{"progs": e.progsJ(), "scen": scs})
	res, err := tlc(e.Dir, "FedScript", "FedScript.cfg", []string{"FED_IN=" + in}, 20*time.Minute)
	if err != nil {
		return err
	}
	e.ScriptStates += res.States
	e.ScriptGen += res.Gen
	n := 0
	for _, l := range res.Lines {
		if !strings.HasPrefix(l, "SCRIPT ") {
			continue
		}
		var x struct {
			ID    string           `json:"id"`
			Steps []map[string]any `json:"steps"`
			St    string           `json:"st"`
		}
		if err := json.Unmarshal([]byte(l[7:]), &x); err != nil {
			return fmt.Errorf("script output: %w: %s", err, l)
		}
		sc := byID[x.ID]
		sc.Steps, sc.Status = x.Steps, x.St
		n++
	}
	if n != len(e.Scen) {
		return fmt.Errorf("specification produced %d scripts for %d scenarios\n%s", n, len(e.Scen), tail(res.Out, 3000))
	}
	var keep []*Scenario
	for _, sc := range e.Scen {
		if sc.Status == "dup" {
			e.Skipped++
			continue
		}
		if sc.Cancel >= 0 && len(sc.Steps) > 0 {
			k := sc.Cancel % len(sc.Steps)
			sc.Steps = sc.Steps[:k+1]
			sc.Steps[k]["release"] = "!cancel"
		}
		keep = append(keep, sc)
	}
	e.Scen = keep
	return nil
}

// run executes the scenarios on the compiled services.
func (e *Engine) run(parallel int) {
	t := time.Now()
	defer func() { e.time("run", t) }()
	e.runSome(e.Scen, parallel)
}

func (e *Engine) runSome(scens []*Scenario, parallel int) {
	pending := append([]*Scenario{}, scens...)
	for round := 0; len(pending) > 0 && round < 4; round++ {
		var runs []any
		for _, sc := range pending {
			runs = append(runs, sc.drv())
		}
		in, out := filepath.Join(e.Dir, "run.json"), filepath.Join(e.Dir, "out.ndjson")
		writeJSON(in, J{"parallel": parallel, "runs": runs})
		os.Remove(out)
		cmd := exec.Command(filepath.Join(e.Dir, "driver"), in, out)
		var se bytes.Buffer
		cmd.Stderr = &se
		done := make(chan error, 1)
		if err := cmd.Start(); err != nil {
			e.Violations = append(e.Violations, Violation{What: "driver does not start", Detail: err.Error()})
			return
		}
		go func() { done <- cmd.Wait() }()
		var err error
		select {
		case err = <-done:
		case <-time.After(10 * time.Minute):
			cmd.Process.Kill()
			err = fmt.Errorf("driver timed out")
			<-done
		}
		got := e.readTraces(out)
		var rest []*Scenario
		for _, sc := range pending {
			if !got[sc.ID] {
				rest = append(rest, sc)
			}
		}
		if err != nil {
			v := Violation{What: "the process of the service died: " + err.Error(), Detail: tail(se.String(), 6000)}
			if len(rest) > 0 {
				v.Scen = rest[0]
			}
			e.Violations = append(e.Violations, v)
			// run the rest without the first batch in flight
			k := parallel
			if k > len(rest) {
				k = len(rest)
			}
			rest = rest[k:]
		} else if len(rest) > 0 {
			e.Violations = append(e.Violations, Violation{What: "runs without result", Scen: rest[0]})
			return
		}
		pending = rest
	}
}

func (e *Engine) readTraces(path string) map[string]bool {
	got := map[string]bool{}
	f, err := os.Open(path)
	if err != nil {
		return got
	}
	defer f.Close()
	rd := bufio.NewScanner(f)
	rd.Buffer(make([]byte, 1<<20), 1<<28)
	byID := map[string]*Scenario{}
	for _, sc := range e.Scen {
		byID[sc.ID] = sc
	}
	for rd.Scan() {
		var x struct {
			ID   string `json:"id"`
			Fail string `json:"fail"`
			Ev   []J    `json:"ev"`
		}
		if json.Unmarshal(rd.Bytes(), &x) != nil {
			continue
		}
		got[x.ID] = true
		if x.Fail != "" {
			e.Violations = append(e.Violations, Violation{What: "the service cannot be used: " + x.Fail, Scen: byID[x.ID]})
			continue
		}
		e.Trace[x.ID] = x.Ev
	}
	return got
}

func (e *Engine) traceJ(sc *Scenario, explain bool) J {
	return J{"id": sc.ID, "prog": sc.ProgIx + 1, "args": sc.argsT(), "eh": sc.ehT(), "method": sc.Pkg + ".F/" + sc.Prog.ID, "ev": e.Trace[sc.ID], "explain": explain}
}

// validate checks every recorded trace against the specification.
func (e *Engine) validate() error {
	t := time.Now()
	defer func() { e.time("validate", t) }()
	var ids []*Scenario
	for _, sc := range e.Scen {
		if _, ok := e.Trace[sc.ID]; ok {
			ids = append(ids, sc)
		}
	}
	if len(ids) == 0 {
		return nil
	}
	acc, err := e.accepted(ids)
	if err != nil {
		// a trace the specification cannot even evaluate (for example a value of an unexpected type): find it
		return e.bisect(ids, err)
	}
	var bad []*Scenario
	timed := 0
	for _, sc := range ids {
		if acc[sc.ID] {
			e.Accepted++
			continue
		}
		bad = append(bad, sc)
		if sc.timed() {
			timed++
		}
	}
	// Short timeouts are measured in real time: on a busy machine, a run may be held up for longer than the
	// timeouts it uses. A rejected run counts only if it is rejected again when there is less to do.
	for try := 0; try < 3 && timed > 0; try++ {
		var again, rest []*Scenario
		for _, sc := range bad {
			if sc.timed() {
				again = append(again, sc)
			} else {
				rest = append(rest, sc)
			}
		}
		if len(again) > 12 {
			break
		}
		e.Reruns += len(again)
		before := len(e.Violations)
		e.runSome(again, 2)
		if len(e.Violations) > before {
			break
		}
		acc, err := e.accepted(again)
		if err != nil {
			break
		}
		timed = 0
		for _, sc := range again {
			if acc[sc.ID] {
				e.Accepted++
			} else {
				rest = append(rest, sc)
				timed++
			}
		}
		bad = rest
	}
	if len(bad) > 0 {
		e.explain(bad)
	}
	return nil
}

// accepted asks TLC which traces are behaviours of the specification.
func (e *Engine) accepted(scens []*Scenario) (map[string]bool, error) {
	var trs []any
	for _, sc := range scens {
		trs = append(trs, e.traceJ(sc, false))
	}
	in := filepath.Join(e.Dir, "trace.json")
	writeJSON(in, J{"progs": e.progsJ(), "traces": trs})
	res, err := tlc(e.Dir, "FedTrace", "FedTrace.cfg", []string{"FED_IN=" + in}, 20*time.Minute)
	if err != nil {
		return nil, err
	}
	e.TraceStates += res.States
	e.TraceGen += res.Gen
	acc := map[string]bool{}
	for _, l := range res.Lines {
		if strings.HasPrefix(l, "ACCEPT ") {
			acc[l[7:]] = true
		}
	}
	return acc, nil
}

func (e *Engine) explain(bad []*Scenario) {
	n := len(bad)
	if n > 12 {
		n = 12
	}
	var trs []any
	for _, sc := range bad[:n] {
		trs = append(trs, e.traceJ(sc, true))
	}
	in := filepath.Join(e.Dir, "explain.json")
	writeJSON(in, J{"progs": e.progsJ(), "traces": trs})
	res, err := tlc(e.Dir, "FedTrace", "FedTrace.cfg", []string{"FED_IN=" + in}, 10*time.Minute)
	why := map[string]string{}
	full := ""
	if err == nil {
		for _, l := range res.Lines {
			if strings.HasPrefix(l, "STUCK ") {
				var x struct {
					ID  string `json:"id"`
					At  int    `json:"at"`
					Why string `json:"why"`
				}
				if json.Unmarshal([]byte(l[6:]), &x) == nil {
					why[x.ID] += fmt.Sprintf("event %d: %s; ", x.At, x.Why)
				}
			}
		}
		full = res.Out
	}
	for i, sc := range bad {
		d := ""
		if i < n {
			d = full
		}
		e.Violations = append(e.Violations, Violation{What: "not a behaviour of the specification: " + why[sc.ID], Scen: sc, Detail: d})
	}
}

// bisect validates traces in small groups after a failure of the whole.
func (e *Engine) bisect(ids []*Scenario, cause error) error {
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 4)
	bad := 0
	step := len(ids)/16 + 1
	var groups [][]*Scenario
	for i := 0; i < len(ids); i += step {
		j := i + step
		if j > len(ids) {
			j = len(ids)
		}
		groups = append(groups, ids[i:j])
	}
	progs := e.progsJ()
	var check func(g []*Scenario)
	check = func(g []*Scenario) {
		var trs []any
		for _, sc := range g {
			trs = append(trs, e.traceJ(sc, false))
		}
		in := filepath.Join(e.Dir, fmt.Sprintf("b_%s_%d.json", g[0].ID, len(g)))
		writeJSON(in, J{"progs": progs, "traces": trs})
		res, err := tlc(e.Dir, "FedTrace", "FedTrace.cfg", []string{"FED_IN=" + in}, 10*time.Minute)
		os.Remove(in)
		if err != nil {
			if len(g) == 1 {
				mu.Lock()
				bad++
				e.Violations = append(e.Violations, Violation{What: "the trace has a value the specification does not admit", Detail: err.Error(), Scen: g[0]})
				mu.Unlock()
				return
			}
			mu.Lock()
			stop := bad > 4
			mu.Unlock()
			if stop {
				return
			}
			check(g[:len(g)/2])
			check(g[len(g)/2:])
			return
		}
		mu.Lock()
		defer mu.Unlock()
		e.TraceStates += res.States
		acc := map[string]bool{}
		for _, l := range res.Lines {
			if strings.HasPrefix(l, "ACCEPT ") {
				acc[l[7:]] = true
			}
		}
		for _, sc := range g {
			if acc[sc.ID] {
				e.Accepted++
			} else {
				bad++
				e.Violations = append(e.Violations, Violation{What: "not a behaviour of the specification", Scen: sc})
			}
		}
	}
	for _, g := range groups {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			check(g)
		}()
	}
	wg.Wait()
	if bad == 0 {
		return cause
	}
	return nil
}

func (e *Engine) dump(v Violation) string {
	var w strings.Builder
	fmt.Fprintf(&w, "%s\n", v.What)
	if v.Scen != nil {
		fmt.Fprintf(&w, "scenario %s\nrequest and backends: ", v.Scen)
		b, _ := json.Marshal(v.Scen.drv())
		w.Write(b)
		fmt.Fprintf(&w, "\n\ntrace:\n")
		for i, ev := range e.Trace[v.Scen.ID] {
			b, _ := json.Marshal(ev)
			fmt.Fprintf(&w, "%3d %s\n", i+1, b)
		}
		fmt.Fprintf(&w, "\nprogram:\n%s\n", renderFile(v.Scen.Pkg, []*Prog{v.Scen.Prog}))
	}
	if v.Detail != "" {
		fmt.Fprintf(&w, "\ndetail:\n%s\n", tail(noChatter(v.Detail), 20000))
	}
	return w.String()
}

func sortedKeys[V any](m map[string]V) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// noChatter drops what TLC says about itself.
func noChatter(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "Parsing file") || strings.HasPrefix(l, "Semantic processing") || strings.HasPrefix(l, "Linting of") {
			continue
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}
