package main

// W01: the host of CEL plugins against spec/PluginHost.tla.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

var pgMu sync.Mutex

func init() { otherChecks["W01"] = checkW01 }

func (c *Check) pgBuild(dir string) (bin, wasm string, ok bool) {
	s := newScratch(filepath.Join(dir, "m"))
	for _, f := range [][2]string{{"plug.proto", "proto/plug/plug.proto"}, {"psvc.proto", "proto/psvc/psvc.proto"}, {"wasm.go", "wasm/main.go"}, {"main.go", "plugdrv/main.go"}} {
		src, err := os.ReadFile(filepath.Join(verifDir(), "vh", "plugdrv", f[0]+".txt"))
		must(err)
		s.write(f[1], string(src))
	}
	if err := s.generate(); err != nil {
		c.violation("the plugin of this check cannot be generated\n" + err.Error())
		return
	}
	bin, wasm = filepath.Join(dir, "plugdrv"), filepath.Join(dir, "plug.wasm")
	cmd := exec.Command("go", "build", "-o", wasm, "./wasm")
	cmd.Dir = s.Dir
	cmd.Env = append(goEnv(), "GOOS=wasip1", "GOARCH=wasm", "CGO_ENABLED=0")
	if b, err := cmd.CombinedOutput(); err != nil {
		c.violation(fmt.Sprintf("the plugin of this check cannot be compiled\n%v\n%s", err, tail(string(b), 4000)))
		return
	}
	if err := s.gobuild(false, bin, "./plugdrv"); err != nil {
		c.violation("the service of this check cannot be compiled\n" + err.Error())
		return
	}
	return bin, wasm, true
}

type pgOp struct {
	Op   string `json:"op"`
	S    string `json:"s"`
	N    int    `json:"n"`
	In   int    `json:"in"`
	Wait int    `json:"wait"`
}

type pgHist struct {
	ID      int       `json:"id"`
	Insts   int       `json:"insts"`
	Threads [][]*pgOp `json:"threads"`
}

var pgWords = []string{"a", "b c", "x%d", "q\"q", "line\nbreak", "100%"}

func pgOpOf(rng *rand.Rand, kind string, insts int) *pgOp {
	o := &pgOp{Op: kind, S: pgWords[rng.Intn(len(pgWords))], N: rng.Intn(50), In: 1 + rng.Intn(insts)}
	if kind == "die" {
		o.N = rng.Intn(3)
	}
	if rng.Intn(2) == 0 {
		o.Wait = rng.Intn(3000)
	}
	return o
}

func pgRandom(rng *rand.Rand) *pgHist {
	h := &pgHist{Insts: 1 + rng.Intn(4)/3}
	kinds := []string{"join", "join", "fail", "meta", "slow", "method", "add", "boxes", "multi", "multi", "types"}
	n := 1 + rng.Intn(6)
	for i := 0; i < n; i++ {
		var t []*pgOp
		for j := 1 + rng.Intn(6); j > 0; j-- {
			t = append(t, pgOpOf(rng, kinds[rng.Intn(len(kinds))], h.Insts))
		}
		h.Threads = append(h.Threads, t)
	}
	for _, k := range []string{"die", "close", "close"} {
		if rng.Intn(3) == 0 {
			i := rng.Intn(n)
			t := h.Threads[i]
			at := rng.Intn(len(t) + 1)
			h.Threads[i] = append(t[:at:at], append([]*pgOp{pgOpOf(rng, k, h.Insts)}, t[at:]...)...)
		}
	}
	return h
}

// every sequence of deaths, closes and calls of a length, without concurrency
func pgSequences(rng *rand.Rand, n int) []*pgHist {
	kinds := []string{"join", "multi", "fail", "die0", "die1", "die2", "close"}
	out := []*pgHist{}
	var rec func(t []*pgOp)
	rec = func(t []*pgOp) {
		if len(t) == n {
			out = append(out, &pgHist{Insts: 1, Threads: [][]*pgOp{append([]*pgOp{}, t...)}})
			return
		}
		for _, k := range kinds {
			o := pgOpOf(rng, strings.TrimRight(k, "012"), 1)
			if o.Op == "die" {
				o.N = int(k[3] - '0')
			}
			o.Wait = 0
			rec(append(t, o))
		}
	}
	rec(nil)
	return out
}

func checkW01(c *Check) {
	c.Ev.Level = "model_checking"
	c.Ev.Assumptions = []string{"the plugin is built with the generated Register function and prints nothing to its standard output", "a request that does not return within 20 seconds is taken to hang"}
	dir := filepath.Join(c.Dir, "w")
	must(os.MkdirAll(dir, 0o755))
	if os.Getenv("VH_KEEP") == "" {
		defer os.RemoveAll(dir)
	}
	bin, wasm, ok := c.pgBuild(dir)
	if !ok {
		return
	}
	rng := rand.New(rand.NewSource(c.Seed))
	for round := 0; ; round++ {
		var hs []*pgHist
		n := 150
		if round == 0 {
			seqs := pgSequences(rng, 3)
			if !c.thorough() {
				rng.Shuffle(len(seqs), func(i, j int) { seqs[i], seqs[j] = seqs[j], seqs[i] })
				seqs = seqs[:100]
			}
			hs = append(hs, seqs...)
		}
		if c.thorough() {
			n = 600
		}
		for i := 0; i < n; i++ {
			hs = append(hs, pgRandom(rng))
		}
		c.pgRound(dir, bin, wasm, round, hs)
		if !c.thorough() || time.Since(c.Start) > c.budget() || len(c.bad) > 0 {
			return
		}
	}
}

func (c *Check) pgRound(dir, bin, wasm string, round int, hs []*pgHist) {
	procs := 4
	outs := make([]string, procs)
	var wg sync.WaitGroup
	for k := 0; k < procs; k++ {
		var in bytes.Buffer
		for i := k; i < len(hs); i += procs {
			hs[i].ID = i + 1
			b, err := json.Marshal(hs[i])
			must(err)
			in.Write(append(b, '\n'))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			var out, errb bytes.Buffer
			cmd := exec.Command(bin, wasm, filepath.Join(dir, fmt.Sprintf("cache%d", k)))
			cmd.Stdin, cmd.Stdout, cmd.Stderr = &in, &out, &errb
			timer := time.AfterFunc(8*time.Minute, func() { cmd.Process.Kill() })
			defer timer.Stop()
			if err := cmd.Run(); err != nil {
				pgMu.Lock()
				defer pgMu.Unlock()
				c.violation("the process of the service with the plugin died\n" + err.Error() + "\n" + tail(errb.String(), 6000))
				return
			}
			outs[k] = out.String()
		}()
	}
	wg.Wait()
	if len(c.bad) > 0 {
		return
	}
	lines := strings.Split(strings.TrimSpace(strings.Join(outs, "")), "\n")
	tfile := filepath.Join(dir, fmt.Sprintf("trace%d.ndjson", round))
	must(os.WriteFile(tfile, []byte(strings.Join(lines, "\n")+"\n"), 0o644))
	res, err := tlc(c.Dir, "PluginTrace", "SPECIFICATION Spec\nINVARIANT Judge\nPROPERTY Monotone\nCHECK_DEADLOCK FALSE\n", []string{"PLUG_TRACE=" + tfile}, 10*time.Minute)
	must(err)
	if res.Violated != "" {
		must(fmt.Errorf("PluginTrace: %s\n%s", res.Violated, tail(res.Out, 3000)))
	}
	c.addInt("states", res.States)
	ok := map[int]bool{}
	for _, l := range res.Lines {
		var i int
		if _, err := fmt.Sscanf(l, "ACCEPT %d", &i); err == nil {
			ok[i] = true
		}
	}
	if len(lines) != len(hs) {
		must(fmt.Errorf("%d of %d histories recorded", len(lines), len(hs)))
	}
	for _, l := range lines {
		var t struct {
			ID int
			Ev []json.RawMessage
		}
		must(json.Unmarshal([]byte(l), &t))
		c.addInt("histories", 1)
		c.addInt("events", len(t.Ev))
		if !ok[t.ID] {
			var w strings.Builder
			for _, e := range t.Ev {
				fmt.Fprintf(&w, "%s\n", e)
			}
			c.violation("the history cannot be explained by the specification\n" + w.String())
		}
	}
}
