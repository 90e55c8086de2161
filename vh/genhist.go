package main

// G01: histories of file operations against spec/GenHist.tla.

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/mercari/grpc-federation/generator"
)

func init() { otherChecks["G01"] = checkG01 }

type ghOp struct {
	Op   string   `json:"op"`
	F    string   `json:"f"`
	V    string   `json:"v"`
	Also []string `json:"also"`
	Told bool     `json:"told"`
}

type ghResult struct {
	F    string `json:"f"`
	Type string `json:"type"`
	V    string `json:"v"`
}

type ghStep struct {
	ghOp
	Called  bool              `json:"called"`
	Results []ghResult        `json:"results"`
	Written map[string]string `json:"written"`
	Note    string            `json:"note,omitempty"`
	Err     string            `json:"err,omitempty"`
}

type ghHist struct {
	Watch bool     `json:"watch"`
	H     []ghStep `json:"h"`
	Fatal string   `json:"fatal,omitempty"`
}

// ghReq is what the process of one history gets.
type ghReq struct {
	Dir    string
	Watch  bool
	Ops    []ghOp
	Expect []bool                       // whether the handler is to be called
	Known  map[string]map[string]string // file, generated path -> content hash by variant: see ghOutputs
	Delay  time.Duration
}

var (
	ghFiles    = []string{"a", "b", "c"}
	ghVariants = []string{"v1", "v2", "v3"}
	ghPath     = map[string]string{"a": "a.proto", "b": "b.proto", "c": "sub/c.proto"}
)

const ghSize = 1600

// ghText is the text of a variant of a file; all have the same size, so that a write is one system call.
func ghText(f, v string) string {
	up := strings.ToUpper(f)
	head := fmt.Sprintf("syntax = \"proto3\";\npackage %s.v1;\n", f)
	fed := "import \"grpc/federation/federation.proto\";\n"
	pkg := fmt.Sprintf("option go_package = \"vgen/%s;%s\";\n", f, f)
	var t string
	switch v {
	case "empty":
		t = ""
	case "badsyntax":
		t = head + pkg + fmt.Sprintf("message %sReq { string id = ; }\nservice %sSvc {", up, up)
	case "badname":
		t = head + pkg + fmt.Sprintf("service %sSvc { rpc Get(Missing) returns (Missing) {} }\n", up)
	case "v3": // no service
		t = head + pkg + fmt.Sprintf("message %sV3 { string id = 1; }\n", up)
	default:
		n := v[1:]
		if f == "b" {
			t = head + pkg + fmt.Sprintf("service %sSvc { rpc Get%s(%sReq) returns (%sRes) {} }\nmessage %sReq { string id = 1; }\nmessage %sRes { string v%s = 1; }\n", up, n, up, up, up, up, n)
		} else {
			t = head + fed + pkg + fmt.Sprintf(`service %[1]sSvc {
  option (grpc.federation.service) = {};
  rpc Get%[2]s(%[1]sReq) returns (%[1]sRes) {}
}
message %[1]sReq { string id = 1; }
message %[1]sRes {
  option (grpc.federation.message) = { def { name: "x" by: "$.id" } };
  string v%[2]s = 1 [(grpc.federation.field).by = "x + '%[2]s'"];
}
`, up, n)
		}
	}
	if len(t) > ghSize {
		panic("text too long")
	}
	return t + strings.Repeat("\n", ghSize-len(t))
}

func ghConfig(dir string) generator.Config {
	cfg, err := generator.LoadConfigFromReader(strings.NewReader(fmt.Sprintf(`imports:
  - %[1]s/src
  - %[2]s/proto
src:
  - %[1]s/src
out: %[1]s/out
plugins:
  - plugin: go
    opt: paths=import
  - plugin: go-grpc
    opt: paths=import
  - plugin: grpc-federation
    opt:
    - paths=import
    - import_paths=%[1]s/src
    - import_paths=%[2]s/proto
`, dir, repoDir)))
	must(err)
	return cfg
}

// ghFresh is what a fresh generator makes of one variant of a file, by output path.
func ghFresh(dir, f, v string) (map[string]string, int) {
	must(os.MkdirAll(filepath.Join(dir, "src", "sub"), 0o755))
	must(os.WriteFile(filepath.Join(dir, "src", ghPath[f]), []byte(ghText(f, v)), 0o644))
	g := generator.New(ghConfig(dir))
	m, err := g.GenerateAll(context.Background())
	must(err)
	out := map[string]string{}
	n := 0
	for _, bc := range m {
		for _, res := range bc.Responses {
			for _, x := range res.GetFile() {
				out[x.GetName()] = x.GetContent()
			}
		}
		n += len(bc.FederationFiles)
	}
	return out, n
}

// ghTell names the variant whose fresh output a set of files is.
func ghTell(fresh map[string]map[string]string, files map[string]string) string {
	if len(files) == 0 {
		return "none"
	}
	for _, v := range ghVariants {
		same := len(fresh[v]) == len(files)
		for n, t := range fresh[v] {
			if files[n] != t {
				same = false
			}
		}
		if same {
			return v
		}
	}
	return "mix"
}

// cmdGenHist runs one history in this process.
func cmdGenHist() {
	log.SetOutput(io.Discard)
	stdout := os.Stdout
	os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	var q ghReq
	must(json.NewDecoder(os.Stdin).Decode(&q))
	fresh := map[string]map[string]map[string]string{}
	plugin := map[string]int{} // how many files are passed to code-generation plugins
	for _, f := range ghFiles {
		fresh[f] = map[string]map[string]string{}
		for _, v := range ghVariants {
			fresh[f][v], plugin[f+v] = ghFresh(filepath.Join(q.Dir, "fresh", f+v), f, v)
		}
	}
	src, out := filepath.Join(q.Dir, "src"), filepath.Join(q.Dir, "out")
	must(os.MkdirAll(filepath.Join(src, "sub"), 0o755))
	must(os.MkdirAll(filepath.Join(q.Dir, "tmp"), 0o755))
	abs := func(f string) string { return filepath.Join(src, ghPath[f]) }
	for _, f := range []string{"a", "b"} {
		must(os.WriteFile(abs(f), []byte(ghText(f, "v1")), 0o644))
	}
	g := generator.New(ghConfig(q.Dir))
	called := make(chan generator.Result, 100)
	var mu sync.Mutex
	var also []string
	g.SetPostProcessHandler(func(ctx context.Context, path string, result generator.Result) error {
		mu.Lock()
		defer mu.Unlock()
		for _, r := range result {
			if err := r.WriteFiles(ctx); err != nil {
				return err
			}
		}
		for _, f := range also {
			os.Remove(abs(f))
		}
		if len(also) > 0 && q.Watch {
			time.Sleep(q.Delay) // the events of these are taken from the queue, and ignored, meanwhile
		}
		also = nil
		called <- result
		return nil
	})
	hist := &ghHist{Watch: q.Watch, H: []ghStep{}}
	done := make(chan error, 1)
	ctx := context.Background()
	// the first generation
	if m, err := generator.New(ghConfig(q.Dir)).GenerateAll(ctx); err != nil {
		hist.Fatal = err.Error()
	} else {
		for _, bc := range m {
			for _, res := range bc.Responses {
				for _, x := range res.GetFile() {
					p := filepath.Join(out, x.GetName())
					must(os.MkdirAll(filepath.Dir(p), 0o755))
					must(os.WriteFile(p, []byte(x.GetContent()), 0o644))
				}
			}
		}
	}
	if q.Watch {
		go func() { done <- g.Generate(ctx, "", generator.WatchMode()) }()
		time.Sleep(4*q.Delay + time.Second) // the watcher is set up before the first generation; both have to be over
	} else if err := g.Generate(ctx, abs("a")); err != nil {
		hist.Fatal = err.Error()
	} else {
		<-called
	}
	for i, o := range q.Ops {
		mu.Lock()
		also = o.Also
		mu.Unlock()
		st := ghStep{ghOp: o, Results: []ghResult{}, Written: map[string]string{}}
		switch o.Op {
		case "write":
			fd, err := os.OpenFile(abs(o.F), os.O_WRONLY, 0)
			must(err)
			_, err = fd.WriteAt([]byte(ghText(o.F, o.V)), 0)
			must(err)
			fd.Close()
		case "move":
			tmp := filepath.Join(q.Dir, "tmp", o.F)
			must(os.WriteFile(tmp, []byte(ghText(o.F, o.V)), 0o644))
			must(os.Rename(tmp, abs(o.F)))
		case "delete":
			must(os.Remove(abs(o.F)))
		case "away":
			must(os.Rename(abs(o.F), filepath.Join(q.Dir, "tmp", "away")))
		case "noise":
			must(os.WriteFile(filepath.Join(src, "notes.txt"), []byte(fmt.Sprint(i)), 0o644))
		}
		if !q.Watch {
			if o.Told {
				if err := g.Generate(ctx, abs(o.F)); err != nil {
					st.Err = err.Error()
				}
			}
		}
		wait := 4 * q.Delay
		if q.Expect[i] {
			wait = 20 * time.Second
		}
		if !q.Watch {
			wait = time.Millisecond
		}
		var res generator.Result
		select {
		case res = <-called:
			st.Called = true
		case <-time.After(wait):
		case err := <-done:
			hist.Fatal = fmt.Sprint("the generator ended: ", err)
		}
		if q.Watch {
			time.Sleep(q.Delay)
		}
		for len(called) > 0 {
			<-called
			st.Note += "called again; "
		}
		mu.Lock()
		for _, f := range also { // the handler was not called
			os.Remove(abs(f))
		}
		also = nil
		mu.Unlock()
		for _, r := range res {
			x := ghResult{F: r.ProtoPath, Type: string(r.Type)}
			files := map[string]string{}
			for _, f := range ghFiles {
				if r.ProtoPath == abs(f) {
					x.F = f
				}
			}
			n := 0
			for _, y := range r.Files {
				files[y.GetName()] = y.GetContent()
				n++
			}
			x.V = ghTell(fresh[x.F], files)
			if n != len(files) {
				x.V = "repeated"
			}
			want := plugin[x.F+x.V]
			if len(r.FederationFiles) != want {
				x.V = fmt.Sprintf("%s with %d files for plugins", x.V, len(r.FederationFiles))
			}
			st.Results = append(st.Results, x)
		}
		written := map[string]map[string]string{}
		must(filepath.Walk(q.Dir+"/out", func(p string, info os.FileInfo, err error) error {
			if err != nil || info.IsDir() {
				return err
			}
			rel, err := filepath.Rel(out, p)
			must(err)
			b, err := os.ReadFile(p)
			must(err)
			f := strings.Split(filepath.Base(rel), ".")[0]
			f = strings.Split(f, "_")[0]
			if written[f] == nil {
				written[f] = map[string]string{}
			}
			written[f][rel] = string(b)
			return nil
		}))
		for _, f := range ghFiles {
			st.Written[f] = ghTell(fresh[f], written[f])
		}
		hist.H = append(hist.H, st)
		if hist.Fatal != "" {
			break
		}
	}
	must(json.NewEncoder(stdout).Encode(hist))
}

func checkG01(c *Check) {
	c.Ev.Level = "model_checking"
	c.Ev.Assumptions = []string{
		"watched files change one at a time, each by one file-system operation after the last event has been handled (events that arrive while another is handled are ignored by design), except removals the history makes go unnoticed",
		"files do not import each other: a file is generated anew when it changes, not when a file it imports changes",
	}
	// the model itself
	res, err := tlc(c.Dir, "GenHistMC", "SPECIFICATION Spec\nINVARIANT TypeOK\nINVARIANT WrittenIsKnown\nINVARIANT KnownIsFresh\nINVARIANT OneEach\nCHECK_DEADLOCK FALSE\n", nil, 10*time.Minute)
	must(err)
	if res.Violated != "" {
		must(fmt.Errorf("GenHistMC: %s", res.Violated))
	}
	c.addInt("states", res.States)
	exe, err := os.Executable()
	must(err)
	for round := 0; round == 0 || (c.thorough() && time.Since(c.Start) < c.budget() && len(c.bad) == 0); round++ {
		num, length := 170, 6
		if round%2 == 1 {
			num, length = 120, 14
		}
		env := []string{fmt.Sprintf("GH_LEN=%d", length)}
		res, err := tlc(c.Dir, "GenHistGen", "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", env, 5*time.Minute,
			"-simulate", fmt.Sprintf("num=%d", num/8+2), "-depth", fmt.Sprint(length+1), "-seed", fmt.Sprint(c.Seed*1000+int64(round)))
		must(err)
		c.addInt("states", res.Gen)
		seen := map[string]bool{}
		var hs []*ghReq
		for _, l := range res.Lines {
			if seen[l] {
				continue
			}
			seen[l] = true
			var x struct {
				Watch bool   `json:"watch"`
				H     []ghOp `json:"h"`
			}
			must(json.Unmarshal([]byte(l), &x))
			hs = append(hs, &ghReq{Watch: x.Watch, Ops: x.H})
		}
		if len(hs) < 20 {
			must(fmt.Errorf("%d histories\n%s", len(hs), tail(res.Out, 3000)))
		}
		// TLC reports every last step of a simulated history: one of them each
		rng := rand.New(rand.NewSource(c.Seed*77 + int64(round)))
		sort.Slice(hs, func(i, j int) bool { return fmt.Sprint(hs[i].Ops) < fmt.Sprint(hs[j].Ops) })
		rng.Shuffle(len(hs), func(i, j int) { hs[i], hs[j] = hs[j], hs[i] })
		begun := map[string]bool{}
		var picked []*ghReq
		for _, q := range hs {
			k := fmt.Sprint(q.Watch, q.Ops[:len(q.Ops)-1])
			if !begun[k] && len(picked) < num {
				begun[k] = true
				picked = append(picked, q)
			}
		}
		hs = picked
		for _, q := range hs {
			q.Expect = ghExpect(q)
		}
		bad := c.ghRun(round, exe, hs, 100*time.Millisecond)
		// once more, slower, in case events came too close to each other
		for try := 1; try <= 2 && len(bad) > 0; try++ {
			if len(bad) > 40 {
				bad = bad[:40]
			}
			var again []*ghReq
			for _, b := range bad {
				again = append(again, b.q)
			}
			bad = c.ghRun(round*10+try+1000, exe, again, 400*time.Millisecond)
		}
		for _, b := range bad {
			c.violation(b.text)
		}
		for _, q := range hs {
			c.addInt("histories", 1)
			c.addInt("operations", len(q.Ops))
			if q.Watch {
				c.addInt("watched", 1)
			}
		}
	}
}

// ghExpect tells which operations the handler is to be waited for; the judgement is the specification's.
func ghExpect(q *ghReq) []bool {
	out := []bool{}
	for _, o := range q.Ops {
		switch o.Op {
		case "write", "move":
			out = append(out, o.V[0] == 'v')
		case "noise":
			out = append(out, false)
		default:
			out = append(out, true)
		}
	}
	return out
}

type ghBad struct {
	q    *ghReq
	text string
}

func (c *Check) ghRun(round int, exe string, hs []*ghReq, delay time.Duration) []ghBad {
	out := make([]*ghHist, len(hs))
	sem := make(chan bool, 10)
	var wg sync.WaitGroup
	for i, h := range hs {
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			q := *h
			q.Dir = filepath.Join(c.Dir, fmt.Sprintf("h%d_%d", round, i))
			q.Delay = delay
			must(os.MkdirAll(q.Dir, 0o755))
			defer os.RemoveAll(q.Dir)
			in, err := json.Marshal(&q)
			must(err)
			ctx, cancel := context.WithTimeout(context.Background(), 5*time.Minute)
			defer cancel()
			cmd := exec.CommandContext(ctx, exe, "genhist")
			cmd.Stdin = bytes.NewReader(in)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			err = cmd.Run()
			r := &ghHist{}
			if e := json.Unmarshal(so.Bytes(), r); e != nil || err != nil {
				r = &ghHist{Watch: h.Watch, H: []ghStep{}, Fatal: fmt.Sprint(err, " ", tail(se.String(), 3000))}
			}
			out[i] = r
		}()
	}
	wg.Wait()
	var bad []ghBad
	var rows []*ghHist
	var idx []int
	for i, r := range out {
		if r.Fatal != "" {
			bad = append(bad, ghBad{hs[i], fmt.Sprintf("the generator failed in the history %s: %s", ghShow(r.H), r.Fatal)})
			continue
		}
		rows = append(rows, r)
		idx = append(idx, i)
	}
	if len(rows) == 0 {
		return bad
	}
	tf := filepath.Join(c.Dir, fmt.Sprintf("gh%d.ndjson", round))
	writeNDJSON(tf, rows)
	res, err := tlc(c.Dir, "GenHistTrace", "SPECIFICATION Spec\nINVARIANT Judge\nCHECK_DEADLOCK FALSE\n", []string{"GH_TRACE=" + tf}, 5*time.Minute)
	must(err)
	c.addInt("states", res.States)
	for _, l := range res.Lines {
		var b struct {
			Run, Step int
			Why       string
			State     json.RawMessage
			Expected  json.RawMessage
			After     json.RawMessage
		}
		must(json.Unmarshal([]byte(l), &b))
		r := rows[b.Run-1]
		st := r.H[b.Step-1]
		got, _ := json.Marshal(st)
		bad = append(bad, ghBad{hs[idx[b.Run-1]], fmt.Sprintf("wrong %s at step %d of a history (watching: %v)\nhistory: %s\ngot: %s\nexpected results: %s\nexpected to be written: %s\nstate: %s\n", b.Why, b.Step, r.Watch, ghShow(r.H[:b.Step]), got, b.Expected, b.After, b.State)})
	}
	return bad
}

func ghShow(h []ghStep) string {
	var out []string
	for _, s := range h {
		x := s.Op + " " + s.F
		if s.V != "none" {
			x += " " + s.V
		}
		if len(s.Also) > 0 {
			x += fmt.Sprintf(" (meanwhile %s removed)", s.Also)
		}
		if !s.Told {
			x += " (untold)"
		}
		out = append(out, x)
	}
	return strings.Join(out, "; ")
}
