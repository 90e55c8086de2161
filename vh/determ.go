package main

// C03: the same input gives the same answer, against spec/Determinism.tla.

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

func init() { otherChecks["C03"] = checkC03 }

// schema is a set of proto files with the entry.
type schema struct {
	Name  string
	Files map[string]string
	Entry string
}

// readTree reads the proto files (and other files) below dir.
func readTree(dir string) map[string]string {
	fs := map[string]string{}
	must(filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || filepath.Ext(p) != ".proto" {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(dir, p)
		fs[rel] = string(b)
		return err
	}))
	return fs
}

// repoSchemas are the schemas which the repository has itself.
func repoSchemas() []*schema {
	var out []*schema
	td := readTree(filepath.Join(repoDir, "testdata"))
	for _, n := range sortedKeys(td) {
		out = append(out, &schema{Name: "testdata/" + n, Files: td, Entry: n})
	}
	dirs, _ := filepath.Glob(filepath.Join(repoDir, "_examples", "*", "proto"))
	for _, d := range dirs {
		fs := readTree(d)
		for _, n := range sortedKeys(fs) {
			if strings.Contains(fs[n], "grpc.federation") {
				out = append(out, &schema{Name: filepath.Base(filepath.Dir(d)) + "/" + n, Files: fs, Entry: n})
			}
		}
	}
	return out
}

// corpusSchemas are the hand-written schemas of /verif/corpus: every file main*.proto is an entry.
func corpusSchemas() []*schema {
	var out []*schema
	dirs, _ := filepath.Glob(filepath.Join(verifDir(), "corpus", "*"))
	for _, d := range dirs {
		fs := readTree(d)
		for _, n := range sortedKeys(fs) {
			if strings.HasPrefix(n, "main") {
				out = append(out, &schema{Name: "corpus/" + filepath.Base(d) + "/" + n, Files: fs, Entry: n})
			}
		}
	}
	return out
}

type devent struct {
	Input  int    `json:"input"`
	Dir    string `json:"dir"`
	Proc   string `json:"proc"`
	Answer string `json:"answer"`
	res    *WRes
	at     string
}

type dhist struct {
	Inputs  int       `json:"inputs"`
	Events  []*devent `json:"events"`
	schemas []*schema
}

// answerText is the whole answer with the directory taken out.
func answerText(r *WRes, dir string) string {
	c := *r
	c.Resolved = 0
	if c.Crash != "" {
		c.Crash = strings.SplitN(c.Crash, "\n", 2)[0]
	}
	b, err := json.MarshalIndent(&c, "", " ")
	must(err)
	return strings.ReplaceAll(string(b), dir, "DIR")
}

func firstDiff(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	i := 0
	for i < len(x) && i < len(y) && x[i] == y[i] {
		i++
	}
	cut := func(l []string) string {
		s := ""
		if i < len(l) {
			s = l[i]
		}
		return s
	}
	p, q := cut(x), cut(y)
	k := 0
	for k < len(p) && k < len(q) && p[k] == q[k] {
		k++
	}
	w := func(s string) string {
		lo, hi := max(0, k-200), min(len(s), k+400)
		return s[lo:hi]
	}
	return fmt.Sprintf("first: %s\nlater: %s", w(p), w(q))
}

func checkC03(c *Check) {
	c.Ev.Level = "model_checking"
	c.Ev.Assumptions = []string{
		"an answer is the proto compiler's verdict, the ordered errors and warnings with positions relative to the import path, and the generated Go files",
		"differences which depend on Go's map iteration order are met with high probability, not certainty, since each input is answered at least 8 times",
	}
	emit := "CONSTANTS Inputs = {1, 2}\n Dirs = {\"A\", \"B\"}\n Answers = {\"x\"}\n MaxLen = 4\nSPECIFICATION Spec\nINVARIANTS Inv Emit\nCHECK_DEADLOCK FALSE\n"
	res, err := tlc(c.Dir, "DeterminismGen", emit, nil, 10*time.Minute)
	must(err)
	c.addInt("states", res.States)
	var hs [][]*devent
	for _, l := range res.Lines {
		var h []*devent
		must(json.Unmarshal([]byte(l), &h))
		hs = append(hs, h)
	}
	if len(hs) != 4096 {
		must(fmt.Errorf("%d histories", len(hs)))
	}
	small := "CONSTANTS Inputs = {1, 2}\n Dirs = {\"A\"}\n Answers = {\"x\", \"y\"}\n MaxLen = 4\nSPECIFICATION Spec\nINVARIANTS Inv\nCHECK_DEADLOCK FALSE\n"
	res, err = tlc(c.Dir, "DeterminismGen", small, nil, 10*time.Minute)
	must(err)
	if res.Violated != "" {
		must(fmt.Errorf("the contract is not that of a function: %s", res.Violated))
	}
	c.addInt("states", res.States)

	rng := rand.New(rand.NewSource(c.Seed))
	valid, invalid, per := 16, 40, 5
	if c.thorough() {
		valid, invalid, per = 200, 1200, 16
	}
	var ss []*schema
	ss = append(ss, repoSchemas()...)
	ss = append(ss, corpusSchemas()...)
	be := beProto()
	add := func(name, text string) {
		ss = append(ss, &schema{Name: name, Files: map[string]string{"p.proto": text, "be/be.proto": be}, Entry: "p.proto"})
	}
	var progs []*Prog
	for i := 0; i < valid; i++ {
		p := genProg(c.Seed*7919+int64(i), "P0", baseK)
		progs = append(progs, p)
		add(fmt.Sprint("generated ", i), renderFile("p", []*Prog{p}))
	}
	progs = append(progs, sinkPrograms()...)
	for i := 0; i < invalid; i++ {
		p := progs[rng.Intn(len(progs))]
		add(fmt.Sprint("broken ", i), newTree(p).broken(rng, 2+rng.Intn(4)))
	}
	rng.Shuffle(len(ss), func(i, j int) { ss[i], ss[j] = ss[j], ss[i] })
	var hists []*dhist
	for i := 0; i < len(ss); i += 2 {
		h := &dhist{Inputs: 2, schemas: []*schema{ss[i], ss[(i+1)%len(ss)]}}
		for k := 0; k < per; k++ {
			for _, e := range hs[rng.Intn(len(hs))] {
				x := *e
				h.Events = append(h.Events, &x)
			}
		}
		hists = append(hists, h)
	}
	var wg sync.WaitGroup
	idx := make(chan int)
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range idx {
				h := hists[i]
				kept := newPool(1)
				for j, e := range h.Events {
					s := h.schemas[e.Input-1]
					dir := filepath.Join(c.Dir, "d", fmt.Sprint(i), e.Dir, fmt.Sprint(e.Input))
					req := &WReq{Dir: dir, Files: s.Files, Entry: []string{s.Entry}, Gen: true}
					if e.Proc == "kept" {
						e.res = kept.do(req)
					} else {
						e.res = kept.once(req)
					}
					e.at = dir
					sum := sha256.Sum256([]byte(answerText(e.res, dir)))
					e.Answer = fmt.Sprintf("%x", sum[:8])
					// keep the memory small
					same := false
					for _, o := range h.Events[:j] {
						if o.Input == e.Input && o.Answer == e.Answer {
							same = true
						}
					}
					if same {
						e.res = nil
					}
				}
				kept.close()
			}
		}()
	}
	for i := range hists {
		idx <- i
	}
	close(idx)
	wg.Wait()
	path := filepath.Join(c.Dir, "hist.ndjson")
	writeNDJSON(path, hists)
	res, err = tlc(c.Dir, "DeterminismTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", []string{"TRACE=" + path}, 10*time.Minute)
	must(err)
	c.addInt("states", res.States)
	seen := map[string]bool{}
	for _, l := range res.Lines {
		var b struct{ Bad, Event int }
		must(json.Unmarshal([]byte(l), &b))
		h := hists[b.Bad-1]
		e := h.Events[b.Event-1]
		s := h.schemas[e.Input-1]
		if e.res == nil || seen[s.Name] {
			continue
		}
		seen[s.Name] = true
		var f *devent
		for _, o := range h.Events {
			if o.Input == e.Input {
				f = o
				break
			}
		}
		hist := ""
		for _, o := range h.Events[:b.Event] {
			hist += fmt.Sprintf(" (%d,%s,%s)%s", o.Input, o.Dir, o.Proc, o.Answer)
		}
		c.violation(fmt.Sprintf("%s: two answers for the same files\n%s\nhistory:%s\n%s", s.Name, firstDiff(answerText(f.res, f.at), answerText(e.res, e.at)), hist, dumpFiles(s.Files)))
	}
	events, gen, bad := 0, 0, 0
	for _, h := range hists {
		events += len(h.Events)
		for i, s := range []int{1, 2} {
			for _, e := range h.Events {
				if e.Input == s && e.res != nil {
					switch {
					case e.res.OK() && e.res.GenErr == "":
						gen++
					default:
						bad++
						if e.res.Crash != "" || e.res.Hang || e.res.GenErr != "" {
							c.violation(fmt.Sprintf("%s: no answer: %s", h.schemas[i].Name, e.res))
						}
					}
					break
				}
			}
		}
	}
	c.addInt("schemas", len(ss))
	c.addInt("schemas_generated", gen)
	c.addInt("schemas_rejected", bad)
	c.addInt("answers", events)
	c.addInt("traces_validated_against_impl", len(hists))
	c.Ev.Coverage["samples"] = []any{hists[0].schemas[0].Name, hists[0].Events}
}
