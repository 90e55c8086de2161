package main

// R15: values through the conversions of spec/ConvCases.tla, judged by spec/Conv.tla.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

func init() { otherChecks["R15"] = checkR15 }

type convVal struct {
	M string   `json:"m"`
	E []string `json:"e"`
}

// mayReject is MayReject of spec/ConvCases.tla.
func (c *ConvCase) mayReject() bool {
	in := func(s string, xs ...string) bool {
		for _, x := range xs {
			if s == x {
				return true
			}
		}
		return false
	}
	enum := func(t string) bool { return in(t, "K", "L", "M") }
	switch {
	case in(c.From, "W", "int64") && in(c.To, "W", "int64") && c.From != c.To:
		return true
	case enum(c.From) && enum(c.To) && in(c.SFrom, "rep", "mapv") && in(c.Place, "arg", "field", "inline", "mapel", "request"):
		return true
	case enum(c.From) && !enum(c.To) && in(c.Place, "alias", "falias", "ralias"):
		return true
	}
	return c.From == "M" && c.To == "K"
}

var (
	convPkgRe = regexp.MustCompile(`\b(up|fed)\.v1\b`)
	convGoRe  = regexp.MustCompile(`vgen/(up|fed);(up|fed)`)
)

// convBatch renders cases as the package of batch n.
func convBatch(n int, cs []*ConvCase) map[string]string {
	out := map[string]string{}
	for f, t := range convSchema(cs) {
		t = convPkgRe.ReplaceAllString(t, fmt.Sprintf("${1}%d.v1", n))
		t = convGoRe.ReplaceAllString(t, fmt.Sprintf("vgen/c%d/$1;$2", n))
		t = strings.Replace(t, `"up.proto"`, fmt.Sprintf(`"c%d/up.proto"`, n), 1)
		out[fmt.Sprintf("c%d/%s", n, f)] = t
	}
	return out
}

func convMain(n int) string {
	var imp, reg strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&imp, "\tfed%d \"vgen/c%d/fed\"\n\tup%d \"vgen/c%d/up\"\n", i, i, i, i)
		fmt.Fprintf(&reg, `	{
		svc, err := fed%d.NewF(fed%d.FConfig{Client: client%d{}})
		if err != nil {
			panic(err)
		}
		r := &reg{}
		fed%d.RegisterFServer(r, svc)
		services["c%d"] = r
	}
`, i, i, i, i, i)
	}
	var types strings.Builder
	for i := 0; i < n; i++ {
		fmt.Fprintf(&types, `
type client%d struct{}

func (client%d) Up%d_V1_UpClient(fed%d.FClientConfig) (up%d.UpClient, error) {
	return up%d.NewUpClient(conn{}), nil
}
`, i, i, i, i, i, i)
	}
	return "package main\n\nimport (\n" + imp.String() + ")\n" + types.String() + "\nfunc register() {\n" + reg.String() + "}\n"
}

func checkR15(c *Check) {
	c.Ev.Level = "model_checking"
	c.Ev.Assumptions = []string{"the dependency is a stand-in that answers with the given value and keeps what it is sent", "a conversion the resolver may refuse (MayReject of spec/ConvCases.tla) is not run; that accepted ones compile is C04"}
	all := convCases(c)
	c.Ev.Coverage["conversions"] = len(all)
	var cases []*ConvCase
	for _, x := range all {
		if !x.mayReject() {
			cases = append(cases, x)
		}
	}
	rng := rand.New(rand.NewSource(c.Seed))
	rng.Shuffle(len(cases), func(i, j int) { cases[i], cases[j] = cases[j], cases[i] })
	if only := os.Getenv("CONVONLY"); only != "" {
		var xs []*ConvCase
		for _, x := range cases {
			if strings.Contains(x.String(), only) {
				xs = append(xs, x)
			}
		}
		cases = xs
	}
	size, batches := 60, 7
	cases = spread(cases)
	for round := 0; len(cases) > 0; round++ {
		n := size * batches
		if n > len(cases) {
			n = len(cases)
		}
		c.convRound(round, cases[:n], size)
		cases = cases[n:]
		if !c.thorough() || time.Since(c.Start) > c.budget() || len(c.bad) > 0 {
			break
		}
	}
}

// spread puts cases first that bring a new pair of types, or a new shape at a place.
func spread(cs []*ConvCase) []*ConvCase {
	seen := map[string]int{}
	var rest, out []*ConvCase
	alias := func(p string) string {
		switch p {
		case "alias", "falias", "ralias":
			return "getter"
		}
		return "cel"
	}
	for _, x := range cs {
		keys := []string{"t " + alias(x.Place) + " " + x.From + " " + x.To, "s " + x.Place + " " + x.SFrom + " " + x.STo + " " + x.Src}
		fresh := false
		for _, k := range keys {
			if seen[k] == 0 {
				fresh = true
			}
		}
		if !fresh {
			rest = append(rest, x)
			continue
		}
		for _, k := range keys {
			seen[k]++
		}
		out = append(out, x)
	}
	return append(out, rest...)
}

func (c *Check) convRound(round int, cases []*ConvCase, size int) {
	dir := filepath.Join(c.Dir, fmt.Sprintf("r%d", round))
	must(os.MkdirAll(dir, 0o755))
	s := newScratch(filepath.Join(dir, "m"))
	var batches [][]*ConvCase
	for i := 0; i < len(cases); i += size {
		batches = append(batches, cases[i:min(i+size, len(cases))])
	}
	for i, b := range batches {
		for f, t := range convBatch(i, b) {
			s.write("proto/"+f, t)
		}
	}
	if err := s.generate(); err != nil {
		c.violation("the conversions of this check cannot be generated\n" + err.Error())
		return
	}
	src, err := os.ReadFile(filepath.Join(verifDir(), "vh", "convdrv", "main.go.txt"))
	must(err)
	s.write("convdrv/main.go", string(src))
	s.write("convdrv/register.go", convMain(len(batches)))
	bin := filepath.Join(dir, "convdrv")
	built := make(chan error, 1)
	go func() { built <- s.gobuild(false, bin, "./convdrv") }()

	// the inputs, from the specification
	cfile := filepath.Join(dir, "cases.ndjson")
	writeNDJSON(cfile, cases)
	env := []string{"CONV_CASES=" + cfile}
	res, err := tlc(c.Dir, "ConvGen", "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", env, 10*time.Minute)
	must(err)
	if res.Violated != "" {
		must(fmt.Errorf("ConvGen: %s\n%s", res.Violated, tail(res.Out, 3000)))
	}
	c.addInt("states", res.States)
	type job struct {
		I  int
		In convVal
	}
	var jobs []job
	var in bytes.Buffer
	for _, l := range res.Lines {
		var g struct {
			I  int       `json:"i"`
			In []convVal `json:"in"`
		}
		must(json.Unmarshal([]byte(l), &g))
		x := cases[g.I-1]
		for _, v := range g.In {
			if v.E == nil {
				v.E = []string{}
			}
			jobs = append(jobs, job{g.I, v})
			b, err := json.Marshal(map[string]any{"pkg": fmt.Sprintf("c%d", (g.I-1)/size), "method": (g.I - 1) % size, "from": x.From, "to": x.To, "sfrom": x.SFrom, "sto": x.STo, "src": x.Src, "place": x.Place, "in": v})
			must(err)
			in.Write(append(b, '\n'))
		}
	}
	if err := <-built; err != nil {
		c.violation("the conversions of this check cannot be compiled\n" + err.Error())
		return
	}
	cmd := exec.Command(bin)
	cmd.Stdin = &in
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Run(); err != nil {
		c.violation("the process of the generated services died\n" + err.Error() + "\n" + tail(errb.String(), 4000))
		return
	}
	type result struct {
		Out convVal
		Err string
		Msg string
	}
	var results []result
	var rows []any
	for _, l := range strings.Split(strings.TrimSpace(out.String()), "\n") {
		var r result
		must(json.Unmarshal([]byte(l), &r))
		results = append(results, r)
		j := jobs[len(results)-1]
		if r.Out.E == nil {
			r.Out.E = []string{}
		}
		rows = append(rows, map[string]any{"i": j.I, "in": j.In, "out": r.Out})
		c.addInt("result_"+r.Out.M, 1)
	}
	if len(results) != len(jobs) {
		must(fmt.Errorf("%d results of %d", len(results), len(jobs)))
	}
	c.addInt("cases_run", len(cases))
	c.addInt("values", len(jobs))
	tfile := filepath.Join(dir, "trace.ndjson")
	writeNDJSON(tfile, rows)
	res, err = tlc(c.Dir, "ConvTrace", "SPECIFICATION Spec\nINVARIANT Judge\nCHECK_DEADLOCK FALSE\n", append(env, "CONV_TRACE="+tfile), 10*time.Minute)
	must(err)
	c.addInt("states", res.States)
	for _, l := range res.Lines {
		var b struct {
			Bad     int       `json:"bad"`
			Allowed []convVal `json:"allowed"`
		}
		must(json.Unmarshal([]byte(l), &b))
		j, r := jobs[b.Bad-1], results[b.Bad-1]
		x := cases[j.I-1]
		var files strings.Builder
		for f, t := range convSchema([]*ConvCase{x}) {
			fmt.Fprintf(&files, "---- %s\n%s\n", f, t)
		}
		allowed, _ := json.Marshal(b.Allowed)
		given, _ := json.Marshal(j.In)
		got, _ := json.Marshal(r.Out)
		c.violationAt("conversion of "+x.String(), fmt.Sprintf("conversion of %s: %s became %s %s, allowed are %s\nresponse: %s\n\n%s", x, given, got, r.Err, allowed, r.Msg, files.String()))
	}
}
