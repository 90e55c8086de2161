package main

// C01: cyclic message dependencies, against spec/MsgGraph.tla.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"time"
)

func init() { otherChecks["C01"] = checkC01 }

type gcase struct {
	N     int     `json:"n"`
	Edges [][]any `json:"edges"`
	Res   string  `json:"res"`

	text map[string]string
	note string
}

// gPlaces are the places of a `message` definition; M is the message name, K a number unique in the message.
var gPlaces = map[string]string{
	"def":              `def { name: "d@K" message { name: "@M" @A } }`,
	"defif":            `def { name: "d@K" if: "false" message { name: "@M" @A } }`,
	"anon":             `def { message { name: "@M" @A } }`,
	"map":              `def { name: "l@K" by: "['a']" } def { name: "d@K" map { iterator { name: "it@K" src: "l@K" } message { name: "@M" @A } } }`,
	"callerr":          `def { call { method: "be.Backend/C0" error { def { name: "d@K" message { name: "@M" @A } } code: INTERNAL } } }`,
	"callerr2":         `def { call { method: "be.Backend/C0" error { if: "false" code: INTERNAL } error { def { name: "d@K" message { name: "@M" @A } } ignore: true } } }`,
	"callerrmap":       `def { call { method: "be.Backend/C0" error { def { name: "l@K" by: "['a']" } def { name: "d@K" map { iterator { name: "it@K" src: "l@K" } message { name: "@M" @A } } } code: INTERNAL } } }`,
	"calldetaildef":    `def { call { method: "be.Backend/C0" error { code: INTERNAL details { def { name: "d@K" message { name: "@M" @A } } by: "be.Item{s: 'a'}" } } } }`,
	"calldetailmsg":    `def { call { method: "be.Backend/C0" error { code: INTERNAL details { message { name: "@M" @A } } } } }`,
	"calldetail2msg":   `def { call { method: "be.Backend/C0" error { code: INTERNAL details { by: "be.Item{s: 'a'}" } details { if: "false" message { name: "@M" @A } } } } }`,
	"valdef":           `def { validation { error { def { name: "d@K" message { name: "@M" @A } } code: INTERNAL if: "false" } } }`,
	"valdetaildef":     `def { validation { error { code: INTERNAL details { if: "false" def { name: "d@K" message { name: "@M" @A } } by: "be.Item{s: 'a'}" } } } }`,
	"valdetailmsg":     `def { validation { error { code: INTERNAL details { if: "false" message { name: "@M" @A } } } } }`,
	"nestcallcall":     `def { call { method: "be.Backend/C0" error { code: INTERNAL def { name: "c@K" call { method: "be.Backend/C1" error { def { name: "d@K" message { name: "@M" @A } } code: ABORTED } } } } } }`,
	"nestcallval":      `def { call { method: "be.Backend/C0" error { code: INTERNAL def { validation { error { if: "false" code: ABORTED def { name: "d@K" message { name: "@M" @A } } } } } } } }`,
	"nestvaldetailval": `def { validation { error { if: "false" code: INTERNAL details { def { validation { error { if: "false" code: ABORTED details { message { name: "@M" @A } } } } } by: "be.Item{s: 'a'}" } } } }`,
	"ignresp":          `def { name: "r@K" call { method: "be.Backend/C0" error { def { name: "d@K" message { name: "@M" @A } } ignore_and_response: "be.Res{n: 1}" } } }`,
	// in the definitions of a oneof alternative
	"oneof":        `O:def { name: "d@K" message { name: "@M" @A } }`,
	"oneofmap":     `O:def { name: "l@K" by: "['a']" } def { name: "d@K" map { iterator { name: "it@K" src: "l@K" } message { name: "@M" @A } } }`,
	"oneofcallerr": `O:def { call { method: "be.Backend/C0" error { def { name: "d@K" message { name: "@M" @A } } code: INTERNAL } } }`,
	"oneofval":     `O:def { validation { error { if: "false" code: INTERNAL details { message { name: "@M" @A } } } } }`,
	"oneofdefault": `D:def { name: "d@K" message { name: "@M" @A } }`,
}

func gName(i int, nested, second map[int]bool, from int) string {
	n := fmt.Sprintf("M%d", i)
	if nested[i] {
		n = "Outer." + n
	}
	if second[i] {
		n = "q." + n
	}
	return n
}

// render writes the schema of a case.
func (g *gcase) render(rng *rand.Rand, pkg string) {
	places := sortedKeys(gPlaces)
	nested, second := map[int]bool{}, map[int]bool{}
	out := map[int][]int{}
	for i, e := range g.Edges {
		f, t := toInt(e[0]), toInt(e[1])
		if e[2] == "?" {
			g.Edges[i][2] = places[rng.Intn(len(places))]
		}
		out[f] = append(out[f], t)
	}
	layout := rng.Intn(6)
	if layout == 1 || layout == 2 {
		for i := 1; i <= g.N; i++ {
			nested[i] = rng.Intn(2) == 0
		}
	}
	if layout == 3 {
		// a set of messages closed under dependency goes to a second package
		start := 1 + rng.Intn(g.N)
		todo := []int{start}
		for len(todo) > 0 {
			x := todo[0]
			todo = todo[1:]
			if second[x] {
				continue
			}
			second[x] = true
			todo = append(todo, out[x]...)
		}
	}
	args := map[int]string{} // all users of a message pass the same arguments
	for i := 1; i <= g.N; i++ {
		if rng.Intn(3) == 0 {
			args[i] = `args { name: "a" by: "'v'" }`
		}
	}
	respIsNode := rng.Intn(3) == 0 && !second[1] && !nested[1]
	var msgs [3]strings.Builder // package p top level, nested, package q
	for i := 1; i <= g.N; i++ {
		var defs, alts []string
		deflt := ""
		for k, e := range g.Edges {
			if toInt(e[0]) != i {
				continue
			}
			s := strings.NewReplacer("@K", fmt.Sprint(k), "@M", gName(toInt(e[1]), nested, second, i), "@A", args[toInt(e[1])]).Replace(gPlaces[e[2].(string)])
			switch {
			case strings.HasPrefix(s, "O:"):
				alts = append(alts, fmt.Sprintf("    string x%d = %d [(grpc.federation.field).oneof = { if: \"false\" %s by: \"'a'\" }];", k, k+10, s[2:]))
			case strings.HasPrefix(s, "D:"):
				if deflt != "" { // one default only
					alts = append(alts, fmt.Sprintf("    string x%d = %d [(grpc.federation.field).oneof = { if: \"true\" %s by: \"'a'\" }];", k, k+10, s[2:]))
				} else {
					deflt = fmt.Sprintf("    string y = 3 [(grpc.federation.field).oneof = { default: true %s by: \"'b'\" }];", s[2:])
				}
			default:
				defs = append(defs, "    "+s)
			}
		}
		w := &msgs[0]
		if nested[i] {
			w = &msgs[1]
		}
		if second[i] {
			w = &msgs[2]
		}
		fmt.Fprintf(w, "message M%d {\n  option (grpc.federation.message) = {\n%s\n  };\n", i, strings.Join(defs, "\n"))
		fmt.Fprintf(w, "  string v = 1 [(grpc.federation.field).by = \"'x'\"];\n")
		if len(alts) > 0 || deflt != "" {
			if deflt == "" {
				deflt = "    string y = 3 [(grpc.federation.field).oneof = { default: true by: \"'b'\" }];"
			}
			fmt.Fprintf(w, "  oneof o {\n%s\n%s\n  }\n", strings.Join(alts, "\n"), deflt)
		}
		fmt.Fprintf(w, "}\n\n")
	}
	var w strings.Builder
	fmt.Fprintf(&w, "syntax = \"proto3\";\npackage %s;\nimport \"grpc/federation/federation.proto\";\nimport \"be/be.proto\";\n", pkg)
	if len(second) > 0 {
		fmt.Fprintf(&w, "import \"q.proto\";\n")
	}
	fmt.Fprintf(&w, "option go_package = \"vgen/%s;%s\";\n\nmessage Req {\n  string id = 1;\n}\n\n", pkg, pkg)
	resp := "R"
	if respIsNode {
		resp = "M1"
	}
	fmt.Fprintf(&w, "service F {\n  option (grpc.federation.service) = {};\n  rpc Get(Req) returns (%s) {}\n}\n\n", resp)
	if !respIsNode {
		fmt.Fprintf(&w, "message R {\n  option (grpc.federation.message) = {\n")
		k := 0
		for i := 1; i <= g.N; i++ {
			if rng.Intn(3) == 0 {
				fmt.Fprintf(&w, "    def { name: \"d%d\" message { name: \"%s\" %s } }\n", k, gName(i, nested, second, 0), args[i])
				k++
			}
		}
		fmt.Fprintf(&w, "  };\n  string v = 1 [(grpc.federation.field).by = \"'x'\"];\n}\n\n")
	}
	w.WriteString(msgs[0].String())
	if msgs[1].Len() > 0 {
		fmt.Fprintf(&w, "message Outer {\n%s}\n", msgs[1].String())
	}
	g.text = map[string]string{"p.proto": w.String(), "be/be.proto": beProto()}
	if len(second) > 0 {
		g.text["q.proto"] = "syntax = \"proto3\";\npackage q;\nimport \"grpc/federation/federation.proto\";\nimport \"be/be.proto\";\noption go_package = \"vgen/q;q\";\n\n" + msgs[2].String()
	}
}

func toInt(x any) int {
	switch v := x.(type) {
	case int:
		return v
	case float64:
		return int(v)
	}
	return 0
}

// verdict classifies what the resolver said.
func (g *gcase) verdict(r *WRes) {
	g.note = r.String()
	switch {
	case r.Crash != "":
		g.Res = "crash"
	case r.Hang:
		g.Res = "hang"
	case r.Compile != "":
		g.Res = "not compiled"
	case len(r.Errs) == 0 && r.GenErr != "":
		g.Res = "not generated"
	case len(r.Errs) == 0:
		g.Res = "accepted"
	default:
		g.Res = "rejected otherwise"
		for _, m := range r.Msgs {
			if strings.Contains(m, "cyclic dependency") || strings.Contains(m, "recursive definition") {
				g.Res = "cyclic"
			}
		}
	}
}

// writeNDJSON writes the values one a line.
func writeNDJSON[T any](path string, xs []T) {
	var w bytes.Buffer
	for _, x := range xs {
		b, err := json.Marshal(x)
		must(err)
		w.Write(b)
		w.WriteByte('\n')
	}
	must(os.WriteFile(path, w.Bytes(), 0o644))
}

func tlaSet(xs []string) string { return "{\"" + strings.Join(xs, "\", \"") + "\"}" }

func checkC01(c *Check) {
	c.Ev.Level = "model_checking"
	c.Ev.Assumptions = []string{
		"a cyclic-dependency error is an error whose text contains \"cyclic dependency\" or, for a message which refers to itself, \"recursive definition\"",
		"termination is judged by a limit of 60 s for a schema of a few messages",
	}
	pair := []string{"def", "map", "oneof", "callerr", "valdetailmsg"}
	if c.thorough() {
		pair = sortedKeys(gPlaces)
	}
	cfg := fmt.Sprintf("CONSTANTS MaxN = 3\n Places = %s\n PairPlaces = %s\nSPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n", tlaSet(sortedKeys(gPlaces)), tlaSet(pair))
	res, err := tlc(c.Dir, "MsgGraphGen", cfg, nil, 10*time.Minute)
	must(err)
	if res.Violated != "" {
		must(fmt.Errorf("the definitions of a cycle disagree: %s", res.Violated))
	}
	c.addInt("states", res.States)
	var cases []*gcase
	for _, l := range res.Lines {
		var g gcase
		must(json.Unmarshal([]byte(strings.ReplaceAll(l, "{}", "[]")), &g))
		cases = append(cases, &g)
	}
	if len(cases) < 500 {
		must(fmt.Errorf("TLC gave only %d cases", len(cases)))
	}
	enumerated := len(cases)
	rng := rand.New(rand.NewSource(c.Seed))
	random := 250
	if c.thorough() {
		random = 6000
	}
	places := sortedKeys(gPlaces)
	for i := 0; i < random; i++ {
		g := &gcase{N: 4 + rng.Intn(5), Edges: [][]any{}}
		p := rng.Intn(30) + 5
		acyc := rng.Intn(2) == 0
		perm := rng.Perm(g.N)
		for a := 0; a < g.N; a++ {
			for b := 0; b < g.N; b++ {
				if (acyc && a >= b) || rng.Intn(100) >= p {
					continue
				}
				g.Edges = append(g.Edges, []any{perm[a] + 1, perm[b] + 1, places[rng.Intn(len(places))]})
			}
		}
		if acyc && rng.Intn(2) == 0 && len(g.Edges) > 0 {
			// close one cycle
			e := g.Edges[rng.Intn(len(g.Edges))]
			g.Edges = append(g.Edges, []any{e[1], e[0], places[rng.Intn(len(places))]})
		}
		cases = append(cases, g)
	}
	pool := newPool(8)
	defer pool.close()
	var reqs []*WReq
	for i, g := range cases {
		g.render(rng, "p")
		reqs = append(reqs, &WReq{Dir: filepath.Join(c.Dir, "s", fmt.Sprint(i)), Files: g.text, Entry: []string{"p.proto"}})
	}
	for i, r := range pool.all(reqs) {
		cases[i].verdict(r)
	}
	path := filepath.Join(c.Dir, "graph.ndjson")
	writeNDJSON(path, cases)
	res, err = tlc(c.Dir, "MsgGraphTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", []string{"TRACE=" + path}, 10*time.Minute)
	must(err)
	c.addInt("states", res.States)
	counts := map[string]int{}
	for _, g := range cases {
		counts[g.Res]++
	}
	for _, l := range res.Lines {
		var b struct {
			Bad  int
			Want string
		}
		must(json.Unmarshal([]byte(l), &b))
		g := cases[b.Bad-1]
		js, _ := json.Marshal(g)
		c.violation(fmt.Sprintf("the resolver's verdict on a message graph is %q, the specification's %q\n%s\n%s\n%s", g.Res, b.Want, js, g.note, dumpFiles(g.text)))
	}
	c.addInt("schemas_enumerated", enumerated)
	c.addInt("schemas", len(cases))
	c.addInt("traces_validated_against_impl", len(cases)-len(c.bad))
	c.Ev.Coverage["verdicts"] = counts
	c.Ev.Coverage["places"] = places
	c.Ev.Coverage["samples"] = []any{cases[enumerated/2], cases[len(cases)-1]}
}

func dumpFiles(fs map[string]string) string {
	var w strings.Builder
	for _, n := range sortedKeys(fs) {
		if n == "be/be.proto" {
			continue
		}
		fmt.Fprintf(&w, "---- %s\n%s", n, fs[n])
	}
	return w.String()
}
