package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// R18: start-up of services (spec/StartUp.tla).

func init() { otherChecks["R18"] = checkR18 }

type suKind struct {
	C string `json:"c"`
	K string `json:"k"`
}

func one(k string) suKind { return suKind{"one", k} }

type suEnv struct {
	Name string `json:"name"`
	Key  string `json:"key"`
	Kind suKind `json:"kind"`
	Def  string `json:"def"`
	Req  bool   `json:"req"`
	Ign  bool   `json:"ign"`
	alt  string
}

type suExpr struct {
	Op string    `json:"op"`
	N  string    `json:"n"`
	A  []*suExpr `json:"a"`
	k  suKind
}

type suVar struct {
	Name string  `json:"name"`
	Form string  `json:"form"`
	Kind suKind  `json:"kind"`
	Cond *suExpr `json:"cond"`
	By   *suExpr `json:"by"`
	Msg  *suExpr `json:"msg"`
	Src  string  `json:"src"`
}

type suProg struct {
	Env  []*suEnv `json:"env"`
	Vars []*suVar `json:"vars"`
	Dep  bool     `json:"dep"`
	// the fields of the response also stand in a message it depends on
	nested bool
	// the environment is declared by a message
	message bool
}

type suKV struct {
	K string `json:"k"`
	T string `json:"t"`
}

type suCase struct {
	P     int      `json:"p"`
	OS    []suKV   `json:"os"`
	After []suKV   `json:"after"`
	Cfg   string   `json:"cfg"`
	Fails []string `json:"fails"`
	Clear []string `json:"clear"`
}

var suGood = map[string][]string{
	"string":   {"x", "", "a b", "abc", "r1", "0", "True"},
	"bool":     {"1", "t", "T", "true", "TRUE", "True", "0", "f", "F", "false", "FALSE", "False"},
	"int":      {"0", "7", "-3", "+5", "007", "0x1F", "0b101", "0o17", "31", "9223372036854775807", "-9223372036854775808", "-0", "-0x10", "100"},
	"uint":     {"0", "3", "18446744073709551615", "0x10", "017", "42", "0XfF"},
	"double":   {"1.5", "-2", "0.25", "1e3", "2E-2", ".5", "5.", "100", "-12.50e+1", "0", "7"},
	"duration": {"1s", "1h30m", "1.5s", "20ms", "-2m", "0", "+3s", "1.5h", "0.5m", "1m0.25s", "90s"},
}

var suBad = map[string][]string{
	"bool":     {"yes", "2", "tRUE", "", " true", "truee"},
	"int":      {"9223372036854775808", "-9223372036854775809", "1.5", "abc", " 1", "08", "", "1e3", "--1", "0x", "-"},
	"uint":     {"-1", "+1", "18446744073709551616", "", "x", "1 "},
	"double":   {"x", "", "1.2.3", "e5", "1,5", "1e"},
	"duration": {"5", "1x", "", "s", "1s2", "1 s", "-"},
}

func suText(rng *rand.Rand, k suKind, good bool) string {
	pick := func(xs []string) string { return xs[rng.Intn(len(xs))] }
	if k.C == "one" {
		if good || k.K == "string" {
			return pick(suGood[k.K])
		}
		return pick(suBad[k.K])
	}
	n := 1 + rng.Intn(3)
	bad := -1
	if !good && (k.K != "string" || k.C == "map") {
		bad = rng.Intn(n)
	}
	if good && rng.Intn(6) == 0 {
		return ""
	}
	var xs []string
	for i := 0; i < n; i++ {
		e := pick(suGood[k.K])
		if i == bad && k.K != "string" && (k.C == "list" || rng.Intn(3) > 0) {
			for e = pick(suBad[k.K]); strings.Contains(e, ",") || n == 1 && strings.TrimSpace(e) == ""; {
				e = pick(suBad[k.K])
			}
		}
		if k.C == "map" {
			key := []string{"a", "b", "c", ""}[rng.Intn(4)]
			p := key + ":" + e
			if i == bad && (k.K == "string" || p == key+":"+e && contains(suGood[k.K], e)) {
				p = []string{"a", "a:b:c", "::", "a=b"}[rng.Intn(4)]
			}
			e = p
		}
		xs = append(xs, e)
	}
	return strings.Join(xs, ",")
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

// ---- proto text

func (k suKind) proto() string {
	t := map[string]string{"string": "string", "bool": "bool", "int": "int64", "uint": "uint64", "double": "double", "duration": "google.protobuf.Duration", "msg": "string", "n": "int64"}[k.K]
	switch k.C {
	case "list":
		return "repeated " + t
	case "map":
		return "map<string, " + t + ">"
	}
	return t
}

func (k suKind) envType() string {
	t := map[string]string{"string": "STRING", "bool": "BOOL", "int": "INT64", "uint": "UINT64", "double": "DOUBLE", "duration": "DURATION"}[k.K]
	switch k.C {
	case "list":
		return "repeated { kind: " + t + " }"
	case "map":
		return "map { key { kind: STRING } value { kind: " + t + " } }"
	}
	return "kind: " + t
}

func (e *suExpr) cel() string {
	switch e.Op {
	case "lit":
		switch e.k.K {
		case "string":
			return "'" + e.N + "'"
		case "uint":
			return e.N + "u"
		}
		return e.N
	case "env":
		return "grpc.federation.env." + e.N
	case "var":
		return e.N
	case "iter":
		return "it"
	}
	a := func(i int) string { return e.A[i].cel() }
	switch e.Op {
	case "out":
		return a(0) + ".out"
	case "eq":
		return "(" + a(0) + " == " + a(1) + ")"
	case "not":
		return "!" + a(0)
	case "and":
		return "(" + a(0) + " && " + a(1) + ")"
	case "or":
		return "(" + a(0) + " || " + a(1) + ")"
	case "cond":
		return "(" + a(0) + " ? " + a(1) + " : " + a(2) + ")"
	case "size":
		return "size(" + a(0) + ")"
	case "idx":
		return a(0) + "[" + e.N + "]"
	case "mapidx":
		return a(0) + "['" + e.N + "']"
	case "inl":
		return "(" + a(0) + " in " + a(1) + ")"
	case "inm":
		return "('" + e.N + "' in " + a(0) + ")"
	case "cat", "catl", "add":
		return "(" + a(0) + " + " + a(1) + ")"
	case "div":
		return "(" + a(0) + " / " + a(1) + ")"
	}
	panic(e.Op)
}

func (p *suProg) render(i int) string {
	var b strings.Builder
	pf := func(f string, a ...any) { fmt.Fprintf(&b, f, a...) }
	pf("syntax = \"proto3\";\npackage p%d;\nimport \"grpc/federation/federation.proto\";\nimport \"google/protobuf/duration.proto\";\nimport \"up/up.proto\";\noption go_package = \"vgen/p%d;p%d\";\n", i, i, i)
	pf("service S {\n  option (grpc.federation.service) = {\n")
	opts := func(e *suEnv) []string {
		var o []string
		if e.alt != "" {
			o = append(o, fmt.Sprintf("alternate: %q", e.alt))
		}
		if e.Def != "" {
			o = append(o, fmt.Sprintf("default: %q", e.Def))
		}
		if e.Req {
			o = append(o, "required: true")
		}
		if e.Ign {
			o = append(o, "ignored: true")
		}
		return o
	}
	switch {
	case len(p.Env) == 0:
	case p.message:
		pf("    env { message: \"Env\" }\n")
	default:
		pf("    env {\n")
		for _, e := range p.Env {
			pf("      var { name: %q type { %s }", e.Name, e.Kind.envType())
			if o := opts(e); len(o) > 0 {
				pf(" option { %s }", strings.Join(o, " "))
			}
			pf(" }\n")
		}
		pf("    }\n")
	}
	for _, v := range p.Vars {
		pf("    var {")
		if v.Form != "val" {
			pf(" name: %q", v.Name)
		}
		if v.Cond.Op != "none" {
			pf(" if: %q", v.Cond.cel())
		}
		switch v.Form {
		case "by":
			pf(" by: %q", v.By.cel())
		case "map":
			pf(" map { iterator { name: \"it\" src: %q } by: %q }", v.Src, v.By.cel())
		case "msg":
			pf(" message { name: \"M\" args { name: \"a\" by: %q } }", v.By.cel())
		case "val":
			pf(" validation { if: %q message: %q }", v.By.cel(), v.Msg.cel())
		}
		pf(" }\n")
	}
	pf("  };\n  rpc Get(GetReq) returns (GetRep) {};\n}\nmessage GetReq {}\n")
	if p.message && len(p.Env) > 0 {
		pf("message Env {\n")
		for j, e := range p.Env {
			pf("  %s %s = %d", e.Kind.proto(), e.Name, j+1)
			if o := opts(e); len(o) > 0 {
				pf(" [(grpc.federation.field).env = { %s }]", strings.Join(o, " "))
			}
			pf(";\n")
		}
		pf("}\n")
	}
	if p.Dep {
		pf(`message M {
  option (grpc.federation.message) = {
    def { name: "res" call { method: "up.v1.Up/Do" request { field: "id" by: "$.a" } } }
  };
  string out = 1 [(grpc.federation.field).by = "res.out"];
}
`)
	}
	fields := func() {
		n := 0
		for _, e := range p.Env {
			n++
			pf("  %s f%d = %d [(grpc.federation.field).by = %q];\n", e.Kind.proto(), n, n, "grpc.federation.env."+e.Name)
		}
		for _, v := range p.Vars {
			if v.Form == "val" {
				continue
			}
			n++
			suffix := ""
			if v.Kind.K == "msg" {
				suffix = ".out"
			}
			pf("  %s f%d = %d [(grpc.federation.field).by = %q];\n", v.Kind.proto(), n, n, "grpc.federation.var."+v.Name+suffix)
		}
	}
	if !p.nested {
		pf("message GetRep {\n  option (grpc.federation.message) = {};\n")
		fields()
		pf("}\n")
		return b.String()
	}
	pf("message N {\n  option (grpc.federation.message) = {};\n")
	fields()
	pf("}\nmessage GetRep {\n  option (grpc.federation.message) = { def { name: \"inner\" message { name: \"N\" } } };\n")
	fields()
	pf("  N n_in = 1000 [(grpc.federation.field).by = \"inner\"];\n}\n")
	return b.String()
}

const suUp = `syntax = "proto3";
package up.v1;
option go_package = "vgen/up;up";
service Up { rpc Do(DoReq) returns (DoRep) {} }
message DoReq { string id = 1; }
message DoRep { string out = 1; }
`

func suMain(progs []*suProg) string {
	var imp, reg strings.Builder
	for i, p := range progs {
		fmt.Fprintf(&imp, "\tp%d \"vgen/p%d\"\n", i, i)
		cfg := fmt.Sprintf("p%d.SConfig{}", i)
		if p.Dep {
			fmt.Fprintf(&reg, "type client%d struct{ client }\n\nfunc (c client%d) Up_V1_UpClient(p%d.SClientConfig) (up.UpClient, error) { return c.upClient() }\n\n", i, i, i)
			fmt.Fprintf(&reg, "func cfg%d(r *run) p%d.SConfig {\n\tif r.req.Cfg == \"noclient\" {\n\t\treturn p%d.SConfig{}\n\t}\n\treturn p%d.SConfig{Client: client%d{client{r}}}\n}\n", i, i, i, i, i)
			cfg = fmt.Sprintf("cfg%d(r)", i)
		}
		fmt.Fprintf(&reg, "func new%d(r *run) (*reg, error) {\n\tsvc, err := p%d.NewS(%s)\n\tif err != nil {\n\t\treturn nil, err\n\t}\n\tg := &reg{}\n\tp%d.RegisterSServer(g, svc)\n\treturn g, nil\n}\n\n", i, i, cfg, i)
	}
	reg.WriteString("func register() {\n")
	for i := range progs {
		fmt.Fprintf(&reg, "\tservices[%d] = new%d\n", i+1, i)
	}
	reg.WriteString("}\n\nvar _ up.UpClient\n")
	return "package main\n\nimport (\n\tup \"vgen/up\"\n" + imp.String() + ")\n\n" + reg.String()
}

// ---- random programs

type suGen struct {
	*rand.Rand
	p    *suProg
	iter *suKind
	vars int // how many variables are visible
}

var suScalars = []string{"string", "bool", "int", "uint", "double", "duration"}

func (g *suGen) leaves(k suKind) []*suExpr {
	var out []*suExpr
	for _, e := range g.p.Env {
		if e.Kind == k {
			out = append(out, &suExpr{Op: "env", N: e.Name, A: []*suExpr{}, k: k})
		}
	}
	for _, v := range g.p.Vars[:g.vars] {
		if v.Form != "val" && v.Kind == k {
			out = append(out, &suExpr{Op: "var", N: v.Name, A: []*suExpr{}, k: k})
		}
	}
	if g.iter != nil && *g.iter == k {
		out = append(out, &suExpr{Op: "iter", A: []*suExpr{}, k: k})
	}
	return out
}

func (g *suGen) lit(k suKind) *suExpr {
	e := &suExpr{Op: "lit", A: []*suExpr{}, k: k}
	switch k.K {
	case "string":
		e.N = []string{"x", "", "a b", "z", "r1"}[g.Intn(5)]
	case "bool":
		e.N = []string{"true", "false"}[g.Intn(2)]
	case "int", "n":
		e.N = []string{"0", "7", "31", "2"}[g.Intn(4)]
	case "uint":
		e.N = []string{"0", "3", "42"}[g.Intn(3)]
	default:
		return nil
	}
	if k.C != "one" {
		return nil
	}
	return e
}

func (g *suGen) op(op, n string, k suKind, a ...*suExpr) *suExpr {
	for _, x := range a {
		if x == nil {
			return nil
		}
	}
	return &suExpr{Op: op, N: n, A: a, k: k}
}

// expr makes an expression of a kind, or nil if there is none
func (g *suGen) expr(k suKind, depth int) *suExpr {
	for try := 0; try < 6; try++ {
		var e *suExpr
		ls := g.leaves(k)
		switch n := g.Intn(10); {
		case depth == 0 || n < 4:
			if len(ls) > 0 && g.Intn(5) > 0 {
				e = ls[g.Intn(len(ls))]
			} else {
				e = g.lit(k)
			}
		case n == 4:
			e = g.op("cond", "", k, g.expr(one("bool"), depth-1), g.expr(k, depth-1), g.expr(k, depth-1))
		case n == 5 && k.C == "one" && k.K != "n" && k.K != "msg":
			e = g.op("idx", []string{"0", "1", "2"}[g.Intn(3)], k, g.expr(suKind{"list", k.K}, depth-1))
		case n == 6 && k.C == "one" && k.K != "n" && k.K != "msg":
			e = g.op("mapidx", []string{"a", "b", "c"}[g.Intn(3)], k, g.expr(suKind{"map", k.K}, depth-1))
		default:
			switch {
			case k.C == "list":
				e = g.op("catl", "", k, g.expr(k, depth-1), g.expr(k, depth-1))
			case k == one("string"):
				if g.Intn(3) == 0 {
					e = g.op("out", "", k, g.expr(one("msg"), 0))
				} else {
					e = g.op("cat", "", k, g.expr(k, depth-1), g.expr(k, depth-1))
				}
			case k == one("n"):
				switch g.Intn(4) {
				case 0:
					e = g.op("add", "", k, g.expr(k, depth-1), g.expr(k, depth-1))
				case 1:
					e = g.op("div", "", k, g.expr(k, depth-1), g.expr(k, depth-1))
				default:
					c := []string{"one", "list", "map"}[g.Intn(3)]
					s := "string"
					if c != "one" {
						s = suScalars[g.Intn(len(suScalars))]
					}
					e = g.op("size", c, k, g.expr(suKind{c, s}, depth-1))
				}
			case k == one("bool"):
				s := suScalars[g.Intn(len(suScalars))]
				switch g.Intn(7) {
				case 0:
					e = g.op("not", "", k, g.expr(k, depth-1))
				case 1:
					e = g.op("and", "", k, g.expr(k, depth-1), g.expr(k, depth-1))
				case 2:
					e = g.op("or", "", k, g.expr(k, depth-1), g.expr(k, depth-1))
				case 3:
					e = g.op("inl", "", k, g.expr(one(s), depth-1), g.expr(suKind{"list", s}, depth-1))
				case 4:
					e = g.op("inm", []string{"a", "b"}[g.Intn(2)], k, g.expr(suKind{"map", s}, depth-1))
				default:
					x := one(s)
					if g.Intn(3) == 0 {
						x = one("n")
					}
					e = g.op("eq", "", k, g.expr(x, depth-1), g.expr(x, depth-1))
				}
			}
		}
		if e != nil {
			return e
		}
	}
	return nil
}

func (g *suGen) kind() suKind {
	return suKind{[]string{"one", "one", "one", "list", "map"}[g.Intn(5)], suScalars[g.Intn(len(suScalars))]}
}

func (g *suGen) envs(n int) {
	for i := 0; i < n; i++ {
		e := &suEnv{Name: fmt.Sprintf([]string{"vq_a%d", "vqB%d", "vq_long_name_%d", "vqx%d"}[g.Intn(4)], i), Kind: g.kind()}
		if g.Intn(4) == 0 {
			e.alt = fmt.Sprintf("VQ_ALT_%d", g.Intn(2*n))
		}
		if g.Intn(3) == 0 {
			e.Def = suText(g.Rand, e.Kind, g.Intn(12) > 0)
		}
		e.Req = g.Intn(4) == 0
		e.Ign = g.Intn(8) == 0
		g.p.Env = append(g.p.Env, e)
	}
	g.p.finish()
}

func (p *suProg) finish() {
	for _, e := range p.Env {
		e.Key = strings.ToUpper(e.Name)
		if e.alt != "" {
			e.Key = strings.ToUpper(e.alt)
		}
	}
}

func suRandom(rng *rand.Rand) *suProg {
	p := &suProg{Env: []*suEnv{}, Vars: []*suVar{}, message: rng.Intn(2) == 0, nested: rng.Intn(3) == 0}
	g := &suGen{Rand: rng, p: p}
	if rng.Intn(10) > 0 {
		g.envs(2 + rng.Intn(6))
	}
	n := 1 + rng.Intn(7)
	for i := 0; i < n; i++ {
		g.vars = len(p.Vars)
		v := &suVar{Name: fmt.Sprintf([]string{"v%d", "myVar%d", "a_var_%d"}[rng.Intn(3)], i), Cond: &suExpr{Op: "none", A: []*suExpr{}}, By: &suExpr{Op: "none", A: []*suExpr{}}, Msg: &suExpr{Op: "none", A: []*suExpr{}}}
		if rng.Intn(3) == 0 {
			if c := g.expr(one("bool"), 2); c != nil {
				v.Cond = c
			}
		}
		switch x := rng.Intn(10); {
		case x < 2:
			v.Form, v.Kind = "val", one("bool")
			v.By, v.Msg = g.expr(one("bool"), 3), g.expr(one("string"), 2)
		case x < 4:
			v.Form, v.Kind = "msg", one("msg")
			v.By = g.expr(one("string"), 2)
		case x < 6:
			var srcs []*suVar
			for _, s := range p.Vars {
				if s.Kind.C == "list" && s.Form != "val" {
					srcs = append(srcs, s)
				}
			}
			if len(srcs) > 0 {
				src := srcs[rng.Intn(len(srcs))]
				k := one(src.Kind.K)
				g.iter = &k
				v.Form, v.Src = "map", src.Name
				to := one(append(suScalars, "n")[rng.Intn(7)])
				v.Kind = suKind{"list", to.K}
				v.By = g.expr(to, 3)
				g.iter = nil
				break
			}
			fallthrough
		default:
			v.Form, v.Kind = "by", g.kind()
			if rng.Intn(5) == 0 {
				v.Kind = one("n")
			}
			v.By = g.expr(v.Kind, 3)
		}
		if v.By == nil || v.Msg == nil {
			continue
		}
		p.Dep = p.Dep || v.Form == "msg"
		p.Vars = append(p.Vars, v)
	}
	return p
}

func (p *suProg) clear() []string {
	set := map[string]bool{}
	for _, e := range p.Env {
		set[strings.ToUpper(e.Name)] = true
		set[e.Key] = true
	}
	return sortedKeys(set)
}

func kvs(m map[string]string) []suKV {
	out := []suKV{}
	for k, t := range m {
		out = append(out, suKV{k, t})
	}
	sort.Slice(out, func(i, j int) bool { return out[i].K < out[j].K })
	return out
}

// a random environment of a program
func (p *suProg) environment(rng *rand.Rand, i int) *suCase {
	m, after := map[string]string{}, map[string]string{}
	bad := -1
	if rng.Intn(5) == 0 && len(p.Env) > 0 {
		bad = rng.Intn(len(p.Env))
	}
	for j, e := range p.Env {
		if _, ok := m[e.Key]; (!ok || j == bad) && (j == bad || rng.Intn(4) > 0 || e.Req && e.Def == "" && rng.Intn(8) > 0) {
			m[e.Key] = suText(rng, e.Kind, j != bad)
		}
		if n := strings.ToUpper(e.Name); n != e.Key && rng.Intn(2) == 0 {
			m[n] = suText(rng, e.Kind, true)
		}
		if rng.Intn(3) > 0 {
			after[e.Key] = suText(rng, e.Kind, rng.Intn(3) > 0)
		}
	}
	c := &suCase{P: i, OS: kvs(m), After: kvs(after), Cfg: "full", Fails: []string{}, Clear: p.clear()}
	if p.Dep {
		switch rng.Intn(12) {
		case 0:
			c.Cfg = "noclient"
		case 1:
			c.Cfg = "failclient"
		case 2, 3:
			c.Fails = [][]string{{"x"}, {"r1", "rx"}, {""}, {"rz", "abc"}}[rng.Intn(4)]
		}
	}
	return c
}

// the specification's declarations and states, several declarations to a program
func (c *Check) suEnumerated(rng *rand.Rand) ([]*suProg, []*suCase) {
	res, err := tlc(c.Dir, "StartGen", "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", nil, 5*time.Minute)
	must(err)
	c.addInt("states", res.States)
	type decl struct {
		Kind suKind `json:"kind"`
		Alt  bool   `json:"alt"`
		Def  string `json:"def"`
		Req  bool   `json:"req"`
		Ign  bool   `json:"ign"`
	}
	type state struct {
		Key   string `json:"key"`
		Other bool   `json:"other"`
	}
	states := map[decl][]state{}
	for _, l := range res.Lines {
		var g struct {
			D decl  `json:"d"`
			O state `json:"os"`
		}
		must(json.Unmarshal([]byte(l), &g))
		states[g.D] = append(states[g.D], g.O)
	}
	var ds []decl
	for d := range states {
		ds = append(ds, d)
	}
	sort.Slice(ds, func(i, j int) bool { return fmt.Sprint(ds[i]) < fmt.Sprint(ds[j]) })
	c.Ev.Coverage["declarations"] = len(ds)
	rng.Shuffle(len(ds), func(i, j int) { ds[i], ds[j] = ds[j], ds[i] })
	size := 16
	var progs []*suProg
	var cases []*suCase
	for i := 0; i < len(ds); i += size {
		p := &suProg{Env: []*suEnv{}, Vars: []*suVar{}, message: len(progs)%2 == 1}
		group := ds[i:min(i+size, len(ds))]
		for j, d := range group {
			e := &suEnv{Name: fmt.Sprintf("vq%d", j), Kind: d.Kind, Req: d.Req, Ign: d.Ign}
			if d.Alt {
				e.alt = fmt.Sprintf("VQALT%d", j)
			}
			if d.Def != "none" {
				for e.Def == "" {
					e.Def = suText(rng, d.Kind, d.Def == "good")
				}
			}
			p.Env = append(p.Env, e)
		}
		p.finish()
		progs = append(progs, p)
		for j, d := range group {
			for _, s := range states[d] {
				m := map[string]string{}
				for k, e := range p.Env {
					if k != j {
						if e.Req || group[k].Def == "bad" || rng.Intn(2) == 0 {
							m[e.Key] = suText(rng, e.Kind, true)
						}
						continue
					}
					switch s.Key {
					case "good", "bad":
						m[e.Key] = suText(rng, e.Kind, s.Key == "good")
					case "empty":
						m[e.Key] = ""
					case "blank":
						m[e.Key] = "  "
					}
					if s.Other {
						m[strings.ToUpper(e.Name)] = suText(rng, e.Kind, rng.Intn(2) == 0)
					}
				}
				cases = append(cases, &suCase{P: len(progs), OS: kvs(m), After: []suKV{}, Cfg: "full", Fails: []string{}, Clear: p.clear()})
			}
		}
	}
	return progs, cases
}

func checkR18(c *Check) {
	c.Ev.Level = "model_checking"
	c.Ev.Assumptions = []string{"durations are whole milliseconds, floating-point texts have at most 15 digits", "the expressions of service variables are those of spec/StartUp.tla; their dependency is a stand-in"}
	rng := rand.New(rand.NewSource(c.Seed))
	for round := 0; ; round++ {
		var progs []*suProg
		var cases []*suCase
		if round == 0 {
			progs, cases = c.suEnumerated(rng)
			if !c.thorough() {
				rng.Shuffle(len(cases), func(i, j int) { cases[i], cases[j] = cases[j], cases[i] })
				cases = cases[:1200]
			}
		}
		n, per := 36, 25
		if c.thorough() {
			n, per = 60, 120
		}
		for i := 0; i < n; i++ {
			p := suRandom(rng)
			progs = append(progs, p)
			for j := 0; j < per; j++ {
				cases = append(cases, p.environment(rng, len(progs)))
			}
		}
		c.suRound(round, progs, cases)
		if !c.thorough() || time.Since(c.Start) > c.budget() || len(c.bad) > 0 {
			return
		}
	}
}

func (c *Check) suRound(round int, progs []*suProg, cases []*suCase) {
	dir := filepath.Join(c.Dir, fmt.Sprintf("r%d", round))
	must(os.MkdirAll(dir, 0o755))
	if os.Getenv("VH_KEEP") == "" {
		defer os.RemoveAll(filepath.Join(dir, "m"))
	}
	s := newScratch(filepath.Join(dir, "m"))
	s.write("proto/up/up.proto", suUp)
	for i, p := range progs {
		s.write(fmt.Sprintf("proto/p%d/p.proto", i), p.render(i))
	}
	if err := s.generate(); err != nil {
		c.violation("the services of this check cannot be generated\n" + err.Error())
		return
	}
	src, err := os.ReadFile(filepath.Join(verifDir(), "vh", "startdrv", "main.go.txt"))
	must(err)
	s.write("startdrv/main.go", string(src))
	s.write("startdrv/register.go", suMain(progs))
	bin := filepath.Join(dir, "startdrv")
	if err := s.gobuild(false, bin, "./startdrv"); err != nil {
		c.violation("the services of this check cannot be compiled\n" + err.Error())
		return
	}
	// the environment belongs to the process, so that several of them run at once
	lines := make([]string, len(cases))
	procs := 8
	errs := make([]error, procs)
	var wg sync.WaitGroup
	for k := 0; k < procs; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var in, out, errb bytes.Buffer
			var idx []int
			for i := k; i < len(cases); i += procs {
				b, err := json.Marshal(cases[i])
				must(err)
				in.Write(append(b, '\n'))
				idx = append(idx, i)
			}
			cmd := exec.Command(bin)
			cmd.Stdin, cmd.Stdout, cmd.Stderr = &in, &out, &errb
			if err := cmd.Run(); err != nil {
				errs[k] = fmt.Errorf("%w\n%s", err, tail(errb.String(), 4000))
				return
			}
			ls := strings.Split(strings.TrimSpace(out.String()), "\n")
			for j, i := range idx {
				if j < len(ls) {
					lines[i] = ls[j]
				}
			}
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			c.violation("the process of the generated services died\n" + err.Error())
			return
		}
	}
	tfile := filepath.Join(dir, "trace.ndjson")
	must(os.WriteFile(tfile, []byte(strings.Join(lines, "\n")+"\n"), 0o644))
	pfile := filepath.Join(dir, "progs.ndjson")
	writeNDJSON(pfile, progs)
	os.Remove(bin)
	res, err := tlc(c.Dir, "StartTrace", "SPECIFICATION Spec\nINVARIANT Judge\nCHECK_DEADLOCK FALSE\n", []string{"START_TRACE=" + tfile, "START_PROGS=" + pfile}, 15*time.Minute)
	must(err)
	if res.Violated != "" {
		must(fmt.Errorf("StartTrace: %s\n%s", res.Violated, tail(res.Out, 3000)))
	}
	c.addInt("states", res.States)
	c.addInt("services", len(progs))
	c.addInt("starts", len(cases))
	judged := 0
	for _, l := range res.Lines {
		var b struct {
			Bad  int             `json:"bad"`
			Good int             `json:"good"`
			Err  string          `json:"err"`
			Want json.RawMessage `json:"want"`
		}
		must(json.Unmarshal([]byte(l), &b))
		judged++
		if b.Good > 0 {
			if b.Err == "" {
				b.Err = "started"
			}
			c.addInt("outcome_"+b.Err, 1)
			continue
		}
		x := cases[b.Bad-1]
		given, _ := json.Marshal(x)
		c.violation(fmt.Sprintf("start-up of a service\ngiven %s\nspecified %s\nobserved %s\n\n%s", given, b.Want, lines[b.Bad-1], progs[x.P-1].render(x.P-1)))
	}
	if judged != len(cases) {
		must(fmt.Errorf("%d of %d start-ups judged", judged, len(cases)))
	}
}
