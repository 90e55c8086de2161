package main

// R21: log attributes of message scopes against spec/LogScope.tla.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"time"
)

func init() { otherChecks["R21"] = checkR21 }

type lgAct struct {
	A string `json:"a"`
	K string `json:"k"`
	X bool   `json:"x"`
	M int    `json:"m"`
	C int    `json:"c"`
}

type lgStep struct {
	N    string   `json:"n"`
	C    string   `json:"c"` // def, cm (custom resolver), field
	Deps []int    `json:"deps"`
	Acts []*lgAct `json:"acts"`

	form string
}

type lgProg struct {
	Msgs   [][]*lgStep `json:"msgs"`
	fails  bool
	custom []bool
}

func (a *lgAct) cel() string {
	switch a.A {
	case "add":
		return fmt.Sprintf("grpc.federation.log.add({'%s': $.p})", a.K)
	case "emit":
		if a.X {
			return fmt.Sprintf("grpc.federation.log.info('%s@' + $.p, {'x': '1'})", a.K)
		}
		return fmt.Sprintf("grpc.federation.log.warn('%s@' + $.p)", a.K)
	}
	panic(a.A)
}

// the actions of a step which are expressions
func (st *lgStep) cel(steps []*lgStep, refs bool) string {
	var xs []string
	if refs {
		for _, d := range st.Deps {
			if steps[d-1].form != "val" {
				xs = append(xs, fmt.Sprintf("size([%s]) == 1", steps[d-1].N))
			}
		}
	}
	for _, a := range st.Acts {
		if a.A == "add" || a.A == "emit" {
			xs = append(xs, a.cel())
		}
	}
	if len(xs) == 0 {
		return "true"
	}
	return strings.Join(xs, " && ")
}

func (st *lgStep) act(kind string) *lgAct {
	for _, a := range st.Acts {
		if a.A == kind {
			return a
		}
	}
	return nil
}

func (p *lgProg) render(i int) string {
	var w strings.Builder
	fmt.Fprintf(&w, "syntax = \"proto3\";\npackage p%d;\noption go_package = \"vgen/p%d;p%d\";\n\nimport \"grpc/federation/federation.proto\";\nimport \"be/be.proto\";\n\n", i, i, i)
	w.WriteString("service F {\n  option (grpc.federation.service) = {};\n  rpc Get(Q) returns (M1) {}\n}\n\nmessage Q {\n  string p = 1;\n}\n")
	for m, steps := range p.Msgs {
		fmt.Fprintf(&w, "\nmessage M%d {\n  option (grpc.federation.message) = {\n", m+1)
		custom := false
		for _, st := range steps {
			switch st.C {
			case "def":
				w.WriteString("    def {" + st.render(steps) + "}\n")
			case "cm":
				custom = true
				w.WriteString("    custom_resolver: true\n")
			}
		}
		w.WriteString("  };\n")
		ok := " [(grpc.federation.field).by = \"true\"]"
		if custom {
			ok = ""
		}
		fmt.Fprintf(&w, "  bool ok = 1%s;\n", ok)
		n := 1
		for _, st := range steps {
			if st.C != "field" {
				continue
			}
			n++
			opt := "custom_resolver = true"
			if st.form != "custom" {
				opt = fmt.Sprintf("by = %q", st.cel(steps, true))
			}
			fmt.Fprintf(&w, "  bool %s = %d [(grpc.federation.field).%s];\n", st.N, n, opt)
		}
		w.WriteString("}\n")
	}
	return w.String()
}

func (st *lgStep) render(steps []*lgStep) string {
	all := st.cel(steps, true)
	switch st.form {
	case "by":
		return fmt.Sprintf(" name: %q by: %q ", st.N, all)
	case "if":
		return fmt.Sprintf(" name: %q if: %q by: \"7\" ", st.N, all)
	case "val":
		return fmt.Sprintf(" name: %q validation { error { code: INTERNAL if: %q } } ", st.N, "!("+all+")")
	case "msg":
		return fmt.Sprintf(" name: %q message { name: \"M%d\" args [{ name: \"p\" by: %q }] } ", st.N, st.act("enter").M, all+" ? $.p + '."+st.N+"' : ''")
	case "maps":
		a := st.act("enter")
		return fmt.Sprintf(" name: %q map { iterator { name: \"i\" src: %q } message { name: \"M%d\" args [{ name: \"p\" by: %q }] } } ", st.N, "l"+st.N, a.M, "$.p + '."+st.N+"#' + i")
	case "mapby":
		a := st.act("each")
		return fmt.Sprintf(" name: %q map { iterator { name: \"i\" src: %q } by: %q } ", st.N, "l"+st.N, "grpc.federation.log.error('"+a.K+"@' + $.p + '#' + i)")
	case "list":
		n := strings.TrimPrefix(st.N, "l")
		for _, o := range steps {
			if o.N == n {
				var xs []string
				for _, a := range o.Acts {
					for j := 0; j < a.C; j++ {
						xs = append(xs, fmt.Sprintf("'%d'", j))
					}
				}
				e := "[" + strings.Join(xs, ", ") + "]"
				if len(xs) == 0 {
					e = "['x'].filter(v, v == 'y')"
				}
				return fmt.Sprintf(" name: %q by: %q ", st.N, all+" ? "+e+" : ['?']")
			}
		}
		panic("no map " + n)
	case "call":
		return fmt.Sprintf(" name: %q call { method: \"be.Backend/C0\" request { field: \"id\" by: %q } } ", st.N, all+" ? 'ok' : ''")
	case "callif":
		return fmt.Sprintf(" name: %q call { method: \"be.Backend/C0\" request { field: \"id\" by: %q if: %q } } ", st.N, "'ok'", all)
	case "ignore":
		return fmt.Sprintf(" name: %q call { method: \"be.Backend/C0\" request { field: \"id\" by: %q } error { if: %q ignore: true } } ", st.N, "'fail:x'", all)
	case "fval":
		return fmt.Sprintf(" name: %q validation { error { code: ABORTED if: %q message: %q } } ", st.N, all, "'"+st.act("fail").K+"@' + $.p")
	case "fcall":
		return fmt.Sprintf(" name: %q call { method: \"be.Backend/C0\" request { field: \"id\" by: %q } } ", st.N, all+" ? 'fail:"+st.act("fail").K+"@' + $.p : ''")
	case "fblock":
		return fmt.Sprintf(" name: %q call { method: \"be.Backend/C0\" request { field: \"id\" by: %q } error { def { name: \"e%s\" by: %q } if: %q message: %q log_level: WARN } } ", st.N, st.cel(steps, true)[:0]+strings.Join(depsOnly(st, steps), " && ")+" ? 'fail:x' : ''", st.N, st.cel(steps, false), "size([e"+st.N+"]) == 1", "'"+st.act("fail").K+"@' + $.p")
	}
	panic(st.form)
}

func depsOnly(st *lgStep, steps []*lgStep) []string {
	o := &lgStep{Deps: st.Deps}
	return []string{o.cel(steps, true)}
}

// a random program; message m uses messages after it only
func lgRandom(rng *rand.Rand) *lgProg {
	p := &lgProg{fails: rng.Intn(3) == 0}
	n := 2 + rng.Intn(3)
	p.Msgs = make([][]*lgStep, n)
	p.custom = make([]bool, n)
	size := make([]int, n) // records and additions of a message with what it resolves
	for m := n - 1; m >= 0; m-- {
		var steps []*lgStep
		id := 0
		acts := func() []*lgAct {
			var as []*lgAct
			for k := rng.Intn(3); k >= 0; k-- {
				id++
				if rng.Intn(2) == 0 {
					as = append(as, &lgAct{A: "add", K: fmt.Sprintf("a%d_%d", m+1, id), C: -1})
				} else {
					as = append(as, &lgAct{A: "emit", K: fmt.Sprintf("e%d_%d", m+1, id), X: rng.Intn(4) == 0, C: -1})
				}
			}
			return as
		}
		var vals []int
		add := func(st *lgStep) int {
			if st.Deps == nil {
				st.Deps = []int{}
			}
			has := map[int]bool{}
			for _, d := range st.Deps {
				has[d] = true
			}
			for _, v := range vals {
				if !has[v] {
					st.Deps = append(st.Deps, v)
				}
			}
			steps = append(steps, st)
			for _, a := range st.Acts {
				size[m]++
				if a.A == "enter" {
					k := a.C
					if k < 0 {
						k = 1
					}
					size[m] += k * size[a.M-1]
				}
			}
			if st.form == "val" {
				vals = append(vals, len(steps))
			}
			return len(steps)
		}
		deps := func() []int {
			ds := []int{}
			for j := range steps {
				if rng.Intn(3) == 0 {
					ds = append(ds, j+1)
				}
			}
			return ds
		}
		k := 2 + rng.Intn(3)
		for i := 1; i <= k; i++ {
			name := fmt.Sprintf("d%d", i)
			child := 0
			if m+1 < n {
				child = m + 2 + rng.Intn(n-m-1)
			}
			if i == k && child > 0 && m == 0 {
				child = m + 2
			}
			forms := []string{"by", "by", "if", "val", "call", "callif", "ignore", "mapby", "msg", "msg", "msg", "maps"}
			form := forms[rng.Intn(len(forms))]
			if child == 0 && (form == "msg" || form == "maps") || child > 0 && size[m]+size[child-1]*2 > 24 && form != "by" {
				form = "by"
			}
			st := &lgStep{N: name, C: "def", Deps: deps(), Acts: acts(), form: form}
			switch form {
			case "msg":
				st.Acts = append(st.Acts, &lgAct{A: "enter", M: child, C: -1})
			case "maps", "mapby":
				l := add(&lgStep{N: "l" + name, C: "def", Deps: st.Deps, Acts: st.Acts, form: "list"})
				st.Deps = []int{l}
				if form == "maps" {
					st.Acts = []*lgAct{{A: "enter", M: child, C: rng.Intn(3)}}
				} else {
					id++
					st.Acts = []*lgAct{{A: "each", K: fmt.Sprintf("e%d_%d", m+1, id), C: rng.Intn(3)}}
				}
			case "ignore":
				// the error block is evaluated when the call has failed
			}
			add(st)
		}
		everything := func() []int {
			ds := []int{}
			for j := range steps {
				ds = append(ds, j+1)
			}
			return ds
		}
		if p.fails && m < n-1 && (m == 0 || rng.Intn(2) == 0) {
			add(&lgStep{N: "z", C: "def", Deps: everything(), Acts: append(acts(), &lgAct{A: "enter", M: m + 2, C: -1}), form: "msg"})
		} else if p.fails {
			add(&lgStep{N: "z", C: "def", Deps: everything(), Acts: append(acts(), &lgAct{A: "fail", K: fmt.Sprintf("x%d", m+1), C: -1}), form: []string{"fval", "fcall", "fblock"}[rng.Intn(3)]})
		}
		if rng.Intn(3) == 0 {
			p.custom[m] = true
			key := fmt.Sprintf("m%d", m+1)
			add(&lgStep{N: "M", C: "cm", Acts: []*lgAct{{A: "emit", K: key + "a", C: -1}, {A: "add", K: key, C: -1}, {A: "emit", K: key + "b", C: -1}}})
		}
		for f := 1; f <= rng.Intn(4); f++ {
			name := fmt.Sprintf("f%d", f)
			if rng.Intn(2) == 0 || p.custom[m] {
				key := fmt.Sprintf("m%d%s", m+1, name)
				add(&lgStep{N: name, C: "field", form: "custom", Acts: []*lgAct{{A: "emit", K: key + "a", C: -1}, {A: "add", K: key, C: -1}, {A: "emit", K: key + "b", C: -1}}})
			} else {
				add(&lgStep{N: name, C: "field", form: "by", Acts: acts()})
			}
		}
		p.Msgs[m] = steps
	}
	// messages that fail are entered in the last definition only
	if p.fails {
		bad := map[int]bool{}
		for m := n - 1; m >= 0; m-- {
			for _, st := range p.Msgs[m] {
				for _, a := range st.Acts {
					if a.A == "fail" {
						bad[m+1] = true
					}
					if a.A == "enter" && st.N != "z" && bad[a.M] {
						return lgRandom(rng)
					}
				}
			}
			for _, st := range p.Msgs[m] {
				for _, a := range st.Acts {
					if a.A == "enter" && bad[a.M] {
						bad[m+1] = true
					}
				}
			}
		}
		if !bad[1] {
			return lgRandom(rng)
		}
	}
	if size[0] > 60 {
		return lgRandom(rng)
	}
	return p
}

// a message with many attributes resolves several messages at once, which add their own
func lgFan(rng *rand.Rand) *lgProg {
	p := &lgProg{Msgs: make([][]*lgStep, 3)}
	seq := func(n int) []int {
		ds := []int{}
		for i := 1; i <= n; i++ {
			ds = append(ds, i)
		}
		return ds
	}
	id := 0
	act := func(kind string) *lgAct {
		id++
		return &lgAct{A: kind, K: fmt.Sprintf("k%d", id), C: -1}
	}
	step := func(m int, form string, deps []int, acts ...*lgAct) {
		p.Msgs[m] = append(p.Msgs[m], &lgStep{N: fmt.Sprintf("d%d", len(p.Msgs[m])+1), C: "def", Deps: deps, Acts: acts, form: form})
	}
	adds := 1 + rng.Intn(7)
	for i := 0; i < adds; i++ {
		step(0, "by", seq(i), act("add"))
	}
	sib := 2 + rng.Intn(3)
	for i := 0; i < sib; i++ {
		if rng.Intn(3) == 0 {
			step(0, "by", seq(adds), act("add"), act("emit"))
		} else {
			step(0, "msg", seq(adds), &lgAct{A: "enter", M: 2 + rng.Intn(2), C: -1})
		}
	}
	step(0, "by", seq(adds+sib), act("emit"), act("add"), act("emit"))
	for m := 2; m > 0; m-- {
		for i := 0; i < 1+rng.Intn(2); i++ {
			step(m, "by", seq(len(p.Msgs[m])), act("add"))
		}
		step(m, "call", seq(len(p.Msgs[m])))
		if m == 1 {
			step(1, "msg", seq(len(p.Msgs[m])), &lgAct{A: "enter", M: 3, C: -1})
		}
		step(m, "by", seq(len(p.Msgs[m])), act("emit"), act("add"), act("emit"))
	}
	for _, steps := range p.Msgs {
		for _, st := range steps {
			if st.Acts == nil {
				st.Acts = []*lgAct{}
			}
		}
	}
	return p
}

var lgResolverRe = regexp.MustCompile(`(?s)type FResolver interface \{(.*?)\n\}`)

func checkR21(c *Check) {
	c.Ev.Level = "model_checking"
	c.Ev.Assumptions = []string{"records are compared as sets of attributes; which of two independent definitions is evaluated first is left open"}
	rng := rand.New(rand.NewSource(c.Seed))
	for round := 0; ; round++ {
		n, per := 28, 12
		if c.thorough() {
			n, per = 60, 40
		}
		c.lgRound(round, rng, n, per)
		if !c.thorough() || time.Since(c.Start) > c.budget() || len(c.bad) > 0 {
			return
		}
	}
}

func (c *Check) lgRound(round int, rng *rand.Rand, n, per int) {
	dir := filepath.Join(c.Dir, fmt.Sprintf("r%d", round))
	must(os.MkdirAll(dir, 0o755))
	if os.Getenv("VH_KEEP") == "" {
		defer os.RemoveAll(filepath.Join(dir, "m"))
	}
	s := newScratch(filepath.Join(dir, "m"))
	var progs []*lgProg
	for i := 0; i < n; i++ {
		p := lgRandom(rng)
		if i%3 == 0 {
			p = lgFan(rng)
		}
		progs = append(progs, p)
		s.write(fmt.Sprintf("proto/p%d/p.proto", i), p.render(i))
	}
	if err := s.generate(); err != nil {
		c.violation("the services of this check cannot be generated\n" + err.Error())
		return
	}
	src, err := os.ReadFile(filepath.Join(verifDir(), "vh", "logdrv", "main.go.txt"))
	must(err)
	s.write("logdrv/main.go", string(src))
	reg, err := s.lgGlue(n)
	must(err)
	s.write("logdrv/register.go", reg)
	bin := filepath.Join(dir, "logdrv")
	if err := s.gobuild(false, bin, "./logdrv"); err != nil {
		c.violation("the services of this check cannot be compiled\n" + err.Error())
		return
	}
	var out, errb bytes.Buffer
	cmd := exec.Command(bin, fmt.Sprint(per), fmt.Sprint(rng.Int63()))
	cmd.Stdout, cmd.Stderr = &out, &errb
	timer := time.AfterFunc(5*time.Minute, func() { cmd.Process.Kill() })
	err = cmd.Run()
	timer.Stop()
	os.Remove(bin)
	if err != nil {
		c.violation("the process of the generated services died\n" + err.Error() + "\n" + tail(errb.String(), 4000))
		return
	}
	lines := strings.Split(strings.TrimSpace(out.String()), "\n")
	tfile := filepath.Join(dir, "trace.ndjson")
	must(os.WriteFile(tfile, out.Bytes(), 0o644))
	pfile := filepath.Join(dir, "progs.ndjson")
	writeNDJSON(pfile, progs)
	res, err := tlc(c.Dir, "LogScopeTrace", "SPECIFICATION Spec\nINVARIANT Judge\nINVARIANT NoLeak\nCHECK_DEADLOCK FALSE\n", []string{"LOG_TRACE=" + tfile, "LOG_PROGS=" + pfile}, 15*time.Minute)
	must(err)
	if res.Violated != "" {
		must(fmt.Errorf("LogScopeTrace: %s\n%s", res.Violated, tail(res.Out, 3000)))
	}
	c.addInt("states", res.States)
	c.addInt("services", len(progs))
	c.addInt("requests", len(lines))
	ok := map[int]bool{}
	for _, l := range res.Lines {
		var i int
		if _, err := fmt.Sscanf(l, "ACCEPT %d", &i); err == nil {
			ok[i] = true
		}
	}
	for i, l := range lines {
		var t struct {
			P    int
			Recs []json.RawMessage
		}
		must(json.Unmarshal([]byte(l), &t))
		c.addInt("records", len(t.Recs))
		if !ok[i+1] {
			c.violation(fmt.Sprintf("no behaviour of the specification has these log records\n%s\n\n%s", l, progs[t.P-1].render(t.P-1)))
		}
	}
}

func (s *Scratch) lgGlue(n int) (string, error) {
	var imp, body, ini strings.Builder
	usesBe, usesCtx := false, false
	for i := 0; i < n; i++ {
		p := fmt.Sprintf("p%d", i)
		b, err := os.ReadFile(filepath.Join(s.Dir, p, "p_grpc_federation.pb.go"))
		if err != nil {
			return "", err
		}
		src := string(b)
		fmt.Fprintf(&imp, "\t%q\n", "vgen/"+p)
		cfg := ""
		if strings.Contains(src, "Be_BackendClient(FClientConfig)") {
			usesBe = true
			fmt.Fprintf(&body, "type c_%s struct{}\n\nfunc (c_%s) Be_BackendClient(%s.FClientConfig) (be.BackendClient, error) { return be.NewBackendClient(conn{}), nil }\n\n", p, p, p)
			cfg += fmt.Sprintf("Client: c_%s{}, ", p)
		}
		if m := lgResolverRe.FindStringSubmatch(src); m != nil {
			ms := methodRe.FindAllStringSubmatch(m[1], -1)
			if len(ms) > 0 {
				usesCtx = true
				fmt.Fprintf(&body, "type r_%s struct{}\n\n", p)
				for _, x := range ms {
					t := qualify(p, x[3])
					fmt.Fprintf(&body, "func (r_%s) %s(ctx context.Context, a *%s.%s) (%s, error) { return custom[%s](ctx, %q, a) }\n\n", p, x[1], p, x[2], t, t, x[1])
				}
				cfg += fmt.Sprintf("Resolver: r_%s{}, ", p)
			}
		}
		fmt.Fprintf(&ini, "\tregister(func() (func(context.Context, string) error, error) {\n\t\tsvc, err := %s.NewF(%s.FConfig{%sLogger: logger})\n\t\tif err != nil {\n\t\t\treturn nil, err\n\t\t}\n\t\treturn func(ctx context.Context, p string) error {\n\t\t\t_, err := svc.Get(ctx, &%s.Q{P: p})\n\t\t\treturn err\n\t\t}, nil\n\t})\n", p, p, cfg, p)
	}
	h := "package main\n\nimport (\n\t\"context\"\n"
	_ = usesCtx
	if usesBe {
		h += "\t\"vgen/be\"\n"
	}
	return h + imp.String() + ")\n\n" + body.String() + "func registerAll() {\n" + ini.String() + "}\n", nil
}
