package main

// C04: what the resolver accepts, the generator turns into Go that compiles. A schema goes through the stages of
// Codegen.tla in a worker: resolved, generated (protoc-gen-go, protoc-gen-go-grpc and grpc-federation as the generator
// runs them), and every generated package is type-checked by go/types against the export data of the real dependencies.

import (
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"github.com/mercari/grpc-federation/generator"
)

func init() {
	workerOps["codegen"] = opCodegen
}

// exportList lists the export data of every package the generated code may import: "path file" lines.
func exportList(dir string) string {
	s := newScratch(filepath.Join(dir, "exports"))
	s.write("x/x.go", `package x
import (
	_ "github.com/mercari/grpc-federation/grpc/federation"
	_ "github.com/mercari/grpc-federation/grpc/federation/cel"
	_ "github.com/mercari/grpc-federation/grpc/federation/log"
	_ "go.opentelemetry.io/otel"
	_ "go.opentelemetry.io/otel/trace"
	_ "google.golang.org/genproto/googleapis/rpc/errdetails"
	_ "google.golang.org/genproto/googleapis/rpc/code"
	_ "google.golang.org/genproto/googleapis/rpc/status"
	_ "google.golang.org/grpc"
	_ "google.golang.org/grpc/codes"
	_ "google.golang.org/grpc/status"
	_ "google.golang.org/protobuf/types/known/anypb"
	_ "google.golang.org/protobuf/types/known/durationpb"
	_ "google.golang.org/protobuf/types/known/emptypb"
	_ "google.golang.org/protobuf/types/known/fieldmaskpb"
	_ "google.golang.org/protobuf/types/known/structpb"
	_ "google.golang.org/protobuf/types/known/timestamppb"
	_ "google.golang.org/protobuf/types/known/wrapperspb"
)
`)
	cmd := exec.Command("go", "list", "-export", "-deps", "-f", "{{if .Export}}{{.ImportPath}} {{.Export}}{{end}}", "./x")
	cmd.Dir = s.Dir
	cmd.Env = goEnv()
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	must(err)
	p := filepath.Join(dir, "exports.txt")
	must(os.WriteFile(p, b, 0o644))
	return p
}

type exportImporter struct {
	fset  *token.FileSet
	file  map[string]string
	gc    types.Importer
	local map[string]*types.Package
}

func newExportImporter(list string) *exportImporter {
	b, err := os.ReadFile(list)
	must(err)
	x := &exportImporter{fset: token.NewFileSet(), file: map[string]string{}, local: map[string]*types.Package{}}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 {
			x.file[f[0]] = f[1]
		}
	}
	x.gc = importer.ForCompiler(x.fset, "gc", func(p string) (io.ReadCloser, error) {
		f, ok := x.file[p]
		if !ok {
			return nil, fmt.Errorf("no package %q", p)
		}
		return os.Open(f)
	})
	return x
}

func (x *exportImporter) Import(p string) (*types.Package, error) {
	if l, ok := x.local[p]; ok {
		return l, nil
	}
	return x.gc.Import(p)
}

var gcImporter *exportImporter

type genArg struct {
	Exports string   `json:"exports"`
	Src     []string `json:"src"`
}

// genRes is the result of the stages after resolution.
type genRes struct {
	Generated bool              `json:"generated"`
	Compiled  bool              `json:"compiled"`
	Own       bool              `json:"own"` // the other plugins' code compiles
	Why       string            `json:"why"`
	Packages  int               `json:"packages"`
	Lines     int               `json:"lines"`
	Missing   []string          `json:"missing,omitempty"`
	Files     map[string]string `json:"files,omitempty"`
}

var quoted = regexp.MustCompile(`"([^"\n]+\.proto)"`)

// closure is the entry and the files it mentions, directly or not.
func closure(files map[string]string, entry string) []string {
	seen := map[string]bool{}
	var walk func(string)
	walk = func(n string) {
		if seen[n] || files[n] == "" {
			return
		}
		seen[n] = true
		for _, m := range quoted.FindAllStringSubmatch(files[n], -1) {
			walk(m[1])
			walk(path.Join(path.Dir(n), m[1]))
		}
	}
	walk(entry)
	return sortedKeys(seen)
}

func generateAll(dir string, src []string) (out map[string]string, err error) {
	text := "imports:\n"
	for _, p := range importPaths(dir) {
		text += "  - " + p + "\n"
	}
	text += "src:\n"
	for _, s := range src {
		text += "  - " + filepath.Join(dir, s) + "\n"
	}
	text += "out: " + dir + "/out\nplugins:\n  - plugin: go\n    opt: paths=import\n  - plugin: go-grpc\n    opt: paths=import\n"
	text += "  - plugin: grpc-federation\n    opt:\n    - paths=import\n"
	for _, p := range importPaths(dir) {
		text += "    - import_paths=" + p + "\n"
	}
	cfg, err := generator.LoadConfigFromReader(strings.NewReader(text))
	if err != nil {
		return nil, err
	}
	m, err := generator.New(cfg).GenerateAll(context.Background())
	if err != nil {
		return nil, err
	}
	out = map[string]string{}
	for _, bc := range m {
		for _, res := range bc.Responses {
			if res.GetError() != "" {
				return nil, fmt.Errorf("%s", res.GetError())
			}
			for _, f := range res.GetFile() {
				out[f.GetName()] = f.GetContent()
			}
		}
	}
	return out, nil
}

func opCodegen(req *WReq, res *WRes) {
	var arg genArg
	must(json.Unmarshal(req.Arg, &arg))
	*res = WRes{}
	resolveOne(req, req.Entry[0], res)
	if res.Compile != "" || len(res.Errs) > 0 {
		return
	}
	g := &genRes{}
	defer func() { res.Value, _ = json.Marshal(g) }()
	if gcImporter == nil {
		gcImporter = newExportImporter(arg.Exports)
	}
	g.Own = true
	out, err := generateAll(req.Dir, arg.Src)
	if err != nil {
		g.Why = err.Error()
	} else {
		g.Generated = true
		typecheck(out, g)
	}
	if !g.Compiled {
		g.Files = out
		plain := map[string]string{}
		for n, t := range out {
			if !strings.HasSuffix(n, "_grpc_federation.pb.go") {
				plain[n] = t
			}
		}
		if g.Generated {
			o := &genRes{}
			typecheck(plain, o)
			if g.Own = o.Compiled; !g.Own {
				g.Why += "\nwithout grpc-federation: " + o.Why
			}
		}
	}
}

// typecheck checks all packages of the generated files.
func typecheck(out map[string]string, g *genRes) {
	x := gcImporter
	x.local = map[string]*types.Package{}
	pkgs := map[string][]*ast.File{}
	for _, n := range sortedKeys(out) {
		if !strings.HasSuffix(n, ".go") {
			continue
		}
		g.Lines += strings.Count(out[n], "\n")
		f, err := parser.ParseFile(x.fset, n, out[n], parser.SkipObjectResolution)
		if err != nil {
			g.Why = err.Error()
			return
		}
		pkgs[path.Dir(n)] = append(pkgs[path.Dir(n)], f)
	}
	state := map[string]int{}
	missing := map[string]bool{}
	var errs []string
	var check func(string)
	check = func(p string) {
		if state[p] != 0 {
			return
		}
		state[p] = 1
		for _, f := range pkgs[p] {
			for _, i := range f.Imports {
				ip := strings.Trim(i.Path.Value, `"`)
				if pkgs[ip] != nil {
					if state[ip] == 1 {
						errs = append(errs, "import cycle: "+p+" "+ip)
						continue
					}
					check(ip)
				} else if x.file[ip] == "" && ip != "unsafe" {
					missing[ip] = true
				}
			}
		}
		state[p] = 2
		n := 0
		conf := &types.Config{Importer: x, GoVersion: "go1.23", Error: func(err error) {
			if n++; n <= 6 {
				errs = append(errs, err.Error())
			}
		}}
		tp, err := conf.Check(p, x.fset, pkgs[p], nil)
		if err != nil && n == 0 {
			errs = append(errs, err.Error())
		}
		x.local[p] = tp
		g.Packages++
	}
	for _, p := range sortedKeys(pkgs) {
		check(p)
	}
	g.Missing = sortedKeys(missing)
	g.Why = strings.Join(errs, "\n")
	g.Compiled = len(errs) == 0
}

// codegenReq is the request for one schema.
func codegenReq(dir, exports string, s *schema) *WReq {
	arg, _ := json.Marshal(&genArg{Exports: exports, Src: closure(s.Files, s.Entry)})
	return &WReq{Op: "codegen", Dir: dir, Files: s.Files, Entry: []string{s.Entry}, Arg: arg}
}

func cmdGocheck(dir, entry string) {
	tmp, err := os.MkdirTemp("", "vhg")
	must(err)
	defer os.RemoveAll(tmp)
	s := &schema{Files: readTree(dir), Entry: entry}
	if s.Files["be/be.proto"] == "" {
		s.Files["be/be.proto"] = beProto()
	}
	res := &WRes{}
	req := codegenReq(filepath.Join(tmp, "d"), exportList(tmp), s)
	for name, text := range req.Files {
		p := filepath.Join(req.Dir, name)
		must(os.MkdirAll(filepath.Dir(p), 0o755))
		must(os.WriteFile(p, []byte(text), 0o644))
	}
	opCodegen(req, res)
	var g genRes
	json.Unmarshal(res.Value, &g)
	for n, t := range g.Files {
		p := filepath.Join("/tmp/gocheck", n)
		os.MkdirAll(filepath.Dir(p), 0o755)
		os.WriteFile(p, []byte(t), 0o644)
	}
	g.Files = nil
	res.Value, res.Out = nil, nil
	fmt.Println(res)
	fmt.Printf("%+v\n", g)
}

// cgCase is a case of CodegenCases.tla.
type cgCase struct {
	Kind string      `json:"kind"`
	Set  [][2]string `json:"set"`
	Conv *ConvCase   `json:"conv,omitempty"`
}

func cgCases(c *Check) []*cgCase {
	res, err := tlc(c.Dir, "CodegenCasesGen", "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", nil, 10*time.Minute)
	must(err)
	c.addInt("states", res.States)
	var out []*cgCase
	for _, l := range res.Lines {
		var x cgCase
		must(json.Unmarshal([]byte(l), &x))
		out = append(out, &x)
	}
	if len(out) < 1000 {
		must(fmt.Errorf("%d cases\n%s", len(out), tail(res.Out, 2000)))
	}
	return out
}

// cgRun is a schema with what is known of it, and what the real resolver and generator made of it.
type cgRun struct {
	Kind   string      `json:"kind"`
	Set    [][2]string `json:"set"`
	Conv   *ConvCase   `json:"conv"`
	Own    bool        `json:"own"`
	Stages []string    `json:"stages"`

	name string
	s    *schema
	why  string
}

var noConv = &ConvCase{"bool", "bool", "one", "one", "own", "field"}

func init() { otherChecks["C04"] = checkC04 }

func checkC04(c *Check) {
	model, err := tlc(c.Dir, "Codegen", "SPECIFICATION Spec\nINVARIANT Promise\nPROPERTY Kept\nCHECK_DEADLOCK FALSE\n", nil, time.Minute)
	must(err)
	if !strings.Contains(model.Out, "No error has been found") {
		must(fmt.Errorf("Codegen.tla: %s", tail(model.Out, 2000)))
	}
	r := rand.New(rand.NewSource(c.Seed))
	var runs []*cgRun
	pick := func(xs []*cgRun, quick int) {
		if !c.thorough() && len(xs) > quick {
			r.Shuffle(len(xs), func(i, j int) { xs[i], xs[j] = xs[j], xs[i] })
			for _, x := range xs[quick:] {
				if c.isFinding(x.name) {
					runs = append(runs, x)
				}
			}
			xs = xs[:quick]
		}
		runs = append(runs, xs...)
	}
	only := os.Getenv("CGONLY")
	use := func(kind string) bool { return only == "" || strings.Contains(only, kind) }
	var convs []*cgRun
	if use("conv") {
		for _, x := range convCases(c) {
			convs = append(convs, &cgRun{Kind: "conv", Conv: x, name: "conversion of " + x.String(), s: &schema{Files: convSchema([]*ConvCase{x}), Entry: "fed.proto"}})
		}
	}
	pick(convs, 700)
	byKind := map[string][]*cgRun{}
	for _, x := range cgCases(c) {
		if !use(x.Kind) {
			continue
		}
		set := map[string]string{}
		for _, p := range x.Set {
			set[p[0]] = p[1]
		}
		s := &schema{}
		if x.Kind == "text" {
			s.Files, s.Entry = textSchema(x.Set[0][0], x.Set[0][1])
		} else {
			s.Files, s.Entry = nameSchema(set)
		}
		byKind[x.Kind] = append(byKind[x.Kind], &cgRun{Kind: x.Kind, Set: x.Set, name: fmt.Sprintf("%s %s", x.Kind, x.Set), s: s})
	}
	pick(byKind["name"], 200)
	pick(byKind["twin"], 60)
	pick(byKind["same"], 60)
	pick(byKind["text"], 276)
	others := func(kind string, xs []*schema, quick int) {
		var rs []*cgRun
		for _, s := range xs {
			rs = append(rs, &cgRun{Kind: kind, name: s.Name, s: s})
		}
		pick(rs, quick)
	}
	if use("any") {
		others("any", repoSchemas(), 1000)
		others("any", corpusSchemas(), 1000)
		n := 60
		if c.thorough() {
			n = 1500
		}
		var progs []*schema
		be := beProto()
		add := func(name string, p *Prog) {
			progs = append(progs, &schema{Name: name, Files: map[string]string{"p.proto": renderFile("p", []*Prog{p}), "be/be.proto": be}, Entry: "p.proto"})
		}
		for i, p := range sinkPrograms() {
			add(fmt.Sprint("sink ", i), p)
		}
		for i := 0; i < n; i++ {
			add(fmt.Sprint("generated ", i), genProg(c.Seed*100000+int64(i), "P", general))
		}
		others("accepted", progs, 1500)
	}
	exports := exportList(c.Dir)
	pool := newPool(8)
	defer pool.close()
	var reqs []*WReq
	for i, x := range runs {
		reqs = append(reqs, codegenReq(filepath.Join(c.Dir, "d", fmt.Sprint(i)), exports, x.s))
	}
	count := map[string]int{}
	lines := 0
	for i, res := range pool.all(reqs) {
		x := runs[i]
		var g genRes
		json.Unmarshal(res.Value, &g)
		x.Own = true
		x.Stages = []string{"parsed"}
		switch {
		case res.Crash != "" || res.Hang:
			x.Stages = append(x.Stages, "crashed")
			x.why = tail(res.Crash, 1500)
		case res.Compile != "":
			x.Stages = []string{"refused"}
			x.why = res.Compile
		case len(res.Errs) > 0:
			x.Stages = append(x.Stages, "refused")
			x.why = fmt.Sprint(res.Msgs)
		default:
			x.Stages = append(x.Stages, "resolved")
			x.Own = g.Own
			x.why = g.Why
			if g.Generated {
				x.Stages = append(x.Stages, "generated")
			}
			if g.Compiled {
				x.Stages = append(x.Stages, "compiled")
			} else {
				x.Stages = append(x.Stages, "stuck")
			}
			if len(g.Missing) > 0 {
				must(fmt.Errorf("%s: no export data of %v", x.name, g.Missing))
			}
			lines += g.Lines
		}
		if x.Conv == nil {
			x.Conv = noConv
		}
		if x.Set == nil {
			x.Set = [][2]string{}
		}
		last := x.Stages[len(x.Stages)-1]
		count[x.Kind+" "+last]++
		if os.Getenv("CGLOG") != "" {
			fmt.Printf("%s | own=%v | %s | %.600s\n", last, x.Own, x.name, strings.ReplaceAll(x.why, "\n", " ## "))
		}
	}
	trace := filepath.Join(c.Dir, "runs.ndjson")
	writeNDJSON(trace, runs)
	tr, err := tlc(c.Dir, "CodegenTrace", "SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\n", []string{"TRACE=" + trace}, 10*time.Minute)
	must(err)
	c.addInt("states", tr.States)
	if tr.States < len(runs) {
		must(fmt.Errorf("%d states for %d runs\n%s", tr.States, len(runs), tail(tr.Out, 2000)))
	}
	for _, l := range tr.Lines {
		var b struct {
			Bad   int    `json:"bad"`
			Stage string `json:"stage"`
		}
		must(json.Unmarshal([]byte(l), &b))
		x := runs[b.Bad-1]
		c.violationAt(x.name, fmt.Sprintf("%s: the schema went through %v, which Codegen.tla doesn't allow\n%s\n%s", x.name, x.Stages, x.why, dumpFiles(x.s.Files)))
	}
	c.Ev.Coverage["schemas"] = len(runs)
	c.Ev.Coverage["outcomes"] = count
	c.Ev.Coverage["lines of Go type-checked"] = lines
}
