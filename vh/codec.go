package main

// C05: what a code-generation plugin decodes is the resolver's result, against spec/Codec.tla.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"google.golang.org/protobuf/proto"

	"github.com/mercari/grpc-federation/generator"
	codec "github.com/mercari/grpc-federation/grpc/federation/generator"
	"github.com/mercari/grpc-federation/grpc/federation/generator/plugin"
	"github.com/mercari/grpc-federation/resolver"
)

func init() {
	otherChecks["C05"] = checkC05
	workerOps["codec"] = workerCodec
}

// gnode is a node of a dumped graph.
type gnode struct {
	K    string `json:"k"`
	L    string `json:"l"`
	R    []int  `json:"r"`
	refs []string
}

// graphDump numbers the objects below a value of the resolver's types.
type graphDump struct {
	nodes []*gnode
	ids   map[uintptr]map[reflect.Type]int
}

// skipped are the fields which are not part of the resolver's view of the schema: descriptors and checked expressions,
// which the plugin protocol does not have, and what is derived from Children.
var skipped = map[string]bool{
	"File.Desc": true, "Service.Desc": true, "Method.Desc": true, "Message.Desc": true, "Field.Desc": true,
	"CELValue.CheckedExpr": true, "MessageDependencyGraphNode.Parent": true, "MessageDependencyGraphNode.ParentMap": true, "MessageDependencyGraphNode.ChildrenMap": true,
}

func (d *graphDump) ptr(v reflect.Value) int {
	if v.IsNil() {
		return 0
	}
	p, t := v.Pointer(), v.Type()
	if n, ok := d.ids[p][t]; ok {
		return n
	}
	if d.ids[p] == nil {
		d.ids[p] = map[reflect.Type]int{}
	}
	n := &gnode{K: t.Elem().Name(), R: []int{}}
	d.nodes = append(d.nodes, n)
	id := len(d.nodes)
	d.ids[p][t] = id
	var lab []string
	d.fields(v.Elem(), t.Elem().Name(), "", n, &lab)
	n.L = strings.Join(lab, "|")
	return id
}

func (d *graphDump) fields(v reflect.Value, typ, prefix string, n *gnode, lab *[]string) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if !f.IsExported() || skipped[typ+"."+f.Name] {
			continue
		}
		d.value(v.Field(i), prefix+f.Name, n, lab)
	}
}

func (d *graphDump) value(v reflect.Value, name string, n *gnode, lab *[]string) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			n.R, n.refs = append(n.R, 0), append(n.refs, name)
			return
		}
		d.value(v.Elem(), name, n, lab)
	case reflect.Pointer:
		if v.Type().Elem().Kind() != reflect.Struct {
			if v.IsNil() {
				*lab = append(*lab, name+"=nil")
			} else {
				*lab = append(*lab, fmt.Sprintf("%s=&%v", name, v.Elem().Interface()))
			}
			return
		}
		id := d.ptr(v)
		n.R, n.refs = append(n.R, id), append(n.refs, name)
	case reflect.Slice:
		*lab = append(*lab, fmt.Sprintf("len(%s)=%d", name, v.Len()))
		for i := 0; i < v.Len(); i++ {
			d.value(v.Index(i), fmt.Sprintf("%s[%d]", name, i), n, lab)
		}
	case reflect.Struct:
		d.fields(v, v.Type().Name(), name+".", n, lab)
	default:
		*lab = append(*lab, fmt.Sprintf("%s=%#v", name, v.Interface()))
	}
}

// dumpRoots is the graph below the files; node 1 is the list of them.
func dumpRoots(files []*resolver.File) *graphDump {
	d := &graphDump{ids: map[uintptr]map[reflect.Type]int{}}
	root := &gnode{K: "Request", R: []int{}}
	d.nodes = append(d.nodes, root)
	var lab []string
	d.value(reflect.ValueOf(files), "Files", root, &lab)
	root.L = strings.Join(lab, "|")
	return d
}

type codecRow struct {
	G        []*gnode    `json:"g"`
	H        []*gnode    `json:"h"`
	R        [][2]int    `json:"r"`
	T        [][2]string `json:"t"`
	Rejected bool        `json:"-"`
}

// wire is codecRow on the way from the worker.
type codecWire struct {
	Accepted bool
	Err      string
	Row      codecRow
	GR, HR   [][]string
	Path     map[string]string // the way from the root to a pair
	Diff     []string
	Texts    []string
}

func workerCodec(req *WReq, res *WRes) {
	out := &codecWire{}
	defer func() { res.Value, _ = json.Marshal(out) }()
	fds, _, err := compileFile(req.Dir, req.Entry[0])
	if err != nil {
		return
	}
	result, err := resolver.New(fds, resolver.ImportPathOption(importPaths(req.Dir)...)).Resolve()
	if err != nil {
		return
	}
	out.Accepted = true
	cfg := &codec.CodeGeneratorRequestConfig{
		Type: codec.CreateAction, ProtoPath: "a/b.proto", OutDir: "out/dir",
		Files:               []*plugin.ProtoCodeGeneratorResponse_File{{Name: proto.String("x.go"), Content: proto.String("package x")}},
		GRPCFederationFiles: result.Files,
	}
	b, err := proto.Marshal(codec.CreateCodeGeneratorRequest(cfg))
	if err != nil {
		out.Err = err.Error()
		return
	}
	dec, err := codec.ToCodeGeneratorRequest(bytes.NewReader(b))
	if err != nil {
		out.Err = err.Error()
		return
	}
	g, h := dumpRoots(result.Files), dumpRoots(dec.GRPCFederationFiles)
	out.Row.G, out.Row.H = g.nodes, h.nodes
	out.Path = map[string]string{"1,1": ""}
	queue := [][2]int{{1, 1}}
	seen := map[[2]int]bool{{1, 1}: true}
	back := map[int]int{}
	fwd := map[int]int{}
	for len(queue) > 0 {
		p := queue[0]
		queue = queue[1:]
		out.Row.R = append(out.Row.R, p)
		path := out.Path[fmt.Sprintf("%d,%d", p[0], p[1])]
		x, y := g.nodes[p[0]-1], h.nodes[p[1]-1]
		if o, ok := fwd[p[0]]; ok && o != p[1] {
			out.Diff = append(out.Diff, fmt.Sprintf("%s: %s is duplicated", path, x.K))
		}
		if o, ok := back[p[1]]; ok && o != p[0] {
			out.Diff = append(out.Diff, fmt.Sprintf("%s: %s is merged with another", path, x.K))
		}
		fwd[p[0]], back[p[1]] = p[1], p[0]
		for i := range x.R {
			if i >= len(y.R) || x.R[i] == 0 || y.R[i] == 0 {
				continue
			}
			q := [2]int{x.R[i], y.R[i]}
			if !seen[q] {
				seen[q] = true
				out.Path[fmt.Sprintf("%d,%d", q[0], q[1])] = path + "." + x.refs[i]
				queue = append(queue, q)
			}
		}
		if len(queue) > 200000 {
			break
		}
	}
	for _, n := range g.nodes {
		out.GR = append(out.GR, n.refs)
	}
	for _, n := range h.nodes {
		out.HR = append(out.HR, n.refs)
	}
	text := func(name, a, b string) {
		out.Row.T = append(out.Row.T, [2]string{a, b})
		out.Texts = append(out.Texts, name)
	}
	text("ProtoPath", cfg.ProtoPath, dec.ProtoPath)
	text("OutDir", cfg.OutDir, dec.OutDir)
	fs := func(l []*plugin.ProtoCodeGeneratorResponse_File) string {
		s := ""
		for _, f := range l {
			s += f.GetName() + ":" + f.GetContent() + ";"
		}
		return s
	}
	text("Files", fs(cfg.Files), fs(dec.Files))
	if len(dec.GRPCFederationFiles) == len(result.Files) {
		for i, f := range result.Files {
			gen := func(f *resolver.File) (s string) {
				defer func() {
					if e := recover(); e != nil {
						s = fmt.Sprintf("panic: %v", e)
					}
				}()
				b, err := generator.NewCodeGenerator().Generate(f)
				if err != nil {
					return "error: " + err.Error()
				}
				// both name the same type: cel-go replaces the names of well-known types
				return strings.ReplaceAll(string(b), `grpcfed.NewCELObjectType("google.protobuf.Duration")`, "grpcfed.CELDurationType")
			}
			text("the code of "+f.Name, gen(f), gen(dec.GRPCFederationFiles[i]))
		}
	}
}

func checkC05(c *Check) {
	c.Ev.Level = "model_checking"
	c.Ev.Assumptions = []string{
		"descriptors (Desc) and checked CEL expressions are not part of the plugin protocol and are not compared",
		"packages are compared by content",
		"the two ways in which generated code names the CEL type of google.protobuf.Duration are the same",
	}
	n := "2"
	if c.thorough() {
		n = "3"
	}
	res, err := tlc(c.Dir, "CodecGen", "CONSTANTS N = "+n+"\n Names = {\"x\", \"y\", \"z\"}\nSPECIFICATION Spec\nINVARIANTS Inv\nCHECK_DEADLOCK FALSE\n", nil, 20*time.Minute)
	must(err)
	if res.Violated != "" {
		must(fmt.Errorf("the specification contradicts itself: %s", res.Violated))
	}
	c.addInt("states", res.States)
	rng := rand.New(rand.NewSource(c.Seed))
	_ = rng
	ss := append(repoSchemas(), corpusSchemas()...)
	be := beProto()
	num := 60
	if c.thorough() {
		num = 1500
	}
	for i := 0; i < num; i++ {
		k := 1 + i%3
		var ps []*Prog
		for j := 0; j < k; j++ {
			ps = append(ps, genProg(c.Seed*104729+int64(i*8+j), fmt.Sprint("P", j), baseK))
		}
		ss = append(ss, &schema{Name: fmt.Sprint("generated ", i), Files: map[string]string{"p.proto": renderFile("p", ps), "be/be.proto": be}, Entry: "p.proto"})
	}
	sinks := sinkPrograms()
	for i, p := range sinks {
		ss = append(ss, &schema{Name: fmt.Sprint("sink ", i), Files: map[string]string{"p.proto": renderFile("p", []*Prog{p}), "be/be.proto": be}, Entry: "p.proto"})
	}
	pool := newPool(8)
	defer pool.close()
	var reqs []*WReq
	for i, s := range ss {
		reqs = append(reqs, &WReq{Op: "codec", Dir: filepath.Join(c.Dir, "s", fmt.Sprint(i)), Files: s.Files, Entry: []string{s.Entry}})
	}
	var rows []*codecRow
	var wires []*codecWire
	var names []*schema
	words := map[string]string{}
	word := func(s string) string {
		w, ok := words[s]
		if !ok {
			w = fmt.Sprint("w", len(words))
			words[s] = w
		}
		return w
	}
	nodes := 0
	for i, r := range pool.all(reqs) {
		if r.Crash != "" || r.Hang {
			c.violation(fmt.Sprintf("%s: no answer: %s\n%s", ss[i].Name, r, dumpFiles(ss[i].Files)))
			continue
		}
		w := &codecWire{}
		must(json.Unmarshal(r.Value, w))
		if !w.Accepted {
			c.addInt("schemas_not_accepted", 1)
			continue
		}
		if w.Err != "" {
			c.violation(fmt.Sprintf("%s: the plugin cannot decode the request: %s\n%s", ss[i].Name, w.Err, dumpFiles(ss[i].Files)))
			continue
		}
		row := &codecRow{R: w.Row.R}
		short := func(l []*gnode) []*gnode {
			var out []*gnode
			for _, n := range l {
				out = append(out, &gnode{K: n.K, L: word(n.L), R: n.R})
			}
			return out
		}
		row.G, row.H = short(w.Row.G), short(w.Row.H)
		for _, t := range w.Row.T {
			row.T = append(row.T, [2]string{word(t[0]), word(t[1])})
		}
		nodes += len(row.G)
		rows, wires, names = append(rows, row), append(wires, w), append(names, ss[i])
	}
	path := filepath.Join(c.Dir, "codec.ndjson")
	writeNDJSON(path, rows)
	res, err = tlc(c.Dir, "CodecTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", []string{"TRACE=" + path}, 20*time.Minute)
	must(err)
	c.addInt("states", res.States)
	bad := map[int][]string{}
	for _, l := range res.Lines {
		var b struct {
			Bad, O, D int
			What      string
		}
		must(json.Unmarshal([]byte(l), &b))
		w := wires[b.Bad-1]
		s := ""
		switch b.What {
		case "node":
			x, y := w.Row.G[b.O-1], w.Row.H[b.D-1]
			s = fmt.Sprintf("%s: %s", w.Path[fmt.Sprintf("%d,%d", b.O, b.D)], nodeDiff(x, y, w.GR[b.O-1], w.HR[b.D-1]))
		case "identity":
			s = "identity of entities: " + strings.Join(w.Diff[:min(len(w.Diff), 6)], "; ")
		case "text":
			t := w.Row.T[b.O-1]
			s = fmt.Sprintf("%s differs: %s", w.Texts[b.O-1], firstDiff(t[0], t[1]))
		default:
			s = b.What
		}
		bad[b.Bad-1] = append(bad[b.Bad-1], s)
	}
	for i := range rows {
		if l := bad[i]; l != nil {
			c.violation(fmt.Sprintf("%s: what a plugin decodes differs from the resolver's result\n%s\n%s", names[i].Name, strings.Join(l[:min(len(l), 25)], "\n"), dumpFiles(names[i].Files)))
		}
	}
	c.addInt("schemas", len(rows))
	c.addInt("nodes", nodes)
	c.addInt("traces_validated_against_impl", len(rows))
	c.Ev.Coverage["samples"] = []any{names[0].Name, len(rows[0].G)}
}

func nodeDiff(x, y *gnode, xr, yr []string) string {
	if x.K != y.K {
		return fmt.Sprintf("a %s became a %s", x.K, y.K)
	}
	a, b := strings.Split(x.L, "|"), strings.Split(y.L, "|")
	for i := range a {
		if i < len(b) && a[i] != b[i] {
			return fmt.Sprintf("%s: %s became %s", x.K, a[i], b[i])
		}
	}
	if x.L != y.L {
		return fmt.Sprintf("%s: %s became %s", x.K, x.L, y.L)
	}
	for i := range x.R {
		if i < len(y.R) && (x.R[i] == 0) != (y.R[i] == 0) {
			return fmt.Sprintf("%s.%s: present %v became %v", x.K, xr[i], x.R[i] != 0, y.R[i] != 0)
		}
	}
	return fmt.Sprintf("%s: references differ", x.K)
}
