package main

// S01: source positions and locations, against spec/SrcLoc.tla.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/mercari/grpc-federation/source"
)

func init() { otherChecks["S01"] = checkS01 }

type slEntry struct {
	C    string   `json:"c"`
	F    string   `json:"f"`
	Seg  []string `json:"seg"`
	How  string   `json:"how"`
	To   string   `json:"to"`
	Find bool     `json:"find"`
	V    string   `json:"v"`
}

type slNode struct {
	P  int    `json:"p"`
	F  string `json:"f"`
	Nm string `json:"nm"`
	S  int    `json:"s"`
	E  int    `json:"e"`

	ent  *slEntry
	num  int
	path []string
}

// slDoc is a document that is being written.
type slDoc struct {
	rng   *rand.Rand
	table map[string][]*slEntry
	b     strings.Builder
	line  int
	col   int
	end   int // position of the last character written
	nodes []*slNode
	names int
	multi bool
}

func (d *slDoc) w(s string) {
	for _, r := range s {
		d.b.WriteRune(r)
		if r == '\n' {
			d.line++
			d.col = 1
			continue
		}
		d.end = d.line*1000 + d.col
		d.col++
	}
}

func (d *slDoc) pos() int { return d.line*1000 + d.col }

func (d *slDoc) entry(c, f string) *slEntry {
	for _, e := range d.table[c] {
		if e.F == f {
			return e
		}
	}
	panic("no entry " + c + "." + f)
}

// open begins element f of context c below parent p and returns its index.
func (d *slDoc) open(p int, c, f, name string) int {
	n := &slNode{P: p, F: f, Nm: name, S: d.pos(), ent: d.entry(c, f)}
	for i := p; i < len(d.nodes); i++ {
		if d.nodes[i].P == p && d.nodes[i].F == f {
			n.num++
		}
	}
	d.nodes = append(d.nodes, n)
	return len(d.nodes)
}

func (d *slDoc) close(i int) { d.nodes[i-1].E = d.end }

func (d *slDoc) name(prefix string) string {
	d.names++
	return fmt.Sprintf("%s%d", prefix, d.names)
}

func (d *slDoc) nl() {
	switch d.rng.Intn(12) {
	case 0:
		d.w(" ")
	case 1:
		d.w(" /* note */ ")
	case 2:
		d.w(" // note\n")
	case 3:
		d.w("\n\n   ")
	default:
		d.w("\n" + strings.Repeat(" ", 1+d.rng.Intn(5)))
	}
}

func (d *slDoc) str() {
	one := func() {
		q := []string{`"`, `"`, `'`}[d.rng.Intn(3)]
		d.w(q + []string{"a", "", "x.y", "$.id", "org.Post/Get", "1 + 2", "[1, 2].all(x, x > 0)"}[d.rng.Intn(7)] + q)
	}
	one()
	if d.rng.Intn(9) == 0 {
		d.nl()
		one()
	}
}

func (d *slDoc) value(v string) {
	switch v {
	case "str":
		d.str()
	case "strs":
		if d.rng.Intn(2) == 0 {
			d.str()
			return
		}
		d.w("[")
		for i, n := 0, 1+d.rng.Intn(2); i < n; i++ {
			if i > 0 {
				d.w(", ")
			}
			d.str()
		}
		d.w("]")
	case "bool":
		d.w([]string{"true", "false"}[d.rng.Intn(2)])
	case "num":
		d.w([]string{"3", "0", "250"}[d.rng.Intn(3)])
	case "ident":
		d.w("INVALID_ARGUMENT")
	case "any":
		d.w("{ kind: STRING }")
	default:
		panic("value " + v)
	}
}

// literal writes a message literal of context c for element p: every field with probability prob.
func (d *slDoc) literal(p int, c string, depth int, fields []string) {
	d.w("{")
	var es []*slEntry
	if fields != nil {
		for _, f := range fields {
			es = append(es, d.entry(c, f))
		}
	} else {
		es = append(es, d.table[c]...)
		d.rng.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
		keep := es[:0]
		for _, e := range es {
			k := 2
			if e.To != "" && depth > 2 {
				k = 4
			}
			if d.rng.Intn(k) == 0 || (depth == 0 && e.F == "def" && d.rng.Intn(3) > 0) {
				keep = append(keep, e)
			}
		}
		es = keep
	}
	// entries of lists, some apart from each other
	type item struct {
		e *slEntry
		n int
	}
	var items []item
	for _, e := range es {
		switch {
		case e.How != "idx" || e.V == "one":
			items = append(items, item{e, -1})
		case d.rng.Intn(2) == 0:
			items = append(items, item{e, 1 + d.rng.Intn(3)})
		default:
			for i := d.rng.Intn(3); i >= 0; i-- {
				items = append(items, item{e, []int{-1, -1, 1, 2}[d.rng.Intn(4)]})
			}
			if d.rng.Intn(2) == 0 {
				d.rng.Shuffle(len(items), func(i, j int) { items[i], items[j] = items[j], items[i] })
			}
		}
	}
	sep := []string{"", ",", ";"}[d.rng.Intn(3)]
	for i, it := range items {
		d.nl()
		d.w(it.e.F)
		one := func() {
			n := d.open(p, c, it.e.F, "")
			if it.e.How == "leaf" {
				d.value(it.e.V)
			} else {
				var fs []string
				if it.e.To == "def" && d.rng.Intn(3) > 0 {
					fs = d.defFields()
				}
				d.literal(n, it.e.To, depth+1, fs)
			}
			d.close(n)
		}
		if it.n < 0 {
			if it.e.How == "leaf" || d.rng.Intn(2) == 0 {
				d.w(":")
			}
			d.w(" ")
			one()
		} else {
			d.w(": [")
			for k := 0; k < it.n; k++ {
				if k > 0 {
					d.w(",")
				}
				d.nl()
				one()
			}
			d.w(" ]")
		}
		if i+1 < len(items) || d.rng.Intn(2) == 0 {
			d.w(sep)
		}
	}
	d.nl()
	d.w("}")
}

func (d *slDoc) defFields() []string {
	fs := []string{"name", []string{"by", "call", "call", "message", "message", "map", "enum", "validation"}[d.rng.Intn(8)]}
	if d.rng.Intn(3) == 0 {
		fs = append(fs, "if")
	}
	d.rng.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	return fs
}

// optLit writes the option of rule as a literal; optPath as option (rule).field = value.
func (d *slDoc) optLit(p int, c, rule string, stmt bool) {
	n := d.open(p, c, "option", "")
	if stmt {
		d.w("option ")
	}
	d.w("(" + []string{"", "."}[d.rng.Intn(2)] + "grpc.federation." + rule + ") = ")
	d.literal(n, d.entry(c, "option").To, 0, nil)
	if stmt {
		d.w(";")
	}
	d.close(n)
}

func (d *slDoc) optPath(p int, c, rule, f string, stmt bool) {
	n := d.open(p, c, "option", "")
	if stmt {
		d.w("option ")
	}
	d.w("(grpc.federation." + rule + ")." + f + " = ")
	e := d.entry(d.entry(c, "option").To, f)
	l := d.open(n, e.C, f, "")
	v := e.V
	if v == "strs" {
		v = "str"
	}
	d.value(v)
	d.close(l)
	if stmt {
		d.w(";")
	}
	d.close(n)
}

// compact writes the options in brackets.
func (d *slDoc) compact(p int, c, rule string, fs []string) {
	d.w(" [")
	lit := d.rng.Intn(2) == 0
	if d.rng.Intn(3) == 0 {
		d.w("deprecated = true, ")
	}
	if lit {
		d.optLit(p, c, rule, false)
	} else {
		d.rng.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
		for i, f := range fs[:1+d.rng.Intn(len(fs))] {
			if i > 0 {
				d.w(", ")
			}
			d.optPath(p, c, rule, f, false)
		}
	}
	if d.rng.Intn(3) == 0 {
		d.w(", json_name = \"q\"")
	}
	d.w("]")
}

func (d *slDoc) pick(c string, n int) []string {
	items := map[string][]string{
		"msg":  {"field", "fieldopt", "mapfield", "oneof", "message", "enum", "optlit", "optpath"},
		"enum": {"optlit", "optpath", "value", "valueopt"}, "svc": {"optlit", "rpc", "rpcopt"},
	}[c]
	var out []string
	for i := 0; i < n; i++ {
		out = append(out, items[d.rng.Intn(len(items))])
	}
	return out
}

func (d *slDoc) field(p int, opt, inOneof bool) {
	name := d.name("f")
	d.nl()
	n := d.open(p, "msg", "field", name)
	if !inOneof && d.rng.Intn(3) == 0 {
		d.w("repeated ")
	}
	t := d.open(n, "fld", "type", "")
	d.w([]string{"string", "int64", "Post", "org.user.Name", ".a.B"}[d.rng.Intn(5)])
	d.close(t)
	d.w(fmt.Sprintf(" %s = %d", name, d.names))
	if opt {
		d.compact(n, "fld", "field", []string{"by", "alias"})
	}
	d.w(";")
	d.close(n)
}

func (d *slDoc) message(p int, c string, items []string, depth int) {
	name := d.name("M")
	d.nl()
	n := d.open(p, c, "message", name)
	d.w("message " + name + " {")
	lits := 0
	for _, it := range items {
		switch it {
		case "field", "fieldopt":
			d.field(n, it == "fieldopt", false)
		case "mapfield":
			d.nl()
			name := d.name("f")
			m := d.open(n, "msg", "mapfield", name)
			t := d.open(m, "mfld", "type", "")
			d.w("map<string, int32>")
			d.close(t)
			d.w(fmt.Sprintf(" %s = %d", name, d.names))
			if d.rng.Intn(2) == 0 {
				d.compact(m, "mfld", "field", []string{"by"})
			}
			d.w(";")
			d.close(m)
		case "oneof":
			d.nl()
			name := d.name("o")
			o := d.open(n, "msg", "oneof", name)
			d.w("oneof " + name + " {")
			for i := 1 + d.rng.Intn(2); i > 0; i-- {
				d.field(o, d.rng.Intn(2) == 0, true)
			}
			d.nl()
			d.w("}")
			d.close(o)
		case "message":
			if depth < 3 {
				d.message(n, "msg", d.pick("msg", 1+d.rng.Intn(3)), depth+1)
			}
		case "enum":
			d.enum(n, "msg", d.pick("enum", 1+d.rng.Intn(3)))
		case "optlit":
			d.nl()
			// definitions are in one option only
			if lits++; lits == 1 {
				d.optLit(n, "msg", "message", true)
			} else {
				d.w("option deprecated = true;")
			}
		case "optpath":
			d.nl()
			if lits == 0 || d.rng.Intn(2) == 0 {
				o := d.open(n, "msg", "option", "")
				d.w("option (grpc.federation.message).custom_resolver = true;")
				d.close(o)
				d.nl()
			}
			d.w("option deprecated = false;")
			d.nl()
			if lits++; lits == 1 {
				d.optPath(n, "msg", "message", "alias", true)
			}
		}
	}
	d.nl()
	d.w("}")
	d.close(n)
}

func (d *slDoc) enum(p int, c string, items []string) {
	name := d.name("E")
	d.nl()
	n := d.open(p, c, "enum", name)
	d.w("enum " + name + " {")
	lits := 0
	for _, it := range items {
		d.nl()
		switch it {
		case "optlit":
			if lits++; lits == 1 {
				d.optLit(n, "enum", "enum", true)
			}
		case "optpath":
			d.w("option allow_alias = true;")
			d.nl()
			if lits++; lits == 1 {
				d.optPath(n, "enum", "enum", "alias", true)
			}
		default:
			name := d.name("V")
			v := d.open(n, "enum", "value", name)
			d.w(fmt.Sprintf("%s = %d", name, d.names))
			if it == "valueopt" {
				d.compact(v, "evalue", "enum_value", []string{"alias", "default"})
			}
			d.w(";")
			d.close(v)
		}
	}
	d.nl()
	d.w("}")
	d.close(n)
}

func (d *slDoc) service(items []string) {
	name := d.name("S")
	d.nl()
	n := d.open(0, "root", "service", name)
	d.w("service " + name + " {")
	lits := 0
	for _, it := range items {
		d.nl()
		switch it {
		case "optlit":
			if lits++; lits == 1 {
				d.optLit(n, "svc", "service", true)
			}
		default:
			name := d.name("R")
			r := d.open(n, "svc", "rpc", name)
			d.w("rpc " + name)
			for i, f := range []string{"request", "response"} {
				d.w([]string{" ", " returns "}[i])
				t := d.open(r, "rpc", f, "")
				d.w("(" + []string{"Q", "org.Res"}[d.rng.Intn(2)] + ")")
				d.close(t)
			}
			if it == "rpcopt" {
				d.w(" {")
				d.nl()
				if d.rng.Intn(2) == 0 {
					d.optLit(r, "rpc", "method", true)
				} else {
					fs := []string{"timeout", "response"}
					if d.rng.Intn(2) == 0 {
						fs[0], fs[1] = fs[1], fs[0]
					}
					for _, f := range fs[:1+d.rng.Intn(2)] {
						d.optPath(r, "rpc", "method", f, true)
						d.nl()
					}
				}
				d.nl()
				d.w("}")
			} else {
				d.w([]string{";", " {}"}[d.rng.Intn(2)])
			}
			d.close(r)
		}
	}
	d.nl()
	d.w("}")
	d.close(n)
}

func (d *slDoc) root(items []string) {
	fileOpt, goPkg := false, false
	for _, it := range items {
		d.nl()
		switch it {
		case "import":
			name := d.name("i") + ".proto"
			d.w("import " + []string{"", "public "}[d.rng.Intn(2)])
			n := d.open(0, "root", "import", name)
			d.w(`"` + name + `"`)
			d.close(n)
			d.w(";")
		case "fileimport":
			if fileOpt {
				continue
			}
			fileOpt = true
			d.w("option (grpc.federation.file) = { import: [")
			for i := 1 + d.rng.Intn(2); i > 0; i-- {
				name := d.name("i") + ".proto"
				n := d.open(0, "root", "fileimport", name)
				d.w(`"` + name + `"`)
				d.close(n)
				if i > 1 {
					d.w(", ")
				}
			}
			d.w("] };")
		case "go_package":
			if goPkg {
				continue
			}
			goPkg = true
			d.w("option go_package = ")
			n := d.open(0, "root", "go_package", "")
			d.str()
			d.close(n)
			d.w(";")
		case "message":
			d.message(0, "root", d.pick("msg", 1+d.rng.Intn(4)), 0)
		case "enum":
			d.enum(0, "root", d.pick("enum", 1+d.rng.Intn(4)))
		case "service":
			d.service(d.pick("svc", 1+d.rng.Intn(3)))
		}
	}
}

// locPath flattens a location.
func locPath(v reflect.Value) []string {
	var out []string
	for v.Kind() == reflect.Pointer {
		v = v.Elem()
	}
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		name, f := t.Field(i).Name, v.Field(i)
		switch f.Kind() {
		case reflect.Int:
			out = append(out, strconv.Itoa(int(f.Int())))
		case reflect.Bool:
			if f.Bool() {
				out = append(out, name)
			}
		case reflect.String:
			switch {
			case name == "FileName" || f.String() == "":
			case name == "ImportName":
				out = append(out, name, f.String())
			case name == "FieldName":
				out = append(out, "FieldName:"+f.String())
			default:
				out = append([]string{f.String()}, out...)
			}
		case reflect.Struct:
			out = append(out, name)
			out = append(out, locPath(f)...)
		case reflect.Pointer:
			if !f.IsNil() {
				out = append(out, name)
				out = append(out, locPath(f)...)
			}
		}
	}
	return out
}

// pathLoc makes the location of a path.
func pathLoc(path []string, v reflect.Value) {
	for len(path) > 0 {
		if strings.HasPrefix(path[0], "FieldName:") {
			v.FieldByName("FieldName").SetString(path[0][10:])
			return
		}
		f := v.FieldByName(path[0])
		path = path[1:]
		switch f.Kind() {
		case reflect.Bool:
			f.SetBool(true)
			return
		case reflect.String:
			f.SetString(path[0])
			return
		case reflect.Pointer:
			f.Set(reflect.New(f.Type().Elem()))
			v = f.Elem()
		case reflect.Struct:
			v = f
		default:
			panic(fmt.Sprint("location ", path))
		}
		if v.NumField() == 0 {
			return
		}
		switch v.Type().Field(0).Name {
		case "Name", "Value":
			if v.Field(0).Kind() == reflect.String {
				v.Field(0).SetString(path[0])
				path = path[1:]
			}
		case "Idx":
			n, _ := strconv.Atoi(path[0])
			v.Field(0).SetInt(int64(n))
			path = path[1:]
		default:
			// the name of a field is not the first member
			if f := v.FieldByName("Name"); f.IsValid() && f.Kind() == reflect.String {
				f.SetString(path[0])
				path = path[1:]
			}
		}
	}
}

// builtLoc makes the location with the builders, if there are all that are needed.
func builtLoc(file string, path []string) *source.Location {
	v := reflect.ValueOf(source.NewLocationBuilder(file))
	special := map[string]string{"NestedMessage": "Message", "Iterator/Name": "IteratorName", "Iterator/Source": "IteratorSource", "Constant/Interval": "ConstantInterval",
		"Exponential/InitialInterval": "ExponentialInitialInterval", "Exponential/MaxInterval": "ExponentialMaxInterval"}
	for len(path) > 0 {
		seg := path[0]
		path = path[1:]
		if len(path) > 0 && special[seg+"/"+path[0]] != "" {
			seg = special[seg+"/"+path[0]]
			path = path[1:]
		} else if special[seg] != "" {
			seg = special[seg]
		}
		m := v.MethodByName("With" + seg)
		if !m.IsValid() && seg == "Oneof" {
			m = v.MethodByName("WithOneOf")
		}
		if _, ok := v.Interface().(*source.EnumBuilder); ok && seg == "Option" {
			// stands for the alias
			if len(path) == 0 {
				return nil
			}
			path = path[1:]
		}
		if !m.IsValid() || m.Type().NumOut() == 0 {
			return nil
		}
		var args []reflect.Value
		for i := 0; i < m.Type().NumIn(); i++ {
			if len(path) == 0 {
				return nil
			}
			if path[0] == "Violation" || path[0] == "FieldViolation" {
				path = path[1:]
			}
			if m.Type().In(i).Kind() == reflect.Int {
				n, err := strconv.Atoi(path[0])
				if err != nil {
					return nil
				}
				args = append(args, reflect.ValueOf(n))
			} else {
				args = append(args, reflect.ValueOf(strings.TrimPrefix(path[0], "FieldName:")))
			}
			path = path[1:]
			if i+1 < m.Type().NumIn() && len(path) == 0 {
				return nil
			}
		}
		if seg == "Error" && m.Type().NumIn() == 0 && len(path) > 0 {
			path = path[1:]
		}
		v = m.Call(args)[0]
	}
	l := v.MethodByName("Location")
	if !l.IsValid() {
		return nil
	}
	return l.Call(nil)[0].Interface().(*source.Location)
}

type slLoc struct {
	I    int      `json:"i"`
	S    int      `json:"s"`
	E    int      `json:"e"`
	Path []string `json:"path,omitempty"`
}

type slRun struct {
	A    int      `json:"a"`
	B    int      `json:"b"`
	S    int      `json:"s"`
	E    int      `json:"e"`
	Path []string `json:"path"`
}

type slLog struct {
	Nodes []*slNode `json:"nodes"`
	Locs  []slLoc   `json:"locs"`
	Built []slLoc   `json:"built"`
	Runs  []*slRun  `json:"runs"`
}

// slRecord looks up every position and every location of the document.
func slRecord(text string, nodes []*slNode) (log *slLog, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	file, err := source.NewFile("dir/doc.proto", []byte(text))
	if err != nil {
		return nil, err
	}
	span := func(l *source.Location) (int, int) {
		info := file.NodeInfoByLocation(l)
		if info == nil {
			return 0, 0
		}
		return info.Start().Line*1000 + info.Start().Col, info.End().Line*1000 + info.End().Col - 1
	}
	log = &slLog{Nodes: append([]*slNode{}, nodes...), Locs: []slLoc{}, Built: []slLoc{}, Runs: []*slRun{}}
	for i, n := range nodes {
		l := &source.Location{FileName: "dir/doc.proto"}
		pathLoc(n.path, reflect.ValueOf(l).Elem())
		s, e := span(l)
		log.Locs = append(log.Locs, slLoc{I: i + 1, S: s, E: e})
		if b := builtLoc("dir/doc.proto", n.path); b != nil && n.ent.V != "hidden" {
			p := locPath(reflect.ValueOf(b))
			if b.FileName != "dir/doc.proto" {
				p = append(p, "file "+b.FileName)
			}
			log.Built = append(log.Built, slLoc{I: i + 1, Path: p})
		}
	}
	var last *slRun
	for ln, l := range strings.Split(text, "\n") {
		for col := 1; col <= len(l)+1; col++ {
			loc := file.FindLocationByPos(source.Position{Line: ln + 1, Col: col})
			if loc == nil {
				last = nil
				continue
			}
			p := (ln+1)*1000 + col
			path := locPath(reflect.ValueOf(loc))
			if loc.FileName != "dir/doc.proto" {
				path = append(path, "file "+loc.FileName)
			}
			s, e := span(loc)
			if last != nil && last.S == s && last.E == e && strings.Join(last.Path, "/") == strings.Join(path, "/") {
				last.B = p
				continue
			}
			last = &slRun{A: p, B: p, S: s, E: e, Path: path}
			log.Runs = append(log.Runs, last)
		}
	}
	return log, nil
}

func (d *slDoc) paths() {
	for _, n := range d.nodes {
		p := n.P
		for p > 0 && d.nodes[p-1].ent.V == "hidden" {
			p = d.nodes[p-1].P
		}
		if p > 0 {
			n.path = append(n.path, d.nodes[p-1].path...)
		}
		n.path = append(n.path, n.ent.Seg...)
		switch n.ent.How {
		case "idx":
			n.path = append(n.path, strconv.Itoa(n.num))
		case "named":
			n.path = append(n.path, n.Nm)
		}
	}
}

func checkS01(c *Check) {
	res, err := tlc(c.Dir, "SrcLocGen", "SPECIFICATION Spec\nINVARIANT Show\nCONSTANT MaxLen = 3\nCHECK_DEADLOCK FALSE\n", nil, 5*time.Minute)
	must(err)
	c.addInt("states", res.States)
	table := map[string][]*slEntry{}
	type order struct {
		C     string     `json:"c"`
		Items []string   `json:"items"`
		Table []*slEntry `json:"table"`
	}
	var orders []*order
	for _, l := range res.Lines {
		o := &order{}
		must(json.Unmarshal([]byte(l), o))
		if o.C == "table" {
			for _, e := range o.Table {
				table[e.C] = append(table[e.C], e)
			}
			continue
		}
		orders = append(orders, o)
	}
	if len(table) < 20 || len(orders) < 500 {
		must(fmt.Errorf("%d contexts, %d orders\n%s", len(table), len(orders), tail(res.Out, 2000)))
	}
	docs, looked, elements := 0, 0, 0
	for round := 0; round == 0 || (c.thorough() && time.Since(c.Start) < c.budget() && len(c.bad) == 0); round++ {
		texts := make([]string, len(orders))
		logs := make([]*slLog, len(orders))
		errs := make([]error, len(orders))
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		for i, o := range orders {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				d := &slDoc{rng: rand.New(rand.NewSource(c.Seed*1000003 + int64(round)*10007 + int64(i))), table: table, line: 1, col: 1}
				d.w("syntax = \"proto3\";\npackage p;\n")
				if d.rng.Intn(2) == 0 {
					d.w("// naïve\n")
				}
				switch o.C {
				case "root":
					d.root(o.Items)
				case "msg":
					d.message(0, "root", o.Items, 0)
				case "enum":
					d.enum(0, "root", o.Items)
				case "svc":
					d.service(o.Items)
				case "def":
					n := d.open(0, "root", "message", "M0")
					d.w("message M0 {")
					d.nl()
					p := d.open(n, "msg", "option", "")
					d.w("option (grpc.federation.message) = {")
					for k := 0; k < len(o.Items); {
						m := 1
						list := d.rng.Intn(2) == 0
						if list {
							m = 1 + d.rng.Intn(len(o.Items)-k)
							d.w("def: [")
						}
						for ; m > 0; m-- {
							if !list {
								d.nl()
								d.w("def ")
							}
							x := d.open(p, "mopt", "def", "")
							fs := []string{"name", o.Items[k]}
							if d.rng.Intn(2) == 0 {
								fs = []string{o.Items[k], "if", "name"}
							}
							d.literal(x, "def", 1, fs)
							d.close(x)
							k++
							if list && m > 1 {
								d.w(",")
							}
						}
						if list {
							d.w("]")
						}
					}
					d.nl()
					d.w("};")
					d.close(p)
					d.w("\n}")
					d.close(n)
				}
				d.w("\n")
				d.paths()
				texts[i] = d.b.String()
				logs[i], errs[i] = slRecord(texts[i], d.nodes)
			}()
		}
		wg.Wait()
		var recs []any
		var idx []int
		for i, l := range logs {
			if errs[i] != nil {
				c.violation(fmt.Sprintf("looking up locations failed: %v\n%s", errs[i], texts[i]))
				continue
			}
			recs = append(recs, l)
			idx = append(idx, i)
			docs++
			elements += len(l.Nodes)
			looked += len(texts[i])
		}
		file := filepath.Join(c.Dir, fmt.Sprintf("srcloc%d.ndjson", round))
		writeNDJSON(file, recs)
		res, err := tlc(c.Dir, "SrcLocTrace", "SPECIFICATION Spec\nINVARIANT Judge\nCHECK_DEADLOCK FALSE\n", []string{"TRACE=" + file}, 10*time.Minute)
		must(err)
		if res.States != len(recs) {
			must(fmt.Errorf("%d of %d documents checked", res.States, len(recs)))
		}
		c.addInt("states", res.States)
		seen := map[string]bool{}
		for _, l := range res.Lines {
			var b struct {
				Doc  int             `json:"doc"`
				What string          `json:"what"`
				Path []string        `json:"path"`
				Rec  json.RawMessage `json:"rec"`
			}
			must(json.Unmarshal([]byte(l), &b))
			k := fmt.Sprint(b.What, b.Path)
			for _, ch := range "0123456789" {
				k = strings.ReplaceAll(k, string(ch), "")
			}
			if seen[k] || len(seen) > 60 {
				continue
			}
			seen[k] = true
			c.violation(fmt.Sprintf("%s %s: %s (positions are line*1000+column)\n%s", map[string]string{"locate": "the position of location", "build": "the location built for",
				"found": "the location found at a position", "find": "no or another location was found in"}[b.What], strings.Join(b.Path, "/"), b.Rec, numbered(texts[idx[b.Doc-1]])))
		}
	}
	c.Ev.Coverage["documents"] = docs
	c.Ev.Coverage["elements"] = elements
	c.Ev.Coverage["positions"] = looked
	c.Ev.Level = "model_checking"
}

func numbered(s string) string {
	var b strings.Builder
	for i, l := range strings.Split(s, "\n") {
		fmt.Fprintf(&b, "%3d %s\n", i+1, l)
	}
	return b.String()
}
