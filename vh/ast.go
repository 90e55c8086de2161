package main

// Abstract syntax of the federation programs used by the runtime engine.
// Every node renders to CEL / proto text (for the real pipeline) and to JSON (for the TLA+ specification).

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"
)

type J = map[string]any

// Ty: "int","str","bool","ints","strs","item","items","res","ress","enum", "m:X" (message X), "l:X" (list of message X)
type Ty string

func (t Ty) isList() bool {
	return t == "ints" || t == "strs" || t == "items" || t == "ress" || t == "enums" || t == "bools" || strings.HasPrefix(string(t), "l:")
}

func (t Ty) elem() Ty {
	switch t {
	case "ints":
		return "int"
	case "strs":
		return "str"
	case "bools":
		return "bool"
	case "items":
		return "item"
	case "ress":
		return "res"
	case "enums":
		return "enum"
	}
	if strings.HasPrefix(string(t), "l:") {
		return Ty("m:" + string(t[2:]))
	}
	panic("elem of " + string(t))
}

func (t Ty) zero() any {
	switch {
	case t == "int" || t == "enum":
		return 0
	case t == "str":
		return ""
	case t == "bool":
		return false
	case t.isList():
		return []any{}
	}
	return J{"t": "nil"}
}

// empty is what selecting an unset field of the type yields: an empty message for messages.
func (t Ty) empty() any {
	switch {
	case t == "item":
		return J{"t": "msg", "f": defaultsOf("be.Item")}
	case t == "res":
		return J{"t": "msg", "f": defaultsOf("be.Res")}
	case strings.HasPrefix(string(t), "m:"):
		return J{"t": "msg", "f": defaultsOf(string(t[2:]))}
	}
	return t.zero()
}

// curProg is the program being encoded.
var curProg *Prog

func (t Ty) proto() string {
	switch t {
	case "int":
		return "int64"
	case "str":
		return "string"
	case "bool":
		return "bool"
	case "ints":
		return "repeated int64"
	case "strs":
		return "repeated string"
	case "bools":
		return "repeated bool"
	case "item":
		return "be.Item"
	case "items":
		return "repeated be.Item"
	case "res":
		return "be.Res"
	case "ress":
		return "repeated be.Res"
	case "enum":
		return "be.E"
	case "enums":
		return "repeated be.E"
	}
	if strings.HasPrefix(string(t), "m:") {
		return string(t[2:])
	}
	return "repeated " + string(t[2:])
}

// Expr is an expression node.
type Expr struct {
	K  string
	T  Ty
	V  any
	N  string
	F  string
	Op string
	A  []*Expr
	Fs []FieldExpr
}

type FieldExpr struct {
	N string
	E *Expr
}

func lit(t Ty, v any) *Expr    { return &Expr{K: "lit", T: t, V: v} }
func intLit(n int) *Expr       { return lit("int", n) }
func strLit(s string) *Expr    { return lit("str", s) }
func boolLit(b bool) *Expr     { return lit("bool", b) }
func vr(n string, t Ty) *Expr  { return &Expr{K: "var", N: n, T: t} }
func arg(n string, t Ty) *Expr { return &Expr{K: "arg", N: n, T: t} }
func op(t Ty, o string, a ...*Expr) *Expr {
	return &Expr{K: "op", T: t, Op: o, A: a}
}
func sel(e *Expr, f string, t Ty) *Expr { return &Expr{K: "sel", A: []*Expr{e}, F: f, T: t} }

func (e *Expr) cel() string {
	switch e.K {
	case "lit":
		switch v := e.V.(type) {
		case int:
			if e.N != "" {
				return e.N
			}
			return fmt.Sprint(v)
		case string:
			return "'" + v + "'"
		case bool:
			return fmt.Sprint(v)
		case []int:
			s := []string{}
			for _, x := range v {
				s = append(s, fmt.Sprint(x))
			}
			return "[" + strings.Join(s, ", ") + "]"
		case []string:
			s := []string{}
			for _, x := range v {
				s = append(s, "'"+x+"'")
			}
			return "[" + strings.Join(s, ", ") + "]"
		}
		panic(fmt.Sprintf("lit %T", e.V))
	case "var":
		return e.N
	case "arg":
		return "$." + e.N
	case "sel":
		return e.A[0].cel() + "." + e.F
	case "err":
		switch e.F {
		case "code", "message":
		case "details":
			return "size(error.details)"
		default:
			return errLists[e.F]
		}
		return "error." + e.F
	case "mk":
		fs := []string{}
		for _, f := range e.Fs {
			fs = append(fs, f.N+": "+f.E.cel())
		}
		return e.N + "{" + strings.Join(fs, ", ") + "}"
	case "op":
		a := []string{}
		for _, x := range e.A {
			a = append(a, x.cel())
		}
		switch e.Op {
		case "+", "cat", "catl":
			return "(" + a[0] + " + " + a[1] + ")"
		case "eq":
			return "(" + a[0] + " == " + a[1] + ")"
		case "ne":
			return "(" + a[0] + " != " + a[1] + ")"
		case "lt":
			return "(" + a[0] + " < " + a[1] + ")"
		case "ge":
			return "(" + a[0] + " >= " + a[1] + ")"
		case "and":
			return "(" + a[0] + " && " + a[1] + ")"
		case "or":
			return "(" + a[0] + " || " + a[1] + ")"
		case "not":
			return "!(" + a[0] + ")"
		case "tern":
			return "(" + a[0] + " ? " + a[1] + " : " + a[2] + ")"
		case "size":
			return "size(" + a[0] + ")"
		case "idx":
			return a[0] + "[" + a[1] + "]"
		case "wrap":
			return "size([" + a[0] + "])"
		case "list":
			return "[" + strings.Join(a, ", ") + "]"
		case "tostr":
			return "string(" + a[0] + ")"
		case "madd":
			return a[0] + ".map(zz, zz + " + a[1] + ")"
		case "fge":
			return a[0] + ".filter(zz, zz >= " + a[1] + ")"
		case "iname":
			return a[0] + ".map(zz, zz.s)"
		case "inum":
			return a[0] + ".map(zz, zz.n)"
		case "isnull", "notnull":
			o := map[string]string{"isnull": " == ", "notnull": " != "}[e.Op]
			if e.V == 1 {
				return "(null" + o + a[0] + ")"
			}
			return "(" + a[0] + o + "null)"
		}
	}
	panic("cel " + e.K + e.Op)
}

func (e *Expr) json() J {
	switch e.K {
	case "lit":
		return J{"k": "lit", "v": e.V}
	case "var":
		return J{"k": "var", "n": e.N}
	case "arg":
		return J{"k": "var", "n": "$" + e.N}
	case "sel":
		return J{"k": "sel", "e": e.A[0].json(), "f": e.F, "z": e.T.empty(), "zm": e.T == "item" || e.T == "res" || strings.HasPrefix(string(e.T), "m:")}
	case "err":
		return J{"k": "err", "f": e.F}
	case "mk":
		// full record of the message with defaults
		fs := []J{}
		for _, f := range e.Fs {
			fs = append(fs, J{"n": f.N, "e": f.E.json()})
		}
		return J{"k": "mk", "n": e.N, "f": fs, "d": defaultsOf(e.N)}
	case "op":
		a := []J{}
		for _, x := range e.A {
			a = append(a, x.json())
		}
		return J{"k": "op", "op": e.Op, "a": a}
	}
	panic("json " + e.K)
}

// errLists are the texts of the error's details of a kind.
var errLists = map[string]string{
	"info":    "error.error_info.map(zz, zz.reason + (size(zz.metadata) > 0 ? '[' + zz.metadata['method'] + ',' + zz.metadata['timeout'] + ']' : ''))",
	"loc":     "error.localized_messages.map(zz, zz.message)",
	"debug":   "error.debug_info.map(zz, zz.detail)",
	"reqinfo": "error.request_info.map(zz, zz.request_id)",
	"resinfo": "error.resource_info.map(zz, zz.resource_name)",
	"retry":   "error.retry_info.map(zz, string(zz.retry_delay))",
	"quota":   "error.quota_failures.map(zz, zz.violations[0].subject + ';')",
	"pre":     "error.precondition_failures.map(zz, zz.violations[0].type + ',' + zz.violations[0].subject + '=' + zz.violations[0].description + ';')",
	"bad":     "error.bad_requests.map(zz, zz.field_violations[0].field + '=' + zz.field_violations[0].description + ';')",
	"help":    "error.helps.map(zz, zz.links[0].description + zz.links[0].url + ';')",
	"Item":    "error.custom_messages.map(zz, string(zz.n) + ':' + string(zz.s))",
}

func defaultsOf(n string) J {
	switch n {
	case "be.Item":
		return J{"n": 0, "s": ""}
	case "be.Res":
		return J{"n": 0, "s": "", "b": false, "ns": []any{}, "items": []any{}, "item": J{"t": "nil"}, "e": 0}
	case "be.Req":
		return J{"id": "", "n": 0, "s": "", "b": false, "ns": []any{}, "item": J{"t": "nil"}, "e": 0}
	}
	for _, m := range curProg.Msgs {
		if m.Name == n {
			return m.fz()
		}
	}
	panic("defaults of " + n)
}

func (e *Expr) refs(m map[string]bool) {
	if e == nil {
		return
	}
	if e.K == "var" {
		m[e.N] = true
	}
	for _, a := range e.A {
		a.refs(m)
	}
	for _, f := range e.Fs {
		f.E.refs(m)
	}
}

// mayFail: the evaluation of the expression may fail.
func (e *Expr) mayFail() bool {
	if e == nil {
		return false
	}
	if e.K == "op" && e.Op == "idx" && e.A[0].K == "lit" {
		return true
	}
	for _, a := range e.A {
		if a.mayFail() {
			return true
		}
	}
	for _, f := range e.Fs {
		if f.E.mayFail() {
			return true
		}
	}
	return false
}

// ReqField is a request field or a message argument.
type ReqField struct {
	F      string
	By     *Expr
	If     *Expr
	Inline bool // By is a message value whose fields become arguments
}

type Retry struct {
	Kind string // constant|exponential
	Max  int    // -1: unspecified; 0: unlimited
	Ms   int    // 0: an interval too short to be observed
	If   *Expr
}

type Detail struct {
	If   *Expr
	Defs []*Def
	By   []*Expr    // item message values
	Msgs []*MsgUse  // message: {name args}
	Bad  [][2]*Expr // field, desc
	Pre  [][3]*Expr // type subject desc
	Loc  []*Expr    // locale en-US, message
}

type MsgUse struct {
	Name string
	Args []*ReqField
}

type Block struct {
	Defs    []*Def
	If      *Expr
	Code    int // -1 absent
	Msg     *Expr
	Details []*Detail
	Ignore  bool
	IgnResp *Expr
	Log     string // "" absent
}

type Call struct {
	Site      string
	Req       []*ReqField
	TimeoutMs int
	Retry     *Retry
	Errors    []*Block
}

type MapX struct {
	Iter string
	Src  string
	SrcT Ty
	By   *Expr
	Msg  *MsgUse
	Enum *Expr
}

type Def struct {
	Name     string
	Anon     bool // name is not written in the proto; it is only the spec's handle
	Ty       Ty
	If       *Expr
	Kind     string // by call message map validation enum
	AutoBind bool
	By       *Expr
	Call     *Call
	Msg      *MsgUse
	Map      *MapX
	Val      *Block
	Enum     *Expr
}

func (b *Block) refs(m map[string]bool) {
	local := map[string]bool{}
	inner := map[string]bool{}
	for _, d := range b.Defs {
		d.allRefs(inner)
		local[d.Name] = true
	}
	b.If.refs(inner)
	b.Msg.refs(inner)
	b.IgnResp.refs(inner)
	for _, d := range b.Details {
		d.refs(inner)
	}
	for n := range inner {
		if !local[n] {
			m[n] = true
		}
	}
}

func (d *Detail) refs(m map[string]bool) {
	local := map[string]bool{}
	inner := map[string]bool{}
	for _, x := range d.Defs {
		x.allRefs(inner)
		local[x.Name] = true
	}
	d.If.refs(inner)
	for _, e := range d.By {
		e.refs(inner)
	}
	for _, x := range d.Msgs {
		for _, a := range x.Args {
			a.By.refs(inner)
		}
	}
	for _, x := range d.Bad {
		x[0].refs(inner)
		x[1].refs(inner)
	}
	for _, x := range d.Pre {
		x[0].refs(inner)
		x[1].refs(inner)
		x[2].refs(inner)
	}
	for _, e := range d.Loc {
		e.refs(inner)
	}
	for n := range inner {
		if !local[n] {
			m[n] = true
		}
	}
}

func (d *Def) allRefs(m map[string]bool) {
	d.If.refs(m)
	switch d.Kind {
	case "by":
		d.By.refs(m)
	case "call":
		for _, r := range d.Call.Req {
			r.By.refs(m)
			r.If.refs(m)
		}
		if d.Call.Retry != nil {
			d.Call.Retry.If.refs(m)
		}
		for _, b := range d.Call.Errors {
			b.refs(m)
		}
	case "message":
		for _, r := range d.Msg.Args {
			r.By.refs(m)
		}
	case "map":
		inner := map[string]bool{}
		d.Map.By.refs(inner)
		d.Map.Enum.refs(inner)
		if d.Map.Msg != nil {
			for _, r := range d.Map.Msg.Args {
				r.By.refs(inner)
			}
		}
		delete(inner, d.Map.Iter)
		for n := range inner {
			m[n] = true
		}
		m[d.Map.Src] = true
	case "validation":
		d.Val.refs(m)
	case "enum":
		d.Enum.refs(m)
	}
}

func keys(m map[string]bool) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// ---- rendering to proto text ----

func q(s string) string {
	b, _ := json.Marshal(s)
	// json escapes <,>,& as \u003c which proto text does not accept
	r := strings.NewReplacer(`\u003c`, "<", `\u003e`, ">", `\u0026`, "&")
	return r.Replace(string(b))
}

var codeNames = map[int]string{0: "OK", 1: "CANCELLED", 2: "UNKNOWN", 3: "INVALID_ARGUMENT", 4: "DEADLINE_EXCEEDED", 5: "NOT_FOUND", 6: "ALREADY_EXISTS", 7: "PERMISSION_DENIED", 8: "RESOURCE_EXHAUSTED", 9: "FAILED_PRECONDITION", 10: "ABORTED", 11: "OUT_OF_RANGE", 12: "UNIMPLEMENTED", 13: "INTERNAL", 14: "UNAVAILABLE", 15: "DATA_LOSS", 16: "UNAUTHENTICATED"}

func renderArgs(w *strings.Builder, ind string, args []*ReqField) {
	for _, a := range args {
		if a.Inline {
			fmt.Fprintf(w, "%sargs { inline: %s }\n", ind, q(a.By.cel()))
		} else {
			fmt.Fprintf(w, "%sargs { name: %s by: %s }\n", ind, q(a.F), q(a.By.cel()))
		}
	}
}

func (m *MsgUse) render(w *strings.Builder, ind string) {
	fmt.Fprintf(w, "%smessage {\n%s  name: %s\n", ind, ind, q(m.Name))
	renderArgs(w, ind+"  ", m.Args)
	fmt.Fprintf(w, "%s}\n", ind)
}

func (b *Block) render(w *strings.Builder, ind string) {
	fmt.Fprintf(w, "%serror {\n", ind)
	i2 := ind + "  "
	for _, d := range b.Defs {
		d.render(w, i2)
	}
	if b.If != nil {
		fmt.Fprintf(w, "%sif: %s\n", i2, q(b.If.cel()))
	}
	if b.Code >= 0 {
		fmt.Fprintf(w, "%scode: %s\n", i2, codeNames[b.Code])
	}
	if b.Msg != nil {
		fmt.Fprintf(w, "%smessage: %s\n", i2, q(b.Msg.cel()))
	}
	if b.Ignore {
		fmt.Fprintf(w, "%signore: true\n", i2)
	}
	if b.IgnResp != nil {
		fmt.Fprintf(w, "%signore_and_response: %s\n", i2, q(b.IgnResp.cel()))
	}
	if b.Log != "" {
		fmt.Fprintf(w, "%slog_level: %s\n", i2, b.Log)
	}
	for _, d := range b.Details {
		fmt.Fprintf(w, "%sdetails {\n", i2)
		i3 := i2 + "  "
		for _, x := range d.Defs {
			x.render(w, i3)
		}
		if d.If != nil {
			fmt.Fprintf(w, "%sif: %s\n", i3, q(d.If.cel()))
		}
		for _, m := range d.Msgs {
			m.render(w, i3)
		}
		for _, e := range d.By {
			fmt.Fprintf(w, "%sby: %s\n", i3, q(e.cel()))
		}
		for _, x := range d.Pre {
			fmt.Fprintf(w, "%sprecondition_failure { violations { type: %s subject: %s description: %s } }\n", i3, q(x[0].cel()), q(x[1].cel()), q(x[2].cel()))
		}
		for _, x := range d.Bad {
			fmt.Fprintf(w, "%sbad_request { field_violations { field: %s description: %s } }\n", i3, q(x[0].cel()), q(x[1].cel()))
		}
		for _, x := range d.Loc {
			fmt.Fprintf(w, "%slocalized_message { locale: \"en-US\" message: %s }\n", i3, q(x.cel()))
		}
		fmt.Fprintf(w, "%s}\n", i2)
	}
	fmt.Fprintf(w, "%s}\n", ind)
}

func (d *Def) render(w *strings.Builder, ind string) {
	fmt.Fprintf(w, "%sdef {\n", ind)
	i2 := ind + "  "
	if !d.Anon {
		fmt.Fprintf(w, "%sname: %s\n", i2, q(d.Name))
	}
	if d.If != nil {
		fmt.Fprintf(w, "%sif: %s\n", i2, q(d.If.cel()))
	}
	if d.AutoBind {
		fmt.Fprintf(w, "%sautobind: true\n", i2)
	}
	switch d.Kind {
	case "by":
		fmt.Fprintf(w, "%sby: %s\n", i2, q(d.By.cel()))
	case "enum":
		fmt.Fprintf(w, "%senum { name: \"be.E\" by: %s }\n", i2, q(d.Enum.cel()))
	case "message":
		d.Msg.render(w, i2)
	case "validation":
		fmt.Fprintf(w, "%svalidation {\n", i2)
		d.Val.render(w, i2+"  ")
		fmt.Fprintf(w, "%s}\n", i2)
	case "map":
		fmt.Fprintf(w, "%smap {\n%s  iterator { name: %s src: %s }\n", i2, i2, q(d.Map.Iter), q(d.Map.Src))
		switch {
		case d.Map.By != nil:
			fmt.Fprintf(w, "%s  by: %s\n", i2, q(d.Map.By.cel()))
		case d.Map.Enum != nil:
			fmt.Fprintf(w, "%s  enum { name: \"be.E\" by: %s }\n", i2, q(d.Map.Enum.cel()))
		default:
			d.Map.Msg.render(w, i2+"  ")
		}
		fmt.Fprintf(w, "%s}\n", i2)
	case "call":
		c := d.Call
		fmt.Fprintf(w, "%scall {\n%s  method: \"be.Backend/%s\"\n", i2, i2, c.Site)
		for _, r := range c.Req {
			fmt.Fprintf(w, "%s  request { field: %s by: %s", i2, q(r.F), q(r.By.cel()))
			if r.If != nil {
				fmt.Fprintf(w, " if: %s", q(r.If.cel()))
			}
			fmt.Fprintf(w, " }\n")
		}
		if c.TimeoutMs > 0 {
			fmt.Fprintf(w, "%s  timeout: \"%dms\"\n", i2, c.TimeoutMs)
		}
		if c.Retry != nil {
			fmt.Fprintf(w, "%s  retry {\n", i2)
			if c.Retry.If != nil {
				fmt.Fprintf(w, "%s    if: %s\n", i2, q(c.Retry.If.cel()))
			}
			mx := ""
			if c.Retry.Max >= 0 {
				mx = fmt.Sprintf(" max_retries: %d", c.Retry.Max)
			}
			ms := c.Retry.Ms
			if ms == 0 {
				ms = 1
			}
			switch {
			case c.Retry.Kind == "constant":
				fmt.Fprintf(w, "%s    constant { interval: \"%dms\"%s }\n", i2, ms, mx)
			case c.Retry.Kind == "jump": // the limit of the interval is decisive
				fmt.Fprintf(w, "%s    exponential { initial_interval: \"1ms\" max_interval: \"4ms\" multiplier: 2000 randomization_factor: 0%s }\n", i2, mx)
			case c.Retry.Ms > 0:
				fmt.Fprintf(w, "%s    exponential { initial_interval: \"%dms\" max_interval: \"%dms\" multiplier: 2 randomization_factor: 0%s }\n", i2, ms, 3*ms, mx)
			default:
				fmt.Fprintf(w, "%s    exponential { initial_interval: \"1ms\" max_interval: \"3ms\" multiplier: 1.5 randomization_factor: 0.3%s }\n", i2, mx)
			}
			fmt.Fprintf(w, "%s  }\n", i2)
		}
		for _, b := range c.Errors {
			b.render(w, i2+"  ")
		}
		fmt.Fprintf(w, "%s}\n", i2)
	}
	fmt.Fprintf(w, "%s}\n", ind)
}

// Field of a response message.
type Field struct {
	Name   string
	Ty     Ty
	Mode   string // by | auto | custom | oneof | none (message custom resolver provides)
	By     *Expr
	AutoOf string // spec: variable whose field of the same name is taken
	Oneof  string // oneof group
	If     *Expr  // oneof condition
	Deflt  bool
	Defs   []*Def
}

type Msg struct {
	Name   string
	Args   []FieldExpr // names and types (E carries T only)
	Defs   []*Def
	Fields []*Field
	Custom bool // message custom resolver
}

type Prog struct {
	ID        string // method name
	Root      string
	Msgs      []*Msg
	Sites     []string
	TimeoutMs int
	Plain     []*Msg // messages used in details etc. (also in Msgs)
}

var rootArgs = []FieldExpr{{"pid", &Expr{T: "str"}}, {"n", &Expr{T: "int"}}, {"s", &Expr{T: "str"}}, {"b", &Expr{T: "bool"}}, {"ns", &Expr{T: "ints"}}, {"it", &Expr{T: "item"}}}

func (m *Msg) render(w *strings.Builder) {
	fmt.Fprintf(w, "message %s {\n  option (grpc.federation.message) = {\n", m.Name)
	for _, d := range m.Defs {
		d.render(w, "    ")
	}
	if m.Custom {
		fmt.Fprintf(w, "    custom_resolver: true\n")
	}
	fmt.Fprintf(w, "  };\n")
	fn := 0
	group := ""
	for _, f := range m.Fields {
		fn++
		ind := "  "
		if f.Oneof != group {
			if group != "" {
				fmt.Fprintf(w, "  }\n")
			}
			if f.Oneof != "" {
				fmt.Fprintf(w, "  oneof %s {\n", f.Oneof)
			}
			group = f.Oneof
		}
		if f.Oneof != "" {
			ind = "    "
		}
		fmt.Fprintf(w, "%s%s %s = %d", ind, f.Ty.proto(), f.Name, fn)
		switch f.Mode {
		case "by":
			fmt.Fprintf(w, " [(grpc.federation.field).by = %s]", q(f.By.cel()))
		case "custom":
			fmt.Fprintf(w, " [(grpc.federation.field).custom_resolver = true]")
		case "oneof":
			fmt.Fprintf(w, " [(grpc.federation.field).oneof = {\n")
			if f.Deflt {
				fmt.Fprintf(w, "%s  default: true\n", ind)
			} else {
				fmt.Fprintf(w, "%s  if: %s\n", ind, q(f.If.cel()))
			}
			for _, d := range f.Defs {
				d.render(w, ind+"  ")
			}
			fmt.Fprintf(w, "%s  by: %s\n%s}]", ind, q(f.By.cel()), ind)
		}
		fmt.Fprintf(w, ";\n")
	}
	if group != "" {
		fmt.Fprintf(w, "  }\n")
	}
	fmt.Fprintf(w, "}\n\n")
}

// renderFile renders programs into one proto file with one federation service.
func renderFile(pkg string, progs []*Prog) string {
	var w strings.Builder
	fmt.Fprintf(&w, "syntax = \"proto3\";\npackage %s;\nimport \"grpc/federation/federation.proto\";\nimport \"be/be.proto\";\noption go_package = \"vgen/%s;%s\";\n\n", pkg, pkg, pkg)
	fmt.Fprintf(&w, "service F {\n  option (grpc.federation.service) = {};\n")
	for _, p := range progs {
		fmt.Fprintf(&w, "  rpc %s(%sReq) returns (%s) {", p.ID, p.ID, p.Root)
		if p.TimeoutMs > 0 {
			fmt.Fprintf(&w, "\n    option (grpc.federation.method) = { timeout: \"%dms\" };\n  ", p.TimeoutMs)
		}
		fmt.Fprintf(&w, "}\n")
	}
	fmt.Fprintf(&w, "}\n\n")
	for _, p := range progs {
		fmt.Fprintf(&w, "message %sReq {\n", p.ID)
		for i, a := range rootArgs {
			fmt.Fprintf(&w, "  %s %s = %d;\n", a.E.T.proto(), a.N, i+1)
		}
		fmt.Fprintf(&w, "}\n\n")
		for _, m := range p.Msgs {
			m.render(&w)
		}
	}
	return w.String()
}

// ---- JSON for the spec ----

func exprJ(e *Expr) any {
	if e == nil {
		return J{"k": "none"}
	}
	return e.json()
}

func argsJ(args []*ReqField) []J {
	r := []J{}
	for _, a := range args {
		r = append(r, J{"f": a.F, "by": exprJ(a.By), "if": exprJ(a.If), "inline": a.Inline, "z": defaultsOf("be.Item")})
	}
	return r
}

func (m *MsgUse) json() J { return J{"name": m.Name, "args": argsJ(m.Args)} }

func (b *Block) json() J {
	dets := []J{}
	for _, d := range b.Details {
		by := []any{}
		for _, e := range d.By {
			by = append(by, e.json())
		}
		ms := []any{}
		for _, m := range d.Msgs {
			ms = append(ms, m.json())
		}
		bad, pre, loc := []any{}, []any{}, []any{}
		for _, x := range d.Bad {
			bad = append(bad, []any{x[0].json(), x[1].json()})
		}
		for _, x := range d.Pre {
			pre = append(pre, []any{x[0].json(), x[1].json(), x[2].json()})
		}
		for _, x := range d.Loc {
			loc = append(loc, x.json())
		}
		dets = append(dets, J{"if": exprJ(d.If), "defs": defsJ(d.Defs), "by": by, "msgs": ms, "bad": bad, "pre": pre, "loc": loc})
	}
	lg := b.Log
	if lg == "" || lg == "UNKNOWN" {
		lg = "ERROR"
	}
	return J{"defs": defsJ(b.Defs), "if": exprJ(b.If), "code": b.Code, "msg": exprJ(b.Msg), "det": dets, "ignore": b.Ignore, "ignresp": exprJ(b.IgnResp), "log": lg}
}

func defsJ(ds []*Def) []J {
	r := []J{}
	for _, d := range ds {
		m := map[string]bool{}
		d.allRefs(m)
		j := J{"name": d.Name, "kind": d.Kind, "if": exprJ(d.If), "refs": keys(m), "zero": d.Ty.zero()}
		switch d.Kind {
		case "by":
			j["by"] = exprJ(d.By)
		case "enum":
			j["by"] = exprJ(d.Enum)
		case "call":
			c := d.Call
			bl := []J{}
			for _, b := range c.Errors {
				bl = append(bl, b.json())
			}
			rt := J{"on": false, "max": 0, "if": J{"k": "none"}}
			if c.Retry != nil {
				mx := c.Retry.Max
				if mx < 0 {
					mx = 5
				}
				rt = J{"on": true, "max": mx, "if": exprJ(c.Retry.If)}
			}
			j["site"] = c.Site
			j["req"] = argsJ(c.Req)
			j["timeout"] = c.TimeoutMs
			j["tostr"] = (time.Duration(c.TimeoutMs) * time.Millisecond).String()
			j["retry"] = rt
			j["errors"] = bl
		case "message":
			j["msg"] = d.Msg.json()
		case "map":
			mj := J{"iter": d.Map.Iter, "src": d.Map.Src, "it": string(d.Map.SrcT.elem())}
			switch {
			case d.Map.By != nil:
				mj["k"] = "by"
				mj["by"] = exprJ(d.Map.By)
			case d.Map.Enum != nil:
				mj["k"] = "by"
				mj["by"] = exprJ(d.Map.Enum)
			default:
				mj["k"] = "msg"
				mj["msg"] = d.Map.Msg.json()
			}
			j["map"] = mj
		case "validation":
			j["val"] = d.Val.json()
		}
		r = append(r, j)
	}
	return r
}

func (m *Msg) json() J {
	// fields are evaluated in declaration order, oneofs after the others
	fs := []J{}
	var order []*Field
	for _, f := range m.Fields {
		if f.Oneof == "" {
			order = append(order, f)
		}
	}
	for _, f := range m.Fields {
		if f.Oneof != "" {
			order = append(order, f)
		}
	}
	for _, f := range order {
		fs = append(fs, J{"n": f.Name, "mode": f.Mode, "by": exprJ(f.By), "of": f.AutoOf, "og": f.Oneof, "if": exprJ(f.If), "dflt": f.Deflt, "defs": defsJ(f.Defs), "z": f.Ty.zero()})
	}
	vars := []string{}
	for _, d := range m.Defs {
		if d.Kind != "validation" && !d.Anon {
			vars = append(vars, d.Name)
		}
	}
	an := []string{}
	for _, a := range m.Args {
		an = append(an, a.N)
	}
	zero, fz := J{}, m.fz()
	for _, d := range m.Defs {
		if d.Kind != "validation" && !d.Anon {
			zero[d.Name] = d.Ty.zero()
		}
	}
	for _, a := range m.Args {
		zero[a.N] = a.E.T.zero()
	}
	return J{"defs": defsJ(m.Defs), "fields": fs, "custom": m.Custom, "vars": vars, "args": an, "zero": zero, "fz": fz}
}

// fz is the content of an empty message.
func (m *Msg) fz() J {
	fz := J{}
	for _, f := range m.Fields {
		fz[f.Name] = f.Ty.zero()
		if f.Oneof != "" {
			fz["@"+f.Oneof] = ""
		}
	}
	return fz
}

func (p *Prog) json() J {
	curProg = p
	ms := J{}
	for _, m := range p.Msgs {
		ms[m.Name] = m.json()
	}
	return J{"id": p.ID, "root": p.Root, "msgs": ms, "timeout": p.TimeoutMs, "tostr": (time.Duration(p.TimeoutMs) * time.Millisecond).String(), "req": defaultsOf("be.Req"), "lossy": p.lossy(), "waits": p.waits(), "touts": p.touts(), "maxes": p.maxes()}
}

// touts are the timeouts of the calls.
func (p *Prog) touts() J {
	w := J{"-": 0}
	p.walkCalls(func(_ *Def, c *Call) {
		if c.TimeoutMs > 0 {
			w[c.Site] = c.TimeoutMs
		}
	})
	return w
}

// maxes are the greatest numbers of attempts of the calls (0: any).
func (p *Prog) maxes() J {
	w := J{"-": 1}
	p.walkCalls(func(_ *Def, c *Call) {
		switch {
		case c.Retry == nil:
			w[c.Site] = 1
		case c.Retry.Max == -1:
			w[c.Site] = 6
		case c.Retry.Max == 0:
			w[c.Site] = 0
		default:
			w[c.Site] = c.Retry.Max + 1
		}
	})
	return w
}

// waits are the least times between the attempts of the calls.
func (p *Prog) waits() J {
	w := J{"-": J{"ms": 0, "mult": 1, "max": 0}}
	p.walkCalls(func(_ *Def, c *Call) {
		switch {
		case c.Retry == nil || c.Retry.Ms == 0:
		case c.Retry.Kind == "constant":
			w[c.Site] = J{"ms": c.Retry.Ms, "mult": 1, "max": 0}
		case c.Retry.Kind == "jump":
			w[c.Site] = J{"ms": 1, "mult": 1, "max": 0}
		default:
			w[c.Site] = J{"ms": c.Retry.Ms, "mult": 2, "max": 3 * c.Retry.Ms}
		}
	})
	return w
}

// lossy: calls may be given up when the request has already failed.
func (p *Prog) lossy() bool {
	r := false
	p.walkCalls(func(_ *Def, c *Call) {
		if c.TimeoutMs > 0 || c.Retry != nil {
			r = true
		}
	})
	return r || p.TimeoutMs > 0
}

func walkDefs(ds []*Def, f func(*Def)) {
	for _, d := range ds {
		f(d)
		if d.Call != nil {
			for _, b := range d.Call.Errors {
				walkDefs(b.Defs, f)
				for _, x := range b.Details {
					walkDefs(x.Defs, f)
				}
			}
		}
		if d.Val != nil {
			walkDefs(d.Val.Defs, f)
			for _, x := range d.Val.Details {
				walkDefs(x.Defs, f)
			}
		}
	}
}

func (p *Prog) walk(f func(*Def)) {
	for _, m := range p.Msgs {
		walkDefs(m.Defs, f)
		for _, x := range m.Fields {
			walkDefs(x.Defs, f)
		}
	}
}

func (p *Prog) walkCalls(f func(*Def, *Call)) {
	p.walk(func(d *Def) {
		if d.Call != nil {
			f(d, d.Call)
		}
	})
}
