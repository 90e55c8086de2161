package main

// L01: the CEL list functions against spec/ListFns.tla.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime/debug"
	"strings"
	"time"

	celgo "github.com/google/cel-go/cel"
	celtypes "github.com/google/cel-go/common/types"
	"github.com/google/cel-go/common/types/ref"
	"github.com/google/cel-go/common/types/traits"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"

	"github.com/mercari/grpc-federation/grpc/federation"
	grpcfedcel "github.com/mercari/grpc-federation/grpc/federation/cel"
)

func init() { otherChecks["L01"] = checkL01 }

type lelem [2]int

type lval struct {
	Ty string      `json:"ty"`
	L  []lelem     `json:"l,omitempty"`
	N  [][]lelem   `json:"n,omitempty"`
	M  [][][]lelem `json:"m,omitempty"`
	I  *int        `json:"i,omitempty"`
}

// MarshalJSON writes exactly the field the type needs.
func (v lval) MarshalJSON() ([]byte, error) {
	m := map[string]any{"ty": v.Ty}
	switch v.Ty {
	case "list", "some":
		m["l"] = append([]lelem{}, v.L...)
	case "nest":
		n := [][]lelem{}
		for _, l := range v.N {
			n = append(n, append([]lelem{}, l...))
		}
		m["n"] = n
	case "nest3":
		o := [][][]lelem{}
		for _, n := range v.M {
			p := [][]lelem{}
			for _, l := range n {
				p = append(p, append([]lelem{}, l...))
			}
			o = append(o, p)
		}
		m["m"] = o
	case "int":
		m["i"] = *v.I
	}
	return json.Marshal(m)
}

func (v *lval) untag() {
	for i := range v.L {
		v.L[i][1] = 0
	}
	for i := range v.N {
		for j := range v.N[i] {
			v.N[i][j][1] = 0
		}
	}
	for i := range v.M {
		for j := range v.M[i] {
			for k := range v.M[i][j] {
				v.M[i][j][k][1] = 0
			}
		}
	}
}

func (v lval) clone() lval {
	b, _ := json.Marshal(v)
	var o lval
	must(json.Unmarshal(b, &o))
	return o
}

func (v lval) elems() []lelem {
	var out []lelem
	out = append(out, v.L...)
	for _, l := range v.N {
		out = append(out, l...)
	}
	for _, n := range v.M {
		for _, l := range n {
			out = append(out, l...)
		}
	}
	return out
}

type lop struct {
	Op string `json:"op"`
	F  string `json:"f"`
	W  int    `json:"w"`
}

type lcase struct {
	Src   lval   `json:"src"`
	Ops   []lop  `json:"ops"`
	Res   lval   `json:"res"`
	After lval   `json:"after"`
	Rep   string `json:"rep"`
	Expr  string `json:"expr"`
	Note  string `json:"note,omitempty"`
}

// kinds of keys: the table is strictly increasing.
type lkind struct {
	name  string
	typ   *celgo.Type
	vals  []any
	lits  []string
	slice reflect.Type
}

var epoch = time.Date(1999, 12, 31, 23, 59, 59, 0, time.UTC)

var lkinds = []*lkind{
	{"int", celgo.IntType, []any{int64(math.MinInt64), int64(-1), int64(0), int64(1), int64(1 << 40), int64(math.MaxInt64)}, []string{"-9223372036854775808", "-1", "0", "1", "1099511627776", "9223372036854775807"}, reflect.TypeOf([]int64{})},
	{"uint", celgo.UintType, []any{uint64(0), uint64(1), uint64(2), uint64(1 << 33), uint64(1 << 63), uint64(math.MaxUint64)}, []string{"0u", "1u", "2u", "8589934592u", "9223372036854775808u", "18446744073709551615u"}, reflect.TypeOf([]uint64{})},
	{"double", celgo.DoubleType, []any{math.Inf(-1), -1.5, 0.0, 0.25, 0.5, 1e300}, []string{"-1.0/0.0", "-1.5", "0.0", "0.25", "0.5", "1e300"}, reflect.TypeOf([]float64{})},
	{"string", celgo.StringType, []any{"", "A", "AA", "B", "a", "あ"}, []string{"''", "'A'", "'AA'", "'B'", "'a'", "'あ'"}, reflect.TypeOf([]string{})},
	{"bytes", celgo.BytesType, []any{[]byte{}, []byte{0}, []byte{0, 1}, []byte{1}, []byte("z"), []byte{0xff}}, []string{"b''", `b'\000'`, `b'\000\001'`, `b'\001'`, "b'z'", `b'\377'`}, reflect.TypeOf([][]byte{})},
	{"bool", celgo.BoolType, []any{false, true}, []string{"false", "true"}, reflect.TypeOf([]bool{})},
	{"timestamp", celgo.TimestampType, []any{epoch, epoch.Add(1), epoch.Add(time.Second), epoch.Add(time.Hour), epoch.AddDate(1, 0, 0), epoch.AddDate(30, 0, 0)},
		[]string{"timestamp('1999-12-31T23:59:59Z')", "timestamp('1999-12-31T23:59:59.000000001Z')", "timestamp('2000-01-01T00:00:00Z')", "timestamp('2000-01-01T00:59:59Z')", "timestamp('2000-12-31T23:59:59Z')", "timestamp('2029-12-31T23:59:59Z')"}, reflect.TypeOf([]time.Time{})},
	{"duration", celgo.DurationType, []any{-time.Hour, -time.Nanosecond, time.Duration(0), time.Nanosecond, time.Second, 100 * time.Hour}, []string{"duration('-1h')", "duration('-1ns')", "duration('0s')", "duration('1ns')", "duration('1s')", "duration('100h')"}, reflect.TypeOf([]time.Duration{})},
}

// lrep is a way to represent elements.
type lrep struct {
	name string
	kind *lkind // nil: keys are the integers themselves
	form string // map, msg, plain
	lit  bool
	env  *celgo.Env
	prg  map[string]celgo.Program
}

type evd = descriptorpb.EnumValueDescriptorProto

func lreps() []*lrep {
	var out []*lrep
	for _, lit := range []bool{false, true} {
		n := "var-"
		if lit {
			n = "lit-"
		}
		out = append(out, &lrep{name: n + "map", form: "map", lit: lit}, &lrep{name: n + "msg", form: "msg", lit: lit})
		out = append(out, &lrep{name: n + "num", form: "plain", lit: lit})
		for _, k := range lkinds {
			out = append(out, &lrep{name: n + k.name, form: "plain", kind: k, lit: lit})
			if k.name == "string" {
				out = append(out, &lrep{name: n + "msg-" + k.name, form: "msg", kind: k, lit: lit})
			}
		}
	}
	return out
}

func (r *lrep) elemType() *celgo.Type {
	switch r.form {
	case "map":
		return celgo.MapType(celgo.StringType, celgo.IntType)
	case "msg":
		return celgo.ObjectType("google.protobuf.EnumValueDescriptorProto")
	}
	return r.keyType()
}

func (r *lrep) keyType() *celgo.Type {
	if r.kind != nil {
		return r.kind.typ
	}
	return celgo.IntType
}

func (r *lrep) goType() reflect.Type {
	switch r.form {
	case "map":
		return reflect.TypeOf([]map[string]int64{})
	case "msg":
		return reflect.TypeOf([]*evd{})
	}
	if r.kind != nil {
		return r.kind.slice
	}
	return reflect.TypeOf([]int64{})
}

func (r *lrep) init() {
	if r.env != nil {
		return
	}
	helper := federation.NewCELTypeHelper("p", nil)
	opts := federation.NewDefaultEnvOptions(helper)
	opts = append(opts,
		celgo.ASTValidators(grpcfedcel.NewASTValidators()...),
		celgo.Variable("l", celgo.ListType(r.elemType())),
		celgo.Variable("n", celgo.ListType(celgo.ListType(r.elemType()))),
		celgo.Variable("m", celgo.ListType(celgo.ListType(celgo.ListType(r.elemType())))),
		celgo.Variable("w", r.keyType()),
		celgo.Variable("v2", celgo.IntType),
	)
	env, err := celgo.NewCustomEnv(opts...)
	must(err)
	r.env = env
	r.prg = map[string]celgo.Program{}
}

func (r *lrep) key(k int) any {
	if r.kind != nil {
		return r.kind.vals[k]
	}
	return int64(k)
}

func (r *lrep) native(e lelem) reflect.Value {
	switch r.form {
	case "map":
		return reflect.ValueOf(map[string]int64{"k": int64(e[0]), "t": int64(e[1])})
	case "msg":
		if r.kind != nil {
			return reflect.ValueOf(&evd{Name: proto.String(r.kind.vals[e[0]].(string)), Number: proto.Int32(int32(e[1]))})
		}
		return reflect.ValueOf(&evd{Number: proto.Int32(int32(e[0])), Name: proto.String(fmt.Sprint(e[1]))})
	}
	return reflect.ValueOf(r.key(e[0]))
}

func (r *lrep) nativeList(l []lelem) reflect.Value {
	s := reflect.MakeSlice(r.goType(), 0, len(l)+1)
	for _, e := range l {
		s = reflect.Append(s, r.native(e))
	}
	return s
}

func (r *lrep) litElem(e lelem) string {
	switch r.form {
	case "map":
		return fmt.Sprintf("{'k': %d, 't': %d}", e[0], e[1])
	case "msg":
		if r.kind != nil {
			return fmt.Sprintf("google.protobuf.EnumValueDescriptorProto{name: %s, number: %d}", r.kind.lits[e[0]], e[1])
		}
		return fmt.Sprintf("google.protobuf.EnumValueDescriptorProto{number: %d, name: '%d'}", e[0], e[1])
	}
	if r.kind != nil {
		return r.kind.lits[e[0]]
	}
	return fmt.Sprint(e[0])
}

func (r *lrep) litList(l []lelem) string {
	var out []string
	for _, e := range l {
		out = append(out, r.litElem(e))
	}
	return "[" + strings.Join(out, ", ") + "]"
}

func (r *lrep) unkey(x any) (int, error) {
	if r.kind == nil {
		switch v := x.(type) {
		case int64:
			return int(v), nil
		case int32:
			return int(v), nil
		}
		return 0, fmt.Errorf("unexpected key %T", x)
	}
	for i, v := range r.kind.vals {
		if t, ok := v.(time.Time); ok {
			if x, ok := x.(time.Time); ok && x.Equal(t) {
				return i, nil
			}
			continue
		}
		if b, ok := v.([]byte); ok {
			if x, ok := x.([]byte); ok && bytes.Equal(x, b) {
				return i, nil
			}
			continue
		}
		if v == x {
			return i, nil
		}
	}
	return 0, fmt.Errorf("unexpected key %v (%T)", x, x)
}

// back turns a result element into a pair.
func (r *lrep) back(v ref.Val) (lelem, error) {
	switch r.form {
	case "map":
		m, ok := v.(traits.Mapper)
		if !ok {
			return lelem{}, fmt.Errorf("element is %s", v.Type())
		}
		k, ok1 := m.Get(celtypes.String("k")).(celtypes.Int)
		t, ok2 := m.Get(celtypes.String("t")).(celtypes.Int)
		if !ok1 || !ok2 {
			return lelem{}, fmt.Errorf("element is %v", v)
		}
		return lelem{int(k), int(t)}, nil
	case "msg":
		x, err := v.ConvertToNative(reflect.TypeOf(&evd{}))
		if err != nil {
			return lelem{}, err
		}
		return r.backMsg(x.(*evd))
	}
	x := v.Value()
	k, err := r.unkey(x)
	return lelem{k, 0}, err
}

func (r *lrep) backMsg(m *evd) (lelem, error) {
	if r.kind != nil {
		k, err := r.unkey(m.GetName())
		return lelem{k, int(m.GetNumber())}, err
	}
	var t int
	if _, err := fmt.Sscan(m.GetName(), &t); err != nil {
		return lelem{}, err
	}
	return lelem{int(m.GetNumber()), t}, nil
}

func (r *lrep) backList(v ref.Val) ([]lelem, error) {
	l, ok := v.(traits.Lister)
	if !ok {
		return nil, fmt.Errorf("result is %s, not a list", v.Type())
	}
	out := []lelem{}
	for it := l.Iterator(); it.HasNext() == celtypes.True; {
		e, err := r.back(it.Next())
		if err != nil {
			return nil, err
		}
		out = append(out, e)
	}
	// the way generated code takes a list
	if r.form == "msg" {
		x, err := v.ConvertToNative(r.goType())
		if err != nil {
			return nil, err
		}
		ms := x.([]*evd)
		if len(ms) != len(out) {
			return nil, fmt.Errorf("the native list has %d elements, the CEL list %d", len(ms), len(out))
		}
		for i, m := range ms {
			e, err := r.backMsg(m)
			if err != nil {
				return nil, err
			}
			if e != out[i] {
				return nil, fmt.Errorf("the native list differs from the CEL list at %d", i)
			}
		}
	}
	return out, nil
}

// keyExpr is the expression of the key of v, or "" if this representation has none.
func (r *lrep) keyExpr(v string) string {
	switch r.form {
	case "map":
		return v + ".k"
	case "msg":
		if r.kind != nil {
			return v + ".name"
		}
		return v + ".number"
	}
	return v
}

func (r *lrep) tagExpr(v string) string {
	switch r.form {
	case "map":
		return v + ".t"
	case "msg":
		if r.kind != nil {
			return v + ".number"
		}
		return "int(" + v + ".name)"
	}
	return ""
}

// fnExpr renders a key function, predicate or fold step; ok is false if the representation cannot express it.
func (r *lrep) fnExpr(f, v string, w string) (string, bool) {
	k := r.keyExpr(v)
	num := r.kind == nil
	switch f {
	case "k":
		return k, true
	case "const":
		return "0", true
	case "t":
		return r.tagExpr(v), r.form != "plain"
	case "neg":
		return "-" + k, num
	case "mod":
		return k + " % 2", num
	case "mulw":
		return k + " * " + w, num
	case "gtw":
		return k + " > " + w, num
	case "inv":
		return "6 / " + k, num
	case "eq":
		return k + " == " + w, true
	case "gt":
		return k + " > " + w, true
	case "lt":
		return k + " < " + w, true
	case "true", "false":
		return f, true
	case "tag":
		return r.tagExpr(v) + " % 2 == 1", r.form != "plain"
	case "sum":
		return "a + " + k, num
	case "horner":
		return "3 * a + " + k, num
	case "last":
		return k, num
	case "cnt":
		return "a + 1", true
	case "min":
		return "a < " + k + " ? a : " + k, num
	case "sub":
		return k + " - a", num
	}
	return "", false
}

func (r *lrep) opExpr(src string, o lop, v string) (string, bool) {
	w := "w"
	if r.kind == nil {
		w = fmt.Sprint(o.W)
		if o.W < 0 {
			w = "(" + w + ")"
		}
	} else if o.W >= 0 && o.W < len(r.kind.lits) {
		w = "(" + r.kind.lits[o.W] + ")"
	}
	switch o.Op {
	case "collect":
		return src + ".reduce(a, " + v + ", a + [" + v + "], [])", true
	case "reverse":
		return src + ".reduce(a, " + v + ", [" + v + "] + a, [])", true
	case "flatten":
		return src + ".flatten()", true
	case "mapsort":
		e, ok := r.fnExpr(o.F, v, w)
		return src + ".map(x, x.sortStableAsc(" + v + ", " + e + "))", ok
	case "reduce":
		e, ok := r.fnExpr(o.F, v, w)
		return src + ".reduce(a, " + v + ", " + e + ", " + fmt.Sprint(o.W) + ")", ok
	}
	e, ok := r.fnExpr(o.F, v, w)
	return src + "." + o.Op + "(" + v + ", " + e + ")", ok
}

// prepare renders a case, or says it does not fit.
func (r *lrep) prepare(c *lcase) bool {
	max := 1 << 30
	if r.kind != nil {
		max = len(r.kind.vals) - 1
	}
	for _, e := range c.Src.elems() {
		if e[0] > max {
			return false
		}
	}
	if r.form == "plain" {
		c.Src.untag()
	}
	src := map[string]string{"list": "l", "nest": "n", "nest3": "m"}[c.Src.Ty]
	if r.lit {
		if len(c.Src.elems()) == 0 {
			return false // an empty literal has no element type
		}
		switch c.Src.Ty {
		case "list":
			src = r.litList(c.Src.L)
		case "nest":
			var out []string
			for _, l := range c.Src.N {
				out = append(out, r.litList(l))
			}
			src = "[" + strings.Join(out, ", ") + "]"
		default:
			return false
		}
	}
	expr := src
	for i, o := range c.Ops {
		var ok bool
		if o.W > max && o.Op != "reduce" {
			return false
		}
		expr, ok = r.opExpr(expr, o, fmt.Sprintf("v%d", i))
		if !ok {
			return false
		}
	}
	c.Expr = expr
	c.Rep = r.name
	return true
}

func (r *lrep) nestVal(n [][]lelem) reflect.Value {
	s := reflect.MakeSlice(reflect.SliceOf(r.goType()), 0, len(n))
	for _, l := range n {
		s = reflect.Append(s, r.nativeList(l))
	}
	return s
}

// run evaluates the case in the real code.
func (r *lrep) run(c *lcase) {
	r.init()
	defer func() {
		if e := recover(); e != nil {
			c.Res = lval{Ty: "panic"}
			c.Note = fmt.Sprintf("panic: %v\n%s", e, tail(string(debug.Stack()), 2000))
		}
	}()
	c.After = c.Src.clone()
	vars := map[string]any{"v2": int64(7)}
	if r.kind != nil {
		vars["w"] = r.kind.vals[0]
	}
	l := r.nativeList(c.Src.L)
	n := r.nestVal(c.Src.N)
	m := reflect.MakeSlice(reflect.SliceOf(n.Type()), 0, 0)
	for _, x := range c.Src.M {
		m = reflect.Append(m, r.nestVal(x))
	}
	vars["l"], vars["n"], vars["m"] = l.Interface(), n.Interface(), m.Interface()
	prg := r.prg[c.Expr]
	if prg == nil {
		ast, iss := r.env.Compile(c.Expr)
		if iss.Err() != nil {
			c.Res = lval{Ty: "rejected"}
			c.Note = iss.Err().Error()
			return
		}
		var err error
		prg, err = r.env.Program(ast)
		if err != nil {
			c.Res = lval{Ty: "rejected"}
			c.Note = err.Error()
			return
		}
		if !r.lit {
			r.prg[c.Expr] = prg
		}
	}
	out, _, err := prg.Eval(vars)
	if err == nil {
		// again: the same program on the same variables gives the same
		out2, _, err2 := prg.Eval(vars)
		if err2 != nil {
			err = err2
		} else if out.Equal(out2) == celtypes.False && !strings.Contains(c.Expr, ".sort") {
			c.Res = lval{Ty: "unstable"}
			return
		}
	}
	if err != nil {
		c.Res = lval{Ty: "err"}
		c.Note = err.Error()
		return
	}
	c.Res, err = r.value(c, out)
	if err != nil {
		c.Res = lval{Ty: "odd"}
		c.Note = err.Error()
	}
	// the source is as before
	if !r.lit {
		switch c.Src.Ty {
		case "list":
			c.After.L, err = r.backNative(l)
		case "nest":
			c.After.N = nil
			for i := 0; i < n.Len() && err == nil; i++ {
				var x []lelem
				x, err = r.backNative(n.Index(i))
				c.After.N = append(c.After.N, x)
			}
		}
		if err != nil {
			c.After = lval{Ty: "odd"}
			c.Note = err.Error()
		}
	}
}

func (r *lrep) backNative(l reflect.Value) ([]lelem, error) {
	out := []lelem{}
	for i := 0; i < l.Len(); i++ {
		x := l.Index(i).Interface()
		switch r.form {
		case "map":
			m := x.(map[string]int64)
			out = append(out, lelem{int(m["k"]), int(m["t"])})
		case "msg":
			e, err := r.backMsg(x.(*evd))
			if err != nil {
				return nil, err
			}
			out = append(out, e)
		default:
			k, err := r.unkey(x)
			if err != nil {
				return nil, err
			}
			out = append(out, lelem{k, 0})
		}
	}
	return out, nil
}

func (r *lrep) value(c *lcase, out ref.Val) (lval, error) {
	last := c.Ops[len(c.Ops)-1].Op
	switch last {
	case "reduce":
		i, ok := out.(celtypes.Int)
		if !ok {
			return lval{}, fmt.Errorf("result is %s", out.Type())
		}
		n := int(i)
		return lval{Ty: "int", I: &n}, nil
	case "first":
		o, ok := out.(*celtypes.Optional)
		if !ok {
			return lval{}, fmt.Errorf("result is %s", out.Type())
		}
		if !o.HasValue() {
			return lval{Ty: "none"}, nil
		}
		e, err := r.back(o.GetValue())
		return lval{Ty: "some", L: []lelem{e}}, err
	case "flatten", "mapsort":
		depth := map[string]int{"list": 1, "nest": 2, "nest3": 3}[c.Src.Ty]
		for _, o := range c.Ops {
			if o.Op == "flatten" {
				depth--
			}
		}
		if depth == 2 {
			l, ok := out.(traits.Lister)
			if !ok {
				return lval{}, fmt.Errorf("result is %s", out.Type())
			}
			v := lval{Ty: "nest"}
			for it := l.Iterator(); it.HasNext() == celtypes.True; {
				x, err := r.backList(it.Next())
				if err != nil {
					return v, err
				}
				v.N = append(v.N, x)
			}
			return v, nil
		}
	}
	l, err := r.backList(out)
	return lval{Ty: "list", L: l}, err
}

func checkL01(c *Check) {
	c.Ev.Level = "model_checking"
	c.Ev.Assumptions = []string{
		"keys are compared through the monotone tables of vh/list.go; NaN keys are not used",
		"lists up to the stated length are enumerated by TLC; longer ones are sampled and checked with the same operators",
	}
	maxLen, maxKey := 4, 2
	if c.thorough() {
		maxLen = 5
	}
	cfg := fmt.Sprintf("CONSTANTS MaxLen = %d MaxKey = %d Chains = TRUE\nSPECIFICATION Spec\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n", maxLen, maxKey)
	res, err := tlc(c.Dir, "ListGen", cfg, nil, 10*time.Minute)
	must(err)
	if res.Violated != "" {
		must(fmt.Errorf("the list definitions disagree: %s", res.Violated))
	}
	var base []*lcase
	for _, l := range res.Lines {
		l = strings.ReplaceAll(l, "{}", "[]")
		var x lcase
		if err := json.Unmarshal([]byte(l), &x); err != nil {
			must(fmt.Errorf("%w: %s", err, l))
		}
		base = append(base, &x)
	}
	if len(base) < 100 {
		must(fmt.Errorf("TLC gave only %d cases", len(base)))
	}
	c.addInt("states", res.States)
	rng := rand.New(rand.NewSource(c.Seed))
	reps := lreps()
	var all []*lcase
	add := func(x *lcase, r *lrep) {
		y := *x
		y.Src = x.Src.clone()
		if r.prepare(&y) {
			r.run(&y)
			all = append(all, &y)
		}
	}
	deadline := time.Now().Add(25 * time.Second)
	if c.thorough() {
		deadline = time.Now().Add(c.budget())
	}
	// every case in one representation at least; single operations in more
	for i, x := range base {
		r := reps[i%3] // var-map, var-msg, var-num
		add(x, r)
		if len(x.Ops) == 1 || rng.Intn(4) == 0 {
			add(x, reps[rng.Intn(len(reps))])
		}
	}
	exhaustive := len(all)
	// long lists
	sorts := []string{"sortAsc", "sortDesc", "sortStableAsc", "sortStableDesc"}
	keys := []string{"k", "neg", "mod", "const", "mulw", "gtw"}
	long := 300
	if c.thorough() {
		long = 4000
	}
	for i := 0; i < long && time.Now().Before(deadline); i++ {
		n := []int{5, 11, 12, 13, 14, 20, 33, 50, 64, 65, 100}[rng.Intn(11)] + rng.Intn(3)
		mk := []int{1, 2, 5, 30}[rng.Intn(4)]
		var s []lelem
		for j := 0; j < n; j++ {
			s = append(s, lelem{rng.Intn(mk + 1), j + 1})
		}
		var ops []lop
		switch rng.Intn(5) {
		case 0, 1, 2:
			ops = []lop{{sorts[i%4], keys[rng.Intn(len(keys))], rng.Intn(3) - 1}}
		case 3:
			ops = []lop{{sorts[2+rng.Intn(2)], keys[rng.Intn(len(keys))], 1}, {sorts[i%4], keys[rng.Intn(len(keys))], 1}}
		case 4:
			ops = []lop{{"reduce", []string{"sum", "cnt", "last", "min", "sub"}[rng.Intn(5)], rng.Intn(3)}}
			if rng.Intn(3) == 0 {
				ops = []lop{{"reverse", "", 0}}
			}
			if rng.Intn(3) == 0 {
				ops = []lop{{"first", []string{"eq", "gt", "lt"}[rng.Intn(3)], rng.Intn(mk + 1)}}
			}
		}
		add(&lcase{Src: lval{Ty: "list", L: s}, Ops: ops}, reps[rng.Intn(2)])
		if mk <= 5 {
			add(&lcase{Src: lval{Ty: "list", L: s}, Ops: ops}, reps[rng.Intn(len(reps))])
		}
	}
	// validate
	path := filepath.Join(c.Dir, "list.ndjson")
	var w bytes.Buffer
	for _, x := range all {
		b, err := json.Marshal(map[string]any{"src": x.Src, "ops": x.Ops, "res": x.Res, "after": x.After})
		must(err)
		w.Write(b)
		w.WriteByte('\n')
	}
	must(os.WriteFile(path, w.Bytes(), 0o644))
	res, err = tlc(c.Dir, "ListTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", []string{"LIST_TRACE=" + path}, 14*time.Minute)
	must(err)
	bad := 0
	for _, l := range res.Lines {
		var b struct{ Bad int }
		must(json.Unmarshal([]byte(l), &b))
		bad++
		x := all[b.Bad-1]
		js, _ := json.Marshal(x)
		c.violation(fmt.Sprintf("list function: %s is not what ListFns.tla allows\nrepresentation %s\n%s\n%s", x.Expr, x.Rep, js, x.Note))
	}
	c.addInt("states", res.States)
	c.addInt("cases_enumerated", len(base))
	c.addInt("evaluations_enumerated", exhaustive)
	c.addInt("evaluations", len(all))
	c.addInt("traces_validated_against_impl", len(all)-bad)
	c.Ev.Coverage["max_enumerated_length"] = maxLen
	c.Ev.Coverage["representations"] = len(reps)
	c.Ev.Coverage["samples"] = []any{all[0], all[len(all)/2], all[len(all)-1]}
}
