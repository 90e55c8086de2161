package main

// Random program generator for the runtime engine.

import (
	"fmt"
	"math/rand"
)

// Knobs describes a family of programs; probabilities are percentages.
type Knobs struct {
	MinDefs, MaxDefs                                            int
	Call, By, Msg, Map, Val, Enum                               int // weights
	If, ReqIf, Retry, RetryIf, Errs, Details, Ignore, BlockDefs int
	Long                                                        int // call with a long timeout that never fires
	Short                                                       int // call with a short timeout (its site hangs)
	MethodShort                                                 int
	MethodLong                                                  int
	ShadowIter                                                  int
	Oneof, Custom, CustomField, Auto, Inline                    int
	FailExpr                                                    int // expression that may fail to evaluate
	Depth                                                       int // message nesting depth
	RefDensity                                                  int
	NeedErr                                                     bool // at least one call with an error block
	Null                                                        int  // comparison of a message with null
	Nested                                                      int  // error blocks of calls inside error blocks
}

type gen struct {
	r     *rand.Rand
	k     Knobs
	p     *Prog
	nmsg  int
	nsite int
	nname int
	enums bool
}

type scopeVar struct {
	e *Expr
	t Ty
}

type scope struct {
	vars []scopeVar
	err  bool // `error` is visible
	// recent variables are preferred to create dependencies
}

func (s *scope) with(e *Expr) *scope {
	n := &scope{err: s.err}
	n.vars = append(append([]scopeVar{}, s.vars...), scopeVar{e, e.T})
	return n
}

func (g *gen) pct(p int) bool { return p > 0 && g.r.Intn(100) < p }

func (g *gen) pick(xs []*Expr) *Expr { return xs[g.r.Intn(len(xs))] }

var resFields = map[string]Ty{"n": "int", "s": "str", "b": "bool", "ns": "ints", "items": "items", "item": "item"}
var itemFields = map[string]Ty{"n": "int", "s": "str"}

func (g *gen) msgByName(n string) *Msg {
	for _, m := range g.p.Msgs {
		if m.Name == n {
			return m
		}
	}
	return nil
}

// atoms returns the expressions of type t reachable from the scope by at most two selections.
func (g *gen) atoms(t Ty, s *scope) []*Expr {
	var out []*Expr
	var walk func(e *Expr, d int)
	walk = func(e *Expr, d int) {
		if e.T == t {
			out = append(out, e)
		}
		if d == 0 {
			return
		}
		switch {
		case e.T == "res":
			for _, f := range []string{"n", "s", "b", "ns", "items", "item"} {
				walk(sel(e, f, resFields[f]), d-1)
			}
		case e.T == "item":
			for _, f := range []string{"n", "s"} {
				walk(sel(e, f, itemFields[f]), d-1)
			}
		case len(e.T) > 2 && e.T[:2] == "m:":
			m := g.msgByName(string(e.T[2:]))
			for _, f := range m.Fields {
				walk(sel(e, f.Name, f.Ty), d-1)
			}
		}
	}
	for _, v := range s.vars {
		walk(v.e, 2)
	}
	return out
}

var words = []string{"a", "b", "k", "z", "q"}

func (g *gen) expr(t Ty, s *scope, d int) *Expr {
	at := g.atoms(t, s)
	useAtom := len(at) > 0 && (d == 0 || g.r.Intn(100) < 45)
	if useAtom {
		return g.pick(at)
	}
	if d == 0 {
		return g.literal(t)
	}
	switch t {
	case "int":
		switch g.r.Intn(5) {
		case 0:
			return intLit(g.r.Intn(5))
		case 1, 2:
			return op("int", "+", g.expr("int", s, d-1), g.expr("int", s, d-1))
		case 3:
			lt := Ty("ints")
			if g.r.Intn(2) == 0 && len(g.atoms("items", s)) > 0 {
				lt = "items"
			}
			return op("int", "size", g.expr(lt, s, d-1))
		default:
			return op("int", "tern", g.expr("bool", s, d-1), g.expr("int", s, d-1), g.expr("int", s, d-1))
		}
	case "str":
		switch g.r.Intn(5) {
		case 0:
			return strLit(words[g.r.Intn(len(words))])
		case 1, 2:
			return op("str", "cat", g.expr("str", s, d-1), g.expr("str", s, d-1))
		case 3:
			return op("str", "tostr", g.expr("int", s, d-1))
		default:
			return op("str", "tern", g.expr("bool", s, d-1), g.expr("str", s, d-1), g.expr("str", s, d-1))
		}
	case "bool":
		if g.pct(g.k.Null) {
			var ms []*Expr
			for _, t := range []Ty{"item", "res"} {
				ms = append(ms, g.atoms(t, s)...)
			}
			for _, v := range s.vars {
				if len(v.t) > 2 && v.t[:2] == "m:" {
					ms = append(ms, v.e)
				}
			}
			if len(ms) > 0 {
				return &Expr{K: "op", T: "bool", Op: []string{"isnull", "notnull"}[g.r.Intn(2)], V: g.r.Intn(2), A: []*Expr{g.pick(ms)}}
			}
		}
		switch g.r.Intn(7) {
		case 0:
			return op("bool", "eq", g.expr("int", s, d-1), g.expr("int", s, d-1))
		case 1:
			return op("bool", "lt", g.expr("int", s, d-1), g.expr("int", s, d-1))
		case 2:
			return op("bool", "ge", g.expr("int", s, d-1), g.expr("int", s, d-1))
		case 3:
			return op("bool", "and", g.expr("bool", s, d-1), g.expr("bool", s, d-1))
		case 4:
			return op("bool", "or", g.expr("bool", s, d-1), g.expr("bool", s, d-1))
		case 5:
			return op("bool", "not", g.expr("bool", s, d-1))
		default:
			return op("bool", "ne", g.expr("str", s, d-1), g.expr("str", s, d-1))
		}
	case "ints":
		switch g.r.Intn(4) {
		case 0:
			return op("ints", "list", g.expr("int", s, d-1), g.expr("int", s, d-1))
		case 1:
			return op("ints", "madd", g.expr("ints", s, d-1), g.expr("int", s, 0))
		case 2:
			return op("ints", "fge", g.expr("ints", s, d-1), g.expr("int", s, 0))
		default:
			if len(g.atoms("items", s)) > 0 {
				return op("ints", "inum", g.pick(g.atoms("items", s)))
			}
			return op("ints", "catl", g.expr("ints", s, d-1), g.expr("ints", s, d-1))
		}
	case "strs":
		if at := g.atoms("items", s); len(at) > 0 && g.r.Intn(2) == 0 {
			return op("strs", "iname", g.pick(at))
		}
		return op("strs", "list", g.expr("str", s, d-1), g.expr("str", s, d-1))
	case "item":
		return &Expr{K: "mk", T: "item", N: "be.Item", Fs: []FieldExpr{{"n", g.expr("int", s, d-1)}, {"s", g.expr("str", s, d-1)}}}
	case "items":
		return op("items", "list", g.expr("item", s, d-1))
	}
	panic("expr " + string(t))
}

func (g *gen) literal(t Ty) *Expr {
	switch t {
	case "int":
		return intLit(g.r.Intn(6))
	case "str":
		return strLit(words[g.r.Intn(len(words))])
	case "bool":
		return boolLit(g.r.Intn(2) == 0)
	case "ints":
		return lit("ints", []int{g.r.Intn(3) + 1, g.r.Intn(3) + 5})
	case "strs":
		return lit("strs", []string{"u", "w"})
	case "item":
		return &Expr{K: "mk", T: "item", N: "be.Item", Fs: []FieldExpr{{"n", g.literal("int")}, {"s", g.literal("str")}}}
	case "items":
		return op("items", "list", g.literal("item"))
	}
	panic("literal " + string(t))
}

// maybeFail wraps an int expression into one that can fail: [7, 8][x].
func (g *gen) failing(s *scope) *Expr {
	return op("int", "idx", lit("ints", []int{7, 8}), g.expr("int", s, 1))
}

func (g *gen) cond(s *scope) *Expr {
	if g.pct(g.k.FailExpr) {
		return op("bool", "ge", g.failing(s), intLit(8))
	}
	return g.expr("bool", s, 2)
}

func (g *gen) intX(s *scope, d int) *Expr {
	if g.pct(g.k.FailExpr) {
		return g.failing(s)
	}
	return g.expr("int", s, d)
}

func (g *gen) name(prefix string) string {
	g.nname++
	return fmt.Sprintf("%s%d", prefix, g.nname)
}

func (g *gen) site() string {
	g.nsite++
	return fmt.Sprintf("C%d", g.nsite-1)
}

func pathOf(def string) *Expr { return op("str", "cat", arg("pid", "str"), strLit("/"+def)) }

// codeLit is a status code.
func (g *gen) codeLit() *Expr {
	c := []int{5, 9, 13, 14}[g.r.Intn(4)]
	if g.pct(30) {
		c = 1 + g.r.Intn(16)
	}
	e := intLit(c)
	if g.pct(50) {
		n := codeNames[c]
		e.N = "google.rpc.Code." + n
	}
	return e
}

var errKinds = []string{"info", "loc", "debug", "reqinfo", "resinfo", "retry", "quota", "pre", "bad", "help", "Item"}

// errStr is a text taken from `error`.
func (g *gen) errStr() *Expr {
	if g.pct(55) {
		return &Expr{K: "err", F: "message", T: "str"}
	}
	l := &Expr{K: "err", F: errKinds[g.r.Intn(len(errKinds))], T: "strs"}
	return op("str", "tern", op("bool", "ge", op("int", "size", l), intLit(1)), op("str", "idx", l, intLit(0)), strLit("-"))
}

// errCond produces a condition over `error` for blocks and retries.
func (g *gen) errCond(s *scope) *Expr {
	code := &Expr{K: "err", F: "code", T: "int"}
	switch g.r.Intn(8) {
	case 0:
		return op("bool", "eq", code, g.codeLit())
	case 1:
		return op("bool", "ne", code, g.codeLit())
	case 2:
		return op("bool", "eq", g.errStr(), strLit([]string{"x", "y", "w"}[g.r.Intn(3)]))
	case 3:
		return g.cond(s)
	case 4:
		l := &Expr{K: "err", F: errKinds[g.r.Intn(len(errKinds))], T: "strs"}
		return op("bool", []string{"ge", "lt", "eq"}[g.r.Intn(3)], op("int", "size", l), intLit(1))
	case 5:
		return op("bool", []string{"ge", "lt"}[g.r.Intn(2)], &Expr{K: "err", F: "details", T: "int"}, intLit(1+g.r.Intn(2)))
	case 6:
		return op("bool", "lt", code, g.codeLit())
	default:
		return op("bool", "or", op("bool", "eq", code, g.codeLit()), g.expr("bool", s, 1))
	}
}

func (g *gen) block(s *scope, validation bool, depth int) *Block {
	b := &Block{Code: -1}
	cs := s
	if g.pct(g.k.BlockDefs) {
		n := 1 + g.r.Intn(2)
		for i := 0; i < n; i++ {
			d := g.def(cs, depth, true)
			b.Defs = append(b.Defs, d)
			if d.Kind != "validation" {
				cs = cs.with(vr(d.Name, d.Ty))
			}
		}
	}
	if validation {
		b.If = g.cond(cs)
		b.Code = []int{3, 5, 9, 10}[g.r.Intn(4)]
	} else if g.pct(75) {
		b.If = g.errCond(cs)
	}
	if !validation && g.pct(g.k.Ignore) {
		if g.pct(50) {
			b.Ignore = true
		} else {
			b.IgnResp = &Expr{K: "mk", T: "res", N: "be.Res", Fs: []FieldExpr{{"n", g.expr("int", cs, 1)}, {"s", g.expr("str", cs, 1)}, {"ns", g.expr("ints", cs, 0)}}}
		}
		return b
	}
	if !validation && g.pct(60) {
		b.Code = []int{3, 5, 9, 10, 13}[g.r.Intn(5)]
		if g.pct(30) {
			b.Code = 1 + g.r.Intn(16)
		}
	}
	if g.pct(70) {
		m := g.expr("str", cs, 1)
		if !validation && g.pct(50) {
			m = op("str", "cat", g.errStr(), m)
		}
		if g.pct(g.k.FailExpr) {
			m = op("str", "tostr", g.failing(cs))
		}
		b.Msg = m
	}
	if g.pct(40) {
		b.Log = []string{"DEBUG", "INFO", "WARN", "ERROR", "UNKNOWN"}[g.r.Intn(5)]
	}
	if g.pct(g.k.Details) {
		n := 1 + g.r.Intn(2)
		for i := 0; i < n; i++ {
			b.Details = append(b.Details, g.detail(cs))
		}
	}
	return b
}

func (g *gen) detail(s *scope) *Detail {
	d := &Detail{}
	if g.pct(60) {
		d.If = g.cond(s)
	}
	cs := s
	if g.pct(g.k.BlockDefs / 2) {
		x := g.def(s, 0, true)
		d.Defs = append(d.Defs, x)
		cs = cs.with(vr(x.Name, x.Ty))
	}
	for i := g.r.Intn(3); i >= 0; i-- {
		switch g.r.Intn(5) {
		case 0:
			d.By = append(d.By, &Expr{K: "mk", T: "item", N: "be.Item", Fs: []FieldExpr{{"n", g.intX(cs, 1)}, {"s", g.expr("str", cs, 1)}}})
		case 1:
			d.Msgs = append(d.Msgs, &MsgUse{Name: g.detailMsg(), Args: []*ReqField{{F: "n", By: g.expr("int", cs, 1)}, {F: "s", By: g.expr("str", cs, 1)}}})
		case 2:
			d.Bad = append(d.Bad, [2]*Expr{g.expr("str", cs, 1), g.expr("str", cs, 1)})
		case 3:
			d.Pre = append(d.Pre, [3]*Expr{g.expr("str", cs, 0), g.expr("str", cs, 1), g.expr("str", cs, 0)})
		case 4:
			d.Loc = append(d.Loc, g.expr("str", cs, 1))
		}
	}
	return d
}

// detailMsg returns the program's detail message, created on demand.
func (g *gen) detailMsg() string {
	n := g.p.ID + "D"
	if g.msgByName(n) == nil {
		g.p.Msgs = append(g.p.Msgs, &Msg{Name: n, Args: []FieldExpr{{"n", &Expr{T: "int"}}, {"s", &Expr{T: "str"}}},
			Fields: []*Field{{Name: "n", Ty: "int", Mode: "by", By: arg("n", "int")}, {Name: "s", Ty: "str", Mode: "by", By: arg("s", "str")}}})
	}
	return n
}

func (g *gen) call(name string, s *scope, depth int, inBlock bool) *Call {
	c := &Call{Site: g.site()}
	c.Req = append(c.Req, &ReqField{F: "id", By: pathOf(name)})
	add := func(f string, t Ty) {
		rf := &ReqField{F: f}
		if t == "int" {
			rf.By = g.intX(s, 2)
		} else {
			rf.By = g.expr(t, s, 2)
		}
		if g.pct(g.k.ReqIf) {
			rf.If = g.cond(s)
		}
		c.Req = append(c.Req, rf)
	}
	add("n", "int")
	if g.pct(60) {
		add("s", "str")
	}
	if g.pct(20) {
		add("b", "bool")
	}
	if g.pct(20) {
		add("ns", "ints")
	}
	if g.pct(15) {
		add("item", "item")
	}
	if g.pct(g.k.Short) {
		c.TimeoutMs = 80 + 20*g.r.Intn(4)
	} else if g.pct(g.k.Long) {
		c.TimeoutMs = 60000
	}
	if g.pct(g.k.Retry) {
		rt := &Retry{Kind: []string{"constant", "exponential"}[g.r.Intn(2)], Max: []int{-1, 1, 2, 3, 0}[g.r.Intn(5)]}
		if g.pct(25) {
			rt.Kind, rt.Ms, rt.Max = []string{"constant", "exponential"}[g.r.Intn(2)], 15+5*g.r.Intn(3), 1+g.r.Intn(3)
		} else if g.pct(25) {
			rt.Kind, rt.Ms = "jump", 1
		}
		if g.pct(g.k.RetryIf) {
			rt.If = g.errCond(s)
		}
		c.Retry = rt
	}
	if (!inBlock || g.pct(g.k.Nested)) && g.pct(g.k.Errs) && !(c.Retry != nil && c.Retry.If.mayFail()) {
		n := 1 + g.r.Intn(3)
		for i := 0; i < n; i++ {
			bl := g.block(s, false, 0)
			c.Errors = append(c.Errors, bl)
		}
	}
	return c
}

func (g *gen) def(s *scope, depth int, inBlock bool) *Def {
	k := g.k
	wMsg, wMap, wVal, wEnum := k.Msg, k.Map, k.Val, k.Enum
	if depth <= 0 {
		wMsg = 0
	}
	if inBlock {
		wMap, wVal, wEnum = 0, 0, 0
	}
	by, call := k.By, k.Call
	if inBlock {
		by += 10
	}
	if g.nsite >= 14 {
		call = 0
		by += 5
		wMsg = 0
	}
	x := g.r.Intn(call + by + wMsg + wMap + wVal + wEnum)
	d := &Def{}
	if !inBlock || x >= call || true {
		d.Name = g.name("v")
	}
	if g.pct(k.If) {
		d.If = g.cond(s)
	}
	switch {
	case x < call:
		d.Kind, d.Ty = "call", "res"
		d.Call = g.call(d.Name, s, depth, inBlock)
	case x < call+by:
		d.Kind = "by"
		d.Ty = []Ty{"int", "str", "bool", "ints", "item", "strs", "items"}[g.r.Intn(7)]
		if d.Ty == "int" {
			d.By = g.intX(s, 2)
		} else {
			d.By = g.expr(d.Ty, s, 2)
		}
	case x < call+by+wMsg:
		d.Kind = "message"
		m := g.message(depth-1, false)
		d.Ty = Ty("m:" + m.Name)
		d.Msg = g.use(m, s, pathOf(d.Name))
	case x < call+by+wMsg+wMap:
		g.mapDef(d, s, depth)
	case x < call+by+wMsg+wMap+wVal:
		d.Kind, d.Ty = "validation", "bool"
		d.Anon = g.pct(70)
		d.Val = g.block(s, true, depth-1)
	default:
		d.Kind, d.Ty = "enum", "enum"
		d.Enum = &Expr{K: "lit", T: "enum", V: 1}
	}
	return d
}

func (g *gen) mapDef(d *Def, s *scope, depth int) {
	d.Kind = "map"
	var cands []*Expr
	for _, v := range s.vars {
		if v.e.K == "var" && (v.t == "ints" || v.t == "items" || v.t == "strs" || v.t.isList() && v.t[:2] == "l:") {
			cands = append(cands, v.e)
		}
	}
	mx := &MapX{}
	if len(cands) == 0 {
		// no list variable: behave as a by definition of a list
		d.Kind, d.Ty = "by", "ints"
		d.By = g.expr("ints", s, 2)
		return
	}
	src := cands[g.r.Intn(len(cands))]
	mx.Src, mx.SrcT = src.N, src.T
	mx.Iter = g.name("i")
	if g.pct(g.k.ShadowIter) {
		// shadow some outer variable
		var o []string
		for _, v := range s.vars {
			if v.e.K == "var" {
				o = append(o, v.e.N)
			}
		}
		mx.Iter = o[g.r.Intn(len(o))]
	}
	it := vr(mx.Iter, src.T.elem())
	cs := &scope{err: s.err}
	for _, v := range s.vars {
		if v.e.K == "var" && v.e.N == mx.Iter {
			continue
		}
		cs.vars = append(cs.vars, v)
	}
	cs = cs.with(it)
	for i := 0; i < 3; i++ { // prefer the iterator
		cs.vars = append(cs.vars, scopeVar{it, it.T})
	}
	if depth > 0 && g.pct(65) && g.nsite < 12 && (it.T == "int" || it.T == "item" || it.T == "str") {
		m := g.message(depth-1, true)
		key := it
		if it.T == "item" {
			key = sel(it, "n", "int")
		}
		path := op("str", "cat", pathOf(d.Name+"."), op("str", "tostr", key))
		if it.T == "str" {
			path = op("str", "cat", pathOf(d.Name+"."), it)
		}
		mx.Msg = g.use(m, cs, path)
		d.Ty = Ty("l:" + m.Name)
	} else {
		switch g.r.Intn(3) {
		case 0:
			d.Ty = "ints"
			mx.By = g.intX(cs, 2)
		case 1:
			d.Ty = "strs"
			mx.By = g.expr("str", cs, 2)
		default:
			d.Ty = "items"
			mx.By = &Expr{K: "mk", T: "item", N: "be.Item", Fs: []FieldExpr{{"n", g.intX(cs, 1)}, {"s", g.expr("str", cs, 1)}}}
		}
	}
	d.Map = mx
}

// use builds a reference to message m from scope s.
func (g *gen) use(m *Msg, s *scope, path *Expr) *MsgUse {
	u := &MsgUse{Name: m.Name}
	for _, a := range m.Args {
		if a.N == "pid" {
			u.Args = append(u.Args, &ReqField{F: "pid", By: path})
			continue
		}
		if a.N == "n" && a.E.F == "inline" {
			continue
		}
		if a.N == "s" && a.E.F == "inline" {
			u.Args = append(u.Args, &ReqField{F: "", Inline: true, By: g.itemAtom(s)})
			continue
		}
		var by *Expr
		if a.E.T == "int" {
			by = g.intX(s, 2)
		} else {
			by = g.expr(a.E.T, s, 2)
		}
		u.Args = append(u.Args, &ReqField{F: a.N, By: by})
	}
	return u
}

func (g *gen) itemAtom(s *scope) *Expr {
	if at := g.atoms("item", s); len(at) > 0 && g.pct(70) {
		return g.pick(at)
	}
	return &Expr{K: "mk", T: "item", N: "be.Item", Fs: []FieldExpr{{"n", g.expr("int", s, 1)}, {"s", g.expr("str", s, 1)}}}
}

func (g *gen) message(depth int, small bool) *Msg {
	g.nmsg++
	m := &Msg{Name: fmt.Sprintf("%sM%d", g.p.ID, g.nmsg)}
	inl := ""
	if g.pct(g.k.Inline) {
		inl = "inline"
	}
	m.Args = []FieldExpr{{"pid", &Expr{T: "str"}}, {"n", &Expr{T: "int", F: inl}}, {"s", &Expr{T: "str", F: inl}}}
	if g.pct(40) {
		m.Args = append(m.Args, FieldExpr{"b", &Expr{T: "bool"}})
	}
	if g.pct(30) {
		m.Args = append(m.Args, FieldExpr{"ns", &Expr{T: "ints"}})
	}
	if g.pct(25) {
		m.Args = append(m.Args, FieldExpr{"it", &Expr{T: "item"}})
	}
	n := 1 + g.r.Intn(2)
	if !small {
		n = 1 + g.r.Intn(3)
	}
	g.fill(m, n, depth)
	g.p.Msgs = append(g.p.Msgs, m)
	return m
}

func (g *gen) fill(m *Msg, ndefs, depth int) {
	s := &scope{}
	for _, a := range m.Args {
		if a.N == "pid" {
			continue
		}
		s.vars = append(s.vars, scopeVar{arg(a.N, a.E.T), a.E.T})
	}
	var auto *Def
	for i := 0; i < ndefs; i++ {
		var d *Def
		cs := s
		if g.pct(g.k.RefDensity) && len(m.Defs) > 0 {
			// drop the arguments to force references between definitions
			cs = &scope{}
			for _, v := range s.vars {
				if v.e.K == "var" {
					cs.vars = append(cs.vars, v)
				}
			}
			if len(cs.vars) == 0 {
				cs = s
			}
		}
		d = g.def(cs, depth, false)
		m.Defs = append(m.Defs, d)
		if d.Kind == "validation" {
			continue
		}
		if d.Kind == "enum" {
			continue
		}
		if auto == nil && (d.Kind == "call") && g.pct(g.k.Auto) {
			d.AutoBind = true
			auto = d
		}
		s = s.with(vr(d.Name, d.Ty))
	}
	if g.pct(g.k.Custom) && len(m.Fields) == 0 && m.Name != g.p.Root {
		m.Custom = true
		m.Fields = []*Field{{Name: "n", Ty: "int", Mode: "none"}, {Name: "s", Ty: "str", Mode: "none"}}
		if g.pct(g.k.CustomField) {
			m.Fields = append(m.Fields, &Field{Name: "cf", Ty: "int", Mode: "custom"})
		}
		return
	}
	if auto != nil {
		for _, f := range []string{"n", "s", "b", "ns", "item"} {
			if g.pct(70) {
				if g.pct(20) {
					m.Fields = append(m.Fields, &Field{Name: f, Ty: resFields[f], Mode: "by", By: g.expr(resFields[f], s, 1)})
				} else {
					m.Fields = append(m.Fields, &Field{Name: f, Ty: resFields[f], Mode: "auto", AutoOf: auto.Name})
				}
			}
		}
	}
	if g.pct(g.k.Oneof) {
		n := 2 + g.r.Intn(2)
		for i := 0; i < n; i++ {
			f := &Field{Name: fmt.Sprintf("o%d", i), Oneof: "one", Mode: "oneof", Ty: []Ty{"int", "str", "item"}[g.r.Intn(3)]}
			if i == n-1 && g.pct(60) {
				f.Deflt = true
			} else {
				f.If = g.expr("bool", s, 2)
			}
			cs := s
			for j := 0; j < 2 && g.pct(45); j++ {
				d := g.def(cs, 0, true)
				f.Defs = append(f.Defs, d)
				cs = cs.with(vr(d.Name, d.Ty))
			}
			if f.Ty == "int" {
				f.By = g.intX(cs, 1)
			} else {
				f.By = g.expr(f.Ty, cs, 1)
			}
			m.Fields = append(m.Fields, f)
		}
	}
	// every variable is exposed through a field, when its type allows
	i := 0
	for _, d := range m.Defs {
		if d.Kind == "validation" || d.Kind == "enum" {
			continue
		}
		i++
		m.Fields = append(m.Fields, &Field{Name: fmt.Sprintf("f%d", i), Ty: d.Ty, Mode: "by", By: vr(d.Name, d.Ty)})
	}
	m.Fields = append(m.Fields, &Field{Name: fmt.Sprintf("f%d", i+1), Ty: "int", Mode: "by", By: g.intX(s, 2)})
	m.Fields = append(m.Fields, &Field{Name: fmt.Sprintf("f%d", i+2), Ty: "str", Mode: "by", By: g.expr("str", s, 2)})
	if g.pct(g.k.CustomField) {
		m.Fields = append(m.Fields, &Field{Name: "cf", Ty: "int", Mode: "custom"})
		if g.pct(30) {
			m.Fields = append(m.Fields, &Field{Name: "cg", Ty: "str", Mode: "custom"})
		}
	}
}

func genProg(seed int64, id string, k Knobs) *Prog {
	g := &gen{r: rand.New(rand.NewSource(seed)), k: k, p: &Prog{ID: id, Root: id + "R"}}
	root := &Msg{Name: g.p.Root, Args: rootArgs}
	n := k.MinDefs + g.r.Intn(k.MaxDefs-k.MinDefs+1)
	g.fill(root, n, k.Depth)
	g.p.Msgs = append(g.p.Msgs, root)
	for i := 0; i < g.nsite; i++ {
		g.p.Sites = append(g.p.Sites, fmt.Sprintf("C%d", i))
	}
	if g.pct(k.MethodShort) {
		g.p.TimeoutMs = 150
	} else if g.pct(k.MethodLong) {
		g.p.TimeoutMs = 60000
	}
	return g.p
}
