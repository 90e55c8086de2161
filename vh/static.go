package main

// C02: which schemas the resolver accepts, against spec/FedStatic.tla.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"strings"
	"time"
)

func tyJ(t Ty) J {
	if t.isList() {
		return J{"l": true, "b": tyB(t.elem())}
	}
	return J{"l": false, "b": tyB(t)}
}

func tyB(t Ty) string {
	switch {
	case t == "item":
		return "be.Item"
	case t == "res":
		return "be.Res"
	case strings.HasPrefix(string(t), "m:"):
		return string(t[2:])
	case t == "enum":
		return "enumf"
	}
	return string(t)
}

// shole is a place whose content the cases replace.
type shole struct {
	label string
	e     **Expr
	s     *string
	want  Ty // type that keeps the schema well typed
	kind  string
	msg   string
	old   any
	set   func(string)
}

// sEnc encodes a program as a tree with holes.
type sEnc struct {
	holes []*shole
	label []string
	msg   string
}

func (s *sEnc) add(h *shole) int {
	h.msg = s.msg
	h.label = s.msg + " " + strings.Join(s.label, ".") + "." + h.label
	s.holes = append(s.holes, h)
	return len(s.holes)
}

func (s *sEnc) in(l string, f func()) {
	s.label = append(s.label, l)
	f()
	s.label = s.label[:len(s.label)-1]
}

func sExpr(e *Expr) J {
	if e == nil {
		return J{"k": "none"}
	}
	switch e.K {
	case "lit":
		if e.T == "enum" {
			return J{"k": "lit", "t": tyJ("int")}
		}
		return J{"k": "lit", "t": tyJ(e.T)}
	case "var":
		return J{"k": "var", "n": e.N}
	case "arg":
		return J{"k": "var", "n": "$" + e.N}
	case "sel":
		return J{"k": "sel", "e": sExpr(e.A[0]), "f": e.F}
	case "err":
		return J{"k": "err", "f": e.F}
	case "mk":
		fs := []J{}
		for _, f := range e.Fs {
			fs = append(fs, J{"n": f.N, "e": sExpr(f.E)})
		}
		return J{"k": "mk", "n": e.N, "f": fs}
	case "op":
		a := []J{}
		for _, x := range e.A {
			a = append(a, sExpr(x))
		}
		return J{"k": "op", "op": e.Op, "a": a}
	}
	panic("sExpr " + e.K)
}

func (s *sEnc) ex(label string, e **Expr, want Ty) J {
	kind := "expr"
	if *e == nil {
		kind = "absent" // only conditions are filled in
		if want == "bool" {
			kind = "expr"
		}
	} else if want == "" {
		want = (*e).T
	}
	i := s.add(&shole{label: label, e: e, want: want, kind: kind})
	return J{"i": i, "d": sExpr(*e)}
}

func (s *sEnc) nm(label, kind string, p *string) J {
	i := s.add(&shole{label: label, s: p, kind: kind})
	return J{"i": i, "d": *p}
}

func (s *sEnc) args(as []*ReqField, request bool) []J {
	r := []J{}
	for i, a := range as {
		s.in(fmt.Sprint("arg", i), func() {
			kind := "argname"
			if request {
				kind = "reqfield"
			}
			j := J{"inline": a.Inline, "f": s.nm("name", kind, &a.F), "by": s.ex("by", &a.By, "")}
			if request {
				j["if"] = s.ex("if", &a.If, "bool")
			}
			r = append(r, j)
		})
	}
	return r
}

func (s *sEnc) use(u *MsgUse) J {
	var j J
	s.in("message", func() {
		j = J{"name": s.nm("name", "msgname", &u.Name), "args": s.args(u.Args, false)}
	})
	return j
}

func (s *sEnc) block(b *Block, call bool) J {
	j := J{"defs": s.defs(b.Defs), "if": s.ex("if", &b.If, "bool"), "msg": s.ex("msg", &b.Msg, "str"), "ign": s.ex("ignresp", &b.IgnResp, "res")}
	dets := []J{}
	for i, d := range b.Details {
		s.in(fmt.Sprint("det", i), func() {
			dj := J{"defs": s.defs(d.Defs), "if": s.ex("if", &d.If, "bool")}
			by, str, ms := []J{}, []J{}, []J{}
			for k := range d.By {
				by = append(by, s.ex("by", &d.By[k], "item"))
			}
			for k := range d.Bad {
				str = append(str, s.ex("bad.field", &d.Bad[k][0], "str"), s.ex("bad.desc", &d.Bad[k][1], "str"))
			}
			for k := range d.Pre {
				str = append(str, s.ex("pre.type", &d.Pre[k][0], "str"), s.ex("pre.subject", &d.Pre[k][1], "str"), s.ex("pre.desc", &d.Pre[k][2], "str"))
			}
			for k := range d.Loc {
				str = append(str, s.ex("loc", &d.Loc[k], "str"))
			}
			for _, u := range d.Msgs {
				ms = append(ms, s.use(u))
			}
			dj["by"], dj["str"], dj["msgs"] = by, str, ms
			dets = append(dets, dj)
		})
	}
	j["det"] = dets
	return j
}

func (s *sEnc) defs(ds []*Def) []J {
	r := []J{}
	for i, d := range ds {
		s.in(fmt.Sprintf("def%d(%s)", i, d.Name), func() {
			j := J{"kind": d.Kind, "auto": d.AutoBind}
			if d.Anon {
				n := ""
				j["name"] = s.nm("name", "anon", &n)
			} else {
				j["name"] = s.nm("name", "defname", &d.Name)
			}
			j["if"] = s.ex("if", &d.If, "bool")
			switch d.Kind {
			case "by":
				j["by"] = s.ex("by", &d.By, "")
			case "enum":
				j["by"] = s.ex("enum", &d.Enum, "enum")
			case "message":
				j["msg"] = s.use(d.Msg)
			case "validation":
				s.in("val", func() { j["val"] = s.block(d.Val, false) })
			case "map":
				mj := J{"src": s.nm("map.src", "mapsrc", &d.Map.Src), "iter": d.Map.Iter, "k": "by"}
				switch {
				case d.Map.By != nil:
					mj["by"] = s.ex("map.by", &d.Map.By, "")
				case d.Map.Enum != nil:
					mj["k"] = "enum"
					mj["by"] = s.ex("map.enum", &d.Map.Enum, "enum")
				default:
					mj["k"] = "msg"
					s.in("map", func() { mj["msg"] = s.use(d.Map.Msg) })
				}
				j["map"] = mj
			case "call":
				c := d.Call
				j["req"] = s.args(c.Req, true)
				j["retry"] = J{"i": 0, "d": sExpr(nil)}
				if c.Retry != nil {
					j["retry"] = s.ex("retry.if", &c.Retry.If, "bool")
				}
				bs := []J{}
				for k, b := range c.Errors {
					s.in(fmt.Sprint("error", k), func() { bs = append(bs, s.block(b, true)) })
				}
				j["errors"] = bs
			}
			r = append(r, j)
		})
	}
	return r
}

func sTypes(p *Prog) J {
	ty := func(kv ...any) J {
		j := J{}
		for i := 0; i < len(kv); i += 2 {
			j[kv[i].(string)] = tyJ(kv[i+1].(Ty))
		}
		return j
	}
	r := J{
		"be.Item": ty("n", Ty("int"), "s", Ty("str")),
		"be.Res":  ty("n", Ty("int"), "s", Ty("str"), "b", Ty("bool"), "ns", Ty("ints"), "items", Ty("items"), "item", Ty("item"), "e", Ty("enum")),
		"be.Req":  ty("id", Ty("str"), "n", Ty("int"), "s", Ty("str"), "b", Ty("bool"), "ns", Ty("ints"), "item", Ty("item"), "e", Ty("enum")),
	}
	for _, m := range p.Msgs {
		fs := J{"-": tyJ("int")}
		for _, f := range m.Fields {
			fs[f.Name] = tyJ(f.Ty)
		}
		r[m.Name] = fs
	}
	return r
}

// usesOf are the messages a message uses.
func usesOf(m *Msg) []string {
	var r []string
	add := func(u *MsgUse) {
		if u != nil {
			r = append(r, u.Name)
		}
	}
	f := func(d *Def) {
		add(d.Msg)
		if d.Map != nil {
			add(d.Map.Msg)
		}
		var bs []*Block
		if d.Call != nil {
			bs = d.Call.Errors
		}
		if d.Val != nil {
			bs = append(bs, d.Val)
		}
		for _, b := range bs {
			for _, x := range b.Details {
				for _, u := range x.Msgs {
					add(u)
				}
			}
		}
	}
	walkDefs(m.Defs, f)
	for _, x := range m.Fields {
		walkDefs(x.Defs, f)
	}
	return r
}

func (s *sEnc) prog(p *Prog) J {
	ms := J{}
	byName := map[string]*Msg{}
	for _, m := range p.Msgs {
		byName[m.Name] = m
	}
	for _, m := range p.Msgs {
		s.msg = m.Name
		mj := J{"defs": s.defs(m.Defs), "custom": m.Custom}
		fs := []J{}
		for _, f := range m.Fields {
			s.in("field "+f.Name, func() {
				j := J{"n": f.Name, "ty": tyJ(f.Ty), "og": f.Oneof}
				mode := f.Mode
				if mode == "" {
					mode = "none"
				}
				if f.Mode == "oneof" && f.Deflt {
					mode = "default"
				}
				h := &shole{label: "mode", kind: "mode", s: &mode}
				h.set = func(x string) {
					f.Deflt = x == "default"
					if x == "default" {
						x = "oneof"
					}
					f.Mode = x
				}
				j["mode"] = J{"i": s.add(h), "d": mode}
				switch mode {
				case "by":
					j["by"] = s.ex("by", &f.By, f.Ty)
				case "oneof", "default":
					j["defs"] = s.defs(f.Defs)
					if mode == "oneof" {
						j["if"] = s.ex("oneof.if", &f.If, "bool")
					} else {
						j["if"] = J{"i": 0, "d": sExpr(nil)}
					}
					j["by"] = s.ex("oneof.by", &f.By, f.Ty)
				}
				fs = append(fs, j)
			})
		}
		mj["fields"] = fs
		ms[m.Name] = mj
	}
	// users before the messages they use
	var order []string
	seen := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		if seen[n] || byName[n] == nil {
			return
		}
		seen[n] = true
		for _, u := range usesOf(byName[n]) {
			visit(u)
		}
		order = append([]string{n}, order...)
	}
	for _, m := range p.Msgs {
		visit(m.Name)
	}
	ra := J{}
	for _, a := range rootArgs {
		ra[a.N] = tyJ(a.E.T)
	}
	return J{"types": sTypes(p), "msgs": ms, "order": order, "root": p.Root, "rootargs": ra}
}

// scase is one case: a tree and what replaces the content of one of its holes.
type scase struct {
	Tree     int    `json:"tree"`
	K        string `json:"k"`
	I        int    `json:"i"`
	X        any    `json:"x"`
	Accepted bool   `json:"accepted"`
	label    string
	text     string
	note     string
	odd      string
}

// coerce makes an expression of the type out of an int expression.
func coerce(t Ty, n *Expr) *Expr {
	switch t {
	case "int":
		return n
	case "bool":
		return op("bool", "ge", n, intLit(0))
	case "str":
		return op("str", "tostr", n)
	case "item":
		return item(n, strLit("q"))
	case "res":
		return &Expr{K: "mk", T: "res", N: "be.Res", Fs: []FieldExpr{{"n", n}}}
	case "ints", "strs", "bools", "items", "ress":
		return op(t, "list", coerce(t.elem(), n))
	}
	return nil
}

// wrap is the int expression that mentions e, whatever the type of e.
func wrap(e *Expr) *Expr { return &Expr{K: "op", T: "int", Op: "wrap", A: []*Expr{e}} }

func typedExprs() []*Expr {
	return []*Expr{
		intLit(7), strLit("q"), boolLit(true), lit("ints", []int{1, 2}), lit("strs", []string{"q"}), op("bools", "list", boolLit(true)),
		item(intLit(1), strLit("q")), op("items", "list", item(intLit(1), strLit("q"))),
		{K: "mk", T: "res", N: "be.Res", Fs: []FieldExpr{{"n", intLit(1)}}},
		op("ress", "list", &Expr{K: "mk", T: "res", N: "be.Res", Fs: []FieldExpr{{"n", intLit(1)}}}),
		enumExpr(),
	}
}

// enumExpr is an expression of an enum type; the constants of an enum are integers.
func enumExpr() *Expr {
	return &Expr{K: "sel", T: "enum", F: "e", A: []*Expr{{K: "mk", T: "res", N: "be.Res", Fs: []FieldExpr{{"n", intLit(1)}}}}}
}

// stree is a tree with its cases.
type stree struct {
	p     *Prog
	enc   *sEnc
	js    J
	names map[string][]string // of each message: variables
	iters map[string][]string // of each message: iterators
	puts  *[]func() func()
}

// broken is the program with n places changed.
func (t *stree) broken(rng *rand.Rand, n int) string {
	t.puts = &[]func() func(){}
	t.cases(0, rng, 100)
	var undo []func()
	for i := 0; i < n; i++ {
		undo = append(undo, (*t.puts)[rng.Intn(len(*t.puts))]())
	}
	text := renderFile("p", []*Prog{t.p})
	for i := range undo {
		undo[len(undo)-1-i]()
	}
	t.puts = nil
	return text
}

// reachable is the program without the messages that no method needs.
func reachable(p *Prog) *Prog {
	q := *p
	seen := map[string]bool{}
	var visit func(n string)
	visit = func(n string) {
		if !seen[n] {
			seen[n] = true
			for _, m := range p.Msgs {
				if m.Name == n {
					for _, u := range usesOf(m) {
						visit(u)
					}
				}
			}
		}
	}
	visit(p.Root)
	q.Msgs = nil
	for _, m := range p.Msgs {
		if seen[m.Name] {
			q.Msgs = append(q.Msgs, m)
		}
	}
	return &q
}

func newTree(p *Prog) *stree {
	p = reachable(p)
	curProg = p
	t := &stree{p: p, enc: &sEnc{}, names: map[string][]string{}, iters: map[string][]string{}}
	t.js = t.enc.prog(p)
	for _, m := range p.Msgs {
		seen, iters := map[string]bool{}, map[string]bool{}
		f := func(d *Def) {
			if !d.Anon && d.Name != "" {
				seen[d.Name] = true
			}
			if d.Map != nil {
				iters[d.Map.Iter] = true
			}
		}
		walkDefs(m.Defs, f)
		for _, x := range m.Fields {
			walkDefs(x.Defs, f)
		}
		t.names[m.Name] = append(keys(seen), "nope")
		t.iters[m.Name] = keys(iters)
	}
	return t
}

// cases of a hole; share: percentage of the cases taken.
func (t *stree) cases(ti int, rng *rand.Rand, share int) []*scase {
	var out []*scase
	take := func() bool { return share >= 100 || rng.Intn(100) < share }
	for hi, h := range t.enc.holes {
		add := func(k string, x any, note string, put func() func()) {
			if t.puts != nil {
				*t.puts = append(*t.puts, put)
				return
			}
			if !take() {
				return
			}
			undo := put()
			c := &scase{Tree: ti + 1, K: k, I: hi + 1, X: x, label: h.label + " := " + note}
			c.text = renderFile("p", []*Prog{t.p})
			undo()
			out = append(out, c)
		}
		putE := func(e *Expr) func() func() {
			return func() func() {
				old := *h.e
				*h.e = e
				return func() { *h.e = old }
			}
		}
		putS := func(n string) func() func() {
			return func() func() {
				old := *h.s
				if h.set != nil {
					h.set(n)
					return func() { h.set(old) }
				}
				*h.s = n
				return func() { *h.s = old }
			}
		}
		switch h.kind {
		case "expr":
			var m *Msg
			for _, x := range t.p.Msgs {
				if x.Name == h.msg {
					m = x
				}
			}
			want := h.want
			if coerce(want, intLit(1)) == nil {
				want = ""
			}
			if want != "" {
				for _, n := range append(t.iters[h.msg], t.names[h.msg]...) {
					e := coerce(want, wrap(vr(n, "int")))
					add("expr", sExpr(e), e.cel(), putE(e))
				}
				for _, n := range append([]string{"nope"}, argNames(m)...) {
					e := coerce(want, wrap(arg(n, "int")))
					add("expr", sExpr(e), e.cel(), putE(e))
				}
			}
			for _, e := range typedExprs() {
				add("expr", sExpr(e), e.cel(), putE(e))
			}
		case "defname":
			for _, n := range append(t.names[h.msg], "fresh", "error", "9x", "_x") {
				add("name", n, n, putS(n))
			}
		case "mapsrc":
			for _, n := range append(t.iters[h.msg], t.names[h.msg]...) {
				add("name", n, n, putS(n))
			}
		case "msgname":
			for _, n := range []string{h.msg, "Nope"} {
				add("name", n, n, putS(n))
			}
		case "argname":
			if *h.s != "" {
				add("name", "fresh", "fresh", putS("fresh"))
			}
		case "reqfield":
			for _, n := range []string{"nope", "id", "n", "s", "b", "ns", "item", "e"} {
				add("name", n, n, putS(n))
			}
		case "mode":
			switch *h.s {
			case "by":
				add("name", "none", "none", putS("none"))
			case "oneof":
				add("name", "default", "default", putS("default"))
			}
		}
	}
	return out
}

func argNames(m *Msg) []string {
	r := []string{}
	for _, a := range m.Args {
		r = append(r, a.N)
	}
	return r
}

func init() { otherChecks["C02"] = checkC02 }

// sinkPrograms use every construct; each definition is mentioned at most in a response field.
func sinkPrograms() []*Prog {
	var out []*Prog
	one := func(name string) *Def { return &Def{Name: name, Kind: "by", Ty: "int", By: intLit(1)} }
	list := func(name string) *Def { return &Def{Name: name, Kind: "by", Ty: "ints", By: lit("ints", []int{1, 2})} }
	yes := func() *Expr { return boolLit(true) }
	detail := func(b *pb, l *Msg, pre string) *Detail {
		return &Detail{If: yes(), Defs: []*Def{one(pre + "d"), {Name: pre + "e", Kind: "by", Ty: "str", By: strLit("q")}}, By: []*Expr{item(intLit(1), strLit("q"))},
			Msgs: []*MsgUse{{Name: l.Name, Args: []*ReqField{{F: "x", By: intLit(1)}}}},
			Bad:  [][2]*Expr{{strLit("x"), strLit("y")}}, Pre: [][3]*Expr{{strLit("x"), strLit("y"), strLit("z")}}, Loc: []*Expr{strLit("q")}}
	}
	leaf := func(b *pb) *Msg {
		m := &Msg{Name: b.p.ID + "L", Args: []FieldExpr{{"x", &Expr{T: "int"}}}, Fields: []*Field{{Name: "n", Ty: "int", Mode: "by", By: arg("x", "int")}}}
		b.p.Msgs = append(b.p.Msgs, m)
		return m
	}
	mk := func(f func(b *pb) *Prog) { out = append(out, f(newPB("P0"))) }
	mk(func(b *pb) *Prog { // a call
		c := b.call("c", nil)
		c.If = yes()
		c.Call.Req = append(c.Call.Req, &ReqField{F: "s", By: strLit("q"), If: yes()}, &ReqField{F: "b", By: yes()}, &ReqField{F: "ns", By: lit("ints", []int{1})}, &ReqField{F: "item", By: item(intLit(1), strLit("q"))}, &ReqField{F: "e", By: enumExpr()})
		c.Call.Retry = &Retry{Kind: "exponential", Max: 1, If: yes()}
		c.Call.Errors = []*Block{{Defs: []*Def{one("e0"), one("e1")}, If: yes(), Code: 3, Msg: strLit("q")}, {Defs: []*Def{one("e2")}, If: yes(), Code: 3, Ignore: true}}
		return b.root([]*Def{one("a"), c, one("z")})
	})
	mk(func(b *pb) *Prog { // calls within error blocks
		in := b.call("ic", nil)
		in.Call.Retry = &Retry{Kind: "constant", Max: 1, If: yes()}
		in.Call.Errors = []*Block{{Defs: []*Def{one("i0")}, If: yes(), Code: 3, Msg: strLit("q")}}
		c := b.call("c", nil)
		c.Call.Errors = []*Block{
			{Defs: []*Def{list("l"), in, {Name: "em", Kind: "map", Ty: "ints", If: yes(), Map: &MapX{Iter: "ei", Src: "l", SrcT: "ints", By: vr("ei", "int")}}}, If: yes(), Code: 3},
			{Defs: []*Def{one("e1")}, If: yes(), Code: -1, IgnResp: &Expr{K: "mk", T: "res", N: "be.Res", Fs: []FieldExpr{{"n", intLit(1)}}}},
		}
		return b.root([]*Def{one("a"), c, list("z"), {Name: "y", Kind: "map", Ty: "ints", Map: &MapX{Iter: "yi", Src: "z", SrcT: "ints", By: intLit(1)}}})
	})
	mk(func(b *pb) *Prog { // details
		l := leaf(b)
		c := b.call("c", nil)
		c.Call.Errors = []*Block{{Defs: []*Def{one("e0")}, If: yes(), Code: 3, Msg: strLit("q"), Details: []*Detail{detail(b, l, "f"), {If: yes(), Defs: []*Def{one("g")}, Loc: []*Expr{strLit("q")}}}}}
		return b.root([]*Def{one("a"), c, one("z")})
	})
	mk(func(b *pb) *Prog { // validations
		l := leaf(b)
		v := &Def{Name: "v", Anon: true, Kind: "validation", Ty: "bool", If: yes(), Val: &Block{Defs: []*Def{one("v0"), list("v1")}, If: yes(), Code: 9, Msg: strLit("q"), Details: []*Detail{detail(b, l, "v")}}}
		w := &Def{Name: "w", Anon: true, Kind: "validation", Ty: "bool", Val: &Block{If: yes(), Code: 9}}
		return b.root([]*Def{one("a"), v, one("y"), w, one("z")})
	})
	mk(func(b *pb) *Prog { // messages and maps
		l := leaf(b)
		u := func(e *Expr) *MsgUse { return &MsgUse{Name: l.Name, Args: []*ReqField{{F: "x", By: e}}} }
		l.Defs = []*Def{one("p"), list("q")}
		return b.root([]*Def{list("l"), {Name: "m", Kind: "message", Ty: Ty("m:" + l.Name), If: yes(), Msg: u(intLit(1))},
			{Name: "k", Kind: "map", Ty: Ty("l:" + l.Name), Map: &MapX{Iter: "i", Src: "l", SrcT: "ints", Msg: u(vr("i", "int"))}},
			{Name: "j", Kind: "map", Ty: "strs", If: yes(), Map: &MapX{Iter: "i2", Src: "l", SrcT: "ints", By: op("str", "tostr", vr("i2", "int"))}},
			{Name: "e", Kind: "enum", Ty: "enum", Enum: enumExpr()},
			{Name: "f", Kind: "map", Ty: "enums", Map: &MapX{Iter: "i3", Src: "l", SrcT: "ints", Enum: enumExpr()}},
			one("z")})
	})
	mk(func(b *pb) *Prog { // arguments of all types, used twice
		l := leaf(b)
		l.Args, l.Fields[0].By = nil, intLit(1)
		args := func() []*ReqField {
			r := []*ReqField{}
			for i, e := range typedExprs() {
				r = append(r, &ReqField{F: fmt.Sprint("x", i), By: e})
			}
			return append(r, &ReqField{Inline: true, By: item(intLit(1), strLit("q"))})
		}
		for _, a := range args() {
			if !a.Inline {
				l.Args = append(l.Args, FieldExpr{a.F, &Expr{T: a.By.T}})
			}
		}
		l.Args = append(l.Args, FieldExpr{"n", &Expr{T: "int"}}, FieldExpr{"s", &Expr{T: "str"}})
		u := func(n string) *Def {
			return &Def{Name: n, Kind: "message", Ty: Ty("m:" + l.Name), Msg: &MsgUse{Name: l.Name, Args: args()}}
		}
		return b.root([]*Def{u("u"), u("w")})
	})
	mk(func(b *pb) *Prog { // oneofs
		sel := b.call("p1", nil)
		sel.Call.Errors = []*Block{{Defs: []*Def{one("p1e")}, If: yes(), Code: 3, Msg: strLit("q")}}
		return b.root([]*Def{one("a")},
			&Field{Name: "o1", Ty: "int", Mode: "oneof", Oneof: "og", If: yes(), Defs: []*Def{one("p0"), sel}, By: intLit(1)},
			&Field{Name: "o2", Ty: "str", Mode: "oneof", Oneof: "og", If: yes(), Defs: []*Def{one("p2")}, By: strLit("q")},
			&Field{Name: "o3", Ty: Ty("item"), Mode: "oneof", Oneof: "og", Deflt: true, Defs: []*Def{list("p3")}, By: item(intLit(1), strLit("q"))},
			&Field{Name: "h1", Ty: "int", Mode: "oneof", Oneof: "hg", If: yes(), By: intLit(1)},
			&Field{Name: "h2", Ty: "bool", Mode: "oneof", Oneof: "hg", Deflt: true, By: yes()},
		)
	})
	mk(func(b *pb) *Prog { // fields of all types
		c, d := b.call("c", nil), &Def{Name: "it", Kind: "by", Ty: "item", AutoBind: true, By: item(intLit(1), strLit("q"))}
		c.AutoBind = true
		p := b.root([]*Def{c, d, one("z")},
			&Field{Name: "b", Ty: "bool", Mode: "auto"},
			&Field{Name: "items", Ty: "items", Mode: "auto"},
			&Field{Name: "n", Ty: "int", Mode: "by", By: intLit(1)},
			&Field{Name: "cu", Ty: "int", Mode: "custom"},
			&Field{Name: "ns", Ty: "ints", Mode: "by", By: lit("ints", []int{1})},
			&Field{Name: "item", Ty: "item", Mode: "by", By: item(intLit(1), strLit("q"))},
			&Field{Name: "bs", Ty: "bools", Mode: "by", By: op("bools", "list", boolLit(true))},
			&Field{Name: "is", Ty: "items", Mode: "by", By: op("items", "list", item(intLit(1), strLit("q")))},
		)
		return p
	})
	return out
}

func checkC02(c *Check) {
	c.Ev.Level = "model_checking"
	c.Ev.Assumptions = []string{
		"expressions are those of vh/ast.go over int64, string, bool, enum, messages and lists of them",
		"`error` outside of a handler, names that a map iterator shares with a definition, and empty list literals are not used",
	}
	share, randoms, rshare := 30, 24, 3
	if c.thorough() {
		share, randoms, rshare = 100, 300, 8
	}
	rng := rand.New(rand.NewSource(c.Seed))
	var trees []*stree
	var cases []*scase
	add := func(p *Prog, share int) {
		t := newTree(p)
		p = t.p
		ti := len(trees)
		trees = append(trees, t)
		cases = append(cases, &scase{Tree: ti + 1, K: "as is", I: 0, X: "", label: "unchanged", text: renderFile("p", []*Prog{p})})
		cases = append(cases, t.cases(ti, rng, share)...)
	}
	for _, p := range sinkPrograms() {
		add(p, share)
	}
	for _, f := range []func(int) []*Prog{refPrograms, fanPrograms, ifPrograms, mapPrograms} {
		for _, p := range f(0) {
			add(p, rshare)
		}
	}
	kn := baseK
	for i := 0; i < randoms; i++ {
		add(genProg(c.Seed*100003+int64(i), "P0", kn), rshare)
	}
	pool := newPool(8)
	defer pool.close()
	var reqs []*WReq
	be := beProto()
	for i, x := range cases {
		reqs = append(reqs, &WReq{Dir: filepath.Join(c.Dir, "s", fmt.Sprint(i)), Files: map[string]string{"p.proto": x.text, "be/be.proto": be}, Entry: []string{"p.proto"}})
	}
	for i, r := range pool.all(reqs) {
		x := cases[i]
		x.Accepted = r.OK()
		x.note = r.String()
		switch {
		case r.Crash != "" || r.Hang:
			x.odd = "the resolver did not answer"
		case r.Compile != "":
			x.odd = "not a proto file: " + r.Compile
			must(fmt.Errorf("%s: %s\n%s", x.label, r.Compile, x.text))
		}
	}
	var tj []any
	for _, t := range trees {
		tj = append(tj, t.js)
	}
	tpath, cpath := filepath.Join(c.Dir, "trees.ndjson"), filepath.Join(c.Dir, "cases.ndjson")
	writeNDJSON(tpath, tj)
	writeNDJSON(cpath, cases)
	res, err := tlc(c.Dir, "FedStaticTrace", "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n", []string{"TRACE=" + cpath, "TREES=" + tpath}, 10*time.Minute)
	must(err)
	c.addInt("states", res.States)
	bad := map[int]bool{}
	for _, l := range res.Lines {
		var b struct{ Bad int }
		must(json.Unmarshal([]byte(l), &b))
		bad[b.Bad-1] = true
	}
	acc := 0
	for i, x := range cases {
		if x.Accepted {
			acc++
		}
		if x.odd != "" {
			c.violation(fmt.Sprintf("%s: %s\n%s\n%s", x.odd, x.label, x.note, x.text))
		} else if bad[i] {
			w := "rejected though well-formed"
			if x.Accepted {
				w = "accepted though ill-formed"
			}
			c.violation(fmt.Sprintf("%s: %s\n%s\n%s", w, x.label, x.note, x.text))
		}
	}
	c.addInt("schemas", len(cases))
	c.addInt("trees", len(trees))
	c.addInt("accepted", acc)
	c.addInt("traces_validated_against_impl", len(cases)-len(c.bad))
	c.Ev.Coverage["samples"] = []any{cases[len(cases)/3].label, cases[len(cases)/2].label}
}
