package main

// Programs that place one reference in each position of the language.

import "fmt"

// pb builds programs by hand.
type pb struct {
	p    *Prog
	site int
}

func newPB(id string) *pb { return &pb{p: &Prog{ID: id, Root: id + "R"}} }

func (b *pb) s() string {
	b.site++
	n := fmt.Sprintf("C%d", b.site-1)
	b.p.Sites = append(b.p.Sites, n)
	return n
}

func (b *pb) call(name string, n *Expr) *Def {
	if n == nil {
		n = arg("n", "int")
	}
	return &Def{Name: name, Kind: "call", Ty: "res", Call: &Call{Site: b.s(), Req: []*ReqField{{F: "id", By: pathOf(name)}, {F: "n", By: n}}}}
}

// leaf declares a message with the standard arguments whose fields echo them.
func (b *pb) leaf(name string, withCall bool) *Msg {
	m := &Msg{Name: b.p.ID + name, Args: []FieldExpr{{"pid", &Expr{T: "str"}}, {"n", &Expr{T: "int"}}, {"s", &Expr{T: "str"}}}}
	if withCall {
		c := b.call("lc", arg("n", "int"))
		m.Defs = append(m.Defs, c)
		m.Fields = append(m.Fields, &Field{Name: "r", Ty: "int", Mode: "by", By: sel(vr("lc", "res"), "n", "int")})
	}
	m.Fields = append(m.Fields, &Field{Name: "n", Ty: "int", Mode: "by", By: arg("n", "int")}, &Field{Name: "s", Ty: "str", Mode: "by", By: arg("s", "str")})
	b.p.Msgs = append(b.p.Msgs, m)
	return m
}

func (b *pb) use(m *Msg, path string, n, s *Expr) *MsgUse {
	return &MsgUse{Name: m.Name, Args: []*ReqField{{F: "pid", By: pathOf(path)}, {F: "n", By: n}, {F: "s", By: s}}}
}

func (b *pb) root(defs []*Def, extra ...*Field) *Prog {
	m := &Msg{Name: b.p.Root, Args: rootArgs, Defs: defs}
	for _, d := range defs {
		if d.Kind == "validation" || d.Kind == "enum" {
			continue
		}
		m.Fields = append(m.Fields, &Field{Name: "f" + d.Name, Ty: d.Ty, Mode: "by", By: vr(d.Name, d.Ty)})
	}
	m.Fields = append(m.Fields, extra...)
	b.p.Msgs = append(b.p.Msgs, m)
	return b.p
}

func item(n, s *Expr) *Expr {
	return &Expr{K: "mk", T: "item", N: "be.Item", Fs: []FieldExpr{{"n", n}, {"s", s}}}
}

func errMsg() *Expr  { return &Expr{K: "err", F: "message", T: "str"} }
func errCode() *Expr { return &Expr{K: "err", F: "code", T: "int"} }

func isCode(c int) *Expr { return op("bool", "eq", errCode(), intLit(c)) }

// refPrograms: `a` is a call; every other definition mentions it in exactly one position.
func refPrograms(base int) []*Prog {
	var out []*Prog
	id := func() string { return fmt.Sprintf("P%d", base+len(out)) }
	a := vr("a", "res")
	an, as, ab := sel(a, "n", "int"), sel(a, "s", "str"), sel(a, "b", "bool")
	// 1: calls and plain definitions
	{
		b := newPB(id())
		l := b.leaf("L", true)
		ds := []*Def{b.call("a", nil)}
		c1 := b.call("c1", nil)
		c1.If = ab
		c2 := b.call("c2", an)
		c3 := b.call("c3", nil)
		c3.Call.Req = append(c3.Call.Req, &ReqField{F: "s", By: strLit("k"), If: ab})
		c4 := b.call("c4", nil)
		c4.Call.Req = append(c4.Call.Req, &ReqField{F: "item", By: item(intLit(1), as)})
		m1 := &Def{Name: "m1", Kind: "message", Ty: Ty("m:" + l.Name), Msg: b.use(l, "m1", an, strLit("q"))}
		m2 := &Def{Name: "m2", Kind: "message", Ty: Ty("m:" + l.Name), If: ab, Msg: b.use(l, "m2", intLit(1), strLit("q"))}
		b1 := &Def{Name: "b1", Kind: "by", Ty: "int", By: an}
		b2 := &Def{Name: "b2", Kind: "by", Ty: "int", If: ab, By: intLit(7)}
		out = append(out, b.root(append(ds, c1, c2, c3, c4, m1, m2, b1, b2)))
	}
	// 2: errors and retries
	{
		b := newPB(id())
		ds := []*Def{b.call("a", nil)}
		add := func(name string, bl ...*Block) {
			c := b.call(name, nil)
			c.Call.Errors = bl
			ds = append(ds, c)
		}
		add("e1", &Block{If: op("bool", "and", op("bool", "ge", errCode(), intLit(0)), ab), Code: 3, Ignore: true})
		add("e2", &Block{Code: 3, Msg: as})
		add("e3", &Block{Code: -1, IgnResp: &Expr{K: "mk", T: "res", N: "be.Res", Fs: []FieldExpr{{"n", an}}}})
		add("e4", &Block{Code: 9, Details: []*Detail{{If: ab, Bad: [][2]*Expr{{strLit("x"), strLit("y")}}}}})
		add("e5", &Block{Code: 9, Details: []*Detail{{Loc: []*Expr{as}}}})
		add("e6", &Block{Code: 9, Details: []*Detail{{Pre: [][3]*Expr{{strLit("x"), as, strLit("y")}}}}})
		add("e7", &Block{Code: 9, Details: []*Detail{{By: []*Expr{item(an, strLit("y"))}}}})
		out = append(out, b.root(ds))
	}
	{
		b := newPB(id())
		ds := []*Def{b.call("a", nil)}
		dm := &Msg{Name: b.p.ID + "D", Args: []FieldExpr{{"n", &Expr{T: "int"}}, {"s", &Expr{T: "str"}}},
			Fields: []*Field{{Name: "n", Ty: "int", Mode: "by", By: arg("n", "int")}, {Name: "s", Ty: "str", Mode: "by", By: arg("s", "str")}}}
		b.p.Msgs = append(b.p.Msgs, dm)
		add := func(name string, bl ...*Block) *Def {
			c := b.call(name, nil)
			c.Call.Errors = bl
			ds = append(ds, c)
			return c
		}
		add("e1", &Block{Code: 9, Details: []*Detail{{Msgs: []*MsgUse{{Name: dm.Name, Args: []*ReqField{{F: "n", By: an}, {F: "s", By: strLit("k")}}}}}}})
		add("e2", &Block{Code: 9, Details: []*Detail{{Defs: []*Def{{Name: "dd", Kind: "by", Ty: "str", By: as}}, Loc: []*Expr{vr("dd", "str")}}}})
		add("e3", &Block{Code: -1, Defs: []*Def{{Name: "ed", Kind: "by", Ty: "bool", By: ab}}, If: vr("ed", "bool"), Ignore: true})
		ec := b.call("ec", an)
		add("e4", &Block{Code: -1, Defs: []*Def{ec}, IgnResp: vr("ec", "res")})
		add("e5", &Block{If: isCode(5), Ignore: true, Code: -1}, &Block{Code: 3, Msg: as})
		r1 := b.call("r1", nil)
		r1.Call.Retry = &Retry{Kind: "constant", Max: 2, If: ab}
		r2 := b.call("r2", nil)
		r2.Call.Retry = &Retry{Kind: "exponential", Max: 1, If: op("bool", "or", isCode(5), ab)}
		out = append(out, b.root(append(ds, r1, r2)))
	}
	// 3: maps
	{
		b := newPB(id())
		l := b.leaf("L", true)
		ds := []*Def{b.call("a", nil), {Name: "src", Kind: "by", Ty: "ints", By: arg("ns", "ints")}, {Name: "src2", Kind: "by", Ty: "items", By: sel(a, "items", "items")}}
		it := vr("it1", "int")
		path := op("str", "cat", pathOf("x2."), op("str", "tostr", it))
		it4 := vr("it4", "item")
		path4 := op("str", "cat", pathOf("x4."), op("str", "tostr", sel(it4, "n", "int")))
		ds = append(ds,
			&Def{Name: "x1", Kind: "map", Ty: "ints", Map: &MapX{Iter: "it1", Src: "src", SrcT: "ints", By: op("int", "+", it, an)}},
			&Def{Name: "x2", Kind: "map", Ty: Ty("l:" + l.Name), Map: &MapX{Iter: "it1", Src: "src", SrcT: "ints", Msg: &MsgUse{Name: l.Name, Args: []*ReqField{{F: "pid", By: path}, {F: "n", By: it}, {F: "s", By: as}}}}},
			&Def{Name: "x3", Kind: "map", Ty: "ints", If: ab, Map: &MapX{Iter: "it1", Src: "src", SrcT: "ints", By: it}},
			&Def{Name: "x4", Kind: "map", Ty: Ty("l:" + l.Name), Map: &MapX{Iter: "it4", Src: "src2", SrcT: "items", Msg: &MsgUse{Name: l.Name, Args: []*ReqField{{F: "pid", By: path4}, {F: "n", By: sel(it4, "n", "int")}, {F: "s", By: sel(it4, "s", "str")}}}}},
		)
		p := b.root(ds)
		out = append(out, p)
	}
	// 4: validations
	for i := 0; i < 5; i++ {
		b := newPB(id())
		ds := []*Def{b.call("a", nil)}
		bl := &Block{If: op("bool", "ge", arg("n", "int"), intLit(1)), Code: 9}
		switch i {
		case 0:
			bl.If = ab
		case 1:
			bl.Msg = as
		case 2:
			bl.Details = []*Detail{{If: ab, Loc: []*Expr{strLit("k")}}}
		case 3:
			bl.Details = []*Detail{{Loc: []*Expr{as}}, {By: []*Expr{item(an, as)}}}
		case 4:
			bl.Defs = []*Def{{Name: "vd", Kind: "by", Ty: "bool", By: ab}}
			bl.If = vr("vd", "bool")
		}
		v := &Def{Name: "v", Anon: true, Kind: "validation", Ty: "bool", Val: bl}
		if i == 2 {
			v.If = op("bool", "ge", arg("n", "int"), intLit(1))
		}
		c1 := b.call("c1", nil)
		v2 := &Def{Name: "w", Anon: true, Kind: "validation", Ty: "bool", If: ab, Val: &Block{If: arg("b", "bool"), Code: 3}}
		c2 := b.call("c2", nil)
		out = append(out, b.root(append(ds, v, c1, v2, c2)))
	}
	// 5: oneofs, custom resolvers, inline arguments
	{
		b := newPB(id())
		l := &Msg{Name: b.p.ID + "L", Args: []FieldExpr{{"pid", &Expr{T: "str"}}, {"n", &Expr{T: "int", F: "inline"}}, {"s", &Expr{T: "str", F: "inline"}}},
			Custom: true, Fields: []*Field{{Name: "n", Ty: "int", Mode: "none"}, {Name: "s", Ty: "str", Mode: "none"}, {Name: "cf", Ty: "int", Mode: "custom"}}}
		l.Defs = []*Def{b.call("lc", arg("n", "int"))}
		b.p.Msgs = append(b.p.Msgs, l)
		ds := []*Def{b.call("a", nil)}
		ds = append(ds, &Def{Name: "m1", Kind: "message", Ty: Ty("m:" + l.Name), Msg: &MsgUse{Name: l.Name, Args: []*ReqField{{F: "pid", By: pathOf("m1")}, {Inline: true, By: sel(a, "item", "item")}}}})
		oc := b.call("oc", an)
		out = append(out, b.root(ds,
			&Field{Name: "o1", Oneof: "one", Mode: "oneof", Ty: "int", If: ab, By: intLit(3)},
			&Field{Name: "o2", Oneof: "one", Mode: "oneof", Ty: "res", If: op("bool", "ge", arg("n", "int"), intLit(2)), Defs: []*Def{oc}, By: vr("oc", "res")},
			&Field{Name: "o3", Oneof: "one", Mode: "oneof", Ty: "str", Deflt: true, By: as},
			&Field{Name: "cf", Ty: "int", Mode: "custom"}))
	}
	return out
}

// fanPrograms: definitions with many dependents on several levels.
func fanPrograms(base int) []*Prog {
	var out []*Prog
	for v := 0; v < 4; v++ {
		b := newPB(fmt.Sprintf("P%d", base+len(out)))
		l := b.leaf("L", true)
		a, c := vr("a", "res"), vr("c", "res")
		ds := []*Def{b.call("a", nil)}
		n := 4 + v
		var mids []*Expr
		switch v % 2 {
		case 0:
			ds = append(ds, b.call("c", nil))
			for i := 0; i < n; i++ {
				nm := fmt.Sprintf("d%d", i)
				if i%2 == 0 {
					ds = append(ds, b.call(nm, op("int", "+", sel(a, "n", "int"), sel(c, "n", "int"))))
					mids = append(mids, sel(vr(nm, "res"), "n", "int"))
				} else {
					ds = append(ds, &Def{Name: nm, Kind: "by", Ty: "int", By: op("int", "+", sel(a, "n", "int"), sel(c, "n", "int"))})
					mids = append(mids, vr(nm, "int"))
				}
			}
		default:
			ds = append(ds, b.call("c", sel(a, "n", "int")))
			for i := 0; i < n; i++ {
				nm := fmt.Sprintf("d%d", i)
				if i%2 == 0 {
					ds = append(ds, &Def{Name: nm, Kind: "message", Ty: Ty("m:" + l.Name), Msg: b.use(l, nm, sel(c, "n", "int"), sel(a, "s", "str"))})
					mids = append(mids, sel(vr(nm, Ty("m:"+l.Name)), "n", "int"))
				} else {
					ds = append(ds, &Def{Name: nm, Kind: "by", Ty: "int", By: op("int", "+", sel(a, "n", "int"), sel(c, "n", "int"))})
					mids = append(mids, vr(nm, "int"))
				}
			}
		}
		for j := 0; j < 3; j++ {
			e := intLit(j)
			for _, m := range mids {
				e = op("int", "+", e, m)
			}
			if b.site < 14 {
				ds = append(ds, b.call(fmt.Sprintf("e%d", j), e))
			} else {
				ds = append(ds, &Def{Name: fmt.Sprintf("e%d", j), Kind: "by", Ty: "int", By: e})
			}
		}
		out = append(out, b.root(ds))
	}
	return out
}

// ifPrograms: every kind of definition under a condition, with its value consumed in every position.
func ifPrograms(base int) []*Prog {
	var out []*Prog
	id := func() string { return fmt.Sprintf("P%d", base+len(out)) }
	cond := func(i int) *Expr {
		if i%3 == 2 {
			return op("bool", "ge", arg("n", "int"), intLit(2))
		}
		return arg("b", "bool")
	}
	// plain values of every type
	{
		b := newPB(id())
		var ds []*Def
		vals := []struct {
			t Ty
			e *Expr
		}{{"int", intLit(7)}, {"str", strLit("k")}, {"bool", boolLit(true)}, {"ints", arg("ns", "ints")}, {"strs", lit("strs", []string{"u", "w"})}, {"item", item(intLit(3), arg("s", "str"))}, {"items", op("items", "list", item(intLit(3), arg("s", "str")))}}
		for i, v := range vals {
			ds = append(ds, &Def{Name: fmt.Sprintf("w%d", i), Kind: "by", Ty: v.t, If: cond(i), By: v.e})
		}
		ds = append(ds,
			&Def{Name: "z1", Kind: "by", Ty: "int", By: op("int", "+", vr("w0", "int"), op("int", "size", vr("w3", "ints")))},
			&Def{Name: "z2", Kind: "by", Ty: "str", By: op("str", "cat", vr("w1", "str"), sel(vr("w5", "item"), "s", "str"))},
			&Def{Name: "z3", Kind: "by", Ty: "bool", By: op("bool", "or", vr("w2", "bool"), &Expr{K: "op", T: "bool", Op: "isnull", V: 0, A: []*Expr{vr("w5", "item")}})},
			&Def{Name: "z4", Kind: "map", Ty: "ints", Map: &MapX{Iter: "i1", Src: "w3", SrcT: "ints", By: op("int", "+", vr("i1", "int"), vr("w0", "int"))}},
			&Def{Name: "z5", Kind: "map", Ty: "strs", Map: &MapX{Iter: "i2", Src: "w6", SrcT: "items", By: sel(vr("i2", "item"), "s", "str")}},
			&Def{Name: "z6", Kind: "map", Ty: "strs", Map: &MapX{Iter: "i3", Src: "w4", SrcT: "strs", By: op("str", "cat", vr("i3", "str"), vr("w1", "str"))}},
			&Def{Name: "z7", Kind: "by", Ty: "ints", By: op("ints", "madd", vr("w3", "ints"), intLit(1))})
		c := b.call("z8", vr("w0", "int"))
		c.Call.Req = append(c.Call.Req, &ReqField{F: "s", By: vr("w1", "str")}, &ReqField{F: "ns", By: vr("w3", "ints")}, &ReqField{F: "item", By: vr("w5", "item"), If: vr("w2", "bool")})
		ds = append(ds, c)
		out = append(out, b.root(ds))
	}
	// calls and messages; everything that depends on them proceeds
	for v := 0; v < 3; v++ {
		b := newPB(id())
		l := b.leaf("L", true)
		lt := Ty("m:" + l.Name)
		c1 := b.call("c1", nil)
		c1.If = cond(v)
		c1.AutoBind = v == 1
		m1 := &Def{Name: "m1", Kind: "message", Ty: lt, If: cond(v + 1), Msg: b.use(l, "m1", arg("n", "int"), strLit("q"))}
		ds := []*Def{c1, m1}
		ds = append(ds,
			&Def{Name: "y1", Kind: "by", Ty: "int", By: op("int", "+", sel(vr("c1", "res"), "n", "int"), sel(vr("m1", lt), "n", "int"))},
			&Def{Name: "y2", Kind: "by", Ty: "bool", By: op("bool", "or", &Expr{K: "op", T: "bool", Op: "notnull", V: 0, A: []*Expr{vr("c1", "res")}}, &Expr{K: "op", T: "bool", Op: "isnull", V: 1, A: []*Expr{vr("m1", lt)}})},
			&Def{Name: "y3", Kind: "by", Ty: "items", By: sel(vr("c1", "res"), "items", "items")},
			&Def{Name: "y4", Kind: "map", Ty: "ints", Map: &MapX{Iter: "i1", Src: "y3", SrcT: "items", By: sel(vr("i1", "item"), "n", "int")}})
		c2 := b.call("c2", sel(vr("c1", "res"), "n", "int"))
		c2.Call.Req = append(c2.Call.Req, &ReqField{F: "item", By: sel(vr("c1", "res"), "item", "item")})
		c3 := b.call("c3", sel(vr("m1", lt), "n", "int"))
		m2 := &Def{Name: "m2", Kind: "message", Ty: lt, Msg: b.use(l, "m2", sel(vr("m1", lt), "n", "int"), sel(vr("c1", "res"), "s", "str"))}
		ds = append(ds, c2, c3, m2)
		p := b.root(ds)
		if v == 1 {
			m := p.Msgs[len(p.Msgs)-1]
			for _, f := range []string{"n", "s", "b", "ns", "item", "items"} {
				m.Fields = append(m.Fields, &Field{Name: f, Ty: resFields[f], Mode: "auto", AutoOf: "c1"})
			}
		}
		out = append(out, p)
	}
	// maps under a condition
	for v := 0; v < 2; v++ {
		b := newPB(id())
		l := b.leaf("L", v == 1)
		lt := Ty("l:" + l.Name)
		it1, it2 := vr("it1", "int"), vr("it2", "item")
		path := op("str", "cat", pathOf("x2."), op("str", "tostr", it1))
		ds := []*Def{b.call("a", nil),
			{Name: "src", Kind: "by", Ty: "ints", By: arg("ns", "ints")},
			{Name: "src2", Kind: "by", Ty: "items", By: sel(vr("a", "res"), "items", "items")},
			{Name: "x1", Kind: "map", Ty: "ints", If: cond(v), Map: &MapX{Iter: "it1", Src: "src", SrcT: "ints", By: op("int", "+", it1, intLit(1))}},
			{Name: "x2", Kind: "map", Ty: lt, If: cond(v + 1), Map: &MapX{Iter: "it1", Src: "src", SrcT: "ints", Msg: &MsgUse{Name: l.Name, Args: []*ReqField{{F: "pid", By: path}, {F: "n", By: it1}, {F: "s", By: strLit("k")}}}}},
			{Name: "x3", Kind: "map", Ty: "strs", If: sel(vr("a", "res"), "b", "bool"), Map: &MapX{Iter: "it2", Src: "src2", SrcT: "items", By: sel(it2, "s", "str")}},
			{Name: "y1", Kind: "by", Ty: "int", By: op("int", "+", op("int", "size", vr("x1", "ints")), op("int", "size", vr("x3", "strs")))},
			{Name: "y2", Kind: "map", Ty: "ints", Map: &MapX{Iter: "it3", Src: "x1", SrcT: "ints", By: op("int", "+", vr("it3", "int"), vr("y1", "int"))}},
			{Name: "y3", Kind: "map", Ty: "ints", Map: &MapX{Iter: "it4", Src: "x2", SrcT: lt, By: sel(vr("it4", "m:"+Ty(l.Name)), "n", "int")}},
			{Name: "y4", Kind: "by", Ty: "int", By: op("int", "size", vr("x2", lt))},
		}
		c := b.call("c9", vr("y1", "int"))
		c.Call.Req = append(c.Call.Req, &ReqField{F: "ns", By: vr("x1", "ints")})
		ds = append(ds, c)
		out = append(out, b.root(ds))
	}
	// validations under a condition, definitions of handlers, details and alternatives under a condition
	{
		b := newPB(id())
		a := b.call("a", nil)
		v1 := &Def{Name: "v", Anon: true, Kind: "validation", Ty: "bool", If: cond(0), Val: &Block{If: op("bool", "lt", arg("n", "int"), intLit(2)), Code: 9, Msg: strLit("v")}}
		c1 := b.call("c1", nil)
		c1.Call.Errors = []*Block{{Code: -1, Defs: []*Def{{Name: "e1", Kind: "by", Ty: "str", If: cond(0), By: strLit("handled")}, {Name: "e2", Kind: "by", Ty: "item", If: cond(2), By: item(intLit(1), strLit("i"))}},
			Msg:     op("str", "cat", vr("e1", "str"), sel(vr("e2", "item"), "s", "str")),
			Details: []*Detail{{Defs: []*Def{{Name: "d1", Kind: "by", Ty: "str", If: cond(0), By: strLit("dd")}}, Loc: []*Expr{vr("d1", "str")}}}}}
		ec := b.call("ec", nil)
		ec.If = cond(0)
		c2 := b.call("c2", nil)
		c2.Call.Errors = []*Block{{Code: -1, Defs: []*Def{ec}, IgnResp: &Expr{K: "mk", T: "res", N: "be.Res", Fs: []FieldExpr{{"n", sel(vr("ec", "res"), "n", "int")}, {"s", sel(vr("ec", "res"), "s", "str")}}}}}
		oc := b.call("oc", nil)
		oc.If = cond(2)
		out = append(out, b.root([]*Def{a, v1, c1, c2},
			&Field{Name: "o1", Oneof: "one", Mode: "oneof", Ty: "res", If: op("bool", "ge", arg("n", "int"), intLit(1)), Defs: []*Def{oc}, By: vr("oc", "res")},
			&Field{Name: "o2", Oneof: "one", Mode: "oneof", Ty: "int", Deflt: true, Defs: []*Def{{Name: "od", Kind: "by", Ty: "int", If: cond(0), By: intLit(5)}}, By: vr("od", "int")}))
	}
	return out
}

// mapPrograms: sources of every kind, bodies of every kind, failures at any element.
func mapPrograms(base int) []*Prog {
	var out []*Prog
	id := func() string { return fmt.Sprintf("P%d", base+len(out)) }
	mapBy := func(name, src string, t Ty, ty Ty, iter string, by *Expr) *Def {
		return &Def{Name: name, Kind: "map", Ty: ty, Map: &MapX{Iter: iter, Src: src, SrcT: t, By: by}}
	}
	mapMsg := func(name, src string, t Ty, iter string, m *Msg, n, s *Expr) *Def {
		it := vr(iter, t.elem())
		key := it
		switch {
		case t.elem() == "item" || t.isList() && t[:2] == "l:":
			key = op("str", "tostr", sel(it, "n", "int"))
		case t.elem() == "int":
			key = op("str", "tostr", it)
		}
		return &Def{Name: name, Kind: "map", Ty: Ty("l:" + m.Name), Map: &MapX{Iter: iter, Src: src, SrcT: t,
			Msg: &MsgUse{Name: m.Name, Args: []*ReqField{{F: "pid", By: op("str", "cat", pathOf(name+"."), key)}, {F: "n", By: n}, {F: "s", By: s}}}}}
	}
	isnull := func(e *Expr, v int) *Expr { return &Expr{K: "op", T: "bool", Op: "isnull", V: v, A: []*Expr{e}} }
	i1, i2, i3 := vr("i1", "int"), vr("i2", "item"), vr("i3", "str")
	// elements that are null
	{
		b := newPB(id())
		l := b.leaf("L", false)
		a := b.call("a", nil)
		ds := []*Def{a,
			{Name: "s1", Kind: "by", Ty: "ints", By: arg("ns", "ints")},
			mapBy("q1", "s1", "ints", "items", "i1", op("item", "tern", op("bool", "ge", i1, intLit(2)), arg("it", "item"), sel(vr("a", "res"), "item", "item"))),
			mapBy("q2", "q1", "items", "ints", "i2", op("int", "tern", isnull(i2, 0), intLit(-1), sel(i2, "n", "int"))),
			mapBy("q3", "q1", "items", "strs", "i2", sel(i2, "s", "str")),
			mapBy("q4", "q1", "items", "items", "i2", i2),
			{Name: "q5", Kind: "by", Ty: "int", By: op("int", "+", op("int", "size", vr("q1", "items")), op("int", "size", vr("q4", "items")))},
			{Name: "q6", Kind: "by", Ty: "ints", By: op("ints", "inum", vr("q4", "items"))},
			mapBy("q7", "s1", "ints", "items", "i1", arg("it", "item")),
			{Name: "q8", Kind: "by", Ty: "int", By: op("int", "size", vr("q7", "items"))},
			mapBy("q9", "q7", "items", "bools", "i2", isnull(i2, 1)),
		}
		_ = l
		out = append(out, b.root(ds))
	}
	// every kind of source and body
	for v := 0; v < 3; v++ {
		b := newPB(id())
		l := b.leaf("L", true)
		k := b.leaf("K", false)
		lt := Ty("l:" + k.Name)
		a := b.call("a", nil)
		av := vr("a", "res")
		ds := []*Def{a,
			{Name: "s1", Kind: "by", Ty: "ints", By: sel(av, "ns", "ints")},
			{Name: "s2", Kind: "by", Ty: "items", By: sel(av, "items", "items")},
			{Name: "s3", Kind: "by", Ty: "strs", By: op("strs", "iname", vr("s2", "items"))}}
		switch v {
		case 0: // iterators with the same name, used side by side
			ds = append(ds,
				mapBy("m1", "s1", "ints", "ints", "i1", op("int", "+", i1, arg("n", "int"))),
				mapBy("m2", "s2", "items", "strs", "i1", op("str", "cat", sel(vr("i1", "item"), "s", "str"), sel(av, "s", "str"))),
				mapBy("m3", "s3", "strs", "items", "i1", item(op("int", "size", vr("s1", "ints")), vr("i1", "str"))),
				mapBy("m4", "m3", "items", "ints", "i1", op("int", "+", sel(vr("i1", "item"), "n", "int"), op("int", "size", vr("m1", "ints")))),
				mapMsg("m5", "s1", "ints", "i1", l, i1, strLit("k")))
		case 1: // messages built from messages
			ds = append(ds,
				mapMsg("m1", "s1", "ints", "i1", k, op("int", "+", i1, sel(av, "n", "int")), arg("s", "str")),
				mapBy("m2", "m1", lt, "ints", "i4", sel(vr("i4", "m:"+Ty(k.Name)), "n", "int")),
				mapMsg("m3", "m1", lt, "i4", l, sel(vr("i4", "m:"+Ty(k.Name)), "n", "int"), sel(vr("i4", "m:"+Ty(k.Name)), "s", "str")),
				mapBy("m4", "m3", "l:"+Ty(l.Name), "ints", "i5", sel(vr("i5", "m:"+Ty(l.Name)), "r", "int")),
				mapMsg("m5", "s2", "items", "i2", l, sel(i2, "n", "int"), sel(i2, "s", "str")))
		case 2: // some elements fail: by an expression, by a call
			ds = append(ds,
				mapMsg("m1", "s1", "ints", "i1", l, i1, strLit("q")),
				mapMsg("m2", "s2", "items", "i2", l, op("int", "idx", lit("ints", []int{7, 8, 9, 10}), sel(i2, "n", "int")), sel(i2, "s", "str")),
				mapBy("m3", "s3", "strs", "strs", "i3", op("str", "cat", i3, op("str", "tostr", op("int", "idx", vr("s1", "ints"), intLit(0))))),
				&Def{Name: "m4", Kind: "by", Ty: "int", By: op("int", "size", vr("m1", "l:"+Ty(l.Name)))})
		}
		out = append(out, b.root(ds))
	}
	// failing elements inside nested messages, with handlers and validations
	{
		b := newPB(id())
		l := &Msg{Name: b.p.ID + "L", Args: []FieldExpr{{"pid", &Expr{T: "str"}}, {"n", &Expr{T: "int"}}, {"s", &Expr{T: "str"}}}}
		c := b.call("lc", arg("n", "int"))
		c.Call.Errors = []*Block{{If: op("bool", "ge", arg("n", "int"), intLit(3)), Code: -1, Ignore: true}, {Code: 9, Msg: op("str", "cat", strLit("el"), op("str", "tostr", arg("n", "int")))}}
		v := &Def{Name: "lv", Anon: true, Kind: "validation", Ty: "bool", Val: &Block{If: op("bool", "eq", arg("n", "int"), intLit(5)), Code: 3, Msg: strLit("five")}}
		c2 := b.call("ld", sel(vr("lc", "res"), "n", "int"))
		l.Defs = []*Def{c, v, c2}
		l.Fields = []*Field{{Name: "n", Ty: "int", Mode: "by", By: arg("n", "int")}, {Name: "s", Ty: "str", Mode: "by", By: sel(vr("ld", "res"), "s", "str")}}
		b.p.Msgs = append(b.p.Msgs, l)
		ds := []*Def{{Name: "s1", Kind: "by", Ty: "ints", By: arg("ns", "ints")},
			mapMsg("m1", "s1", "ints", "i1", l, i1, strLit("q")),
			mapBy("m2", "m1", "l:"+Ty(l.Name), "strs", "i5", sel(vr("i5", "m:"+Ty(l.Name)), "s", "str"))}
		out = append(out, b.root(ds))
	}
	return out
}
