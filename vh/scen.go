package main

// Scenarios: programs with requests, backend answers and completion orders.

import (
	"fmt"
	"math/rand"
)

type outcome struct {
	O string      `json:"o"`
	C int         `json:"c"`
	M string      `json:"m"`
	D [][2]string `json:"d"`
}

type siteSpec struct {
	Kind  string
	Msg   string
	N     int
	S     string
	B     bool
	Ns    []int
	Items [][2]any
	Item  *[2]any
	Outs  [][]outcome
	EH    string
}

// Scenario is one run of a program.
type Scenario struct {
	ID     string
	Pkg    string
	ProgIx int // index into the engine's list of programs
	Prog   *Prog
	Args   map[string]any
	Sites  map[string]*siteSpec
	Picks  []int
	Mode   string
	HangMs int
	Fresh  bool
	Cancel int  // the caller gives up at this step (modulo their number); -1: never
	Dead   bool // the caller sets a distant deadline
	Aware  bool // backends give up when the context of the call is done
	Steps  []map[string]any
	Status string
}

// ScenKnobs: percentages.
type ScenKnobs struct {
	Fail, Plain, Panic, Detail int
	EHWrap, EHNil              int
	CustomFail                 int
	HangX                      bool // method timeout: sites hang ignoring the context
	NilIt, NilItem             int
	AttemptsMax                int
	Cancel, Dead, Aware        int
	Code                       int // any code rather than one of the usual ones
}

func itemT(n int, s string) J { return J{"t": "msg", "f": J{"n": n, "s": s}} }

func (s *siteSpec) tla() J {
	items := []any{}
	for _, x := range s.Items {
		items = append(items, itemT(x[0].(int), x[1].(string)))
	}
	item := J{"t": "nil"}
	if s.Item != nil {
		item = itemT(s.Item[0].(int), s.Item[1].(string))
	}
	outs := [][]outcome{}
	for _, os := range s.Outs {
		a := []outcome{}
		for _, o := range os {
			d := [][2]string{}
			for _, x := range o.D {
				d = append(d, encD(x))
			}
			o.D = d
			a = append(a, o)
		}
		outs = append(outs, a)
	}
	ns := s.Ns
	if ns == nil {
		ns = []int{}
	}
	return J{"kind": s.Kind, "msg": s.Msg, "n": s.N, "s": s.S, "b": s.B, "ns": ns, "items": items, "item": item, "outs": outs}
}

func (s *siteSpec) drv() J {
	items := []any{}
	for _, x := range s.Items {
		items = append(items, J{"n": x[0], "s": x[1]})
	}
	r := J{"n": s.N, "s": s.S, "b": s.B, "ns": s.Ns, "items": items, "outs": s.Outs, "eh": s.EH}
	if s.Item != nil {
		r["item"] = J{"n": s.Item[0], "s": s.Item[1]}
	}
	return r
}

func (sc *Scenario) argsT() J {
	a := J{}
	for k, v := range sc.Args {
		if k == "it" {
			if v == nil {
				a[k] = J{"t": "nil"}
			} else {
				x := v.([2]any)
				a[k] = itemT(x[0].(int), x[1].(string))
			}
			continue
		}
		a[k] = v
	}
	return a
}

func (sc *Scenario) ehT() J {
	eh := J{"-": "id"}
	for k, s := range sc.Sites {
		if s.EH != "" {
			eh[k] = s.EH
		}
	}
	return eh
}

func (sc *Scenario) tla() J {
	sites := J{}
	for k, s := range sc.Sites {
		sites[k] = s.tla()
	}
	sites["-"] = (&siteSpec{Kind: "none"}).tla()
	return J{"id": sc.ID, "prog": sc.ProgIx + 1, "args": sc.argsT(), "sites": sites, "eh": sc.ehT(), "picks": sc.Picks}
}

func (sc *Scenario) drv() J {
	sites := J{}
	for k, s := range sc.Sites {
		sites[k] = s.drv()
	}
	req := J{}
	for k, v := range sc.Args {
		if k == "it" {
			if v != nil {
				x := v.([2]any)
				req[k] = J{"n": x[0], "s": x[1]}
			}
			continue
		}
		req[k] = v
	}
	steps := sc.Steps
	if steps == nil {
		steps = []map[string]any{}
	}
	return J{"id": sc.ID, "pkg": sc.Pkg, "method": sc.Prog.ID, "req": req, "sites": sites, "steps": steps, "mode": sc.Mode, "hangms": sc.HangMs, "fresh": sc.Fresh, "deadline": sc.Dead, "aware": sc.Aware}
}

func distinct(r *rand.Rand, n int) []int {
	p := r.Perm(6)
	return append([]int{}, p[:n]...)
}

func genOutcome(r *rand.Rand, k ScenKnobs) outcome {
	x := r.Intn(100)
	if x < k.Panic {
		return outcome{O: "panic", M: []string{"boom", "ouch"}[r.Intn(2)], D: [][2]string{}}
	}
	if x < k.Panic+k.Plain {
		return outcome{O: "plain", M: []string{"x", "y", "io"}[r.Intn(3)], D: [][2]string{}}
	}
	o := outcome{O: "err", C: []int{5, 9, 13, 14}[r.Intn(4)], M: []string{"x", "y", "w", ""}[r.Intn(4)], D: [][2]string{}}
	if r.Intn(100) < 35+k.Code {
		o.C = 1 + r.Intn(16)
	}
	if r.Intn(100) < 12 {
		o.M = []string{"100%", "%s %d", "é x", "recovered error: x", "context deadline exceeded", "context canceled"}[r.Intn(6)]
	}
	for n := 0; n < 4 && r.Intn(100) < k.Detail; n++ {
		kind := detailKinds[r.Intn(len(detailKinds))]
		x := words[r.Intn(3)]
		if kind == "retry" {
			x = []string{"1s", "2.5s", "3s"}[r.Intn(3)]
		}
		o.D = append(o.D, [2]string{kind, x})
	}
	return o
}

var detailKinds = []string{"info", "loc", "debug", "reqinfo", "resinfo", "retry", "quota", "pre", "bad", "help", "be.Item"}

// encD is how the driver reports an error detail.
func encD(d [2]string) [2]string {
	x := d[1]
	switch d[0] {
	case "quota":
		x += ";"
	case "pre":
		x += "," + x + "=" + x + ";"
	case "bad":
		x += "=" + x + ";"
	case "help":
		x += x + ";"
	case "be.Item":
		return [2]string{"Item", fmt.Sprintf("%d:%s", len(x), x)}
	}
	return [2]string{d[0], x}
}

func genScenario(r *rand.Rand, id string, p *Prog, pkg string, ix int, k ScenKnobs) *Scenario {
	pct := func(x int) bool { return x > 0 && r.Intn(100) < x }
	sc := &Scenario{ID: id, Pkg: pkg, Prog: p, ProgIx: ix, Mode: "script", Sites: map[string]*siteSpec{}}
	sc.Args = map[string]any{"pid": id, "n": r.Intn(4), "s": words[r.Intn(len(words))], "b": r.Intn(2) == 0, "ns": distinct(r, r.Intn(4)), "it": [2]any{r.Intn(4), words[r.Intn(len(words))]}}
	if pct(k.NilIt) {
		sc.Args["it"] = nil
	}
	p.walkCalls(func(d *Def, c *Call) {
		s := &siteSpec{Kind: "call", N: r.Intn(4), S: words[r.Intn(len(words))], B: r.Intn(2) == 0, Ns: distinct(r, r.Intn(4)), EH: "id"}
		ks := distinct(r, r.Intn(4))
		for _, x := range ks {
			s.Items = append(s.Items, [2]any{x, words[r.Intn(len(words))]})
		}
		if !pct(k.NilItem) {
			s.Item = &[2]any{r.Intn(4), words[r.Intn(len(words))]}
		}
		switch {
		case pct(k.EHWrap):
			s.EH = "wrap"
		case pct(k.EHNil):
			s.EH = "nil"
		}
		short := c.TimeoutMs > 0 && c.TimeoutMs < 10000
		n := 1 + r.Intn(2)
		for i := 0; i < n; i++ {
			var a []outcome
			if short {
				if c.Retry != nil && r.Intn(2) == 0 {
					a = append(a, genOutcome(r, ScenKnobs{Detail: k.Detail}))
				}
				a = append(a, outcome{O: []string{"hang", "hangx", "hangp"}[r.Intn(3)], D: [][2]string{}})
				s.Outs = append(s.Outs, a)
				continue
			}
			if !pct(k.Fail) {
				s.Outs = append(s.Outs, []outcome{{O: "ok", D: [][2]string{}}})
				continue
			}
			m := 1
			if c.Retry != nil {
				m = 1 + r.Intn(k.AttemptsMax+1)
				if c.Retry.Max < 0 && pct(50) {
					m = 4 + r.Intn(4)
				}
			}
			for j := 0; j < m; j++ {
				a = append(a, genOutcome(r, k))
			}
			if c.Retry != nil && (c.Retry.Max == 0 || r.Intn(2) == 0) {
				a = append(a, outcome{O: "ok", D: [][2]string{}})
			}
			s.Outs = append(s.Outs, a)
		}
		sc.Sites[c.Site] = s
	})
	custom := func(key, kind, msg string) {
		s := &siteSpec{Kind: kind, Msg: msg, EH: "id"}
		if pct(k.CustomFail) {
			s.Outs = [][]outcome{{genOutcome(r, k)}}
		}
		sc.Sites[key] = s
	}
	for _, m := range p.Msgs {
		if m.Custom {
			custom("M:"+m.Name, "msg", m.Name)
		}
		for _, f := range m.Fields {
			if f.Mode == "custom" {
				custom("F:"+m.Name+"."+f.Name, string(f.Ty), m.Name)
			}
		}
	}
	sc.Cancel = -1
	if pct(k.Cancel) {
		sc.Cancel = r.Intn(8)
	}
	sc.Dead, sc.Aware = pct(k.Dead), pct(k.Aware)
	for i := 0; i < 7; i++ {
		sc.Picks = append(sc.Picks, r.Intn(60))
	}
	if p.TimeoutMs > 0 && p.TimeoutMs < 10000 {
		// one site never answers
		var names []string
		for _, s := range p.Sites {
			if sc.Sites[s] != nil {
				names = append(names, s)
			}
		}
		if len(names) > 0 && r.Intn(4) > 0 {
			sc.Sites[names[0]].Outs = [][]outcome{{{O: []string{"hangx", "hangp"}[r.Intn(2)], D: [][2]string{}}}}
		}
	}
	return sc
}

func (sc *Scenario) String() string { return fmt.Sprintf("%s(%s.%s)", sc.ID, sc.Pkg, sc.Prog.ID) }

// timed: the run depends on timeouts that expire.
func (sc *Scenario) timed() bool {
	short := func(ms int) bool { return ms > 0 && ms < 10000 }
	r := short(sc.Prog.TimeoutMs)
	sc.Prog.walkCalls(func(_ *Def, c *Call) { r = r || short(c.TimeoutMs) })
	return r
}
