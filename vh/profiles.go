package main

// Profiles: the families of programs and scenarios behind the checks of the run-time properties.

var baseK = Knobs{MinDefs: 3, MaxDefs: 6, Call: 40, By: 15, Msg: 20, Map: 12, Val: 6, If: 10, ReqIf: 8, Errs: 15, Details: 20, Ignore: 25, BlockDefs: 15, Auto: 20, Inline: 15, Oneof: 10, Custom: 8, CustomField: 8, FailExpr: 3, Null: 12, Nested: 40, Depth: 2, RefDensity: 40, Retry: 8, RetryIf: 50}

var baseS = ScenKnobs{Fail: 12, Plain: 4, Panic: 2, Detail: 30, EHWrap: 4, EHNil: 4, CustomFail: 8, NilIt: 20, NilItem: 20, AttemptsMax: 2}

func k(f func(*Knobs)) Knobs {
	x := baseK
	f(&x)
	return x
}

func s(f func(*ScenKnobs)) ScenKnobs {
	x := baseS
	f(&x)
	return x
}

// plain removes the features that are not at stake.
func plainK(f func(*Knobs)) Knobs {
	x := Knobs{MinDefs: 3, MaxDefs: 6, Call: 45, By: 15, Msg: 20, Null: 12, Nested: 40, Depth: 2, RefDensity: 40}
	f(&x)
	return x
}

func plainS(f func(*ScenKnobs)) ScenKnobs {
	x := ScenKnobs{NilIt: 10, NilItem: 10, AttemptsMax: 2, Detail: 30}
	f(&x)
	return x
}

// mixed is the family of programs that every run-time property is checked on as well.
var mixed = &Profile{Name: "general", K: baseK, S: baseS, Progs: 8, Scen: 5}

// rtChecks maps the run-time properties to their profiles.
var rtChecks = map[string][]*Profile{
	"R01": {
		{Name: "positions", Fixed: refPrograms, S: s(func(x *ScenKnobs) {
			x.Fail = 45
			x.Panic = 0
			x.NilIt = 0
			x.EHNil = 0
			x.EHWrap = 0
			x.CustomFail = 0
		}), Scen: 14},
		{Name: "mixed", K: k(func(x *Knobs) { x.RefDensity = 70; x.ReqIf = 25; x.Errs = 30; x.Retry = 12 }), S: s(func(x *ScenKnobs) { x.Fail = 15 }), Progs: 16, Scen: 5},
	},
	"R02": {
		{Name: "fan", Fixed: fanPrograms, S: plainS(func(x *ScenKnobs) {}), Scen: 10},
		{Name: "fanburst", Fixed: fanPrograms, S: plainS(func(x *ScenKnobs) {}), Scen: 60, Burst: true},
		{Name: "fanfail", Fixed: fanPrograms, S: plainS(func(x *ScenKnobs) { x.Fail = 25; x.Plain = 4; x.Panic = 4 }), Scen: 8},
		{Name: "fanfailburst", Fixed: fanPrograms, S: plainS(func(x *ScenKnobs) { x.Fail = 25; x.Plain = 4; x.Panic = 4 }), Scen: 30, Burst: true},
		{Name: "mixed", K: k(func(x *Knobs) { x.RefDensity = 80; x.MinDefs = 5; x.MaxDefs = 8; x.Msg = 30 }), S: baseS, Progs: 14, Scen: 4},
	},
	"R03": {
		{Name: "wide", K: plainK(func(x *Knobs) {
			x.MinDefs = 4
			x.MaxDefs = 8
			x.RefDensity = 35
			x.Map = 10
			x.Val = 6
			x.If = 5
		}), S: plainS(func(x *ScenKnobs) {}), Progs: 26, Scen: 5},
		{Name: "fan", Fixed: fanPrograms, S: plainS(func(x *ScenKnobs) {}), Scen: 6},
	},
	"R04": {
		{Name: "failing", K: plainK(func(x *Knobs) {
			x.FailExpr = 8
			x.Map = 10
			x.Val = 6
			x.MinDefs = 4
			x.MaxDefs = 8
			x.RefDensity = 40
			x.CustomField = 10
			x.Custom = 8
			x.Oneof = 8
		}), S: plainS(func(x *ScenKnobs) { x.Fail = 25; x.Plain = 10; x.CustomFail = 20; x.Aware = 30; x.Code = 70 }), Progs: 26, Scen: 6},
	},
	"R05": {
		{Name: "blocks", K: plainK(func(x *Knobs) {
			x.Errs = 90
			x.Ignore = 40
			x.BlockDefs = 25
			x.Details = 15
			x.FailExpr = 6
			x.MinDefs = 2
			x.MaxDefs = 4
			x.Depth = 1
		}), S: plainS(func(x *ScenKnobs) { x.Fail = 70; x.Plain = 10 }), Progs: 24, Scen: 8},
	},
	"R06": {
		{Name: "status", K: plainK(func(x *Knobs) {
			x.Errs = 95
			x.Ignore = 5
			x.BlockDefs = 20
			x.Details = 65
			x.FailExpr = 5
			x.MinDefs = 2
			x.MaxDefs = 4
			x.Depth = 1
			x.Val = 8
		}), S: plainS(func(x *ScenKnobs) { x.Fail = 75; x.Plain = 10; x.Detail = 60 }), Progs: 24, Scen: 8},
	},
	"R07": {
		{Name: "error", K: plainK(func(x *Knobs) {
			x.Errs = 90
			x.Ignore = 45
			x.BlockDefs = 40
			x.Details = 25
			x.MinDefs = 3
			x.MaxDefs = 6
			x.Depth = 1
			x.RefDensity = 5
			x.Retry = 15
			x.RetryIf = 90
		}), S: plainS(func(x *ScenKnobs) { x.Fail = 75; x.Plain = 8; x.Detail = 50 }), Progs: 18, Scen: 6},
		{Name: "errorburst", K: plainK(func(x *Knobs) {
			x.Errs = 95
			x.Ignore = 50
			x.BlockDefs = 40
			x.Details = 25
			x.MinDefs = 4
			x.MaxDefs = 7
			x.Depth = 1
			x.RefDensity = 5
			x.Retry = 15
			x.RetryIf = 90
		}), S: plainS(func(x *ScenKnobs) { x.Fail = 85; x.Plain = 8; x.Detail = 50 }), Progs: 6, Scen: 25, Burst: true},
	},
	"R08": {
		{Name: "retry", K: plainK(func(x *Knobs) {
			x.Retry = 85
			x.RetryIf = 60
			x.Errs = 35
			x.FailExpr = 5
			x.MinDefs = 1
			x.MaxDefs = 3
			x.Depth = 1
			x.Long = 20
		}), S: plainS(func(x *ScenKnobs) { x.Fail = 80; x.Plain = 8; x.AttemptsMax = 4 }), Progs: 24, Scen: 7},
	},
	"R09": {
		{Name: "timeout", K: plainK(func(x *Knobs) {
			x.Short = 30
			x.Long = 20
			x.Errs = 40
			x.Ignore = 50
			x.Retry = 15
			x.MinDefs = 2
			x.MaxDefs = 4
			x.Depth = 1
		}),
			S: plainS(func(x *ScenKnobs) { x.Fail = 12; x.Plain = 4; x.Panic = 4; x.Dead = 40; x.Aware = 30 }), Progs: 16, Scen: 8, Burst: true},
		{Name: "both", K: plainK(func(x *Knobs) {
			x.Short = 40
			x.MethodLong = 100
			x.Errs = 40
			x.Ignore = 50
			x.MinDefs = 2
			x.MaxDefs = 4
			x.Depth = 1
		}),
			S: plainS(func(x *ScenKnobs) { x.Fail = 8; x.Aware = 50 }), Progs: 6, Scen: 4, Burst: true},
		{Name: "cancel", K: plainK(func(x *Knobs) {
			x.Long = 45
			x.MethodLong = 50
			x.Retry = 25
			x.RetryIf = 40
			x.Errs = 40
			x.Ignore = 50
			x.BlockDefs = 20
			x.MinDefs = 2
			x.MaxDefs = 5
			x.Depth = 1
		}),
			S: plainS(func(x *ScenKnobs) { x.Fail = 25; x.Plain = 4; x.Cancel = 100; x.Aware = 50 }), Progs: 12, Scen: 8},
		{Name: "method", K: plainK(func(x *Knobs) {
			x.MethodShort = 75
			x.MethodLong = 25
			x.MinDefs = 2
			x.MaxDefs = 4
			x.Depth = 1
			x.Errs = 20
		}),
			S: plainS(func(x *ScenKnobs) { x.Fail = 5; x.Panic = 4 }), Progs: 10, Scen: 6, Burst: true},
	},
	"R10": {
		{Name: "kinds", Fixed: ifPrograms, S: plainS(func(x *ScenKnobs) { x.Fail = 8 }), Scen: 12},
		{Name: "if", K: plainK(func(x *Knobs) {
			x.If = 65
			x.ReqIf = 50
			x.Map = 15
			x.Val = 10
			x.FailExpr = 5
			x.MinDefs = 3
			x.MaxDefs = 7
			x.Auto = 15
		}), S: plainS(func(x *ScenKnobs) {}), Progs: 26, Scen: 6},
	},
	"R11": {
		{Name: "kinds", Fixed: mapPrograms, S: plainS(func(x *ScenKnobs) { x.Fail = 15; x.NilIt = 40; x.NilItem = 40 }), Scen: 14},
		{Name: "map", K: plainK(func(x *Knobs) {
			x.Map = 60
			x.By = 25
			x.FailExpr = 5
			x.MinDefs = 3
			x.MaxDefs = 6
			x.If = 6
		}), S: plainS(func(x *ScenKnobs) { x.Fail = 8 }), Progs: 28, Scen: 6},
	},
	"R12": {
		{Name: "validation", K: plainK(func(x *Knobs) {
			x.Val = 45
			x.BlockDefs = 25
			x.Details = 45
			x.FailExpr = 7
			x.MinDefs = 3
			x.MaxDefs = 7
			x.If = 8
		}), S: plainS(func(x *ScenKnobs) { x.Fail = 6; x.Panic = 2 }), Progs: 26, Scen: 6},
	},
	"R13": {
		{Name: "fields", K: plainK(func(x *Knobs) {
			x.Auto = 60
			x.Inline = 45
			x.CustomField = 25
			x.Custom = 10
			x.Map = 12
			x.MinDefs = 2
			x.MaxDefs = 5
			x.FailExpr = 3
			x.ReqIf = 10
		}), S: plainS(func(x *ScenKnobs) {}), Progs: 28, Scen: 5},
	},
	"R14": {
		{Name: "oneof", K: plainK(func(x *Knobs) { x.Oneof = 85; x.FailExpr = 4; x.MinDefs = 2; x.MaxDefs = 4 }), S: plainS(func(x *ScenKnobs) { x.Fail = 6 }), Progs: 28, Scen: 6},
	},
	"R16": {
		{Name: "panic", K: k(func(x *Knobs) { x.Long = 15; x.Custom = 15; x.CustomField = 20; x.MethodLong = 15 }), S: s(func(x *ScenKnobs) { x.Fail = 45; x.Plain = 0; x.Panic = 60; x.CustomFail = 45 }), Progs: 20, Scen: 6},
		{Name: "panicburst", K: k(func(x *Knobs) {
			x.Short = 15
			x.Long = 15
			x.Custom = 15
			x.CustomField = 20
			x.Map = 5
			x.Depth = 1
		}), S: s(func(x *ScenKnobs) { x.Fail = 50; x.Plain = 0; x.Panic = 70; x.CustomFail = 40 }), Progs: 8, Scen: 8, Burst: true},
	},
	"R17": {
		{Name: "repeat", K: k(func(x *Knobs) { x.FailExpr = 6 }), S: s(func(x *ScenKnobs) { x.Fail = 20; x.Panic = 4 }), Progs: 10, Scen: 14},
		{Name: "repeatburst", K: k(func(x *Knobs) { x.FailExpr = 4; x.Map = 20 }), S: s(func(x *ScenKnobs) { x.Fail = 20; x.Panic = 4 }), Progs: 6, Scen: 40, Burst: true},
	},
	"R19": {
		{Name: "custom", K: plainK(func(x *Knobs) {
			x.Custom = 45
			x.CustomField = 65
			x.Msg = 35
			x.MinDefs = 2
			x.MaxDefs = 5
			x.Inline = 10
			x.If = 8
		}), S: plainS(func(x *ScenKnobs) { x.Fail = 5; x.CustomFail = 20; x.Plain = 8; x.Panic = 4 }), Progs: 26, Scen: 6},
	},
	"R20": {
		{Name: "handler", K: plainK(func(x *Knobs) {
			x.Errs = 60
			x.Ignore = 35
			x.BlockDefs = 15
			x.Details = 20
			x.Val = 6
			x.MinDefs = 2
			x.MaxDefs = 4
			x.Depth = 1
			x.Retry = 8
		}), S: plainS(func(x *ScenKnobs) { x.Fail = 60; x.Plain = 8; x.EHWrap = 30; x.EHNil = 25 }), Progs: 24, Scen: 7},
	},
}
