package main

import (
	"fmt"
	"os"
	"strconv"
)

var general = Knobs{MinDefs: 3, MaxDefs: 6, Call: 40, By: 15, Msg: 20, Map: 15, Val: 10, If: 15, ReqIf: 10, Errs: 30, Details: 30, Ignore: 30, BlockDefs: 20, Auto: 20, Inline: 20, ShadowIter: 0, Oneof: 15, Custom: 10, CustomField: 10, FailExpr: 4, Depth: 2, Null: 15, Nested: 40, RefDensity: 40, Retry: 15, RetryIf: 50}

// vh try SEED PROGS SCEN [profile]
func cmdTry(a []string) {
	dir := "/tmp/vtry"
	if d := os.Getenv("VTRY"); d != "" {
		dir = d
	}
	os.RemoveAll(dir)
	os.Setenv("VH_DEBUG", "1")
	os.Setenv("VH_KEEP", "1")
	seed, _ := strconv.Atoi(a[0])
	n, _ := strconv.Atoi(a[1])
	m, _ := strconv.Atoi(a[2])
	e := newEngine(dir)
	pr := &Profile{K: general, S: ScenKnobs{Fail: 15, Plain: 5, Panic: 3, Detail: 30, EHWrap: 5, EHNil: 5, CustomFail: 10, NilIt: 20, NilItem: 20, AttemptsMax: 2}}
	if len(a) > 3 && a[3] != "" {
		for i, pr := range rtChecks[a[3]] {
			e.addProfile(pr, int64(seed*10+i), pr.Progs, pr.Scen)
		}
	} else {
		e.addProfile(pr, int64(seed), n, m)
	}
	if err := e.build(); err != nil {
		fmt.Println("ERR", err)
		os.Exit(1)
	}
	if err := e.script(); err != nil {
		fmt.Println("ERR", err)
		os.Exit(1)
	}
	st := map[string]int{}
	for _, s := range e.Scen {
		st[s.Status]++
	}
	fmt.Println("scenarios", len(e.Scen), "skipped", e.Skipped, st)
	if n, _ := strconv.Atoi(os.Getenv("VMC")); n > 0 {
		if err := e.modelCheck(n); err != nil {
			fmt.Println("ERR", err)
			os.Exit(1)
		}
		fmt.Println("model checked", e.MCScen, "states", e.MCStates)
		return
	}
	e.run(16)
	if err := e.validate(); err != nil {
		fmt.Println("ERR", err)
		os.Exit(1)
	}
	fmt.Println("accepted", e.Accepted, "states", e.TraceStates, "violations", len(e.Violations))
	for i, v := range e.Violations {
		fmt.Println(" ", v.Scen, v.What)
		os.WriteFile(fmt.Sprintf("%s/v%d.txt", dir, i), []byte(e.dump(v)), 0o644)
	}
}
