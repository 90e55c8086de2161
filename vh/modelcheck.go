package main

// FedMC: the specification itself, exhaustively on small programs.

import (
	"fmt"
	"path/filepath"
	"sort"
	"time"
)

// modelCheck explores all schedules of up to n of the scenarios.
func (e *Engine) modelCheck(n int) error {
	t := time.Now()
	defer func() { e.time("modelcheck", t) }()
	var small []*Scenario
	seen := map[*Prog]int{}
	for _, sc := range e.Scen {
		endless := false
		for _, s := range sc.Sites {
			for _, os := range s.Outs {
				for _, o := range os {
					switch o.O {
					case "hang", "hangx", "hangp":
						endless = true
					}
				}
			}
		}
		if endless || sc.Cancel >= 0 || len(sc.Steps) < 2 || len(sc.Steps) > 10 || seen[sc.Prog] >= 2 {
			continue
		}
		seen[sc.Prog]++
		small = append(small, sc)
	}
	// the ones with the most calls first
	sort.SliceStable(small, func(i, j int) bool { return len(small[i].Steps) > len(small[j].Steps) })
	if len(small) > n {
		var pick []*Scenario
		for i := 0; i < n; i++ {
			pick = append(pick, small[i*len(small)/n])
		}
		small = pick
	}
	if len(small) == 0 {
		return nil
	}
	var scs []any
	for _, sc := range small {
		scs = append(scs, sc.tla())
	}
	in := filepath.Join(e.Dir, "mc.json")
	writeJSON(in, J{"progs": e.progsJ(), "scen": scs})
	res, err := tlc(e.Dir, "FedMC", "FedMC.cfg", []string{"FED_IN=" + in}, 20*time.Minute)
	if err != nil {
		return err
	}
	if res.Violated != "" {
		return fmt.Errorf("the specification contradicts itself: %s\n%s", res.Violated, tail(res.Out, 6000))
	}
	e.MCStates += res.States
	e.MCGen += res.Gen
	e.MCScen += len(small)
	return nil
}

// mcChecks says which checks model check how many scenarios.
var mcChecks = map[string]int{"R01": 16, "R02": 20, "R03": 24, "R04": 40, "R08": 40, "R12": 40}
