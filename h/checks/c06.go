package checks

import (
	"time"

	"ginicheck/pbt"
)

func ldef(prop, name string, quick, thorough int, rule string, cfg *lcfg, nt func(d func(string) int) bool) *pbt.Sub {
	cfg.init()
	return pbt.Def(prop, name, quick, thorough, rule,
		func(t *pbt.T) *LCase { return genL(t, cfg) },
		func(c *LCase, m *pbt.Meter) error {
			m2 := pbt.NewMeter()
			t0 := time.Now()
			e := runL(c, m2)
			if time.Since(t0) > 50*time.Millisecond {
				m.Hit("took over 50 ms")
			}
			for k, v := range m2.Classes {
				m.Add(k, v)
			}
			if nt(func(s string) int { return m2.Classes[s] }) {
				m.NonTrivial()
			}
			return e
		})
}

func init() {
	s := ldef("C06", "control", 2000, 40000,
		"histories of background solves with control sequences (test, pause, copy while paused, stop, try, wait) and timed Try, over parity / random 3-SAT / pigeonhole problems plus a guarded endless pigeonhole part; verdicts by elimination, counting argument or a reference solver; non-trivial: a solve ended without an answer, one paused, and a later exact SAT or UNSAT answer",
		&lcfg{kinds: []int{40, 30, 10, 20, 10}, end: true, ops: 16, max: 40,
			w: map[string]int{"add": 8, "assume": 14, "solve": 10, "why": 8, "test": 6, "untest": 6, "act": 4, "deact": 4, "copy": 1, "use": 3, "try": 14, "bg": 30, "trylong": 5, "addhalf": 2}},
		func(d func(string) int) bool {
			return d("try 0")+d("background stop 0")+d("background try 0") > 0 && d("paused") > 0 && d("sat")+d("unsat") > 0
		})
	s.Procs = 3
	ldef("C01", "large", 12000, 150000,
		"histories over parity, random 3-SAT near the threshold, pigeonhole and mixed problems, most of which need restarts and clause collections; every model is checked, UNSAT answers against elimination, the counting argument or a reference solver; non-trivial: SAT and UNSAT answers",
		&lcfg{kinds: []int{45, 30, 10, 15, 15}, big: 1, ops: 16, max: 40,
			w: map[string]int{"add": 16, "assume": 26, "solve": 30, "why": 2, "addhalf": 4, "trylong": 2}},
		func(d func(string) int) bool { return d("sat") > 0 && d("unsat") > 0 })
	ldef("C02", "large", 30000, 150000,
		"the same problems with more assumptions, cores after Solve and Test, also of activation literals; non-trivial: a Why naming a proper subset",
		&lcfg{kinds: []int{45, 25, 10, 15, 15}, big: 1, ops: 16, max: 40,
			w: map[string]int{"add": 8, "assume": 34, "solve": 24, "why": 24, "test": 6, "untest": 6, "act": 6, "deact": 3}},
		func(d func(string) int) bool { return d("why proper subset") > 0 })
	ldef("C03", "large", 12000, 150000,
		"the same problems with scopes opened between long searches, literals listed and reasons sampled against the reference; non-trivial: a propagating Test with reasons, and an answer",
		&lcfg{kinds: []int{45, 25, 10, 15, 15}, big: 1, ops: 20, max: 50,
			w: map[string]int{"add": 8, "assume": 30, "solve": 20, "why": 6, "test": 22, "untest": 16, "act": 4, "deact": 2}},
		func(d func(string) int) bool { return d("reasons") > 0 && d("sat")+d("unsat") > 0 })
	ldef("C07", "long", 30000, 400000,
		"histories over parity, random 3-SAT near the threshold, pigeonhole and mixed problems needing up to 10^5 conflicts; every model is checked, UNSAT answers against elimination, the counting argument or a reference solver; non-trivial: over 50 ms of search and at least two answers",
		&lcfg{kinds: []int{45, 30, 15, 10, 15}, big: 1, ops: 8, max: 24,
			w: map[string]int{"add": 14, "assume": 20, "solve": 26, "why": 10, "test": 4, "untest": 4, "act": 8, "deact": 5, "addhalf": 3, "trylong": 3}},
		func(d func(string) int) bool { return d("sat")+d("unsat") > 2 })
	s = ldef("C07", "heavy", 300, 6000,
		"as long, at the largest sizes; non-trivial: at least two answers",
		&lcfg{kinds: []int{30, 40, 15, 15, 5}, big: 2, ops: 6, max: 12,
			w: map[string]int{"add": 14, "assume": 20, "solve": 26, "why": 10, "test": 3, "untest": 3, "act": 12, "deact": 8, "addhalf": 6}},
		func(d func(string) int) bool { return d("sat")+d("unsat") > 2 })
	s.Timeout = 240 * time.Second
	s = pbt.Def("C07", "presentation", 1500, 20000,
		"a random 3-SAT, parity or mixed problem and an equivalent presentation of it (variables renamed and negated, clauses and literals shuffled, clauses repeated, added in steps with solves between, other capacity hints) must get the same verdict, models are checked; non-trivial: over 20 ms of search",
		genPres, runPres)
	s.Timeout = 240 * time.Second
	ldef("C04", "groups", 40000, 500000,
		"groups of constraints of problems needing thousands of conflicts, each under an activation literal, switched on and off and recycled; non-trivial: a deactivated group, SAT and UNSAT answers",
		&lcfg{kinds: []int{50, 30, 10, 10, 15}, ops: 20, max: 60,
			w: map[string]int{"add": 4, "assume": 26, "solve": 22, "why": 6, "test": 1, "untest": 1, "act": 18, "deact": 12, "addhalf": 1}},
		func(d func(string) int) bool { return d("deactivated group") > 0 && d("sat") > 0 && d("unsat") > 0 })
	s = ldef("C05", "search-copies", 15000, 200000,
		"copies taken in the middle of incremental histories over problems needing thousands of conflicts, continued one by one and concurrently; non-trivial: concurrent solves of at least two copies, SAT and UNSAT answers",
		&lcfg{kinds: []int{50, 30, 10, 10, 15}, ops: 16, max: 40,
			w: map[string]int{"add": 8, "assume": 16, "solve": 14, "why": 6, "test": 3, "untest": 4, "act": 6, "deact": 4, "copy": 10, "use": 12, "par": 12}},
		func(d func(string) int) bool {
			return d("concurrent solves") > 0 && d("sat") > 0 && d("unsat") > 0
		})
	s.Procs = 4
}
