package checks

import "ginicheck/pbt"

func xdef(prop, name string, quick, thorough int, rule string, cfg *xcfg, nt func(d func(string) int) bool) *pbt.Sub {
	cfg.init()
	return pbt.Def(prop, name, quick, thorough, rule,
		func(t *pbt.T) *XCase { return genX(t, cfg) },
		func(c *XCase, m *pbt.Meter) error {
			m2 := pbt.NewMeter()
			e := runX(c, m2, nil)
			for k, v := range m2.Classes {
				m.Add(k, v)
			}
			if nt(func(s string) int { return m2.Classes[s] }) {
				m.NonTrivial()
			}
			return e
		})
}

func init() {
	xdef("C01", "histories", 400000, 4000000, "random incremental histories over up to 10 variables, truth table as oracle; non-trivial: at least one SAT and one UNSAT answer",
		&xcfg{w: map[string]int{"add": 40, "part": 4, "assume": 22, "solve": 20, "lit": 2, "tryshort": 1}, minU: 2, maxU: 9, extra: 2, ops: 30, maxOps: 120, keepSat: 92, burst: 5, bigIDs: 25, three: 50},
		func(d func(string) int) bool { return d("solve sat") > 0 && d("solve unsat") > 0 })
	xdef("C02", "cores", 300000, 3000000, "random histories with many assumptions; non-trivial: at least one Why naming a proper non-empty subset",
		&xcfg{w: map[string]int{"add": 20, "assume": 40, "solve": 20, "why": 25, "test": 6, "untest": 6, "tryshort": 2}, minU: 3, maxU: 10, extra: 0, ops: 30, maxOps: 100, keepSat: 95, burst: 4, bigIDs: 10, three: 50},
		func(d func(string) int) bool { return d("why proper subset") > 0 })
	xdef("C03", "scopes", 300000, 3000000, "random histories of Assume/Test/Untest/Solve/Reasons/Why; non-trivial: a nested scope and a propagating Test",
		&xcfg{w: map[string]int{"add": 12, "assume": 30, "solve": 14, "why": 8, "test": 22, "untest": 18, "lit": 1, "tryshort": 2}, minU: 3, maxU: 10, extra: 1, ops: 40, maxOps: 160, keepSat: 96, burst: 4, bigIDs: 15, three: 50},
		func(d func(string) int) bool { return d("test nested") > 0 && d("test propagated") > 0 })
	xdef("C04", "activation", 300000, 3000000, "random histories with activation literals; non-trivial: a recycled activation literal and a verdict that depends on assumptions",
		&xcfg{w: map[string]int{"add": 10, "assume": 30, "solve": 20, "why": 6, "act": 18, "actlit": 6, "actwith": 14, "deact": 14, "test": 3, "untest": 3, "lit": 1, "tryshort": 1}, minU: 3, maxU: 7, extra: 1, acts: 4, ops: 50, maxOps: 200, keepSat: 97, burst: 3, bigIDs: 10, three: 50},
		func(d func(string) int) bool {
			return d("recycled activation literal") > 0 && d("solve unsat only under assumptions") > 0
		})
	xdef("C05", "copies", 250000, 2500000, "random histories over up to 4 copies, switching between them; non-trivial: a copy, and SAT and UNSAT answers",
		&xcfg{w: map[string]int{"add": 22, "part": 2, "assume": 24, "solve": 16, "why": 6, "test": 8, "untest": 8, "act": 6, "actwith": 4, "deact": 4, "copy": 5, "use": 16, "lit": 2, "gowait": 1, "tryshort": 1}, minU: 3, maxU: 8, extra: 2, acts: 2, ops: 50, maxOps: 160, keepSat: 95, burst: 4, bigIDs: 25, three: 50},
		func(d func(string) int) bool { return d("copy") > 0 && d("solve sat") > 0 && d("solve unsat") > 0 })
	xdef("C06", "small", 60000, 600000, "random histories over up to 10 variables in which most solves are background or timed ones, also without any time; truth table as oracle; non-trivial: a solve without an answer, and later SAT and UNSAT answers",
		&xcfg{w: map[string]int{"add": 14, "part": 1, "assume": 26, "solve": 6, "why": 8, "test": 8, "untest": 7, "act": 5, "actwith": 3, "deact": 4, "copy": 2, "use": 4, "lit": 1, "gowait": 4, "gostop": 8, "try": 4, "tryshort": 8}, minU: 3, maxU: 9, extra: 1, acts: 2, ops: 40, maxOps: 160, keepSat: 95, burst: 4, bigIDs: 10, three: 50},
		func(d func(string) int) bool { return d("solve 0") > 0 && d("solve sat") > 0 && d("solve unsat") > 0 })
}
