package checks

import (
	"time"

	"github.com/go-air/gini/z"

	"ginicheck/pbt"
)

// runTwins applies every operation after a copy to the original and to the
// copies: a copy has every bit of the original but its statistics and controls,
// so the same calls give the same answers, models, cores and literals.
func runTwins(c *LCase, m *pbt.Meter) error {
	hs := []*lh{newLH(c)}
	var dur []time.Duration
	same := func(what string) error {
		a := hs[0]
		for k, b := range hs[1:] {
			if a.last != b.last {
				return pbt.Failf("%s: the original is at %d, copy %d at %d", what, a.last, k+1, b.last)
			}
			if a.g.MaxVar() != b.g.MaxVar() {
				return pbt.Failf("%s: the original has %s as last variable, copy %d %s", what, a.g.MaxVar(), k+1, b.g.MaxVar())
			}
			for s := range a.actLit {
				if a.actLit[s] != b.actLit[s] {
					return pbt.Failf("%s: activation literal %s in the original, %s in copy %d", what, a.actLit[s], b.actLit[s], k+1)
				}
			}
			if a.last == 1 {
				for v := z.Var(1); v <= a.g.MaxVar(); v++ {
					if a.g.Value(v.Pos()) != b.g.Value(v.Pos()) {
						return pbt.Failf("%s: the models of the original and copy %d differ at %s", what, k+1, v)
					}
				}
				m.Hit("same model")
			}
			if a.last == -1 {
				wa, wb := a.g.Why(nil), b.g.Why(nil)
				if len(wa) != len(wb) {
					return pbt.Failf("%s: Why gives %v in the original, %v in copy %d", what, wa, wb, k+1)
				}
				for i := range wa {
					if wa[i] != wb[i] {
						return pbt.Failf("%s: Why gives %v in the original, %v in copy %d", what, wa, wb, k+1)
					}
				}
				if len(wa) > 0 {
					m.Hit("same core")
				}
			}
		}
		return nil
	}
	for i, op := range c.Ops {
		switch op.K {
		case "copy":
			if len(hs) < 3 {
				// of the latest, so that copies of copies occur
				hs = append(hs, hs[len(hs)-1].copyH())
				m.Hit("copy")
			}
			continue
		case "use":
			continue
		}
		dur = dur[:0]
		for k, h := range hs {
			t0 := time.Now()
			if e := h.step(op, m, nil); e != nil {
				return pbt.Failf("op %d %s%v, solver %d: %v", i, op.K, op.L, k, e)
			}
			dur = append(dur, time.Since(t0))
		}
		if len(hs) > 1 && dur[0] > 5*time.Millisecond {
			m.Hit("long step")
		}
		if e := same(op.K); e != nil {
			return pbt.Failf("after op %d %s%v: %v", i, op.K, op.L, e)
		}
	}
	for k, h := range hs {
		if e := h.finish(m); e != nil {
			return pbt.Failf("final solve, solver %d: %v", k, e)
		}
	}
	return same("final solve")
}

func init() {
	cfg := (&lcfg{kinds: []int{30, 50, 5, 15, 10}, big: 1, ops: 14, max: 40,
		w: map[string]int{"add": 8, "addhalf": 1, "assume": 16, "solve": 20, "trylong": 1, "why": 2, "test": 4, "untest": 4, "act": 7, "deact": 5, "copy": 8}}).init()
	pbt.Def("C05", "twins", 6000, 80000,
		"histories over problems needing thousands of conflicts; after a copy every operation is applied to the original and to the copies, which must give the same verdicts, models, cores and activation literals; non-trivial: a step over 5 ms after a copy, equal models or equal cores",
		func(t *pbt.T) *LCase { return genL(t, cfg) },
		func(c *LCase, m *pbt.Meter) error {
			m2 := pbt.NewMeter()
			e := runTwins(c, m2)
			for k, v := range m2.Classes {
				m.Add(k, v)
			}
			if m2.Classes["long step"] > 0 && m2.Classes["same model"]+m2.Classes["same core"] > 0 {
				m.NonTrivial()
			}
			return e
		})
}
