package checks

import (
	"fmt"
	"strconv"

	"github.com/go-air/gini/z"

	"ginicheck/pbt"
)

// LitCase is a block of literal codes.
type LitCase struct {
	From uint32 `json:"from"`
	N    int    `json:"n"`
	Step uint32 `json:"step"`
}

func genLits(t *pbt.T) *LitCase {
	c := &LitCase{N: 1 + t.N(2000), Step: 1}
	switch t.N(4) {
	case 0:
		c.From = uint32(1) << t.N(32)
		c.From -= uint32(t.N(50))
	case 1:
		c.From = ^uint32(0) - uint32(t.N(4000))
	case 2:
		c.From = uint32(t.U64())
		c.Step = uint32(t.U64())
	default:
		c.From = uint32(t.U64())
	}
	return c
}

func runLits(c *LitCase, m *pbt.Meter) error {
	m.NonTrivial()
	x := c.From
	for i := 0; i < c.N; i++ {
		a := z.Lit(x)
		v := x >> 1
		neg := x&1 == 1
		sgn := int8(1)
		d := int(v)
		if neg {
			sgn, d = -1, -d
		}
		switch {
		case a.Var() != z.Var(v):
			return pbt.Failf("Var of code %d is %d", x, a.Var())
		case a.IsPos() == neg || a.Sign() != sgn:
			return pbt.Failf("code %d: IsPos %v Sign %d", x, a.IsPos(), a.Sign())
		case a.Not() == a || a.Not().Not() != a || a.Not().Var() != a.Var() || a.Not().IsPos() == a.IsPos():
			return pbt.Failf("code %d: Not is %d", x, a.Not())
		case a.Dimacs() != d:
			return pbt.Failf("code %d: Dimacs is %d", x, a.Dimacs())
		case a.String() != strconv.Itoa(d):
			return pbt.Failf("code %d: String is %s", x, a)
		case fmt.Sprint(a.Var()) != "v"+strconv.FormatUint(uint64(v), 10):
			return pbt.Failf("code %d: variable's String is %s", x, a.Var())
		case a.Var().Pos() != a && a.Var().Neg() != a, a.Var().Pos() == a.Var().Neg(), !a.Var().Pos().IsPos(), a.Var().Neg().IsPos(), a.Var().Neg() != a.Var().Pos().Not():
			return pbt.Failf("code %d: variable's literals are %d %d", x, uint32(a.Var().Pos()), uint32(a.Var().Neg()))
		case v == 0 && z.Dimacs2Lit(0) != z.LitNull:
			return pbt.Failf("Dimacs2Lit(0) is code %d, want that of the null literal", uint32(z.Dimacs2Lit(0)))
		case v != 0 && z.Dimacs2Lit(d) != a:
			return pbt.Failf("Dimacs2Lit(%d) is code %d, want %d", d, uint32(z.Dimacs2Lit(d)), x)
		}
		x += c.Step
	}
	return nil
}

// VOp is a call on a z.Vars.
type VOp struct {
	K string `json:"k"`
	L []int  `json:"l,omitempty"`
	N int    `json:"n,omitempty"`
}

type VCase struct {
	Ops []VOp `json:"ops"`
}

func genVars(t *pbt.T) *VCase {
	c := &VCase{}
	max := [...]int{4, 12, 60, 400}[t.N(4)]
	w := [][]int{{10, 10, 6, 6, 3, 1, 1, 1}, {6, 6, 16, 12, 3, 1, 2, 1}, {2, 20, 8, 3, 8, 6, 1, 1}}[t.N(3)]
	n := func(l int) (r []int) {
		for i := 0; i < l; i++ {
			x := 1 + t.N(max)
			if t.P(4) {
				x = 0
			}
			if t.Bool() {
				x = -x
			}
			r = append(r, x)
		}
		return
	}
	t.Repeat(1, 150, 40, func(int) {
		switch t.Pick(w...) {
		case 0:
			c.Ops = append(c.Ops, VOp{K: "in", L: n(1)})
		case 1:
			c.Ops = append(c.Ops, VOp{K: "ins", L: n(t.N(7))})
		case 2:
			c.Ops = append(c.Ops, VOp{K: "inner"})
		case 3:
			c.Ops = append(c.Ops, VOp{K: "free", N: t.N(60)})
		case 4:
			c.Ops = append(c.Ops, VOp{K: "out", L: n(1)})
		case 5:
			c.Ops = append(c.Ops, VOp{K: "outs", L: n(t.N(9))})
		case 6:
			c.Ops = append(c.Ops, VOp{K: "copy", N: t.N(4)})
		case 7:
			c.Ops = append(c.Ops, VOp{K: "str"})
		}
	})
	return c
}

type vmod struct {
	v     *z.Vars
	in    map[z.Var]z.Var // user's -> application's
	out   map[z.Var]z.Var // inverse; 0: not the user's
	live  []z.Var
	freed map[z.Var]bool
}

func (v *vmod) copy() *vmod {
	o := &vmod{v: v.v.Copy(), in: map[z.Var]z.Var{}, out: map[z.Var]z.Var{}, freed: map[z.Var]bool{}}
	for k, x := range v.in {
		o.in[k] = x
	}
	for k, x := range v.out {
		o.out[k] = x
	}
	for k := range v.freed {
		o.freed[k] = true
	}
	o.live = append(o.live, v.live...)
	return o
}

func (v *vmod) toInner(m, n z.Lit) error {
	if m == z.LitNull {
		if n != z.LitNull {
			return pbt.Failf("LitNull maps to %s", n)
		}
		return nil
	}
	if n.IsPos() != m.IsPos() {
		return pbt.Failf("ToInner(%s) is %s", m, n)
	}
	if n.Var() == 0 {
		return pbt.Failf("ToInner(%s) is null", m)
	}
	if x, ok := v.in[m.Var()]; ok {
		if x != n.Var() {
			return pbt.Failf("ToInner(%s) is %s, it was %s", m, n, x)
		}
		return nil
	}
	if x, ok := v.out[n.Var()]; ok {
		if x == 0 {
			return pbt.Failf("ToInner(%s) is %s, which has no user's literal", m, n)
		}
		return pbt.Failf("ToInner(%s) is %s, which is the user's %s", m, n, x)
	}
	v.in[m.Var()] = n.Var()
	v.out[n.Var()] = m.Var()
	return nil
}

func (v *vmod) toOuter(m, n z.Lit) error {
	if x, ok := v.out[m.Var()]; ok || m.Var() == 0 {
		want := z.LitNull
		if x != 0 {
			want = x.Pos()
			if !m.IsPos() {
				want = x.Neg()
			}
		}
		if n != want {
			return pbt.Failf("ToOuter(%s) is %s, want %s", m, n, want)
		}
		return nil
	}
	if n == z.LitNull {
		// not to be used by Inner or ToInner? That is not promised.
		return nil
	}
	if n.IsPos() != m.IsPos() || n.Var() == 0 {
		return pbt.Failf("ToOuter(%s) is %s", m, n)
	}
	// a literal the user may use later
	return v.toInner(n, m)
}

func runVars(c *VCase, m *pbt.Meter) error {
	vs := []*vmod{{v: z.NewVars(), in: map[z.Var]z.Var{}, out: map[z.Var]z.Var{}, freed: map[z.Var]bool{}}}
	cur := 0
	lits := func(l []int) []z.Lit {
		r := make([]z.Lit, len(l), len(l)+len(l)%3)
		for i, x := range l {
			if x != 0 {
				r[i] = lit(x)
			}
		}
		return r
	}
	reused := false
	for i, op := range c.Ops {
		v := vs[cur]
		var e error
		switch op.K {
		case "in":
			a := lits(op.L)[0]
			e = v.toInner(a, v.v.ToInner(a))
		case "ins":
			as := lits(op.L)
			ns := v.v.ToInners(lits(op.L))
			if len(ns) != len(as) {
				e = pbt.Failf("%d literals", len(ns))
				break
			}
			for j := range as {
				if e = v.toInner(as[j], ns[j]); e != nil {
					break
				}
			}
		case "out":
			a := lits(op.L)[0]
			if a.Var() != 0 {
				e = v.toOuter(a, v.v.ToOuter(a))
			}
		case "outs":
			as := lits(op.L)
			var want, got []z.Lit
			got = append(got, v.v.ToOuters(lits(op.L))...)
			for _, a := range as {
				n := v.v.ToOuter(a)
				if a.Var() != 0 {
					if e = v.toOuter(a, n); e != nil {
						break
					}
				}
				if n != z.LitNull {
					want = append(want, n)
				}
			}
			if e == nil && fmt.Sprint(want) != fmt.Sprint(got) {
				e = pbt.Failf("ToOuters gave %v, one by one %v", got, want)
			}
		case "inner":
			a := v.v.Inner()
			x, ok := v.out[a.Var()]
			switch {
			case !a.IsPos() || a.Var() == 0:
				e = pbt.Failf("Inner gave %s", a)
			case ok && x != 0:
				e = pbt.Failf("Inner gave %s, which is the user's %s", a, x)
			case ok && !v.freed[a.Var()]:
				e = pbt.Failf("Inner gave %s again, which is not freed", a)
			case !ok && len(v.freed) > 0:
				e = pbt.Failf("Inner gave a new %s, with %d freed", a, len(v.freed))
			}
			if ok {
				m.Hit("reused")
				reused = true
			}
			v.out[a.Var()] = 0
			delete(v.freed, a.Var())
			v.live = append(v.live, a.Var())
		case "free":
			if len(v.live) == 0 {
				continue
			}
			k := op.N % len(v.live)
			a := v.live[k].Pos()
			if op.N%2 == 1 {
				a = a.Not()
			}
			v.live = append(v.live[:k:k], v.live[k+1:]...)
			v.freed[a.Var()] = true
			v.v.Free(a)
		case "str":
			_ = v.v.String()
		case "copy":
			if len(vs) < 4 {
				vs = append(vs, v.copy())
				m.Hit("copy")
			}
			cur = op.N % len(vs)
		}
		if e != nil {
			return pbt.Failf("op %d %s%v: %v", i, op.K, op.L, e)
		}
	}
	for k, v := range vs {
		for a, n := range v.in {
			if x := v.v.ToInner(a.Pos()); x != n.Pos() {
				return pbt.Failf("finally, map %d: ToInner(%s) is %s, it was %s", k, a, x, n)
			}
			if x := v.v.ToOuter(n.Neg()); x != a.Neg() {
				return pbt.Failf("finally, map %d: ToOuter(%s) is %s, want %s", k, n.Neg(), x, a.Neg())
			}
		}
		if reused && len(v.in) > 2 {
			m.NonTrivial()
		}
	}
	return nil
}

func init() {
	pbt.Def("C20", "lits", 4000, 200000, "blocks of literal codes over the whole range, boundaries first; non-trivial: all", genLits, runLits)
	pbt.Def("C20", "vars", 300000, 3000000, "histories over up to 4 maps which diverge; non-trivial: an inner variable reused and several user variables", genVars, runVars)
	xdef("C20", "wrapped", 200000, 2000000, "histories on wrapped solvers with inner variables taken and freed between all calls, truth table as oracle; non-trivial: an inner variable, and SAT and UNSAT answers",
		&xcfg{wrap: true, w: map[string]int{"add": 22, "part": 3, "assume": 24, "solve": 18, "why": 8, "test": 8, "untest": 8, "copy": 3, "use": 8, "lit": 4, "gowait": 1, "try": 2, "inner": 20}, minU: 2, maxU: 8, extra: 3, ops: 40, maxOps: 160, keepSat: 93, burst: 4, bigIDs: 25, three: 50},
		func(d func(string) int) bool { return d("inner") > 0 && d("solve sat") > 0 && d("solve unsat") > 0 })
}
