package checks

import (
	"fmt"

	"ginicheck/pbt"
	"ginicheck/ref"

	"github.com/go-air/gini"
	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/z"
)

// CardCase counts literals of a circuit.
type CardCase struct {
	In   int      `json:"in"`
	Cap  int      `json:"cap"`
	Sets [][]int  `json:"sets"` // signed inputs 1..In; 99/-99 are true/false; 100+k/-(100+k) gates
	Gate [][2]int `json:"gates,omitempty"`
	Ask  [][3]int `json:"ask"` // set, predicate, bound
	Seed uint64   `json:"seed"`
	CNF  bool     `json:"cnf,omitempty"`
}

func genCard(t *pbt.T) *CardCase {
	c := &CardCase{In: 1 + t.N(9), Cap: t.N(150), Seed: t.U64(), CNF: t.P(25)}
	if t.P(15) {
		c.In = 10 + t.N(60)
	}
	t.Exactly(t.Pick(3, 1, 1), func(int) { c.Gate = append(c.Gate, [2]int{genLit(t, c.In), genLit(t, c.In)}) })
	t.Exactly(1+t.Pick(6, 2, 1), func(int) {
		var s []int
		n := t.N(10)
		switch t.Pick(4, 3, 1) {
		case 1: // each input once
			n = t.N(c.In + 1)
			for i := 1; i <= n; i++ {
				s = append(s, i*(1-2*t.N(2)))
			}
			c.Sets = append(c.Sets, s)
			return
		case 2:
			n = t.N(70)
		}
		dup := t.P(40)
		for i := 0; i < n; i++ {
			l := genLit(t, c.In)
			if dup && i > 0 && t.P(30) {
				l = s[t.N(i)] * (1 - 2*t.N(2))
			}
			if t.P(4) {
				l = 99 * (1 - 2*t.N(2))
			}
			if len(c.Gate) > 0 && t.P(10) {
				l = (100 + t.N(len(c.Gate))) * (1 - 2*t.N(2))
			}
			s = append(s, l)
		}
		c.Sets = append(c.Sets, s)
	})
	t.Exactly(1+t.N(4), func(int) {
		k := t.N(len(c.Sets))
		c.Ask = append(c.Ask, [3]int{k, t.N(4), t.N(len(c.Sets[k])+7) - 3})
	})
	return c
}

func runCard(c *CardCase, m *pbt.Meter) error {
	ci := logic.NewCCap(c.Cap)
	r := &rng{c.Seed}
	in := make([]z.Lit, c.In+1)
	for i := 1; i <= c.In; i++ {
		in[i] = ci.Lit()
	}
	var gl []z.Lit
	zl := func(l int) z.Lit {
		var x z.Lit
		switch k := abs(l); {
		case k == 99:
			x = ci.T
		case k >= 100:
			x = gl[k-100]
		default:
			x = in[k]
		}
		if l < 0 {
			x = x.Not()
		}
		return x
	}
	for _, g := range c.Gate {
		gl = append(gl, ci.And(zl(g[0]), zl(g[1])))
	}
	var cs []*logic.CardSort
	var arg [][]z.Lit
	for k, s := range c.Sets {
		ms := make([]z.Lit, len(s))
		for i, l := range s {
			ms[i] = zl(l)
		}
		arg = append(arg, append([]z.Lit{}, ms...))
		if k%2 == 0 {
			cs = append(cs, ci.CardSort(ms))
		} else {
			cs = append(cs, logic.NewCardSort(ms, ci))
		}
		for i := range ms {
			if ms[i] != arg[k][i] {
				return pbt.Failf("set %d: making the counter changed the caller's literal %d", k, i)
			}
			ms[i] = ci.F
		}
	}
	type ans struct {
		set, pred, k int
		m            z.Lit
	}
	var as []ans
	for k := range cs {
		n := len(c.Sets[k])
		if g := cs[k].N(); g != n {
			return pbt.Failf("N is %d for %d literals", g, n)
		}
		for b := -3; b <= n+3; b++ {
			for p := pLeq; p <= pGr; p++ {
				as = append(as, ans{k, p, b, cardLit(cs[k], p, b)})
			}
		}
		if n >= 3 {
			m.Hit("three or more literals")
			m.NonTrivial()
		}
	}
	for _, a := range as {
		if x := cardLit(cs[a.set], a.pred, a.k); x != a.m {
			return pbt.Failf("set %d: predicate %d bound %d gave %s, then %s", a.set, a.pred, a.k, a.m, x)
		}
	}
	N := ci.Len()
	blocks := 6
	if c.In <= 6 {
		blocks = 1
	} else if c.In <= 12 {
		blocks = 1 << (c.In - 6)
	}
	pat := [6]uint64{0xaaaaaaaaaaaaaaaa, 0xcccccccccccccccc, 0xf0f0f0f0f0f0f0f0, 0xff00ff00ff00ff00, 0xffff0000ffff0000, 0xffffffff00000000}
	val := func(vs []uint64, m z.Lit) uint64 {
		if m.IsPos() {
			return vs[m.Var()]
		}
		return ^vs[m.Var()]
	}
	name := [...]string{"Leq", "Geq", "Less", "Gr"}
	for b := 0; b < blocks; b++ {
		vs := make([]uint64, N)
		for i := 1; i <= c.In; i++ {
			x := r.u()
			switch {
			case c.In > 12 && b%3 == 1:
				x &= r.u() & r.u()
			case c.In > 12 && b%3 == 2:
				x |= r.u() | r.u()
			case c.In > 12:
			case i <= 6:
				x = pat[i-1]
			default:
				x = -uint64(b >> (i - 7) & 1)
			}
			vs[in[i].Var()] = x
		}
		ci.Eval64(vs)
		cnt := make([][64]int, len(cs))
		for k, ms := range arg {
			for _, l := range ms {
				v := val(vs, l)
				for j := 0; j < 64; j++ {
					cnt[k][j] += int(v >> j & 1)
				}
			}
		}
		for _, a := range as {
			v := val(vs, a.m)
			for j := 0; j < 64; j++ {
				n := cnt[a.set][j]
				want := [...]bool{n <= a.k, n >= a.k, n < a.k, n > a.k}[a.pred]
				if (v>>j&1 == 1) != want {
					return pbt.Failf("%s(%d) is %v with %d of %v true", name[a.pred], a.k, !want, n, c.Sets[a.set])
				}
			}
		}
	}
	m.Add("predicates evaluated", len(as))
	if !c.CNF {
		return nil
	}
	// the generated CNF: solve under the asked predicates
	rec := &clsRec{}
	var roots []z.Lit
	for _, a := range c.Ask {
		roots = append(roots, cardLit(cs[a[0]], a[1], a[2]))
	}
	ci.ToCnfFrom(rec, roots...)
	g := gini.New()
	for _, cl := range rec.cls {
		for _, l := range cl {
			g.Add(lit(l))
		}
		g.Add(0)
	}
	for _, x := range roots {
		g.Assume(x)
	}
	res := g.Solve()
	if res == 0 {
		return pbt.Failf("solve gave 0")
	}
	holds := func(vs []uint64, j int) bool {
		for _, a := range c.Ask {
			n := 0
			for _, l := range arg[a[0]] {
				n += int(val(vs, l) >> j & 1)
			}
			if !([...]bool{n <= a[2], n >= a[2], n < a[2], n > a[2]}[a[1]]) {
				return false
			}
		}
		return true
	}
	if res == 1 {
		m.Hit("cnf sat")
		vs := make([]uint64, N)
		mx := g.MaxVar()
		for i := 1; i <= c.In; i++ {
			if v := in[i].Var(); v <= mx && g.Value(in[i]) {
				vs[v] = 1
			}
		}
		vs[1] = 1
		for i, x := range gl {
			a, b := zl(c.Gate[i][0]), zl(c.Gate[i][1])
			if x.Var() > 1 && int(x.Var()) > c.In+1 {
				vs[x.Var()] = val(vs, a) & val(vs, b)
				if !x.IsPos() {
					vs[x.Var()] ^= 1
				}
			}
		}
		if !holds(vs, 0) {
			return pbt.Failf("the model of %v breaks a bound", c.Ask)
		}
	} else if c.In <= 12 {
		m.Hit("cnf unsat")
		for x := 0; x < 1<<c.In; x++ {
			vs := make([]uint64, N)
			for i := 1; i <= c.In; i++ {
				vs[in[i].Var()] = uint64(x >> (i - 1) & 1)
			}
			ci.Eval64(vs)
			if holds(vs, 0) {
				return pbt.Failf("bounds %v hold for inputs %b, yet the CNF is unsatisfiable", c.Ask, x)
			}
		}
	}
	// unit propagation decides the bounds a partial assignment settles
	for k, s := range c.Sets {
		seen := map[int]bool{}
		ok := len(s) > 0
		for _, l := range s {
			if abs(l) >= 99 || seen[abs(l)] {
				ok = false
				break
			}
			seen[abs(l)] = true
		}
		if !ok || len(s) > 24 {
			continue
		}
		full := &clsRec{}
		ci.ToCnf(full)
		var ls []int
		nt, nf := 0, 0
		for _, l := range arg[k] {
			switch r.n(3) {
			case 0:
				ls = append(ls, int(l.Dimacs()))
				nt++
			case 1:
				ls = append(ls, -int(l.Dimacs()))
				nf++
			}
		}
		v, cons := ref.BCP(N, full.cls, ls)
		if !cons {
			return pbt.Failf("set %v: assigning %v is a conflict", s, ls)
		}
		chk := func(x z.Lit, what string, b int) error {
			s := int8(1)
			if !x.IsPos() {
				s = -1
			}
			if v[x.Var()-1] != s {
				return pbt.Failf("set %v with %d true and %d false: propagation does not give %s(%d)", c.Sets[k], nt, nf, what, b)
			}
			return nil
		}
		if e := chk(cs[k].Geq(nt), "Geq", nt); e != nil {
			return e
		}
		if e := chk(cs[k].Leq(len(s)-nf), "Leq", len(s)-nf); e != nil {
			return e
		}
		m.Hit("propagation")
	}
	return nil
}

// RCase unrolls a sequential circuit.
type RCase struct {
	G    GCase    `json:"g"`
	Ask  [][2]int `json:"ask"` // reference, depth
	Root int      `json:"root"`
}

func genRoll(t *pbt.T, deep bool) *RCase {
	c := &RCase{G: GCase{Cap: t.N(40) - 1, Seq: true, Seed: t.U64()}}
	nl := 1 + t.N(5)
	t.Exactly(1+t.N(7), func(i int) {
		if i < nl {
			c.G.Ops = append(c.G.Ops, GOp{K: "latch", N: t.N(3)})
		} else {
			c.G.Ops = append(c.G.Ops, GOp{K: "in"})
		}
	})
	t.Repeat(2, 60, 12, func(int) {
		var op GOp
		switch t.Pick(30, 2, 2, 10, 2) {
		case 0:
			op = genGate(t)
		case 1:
			op.K = "in"
		case 2:
			op.K, op.N = "latch", t.N(3)
		case 3:
			op.K, op.N, op.R = "next", t.N(8), genRefs(t, 1)
		case 4:
			op.K, op.N, op.P = "init", t.N(8), t.N(3)
		}
		c.G.Ops = append(c.G.Ops, op)
	})
	t.Exactly(nl, func(i int) {
		c.G.Ops = append(c.G.Ops, GOp{K: "next", N: i, R: genRefs(t, 1)})
	})
	md := 7
	if deep {
		md = 800
	}
	t.Repeat(1, 30, 8, func(int) {
		c.Ask = append(c.Ask, [2]int{genRef(t), t.N(md)})
	})
	c.Root = t.N(1000)
	return c
}

func runRoll(c *RCase, m *pbt.Meter) error {
	w := newGW(&c.G)
	for k, op := range c.G.Ops {
		if _, e := w.build(op); e != nil {
			return fmt.Errorf("op %d %s: %w", k, op.K, e)
		}
	}
	u := logic.NewRoll(w.s)
	n0 := w.s.Len()
	type q struct {
		sr, d int
		m     z.Lit
	}
	var qs []q
	D := 0
	for _, a := range c.Ask {
		sr := w.ref(a[0])
		x := u.At(w.lit(sr), a[1])
		qs = append(qs, q{sr, a[1], x})
		if a[1] > D {
			D = a[1]
		}
		if x == z.LitNull || int(x.Var()) >= u.C.Len() {
			return pbt.Failf("At(%s,%d) is %d, outside the circuit (Len %d)", w.lit(sr), a[1], x, u.C.Len())
		}
		if l := u.Len(w.lit(sr)); l <= a[1] {
			return pbt.Failf("Len(%s) is %d after At(_,%d)", w.lit(sr), l, a[1])
		} else if u.MaxLen() < l {
			return pbt.Failf("MaxLen is %d, but Len(%s) is %d", u.MaxLen(), w.lit(sr), l)
		}
	}
	// leaves of the unrolling
	type at struct{ i, d int }
	leafOf := map[z.Var]at{}
	lf := func(i, d int) error {
		x := u.At(w.n[i].lit, d)
		a, b := u.C.Ins(x)
		if x.Var() == 1 || a != z.LitNull || b != z.LitNull {
			return pbt.Failf("At(%s,%d) is %s, which is no free input", w.n[i].lit, d, x)
		}
		if o, ok := leafOf[x.Var()]; ok {
			return pbt.Failf("At(%s,%d) and At(%s,%d) share input %s", w.n[i].lit, d, w.n[o.i].lit, o.d, x)
		}
		leafOf[x.Var()] = at{i, d}
		return nil
	}
	for _, i := range w.leaves() {
		if w.n[i].k == 'l' {
			if w.init[i] == 2 {
				if e := lf(i, 0); e != nil {
					return e
				}
				m.Hit("unspecified latch")
			}
			continue
		}
		for d := 0; d <= D; d++ {
			if e := lf(i, d); e != nil {
				return e
			}
		}
	}
	if w.s.Len() != n0 {
		return pbt.Failf("unrolling grew the sequential circuit from %d to %d", n0, w.s.Len())
	}
	for _, x := range qs {
		if y := u.At(w.lit(x.sr), x.d); y != x.m {
			return pbt.Failf("At(%s,%d) gave %s, then %s", w.lit(x.sr), x.d, x.m, y)
		}
		if y := u.At(w.lit(x.sr).Not(), x.d); y != x.m.Not() {
			return pbt.Failf("At(%s,%d) gave %s, but its negation gives %s", w.lit(x.sr), x.d, x.m, y)
		}
	}
	// simulation
	var free []z.Var
	for i := range w.n {
		for d := 0; d <= D; d++ {
			if w.n[i].k == 'i' || w.n[i].k == 'l' && d == 0 && w.init[i] == 2 {
				free = append(free, u.At(w.n[i].lit, d).Var())
			}
		}
	}
	if len(w.latch) > 0 && D >= 2 {
		m.NonTrivial()
		m.Hit("latches over two steps")
	}
	exh := len(free) <= 9
	nb := 2
	if exh {
		nb = 1
		if len(free) > 6 {
			nb = 1 << (len(free) - 6)
		}
	}
	pat := [6]uint64{0xaaaaaaaaaaaaaaaa, 0xcccccccccccccccc, 0xf0f0f0f0f0f0f0f0, 0xff00ff00ff00ff00, 0xffff0000ffff0000, 0xffffffff00000000}
	root := qs[c.Root%len(qs)]
	can := false
	for b := 0; b < nb; b++ {
		fv := map[z.Var]uint64{}
		for k, v := range free {
			x := w.r.u()
			if exh && k < 6 {
				x = pat[k]
			} else if exh {
				x = -uint64(b >> (k - 6) & 1)
			}
			fv[v] = x
		}
		vs := make([]uint64, u.C.Len())
		for i := range vs {
			vs[i] = w.r.u()
		}
		for v, x := range fv {
			vs[v] = x
		}
		u.C.Eval64(vs)
		st := map[int]uint64{}
		for _, i := range w.latch {
			switch w.init[i] {
			case 1:
				st[i] = ^uint64(0)
			case 2:
				st[i] = fv[u.At(w.n[i].lit, 0).Var()]
			}
		}
		trace := make([][]uint64, D+1)
		for d := 0; d <= D; d++ {
			val := w.eval(func(i int) uint64 {
				if w.n[i].k == 'l' {
					return st[i]
				}
				return fv[u.At(w.n[i].lit, d).Var()]
			})
			trace[d] = val
			nx := map[int]uint64{}
			for _, i := range w.latch {
				nx[i] = sv(val, w.next[i])
			}
			st = nx
		}
		for _, x := range qs {
			g := vs[x.m.Var()]
			if !x.m.IsPos() {
				g = ^g
			}
			if want := sv(trace[x.d], x.sr); g != want {
				return pbt.Failf("At(%s,%d) evaluates to %x, simulation gives %x (%s)", w.lit(x.sr), x.d, g, want, w.desc(x.sr>>1))
			}
			m.Hit("query checked")
		}
		if sv(trace[root.d], root.sr) != 0 {
			can = true
		}
	}
	// CNF of the unrolling
	if u.C.Len() > 3000 {
		return nil
	}
	g := gini.New()
	u.C.ToCnfFrom(g, root.m)
	g.Assume(root.m)
	res := g.Solve()
	if can && res != 1 {
		return pbt.Failf("At(%s,%d) can be true, but solving the unrolling gives %d", w.lit(root.sr), root.d, res)
	}
	if !can && exh && res != -1 {
		return pbt.Failf("At(%s,%d) cannot be true, but solving the unrolling gives %d", w.lit(root.sr), root.d, res)
	}
	if res == 1 {
		m.Hit("root reachable")
	} else {
		m.Hit("root unreachable")
	}
	return nil
}

func init() {
	pbt.Def("C13", "counts", 600000, 6000000, "random literal lists with all bounds, by exhaustive or random evaluation and through the CNF; non-trivial: a list of at least three literals", genCard, runCard)
	pbt.Def("C14", "unroll", 600000, 6000000, "random sequential circuits unrolled in random query order, against simulation; non-trivial: latches followed over at least two steps",
		func(t *pbt.T) *RCase { return genRoll(t, false) }, runRoll)
	pbt.Def("C14", "deep", 4000, 40000, "unrolling by hundreds of steps; non-trivial: latches followed over at least two steps",
		func(t *pbt.T) *RCase { return genRoll(t, true) }, runRoll)
}
