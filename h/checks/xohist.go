package checks

import (
	"fmt"
	"io"
	"slices"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"

	"ginicheck/pbt"
	"ginicheck/ref"
)

// XOp is one call (or a fixed small group of calls) on a solver.
// Literals are +-(slot+1); slots are bound to solver variables.
type XOp struct {
	K string `json:"k"`
	L []int  `json:"l,omitempty"`
	S int    `json:"s,omitempty"`
}

// XCase is a history over solvers with few variables, decided exactly by
// truth table.
type XCase struct {
	IDs   []int `json:"ids"`            // solver variables of the user slots
	Extra int   `json:"extra"`          // slots for Lit()
	Acts  int   `json:"acts"`           // slots for activation literals
	Cap   int   `json:"cap"`            // 0: New, k: NewV(k), -k: NewVc(k, 2k)
	Wrap  int   `json:"wrap,omitempty"` // 1: NewSv, 2: NewSvVars
	Ops   []XOp `json:"ops"`
}

// xsol is the solver under test.
type xsol interface {
	inter.S
	inter.Activatable
	Write(io.Writer) error
}

// svS is an Sv as an xsol.
type svS struct {
	inter.Sv
	inter.Activatable
	vs  *z.Vars // known for NewSvVars
	inn []z.Lit // live inner variables
}

func (s *svS) Write(io.Writer) error { panic("not available") }

type xcfg struct {
	wrap     bool
	w        map[string]int
	minU     int
	maxU     int
	extra    int
	acts     int
	ops      int // average number of operations
	maxOps   int
	keepSat  int // percent of clauses kept satisfiable
	burst    int // clauses added up front, per user slot (max)
	bigIDs   int // percent of cases with gapped variable numbers
	three    int // percent of cases with clauses of 3 and 4 literals only, near the threshold
	opNames  []string
	opWeight []int
}

func (c *xcfg) init() *xcfg {
	for _, k := range []string{"add", "part", "assume", "solve", "lit", "test", "untest", "why", "act", "actlit", "actwith", "deact", "copy", "use", "gowait", "gostop", "try", "tryshort", "write", "inner"} {
		if w := c.w[k]; w > 0 {
			c.opNames = append(c.opNames, k)
			c.opWeight = append(c.opWeight, w)
		}
	}
	return c
}

func genIDs(t *pbt.T, n, gapPct int) []int {
	ids := make([]int, n)
	cur := 0
	gap := 1
	if t.P(gapPct) {
		gap = []int{2, 5, 20, 60, 130}[t.N(5)]
	}
	for i := range ids {
		cur += 1 + t.N(gap)
		ids[i] = cur
	}
	if t.P(20) { // shuffle
		for i := n - 1; i > 0; i-- {
			j := i - t.N(i+1)
			ids[i], ids[j] = ids[j], ids[i]
		}
	}
	return ids
}

func genLit(t *pbt.T, n int) int {
	l := 1 + t.N(n)
	if t.Bool() {
		return -l
	}
	return l
}

// genClause makes a clause over slots 0..n-1 which, with keep percent, keeps
// tt satisfiable; tt is updated.
func genClause(t *pbt.T, n int, tt *ref.TT, keep int, three bool) []int {
	k := 3
	if !three {
		k = [...]int{2, 3, 1, 4, 5, 7, 0}[t.Pick(30, 45, 7, 10, 4, 2, 1)]
	} else if t.P(20) {
		k = 4
	}
	c := make([]int, 0, k)
	for i := 0; i < k; i++ {
		c = append(c, genLit(t, n))
	}
	if !three && t.P(5) && len(c) > 0 {
		// duplicate or complement one literal
		x := c[t.N(len(c))]
		if t.P(30) {
			x = -x
		}
		c = append(c, x)
	}
	kp := t.P(keep)
	t2 := tt.Copy()
	t2.Clause(c)
	if kp && t2.Empty() && !tt.Empty() {
		m := tt.Any(t.N(1 << 10))
		v := t.N(n)
		l := v + 1
		if !m[v] {
			l = -l
		}
		if len(c) == 0 {
			c = append(c, l)
		} else {
			c[t.N(len(c))] = l
		}
		t2 = tt.Copy()
		t2.Clause(c)
	}
	*tt = *t2
	return c
}

func genX(t *pbt.T, cfg *xcfg) *XCase {
	n := t.Range(cfg.minU, cfg.maxU)
	three := t.P(cfg.three)
	burst := cfg.burst
	if three {
		n = cfg.maxU
		burst = 5
	}
	c := &XCase{IDs: genIDs(t, n, cfg.bigIDs), Extra: t.N(cfg.extra + 1), Acts: cfg.acts}
	if t.P(30) {
		c.Cap = 1 + t.N(10)
		if t.Bool() {
			c.Cap = -c.Cap
		}
	}
	if cfg.wrap {
		c.Wrap = 1 + t.N(2)
	}
	nv := n + c.Extra
	tt := ref.All(nv)
	nb := t.N(burst*n + 1)
	if three {
		nb = n*2 + t.N(n*5/2)
	}
	t.Exactly(nb, func(int) {
		c.Ops = append(c.Ops, XOp{K: "add", L: genClause(t, n, tt, cfg.keepSat, three)})
	})
	t.Repeat(1, cfg.maxOps, cfg.ops, func(int) {
		k := cfg.opNames[t.Pick(cfg.opWeight...)]
		op := XOp{K: k}
		switch k {
		case "add":
			op.L = genClause(t, nv, tt, cfg.keepSat, three && t.P(80))
		case "part":
			op.L = []int{genLit(t, nv)}
		case "assume":
			k := 1 + t.Pick(50, 25, 15, 10)
			if three {
				k = 1 + t.Pick(85, 15)
			}
			for i := k; i > 0; i-- {
				l := genLit(t, nv)
				if cfg.acts > 0 && t.P(65) {
					l = nv + 1 + t.N(cfg.acts)
					if t.P(10) {
						l = -l
					}
				}
				op.L = append(op.L, l)
			}
			if t.P(6) {
				op.L = append(op.L, -op.L[t.N(len(op.L))])
			}
			if t.P(6) {
				op.L = append(op.L, op.L[t.N(len(op.L))])
			}
		case "act", "actwith":
			for i := 1 + t.Pick(35, 40, 20, 5); i > 0; i-- {
				op.L = append(op.L, genLit(t, nv))
			}
			op.S = t.N(cfg.acts)
		case "actlit", "deact":
			op.S = t.N(cfg.acts)
			if k == "actlit" && t.P(20) {
				op.L = []int{1}
			}
		case "inner":
			op.S = t.N(40)
		case "copy", "use":
			op.S = t.N(4)
		case "tryshort":
			op.S = t.N(3)
		case "write":
			op.S = t.N(400)
		}
		c.Ops = append(c.Ops, op)
	})
	return c
}

type mclause struct {
	l    []int
	dead bool
}

type xh struct {
	g        xsol
	c        *XCase
	n        int   // slots
	bind     []int // slot -> variable, 0 unbound
	isAct    []bool
	cls      []mclause
	tt       *ref.TT
	pend     []int
	assumes  []int
	scopes   [][]int
	listed   []map[z.Lit]bool
	need     bool // an unresolved -1
	last     int  // result of the last Solve/Test if nothing happened since; 2 otherwise
	force    []int
	maxVar   int
	dirty    bool // the trail may hold assignments from Solve
	everActs map[int]bool
	nextEx   int
}

func lit(v int) z.Lit {
	if v < 0 {
		return z.Var(-v).Neg()
	}
	return z.Var(v).Pos()
}

func (h *xh) zl(l int) (z.Lit, bool) {
	s := l - 1
	if l < 0 {
		s = -l - 1
	}
	if s >= h.n || h.bind[s] == 0 {
		return 0, false
	}
	if l < 0 {
		return lit(-h.bind[s]), true
	}
	return lit(h.bind[s]), true
}

// live filters l to bound slots.
func (h *xh) live(ls []int) []int {
	r := []int{}
	for _, l := range ls {
		if _, ok := h.zl(l); ok {
			r = append(r, l)
		}
	}
	return r
}

func (h *xh) slotOf(m z.Lit) (int, bool) {
	for s, v := range h.bind {
		if v != 0 && v == int(m.Var()) {
			if m.IsPos() {
				return s + 1, true
			}
			return -(s + 1), true
		}
	}
	return 0, false
}

func newXH(c *XCase) *xh {
	h := &xh{c: c, n: len(c.IDs) + c.Extra + c.Acts, last: 2, everActs: map[int]bool{}}
	h.bind = make([]int, h.n)
	h.isAct = make([]bool, h.n)
	copy(h.bind, c.IDs)
	h.nextEx = len(c.IDs)
	h.tt = ref.All(h.n)
	switch {
	case c.Wrap == 1:
		h.g = &svS{Sv: gini.NewSv()}
	case c.Wrap == 2:
		vs := z.NewVars()
		h.g = &svS{Sv: gini.NewSvVars(vs), vs: vs}
	case c.Cap > 0:
		h.g = gini.NewV(c.Cap)
	case c.Cap < 0:
		h.g = gini.NewVc(-c.Cap, -2*c.Cap)
	default:
		h.g = gini.New()
	}
	if c.Acts > 0 {
		// fresh variables are numbered above those the solver has seen: let it
		// see all user variables first.
		for _, v := range c.IDs {
			for h.maxVar < v {
				h.saw(int(h.g.Lit().Var()))
			}
		}
	}
	return h
}

func (h *xh) addClause(l []int) {
	h.cls = append(h.cls, mclause{l: append([]int(nil), l...)})
	h.tt.Clause(l)
}

func (h *xh) inForce() []int {
	var r []int
	for _, s := range h.scopes {
		r = append(r, s...)
	}
	return r
}

func (h *xh) saw(v int) {
	if v > h.maxVar {
		h.maxVar = v
	}
}

func (h *xh) checkModel(force []int) error {
	val := func(l int) bool { m, _ := h.zl(l); return h.g.Value(m) }
	for _, c := range h.cls {
		if c.dead {
			continue
		}
		ok := false
		for _, l := range c.l {
			ok = ok || val(l)
		}
		if !ok {
			return pbt.Failf("model falsifies clause %v", c.l)
		}
	}
	for _, l := range force {
		if !val(l) {
			return pbt.Failf("model falsifies assumption %d", l)
		}
	}
	for v := z.Var(1); v <= h.g.MaxVar(); v++ {
		if h.g.Value(v.Pos()) == h.g.Value(v.Neg()) {
			return pbt.Failf("after 1, Value(%s)=%v and Value(%s)=%v", v.Pos(), h.g.Value(v.Pos()), v.Neg(), h.g.Value(v.Neg()))
		}
	}
	return nil
}

// afterSolve checks a verdict under force.
func (h *xh) afterSolve(res int, force []int, zeroOK bool, m *pbt.Meter) error {
	want := -1
	if h.tt.Sat(force...) {
		want = 1
	}
	h.dirty = true
	if res == 0 && zeroOK {
		m.Hit("solve 0")
		h.last = 3
		return nil
	}
	if res != want {
		return pbt.Failf("solve returned %d, exact verdict is %d (assumptions %v)", res, want, force)
	}
	h.last = res
	h.force = force
	if res == 1 {
		m.Hit("solve sat")
		if len(force) > 0 {
			m.Hit("solve sat under assumptions")
		}
		return h.checkModel(force)
	}
	m.Hit("solve unsat")
	if len(h.scopes) > 0 {
		h.need = true
	}
	if h.tt.Sat() {
		m.Hit("solve unsat only under assumptions")
	}
	return nil
}

// old is what a used buffer has.
func (h *xh) old() []z.Lit {
	v := max(1, h.maxVar)
	return []z.Lit{lit(v), lit(-v), lit(v)}
}

// fresh drops what a used buffer had: it may be kept.
func (h *xh) fresh(ls []z.Lit) []z.Lit {
	if o := h.old(); len(ls) >= len(o) && slices.Equal(ls[:len(o)], o) {
		return ls[len(o):]
	}
	return ls
}

func (h *xh) why(m *pbt.Meter, form int) error {
	var buf []z.Lit
	switch form % 3 {
	case 1:
		buf = make([]z.Lit, 0, 1)
	case 2:
		buf = make([]z.Lit, 0, 64)
	}
	if form%4 == 3 {
		buf = append(buf, h.old()...)
		m.Hit("why into a used buffer")
	}
	ws := h.fresh(h.g.Why(buf))
	if h.last == 1 || h.last == 3 {
		if len(ws) != 0 {
			return pbt.Failf("Why gives %v, the last answer was not UNSAT", ws)
		}
		m.Hit([]string{"why after sat", "why after 0"}[h.last/2])
		return nil
	}
	in := map[int]bool{}
	for _, l := range h.force {
		in[l] = true
	}
	var core []int
	for _, w := range ws {
		l, ok := h.slotOf(w)
		if !ok || !in[l] {
			return pbt.Failf("Why gives %v: %s was not assumed (assumptions %v)", ws, w, h.force)
		}
		core = append(core, l)
	}
	if h.tt.Sat(core...) {
		return pbt.Failf("Why gives %v of assumptions %v: not sufficient, satisfiable", core, h.force)
	}
	m.Hit("why")
	if len(core) > 0 && len(core) < len(h.force) {
		m.Hit("why proper subset")
	}
	if len(core) == 0 {
		m.Hit("why empty")
	}
	return nil
}

func (h *xh) tri(m z.Lit) int {
	switch {
	case h.g.Value(m):
		return 1
	case h.g.Value(m.Not()):
		return -1
	}
	return 0
}

func (h *xh) aliveCls() [][]int {
	var cs [][]int
	for _, c := range h.cls {
		if !c.dead {
			cs = append(cs, c.l)
		}
	}
	return cs
}

// bcpClosed checks that every unit consequence of ls has been assigned.
func (h *xh) bcpClosed(ls []int, what string) error {
	v, ok := ref.BCP(h.n, h.aliveCls(), ls)
	if !ok {
		return pbt.Failf("%s reported consistency although unit propagation of %v conflicts", what, ls)
	}
	for s, x := range v {
		if x == 0 {
			continue
		}
		z0, bound := h.zl(s + 1)
		if bound && h.tri(z0) != int(x) {
			return pbt.Failf("after %s under %v, slot %d is a unit consequence with sign %d but has value %d", what, ls, s, x, h.tri(z0))
		}
	}
	return nil
}

// valuesImplied checks that each assigned slot is a consequence of ls.
func (h *xh) valuesImplied(ls []int, what string) error {
	for s := range h.bind {
		z0, bound := h.zl(s + 1)
		if !bound || h.bind[s] > h.maxVar {
			continue
		}
		x := h.tri(z0)
		if x == 0 {
			continue
		}
		if h.tt.Sat(append([]int{-x * (s + 1)}, ls...)...) {
			return pbt.Failf("after %s under %v, slot %d has value %d which is not implied", what, ls, s, x)
		}
	}
	return nil
}

func (h *xh) test(m *pbt.Meter, form int) error {
	before := map[z.Lit]bool{}
	if !h.dirty {
		for v := 1; v <= h.maxVar; v++ {
			for _, l := range []z.Lit{lit(v), lit(-v)} {
				if h.g.Value(l) {
					before[l] = true
				}
			}
		}
	}
	var dst []z.Lit
	switch form % 3 {
	case 0:
		dst = make([]z.Lit, 0, 128)
	case 1:
		dst = make([]z.Lit, 0, 1)
	}
	if dst != nil && form%4 == 3 {
		dst = append(dst, h.old()...)
		m.Hit("test into a used buffer")
	}
	res, out := h.g.Test(dst)
	out = h.fresh(out)
	new := h.assumes
	h.assumes = nil
	below := h.inForce()
	h.scopes = append(h.scopes, new)
	h.listed = append(h.listed, map[z.Lit]bool{})
	force := h.inForce()
	h.last, h.force = res, force
	if res == -1 {
		m.Hit("test unsat")
		h.need = true
		if h.tt.Sat(force...) {
			return pbt.Failf("Test returned -1 but clauses with %v are satisfiable", force)
		}
		return nil
	}
	if res == 0 {
		h.last = 3
	}
	if res != 0 && res != 1 {
		return pbt.Failf("Test returned %d", res)
	}
	wasDirty := h.dirty
	h.dirty = false
	if dst == nil {
		if len(out) != 0 {
			return pbt.Failf("Test(nil) returned literals %v", out)
		}
	} else {
		lst := h.listed[len(h.listed)-1]
		for _, o := range out {
			if lst[o] {
				return pbt.Failf("Test lists %s twice in %v", o, out)
			}
			lst[o] = true
			if !h.g.Value(o) {
				return pbt.Failf("Test lists %s which is not true", o)
			}
			if before[o] {
				return pbt.Failf("Test lists %s which was already assigned before", o)
			}
			l, ok := h.slotOf(o)
			if !ok {
				return pbt.Failf("Test lists %s which is no variable of the problem", o)
			}
			if h.tt.Sat(append([]int{-l}, force...)...) {
				return pbt.Failf("Test lists %d which clauses and %v do not imply", l, force)
			}
		}
		if !wasDirty {
			for v := 1; v <= h.maxVar; v++ {
				for _, l := range []z.Lit{lit(v), lit(-v)} {
					if h.g.Value(l) && !before[l] && !lst[l] {
						return pbt.Failf("Test assigned %s but did not list it (%v)", l, out)
					}
				}
			}
		}
		if wasDirty {
			// what was assigned before is then not to be seen, but is implied
			// by what was in force, and what open scopes listed is assigned
			for _, o := range out {
				for _, low := range h.listed[:len(h.listed)-1] {
					if low[o] {
						return pbt.Failf("Test lists %s, which an open scope listed", o)
					}
				}
			}
			for v := 1; v <= h.maxVar; v++ {
				for _, o := range []z.Lit{lit(v), lit(-v)} {
					if !h.g.Value(o) || lst[o] {
						continue
					}
					l, ok := h.slotOf(o)
					if !ok {
						continue
					}
					m.Hit("test after solve, not listed")
					if h.tt.Sat(append([]int{-l}, below...)...) {
						return pbt.Failf("Test assigned %d, which clauses and %v do not imply, but did not list it (%v)", l, below, out)
					}
				}
			}
		}
		if len(out) > len(new) {
			m.Hit("test propagated")
		}
	}
	for _, l := range force {
		if a, _ := h.zl(l); !h.g.Value(a) {
			return pbt.Failf("after Test, assumption %d in force is not true", l)
		}
	}
	if e := h.bcpClosed(force, "Test"); e != nil {
		return e
	}
	if e := h.valuesImplied(force, "Test"); e != nil {
		return e
	}
	if res == 1 {
		m.Hit("test sat")
		if e := h.checkModel(force); e != nil {
			return e
		}
	} else {
		m.Hit("test unknown")
		if len(h.scopes) > 1 {
			m.Hit("test nested")
		}
	}
	return h.reasons(m, form)
}

func (h *xh) reasons(m *pbt.Meter, form int) error {
	inf := map[int]bool{}
	for _, l := range h.inForce() {
		inf[l] = true
	}
	state := map[z.Lit]int{}
	var visit func(o z.Lit) error
	visit = func(o z.Lit) error {
		if state[o] == 2 {
			return nil
		}
		if state[o] == 1 {
			return pbt.Failf("reasons of %s form a cycle", o)
		}
		state[o] = 1
		var dst []z.Lit
		if form%2 == 0 {
			dst = make([]z.Lit, 0, 8)
		}
		if form%4 == 2 {
			dst = append(dst, h.old()...)
		}
		rs := h.fresh(h.g.Reasons(dst, o))
		l, ok := h.slotOf(o)
		if !ok {
			return pbt.Failf("reason chain reaches foreign literal %s", o)
		}
		var ls []int
		for _, r := range rs {
			if !h.g.Value(r) {
				return pbt.Failf("Reasons(%s)=%v: %s is not true", o, rs, r)
			}
			rl, ok := h.slotOf(r)
			if !ok {
				return pbt.Failf("Reasons(%s)=%v: foreign literal", o, rs)
			}
			ls = append(ls, rl)
		}
		if len(rs) == 0 {
			if !inf[l] && h.tt.Sat(-l) {
				return pbt.Failf("Reasons(%s) is empty, but it is neither assumed nor implied by the clauses", o)
			}
		} else {
			m.Hit("reasons")
			if h.tt.Sat(append([]int{-l}, ls...)...) {
				return pbt.Failf("Reasons(%s)=%v do not imply it", o, rs)
			}
		}
		for _, r := range rs {
			if e := visit(r); e != nil {
				return e
			}
		}
		state[o] = 2
		return nil
	}
	for _, lst := range h.listed {
		for v := 1; v <= h.maxVar; v++ {
			for _, l := range []z.Lit{lit(v), lit(-v)} {
				if lst[l] {
					if e := visit(l); e != nil {
						return e
					}
				}
			}
		}
	}
	return nil
}

func (h *xh) untest(m *pbt.Meter) error {
	r := h.g.Untest()
	h.scopes = h.scopes[:len(h.scopes)-1]
	h.listed = h.listed[:len(h.listed)-1]
	force := h.inForce()
	h.last = 3
	switch r {
	case -1:
		h.last = 2
		m.Hit("untest unsat")
		h.need = true
		h.dirty = true
		if h.tt.Sat(force...) {
			return pbt.Failf("Untest returned -1 but clauses with remaining %v are satisfiable", force)
		}
	case 0:
		m.Hit("untest")
		h.need = false
		h.dirty = false
		if e := h.valuesImplied(force, "Untest"); e != nil {
			return e
		}
		for _, l := range force {
			if a, _ := h.zl(l); !h.g.Value(a) {
				return pbt.Failf("after Untest, assumption %d still in force is not true", l)
			}
		}
		return h.bcpClosed(force, "Untest")
	default:
		return pbt.Failf("Untest returned %d", r)
	}
	return nil
}

func (h *xh) recompute() {
	h.tt = ref.All(h.n)
	for _, c := range h.cls {
		if !c.dead {
			h.tt.Clause(c.l)
		}
	}
}

func (h *xh) copyH() *xh {
	o := *h
	switch g := h.g.(type) {
	case *gini.Gini:
		o.g = g.Copy()
	case *svS:
		// what the copy's Vars are is not accessible
		o.g = &svS{Sv: g.SCopy().(inter.Sv), inn: append([]z.Lit(nil), g.inn...)}
	}
	o.bind = append([]int(nil), h.bind...)
	o.isAct = append([]bool(nil), h.isAct...)
	o.cls = append([]mclause(nil), h.cls...)
	o.tt = h.tt.Copy()
	o.pend = append([]int(nil), h.pend...)
	o.assumes = append([]int(nil), h.assumes...)
	o.scopes = nil
	for _, s := range h.scopes {
		o.scopes = append(o.scopes, append([]int(nil), s...))
	}
	o.listed = nil
	for _, s := range h.listed {
		n := map[z.Lit]bool{}
		for k := range s {
			n[k] = true
		}
		o.listed = append(o.listed, n)
	}
	o.everActs = map[int]bool{}
	for k := range h.everActs {
		o.everActs[k] = true
	}
	return &o
}

// bindAct checks and binds a returned activation literal.
func (h *xh) bindAct(s int, a z.Lit, m *pbt.Meter) error {
	v := int(a.Var())
	if !a.IsPos() || v == 0 {
		return pbt.Failf("activation literal %s", a)
	}
	for s2, b := range h.bind {
		if b == v {
			return pbt.Failf("activation literal %s is in use (slot %d)", a, s2)
		}
	}
	if v <= h.maxVar && !h.everActs[v] {
		return pbt.Failf("activation literal %s is a problem variable (max %d)", a, h.maxVar)
	}
	if h.everActs[v] {
		m.Hit("recycled activation literal")
	}
	h.everActs[v] = true
	h.saw(v)
	h.bind[s] = v
	h.isAct[s] = true
	return nil
}

func (h *xh) actClauseOK(l []int) bool {
	// documented precondition: not empty under level 0 propagation
	if len(l) == 0 {
		return false
	}
	for _, x := range l {
		if h.tt.Sat(x) {
			return true
		}
	}
	return false
}

func (h *xh) step(op XOp, m *pbt.Meter) (err error) {
	nUser := len(h.c.IDs) + h.c.Extra
	actSlot := nUser + op.S
	switch op.K {
	case "add", "part":
		if len(h.scopes) > 0 {
			return nil
		}
		ls := h.live(op.L)
		for _, l := range ls {
			if s := abs(l) - 1; h.isAct[s] {
				continue
			}
			a, _ := h.zl(l)
			h.g.Add(a)
			h.saw(int(a.Var()))
			h.pend = append(h.pend, l)
		}
		if op.K == "part" {
			m.Hit("partial add")
			return nil
		}
		h.g.Add(0)
		h.addClause(h.pend)
		h.pend = nil
		h.last, h.need = 2, false
		h.dirty = false
	case "assume":
		ls := h.live(op.L)
		var as []z.Lit
		for _, l := range ls {
			a, _ := h.zl(l)
			h.saw(int(a.Var()))
			as = append(as, a)
		}
		h.assumes = append(h.assumes, ls...)
		if len(as)%2 == 0 {
			old := append([]z.Lit(nil), as...)
			h.g.Assume(as...)
			if !slices.Equal(old, as) {
				return pbt.Failf("Assume(%v) changed its argument to %v", old, as)
			}
		} else {
			for _, a := range as {
				h.g.Assume(a)
			}
		}
	case "solve", "try", "gowait", "gostop", "tryshort":
		force := append(h.inForce(), h.assumes...)
		h.assumes = nil
		var r int
		zero := false
		switch op.K {
		case "solve":
			r = h.g.Solve()
		case "try":
			r = h.g.Try(time.Hour)
		case "tryshort":
			r = h.g.Try([]time.Duration{1, 0, -1}[(op.S%3+3)%3])
			zero = true
		case "gowait":
			r = h.g.GoSolve().Wait()
		case "gostop":
			r = h.g.GoSolve().Stop()
			zero = true
		}
		m.Hit(op.K)
		return h.afterSolve(r, force, zero, m)
	case "inner":
		return h.inner(op, m)
	case "lit":
		if h.nextEx >= nUser {
			return nil
		}
		a := h.g.Lit()
		if !a.IsPos() || int(a.Var()) <= h.maxVar {
			return pbt.Failf("Lit gives %s, not fresh (max %d)", a, h.maxVar)
		}
		for s, b := range h.bind {
			// a slot number not yet seen by the solver may coincide: rebind it
			if b == int(a.Var()) && s < len(h.c.IDs) {
				return errSkipCase
			}
		}
		h.bind[h.nextEx] = int(a.Var())
		h.nextEx++
		h.saw(int(a.Var()))
		m.Hit("lit")
	case "test":
		if h.need {
			return nil
		}
		return h.test(m, len(h.cls)+op.S)
	case "untest":
		if len(h.scopes) == 0 {
			return nil
		}
		return h.untest(m)
	case "why":
		if h.last == 2 {
			return nil
		}
		return h.why(m, len(h.cls)+op.S)
	case "act":
		if len(h.scopes) > 0 || len(h.pend) > 0 || h.bind[actSlot] != 0 {
			return nil
		}
		ls := h.live(op.L)
		if !h.actClauseOK(ls) {
			return nil
		}
		for _, l := range ls {
			a, _ := h.zl(l)
			h.g.Add(a)
			h.saw(int(a.Var()))
		}
		a := h.g.Activate()
		if e := h.bindAct(actSlot, a, m); e != nil {
			return e
		}
		m.Hit("activate")
		h.addClause(append(ls, -(actSlot + 1)))
		h.last, h.need, h.dirty = 2, false, false
	case "actlit":
		if len(h.scopes) > 0 || len(h.pend) > 0 || h.bind[actSlot] != 0 {
			return nil
		}
		var a z.Lit
		if len(op.L) > 0 {
			a = h.g.Lit()
		} else {
			a = h.g.ActivationLit()
			h.last, h.need, h.dirty = 2, false, false
		}
		return h.bindAct(actSlot, a, m)
	case "actwith":
		if len(h.scopes) > 0 || len(h.pend) > 0 || h.bind[actSlot] == 0 {
			return nil
		}
		ls := h.live(op.L)
		if !h.actClauseOK(ls) {
			return nil
		}
		for _, l := range ls {
			a, _ := h.zl(l)
			h.g.Add(a)
			h.saw(int(a.Var()))
		}
		h.g.ActivateWith(lit(h.bind[actSlot]))
		m.Hit("activate with")
		h.addClause(append(ls, -(actSlot + 1)))
		h.last, h.need, h.dirty = 2, false, false
	case "write":
		return h.write(op.S, m)
	case "deact":
		if len(h.scopes) > 0 || len(h.pend) > 0 || h.bind[actSlot] == 0 {
			return nil
		}
		for _, a := range h.assumes {
			if abs(a) == actSlot+1 {
				return nil // still referenced by a pending assumption
			}
		}
		h.g.Deactivate(lit(h.bind[actSlot]))
		h.bind[actSlot] = 0
		h.isAct[actSlot] = false
		for i := range h.cls {
			for _, l := range h.cls[i].l {
				if abs(l) == actSlot+1 {
					h.cls[i].dead = true
				}
			}
		}
		h.recompute()
		m.Hit("deactivate")
		h.last, h.need, h.dirty = 2, false, false
	}
	return nil
}

// inner allocates or frees an inner variable.
func (h *xh) inner(op XOp, m *pbt.Meter) error {
	g, ok := h.g.(*svS)
	if !ok {
		return nil
	}
	if op.S%3 == 2 && len(g.inn) > 0 {
		k := op.S % len(g.inn)
		a := g.inn[k]
		g.inn = append(g.inn[:k:k], g.inn[k+1:]...)
		if op.S%2 == 0 {
			a = a.Not()
		}
		g.FreeInner(a)
		m.Hit("free inner")
		return nil
	}
	a := g.Inner()
	if g.vs != nil && op.S%2 == 1 {
		a = g.vs.Inner() // the application owns it
	}
	if a == z.LitNull || !a.IsPos() {
		return pbt.Failf("Inner gave %s", a)
	}
	for _, b := range g.inn {
		if a == b {
			return pbt.Failf("Inner gave %s twice", a)
		}
	}
	g.inn = append(g.inn, a)
	if g.vs != nil {
		if o := g.vs.ToOuter(a); o != z.LitNull {
			return pbt.Failf("inner %s is the user's %s", a, o)
		}
		for v := 1; v <= h.maxVar; v++ {
			if n := g.vs.ToInner(lit(v)); n.Var() == a.Var() {
				return pbt.Failf("inner %s is the user's %d", a, v)
			}
		}
	}
	m.Hit("inner")
	return nil
}

var errSkipCase = fmt.Errorf("skip")

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// runX executes the history.
func runX(c *XCase, m *pbt.Meter, post func(hs []*xh) error) error {
	hs := []*xh{newXH(c)}
	cur := 0
	for i, op := range c.Ops {
		var e error
		switch op.K {
		case "copy":
			if len(hs) < 4 {
				hs = append(hs, hs[cur].copyH())
				m.Hit("copy")
				if len(hs[cur].scopes) > 0 {
					m.Hit("copy under scope")
				}
			}
		case "use":
			cur = op.S % len(hs)
		default:
			e = hs[cur].step(op, m)
		}
		if e == errSkipCase {
			return nil
		}
		if e != nil {
			return pbt.Failf("op %d %s%v: %v", i, op.K, op.L, e)
		}
		for _, h := range hs {
			if mv := int(h.g.MaxVar()); mv != h.maxVar {
				return pbt.Failf("op %d %s: MaxVar is %d, want %d", i, op.K, mv, h.maxVar)
			}
		}
	}
	// finally, ask every solver once more
	for k, h := range hs {
		for len(h.scopes) > 0 {
			if e := h.untest(m); e != nil {
				return pbt.Failf("final untest, solver %d: %v", k, e)
			}
		}
		force := h.assumes
		h.assumes = nil
		if e := h.afterSolve(h.g.Solve(), force, false, m); e != nil {
			return pbt.Failf("final solve, solver %d: %v", k, e)
		}
		if e := h.why(m, 0); e != nil {
			return pbt.Failf("final why, solver %d: %v", k, e)
		}
		if e := h.afterSolve(h.g.Solve(), nil, false, m); e != nil {
			return pbt.Failf("final solve without assumptions, solver %d: %v", k, e)
		}
	}
	if post != nil {
		return post(hs)
	}
	return nil
}
