package checks

import (
	"math/bits"
	"sync"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"

	"ginicheck/pbt"
	"ginicheck/ref"
)

// LCase is a history over problems which take thousands of conflicts.
type LCase struct {
	Kind  string `json:"kind"` // xor, r3, php, mix, wide
	N     int    `json:"n"`    // variables, or holes for php
	M     int    `json:"m"`    // length of the constraint stream
	Plant bool   `json:"plant"`
	K     int    `json:"k,omitempty"` // size of parities
	Seed  uint64 `json:"seed"`
	Acts  int    `json:"acts"`
	End   int    `json:"end,omitempty"` // >0: a pigeonhole problem of that many holes guarded by a literal
	Ops   []XOp  `json:"ops"`
}

type rng struct{ s uint64 }

func (r *rng) u() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return pbt.Mix(r.s)
}
func (r *rng) n(k int) int { return int(r.u() % uint64(k)) }

// lcon is a constraint: a parity over vars, or a clause.
type lcon struct {
	xor  bool
	vars []int
	rhs  bool
	cls  [][]int
}

func xorCls(vs []int, rhs bool) [][]int {
	var r [][]int
	for m := 0; m < 1<<len(vs); m++ {
		par := false
		for i := range vs {
			if m>>i&1 == 1 {
				par = !par
			}
		}
		if par == rhs {
			continue
		}
		// forbid this assignment
		var c []int
		for i, v := range vs {
			if m>>i&1 == 1 {
				c = append(c, -v)
			} else {
				c = append(c, v)
			}
		}
		r = append(r, c)
	}
	return r
}

func distinct(r *rng, k, n int) []int {
	var vs []int
	for len(vs) < k {
		v := 1 + r.n(n)
		dup := false
		for _, w := range vs {
			dup = dup || w == v
		}
		if !dup {
			vs = append(vs, v)
		}
	}
	return vs
}

// lstream makes the constraint stream of c and its number of variables.
func lstream(c *LCase) ([]lcon, int) {
	r := &rng{c.Seed}
	var cs []lcon
	switch c.Kind {
	case "php":
		// c.N holes; c.N+1 pigeons if !Plant.
		p := c.N + 1
		if c.Plant {
			p = c.N
		}
		v := func(i, h int) int { return i*c.N + h + 1 }
		for i := 0; i < p; i++ {
			var cl []int
			for h := 0; h < c.N; h++ {
				cl = append(cl, v(i, h))
			}
			cs = append(cs, lcon{cls: [][]int{cl}})
		}
		for h := 0; h < c.N; h++ {
			for i := 0; i < p; i++ {
				for j := 0; j < i; j++ {
					cs = append(cs, lcon{cls: [][]int{{-v(i, h), -v(j, h)}}})
				}
			}
		}
		for i := len(cs) - 1; i > 0; i-- {
			j := r.n(i + 1)
			cs[i], cs[j] = cs[j], cs[i]
		}
		return cs, p * c.N
	}
	sol := make([]bool, c.N+1)
	for i := range sol {
		sol[i] = r.n(2) == 1
	}
	if c.Kind == "wide" {
		// each constraint: one of up to c.K cubes over the first c.N variables
		// holds, that is a clause of selectors, which imply the cubes.
		for i := 0; i < c.M; i++ {
			k := c.K
			if r.n(3) == 0 {
				k = 1 + r.n(c.K)
			}
			sz := bits.Len(uint(k))
			if r.n(4) == 0 {
				sz++
			}
			if sz > c.N {
				sz = c.N
			}
			good := r.n(k)
			var cls [][]int
			var wide []int
			for j := 0; j < k; j++ {
				sel := c.N + i*c.K + j + 1
				wide = append(wide, sel)
				for _, v := range distinct(r, sz, c.N) {
					s := r.n(2) == 1
					if c.Plant && j == good {
						s = sol[v]
					}
					if !s {
						v = -v
					}
					cls = append(cls, []int{-sel, v})
				}
			}
			x := r.n(len(cls) + 1)
			cls = append(cls[:x:x], append([][]int{wide}, cls[x:]...)...)
			cs = append(cs, lcon{cls: cls})
		}
		return cs, c.N + c.M*c.K
	}
	for i := 0; i < c.M; i++ {
		kind := c.Kind
		if kind == "mix" {
			kind = []string{"xor", "r3", "r3", "r3"}[r.n(4)]
		}
		if kind == "xor" {
			k := c.K
			if k == 0 {
				k = 3
			}
			if r.n(12) == 0 {
				k = 2 + r.n(4)
			}
			vs := distinct(r, k, c.N)
			rhs := r.n(2) == 1
			if c.Plant {
				rhs = false
				for _, v := range vs {
					rhs = rhs != sol[v]
				}
			}
			cs = append(cs, lcon{xor: true, vars: vs, rhs: rhs, cls: xorCls(vs, rhs)})
			continue
		}
		for {
			k := 3
			if r.n(10) == 0 {
				k = 2 + 2*r.n(2)
			}
			vs := distinct(r, k, c.N)
			ok := !c.Plant
			var cl []int
			for _, v := range vs {
				s := r.n(2) == 1
				ok = ok || s == sol[v]
				if !s {
					v = -v
				}
				cl = append(cl, v)
			}
			if ok {
				cs = append(cs, lcon{cls: [][]int{cl}})
				break
			}
		}
	}
	return cs, c.N
}

// gauss: rows over up to 255 variables, bit 255 the right side.
type grow [4]uint64

func (r *grow) flip(i int) { r[i/64] ^= 1 << (i % 64) }

func (r *grow) lead() int {
	for i, w := range r {
		if w != 0 {
			return i*64 + bits.TrailingZeros64(w)
		}
	}
	return 256
}

type gauss struct {
	rows  []grow
	leads []int
	bad   bool
}

func (g *gauss) add(row grow) {
	for i, r := range g.rows {
		if l := g.leads[i]; row[l/64]>>(l%64)&1 == 1 {
			for k := range row {
				row[k] ^= r[k]
			}
		}
	}
	switch l := row.lead(); l {
	case 255:
		g.bad = true
	case 256:
	default:
		g.rows = append(g.rows, row)
		g.leads = append(g.leads, l)
	}
}

type lh struct {
	g       *gini.Gini
	c       *LCase
	con     []lcon
	n       int   // problem variables
	next    int   // next constraint of the stream
	active  []int // indices of permanent constraints
	acts    [][]int
	actLit  []z.Lit // 0: not live
	assumes []int   // +-var; act slot s is n+1+s
	scopes  [][]int
	need    bool
	last    int
	force   []int
	// the guarded endless part
	end     z.Lit
	endCls  [][]int // over solver variables
	maxConf int
	inFl    []int // assumptions of a background solve while it was copied
}

func newLH(c *LCase) *lh {
	h := &lh{c: c, g: gini.New(), last: 2, maxConf: 60000}
	h.con, h.n = lstream(c)
	h.acts = make([][]int, c.Acts)
	h.actLit = make([]z.Lit, c.Acts)
	for int(h.g.MaxVar()) < h.n {
		h.g.Lit()
	}
	if c.End > 0 {
		h.end = h.g.Lit()
		base := int(h.end.Var())
		cs, n := lstream(&LCase{Kind: "php", N: c.End, Seed: c.Seed})
		for i := 0; i < n; i++ {
			h.g.Lit()
		}
		for _, k := range cs {
			var cl []int
			for _, l := range k.cls[0] {
				if l > 0 {
					cl = append(cl, base+l)
				} else {
					cl = append(cl, -base+l)
				}
			}
			cl = append(cl, -base)
			h.endCls = append(h.endCls, cl)
			for _, l := range cl {
				h.g.Add(lit(l))
			}
			h.g.Add(0)
		}
	}
	return h
}

const endLit = 1 << 20

func (h *lh) zl(l int) z.Lit {
	v := abs(l)
	var m z.Lit
	switch {
	case v == endLit:
		m = h.end
	case v > h.n:
		m = h.actLit[v-h.n-1]
	default:
		return lit(l)
	}
	if l < 0 {
		return m.Not()
	}
	return m
}

// live drops literals of activation slots not in use.
func (h *lh) live(ls []int) []int {
	var r []int
	for _, l := range ls {
		if v := abs(l); v > h.n && v != endLit {
			if v-h.n > len(h.actLit) || h.actLit[v-h.n-1] == 0 {
				continue
			}
		}
		r = append(r, l)
	}
	return r
}

func (h *lh) inForce() []int {
	var r []int
	for _, s := range h.scopes {
		r = append(r, s...)
	}
	return r
}

// verdict is exact, or 0 when the reference gave up.
func (h *lh) verdict(force []int) int {
	set := map[int]bool{}
	for _, l := range force {
		if set[-l] {
			return -1
		}
		set[l] = true
	}
	if set[endLit] {
		return -1 // pigeonhole
	}
	idx := append([]int(nil), h.active...)
	var units []int
	for l := range set {
		v := abs(l)
		switch {
		case v == endLit:
		case v > h.n:
			if l > 0 {
				idx = append(idx, h.acts[v-h.n-1]...)
			}
		default:
			units = append(units, l)
		}
	}
	allXor := h.n < 255
	for _, i := range idx {
		allXor = allXor && h.con[i].xor
	}
	if allXor {
		g := &gauss{}
		for _, i := range idx {
			var row grow
			for _, v := range h.con[i].vars {
				row.flip(v - 1)
			}
			if h.con[i].rhs {
				row.flip(255)
			}
			g.add(row)
		}
		for _, l := range units {
			var row grow
			row.flip(abs(l) - 1)
			if l > 0 {
				row.flip(255)
			}
			g.add(row)
		}
		if g.bad {
			return -1
		}
		return 1
	}
	if h.c.Kind == "php" && len(units) == 0 {
		// minimally unsatisfiable: unsat iff all constraints are there
		all := map[int]bool{}
		for _, i := range idx {
			all[i] = true
		}
		if h.c.Plant || len(all) < len(h.con) {
			return 1
		}
		return -1
	}
	var cls [][]int
	for _, i := range idx {
		cls = append(cls, h.con[i].cls...)
	}
	sat, _, ok := ref.Solve(h.n, cls, units, h.maxConf)
	if !ok {
		return 0
	}
	if sat {
		return 1
	}
	return -1
}

func (h *lh) checkModel(force []int) error {
	val := h.g.Value
	for _, i := range h.active {
		for _, cl := range h.con[i].cls {
			ok := false
			for _, l := range cl {
				ok = ok || val(lit(l))
			}
			if !ok {
				return pbt.Failf("model falsifies clause %v", cl)
			}
		}
	}
	for s, a := range h.actLit {
		if a == 0 || !val(a) {
			continue
		}
		for _, i := range h.acts[s] {
			for _, cl := range h.con[i].cls {
				ok := false
				for _, l := range cl {
					ok = ok || val(lit(l))
				}
				if !ok {
					return pbt.Failf("model makes activation slot %d true and falsifies its clause %v", s, cl)
				}
			}
		}
	}
	for _, cl := range h.endCls {
		ok := false
		for _, l := range cl {
			ok = ok || val(lit(l))
		}
		if !ok {
			return pbt.Failf("model falsifies guarded clause %v", cl)
		}
	}
	for _, l := range force {
		if !val(h.zl(l)) {
			return pbt.Failf("model falsifies assumption %d", l)
		}
	}
	for v := z.Var(1); v <= h.g.MaxVar(); v++ {
		if val(v.Pos()) == val(v.Neg()) {
			return pbt.Failf("variable %s has no value in the model", v)
		}
	}
	return nil
}

func (h *lh) after(res int, force []int, zeroOK bool, what string, m *pbt.Meter) error {
	if res == 0 && zeroOK {
		m.Hit(what + " 0")
		h.last = 3
		return nil
	}
	if res != 1 && res != -1 {
		return pbt.Failf("%s returned %d", what, res)
	}
	h.last, h.force = res, force
	if res == 1 {
		// a real model settles it
		m.Hit("sat")
		return h.checkModel(force)
	}
	m.Hit("unsat")
	if len(h.scopes) > 0 {
		h.need = true
	}
	switch h.verdict(force) {
	case 1:
		return pbt.Failf("%s returned -1 but the problem is satisfiable (assumptions %v)", what, force)
	case 0:
		m.Hit("reference gave up")
	default:
		if len(force) > 0 {
			m.Hit("unsat under assumptions")
		}
	}
	return nil
}

func (h *lh) why(m *pbt.Meter) error {
	ws := h.g.Why(nil)
	if h.last == 1 || h.last == 3 {
		if len(ws) != 0 {
			return pbt.Failf("Why gives %v, the last answer was not UNSAT", ws)
		}
		return nil
	}
	var core []int
	for _, w := range ws {
		found := false
		for _, l := range h.force {
			if h.zl(l) == w {
				core = append(core, l)
				found = true
				break
			}
		}
		if !found {
			return pbt.Failf("Why gives %v: %s was not assumed (%v)", ws, w, h.force)
		}
	}
	if h.verdict(core) == 1 {
		return pbt.Failf("Why gives %v of %v: not sufficient", core, h.force)
	}
	m.Hit("why")
	if len(core) > 0 && len(core) < len(h.force) {
		m.Hit("why proper subset")
	}
	return nil
}

func (h *lh) addLits(cl []int) {
	for _, l := range cl {
		h.g.Add(lit(l))
	}
}

// take returns the next k constraints of the stream.
func (h *lh) take(k int) []int {
	var r []int
	for ; k > 0 && h.next < len(h.con); k-- {
		r = append(r, h.next)
		h.next++
	}
	return r
}

func (h *lh) copyH() *lh {
	o := *h
	o.g = h.g.Copy()
	o.active = append([]int(nil), h.active...)
	o.actLit = append([]z.Lit(nil), h.actLit...)
	o.acts = append([][]int(nil), h.acts...)
	o.assumes = append([]int(nil), h.assumes...)
	o.scopes = append([][]int(nil), h.scopes...)
	return &o
}

func (h *lh) bg(op XOp, m *pbt.Meter, spawn func(*lh)) error {
	force := append(h.inForce(), h.assumes...)
	inFlight := h.assumes
	h.assumes = nil
	s := h.g.GoSolve()
	res, what, err := ctlSeq(s, op.L, m, func() {
		if op.S == 1 && spawn != nil {
			o := h.copyH()
			o.inFl = append([]int(nil), inFlight...)
			spawn(o)
		}
	})
	if err != nil {
		return err
	}
	return h.after(res, force, what != "wait", "background "+what, m)
}

// ctlSeq runs control codes: 0 test, 1 pause+unpause, 2 stop, 3 wait,
// 4.. try with a limit, negative: sleep.
func ctlSeq(s inter.Solve, codes []int, m *pbt.Meter, paused func()) (int, string, error) {
	for _, k := range codes {
		switch {
		case k < 0:
			time.Sleep(time.Duration(-k) * 50 * time.Microsecond)
		case k == 0:
			r, ok := s.Test()
			if ok {
				m.Hit("result by test")
				return r, "wait", nil
			}
			if r != 0 {
				return 0, "", pbt.Failf("Solve.Test gives (%d, false)", r)
			}
			m.Hit("test false")
		case k == 1:
			r, ok := s.Pause()
			if !ok {
				m.Hit("result by pause")
				return r, "wait", nil
			}
			if r != 0 {
				return 0, "", pbt.Failf("Solve.Pause gives (%d, true)", r)
			}
			m.Hit("paused")
			paused()
			s.Unpause()
		case k == 2:
			m.Hit("stop")
			return s.Stop(), "stop", nil
		case k == 3:
			return s.Wait(), "wait", nil
		default:
			m.Hit("try")
			return s.Try(time.Duration(k) * 100 * time.Microsecond), "try", nil
		}
	}
	return s.Stop(), "stop", nil
}

func (h *lh) step(op XOp, m *pbt.Meter, spawn func(*lh)) error {
	switch op.K {
	case "add":
		if len(h.scopes) > 0 {
			return nil
		}
		for _, i := range h.take(op.S) {
			h.active = append(h.active, i)
			for _, cl := range h.con[i].cls {
				h.addLits(cl)
				h.g.Add(0)
			}
		}
		h.last, h.need = 2, false
	case "addhalf":
		// a clause begun before a solve and finished after it
		if len(h.scopes) > 0 {
			return nil
		}
		ix := h.take(1)
		if len(ix) == 0 {
			return nil
		}
		force := append(h.inForce(), h.assumes...)
		h.assumes = nil
		cls := h.con[ix[0]].cls
		k := 1 + op.S%len(cls[0])
		h.addLits(cls[0][:k])
		if e := h.after(h.g.Solve(), force, false, "solve with a pending clause", m); e != nil {
			return e
		}
		h.addLits(cls[0][k:])
		h.g.Add(0)
		for _, cl := range cls[1:] {
			h.addLits(cl)
			h.g.Add(0)
		}
		h.active = append(h.active, ix[0])
		h.last, h.need = 2, false
		m.Hit("half clause")
	case "act":
		if op.S >= len(h.actLit) || len(h.scopes) > 0 || h.actLit[op.S] != 0 {
			return nil
		}
		ix := h.take(op.L[0])
		if len(ix) == 0 {
			return nil
		}
		h.actLit[op.S] = h.g.ActivationLit()
		h.last, h.need = 2, false
		// documented precondition: no clause may be empty at level 0
		for _, i := range ix {
			for _, cl := range h.con[i].cls {
				empty := true
				for _, l := range cl {
					empty = empty && h.g.Value(lit(-l))
				}
				if empty {
					h.g.Deactivate(h.actLit[op.S])
					h.actLit[op.S] = 0
					m.Hit("group empty at level 0")
					return nil
				}
			}
		}
		h.acts[op.S] = ix
		for _, i := range ix {
			for _, cl := range h.con[i].cls {
				h.addLits(cl)
				h.g.ActivateWith(h.actLit[op.S])
			}
		}
		h.last, h.need = 2, false
		m.Hit("activated group")
	case "deact":
		if op.S >= len(h.actLit) || len(h.scopes) > 0 || h.actLit[op.S] == 0 {
			return nil
		}
		for _, a := range h.assumes {
			if abs(a) == h.n+1+op.S {
				return nil
			}
		}
		h.g.Deactivate(h.actLit[op.S])
		h.actLit[op.S] = 0
		h.acts[op.S] = nil
		h.last, h.need = 2, false
		m.Hit("deactivated group")
	case "assume":
		for _, l := range h.live(op.L) {
			h.g.Assume(h.zl(l))
			h.assumes = append(h.assumes, l)
		}
	case "noend":
		if h.c.End > 0 {
			h.g.Assume(h.end.Not())
			h.assumes = append(h.assumes, -endLit)
		}
	case "solve":
		force := append(h.inForce(), h.assumes...)
		h.assumes = nil
		return h.after(h.g.Solve(), force, false, "solve", m)
	case "try":
		force := append(h.inForce(), h.assumes...)
		h.assumes = nil
		return h.after(h.g.Try(time.Duration(op.S)*100*time.Microsecond), force, true, "try", m)
	case "trylong":
		force := append(h.inForce(), h.assumes...)
		h.assumes = nil
		return h.after(h.g.Try(time.Hour), force, false, "try 1h", m)
	case "bg":
		return h.bg(op, m, spawn)
	case "why":
		if h.last == 2 {
			return nil
		}
		return h.why(m)
	case "test":
		if h.need {
			return nil
		}
		r, list := h.g.Test(make([]z.Lit, 0, 8))
		h.scopes = append(h.scopes, h.assumes)
		h.assumes = nil
		force := h.inForce()
		if r == -1 {
			h.need = true
			return h.after(r, force, false, "test", m)
		}
		m.Hit("scope")
		h.last = 3
		if r == 1 {
			return h.after(r, force, false, "test", m)
		}
		for _, l := range force {
			if !h.g.Value(h.zl(l)) {
				return pbt.Failf("after Test, %d in force is not true", l)
			}
		}
		return h.listed(list, force, m)
	case "write":
		return h.rewrite(op.S, m)
	case "untest":
		if len(h.scopes) == 0 {
			return nil
		}
		r := h.g.Untest()
		h.scopes = h.scopes[:len(h.scopes)-1]
		h.last = 3
		switch r {
		case 0:
			h.need = false
			for _, l := range h.inForce() {
				if !h.g.Value(h.zl(l)) {
					return pbt.Failf("after Untest, %d still in force is not true", l)
				}
			}
		case -1:
			h.need, h.last = true, 2
			if h.verdict(h.inForce()) == 1 {
				return pbt.Failf("Untest returned -1 but %v is satisfiable", h.inForce())
			}
		default:
			return pbt.Failf("Untest returned %d", r)
		}
	}
	return nil
}

// back maps a literal of the solver to one of the case, 0 if there is none.
func (h *lh) back(x z.Lit) int {
	l := 0
	switch v := int(x.Var()); {
	case v <= h.n:
		l = v
	case h.end != 0 && x.Var() == h.end.Var():
		l = endLit
	default:
		for s, a := range h.actLit {
			if a != 0 && a.Var() == x.Var() {
				l = h.n + 1 + s
			}
		}
	}
	if !x.IsPos() {
		return -l
	}
	return l
}

// listed checks the literals a Test listed, some of them against the
// reference, with their reasons.
func (h *lh) listed(list []z.Lit, force []int, m *pbt.Meter) error {
	seen := map[z.Lit]bool{}
	for _, x := range list {
		if seen[x] || seen[x.Not()] {
			return pbt.Failf("Test lists %s twice or with its negation", x)
		}
		seen[x] = true
		if !h.g.Value(x) || h.g.Value(x.Not()) {
			return pbt.Failf("Test lists %s, which is not true", x)
		}
	}
	if len(list) == 0 {
		return nil
	}
	r := &rng{h.c.Seed + uint64(len(list))}
	for k := 0; k < 3; k++ {
		x := list[r.n(len(list))]
		l := h.back(x)
		if l == 0 || abs(l) == endLit {
			continue
		}
		if h.verdict(append(append([]int(nil), force...), -l)) == 1 {
			return pbt.Failf("Test lists %d, which does not follow from %v", l, force)
		}
		var rs []int
		known := true
		for _, y := range h.g.Reasons(nil, x) {
			if !h.g.Value(y) || h.g.Value(y.Not()) || y.Var() == x.Var() {
				return pbt.Failf("%s is a reason of %s", y, x)
			}
			b := h.back(y)
			known = known && b != 0
			rs = append(rs, b)
		}
		assumed := false
		for _, f := range force {
			assumed = assumed || f == l
		}
		if assumed && len(rs) == 0 || !known {
			continue
		}
		if len(rs) > 0 {
			m.Hit("reasons")
		}
		if h.verdict(append(rs, -l)) == 1 {
			return pbt.Failf("%d does not follow from its reasons %v", l, rs)
		}
	}
	m.Hit("propagated")
	return nil
}

// rewrite writes the problem, reads it back and asks, or goes on with, the
// solver which was read.
func (h *lh) rewrite(size int, m *pbt.Meter) error {
	text, e := writeOf(h.g)
	if e != nil {
		return e
	}
	if _, _, e := parseWritten(text); e != nil {
		return e
	}
	g2, e := gini.NewDimacs(newChunkReader(text, Chunks{Sizes: []int{1 + size, 4000}}))
	if e != nil {
		return pbt.Failf("NewDimacs of a written CNF: %v", e)
	}
	for g2.MaxVar() < h.g.MaxVar() {
		g2.Lit()
	}
	m.Hit("written and read back")
	var acts []int
	for s, a := range h.actLit {
		if a != 0 {
			acts = append(acts, h.n+1+s)
		}
	}
	if len(h.scopes) == 0 && len(h.assumes) == 0 && len(acts) == 0 {
		h.g = g2
		h.last = 2
		m.Hit("continued after reading back")
		return nil
	}
	o := *h
	o.g = g2
	for _, a := range acts {
		g2.Assume(h.zl(a))
	}
	return o.after(g2.Solve(), acts, false, "solve of the CNF read back", m)
}

// finish asks for a final exact answer.
func (h *lh) finish(m *pbt.Meter) error {
	for len(h.scopes) > 0 {
		if e := h.step(XOp{K: "untest"}, m, nil); e != nil {
			return e
		}
	}
	for i := 0; i < 2; i++ {
		if e := h.step(XOp{K: "noend"}, m, nil); e != nil {
			return e
		}
		if e := h.step(XOp{K: "solve"}, m, nil); e != nil {
			return e
		}
	}
	return h.step(XOp{K: "why"}, m, nil)
}

func runL(c *LCase, m *pbt.Meter) error {
	hs := []*lh{newLH(c)}
	cur := 0
	for i, op := range c.Ops {
		var e error
		switch op.K {
		case "copy":
			if len(hs) < 3 {
				hs = append(hs, hs[cur].copyH())
				m.Hit("copy")
			}
		case "use":
			cur = op.S % len(hs)
		case "par":
			// let every copy solve at once
			if len(hs) == 1 {
				continue
			}
			errs := make([]error, len(hs))
			ms := make([]*pbt.Meter, len(hs))
			var wg sync.WaitGroup
			for k, h := range hs {
				ms[k] = pbt.NewMeter()
				wg.Add(1)
				go func(k int, h *lh) {
					defer wg.Done()
					for _, o := range []XOp{{K: "add", S: op.S}, {K: "assume", L: op.L}, {K: "noend"}, {K: "solve"}, {K: "why"}} {
						if e := h.step(o, ms[k], nil); e != nil {
							errs[k] = e
							return
						}
					}
				}(k, h)
			}
			wg.Wait()
			for k := range hs {
				for c, n := range ms[k].Classes {
					m.Add(c, n)
				}
				if errs[k] != nil {
					e = pbt.Failf("solver %d: %v", k, errs[k])
				}
			}
			m.Hit("concurrent solves")
		default:
			e = hs[cur].step(op, m, func(o *lh) {
				// a copy taken while the original was paused
				m.Hit("copy while paused")
				fl := o.inFl
				o.inFl = nil
				o.need = false
				r := 0
				if c.End > 0 {
					// only a bounded solve: the assumptions may select the endless part
					r = o.g.Try(5 * time.Millisecond)
				} else {
					r = o.g.Solve()
				}
				_ = fl // consumed by the background solve when it started
				f := o.inForce()
				if e2 := o.after(r, f, c.End > 0, "solve of a copy", m); e2 != nil {
					panic(e2)
				}
				o.need = false
				for len(o.scopes) > 0 {
					if e2 := o.step(XOp{K: "untest"}, m, nil); e2 != nil {
						panic(e2)
					}
				}
				if len(hs) < 3 {
					hs = append(hs, o)
				}
			})
		}
		if e != nil {
			return pbt.Failf("op %d %s%v: %v", i, op.K, op.L, e)
		}
	}
	for k, h := range hs {
		if e := h.finish(m); e != nil {
			return pbt.Failf("final solve, solver %d: %v", k, e)
		}
	}
	return nil
}

type lcfg struct {
	kinds    []int // weights xor, r3, php, mix, wide
	w        map[string]int
	names    []string
	weights  []int
	end      bool
	big      int
	ops, max int
}

func (c *lcfg) init() *lcfg {
	for _, k := range []string{"add", "assume", "solve", "why", "test", "untest", "act", "deact", "copy", "use", "par", "addhalf", "try", "bg", "trylong", "write"} {
		if w := c.w[k]; w > 0 {
			c.names = append(c.names, k)
			c.weights = append(c.weights, w)
		}
	}
	return c
}

func genL(t *pbt.T, cfg *lcfg) *LCase {
	c := &LCase{Seed: t.U64(), Plant: t.P(45)}
	c.Kind = []string{"xor", "r3", "php", "mix", "wide"}[t.Pick(cfg.kinds...)]
	var per int
	switch c.Kind {
	case "xor":
		c.K = 3 + t.N(3)
		lo := []int{30, 20, 15}[c.K-3]
		if cfg.big == 2 {
			lo *= 2
		}
		hi := [][]int{{100, 55, 42}, {160, 85, 60}, {220, 110, 72}}[cfg.big][c.K-3]
		c.N = t.Range(lo, hi)
		c.M = c.N*9/10 + t.N(c.N/4+1)
	case "r3":
		c.N = t.Range([]int{30, 30, 150}[cfg.big], []int{150, 220, 250}[cfg.big])
		c.M = c.N*39/10 + t.N(c.N*5/10)
		if c.Plant {
			c.N = c.N * 4 / 3
		}
	case "php":
		c.N = t.Range(3, 6+cfg.big)
		c.Plant = c.Plant && t.P(20)
		p := c.N + 1
		if c.Plant {
			p--
		}
		c.M = p + c.N*p*(p-1)/2
	case "mix":
		c.K = 3 + t.N(2)
		c.N = t.Range(30, []int{90, 120, 130}[cfg.big])
		c.M = c.N*2 + t.N(c.N*8/10)
	case "wide":
		c.N = t.Range(5, 10)
		c.K = t.Range(8, []int{70, 200, 300}[cfg.big])
		c.M = t.Range(2, 2+c.N*5/4)
	}
	c.Acts = 3
	if cfg.end {
		c.End = 9 + t.N(3)
	}
	_, n := c.M, c.N
	if c.Kind == "php" {
		n = c.N * c.N
	}
	slots := n // activation slots are after it
	switch c.Kind {
	case "php":
		slots = c.phpVars() // depends on Plant
	case "wide":
		slots = c.N + c.M*c.K
	}
	// most of the stream first
	pc := t.Range(60, 100)
	if cfg.big == 2 {
		pc = t.Range(90, 100)
	}
	first := c.M * pc / 100
	c.Ops = append(c.Ops, XOp{K: "add", S: first})
	per = 1 + (c.M-first)/4
	if cfg.w["addhalf"] > 0 && t.P(25) {
		c.Ops = append(c.Ops, XOp{K: "noend"}, XOp{K: "addhalf", S: t.N(4)})
	}
	t.Repeat(2, cfg.max, cfg.ops, func(int) {
		op := XOp{K: cfg.names[t.Pick(cfg.weights...)]}
		safe := false
		switch op.K {
		case "add", "par":
			op.S = t.Range(0, per/2+1)
		case "addhalf":
			op.S = t.N(3)
			safe = true
		case "act":
			op.S = t.N(c.Acts)
			op.L = []int{t.Range(1, 1+per/2)}
		case "deact":
			op.S = t.N(c.Acts)
		case "copy", "use", "try", "write":
			op.S = t.N(30)
		case "bg":
			op.S = t.N(2)
		case "trylong", "solve":
			safe = true
		}
		switch op.K {
		case "assume", "par":
			k := 1 + t.Pick(30, 30, 20, 20)
			for ; k > 0; k-- {
				l := genLit(t, n)
				if t.P(50) {
					l = slots + 1 + t.N(c.Acts)
				} else if c.Kind == "wide" && t.P(30) {
					l = genLit(t, slots)
				}
				op.L = append(op.L, l)
			}
		case "bg":
			wait := false
			t.Repeat(0, 6, 3, func(int) {
				k := t.Pick(25, 25, 30)
				if k == 2 {
					k = -1 - t.N(20)
				}
				op.L = append(op.L, k)
			})
			switch t.Pick(40, 30, 30) {
			case 0:
				op.L = append(op.L, 2)
			case 1:
				op.L = append(op.L, 4+t.N(60))
			case 2:
				op.L = append(op.L, 3)
				wait = true
			}
			safe = wait
			if cfg.end && !wait && t.P(60) {
				c.Ops = append(c.Ops, XOp{K: "assume", L: []int{endLit}})
			}
		case "try":
			if cfg.end && t.P(60) {
				c.Ops = append(c.Ops, XOp{K: "assume", L: []int{endLit}})
			}
		}
		if safe {
			c.Ops = append(c.Ops, XOp{K: "noend"})
		}
		c.Ops = append(c.Ops, op)
	})
	return c
}

func (c *LCase) phpVars() int {
	if c.Plant {
		return c.N * c.N
	}
	return (c.N + 1) * c.N
}
