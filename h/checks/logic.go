package checks

import (
	"fmt"
	"sort"

	"ginicheck/pbt"
	"ginicheck/ref"

	"github.com/go-air/gini"
	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/z"
)

// GOp is one step of a circuit construction program.  A reference r counts
// back from the newest value (r>>1 values back, negated when odd); -1 and -2
// are the constants.
type GOp struct {
	K string `json:"k"`
	W int    `json:"w,omitempty"`
	R []int  `json:"r,omitempty"`
	N int    `json:"n,omitempty"`
	P int    `json:"p,omitempty"`
}

// GCase is a construction program.
type GCase struct {
	Cap  int    `json:"cap"` // <0: default constructor
	Seq  bool   `json:"seq,omitempty"`
	Seed uint64 `json:"seed"`
	Ops  []GOp  `json:"ops"`
}

type gnode struct {
	k    byte // T i l & | ^ ? > A O # c
	args []int
	n    int
	pred int
	lit  z.Lit
}

type gpair [2]z.Lit

// gw is one circuit with its model.
type gw struct {
	c       *logic.C
	s       *logic.S
	n       []gnode
	latch   []int
	next    map[int]int // signed reference
	init    map[int]int // 0 F, 1 T, 2 X
	and     map[gpair]z.Lit
	r       *rng
	mark    []int8
	acc     [][]int
	roots   []int
	sinceOn bool
	in      func() z.Lit
}

func newGW(c *GCase) *gw {
	w := &gw{next: map[int]int{}, init: map[int]int{}, and: map[gpair]z.Lit{}, r: &rng{c.Seed}}
	switch {
	case c.Seq && c.Cap < 0:
		w.s = logic.NewS()
	case c.Seq:
		w.s = logic.NewSCap(c.Cap)
	case c.Cap < 0:
		w.c = logic.NewC()
	default:
		w.c = logic.NewCCap(c.Cap)
	}
	if w.s != nil {
		w.c = &w.s.C
	}
	w.n = append(w.n, gnode{k: 'T', lit: w.c.T})
	return w
}

func (w *gw) copy() *gw {
	x := &gw{next: map[int]int{}, init: map[int]int{}, and: map[gpair]z.Lit{}, r: &rng{w.r.u()}}
	if w.s != nil {
		x.s = w.s.Copy()
		x.c = &x.s.C
	} else {
		x.c = w.c.Copy()
	}
	x.n = append([]gnode{}, w.n...)
	x.latch = append([]int{}, w.latch...)
	for k, v := range w.next {
		x.next[k] = v
	}
	for k, v := range w.init {
		x.init[k] = v
	}
	for k, v := range w.and {
		x.and[k] = v
	}
	x.mark = append([]int8(nil), w.mark...)
	x.acc = append([][]int{}, w.acc...)
	x.roots = append([]int{}, w.roots...)
	x.sinceOn = w.sinceOn
	return x
}

// ref resolves a raw reference to a signed node: index<<1|sign.
func (w *gw) ref(r int) int {
	if r < 0 {
		return -r & 1 // -2: T, -1: F
	}
	d := (r >> 1) % len(w.n)
	return (len(w.n)-1-d)<<1 | r&1
}

func (w *gw) lit(sr int) z.Lit {
	m := w.n[sr>>1].lit
	if sr&1 == 1 {
		return m.Not()
	}
	return m
}

func (w *gw) push(n gnode) { w.n = append(w.n, n) }

func sv(vs []uint64, sr int) uint64 {
	x := vs[sr>>1]
	if sr&1 == 1 {
		return ^x
	}
	return x
}

// count of true references per bit against a threshold
func atLeast(vs []uint64, args []int, k int) uint64 {
	if k <= 0 {
		return ^uint64(0)
	}
	var r uint64
	for b := 0; b < 64; b++ {
		n := 0
		for _, a := range args {
			n += int(sv(vs, a) >> b & 1)
		}
		if n >= k {
			r |= 1 << b
		}
	}
	return r
}

const (
	pLeq = iota
	pGeq
	pLess
	pGr
)

func cardVal(vs []uint64, args []int, pred, k int) uint64 {
	switch pred {
	case pLeq:
		return ^atLeast(vs, args, k+1)
	case pGeq:
		return atLeast(vs, args, k)
	case pLess:
		return ^atLeast(vs, args, k)
	default:
		return atLeast(vs, args, k+1)
	}
}

// eval gives the value of every node under 64 leaf assignments.
func (w *gw) eval(leaf func(i int) uint64) []uint64 {
	vs := make([]uint64, len(w.n))
	for i := range w.n {
		n := &w.n[i]
		switch n.k {
		case 'T':
			vs[i] = ^uint64(0)
		case 'i', 'l':
			vs[i] = leaf(i)
		case '&':
			vs[i] = sv(vs, n.args[0]) & sv(vs, n.args[1])
		case '|':
			vs[i] = sv(vs, n.args[0]) | sv(vs, n.args[1])
		case '^':
			vs[i] = sv(vs, n.args[0]) ^ sv(vs, n.args[1])
		case '>':
			vs[i] = ^sv(vs, n.args[0]) | sv(vs, n.args[1])
		case '?':
			c := sv(vs, n.args[0])
			vs[i] = c&sv(vs, n.args[1]) | ^c&sv(vs, n.args[2])
		case 'A':
			x := ^uint64(0)
			for _, a := range n.args {
				x &= sv(vs, a)
			}
			vs[i] = x
		case 'O':
			x := uint64(0)
			for _, a := range n.args {
				x |= sv(vs, a)
			}
			vs[i] = x
		case '#':
			vs[i] = cardVal(vs, n.args, n.pred, n.n)
		}
	}
	return vs
}

func (w *gw) leaves() []int {
	var r []int
	for i := range w.n {
		if w.n[i].k == 'i' || w.n[i].k == 'l' {
			r = append(r, i)
		}
	}
	return r
}

// blocks yields leaf words: exhaustive for few leaves, else max random ones.
func (w *gw) blocks(max int, f func(leaf func(i int) uint64) error) error {
	ls := w.leaves()
	pos := map[int]int{}
	for k, i := range ls {
		pos[i] = k
	}
	nb, exh := max, false
	if len(ls) <= 6 {
		nb, exh = 1, true
	} else if len(ls) < 20 && 1<<(len(ls)-6) <= max {
		nb, exh = 1<<(len(ls)-6), true
	}
	pat := [6]uint64{0xaaaaaaaaaaaaaaaa, 0xcccccccccccccccc, 0xf0f0f0f0f0f0f0f0, 0xff00ff00ff00ff00, 0xffff0000ffff0000, 0xffffffff00000000}
	for b := 0; b < nb; b++ {
		salt := w.r.u()
		dens := w.r.n(5)
		leaf := func(i int) uint64 {
			k := pos[i]
			if exh {
				if k < 6 {
					return pat[k]
				}
				return -uint64(b >> (k - 6) & 1)
			}
			x := pbt.Mix(salt + uint64(k)*0x9e3779b97f4a7c15)
			y := pbt.Mix(x + 77)
			switch dens {
			case 0:
				return x & y
			case 1:
				return x | y
			}
			return x
		}
		if e := f(leaf); e != nil {
			return e
		}
	}
	return nil
}

// build does one construction op; ok is false for other ops.
func (w *gw) build(op GOp) (ok bool, err error) {
	a := make([]int, len(op.R))
	ms := make([]z.Lit, len(op.R))
	for i, r := range op.R {
		a[i] = w.ref(r)
		ms[i] = w.lit(a[i])
	}
	need := map[string]int{"and": 2, "or": 2, "xor": 2, "imp": 2, "ite": 3}[op.K]
	if len(a) < need {
		return true, nil
	}
	n0 := w.c.Len()
	switch op.K {
	case "in":
		var m z.Lit
		if w.in != nil {
			m = w.in()
		} else {
			m = w.c.Lit()
		}
		if int(m.Var()) < n0 || !m.IsPos() {
			return true, pbt.Failf("Lit gave %s with Len %d before", m, n0)
		}
		w.push(gnode{k: 'i', lit: m})
	case "latch":
		if w.s == nil {
			return true, nil
		}
		m := w.s.Latch(w.initLit(op.N))
		if int(m.Var()) < n0 || !m.IsPos() {
			return true, pbt.Failf("Latch gave %s with Len %d before", m, n0)
		}
		w.push(gnode{k: 'l', lit: m})
		i := len(w.n) - 1
		w.latch = append(w.latch, i)
		w.next[i] = i << 1
		w.init[i] = op.N
	case "next":
		if w.s == nil || len(w.latch) == 0 || len(a) < 1 {
			return true, nil
		}
		i := w.latch[op.N%len(w.latch)]
		w.s.SetNext(w.n[i].lit, ms[0])
		w.next[i] = a[0]
	case "init":
		if w.s == nil || len(w.latch) == 0 {
			return true, nil
		}
		i := w.latch[op.N%len(w.latch)]
		w.s.SetInit(w.n[i].lit, w.initLit(op.P))
		w.init[i] = op.P
	case "and":
		m := w.c.And(ms[0], ms[1])
		k := gpair{ms[0], ms[1]}
		if k[0] > k[1] {
			k[0], k[1] = k[1], k[0]
		}
		if o, ok := w.and[k]; ok && o != m {
			return true, pbt.Failf("And(%s,%s) gave %s, and now %s", ms[0], ms[1], o, m)
		}
		w.and[k] = m
		w.push(gnode{k: '&', args: a, lit: m})
	case "or":
		w.push(gnode{k: '|', args: a, lit: w.c.Or(ms[0], ms[1])})
	case "xor":
		w.push(gnode{k: '^', args: a, lit: w.c.Xor(ms[0], ms[1])})
	case "imp":
		w.push(gnode{k: '>', args: a, lit: w.c.Implies(ms[0], ms[1])})
	case "ite":
		w.push(gnode{k: '?', args: a, lit: w.c.Choice(ms[0], ms[1], ms[2])})
	case "ands":
		w.push(gnode{k: 'A', args: a, lit: w.c.Ands(ms...)})
	case "ors":
		w.push(gnode{k: 'O', args: a, lit: w.c.Ors(ms...)})
	case "card":
		cs := w.c.CardSort(ms)
		w.push(gnode{k: '#', args: a, n: op.N, pred: op.P, lit: cardLit(cs, op.P, op.N)})
	case "bulk": // many random gates
		for i := 0; i < op.N; i++ {
			g := GOp{K: [...]string{"and", "or", "xor", "ite", "and", "in"}[w.r.n(6)]}
			if g.K == "in" && w.r.n(4) > 0 {
				g.K = "and"
			}
			for j := 0; j < 3; j++ {
				d := w.r.n(len(w.n))
				if w.r.n(3) == 0 {
					d = w.r.n(8)
				}
				g.R = append(g.R, d<<1|w.r.n(2))
			}
			if _, e := w.build(g); e != nil {
				return true, e
			}
		}
	case "chain": // a deep circuit
		for i := 0; i < op.N; i++ {
			g := GOp{K: [...]string{"and", "xor", "or"}[w.r.n(3)], R: []int{w.r.n(2), w.r.n(40)}}
			if i%8 == 0 && i < 200 {
				g.K = "in"
			} else if i%8 == 1 {
				g.K = "xor"
			}
			if _, e := w.build(g); e != nil {
				return true, e
			}
		}
	default:
		return false, nil
	}
	for i, m := range ms {
		if m != w.lit(a[i]) {
			return true, pbt.Failf("%s changed its argument %d from %s to %s", op.K, i, w.lit(a[i]), m)
		}
	}
	if m := w.n[len(w.n)-1].lit; m == z.LitNull || int(m.Var()) >= w.c.Len() {
		return true, pbt.Failf("%s gave literal %d outside the circuit (Len %d)", op.K, m, w.c.Len())
	}
	return true, nil
}

func cardLit(cs *logic.CardSort, pred, k int) z.Lit {
	switch pred {
	case pLeq:
		return cs.Leq(k)
	case pGeq:
		return cs.Geq(k)
	case pLess:
		return cs.Less(k)
	}
	return cs.Gr(k)
}

func (w *gw) initLit(i int) z.Lit {
	return [...]z.Lit{w.s.F, w.s.T, z.LitNull}[i%3]
}

func (w *gw) desc(i int) string {
	n := w.n[i]
	s := fmt.Sprintf("value %d (%s) = %c", i, n.lit, n.k)
	for _, a := range n.args {
		t := ""
		if a&1 == 1 {
			t = "-"
		}
		s += fmt.Sprintf(" %s%d(%s)", t, a>>1, w.n[a>>1].lit)
	}
	if n.k == '#' {
		s += fmt.Sprintf(" pred %d bound %d", n.pred, n.n)
	}
	return s
}

// evalCheck compares Eval and Eval64 with the model.
func (w *gw) evalCheck(max int, m *pbt.Meter) error {
	blk := 0
	return w.blocks(max, func(leaf func(int) uint64) error {
		blk++
		want := w.eval(leaf)
		N := w.c.Len()
		v64 := make([]uint64, N+w.r.n(3))
		for i := range v64 {
			v64[i] = w.r.u()
		}
		for _, i := range w.leaves() {
			v64[w.n[i].lit.Var()] = leaf(i)
		}
		dirty := append([]uint64{}, v64...)
		w.c.Eval64(v64)
		for i := range w.n {
			g := v64[w.n[i].lit.Var()]
			if !w.n[i].lit.IsPos() {
				g = ^g
			}
			if g != want[i] {
				return pbt.Failf("Eval64: %s is %x, should be %x", w.desc(i), g, want[i])
			}
		}
		m.Hit("eval64 block")
		nb := 2
		if blk == 1 && N < 100 {
			nb = 64
		}
		for k := 0; k < nb; k++ {
			b := k
			if nb < 64 {
				b = w.r.n(64)
			}
			vs := make([]bool, len(dirty))
			for i := range vs {
				vs[i] = dirty[i]>>b&1 == 1
			}
			w.c.Eval(vs)
			for i := range w.n {
				g := vs[w.n[i].lit.Var()] == w.n[i].lit.IsPos()
				if g != (want[i]>>b&1 == 1) {
					return pbt.Failf("Eval: %s is %v", w.desc(i), g)
				}
			}
		}
		return nil
	})
}

// structure compares what the circuit reports about itself with the model.
func (w *gw) structure(m *pbt.Meter) error {
	c := w.c
	N := c.Len()
	var ins []int
	kind := map[z.Var]byte{}
	for i := range w.n {
		n := &w.n[i]
		if n.k == 'i' || n.k == 'l' {
			kind[n.lit.Var()] = n.k
		}
		if n.k == 'i' {
			ins = append(ins, int(n.lit.Var()))
		}
	}
	sort.Ints(ins)
	var dst []int
	if w.r.n(2) == 0 {
		dst = []int{9, 9, 9}[:w.r.n(4)]
	}
	got := append([]int{}, c.InPos(dst)...)
	sort.Ints(got)
	if fmt.Sprint(got) != fmt.Sprint(ins) {
		return pbt.Failf("InPos gave %v, the inputs are at %v", got, ins)
	}
	seen := map[gpair]int{}
	for i := 2; i < N; i++ {
		x := c.At(i)
		if int(x.Var()) != i || !x.IsPos() {
			return pbt.Failf("At(%d) is %s", i, x)
		}
		k := kind[x.Var()]
		if w.s != nil {
			want := logic.SAnd
			switch k {
			case 'i':
				want = logic.SInput
			case 'l':
				want = logic.SLatch
			}
			if g := w.s.Type(x); g != want {
				return pbt.Failf("Type(%s) is %s, should be %s", x, g, want)
			}
			if g := w.s.Type(x.Not()); g != want {
				return pbt.Failf("Type(%s) is %s, should be %s", x.Not(), g, want)
			}
		}
		a, b := c.Ins(x)
		if k == 'i' {
			if a != z.LitNull || b != z.LitNull {
				return pbt.Failf("Ins of input %s are %s %s", x, a, b)
			}
			continue
		}
		if k == 'l' {
			continue
		}
		if a == z.LitNull || b == z.LitNull || int(a.Var()) >= i || int(b.Var()) >= i {
			return pbt.Failf("Ins of gate %s are %d %d", x, a, b)
		}
		p := gpair{a, b}
		if a > b {
			p = gpair{b, a}
		}
		if o, ok := seen[p]; ok {
			return pbt.Failf("gates at %d and %d both are And(%s,%s)", o, i, a, b)
		}
		seen[p] = i
		if y := c.And(a, b); y != x {
			return pbt.Failf("gate %s is And(%s,%s), but And gives %s again", x, a, b, y)
		}
		if y := c.And(b, a); y != x {
			return pbt.Failf("gate %s is And(%s,%s), but And(%s,%s) gives %s", x, a, b, b, a, y)
		}
	}
	m.Add("gate rebuilt", len(seen))
	if c.Len() != N {
		return pbt.Failf("building existing gates again grew the circuit from %d to %d", N, c.Len())
	}
	if c.T != c.F.Not() {
		return pbt.Failf("T is %s and F is %s", c.T, c.F)
	}
	if s := w.s; s != nil {
		if g := s.Type(s.T); g != logic.SConst {
			return pbt.Failf("Type(T) is %s", g)
		}
		if len(s.Latches) != len(w.latch) {
			return pbt.Failf("%d latches listed, %d made", len(s.Latches), len(w.latch))
		}
		for k, i := range w.latch {
			l := w.n[i].lit
			if s.Latches[k] != l {
				return pbt.Failf("latch %d is listed as %s, made as %s", k, s.Latches[k], l)
			}
			if g, x := s.Next(l), w.lit(w.next[i]); g != x {
				return pbt.Failf("Next(%s) is %s, was set to %s", l, g, x)
			}
			if g, x := s.Init(l), w.initLit(w.init[i]); g != x {
				return pbt.Failf("Init(%s) is %s, was set to %s", l, g, x)
			}
		}
	}
	return nil
}

// clsRec records clauses.
type clsRec struct {
	cls [][]int
	cur []int
}

func (r *clsRec) Add(m z.Lit) {
	if m == z.LitNull {
		r.cls = append(r.cls, r.cur)
		r.cur = nil
		return
	}
	r.cur = append(r.cur, int(m.Dimacs()))
}

// cone is the set of gates under the roots.
func (w *gw) cone(roots []z.Lit) map[z.Var]bool {
	r := map[z.Var]bool{}
	leaf := map[z.Var]bool{1: true}
	for _, i := range w.leaves() {
		leaf[w.n[i].lit.Var()] = true
	}
	st := append([]z.Lit{}, roots...)
	for len(st) > 0 {
		m := st[len(st)-1]
		st = st[:len(st)-1]
		if leaf[m.Var()] || r[m.Var()] {
			continue
		}
		r[m.Var()] = true
		a, b := w.c.Ins(m)
		st = append(st, a, b)
	}
	return r
}

// cnfCheck decides whether cls defines exactly the gates in cone.
func (w *gw) cnfCheck(what string, cls [][]int, cone map[z.Var]bool, m *pbt.Meter) error {
	isLeaf := map[z.Var]bool{}
	for _, i := range w.leaves() {
		isLeaf[w.n[i].lit.Var()] = true
	}
	unitT := false
	for _, c := range cls {
		for _, l := range c {
			v := z.Var(abs(l))
			if v != 1 && !isLeaf[v] && !cone[v] {
				return pbt.Failf("%s: clause %v mentions %s outside the cone", what, c, v)
			}
		}
		if len(c) == 1 && c[0] == int(w.c.T.Dimacs()) {
			unitT = true
		}
	}
	N := w.c.Len()
	e := w.blocks(8, func(leaf func(int) uint64) error {
		vs := make([]uint64, N)
		for _, i := range w.leaves() {
			vs[w.n[i].lit.Var()] = leaf(i)
		}
		w.c.Eval64(vs)
		for _, c := range cls {
			x := uint64(0)
			for _, l := range c {
				y := vs[abs(l)]
				if l < 0 {
					y = ^y
				}
				x |= y
			}
			if x != ^uint64(0) {
				return pbt.Failf("%s: the circuit's evaluation does not satisfy clause %v", what, c)
			}
		}
		return nil
	})
	if e != nil {
		return e
	}
	var gates []int
	for v := range cone {
		gates = append(gates, int(v))
	}
	sort.Ints(gates)
	refute := func(ls ...int) (bool, error) {
		if N <= 400 {
			if _, ok := ref.BCP(N, cls, ls); !ok {
				return true, nil
			}
			m.Hit("not refuted by propagation")
		}
		sat, _, ok := ref.Solve(N, cls, ls, 20000)
		if !ok {
			return true, nil
		}
		return !sat, nil
	}
	T := int(w.c.T.Dimacs())
	if !unitT {
		if ok, e := refute(-T); e != nil || !ok {
			return pbt.Failf("%s: the constant %d is not fixed", what, T)
		}
	}
	step := 1
	if len(gates) > 60 {
		step = len(gates)/20 + 1
	}
	off := w.r.n(step)
	for k := off; k < len(gates); k += step {
		g := gates[k]
		a0, b0 := w.c.Ins(z.Var(g).Pos())
		a, b := int(a0.Dimacs()), int(b0.Dimacs())
		for _, ls := range [][]int{{g, -a}, {g, -b}, {-g, a, b}} {
			ok, e := refute(ls...)
			if e != nil {
				return e
			}
			if !ok {
				return pbt.Failf("%s: gate %d = And(%d,%d) is not fully defined: %v is possible", what, g, a, b, ls)
			}
		}
	}
	m.Add("gate definitions checked", len(gates)/step)
	return nil
}

// solveCheck asks gini for a root, with the clauses of its cone.
func (w *gw) solveCheck(what string, cls [][]int, roots []int, m *pbt.Meter) error {
	ls := w.leaves()
	g := gini.New()
	for _, c := range cls {
		for _, l := range c {
			g.Add(lit(l))
		}
		g.Add(z.LitNull)
	}
	for _, sr := range roots {
		r := w.lit(sr)
		if int(r.Var()) > 1 { // roots without clauses are free
			g.Assume(r)
		}
		if r == w.c.F {
			g.Assume(r)
		}
		res := g.Solve()
		can := uint64(0)
		exh := len(ls) <= 12
		w.blocks(64, func(leaf func(int) uint64) error {
			can |= sv(w.eval(leaf), sr)
			return nil
		})
		if can != 0 && res != 1 {
			return pbt.Failf("%s: root %s can be true, but solving under it gives %d", what, r, res)
		}
		if can == 0 && exh && res != -1 {
			return pbt.Failf("%s: root %s cannot be true, but solving under it gives %d", what, r, res)
		}
		if res == 1 {
			m.Hit("root sat")
			max := g.MaxVar()
			want := w.eval(func(i int) uint64 {
				if v := w.n[i].lit.Var(); v <= max && g.Value(v.Pos()) {
					return ^uint64(0)
				}
				return 0
			})
			if sv(want, sr) == 0 {
				return pbt.Failf("%s: the model found for root %s makes it false", what, r)
			}
		} else {
			m.Hit("root unsat")
		}
	}
	return nil
}

func (w *gw) cnf(op GOp, m *pbt.Meter) error {
	var roots []int
	var ms []z.Lit
	for _, r := range op.R {
		sr := w.ref(r)
		roots = append(roots, sr)
		ms = append(ms, w.lit(sr))
	}
	rec := &clsRec{}
	switch op.K {
	case "tocnf":
		w.c.ToCnf(rec)
		ms = ms[:0]
		leaf := map[z.Var]bool{}
		for _, i := range w.leaves() {
			leaf[w.n[i].lit.Var()] = true
		}
		for i := 2; i < w.c.Len(); i++ {
			if !leaf[z.Var(i)] {
				ms = append(ms, z.Var(i).Pos())
			}
		}
		if len(roots) == 0 {
			roots = append(roots, w.ref(0))
		}
	case "from":
		w.c.ToCnfFrom(rec, ms...)
	case "since":
		mk := w.mark
		switch op.N % 3 {
		case 1: // spare capacity with stale contents
			d := make([]int8, w.c.Len()+5)
			for i := range d {
				d[i] = 1
			}
			copy(d, mk)
			mk = d[:len(mk)]
		case 2:
			mk = append(make([]int8, 0, len(mk)), mk...)
		}
		was := len(w.acc)
		before := w.cone(w.rootLits())
		nm, k := w.c.CnfSince(rec, mk, ms...)
		w.mark = nm
		w.acc = append(w.acc, rec.cls...)
		w.roots = append(w.roots, roots...)
		fresh := 0
		cone := w.cone(w.rootLits())
		for v := range cone {
			if !before[v] {
				fresh++
			}
		}
		if !w.sinceOn {
			fresh++ // the constant
			w.sinceOn = true
		}
		if (len(rec.cls) > 0) != (fresh > 0) {
			return pbt.Failf("CnfSince with %d nodes to add gave %d clauses", fresh, len(rec.cls))
		}
		if k != fresh {
			return pbt.Failf("CnfSince returned %d nodes added, there were %d to add", k, fresh)
		}
		seen := map[string]bool{}
		for i, c := range w.acc {
			s := fmt.Sprint(c)
			if seen[s] && i >= was {
				return pbt.Failf("CnfSince gave clause %v again", c)
			}
			seen[s] = true
		}
		rec.cls = w.acc
		ms = w.rootLits()
		m.Hit("cnfsince")
		if fresh == 0 {
			m.Hit("cnfsince nothing to add")
		} else if was > 0 {
			m.Hit("cnfsince extended")
		}
	}
	if len(rec.cur) != 0 {
		return pbt.Failf("%s: unfinished clause %v", op.K, rec.cur)
	}
	cone := w.cone(ms)
	if len(cone) > 0 {
		m.Hit("cnf with gates")
	}
	if e := w.cnfCheck(op.K, rec.cls, cone, m); e != nil {
		return e
	}
	return w.solveCheck(op.K, rec.cls, roots, m)
}

func (w *gw) rootLits() []z.Lit {
	var r []z.Lit
	for _, sr := range w.roots {
		r = append(r, w.lit(sr))
	}
	return r
}

func runG(c *GCase, m *pbt.Meter) error {
	ws := []*gw{newGW(c)}
	for k, op := range c.Ops {
		w := ws[op.W%len(ws)]
		done, e := w.build(op)
		if !done {
			switch op.K {
			case "copy":
				if len(ws) < 4 {
					x := w.copy()
					ws = append(ws, x)
					m.Hit("copy")
					e = x.structure(m)
				}
			case "eval":
				e = w.evalCheck(1+op.N, m)
			case "struct":
				e = w.structure(m)
			case "tocnf", "from", "since":
				e = w.cnf(op, m)
			default:
				panic(op.K)
			}
		}
		if e != nil {
			return fmt.Errorf("op %d %s: %w", k, op.K, e)
		}
	}
	for k, w := range ws {
		gates := 0
		for i := range w.n {
			if len(w.n[i].args) > 0 && w.n[i].lit.Var() > 1 {
				gates++
			}
		}
		if gates >= 5 {
			m.Hit("circuit with gates")
		}
		if w.c.Len() > 128 {
			m.Hit("grown circuit")
		}
		if e := w.evalCheck(16, m); e != nil {
			return fmt.Errorf("circuit %d at the end: %w", k, e)
		}
		if e := w.structure(m); e != nil {
			return fmt.Errorf("circuit %d at the end: %w", k, e)
		}
	}
	return nil
}

func genRef(t *pbt.T) int {
	var r int
	switch t.Pick(6, 4, 2, 1) {
	case 0:
		r = t.N(10) << 1
	case 1:
		r = t.N(30) << 1
	case 2:
		r = t.N(200) << 1
	case 3:
		return -1 - t.N(2)
	}
	return r | t.N(2)
}

func genRefs(t *pbt.T, n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = genRef(t)
	}
	if n == 2 && t.P(4) {
		r[1] = r[0] ^ t.N(2)
	}
	return r
}

func genGate(t *pbt.T) GOp {
	op := GOp{}
	switch t.Pick(10, 4, 5, 2, 4, 2, 2, 1) {
	case 0:
		op.K, op.R = "and", genRefs(t, 2)
	case 1:
		op.K, op.R = "or", genRefs(t, 2)
	case 2:
		op.K, op.R = "xor", genRefs(t, 2)
	case 3:
		op.K, op.R = "imp", genRefs(t, 2)
	case 4:
		op.K, op.R = "ite", genRefs(t, 3)
	case 5:
		op.K, op.R = "ands", genRefs(t, t.N(6))
	case 6:
		op.K, op.R = "ors", genRefs(t, t.N(6))
	case 7:
		n := t.N(9)
		op.K, op.R, op.N, op.P = "card", genRefs(t, n), t.N(n+3)-1, t.N(4)
	}
	return op
}

func genG(t *pbt.T, cnf, big bool) *GCase {
	c := &GCase{Cap: t.N(12) - 1, Seed: t.U64(), Seq: t.P(40)}
	if t.P(20) {
		c.Cap = t.N(300)
	}
	nin := 1 + t.N(9)
	if big {
		nin = 2 + t.N(40)
	}
	t.Exactly(nin, func(int) {
		if c.Seq && t.P(40) {
			c.Ops = append(c.Ops, GOp{K: "latch", N: t.N(3)})
		} else {
			c.Ops = append(c.Ops, GOp{K: "in"})
		}
	})
	if big {
		t.Group(func() {
			k := "bulk"
			if t.P(30) {
				k = "chain"
			}
			c.Ops = append(c.Ops, GOp{K: k, N: 100 + t.N(3000)})
		})
	}
	avg := 20
	if t.P(20) {
		avg = 60
	}
	nw := 1
	t.Repeat(2, 200, avg, func(int) {
		var op GOp
		switch t.Pick(60, 3, 3, 3, 2, 1, 1) {
		case 0:
			op = genGate(t)
		case 1:
			op.K = "in"
		case 2:
			op.K, op.N = "latch", t.N(3)
		case 3:
			op.K, op.N, op.R = "next", t.N(20), genRefs(t, 1)
		case 4:
			op.K, op.N, op.P = "init", t.N(20), t.N(3)
		case 5:
			op.K = "copy"
			nw++
		case 6:
			op.K, op.N = "eval", t.N(2)
			if t.Bool() {
				op.K = "struct"
			}
		}
		if nw > 1 {
			op.W = t.N(nw)
		}
		if cnf && t.P(12) {
			op = GOp{K: [...]string{"since", "from", "tocnf"}[t.Pick(6, 3, 1)], W: op.W, N: t.N(3)}
			op.R = genRefs(t, t.N(4))
		}
		c.Ops = append(c.Ops, op)
	})
	if cnf {
		c.Ops = append(c.Ops, GOp{K: "since", R: genRefs(t, 1+t.N(3))})
		if t.P(30) {
			c.Ops = append(c.Ops, GOp{K: "tocnf", R: genRefs(t, 1)})
		}
	}
	return c
}

func gdef(prop, name string, quick, thorough int, rule string, cnf, big bool, nt func(d func(string) int) bool) {
	pbt.Def(prop, name, quick, thorough, rule,
		func(t *pbt.T) *GCase { return genG(t, cnf, big) },
		func(c *GCase, m *pbt.Meter) error {
			m2 := pbt.NewMeter()
			e := runG(c, m2)
			for k, v := range m2.Classes {
				m.Add(k, v)
			}
			if nt(func(s string) int { return m2.Classes[s] }) {
				m.NonTrivial()
			}
			return e
		})
}

func init() {
	gdef("C11", "programs", 300000, 3000000, "construction programs over circuits and their copies, against direct evaluation; non-trivial: a circuit with at least five gates",
		false, false, func(d func(string) int) bool { return d("circuit with gates") > 0 })
	gdef("C11", "large", 4000, 40000, "programs with bulk gates which grow the circuit; non-trivial: more than 128 nodes",
		false, true, func(d func(string) int) bool { return d("grown circuit") > 0 })
	gdef("C12", "programs", 40000, 400000, "construction programs interleaved with CNF generation; non-trivial: gates encoded in more than one CnfSince call",
		true, false, func(d func(string) int) bool { return d("cnfsince extended") > 0 })
	gdef("C12", "large", 400, 4000, "large circuits interleaved with CNF generation; non-trivial: gates encoded",
		true, true, func(d func(string) int) bool { return d("cnf with gates") > 0 })
}
