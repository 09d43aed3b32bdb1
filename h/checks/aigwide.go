package checks

import (
	"fmt"
	"math/bits"
	"strings"

	"ginicheck/pbt"
	"ginicheck/ref"

	"github.com/go-air/gini/logic/aiger"
	"github.com/go-air/gini/z"
)

// WideCase is a system with many variables: numbers of all lengths in files.
type WideCase struct {
	I    int    `json:"i"`
	L    int    `json:"l"`
	A    int    `json:"a"`
	P    [5]int `json:"p"`   // outputs, bad states, constraints, fairness, justice
	Mix  int    `json:"mix"` // order of the elements: 0 by kind, 1 latches first, 2 mixed
	Near int    `json:"near"`
	Bin  bool   `json:"bin"`
	Seed uint64 `json:"seed"`
	Ck   Chunks `json:"ck"`
}

func genWide(t *pbt.T) *WideCase {
	lg := func(max int) int { // log scale
		k := t.N(max + 1)
		return 1<<k>>1 + t.N(1<<k>>1+1)
	}
	c := &WideCase{Seed: t.U64(), Mix: t.N(3), Near: t.N(100), Bin: t.P(70)}
	c.I = lg(17)
	if t.P(30) {
		c.I = 1<<(12+t.N(5)) + t.N(1<<13)
	}
	if t.P(1) {
		c.I = 1<<20 + t.N(1<<16)
	}
	c.L, c.A = lg(5), lg(6)
	switch t.Pick(4, 1, 1) {
	case 1:
		c.L, c.I = lg(14), lg(5)
	case 2:
		c.A, c.I = lg(14), 1+lg(5)
	}
	if c.I > 1<<20 {
		c.A += 100
	}
	for i := range c.P {
		c.P[i] = t.N(4)
	}
	c.Ck = genChunks(t, 0, 0)
	return c
}

// wide is the system of a case: elements in order, literals 2*element+sign,
// element 0 is the constant false.
type wide struct {
	k    []byte
	ops  [][2]int // of gates
	in   []int
	ls   []int
	next []int
	init []int
	p    [5][]int
	just [][]int
}

func (c *WideCase) make(mix int) *wide {
	r := &rng{c.Seed}
	w := &wide{k: []byte{'0'}, ops: [][2]int{{}}}
	left := [3]int{c.I, c.L, c.A}
	lit := func(n int) int { // of elements 0..n-1
		x := 0
		switch k := r.n(100); {
		case k < 3 || n == 1:
			return r.n(2)
		case k < 3+c.Near*9/10:
			x = n - 1 - r.n(n)>>r.n(bits.Len(uint(n)))
		case k > 90: // at differences about 128^j
			x = n - 1<<(7*(1+r.n(3)))>>1 - r.n(70)
			x = max(0, x+r.n(5))
			x = min(x, n-1)
		case k&1 == 0:
			x = r.n(n) >> r.n(bits.Len(uint(n)))
		default:
			x = r.n(n)
		}
		return 2*x + r.n(2)
	}
	add := func(k int) {
		left[k]--
		n := len(w.k)
		w.k = append(w.k, "ila"[k])
		switch k {
		case 0:
			w.in = append(w.in, n)
		case 1:
			w.ls = append(w.ls, n)
			w.init = append(w.init, r.n(3))
		}
		o := [2]int{}
		if k == 2 {
			o = [2]int{lit(n), lit(n)}
		}
		w.ops = append(w.ops, o)
	}
	ord := []int{0, 1, 2}
	if mix == 1 {
		ord = []int{1, 0, 2}
	}
	for mix == 2 && left[0]+left[1]+left[2] > 0 {
		x := r.n(left[0] + left[1] + left[2])
		switch {
		case x < left[0]:
			add(0)
		case x < left[0]+left[1]:
			add(1)
		default:
			add(2)
		}
	}
	for _, k := range ord {
		for left[k] > 0 {
			add(k)
		}
	}
	for range w.ls {
		w.next = append(w.next, lit(len(w.k)))
	}
	for i := range w.p {
		for j := 0; j < c.P[i]; j++ {
			if i == 4 {
				var js []int
				for n := r.n(4); n > 0; n-- {
					js = append(js, lit(len(w.k)))
				}
				w.just = append(w.just, js)
				continue
			}
			w.p[i] = append(w.p[i], lit(len(w.k)))
		}
	}
	return w
}

func (w *wide) sys() *asys {
	s := &asys{in: len(w.in), latch: len(w.ls), init: w.init, names: map[byte]map[int]string{}}
	for i, p := range w.p[:4] {
		s.cnt[i] = len(p)
	}
	for _, j := range w.just {
		s.just = append(s.just, len(j))
	}
	s.f = func(in, st []uint64) [][]uint64 {
		v := make([]uint64, len(w.k))
		get := func(l int) uint64 { return v[l>>1] ^ -uint64(l&1) }
		gets := func(ls []int) (x []uint64) {
			for _, l := range ls {
				x = append(x, get(l))
			}
			return
		}
		i, l := 0, 0
		for n, k := range w.k {
			switch k {
			case 'i':
				v[n] = in[i]
				i++
			case 'l':
				v[n] = st[l]
				l++
			case 'a':
				v[n] = get(w.ops[n][0]) & get(w.ops[n][1])
			}
		}
		res := [][]uint64{gets(w.next)}
		for _, p := range append(append([][]int{}, w.p[:4]...), w.just...) {
			res = append(res, gets(p))
		}
		return res
	}
	return s
}

// text lays the system out by the format's rules; elements are in order of
// their kinds.
func (w *wide) text(bin bool) string {
	var b strings.Builder
	p := func(f string, a ...any) { fmt.Fprintf(&b, f, a...) }
	nA := len(w.k) - 1 - len(w.in) - len(w.ls)
	p("%s %d %d %d %d %d %d %d %d %d\n", map[bool]string{true: "aig", false: "aag"}[bin], len(w.k)-1, len(w.in), len(w.ls), len(w.p[0]), nA, len(w.p[1]), len(w.p[2]), len(w.just), len(w.p[3]))
	if !bin {
		for _, i := range w.in {
			p("%d\n", 2*i)
		}
	}
	for i, l := range w.ls {
		if !bin {
			p("%d ", 2*l)
		}
		p("%d", w.next[i])
		if x := w.init[i]; x == 2 {
			p(" %d", 2*l)
		} else if x == 1 || i%2 == 0 {
			p(" %d", x)
		}
		p("\n")
	}
	list := func(ls []int) {
		for _, l := range ls {
			p("%d\n", l)
		}
	}
	for _, ls := range w.p[:3] {
		list(ls)
	}
	for _, j := range w.just {
		p("%d\n", len(j))
	}
	for _, j := range w.just {
		list(j)
	}
	list(w.p[3])
	for n, k := range w.k {
		if k != 'a' {
			continue
		}
		x, y := w.ops[n][0], w.ops[n][1]
		if !bin {
			p("%d %d %d\n", 2*n, x, y)
			continue
		}
		if x < y {
			x, y = y, x
		}
		for _, d := range []int{2*n - x, x - y} {
			for d >= 0x80 {
				b.WriteByte(byte(d) | 0x80)
				d >>= 7
			}
			b.WriteByte(byte(d))
		}
	}
	return b.String()
}

// build makes the system by calls.
func (w *wide) build(mk bool) *aiger.T {
	a := aiger.Make(128)
	lits := make([]z.Lit, len(w.k))
	lits[0] = a.S.F
	get := func(l int) z.Lit {
		if l&1 == 1 {
			return lits[l>>1].Not()
		}
		return lits[l>>1]
	}
	for n, k := range w.k {
		switch k {
		case 'i':
			if mk {
				lits[n] = a.NewIn()
			} else {
				lits[n] = a.S.Lit()
			}
		case 'l':
			lits[n] = a.S.Latch(a.S.F)
		case 'a':
			lits[n] = a.S.And(get(w.ops[n][0]), get(w.ops[n][1]))
		}
	}
	for i, l := range w.ls {
		a.S.SetNext(lits[l], get(w.next[i]))
		a.S.SetInit(lits[l], [...]z.Lit{a.S.F, a.S.T, z.LitNull}[w.init[i]])
	}
	gets := func(ls []int) (ms []z.Lit) {
		for _, l := range ls {
			ms = append(ms, get(l))
		}
		return
	}
	if mk {
		for _, m := range gets(w.p[0]) {
			a.SetOutput(m)
		}
	} else {
		a = aiger.MakeFor(a.S, gets(w.p[0])...)
	}
	a.Bad = append(a.Bad, gets(w.p[1])...)
	a.Constraints = append(a.Constraints, gets(w.p[2])...)
	a.Fair = append(a.Fair, gets(w.p[3])...)
	for _, j := range w.just {
		a.Justice = append(a.Justice, gets(j))
	}
	return a
}

// hits counts how long the numbers got.
func (w *wide) hits(m *pbt.Meter) {
	d := 0
	for n, k := range w.k {
		if k == 'a' {
			x, y := max(w.ops[n][0], w.ops[n][1]), min(w.ops[n][0], w.ops[n][1])
			d = max(d, 2*n-x, x-y)
		}
	}
	m.Hit(fmt.Sprintf("differences of %d bytes", max(1, (bits.Len(uint(d))+6)/7)))
	if d >= 1<<14 {
		m.NonTrivial()
	}
	if len(w.k) > 1000 {
		m.Hit("over 1000 elements")
	}
}

func runWide(c *WideCase, m *pbt.Meter) error {
	w := c.make(c.Mix)
	w.hits(m)
	r := &rng{c.Seed ^ 77}
	a := w.build(c.Seed&1 == 0)
	s := w.sys()
	chk := func(x *aiger.T, s *asys, what string) error {
		y, e := sysOfT(x, r)
		if e == nil {
			e = sameSys(s, y, r)
		}
		if e != nil {
			return fmt.Errorf("%s: %w", what, e)
		}
		return nil
	}
	if e := chk(a, s, "as built"); e != nil {
		return e
	}
	for k, bin := range []bool{c.Bin, !c.Bin} {
		if k == 1 && len(w.k) > 1<<15 && c.Seed%8 != 0 {
			break
		}
		what := map[bool]string{true: "binary", false: "ascii"}[bin]
		text, e := aigWrite(a, bin)
		if e != nil {
			return fmt.Errorf("%s: write: %w", what, e)
		}
		ns, e := writtenOK(a, text, bin, "", s, r, m)
		if e != nil {
			return fmt.Errorf("%s: %w\n%q", what, e, cut(text, 600))
		}
		x, e := aigRead(text, c.Ck, bin)
		if e != nil || x == nil {
			return pbt.Failf("%s: reading what was written: %v\n%q", what, e, cut(text, 600))
		}
		if e := chk(x, ns, what+": read back"); e != nil {
			return e
		}
		m.Hit("round trip")
	}
	return nil
}

func runWideText(c *WideCase, m *pbt.Meter) error {
	w := c.make(0)
	w.hits(m)
	text := w.text(c.Bin)
	if g, e := ref.ParseAiger(text); e != nil {
		return fmt.Errorf("the generated file is not valid: %w", e)
	} else if e := sameSys(w.sys(), sysOfRef(g), &rng{c.Seed ^ 5}); e != nil {
		return fmt.Errorf("the generated file is another system: %w", e)
	}
	return runAigText(&AigText{Text: Blob(text), Ck: c.Ck, Bin: c.Bin, Seed: c.Seed}, m)
}

func init() {
	pbt.Def("C15", "wide", 1200, 8000, "systems with up to 2^21 variables and operands at all distances, written and read; non-trivial: a gate with an operand difference of three bytes or more", genWide, runWide)
	pbt.Def("C16", "wide", 1000, 8000, "laid-out files of systems with up to 2^21 variables and operands at all distances; non-trivial: valid", genWide, runWideText)
}
