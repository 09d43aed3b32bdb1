package checks

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/metrics"
	"strconv"
	"strings"

	"ginicheck/pbt"
	"ginicheck/ref"

	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/logic/aiger"
	"github.com/go-air/gini/z"
)

// asys is what an and-inverter system does: its elements as functions of its
// inputs and latches.
type asys struct {
	in, latch int
	init      []int // 0, 1, 2 unspecified
	cnt       [5]int
	just      []int
	names     map[byte]map[int]string
	f         func(in, st []uint64) [][]uint64 // next, out, bad, constraints, fair, justice...
}

func (s *asys) shape() string {
	return fmt.Sprintf("inputs %d latches %d init %v outputs/bad/constraints/fair %v justice %v names %v", s.in, s.latch, s.init, s.cnt[:4], s.just, s.names)
}

func setName(m map[byte]map[int]string, k byte, i int, s string) {
	if m[k] == nil {
		m[k] = map[int]string{}
	}
	m[k][i] = s
}

func sysOfRef(g *ref.Aig) *asys {
	s := &asys{in: g.I, latch: g.L, cnt: [5]int{len(g.Out), len(g.Bad), len(g.Constr), len(g.Fair)}, names: map[byte]map[int]string{}}
	for _, l := range g.Latch {
		s.init = append(s.init, l[2])
	}
	for _, j := range g.Just {
		s.just = append(s.just, len(j))
	}
	for k, m := range g.Sym {
		for i, n := range m {
			setName(s.names, k, i, n)
		}
	}
	s.f = func(in, st []uint64) [][]uint64 {
		v := g.Eval(in, st)
		var next []uint64
		for _, l := range g.Latch {
			next = append(next, v(l[1]))
		}
		r := [][]uint64{next}
		for _, ls := range append([][]int{g.Out, g.Bad, g.Constr, g.Fair}, g.Just...) {
			var x []uint64
			for _, l := range ls {
				x = append(x, v(l))
			}
			r = append(r, x)
		}
		return r
	}
	return s
}

func sysOfT(a *aiger.T, r *rng) (*asys, error) {
	s := &asys{in: len(a.Inputs), latch: len(a.Latches), cnt: [5]int{len(a.Outputs), len(a.Bad), len(a.Constraints), len(a.Fair)}, names: map[byte]map[int]string{}}
	if a.Sys() != a.S {
		return nil, pbt.Failf("Sys gives another system")
	}
	for _, l := range a.Latches {
		switch a.Init(l) {
		case a.S.F:
			s.init = append(s.init, 0)
		case a.S.T:
			s.init = append(s.init, 1)
		case z.LitNull:
			s.init = append(s.init, 2)
		default:
			return nil, pbt.Failf("latch %s has initial value %s", l, a.Init(l))
		}
		if a.S.Type(l) != logic.SLatch || !l.IsPos() {
			return nil, pbt.Failf("listed latch %s is %s", l, a.S.Type(l))
		}
	}
	for _, l := range a.Inputs {
		if a.S.Type(l) != logic.SInput || !l.IsPos() {
			return nil, pbt.Failf("listed input %s is %s", l, a.S.Type(l))
		}
	}
	for _, j := range a.Justice {
		s.just = append(s.just, len(j))
	}
	get := []func(int) (string, bool){a.InputName, a.LatchName, a.OutputName, a.BadName, a.ConstraintName, a.JusticeName, a.FairName}
	num := []int{len(a.Inputs), len(a.Latches), len(a.Outputs), len(a.Bad), len(a.Constraints), len(a.Justice), len(a.Fair)}
	for k, f := range get {
		for i := 0; i < num[k]; i++ {
			if n, ok := f(i); ok {
				setName(s.names, "ilobcjf"[k], i, n)
			}
		}
	}
	lists := append([][]z.Lit{a.Outputs, a.Bad, a.Constraints, a.Fair}, a.Justice...)
	for _, ls := range lists {
		for _, m := range ls {
			if m == z.LitNull || int(m.Var()) >= a.S.Len() {
				return nil, pbt.Failf("literal %d outside the system (Len %d)", m, a.S.Len())
			}
		}
	}
	for _, l := range a.Latches {
		if m := a.Next(l); m == z.LitNull || int(m.Var()) >= a.S.Len() {
			return nil, pbt.Failf("next state literal %d outside the system", m)
		}
	}
	s.f = func(in, st []uint64) [][]uint64 {
		vs := make([]uint64, a.S.Len())
		for i := range vs {
			vs[i] = r.u()
		}
		for i, l := range a.Inputs {
			vs[l.Var()] = in[i]
		}
		for i, l := range a.Latches {
			vs[l.Var()] = st[i]
		}
		a.S.Eval64(vs)
		get := func(m z.Lit) uint64 {
			if m.IsPos() {
				return vs[m.Var()]
			}
			return ^vs[m.Var()]
		}
		var next []uint64
		for _, l := range a.Latches {
			next = append(next, get(a.Next(l)))
		}
		res := [][]uint64{next}
		for _, ls := range lists {
			var x []uint64
			for _, m := range ls {
				x = append(x, get(m))
			}
			res = append(res, x)
		}
		return res
	}
	return s, nil
}

func sameSys(a, b *asys, r *rng) error {
	if a.shape() != b.shape() {
		return pbt.Failf("%s\n  instead of %s", b.shape(), a.shape())
	}
	n := a.in + a.latch
	nb := 4
	if n <= 6 {
		nb = 1
	} else if n <= 9 {
		nb = 1 << (n - 6)
	}
	pat := [6]uint64{0xaaaaaaaaaaaaaaaa, 0xcccccccccccccccc, 0xf0f0f0f0f0f0f0f0, 0xff00ff00ff00ff00, 0xffff0000ffff0000, 0xffffffff00000000}
	for k := 0; k < nb; k++ {
		ws := make([]uint64, n)
		for i := range ws {
			switch {
			case n > 9:
				ws[i] = r.u()
			case i < 6:
				ws[i] = pat[i]
			default:
				ws[i] = -uint64(k >> (i - 6) & 1)
			}
		}
		x, y := a.f(ws[:a.in], ws[a.in:]), b.f(ws[:a.in], ws[a.in:])
		for i := range x {
			for j := range x[i] {
				if x[i][j] != y[i][j] {
					what := "justice"
					if i < 5 {
						what = [...]string{"next state", "output", "bad state", "constraint", "fairness"}[i]
					}
					return pbt.Failf("%s %d differs: %x, should be %x", what, j, y[i][j], x[i][j])
				}
			}
		}
	}
	return nil
}

// AigCase is a system to write and read.
type AigCase struct {
	G      GCase     `json:"g"`
	Make   bool      `json:"make,omitempty"` // inputs by NewIn
	Out    []int     `json:"out,omitempty"`
	Bad    []int     `json:"bad,omitempty"`
	Con    []int     `json:"con,omitempty"`
	Fair   []int     `json:"fair,omitempty"`
	Just   [][]int   `json:"just,omitempty"`
	Names  []aigName `json:"names,omitempty"`
	Fmt    []int     `json:"fmt"` // formats, in turn: 0 ascii, 1 binary
	Ck     Chunks    `json:"ck"`
	Fail   int       `json:"fail,omitempty"`
	Copy   bool      `json:"copy,omitempty"`
	Strict string    `json:"strict,omitempty"` // listed findings without allowance: m, init
}

type aigName struct {
	K int  `json:"k"`
	I int  `json:"i"`
	S Blob `json:"s"`
}

func genName(t *pbt.T) string {
	switch t.Pick(4, 1, 1, 1, 1) {
	case 1:
		return ""
	case 2:
		return [...]string{"c", "0", "i0 x", " lead", "trail ", "c\r", "\x00", "\xff\xfe", "1 2 3"}[t.N(9)]
	case 3:
		return strings.Repeat("n", t.N(9000))
	case 4:
		return randText(t, "abc 01[]%_\t", 12)
	}
	return fmt.Sprintf("n%d", t.N(100))
}

func genAigCase(t *pbt.T) *AigCase {
	c := &AigCase{G: GCase{Cap: t.N(40) - 1, Seq: true, Seed: t.U64()}, Make: t.Bool(), Copy: t.P(20)}
	t.Exactly(t.N(9), func(int) {
		if t.P(40) {
			c.G.Ops = append(c.G.Ops, GOp{K: "latch", N: t.N(3)})
		} else {
			c.G.Ops = append(c.G.Ops, GOp{K: "in"})
		}
	})
	if t.P(2) {
		t.Group(func() { c.G.Ops = append(c.G.Ops, GOp{K: "bulk", N: t.N(600)}) })
	}
	t.Repeat(0, 100, 12, func(int) {
		var op GOp
		switch t.Pick(30, 2, 2, 8, 2) {
		case 0:
			op = genGate(t)
		case 1:
			op.K = "in"
		case 2:
			op.K, op.N = "latch", t.N(3)
		case 3:
			op.K, op.N, op.R = "next", t.N(8), genRefs(t, 1)
		case 4:
			op.K, op.N, op.P = "init", t.N(8), t.N(3)
		}
		c.G.Ops = append(c.G.Ops, op)
	})
	some := func() []int { return genRefs(t, t.Pick(4, 4, 2, 1, 1)) }
	t.Group(func() { c.Out = some() })
	t.Group(func() { c.Bad = some() })
	t.Group(func() { c.Con = some() })
	t.Group(func() { c.Fair = some() })
	t.Exactly(t.Pick(6, 2, 1), func(int) {
		n := t.N(5)
		if t.P(10) {
			n = t.N(30)
		}
		c.Just = append(c.Just, genRefs(t, n))
	})
	t.Exactly(t.Pick(5, 1, 1, 1, 1), func(int) {
		c.Names = append(c.Names, aigName{t.N(7), t.N(6) - 1, Blob(genName(t))})
	})
	t.Exactly(1+t.Pick(3, 3, 1), func(int) { c.Fmt = append(c.Fmt, t.N(2)) })
	c.Ck = genChunks(t, 0, 0)
	if t.P(10) {
		c.Fail = 1 + t.N(300)
	}
	return c
}

func invInit(x []int) []int {
	y := append([]int{}, x...)
	for i, v := range y {
		if v < 2 {
			y[i] = 1 - v
		}
	}
	return y
}

// writtenOK reads a written file independently.
func writtenOK(a *aiger.T, text string, bin bool, strict string, s *asys, r *rng, m *pbt.Meter) (*asys, error) {
	g, e := ref.ParseAiger(text)
	if e != nil && ref.IsOpen(e) && g != nil && bin && strict != "m" && g.M == a.S.Len()-1 {
		// listed finding: M counts the constant
		f := strings.SplitN(text, " ", 3)
		g, e = ref.ParseAiger(fmt.Sprintf("%s %d %s", f[0], g.I+g.L+g.A, f[2]))
		m.Hit("finding: M of a binary file")
	}
	if e != nil {
		return nil, pbt.Failf("what was written is not valid: %v", e)
	}
	if g.Binary != bin {
		return nil, pbt.Failf("the wrong format was written")
	}
	want := *s
	if bin && strict != "init" && fmt.Sprint(sysOfRef(g).init) != fmt.Sprint(s.init) {
		// listed finding: initial values are inverted
		want.init = invInit(s.init)
		m.Hit("finding: initial values of a binary file")
	}
	if e := sameSys(&want, sysOfRef(g), r); e != nil {
		return nil, fmt.Errorf("by the format's rules, what was written differs: %w", e)
	}
	return &want, nil
}

func aigWrite(a *aiger.T, bin bool) (string, error) {
	var b bytes.Buffer
	var e error
	if bin {
		e = a.WriteBinary(&b)
	} else {
		e = a.WriteAscii(&b)
	}
	return b.String(), e
}

func aigRead(text string, ck Chunks, bin bool) (*aiger.T, error) {
	rd := newChunkReader(text, ck)
	if bin {
		return aiger.ReadBinary(rd)
	}
	return aiger.ReadAscii(rd)
}

func runAig(c *AigCase, m *pbt.Meter) error {
	w := newGW(&c.G)
	var a *aiger.T
	if c.Make {
		cp := c.G.Cap
		if cp < 0 {
			cp = 10
		}
		a = aiger.Make(cp)
		w.s = a.S
		w.c = &a.S.C
		w.n[0].lit = w.c.T
		w.in = a.NewIn
	}
	for k, op := range c.G.Ops {
		if _, e := w.build(op); e != nil {
			return fmt.Errorf("op %d %s: %w", k, op.K, e)
		}
	}
	lits := func(rs []int) (sr []int, ms []z.Lit) {
		for _, r := range rs {
			x := w.ref(r)
			sr = append(sr, x)
			ms = append(ms, w.lit(x))
		}
		return
	}
	out, om := lits(c.Out)
	if a == nil {
		a = aiger.MakeFor(w.s, om...)
		for i := range om {
			om[i] = w.s.T // the list is the caller's
		}
	} else {
		for _, x := range om {
			a.SetOutput(x)
		}
	}
	bad, bm := lits(c.Bad)
	con, cm := lits(c.Con)
	fair, fm := lits(c.Fair)
	a.Bad, a.Constraints, a.Fair = append(a.Bad, bm...), append(a.Constraints, cm...), append(a.Fair, fm...)
	s := &asys{cnt: [5]int{len(out), len(bad), len(con), len(fair)}, latch: len(w.latch), names: map[byte]map[int]string{}}
	var just [][]int
	for _, j := range c.Just {
		sr, ms := lits(j)
		just = append(just, sr)
		a.Justice = append(a.Justice, ms)
		s.just = append(s.just, len(sr))
	}
	pos := map[int]int{}
	for i := range w.n {
		if w.n[i].k == 'i' {
			pos[i] = s.in
			s.in++
		}
	}
	for k, i := range w.latch {
		pos[i] = k
		s.init = append(s.init, w.init[i])
	}
	s.f = func(in, st []uint64) [][]uint64 {
		v := w.eval(func(i int) uint64 {
			if w.n[i].k == 'l' {
				return st[pos[i]]
			}
			return in[pos[i]]
		})
		var next []uint64
		for _, i := range w.latch {
			next = append(next, sv(v, w.next[i]))
		}
		r := [][]uint64{next}
		for _, ls := range append([][]int{out, bad, con, fair}, just...) {
			var x []uint64
			for _, l := range ls {
				x = append(x, sv(v, l))
			}
			r = append(r, x)
		}
		return r
	}
	set := []func(int, string) error{a.NameInput, a.NameLatch, a.NameOutput, a.NameBad, a.NameConstraint, a.NameJustice, a.NameFair}
	num := []int{s.in, s.latch, len(out), len(bad), len(con), len(just), len(fair)}
	get := []func(int) (string, bool){a.InputName, a.LatchName, a.OutputName, a.BadName, a.ConstraintName, a.JusticeName, a.FairName}
	for _, n := range c.Names {
		e := set[n.K](n.I, string(n.S))
		ok := n.I >= 0 && n.I < num[n.K]
		if ok != (e == nil) {
			return pbt.Failf("naming %c%d of %d gives error %v", "ilobcjf"[n.K], n.I, num[n.K], e)
		}
		if ok {
			setName(s.names, "ilobcjf"[n.K], n.I, string(n.S))
			h := len(n.S) / 2
			for _, x := range []string{string(n.S) + "\n", "\n" + string(n.S), string(n.S[:h]) + "\n" + string(n.S[h:]), string(n.S) + "\nc"} {
				if e := set[n.K](n.I, x); e == nil {
					return pbt.Failf("a name with a newline was accepted")
				}
			}
			if x, ok := get[n.K](n.I); !ok || x != string(n.S) {
				return pbt.Failf("%c%d is named %q, not %q", "ilobcjf"[n.K], n.I, x, n.S)
			}
			m.Hit("name")
		} else if _, ok := get[n.K](n.I); ok {
			return pbt.Failf("%c%d of %d has a name", "ilobcjf"[n.K], n.I, num[n.K])
		}
	}
	r := w.r
	chk := func(x *aiger.T, s *asys, what string) error {
		y, e := sysOfT(x, r)
		if e == nil {
			e = sameSys(s, y, r)
		}
		if e != nil {
			return fmt.Errorf("%s: %w", what, e)
		}
		return nil
	}
	if e := chk(a, s, "as built"); e != nil {
		return e
	}
	if s.latch > 0 && a.S.Len() > 2+s.in+s.latch && s.cnt[0]+s.cnt[1]+s.cnt[2]+s.cnt[3]+len(s.just) > 1 {
		m.NonTrivial()
		m.Hit("latches, gates and properties")
	}
	if c.Copy {
		b := aiger.Copy(a)
		if e := chk(b, s, "copy"); e != nil {
			return e
		}
		// diverge: the original must not notice
		x := b.NewIn()
		b.SetOutput(x)
		b.Bad = append(b.Bad, x)
		for i := range b.Bad {
			b.Bad[i] = b.S.T
		}
		for i := range b.Constraints {
			b.Constraints[i] = x
		}
		for i := range b.Fair {
			b.Fair[i] = x
		}
		for _, j := range b.Justice {
			for i := range j {
				j[i] = x
			}
		}
		for _, l := range b.Latches {
			b.SetNext(l, x)
			b.SetInit(l, b.S.T)
		}
		b.NameInput(0, "changed")
		b.Latch(b.S.T)
		if e := chk(a, s, "original after its copy was changed"); e != nil {
			return e
		}
		m.Hit("copy")
	}
	cur, cs := a, s
	for k, f := range c.Fmt {
		bin := f == 1
		what := fmt.Sprintf("step %d (%s)", k, map[bool]string{true: "binary", false: "ascii"}[bin])
		text, e := aigWrite(cur, bin)
		if e != nil {
			return fmt.Errorf("%s: write: %w", what, e)
		}
		if e := chk(cur, cs, what+": after writing"); e != nil {
			return e
		}
		ns, e := writtenOK(cur, text, bin, c.Strict, cs, r, m)
		if e != nil {
			return fmt.Errorf("%s: %w\n%q", what, e, cut(text, 600))
		}
		if c.Fail > 0 {
			fw := &failWriter{left: (c.Fail - 1) % (len(text) + 1)}
			var e error
			if bin {
				e = cur.WriteBinary(fw)
			} else {
				e = cur.WriteAscii(fw)
			}
			if e == nil && fw.ok {
				return pbt.Failf("%s: the writer failed, but no error was reported", what)
			}
		}
		if x, e := aigRead(text, c.Ck, !bin); e == nil || x != nil {
			return pbt.Failf("%s: the other format's reader took it", what)
		}
		x, e := aigRead(text, c.Ck, bin)
		if e != nil || x == nil {
			return pbt.Failf("%s: reading what was written: %v\n%q", what, e, cut(text, 600))
		}
		if e := chk(x, ns, what+": read back"); e != nil {
			return fmt.Errorf("%w\n%q", e, cut(text, 600))
		}
		m.Hit("round trip")
		cur, cs = x, ns
	}
	return nil
}

// AigText is a text for the AIGER readers.
type AigText struct {
	Text Blob   `json:"text"`
	Ck   Chunks `json:"ck"`
	Bin  bool   `json:"bin"` // reader
	Seed uint64 `json:"seed"`
}

func genAiger(t *pbt.T) string {
	bin := t.Bool()
	I, L, A := t.N(5), t.N(4), t.N(8)
	if t.P(5) {
		I, A = t.N(40), t.N(300)
	}
	M := I + L + A
	top := M
	if !bin && t.P(40) {
		top = M + t.N(20)
		if t.P(10) {
			top = 1 << (10 + t.N(19))
		}
	}
	// variables of the elements, in definition order
	v := make([]int, M)
	for i := range v {
		v[i] = i + 1
	}
	if !bin && t.P(70) {
		used := map[int]bool{}
		for i := range v {
			x := 1 + t.N(top)
			for used[x] {
				x = x%top + 1
			}
			used[x] = true
			v[i] = x
		}
	}
	l := func(n int) int { // a literal of the first n elements or a constant
		k := t.N(n + 1)
		if t.P(50) {
			k = n - t.N(n+1)
		}
		if k == 0 {
			return t.N(2)
		}
		return 2*v[k-1] + t.N(2)
	}
	var ands [][3]int
	for i := 0; i < A; i++ {
		n := I + L + i
		x, y := l(n), l(n)
		if bin && x < y {
			x, y = y, x
		}
		ands = append(ands, [3]int{2 * v[n], x, y})
	}
	if !bin && t.P(50) {
		for i := len(ands) - 1; i > 0; i-- {
			j := t.N(i + 1)
			ands[i], ands[j] = ands[j], ands[i]
		}
	}
	var body strings.Builder
	p := func(f string, a ...any) { fmt.Fprintf(&body, f, a...) }
	if !bin {
		for i := 0; i < I; i++ {
			p("%d\n", 2*v[i])
		}
	}
	for i := 0; i < L; i++ {
		x := 2 * v[I+i]
		if !bin {
			p("%d ", x)
		}
		p("%d", l(M))
		switch t.N(4) {
		case 0:
			p(" 0")
		case 1:
			p(" 1")
		case 2:
			p(" %d", x)
		}
		p("\n")
	}
	cnt := [5]int{} // O B C J F
	if t.P(80) {
		cnt[0] = t.N(4)
	}
	if t.P(60) {
		for i := 1; i < 5; i++ {
			cnt[i] = t.N(3)
		}
	}
	for k := 0; k < 3; k++ {
		for i := 0; i < cnt[k]; i++ {
			p("%d\n", l(M))
		}
	}
	var sz []int
	for i := 0; i < cnt[3]; i++ {
		n := t.N(5)
		if t.P(10) {
			n = t.N(40)
		}
		sz = append(sz, n)
		p("%d\n", n)
	}
	for _, n := range sz {
		for i := 0; i < n; i++ {
			p("%d\n", l(M))
		}
	}
	for i := 0; i < cnt[4]; i++ {
		p("%d\n", l(M))
	}
	for _, g := range ands {
		if !bin {
			p("%d %d %d\n", g[0], g[1], g[2])
			continue
		}
		for _, d := range []int{g[0] - g[1], g[1] - g[2]} {
			for d >= 0x80 {
				body.WriteByte(byte(d) | 0x80)
				d >>= 7
			}
			body.WriteByte(byte(d))
		}
	}
	num := []int{I, L, cnt[0], cnt[1], cnt[2], cnt[3], cnt[4]}
	for k, n := range num {
		for i := 0; i < n; i++ {
			if t.P(12) {
				nm := strings.ReplaceAll(genName(t), "\n", "")
				p("%c%d %s\n", "ilobcjf"[k], i, nm)
			}
		}
	}
	if t.P(40) {
		p("c\n%s", randText(t, "abc\n 0123\r", 20))
		if t.Bool() {
			p("\n")
		}
	}
	hd := []int{top, I, L, cnt[0], A, cnt[1], cnt[2], cnt[3], cnt[4]}
	n := 9
	for n > 5 && hd[n-1] == 0 && t.P(60) {
		n--
	}
	s := "aag"
	if bin {
		s = "aig"
	}
	for _, x := range hd[:n] {
		s += fmt.Sprintf(" %d", x)
	}
	return s + "\n" + body.String()
}

// otherLit puts another number in the place of a literal, there or everywhere.
func otherLit(t *pbt.T, s string) string {
	ls := strings.Split(s, "\n")
	var M, I, L, O, A int
	fmt.Sscanf(s[4:], "%d %d %d %d %d", &M, &I, &L, &O, &A)
	type tok struct{ i, a, b, v int }
	var ts []tok
	isNum := func(l string) bool { return l != "" && strings.Trim(l, "0123456789 ") == "" }
	for i := 1; i < len(ls) && isNum(ls[i]); i++ {
		l := ls[i]
		for a := 0; a < len(l); a++ {
			if l[a] == ' ' || a > 0 && l[a-1] != ' ' {
				continue
			}
			b := a + 1
			for b < len(l) && l[b] != ' ' {
				b++
			}
			v, e := strconv.Atoi(l[a:b])
			if e == nil {
				ts = append(ts, tok{i, a, b, v})
			}
		}
	}
	if len(ts) == 0 {
		return s
	}
	x := ts[t.N(len(ts))]
	y := 0
	switch t.N(4) {
	case 0:
		y = 2*M + t.N(6)
	case 1:
		y = t.N(3)
	case 2:
		y = x.v ^ 1
	case 3:
		y = ts[t.N(len(ts))].v
	}
	all := t.P(40)
	for k := len(ts) - 1; k >= 0; k-- {
		z := ts[k]
		if all && z.v>>1 == x.v>>1 {
			l := ls[z.i]
			ls[z.i] = l[:z.a] + fmt.Sprint(y^(z.v^x.v)) + l[z.b:]
		} else if z == x {
			l := ls[z.i]
			ls[z.i] = l[:z.a] + fmt.Sprint(y) + l[z.b:]
		}
	}
	return strings.Join(ls, "\n")
}

func genAigText(t *pbt.T, mut bool) *AigText {
	c := &AigText{Seed: t.U64()}
	s := genAiger(t)
	if mut {
		switch t.Pick(20, 4, 3, 2, 8) {
		case 4:
			s = otherLit(t, s)
		case 0:
			s = mutate(t, s, "0123456789 \naigclobjf-\r\x00\x80\xff")
		case 1: // a header number
			f := strings.SplitN(s, "\n", 2)
			h := strings.Split(f[0], " ")
			k := 1 + t.N(len(h)-1)
			switch t.N(4) {
			case 0:
				h[k] = fmt.Sprint(t.N(12))
			case 1:
				h[k] = fmt.Sprint(uint64(1) << t.N(64))
			case 2:
				h[k] = [...]string{"4294967295", "4294967296", "2147483647", "18446744073709551615", "99999999999999999999999", "1000000000", "536870911", "-1"}[t.N(8)]
			case 3:
				h = append(h, fmt.Sprint(t.N(1000)))
			}
			s = strings.Join(h, " ") + "\n" + f[1]
		case 2:
			s = s[:t.N(len(s)+1)]
		case 3:
			s = [...]string{"aag ", "aig ", "aag 1 0 0 0 1\n", "aig 1 1 0 0 0\n", ""}[t.N(5)] + randText(t, "0123 \n\x01\x02\x80c", 30)
		}
	}
	c.Text = Blob(s)
	c.Ck = genChunks(t, len(s), 15)
	c.Bin = strings.HasPrefix(s, "aig")
	if t.P(3) {
		c.Bin = !c.Bin
	}
	return c
}

func allocs() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func runAigText(c *AigText, m *pbt.Meter) error {
	text := string(c.Text)
	g, pe := ref.ParseAiger(text)
	if c.Bin && g == nil {
		// the inputs a binary header declares take memory
		var M, I uint64
		if k, _ := fmt.Sscanf(text, "aig %d %d", &M, &I); k == 2 && I > 1<<20+1<<17 && I < 1<<33 {
			m.Hit("many inputs declared, skipped")
			return nil
		}
	}
	r := &rng{c.Seed}
	before := allocs()
	a, e := aigRead(text, c.Ck, c.Bin)
	used := allocs() - before
	lim := uint64(1<<21 + 4096*len(text) + 1024*nIn(g))
	// the meter counts for the whole process and in spans: measure again
	for i := 0; i < 5 && used > lim; i++ {
		runtime.GC()
		before = allocs()
		aigRead(text, c.Ck, c.Bin)
		used = min(used, allocs()-before)
	}
	if used > lim {
		return pbt.Failf("reading %d bytes allocated %d bytes", len(text), used)
	}
	if (a == nil) == (e == nil) {
		return pbt.Failf("the reader gave %v and error %v", a != nil, e)
	}
	fault := c.Ck.ErrAt > 0 && c.Ck.ErrAt-1 <= len(text)
	if fault {
		m.Hit("read fault")
		if e == nil {
			return pbt.Failf("the reader failed after %d of %d bytes, but no error was reported", c.Ck.ErrAt-1, len(text))
		}
		return nil
	}
	valid := pe == nil && g.Binary == c.Bin
	switch {
	case valid:
		m.Hit("valid")
		m.NonTrivial()
		if e != nil {
			return pbt.Failf("a valid file was refused: %v", e)
		}
	case pe != nil && ref.IsOpen(pe):
		m.Hit("open")
		if e == nil {
			m.Hit("open accepted")
		}
	default:
		m.Hit("malformed")
		if len(text) > 12 {
			m.NonTrivial()
		}
		if e == nil {
			return pbt.Failf("a malformed file was accepted (%v)", pe)
		}
	}
	if e != nil {
		return nil
	}
	s, e := sysOfT(a, r)
	if e != nil {
		return e
	}
	if valid {
		if e := sameSys(sysOfRef(g), s, r); e != nil {
			return fmt.Errorf("read wrongly: %w", e)
		}
	}
	// usable: it can be written and read
	for _, bin := range []bool{false, true} {
		out, e := aigWrite(a, bin)
		if e != nil {
			return e
		}
		if _, e := writtenOK(a, out, bin, "", s, r, m); e != nil {
			return fmt.Errorf("what was read is not written well: %w\n%q", e, cut(out, 400))
		}
		b, e := aigRead(out, Chunks{}, bin)
		if e != nil {
			return pbt.Failf("what was read cannot be written and read again (binary %v): %v\n%q", bin, e, cut(out, 400))
		}
		s2, e := sysOfT(b, r)
		if e != nil {
			return e
		}
		want := *s
		if bin && fmt.Sprint(s.init) != fmt.Sprint(s2.init) {
			want.init = invInit(s.init)
		}
		if e := sameSys(&want, s2, r); e != nil {
			return fmt.Errorf("written (binary %v) and read again: %w", bin, e)
		}
	}
	return nil
}

func nIn(g *ref.Aig) int {
	if g == nil {
		return 0
	}
	return g.I
}

func init() {
	pbt.Def("C15", "roundtrip", 150000, 1500000, "random systems with all element kinds written and read in sequences of formats, against an independent reader; non-trivial: latches, gates and several properties", genAigCase, runAig)
	pbt.Def("C16", "valid", 200000, 2000000, "hand-laid-out valid files under chunked and failing readers, against an independent reader; non-trivial: a valid file", func(t *pbt.T) *AigText { return genAigText(t, false) }, runAigText)
	pbt.Def("C16", "corrupt", 300000, 3000000, "mutated, truncated and random files; non-trivial: valid or malformed beyond the first bytes", func(t *pbt.T) *AigText { return genAigText(t, true) }, runAigText)
}
