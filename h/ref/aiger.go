package ref

import (
	"errors"
	"fmt"
)

// Aig is an AIGER file, read by the rules of the format (version 1.9).
type Aig struct {
	Binary           bool
	M, I, L, O, A    int
	B, C, J, F       int
	In               []int
	Latch            [][3]int // literal, next, init (0, 1, 2: unspecified)
	Out, Bad, Constr []int
	Just             [][]int
	Fair             []int
	And              map[int][2]int // variable: operands
	Order            []int          // gate variables, operands first
	Sym              map[byte]map[int]string
	Comment          string
	HasComment       bool
}

// AigErr says why a text is no AIGER file.  Open errors concern texts which a
// lenient reader may accept.
type AigErr struct {
	Open bool
	Msg  string
}

func (e *AigErr) Error() string { return e.Msg }

type aigRd struct {
	s string
	i int
}

func aigBad(f string, a ...any) error  { return &AigErr{false, fmt.Sprintf(f, a...)} }
func aigOpen(f string, a ...any) error { return &AigErr{true, fmt.Sprintf(f, a...)} }

// IsOpen tells whether e is an open AigErr.
func IsOpen(e error) bool {
	var x *AigErr
	return errors.As(e, &x) && x.Open
}

func (r *aigRd) num() (int, error) {
	j := r.i
	for j < len(r.s) && r.s[j] >= '0' && r.s[j] <= '9' {
		j++
	}
	if j == len(r.s) {
		return 0, aigBad("the text ends where a number must end")
	}
	if j == r.i {
		if c := r.s[j]; c == ' ' || c == '\t' || c == '\r' {
			return 0, aigOpen("white space for a number at %d", j)
		}
		return 0, aigBad("no number at %d", r.i)
	}
	t := r.s[r.i:j]
	if len(t) > 1 && t[0] == '0' {
		return 0, aigOpen("leading zero")
	}
	if len(t) > 18 {
		return 0, aigOpen("huge number")
	}
	n := 0
	for _, c := range []byte(t) {
		n = n*10 + int(c-'0')
	}
	r.i = j
	return n, nil
}

func (r *aigRd) ch(c byte) error {
	if r.i >= len(r.s) {
		return aigBad("the text ends early")
	}
	if r.s[r.i] != c {
		if d := r.s[r.i]; d == ' ' || d == '\t' || d == '\r' {
			return aigOpen("spacing")
		}
		return aigBad("unexpected byte %q at %d", r.s[r.i], r.i)
	}
	r.i++
	return nil
}

// ParseAiger reads one file.
func ParseAiger(s string) (*Aig, error) {
	g := &Aig{And: map[int][2]int{}, Sym: map[byte]map[int]string{}}
	r := &aigRd{s: s}
	switch {
	case len(s) >= 4 && s[:4] == "aag ":
	case len(s) >= 4 && s[:4] == "aig ":
		g.Binary = true
	case len(s) >= 4 && (s[:3] == "aag" || s[:3] == "aig") && (s[3] == '\t' || s[3] == '\r'):
		return nil, aigOpen("spacing")
	default:
		return nil, aigBad("no header")
	}
	r.i = 3
	var h [9]int
	k := 0
	for {
		if r.i < len(s) && s[r.i] == '\n' {
			r.i++
			break
		}
		if e := r.ch(' '); e != nil {
			return nil, e
		}
		if k == 9 {
			return nil, aigBad("more than nine numbers in the header")
		}
		n, e := r.num()
		if e != nil {
			return nil, e
		}
		h[k] = n
		k++
	}
	if k < 5 {
		return nil, aigBad("less than five numbers in the header")
	}
	g.M, g.I, g.L, g.O, g.A, g.B, g.C, g.J, g.F = h[0], h[1], h[2], h[3], h[4], h[5], h[6], h[7], h[8]
	var open error
	for _, n := range h {
		if n > 1<<29 {
			open = aigOpen("numbers beyond what the solver's variables can hold")
		}
	}
	if open == nil && g.M < g.I+g.L+g.A {
		return nil, aigBad("M is too small")
	}
	if open == nil && g.Binary && g.M != g.I+g.L+g.A {
		open = aigOpen("M is not I+L+A")
	}
	note := func(e error) {
		if open == nil {
			open = e
		}
	}
	def := map[int]bool{0: true}
	define := func(l int) error {
		if l&1 == 1 {
			return aigBad("definition of a negated literal %d", l)
		}
		if l < 2 {
			note(aigOpen("definition of the constant"))
		}
		if l > 2*g.M+1 {
			return aigBad("literal %d out of bounds", l)
		}
		if def[l>>1] {
			note(aigOpen("literal %d defined twice", l))
		}
		def[l>>1] = true
		return nil
	}
	lit := func() (int, error) {
		n, e := r.num()
		if e != nil {
			return 0, e
		}
		if n > 2*g.M+1 {
			return 0, aigBad("literal %d out of bounds", n)
		}
		return n, nil
	}
	if g.Binary && g.I > 1<<20+1<<17 {
		return nil, aigOpen("too many inputs")
	}
	for i := 0; i < g.I; i++ {
		l := 2 * (i + 1)
		if !g.Binary {
			var e error
			if l, e = lit(); e != nil {
				return nil, e
			}
			if e = r.ch('\n'); e != nil {
				return nil, e
			}
		}
		if e := define(l); e != nil {
			return nil, e
		}
		g.In = append(g.In, l)
	}
	for i := 0; i < g.L; i++ {
		l := 2 * (g.I + i + 1)
		var e error
		if !g.Binary {
			if l, e = lit(); e != nil {
				return nil, e
			}
			if e = r.ch(' '); e != nil {
				return nil, e
			}
		}
		if e := define(l); e != nil {
			return nil, e
		}
		n, e := lit()
		if e != nil {
			return nil, e
		}
		init := 0
		if r.i < len(s) && s[r.i] == ' ' {
			r.i++
			if init, e = r.num(); e != nil {
				return nil, e
			}
			switch init {
			case 0, 1:
			case l:
				init = 2
			default:
				return nil, aigBad("initial value %d of latch %d", init, l)
			}
		}
		if e = r.ch('\n'); e != nil {
			return nil, e
		}
		g.Latch = append(g.Latch, [3]int{l, n, init})
	}
	list := func(n int) (ls []int, e error) {
		for i := 0; i < n; i++ {
			l, e := lit()
			if e != nil {
				return nil, e
			}
			if e = r.ch('\n'); e != nil {
				return nil, e
			}
			ls = append(ls, l)
		}
		return
	}
	var e error
	if g.Out, e = list(g.O); e != nil {
		return nil, e
	}
	if g.Bad, e = list(g.B); e != nil {
		return nil, e
	}
	if g.Constr, e = list(g.C); e != nil {
		return nil, e
	}
	var sz []int
	for i := 0; i < g.J; i++ {
		n, e := r.num()
		if e != nil {
			return nil, e
		}
		if e = r.ch('\n'); e != nil {
			return nil, e
		}
		sz = append(sz, n)
	}
	for _, n := range sz {
		ls, e := list(n)
		if e != nil {
			return nil, e
		}
		g.Just = append(g.Just, ls)
	}
	if g.Fair, e = list(g.F); e != nil {
		return nil, e
	}
	leb := func() (int, error) {
		v, sh := 0, 0
		for {
			if r.i >= len(s) {
				return 0, aigBad("the text ends in a gate")
			}
			b := s[r.i]
			r.i++
			if sh > 56 {
				return 0, aigOpen("overlong delta")
			}
			v |= int(b&0x7f) << sh
			sh += 7
			if b < 0x80 {
				if b == 0 && sh > 7 {
					note(aigOpen("padded delta"))
				}
				return v, nil
			}
		}
	}
	for i := 0; i < g.A; i++ {
		if g.Binary {
			l := 2 * (g.I + g.L + i + 1)
			d0, e := leb()
			if e != nil {
				return nil, e
			}
			d1, e := leb()
			if e != nil {
				return nil, e
			}
			if d0 == 0 || d0 > l || d1 > l-d0 {
				return nil, aigBad("gate %d with deltas %d %d", l, d0, d1)
			}
			def[l>>1] = true
			g.And[l>>1] = [2]int{l - d0, l - d0 - d1}
			continue
		}
		l, e := lit()
		if e != nil {
			return nil, e
		}
		if e = r.ch(' '); e != nil {
			return nil, e
		}
		a, e := lit()
		if e != nil {
			return nil, e
		}
		if e = r.ch(' '); e != nil {
			return nil, e
		}
		b, e := lit()
		if e != nil {
			return nil, e
		}
		if e = r.ch('\n'); e != nil {
			return nil, e
		}
		if l > 1 && def[l>>1] {
			return nil, aigBad("gate %d redefines", l)
		}
		if e = define(l); e != nil {
			return nil, e
		}
		g.And[l>>1] = [2]int{a, b}
	}
	use := func(l int) error {
		if !def[l>>1] {
			return aigBad("literal %d is not defined", l)
		}
		return nil
	}
	for _, l := range g.Latch {
		if e := use(l[1]); e != nil {
			return nil, e
		}
	}
	lists := append([][]int{g.Out, g.Bad, g.Constr, g.Fair}, g.Just...)
	for _, ls := range lists {
		for _, l := range ls {
			if e := use(l); e != nil {
				return nil, e
			}
		}
	}
	for _, ab := range g.And {
		for _, l := range ab {
			if e := use(l); e != nil {
				return nil, e
			}
		}
	}
	// order, loops
	col := map[int]int{}
	var vis func(v int) bool
	vis = func(v int) bool {
		ab, ok := g.And[v]
		if !ok || col[v] == 2 {
			return true
		}
		if col[v] == 1 {
			return false
		}
		col[v] = 1
		if !vis(ab[0]>>1) || !vis(ab[1]>>1) {
			return false
		}
		col[v] = 2
		g.Order = append(g.Order, v)
		return true
	}
	for v := range g.And {
		if !vis(v) {
			if open != nil {
				return nil, open
			}
			return nil, aigBad("gates in a loop")
		}
	}
	// symbols
	cnt := map[byte]int{'i': g.I, 'l': g.L, 'o': g.O, 'b': g.B, 'c': g.C, 'j': g.J, 'f': g.F}
	for r.i < len(s) {
		c := s[r.i]
		n, ok := cnt[c]
		if !ok {
			return nil, aigOpen("unexpected byte %q in the symbol table", c)
		}
		r.i++
		if c == 'c' && r.i < len(s) && s[r.i] == '\n' {
			g.Comment, g.HasComment = s[r.i+1:], true
			break
		}
		k, e := r.num()
		if e != nil {
			return nil, aigOpen("symbol table: %v", e)
		}
		if e := r.ch(' '); e != nil {
			return nil, aigOpen("symbol table: %v", e)
		}
		j := r.i
		for j < len(s) && s[j] != '\n' {
			j++
		}
		if j == len(s) {
			return nil, aigOpen("unfinished symbol")
		}
		if k >= n {
			return nil, aigOpen("symbol %c%d of %d", c, k, n)
		}
		if g.Sym[c] == nil {
			g.Sym[c] = map[int]string{}
		}
		if _, ok := g.Sym[c][k]; ok {
			note(aigOpen("symbol given twice"))
		}
		g.Sym[c][k] = s[r.i:j]
		r.i = j + 1
	}
	if open != nil {
		return g, open
	}
	return g, nil
}

// Eval gives all literal values from input and latch words.
func (g *Aig) Eval(in, st []uint64) func(l int) uint64 {
	v := map[int]uint64{0: 0}
	for i, l := range g.In {
		v[l>>1] = in[i]
	}
	for i, l := range g.Latch {
		v[l[0]>>1] = st[i]
	}
	get := func(l int) uint64 {
		x := v[l>>1]
		if l&1 == 1 {
			return ^x
		}
		return x
	}
	for _, x := range g.Order {
		ab := g.And[x]
		v[x] = get(ab[0]) & get(ab[1])
	}
	return get
}
