package checks

import (
	"fmt"
	"math/rand"
	"slices"
	"sort"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/gen"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"

	"ginicheck/pbt"
)

// GenCase is one call of a generator.
type GenCase struct {
	K      string `json:"k"`
	N      int    `json:"n"`
	M      int    `json:"m,omitempty"`
	C      int    `json:"c,omitempty"`
	Seed   uint64 `json:"seed"`
	Strict bool   `json:"strict,omitempty"`
}

// recAdd records clauses.
type recAdd struct {
	cls  [][]int
	cur  []int
	also inter.Adder
}

func (r *recAdd) Add(m z.Lit) {
	if r.also != nil {
		r.also.Add(m)
	}
	if m == z.LitNull {
		r.cls = append(r.cls, r.cur)
		r.cur = nil
		return
	}
	r.cur = append(r.cur, m.Dimacs())
}

func (r *recAdd) maxVar() int {
	mx := 0
	for _, c := range r.cls {
		for _, l := range c {
			mx = max(mx, abs(l))
		}
	}
	return mx
}

// holds evaluates the clauses.
func (r *recAdd) holds(val func(v int) bool) bool {
	for _, c := range r.cls {
		ok := false
		for _, l := range c {
			ok = ok || val(abs(l)) == (l > 0)
		}
		if !ok {
			return false
		}
	}
	return true
}

func genGen(t *pbt.T) *GenCase {
	c := &GenCase{Seed: t.U64()}
	switch t.Pick(3, 4, 3, 4, 3, 2, 2, 3, 1) {
	case 0:
		c.K, c.N, c.M = "rand3", 3+t.N([]int{4, 20, 200}[t.N(3)]), t.N(400)
		if t.P(20) {
			c.N, c.M = 3+t.N(10), 600
		}
		if t.P(20) {
			c.M = -1 // HardRand3Cnf
		}
	case 1:
		c.K, c.N, c.M = "php", t.N(7), t.N(7)
		if t.P(10) {
			c.N, c.M = t.N(20), t.N(20)
		}
	case 2:
		c.K, c.N, c.M = "part", t.N(8), t.N(6)
		if t.P(10) {
			c.N, c.M = t.N(40), t.N(10)
		}
	case 3:
		c.K, c.N, c.C = "color", 1+t.N([]int{4, 7, 14}[t.N(3)]), 1+t.N(5)
		if t.P(2) {
			c.N = 15 + t.N(80)
		}
		c.M = t.N(c.N*(c.N-1)/2 + 1)
	case 4:
		c.K, c.N, c.M = "py", t.N([]int{8, 30, 90}[t.N(3)]), t.N(4)
	case 5:
		c.K, c.N = "py2", t.N([]int{8, 40, 200}[t.N(3)])
	case 6:
		c.K, c.N = "cycle", t.N(60)
	case 7:
		c.K, c.N, c.M = "cuber", 1+t.N(30), 1+t.N(12)
	case 8:
		c.K, c.N = "graph", t.N(40)
		c.M = t.N(c.N*(c.N-1)/2 + 3)
	}
	return c
}

func checkGraph(g [][]int, n, m int) error {
	if m > n*(n-1)/2 {
		if g != nil {
			return pbt.Failf("a graph with %d nodes and %d edges: %v", n, m, g)
		}
		return nil
	}
	if len(g) != n {
		return pbt.Failf("%d nodes, want %d", len(g), n)
	}
	adj := map[[2]int]bool{}
	for a, es := range g {
		for _, b := range es {
			if b < 0 || b >= n || a == b || adj[[2]int{a, b}] {
				return pbt.Failf("edge %d-%d of %v", a, b, g)
			}
			adj[[2]int{a, b}] = true
		}
	}
	if len(adj) != 2*m {
		return pbt.Failf("%d edges (both ways), want 2*%d", len(adj), m)
	}
	for e := range adj {
		if !adj[[2]int{e[1], e[0]}] {
			return pbt.Failf("edge %v one way only", e)
		}
	}
	return nil
}

// colorGraph recovers the graph of a coloring formula: every node has a clause of
// k variables, every edge forbids the same color at both ends.
func colorGraph(r *recAdd, n, m, k int) (node map[int]int, color map[int]int, g [][]int, err error) {
	node, color = map[int]int{}, map[int]int{}
	nn := 0
	for _, c := range r.cls {
		if len(c) == 0 || c[0] > 0 {
			if len(c) != k {
				return nil, nil, nil, pbt.Failf("a node has %d colors", len(c))
			}
			for _, l := range c {
				if _, ok := node[l]; ok || l < 0 {
					return nil, nil, nil, pbt.Failf("node clause %v", c)
				}
				node[l] = nn
			}
			nn++
		}
	}
	if nn != n {
		return nil, nil, nil, pbt.Failf("%d nodes, want %d", nn, n)
	}
	con := map[int]map[int]bool{}
	for _, c := range r.cls {
		if len(c) == 0 || c[0] > 0 {
			continue
		}
		if len(c) != 2 || c[1] > 0 {
			return nil, nil, nil, pbt.Failf("clause %v", c)
		}
		a, b := -c[0], -c[1]
		na, ok := node[a]
		nb, ok2 := node[b]
		if !ok || !ok2 {
			return nil, nil, nil, pbt.Failf("clause %v has no node", c)
		}
		if na == nb {
			continue // at most one color
		}
		for i := 0; i < 2; i++ {
			if con[a] == nil {
				con[a] = map[int]bool{}
			}
			con[a][b] = true
			a, b = b, a
		}
	}
	g = make([][]int, n)
	seen := map[[2]int]bool{}
	for a, bs := range con {
		for b := range bs {
			e := [2]int{node[a], node[b]}
			if !seen[e] {
				seen[e] = true
				g[e[0]] = append(g[e[0]], e[1])
			}
		}
	}
	// every variable of a node conflicts with exactly one of each neighbour
	for a, nd := range node {
		cnt := map[int]int{}
		for b := range con[a] {
			cnt[node[b]]++
		}
		for _, b := range g[nd] {
			if cnt[b] != 1 {
				return nil, nil, nil, pbt.Failf("variable %d of node %d excludes %d variables of its neighbour %d", a, nd, cnt[b], b)
			}
		}
	}
	// the connected conflicts are one color
	nc := 0
	for a := range node {
		if _, ok := color[a]; ok {
			continue
		}
		nc++
		todo := []int{a}
		at := map[int]int{}
		for len(todo) > 0 {
			x := todo[len(todo)-1]
			todo = todo[:len(todo)-1]
			if _, ok := color[x]; ok {
				continue
			}
			if y, ok := at[node[x]]; ok {
				return nil, nil, nil, pbt.Failf("colors %d and %d of node %d are mixed up", x, y, node[x])
			}
			at[node[x]] = x
			color[x] = nc
			for b := range con[x] {
				todo = append(todo, b)
			}
		}
	}
	for i := range g {
		sort.Ints(g[i])
	}
	return node, color, g, nil
}

func colorable(g [][]int, k int) bool {
	col := make([]int, len(g))
	var rec func(i, used int) bool
	rec = func(i, used int) bool {
		if i == len(g) {
			return true
		}
		for c := 1; c <= min(used+1, k); c++ {
			ok := true
			for _, j := range g[i] {
				ok = ok && (j > i || col[j] != c)
			}
			if ok {
				col[i] = c
				if rec(i+1, max(used, c)) {
					return true
				}
			}
		}
		return false
	}
	return rec(0, 0)
}

func triples(n int) (ts [][3]int) {
	for a := 1; a <= n; a++ {
		for b := a + 1; b <= n; b++ {
			for c := b + 1; c <= n && c*c <= a*a+b*b; c++ {
				if a*a+b*b == c*c {
					ts = append(ts, [3]int{a, b, c})
				}
			}
		}
	}
	return
}

func runGen(c *GenCase, m *pbt.Meter) error {
	r := &rng{c.Seed}
	g := gini.New()
	rec := &recAdd{also: g}
	m.Hit(c.K)
	end := func(maxVar int) error {
		if rec.cur != nil {
			return pbt.Failf("the last clause was not ended: %v", rec.cur)
		}
		if x := rec.maxVar(); x > maxVar {
			return pbt.Failf("variable %d, the largest should be %d", x, maxVar)
		}
		return nil
	}
	lits := func(get func() []int, n, at int, what string) error {
		// after many draws all literals of the range have occurred
		seen := map[int]bool{}
		for i := 0; i < at; i++ {
			for _, l := range get() {
				seen[l] = true
			}
		}
		for v := 1; v <= n; v++ {
			if !seen[v] || !seen[-v] {
				return pbt.Failf("%s never used %d or its negation", what, v)
			}
		}
		return nil
	}
	switch c.K {
	case "rand3":
		gen.Seed(int64(c.Seed))
		call := func(a inter.Adder) {
			if c.M < 0 {
				gen.HardRand3Cnf(a, c.N)
			} else {
				gen.Rand3Cnf(a, c.N, c.M)
			}
		}
		call(rec)
		want := c.M
		if want < 0 {
			want = len(rec.cls)
			if want == 0 {
				return pbt.Failf("no clauses")
			}
		}
		if e := end(c.N); e != nil {
			return e
		}
		if len(rec.cls) != want {
			return pbt.Failf("%d clauses, want %d", len(rec.cls), want)
		}
		for _, cl := range rec.cls {
			if len(cl) != 3 || abs(cl[0]) == abs(cl[1]) || abs(cl[0]) == abs(cl[2]) || abs(cl[1]) == abs(cl[2]) {
				return pbt.Failf("clause %v", cl)
			}
		}
		gen.Seed(int64(c.Seed))
		again := &recAdd{}
		call(again)
		if fmt.Sprint(again.cls) != fmt.Sprint(rec.cls) {
			return pbt.Failf("the same seed gave other clauses")
		}
		if c.M > 10 {
			m.NonTrivial()
		}
		if c.M >= 40*c.N {
			i := -1
			m.Hit("range")
			return lits(func() []int { i++; return rec.cls[i] }, c.N, len(rec.cls), "Rand3Cnf")
		}
	case "graph":
		if c.M > 5 {
			m.NonTrivial()
		}
		return checkGraph(gen.RandGraph(c.N, c.M), c.N, c.M)
	case "cuber":
		gc := gen.NewRandCuber(c.M, z.Var(c.N))
		var buf []z.Lit
		var e error
		get := func() (ls []int) {
			buf = gc.RandCube(buf)
			vs := map[z.Var]bool{}
			for _, l := range buf {
				if l.Var() == 0 || int(l.Var()) > c.N || vs[l.Var()] {
					e = pbt.Failf("cube %v of variables up to %d", buf, c.N)
				}
				vs[l.Var()] = true
				ls = append(ls, l.Dimacs())
			}
			if len(buf) == 0 || len(buf) > c.M {
				e = pbt.Failf("cube %v, sizes are 1..%d", buf, c.M)
			}
			return
		}
		e2 := lits(get, c.N, 60*c.N, "RandCube")
		m.NonTrivial()
		if e != nil {
			return e
		}
		return e2
	case "color":
		gen.RandColor(rec, c.N, c.M, c.C)
		if rec.cur != nil {
			return pbt.Failf("the last clause was not ended: %v", rec.cur)
		}
		node, color, gr, e := colorGraph(rec, c.N, c.M, c.C)
		if e == nil {
			e = checkGraph(gr, c.N, c.M)
		}
		if e != nil {
			return e
		}
		if c.N > 14 { // beyond enumeration
			m.Hit("color, many nodes")
			m.NonTrivial()
			return nil
		}
		want := -1
		if colorable(gr, c.C) {
			want = 1
		}
		m.Hit(fmt.Sprintf("color %d", want))
		if c.C > 1 && c.M > 1 {
			m.NonTrivial()
		}
		if res := g.Solve(); res != want {
			return pbt.Failf("verdict %d, exact is %d for %v and %d colors", res, want, gr, c.C)
		}
		if want == 1 {
			has := map[[2]int]bool{}
			cnt := map[int]int{}
			for v, nd := range node {
				if g.Value(lit(v)) {
					has[[2]int{nd, color[v]}] = true
					cnt[nd]++
				}
			}
			if len(cnt) != c.N {
				return pbt.Failf("a node has no color")
			}
			for k := range has {
				for _, b := range gr[k[0]] {
					if has[[2]int{b, k[1]}] && c.M > 0 {
						return pbt.Failf("nodes %d and %d have color %d", k[0], b, k[1])
					}
				}
			}
		}
	case "php", "part", "py":
		p, h := c.N, c.M
		var ts [][3]int
		switch c.K {
		case "php":
			gen.Php(rec, p, h)
		case "part":
			gen.Partition(rec, p, h)
		case "py":
			gen.PyTriples(rec, p, h)
			ts = triples(p)
		}
		if e := end(p * h); e != nil {
			return e
		}
		// the variables are documented
		vr := func(i, k int) int { return gen.PartVar(i, k, p).Dimacs() }
		vars := map[int]bool{}
		for i := 0; i < p; i++ {
			for k := 0; k < h; k++ {
				v := vr(i, k)
				if v < 1 || v > p*h || vars[v] {
					return pbt.Failf("PartVar(%d, %d, %d) is %d", i, k, p, v)
				}
				vars[v] = true
			}
		}
		// is(at) tells if a set of places is what the formula describes; 0 leaves it open
		is := func(at func(i, k int) bool) int {
			few := false
			multi := false
			for i := 0; i < p; i++ {
				n := 0
				for k := 0; k < h; k++ {
					if at(i, k) {
						n++
					}
				}
				few = few || n == 0
				multi = multi || n > 1
			}
			if few || multi && c.K != "php" {
				return -1
			}
			if c.K == "php" {
				for k := 0; k < h; k++ {
					n := 0
					for i := 0; i < p; i++ {
						if at(i, k) {
							n++
						}
					}
					if n > 1 {
						return -1
					}
				}
			}
			for _, t := range ts {
				for k := 0; k < h; k++ {
					if at(t[0]-1, k) && at(t[1]-1, k) && at(t[2]-1, k) {
						return -1
					}
				}
			}
			if multi {
				return 0
			}
			return 1
		}
		check := func(at []bool) error {
			w := is(func(i, k int) bool { return at[i*h+k] })
			got := rec.holds(func(v int) bool {
				for i := 0; i < p; i++ {
					for k := 0; k < h; k++ {
						if vr(i, k) == v {
							return at[i*h+k]
						}
					}
				}
				return false
			})
			if w != 0 && got != (w == 1) {
				return pbt.Failf("%s %d %d: assignment %v should hold: %v, holds: %v", c.K, p, h, at, w == 1, got)
			}
			return nil
		}
		any := false
		if p*h <= 12 {
			m.Hit("all assignments")
			if p*h > 3 {
				m.NonTrivial()
			}
			for x := 0; x < 1<<(p*h); x++ {
				at := make([]bool, p*h)
				for i := range at {
					at[i] = x>>i&1 == 1
				}
				any = any || is(func(i, k int) bool { return at[i*h+k] }) >= 0
				if e := check(at); e != nil {
					return e
				}
			}
		}
		if p > 0 && h > 0 {
			m.NonTrivial()
			for try := 0; try < 6; try++ {
				at := make([]bool, p*h)
				used := map[int]bool{}
				for i := 0; i < p; i++ {
					k := r.n(h)
					for n := 0; n < 2*h && c.K == "php" && used[k]; n++ {
						k = (k + 1) % h
					}
					for n := 0; n < h && c.K == "py"; n++ {
						at[i*h+k] = true
						if is(func(i, k int) bool { return at[i*h+k] }) != -1 {
							break
						}
						bad := false
						for _, t := range ts {
							bad = bad || t[2] == i+1 && at[(t[0]-1)*h+k] && at[(t[1]-1)*h+k]
						}
						if !bad {
							break
						}
						at[i*h+k] = false
						k = (k + 1) % h
					}
					used[k] = true
					at[i*h+k] = true
				}
				any = any || is(func(i, k int) bool { return at[i*h+k] }) == 1
				if e := check(at); e != nil {
					return e
				}
				if len(ts) > 0 {
					// make one triple monochromatic
					t := ts[r.n(len(ts))]
					o := slices.Clone(at)
					k := r.n(h)
					for _, x := range t {
						for j := 0; j < h; j++ {
							o[(x-1)*h+j] = j == k
						}
					}
					if e := check(o); e != nil {
						return e
					}
				}
				for n := 0; n < 4; n++ {
					o := slices.Clone(at)
					for i := 0; i <= n%2; i++ {
						j := r.n(len(o))
						o[j] = !o[j]
					}
					if e := check(o); e != nil {
						return e
					}
				}
			}
		}
		want := 0
		switch c.K {
		case "php":
			want = 1
			if p > h {
				want = -1
			}
		case "part":
			want = 1
			if p > 0 && h == 0 {
				want = -1
			}
		case "py":
			if any {
				want = 1
			} else if p > 0 && h == 0 || len(ts) > 0 && h == 1 {
				want = -1
			}
		}
		if want != 0 && (c.K != "php" || p <= 7) {
			m.Hit(fmt.Sprintf("%s %d", c.K, want))
			if res := g.Solve(); res != want {
				return pbt.Failf("verdict %d, want %d", res, want)
			}
			if want == 1 && is(func(i, k int) bool { return g.Value(lit(vr(i, k))) }) < 0 {
				return pbt.Failf("the model is no solution")
			}
		}
	case "py2":
		gen.Py2Triples(rec, c.N)
		if rec.cur != nil {
			return pbt.Failf("the last clause was not ended")
		}
		norm := func(cls [][]int) string {
			var ss []string
			for _, c := range cls {
				c = slices.Clone(c)
				sort.Slice(c, func(i, j int) bool { return abs(c[i]) < abs(c[j]) })
				ss = append(ss, fmt.Sprint(c))
			}
			sort.Strings(ss)
			return fmt.Sprint(slices.Compact(ss))
		}
		mk := func(ts [][3]int) string {
			var cls [][]int
			for _, t := range ts {
				cls = append(cls, []int{t[0], t[1], t[2]}, []int{-t[0], -t[1], -t[2]})
			}
			return norm(cls)
		}
		got := norm(rec.cls)
		if len(rec.cls) > 0 {
			m.NonTrivial()
		}
		if got == mk(triples(c.N)) {
			return nil
		}
		// listed finding: the first N triples
		var ts [][3]int
		for b := 2; len(ts) < c.N; b++ {
			for a := 1; a < b && len(ts) < c.N; a++ {
				x := b
				for x*x < a*a+b*b {
					x++
				}
				if x*x == a*a+b*b {
					ts = append(ts, [3]int{a, b, x})
				}
			}
		}
		if c.Strict || got != mk(ts) {
			return pbt.Failf("Py2Triples(%d): the clauses are not those of the triples of [1..%d]: %s", c.N, c.N, cut(got, 300))
		}
		m.Hit("finding: Py2Triples")
	case "cycle":
		gen.BinCycle(rec, c.N)
		if e := end(c.N); e != nil {
			return e
		}
		if c.N > 2 {
			m.NonTrivial()
		}
		// a cycle of implications: all equal
		for k := 0; k <= c.N; k++ {
			want := k == 0 || k == c.N
			for try := 0; try < 2; try++ {
				off := r.n(c.N + 1)
				if got := rec.holds(func(v int) bool { return (v+off)%max(c.N, 1) < k }); got != want {
					return pbt.Failf("BinCycle(%d) with %d true holds: %v", c.N, k, got)
				}
			}
		}
		if len(rec.cls) != c.N {
			return pbt.Failf("BinCycle(%d) has %d clauses", c.N, len(rec.cls))
		}
		if res := g.Solve(); res != 1 {
			return pbt.Failf("BinCycle(%d) verdict %d", c.N, res)
		}
	}
	return nil
}

// RSCase is a history on a random solver.
type RSCase struct {
	D   int   `json:"d"` // microseconds
	Res int   `json:"res"`
	Ops []XOp `json:"ops"`
}

func genRS(t *pbt.T) *RSCase {
	c := &RSCase{D: 1 + t.N(300), Res: t.N(3) - 1}
	t.Repeat(1, 20, 6, func(int) {
		op := XOp{K: [...]string{"solve", "go", "add", "copy", "try"}[t.Pick(3, 8, 2, 1, 1)]}
		if op.K == "go" {
			for i := t.N(4); i > 0; i-- {
				op.L = append(op.L, [...]int{0, 1, -1 - t.N(3)}[t.N(3)])
			}
			op.L = append(op.L, [...]int{2, 3, 4 + t.N(3)}[t.N(3)])
		} else {
			op.S = 1 + t.N(1000)
		}
		c.Ops = append(c.Ops, op)
	})
	return c
}

func runRS(c *RSCase, m *pbt.Meter) error {
	s := gen.RandSr(time.Duration(c.D)*time.Microsecond, c.Res, rand.NewSource(int64(c.D)))
	mv := z.Var(0)
	for i, op := range c.Ops {
		r, zero := 9, false
		switch op.K {
		case "solve":
			r = s.Solve()
		case "try":
			r, zero = s.Try(time.Second), false
		case "go":
			var what string
			var e error
			r, what, e = ctlSeq(s.GoSolve(), op.L, m, func() {})
			if e != nil {
				return pbt.Failf("op %d: %v", i, e)
			}
			zero = what != "wait"
			m.NonTrivial()
		case "copy":
			if s = s.SCopy(); s.MaxVar() != mv {
				return pbt.Failf("op %d: MaxVar %s of a copy, want %s", i, s.MaxVar(), mv)
			}
			m.Hit("copy")
		case "add":
			s.Add(lit(op.S))
			mv = max(mv, z.Var(op.S))
			if s.MaxVar() != mv {
				return pbt.Failf("op %d: MaxVar %d, want %d", i, s.MaxVar(), mv)
			}
			if l := s.Lit(); !l.IsPos() || l.Var() <= mv {
				return pbt.Failf("op %d: Lit %s is not fresh, max %d", i, l, mv)
			} else {
				mv = l.Var()
			}
		}
		if r == 9 {
			continue
		}
		if r == 0 && zero {
			m.Hit("stopped")
			continue
		}
		if r != 1 && r != -1 || c.Res != 0 && r != c.Res {
			return pbt.Failf("op %d %s%v: result %d, asked for %d", i, op.K, op.L, r, c.Res)
		}
	}
	return nil
}

func init() {
	pbt.Def("C21", "generators", 200000, 2000000, "every generator at random sizes and seeds; non-trivial: a size at which the formula says something", genGen, runGen)
	s := pbt.Def("C21", "random-solver", 8000, 80000, "control histories on the random solver; non-trivial: a background solve", genRS, runRS)
	s.Timeout = 20 * time.Second
}
