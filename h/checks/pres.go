package checks

import (
	"time"

	"github.com/go-air/gini"

	"ginicheck/pbt"
)

// PCase is a problem and a transformation of it.
type PCase struct {
	L     LCase  `json:"l"`
	T     uint64 `json:"t"`
	Steps int    `json:"steps"`
	Dup   int    `json:"dup"`
	Cap   int    `json:"cap"`
}

func genPres(t *pbt.T) *PCase {
	c := &PCase{T: t.U64(), Steps: 1 + t.N(4), Dup: t.N(30), Cap: t.N(400)}
	c.L = LCase{Seed: t.U64(), Plant: t.P(40)}
	switch t.Pick(30, 50, 20) {
	case 0:
		c.L.Kind, c.L.K = "xor", 4+t.N(2)
		c.L.N = t.Range(30, 60)
		c.L.M = c.L.N - 2 + t.N(4)
	case 1:
		c.L.Kind = "r3"
		c.L.N = t.Range(100, 250)
		c.L.M = c.L.N*41/10 + t.N(c.L.N*3/10)
	case 2:
		c.L.Kind, c.L.K = "mix", 4
		c.L.N = t.Range(60, 120)
		c.L.M = c.L.N*20/10 + t.N(c.L.N*6/10)
	}
	return c
}

func runPres(c *PCase, m *pbt.Meter) error {
	con, n := lstream(&c.L)
	var cls [][]int
	for _, k := range con {
		cls = append(cls, k.cls...)
	}
	t0 := time.Now()
	a := gini.New()
	for _, cl := range cls {
		for _, l := range cl {
			a.Add(lit(l))
		}
		a.Add(0)
	}
	ra := a.Solve()
	if e := modelOK(a, cls, ra); e != nil {
		return e
	}
	r := &rng{c.T}
	perm := make([]int, n+1)
	for i := range perm {
		perm[i] = i
	}
	for i := n; i > 1; i-- {
		j := 1 + r.n(i)
		perm[i], perm[j] = perm[j], perm[i]
	}
	for i := 1; i <= n; i++ {
		if r.n(2) == 1 {
			perm[i] = -perm[i]
		}
	}
	var tr [][]int
	for _, cl := range cls {
		for rep := 0; rep == 0 || rep < 4 && r.n(100) < c.Dup; rep++ {
			d := make([]int, len(cl))
			for i, l := range cl {
				if l > 0 {
					d[i] = perm[l]
				} else {
					d[i] = -perm[-l]
				}
			}
			for i := len(d) - 1; i > 0; i-- {
				j := r.n(i + 1)
				d[i], d[j] = d[j], d[i]
			}
			tr = append(tr, d)
		}
	}
	for i := len(tr) - 1; i > 0; i-- {
		j := r.n(i + 1)
		tr[i], tr[j] = tr[j], tr[i]
	}
	b := gini.NewVc(1+c.Cap, 1+2*c.Cap)
	rb := 0
	for s := 0; s < c.Steps; s++ {
		for _, cl := range tr[s*len(tr)/c.Steps : (s+1)*len(tr)/c.Steps] {
			for _, l := range cl {
				b.Add(lit(l))
			}
			b.Add(0)
		}
		rb = b.Solve()
		if e := modelOK(b, tr[:(s+1)*len(tr)/c.Steps], rb); e != nil {
			return e
		}
		if rb == -1 && ra == 1 {
			return pbt.Failf("SAT, but its part %d of %d in another presentation is UNSAT", s+1, c.Steps)
		}
	}
	if ra != rb {
		return pbt.Failf("verdict %d, but %d in another presentation", ra, rb)
	}
	if ra == 1 {
		m.Hit("sat")
	} else {
		m.Hit("unsat")
	}
	if time.Since(t0) > 20*time.Millisecond {
		m.NonTrivial()
	}
	return nil
}

func modelOK(g *gini.Gini, cls [][]int, r int) error {
	if r == -1 {
		return nil
	}
	if r != 1 {
		return pbt.Failf("Solve returned %d", r)
	}
	for _, cl := range cls {
		ok := false
		for _, l := range cl {
			ok = ok || g.Value(lit(l))
		}
		if !ok {
			return pbt.Failf("model falsifies clause %v", cl)
		}
	}
	return nil
}
