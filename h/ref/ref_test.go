package ref

import (
	"math/rand"
	"testing"
)

func TestAgree(t *testing.T) {
	r := rand.New(rand.NewSource(7))
	ns, nu := 0, 0
	for it := 0; it < 60000; it++ {
		n := 1 + r.Intn(10)
		m := r.Intn(6*n + 1)
		var cs [][]int
		tt := All(n)
		for i := 0; i < m; i++ {
			k := 1 + r.Intn(4)
			if r.Intn(50) == 0 {
				k = 0
			}
			var c []int
			for j := 0; j < k; j++ {
				l := 1 + r.Intn(n)
				if r.Intn(2) == 0 {
					l = -l
				}
				c = append(c, l)
			}
			cs = append(cs, c)
			tt.Clause(c)
		}
		var as []int
		for i := r.Intn(3); i > 0; i-- {
			l := 1 + r.Intn(n)
			if r.Intn(2) == 0 {
				l = -l
			}
			as = append(as, l)
		}
		// brute force
		bf := false
		for x := 0; x < 1<<n && !bf; x++ {
			val := func(l int) bool {
				if l > 0 {
					return x>>(l-1)&1 == 1
				}
				return x>>(-l-1)&1 == 0
			}
			bf = Satisfies(cs, val) == nil
			for _, a := range as {
				bf = bf && val(a)
			}
		}
		if bf != tt.Sat(as...) {
			t.Fatal("tt", cs, as)
		}
		sat, m2, ok := Solve(n, cs, as, 1<<30)
		if !ok || sat != bf {
			t.Fatal("cdcl", cs, as, sat, bf)
		}
		if sat {
			ns++
			val := func(l int) bool {
				if l > 0 {
					return m2[l]
				}
				return !m2[-l]
			}
			if Satisfies(cs, val) != nil {
				t.Fatal("model")
			}
		} else {
			nu++
		}
	}
	t.Log(ns, nu)
}
