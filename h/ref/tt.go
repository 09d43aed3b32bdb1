// Package ref holds reference models: exact, slow, obviously correct.
package ref

// TT is a set of assignments to variables 0..N-1, as a truth table.
type TT struct {
	N int
	W []uint64
}

var base = [6]uint64{0xaaaaaaaaaaaaaaaa, 0xcccccccccccccccc, 0xf0f0f0f0f0f0f0f0, 0xff00ff00ff00ff00, 0xffff0000ffff0000, 0xffffffff00000000}

func words(n int) int {
	if n <= 6 {
		return 1
	}
	return 1 << (n - 6)
}

// All is the set of all assignments.
func All(n int) *TT {
	t := &TT{N: n, W: make([]uint64, words(n))}
	for i := range t.W {
		t.W[i] = ^uint64(0)
	}
	if n < 6 {
		t.W[0] = (uint64(1) << (1 << n)) - 1
	}
	return t
}

// Copy copies.
func (t *TT) Copy() *TT { return &TT{t.N, append([]uint64(nil), t.W...)} }

func varWord(v, i int) uint64 {
	if v < 6 {
		return base[v]
	}
	if i>>(v-6)&1 == 1 {
		return ^uint64(0)
	}
	return 0
}

// litWord: literals are +-(v+1).
func litWord(l, i int) uint64 {
	if l > 0 {
		return varWord(l-1, i)
	}
	return ^varWord(-l-1, i)
}

// Clause intersects with a clause.
func (t *TT) Clause(c []int) {
	for i := range t.W {
		if t.W[i] == 0 {
			continue
		}
		var w uint64
		for _, l := range c {
			w |= litWord(l, i)
		}
		t.W[i] &= w
	}
}

// Sat tells whether some assignment in t makes all ls true.
func (t *TT) Sat(ls ...int) bool {
	for i := range t.W {
		w := t.W[i]
		for _, l := range ls {
			if w == 0 {
				break
			}
			w &= litWord(l, i)
		}
		if w != 0 {
			return true
		}
	}
	return false
}

// Empty is !Sat().
func (t *TT) Empty() bool { return !t.Sat() }

// Has tells whether the assignment (vals[v]) is in t.
func (t *TT) Has(vals []bool) bool {
	k := 0
	for v := 0; v < t.N; v++ {
		if vals[v] {
			k |= 1 << v
		}
	}
	return t.W[k>>6]>>(k&63)&1 == 1
}

// Count counts.
func (t *TT) Count() int {
	n := 0
	for _, w := range t.W {
		for ; w != 0; w &= w - 1 {
			n++
		}
	}
	return n
}

// Any returns the k'th (mod count) member, or nil.
func (t *TT) Any(k int) []bool {
	n := t.Count()
	if n == 0 {
		return nil
	}
	k %= n
	for i, w := range t.W {
		for ; w != 0; w &= w - 1 {
			if k == 0 {
				b := 0
				for w>>b&1 == 0 {
					b++
				}
				x := i<<6 | b
				r := make([]bool, t.N)
				for v := range r {
					r[v] = x>>v&1 == 1
				}
				return r
			}
			k--
		}
	}
	return nil
}

// BCP is unit propagation of cs from ls: values by variable (1,-1,0), and
// false when it meets a conflict.
func BCP(n int, cs [][]int, ls []int) ([]int8, bool) {
	v := make([]int8, n)
	set := func(l int) bool {
		s := int8(1)
		if l < 0 {
			s, l = -1, -l
		}
		if v[l-1] == -s {
			return false
		}
		v[l-1] = s
		return true
	}
	for _, l := range ls {
		if !set(l) {
			return v, false
		}
	}
	for ch := true; ch; {
		ch = false
	next:
		for _, c := range cs {
			free := 0
			for _, l := range c {
				x := l
				s := int8(1)
				if l < 0 {
					x, s = -l, -1
				}
				switch v[x-1] {
				case s:
					continue next
				case 0:
					if free != 0 && free != l {
						continue next
					}
					free = l
				}
			}
			if free == 0 {
				return v, false
			}
			if !set(free) {
				return v, false
			}
			ch = true
		}
	}
	return v, true
}
