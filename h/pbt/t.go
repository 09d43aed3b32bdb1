// Package pbt is a small property-based testing engine: every random choice
// of a generator is drawn from a recorded choice sequence, so any generated
// case can be regenerated from its seed and shrunk by editing the sequence.
package pbt

// T is the source of choices given to a generator.
type T struct {
	state  uint64
	replay []uint64
	isRep  bool
	pos    int

	Rec    []uint64
	Groups [][2]int
}

// NewT gives a T drawing pseudo-random choices from seed.
func NewT(seed uint64) *T { return &T{state: seed} }

// ReplayT gives a T which replays choices, then 0s.
func ReplayT(choices []uint64) *T { return &T{replay: choices, isRep: true} }

// Mix is splitmix64's output function.
func Mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

func (t *T) draw(n uint64) uint64 {
	var v uint64
	if t.isRep {
		if t.pos < len(t.replay) {
			v = t.replay[t.pos]
			if v >= n {
				v = v % n
			}
		}
	} else {
		t.state += 0x9e3779b97f4a7c15
		v = Mix(t.state) % n
	}
	t.pos++
	t.Rec = append(t.Rec, v)
	return v
}

// N draws uniformly from [0,n); shrinks to 0.
func (t *T) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(t.draw(uint64(n)))
}

// Range draws uniformly from [lo,hi]; shrinks to lo.
func (t *T) Range(lo, hi int) int { return lo + t.N(hi-lo+1) }

// U64 draws 64 bits (shrinks to 0); the top value is never produced.
func (t *T) U64() uint64 { return t.draw(^uint64(0)) }

// Bool is a fair coin; shrinks to false.
func (t *T) Bool() bool { return t.draw(2) == 1 }

// P is true with pct percent; shrinks to false.
func (t *T) P(pct int) bool { return int(t.draw(100)) >= 100-pct }

// Pick draws an index with the given weights; shrinks to index 0.
func (t *T) Pick(w ...int) int {
	s := 0
	for _, x := range w {
		s += x
	}
	v := int(t.draw(uint64(s)))
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}

// Group marks the choices made by f as one unit for shrinking.
func (t *T) Group(f func()) {
	a := len(t.Rec)
	f()
	t.Groups = append(t.Groups, [2]int{a, len(t.Rec)})
}

// Repeat runs f between min and max times, avg times on average, each
// repetition a group which shrinking may delete.
func (t *T) Repeat(min, max, avg int, f func(i int)) {
	n := avg - min
	if n < 1 {
		n = 1
	}
	for i := 0; i < max; i++ {
		stop := false
		t.Group(func() {
			if i >= min && t.draw(uint64(n+1)) == 0 {
				stop = true
				return
			}
			f(i)
		})
		if stop {
			return
		}
	}
}

// Exactly runs f n times, each a group.
func (t *T) Exactly(n int, f func(i int)) {
	for i := 0; i < n; i++ {
		t.Group(func() { f(i) })
	}
}

// Hash of the choice sequence.
func (t *T) Hash() uint64 {
	h := uint64(len(t.Rec))
	for _, c := range t.Rec {
		h = Mix(h ^ c)
	}
	return h
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// Shrink minimises rec under fails, which runs a candidate and returns
// whether it fails, with the choices and groups it actually used.  stop is
// polled.
func Shrink(rec []uint64, groups [][2]int, fails func([]uint64) (bool, []uint64, [][2]int), stop func() bool) []uint64 {
	try := func(c []uint64) bool {
		if stop() {
			return false
		}
		ok, r, g := fails(c)
		if ok && less(r, rec) {
			rec = append([]uint64(nil), r...)
			groups = append([][2]int(nil), g...)
			return true
		}
		return false
	}
	del := func(a, b int) bool {
		if a < 0 || a >= b || b > len(rec) {
			return false
		}
		c := append([]uint64(nil), rec[:a]...)
		c = append(c, rec[b:]...)
		return try(c)
	}
	for round := 0; round < 50 && !stop(); round++ {
		before := append([]uint64(nil), rec...)
		// halve the tail first
		for n := len(rec) / 2; n > 8; n /= 2 {
			for del(len(rec)-n, len(rec)) {
			}
		}
		// groups, biggest first
		for sz := len(rec); sz >= 1 && !stop(); sz /= 2 {
			for i := 0; i < len(groups) && !stop(); {
				g := groups[i]
				n := g[1] - g[0]
				if n <= sz && n > sz/2 && del(g[0], g[1]) {
					continue
				}
				i++
			}
		}
		for _, k := range []int{8, 4, 3, 2, 1} {
			for i := len(rec) - k; i >= 0 && !stop(); i-- {
				if i+k <= len(rec) {
					del(i, i+k)
				}
			}
		}
		// values
		for i := 0; i < len(rec) && !stop(); i++ {
			if rec[i] == 0 {
				continue
			}
			set := func(v uint64) bool {
				if i >= len(rec) || v >= rec[i] {
					return false
				}
				c := append([]uint64(nil), rec...)
				c[i] = v
				return try(c)
			}
			if set(0) {
				continue
			}
			for i < len(rec) && rec[i] > 1 && set(rec[i]/2) {
			}
			for d := uint64(16); d >= 1; d /= 2 {
				for i < len(rec) && rec[i] > d && set(rec[i]-d) {
				}
			}
		}
		if !less(rec, before) {
			break
		}
	}
	return rec
}
