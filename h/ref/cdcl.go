package ref

// Solve decides a CNF over variables 1..n with literals as DIMACS integers,
// by a small conflict-driven search (no deletion, no restarts beyond a
// geometric schedule, no minimisation).  It gives the verdict, a model
// (model[v]) when satisfiable, and false in ok if it exceeded maxConf.
func Solve(n int, clauses [][]int, assume []int, maxConf int) (sat bool, model []bool, ok bool) {
	s := &cdcl{n: n, val: make([]int8, n+1), lev: make([]int, n+1), rea: make([]int, n+1), act: make([]float64, n+1), ph: make([]bool, n+1), seen: make([]bool, n+1), w: make([][]int, 2*(n+1)), inc: 1}
	for i := range s.rea {
		s.rea[i] = -1
	}
	add := func(c []int) bool {
		m := map[int]bool{}
		var d []int
		for _, l := range c {
			if m[-l] {
				return true
			}
			if !m[l] {
				m[l] = true
				d = append(d, l)
			}
		}
		switch len(d) {
		case 0:
			return false
		case 1:
			if s.value(d[0]) == -1 {
				return false
			}
			if s.value(d[0]) == 0 {
				s.enq(d[0], -1)
			}
			return true
		}
		s.attach(d)
		return true
	}
	for _, a := range assume {
		if !add([]int{a}) {
			return false, nil, true
		}
	}
	for _, c := range clauses {
		if !add(c) {
			return false, nil, true
		}
	}
	// simple activity seed
	for _, c := range clauses {
		for _, l := range c {
			s.act[abs(l)] += 1e-3
		}
	}
	confs, lim, since := 0, 200, 0
	for {
		x := s.prop()
		if x >= 0 {
			if len(s.lim) == 0 {
				return false, nil, true
			}
			confs++
			since++
			if confs > maxConf {
				return false, nil, false
			}
			l, bt := s.analyze(x)
			s.back(bt)
			if len(l) == 1 {
				s.enq(l[0], -1)
			} else {
				ci := s.attach(l)
				s.enq(l[0], ci)
			}
			s.inc /= 0.95
			if s.inc > 1e100 {
				for i := range s.act {
					s.act[i] *= 1e-100
				}
				s.inc *= 1e-100
			}
			continue
		}
		if since > lim {
			since = 0
			lim = lim * 11 / 10
			s.back(0)
			continue
		}
		b, ba := 0, -1.0
		for v := 1; v <= n; v++ {
			if s.val[v] == 0 && s.act[v] > ba {
				b, ba = v, s.act[v]
			}
		}
		if b == 0 {
			m := make([]bool, n+1)
			for v := 1; v <= n; v++ {
				m[v] = s.val[v] == 1
			}
			return true, m, true
		}
		s.lim = append(s.lim, len(s.trail))
		if s.ph[b] {
			s.enq(b, -1)
		} else {
			s.enq(-b, -1)
		}
	}
}

type cdcl struct {
	n     int
	cs    [][]int
	w     [][]int
	val   []int8
	lev   []int
	rea   []int
	act   []float64
	ph    []bool
	seen  []bool
	trail []int
	lim   []int
	qh    int
	inc   float64
}

func abs(l int) int {
	if l < 0 {
		return -l
	}
	return l
}
func wi(l int) int {
	if l > 0 {
		return 2 * l
	}
	return -2*l + 1
}
func (s *cdcl) value(l int) int8 {
	if l > 0 {
		return s.val[l]
	}
	return -s.val[-l]
}
func (s *cdcl) enq(l, r int) {
	v := abs(l)
	if l > 0 {
		s.val[v] = 1
	} else {
		s.val[v] = -1
	}
	s.ph[v] = l > 0
	s.lev[v] = len(s.lim)
	s.rea[v] = r
	s.trail = append(s.trail, l)
}
func (s *cdcl) attach(c []int) int {
	// put two non-false (or latest) literals first
	ci := len(s.cs)
	if len(s.lim) == 0 {
		j := 0
		for i, l := range c {
			if s.value(l) != -1 {
				c[i], c[j] = c[j], c[i]
				j++
				if j == 2 {
					break
				}
			}
		}
		if j == 0 {
			// conflict at level 0: make both watches fire
			s.cs = append(s.cs, c)
			s.w[wi(c[0])] = append(s.w[wi(c[0])], ci)
			s.w[wi(c[1])] = append(s.w[wi(c[1])], ci)
			s.qh = 0
			return ci
		}
		if j == 1 && s.value(c[0]) == 0 {
			s.cs = append(s.cs, c)
			s.w[wi(c[0])] = append(s.w[wi(c[0])], ci)
			s.w[wi(c[1])] = append(s.w[wi(c[1])], ci)
			s.enq(c[0], ci)
			return ci
		}
	}
	s.cs = append(s.cs, c)
	s.w[wi(c[0])] = append(s.w[wi(c[0])], ci)
	s.w[wi(c[1])] = append(s.w[wi(c[1])], ci)
	return ci
}
func (s *cdcl) prop() int {
	for s.qh < len(s.trail) {
		p := s.trail[s.qh]
		s.qh++
		f := wi(-p)
		ws := s.w[f]
		j := 0
	next:
		for i := 0; i < len(ws); i++ {
			ci := ws[i]
			c := s.cs[ci]
			if c[0] == -p {
				c[0], c[1] = c[1], c[0]
			}
			if s.value(c[0]) == 1 {
				ws[j] = ci
				j++
				continue
			}
			for k := 2; k < len(c); k++ {
				if s.value(c[k]) != -1 {
					c[1], c[k] = c[k], c[1]
					s.w[wi(c[1])] = append(s.w[wi(c[1])], ci)
					continue next
				}
			}
			ws[j] = ci
			j++
			if s.value(c[0]) == -1 {
				for i++; i < len(ws); i++ {
					ws[j] = ws[i]
					j++
				}
				s.w[f] = ws[:j]
				s.qh = len(s.trail)
				return ci
			}
			s.enq(c[0], ci)
		}
		s.w[f] = ws[:j]
	}
	return -1
}
func (s *cdcl) analyze(x int) ([]int, int) {
	out := []int{0}
	cnt := 0
	i := len(s.trail) - 1
	var p int
	c := s.cs[x]
	cur := len(s.lim)
	for {
		for _, l := range c {
			v := abs(l)
			if l == p || s.seen[v] || s.lev[v] == 0 {
				continue
			}
			s.seen[v] = true
			s.act[v] += s.inc
			if s.lev[v] == cur {
				cnt++
			} else {
				out = append(out, l)
			}
		}
		for !s.seen[abs(s.trail[i])] {
			i--
		}
		p = s.trail[i]
		i--
		s.seen[abs(p)] = false
		cnt--
		if cnt == 0 {
			break
		}
		c = s.cs[s.rea[abs(p)]]
	}
	out[0] = -p
	bt := 0
	for k := 1; k < len(out); k++ {
		v := abs(out[k])
		s.seen[v] = false
		if s.lev[v] > bt {
			bt = s.lev[v]
			out[1], out[k] = out[k], out[1]
		}
	}
	return out, bt
}
func (s *cdcl) back(l int) {
	if len(s.lim) <= l {
		return
	}
	b := s.lim[l]
	for i := len(s.trail) - 1; i >= b; i-- {
		v := abs(s.trail[i])
		s.val[v] = 0
		s.rea[v] = -1
	}
	s.trail = s.trail[:b]
	s.lim = s.lim[:l]
	s.qh = b
}

// Satisfies checks a model.
func Satisfies(cs [][]int, val func(l int) bool) []int {
next:
	for _, c := range cs {
		for _, l := range c {
			if val(l) {
				continue next
			}
		}
		return append([]int{}, c...)
	}
	return nil
}
