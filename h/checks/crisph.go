package checks

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"path/filepath"
	"runtime"
	"slices"
	"strings"
	"sync"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/crisp"
	gnet "github.com/go-air/gini/inter/net"
	"github.com/go-air/gini/z"

	"ginicheck/pbt"
	"ginicheck/ref"
)

// HOp is a call of client C.
type HOp struct {
	C int      `json:"c,omitempty"`
	K string   `json:"k"`
	L []int    `json:"l,omitempty"` // literals +-(slot+1)
	S int      `json:"s,omitempty"`
	U []uint32 `json:"u,omitempty"` // values sent by a misbehaving client
}

// HCase is a history of clients of one server.
type HCase struct {
	IDs   []int `json:"ids"`
	Kinds []int `json:"kinds"` // of the clients: 0 crisp.Client, 1 a local solver behind inter/net
	Par   bool  `json:"par"`   // clients run concurrently
	TCP   bool  `json:"tcp,omitempty"`
	Ops   []HOp `json:"ops"`
}

func genH(t *pbt.T) *HCase {
	n := 2 + t.N(6)
	c := &HCase{IDs: genIDs(t, n, 35), Par: t.P(40), TCP: t.P(10)}
	k := 1 + t.Pick(4, 3, 2)
	if c.Par && t.P(20) {
		k = 4 + t.N(9)
	}
	tts := make([]*ref.TT, k)
	for i := range tts {
		c.Kinds = append(c.Kinds, t.Pick(7, 1))
		tts[i] = ref.All(n)
		if t.P(50) {
			t.Exactly(t.N(4*n), func(int) {
				c.Ops = append(c.Ops, HOp{C: i, K: "add", L: genClause(t, n, tts[i], 85, t.P(60))})
			})
		}
	}
	lits := func(max int) (r []int) {
		t.Exactly(t.N(max+1), func(int) { r = append(r, genLit(t, n)) })
		return
	}
	avg := 20 * k
	t.Repeat(1, 400, min(avg, 120), func(int) {
		op := HOp{C: t.N(k)}
		switch t.Pick(14, 12, 16, 8, 12, 8, 8, 8, 8, 2, 1, 2, 1, 2, 2, 2, 1, 1) {
		case 0:
			op.K, op.L = "add", genClause(t, n, tts[op.C], 85, t.P(60))
		case 1:
			op.K, op.L = "assume", lits(4)
		case 2:
			op.K = "solve"
		case 3:
			op.K, op.S = "go", t.N(1<<8)
		case 4:
			op.K, op.L = "value", lits(5)
		case 5:
			op.K, op.S = "model", t.N(300)
		case 6:
			op.K, op.L, op.S = "modelfor", lits(40), t.N(80)
		case 7:
			op.K, op.S = "why", t.N(5)
		case 8:
			op.K, op.L, op.S = "whyselect", lits(12), t.N(5)
		case 9:
			op.K = "reset"
			tts[op.C] = ref.All(n)
		case 10:
			op.K = "exts"
		case 11:
			op.K = "dimacs"
			t.Exactly(t.N(6), func(int) { op.L = append(append(op.L, genClause(t, n, tts[op.C], 85, t.P(40))...), 0) })
		case 12:
			op.K, op.L = "hard", []int{genLit(t, n)}
			tts[op.C].Clause(op.L)
		case 13:
			op.K, op.S = "leave", t.N(5)
			tts[op.C] = ref.All(n)
		case 14:
			op.K, op.S = "raw", t.N(3)
			t.Repeat(0, 40, 8, func(int) { op.U = append(op.U, genGarbage(t)) })
			if t.P(30) {
				op.U = append(op.U, wOp["solve"])
			}
		case 15:
			op.K = "badlit"
			op.S = t.N(4)
			op.U = []uint32{wMin + uint32(t.N(256))}
		case 16: // a problem beyond what can be solved here
			l := genLit(t, n)
			c.Ops = append(c.Ops, HOp{C: op.C, K: "hard", L: []int{l}, S: 1}, HOp{C: op.C, K: "assume", L: []int{-l}})
			for i := t.N(3); i >= 0; i-- {
				g := HOp{C: op.C, K: "go", S: t.N(1 << 8)}
				if g.S&3 == 3 && (i > 0 || g.S&7 == 3) {
					g.S--
				}
				c.Ops = append(c.Ops, g)
				if i > 0 {
					c.Ops = append(c.Ops, HOp{C: op.C, K: "assume", L: []int{-l}})
				}
			}
			op.K, op.S = "leave", t.N(5)
			tts[op.C] = ref.All(n)
		case 17: // many variables
			op.K, op.S = "wide", 1+t.N(1<<(3+uint(t.N(12))))
		}
		c.Ops = append(c.Ops, op)
	})
	return c
}

// genGarbage gives a value, or 1<<32 | something for a bad encoding, within
// what does not make the server allocate much.
func genGarbage(t *pbt.T) uint32 {
	switch t.Pick(4, 6, 3, 1) {
	case 0:
		return wTop - uint32(t.N(20))
	case 1:
		return 2 + uint32(t.N(12))
	case 2:
		return 0
	}
	return wTop - uint32(t.N(256))
}

// hc is a client with its model.
type hc struct {
	i     int
	kind  int
	addr  string
	ids   []int
	cl    *crisp.Client
	s     gnet.S
	tt    *ref.TT
	extra [][]z.Lit // clauses over other variables, all in force
	blk   int       // blocks of such variables used
	cur   []int
	asm   []int
	res   int
	fresh bool // nothing was added or assumed since the last solve
	used  z.Var
	known map[int]bool // slots known to the solver
}

func (h *hc) open() error {
	h.tt = ref.All(len(h.ids))
	h.extra, h.blk, h.cur, h.asm, h.res, h.fresh, h.used = nil, 0, nil, nil, 0, false, 0
	h.known = map[int]bool{}
	if h.kind == 1 {
		h.s = gnet.ToS(gini.New())
		return nil
	}
	cl, e := crisp.Dial(h.addr)
	if e != nil {
		return pbt.Failf("client %d: dial: %s", h.i, e)
	}
	h.cl, h.s = cl, cl
	return nil
}

func (h *hc) close() {
	if h.cl != nil {
		h.cl.Close()
		h.cl = nil
	}
}

func (h *hc) lit(l int) z.Lit {
	v := z.Var(h.ids[abs(l)-1])
	if l < 0 {
		return v.Neg()
	}
	return v.Pos()
}

func (h *hc) zs(ls []int) []z.Lit {
	r := make([]z.Lit, len(ls))
	for i, l := range ls {
		r[i] = h.lit(l)
	}
	return r
}

func (h *hc) note(ls []int) {
	for _, l := range ls {
		h.known[abs(l)-1] = true
		h.used = max(h.used, z.Var(h.ids[abs(l)-1]))
	}
	h.fresh = false
}

func (h *hc) solved(r int, zeroOK bool, m *pbt.Meter) error {
	sat := h.tt.Sat(h.cur...)
	h.asm, h.cur = h.cur, nil
	h.res, h.fresh = r, true
	switch {
	case r == 0 && zeroOK:
		m.Hit("no result")
		h.fresh = false
	case r == 1 && sat, r == -1 && !sat:
		m.NonTrivial()
		m.Hit(map[int]string{1: "sat", -1: "unsat"}[r])
	default:
		return pbt.Failf("result %d, assumptions %v, satisfiable: %v", r, h.asm, sat)
	}
	return nil
}

func (h *hc) checkModel(val func(z.Lit) (bool, error), m *pbt.Meter) error {
	vals := make([]bool, len(h.ids))
	for s := range vals {
		if !h.known[s] {
			continue
		}
		a, e := val(h.lit(s + 1))
		if e != nil {
			return pbt.Failf("value: %s", e)
		}
		b, e := val(h.lit(-s - 1))
		if e != nil {
			return pbt.Failf("value: %s", e)
		}
		if a == b {
			return pbt.Failf("variable %d and its negation both have value %v", h.ids[s], a)
		}
		vals[s] = a
	}
	for _, l := range h.asm {
		if vals[abs(l)-1] != (l > 0) {
			return pbt.Failf("assumption %d is false in the model", l)
		}
	}
	if !h.tt.Has(vals) {
		return pbt.Failf("model %v violates a clause", vals)
	}
	for _, c := range h.extra {
		ok := false
		for _, l := range c {
			a, e := val(l)
			if e != nil {
				return pbt.Failf("value: %s", e)
			}
			ok = ok || a
		}
		if !ok {
			return pbt.Failf("model violates clause %v", c)
		}
	}
	m.Hit("model")
	return nil
}

func (h *hc) whyOK(ms []z.Lit, what string) ([]int, error) {
	var ls []int
	for _, f := range ms {
		k := slices.IndexFunc(h.asm, func(l int) bool { return h.lit(l) == f })
		if k < 0 {
			return nil, pbt.Failf("%s: %s was not assumed", what, f)
		}
		ls = append(ls, h.asm[k])
	}
	return ls, nil
}

var errEnd = fmt.Errorf("end of the connection")

func (h *hc) step(op HOp, m *pbt.Meter) error {
	cl := h.cl
	expect := func(e error) error {
		if e != nil {
			return pbt.Failf("%s %v: %s", op.K, op.L, e)
		}
		return nil
	}
	add := func(ls []z.Lit) error {
		for _, l := range ls {
			if e := h.s.Add(l); e != nil {
				return e
			}
		}
		return h.s.Add(0)
	}
	bools := func(n int) []bool {
		r := make([]bool, n)
		for i := range r {
			r[i] = i%2 == 0
		}
		return r[:n/3]
	}
	if cl == nil && slices.Contains([]string{"model", "modelfor", "whyselect", "reset", "exts", "dimacs", "badlit"}, op.K) {
		return nil
	}
	m.Hit("op " + op.K)
	switch op.K {
	case "add":
		if e := expect(add(h.zs(op.L))); e != nil {
			return e
		}
		h.note(op.L)
		h.tt.Clause(op.L)
	case "assume":
		if e := expect(h.s.Assume(h.zs(op.L)...)); e != nil {
			return e
		}
		if len(op.L) > 0 {
			h.note(op.L)
		}
		h.cur = append(h.cur, op.L...)
	case "dimacs":
		var b strings.Builder
		fmt.Fprintf(&b, "p cnf 3 2\n")
		var c []int
		for _, l := range op.L {
			if l == 0 {
				b.WriteString("0\n")
				h.tt.Clause(c)
				h.note(c)
				c = nil
				continue
			}
			c = append(c, l)
			fmt.Fprintf(&b, "%d ", h.lit(l).Dimacs())
		}
		h.fresh = false
		return expect(cl.Dimacs(strings.NewReader(b.String())))
	case "hard": // (8 pigeons in 7 holes) or the literal
		k := 6 + op.C%2 + 4*op.S
		off := 1000 + 150*h.blk
		h.blk++
		g := h.lit(op.L[0])
		ph := func(p, q int) z.Lit { return z.Var(off + k*p + q).Pos() }
		for p := 0; p <= k; p++ {
			c := []z.Lit{g}
			for q := 0; q < k; q++ {
				c = append(c, ph(p, q))
			}
			h.extra = append(h.extra, c)
			for r := 0; r < p; r++ {
				for q := 0; q < k; q++ {
					h.extra = append(h.extra, []z.Lit{ph(p, q).Not(), g, ph(r, q).Not()})
				}
			}
		}
		n := len(h.extra)
		for _, c := range h.extra[n-(k+1)-k*(k+1)*k/2:] {
			if e := expect(add(c)); e != nil {
				return e
			}
		}
		h.note(op.L)
		h.used = max(h.used, ph(k, k-1).Var())
		h.tt.Clause(op.L)
	case "wide": // op.S variables more, the value of each of which is given
		off := 1000 + 150*h.blk
		if h.blk += op.S/150 + 1; h.blk > 500 {
			return nil
		}
		for i := 0; i < op.S; i++ {
			l := z.Var(off + i).Pos()
			if uint32(i)*2654435761>>16&1 == 1 {
				l = l.Not()
			}
			h.extra = append(h.extra, []z.Lit{l})
			if e := expect(add([]z.Lit{l})); e != nil {
				return e
			}
			h.used = max(h.used, l.Var())
		}
		h.fresh = false
	case "solve":
		r, e := h.s.Solve()
		if e := expect(e); e != nil {
			return e
		}
		return h.solved(r, false, m)
	case "go":
		s := h.s.GoSolve()
		m.Hit("background solve")
		for i := op.S >> 3 & 3; i > 0; i-- {
			r, ok, e := s.Test()
			if e := expect(e); e != nil {
				return e
			}
			if ok {
				m.Hit("test gives the result")
				return h.solved(r, false, m)
			}
			if r != 0 {
				return pbt.Failf("Test gives %d but no result", r)
			}
			time.Sleep([]time.Duration{0, 20, 500, 5000}[i] * time.Microsecond)
		}
		if op.S&7 == 7 && h.kind == 0 {
			// the connection is lost while solving
			cl.Close()
			r, e := s.Stop()
			if e == nil {
				// the result was there
				if e := h.solved(r, true, m); e != nil {
					return e
				}
			}
			m.Hit("connection lost while solving")
			return errEnd
		}
		var r int
		var e error
		how := op.S & 3
		if op.S&7 == 7 {
			how = 0
		}
		switch how {
		case 0:
			r, e = s.Stop()
		case 1:
			r, e = s.Try(0)
		case 2:
			r, e = s.Try(time.Duration(op.S>>5) * time.Millisecond)
		case 3:
			for {
				x, ok, er := s.Test()
				if ok || er != nil {
					r, e = x, er
					break
				}
				time.Sleep(20 * time.Microsecond)
			}
			if e := expect(e); e != nil {
				return e
			}
			return h.solved(r, false, m)
		}
		if e := expect(e); e != nil {
			return e
		}
		return h.solved(r, true, m)
	case "value":
		if h.res != 1 && cl != nil && len(op.L) > 0 {
			m.Hit("value refused")
			if v, e := cl.Value(h.lit(op.L[0])); e == nil {
				return pbt.Failf("a value (%v) is given after result %d", v, h.res)
			}
			return nil
		}
		if h.res != 1 || !h.fresh {
			return nil
		}
		if e := h.checkModel(h.s.Value, m); e != nil || cl == nil {
			return e
		}
		for _, l := range op.L { // of any variable
			a, e1 := cl.Value(h.lit(l))
			b, e2 := cl.Value(h.lit(-l))
			if e1 == nil && e2 == nil && a == b {
				return pbt.Failf("variable %d and its negation both have value %v", h.ids[abs(l)-1], a)
			}
		}
	case "model":
		if h.res == 1 && !h.fresh {
			return nil
		}
		vs, e := cl.Model(bools(op.S))
		if h.res != 1 {
			m.Hit("model refused")
			if e == nil {
				return pbt.Failf("a model is given after result %d", h.res)
			}
			return nil
		}
		if e := expect(e); e != nil {
			return e
		}
		if len(vs) <= int(h.used) {
			return pbt.Failf("model has %d values, variables up to %s are used", len(vs), h.used)
		}
		e = h.checkModel(func(l z.Lit) (bool, error) { return vs[l.Var()] == l.IsPos(), nil }, m)
		if e != nil {
			return e
		}
		cp := slices.Clone(vs)
		if op.S&1 == 1 { // vs is ours
			for i := range vs {
				vs[i] = !vs[i]
			}
		}
		for s := range h.ids {
			if !h.known[s] {
				continue
			}
			b, e := cl.Value(h.lit(s + 1))
			if e := expect(e); e != nil {
				return e
			}
			if b != cp[h.ids[s]] {
				return pbt.Failf("Value of variable %d differs from the model", h.ids[s])
			}
		}
	case "modelfor":
		if h.res == 1 && !h.fresh {
			return nil
		}
		vs, e := cl.ModelFor(bools(op.S), h.zs(op.L))
		if h.res != 1 {
			m.Hit("partial model refused")
			if e == nil {
				return pbt.Failf("a partial model is given after result %d", h.res)
			}
			return nil
		}
		if e := expect(e); e != nil {
			return e
		}
		if len(vs) <= len(op.L) {
			return pbt.Failf("partial model of %d literals has %d values", len(op.L), len(vs))
		}
		ls := slices.Clone(h.asm)
		for k, l := range op.L {
			if !vs[k+1] {
				l = -l
			}
			if !h.known[abs(l)-1] {
				continue
			}
			ls = append(ls, l)
		}
		if !h.tt.Sat(ls...) {
			return pbt.Failf("partial model %v has no extension", ls)
		}
		for k, l := range op.L {
			if !h.known[abs(l)-1] {
				continue
			}
			b, e := cl.Value(h.lit(l))
			if e := expect(e); e != nil {
				return e
			}
			if b != vs[k+1] {
				return pbt.Failf("Value of %d differs from the partial model", l)
			}
		}
		m.Hit("partial model")
	case "why":
		if h.res == -1 && !h.fresh || h.kind == 1 && h.res != -1 {
			return nil
		}
		ms, e := h.s.Why(make([]z.Lit, 0, op.S))
		if h.res != -1 {
			m.Hit("failed assumptions refused")
			if e == nil {
				return pbt.Failf("failed assumptions are given after result %d", h.res)
			}
			return nil
		}
		if e := expect(e); e != nil {
			return e
		}
		ls, e := h.whyOK(ms, "Why")
		if e != nil {
			return e
		}
		if h.tt.Sat(ls...) {
			return pbt.Failf("failed assumptions %v of %v are not sufficient", ls, h.asm)
		}
		m.Hit("failed assumptions")
	case "whyselect":
		if h.res == -1 && !h.fresh {
			return nil
		}
		zs := h.zs(op.L)
		ms, e := cl.WhySelect(make([]z.Lit, 0, op.S), zs)
		if h.res != -1 {
			if e == nil {
				return pbt.Failf("selected failed assumptions are given after result %d", h.res)
			}
			return nil
		}
		if e := expect(e); e != nil {
			return e
		}
		all, e := cl.Why(nil)
		if e := expect(e); e != nil {
			return e
		}
		if _, e := h.whyOK(all, "Why"); e != nil {
			return e
		}
		var want []z.Lit
		for _, l := range zs {
			if slices.Contains(all, l) {
				want = append(want, l)
			}
		}
		if !slices.Equal(ms, want) {
			return pbt.Failf("WhySelect of %v gives %v, failed %v", zs, ms, all)
		}
		m.Hit("failed assumptions selected")
	case "reset":
		if e := expect(cl.Reset()); e != nil {
			return e
		}
		kind := h.kind
		h.kind = 1
		s := h.s
		h.open()
		h.kind, h.s = kind, s
	case "exts":
		n, e := cl.GetExts()
		if e := expect(e); e != nil {
			return e
		}
		if n < 0 {
			return pbt.Failf("%d extensions", n)
		}
	case "leave":
		if cl == nil {
			return errEnd
		}
		switch op.S {
		case 0:
			if e := expect(cl.Quit()); e != nil {
				return e
			}
		case 1: // in the middle of a clause
			cl.Add(h.lit(1))
		case 2:
			if e := expect(cl.Add(h.lit(1))); e != nil {
				return e
			}
			_ = cl.Assume(h.lit(1))
		case 3, 4: // what cannot be sent is an error
			cl.Close()
			es := map[string]error{}
			_, es["GetExts"] = cl.GetExts()
			es["Assume"] = cl.Assume(h.lit(1))
			if op.S == 3 {
				_, es["Model"] = cl.Model(nil)
				_, es["ModelFor"] = cl.ModelFor(nil, h.zs([]int{1}))
				_, es["Why"] = cl.Why(nil)
				_, es["WhySelect"] = cl.WhySelect(nil, h.zs([]int{1}))
			}
			es["Reset"] = cl.Reset()
			_, es["Solve"] = cl.Solve()
			es["Quit"] = cl.Quit()
			for k, e := range es {
				if e == nil {
					return pbt.Failf("%s after Close gives no error", k)
				}
			}
			m.Hit("errors after Close")
		}
		return errEnd
	case "badlit":
		var e error
		x := z.Lit(op.U[0])
		switch op.S {
		case 0:
			e = cl.Add(x)
		case 1:
			e = cl.Assume(h.lit(1), x)
		case 2:
			e = cl.Assume(0)
		case 3:
			if h.res != 1 || !h.fresh {
				return nil
			}
			_, e = cl.ModelFor(nil, []z.Lit{h.lit(1), x})
		}
		if e == nil {
			return pbt.Failf("%s is taken as a literal", wName(op.U[0]))
		}
	}
	if h.cl != nil && h.cl.MaxVar() != h.used {
		return pbt.Failf("after %s %v: MaxVar is %s, want %s", op.K, op.L, h.cl.MaxVar(), h.used)
	}
	return nil
}

// raw is a client which sends anything and leaves, or stays.
func raw(addr string, op HOp, m *pbt.Meter, keep *[]net.Conn) {
	a := crisp.ParseAddr(addr)
	c, e := net.Dial(a.Network, a.NetAddr)
	if e != nil {
		return
	}
	c.SetDeadline(time.Now().Add(5 * time.Second))
	var b bytes.Buffer
	b.Write(vuEnc(nil, op.U...))
	if op.S == 1 && len(op.U) > 0 {
		b.Truncate(b.Len() - 1)
	}
	c.Write(b.Bytes())
	m.Hit("misbehaving client")
	if op.S == 2 {
		*keep = append(*keep, c)
		return
	}
	if op.S == 0 {
		if w, ok := c.(interface{ CloseWrite() error }); ok {
			w.CloseWrite()
			io.Copy(io.Discard, c)
		}
	}
	c.Close()
}

func runH(c *HCase, m *pbt.Meter) error {
	dir, done, e := wDir()
	if e != nil {
		return e
	}
	defer done()
	base := runtime.NumGoroutine()
	addr := "@" + filepath.Join(dir, "s")
	if c.TCP {
		l, e := net.Listen("tcp", "127.0.0.1:0")
		if e != nil {
			return pbt.ErrInconclusive
		}
		addr = l.Addr().String()
		l.Close()
		m.Hit("tcp")
	}
	stop, e := startServer(addr)
	if e != nil {
		if c.TCP {
			return pbt.ErrInconclusive
		}
		return pbt.Failf("new server: %s", e)
	}
	x := rng{uint64(len(c.Ops))}
	if e := alive(addr, &x); e != nil {
		return e
	}
	up := runtime.NumGoroutine()
	max := runtime.NumCPU() // clients served at a time
	hs := make([]*hc, len(c.Kinds))
	var keep []net.Conn
	var mu sync.Mutex
	for i := range hs {
		hs[i] = &hc{i: i, kind: c.Kinds[i], addr: addr, ids: c.IDs}
	}
	one := func(h *hc, op HOp, m *pbt.Meter, rawOK bool) error {
		if op.K == "raw" {
			mu.Lock()
			defer mu.Unlock()
			if op.S == 2 && len(keep)+len(hs)+2 > max || !rawOK {
				op.S = 0
			}
			if rawOK {
				raw(addr, op, m, &keep)
			}
			return nil
		}
		e := h.step(op, m)
		if e == errEnd {
			h.close()
			return h.open()
		}
		if e != nil {
			return pbt.Failf("client %d: %s", h.i, e)
		}
		return nil
	}
	err := func() error {
		if c.Par || len(hs)+2 > max {
			var wg sync.WaitGroup
			errs := make([]error, len(hs))
			ms := make([]*pbt.Meter, len(hs))
			for i, h := range hs {
				i, h := i, h
				ms[i] = pbt.NewMeter()
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if x := recover(); x != nil {
							errs[i] = pbt.Failf("client %d: panic: %v", i, x)
						}
						h.close()
					}()
					if errs[i] = h.open(); errs[i] != nil {
						return
					}
					for k, op := range c.Ops {
						if op.C != i {
							continue
						}
						if e := one(h, op, ms[i], len(hs)+2 <= max); e != nil {
							errs[i] = pbt.Failf("op %d: %s", k, e)
							return
						}
					}
				}()
			}
			wg.Wait()
			for i := range hs {
				for k, v := range ms[i].Classes {
					m.Add(k, v)
				}
				if ms[i].IsNonTrivial() {
					m.NonTrivial()
				}
			}
			if len(hs) > 1 {
				m.Hit("concurrent clients")
			}
			for _, e := range errs {
				if e != nil {
					return e
				}
			}
			return nil
		}
		defer func() {
			for _, h := range hs {
				h.close()
			}
		}()
		for _, h := range hs {
			if e := h.open(); e != nil {
				return e
			}
		}
		for i, op := range c.Ops {
			if e := one(hs[op.C], op, m, true); e != nil {
				return pbt.Failf("op %d: %s", i, e)
			}
		}
		return nil
	}()
	for _, k := range keep {
		k.Close()
	}
	if err != nil {
		return err
	}
	if e := alive(addr, &x); e != nil {
		return e
	}
	// nothing goes on for clients which left
	for i := 0; runtime.NumGoroutine() > up; i++ {
		if i > 4000 {
			b := make([]byte, 1<<16)
			b = b[:runtime.Stack(b, true)]
			return pbt.Failf("%d goroutines work on after all clients left\n%s", runtime.NumGoroutine()-up, b)
		}
		time.Sleep(5 * time.Millisecond)
	}
	_ = base
	return stop()
}

func init() {
	s := pbt.Def("C18", "clients", 8000, 150000, "a solve gave 1 or -1", genH, runH)
	s.Timeout = 120 * time.Second
	s.Procs = 4
}
