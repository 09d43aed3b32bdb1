package checks

import (
	"fmt"
	"runtime"
	"slices"
	"sync"
	"sync/atomic"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/ax"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"

	"ginicheck/pbt"
	"ginicheck/ref"
)

// AReq is a request of client C.
type AReq struct {
	C     int   `json:"c,omitempty"`
	L     []int `json:"l,omitempty"`     // literals +-(slot+1)
	Flag  int   `json:"flag,omitempty"`  // 1 model, 2 why
	Limit int   `json:"limit,omitempty"` // microseconds
	End   bool  `json:"end,omitempty"`   // asks for the part beyond reach
	Try   bool  `json:"try,omitempty"`   // by TryEx
	Wait  int   `json:"wait,omitempty"`  // before it, 50 us each
	Take  int   `json:"take,omitempty"`  // responses awaited before it (single client)
	Poll  int   `json:"poll,omitempty"`  // TryEx(nil) before it
}

// ACase is a use of an assumption exchanger.
type ACase struct {
	IDs  []int   `json:"ids"`            // variables of the small problem
	Cls  [][]int `json:"cls,omitempty"`  // its clauses
	N    int     `json:"n,omitempty"`    // else: a random 3-SAT problem
	Seed uint64  `json:"seed,omitempty"` // of it
	M    int     `json:"m,omitempty"`
	End  bool    `json:"end,omitempty"` // a guarded pigeon hole part
	Used int     `json:"used,omitempty"`
	Wrap bool    `json:"wrap,omitempty"` // proto is a wrapped solver
	Cap  int     `json:"cap"`
	K    int     `json:"k"`            // clients
	Ex   bool    `json:"ex,omitempty"` // blocking drain
	Reqs []AReq  `json:"reqs"`
	Stop int     `json:"stop,omitempty"` // 0 when all is answered, 1 after StopN responses, 2 at time StopN
	SN   int     `json:"sn,omitempty"`
	Dbl  int     `json:"dbl,omitempty"` // concurrent calls of Stop, less 1
}

func genA(t *pbt.T) *ACase {
	c := &ACase{Cap: 1 + t.Pick(5, 5, 4, 3, 1, 1, 1, 1), K: 1 + t.Pick(12, 4, 3, 1), Ex: t.P(50)}
	n := 1 + t.N(8)
	if t.P(25) {
		n = 40 + t.N(60)
		c.N, c.Seed = n, t.U64()
		c.M = n * (30 + t.N(20)) / 10
	} else {
		c.IDs = genIDs(t, n, 30)
		tt := ref.All(n)
		t.Exactly(t.N(4*n+1), func(int) { c.Cls = append(c.Cls, genClause(t, n, tt, 90, t.P(50))) })
	}
	c.Used = t.Pick(6, 2, 2)
	c.Wrap = t.P(8)
	c.End = t.P(30)
	endless := 0
	t.Repeat(0, 80, 3*c.K+2*c.Cap+3, func(i int) {
		r := AReq{C: t.N(c.K), Flag: t.Pick(1, 2, 2, 6), Try: t.P(35)}
		t.Repeat(0, 12, 3, func(int) { r.L = append(r.L, genLit(t, n)) })
		switch t.Pick(10, 2, 1, 2, 1) {
		case 1:
			r.Limit = 1 + t.N(3000)
		case 2:
			r.Limit = 1
		case 3:
			r.Limit = 20000000
		case 4:
			r.Limit = -1 - t.N(3)
		}
		if c.End && t.P(30) {
			r.End = true
			if r.Limit <= 0 || r.Limit > 5000 {
				r.Limit = 0
				if endless < c.Cap-1 && t.P(50) {
					endless++
				} else {
					r.Limit = 1 + t.N(5000)
				}
			}
		}
		if t.P(20) {
			r.Wait = t.N(60)
		}
		if t.P(20) {
			r.Take = 1 + t.N(4)
		}
		if t.P(20) {
			r.Poll = 1 + t.N(4)
		}
		c.Reqs = append(c.Reqs, r)
	})
	switch c.Stop = t.Pick(6, 2, 2); c.Stop {
	case 1:
		c.SN = t.N(len(c.Reqs) + 1)
	case 2:
		c.SN = t.N(200)
	}
	if t.P(30) {
		c.Dbl = 1 + t.N(2)
	}
	return c
}

type axh struct {
	c    *ACase
	m    *pbt.Meter
	cls  [][]int // over the variables of the proto solver
	max  int
	g    int // guard of the part beyond reach
	tt   *ref.TT
	reqs []*ax.Request
	mss  [][]z.Lit // of the requests, as sent
	sent []atomic.Int64

	mu      sync.Mutex
	idx     map[*ax.Request]int
	got     []bool
	errs    []error
	done    atomic.Int64 // responses received
	limited atomic.Int64
	stopped atomic.Bool
	zero    atomic.Bool // a response told that nothing is pending
}

func (h *axh) fail(f string, a ...any) {
	h.mu.Lock()
	h.errs = append(h.errs, pbt.Failf(f, a...))
	h.mu.Unlock()
}

func (h *axh) failed() bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return len(h.errs) > 0
}

// lits gives the literals of request i over the solver's variables, and
// over the slots.
func (h *axh) lits(i int) (r []int) {
	for _, l := range h.c.Reqs[i].L {
		r = append(r, h.lit(l))
	}
	if h.g != 0 {
		if h.c.Reqs[i].End {
			r = append(r, h.g)
		} else {
			r = append(r, -h.g)
		}
	}
	return
}

func (h *axh) lit(l int) int {
	v := abs(l)
	if h.c.N == 0 {
		v = h.c.IDs[v-1]
	}
	if l < 0 {
		return -v
	}
	return v
}

func zl(l int) z.Lit { return z.Dimacs2Lit(l) }

// verdict of the problem under some of the literals of request i.
func (h *axh) verdict(i int, keep func(l int) bool) (int, bool) {
	r := h.c.Reqs[i]
	if r.End && keep(h.g) {
		// the part beyond reach is unsatisfiable
		return -1, true
	}
	var ls []int
	for _, l := range r.L {
		if keep(h.lit(l)) {
			ls = append(ls, l)
		}
	}
	sat := false
	if h.tt != nil {
		sat = h.tt.Sat(ls...)
	} else {
		var ok bool
		sat, _, ok = ref.Solve(h.c.N, h.cls[:h.c.M], ls, 20000)
		if !ok {
			return 0, false
		}
	}
	if sat {
		return 1, true
	}
	return -1, true
}

// take checks a response.
func (h *axh) take(r *ax.Response) {
	h.done.Add(1)
	h.mu.Lock()
	i, ok := h.idx[r.Req]
	dup := ok && h.got[i]
	if ok {
		h.got[i] = true
	}
	h.mu.Unlock()
	if !ok {
		h.fail("response to a request never made: %v", r.Req)
		return
	}
	if dup {
		h.fail("request %d has a second response", i)
		return
	}
	q := h.reqs[i]
	if !slices.Equal(q.Ms, h.mss[i]) {
		h.fail("literals of request %d changed from %v to %v", i, h.mss[i], q.Ms)
	}
	if q.Limit != time.Duration(h.c.Reqs[i].Limit)*time.Microsecond || int(q.Flag) != h.c.Reqs[i].Flag {
		h.fail("request %d was changed", i)
	}
	if r.Who < 0 || r.Who >= h.c.Cap {
		h.fail("request %d was processed by unit %d of %d", i, r.Who, h.c.Cap)
	}
	if r.HasPending() != (r.Pending == 0) || (*ax.Response)(nil).HasPending() {
		h.fail("HasPending tells %t with %d pending, %t without response", r.HasPending(), r.Pending, (*ax.Response)(nil).HasPending())
	}
	if r.Pending == 0 {
		h.zero.Store(true)
	}
	if r.Pending < 0 || r.Pending >= len(h.reqs) {
		h.fail("response to request %d tells %d pending", i, r.Pending)
	}
	if r.Dur < 0 || r.Dur > time.Duration(time.Now().UnixNano()-h.sent[i].Load())+time.Second {
		h.fail("response to request %d after %s, said to take %s", i, time.Duration(time.Now().UnixNano()-h.sent[i].Load()), r.Dur)
	}
	if r.Res == 0 {
		h.limited.Add(1)
		if h.stopped.Load() {
			return
		}
		if q.Limit == 0 {
			h.fail("request %d without a limit has no answer", i)
		} else if r.Dur < q.Limit {
			h.fail("request %d with limit %s has no answer after %s", i, q.Limit, r.Dur)
		}
		return
	}
	want, ok := h.verdict(i, func(int) bool { return true })
	if !ok {
		return
	}
	if r.Res != want {
		h.fail("request %d %v: %d, not %d", i, h.lits(i), r.Res, want)
		return
	}
	if r.Res == 1 && q.Flag.Model() {
		val := map[int]bool{}
		for _, l := range r.Ms {
			v := int(l.Var())
			if _, dup := val[v]; dup {
				h.fail("model of request %d has variable %d twice", i, v)
				return
			}
			val[v] = l.IsPos()
		}
		hold := func(l int) (bool, bool) {
			b, ok := val[abs(l)]
			return b == (l > 0), ok
		}
		for _, l := range h.lits(i) {
			if b, ok := hold(l); !ok || !b {
				h.fail("model of request %d %v does not have %d", i, h.lits(i), l)
				return
			}
		}
	cl:
		for _, cl := range h.cls {
			for _, l := range cl {
				b, ok := hold(l)
				if !ok {
					h.fail("model of request %d has no value for %d", i, l)
					return
				}
				if b {
					continue cl
				}
			}
			h.fail("model of request %d does not satisfy %v", i, cl)
			return
		}
	}
	if r.Res == -1 && q.Flag.Why() {
		ls := h.lits(i)
		in := map[int]bool{}
		for _, l := range r.Ms {
			d := l.Dimacs()
			if !slices.Contains(ls, d) {
				h.fail("request %d %v failed by %d", i, ls, d)
				return
			}
			in[d] = true
		}
		if w, ok := h.verdict(i, func(l int) bool { return in[l] }); ok && w != -1 {
			h.fail("request %d %v failed by %v, which is satisfiable", i, ls, r.Ms)
		}
	}
}

// axPhp are the clauses of p pigeons in p-1 holes, from variable b on.
func axPhp(p, b int) (cs [][]int) {
	v := func(i, j int) int { return b + i*(p-1) + j }
	for i := 0; i < p; i++ {
		var c []int
		for j := 0; j < p-1; j++ {
			c = append(c, v(i, j))
		}
		cs = append(cs, c)
	}
	for j := 0; j < p-1; j++ {
		for i := 0; i < p; i++ {
			for k := 0; k < i; k++ {
				cs = append(cs, []int{-v(i, j), -v(k, j)})
			}
		}
	}
	return
}

func runA(c *ACase, m *pbt.Meter) error {
	d := *c
	c = &d
	c.Reqs = slices.Clone(c.Reqs)
	h := &axh{c: c, m: m, idx: map[*ax.Request]int{}}
	n := len(c.IDs)
	if c.N > 0 {
		n = c.N
		x := rng{c.Seed}
		for i := 0; i < c.M; i++ {
			var cl []int
			for _, v := range distinct(&x, 3, n) {
				if x.n(2) == 0 {
					v = -v
				}
				cl = append(cl, v)
			}
			h.cls = append(h.cls, cl)
		}
		m.Hit("random 3-SAT")
	} else {
		h.tt = ref.All(n)
		for _, cl := range c.Cls {
			h.tt.Clause(cl)
			var r []int
			for _, l := range cl {
				r = append(r, h.lit(l))
			}
			h.cls = append(h.cls, r)
		}
	}
	for _, v := range c.IDs {
		h.max = max(h.max, v)
	}
	h.max = max(h.max, n)
	if c.End {
		h.g = h.max + 1
		for _, cl := range axPhp(14, h.g+1) {
			h.cls = append(h.cls, append(cl, -h.g))
		}
	}
	var s inter.S
	if c.Wrap {
		s = gini.NewSv()
		m.Hit("wrapped solver")
	} else {
		s = gini.New()
	}
	for i, cl := range h.cls {
		if c.Used > 0 && i == len(h.cls)/2 {
			if h.g != 0 {
				s.Assume(zl(-h.g))
			}
			s.Try(20 * time.Millisecond)
		}
		for _, l := range cl {
			s.Add(zl(l))
		}
		s.Add(z.LitNull)
	}
	if c.Used == 2 {
		if h.g != 0 {
			s.Assume(zl(-h.g))
		}
		s.Try(20 * time.Millisecond)
	}
	h.got = make([]bool, len(c.Reqs))
	h.sent = make([]atomic.Int64, len(c.Reqs))
	rg := ax.NewRequestGen()
	endless := 0
	for i := range c.Reqs {
		if r := &c.Reqs[i]; r.End && r.Limit == 0 {
			if v, ok := h.verdict(i, func(l int) bool { return l != h.g }); !ok || v != 1 {
				r.Limit = 1000 // an answer may be found without the part beyond reach
			}
		}
		r := c.Reqs[i]
		rg.SetFlag(ax.ReqFlag(r.Flag))
		rg.Limit(time.Duration(r.Limit) * time.Microsecond)
		var ms []z.Lit
		for _, l := range h.lits(i) {
			ms = append(ms, zl(l))
		}
		q := rg.New(ms...)
		if q.Id != i || rg.Flag() != ax.ReqFlag(r.Flag) || q.Flag != ax.ReqFlag(r.Flag) || q.Limit != time.Duration(r.Limit)*time.Microsecond || !slices.Equal(q.Ms, ms) {
			return pbt.Failf("request %d is made as %v %s", i, q, q.Limit)
		}
		h.mss = append(h.mss, slices.Clone(ms))
		for j := range ms {
			ms[j] = z.LitNull // the request has literals of its own
		}
		h.reqs = append(h.reqs, q)
		h.idx[q] = i
		if r.End && r.Limit == 0 {
			endless++
		}
	}
	base := runtime.NumGoroutine()
	T := ax.NewT(s, c.Cap)
	var swg sync.WaitGroup
	stop := func() {
		h.stopped.Store(true)
		for i := 0; i < c.Dbl; i++ {
			swg.Add(1)
			go func() {
				defer swg.Done()
				T.Stop()
			}()
		}
		T.Stop()
	}
	var once sync.Once
	count := func(r *ax.Response) {
		h.take(r)
		if c.Stop == 1 && int(h.done.Load()) >= c.SN {
			once.Do(stop)
		}
	}
	if c.Stop == 1 && c.SN == 0 {
		once.Do(stop)
	}
	quit := make(chan struct{})
	if c.Stop == 2 {
		swg.Add(1)
		go func() {
			defer swg.Done()
			tm := time.NewTimer(time.Duration(c.SN) * 50 * time.Microsecond)
			defer tm.Stop()
			select {
			case <-tm.C:
				once.Do(stop)
			case <-quit:
			}
		}()
	}
	all := int64(len(c.Reqs) - endless)
	one := c.K == 1
	var accepted atomic.Int64
	client := func(k int) {
		var mine int64 // responses had by the single client
		got := func(r *ax.Response) {
			mine++
			if one && !h.stopped.Load() && int64(r.Pending) != accepted.Load()-mine {
				h.fail("response to request %d tells %d pending, %d were accepted and %d answered before", h.idx[r.Req], r.Pending, accepted.Load(), mine-1)
			}
			count(r)
		}
		left := func() bool {
			o := accepted.Load() - mine
			for i, r := range c.Reqs {
				if r.End && r.Limit == 0 && h.sent[i].Load() != 0 {
					o--
				}
			}
			return o > 0
		}
		for i, r := range c.Reqs {
			if r.C != k {
				continue
			}
			if r.Wait > 0 {
				time.Sleep(time.Duration(r.Wait) * 50 * time.Microsecond)
			}
			for j := 0; j < r.Take && one && left() && !h.stopped.Load(); j++ {
				if p := T.Ex(nil); p != nil {
					got(p)
				} else if !h.stopped.Load() {
					h.fail("Ex(nil) gives no response")
				}
			}
			for j := 0; j < r.Poll; j++ {
				p, ok := T.TryEx(nil)
				if ok != (p != nil) && !h.stopped.Load() {
					h.fail("TryEx(nil) gives %v, %t", p, ok)
				}
				if p != nil {
					got(p)
				}
			}
			for tries := 0; ; tries++ {
				if h.failed() {
					return
				}
				var p *ax.Response
				ok := true
				h.sent[i].Store(time.Now().UnixNano())
				if r.Try {
					p, ok = T.TryEx(h.reqs[i])
					if !ok && p != nil {
						h.fail("TryEx gives a response and false")
					}
				} else {
					p = T.Ex(h.reqs[i])
				}
				if h.stopped.Load() && p == nil {
					break
				}
				if p != nil {
					got(p)
					continue
				}
				if ok {
					accepted.Add(1)
					break
				}
				if tries == 20000 {
					h.fail("request %d is not accepted in 20000 tries", i)
					return
				}
				time.Sleep(time.Duration(50+tries) * time.Microsecond)
			}
		}
		for !h.failed() && !h.stopped.Load() {
			if one {
				if !left() {
					break
				}
			} else if h.done.Load() >= all {
				break
			}
			if c.Ex {
				p := T.Ex(nil)
				if p != nil {
					got(p)
				} else if !h.stopped.Load() {
					h.fail("Ex(nil) gives no response")
				}
				if !one && h.done.Load() >= all {
					once.Do(stop) // frees the others
				}
				continue
			}
			p, ok := T.TryEx(nil)
			if ok != (p != nil) && !h.stopped.Load() {
				h.fail("TryEx(nil) gives %v, %t", p, ok)
			}
			if p == nil {
				time.Sleep(50 * time.Microsecond)
				continue
			}
			got(p)
		}
		if !one && c.Ex {
			once.Do(stop)
		}
	}
	if one {
		client(0)
	} else {
		var wg sync.WaitGroup
		for k := 0; k < c.K; k++ {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if x := recover(); x != nil {
						h.fail("client %d: panic: %v", k, x)
						once.Do(stop)
					}
				}()
				client(k)
			}()
		}
		wg.Wait()
		m.Hit("several clients")
	}
	close(quit)
	early := h.stopped.Load()
	if !early && !h.failed() {
		for i, r := range c.Reqs {
			if !h.got[i] && !(r.End && r.Limit == 0) {
				h.fail("request %d has no response", i)
			}
		}
		if p, ok := T.TryEx(nil); p != nil || ok {
			h.fail("response without request: %v", p)
		}
	}
	if endless == 0 && int(h.done.Load()) == len(c.Reqs) && len(c.Reqs) > 0 && !h.zero.Load() {
		h.fail("all is answered, but each response tells some requests pending")
	}
	once.Do(stop)
	swg.Wait()
	T.Stop()
	// exchanges after Stop do not block
	for i := 0; i < 3; i++ {
		if p := T.Ex(nil); p != nil {
			h.take(p)
		}
		if p := T.Ex(rg.New()); p != nil {
			h.take(p)
		}
		if p, _ := T.TryEx(nil); p != nil {
			h.take(p)
		}
	}
	if len(h.errs) > 0 {
		return h.errs[0]
	}
	for i := 0; runtime.NumGoroutine() > base; i++ {
		if i > 4000 {
			b := make([]byte, 1<<16)
			b = b[:runtime.Stack(b, true)]
			return pbt.Failf("%d goroutines work on after Stop\n%s", runtime.NumGoroutine()-base, b)
		}
		time.Sleep(time.Duration(min(i, 50)) * 100 * time.Microsecond)
	}
	ns := int(h.done.Load())
	m.Add("responses", ns)
	m.Add("responses at the limit", int(h.limited.Load()))
	if endless > 0 {
		m.Hit("a unit busy for good")
	}
	if early {
		m.Hit("stopped early")
	}
	m.Hit(fmt.Sprintf("capacity %d", c.Cap))
	if ns >= 3 && (c.Cap > 1 || c.K > 1) {
		m.NonTrivial()
	}
	return nil
}

func init() {
	s := pbt.Def("C17", "exchange", 8000, 100000,
		"request streams of 1 to 4 clients at an exchanger with 1 to 8 units over small problems (truth table), random 3-SAT problems of 40 to 100 variables (reference solver), with or without a guarded part beyond reach; Ex and TryEx mixed, limits, requests for models and reasons, units busy for good, Stop at the end, after some responses, at some time, once or concurrently; non-trivial: at least three responses and several units or clients",
		genA, runA)
	s.Timeout = 60 * time.Second
	s.Procs = 4
}
