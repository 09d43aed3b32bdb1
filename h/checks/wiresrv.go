package checks

import (
	"fmt"
	"io"
	"net"
	"path/filepath"
	"runtime"
	"slices"
	"time"

	"github.com/go-air/gini/crisp"
	"github.com/go-air/gini/z"

	"ginicheck/pbt"
	"ginicheck/ref"
)

// SOp is a request to a server.
type SOp struct {
	K string   `json:"k"`
	L []int    `json:"l,omitempty"` // literals +-(slot+1) of add (0 ends clauses), assume
	C []uint32 `json:"c,omitempty"` // codes of modelfor, failedfor, key
	N int      `json:"n,omitempty"` // solve: after so many unknowns the client sends <end> (0: never)
	X uint32   `json:"x,omitempty"` // bad: a number
	S string   `json:"s,omitempty"` // bad: what
}

// SCase is a conversation of a raw client with a server.
type SCase struct {
	IDs   []int  `json:"ids"`
	Sizes []int  `json:"sizes,omitempty"`
	Ops   []SOp  `json:"ops"`
	Next  *SCase `json:"next,omitempty"` // the next conversation with the same handler
}

// genS makes conversations; bad says which kind of end they may have.
func genS(bad func(t *pbt.T) SOp) func(t *pbt.T) *SCase {
	return func(t *pbt.T) *SCase {
		n := 2 + t.N(5)
		c := &SCase{IDs: genIDs(t, n, 40), Sizes: genSizes(t)}
		tt := ref.All(n)
		code := func(l int) uint32 { return uint32(lit(l)) }
		codes := func(max int) (r []uint32) {
			if t.P(30) {
				return genCodes(t, max)
			}
			t.Exactly(t.N(max+1), func(int) {
				if l := genLit(t, n); t.P(70) {
					if l < 0 {
						l = -c.IDs[-l-1]
					} else {
						l = c.IDs[l-1]
					}
					r = append(r, code(l))
				} else {
					r = append(r, genCode(t, 300))
				}
			})
			return
		}
		last := 0 // 0 not solved, else 1
		t.Repeat(1, 50, 14, func(int) {
			switch t.Pick(24, 15, 18, 36*last, 24*last, 3, 3, 3, 1) {
			case 0:
				op := SOp{K: "add"}
				t.Exactly(t.N(5), func(int) { op.L = append(append(op.L, genClause(t, n, tt, 80, t.Bool())...), 0) })
				c.Ops = append(c.Ops, op)
				last = 0
			case 1:
				op := SOp{K: "assume"}
				t.Exactly(t.N(4), func(int) { op.L = append(op.L, genLit(t, n)) })
				c.Ops = append(c.Ops, op)
				last = 0
			case 2:
				c.Ops = append(c.Ops, SOp{K: "solve", N: t.Pick(5, 1, 1, 1)})
				last = 1
			case 3:
				// model and modelfor, or failed and failedfor
				c.Ops = append(c.Ops, SOp{K: "all", N: t.N(2)})
			case 4:
				c.Ops = append(c.Ops, SOp{K: "for", C: codes(80)})
			case 5:
				c.Ops = append(c.Ops, SOp{K: "ext"})
			case 6:
				op := SOp{K: "key"}
				k := t.N(6)
				if t.P(10) {
					k = t.N(700)
				}
				t.Exactly(k, func(int) { op.C = append(op.C, uint32(t.U64())) })
				c.Ops = append(c.Ops, op)
				last = 0
			case 7:
				c.Ops = append(c.Ops, SOp{K: "reset"})
				last = 0
			case 8:
				c.Ops = append(c.Ops, SOp{K: "hard"}, SOp{K: "solve", N: 1})
				last = 1
			}
		})
		c.Ops = append(c.Ops, bad(t))
		return c
	}
}

func genCodecEnd(t *pbt.T) SOp {
	switch t.Pick(5, 4, 3) {
	case 1:
		return SOp{K: "over", N: t.N(4), X: uint32(t.U64()), S: []string{"", "add", "assume", "key", "modelfor"}[t.N(5)]}
	case 2:
		return SOp{K: "trunc", N: t.N(4), X: uint32(t.U64()), S: []string{"", "add", "assume", "key", "solve"}[t.N(5)]}
	}
	return SOp{K: "quit"}
}

func genProtoEnd(t *pbt.T) SOp {
	switch t.Pick(12, 3, 3, 3, 3, 4, 1) {
	case 0: // results asked for in any state
		return SOp{K: "state", S: []string{"model", "modelfor", "failed", "failedfor"}[t.N(4)], N: t.N(6)}
	case 1:
		return SOp{K: "bad", S: "idle", X: []uint32{wOp["continue"], wOp["end"]}[t.N(2)]}
	case 2:
		return SOp{K: "bad", S: "idle", X: wMin + uint32(t.N(239))}
	case 3:
		return SOp{K: "bad", S: "idle", X: genCode(t, 300) - 2}
	case 4:
		x := wMin + uint32(t.N(256))
		if x == wOp["end"] {
			x--
		}
		return SOp{K: "bad", S: "add", X: x}
	case 5:
		// other ops while solving
		return SOp{K: "bad", S: "solving", X: wOp[[]string{"add", "assume", "solve", "model", "failed", "modelfor", "failedfor", "reset", "key", "ext"}[t.N(10)]]}
	}
	return SOp{K: "quit"}
}

type wsrv struct {
	conn net.Conn
	rd   *vuRd
}

// replyErr reads an <error>, then the end of the connection.
func (w *wsrv) replyErr(what string, code crisp.ProtoErr) error {
	u, e := w.rd.next()
	if e != nil || u != wOp["error"] {
		return pbt.Failf("%s: the server replies %s (%v), want <error>", what, wName(u), e)
	}
	u, e = w.rd.next()
	if e != nil {
		return pbt.Failf("%s: <error> without code: %v", what, e)
	}
	if u < 1 || u > uint32(crisp.ErrInternal) || code != 0 && u != uint32(code) {
		return pbt.Failf("%s: <error> %d (%s), want %d (%s)", what, u, crisp.ProtoErr(u), uint32(code), code)
	}
	return w.eof(what)
}

func (w *wsrv) eof(what string) error {
	b, e := io.ReadAll(w.conn)
	if ne, ok := e.(net.Error); ok && ne.Timeout() {
		return pbt.Failf("%s: the server does not disconnect", what)
	}
	if len(b) != 0 {
		return pbt.Failf("%s: the server sends %x", what, b)
	}
	return nil
}

func (w *wsrv) words(what string, n int) ([]bool, error) {
	k, e := w.rd.next()
	if e != nil || k != uint32(n+31)/32 {
		return nil, pbt.Failf("%s of %d elements: the server announces %s words (%v)", what, n, wName(k), e)
	}
	var r []bool
	for i := uint32(0); i < k; i++ {
		u, e := w.rd.next()
		if e != nil {
			return nil, pbt.Failf("%s: %s", what, e)
		}
		for j := 0; j < 32; j++ {
			r = append(r, u>>j&1 == 1)
		}
	}
	return r, nil
}

func (w *wsrv) list(what string) (r []uint32, e error) {
	for {
		u, e := w.rd.next()
		if e != nil {
			return r, pbt.Failf("%s: %s", what, e)
		}
		if u == 0 {
			return r, nil
		}
		if u >= wMin {
			return r, pbt.Failf("%s: the server sends %s", what, wName(u))
		}
		r = append(r, u)
	}
}

// startServer starts a server; stop shuts it down.
func startServer(addr string) (stop func() error, err error) {
	s, e := crisp.NewServer(addr)
	if e != nil {
		return nil, e
	}
	end := make(chan error, 1)
	go func() { end <- s.Serve() }()
	return func() error {
		s.Shutdown() // nb gives an error, as the socket is already removed
		select {
		case <-end:
			return nil
		case <-time.After(20 * time.Second):
			return pbt.Failf("the server goes on serving after Shutdown")
		}
	}, nil
}

// alive checks that addr serves a new client.
func alive(addr string, x *rng) error {
	cl, e := crisp.Dial(addr)
	if e != nil {
		return pbt.Failf("the server does not serve another client: %s", e)
	}
	defer cl.Close()
	a, b := z.Var(1+x.n(40)).Pos(), z.Var(50+x.n(40)).Neg()
	for _, m := range []z.Lit{a, b, 0, a.Not(), 0} {
		if e := cl.Add(m); e != nil {
			return pbt.Failf("another client: Add: %s", e)
		}
	}
	if r, e := cl.Solve(); r != 1 || e != nil {
		return pbt.Failf("another client: %d, %v for a satisfiable problem", r, e)
	}
	if v, e := cl.Value(b); !v || e != nil {
		return pbt.Failf("another client: a literal which must be true has value %v, %v", v, e)
	}
	if e := cl.Assume(b.Not()); e != nil {
		return pbt.Failf("another client: Assume: %s", e)
	}
	if r, e := cl.Solve(); r != -1 || e != nil {
		return pbt.Failf("another client: %d, %v for an unsatisfiable problem", r, e)
	}
	if ms, e := cl.Why(nil); len(ms) != 1 || ms[0] != b.Not() || e != nil {
		return pbt.Failf("another client: failed assumptions %v, %v", ms, e)
	}
	if e := cl.Quit(); e != nil {
		return pbt.Failf("another client: Quit: %s", e)
	}
	return nil
}

func runS(c *SCase, m *pbt.Meter) error {
	dir, done, e := wDir()
	if e != nil {
		return e
	}
	defer done()
	addr := "@" + filepath.Join(dir, "s")
	stop, e := startServer(addr)
	if e != nil {
		return pbt.Failf("new server: %s", e)
	}
	if e := convS(addr[1:], c, m); e != nil {
		return e
	}
	x := rng{uint64(len(c.Ops))}
	if e := alive(addr, &x); e != nil {
		return e
	}
	return stop()
}

func convS(path string, c *SCase, m *pbt.Meter) error {
	conn, e := net.Dial("unix", path)
	if e != nil {
		return pbt.Failf("dial: %s", e)
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(40 * time.Second))
	w := &wsrv{conn, &vuRd{conn}}
	for _, x := range []uint32{'C', 'R', 'I', 'S', 'P', uint32(crisp.V)} {
		if u, e := w.rd.next(); u != x || e != nil {
			return pbt.Failf("greeting has %d (%v) instead of %d", u, e, x)
		}
	}
	n := len(c.IDs)
	slot := map[int]int{}
	for i, id := range c.IDs {
		slot[id] = i
	}
	code := func(l int) uint32 {
		if l < 0 {
			return uint32(z.Var(c.IDs[-l-1]).Neg())
		}
		return uint32(z.Var(c.IDs[l-1]).Pos())
	}
	tt := ref.All(n)
	var cur, asm []int // assumptions to come, of the last solve
	maxVar := 0
	state := "new" // or changed, sat, unsat, end
	var model []bool
	var out []byte
	send := func(us ...uint32) { out = vuEnc(out, us...) }
	var todo []func() error
	hard := false
	last := false // the server may disconnect before it has read everything
	// flush sends everything, then reads the replies.
	flush := func() error {
		if e := writeChunks(conn, out, c.Sizes); e != nil && !last {
			return pbt.Failf("write: %s", e)
		}
		out = nil
		for _, f := range todo {
			if e := f(); e != nil {
				return e
			}
		}
		if len(todo) > 1 {
			m.Hit("replies to several requests at once")
		}
		todo = nil
		return nil
	}
	use := func(l int) {
		maxVar = max(maxVar, c.IDs[abs(l)-1])
	}
	solve := func(end int) error {
		send(wOp["solve"])
		if e := flush(); e != nil {
			return e
		}
		sat := tt.Sat(cur...)
		asm, cur = cur, nil
		model = nil
		ended := false
		for k := 1; ; k++ {
			u, e := w.rd.next()
			if e != nil {
				return pbt.Failf("solve: %s", e)
			}
			switch u {
			case wOp["unknown"]:
				if ended {
					return pbt.Failf("solve: <unknown> after <end>")
				}
				if k == end {
					send(wOp["end"])
					ended = true
				} else {
					send(wOp["continue"])
				}
				if e := flush(); e != nil {
					return e
				}
				continue
			case wOp["sat"]:
				state = "sat"
			case wOp["unsat"]:
				state = "unsat"
			case wOp["end"]:
				if !ended {
					return pbt.Failf("solve: the server gives up")
				}
				m.Hit("ended")
				state = "end"
			default:
				return pbt.Failf("solve: the server replies %s", wName(u))
			}
			m.Hit(state)
			if state == "sat" && !sat || state == "unsat" && sat {
				return pbt.Failf("solve: %s is wrong, assumptions %v", state, asm)
			}
			return nil
		}
	}
	valOf := func(u uint32) (v int, known bool) {
		s, ok := slot[int(u>>1)]
		return s, ok
	}
	results := func(op SOp, i int) {
		tt, asm := tt.Copy(), asm // at the time of the request
		switch {
		case op.K == "all" && state == "sat":
			send(wOp["model"])
			mv := maxVar
			todo = append(todo, func() error {
				r, e := w.words(fmt.Sprintf("op %d: model", i), mv)
				if e != nil {
					return e
				}
				vals := make([]bool, n)
				for s, id := range c.IDs {
					if id <= mv {
						vals[s] = r[id-1]
					}
				}
				for _, l := range asm {
					if vals[abs(l)-1] != (l > 0) {
						return pbt.Failf("op %d: model with assumption %d false", i, l)
					}
				}
				if !tt.Has(vals) {
					return pbt.Failf("op %d: model %v violates a clause", i, vals)
				}
				if model != nil && !slices.Equal(model, vals) {
					return pbt.Failf("op %d: model %v differs from %v before", i, vals, model)
				}
				model = vals
				m.Hit("model")
				return nil
			})
		case op.K == "for" && state == "sat":
			send(wOp["modelfor"])
			send(op.C...)
			send(0)
			mv := maxVar
			todo = append(todo, func() error {
				r, e := w.words(fmt.Sprintf("op %d: partial model", i), len(op.C))
				if e != nil {
					return e
				}
				seen := map[uint32]bool{}
				var vs []int
				for k, u := range op.C {
					b := r[k] == (u&1 == 0)
					if x, ok := seen[u>>1]; ok && x != b {
						return pbt.Failf("op %d: partial model is inconsistent for variable %d", i, u>>1)
					}
					seen[u>>1] = b
					s, ok := valOf(u)
					if !ok || int(u>>1) > mv {
						m.Hit("value of an unknown variable")
						continue
					}
					if model != nil && model[s] != b {
						return pbt.Failf("op %d: partial model differs from the model at variable %d", i, u>>1)
					}
					if b {
						vs = append(vs, s+1)
					} else {
						vs = append(vs, -s-1)
					}
				}
				if !tt.Sat(append(vs, asm...)...) {
					return pbt.Failf("op %d: partial model %v has no extension", i, vs)
				}
				m.Hit("partial model")
				return nil
			})
		case op.K == "all" && state == "unsat":
			send(wOp["failed"])
			todo = append(todo, func() error {
				r, e := w.list(fmt.Sprintf("op %d: failed", i))
				if e != nil {
					return e
				}
				var ls []int
				for _, u := range r {
					s, ok := valOf(u)
					l := s + 1
					if u&1 == 1 {
						l = -l
					}
					if !ok || !slices.Contains(asm, l) {
						return pbt.Failf("op %d: failed literal %d was not assumed", i, u)
					}
					ls = append(ls, l)
				}
				if tt.Sat(ls...) {
					return pbt.Failf("op %d: failed literals %v of %v are not sufficient", i, ls, asm)
				}
				m.Hit("failed")
				return nil
			})
		case op.K == "for" && state == "unsat":
			send(wOp["failedfor"])
			send(op.C...)
			send(0)
			send(wOp["failed"])
			todo = append(todo, func() error {
				r, e := w.list(fmt.Sprintf("op %d: failedfor", i))
				if e != nil {
					return e
				}
				f, e := w.list(fmt.Sprintf("op %d: failed", i))
				if e != nil {
					return e
				}
				var want []uint32
				for _, u := range op.C {
					if slices.Contains(f, u) {
						want = append(want, u)
					}
				}
				if !slices.Equal(r, want) {
					return pbt.Failf("op %d: failedfor %v with failed literals %v gives %v, want %v", i, op.C, f, r, want)
				}
				m.Hit("failedfor")
				if len(want) > 0 {
					m.Hit("failedfor, not empty")
				}
				return nil
			})
		}
	}
	for i, op := range c.Ops {
		what := fmt.Sprintf("op %d, %s %s", i, op.K, op.S)
		switch op.K {
		case "add":
			send(wOp["add"])
			var cl []int
			for _, l := range op.L {
				if l == 0 {
					tt.Clause(cl)
					cl = nil
					send(0)
					continue
				}
				send(code(l))
				use(l)
				cl = append(cl, l)
			}
			send(wOp["end"])
			state = "changed"
		case "hard": // 10 pigeons in 9 holes
			send(wOp["add"])
			ph := func(p, h int) uint32 { return uint32(2 * (1000 + 9*p + h)) }
			for p := 0; p < 10; p++ {
				for h := 0; h < 9; h++ {
					send(ph(p, h))
				}
				send(0)
				for q := 0; q < p; q++ {
					for h := 0; h < 9; h++ {
						send(ph(p, h)^1, ph(q, h)^1, 0)
					}
				}
			}
			send(wOp["end"])
			tt.Clause(nil)
			maxVar = max(maxVar, 1000+89)
			state = "changed"
			hard = true
		case "assume":
			send(wOp["assume"])
			for _, l := range op.L {
				send(code(l))
				use(l)
				cur = append(cur, l)
			}
			send(0)
			state = "changed"
		case "solve":
			if hard {
				op.N = max(op.N, 1)
			}
			if e := solve(op.N); e != nil {
				return e
			}
		case "all", "for":
			results(op, i)
			if op.N == 1 {
				if e := flush(); e != nil {
					return e
				}
			}
		case "ext":
			send(wOp["ext"])
			todo = append(todo, func() error {
				_, e := w.list(what)
				return e
			})
		case "key":
			send(wOp["key"], uint32(len(op.C)))
			send(op.C...)
			state = "key"
		case "reset":
			send(wOp["reset"])
			tt = ref.All(n)
			cur, asm, maxVar, state = nil, nil, 0, "new"
			hard = false
			if e := flush(); e != nil { // the expectations use tt
				return e
			}
		case "quit":
			m.NonTrivial()
			send(wOp["quit"])
			if e := flush(); e != nil {
				return e
			}
			return w.eof(what)
		case "over", "trunc":
			m.NonTrivial()
			if e := flush(); e != nil {
				return e
			}
			switch op.S {
			case "add":
				send(wOp["add"], uint32(2+op.N))
			case "assume":
				send(wOp["assume"], 2, 5)
				if len(op.L) > 0 {
					out = nil
					send(wOp["assume"])
				}
				for _, l := range op.L {
					send(code(l))
				}
			case "key":
				send(wOp["key"], 3, 1)
			case "modelfor":
				if state == "sat" {
					send(wOp["modelfor"], 2, 3)
				}
			case "asking":
				if state == "sat" || state == "unsat" {
					send(map[string]uint32{"sat": wOp["modelfor"], "unsat": wOp["failedfor"]}[state])
					for _, l := range op.L {
						send(code(l))
					}
				}
			}
			m.Hit(op.K + " " + op.S)
			if op.K == "over" {
				last = true
				out = append(out, vuBad(op.N, op.X)...)
				if e := flush(); e != nil {
					return e
				}
				return w.replyErr(what, 0)
			}
			x := vuEnc(nil, op.X|1<<28)
			if op.S == "solve" {
				x = vuEnc(nil, wOp["solve"])
			}
			out = append(out, x[:1+op.N]...)
			if e := flush(); e != nil {
				return e
			}
			conn.(*net.UnixConn).CloseWrite()
			b, e := io.ReadAll(conn)
			if e != nil {
				return pbt.Failf("%s: the server does not disconnect: %s", what, e)
			}
			if len(b) > 0 {
				return pbt.Failf("%s: the server replies %x", what, b)
			}
			return nil
		case "state":
			if e := flush(); e != nil {
				return e
			}
			m.NonTrivial()
			good := map[string]string{"model": "sat", "modelfor": "sat", "failed": "unsat", "failedfor": "unsat"}[op.S]
			m.Hit(op.S + " when " + state)
			if state == good {
				k := "all"
				var cs []uint32
				if op.S == "modelfor" || op.S == "failedfor" {
					k = "for"
					for s := 0; s < op.N; s++ {
						cs = append(cs, code(1+s%n))
					}
				}
				results(SOp{K: k, C: cs}, i)
				if e := flush(); e != nil {
					return e
				}
				return nil
			}
			var want crisp.ProtoErr
			switch {
			case state == "changed" && asm == nil && tt.Sat():
			case state == "sat":
				want = crisp.ErrNotUnsat
			case state == "unsat":
				want = crisp.ErrNotSat
			case state == "end" && good == "sat":
				want = crisp.ErrNotSat
			case state == "end":
				want = crisp.ErrNotUnsat
			}
			last = true
			send(wOp[op.S])
			if e := flush(); e != nil {
				return e
			}
			return w.replyErr(what+" when "+state, want)
		case "bad":
			m.NonTrivial()
			if e := flush(); e != nil {
				return e
			}
			m.Hit("bad op " + op.S)
			switch op.S {
			case "solving":
				send(wOp["solve"])
				if e := flush(); e != nil {
					return e
				}
				u, e := w.rd.next()
				if e != nil {
					return pbt.Failf("%s: %s", what, e)
				}
				if u != wOp["unknown"] {
					return nil
				}
				m.Hit("bad op while solving")
			case "add":
				send(wOp["add"], 2, 0, 3, 5)
			}
			last = true
			send(op.X)
			if e := flush(); e != nil {
				return e
			}
			return w.replyErr(what+" "+wName(op.X), 0)
		}
	}
	return flush()
}

// genNext makes conversations one after the other, each of which ends in some
// way and the next of which has nothing to do with it.
func genNext(t *pbt.T) *SCase {
	var ids []int
	end := func(t *pbt.T) SOp {
		if t.P(50) {
			return genProtoEnd(t)
		}
		op := genCodecEnd(t)
		if op.K != "quit" && t.P(60) {
			op.S = []string{"assume", "asking"}[t.N(2)]
			t.Exactly(1+t.N(5), func(int) { op.L = append(op.L, t.N(1<<16)) })
		}
		return op
	}
	var first, last *SCase
	t.Exactly(2+t.N(3), func(int) {
		c := genS(end)(t)
		c.Sizes = nil
		if ids == nil {
			ids = c.IDs
		}
		if len(c.IDs) == len(ids) || len(c.IDs) < len(ids) {
			c.IDs = ids[:len(c.IDs)]
		}
		if k := len(c.Ops) - 1; t.P(30) {
			c.Ops = c.Ops[k:]
		} else if t.P(50) {
			c.Ops = append(c.Ops[:min(k, 1+t.N(4)):k], c.Ops[k])
		}
		e := &c.Ops[len(c.Ops)-1]
		for i, x := range e.L {
			if e.L[i] = 1 + x>>1%len(c.IDs); x&1 == 1 {
				e.L[i] = -e.L[i]
			}
		}
		if first == nil {
			first = c
		} else {
			last.Next = c
		}
		last = c
	})
	return first
}

// runNext has the conversations with one handler of the server, as all others
// are busy.
func runNext(c *SCase, m *pbt.Meter) error {
	dir, done, e := wDir()
	if e != nil {
		return e
	}
	defer done()
	addr := "@" + filepath.Join(dir, "s")
	stop, e := startServer(addr)
	if e != nil {
		return pbt.Failf("new server: %s", e)
	}
	var busy []*crisp.Client
	defer func() {
		for _, cl := range busy {
			cl.Close()
		}
	}()
	for i := 1; i < runtime.NumCPU(); i++ {
		cl, e := crisp.Dial(addr)
		if e != nil {
			return pbt.Failf("client %d: %s", i, e)
		}
		busy = append(busy, cl)
	}
	x := rng{uint64(len(c.Ops))}
	k := 0
	for s := c; s != nil; s = s.Next {
		if e := convS(addr[1:], s, m); e != nil {
			return pbt.Failf("conversation %d: %s", k, e)
		}
		k++
	}
	if e := alive(addr, &x); e != nil {
		return e
	}
	for _, cl := range busy {
		cl.Close()
	}
	busy = nil
	return stop()
}

func init() {
	pbt.Def("C18", "next", 3000, 60000, "the conversations were executed to their ends", genNext, runNext).Timeout = 100 * time.Second
	pbt.Def("C19", "server", 3000, 60000, "the conversation was executed to its end: quit, or a bad or truncated encoding", genS(genCodecEnd), runS).Timeout = 100 * time.Second
	pbt.Def("C18", "protocol", 3000, 60000, "the conversation was executed to its last request, which is checked in the state reached", genS(genProtoEnd), runS).Timeout = 100 * time.Second
}
