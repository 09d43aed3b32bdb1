package checks

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"log"
	"net"
	"os"
	"path/filepath"
	"slices"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/go-air/gini/crisp"
	"github.com/go-air/gini/z"

	"ginicheck/pbt"
)

// An independent statement of the CRISP wire format.

const (
	wTop = uint32(0xffffffff)
	wMin = wTop - 255
)

var wOps = []string{"key", "add", "assume", "solve", "continue", "end", "error", "failed", "failedfor", "model", "modelfor", "sat", "unsat", "unknown", "ext", "quit", "reset"}

var wOp = map[string]uint32{}

func init() {
	for i, s := range wOps {
		wOp[s] = wTop - uint32(i)
	}
	log.SetOutput(io.Discard) // package crisp logs
}

func wName(u uint32) string {
	if int(wTop-u) < len(wOps) {
		return "<" + wOps[wTop-u] + ">"
	}
	return fmt.Sprint(u)
}

func vuEnc(b []byte, us ...uint32) []byte {
	for _, u := range us {
		for u >= 128 {
			b = append(b, byte(u)|128)
			u >>= 7
		}
		b = append(b, byte(u))
	}
	return b
}

// vuBad encodes something which is not a 32 bit number.
func vuBad(kind int, arg uint32) []byte {
	b := []byte{byte(arg) | 128, byte(arg>>7) | 128, byte(arg>>14) | 128, byte(arg>>21) | 128}
	switch kind % 4 {
	case 0:
		return append(b, 0x10|byte(arg>>28)&0x7f)
	case 1:
		return append(b, 0x10<<(arg%3))
	case 2:
		return append(b, 0x80|byte(arg>>28), 0)
	default:
		return append(b, 0x80|byte(arg>>28)&0xf, 0x81, 1)
	}
}

var errVu = errors.New("not a varuint32")

// vuRd reads values, insisting on the documented (minimal) encoding.
type vuRd struct {
	r io.Reader
}

func (v *vuRd) next() (uint32, error) {
	var b [1]byte
	u := uint64(0)
	for i := 0; ; i++ {
		if _, e := io.ReadFull(v.r, b[:]); e != nil {
			if i > 0 && e == io.EOF {
				e = io.ErrUnexpectedEOF
			}
			return 0, e
		}
		u |= uint64(b[0]&127) << (7 * i)
		if b[0] < 128 {
			if u > 0xffffffff || b[0] == 0 && i > 0 {
				return 0, errVu
			}
			return uint32(u), nil
		}
		if i == 4 {
			return 0, errVu
		}
	}
}

// outq is the number of bytes which the other end has not yet received.
func outq(c net.Conn) int {
	sc, ok := c.(syscall.Conn)
	if !ok {
		return 0
	}
	rc, e := sc.SyscallConn()
	if e != nil {
		return 0
	}
	var n int32
	rc.Control(func(fd uintptr) {
		syscall.Syscall(syscall.SYS_IOCTL, fd, syscall.TIOCOUTQ, uintptr(unsafe.Pointer(&n)))
	})
	return int(n)
}

// writeChunks writes b in pieces, each given the time to be read alone.
func writeChunks(c net.Conn, b []byte, sizes []int) error {
	for k := 0; len(b) > 0; k++ {
		n := len(b)
		if len(sizes) > 0 {
			n = min(n, max(1, sizes[k%len(sizes)]))
		}
		if _, e := c.Write(b[:n]); e != nil {
			return e
		}
		b = b[n:]
		for i := 0; len(b) > 0 && i < 50 && outq(c) > 0; i++ {
			time.Sleep(5 * time.Microsecond)
		}
	}
	return nil
}

func genSizes(t *pbt.T) []int {
	switch t.Pick(3, 3, 3, 1) {
	case 1:
		return []int{1}
	case 2:
		var r []int
		t.Exactly(1+t.N(5), func(int) { r = append(r, 1+t.N(7)) })
		return r
	case 3:
		return []int{1 + t.N(1500)}
	}
	return nil
}

// wDir makes a scratch directory for sockets.
func wDir() (string, func(), error) {
	d, e := os.MkdirTemp("", "crisp")
	if e != nil {
		return "", nil, pbt.ErrInconclusive
	}
	return d, func() { os.RemoveAll(d) }, nil
}

// WOp is a call on a client, with what the server replies.
type WOp struct {
	K string   `json:"k"`
	L []uint32 `json:"l,omitempty"` // literal codes
	R []uint32 `json:"r,omitempty"` // reply
	N int      `json:"n,omitempty"` // capacity of the destination, if positive
}

// WCase is a conversation of a client with a scripted server.
type WCase struct {
	Ver   uint32 `json:"ver"`
	Pre   bool   `json:"pre"` // all replies are sent in advance
	Sizes []int  `json:"sizes,omitempty"`
	Ops   []WOp  `json:"ops"`
	Bad   int    `json:"bad,omitempty"` // 1+index of the op with a bad reply; -1: the greeting
	At    int    `json:"at,omitempty"`  // which value of the reply
	Kind  string `json:"kind,omitempty"`
	Arg   uint32 `json:"arg,omitempty"`
}

func genCode(t *pbt.T, small int) uint32 {
	switch t.Pick(6, 2, 1, 1) {
	case 1:
		return min(max(4, uint32(1)<<t.N(32))-uint32(t.N(3)), wMin-1)
	case 2:
		return wMin - 1 - uint32(t.N(4))
	case 3:
		return 2 + uint32(t.U64()%uint64(wMin-2))
	}
	return 2 + uint32(t.N(small))
}

func genCodes(t *pbt.T, maxN int) (r []uint32) {
	n := t.N(maxN + 1)
	if t.P(4) {
		n = 300 + t.N(700)
		x := rng{t.U64()}
		for i := 0; i < n; i++ {
			r = append(r, min(2+uint32(x.u()>>(32+x.n(30))), wMin-1))
		}
		return
	}
	t.Exactly(n, func(int) { r = append(r, genCode(t, 300)) })
	return
}

func genW(t *pbt.T) *WCase {
	c := &WCase{Ver: 1 << 24, Pre: t.P(40), Sizes: genSizes(t)}
	if t.P(40) {
		c.Ver = uint32(t.U64())
	}
	res := uint32(0) // of the last solve, 0 after add, assume
	words := func(n int) (r []uint32) {
		r = append(r, uint32(n))
		for i := 0; i < n; i++ {
			switch t.N(3) {
			case 0:
				r = append(r, uint32(t.U64()))
			case 1:
				r = append(r, ^uint32(0)-uint32(t.N(300)))
			case 2:
				r = append(r, uint32(1)<<t.N(32))
			}
		}
		return
	}
	t.Repeat(1, 60, 12, func(int) {
		var op WOp
		w := []int{5, 3, 6, 0, 0, 0, 0, 1, 1, 1}
		switch res {
		case wOp["sat"]:
			w[3], w[4] = 8, 8
		case wOp["unsat"]:
			w[5], w[6] = 8, 8
		}
		switch t.Pick(w...) {
		case 0:
			op = WOp{K: "add", L: genCodes(t, 6)}
			if t.P(5) {
				op = WOp{K: "add", L: []uint32{wMin + uint32(t.N(256))}}
			} else {
				op.L = append(op.L, 0)
				res = 0
			}
		case 1:
			op = WOp{K: "assume", L: genCodes(t, 5)}
			if t.P(6) {
				op.L = append(op.L, wMin+uint32(t.N(256)))
			} else if len(op.L) > 0 {
				res = 0
			}
		case 2:
			op.K = "solve"
			for i := t.Pick(5, 3, 2, 1, 1) * t.Pick(10, 1) * 7; i > 0; i-- {
				op.R = append(op.R, wOp["unknown"])
			}
			for i := t.Pick(5, 3, 2, 1, 1); i > 0; i-- {
				op.R = append(op.R, wOp["unknown"])
			}
			res = wOp[[]string{"sat", "unsat", "end"}[t.Pick(5, 4, 1)]]
			op.R = append(op.R, res)
		case 3:
			op = WOp{K: "model", R: words(t.N(6))}
			if t.P(3) {
				op.R = words(100 + t.N(300))
			}
			op.N = t.N(200)
		case 4:
			op = WOp{K: "modelfor", L: genCodes(t, 70)}
			op.R = words((len(op.L) + 31) / 32)
			op.N = t.N(100)
			if t.Bool() {
				op.N = int(op.R[0])*32 + t.N(4)
			}
		case 5:
			op = WOp{K: "why", R: append(genCodes(t, 8), 0), N: t.N(9)}
		case 6:
			op = WOp{K: "whyselect", L: genCodes(t, 8), R: append(genCodes(t, 8), 0), N: t.N(9)}
		case 7:
			op.K = "ext"
			n := 240
			if t.P(15) {
				n = 400
			}
			for {
				k := [...]int{0, 1, 3, 17, 100, 255}[t.N(6)]
				if t.P(20) || len(op.R) > 6 || k > n {
					break
				}
				n -= k
				op.R = append(op.R, uint32(1+t.N(0xffff))<<16|uint32(k))
			}
			op.R = append(op.R, 0)
		case 8:
			op.K = "reset"
			res = 0
		case 9:
			op.K = "exts"
		}
		c.Ops = append(c.Ops, op)
	})
	if t.P(35) {
		var idx []int
		for i, op := range c.Ops {
			if len(op.R) > 0 {
				idx = append(idx, i)
			}
		}
		c.Bad = -1
		n := 6
		if len(idx) > 0 && t.P(93) {
			i := idx[t.N(len(idx))]
			c.Bad = i + 1
			n = len(c.Ops[i].R)
		}
		c.At = t.N(n)
		c.Arg = uint32(t.U64())
		if t.P(15) {
			c.Arg = 0
		}
		ks := []string{"trunc", "over", "over", "over"}
		if c.Bad > 0 {
			switch op := c.Ops[c.Bad-1]; op.K {
			case "solve":
				ks = append(ks, "data", "data", "err", "op", "op")
			case "why", "whyselect":
				ks = append(ks, "op", "op", "err")
			case "model", "modelfor":
				ks = append(ks, "size", "err")
				if c.At > 0 {
					ks = ks[:4]
				}
			}
		} else if c.At < 5 {
			ks = append(ks, "letter")
		}
		c.Kind = ks[t.N(len(ks))]
	}
	return c
}

// reply gives the bytes of a reply, and whether the server must close then.
func (c *WCase) reply(i int, rs []uint32) ([]byte, bool) {
	if c.Bad == 0 || c.Bad != i+1 && (c.Bad != -1 || i != -1) {
		return vuEnc(nil, rs...), false
	}
	at := min(c.At, len(rs)-1)
	b := vuEnc(nil, rs[:at]...)
	switch c.Kind {
	case "over":
		b = append(b, vuBad(int(c.Arg>>7), c.Arg)...)
		return append(b, 0, 0, 0, 0), true
	case "trunc":
		x := vuEnc(nil, rs[at])
		return append(b, x[:int(c.Arg)%len(x)]...), true
	case "data":
		return vuEnc(b, c.Arg%wMin), true
	case "op":
		u := wMin + c.Arg%256
		for _, s := range []string{"sat", "unsat", "end", "unknown", "error"} {
			if u == wOp[s] {
				u = wOp["key"]
			}
		}
		return vuEnc(b, u, 0, 0), true
	case "err":
		return vuEnc(b, wOp["error"], c.Arg%12), true
	case "size":
		return vuEnc(b, wMin-1-c.Arg%1000, 1, 2, 3), true
	case "letter":
		return vuEnc(b, rs[at]^(1+c.Arg%200), 0, 0, 0, 0, 0), true
	}
	panic(c.Kind)
}

// wEvents parses what a client sent, with adds and assumptions between other
// operations each taken together.
func wEvents(b []byte) (ev []string, err error) {
	r := &vuRd{bytes.NewReader(b)}
	var adds, asm []uint32
	flush := func() {
		if len(adds) > 0 {
			ev = append(ev, fmt.Sprint("add ", adds))
		}
		if len(asm) > 0 {
			ev = append(ev, fmt.Sprint("assume ", asm))
		}
		adds, asm = nil, nil
	}
	list := func(end uint32) (r2 []uint32, e error) {
		for {
			u, e := r.next()
			if e != nil {
				return r2, e
			}
			if u == end {
				return r2, nil
			}
			if u >= wMin {
				return r2, fmt.Errorf("%s in a list", wName(u))
			}
			r2 = append(r2, u)
		}
	}
	for {
		u, e := r.next()
		if e == io.EOF {
			flush()
			return ev, nil
		}
		if e != nil {
			return ev, e
		}
		switch u {
		case wOp["add"]:
			l, e := list(wOp["end"])
			adds = append(adds, l...)
			if e != nil {
				return ev, e
			}
		case wOp["assume"]:
			l, e := list(0)
			asm = append(asm, l...)
			if e != nil {
				return ev, e
			}
		case wOp["modelfor"], wOp["failedfor"]:
			flush()
			l, e := list(0)
			if e != nil {
				return ev, e
			}
			ev = append(ev, fmt.Sprint(wName(u), " ", l))
		default:
			flush()
			if u < wMin {
				return ev, fmt.Errorf("%d instead of an op", u)
			}
			ev = append(ev, wName(u))
		}
	}
}

func zlits(us []uint32) []z.Lit {
	r := make([]z.Lit, len(us))
	for i, u := range us {
		r[i] = z.Lit(u)
	}
	return r
}

func ucodes(ms []z.Lit) []uint32 {
	r := make([]uint32, len(ms))
	for i, m := range ms {
		r[i] = uint32(m)
	}
	return r
}

func checkWords(what string, got []bool, r []uint32) error {
	if len(got) != int(r[0])*32+1 {
		return pbt.Failf("%s of %d words has %d values", what, r[0], len(got))
	}
	for i, b := range got[1:] {
		if b != (r[1+i/32]>>(i%32)&1 == 1) {
			return pbt.Failf("%s: element %d is %v in words %x", what, i, b, r[1:])
		}
	}
	return nil
}

func runW(c *WCase, m *pbt.Meter) error {
	dir, done, e := wDir()
	if e != nil {
		return e
	}
	defer done()
	path := filepath.Join(dir, "s")
	ln, e := net.Listen("unix", path)
	if e != nil {
		return pbt.ErrInconclusive
	}
	defer ln.Close()
	hello := []uint32{'C', 'R', 'I', 'S', 'P', c.Ver}
	hb, hclose := c.reply(-1, hello)
	var sc *net.UnixConn
	var got []byte
	var wg, rd sync.WaitGroup
	acc := make(chan error, 1)
	wg.Add(1)
	rd.Add(1)
	go func() {
		defer wg.Done()
		x, e := ln.Accept()
		if e != nil {
			rd.Done()
			acc <- e
			return
		}
		sc = x.(*net.UnixConn)
		acc <- nil
		go func() {
			defer rd.Done()
			got, _ = io.ReadAll(sc)
		}()
		if e := writeChunks(sc, hb, c.Sizes); e != nil {
			return
		}
		if hclose {
			sc.CloseWrite()
			return
		}
		if !c.Pre {
			return
		}
		var all []byte
		cl := false
		for i, op := range c.Ops {
			if len(op.R) == 0 {
				continue
			}
			var b []byte
			b, cl = c.reply(i, op.R)
			all = append(all, b...)
			if cl {
				break
			}
		}
		sc.Write(all)
		if cl {
			sc.CloseWrite()
		}
	}()
	cl, e := crisp.Dial("@" + path)
	if e != nil {
		ln.Close()
	}
	if ae := <-acc; ae != nil && e == nil {
		return pbt.Failf("dial succeeded without connection")
	}
	wg.Wait()
	if sc != nil {
		defer sc.Close()
	}
	if c.Bad == -1 {
		m.Hit("bad greeting " + c.Kind)
		m.NonTrivial()
		if e == nil {
			return pbt.Failf("dialing a server with a bad greeting (%s at %d) is no error", c.Kind, c.At)
		}
		return nil
	}
	if e != nil {
		return pbt.Failf("dial: %s", e)
	}
	defer cl.Close()
	if c.Pre {
		m.Hit("replies in advance")
	}
	m.NonTrivial()
	var want []byte
	var maxVar z.Var
	var exts [][2]uint32
	bools := func(n int) []bool {
		if n <= 0 {
			return nil
		}
		r := make([]bool, n)
		for i := range r {
			r[i] = i%3 != 0
		}
		return r[:n/2]
	}
	lits := func(n int) []z.Lit {
		if n <= 0 {
			return nil
		}
		return make([]z.Lit, 0, n)
	}
	for i, op := range c.Ops {
		var rep sync.WaitGroup
		bad := c.Bad == i+1
		if len(op.R) > 0 && !c.Pre {
			b, cls := c.reply(i, op.R)
			rep.Add(1)
			go func() {
				defer rep.Done()
				if writeChunks(sc, b, c.Sizes) == nil && cls {
					sc.CloseWrite()
				}
			}()
		}
		m.Hit(op.K)
		err := func() error {
			fault := func(e error) error {
				if bad && e == nil {
					return pbt.Failf("op %d, %s, with a bad reply (%s, value %d): no error", i, op.K, c.Kind, c.At)
				}
				if !bad && e != nil {
					return pbt.Failf("op %d, %s %v: %s", i, op.K, op.L, e)
				}
				if bad {
					m.Hit("bad reply " + c.Kind)
					if pe, ok := e.(crisp.ProtoErr); c.Kind == "err" && (!ok || uint32(pe) != c.Arg%12) {
						return pbt.Failf("op %d, %s: error %d of the server is given as %v", i, op.K, c.Arg%12, e)
					}
					return io.EOF
				}
				return nil
			}
			switch op.K {
			case "add":
				if n := len(op.L); op.L[n-1] >= wMin {
					m.Hit("not a literal")
					if e := cl.Add(z.Lit(op.L[0])); e == nil {
						return pbt.Failf("op %d: adding %s as a literal is no error", i, wName(op.L[0]))
					}
					return nil
				}
				for _, u := range op.L {
					maxVar = max(maxVar, z.Var(u>>1))
					if e := cl.Add(z.Lit(u)); e != nil {
						return fault(e)
					}
				}
				want = vuEnc(want, wOp["add"])
				want = vuEnc(want, op.L...)
				want = vuEnc(want, wOp["end"])
			case "assume":
				e := cl.Assume(zlits(op.L)...)
				if n := len(op.L); n > 0 && op.L[n-1] >= wMin {
					m.Hit("not a literal")
					if e == nil {
						return pbt.Failf("op %d: assuming %s is no error", i, wName(op.L[n-1]))
					}
					return nil
				}
				if e := fault(e); e != nil {
					return e
				}
				want = vuEnc(want, wOp["assume"])
				want = vuEnc(want, op.L...)
				want = vuEnc(want, 0)
				for _, u := range op.L {
					maxVar = max(maxVar, z.Var(u>>1))
				}
			case "solve":
				r, e := cl.Solve()
				if e := fault(e); e != nil {
					return e
				}
				n := len(op.R)
				want = vuEnc(want, wOp["solve"])
				for k := 1; k < n; k++ {
					want = vuEnc(want, wOp["continue"])
				}
				if x := map[uint32]int{wOp["sat"]: 1, wOp["unsat"]: -1, wOp["end"]: 0}[op.R[n-1]]; x != r {
					return pbt.Failf("op %d: Solve gives %d for a reply %s", i, r, wName(op.R[n-1]))
				}
				if n > 1 {
					m.Hit("continue")
				}
			case "model":
				vs, e := cl.Model(bools(op.N))
				if e := fault(e); e != nil {
					return e
				}
				want = vuEnc(want, wOp["model"])
				if e := checkWords("model", vs, op.R); e != nil {
					return e
				}
			case "modelfor":
				vs, e := cl.ModelFor(bools(op.N), zlits(op.L))
				if e := fault(e); e != nil {
					return e
				}
				want = vuEnc(want, wOp["modelfor"])
				want = vuEnc(want, op.L...)
				want = vuEnc(want, 0)
				if e := checkWords("partial model", vs, op.R); e != nil {
					return e
				}
			case "why":
				ms, e := cl.Why(lits(op.N))
				if e := fault(e); e != nil {
					return e
				}
				want = vuEnc(want, wOp["failed"])
				if x := op.R[:len(op.R)-1]; !slices.Equal(ucodes(ms), x) {
					return pbt.Failf("op %d: Why gives %v for the reply %v", i, ucodes(ms), x)
				}
			case "whyselect":
				ms, e := cl.WhySelect(lits(op.N), zlits(op.L))
				if e := fault(e); e != nil {
					return e
				}
				want = vuEnc(want, wOp["failedfor"])
				want = vuEnc(want, op.L...)
				want = vuEnc(want, 0)
				if x := op.R[:len(op.R)-1]; !slices.Equal(ucodes(ms), x) {
					return pbt.Failf("op %d: WhySelect gives %v for the reply %v", i, ucodes(ms), x)
				}
			case "ext":
				n, e := cl.GetExts()
				sum := uint32(0)
				var xs [][2]uint32
				for _, x := range op.R[:len(op.R)-1] {
					xs = append(xs, [2]uint32{wMin + sum, x & 0xff})
					sum += x & 0xff
				}
				if sum > wOp["reset"]-wMin {
					m.Hit("too many extension ops")
					if e == nil {
						return pbt.Failf("op %d: %d extension operations are accepted", i, sum)
					}
					return io.EOF
				}
				if e := fault(e); e != nil {
					return e
				}
				want = vuEnc(want, wOp["ext"])
				if n != len(xs) {
					return pbt.Failf("op %d: GetExts gives %d for %d extensions", i, n, len(xs))
				}
				exts = xs
			case "exts":
				for k, x := range exts {
					for o := uint32(0); o < x[1]; o++ {
						if p := cl.ExtOp(k, o); uint32(p) != x[0]+o {
							return pbt.Failf("op %d: op %d of extension %d is %d, want %d", i, o, k, uint32(p), x[0]+o)
						}
					}
				}
			case "reset":
				if e := fault(cl.Reset()); e != nil {
					return e
				}
				maxVar = 0
				want = vuEnc(want, wOp["reset"])
			}
			if cl.MaxVar() != maxVar {
				return pbt.Failf("op %d, %s %v: MaxVar is %s, want %s", i, op.K, op.L, cl.MaxVar(), maxVar)
			}
			return nil
		}()
		if err == io.EOF { // the end of a bad conversation
			cl.Close()
			rep.Wait()
			rd.Wait()
			return nil
		}
		if err != nil {
			cl.Close()
			sc.Close()
			rep.Wait()
			return err
		}
		rep.Wait()
	}
	if e := cl.Quit(); e != nil {
		return pbt.Failf("quit: %s", e)
	}
	cl.Close()
	rd.Wait()
	want = vuEnc(want, wOp["quit"])
	a, e := wEvents(got)
	if e != nil {
		return pbt.Failf("the client sent something else than the protocol: %s (after %s)", e, strings.Join(a, "; "))
	}
	b, _ := wEvents(want)
	if !slices.Equal(a, b) {
		return pbt.Failf("the client sent %s\nwant %s", strings.Join(a, "; "), strings.Join(b, "; "))
	}
	m.Add("bytes sent", len(got))
	return nil
}

// MCase: version numbers, addresses, extension tables.
type MCase struct {
	Ver  uint32 `json:"ver"`
	Addr Blob   `json:"addr"`
	Ids  []int  `json:"ids"`
	Ns   []int  `json:"ns"`
}

func genMisc(t *pbt.T) *MCase {
	c := &MCase{Ver: uint32(t.U64())}
	if t.Bool() {
		c.Ver = uint32(t.N(256))<<24 | uint32(t.N(5))
	}
	c.Addr = Blob(randText(t, "@:abc/.09[] ", 12))
	if t.Bool() {
		c.Addr = "@" + c.Addr
	}
	big := t.P(50)
	t.Repeat(1, 300, 10, func(int) {
		c.Ids = append(c.Ids, t.N(1<<16))
		n := t.N(12)
		if big && t.P(20) || t.P(2) {
			n = 255 - t.N(200)
		}
		c.Ns = append(c.Ns, n)
	})
	return c
}

func runMisc(c *MCase, m *pbt.Meter) error {
	m.NonTrivial()
	v := crisp.Version(c.Ver)
	if v.Major() != int(c.Ver>>24) || v.Minor() != int(c.Ver&0xffffff) {
		return pbt.Failf("version %#x is %d.%d", c.Ver, v.Major(), v.Minor())
	}
	if s := fmt.Sprintf("%d.%d", c.Ver>>24, c.Ver&0xffffff); v.String() != s {
		return pbt.Failf("version %#x has string %s", c.Ver, v)
	}
	if crisp.V.Major() != 1 || crisp.V.Minor() != 0 {
		return pbt.Failf("this is version %s", crisp.V)
	}
	a := crisp.ParseAddr(string(c.Addr))
	net, na := "tcp", string(c.Addr)
	if strings.HasPrefix(na, "@") {
		net, na = "unix", na[1:]
	}
	if a.Network != net || a.NetAddr != na {
		return pbt.Failf("address %q is %+v", c.Addr, *a)
	}
	if a.String() != string(c.Addr) {
		return pbt.Failf("address %q has string %q", c.Addr, a)
	}
	x := crisp.NewExts()
	type ext struct {
		id  uint16
		off uint32
		n   int
	}
	var es []ext
	sum := 0
	for i, id := range c.Ids {
		n := c.Ns[i]
		k, e := x.Install(uint16(id), uint8(n))
		if sum+n > int(wOp["reset"]-wMin) {
			m.Hit("too many ops")
			if e == nil {
				return pbt.Failf("%d opcodes are accepted after %d", n, sum)
			}
			continue
		}
		if e != nil {
			return pbt.Failf("%d opcodes are not accepted after %d: %s", n, sum, e)
		}
		if k != len(es) {
			return pbt.Failf("extension %d is given runtime id %d", len(es), k)
		}
		es = append(es, ext{uint16(id), wMin + uint32(sum), n})
		sum += n
		if sum == int(wOp["reset"]-wMin) {
			m.Hit("all ops used")
		}
	}
	for i, e := range es {
		if x.Id(i) != e.id {
			return pbt.Failf("extension %d has id %d, want %d", i, x.Id(i), e.id)
		}
		for o := 0; o < e.n; o++ {
			p := x.Op(i, uint32(o))
			if uint32(p) != e.off+uint32(o) {
				return pbt.Failf("op %d of extension %d is %d, want %d", o, i, uint32(p), e.off+uint32(o))
			}
		}
	}
	for i := uint32(0); i < 256; i++ {
		p := crisp.ProtoPoint(wTop - i)
		want := fmt.Sprintf("<ext-%d>", 255-i)
		if int(i) < len(wOps) {
			want = "<" + wOps[i] + ">"
		}
		if p.String() != want {
			return pbt.Failf("protocol point %d has string %s, want %s", uint32(p), p, want)
		}
	}
	return nil
}

func init() {
	pbt.Def("C19", "client", 6000, 150000, "a conversation took place, or its greeting was bad", genW, runW)
	pbt.Def("C19", "numbers", 4000, 50000, "always: version, address and extension numbers of the case were encoded and decoded", genMisc, runMisc)
}
