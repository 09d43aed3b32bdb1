package checks

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"runtime"
	"time"

	"github.com/go-air/gini/crisp"
	"github.com/go-air/gini/z"

	"ginicheck/pbt"
)

// AdrOp is an operation on the addresses of servers.
type AdrOp struct {
	K string `json:"k"`           // put, start, shut, dial, ask, leave
	P int    `json:"p,omitempty"` // place
	I int    `json:"i,omitempty"` // server or client, modulo their number
	N int    `json:"n,omitempty"` // put: what; shut: whether Serve is waited for
}

// AdrCase is a history of servers.
type AdrCase struct {
	Names []string `json:"names"`
	Ops   []AdrOp  `json:"ops"`
}

func genAddr(t *pbt.T) *AdrCase {
	c := &AdrCase{}
	t.Exactly(1+t.N(3), func(i int) {
		n := fmt.Sprintf("p%d", i)
		switch t.Pick(6, 1, 1, 1, 2) {
		case 1:
			n = "@" + n
		case 2:
			n = " x:" + n
		case 3:
			n = "d/" + n
		case 4:
			n = "" // tcp
		}
		c.Names = append(c.Names, n)
	})
	t.Repeat(1, 24, 10, func(int) {
		op := AdrOp{P: t.N(len(c.Names)), I: t.N(4)}
		switch t.Pick(4, 8, 6, 6, 6, 2) {
		case 0:
			op.K, op.N = "put", t.N(5)
		case 1:
			op.K = "start"
		case 2:
			op.K, op.N = "shut", t.N(2)
		case 3:
			op.K = "dial"
		case 4:
			op.K = "ask"
		case 5:
			op.K = "leave"
		}
		c.Ops = append(c.Ops, op)
	})
	return c
}

type adrSrv struct {
	s    *crisp.Server
	p    int
	up   bool
	end  chan error
	seen bool // Serve returned
}

type adrCl struct {
	c *crisp.Client
	s *adrSrv
}

func runAddr(c *AdrCase, m *pbt.Meter) error {
	dir, done, e := wDir()
	if e != nil {
		return e
	}
	defer done()
	base := runtime.NumGoroutine()
	os.Mkdir(filepath.Join(dir, "d"), 0o700)
	addrs := make([]string, len(c.Names))
	for i, n := range c.Names {
		if n != "" {
			addrs[i] = "@" + filepath.Join(dir, n)
			continue
		}
		l, e := net.Listen("tcp", "127.0.0.1:0")
		if e != nil {
			return pbt.ErrInconclusive
		}
		addrs[i] = l.Addr().String()
		l.Close()
	}
	kind := make([]int, len(addrs)) // what is there: 0 nothing, 1 file, 2 folder, 3 link to a file, 4 stale socket, 5 a server
	live := make([]*adrSrv, len(addrs))
	content := func(i int) []byte { return bytes.Repeat([]byte{'a' + byte(i)}, 100*i+7) }
	var srvs []*adrSrv
	var cls []*adrCl
	x := rng{uint64(len(c.Ops))}
	intact := func() error {
		for i, k := range kind {
			p := addrs[i][1:]
			switch k {
			case 0, 5:
				if k == 0 && c.Names[i] != "" {
					if _, e := os.Lstat(p); e == nil {
						return pbt.Failf("place %d: something is left there", i)
					}
				}
			case 1, 3:
				if b, e := os.ReadFile(p); e != nil || !bytes.Equal(b, content(i)) {
					return pbt.Failf("place %d: the file there is damaged: %d bytes, %v", i, len(b), e)
				}
				st, e := os.Lstat(p)
				if e != nil || (st.Mode()&os.ModeSymlink != 0) != (k == 3) {
					return pbt.Failf("place %d: the file there was replaced", i)
				}
			case 2:
				if st, e := os.Stat(p); e != nil || !st.IsDir() {
					return pbt.Failf("place %d: the folder there is gone", i)
				}
			}
		}
		return nil
	}
	waitEnd := func(s *adrSrv) error {
		if s.seen {
			return nil
		}
		select {
		case <-s.end:
			s.seen = true
			return nil
		case <-time.After(30 * time.Second):
			return pbt.Failf("the server goes on serving after Shutdown")
		}
	}
	refused := func(i int) error {
		a := crisp.ParseAddr(addrs[i])
		n, e := net.Dial(a.Network, a.NetAddr)
		if e == nil {
			n.Close()
			if a.Network == "unix" {
				return pbt.Failf("place %d: connected, but no server is there", i)
			}
		}
		return nil
	}
	defer func() {
		for _, cl := range cls {
			cl.c.Close()
		}
		for _, s := range srvs {
			if s.up {
				s.s.Shutdown()
			}
		}
	}()
	err := func() error {
		for k, op := range c.Ops {
			i := op.P
			p := addrs[i][1:]
			fail := func(f string, a ...any) error {
				return pbt.Failf("op %d %s, place %d (%s): %s", k, op.K, i, c.Names[i], fmt.Sprintf(f, a...))
			}
			switch op.K {
			case "put":
				if live[i] != nil || c.Names[i] == "" {
					continue
				}
				os.RemoveAll(p)
				os.RemoveAll(p + ".to")
				kind[i] = op.N
				switch op.N {
				case 1:
					os.WriteFile(p, content(i), 0o600)
				case 2:
					os.Mkdir(p, 0o700)
				case 3:
					os.WriteFile(p+".to", content(i), 0o600)
					os.Symlink(p+".to", p)
				case 4:
					l, e := net.ListenUnix("unix", &net.UnixAddr{Name: p, Net: "unix"})
					if e != nil {
						return pbt.ErrInconclusive
					}
					l.SetUnlinkOnClose(false)
					l.Close()
				}
			case "start":
				if live[i] != nil {
					continue
				}
				s, e := crisp.NewServer(addrs[i])
				switch kind[i] {
				case 1, 2, 3:
					m.Hit("place taken by a file")
					if e == nil {
						s.Shutdown()
						return fail("started in the place of a file or folder")
					}
				default:
					if e != nil && c.Names[i] == "" {
						return pbt.ErrInconclusive // someone else has the port
					}
					if e != nil {
						return fail("new server: %s", e)
					}
					if kind[i] == 4 {
						m.Hit("stale socket")
					}
					as := &adrSrv{s: s, p: i, up: true, end: make(chan error, 1)}
					for _, o := range srvs {
						if o.p == i {
							m.Hit("address used again")
							m.NonTrivial()
						}
					}
					srvs = append(srvs, as)
					live[i] = as
					kind[i] = 5
					go func() { as.end <- s.Serve() }()
				}
			case "shut":
				if len(srvs) == 0 {
					continue
				}
				s := srvs[op.I%len(srvs)]
				if !s.up {
					// once more does nothing, in particular not to another server there
					m.Hit("shut down again")
					s.s.Shutdown()
					if e := waitEnd(s); e != nil {
						return fail("%s", e)
					}
					break
				}
				s.up = false
				live[s.p] = nil
				kind[s.p] = 0
				if e := s.s.Shutdown(); e != nil {
					return fail("Shutdown gives %v", e)
				}
				if e := refused(s.p); e != nil {
					return fail("%s", e)
				}
				if op.N == 1 {
					if e := waitEnd(s); e != nil {
						return fail("%s", e)
					}
				}
			case "dial":
				if live[i] == nil {
					if kind[i] != 5 && c.Names[i] != "" {
						if cl, e := crisp.Dial(addrs[i]); e == nil {
							cl.Close()
							return fail("dialled, but no server is there")
						}
					}
					continue
				}
				n := 0
				for _, cl := range cls {
					if cl.s == live[i] {
						n++
					}
				}
				if n+2 > runtime.NumCPU() {
					continue
				}
				cl, e := crisp.Dial(addrs[i])
				if e != nil {
					return fail("%s", e)
				}
				cls = append(cls, &adrCl{cl, live[i]})
			case "ask":
				if len(cls) == 0 {
					continue
				}
				cl := cls[op.I%len(cls)]
				if !cl.s.up {
					continue
				}
				m.Hit("client asked")
				u := z.Var(1 + x.n(40)).Pos()
				for _, a := range []z.Lit{u, 0} {
					if e := cl.c.Add(a); e != nil {
						return fail("Add: %s", e)
					}
				}
				if e := cl.c.Assume(u.Not()); e != nil {
					return fail("Assume: %s", e)
				}
				if r, e := cl.c.Solve(); r != -1 || e != nil {
					return fail("client %d: %d %v for an assumption against a unit", op.I, r, e)
				}
				if r, e := cl.c.Solve(); r != 1 || e != nil {
					return fail("client %d: %d %v for units", op.I, r, e)
				}
			case "leave":
				if len(cls) == 0 {
					continue
				}
				j := op.I % len(cls)
				cls[j].c.Close()
				cls = append(cls[:j], cls[j+1:]...)
			}
			if e := intact(); e != nil {
				return fail("%s", e)
			}
			for j, s := range live {
				if s == nil || op.K == "ask" {
					continue
				}
				// one of the handlers is free
				if e := alive(addrs[j], &x); e != nil {
					return fail("server at place %d: %s", j, e)
				}
			}
		}
		return nil
	}()
	if err != nil {
		return err
	}
	for _, cl := range cls {
		cl.c.Close()
	}
	cls = nil
	for _, s := range srvs {
		if s.up {
			s.up = false
			kind[s.p], live[s.p] = 0, nil
			if e := s.s.Shutdown(); e != nil {
				return pbt.Failf("Shutdown gives %v", e)
			}
		}
		if e := waitEnd(s); e != nil {
			return e
		}
	}
	if e := intact(); e != nil {
		return e
	}
	for i := 0; runtime.NumGoroutine() > base; i++ {
		if i > 4000 {
			b := make([]byte, 1<<16)
			b = b[:runtime.Stack(b, true)]
			return pbt.Failf("%d goroutines work on after all servers were shut down\n%s", runtime.NumGoroutine()-base, b)
		}
		time.Sleep(5 * time.Millisecond)
	}
	if len(srvs) > 1 {
		m.Hit("several servers")
	}
	return nil
}

func init() {
	pbt.Def("C18", "address", 2000, 40000, "a server was started at an address which another one had before",
		genAddr, runAddr).Timeout = 100 * time.Second
}
