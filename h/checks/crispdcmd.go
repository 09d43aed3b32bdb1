package checks

import (
	"bytes"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/go-air/gini/crisp"
	"github.com/go-air/gini/z"

	"ginicheck/pbt"
)

// DOp is an operation on the crispd command.
type DOp struct {
	K string `json:"k"` // start, usr1, end, ask, put, args, dial, solve
	N int    `json:"n,omitempty"`
}

// DCase is a history of runs of the crispd command at one address.
type DCase struct {
	TCP   bool  `json:"tcp,omitempty"`
	Trace bool  `json:"trace,omitempty"`
	Ops   []DOp `json:"ops"`
}

func genCrispd(t *pbt.T) *DCase {
	c := &DCase{TCP: t.P(30), Trace: t.P(30)}
	t.Repeat(1, 12, 6, func(int) {
		op := DOp{}
		switch t.Pick(8, 2, 5, 4, 2, 1, 3, 2) {
		case 0:
			op.K = "start"
		case 1:
			op.K = "usr1"
		case 2:
			op.K, op.N = "end", t.N(3)
		case 3:
			op.K = "ask"
		case 4:
			op.K = "put"
		case 5:
			op.K, op.N = "args", t.N(4)
		case 6:
			op.K = "dial"
		case 7:
			op.K = "solve"
		}
		c.Ops = append(c.Ops, op)
	})
	return c
}

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(b []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() > 1<<20 {
		l.b.Reset()
	}
	return l.b.Write(b)
}

func (l *lockedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

func runCrispd(c *DCase, m *pbt.Meter) error {
	bin := os.Getenv("VH_GINI")
	if bin == "" {
		return pbt.Failf("VH_GINI is not set")
	}
	bin = filepath.Join(filepath.Dir(bin), "crispd")
	dir, done, e := wDir()
	if e != nil {
		return e
	}
	defer done()
	p := filepath.Join(dir, "s")
	addr := "@" + p
	if c.TCP {
		l, e := net.Listen("tcp", "127.0.0.1:0")
		if e != nil {
			return pbt.ErrInconclusive
		}
		addr = l.Addr().String()
		l.Close()
		m.Hit("tcp")
	}
	x := rng{uint64(len(c.Ops))}
	type proc struct {
		cmd   *exec.Cmd
		out   *lockedBuf
		ended chan struct{}
	}
	start := func(args ...string) (*proc, error) {
		d := &proc{cmd: exec.Command(bin, args...), out: &lockedBuf{}, ended: make(chan struct{})}
		d.cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
		d.cmd.Stdout, d.cmd.Stderr = d.out, d.out
		d.cmd.WaitDelay = time.Second
		if e := d.cmd.Start(); e != nil {
			return nil, pbt.ErrInconclusive
		}
		go func() {
			d.cmd.Wait()
			close(d.ended)
		}()
		return d, nil
	}
	wait := func(d *proc) bool {
		select {
		case <-d.ended:
			return true
		case <-time.After(30 * time.Second):
			d.cmd.Process.Kill()
			return false
		}
	}
	var up *proc
	var cls []*crisp.Client
	busy := 0
	file := false
	runs := 0
	leave := func() {
		for _, cl := range cls {
			cl.Close()
		}
		cls, busy = nil, 0
	}
	defer func() {
		leave()
		if up != nil {
			up.cmd.Process.Kill()
			<-up.ended
		}
	}()
	content := []byte("not a socket")
	for k, op := range c.Ops {
		fail := func(d *proc, f string, a ...any) error {
			o := ""
			if d != nil {
				o = d.out.String()
			}
			return pbt.Failf("op %d %s: %s\noutput:\n%s", k, op.K, fmt.Sprintf(f, a...), cut(o, 1500))
		}
		switch op.K {
		case "start":
			if up != nil {
				continue
			}
			var args []string
			if c.Trace {
				args = append(args, "-trace")
			}
			d, e := start(append(args, addr)...)
			if e != nil {
				return e
			}
			if file {
				m.Hit("place taken by a file")
				if !wait(d) {
					return fail(d, "crispd runs in the place of a file")
				}
				if d.out.String() == "" {
					return fail(d, "no error message")
				}
				if b, e := os.ReadFile(p); e != nil || !bytes.Equal(b, content) {
					return fail(d, "the file at the address is damaged: %v", e)
				}
				continue
			}
			a := crisp.ParseAddr(addr)
			for i := 0; ; i++ {
				if n, e := net.Dial(a.Network, a.NetAddr); e == nil {
					n.Close()
					break
				}
				ended := false
				select {
				case <-d.ended:
					ended = true
				default:
				}
				if ended && c.TCP {
					return pbt.ErrInconclusive // the port may be taken
				}
				if ended || i == 6000 {
					d.cmd.Process.Kill()
					return fail(d, "crispd does not serve")
				}
				time.Sleep(5 * time.Millisecond)
			}
			up = d
			if runs++; runs > 1 {
				m.Hit("started again")
				m.NonTrivial()
			}
		case "usr1":
			if up == nil {
				continue
			}
			up.cmd.Process.Signal(syscall.SIGUSR1)
			m.Hit("SIGUSR1")
			time.Sleep(2 * time.Millisecond)
		case "end":
			if up == nil {
				continue
			}
			up.cmd.Process.Signal([]os.Signal{syscall.SIGTERM, syscall.SIGINT, syscall.SIGKILL}[op.N])
			if busy > 0 {
				m.Hit("ended while solving")
			}
			if !wait(up) {
				return fail(up, "crispd does not end")
			}
			if s := up.out.String(); strings.Contains(s, "panic") || strings.Contains(s, "fatal error:") {
				return fail(up, "crash")
			}
			if op.N < 2 {
				if _, e := os.Lstat(p); !c.TCP && e == nil {
					return fail(up, "the socket is left behind")
				}
			}
			up = nil
			for _, cl := range cls {
				cl.Close()
			}
			leave()
		case "ask":
			if up == nil {
				if cl, e := crisp.Dial(addr); e == nil {
					cl.Close()
					if !c.TCP {
						return fail(nil, "dialled, but no server is there")
					}
				}
				continue
			}
		case "put":
			if up != nil || c.TCP {
				continue
			}
			if file = !file; file {
				os.Remove(p)
				os.WriteFile(p, content, 0o600)
			} else {
				os.Remove(p)
			}
		case "args":
			args := [][]string{nil, {addr, addr}, {"-no-such-flag", addr}, {"-trace"}}[op.N]
			d, e := start(args...)
			if e != nil {
				return e
			}
			if !wait(d) {
				return fail(d, "crispd %d runs", op.N)
			}
			m.Hit("bad arguments")
			if d.cmd.ProcessState.ExitCode() == 0 || d.out.String() == "" {
				return fail(d, "exit code 0 or no message with arguments %d", op.N)
			}
		case "dial", "solve":
			if up == nil || len(cls) > 3 {
				continue
			}
			cl, e := crisp.Dial(addr)
			if e != nil {
				return fail(up, "dial: %s", e)
			}
			cls = append(cls, cl)
			if op.K == "dial" {
				continue
			}
			for _, ls := range axPhp(12, 1) {
				for _, l := range append(ls, 0) {
					var u z.Lit
					if l != 0 {
						u = z.Dimacs2Lit(l)
					}
					if e := cl.Add(u); e != nil {
						return fail(up, "add: %s", e)
					}
				}
			}
			cl.GoSolve()
			busy++
		}
		if up != nil {
			if e := alive(addr, &x); e != nil {
				return fail(up, "%s", e)
			}
		}
	}
	return nil
}
