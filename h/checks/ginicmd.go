package checks

import (
	"bytes"
	"compress/bzip2"
	"compress/gzip"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/go-air/gini/dimacs"

	"ginicheck/pbt"
	"ginicheck/ref"
)

// CmdFile is an input of the gini command.
type CmdFile struct {
	Icnf bool   `json:"icnf,omitempty"`
	Text Blob   `json:"text,omitempty"`
	Php  int    `json:"php,omitempty"`  // else: pigeons
	N    int    `json:"n,omitempty"`    // else: random 3-SAT
	M    int    `json:"m,omitempty"`    //
	Seed uint64 `json:"seed,omitempty"` //
	Wide int    `json:"wide,omitempty"` // else: one clause of M literals and some of two, up to that variable
	Comp int    `json:"comp,omitempty"` // 1 gzip, 2 bzip2
	Part []int  `json:"part,omitempty"` // members of the compressed file, in percent
	Dmg  []int  `json:"dmg,omitempty"`  // damage: kind, position in permille, value
	Ext  int    `json:"ext,omitempty"`  // 1, 2 an extension which is none
	Miss int    `json:"miss,omitempty"` // 1 not there, 2 a directory
	Link bool   `json:"link,omitempty"` // by a symbolic link
}

// CmdCase is a run of the gini command.
type CmdCase struct {
	Files   []CmdFile `json:"files"`
	Via     int       `json:"via,omitempty"` // 1 "-", 2 no argument
	Assume  []string  `json:"assume,omitempty"`
	Model   bool      `json:"model,omitempty"`
	Failed  bool      `json:"failed,omitempty"`
	Satcomp bool      `json:"satcomp,omitempty"`
	Stats   bool      `json:"stats,omitempty"`
	Ax      bool      `json:"ax,omitempty"`
	Mon     string    `json:"mon,omitempty"`
	Timeout string    `json:"timeout,omitempty"`
	Crisp   int       `json:"crisp,omitempty"` // 1 a server, 2 no server there, 3 the crispd command
	Sig     int       `json:"sig,omitempty"`   // SIGTERM after that many ms
	Int     bool      `json:"int,omitempty"`   // SIGINT instead
	Usr     bool      `json:"usr,omitempty"`   // SIGUSR1 while it runs
}

const gAlpha = "0123456789- \n\tpcnfai%x+."

func genGFile(t *pbt.T, cnfOnly bool) CmdFile {
	var f CmdFile
	switch t.Pick(12, 4, 2, 2) {
	case 0:
		f.Text = Blob(genCnfText(t, true))
	case 1:
		if cnfOnly {
			f.Text = Blob(genCnfText(t, true))
			break
		}
		f.Icnf = true
		f.Text = Blob(genSolvableICnf(t))
	case 2:
		f.Php = 2 + t.N(6)
	case 3:
		f.N = 20 + t.N(130)
		f.M = f.N * (20 + t.N(30)) / 10
		f.Seed = t.U64()
	}
	if f.Text != "" && t.P(15) {
		f.Text = Blob(mutate(t, string(f.Text), gAlpha))
	}
	if f.Text != "" && t.P(2) {
		f.Text = Blob(randText(t, gAlpha, 30))
	}
	f.Comp = t.Pick(6, 2, 2)
	if f.Comp > 0 {
		if t.P(15) {
			t.Exactly(1+t.N(3), func(int) { f.Part = append(f.Part, t.N(101)) })
			slices.Sort(f.Part)
		}
		if t.P(20) {
			f.Dmg = []int{t.N(4), t.N(1001), 1 + t.N(255)}
		}
	}
	switch t.Pick(60, 1, 1, 1, 1, 2) {
	case 1:
		f.Ext = 1
	case 2:
		f.Ext = 2
	case 3:
		f.Miss = 1
	case 4:
		f.Miss = 2
	case 5:
		f.Link = true
	}
	return f
}

func genSolvableICnf(t *pbt.T) string {
	var b strings.Builder
	lead := true
	genComments(t, &b, &lead)
	b.WriteString("p inccnf\n")
	nv := 1 + t.N(9)
	line := func(k string, ls []int) {
		b.WriteString(k)
		for _, l := range ls {
			b.WriteString(strconv.Itoa(l) + " ")
		}
		b.WriteString("0\n")
		if t.P(5) {
			lead = true
			genComments(t, &b, &lead)
		}
	}
	tt := ref.All(nv)
	t.Repeat(0, 60, 14, func(int) {
		if t.P(45) {
			var ls []int
			t.Exactly(t.N(5), func(int) { ls = append(ls, genLit(t, nv)) })
			line("a ", ls)
			return
		}
		line("", genClause(t, nv, tt, 90, t.P(70)))
	})
	return b.String()
}

func genGini(t *pbt.T) *CmdCase {
	c := &CmdCase{}
	n := 1
	if t.P(20) {
		n = t.N(5)
	}
	c.Via = t.Pick(8, 1, 1)
	if n == 0 {
		c.Via = 0
	}
	c.Satcomp = t.P(40)
	if c.Satcomp || c.Via != 0 {
		n = 1
	}
	t.Exactly(n, func(int) {
		f := genGFile(t, c.Via != 0)
		if c.Via != 0 {
			f.Comp, f.Part, f.Dmg, f.Ext, f.Miss, f.Link = 0, nil, nil, 0, 0, false
		}
		c.Files = append(c.Files, f)
	})
	t.Repeat(0, 6, 1, func(int) {
		var w []string
		t.Exactly(1+t.N(3), func(int) { w = append(w, strconv.Itoa(genLit(t, 11))) })
		c.Assume = append(c.Assume, strings.Join(w, ","))
	})
	if t.P(3) {
		c.Assume = append(c.Assume, []string{"0", "x", "", "1,", "1,,2", "1 2", "3000000000", "-3000000000", "4294967297", "2147483648", "-2147483648", "1099511627776", "99999999999999999999", "1.5", "1073741824000"}[t.N(15)])
	}
	if t.P(12) && len(c.Files) > 0 {
		f := &c.Files[0]
		if c.Via == 0 {
			f.Comp = t.Pick(3, 1, 1)
		}
		*f = CmdFile{Wide: 1<<t.N(17) + t.N(5000), M: 1 + t.N(60), Seed: t.U64(), Comp: f.Comp}
		c.Assume = nil
		ls := f.wide()
		if t.P(40) {
			k := t.N(len(ls))
			ls = append(ls[:k:k], ls[k+1:]...)
		}
		if t.P(85) {
			for i := range ls {
				ls[i] = -ls[i]
			}
		}
		for len(ls) > 0 {
			n := min(1+t.N(25), len(ls))
			c.Assume = append(c.Assume, strings.Trim(strings.ReplaceAll(fmt.Sprint(ls[:n]), " ", ","), "[]"))
			ls = ls[n:]
		}
	}
	c.Model, c.Failed, c.Stats, c.Ax = t.P(60), t.P(60), t.P(15), t.P(40)
	if t.P(12) {
		c.Mon = []string{"1ms", "10ms", "1s", "100us", "0s", "-1ms"}[t.N(6)]
	}
	switch t.Pick(14, 2, 3) {
	case 1:
		c.Timeout = "20s"
	case 2:
		c.Timeout = []string{"1ns", "1ms", "0s", "10ms", "-1s", "100us"}[t.N(6)]
	}
	c.Crisp = t.Pick(20, 4, 1, 1)
	if t.P(3) { // beyond reach
		c.Files = []CmdFile{{Php: 14, Comp: t.Pick(4, 1, 1) * (1 - min(c.Via, 1))}}
		c.Timeout = []string{"1ms", "20ms", "150ms"}[t.N(3)]
		if t.P(40) {
			c.Sig = 1 + t.N(100)
			c.Timeout = "60s"
			c.Satcomp, c.Assume, c.Crisp = true, nil, c.Crisp&1
			c.Int = t.Bool()
		}
		c.Usr = t.P(30)
	}
	return c
}

// text of the file.
func (f *CmdFile) text() string {
	if f.Php == 0 && f.N == 0 && f.Wide == 0 {
		return string(f.Text)
	}
	var b strings.Builder
	put := func(cls [][]int, n int) {
		fmt.Fprintf(&b, "p cnf %d %d\n", n, len(cls))
		for _, c := range cls {
			for _, l := range c {
				fmt.Fprintf(&b, "%d ", l)
			}
			b.WriteString("0\n")
		}
	}
	if f.Php > 0 {
		put(axPhp(f.Php, 1), f.Php*(f.Php-1))
		return b.String()
	}
	if f.Wide > 0 {
		ls := f.wide()
		x := rng{f.Seed + 1}
		cls := [][]int{ls}
		for i := x.n(20); i > 0; i-- {
			v := 1 + x.n(f.Wide)
			cls = append(cls, []int{v - 2*v*x.n(2), ls[x.n(len(ls))]})
		}
		put(cls, f.Wide)
		return b.String()
	}
	x := rng{f.Seed}
	var cls [][]int
	for i := 0; i < f.M; i++ {
		cl := distinct(&x, 3, f.N)
		for j := range cl {
			if x.n(2) == 0 {
				cl[j] = -cl[j]
			}
		}
		cls = append(cls, cl)
	}
	put(cls, f.N)
	return b.String()
}

// wide gives the literals of the long clause.
func (f *CmdFile) wide() []int {
	x := rng{f.Seed}
	ls := distinct(&x, min(f.M, f.Wide), f.Wide)
	for i := range ls {
		if x.n(2) == 0 {
			ls[i] = -ls[i]
		}
	}
	return ls
}

// data of the file, and the text a reader finds in it.
func (f *CmdFile) data() (data []byte, text string, err error) {
	text = f.text()
	if f.Comp == 0 {
		return []byte(text), text, nil
	}
	var b bytes.Buffer
	a := 0
	for _, p := range append(f.Part[:len(f.Part):len(f.Part)], 100) {
		e := len(text) * p / 100
		s := text[a:e]
		a = e
		if f.Comp == 1 {
			w := gzip.NewWriter(&b)
			io.WriteString(w, s)
			w.Close()
			continue
		}
		cmd := exec.Command("bzip2", "-c")
		cmd.Stdin = strings.NewReader(s)
		o, e2 := cmd.Output()
		if e2 != nil {
			return nil, "", pbt.ErrInconclusive
		}
		b.Write(o)
	}
	data = b.Bytes()
	if len(f.Dmg) == 3 {
		p := f.Dmg[1] * (len(data) - 1) / 1000
		switch f.Dmg[0] {
		case 0:
			data = data[:p]
		case 1:
			data[p] ^= byte(f.Dmg[2])
		case 2:
			data = append(data, bytes.Repeat([]byte{byte(f.Dmg[2])}, 1+f.Dmg[1]%7)...)
		case 3:
			data = append(data[:p:p], data[p+1:]...)
		}
	}
	var r io.Reader
	if f.Comp == 1 {
		r, err = gzip.NewReader(bytes.NewReader(data))
	} else {
		r = bzip2.NewReader(bytes.NewReader(data))
	}
	if err == nil {
		var o []byte
		o, err = io.ReadAll(r)
		text = string(o)
	}
	return data, text, err
}

func (f *CmdFile) name(i int) string {
	s := fmt.Sprintf("f%d", i)
	if f.Icnf {
		s += ".icnf"
	} else {
		s += ".cnf"
	}
	switch f.Ext {
	case 1:
		s += ".txt"
	case 2:
		s = fmt.Sprintf("f%d", i)
	}
	return s + []string{"", ".gz", ".bz2"}[f.Comp]
}

// gBlock is a verdict line of the output with what follows it.
type gBlock struct {
	res    int
	v, f   []int
	hv, hf bool
	vend   bool
}

func parseOut(out string) (bs []*gBlock, err error) {
	if out != "" && !strings.HasSuffix(out, "\n") {
		return nil, pbt.Failf("the last line is not ended")
	}
	for _, l := range strings.Split(out, "\n") {
		w := strings.Fields(l)
		if len(w) == 0 || w[0] == "c" {
			continue
		}
		switch {
		case w[0] == "s":
			r, ok := map[string]int{"s SATISFIABLE": 1, "s UNSATISFIABLE": -1, "s UNKNOWN": 0}[l]
			if !ok {
				return nil, pbt.Failf("line %q", l)
			}
			bs = append(bs, &gBlock{res: r})
		case (w[0] == "v" || w[0] == "f") && len(bs) > 0:
			b := bs[len(bs)-1]
			if len(l) > 4000 {
				return nil, pbt.Failf("line of %d characters", len(l))
			}
			for _, x := range w[1:] {
				d, e := strconv.Atoi(x)
				if e != nil {
					return nil, pbt.Failf("line %q", l)
				}
				if w[0] == "f" {
					b.f = append(b.f, d)
					continue
				}
				if b.vend {
					return nil, pbt.Failf("values after 0")
				}
				if d == 0 {
					b.vend = true
				} else {
					b.v = append(b.v, d)
				}
			}
			if w[0] == "f" {
				b.hf = true
			} else {
				b.hv = true
			}
		default:
			return nil, pbt.Failf("line %q", l)
		}
	}
	return
}

// gq is a question to the command: clauses and assumptions.
type gq struct {
	cls [][]int
	as  []int
}

// expect gives the questions of the text, and whether it is well formed.
func gExpect(text string, icnf bool, as []int) (qs []gq, class int, big bool) {
	var x dExp
	if icnf {
		x = icnfExpect(text)
	} else {
		x = cnfExpect(text)
		if x.hv > 200000 || x.hc > 200000 {
			big = true
		}
	}
	var cls [][]int
	var cl, cu []int
	for _, e := range x.ev {
		if abs(e.a) > 200000 {
			big = true
		}
		switch {
		case e.k == 'a' && e.a == 0:
			cls = append(cls, cl)
			cl = nil
		case e.k == 'a':
			cl = append(cl, e.a)
		case e.a == 0:
			qs = append(qs, gq{cls[:len(cls):len(cls)], append(cu, as...)})
			cu = nil
		default:
			cu = append(cu, e.a)
		}
	}
	if !icnf {
		qs = []gq{{cls, as}}
	}
	return qs, x.class, big
}

// verdict by the reference solver; 0 if it gives up.
func (q gq) verdict(as []int) int {
	// the variables which occur, numbered anew
	no := map[int]int{}
	re := func(c []int) []int {
		d := make([]int, len(c))
		for i, l := range c {
			v := no[abs(l)]
			if v == 0 {
				v = len(no) + 1
				no[abs(l)] = v
			}
			d[i] = v
			if l < 0 {
				d[i] = -v
			}
		}
		return d
	}
	cls := make([][]int, len(q.cls))
	for i, c := range q.cls {
		cls[i] = re(c)
	}
	as = re(as)
	sat, _, ok := ref.Solve(max(1, len(no)), cls, as, 30000)
	switch {
	case !ok:
		return 0
	case sat:
		return 1
	}
	return -1
}

func (c *CmdCase) judge(q gq, b *gBlock, want int, icnf bool) error {
	soft := c.Timeout != "" && c.Timeout != "20s"
	if b.res == 0 && !soft {
		return pbt.Failf("unknown within the time")
	}
	if b.res != 0 && want != 0 && b.res != want {
		return pbt.Failf("verdict %d, not %d", b.res, want)
	}
	if icnf {
		return nil
	}
	if b.hv != (b.res == 1 && c.Model) {
		return pbt.Failf("verdict %d: model lines: %t", b.res, b.hv)
	}
	if b.hf != (b.res == -1 && c.Failed) {
		return pbt.Failf("verdict %d: lines of failed assumptions: %t", b.res, b.hf)
	}
	if b.hv {
		if !b.vend {
			return pbt.Failf("model not ended")
		}
		val := map[int]bool{}
		for _, l := range b.v {
			if _, ok := val[abs(l)]; ok {
				return pbt.Failf("variable %d has two values", abs(l))
			}
			val[abs(l)] = l > 0
		}
		for i, cl := range append(q.cls[:len(q.cls):len(q.cls)], q.as) {
			ok := false
			for _, l := range cl {
				x, h := val[abs(l)]
				if !h {
					return pbt.Failf("variable %d has no value", abs(l))
				}
				if x == (l > 0) {
					ok = true
				} else if i == len(q.cls) {
					return pbt.Failf("the model does not have the assumption %d", l)
				}
			}
			if !ok && i < len(q.cls) {
				return pbt.Failf("the model does not satisfy %v", cl)
			}
		}
	}
	if b.hf {
		for _, l := range b.f {
			if !slices.Contains(q.as, l) {
				return pbt.Failf("%d is failed but no assumption", l)
			}
		}
		if len(b.f) < len(q.as) && len(q.cls) < 1000 && q.verdict(b.f) == 1 {
			return pbt.Failf("the failed assumptions %v are satisfiable", b.f)
		}
	}
	return nil
}

// msgs is what a command writes to standard error.
type msgs struct {
	bytes.Buffer
	first chan struct{}
	some  bool
}

func (m *msgs) Write(b []byte) (int, error) {
	if !m.some {
		m.some = true
		close(m.first)
	}
	return m.Buffer.Write(b)
}

func runGini(c *CmdCase, m *pbt.Meter) error {
	bin := os.Getenv("VH_GINI")
	if bin == "" {
		return pbt.Failf("VH_GINI is not set")
	}
	dir, done, e := wDir()
	if e != nil {
		return e
	}
	defer done()
	var args []string
	var as []int
	badAs := false
	for _, a := range c.Assume {
		args = append(args, "-assume="+a)
		for _, w := range strings.Split(a, ",") {
			d, e := strconv.Atoi(w)
			if e != nil || d == 0 || d > maxVar || d < -maxVar {
				badAs = true
			}
			as = append(as, d)
		}
	}
	for f, on := range map[string]bool{"-model": c.Model, "-failed": c.Failed, "-satcomp": c.Satcomp, "-stats": c.Stats, "-ax": c.Ax} {
		if on {
			args = append(args, f)
		}
	}
	slices.Sort(args[len(c.Assume):])
	if c.Mon != "" {
		args = append(args, "-mon="+c.Mon)
		m.Hit("monitored")
	}
	if c.Timeout != "" {
		args = append(args, "-timeout="+c.Timeout)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Second)
	defer cancel()
	addr := "@" + filepath.Join(dir, "s")
	switch c.Crisp {
	case 1:
		stop, e := startServer(addr)
		if e != nil {
			return pbt.Failf("new server: %s", e)
		}
		defer stop()
		m.Hit("over CRISP")
	case 3:
		d := exec.CommandContext(ctx, filepath.Join(filepath.Dir(bin), "crispd"), addr)
		d.Env = append(os.Environ(), "GOMAXPROCS=2")
		if e := d.Start(); e != nil {
			return pbt.Failf("crispd: %s", e)
		}
		defer func() {
			d.Process.Signal(syscall.SIGTERM)
			d.Wait()
		}()
		for i := 0; ; i++ {
			if n, e := net.Dial("unix", addr[1:]); e == nil {
				n.Close()
				break
			}
			if i == 4000 {
				return pbt.Failf("crispd does not serve")
			}
			time.Sleep(5 * time.Millisecond)
		}
		m.Hit("over crispd")
	}
	if c.Crisp != 0 {
		args = append(args, "-crisp="+addr)
	}
	var stdin []byte
	type exp struct {
		err, open bool
		icnf      bool
		qs        []gq
	}
	var exps []exp
	for i := range c.Files {
		f := &c.Files[i]
		data, text, e := f.data()
		if errors.Is(e, pbt.ErrInconclusive) {
			return e
		}
		qs, class, big := gExpect(text, f.Icnf, as)
		if big {
			return nil
		}
		x := exp{qs: qs, icnf: f.Icnf}
		switch {
		case e != nil || class == xErr || f.Ext != 0 || f.Miss != 0 || c.Crisp == 2 && !f.Icnf:
			x.err = true
			x.open = f.Icnf && class == xAny // what is answered before the error
		case class == xAny:
			x.open = true
		}
		if f.Ext != 0 || f.Miss != 0 || c.Crisp == 2 && !f.Icnf {
			x.qs = nil
		}
		exps = append(exps, x)
		m.Hit([]string{"plain", "gzip", "bzip2"}[f.Comp])
		if x.err {
			m.Hit("input in error")
		}
		switch c.Via {
		case 0:
			p := filepath.Join(dir, f.name(i))
			args = append(args, p)
			w := p
			if f.Link {
				w = filepath.Join(dir, "to-"+f.name(i))
				os.Symlink("to-"+f.name(i), p)
			}
			switch f.Miss {
			case 0:
				if e := os.WriteFile(w, data, 0o600); e != nil {
					return e
				}
			case 2:
				os.Mkdir(w, 0o700)
			}
			continue
		case 1:
			args = append(args, "-")
		}
		stdin = data
		m.Hit("standard input")
	}
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=400")
	cmd.Stdin = bytes.NewReader(stdin)
	var o bytes.Buffer
	se := msgs{first: make(chan struct{})}
	cmd.Stdout, cmd.Stderr = &o, &se
	cmd.WaitDelay = time.Second
	if e := cmd.Start(); e != nil {
		return e
	}
	ended := make(chan struct{})
	go func() {
		cmd.Wait()
		close(ended)
	}()
	if c.Usr {
		// once it works
		select {
		case <-se.first:
			cmd.Process.Signal(syscall.SIGUSR1)
			m.Hit("SIGUSR1")
		case <-time.After(200 * time.Millisecond):
		case <-ended:
		}
	}
	if c.Sig > 0 {
		time.Sleep(time.Duration(c.Sig) * time.Millisecond)
		if c.Int {
			cmd.Process.Signal(syscall.SIGINT)
		} else {
			cmd.Process.Signal(syscall.SIGTERM)
		}
	}
	<-ended
	ps := cmd.ProcessState
	fail := func(f string, a ...any) error {
		return pbt.Failf("gini %s: %s\nstdout:\n%s\nstderr:\n%s", strings.ReplaceAll(strings.Join(args, " "), dir+"/", ""), fmt.Sprintf(f, a...), cut(o.String(), 1000), cut(se.String(), 1500))
	}
	if ctx.Err() != nil {
		return fail("does not end")
	}
	if strings.Contains(se.String(), "goroutine ") && strings.Contains(se.String(), "panic") || strings.Contains(se.String(), "fatal error:") {
		return fail("crash")
	}
	code := ps.ExitCode()
	if c.Sig > 0 {
		m.Hit("interrupted")
		if s := o.String(); strings.Contains(s, "SATISFIABLE") || code == 10 || code == 20 || code == 0 {
			return fail("exit %d when interrupted", code)
		}
		m.NonTrivial()
		return nil
	}
	bs, e := parseOut(o.String())
	if e != nil {
		return fail("%s", e)
	}
	if badAs {
		m.Hit("bad assumption")
		if len(bs) > 0 || code == 0 || code == 10 || code == 20 || se.Len() == 0 {
			return fail("exit %d, %d verdicts with a bad assumption", code, len(bs))
		}
		m.NonTrivial()
		return nil
	}
	if len(c.Files) == 0 && c.Via == 0 {
		// standard input, which is empty
		if code == 10 || code == 20 {
			return fail("exit %d without input", code)
		}
		return nil
	}
	if c.Via == 2 && !c.Satcomp && len(bs) == 0 {
		// the documents disagree on whether standard input is read then
		return nil
	}
	// which verdicts belong to which input is known while no input is open
	rest := bs
	for i, x := range exps {
		if x.open {
			if i == len(exps)-1 && c.Satcomp && len(rest) > 0 && !x.icnf {
				if want := map[int]int{1: 10, 0: 0, -1: 20}[rest[0].res]; code != want {
					return fail("exit %d for verdict %d", code, rest[0].res)
				}
			}
			m.Hit("open input")
			return nil
		}
		for k, q := range x.qs {
			if x.err && !x.icnf {
				break
			}
			if len(rest) == 0 {
				if x.err {
					break
				}
				return fail("file %d: no verdict for question %d of %d", i, k, len(x.qs))
			}
			if x.err && len(exps) > 1 {
				return nil // which of its questions were answered is open
			}
			want := -1
			if c.Files[i].Php == 0 {
				want = q.verdict(q.as)
			}
			if e := c.judge(q, rest[0], want, x.icnf); e != nil {
				return fail("file %d, question %d: %s", i, k, e)
			}
			m.Hit([]string{"unsat", "unknown", "sat"}[rest[0].res+1])
			if rest[0].hv || rest[0].hf && len(q.as) > 0 {
				m.NonTrivial()
			}
			if k > 1 {
				m.NonTrivial()
				m.Hit("icnf")
			}
			if !x.icnf && c.Satcomp {
				if want := map[int]int{1: 10, 0: 0, -1: 20}[rest[0].res]; code != want {
					return fail("exit %d for verdict %d", code, rest[0].res)
				}
			}
			rest = rest[1:]
		}
		if x.err {
			m.NonTrivial()
			if se.Len() == 0 {
				return fail("file %d: no error message", i)
			}
			if code == 10 || code == 20 {
				return fail("file %d: exit %d for an input in error", i, code)
			}
		}
	}
	if len(rest) > 0 {
		return fail("%d verdicts too many", len(rest))
	}
	if !c.Satcomp && !slices.ContainsFunc(exps, func(x exp) bool { return x.err }) && code != 0 {
		return fail("exit %d", code)
	}
	if len(exps) > 1 {
		m.Hit("several inputs")
	}
	if len(bs) == 1 && len(exps) == 1 && !exps[0].icnf && !exps[0].err {
		return readBack(o.String(), bs[0], fail)
	}
	return nil
}

// readBack reads the output by dimacs.ReadSolve.
func readBack(out string, b *gBlock, fail func(string, ...any) error) error {
	var s strings.Builder
	for _, l := range strings.SplitAfter(out, "\n") {
		if !strings.HasPrefix(l, "f") {
			s.WriteString(l)
		}
	}
	v := &dvRec{}
	if e := dimacs.ReadSolve(strings.NewReader(s.String()), v); e != nil {
		return fail("dimacs.ReadSolve: %s", e)
	}
	var got []int
	res := 99
	for _, x := range v.ev {
		switch x.k {
		case 's':
			res = x.a
		case 'v':
			if x.a != 0 {
				got = append(got, x.a)
			}
		}
	}
	if res != b.res || !slices.Equal(got, b.v) {
		return fail("dimacs.ReadSolve reads %d %v", res, got)
	}
	return nil
}

func init() {
	d := pbt.Def("C22", "crispd", 400, 6000, "crispd was ended by a signal and started again at its address",
		genCrispd, runCrispd)
	d.Timeout = 120 * time.Second
	s := pbt.Def("C22", "command", 16000, 200000,
		"runs of the gini command over CNF and icnf files (laid out by hand, mutated, random 3-SAT, pigeon hole), plain, gzip or bzip2 of one or several members, intact or damaged, given by path, link, standard input or no argument, one to four at a time, with all flags in combination, also over a CRISP server and crispd, with short timeouts and interrupts; non-trivial: a model or failed assumptions checked, an incremental input with several questions, or an input in error",
		genGini, runGini)
	s.Timeout = 120 * time.Second
}
