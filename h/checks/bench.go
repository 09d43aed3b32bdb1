package checks

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io"
	"log"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"slices"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unicode/utf8"

	"github.com/go-air/gini/bench"

	"ginicheck/pbt"
)

// BFile is a file which may be an instance: a shell script.
type BFile struct {
	Name string `json:"name"`
	Exit int    `json:"exit"` // exit code, -1 killed by a signal
	Out  Blob   `json:"out,omitempty"`
	Err  Blob   `json:"err,omitempty"`
	Big  int    `json:"big,omitempty"`  // KB of further output
	Hang int    `json:"hang,omitempty"` // 1 busy until killed, 2 with a child, which holds the output, 3 no matter what other signals
}

// BOp is an operation on suites.
type BOp struct {
	K    string   `json:"k"`
	S    int      `json:"s,omitempty"` // suite
	Name string   `json:"name,omitempty"`
	Cmd  int      `json:"cmd,omitempty"`
	L    []int    `json:"l,omitempty"`
	F    uint64   `json:"f,omitempty"` // filter
	G    uint64   `json:"g,omitempty"`
	N    int      `json:"n,omitempty"`
	IT   int      `json:"it,omitempty"` // ms
	T    int      `json:"t,omitempty"`  // ms
	Env  []string `json:"env,omitempty"`
}

// BCase is a history of suites and runs.
type BCase struct {
	Files []BFile `json:"files"`
	Rel   bool    `json:"rel,omitempty"` // relative paths
	Ops   []BOp   `json:"ops"`
}

var bNames = []string{"a.cnf", "b.cnf.gz", "c.icnf", "d.inccnf.bz2", "e", "f.txt", "g.h.cnf", "with space.cnf", " lead.cnf", "trail.cnf ", "ü★.cnf", "x.gz.cnf", "bench-7.cnf", ".cnf", "d.d/i.cnf", "d.d/j", "d.d/e.e/k.icnf.gz", "sub/a.cnf", "sub/m.cnf.tar", "sub/with space", "map", "hash", "q..cnf", "r.CNF", "100%.cnf", "l-1+2.cnf", "u.icnf.gz.bz2", "sub/w.cnf.bz2.gz"}

func genBench(t *pbt.T) *BCase {
	c := &BCase{Rel: t.P(40)}
	perm := slices.Clone(bNames)
	k := 1 + t.N(12)
	if t.P(10) {
		k = 1 + t.N(len(perm))
	}
	for i := 0; i < k; i++ {
		j := i + t.N(len(perm)-i)
		perm[i], perm[j] = perm[j], perm[i]
	}
	t.Exactly(k, func(i int) {
		f := BFile{Name: perm[i], Exit: []int{10, 20, 0, 1, 127, 255, -1}[t.Pick(8, 8, 3, 2, 1, 1, 2)]}
		if t.P(50) {
			f.Out = Blob(randText(t, "ab c\n\x00\xff%", 12))
		}
		if t.P(40) {
			f.Err = Blob(randText(t, "ab c\n\x00\xff%", 12))
		}
		if t.P(3) {
			f.Big = 1 + t.N(200)
		}
		if t.P(4) {
			f.Hang = 1 + t.Pick(3, 1, 1)
		}
		c.Files = append(c.Files, f)
	})
	names := []string{"r", "run-2", "a b", "z★", "run+"}
	list := func(avg int) (l []int) {
		t.Repeat(0, 30, avg, func(int) { l = append(l, t.N(k)) })
		return
	}
	// what is there, for the choice of operations
	type rk struct {
		s  int
		nm string
	}
	have := map[int]bool{}
	var runs []rk
	mk := func(op BOp) BOp {
		if op.S = t.N(3); !have[op.S] && t.P(80) {
			op.S = 0
		}
		return op
	}
	newRun := func(op BOp) BOp {
		op.K, op.Name, op.Cmd = "run", names[t.N(len(names))], t.Pick(20, 2, 1, 1)
		op.IT, op.T = 20000, 40000
		switch t.Pick(12, 1, 1) {
		case 1:
			op.IT = 20 + t.N(60)
		case 2:
			op.T = 30 + t.N(60)
		}
		if t.P(30) {
			op.Env = append(op.Env, []string{"a=b", "=", "", "x\ny=z", "\"q\"", "a\\n", "é★", "\xff", "x\n\ny", " lead", "trail ", "a\rb\r"}[t.N(12)])
		}
		if k := (rk{op.S, op.Name}); have[op.S] && !slices.Contains(runs, k) {
			runs = append(runs, k)
		}
		return op
	}
	have[0] = true
	c.Ops = append(c.Ops, BOp{K: []string{"create", "link"}[t.N(2)], S: 0, L: list(6)})
	t.Repeat(1, 40, 16, func(i int) {
		op := mk(BOp{})
		if i == 0 {
			c.Ops = append(c.Ops, newRun(op))
			return
		}
		switch t.Pick(3, 8, 22, 6, 2, 3, 4, 8, 4, 2) {
		case 0:
			op.S = t.N(3)
			op.K, op.L = []string{"create", "link"}[t.N(2)], list(5)
			if t.P(8) {
				op.L = append(op.L, -1) // which is not there
			} else {
				have[op.S] = true
			}
		case 1:
			op = newRun(op)
		case 2:
			op.K, op.L = "do", list(4)
			if len(runs) > 0 {
				r := runs[t.N(len(runs))]
				op.S, op.Name = r.s, r.nm
			}
		case 3:
			op.K = "open"
		case 4:
			op.K, op.Name = "remove", names[t.N(len(names))]
			runs = slices.DeleteFunc(runs, func(r rk) bool { return r == rk{op.S, op.Name} })
		case 5:
			op.K, op.Name, op.N = "bad", []string{"", ".", "..", "a/b", "../r", "r/", "r/../run-2", "../../x"}[t.N(8)], t.N(2)
		case 6:
			op.K, op.F = "runselect", t.U64()
		case 7:
			op.K, op.F, op.G, op.N = "cmp", t.U64(), t.U64(), 1+t.N(40)
			if t.P(50) {
				op.F = ^uint64(0)
			}
			if t.P(50) {
				op.G = ^uint64(0)
			}
		case 8:
			op.K, op.N, op.Name, op.L = "select", t.N([]int{14, 40}[t.N(2)]), []string{"", "*.cnf", "*", "[a-e]*", "*.gz", "zzz"}[t.N(6)], nil
			t.Exactly(t.N(4), func(int) { op.L = append(op.L, t.N(5)) })
			if t.P(20) {
				op.T, op.N = t.N(120), t.N(130)
			}
		case 9:
			op.K, op.Cmd = "is", t.N(4)
		}
		c.Ops = append(c.Ops, op)
	})
	return c
}

// script of the file.
func (f *BFile) script(i int) string {
	var b strings.Builder
	q := func(s Blob) string {
		var b strings.Builder
		for k := 0; k < len(s); k++ {
			fmt.Fprintf(&b, `\%03o`, s[k])
		}
		return b.String()
	}
	fmt.Fprintf(&b, "# %d\n", i)
	if f.Out != "" {
		fmt.Fprintf(&b, "printf '%s'\n", q(f.Out))
	}
	if f.Err != "" {
		fmt.Fprintf(&b, "printf '%s' >&2\n", q(f.Err))
	}
	if f.Big > 0 {
		fmt.Fprintf(&b, "head -c %d /dev/zero\n", f.Big*1024)
	}
	switch f.Hang {
	case 1:
		b.WriteString("exec sleep 8\n")
	case 2:
		b.WriteString("sleep 8\n:\n")
	case 3:
		b.WriteString("trap '' TERM INT HUP QUIT\nexec sleep 8\n")
	}
	if f.Exit < 0 {
		b.WriteString("kill -9 $$\n")
	} else {
		fmt.Fprintf(&b, "exit %d\n", f.Exit)
	}
	return b.String()
}

type bRun struct {
	r      *bench.Run // as created
	name   string
	cmd    string
	kind   int
	desc   string
	commit string
	env    map[string]string
	it, to time.Duration
	start  time.Time
	done   map[int]*bench.InstRun
	errdir map[int]bool
}

type bSuite struct {
	root  string
	files []int
	paths []string
	link  bool
	runs  map[string]*bRun
}

type bh struct {
	c    *BCase
	m    *pbt.Meter
	dir  string // of all
	src  string // of the files, as given to the calls
	sub  string // of the suites, as given to the calls
	ss   map[int]*bSuite
	seq  int
	reps int
}

var bCmds = []string{"/bin/sh", "/bin/sh  -e ", "no-such-command-here", ""}

func (h *bh) path(i int) string {
	if i < 0 {
		return filepath.Join(h.src, "nothing-there")
	}
	return filepath.Join(h.src, h.c.Files[i].Name)
}

// insts checks the instances of a suite.
func (h *bh) insts(s *bSuite, v *bench.Suite) error {
	if v.Root != s.root {
		return pbt.Failf("root %q of suite at %q", v.Root, s.root)
	}
	if len(v.Insts) != len(s.files) || v.Len() != len(s.files) {
		return pbt.Failf("%d instances of %d: %q", len(v.Insts), len(s.files), v.Insts)
	}
	if !slices.Equal(v.Map, s.paths) {
		return pbt.Failf("origins %q of %q", v.Map, s.paths)
	}
	if len(v.Hashes) != len(s.files) {
		return pbt.Failf("%d hashes of %d instances: %q", len(v.Hashes), len(s.files), v.Hashes)
	}
	seen := map[string]bool{}
	for i, f := range s.files {
		nm := v.Insts[i]
		if seen[nm] {
			return pbt.Failf("two instances %q", nm)
		}
		seen[nm] = true
		p := filepath.Join(s.root, nm)
		b, e := os.ReadFile(p)
		if e != nil {
			return pbt.Failf("instance %d: %s", i, e)
		}
		if string(b) != h.c.Files[f].script(f) {
			return pbt.Failf("instance %d %q is not file %q", i, nm, h.c.Files[f].Name)
		}
		x := sha256.Sum256(b)
		if v.Hashes[i] != hex.EncodeToString(x[:]) {
			return pbt.Failf("instance %d: hash %q", i, v.Hashes[i])
		}
		st, e := os.Lstat(p)
		if e != nil || (st.Mode()&os.ModeSymlink != 0) != s.link {
			return pbt.Failf("instance %d: mode %s of a suite with links %t", i, st.Mode(), s.link)
		}
		for _, x := range []string{".gz", ".bz2"} {
			if strings.HasSuffix(h.c.Files[f].Name, x) != strings.HasSuffix(nm, x) {
				if strings.HasSuffix(h.c.Files[f].Name, x) {
					return pbt.Failf("instance %q of file %q", nm, h.c.Files[f].Name)
				}
			}
		}
	}
	return nil
}

// open opens suite s and compares all to the model.
func (h *bh) open(s *bSuite) (*bench.Suite, error) {
	v, e := bench.OpenSuite(s.root)
	if e != nil {
		return nil, pbt.Failf("OpenSuite: %s", e)
	}
	if e := h.insts(s, v); e != nil {
		return nil, pbt.Failf("opened suite: %s", e)
	}
	got := map[string]*bench.Run{}
	for _, r := range v.Runs {
		if got[r.Name] != nil {
			return nil, pbt.Failf("two runs %q", r.Name)
		}
		got[r.Name] = r
		if s.runs[r.Name] == nil {
			return nil, pbt.Failf("run %q was never made", r.Name)
		}
	}
	for n, b := range s.runs {
		r := got[n]
		if r == nil {
			return nil, pbt.Failf("run %q is lost", n)
		}
		if e := b.same(r, v); e != nil {
			return nil, pbt.Failf("opened run %q: %s", n, e)
		}
		h.reps++
		if len(b.done) > 1 && len(b.done) < len(s.files) {
			h.m.Hit("incomplete run reopened")
		}
	}
	return v, nil
}

func (b *bRun) same(r *bench.Run, s *bench.Suite) error {
	if r.Suite != s || r.Name != b.name || r.Cmd != b.cmd || r.Desc != b.desc || r.Commit != b.commit {
		return pbt.Failf("suite %t, name %q, command %q, description %q, commit %q", r.Suite == s, r.Name, r.Cmd, r.Desc, r.Commit)
	}
	if r.Timeout != b.to || r.InstTimeout != b.it || !r.Start.Equal(b.start) {
		return pbt.Failf("timeouts %s %s, start %s, not %s %s, %s", r.Timeout, r.InstTimeout, r.Start, b.to, b.it, b.start)
	}
	if r.Arch != runtime.GOARCH || r.Os != runtime.GOOS || r.NumCPU != runtime.NumCPU() {
		return pbt.Failf("made on %s %s %d", r.Arch, r.Os, r.NumCPU)
	}
	for k, v := range b.env {
		if w, ok := r.Env[k]; !ok || w != v {
			return pbt.Failf("environment: %q is %q, not %q", k, w, v)
		}
	}
	if len(r.Env) != len(b.env) {
		return pbt.Failf("environment of %d, not %d", len(r.Env), len(b.env))
	}
	if r.Len() != s.Len() {
		return pbt.Failf("length %d of %d", r.Len(), s.Len())
	}
	last := -1
	for _, ir := range r.InstRuns {
		if ir.Inst <= last {
			return pbt.Failf("instance %d after %d", ir.Inst, last)
		}
		last = ir.Inst
		if b.done[ir.Inst] == nil && b.errdir[ir.Inst] {
			continue
		}
		d := b.done[ir.Inst]
		if d == nil {
			return pbt.Failf("instance %d was never run", ir.Inst)
		}
		if ir.Run != r || ir.Result != d.Result || ir.Dur != d.Dur || ir.UDur != d.UDur || ir.SDur != d.SDur || !ir.Start.Equal(d.Start) || ir.Error != d.Error {
			return pbt.Failf("instance %d: result %d %s %s %s start %s error %q, was %d %s %s %s start %s error %q", ir.Inst, ir.Result, ir.Dur, ir.UDur, ir.SDur, ir.Start, ir.Error,
				d.Result, d.Dur, d.UDur, d.SDur, d.Start, d.Error)
		}
	}
	n := 0
	for i := range b.done {
		if !slices.ContainsFunc(r.InstRuns, func(x *bench.InstRun) bool { return x.Inst == i }) {
			return pbt.Failf("instance %d is lost", i)
		}
		n++
	}
	return nil
}

// do runs instance i.
func (h *bh) do(s *bSuite, b *bRun, i int) error {
	if b.done[i] != nil {
		if _, e := b.r.Do(i); e == nil {
			return pbt.Failf("instance %d is run again over its results", i)
		}
		h.m.Hit("run again")
		return nil
	}
	f := &h.c.Files[s.files[i]]
	if b.kind < 2 && f.Hang > 0 && b.it > 5*time.Second && time.Until(b.start.Add(b.to)) > 5*time.Second {
		return nil // would take too long
	}
	wd, _ := os.Getwd()
	ir, e := b.r.Do(i)
	if e != nil {
		return pbt.Failf("instance %d: %s", i, e)
	}
	if wd2, _ := os.Getwd(); wd2 != wd {
		return pbt.Failf("instance %d: the working directory is now %s", i, wd2)
	}
	b.done[i] = ir
	if ir.Run != b.r || ir.Inst != i {
		return pbt.Failf("instance %d is run as %d", i, ir.Inst)
	}
	if b.kind >= 2 {
		h.m.Hit("command not there")
		if ir.Result != 0 || ir.Error == "" {
			return pbt.Failf("instance %d: result %d, error %q of a command which is none", i, ir.Result, ir.Error)
		}
		return nil
	}
	want := map[int]int{10: 1, 20: -1}[f.Exit]
	soft := b.it < 5*time.Second || b.to < 5*time.Second
	if f.Hang > 0 {
		want = 0
		h.m.Hit("timeout")
	}
	if ir.Result != want && (!soft || ir.Result != 0) {
		return pbt.Failf("instance %d: result %d, not %d", i, ir.Result, want)
	}
	if f.Hang > 0 && ir.Dur > 5*time.Second {
		return pbt.Failf("instance %d with timeouts %s, %s takes %s", i, b.it, b.to, ir.Dur)
	}
	if ir.Dur <= 0 || ir.UDur < 0 || ir.SDur < 0 || ir.UDur+ir.SDur > 20*time.Second || ir.Start.Before(b.start) || time.Since(ir.Start) < 0 || ir.Dur > time.Since(ir.Start) {
		return pbt.Failf("instance %d: times %s %s %s, start %s", i, ir.Dur, ir.UDur, ir.SDur, ir.Start)
	}
	if (ir.Error == "") != (f.Exit == 0 && f.Hang == 0) && !soft {
		return pbt.Failf("instance %d: error %q at exit %d", i, ir.Error, f.Exit)
	}
	if soft {
		return nil
	}
	d := filepath.Join(s.root, "runs", b.name, fmt.Sprintf("inst-%d.run", i))
	o, e := os.ReadFile(filepath.Join(d, "out"))
	if e != nil || string(o) != string(f.Out)+strings.Repeat("\x00", f.Big*1024) {
		return pbt.Failf("instance %d: output of %d bytes recorded, %v", i, len(o), e)
	}
	o, e = os.ReadFile(filepath.Join(d, "err"))
	if e != nil || string(o) != string(f.Err) {
		return pbt.Failf("instance %d: error output %q recorded, %v", i, o, e)
	}
	return nil
}

func near(a, b float64) bool {
	return a == b || math.Abs(a-b) <= 1e-9*(math.Abs(a)+math.Abs(b))
}

func irOf(r *bench.Run, i int) *bench.InstRun {
	for _, x := range r.InstRuns {
		if x.Inst == i {
			return x
		}
	}
	return nil
}

// cmp checks comparisons of the runs of v.
// benchCmp compares runs of v as op says, against the values of their
// instance runs.
func benchCmp(m *pbt.Meter, v *bench.Suite, op BOp) error {
	rf := func(r *bench.Run) bool {
		i := slices.IndexFunc(v.Runs, func(x *bench.Run) bool { return x.Name == r.Name })
		return op.F>>(i&63)&1 == 1
	}
	bf := func(s *bench.Suite, i int) bool { return op.G>>(i&63)&1 == 1 }
	tot := map[string][4]int{}
	for _, r := range v.Runs {
		n := map[int]int{}
		var re, us, sy float64
		for _, x := range r.InstRuns {
			n[x.Result]++
			re += x.Dur.Seconds()
			us += x.UDur.Seconds()
			sy += x.SDur.Seconds()
		}
		if bench.SolveTotal(r) != n[1]+n[-1] || bench.SatTotal(r) != n[1] || bench.UnsatTotal(r) != n[-1] || bench.UnknownTotal(r) != n[0] {
			return pbt.Failf("run %q: totals %d %d %d %d of %v", r.Name, bench.SolveTotal(r), bench.SatTotal(r), bench.UnsatTotal(r), bench.UnknownTotal(r), n)
		}
		if x := bench.TotalResult(r, func(r int) bool { return r >= 0 }); x != n[0]+n[1] {
			return pbt.Failf("run %q: TotalResult %d of %v", r.Name, x, n)
		}
		tot[r.Name] = [4]int{n[1] + n[-1], n[1], n[-1], n[0]}
		a, b, c := bench.Times(r)
		if !near(a, re) || !near(b, us) || !near(c, sy) {
			return pbt.Failf("run %q: times %g %g %g, not %g %g %g", r.Name, a, b, c, re, us, sy)
		}
		if len(r.InstRuns) > 0 {
			if x := bench.SolvePortion(r); !near(x, float64(n[1]+n[-1])/float64(len(r.InstRuns))) {
				return pbt.Failf("run %q: portion %g of %v", r.Name, x, n)
			}
		}
		a, b, c = bench.SolveRate(r, time.Minute)
		for i, x := range []float64{a, b, c} {
			y := []float64{re, us, sy}[i]
			if y > 0 && math.Abs(x-float64(n[1]+n[-1])/(y/60)) > 1e-6*x {
				return pbt.Failf("run %q: solve rates %g %g %g", r.Name, a, b, c)
			}
		}
	}
	for i, r := range v.Runs {
		for _, q := range v.Runs[:i] {
			var want []string
			for k := range v.Insts {
				x, y := irOf(r, k), irOf(q, k)
				if x != nil && y != nil && bf(v, k) {
					want = append(want, fmt.Sprint(x.Dur, y.Dur))
				}
			}
			sc := bench.NewScatter(r, q, bf)
			if op.G == ^uint64(0) {
				sc = bench.NewScatter(r, q, nil)
			}
			var got []string
			if len(sc.Xs) == len(sc.Ys) {
				for k := range sc.Xs {
					got = append(got, fmt.Sprint(sc.Xs[k], sc.Ys[k]))
				}
			}
			slices.Sort(want)
			slices.Sort(got)
			if sc.Runs != [2]*bench.Run{r, q} || len(sc.Xs) != len(sc.Ys) || !slices.Equal(got, want) {
				return pbt.Failf("scatter of %q and %q: %v %v, not %v", r.Name, q.Name, sc.Xs, sc.Ys, want)
			}
			if e := scatterPlot(sc, op.N, sc.Utf8(op.N)); e != nil {
				return e
			}
			m.Hit("scatter")
		}
	}
	ca := bench.NewCactus(v, rf, bf)
	k := 0
	var top time.Duration
	for _, r := range v.Runs {
		if !rf(r) {
			continue
		}
		if k >= len(ca.Runs) || ca.Runs[k] != r || k >= len(ca.D) {
			return pbt.Failf("cactus has other runs")
		}
		var want, got []int
		for i, x := range r.InstRuns {
			if bf(v, x.Inst) {
				want = append(want, i)
				top = max(top, x.Dur)
			}
		}
		for j, i := range ca.D[k] {
			got = append(got, i)
			if j > 0 && r.InstRuns[i].Dur < r.InstRuns[ca.D[k][j-1]].Dur {
				return pbt.Failf("cactus of %q is not sorted: %v", r.Name, ca.D[k])
			}
		}
		slices.Sort(got)
		if !slices.Equal(got, want) {
			return pbt.Failf("cactus of %q is over %v, not %v", r.Name, got, want)
		}
		k++
	}
	if k != len(ca.Runs) || ca.MaxDur != top {
		return pbt.Failf("cactus of %d runs, not %d, up to %s, not %s", len(ca.Runs), k, ca.MaxDur, top)
	}
	if e := cactusPlot(ca, max(2, op.N), ca.Utf8(max(2, op.N))); e != nil {
		return e
	}
	su := bench.Summary(v)
	for n, x := range tot {
		ok := false
		for _, l := range strings.Split(su, "\n") {
			w := strings.Split(l, "|")
			if len(w) > 5 && strings.TrimSpace(w[1]) == n {
				ok = true
				for i := range x {
					if strings.TrimSpace(w[2+i]) != strconv.Itoa(x[i]) {
						return pbt.Failf("summary: %q, not %v", l, x)
					}
				}
			}
		}
		if !ok {
			return pbt.Failf("summary without run %q: %s", n, su)
		}
	}
	ls := strings.Split(bench.Listing(v, rf), "\n")
	if len(ls) < len(v.Insts)+1 {
		return pbt.Failf("listing of %d lines for %d instances", len(ls), len(v.Insts))
	}
	hdr := strings.Split(ls[0], "|")
	for i, j := 0, 2; i < len(v.Runs); i++ {
		if rf(v.Runs[i]) {
			if j >= len(hdr) || !tailOf(hdr[j], v.Runs[i].Name, 10) {
				return pbt.Failf("listing: header %q, run %q", ls[0], v.Runs[i].Name)
			}
			j++
		}
	}
	for i := range v.Insts {
		w := strings.Split(ls[i+1], "|")
		if strings.TrimSpace(w[0]) != strconv.Itoa(i) {
			return pbt.Failf("listing: line %q for instance %d", ls[i+1], i)
		}
		if !tailOf(w[1], v.Map[i], 18) {
			return pbt.Failf("listing: line %q for instance %d of %q", ls[i+1], i, v.Map[i])
		}
		w = w[2:]
		j := 0
		for _, r := range v.Runs {
			if !rf(r) {
				continue
			}
			if j >= len(w) {
				return pbt.Failf("listing: line %q", ls[i+1])
			}
			f := strings.Fields(w[j])
			j++
			x := irOf(r, i)
			if x == nil {
				if len(f) > 0 && (f[0] == "s" || f[0] == "u") {
					return pbt.Failf("listing: line %q: instance %d was not run by %q", ls[i+1], i, r.Name)
				}
				continue
			}
			if len(f) != 2 || f[0] != map[int]string{1: "s", -1: "u", 0: "?"}[x.Result] || !secIs(f[1], x.Dur) {
				return pbt.Failf("listing: line %q: instance %d has %d in %s by %q", ls[i+1], i, x.Result, x.Dur, r.Name)
			}
		}
	}
	if len(v.Runs) > 1 {
		m.NonTrivial()
	}
	return nil
}

// tailOf is about a column of a table with the end of s, at least n runes of
// it.
func tailOf(col, s string, n int) bool {
	col, s = strings.TrimSpace(col), strings.TrimSpace(s)
	return strings.HasSuffix(s, col) && (col == s || utf8.RuneCountInString(col) >= n-4)
}

// secIs tells if s is about d in seconds.
func secIs(s string, d time.Duration) bool {
	x, e := strconv.ParseFloat(strings.TrimSpace(s), 64)
	return e == nil && math.Abs(x-d.Seconds()) < 0.0051
}

// plotRows gives the n rows of 2n columns of a plot, from below.
func plotRows(s string, n int) ([][]rune, []string) {
	ls := strings.Split(s, "\n")
	if len(ls) < n {
		return nil, nil
	}
	rows := make([][]rune, n)
	for i := range rows {
		l := ls[n-1-i]
		if j := strings.IndexByte(l, '|'); j >= 0 {
			l = l[j+1:]
		}
		if rows[i] = []rune(l); len(rows[i]) != 2*n {
			return nil, nil
		}
	}
	return rows, ls[n:]
}

// scatterPlot checks the plot of sc against its points, with tolerances of a
// cell.
func scatterPlot(sc *bench.Scatter, n int, s string) error {
	rows, rest := plotRows(s, n)
	if rows == nil {
		return pbt.Failf("scatter plot of size %d:\n%s", n, s)
	}
	marks := map[rune]string{}
	for _, l := range rest {
		if a, b, ok := strings.Cut(strings.TrimSpace(l), " - "); ok && utf8.RuneCountInString(a) == 1 {
			r, _ := utf8.DecodeRuneInString(a)
			marks[r] = strings.TrimSuffix(b, " wins")
		}
	}
	var top time.Duration
	for i := range sc.Xs {
		top = max(top, sc.Xs[i], sc.Ys[i])
	}
	pos := func(d time.Duration) float64 {
		if top == 0 {
			return 0
		}
		return float64(d) / float64(top) * float64(n-1)
	}
	is := func(x, y int) bool {
		return y >= 0 && y < n && x >= 0 && x < n && marks[rows[y][2*x]] != ""
	}
	for i := range sc.Xs {
		x, y := pos(sc.Xs[i]), pos(sc.Ys[i])
		found := false
		for a := int(x) - 1; a <= int(x)+1; a++ {
			for b := int(y) - 1; b <= int(y)+1; b++ {
				found = found || is(a, b)
			}
		}
		if !found {
			return pbt.Failf("scatter plot of size %d, no mark for the point %s %s of up to %s:\n%s", n, sc.Xs[i], sc.Ys[i], top, s)
		}
	}
	count := 0
	for y := range rows {
		for x := range rows[y] {
			c := rows[y][x]
			if marks[c] == "" {
				if c != ' ' && c != '/' || c == '/' && x/2 != y {
					return pbt.Failf("scatter plot of size %d has %q:\n%s", n, c, s)
				}
				continue
			}
			count++
			ok := false
			for i := range sc.Xs {
				a, b := pos(sc.Xs[i]), pos(sc.Ys[i])
				if math.Abs(a-float64(x)/2) > 1.01 || math.Abs(b-float64(y)) > 1.01 {
					continue
				}
				// the faster one wins
				if a-b < 1 && marks[c] == sc.Runs[0].Name || b-a < 1 && marks[c] == sc.Runs[1].Name {
					ok = true
				}
			}
			if !ok {
				return pbt.Failf("scatter plot of size %d of %v %v, the mark %q (%s) at column %d of row %d:\n%s", n, sc.Xs, sc.Ys, c, marks[c], x, y, s)
			}
		}
	}
	if count > len(sc.Xs) {
		return pbt.Failf("scatter plot of size %d of %d points:\n%s", n, len(sc.Xs), s)
	}
	return nil
}

// cactusPlot checks the plot of ca likewise.
func cactusPlot(ca *bench.Cactus, n int, s string) error {
	if len(ca.Runs) == 0 || len(ca.Runs) > 20 {
		return nil
	}
	rows, rest := plotRows(s, n)
	top, _, _ := strings.Cut(s, "s|")
	if rows == nil || !secIs(top, ca.MaxDur) {
		return pbt.Failf("cactus plot of size %d up to %s:\n%s", n, ca.MaxDur, s)
	}
	ticks := map[rune]int{}
	k := 0
	for _, l := range rest {
		if a, b, ok := strings.Cut(strings.TrimSpace(l), " - "); ok && utf8.RuneCountInString(a) == 1 {
			r, _ := utf8.DecodeRuneInString(a)
			if _, two := ticks[r]; two || k >= len(ca.Runs) || b != strings.TrimRight(ca.Runs[k].Name, " ") {
				return pbt.Failf("cactus plot: legend %q of run %d:\n%s", l, k, s)
			}
			ticks[r] = k
			k++
		}
	}
	if k != len(ca.Runs) {
		return pbt.Failf("cactus plot: %d runs in the legend, not %d:\n%s", k, len(ca.Runs), s)
	}
	type pt struct{ x, y float64 }
	pts := make([][]pt, k)
	for i, d := range ca.D {
		for j, p := range d {
			q := pt{x: float64(j) / float64(len(d)) * float64(n-1)}
			if ca.MaxDur > 0 {
				q.y = float64(ca.Runs[i].InstRuns[p].Dur) / float64(ca.MaxDur) * float64(n-1)
			}
			pts[i] = append(pts[i], q)
			found := false
			for a := max(0, int(q.x)-1); a <= min(n-1, int(q.x)+1); a++ {
				for b := max(0, int(q.y)-1); b <= min(n-1, int(q.y)+1); b++ {
					_, ok := ticks[rows[b][2*a]]
					found = found || ok
				}
			}
			if !found {
				return pbt.Failf("cactus plot of size %d, no mark for instance %d of run %d:\n%s", n, p, i, s)
			}
		}
	}
	for y := range rows {
		for x, c := range rows[y] {
			i, ok := ticks[c]
			if !ok {
				if c != ' ' {
					return pbt.Failf("cactus plot of size %d has %q:\n%s", n, c, s)
				}
				continue
			}
			if !slices.ContainsFunc(pts[i], func(q pt) bool { return math.Abs(q.x-float64(x)/2) <= 1.01 && math.Abs(q.y-float64(y)) <= 1.01 }) {
				return pbt.Failf("cactus plot of size %d, a mark of run %d at column %d of row %d:\n%s", n, i, x, y, s)
			}
		}
	}
	return nil
}

// BCCase is a comparison of runs.
type BCCase struct {
	Origins []string `json:"origins"`
	Runs    []BCRun  `json:"runs"`
	Op      BOp      `json:"op"`
}

// BCRun is a run of instances.
type BCRun struct {
	Name string   `json:"name"`
	I    []BCInst `json:"i,omitempty"`
}

// BCInst is the result of an instance.
type BCInst struct {
	I int   `json:"i"`
	R int   `json:"r,omitempty"`
	D int64 `json:"d,omitempty"`
	U int64 `json:"u,omitempty"`
	S int64 `json:"s,omitempty"`
}

func genBComp(t *pbt.T) *BCCase {
	c := &BCCase{}
	n := t.N(30)
	t.Exactly(n, func(int) {
		s := bNames[t.N(len(bNames))]
		for len(s) < 60 && t.P(40) {
			s = []string{"dir", "ü", "x y", "long-directory-name", "★★★"}[t.N(5)] + "/" + s
		}
		c.Origins = append(c.Origins, s)
	})
	names := []string{"r", "run-2", "z★", "run+", "quite-a-long-name", "a-name-of-★★★★★★★★★★★★", "x.y", "minisat-2.2", "b", "c", "d", "0", "1", "23", "/", "-", "+"}
	k := 1 + t.N(5)
	if t.P(10) {
		k = 1 + t.N(len(names))
	}
	for i := 0; i < k; i++ {
		j := i + t.N(len(names)-i)
		names[i], names[j] = names[j], names[i]
	}
	unit := []int64{1, 1000, 1e6, 1e8, 1e9, 60e9}[t.N(6)]
	dur := func() int64 {
		switch t.Pick(1, 3, 6, 1) {
		case 0:
			return 0
		case 1:
			return unit * int64(t.N(8))
		case 2:
			return unit*int64(t.N(100)) + int64(t.N(1000))
		}
		return unit * int64(t.N(5000))
	}
	t.Exactly(k, func(i int) {
		r := BCRun{Name: names[i]}
		all := t.P(50)
		for j := 0; j < n; j++ {
			if all || t.P(60) {
				r.I = append(r.I, BCInst{I: j, R: t.N(3) - 1, D: dur(), U: dur(), S: dur()})
			}
		}
		for j := range r.I {
			l := j + t.N(len(r.I)-j)
			if !all {
				r.I[j], r.I[l] = r.I[l], r.I[j]
			}
		}
		c.Runs = append(c.Runs, r)
	})
	c.Op = BOp{F: t.U64(), G: t.U64(), N: 1 + t.N(40)}
	if t.P(60) {
		c.Op.F = ^uint64(0)
	}
	if t.P(60) {
		c.Op.G = ^uint64(0)
	}
	return c
}

func runBComp(c *BCCase, m *pbt.Meter) error {
	v := &bench.Suite{Root: "/nowhere/suite", Map: c.Origins}
	for i := range c.Origins {
		v.Insts = append(v.Insts, fmt.Sprintf("bench-%d", i))
		v.Hashes = append(v.Hashes, strings.Repeat("0", 64))
	}
	for i := range c.Runs {
		r := &bench.Run{Root: "/nowhere/suite/run/x", Name: c.Runs[i].Name, Suite: v, Cmd: "c", Timeout: time.Hour, InstTimeout: time.Hour}
		for _, x := range c.Runs[i].I {
			r.InstRuns = append(r.InstRuns, &bench.InstRun{Run: r, Inst: x.I, Result: x.R, Dur: time.Duration(x.D), UDur: time.Duration(x.U), SDur: time.Duration(x.S)})
		}
		v.Runs = append(v.Runs, r)
		m.Add("instance runs", len(r.InstRuns))
	}
	return benchCmp(m, v, c.Op)
}

func (h *bh) step(op BOp) error {
	s := h.ss[op.S]
	var b *bRun
	if s != nil {
		b = s.runs[op.Name]
	}
	switch op.K {
	case "create", "link":
		h.seq++
		x := &bSuite{root: filepath.Join(h.sub, fmt.Sprintf("s%d", op.S)), link: op.K == "link", runs: map[string]*bRun{}}
		bad := false
		for _, i := range op.L {
			x.files = append(x.files, i)
			x.paths = append(x.paths, h.path(i))
			bad = bad || i < 0
		}
		f := bench.CreateSuite
		if x.link {
			f = bench.LinkSuite
		}
		if h.seq%4 == 1 && !bad {
			// where something is already
			d := x.root + "-dir"
			p := filepath.Join(d, "some.cnf")
			os.MkdirAll(d, 0o755)
			os.WriteFile(p, []byte("mine"), 0o644)
			for _, at := range []string{d, p} {
				if _, e := f(at, x.paths); e == nil {
					return pbt.Failf("a suite where something else is")
				}
			}
			es, _ := os.ReadDir(d)
			if b, _ := os.ReadFile(p); string(b) != "mine" || len(es) != 1 {
				return pbt.Failf("a directory was changed by the attempt to make a suite there")
			}
			os.Remove(p)
			os.Remove(d)
			h.m.Hit("place taken")
		}
		if s == nil && bad {
			x.root += "-bad"
			os.RemoveAll(x.root)
		}
		v, e := f(x.root, x.paths)
		if s != nil {
			if e == nil {
				return pbt.Failf("a suite over another one")
			}
			_, e = h.open(s)
			return e
		}
		if bad {
			if e == nil {
				return pbt.Failf("suite of a file which is not there")
			}
			h.m.Hit("missing file")
			return nil
		}
		if e != nil {
			return pbt.Failf("%s", e)
		}
		if e := h.insts(x, v); e != nil {
			return e
		}
		h.ss[op.S] = x
		h.m.Hit(op.K)
		if h.seq&1 == 0 {
			_, e = h.open(x)
		}
		return e
	case "select":
		dirs := []string{h.src, filepath.Join(h.src, "d.d"), filepath.Join(h.src, "sub"), filepath.Join(h.src, "d.d", "e.e"), filepath.Join(h.src, "none")}
		ls := op.L
		if op.T > 0 {
			d, e := os.MkdirTemp(h.dir, "many")
			if e != nil {
				return e
			}
			defer func() {
				for i := 0; i < op.T; i++ {
					os.Remove(filepath.Join(d, fmt.Sprintf("%d.cnf", i)))
				}
				os.Remove(d)
			}()
			for i := 0; i < op.T; i++ {
				os.WriteFile(filepath.Join(d, fmt.Sprintf("%d.cnf", i)), nil, 0o644)
			}
			dirs = append(dirs, d)
			ls = append(ls[:len(ls):len(ls)], len(dirs)-1)
		}
		var ds []string
		want := map[string]bool{}
		for _, i := range ls {
			ds = append(ds, dirs[i])
			filepath.Walk(dirs[i], func(p string, st os.FileInfo, e error) error {
				if e == nil && !st.IsDir() {
					ok := op.Name == ""
					if !ok {
						ok, _ = filepath.Match(op.Name, filepath.Base(p))
					}
					if ok {
						want[p] = true
					}
				}
				return nil
			})
		}
		got := bench.MatchSelect(op.Name, op.N, ds...)
		if op.Name == "" {
			got = bench.Select(op.N, ds...)
		}
		if len(got) != min(op.N, len(want)) {
			return pbt.Failf("selected %d of %d files, asked for %d: %q", len(got), len(want), op.N, got)
		}
		seen := map[string]bool{}
		for _, p := range got {
			if !want[p] || seen[p] {
				return pbt.Failf("selected %q, twice %t", p, seen[p])
			}
			seen[p] = true
		}
		if len(got) > 0 {
			h.m.Hit("select")
		}
		return nil
	}
	if s == nil {
		return nil
	}
	switch op.K {
	case "run":
		if b != nil {
			return nil
		}
		v, e := h.open(s)
		if e != nil {
			return e
		}
		for i, w := range op.Env {
			k := fmt.Sprintf("VHX%d", i)
			os.Setenv(k, w)
			defer os.Unsetenv(k)
		}
		x := &bRun{name: op.Name, cmd: bCmds[op.Cmd], kind: op.Cmd, commit: "00000000", it: time.Duration(op.IT) * time.Millisecond, to: time.Duration(op.T) * time.Millisecond, done: map[int]*bench.InstRun{}, env: map[string]string{}}
		for _, kv := range os.Environ() {
			i := strings.Index(kv, "=")
			x.env[kv[:i]] = kv[i+1:]
		}
		t0 := time.Now()
		r, e := v.Run(op.Name, x.cmd, x.it, x.to)
		if e != nil {
			return pbt.Failf("new run: %s", e)
		}
		if r.Start.Before(t0) || r.Start.After(time.Now()) {
			return pbt.Failf("new run starts %s", r.Start)
		}
		x.r, x.start = r, r.Start
		if e := x.same(r, v); e != nil {
			return pbt.Failf("new run: %s", e)
		}
		s.runs[op.Name] = x
		h.m.Hit("run")
		return nil
	case "do":
		if b == nil || len(s.files) == 0 {
			return nil
		}
		for _, i := range op.L {
			if e := h.do(s, b, i%len(s.files)); e != nil {
				return e
			}
		}
		return nil
	case "open":
		_, e := h.open(s)
		return e
	case "remove":
		v, e := h.open(s)
		if e != nil {
			return e
		}
		if e := v.RemoveRun(op.Name); e != nil && b != nil {
			return pbt.Failf("remove: %s", e)
		}
		delete(s.runs, op.Name)
		if len(v.Runs) != len(s.runs) || slices.ContainsFunc(v.Runs, func(r *bench.Run) bool { return s.runs[r.Name] == nil }) {
			return pbt.Failf("%d runs after the removal, not %d", len(v.Runs), len(s.runs))
		}
		if b != nil {
			h.m.Hit("removed")
		}
		_, e = h.open(s)
		return e
	case "bad":
		if strings.HasPrefix(op.Name, "/") || len(op.Name) > 12 {
			return nil // stays below the scratch directory whatever the code does
		}
		v, e := h.open(s)
		if e != nil {
			return e
		}
		if op.N == 0 {
			if _, e := v.Run(op.Name, "true", time.Second, time.Second); e == nil {
				return pbt.Failf("a run with the name %q", op.Name)
			}
		} else if e := v.RemoveRun(op.Name); e == nil {
			return pbt.Failf("run %q was removed", op.Name)
		}
		h.m.Hit("bad name")
		_, e = h.open(s)
		return e
	case "runselect":
		v, e := h.open(s)
		if e != nil {
			return e
		}
		before := slices.Clone(v.Runs)
		keep := func(r *bench.Run) bool {
			i := slices.IndexFunc(before, func(x *bench.Run) bool { return x.Name == r.Name })
			return op.F>>(i&63)&1 == 1
		}
		w := v.RunSelect(keep)
		if !slices.Equal(v.Runs, before) {
			return pbt.Failf("RunSelect changed the runs of the suite")
		}
		k := 0
		for _, r := range before {
			if r.Suite != v {
				return pbt.Failf("RunSelect changed the suite of a run")
			}
			if !keep(r) {
				continue
			}
			if k >= len(w.Runs) || w.Runs[k].Name != r.Name || w.Runs[k].Suite != w {
				return pbt.Failf("RunSelect without run %q", r.Name)
			}
			if e := s.runs[r.Name].same(w.Runs[k], w); e != nil && len(r.InstRuns) == 0 {
				return pbt.Failf("RunSelect: run %q: %s", r.Name, e)
			}
			k++
		}
		if k != len(w.Runs) {
			return pbt.Failf("RunSelect selects %d runs, not %d", len(w.Runs), k)
		}
		return h.insts(s, w)
	case "cmp":
		v, e := h.open(s)
		if e != nil {
			return e
		}
		return benchCmp(h.m, v, op)
	case "is":
		if !bench.IsSuiteDir(s.root) || bench.IsSuiteDir(h.src) {
			return pbt.Failf("IsSuiteDir")
		}
		for n := range s.runs {
			if !bench.IsRunDir(filepath.Join(s.root, "runs", n)) {
				return pbt.Failf("IsRunDir denies run %q", n)
			}
		}
		if bench.IsRunDir(s.root) || bench.IsRunDir(h.src) || bench.IsRunDir(filepath.Join(s.root, "runs", "none")) {
			return pbt.Failf("IsRunDir")
		}
	}
	return nil
}

func runBench(c *BCase, m *pbt.Meter) error {
	dir, done, e := wDir()
	if e != nil {
		return e
	}
	defer done()
	log.SetOutput(io.Discard)
	defer log.SetOutput(os.Stderr)
	h := &bh{c: c, m: m, dir: dir, ss: map[int]*bSuite{}}
	base := filepath.Join(dir, "w", "x")
	if e := os.MkdirAll(base, 0o755); e != nil {
		return e
	}
	wd, e := os.Getwd()
	if e != nil {
		return e
	}
	if e := os.Chdir(base); e != nil {
		return e
	}
	defer os.Chdir(wd)
	h.src, h.sub = filepath.Join(base, "src"), filepath.Join(base, "y", "z")
	if c.Rel {
		h.src, h.sub = "src", "y/z"
		m.Hit("relative paths")
	}
	for i := range c.Files {
		p := h.path(i)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if e := os.WriteFile(p, []byte(c.Files[i].script(i)), 0o644); e != nil {
			return e
		}
	}
	for i, op := range c.Ops {
		if e := h.step(op); e != nil {
			return pbt.Failf("op %d %s: %s", i, op.K, e)
		}
	}
	for i := 0; i < 3; i++ {
		if s := h.ss[i]; s != nil {
			if _, e := h.open(s); e != nil {
				return pbt.Failf("in the end: %s", e)
			}
			for _, b := range s.runs {
				if len(b.done) > 1 {
					m.NonTrivial()
				}
				m.Add("instances run", len(b.done))
			}
		}
	}
	// nothing was written elsewhere
	es, _ := os.ReadDir(base)
	for _, x := range es {
		if x.Name() != "src" && x.Name() != "y" {
			return pbt.Failf("%q was written beside the suites", x.Name())
		}
	}
	es, _ = os.ReadDir(h.sub)
	for _, x := range es {
		if n := strings.TrimSuffix(x.Name(), "-bad"); n != "s0" && n != "s1" && n != "s2" {
			return pbt.Failf("%q was written beside the suites", x.Name())
		}
	}
	m.Add("runs reopened", h.reps)
	return nil
}

// BCmd is a use of the bench command.
type BCmd struct {
	Files []BFile `json:"files"`
	Link  bool    `json:"link,omitempty"`
	N     int     `json:"n"`
	Pat   string  `json:"pat,omitempty"`
	Desc  string  `json:"desc,omitempty"`
	Com   string  `json:"com,omitempty"`
	Kill  []int   `json:"kill,omitempty"` // the command is killed after that many 0.1 ms, in each of its starts
	Two   bool    `json:"two,omitempty"`  // another run
	Del   bool    `json:"del,omitempty"`
}

func genBCmd(t *pbt.T) *BCmd {
	c := &BCmd{Link: t.P(40), N: t.Pick(1, 1, 1, 1, 1) * 3}
	if t.P(60) {
		c.N = 100
	}
	c.Pat = []string{"", "*.cnf", "*"}[t.N(3)]
	t.Exactly(1+t.N(10), func(i int) {
		f := BFile{Name: bNames[i], Exit: []int{10, 20, 0, 1}[t.Pick(5, 5, 1, 1)]}
		if t.P(40) {
			f.Out = Blob(randText(t, "ab c\n", 12))
		}
		c.Files = append(c.Files, f)
	})
	c.Desc = []string{"", "some words", "ü"}[t.N(3)]
	c.Com = []string{"", "abc123"}[t.N(2)]
	if t.P(70) {
		t.Exactly(1+t.N(3), func(int) { c.Kill = append(c.Kill, 1+t.N(500)) })
	}
	c.Two, c.Del = t.P(50), t.P(30)
	return c
}

var bDone = regexp.MustCompile(`done instance (\d+) of .*: (-?\d+)\n`)

func runBCmd(c *BCmd, m *pbt.Meter) error {
	gini := os.Getenv("VH_GINI")
	if gini == "" {
		return pbt.Failf("VH_GINI is not set")
	}
	bin := filepath.Join(filepath.Dir(gini), "bench")
	dir, done, e := wDir()
	if e != nil {
		return e
	}
	defer done()
	log.SetOutput(io.Discard)
	defer log.SetOutput(os.Stderr)
	src := filepath.Join(dir, "src")
	text := map[string]*BFile{}
	avail := 0
	for i := range c.Files {
		f := &c.Files[i]
		p := filepath.Join(src, f.Name)
		os.MkdirAll(filepath.Dir(p), 0o755)
		s := f.script(i)
		text[s] = f
		if e := os.WriteFile(p, []byte(s), 0o644); e != nil {
			return e
		}
		if ok, _ := filepath.Match(c.Pat, filepath.Base(f.Name)); ok || c.Pat == "" {
			avail++
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Second)
	defer cancel()
	run := func(kill int, args ...string) (string, string, error) {
		cmd := exec.CommandContext(ctx, bin, args...)
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
		var o, se strings.Builder
		cmd.Stdout, cmd.Stderr = &o, &se
		cmd.WaitDelay = 5 * time.Second
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		if e := cmd.Start(); e != nil {
			return "", "", e
		}
		if kill > 0 {
			time.Sleep(time.Duration(kill) * 100 * time.Microsecond)
			syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		}
		cmd.Wait()
		if ctx.Err() != nil {
			return "", "", pbt.Failf("bench %q does not end", args)
		}
		if strings.Contains(se.String(), "panic:") {
			return "", "", pbt.Failf("bench %q: %s", args, cut(se.String(), 1500))
		}
		return o.String(), se.String(), nil
	}
	suite := filepath.Join(dir, "suite")
	args := []string{"sel", "-n", strconv.Itoa(c.N), "-name", "suite"}
	if c.Link {
		args = append(args, "-link")
	}
	if c.Pat != "" {
		args = append(args, "-pattern", c.Pat)
	}
	_, se, e := run(0, append(args, "src")...)
	if e != nil {
		return e
	}
	v, e := bench.OpenSuite(suite)
	if e != nil {
		return pbt.Failf("selected suite: %s\n%s", e, se)
	}
	if v.Len() != min(avail, c.N) || len(v.Runs) != 0 {
		return pbt.Failf("selected %d of %d files, asked for %d\n%s", v.Len(), avail, c.N, se)
	}
	files := make([]*BFile, v.Len())
	for i, nm := range v.Insts {
		b, e := os.ReadFile(filepath.Join(suite, nm))
		if e != nil {
			return pbt.Failf("instance %d: %s", i, e)
		}
		if files[i] = text[string(b)]; files[i] == nil {
			return pbt.Failf("instance %d is none of the files", i)
		}
	}
	names := []string{"r1"}
	if c.Two {
		names = append(names, "r2")
	}
	for k, name := range names {
		a := []string{"run", "-name", name, "-cmd", "/bin/sh", "-dur", "20s"}
		if c.Desc != "" {
			a = append(a, "-desc", c.Desc)
		}
		if c.Com != "" {
			a = append(a, "-commit", c.Com)
		}
		known := map[int]*bench.InstRun{} // recorded
		for n := 0; n <= len(c.Kill); n++ {
			kill := 0
			if n < len(c.Kill) {
				kill = c.Kill[n]
			} else if n > 0 && k == 1 {
				break // leaves an incomplete run
			}
			_, se, e := run(kill, append(a, "suite")...)
			if e != nil {
				return e
			}
			v, e := bench.OpenSuite(suite)
			if e != nil {
				return pbt.Failf("suite after an interrupted run: %s", e)
			}
			var r *bench.Run
			for _, x := range v.Runs {
				if x.Name == name {
					if r != nil {
						return pbt.Failf("two runs %q", name)
					}
					r = x
				}
			}
			if r == nil {
				// a start writes the description of the run anew
				if kill == 0 || bDone.MatchString(se) {
					return pbt.Failf("run %q is lost\n%s", name, se)
				}
				continue
			}
			if kill > 0 && len(r.InstRuns) < v.Len() {
				m.Hit("interrupted")
			}
			seen := map[int]bool{}
			for _, ir := range r.InstRuns {
				if seen[ir.Inst] {
					return pbt.Failf("instance %d twice", ir.Inst)
				}
				seen[ir.Inst] = true
				if want := map[int]int{10: 1, 20: -1}[files[ir.Inst].Exit]; ir.Result != want {
					return pbt.Failf("instance %d has result %d, not %d", ir.Inst, ir.Result, want)
				}
				if x := known[ir.Inst]; x != nil && (x.Result != ir.Result || x.Dur != ir.Dur || !x.Start.Equal(ir.Start)) {
					return pbt.Failf("the record of instance %d was changed", ir.Inst)
				}
				known[ir.Inst] = ir
			}
			for i := range known {
				if !seen[i] {
					return pbt.Failf("the record of instance %d was lost", i)
				}
			}
			for _, x := range bDone.FindAllStringSubmatch(se, -1) {
				i, _ := strconv.Atoi(x[1])
				if !seen[i] {
					return pbt.Failf("instance %d was reported done but is not recorded", i)
				}
			}
			if kill == 0 && n == 0 && len(seen) != v.Len() {
				return pbt.Failf("%d of %d instances were run\n%s", len(seen), v.Len(), se)
			}
			com := c.Com
			if com == "" {
				com = "00000000"
			}
			if kill == 0 && (r.Desc != c.Desc || r.Commit != com || r.Cmd != "/bin/sh" || r.InstTimeout != 20*time.Second || r.Timeout != time.Hour) {
				return pbt.Failf("description %q, commit %q, command %q, timeouts %s %s", r.Desc, r.Commit, r.Cmd, r.InstTimeout, r.Timeout)
			}
			m.Add("instances run", len(seen))
		}
		if len(known) > 1 {
			m.NonTrivial()
		}
	}
	if v, e = bench.OpenSuite(suite); e != nil {
		return pbt.Failf("suite after its runs: %s", e)
	}
	for _, a := range [][]string{{}, {"-list"}, {"-sum=false", "-list", "-runs", "r2"}, {"-cactus"}, {"-scatter"}, {"-sat", "-scatter", "-cactus"}, {"-unsat", "-cactus", "-scatter", "-sum=false"}, {"-runs", "r2,zz*", "-cactus", "-list"}, {"-runs", "z,r[12]", "-scatter", "-list"}, {"-runs", "r2,zz*,r1", "-list", "-cactus"}, {"-runs", "x,,r1,?2", "-list"}, {"-sum=false", "-scatter", "-runs", "r1"}, {"-sat", "-unsat", "-list"}} {
		o, _, e := run(0, append(append([]string{"cmp"}, a...), "suite")...)
		if e != nil {
			return e
		}
		if e := cmpOutput(v, a, o); e != nil {
			return pbt.Failf("bench cmp %q: %s\n%s", a, e, o)
		}
	}
	if c.Del {
		if _, _, e := run(0, "run", "-d", "r1", "suite"); e != nil {
			return e
		}
		w, e := bench.OpenSuite(suite)
		if e != nil {
			return pbt.Failf("suite after deleting a run: %s", e)
		}
		if w.Len() != v.Len() || len(w.Runs) > len(names)-1 || slices.ContainsFunc(w.Runs, func(r *bench.Run) bool { return r.Name == "r1" }) {
			return pbt.Failf("%d runs after deleting one", len(w.Runs))
		}
		m.Hit("deleted")
	}
	return nil
}

var bCactus = regexp.MustCompile(`(?m)^\d+\.\d\ds\|`)

// cmpOutput checks the output o of bench cmp with arguments a.
func cmpOutput(v *bench.Suite, a []string, o string) error {
	has := func(s string) bool { return slices.Contains(a, s) }
	if has("-sat") && has("-unsat") {
		if o != "" {
			return pbt.Failf("output")
		}
		return nil
	}
	globs := []string{"*"}
	if i := slices.Index(a, "-runs"); i >= 0 {
		globs = strings.Split(a[i+1], ",")
	}
	rf := func(r *bench.Run) bool {
		return slices.ContainsFunc(globs, func(g string) bool { ok, _ := filepath.Match(g, r.Name); return ok })
	}
	with := func(k int) func(*bench.Suite, int) bool {
		return func(_ *bench.Suite, i int) bool {
			return slices.ContainsFunc(v.Runs, func(r *bench.Run) bool { x := irOf(r, i); return x != nil && x.Result == k })
		}
	}
	var f func(*bench.Suite, int) bool
	if has("-sat") {
		f = with(1)
	} else if has("-unsat") {
		f = with(-1)
	}
	if strings.Contains(o, strings.TrimSpace(bench.Summary(v))) == has("-sum=false") {
		return pbt.Failf("summary")
	}
	if strings.Contains(o, strings.TrimSpace(bench.Listing(v, rf))) != has("-list") {
		return pbt.Failf("listing")
	}
	var pairs []string
	for i, r := range v.Runs {
		for _, q := range v.Runs[:i] {
			if !rf(r) || !rf(q) || !has("-scatter") {
				continue
			}
			x, y := r, q
			_, p, ok := strings.Cut(o, ": "+x.Name+" v "+y.Name+"\n")
			if !ok {
				x, y = q, r
				if _, p, ok = strings.Cut(o, ": "+x.Name+" v "+y.Name+"\n"); !ok {
					return pbt.Failf("no plot of %s and %s", r.Name, q.Name)
				}
			}
			pairs = append(pairs, x.Name)
			if k := strings.Index(p, ": "); k >= 0 {
				p = p[:k]
			}
			if e := scatterPlot(bench.NewScatter(x, y, f), 40, p); e != nil {
				return e
			}
		}
	}
	if n := strings.Count(o, " wins\n"); n != 2*len(pairs) {
		return pbt.Failf("%d legends, %d plots", n, len(pairs))
	}
	k := bCactus.FindStringIndex(o)
	if ca := bench.NewCactus(v, rf, f); len(ca.Runs) > 0 && has("-cactus") {
		if k == nil {
			return pbt.Failf("no cactus plot")
		}
		return cactusPlot(ca, 40, strings.TrimRight(o[k[0]:], "\n")+"\n")
	}
	if k != nil {
		return pbt.Failf("cactus plot")
	}
	return nil
}

func init() {
	s := pbt.Def("C23", "suites", 3000, 30000,
		"histories of creating and linking suites of files of odd names, also with absolute and relative paths, missing files, over other suites; runs of scripts with all kinds of exits, outputs and timeouts, commands which are not there, odd environments; instances in any order, also twice; opening, removing, selecting and comparing runs; bad run names; selecting files from overlapping directories; non-trivial: a run of at least two instances was reopened, or runs were compared",
		genBench, runBench)
	s.Timeout = 120 * time.Second
	pbt.Def("C23", "compare", 8000, 200000,
		"comparisons of runs of any results and times, complete or not: totals, rates, tables and plots (these within a cell); non-trivial: several runs",
		genBComp, runBComp)
	s = pbt.Def("C23", "command", 300, 4000,
		"the bench command: sel, run, killed at any time and started again, cmp with all its options, deletion; non-trivial: a run with at least two recorded instances",
		genBCmd, runBCmd)
	s.Timeout = 120 * time.Second
}
