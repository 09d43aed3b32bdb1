// Command vh runs the generated checks of one property.
package main

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	_ "ginicheck/checks"
	"ginicheck/pbt"
)

const (
	exHang = 97
	exMem  = 98
	shards = 8
)

// Failure is a replay file.
type Failure struct {
	Property string          `json:"property"`
	Sub      string          `json:"sub"`
	Seed     uint64          `json:"case_seed,omitempty"`
	Choices  []uint64        `json:"choices,omitempty"`
	Case     json.RawMessage `json:"case"`
	Error    string          `json:"error"`
	Kind     string          `json:"kind"` // fail, crash, hang, memory
	Shrinks  int             `json:"shrink_runs,omitempty"`
}

// Sample is one generated case.
type Sample struct {
	Sub  string          `json:"sub"`
	Case json.RawMessage `json:"case"`
}

// SubResult is what a worker measured for one sub.
type SubResult struct {
	Evals, NonTrivial, Inconclusive int
	Classes                         map[string]int
	Hashes                          []uint64
	Samples                         []Sample
	Truncated                       bool
}

// WorkerResult is what a worker reports.
type WorkerResult struct {
	Subs map[string]*SubResult
	Fail *Failure
}

var (
	cur     []byte // mmapped current-case record: sub index, seed
	started int64
	limit   int64
	memMB   int64
)

func mmapCur(path string) {
	f, e := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)
	die(e)
	die(f.Truncate(16))
	b, e := syscall.Mmap(int(f.Fd()), 0, 16, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	die(e)
	cur = b
}

func die(e error) {
	if e != nil {
		fmt.Fprintln(os.Stderr, "harness error:", e)
		os.Exit(3)
	}
}

func rssMB() int64 {
	b, e := os.ReadFile("/proc/self/statm")
	if e != nil {
		return 0
	}
	f := strings.Fields(string(b))
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096 / (1 << 20)
}

func watchdog() {
	go func() {
		for {
			time.Sleep(200 * time.Millisecond)
			st := atomic.LoadInt64(&started)
			if st == 0 {
				continue
			}
			if l := atomic.LoadInt64(&limit); l != 0 && time.Now().UnixNano()-st > l {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				fmt.Fprintf(os.Stderr, "HANG\n%s\n", buf[:n])
				os.Exit(exHang)
			}
			if m := atomic.LoadInt64(&memMB); m != 0 && rssMB() > m {
				fmt.Fprintf(os.Stderr, "MEMORY over %d MB\n", m)
				os.Exit(exMem)
			}
		}
	}()
}

func runOne(s *pbt.Sub, c any, m *pbt.Meter) error {
	atomic.StoreInt64(&limit, int64(s.Timeout))
	atomic.StoreInt64(&memMB, int64(s.MemMB))
	atomic.StoreInt64(&started, time.Now().UnixNano())
	e := s.Run(c, m)
	atomic.StoreInt64(&started, 0)
	return e
}

func caseJSON(c any) json.RawMessage {
	b, e := json.Marshal(c)
	if e != nil {
		b, _ = json.Marshal(fmt.Sprintf("%+v (%v)", c, e))
	}
	return b
}

func worker(prop, tier string, seed int64, shard int, result, curPath string, budget time.Duration, scale float64, only string) {
	mmapCur(curPath)
	watchdog()
	start := time.Now()
	res := &WorkerResult{Subs: map[string]*SubResult{}}
	write := func() {
		b, e := json.Marshal(res)
		die(e)
		die(os.WriteFile(result+".tmp", b, 0644))
		die(os.Rename(result+".tmp", result))
	}
	all := pbt.Subs(prop)
	type pos struct{ i, n int }
	st := make([]pos, len(all))
	for k, s := range all {
		n := s.Quick
		if tier == "thorough" {
			n = s.Thorough
		}
		if only != "" && s.Name != only {
			n = 0
		}
		n = int(float64(n) * scale)
		st[k] = pos{shard, n}
		res.Subs[s.Name] = &SubResult{Classes: map[string]int{}}
	}
	// round-robin over subs so that a budget cut hits all alike
	for live := true; live; {
		live = false
		for k, s := range all {
			p := &st[k]
			chunk := p.n / 50
			if chunk < 1 {
				chunk = 1
			}
			end := p.i + chunk*shards
			runtime.GOMAXPROCS(s.Procs)
			r := res.Subs[s.Name]
			for ; p.i < p.n && p.i < end; p.i += shards {
				if time.Since(start) > budget {
					r.Truncated = true
					p.i = p.n
					break
				}
				cs := s.CaseSeed(seed, p.i)
				binary.LittleEndian.PutUint64(cur, uint64(k))
				binary.LittleEndian.PutUint64(cur[8:], cs)
				t := pbt.NewT(cs)
				c := s.Gen(t)
				m := &pbt.Meter{Classes: r.Classes}
				e := runOne(s, c, m)
				if errors.Is(e, pbt.ErrInconclusive) {
					r.Inconclusive++
					continue
				}
				r.Evals++
				if m.IsNonTrivial() {
					r.NonTrivial++
					r.Hashes = append(r.Hashes, t.Hash())
					if len(r.Samples) < 1 {
						b := caseJSON(c)
						if len(b) < 3000 {
							r.Samples = append(r.Samples, Sample{s.Name, b})
						}
					}
				}
				if e != nil {
					res.Fail = &Failure{Property: prop, Sub: s.Name, Seed: cs, Choices: t.Rec, Case: caseJSON(c), Error: e.Error(), Kind: "fail"}
					write()
					shrinkFail(s, res.Fail, t)
					write()
					os.Exit(0)
				}
			}
			if p.i < p.n {
				live = true
			}
		}
	}
	write()
}

func shrinkFail(s *pbt.Sub, f *Failure, t *pbt.T) {
	deadline := time.Now().Add(25 * time.Second)
	runs := 0
	f0 := *f
	best := pbt.Shrink(t.Rec, t.Groups, func(ch []uint64) (bool, []uint64, [][2]int) {
		runs++
		rt := pbt.ReplayT(ch)
		var c any
		ok := func() (ok bool) {
			defer func() {
				if recover() != nil {
					ok = false
				}
			}()
			c = s.Gen(rt)
			return true
		}()
		if !ok {
			return false, nil, nil
		}
		e := runOne(s, c, pbt.NewMeter())
		if e == nil || errors.Is(e, pbt.ErrInconclusive) {
			return false, nil, nil
		}
		return true, rt.Rec, rt.Groups
	}, func() bool { return time.Now().After(deadline) || runs > 20000 })
	rt := pbt.ReplayT(best)
	c := s.Gen(rt)
	e := runOne(s, c, pbt.NewMeter())
	if e == nil || errors.Is(e, pbt.ErrInconclusive) {
		*f = f0 // not reproducible: keep the original
		f.Error += "\n(shrunk case did not fail again; this is the original case)"
		return
	}
	f.Choices = best
	f.Case = caseJSON(c)
	f.Error = e.Error()
	f.Shrinks = runs
	if s2 := f0.Seed; s2 != 0 {
		f.Seed = s2
	}
}

// replay runs one stored case: exit 0 held, 1 failed (error on stdout), 4 inconclusive.
func replay(path string) {
	b, e := os.ReadFile(path)
	die(e)
	var f Failure
	die(json.Unmarshal(b, &f))
	s := pbt.Find(f.Property, f.Sub)
	if s == nil {
		die(fmt.Errorf("no such check %s/%s", f.Property, f.Sub))
	}
	var c any
	if len(f.Case) != 0 {
		c, e = s.Decode(f.Case)
		die(e)
	} else if len(f.Choices) != 0 {
		c = s.Gen(pbt.ReplayT(f.Choices))
	} else {
		c = s.Gen(pbt.NewT(f.Seed))
	}
	watchdog()
	runtime.GOMAXPROCS(s.Procs)
	m := pbt.NewMeter()
	e = runOne(s, c, m)
	if e == nil {
		fmt.Println("held", m.Classes)
		os.Exit(0)
	}
	if errors.Is(e, pbt.ErrInconclusive) {
		fmt.Println(e)
		os.Exit(4)
	}
	fmt.Printf("FAILED: %v\n", e)
	os.Exit(1)
}

// runChoices runs one choice sequence and writes what it used.
func runChoices(in, out string) {
	b, e := os.ReadFile(in)
	die(e)
	var f Failure
	die(json.Unmarshal(b, &f))
	s := pbt.Find(f.Property, f.Sub)
	var t *pbt.T
	if f.Choices != nil {
		t = pbt.ReplayT(f.Choices)
	} else {
		t = pbt.NewT(f.Seed)
	}
	c := s.Gen(t)
	f.Choices = t.Rec
	f.Case = caseJSON(c)
	o, _ := json.Marshal(struct {
		F Failure
		G [][2]int
	}{f, t.Groups})
	die(os.WriteFile(out, o, 0644))
	watchdog()
	runtime.GOMAXPROCS(s.Procs)
	e = runOne(s, c, pbt.NewMeter())
	if e != nil && !errors.Is(e, pbt.ErrInconclusive) {
		fmt.Printf("FAILED: %v\n", e)
		os.Exit(1)
	}
	os.Exit(0)
}

var giniFrame = regexp.MustCompile(`github\.com/go-air/gini|internal error in|sat model`)

func exitKind(err error) (code int, signaled bool) {
	if err == nil {
		return 0, false
	}
	var x *exec.ExitError
	if errors.As(err, &x) {
		ws := x.Sys().(syscall.WaitStatus)
		if ws.Signaled() {
			return 128 + int(ws.Signal()), true
		}
		return x.ExitCode(), false
	}
	return -1, false
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "...(clipped)"
	}
	return s
}

// crashCase investigates a worker that died: returns a Failure or nil (inconclusive).
func crashCase(self, dir string, prop string, curPath string, code int, stderr string) (*Failure, string) {
	b, e := os.ReadFile(curPath)
	if e != nil || len(b) < 16 {
		return nil, "no current case"
	}
	k := int(binary.LittleEndian.Uint64(b))
	cs := binary.LittleEndian.Uint64(b[8:])
	all := pbt.Subs(prop)
	if k >= len(all) {
		return nil, "bad current case"
	}
	s := all[k]
	f := Failure{Property: prop, Sub: s.Name, Seed: cs}
	run := func(ch []uint64) (int, string, *Failure, [][2]int) {
		g := f
		g.Choices = ch
		in, out := filepath.Join(dir, "c.in"), filepath.Join(dir, "c.out")
		os.Remove(out)
		jb, _ := json.Marshal(g)
		die(os.WriteFile(in, jb, 0644))
		var eb, ob strings.Builder
		cmd := exec.Command(self, "-choices", in, "-result", out)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
		cmd.Stderr, cmd.Stdout = &eb, &ob
		rc, _ := exitKind(cmd.Run())
		var o struct {
			F Failure
			G [][2]int
		}
		if jb, e := os.ReadFile(out); e == nil {
			json.Unmarshal(jb, &o)
		}
		return rc, eb.String() + ob.String(), &o.F, o.G
	}
	bad := func(rc int) bool { return rc != 0 && rc != 137 && rc != 3 }
	kind := "crash"
	switch code {
	case exHang:
		kind = "hang"
	case exMem:
		kind = "memory"
	}
	rc, msg, got, groups := run(nil)
	if !bad(rc) {
		if kind == "crash" && giniFrame.MatchString(stderr) && code != 137 {
			got.Error = "the process running this case died (not on a second run):\n" + clip(stderr, 4000)
			got.Kind = kind
			return got, ""
		}
		return nil, fmt.Sprintf("worker died (%d) on %s/%s seed %d, not reproduced: %s", code, prop, s.Name, cs, clip(stderr, 1500))
	}
	if kind == "hang" || kind == "memory" {
		// a second confirmation, no shrinking: each attempt costs the full limit
		rc2, _, _, _ := run(nil)
		if !bad(rc2) {
			return nil, fmt.Sprintf("%s/%s seed %d: %s once only", prop, s.Name, cs, kind)
		}
		got.Error = fmt.Sprintf("%s (limit %v, %d MB), reproduced\n%s", kind, s.Timeout, s.MemMB, clip(msg, 4000))
		got.Kind = kind
		return got, ""
	}
	got.Error = "the process running this case died:\n" + clip(msg, 4000)
	got.Kind = kind
	dl := time.Now().Add(20 * time.Second)
	best := pbt.Shrink(got.Choices, groups, func(ch []uint64) (bool, []uint64, [][2]int) {
		rc, msg, o, g := run(ch)
		if !bad(rc) {
			return false, nil, nil
		}
		if len(o.Choices) <= len(got.Choices) {
			c := *o
			c.Error = "the process running this case died:\n" + clip(msg, 4000)
			c.Kind = kind
			_ = c
		}
		return true, o.Choices, g
	}, func() bool { return time.Now().After(dl) })
	rc, msg, o, _ := run(best)
	if bad(rc) {
		o.Error = "the process running this case died:\n" + clip(msg, 4000)
		o.Kind = kind
		return o, ""
	}
	return got, ""
}

// known findings: lines "finding: property=ID replay=PATH text"
type finding struct{ prop, replay, text string }

func readFindings(path string) []finding {
	b, e := os.ReadFile(path)
	if e != nil {
		return nil
	}
	var r []finding
	re := regexp.MustCompile(`^finding: property=(\S+) replay=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(l); m != nil {
			r = append(r, finding{m[1], m[2], m[3]})
		}
	}
	return r
}

func main() {
	log.SetFlags(0)
	var (
		prop    = flag.String("prop", "", "property")
		tier    = flag.String("tier", "quick", "tier")
		seed    = flag.Int64("seed", 1, "seed")
		root    = flag.String("root", "/verif", "verif root")
		shard   = flag.Int("shard", -1, "worker shard")
		result  = flag.String("result", "", "worker result")
		curPath = flag.String("cur", "", "worker current case")
		rep     = flag.String("replay", "", "replay file")
		choices = flag.String("choices", "", "choices file")
		budget  = flag.Duration("budget", 0, "time budget")
		scale   = flag.Float64("scale", 1, "scale case counts")
		only    = flag.String("only", "", "only this sub")
		list    = flag.Bool("list", false, "list subs")
		noev    = flag.Bool("noev", false, "do not write evidence")
	)
	flag.Parse()
	debug.SetGCPercent(200)
	if *rep != "" {
		replay(*rep)
	}
	if *choices != "" {
		runChoices(*choices, *result)
	}
	if *list {
		for _, s := range pbt.Subs(*prop) {
			fmt.Println(s.Prop, s.Name, s.Quick, s.Thorough)
		}
		return
	}
	if *budget == 0 {
		*budget = 240 * time.Second
		if *tier == "thorough" {
			*budget = 600 * time.Second
		}
	}
	if *shard >= 0 {
		worker(*prop, *tier, *seed, *shard, *result, *curPath, *budget, *scale, *only)
		return
	}
	parent(*prop, *tier, *seed, *root, *budget, *scale, *only, *noev)
}

func parent(prop, tier string, seed int64, root string, budget time.Duration, scale float64, only string, noev bool) {
	start := time.Now()
	self, e := os.Executable()
	die(e)
	dir, e := os.MkdirTemp("", "vh")
	die(e)
	defer os.RemoveAll(dir)
	if len(pbt.Subs(prop)) == 0 {
		die(fmt.Errorf("no checks for %s", prop))
	}
	var fails []*Failure
	var violPaths []string
	var notes []string
	// 1. stored regressions and known findings
	findings := map[string]finding{}
	for _, f := range readFindings(filepath.Join(root, "known-findings.txt")) {
		if f.prop == prop {
			findings[filepath.Clean(f.replay)] = f
		}
	}
	files, _ := filepath.Glob(filepath.Join(root, "regress", prop, "*.json"))
	sort.Strings(files)
	nreg := 0
	type regOut struct {
		rc  int
		out string
	}
	outs := make([]regOut, len(files))
	var rwg sync.WaitGroup
	sem := make(chan bool, shards)
	for i, fn := range files {
		rwg.Add(1)
		go func(i int, fn string) {
			defer rwg.Done()
			sem <- true
			defer func() { <-sem }()
			for try := 0; ; try++ {
				b, err := exec.Command(self, "-replay", fn).CombinedOutput()
				rc, _ := exitKind(err)
				outs[i] = regOut{rc, string(b)}
				if (rc == exHang || rc == exMem) && try == 0 {
					continue
				}
				return
			}
		}(i, fn)
	}
	rwg.Wait()
	for i, fn := range files {
		rel, _ := filepath.Rel(root, fn)
		nreg++
		o := outs[i]
		failed := o.rc != 0 && o.rc != 4 && o.rc != 137 && o.rc != 3
		if o.rc == 137 || o.rc == 3 || o.rc == 4 {
			notes = append(notes, fmt.Sprintf("replay of %s gave no answer (%d)", rel, o.rc))
		}
		if f, ok := findings[rel]; ok {
			if failed {
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, f.text, rel)
			} else {
				notes = append(notes, "listed finding no longer fails: "+rel)
			}
			continue
		}
		if failed {
			fmt.Printf("regression case %s fails:\n%s\n", rel, clip(o.out, 3000))
			violPaths = append(violPaths, fn)
		}
	}
	// 2. generated cases
	total := map[string]*SubResult{}
	hashes := map[string]map[uint64]bool{}
	for _, s := range pbt.Subs(prop) {
		total[s.Name] = &SubResult{Classes: map[string]int{}}
		hashes[s.Name] = map[uint64]bool{}
	}
	if len(violPaths) == 0 {
		var mu sync.Mutex
		var wg sync.WaitGroup
		cmds := make([]*exec.Cmd, shards)
		var stopped bool
		for k := 0; k < shards; k++ {
			wg.Add(1)
			go func(k int) {
				defer wg.Done()
				rp := filepath.Join(dir, fmt.Sprintf("res%d", k))
				cp := filepath.Join(dir, fmt.Sprintf("cur%d", k))
				ep := filepath.Join(dir, fmt.Sprintf("err%d", k))
				ef, e := os.Create(ep)
				die(e)
				// two of the shards may run a race-detecting build, on fewer cases
				bin, sc := self, scale
				if r := os.Getenv("VH_RACE"); r != "" && k%4 == 3 {
					bin, sc = r, scale*0.08
				}
				cmd := exec.Command(bin, "-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-root", root,
					"-shard", fmt.Sprint(k), "-result", rp, "-cur", cp, "-budget", budget.String(), "-scale", fmt.Sprint(sc), "-only", only)
				cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
				cmd.Stderr, cmd.Stdout = ef, ef
				cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
				runtime.LockOSThread()
				die(cmd.Start())
				mu.Lock()
				cmds[k] = cmd
				st := stopped
				mu.Unlock()
				if st {
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				}
				err := cmd.Wait()
				syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
				ef.Close()
				code, _ := exitKind(err)
				mu.Lock()
				defer mu.Unlock()
				if stopped {
					return
				}
				halt := func() {
					stopped = true
					for i, c := range cmds {
						if i != k && c != nil && c.Process != nil {
							syscall.Kill(-c.Process.Pid, syscall.SIGKILL)
						}
					}
				}
				var wr WorkerResult
				if b, e := os.ReadFile(rp); e == nil && json.Unmarshal(b, &wr) == nil {
					for n, r := range wr.Subs {
						t := total[n]
						t.Evals += r.Evals
						t.NonTrivial += r.NonTrivial
						t.Inconclusive += r.Inconclusive
						t.Truncated = t.Truncated || r.Truncated
						for c, v := range r.Classes {
							t.Classes[c] += v
						}
						for _, h := range r.Hashes {
							hashes[n][h] = true
						}
						if len(t.Samples) < 2 {
							t.Samples = append(t.Samples, r.Samples...)
						}
					}
					if wr.Fail != nil {
						fails = append(fails, wr.Fail)
						halt()
						return
					}
				}
				if code != 0 {
					eb, _ := os.ReadFile(ep)
					se := string(eb)
					if code == 3 {
						notes = append(notes, "ERROR worker: "+clip(se, 2000))
						return
					}
					if code == 137 {
						notes = append(notes, "ERROR worker killed")
						return
					}
					f, note := crashCase(bin, dir, prop, cp, code, se)
					if f != nil {
						fails = append(fails, f)
						halt()
						return
					}
					notes = append(notes, note)
				}
			}(k)
		}
		wg.Wait()
	}
	// 3. violations
	for _, f := range fails {
		rd := filepath.Join(root, "replays")
		os.MkdirAll(rd, 0755)
		b, _ := json.MarshalIndent(f, "", " ")
		h := uint64(0)
		for _, c := range f.Case {
			h = pbt.Mix(h ^ uint64(c))
		}
		fn := filepath.Join(rd, fmt.Sprintf("%s-%s-%08x.json", prop, f.Sub, uint32(h)))
		die(os.WriteFile(fn, b, 0644))
		fmt.Printf("%s/%s: %s\ncase: %s\n", prop, f.Sub, clip(f.Error, 3000), clip(string(f.Case), 2000))
		violPaths = append(violPaths, fn)
	}
	// 4. evidence
	evals, distinct := 0, 0
	var rules []string
	samples := []Sample{}
	per := map[string]any{}
	hardErr := false
	for _, s := range pbt.Subs(prop) {
		t := total[s.Name]
		evals += t.Evals
		distinct += len(hashes[s.Name])
		rules = append(rules, s.Name+": "+s.Rule)
		if len(t.Samples) > 2 {
			t.Samples = t.Samples[:2]
		}
		samples = append(samples, t.Samples...)
		per[s.Name] = map[string]any{"evaluations": t.Evals, "nontrivial": t.NonTrivial, "distinct_nontrivial": len(hashes[s.Name]),
			"inconclusive": t.Inconclusive, "classes": t.Classes, "cut_by_time_budget": t.Truncated}
	}
	for _, n := range notes {
		if strings.HasPrefix(n, "ERROR") {
			hardErr = true
		}
		fmt.Println("note:", n)
	}
	if len(samples) == 0 {
		samples = append(samples, Sample{"none", json.RawMessage(`null`)})
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": distinct, "rule": strings.Join(rules, " | "),
			"samples": samples, "checks": per, "regression_replays": nreg, "notes": append([]string{}, notes...),
		},
		"wall_s": time.Since(start).Seconds(), "violations": len(violPaths),
	}
	if !noev {
		os.MkdirAll(filepath.Join(root, "evidence"), 0755)
		b, e := json.MarshalIndent(ev, "", " ")
		die(e)
		die(os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0644))
	}
	fmt.Printf("%s: %d cases, %d distinct non-trivial, %d replays, %.1fs\n", prop, evals, distinct, nreg, time.Since(start).Seconds())
	if os.Getenv("VH_VERBOSE") != "" {
		b, _ := json.MarshalIndent(per, "", " ")
		fmt.Println(string(b))
	}
	os.RemoveAll(dir)
	if len(violPaths) > 0 {
		for _, v := range violPaths {
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, v)
		}
		os.Exit(1)
	}
	if hardErr {
		os.Exit(3)
	}
}
