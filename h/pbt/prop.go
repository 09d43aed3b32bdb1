package pbt

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

// Meter classifies one case.
type Meter struct {
	Classes    map[string]int
	nontrivial bool
	Notes      []string
}

// Hit counts class s.
func (m *Meter) Hit(s string) { m.Classes[s]++ }

// Add counts class s n times.
func (m *Meter) Add(s string, n int) {
	if n != 0 {
		m.Classes[s] += n
	}
}

// NonTrivial says that the current case satisfies the sub's rule.
func (m *Meter) NonTrivial() { m.nontrivial = true }

// ErrInconclusive marks a case which could not be decided.
var ErrInconclusive = errors.New("inconclusive")

// Sub is one generated check of a property.
type Sub struct {
	Prop, Name      string
	Rule            string
	Quick, Thorough int
	Timeout         time.Duration // per case; a reproducible overrun is a violation
	MemMB           int           // per worker
	Procs           int           // GOMAXPROCS while running

	Gen    func(*T) any
	Decode func([]byte) (any, error)
	check  func(any, *Meter) error
}

var subs []*Sub

// Def registers a check of a property.
func Def[C any](prop, name string, quick, thorough int, rule string, gen func(*T) *C, check func(*C, *Meter) error) *Sub {
	s := &Sub{Prop: prop, Name: name, Quick: quick, Thorough: thorough, Rule: rule,
		Timeout: 60 * time.Second, MemMB: 3000, Procs: 2,
		Gen: func(t *T) any { return gen(t) },
		Decode: func(b []byte) (any, error) {
			c := new(C)
			e := json.Unmarshal(b, c)
			return c, e
		},
		check: func(c any, m *Meter) error { return check(c.(*C), m) },
	}
	subs = append(subs, s)
	return s
}

// Subs lists the checks of prop, in a fixed order.
func Subs(prop string) []*Sub {
	var r []*Sub
	for _, s := range subs {
		if s.Prop == prop {
			r = append(r, s)
		}
	}
	sort.SliceStable(r, func(i, j int) bool { return r[i].Name < r[j].Name })
	return r
}

// Find finds one sub.
func Find(prop, name string) *Sub {
	for _, s := range Subs(prop) {
		if s.Name == name {
			return s
		}
	}
	return nil
}

// CaseSeed is the seed of case i.
func (s *Sub) CaseSeed(seed int64, i int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d/%d", s.Prop, s.Name, seed, i)
	return Mix(h.Sum64())
}

// PanicError is a panic of the code under test.
type PanicError struct {
	Val   any
	Stack string
}

func (p *PanicError) Error() string { return fmt.Sprintf("panic: %v\n%s", p.Val, p.Stack) }

// Run runs the check on c; a panic is a failure.
func (s *Sub) Run(c any, m *Meter) (err error) {
	defer func() {
		if x := recover(); x != nil {
			st := string(debug.Stack())
			if len(st) > 4000 {
				st = st[:4000]
			}
			err = &PanicError{x, trimStack(st)}
		}
	}()
	return s.check(c, m)
}

func trimStack(s string) string {
	ls := strings.Split(s, "\n")
	var out []string
	on := false
	for _, l := range ls {
		if strings.HasPrefix(l, "panic(") {
			on = true
			out = out[:0]
			continue
		}
		if strings.Contains(l, "runtime/panic.go") {
			continue
		}
		out = append(out, l)
	}
	_ = on
	return strings.Join(out, "\n")
}

// NewMeter makes a Meter.
func NewMeter() *Meter { return &Meter{Classes: map[string]int{}} }

// IsNonTrivial tells whether NonTrivial was called.
func (m *Meter) IsNonTrivial() bool { return m.nontrivial }

// Failf is fmt.Errorf.
func Failf(f string, a ...any) error { return fmt.Errorf(f, a...) }
