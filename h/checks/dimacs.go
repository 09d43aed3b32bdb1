package checks

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/dimacs"
	"github.com/go-air/gini/z"

	"ginicheck/pbt"
	"ginicheck/ref"
)

// TextCase is a text and the way it is read.
type TextCase struct {
	Kind   string `json:"kind"`
	Text   Blob   `json:"text"`
	Ch     Chunks `json:"chunks"`
	Strict bool   `json:"strict,omitempty"`
}

// dvEvent is one visitor call: k i(nit) a(dd) u (assume) s(olution) v(alue) e(of)
type dvEvent struct {
	k    byte
	a, b int
}

type dvRec struct{ ev []dvEvent }

func (d *dvRec) put(e dvEvent) { d.ev = append(d.ev, e) }

func (d *dvRec) Init(v, c int)  { d.put(dvEvent{'i', v, c}) }
func (d *dvRec) Add(m z.Lit)    { d.put(dvEvent{'a', int(m.Dimacs()), 0}) }
func (d *dvRec) Assume(m z.Lit) { d.put(dvEvent{'u', int(m.Dimacs()), 0}) }
func (d *dvRec) Solution(r int) { d.put(dvEvent{'s', r, 0}) }
func (d *dvRec) Value(m z.Lit)  { d.put(dvEvent{'v', int(m.Dimacs()), 0}) }
func (d *dvRec) Eof()           { d.put(dvEvent{'e', 0, 0}) }

const (
	xOK = iota
	xErr
	xAny
)

type dExp struct {
	class    int
	hdr      bool
	hv, hc   int
	ev       []dvEvent // body
	strictOK int       // xOK accept, xErr refuse, xAny
	comments int
	why      string
}

// cnfExpect is the independent reading of a CNF text.
func cnfExpect(text string) (x dExp) {
	r, nc := stripComments(text)
	x.comments = nc
	i := 0
	for i < len(r) && isWS(r[i]) {
		i++
	}
	odd := i > 0 && r[i-1] != '\n' // spaces before the first token
	body := r[i:]
	if strings.HasPrefix(body, "p") {
		x.hdr = true
		line := body
		if j := strings.IndexByte(body, '\n'); j >= 0 {
			line, body = body[:j], body[j+1:]
		} else {
			body = ""
		}
		f := wsFields(line)
		loose := odd || !strings.HasPrefix(line, "p cnf ") || len(f) != 4
		if f[0] != "p" || len(f) > 1 && f[1] != "cnf" {
			if f[0] != "p" {
				x.class, x.why = xErr, "first word"
				if f[0] == "pcnf" || strings.HasPrefix(f[0], "p\v") {
					x.class = xAny
				}
			} else {
				x.class, x.why = xErr, "not cnf"
			}
			x.ev = nil
			return
		}
		if loose {
			x.class, x.why = xAny, "loose header"
			for _, w := range wsFields(r) {
				v, k := intTok(w)
				if k != tokBad {
					x.ev = append(x.ev, dvEvent{'a', v, 0})
				}
			}
			return
		}
		for k, w := range f[2:] {
			v, c := intTok(w)
			switch {
			case c == tokBad || v < 0:
				x.class, x.why = xErr, "header number"
				return
			case c == tokOdd:
				x.class = xAny
			}
			if k == 0 {
				x.hv = v
			} else {
				x.hc = v
			}
		}
	}
	vm, n := 0, 0
	open := false
	for _, w := range wsFields(body) {
		v, c := intTok(w)
		if c == tokBad {
			if x.class == xOK {
				x.class, x.why = xErr, "bad token"
			}
			if w[0] == 'c' {
				x.class = xAny
			}
			break
		}
		if c == tokOdd {
			x.class = xAny
		}
		x.ev = append(x.ev, dvEvent{'a', v, 0})
		if abs(v) > vm {
			vm = abs(v)
		}
		open = v != 0
		if v == 0 {
			n++
		}
	}
	if open && x.class == xOK {
		x.class, x.why = xAny, "last clause not ended"
	}
	x.strictOK = xErr
	if x.hdr && vm == x.hv && n == x.hc {
		x.strictOK = xOK
	}
	if open {
		x.strictOK = xAny
	}
	return
}

func evStr(ev []dvEvent) string {
	var b strings.Builder
	for i, e := range ev {
		if i > 60 {
			b.WriteString("...")
			break
		}
		switch e.k {
		case 'i':
			fmt.Fprintf(&b, "Init(%d,%d) ", e.a, e.b)
		case 'e':
			b.WriteString("Eof ")
		case 'a':
			fmt.Fprintf(&b, "%d ", e.a)
		default:
			fmt.Fprintf(&b, "%c:%d ", e.k, e.a)
		}
	}
	return b.String()
}

func evPrefix(a, b []dvEvent) bool {
	if len(a) > len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func evRun(a, b []dvEvent) bool {
	for i := 0; i+len(a) <= len(b); i++ {
		if evPrefix(a, b[i:]) {
			return true
		}
	}
	return false
}

func runCnf(c *TextCase, m *pbt.Meter) error {
	text := string(c.Text)
	x := cnfExpect(text)
	m.Hit("kind " + c.Kind)
	m.Hit([]string{"well-formed", "malformed", "open"}[x.class])
	v := &dvRec{}
	rd := newChunkReader(text, c.Ch)
	e := dimacs.ReadCnfStrict(rd, v, c.Strict)
	if !c.Strict && c.Ch.ErrAt == 0 && len(text)%3 == 0 {
		v2 := &dvRec{}
		e2 := dimacs.ReadCnf(newChunkReader(text, c.Ch), v2)
		if (e == nil) != (e2 == nil) || evStr(v.ev) != evStr(v2.ev) {
			return pbt.Failf("ReadCnf and ReadCnfStrict(false) differ: %s (%v) / %s (%v)", evStr(v2.ev), e2, evStr(v.ev), e)
		}
	}
	ev := v.ev
	// shape: at most one Init, first; at most one Eof, last
	inits, eofs := 0, 0
	var init dvEvent
	var body []dvEvent
	for i, y := range ev {
		switch y.k {
		case 'i':
			inits++
			init = y
			if i != 0 {
				return pbt.Failf("Init is call %d", i)
			}
			if y.a < 0 || y.b < 0 {
				return pbt.Failf("Init(%d,%d)", y.a, y.b)
			}
		case 'e':
			eofs++
			if i != len(ev)-1 {
				return pbt.Failf("calls after Eof: %s", evStr(ev))
			}
		default:
			body = append(body, y)
		}
	}
	if inits > 1 || len(body) > 0 && inits == 0 {
		return pbt.Failf("%d calls of Init: %s", inits, evStr(ev))
	}
	if inits == 1 && x.class == xOK && x.hdr && (init.a != x.hv || init.b != x.hc) {
		return pbt.Failf("Init(%d,%d), the header says %d %d", init.a, init.b, x.hv, x.hc)
	}
	if x.why == "loose header" {
		if !evRun(body, x.ev) {
			return pbt.Failf("delivered %s, the text has %s", evStr(body), evStr(x.ev))
		}
	} else if !evPrefix(body, x.ev) {
		return pbt.Failf("delivered %s, the text has %s", evStr(body), evStr(x.ev))
	}
	if c.Ch.ErrAt > 0 {
		m.Hit("read fault")
		if e == nil && rd.ended > 0 {
			return pbt.Failf("read error was ignored")
		}
		if e == nil {
			return pbt.Failf("success without reading the end")
		}
		return nil
	}
	if e == nil {
		if rd.ended == 0 {
			return pbt.Failf("success without reading the end")
		}
		if eofs != 1 {
			return pbt.Failf("success with %d calls of Eof", eofs)
		}
		if inits != 1 {
			return pbt.Failf("success without Init")
		}
	}
	switch x.class {
	case xErr:
		if e == nil {
			return pbt.Failf("accepted (%s): %s", x.why, evStr(ev))
		}
	case xOK:
		m.Add("clauses", strings.Count(evStr(body)+" ", " 0 "))
		if x.comments > 0 {
			m.Hit("comments")
		}
		if c.Strict {
			m.Hit("strict")
			if x.strictOK == xOK && e != nil {
				return pbt.Failf("strict reading refused: %v", e)
			}
			if x.strictOK == xErr && e == nil {
				return pbt.Failf("strict reading accepted header %v %d %d", x.hdr, x.hv, x.hc)
			}
			if e != nil {
				return nil
			}
			m.Hit("strict accepted")
		} else if e != nil {
			return pbt.Failf("refused: %v", e)
		}
		if len(body) != len(x.ev) {
			return pbt.Failf("delivered %s, the text has %s", evStr(body), evStr(x.ev))
		}
		if len(body) > 3 && (x.comments > 0 || len(c.Ch.Sizes) > 0) {
			m.NonTrivial()
		}
	case xAny:
		if c.Strict && x.strictOK == xErr && x.why == "last clause not ended" && e == nil {
			return pbt.Failf("strict reading accepted header %v %d %d", x.hdr, x.hv, x.hc)
		}
		if c.Strict && !x.hdr && e == nil {
			return pbt.Failf("strict reading accepted a text without header")
		}
	}
	if x.class == xErr || x.class == xAny {
		if len(text) > 4 {
			m.NonTrivial()
		}
	}
	return nil
}

var cnfAlpha = "cpcnf 0123456789- -\n\n\r\t \x00a%+.é"

func genWS(t *pbt.T, lead *bool) string {
	// *lead tells that what was written last is a newline
	n := 1 + t.Pick(8, 2, 1, 1)
	s := ""
	for i := 0; i < n; i++ {
		switch t.Pick(10, 5, 2, 2) {
		case 0:
			s += " "
			*lead = false
		case 1:
			s += "\n"
			*lead = true
		case 2:
			s += "\t"
			*lead = false
		case 3:
			s += "\r\n"
			*lead = true
		}
	}
	return s
}

var commentBodies = []string{"", " hello", "p cnf 3 3", " 1 2 0", "c", "\r", " \t c", " a 1 0", "omment p inccnf", " s SATISFIABLE", "\x00\xff", "nf 1 2"}

func genComments(t *pbt.T, b *strings.Builder, lead *bool) {
	for *lead && t.P(18) {
		b.WriteString("c" + commentBodies[t.N(len(commentBodies))] + "\n")
		if t.P(20) {
			b.WriteString("\n")
		}
	}
}

func genNum(t *pbt.T, n int) int {
	switch t.Pick(20, 2, 1) {
	case 0:
		return genLit(t, n)
	case 1:
		return genLit(t, 3000)
	}
	v := []int{maxVar, maxVar - 1, 1 << 30, 65536, 1 << 24}[t.N(5)]
	if t.Bool() {
		v = -v
	}
	return v
}

// genCnfText lays out a CNF.
func genCnfText(t *pbt.T, solvable bool) string {
	var b strings.Builder
	lead := true
	genComments(t, &b, &lead)
	for t.P(12) {
		b.WriteString([]string{"\n", "\r\n"}[t.N(2)])
		genComments(t, &b, &lead)
	}
	nv := 1 + t.N(9)
	var cls [][]int
	t.Repeat(0, 40, 6, func(int) {
		var cl []int
		t.Exactly(t.Pick(1, 2, 4, 6, 3, 2), func(int) {
			if solvable {
				cl = append(cl, genLit(t, nv))
			} else {
				cl = append(cl, genNum(t, nv))
			}
		})
		cls = append(cls, cl)
	})
	if t.P(75) {
		hv, hc := 0, len(cls)
		for _, cl := range cls {
			for _, l := range cl {
				if abs(l) > hv {
					hv = abs(l)
				}
			}
		}
		switch t.Pick(16, 2, 2, 1) {
		case 1:
			hv += t.N(5) - 2
		case 2:
			hc += t.N(3) - 1
		case 3:
			hv, hc = []int{0, 100, maxVar}[t.N(3)], []int{0, 100, maxVar}[t.N(3)]
		}
		neg := t.P(20)
		if hv < 0 && !neg {
			hv = 0
		}
		if hc < 0 && !neg {
			hc = 0
		}
		if neg && t.P(10) {
			if t.Bool() {
				hv = -hv
			} else {
				hc = -hc
			}
		}
		b.WriteString("p cnf " + strconv.Itoa(hv) + []string{" ", "  ", "\t"}[t.Pick(8, 1, 1)] + strconv.Itoa(hc) + []string{"", " ", "\r"}[t.Pick(8, 1, 1)] + "\n")
	}
	for _, cl := range cls {
		t.Group(func() {
			genComments(t, &b, &lead)
			for _, l := range append(cl[:len(cl):len(cl)], 0) {
				genComments(t, &b, &lead)
				if t.P(2) {
					if l < 0 {
						b.WriteString("-00" + strconv.Itoa(-l))
					} else {
						b.WriteString("00" + strconv.Itoa(l))
					}
				} else {
					b.WriteString(strconv.Itoa(l))
				}
				lead = false
				if l == 0 && t.P(60) {
					b.WriteString("\n")
					lead = true
				} else {
					b.WriteString(genWS(t, &lead))
				}
			}
		})
	}
	genComments(t, &b, &lead)
	s := b.String()
	switch t.Pick(6, 1, 1) {
	case 1:
		s = strings.TrimRight(s, " \t\r\n")
	case 2:
		if lead {
			s += "cend"
		}
	}
	return s
}

func genTextCase(t *pbt.T, alpha string, valid func(t *pbt.T) string, pads []string) *TextCase {
	c := &TextCase{}
	c.Strict = t.P(30)
	switch t.Pick(10, 6, 2) {
	case 0:
		c.Kind = "laid out"
		c.Text = Blob(valid(t))
	case 1:
		c.Kind = "mutated"
		c.Text = Blob(mutate(t, valid(t), alpha))
	case 2:
		c.Kind = "random"
		c.Text = Blob(pads[t.N(len(pads))] + randText(t, alpha, 40))
	}
	if t.P(6) { // beyond the buffers of readers
		pad := []int{4080, 4095, 8190, 500, 20000}[t.N(5)] + t.N(30)
		if t.Bool() {
			c.Text = Blob("c" + strings.Repeat("x", pad) + "\n" + string(c.Text))
		} else {
			c.Text = c.Text + Blob("\n"+strings.Repeat(" ", pad)) + Blob([]string{"", "\n", "\nc", "1 0"}[t.N(4)])
		}
	}
	c.Ch = genChunks(t, len(c.Text), 12)
	return c
}

// NewDimacs

func runNewDimacs(c *TextCase, m *pbt.Meter) error {
	text := string(c.Text)
	x := cnfExpect(text)
	big := 0
	tt := ref.All(9)
	var cl []int
	for _, y := range x.ev {
		if abs(y.a) > big {
			big = abs(y.a)
		}
	}
	if big > 9 {
		if big > 100000 {
			return nil
		}
		_, _ = gini.NewDimacs(newChunkReader(text, c.Ch))
		return nil
	}
	for _, y := range x.ev {
		if y.a == 0 {
			tt.Clause(cl)
			cl = cl[:0]
			continue
		}
		cl = append(cl, y.a)
	}
	g, e := gini.NewDimacs(newChunkReader(text, c.Ch))
	if c.Ch.ErrAt > 0 {
		if e == nil {
			return pbt.Failf("read error was ignored")
		}
		return nil
	}
	if x.class == xErr && e == nil {
		return pbt.Failf("accepted (%s)", x.why)
	}
	if x.class == xOK && e != nil {
		return pbt.Failf("refused: %v", e)
	}
	if e != nil || x.class != xOK {
		if e == nil {
			g.Solve()
		}
		return nil
	}
	m.Hit("solved")
	if len(x.ev) > 6 {
		m.NonTrivial()
	}
	if int(g.MaxVar()) != big {
		return pbt.Failf("MaxVar %v, the text has %d", g.MaxVar(), big)
	}
	r := g.Solve()
	if (r == 1) == tt.Empty() || r == 0 {
		return pbt.Failf("Solve %d, satisfiable %v", r, !tt.Empty())
	}
	if r == 1 {
		m.Hit("sat")
		vals := make([]bool, 9)
		for i := 1; i <= big; i++ {
			vals[i-1] = g.Value(z.Var(i).Pos())
		}
		if !tt.Has(vals) {
			return pbt.Failf("model violates a clause")
		}
	}
	return nil
}

// icnf

func icnfExpect(text string) (x dExp) {
	r, nc := stripComments(text)
	x.comments = nc
	if !strings.HasPrefix(r, "p inccnf\n") {
		tr := strings.TrimLeft(r, " \t\r\n")
		f := wsFields(tr)
		if len(f) >= 2 && f[0] == "p" && f[1] == "inccnf" || strings.HasPrefix(tr, "pinccnf") {
			x.class, x.why = xAny, "loose header"
			return
		}
		x.class, x.why = xErr, "header"
		return
	}
	r = strings.TrimPrefix(r, "p inccnf\n")
	k := byte('a')
	start := true
	for _, w := range wsFields(r) {
		if w[0] == 'a' {
			if !start {
				x.class, x.why = xAny, "'a' inside"
				return
			}
			k = 'u'
			start = false
			if w == "a" {
				continue
			}
			w = w[1:]
			if _, c := intTok(w); c != tokBad {
				x.class, x.why = xAny, "'a' attached"
			}
		}
		v, c := intTok(w)
		if c == tokBad {
			if x.class == xOK {
				x.class, x.why = xErr, "bad token"
			}
			if w[0] == 'c' {
				x.class = xAny
			}
			return
		}
		if c == tokOdd {
			x.class, x.why = xAny, "-0"
		}
		x.ev = append(x.ev, dvEvent{k, v, 0})
		start = v == 0
		if start {
			k = 'a'
		}
	}
	if !start && x.class == xOK {
		x.class, x.why = xAny, "last line not ended"
	}
	return
}

func genICnfText(t *pbt.T) string {
	var b strings.Builder
	lead := true
	genComments(t, &b, &lead)
	b.WriteString("p inccnf\n")
	nv := 1 + t.N(9)
	t.Repeat(0, 40, 8, func(int) {
		genComments(t, &b, &lead)
		if t.P(40) {
			b.WriteString("a")
			lead = false
			b.WriteString(genWS(t, &lead))
		}
		t.Exactly(t.Pick(2, 4, 4, 3, 2, 1), func(int) {
			genComments(t, &b, &lead)
			b.WriteString(strconv.Itoa(genNum(t, nv)))
			lead = false
			b.WriteString(genWS(t, &lead))
		})
		b.WriteString("0")
		lead = false
		if t.P(60) {
			b.WriteString("\n")
			lead = true
		} else {
			b.WriteString(genWS(t, &lead))
		}
	})
	genComments(t, &b, &lead)
	s := b.String()
	switch t.Pick(6, 1, 1) {
	case 1:
		s = strings.TrimRight(s, " \t\r\n")
		if s == "p inccnf" {
			s += "\n"
		}
	case 2:
		if lead {
			s += "cend"
		}
	}
	return s
}

func runICnf(c *TextCase, m *pbt.Meter) error {
	text := string(c.Text)
	x := icnfExpect(text)
	m.Hit("kind " + c.Kind)
	m.Hit([]string{"well-formed", "malformed", "open"}[x.class])
	v := &dvRec{}
	rd := newChunkReader(text, c.Ch)
	e := dimacs.ReadICnf(rd, v)
	return judge(c, x, v.ev, e, rd, m)
}

// judge compares the calls of an icnf or solution reader to the expectation.
func judge(c *TextCase, x dExp, ev []dvEvent, e error, rd *chunkReader, m *pbt.Meter) error {
	body, eofs := ev, 0
	for i, y := range ev {
		if y.k == 'e' {
			eofs++
			if i != len(ev)-1 {
				return pbt.Failf("calls after Eof: %s", evStr(ev))
			}
			body = ev[:i]
		}
	}
	if x.class != xAny && !evPrefix(body, x.ev) {
		return pbt.Failf("delivered %s, the text has %s", evStr(body), evStr(x.ev))
	}
	if c.Ch.ErrAt > 0 {
		m.Hit("read fault")
		if e == nil {
			return pbt.Failf("read error was ignored")
		}
		if eofs > 0 {
			return pbt.Failf("Eof after a read error")
		}
		return nil
	}
	if e == nil {
		if rd.ended == 0 {
			return pbt.Failf("success without reading the end")
		}
		if eofs != 1 {
			return pbt.Failf("success with %d calls of Eof", eofs)
		}
	} else if eofs != 0 {
		return pbt.Failf("Eof and an error: %v", e)
	}
	switch x.class {
	case xErr:
		if e == nil {
			return pbt.Failf("accepted (%s): %s", x.why, evStr(ev))
		}
	case xOK:
		if e != nil {
			return pbt.Failf("refused: %v", e)
		}
		if len(body) != len(x.ev) {
			return pbt.Failf("delivered %s, the text has %s", evStr(body), evStr(x.ev))
		}
		if x.comments > 0 {
			m.Hit("comments")
		}
		for _, y := range body {
			if y.a == 0 {
				m.Hit("ends " + string(y.k))
			}
		}
		if len(body) > 3 {
			m.NonTrivial()
		}
	}
	if x.class != xOK && len(c.Text) > 4 {
		m.NonTrivial()
	}
	return nil
}

// solver output

func solveExpect(text string) (x dExp) {
	r, nc := stripComments(text)
	x.comments = nc
	for _, l := range strings.Split(r, "\n") {
		if l == "" {
			continue
		}
		if strings.Trim(l, " \t\r") == "" {
			x.class, x.why = xAny, "blank line"
			return
		}
		switch l[0] {
		case 's':
			f := strings.Trim(l[1:], " \t\r\v\f")
			r, ok := map[string]int{"SATISFIABLE": 1, "UNSATISFIABLE": -1, "UNKNOWN": 0}[f]
			if !ok {
				if x.class == xOK {
					x.class, x.why = xErr, "verdict"
				}
				if strings.TrimSpace(f) != f {
					x.class = xAny
				}
				return
			}
			if l[1] != ' ' && l[1] != '\t' || strings.ContainsAny(l, "\v\f") {
				x.class, x.why = xAny, "odd s line"
			}
			x.ev = append(x.ev, dvEvent{'s', r, 0})
		case 'v':
			if len(l) > 1 && l[1] != ' ' && l[1] != '\t' && l[1] != '\r' {
				x.class, x.why = xAny, "odd v line"
			}
			for _, w := range wsFields(l[1:]) {
				v, c := intTok(w)
				if c == tokBad {
					if x.class == xOK {
						x.class, x.why = xErr, "bad token"
					}
					return
				}
				if c == tokOdd {
					x.class, x.why = xAny, "-0"
				}
				if v != 0 {
					x.ev = append(x.ev, dvEvent{'v', v, 0})
				}
			}
		case ' ', '\t', '\r':
			x.class, x.why = xAny, "indented"
			return
		default:
			if x.class == xOK {
				x.class, x.why = xErr, "line "+strconv.Quote(l)
			}
			return
		}
	}
	return
}

func genSolveText(t *pbt.T) string {
	var b strings.Builder
	eol := []string{"\n", "\r\n"}[t.Pick(6, 1)]
	lead := true
	t.Repeat(1, 12, 4, func(int) {
		genComments(t, &b, &lead)
		switch t.Pick(4, 8, 1) {
		case 0:
			b.WriteString("s " + []string{"SATISFIABLE", "UNSATISFIABLE", "UNKNOWN"}[t.N(3)] + []string{"", " ", "\t"}[t.Pick(8, 1, 1)] + eol)
		case 1: // a model over several lines
			b.WriteString("v")
			t.Repeat(0, 60, 8, func(int) {
				switch t.Pick(20, 3, 1) {
				case 1:
					b.WriteString(eol + "v")
				case 2:
					b.WriteString(" ")
				}
				b.WriteString(" " + strconv.Itoa(genNum(t, 60)))
			})
			switch t.Pick(4, 2, 1) {
			case 0:
				b.WriteString(" 0")
			case 1:
				b.WriteString(eol + "v 0")
			}
			b.WriteString([]string{"", " "}[t.Pick(4, 1)] + eol)
		case 2:
			b.WriteString("\n")
		}
	})
	s := b.String()
	if t.P(20) {
		s = strings.TrimSuffix(s, eol)
	}
	return s
}

func runSolveText(c *TextCase, m *pbt.Meter) error {
	x := solveExpect(string(c.Text))
	m.Hit("kind " + c.Kind)
	m.Hit([]string{"well-formed", "malformed", "open"}[x.class])
	v := &dvRec{}
	rd := newChunkReader(string(c.Text), c.Ch)
	e := dimacs.ReadSolve(rd, v)
	// the terminating 0 of the values may or may not be reported
	var ev []dvEvent
	for _, y := range v.ev {
		if y.k == 'v' && y.a == 0 {
			continue
		}
		ev = append(ev, y)
	}
	return judge(c, x, ev, e, rd, m)
}

// Write

type failWriter struct {
	left int
	ok   bool
}

func (f *failWriter) Write(b []byte) (int, error) {
	if len(b) > f.left {
		n := f.left
		f.left = 0
		f.ok = true
		return n, fmt.Errorf("injected write error")
	}
	f.left -= len(b)
	return len(b), nil
}

// parseWritten checks the header of a written CNF and gives its clauses.
func parseWritten(s string) (int, [][]int, error) {
	x := cnfExpect(s)
	if x.class != xOK || !x.hdr || x.comments > 0 {
		return 0, nil, pbt.Failf("written text is not well formed: %q", cut(s, 300))
	}
	var cls [][]int
	var cl []int
	top := 0
	for _, y := range x.ev {
		if y.a == 0 {
			cls = append(cls, cl)
			cl = nil
			continue
		}
		cl = append(cl, y.a)
		if abs(y.a) > top {
			top = abs(y.a)
		}
	}
	if x.hc != len(cls) {
		return 0, nil, pbt.Failf("header announces %d clauses, %d are written: %q", x.hc, len(cls), cut(s, 300))
	}
	if top > x.hv {
		return 0, nil, pbt.Failf("header announces %d variables, variable %d is written", x.hv, top)
	}
	v := &dvRec{}
	e := dimacs.ReadCnfStrict(strings.NewReader(s), v, top == x.hv)
	if e != nil {
		return 0, nil, pbt.Failf("written text is refused: %v", e)
	}
	return top, cls, nil
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func writeOf(g xsol) (string, error) {
	var b bytes.Buffer
	if e := g.Write(&b); e != nil {
		return "", pbt.Failf("Write: %v", e)
	}
	return b.String(), nil
}

func failWrite(g xsol, at int) error {
	w := &failWriter{left: at - 1}
	e := g.Write(w)
	if w.ok && e == nil {
		return pbt.Failf("Write ignored a write error")
	}
	if !w.ok && e != nil {
		return pbt.Failf("Write: %v", e)
	}
	return nil
}

// write checks that what Write writes has the models of the history.
func (h *xh) write(fail int, m *pbt.Meter) error {
	text, e := writeOf(h.g)
	if e != nil {
		return e
	}
	if fail > 0 {
		if e := failWrite(h.g, fail); e != nil {
			return e
		}
	}
	top, cls, e := parseWritten(text)
	if e != nil {
		return e
	}
	if int(h.g.MaxVar()) < top {
		return pbt.Failf("written variable %d, MaxVar %v", top, h.g.MaxVar())
	}
	slot := map[int]int{}
	for s, v := range h.bind {
		if v != 0 {
			slot[v] = s + 1
		}
	}
	n := h.n
	for _, cl := range cls {
		for i, l := range cl {
			s, ok := slot[abs(l)]
			if !ok {
				n++
				s = n
				slot[abs(l)] = s
			}
			if l < 0 {
				s = -s
			}
			cl[i] = s
		}
	}
	if n > 17 {
		m.Hit("too many variables written")
		return nil
	}
	tt := ref.All(n)
	for _, cl := range cls {
		tt.Clause(cl)
	}
	got := project(tt, h.n)
	for i := 0; i < 1<<h.n; i++ {
		if got.W[i/64]>>(i%64)&1 != h.tt.W[i/64]>>(i%64)&1 {
			return pbt.Failf("written CNF: assignment %b of the variables is a model of one of the history and the file only (file: %v): %q", i, got.W[i/64]>>(i%64)&1 == 1, cut(text, 400))
		}
	}
	m.Hit("write")
	if len(cls) > len(h.cls) {
		m.Hit("write with learned clauses")
	}
	if h.dirty || len(h.scopes) > 0 {
		m.Hit("write after search or under a scope")
	}
	g, e := gini.NewDimacs(newChunkReader(text, Chunks{Sizes: []int{1 + fail}}))
	if e != nil {
		return pbt.Failf("NewDimacs of a written CNF: %v", e)
	}
	r := rng{uint64(fail)*77 + uint64(len(text))}
	for k := 0; k < 4; k++ {
		var as []int
		for s := 0; s < h.n; s++ {
			if r.n(3) == 0 && h.bind[s] != 0 {
				l := s + 1
				if r.n(2) == 0 {
					l = -l
				}
				as = append(as, l)
				a, _ := h.zl(l)
				g.Assume(a)
			}
		}
		if res := g.Solve(); (res == 1) != h.tt.Sat(as...) || res == 0 {
			return pbt.Failf("written CNF read back, under %v: %d", as, res)
		}
	}
	return nil
}

// project eliminates the variables above n.
func project(t *ref.TT, n int) *ref.TT {
	r := ref.All(n)
	for i := range r.W {
		r.W[i] = 0
	}
	for i := 0; i < 1<<t.N; i++ {
		if t.W[i/64]>>(i%64)&1 == 1 {
			j := i & (1<<n - 1)
			r.W[j/64] |= 1 << (j % 64)
		}
	}
	return r
}

func init() {
	pads := []string{"", "p cnf ", "p cnf 3 2\n", "c\n", "p cnf 3 2\n1 2", "\n"}
	pbt.Def("C08", "read", 300000, 6000000,
		"laid-out, mutated and random CNF texts read strictly and not, under generated chunkings and read faults, compared call by call with an independent reading; non-trivial: at least four literals or clause ends read in pieces or between comments, or a malformed text",
		func(t *pbt.T) *TextCase {
			return genTextCase(t, cnfAlpha, func(t *pbt.T) string { return genCnfText(t, false) }, pads)
		}, runCnf)
	pbt.Def("C08", "solver", 40000, 800000,
		"CNF texts over at most 9 variables read by NewDimacs and solved, against the truth table of the independent reading; non-trivial: a well-formed text with more than six literals and clause ends",
		func(t *pbt.T) *TextCase {
			return genTextCase(t, cnfAlpha, func(t *pbt.T) string { return genCnfText(t, true) }, pads)
		}, runNewDimacs)
	ipads := []string{"p inccnf\n", "p inccnf", "", "p inccnf\n1 0\na ", "p inccnf\r\n", "\np inccnf\n"}
	pbt.Def("C09", "read", 2000000, 20000000,
		"laid-out, mutated and random icnf texts under generated chunkings and read faults, compared call by call with an independent reading; non-trivial: at least four calls, or a malformed text",
		func(t *pbt.T) *TextCase {
			return genTextCase(t, "aaa c p 0123456789-\n\n\r\t \x00%+b", genICnfText, ipads)
		}, runICnf)
	spads := []string{"", "s ", "v ", "s SATISFIABLE\n", "v 1 2\nv ", "c\n"}
	pbt.Def("C10", "solution", 300000, 6000000,
		"laid-out, mutated and random solver outputs under generated chunkings and read faults, compared call by call with an independent reading; non-trivial: at least four calls, or a malformed text",
		func(t *pbt.T) *TextCase {
			return genTextCase(t, "sv c SATUNKOW 0123456789-\n\n\r\t \x00%", genSolveText, spads)
		}, runSolveText)
	s := ldef("C10", "long", 1500, 20000,
		"as write, over parity, random 3-SAT, pigeonhole and mixed problems needing up to 10^5 conflicts, the history going on with the solver read back; non-trivial: read back and continued, SAT or UNSAT answers",
		&lcfg{kinds: []int{50, 30, 10, 10, 40}, big: 1, ops: 10, max: 30,
			w: map[string]int{"add": 12, "assume": 20, "solve": 20, "why": 4, "act": 8, "deact": 8, "write": 12}},
		func(d func(string) int) bool { return d("continued after reading back") > 0 && d("sat")+d("unsat") > 1 })
	s.Timeout = 240 * time.Second
	xdef("C10", "write", 100000, 1500000,
		"random incremental histories with activation literals, copies, scopes, background solves; the written CNF is parsed independently, its models projected to the live variables compared with the truth table of the history, and read back and solved; write faults; non-trivial: a write after a search or under a scope, and SAT and UNSAT answers",
		&xcfg{w: map[string]int{"add": 26, "part": 2, "assume": 24, "solve": 16, "test": 4, "untest": 4, "act": 6, "actwith": 4, "deact": 5, "copy": 1, "use": 3, "lit": 1, "gostop": 1, "write": 12}, minU: 3, maxU: 8, extra: 1, acts: 2, ops: 40, maxOps: 120, keepSat: 95, burst: 4, bigIDs: 20, three: 60},
		func(d func(string) int) bool {
			return d("write after search or under a scope") > 0 && d("solve sat") > 0 && d("solve unsat") > 0
		})
}
