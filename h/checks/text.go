package checks

import (
	"encoding/json"
	"errors"
	"io"
	"strconv"
	"strings"

	"ginicheck/pbt"
)

// Blob is bytes shown readably in JSON.
type Blob string

func (b Blob) MarshalJSON() ([]byte, error) { return json.Marshal(strconv.QuoteToASCII(string(b))) }

func (b *Blob) UnmarshalJSON(d []byte) error {
	var s string
	if e := json.Unmarshal(d, &s); e != nil {
		return e
	}
	u, e := strconv.Unquote(s)
	*b = Blob(u)
	return e
}

// Chunks says how a reader delivers its bytes.
type Chunks struct {
	Sizes   []int `json:"sizes,omitempty"` // cyclic; 0 is an empty read; none: all at once
	EOFData bool  `json:"eofdata,omitempty"`
	ErrAt   int   `json:"errat,omitempty"` // 1+offset of a read error, 0 none
	ErrData bool  `json:"errdata,omitempty"`
}

var errInjected = errors.New("injected read error")

type chunkReader struct {
	s    string
	c    Chunks
	i, k int
	// calls after the end was reported
	ended int
}

func newChunkReader(s string, c Chunks) *chunkReader { return &chunkReader{s: s, c: c} }

func (r *chunkReader) end() (int, string, error) {
	if r.c.ErrAt > 0 && r.c.ErrAt-1 <= len(r.s) {
		return r.c.ErrAt - 1, "", errInjected
	}
	return len(r.s), "", io.EOF
}

func (r *chunkReader) Read(b []byte) (int, error) {
	end, _, e := r.end()
	if r.i >= end {
		r.ended++
		return 0, e
	}
	n := end - r.i
	if len(r.c.Sizes) > 0 {
		z := r.c.Sizes[r.k%len(r.c.Sizes)]
		r.k++
		if z < n {
			n = z
		}
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, r.s[r.i:r.i+n])
	r.i += n
	if r.i == end && n > 0 && (e == io.EOF && r.c.EOFData || e != io.EOF && r.c.ErrData) {
		r.ended++
		return n, e
	}
	return n, nil
}

func genChunks(t *pbt.T, n int, errPct int) Chunks {
	var c Chunks
	switch t.Pick(3, 3, 3, 2) {
	case 0:
	case 1:
		c.Sizes = []int{1}
	case 2:
		t.Exactly(1+t.N(6), func(int) { c.Sizes = append(c.Sizes, 1+t.N(9)) })
	case 3:
		t.Exactly(1+t.N(6), func(int) { c.Sizes = append(c.Sizes, t.N(6)) })
		c.Sizes = append(c.Sizes, 1+t.N(40))
	}
	c.EOFData = t.Bool()
	if t.P(errPct) {
		c.ErrAt = 1 + t.N(n+1)
		c.ErrData = t.Bool()
	}
	return c
}

// mutate edits text a few times.
func mutate(t *pbt.T, s string, alphabet string) string {
	b := []byte(s)
	t.Exactly(1+t.N(3), func(int) {
		p := t.N(len(b) + 1)
		ch := alphabet[t.N(len(alphabet))]
		if t.P(8) {
			ch = byte(t.N(256))
		}
		switch t.Pick(3, 3, 3, 1, 1, 1) {
		case 0: // insert
			b = append(b[:p:p], append([]byte{ch}, b[p:]...)...)
		case 1: // delete
			if p < len(b) {
				b = append(b[:p:p], b[p+1:]...)
			}
		case 2: // replace
			if p < len(b) {
				b[p] = ch
			}
		case 3: // truncate
			b = b[:p]
		case 4: // repeat a span
			q := p + t.N(12)
			if q > len(b) {
				q = len(b)
			}
			b = append(b[:q:q], append(append([]byte{}, b[p:q]...), b[q:]...)...)
		case 5: // delete a span
			q := p + t.N(12)
			if q > len(b) {
				q = len(b)
			}
			b = append(b[:p:p], b[q:]...)
		}
	})
	return string(b)
}

func randText(t *pbt.T, alphabet string, max int) string {
	var b strings.Builder
	n := t.N(max)
	for i := 0; i < n; i++ {
		b.WriteByte(alphabet[t.N(len(alphabet))])
	}
	return b.String()
}

// stripComments removes the lines which begin with 'c'.
func stripComments(s string) (string, int) {
	var out []string
	n := 0
	for _, l := range strings.SplitAfter(s, "\n") {
		if strings.HasPrefix(l, "c") {
			n++
			continue
		}
		out = append(out, l)
	}
	return strings.Join(out, ""), n
}

func isWS(b byte) bool { return b == ' ' || b == '\n' || b == '\t' || b == '\r' }

func wsFields(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		for i < len(s) && isWS(s[i]) {
			i++
		}
		j := i
		for j < len(s) && !isWS(s[j]) {
			j++
		}
		if j > i {
			out = append(out, s[i:j])
		}
		i = j
	}
	return out
}

// token classes
const (
	tokInt = iota
	tokOdd // denotes a number loosely: -0
	tokBad
)

const maxVar = 1<<31 - 1

func intTok(s string) (int, int) {
	d := strings.TrimPrefix(s, "-")
	if d == "" {
		return 0, tokBad
	}
	for _, c := range []byte(d) {
		if c < '0' || c > '9' {
			return 0, tokBad
		}
	}
	d = strings.TrimLeft(d, "0")
	if d == "" {
		if s[0] == '-' {
			return 0, tokOdd
		}
		return 0, tokInt
	}
	if len(d) > 10 {
		return 0, tokBad
	}
	v, _ := strconv.Atoi(d)
	if v > maxVar {
		return 0, tokBad
	}
	if s[0] == '-' {
		v = -v
	}
	return v, tokInt
}
