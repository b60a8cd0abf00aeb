package props

import (
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/hsiaosiyuan0/mole/span"

	"molecheck/core"
	"molecheck/pbt"
)

// P17: span.Source against an index-based model.

type SrcOp struct {
	Op string `json:"op"`
	A  int    `json:"a,omitempty"`
	B  int    `json:"b,omitempty"`
	C  rune   `json:"c,omitempty"`
	D  rune   `json:"d,omitempty"`
}

type SrcCase struct {
	Code []byte  `json:"code"`
	Text string  `json:"text"` // for the reader
	Ops  []SrcOp `json:"ops"`
}

var srcPieces = []string{"a", "b", "xyz", " ", "  ", "\t", "\v", "\f", "\n", "\r", "\r\n", "\n\r", "\r\r\n", "\u2028", "\u2029", "\u00a0", "\ufeff", "\u0085", "\u3000", "\u1680", "é", "中", "😀", "\u0301", "\x80", "\xff", "\xc3", "\xe4\xb8", "\xed\xa0\x80", "\ufffd", "\x00", "//", "/*", "*/", "<", "\\u0061", "'", "\"", "`", "$", "{"}

func srcText(t *pbt.T, n int) string {
	var b strings.Builder
	for ; n > 0; n-- {
		b.WriteString(pbt.Pick(t, srcPieces...))
	}
	return b.String()
}

func genSrc(t *pbt.T) *SrcCase {
	c := &SrcCase{}
	c.Text = srcText(t, t.Intn(14))
	c.Code = []byte(c.Text)
	c.Text = fmt.Sprintf("%q", c.Text)
	runes := []rune{'a', ' ', '\n', '\r', '*', '/', 'é', '中', -1, utf8.RuneError, 0, 0x2028, '<', 'b'}
	depth := 0
	for n := 1 + t.Intn(20); n > 0; n-- {
		op := SrcOp{Op: pbt.Pick(t, "read", "read", "read", "read", "peek", "second", "isch", "eof", "advif", "advif", "chs2", "choropt", "skip", "skip", "push", "pop", "discard", "text", "linecol", "ofstlc", "range")}
		op.A, op.B = t.Intn(40), t.Intn(40)
		op.C, op.D = pbt.Pick(t, runes...), pbt.Pick(t, runes...)
		switch op.Op {
		case "push":
			depth++
		case "pop", "discard":
			if depth == 0 {
				op.Op = "read"
			} else {
				depth--
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

// the model: the source decoded once into code points with byte offsets.
type srcModel struct {
	code  string
	rs    []rune
	of    []int // byte offset of rs[i]; one more for the end
	i     int
	met   bool
	stack [][2]int
}

func newSrcModel(code string) *srcModel {
	m := &srcModel{code: code}
	for i := 0; i < len(code); {
		r, n := utf8.DecodeRuneInString(code[i:])
		m.rs, m.of = append(m.rs, r), append(m.of, i)
		i += n
	}
	m.of = append(m.of, len(code))
	return m
}

func (m *srcModel) at(i int) rune {
	if i >= len(m.rs) {
		return -1
	}
	return m.rs[i]
}

func (m *srcModel) read() rune {
	r := m.at(m.i)
	if r == -1 {
		return r
	}
	m.i++
	if r == '\r' {
		if m.at(m.i) == '\n' {
			m.i++
		}
		return '\n'
	}
	return r
}

func specSpace(r rune) bool {
	switch r {
	case '\t', '\v', '\f', ' ', '\n', '\r', 0xa0, 0xfeff, 0x2028, 0x2029, 0x1680, 0x202f, 0x205f, 0x3000:
		return true
	}
	return r >= 0x2000 && r <= 0x200a
}

// lineCol counts CR, LF and CRLF that end at or before the byte offset.
func lineCol(code string, ofst int) (line, col int) {
	line = 1
	start := 0
	for i := 0; i < len(code); i++ {
		n := 0
		if code[i] == '\r' && i+1 < len(code) && code[i+1] == '\n' {
			n = 2
		} else if code[i] == '\r' || code[i] == '\n' {
			n = 1
		}
		if n > 0 {
			if i+n > ofst {
				break
			}
			line++
			start = i + n
			i += n - 1
		}
	}
	return line, utf8.RuneCountInString(code[start:ofst])
}

func evalSrc(c *SrcCase) core.Outcome {
	code := string(c.Code)
	s := span.NewSource("", code)
	m := newSrcModel(code)
	if s.Len() != len(code) {
		return core.Failf("Len() = %d, want %d", s.Len(), len(code))
	}
	reads := 0
	for k, op := range c.Ops {
		bad := func(what string, got, want any) core.Outcome {
			return core.Failf("source %q, step %d %s: %s = %v, want %v", code, k, op.Op, what, got, want)
		}
		switch op.Op {
		case "read":
			reads++
			if g, w := s.Read(), m.read(); g != w {
				return bad("rune", g, w)
			}
		case "peek":
			if g, w := s.Peek(), m.at(m.i); g != w {
				return bad("rune", g, w)
			}
		case "second":
			w := m.at(m.i + 1)
			if m.at(m.i) == -1 {
				w = -1
			}
			if g := s.Ahead2nd(); g != w {
				return bad("rune", g, w)
			}
		case "isch":
			if g, w := s.AheadIsCh(op.C), m.at(m.i) == op.C; g != w {
				return bad(fmt.Sprintf("AheadIsCh(%q)", op.C), g, w)
			}
		case "eof":
			if g, w := s.AheadIsEOF(), m.i == len(m.rs); g != w {
				return bad("eof", g, w)
			}
		case "advif":
			w := m.at(m.i) == op.C
			if w {
				m.read()
			}
			if g := s.AdvanceIf(op.C); g != w {
				return bad(fmt.Sprintf("AdvanceIf(%q)", op.C), g, w)
			}
		case "chs2":
			a, b := op.C, op.D
			if op.A%2 == 0 && m.i+1 < len(m.rs) {
				a, b = m.at(m.i), m.at(m.i+1)
			}
			if a == -1 || b == -1 {
				continue
			}
			if g, w := s.AheadIsChs2(a, b), m.at(m.i) == a && m.at(m.i+1) == b; g != w {
				return bad(fmt.Sprintf("AheadIsChs2(%q,%q)", a, b), g, w)
			}
		case "choropt":
			r := m.at(m.i)
			if g, w := s.AheadIsChOr(op.C, op.D), r == op.C || r == op.D; g != w {
				return bad("AheadIsChOr", g, w)
			}
		case "skip":
			m.met = false
			for specSpace(m.at(m.i)) {
				r := m.at(m.i)
				if r == '\n' || r == '\r' || r == 0x2028 || r == 0x2029 {
					m.met = true
				}
				m.i++
			}
			s.SkipSpace()
			if s.MetLineTerm() != m.met {
				return bad("MetLineTerm", s.MetLineTerm(), m.met)
			}
		case "push":
			b := 0
			if m.met {
				b = 1
			}
			m.stack = append(m.stack, [2]int{m.i, b})
			s.PushState()
		case "pop", "discard":
			if len(m.stack) == 0 {
				continue
			}
			top := m.stack[len(m.stack)-1]
			m.stack = m.stack[:len(m.stack)-1]
			if op.Op == "pop" {
				m.i, m.met = top[0], top[1] == 1
				s.PopState()
				if s.MetLineTerm() != m.met {
					return bad("MetLineTerm", s.MetLineTerm(), m.met)
				}
			} else {
				s.DiscardState()
			}
		case "text", "linecol", "ofstlc", "range":
			lo, hi := m.of[op.A%len(m.of)], m.of[op.B%len(m.of)]
			if lo > hi {
				lo, hi = hi, lo
			}
			rng := span.Range{Lo: uint32(lo), Hi: uint32(hi)}
			switch op.Op {
			case "text":
				if g := s.Text(uint32(lo), uint32(hi)); g != code[lo:hi] || s.RngText(rng) != g {
					return bad("text", g, code[lo:hi])
				}
			case "linecol":
				f, to := s.LineCol(rng)
				l1, c1 := lineCol(code, lo)
				l2, c2 := lineCol(code, hi)
				if int(f.Line) != l1 || int(f.Col) != c1 || int(to.Line) != l2 || int(to.Col) != c2 {
					return bad(fmt.Sprintf("LineCol(%d,%d)", lo, hi), fmt.Sprint(f, to), fmt.Sprintf("{%d %d} {%d %d}", l1, c1, l2, c2))
				}
			case "ofstlc":
				p := s.OfstLineCol(uint32(lo))
				l, col := lineCol(code, lo)
				if int(p.Line) != l || int(p.Col) != col {
					return bad(fmt.Sprintf("OfstLineCol(%d)", lo), p, fmt.Sprint(l, col))
				}
			case "range":
				r := s.NewOpenRange()
				if int(r.Lo) != m.of[m.i] || int(r.Hi) != m.of[m.i] {
					return bad("NewOpenRange", r, m.of[m.i])
				}
			}
		}
		if int(s.Ofst()) != m.of[m.i] || int(s.Pos()) != m.i {
			return bad("ofst/pos", fmt.Sprint(s.Ofst(), s.Pos()), fmt.Sprint(m.of[m.i], m.i))
		}
	}
	return core.Outcome{Trivial: len(m.rs) < 2 || len(c.Ops) < 3}
}

func init() {
	core.Def(core.Prop{ID: "P17", Quick: 10000000, Thorough: 100000000,
		Rule: "at least 2 code points and 3 operations"}, genSrc, evalSrc)
}
