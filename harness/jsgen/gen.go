// Package jsgen generates ECMAScript (ES2022), JSX and TypeScript programs as
// token lists.  It tracks enough context to make most programs valid; whether
// a program really is valid is always decided by a reference, never here.
package jsgen

import (
	"strings"

	"molecheck/pbt"
)

// Tok is one source token.  NoNL: no line terminator may precede it (it would
// change the meaning).  Glue: nothing at all may precede it.
type Tok struct {
	S    string
	NoNL bool
	Glue bool
}

type Opts struct {
	Module bool // module + strict + top-level await
	JSX    bool
	TS     bool
	// Wild is the percentage of context checks that are skipped on purpose, so
	// that context-sensitive errors are generated.
	Wild int
	// NoUnicode keeps the source ASCII.
	NoUnicode bool
	Deco      bool
}

type fnCtx struct {
	fn, async, gen            bool
	loop, brk                 bool
	labels                    []string
	loopLabels                []string
	superProp, superCall, tgt bool
	noIn                      bool
	noAwait, noYield          bool // inside parameters
	noArgs                    bool // class field initialiser / static block
	staticBlk                 bool
	lex                       bool // inside a lexical declaration
	inAsync, inGen            bool // some enclosing function is one
}

type G struct {
	tdepth   int
	inferOk  int
	noCond   bool
	T        *pbt.T
	O        Opts
	Out      []Tok
	Budget   int
	strict   bool
	c        fnCtx
	depth    int
	priv     [][]string
	uniq     int
	top      bool
	exps     map[string]bool
	scope    []map[string]bool // names declared lexically or as var in enclosing block (to avoid clashes)
	Labels   map[string]int
	inTSNS   bool
	ambient  bool
	typDepth int
}

func New(t *pbt.T, o Opts, budget int) *G {
	g := &G{T: t, O: o, Budget: budget, strict: o.Module, exps: map[string]bool{}, Labels: map[string]int{}}
	if o.Module {
		g.c.async = true
	}
	g.scope = []map[string]bool{{}}
	return g
}

func (g *G) e(ss ...string) {
	for _, s := range ss {
		g.Out = append(g.Out, Tok{S: s})
	}
}
func (g *G) nonl(s string)  { g.Out = append(g.Out, Tok{S: s, NoNL: true}) }
func (g *G) glue(s string)  { g.Out = append(g.Out, Tok{S: s, Glue: true, NoNL: true}) }
func (g *G) label(l string) { g.Labels[l]++ }

// wild says that a context rule should be ignored this time.
func (g *G) wild() bool { return g.O.Wild > 0 && g.T.P(g.O.Wild, 100) }

func (g *G) insert(i int, s string) {
	g.Out = append(g.Out, Tok{})
	copy(g.Out[i+1:], g.Out[i:])
	g.Out[i] = Tok{S: s, NoNL: g.Out[i+1].NoNL}
	g.Out[i+1].NoNL = false
}

func (g *G) paren(i int) { g.insert(i, "("); g.e(")") }

func (g *G) spend() bool {
	g.Budget--
	return g.Budget > 0
}

// ---- names ----

var plainNames = []string{"a", "b", "c", "x", "y", "foo", "$", "_", "A1"}
var ctxNames = []string{"async", "of", "get", "set", "static_", "from", "as", "target", "meta", "type", "constructor", "prototype", "undefined", "NaN", "Infinity", "accessor", "declare", "abstract", "namespace", "module", "global", "readonly", "is", "keyof", "infer", "asserts", "unique", "override", "out", "satisfies", "any", "string", "number", "use", "Object", "require", "assert", "__proto__"}
var uniNames = []string{"é", "变量", "𠮷", "ªb", "a‌b", "ʹ", "ñ_1"}
var escNames = []string{"\\u0061b", "\\u{62}c", "a\\u0062", "\\u{00078}", "\\u{20BB7}"}
var sloppyNames = []string{"let", "static", "yield", "await", "implements", "interface", "package", "private", "protected", "public"}
var evalArgs = []string{"eval", "arguments"}
var Keywords = []string{"break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "export", "extends", "finally", "for", "function", "if", "import", "in", "instanceof", "new", "return", "super", "switch", "this", "throw", "try", "typeof", "var", "void", "while", "with", "enum", "null", "true", "false"}

// ref is an identifier reference.
func (g *G) ref() string {
	t := g.T
	switch t.Weighted(60, 14, 3, 2, 4, 3) {
	case 0:
		return pbt.Pick(t, plainNames...)
	case 1:
		n := pbt.Pick(t, ctxNames...)
		return n
	case 2:
		if !g.O.NoUnicode {
			return pbt.Pick(t, uniNames...)
		}
	case 3:
		return pbt.Pick(t, escNames...)
	case 4:
		n := pbt.Pick(t, sloppyNames...)
		if g.okSloppyName(n) || g.wild() {
			return n
		}
	case 5:
		n := pbt.Pick(t, evalArgs...)
		if n != "arguments" || !g.c.noArgs || g.wild() {
			return n
		}
	}
	return pbt.Pick(t, plainNames...)
}

func (g *G) okSloppyName(n string) bool {
	switch n {
	case "await":
		return !g.O.Module && !g.c.async && !g.c.staticBlk && !g.c.inAsync
	case "yield":
		return !g.strict && !g.c.gen && !g.c.inGen
	case "let":
		return !g.strict && !g.c.lex
	}
	return !g.strict
}

// bind is a binding identifier.  lexical ones are made fresh to avoid clashes.
func (g *G) bind(lexical bool) string {
	t := g.T
	if g.wild() {
		return pbt.Pick(t, append(append([]string{}, plainNames...), "eval", "arguments", "let", "yield", "await", "static", "interface", "if", "this", "enum")...)
	}
	if lexical {
		return g.fresh()
	}
	switch t.Weighted(40, 8, 3, 2, 3, 30) {
	case 0:
		return pbt.Pick(t, "v1", "v2", "v3", "v4")
	case 1:
		return pbt.Pick(t, ctxNames...)
	case 2:
		if !g.O.NoUnicode {
			return pbt.Pick(t, uniNames...)
		}
	case 3:
		return pbt.Pick(t, escNames...)
	case 4:
		n := pbt.Pick(t, sloppyNames...)
		if g.okSloppyName(n) && n != "private" {
			return n
		}
		if !g.strict {
			return pbt.Pick(t, evalArgs...)
		}
	}
	return g.fresh()
}

func (g *G) fresh() string {
	g.uniq++
	p := pbt.Pick(g.T, "l", "m", "k", "$", "_", "é", "async", "of", "get", "l\\u0061")
	if p == "é" && g.O.NoUnicode {
		p = "e"
	}
	n := g.uniq
	s := ""
	for {
		s = string(rune('0'+n%10)) + s
		n /= 10
		if n == 0 {
			break
		}
	}
	return p + s
}

// propName is an IdentifierName (keywords allowed).
func (g *G) propName() string {
	t := g.T
	switch t.Weighted(6, 3, 2, 1) {
	case 0:
		return pbt.Pick(t, plainNames...)
	case 1:
		return pbt.Pick(t, Keywords...)
	case 2:
		return pbt.Pick(t, append(append([]string{}, ctxNames...), sloppyNames...)...)
	}
	if g.O.NoUnicode {
		return pbt.Pick(t, escNames...)
	}
	return pbt.Pick(t, append(append([]string{}, uniNames...), escNames...)...)
}

// ---- literals ----

func (g *G) Num() string {
	t := g.T
	sep := func(s string) string {
		if len(s) > 1 && t.P(1, 4) {
			i := 1 + t.Intn(len(s)-1)
			if s[i-1] != '_' && s[i] != '_' {
				return s[:i] + "_" + s[i:]
			}
		}
		return s
	}
	digs := func(set string, max int) string {
		n := 1 + t.Geo(2, max)
		var b strings.Builder
		for i := 0; i < n; i++ {
			b.WriteByte(set[t.Intn(len(set))])
		}
		return b.String()
	}
	dec := func() string {
		s := digs("0123456789", 25)
		if s[0] == '0' && len(s) > 1 {
			s = "1" + s[1:]
		}
		return s
	}
	frac := "0123456789"
	switch t.Weighted(10, 6, 6, 5, 4, 4, 4, 4, 3, 2) {
	case 0:
		return pbt.Pick(t, "0", "1", "2", "42", "10", "100")
	case 1:
		s := dec()
		if s == "0" {
			return "0." + digs(frac, 6)
		}
		return sep(s)
	case 2:
		return dec() + "." + sep(digs(frac, 20))
	case 3:
		s := dec() + pbt.Pick(t, "e", "E") + pbt.Pick(t, "", "+", "-") + digs("0123456789", 2)
		return s
	case 4:
		return "." + sep(digs(frac, 8)) + pbt.Pick(t, "", "e1", "E-3", "e+20")
	case 5:
		return pbt.Pick(t, "0x", "0X") + sep(digs("0123456789abcdefABCDEF", 18))
	case 6:
		return pbt.Pick(t, "0b", "0B") + sep(digs("01", 60))
	case 7:
		return pbt.Pick(t, "0o", "0O") + sep(digs("01234567", 25))
	case 8:
		s := pbt.Pick(t, "d", "x", "b", "o", "0")
		switch s {
		case "d":
			d := dec()
			if d != "0" {
				d = sep(d)
			}
			return d + "n"
		case "x":
			return "0x" + sep(digs("0123456789abcdefABCDEF", 20)) + "n"
		case "b":
			return "0b" + sep(digs("01", 70)) + "n"
		case "o":
			return "0o" + sep(digs("01234567", 25)) + "n"
		}
		return "0n"
	}
	if !g.strict || g.wild() {
		return pbt.Pick(t, "00", "01", "0123", "077", "0777777777777", "08", "0789", "09.5", "019e2", "0129999999999999999")
	}
	return dec() + "."
}

// StrPart is a piece of a string/template: its source text.
func (g *G) strChar(quote string) string {
	t := g.T
	switch t.Weighted(30, 6, 4, 4, 4, 3, 3, 2, 2, 2) {
	case 0:
		c := pbt.Pick(t, "a", "b", "z", "0", "9", " ", ".", "/", "*", "-", "{", "}", "$", "<", "&", "'", "\"", "`", "//", "/*", "*/", "<!--")
		if c == quote {
			return "\\" + c
		}
		return c
	case 1:
		return "\\" + pbt.Pick(t, "n", "t", "r", "v", "f", "b", "\\", "'", "\"", "`", "a", "c", "q", "z", "$", "{", "/", ".")
	case 2:
		return "\\x" + pbt.Pick(t, "00", "41", "7f", "fF", "0a", "e9")
	case 3:
		return "\\u" + pbt.Pick(t, "0041", "00e9", "4E2d", "2028", "fffd", "0000", "FEFF", "d7ff", "e000")
	case 4:
		return "\\u{" + pbt.Pick(t, "0", "41", "1F600", "10FFFF", "000041", "2028") + "}"
	case 5:
		return "\\" + pbt.Pick(t, "\n", "\r\n", "\r", " ", " ")
	case 6:
		if g.O.NoUnicode {
			return "u"
		}
		return pbt.Pick(t, "é", "中", "😀", "́", "\u00a0", "￾")
	case 7:
		return "\\0"
	case 8:
		if g.O.NoUnicode {
			return "v"
		}
		return pbt.Pick(t, " ", " ")
	}
	if quote != "`" && (!g.strict || g.wild()) {
		return "\\" + pbt.Pick(t, "1", "7", "12", "012", "377", "400", "08", "8", "9", "00")
	}
	return "x"
}

func (g *G) Str() string {
	t := g.T
	q := pbt.Pick(t, "'", "\"")
	var b strings.Builder
	b.WriteString(q)
	n := t.Geo(3, 12)
	for i := 0; i < n; i++ {
		s := g.strChar(q)
		// `\0` followed by a digit would be an octal escape
		if b.Len() >= 2 && strings.HasSuffix(b.String(), "\\0") && s != "" && s[0] >= '0' && s[0] <= '9' && g.strict && !g.wild() {
			s = "q"
		}
		b.WriteString(s)
	}
	b.WriteString(q)
	return b.String()
}

func (g *G) tplChunk(tagged bool) string {
	t := g.T
	var b strings.Builder
	n := t.Geo(2, 8)
	for i := 0; i < n; i++ {
		s := g.strChar("`")
		if t.P(1, 12) {
			s = pbt.Pick(t, "\n", "\r\n", "\r", "$", "$$", "\\`", "\\${")
		}
		if tagged && t.P(1, 12) {
			s = pbt.Pick(t, "\\u", "\\x", "\\xg", "\\u{", "\\u{110000}", "\\1", "\\08", "\\u00g0", "\\01")
		}
		if strings.HasSuffix(b.String(), "\\0") && s[0] >= '0' && s[0] <= '9' && !tagged {
			s = "q"
		}
		if strings.HasSuffix(b.String(), "$") && strings.HasPrefix(s, "{") {
			s = "q"
		}
		b.WriteString(s)
	}
	return b.String()
}

func (g *G) template(tagged bool) {
	t := g.T
	g.label("template")
	n := 0
	if g.Budget > 0 {
		n = t.Geo(1, 3)
	}
	cur := "`" + g.tplChunk(tagged)
	for i := 0; i < n; i++ {
		cur += "${"
		if i == 0 {
			g.Out = append(g.Out, Tok{S: cur})
		} else {
			g.e(cur)
		}
		g.in(func() { g.expr() })
		cur = "}" + g.tplChunk(tagged)
	}
	g.e(cur + "`")
}

func (g *G) Regex() string {
	t := g.T
	var b strings.Builder
	b.WriteByte('/')
	var alt func(d int)
	u := t.P(1, 4)
	alt = func(d int) {
		n := 1 + t.Geo(2, 5)
		for i := 0; i < n; i++ {
			atom := true
			switch t.Weighted(16, 3, 4, 3, 3, 2, 2, 2, 2, 1) {
			case 0:
				b.WriteString(pbt.Pick(t, "a", "b", "0", "-", ":", "=", "!", ",", "<", "'", "\"", "`"))
			case 1:
				b.WriteString(".")
			case 2:
				b.WriteString("\\" + pbt.Pick(t, "d", "w", "s", "D", "W", "S", "n", "t", "/", "\\", ".", "*", "(", ")", "[", "]", "{", "}", "^", "$", "|", "+", "?"))
			case 3: // class
				b.WriteString("[" + pbt.Pick(t, "", "^"))
				m := t.Geo(2, 4)
				for j := 0; j < m; j++ {
					b.WriteString(pbt.Pick(t, "a", "0-9", "a-z", "\\]", "\\d", "/", "(", ")", "[", "{", "}", "\\\\", ".", "*", "$", "\\u0041", "\\x41"))
				}
				b.WriteString("]")
			case 4:
				if d > 0 {
					b.WriteString(pbt.Pick(t, "(", "(?:", "(?=", "(?!"))
					alt(d - 1)
					b.WriteString(")")
					atom = !u
				}
			case 5:
				b.WriteString(pbt.Pick(t, "^", "$", "\\b", "\\B"))
				atom = false
			case 6:
				b.WriteString("\\" + pbt.Pick(t, "u0041", "x41", "cA", "0"))
			case 7:
				if u {
					b.WriteString("\\u{" + pbt.Pick(t, "41", "1F600") + "}")
				} else {
					b.WriteString("a")
				}
			case 8:
				b.WriteString("|")
				atom = false
			case 9:
				if !g.O.NoUnicode {
					b.WriteString(pbt.Pick(t, "é", "中"))
				} else {
					b.WriteString("e")
				}
			}
			s := b.String()
			if atom && t.P(1, 4) && !strings.HasSuffix(s, "(") && !strings.HasSuffix(s, "|") {
				b.WriteString(pbt.Pick(t, "*", "+", "?", "{2}", "{1,}", "{0,3}", "*?", "+?", "??"))
				b.WriteString("z")
			}
		}
	}
	alt(2)
	s := b.String()
	if s[1] == '*' || s[1] == '/' || s[1] == '+' || s[1] == '?' || s[1] == '{' {
		s = "/z" + s[1:]
	}
	s += "/"
	fl := ""
	for _, f := range []string{"g", "i", "m", "s", "y", "d"} {
		if t.P(1, 6) {
			if fl == "" || t.Bool() {
				fl += f
			} else {
				fl = f + fl
			}
		}
	}
	if u {
		fl += "u"
	}
	return s + fl
}

// ---- helpers for context ----

func (g *G) in(f func()) { o := g.c.noIn; g.c.noIn = false; f(); g.c.noIn = o }

func (g *G) withCtx(c fnCtx, f func()) {
	o := g.c
	g.c = c
	f()
	g.c = o
}

func (g *G) block(f func()) {
	g.scope = append(g.scope, map[string]bool{})
	f()
	g.scope = g.scope[:len(g.scope)-1]
}
