package props

import (
	"encoding/json"
	"regexp"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/hsiaosiyuan0/mole/ecma/astutil"
	"github.com/hsiaosiyuan0/mole/ecma/estree"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/ecma/walk"
	"github.com/hsiaosiyuan0/mole/span"

	"molecheck/core"
	"molecheck/jsgen"
	"molecheck/pbt"
)

// Any text, any options.
type AnyText struct {
	Feat uint64 `json:"feat"`
	Text string `json:"text"` // latin-1 coded bytes
}

func latin(b string) string {
	r := make([]rune, len(b))
	for i := 0; i < len(b); i++ {
		r[i] = rune(b[i])
	}
	return string(r)
}

func unlatin(s string) string {
	var b []byte
	for _, r := range s {
		b = append(b, byte(r))
	}
	return string(b)
}

var soupChars = []string{"a", "b", "0", "1", "9", "e", "n", "x", "u", "_", "$", "\\", "'", "\"", "`", "${", "}", "{", "(", ")", "[", "]", ".", "..", "...", ",", ";", ":", "?", "=", "=>", "+", "-", "*", "/", "//", "/*", "*/", "%", "&", "|", "^", "<", ">", "!", "~", "@", "#", "&amp;", "&#", "\n", "\r", "\r\n", " ", "\t", "\u2028", "\u00a0", "\ufeff", "é", "世", "😀", "\x80", "\xff", "\xe2\x80", "\x00", "<!--", "-->", "#!", "\\u", "\\u{", "\\x", "0x", "0b", "0o", "in", "of", "if", "let", "</", "/>"}

var tsToks = []string{"type", "interface", "enum", "namespace", "module", "declare", "abstract", "readonly", "public", "private", "protected", "override", "keyof", "typeof", "infer", "is", "asserts", "unique", "symbol", "any", "string", "number", "void", "never", "unknown", "implements", "extends", "as", "satisfies", "!", "?:", "-?", "-readonly", "<T>", "<", ">", ">>", "<a,b>", ":a", ":", "|", "&", "=>", "@d", "@d()", "global", "require", "import type", "export type", "export=", "import a=", "{[a in b]:c}", "[a:b]", "[...a]", "this", "new", "static", "get", "set", "accessor", "constructor", "</a>", "<a>", "<>", "</>", "{", "}", "(a:b)=>c"}

func genAny(t *pbt.T) *AnyText {
	o := parser.NewParserOpts()
	f := o.Feature
	if t.P(2, 5) {
		f = f.Off(parser.FEAT_MODULE | parser.FEAT_STRICT | parser.FEAT_GLOBAL_ASYNC)
	}
	f = f.Turn(parser.FEAT_JSX, t.P(1, 2))
	ts := t.P(1, 2)
	f = f.Turn(parser.FEAT_TS, ts)
	if ts && t.P(1, 6) {
		f = f.On(parser.FEAT_DTS)
	}
	if t.P(1, 4) {
		f = f.On(parser.FEAT_JSX_NS)
	}
	if t.P(1, 3) {
		f = f.On(parser.FEAT_CHK_REGEXP_FLAGS)
	}
	for t.P(1, 4) { // switch any feature
		f ^= 1 << uint(1+t.Intn(40))
	}
	in := &AnyText{Feat: uint64(f)}
	var s string
	switch t.Weighted(2, 3, 6) {
	case 0:
		var b strings.Builder
		for n := 1 + t.Geo(1, 12); n > 0; n-- {
			b.WriteString(pbt.Pick(t, soupChars...))
		}
		s = b.String()
	case 1:
		var b strings.Builder
		for n := 1 + t.Geo(1, 10); n > 0; n-- {
			if ts && t.Bool() {
				b.WriteString(pbt.Pick(t, tsToks...))
			} else {
				b.WriteString(pbt.Pick(t, mutToks...))
			}
			if t.P(3, 4) {
				b.WriteByte(' ')
			}
		}
		s = b.String()
	case 2:
		g := jsgen.New(t, jsgen.Opts{Module: f&parser.FEAT_MODULE != 0, TS: ts && t.P(2, 3), JSX: f&parser.FEAT_JSX != 0 && t.P(2, 3), Wild: []int{0, 3, 12}[t.Intn(3)]}, budget(t))
		g.Program()
		for n := t.Geo(2, 3); n > 0 && len(g.Out) > 0; n-- {
			i := t.Intn(len(g.Out))
			tok := pbt.Pick(t, mutToks...)
			if ts && t.Bool() {
				tok = pbt.Pick(t, tsToks...)
			}
			switch t.Intn(5) {
			case 0:
				g.Out = append(append([]jsgen.Tok{}, g.Out[:i]...), g.Out[i+1:]...)
			case 1:
				g.Out = append(append(append([]jsgen.Tok{}, g.Out[:i]...), g.Out[i]), g.Out[i:]...)
			case 2:
				g.Out = append(append(append([]jsgen.Tok{}, g.Out[:i]...), jsgen.Tok{S: tok}), g.Out[i:]...)
			case 3:
				g.Out[i].S = tok
			case 4:
				g.Out = g.Out[:i]
			}
		}
		s = jsgen.Render(t, g.Out, jsgen.Style{Mode: t.Weighted(3, 1, 1)})
		for n := t.Geo(1, 3); n > 0 && len(s) > 0; n-- {
			i := t.Intn(len(s))
			switch t.Intn(3) {
			case 0:
				s = s[:i] + s[i+1:]
			case 1:
				s = s[:i] + pbt.Pick(t, soupChars...) + s[i:]
			case 2:
				s = s[:i]
			}
		}
	}
	in.Text = latin(s)
	return in
}

var errPos = regexp.MustCompile(`\((\d+):(\d+)\)$`)

// lines splits s at the terminators the reader counts.
func linesOf(s string) []string {
	s = strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\r", "\n")
	return strings.Split(s, "\n")
}

func checkBounds(v any, n int, path string) string {
	switch v := v.(type) {
	case map[string]any:
		if _, ok := v["type"].(string); ok {
			s, ok1 := v["start"].(float64)
			e, ok2 := v["end"].(float64)
			if ok1 && ok2 && (s < 0 || e < s || int(e) > n) {
				return path + " of type " + v["type"].(string) + " has the range " + strconv.Itoa(int(s)) + "-" + strconv.Itoa(int(e)) + " in a text of " + strconv.Itoa(n) + " bytes"
			}
		}
		for k, c := range v {
			if m := checkBounds(c, n, path+"/"+k); m != "" {
				return m
			}
		}
	case []any:
		for i, c := range v {
			if m := checkBounds(c, n, path+"/"+strconv.Itoa(i)); m != "" {
				return m
			}
		}
	}
	return ""
}

func init() {
	core.Def(core.Prop{ID: "P01", Quick: 4000000, Thorough: 30000000,
		Rule: "the text has at least 4 bytes"},
		genAny,
		func(in *AnyText) core.Outcome {
			text := unlatin(in.Text)
			o := parser.NewParserOpts()
			o.Feature = parser.Feature(in.Feat)
			p := parser.NewParser(span.NewSource("", text), o)
			n, err := p.Prog()
			out := core.Outcome{Trivial: len(text) < 4}
			if err != nil {
				out.Labels = append(out.Labels, "rejected")
				m := errPos.FindStringSubmatch(err.Error())
				if m == nil {
					return core.Failf("the error %q has no position", err.Error())
				}
				l, _ := strconv.Atoi(m[1])
				c, _ := strconv.Atoi(m[2])
				ls := linesOf(text)
				if l < 1 || l > len(ls) || c > utf8.RuneCountInString(ls[l-1]) {
					return core.Failf("the error %q is positioned outside of the text", err.Error())
				}
				return out
			}
			out.Labels = append(out.Labels, "accepted")
			prog := n.(*parser.Prog)
			j, e := json.Marshal(estree.ConvertProg(prog, estree.NewConvertCtx(p)))
			if e != nil {
				return core.Failf("the tree cannot be serialised: %v", e)
			}
			var v any
			json.Unmarshal(j, &v)
			if m := checkBounds(v, len(text), ""); m != "" {
				return core.Failf("%s", m)
			}
			walk.VisitNode(prog, "", walk.NewWalkCtx(prog, p.Symtab()).VisitorCtx())
			_ = astutil.IsFnDepsOnNode
			return out
		})
}
