package props

import (
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"github.com/hsiaosiyuan0/mole/ecma/estree"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/ecma/walk"
	"github.com/hsiaosiyuan0/mole/span"

	"molecheck/core"
	"molecheck/jsgen"
	"molecheck/pbt"
)

// Batch is a number of texts to be parsed, converted and walked.
type Batch struct {
	Texts []AnyText `json:"texts"`
}

// digest is everything a user sees of one text.
func digest(in *AnyText) (s string) {
	var b strings.Builder
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprintf("panic %v", r)
		}
	}()
	o := parser.NewParserOpts()
	o.Feature = parser.Feature(in.Feat)
	p := parser.NewParser(span.NewSource("", unlatin(in.Text)), o)
	n, err := p.Prog()
	if err != nil {
		return "error " + err.Error()
	}
	prog := n.(*parser.Prog)
	cc := estree.NewConvertCtx(p)
	cc.LineCol = len(in.Text) < 100 // slow on long texts
	j, err := json.Marshal(estree.ConvertProg(prog, cc))
	fmt.Fprintf(&b, "%s %v\n", j, err)
	ctx := walk.NewWalkCtx(prog, p.Symtab())
	walk.AddNodeBeforeListener(&ctx.Listeners, parser.N_NAME, &walk.Listener{Id: "x", Handle: func(node parser.Node, key string, ctx *walk.VisitorCtx) {
		bd := ctx.WalkCtx.Scope().BindingOf(node.(*parser.Ident).Val())
		fmt.Fprintf(&b, "%v %v %d %v;", node.Range(), key, ctx.ScopeId(), bd != nil)
	}})
	walk.VisitNode(prog, "", ctx.VisitorCtx())
	return b.String()
}

// genNovel writes a program of names, literals and entities nothing else has, what is
// remembered of them across texts is not there yet.
func genNovel(t *pbt.T) *AnyText {
	c := Cfg{Module: t.Bool(), JSX: t.P(1, 2)}
	letter := func() string {
		for {
			// in scripts of many letters
			r := rune(pbt.Pick(t, 0xc0, 0x400, 0x5d0, 0x3041, 0x4e00, 0x5000, 0x6000, 0x7000, 0x8000, 0xac00, 0xc000, 0x10000, 0x20000) + t.Intn(0x1000))
			if unicode.IsLetter(r) {
				return string(r)
			}
		}
	}
	ch := func() rune {
		for {
			if r := rune(0x20 + t.Intn(0x3000)); r != '\\' && r != '"' && r != '`' && r != '$' && r != '{' && r != '<' && r != '&' && r != '/' && r != '[' && r != '(' && r != ')' && r != '*' && r != '+' && r != '?' && r != '>' && r != '}' {
				return r
			}
		}
	}
	var b strings.Builder
	for i := 1 + t.Intn(5); i > 0; i-- {
		id := letter()
		for k := t.Intn(3); k > 0; k-- {
			id += letter()
		}
		b.WriteString("var " + id + "=")
		switch t.Intn(9) {
		case 0:
			b.WriteString(strconv.Itoa(t.Intn(1 << 30)))
		case 1:
			fmt.Fprintf(&b, "%d.%de%d", t.Intn(1<<20), t.Intn(1<<20), t.Intn(300))
		case 2:
			fmt.Fprintf(&b, "%dn", t.Intn(1<<30))
		case 3:
			fmt.Fprintf(&b, "\"%c%c\\u{%x}\"", ch(), ch(), t.Intn(0x10000))
		case 4:
			fmt.Fprintf(&b, "/%c%c\\u%04x/%s", letter0(letter()), letter0(letter()), t.Intn(0x10000), pbt.Pick(t, "", "g", "i", "gi", "s"))
		case 5:
			fmt.Fprintf(&b, "`%c%c${%s}\\x%02x`", ch(), ch(), id, t.Intn(256))
		case 6:
			fmt.Fprintf(&b, "\\u{%x}", letter0(letter()))
		default:
			if c.JSX {
				fmt.Fprintf(&b, "<%s %s=\"&#%d;\">&#x%x;%s</%s>", id, id, 0x100+t.Intn(0x3000), 0x100+t.Intn(0x3000), pbt.Pick(t, "&lt;", "&eacute;", "&nbsp;", "&euro;", "&Alpha;"), id)
			} else {
				b.WriteString("{" + letter() + ":" + id + "}")
			}
		}
		b.WriteString(";\n")
	}
	return &AnyText{uint64(c.opts().Feature), latin(b.String())}
}

func letter0(s string) rune { return []rune(s)[0] }

func init() {
	core.Def(core.Prop{ID: "P21", Quick: 10000, Thorough: 80000,
		Rule: "at least two of the texts are accepted"},
		func(t *pbt.T) *Batch {
			b := &Batch{}
			for n := 2 + t.Intn(6); n > 0; n-- {
				if t.P(1, 3) {
					b.Texts = append(b.Texts, *genAny(t))
					continue
				}
				if t.P(1, 3) {
					b.Texts = append(b.Texts, *genNovel(t))
					continue
				}
				c := Cfg{Module: t.Bool(), JSX: t.P(1, 3)}
				g := jsgen.New(t, jsgen.Opts{Module: c.Module, JSX: c.JSX}, budget(t))
				g.Program()
				b.Texts = append(b.Texts, AnyText{uint64(c.opts().Feature), latin(jsgen.Render(t, g.Out, jsgen.Style{NoLS: true}))})
			}
			return b
		},
		func(in *Batch) core.Outcome {
			// the concurrent run comes first, before anything of these texts is known to the process
			got := make([][3]string, len(in.Texts))
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i := range in.Texts {
				for k := 0; k < 3; k++ {
					wg.Add(1)
					go func(i, k int) {
						defer wg.Done()
						<-start
						got[i][k] = digest(&in.Texts[i])
					}(i, k)
				}
			}
			close(start)
			wg.Wait()
			want := make([]string, len(in.Texts))
			ok := 0
			for i := range in.Texts {
				want[i] = digest(&in.Texts[i])
				if !strings.HasPrefix(want[i], "error") {
					ok++
				}
			}
			for i := len(in.Texts) - 1; i >= 0; i-- {
				if g := digest(&in.Texts[i]); g != want[i] {
					return core.Failf("a second run on text %d differs:\n%s\n%s", i, want[i], g)
				}
			}
			for i := range got {
				for k := range got[i] {
					if got[i][k] != want[i] {
						return core.Failf("a concurrent run on text %d differs:\n%s\n%s", i, want[i], got[i][k])
					}
				}
			}
			return core.Outcome{Trivial: ok < 2}
		})
}
