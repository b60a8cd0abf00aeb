package props

import (
	"fmt"
	"strings"

	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/ecma/walk"

	"molecheck/core"
	"molecheck/pbt"
)

// sgen writes programs in which few names are declared over and over again in
// nested scopes of all kinds.
type sgen struct {
	t    *pbt.T
	b    strings.Builder
	fuel int
	lex  []map[string]bool // names taken in the enclosing blocks
	vars []map[string]bool // names the vars of the current function go past
	mod  bool
	fn   int
	loop int
	priv int
}

var pool = []string{"a", "b", "c", "d", "e"}

func (g *sgen) w(s ...string) {
	for _, x := range s {
		g.b.WriteString(x)
	}
}

func (g *sgen) name() string { return pool[g.t.Intn(len(pool))] }

func (g *sgen) push() { g.lex = append(g.lex, map[string]bool{}) }
func (g *sgen) pop()  { g.lex = g.lex[:len(g.lex)-1] }

// a name that can be declared here, or ""
func (g *sgen) fresh(kind string) string {
	for i := 0; i < 4; i++ {
		n := g.name()
		if kind == "var" {
			ok := true
			for j := len(g.lex) - 1; j >= 0; j-- {
				if g.lex[j] == nil { // function boundary
					break
				}
				if g.lex[j][n] {
					ok = false
				}
			}
			if ok {
				for j := len(g.lex) - 1; j >= 0 && g.lex[j] != nil; j-- {
					g.lex[j]["var "+n] = true
				}
				return n
			}
			continue
		}
		top := g.lex[len(g.lex)-1]
		if !top[n] && !top["var "+n] {
			top[n] = true
			return n
		}
	}
	return ""
}

func (g *sgen) pat(kind string, depth int) bool {
	switch g.t.Weighted(6, 2, 2) {
	case 1:
		if depth < 2 {
			g.w("[")
			n := g.t.Intn(3)
			for i := 0; i < n; i++ {
				g.elem(kind, depth+1)
				g.w(",")
			}
			if g.t.P(1, 4) {
				g.w("...")
				g.one(kind)
			}
			g.w("]")
			return true
		}
	case 2:
		if depth < 2 {
			g.w("{")
			n := g.t.Intn(3)
			for i := 0; i < n; i++ {
				switch g.t.Intn(3) {
				case 0:
					if x := g.fresh(kind); x != "" {
						g.w(x)
						if g.t.P(1, 3) {
							g.w("=")
							g.expr(1)
						}
						g.w(",")
					}
				case 1:
					g.w(g.name(), ":")
					g.elem(kind, depth+1)
					g.w(",")
				case 2:
					g.w("[")
					g.expr(1)
					g.w("]:")
					g.elem(kind, depth+1)
					g.w(",")
				}
			}
			if g.t.P(1, 5) {
				if x := g.fresh(kind); x != "" {
					g.w("...", x)
				}
			}
			g.w("}")
			return true
		}
	}
	g.one(kind)
	return false
}

func (g *sgen) one(kind string) {
	if x := g.fresh(kind); x != "" {
		g.w(x)
	} else {
		g.w("{}")
	}
}

func (g *sgen) elem(kind string, depth int) {
	g.pat(kind, depth)
	if g.t.P(1, 4) {
		g.w("=")
		g.expr(1)
	}
}

func (g *sgen) params() {
	n := g.t.Intn(4)
	for i := 0; i < n; i++ {
		g.elem("let", 0)
		g.w(",")
	}
	if g.t.P(1, 6) {
		g.w("...")
		g.pat("let", 1)
	}
}

// function parameters and body
func (g *sgen) fnRest(arrow bool) {
	g.lex = append(g.lex, nil)
	g.push()
	loop := g.loop
	g.loop = 0
	g.fn++
	g.w("(")
	g.params()
	g.w(")")
	if arrow {
		g.w("=>")
		if g.t.Bool() {
			g.w("(")
			g.expr(2)
			g.w(")")
			g.endFn(loop)
			return
		}
	}
	g.w("{")
	// var may repeat a parameter, let may not
	g.stmts(g.t.Intn(4))
	g.w("}")
	g.endFn(loop)
}

func (g *sgen) endFn(loop int) {
	g.fn--
	g.loop = loop
	g.pop()
	g.pop()
}

func (g *sgen) class(kind string) {
	g.w("class ")
	if kind != "" {
		x := g.fresh(kind)
		if x == "" {
			x = "k" + fmt.Sprint(g.t.Intn(100))
		}
		g.w(x, " ")
	} else if g.t.Bool() {
		g.w(g.name(), " ")
	}
	if g.t.P(1, 3) {
		g.w("extends (")
		g.expr(1)
		g.w(")")
	}
	g.w("{")
	n := g.t.Intn(4)
	ctor := false
	for i := 0; i < n; i++ {
		static := g.t.P(1, 4)
		if static {
			g.w("static ")
		}
		switch g.t.Intn(6) {
		case 0:
			switch g.t.Intn(5) {
			case 0, 1:
				if !static && !ctor {
					ctor = true
					g.w("constructor")
				} else {
					g.w(g.name())
				}
			case 2:
				g.w([]string{"async ", "*", "async*", "#"}[g.t.Intn(4)])
				g.priv++
				g.w("m", fmt.Sprint(g.priv))
			default:
				g.w(g.name())
			}
			g.fnRest(false)
		case 1:
			g.w("[")
			g.expr(1)
			g.w("]")
			g.fnRest(false)
		case 2, 3:
			if g.t.P(1, 3) {
				g.w("[")
				g.expr(1)
				g.w("]")
			} else {
				g.w(g.name())
			}
			if g.t.P(3, 4) {
				g.w("=")
				g.lex = append(g.lex, nil)
				g.push()
				g.expr(2)
				g.pop()
				g.pop()
			}
			g.w(";")
		case 4:
			g.w("set ", g.name(), "(")
			g.lex = append(g.lex, nil)
			g.push()
			g.pat("let", 0)
			g.w("){")
			l := g.loop
			g.loop = 0
			g.fn++
			g.stmts(g.t.Intn(2))
			g.fn--
			g.loop = l
			g.w("}")
			g.pop()
			g.pop()
		case 5:
			g.w("p(){};static {")
			g.lex = append(g.lex, nil)
			g.push()
			l, f := g.loop, g.fn
			g.loop, g.fn = 0, 0
			g.stmts(g.t.Intn(3))
			g.loop, g.fn = l, f
			g.pop()
			g.pop()
			g.w("}")
		}
	}
	g.w("}")
}

// d bounds the depth of nesting
func (g *sgen) expr(d int) {
	g.fuel--
	if g.fuel < 0 || d > 4 {
		g.w(g.name())
		return
	}
	switch g.t.Weighted(12, 3, 3, 4, 1, 2, 2, 2, 1, 2, 2, 1, 1, 1, 1) {
	case 0:
		g.w(g.name())
	case 1:
		g.w("(", g.name(), []string{"=", "+=", "||="}[g.t.Intn(3)])
		g.expr(d + 1)
		g.w(")")
	case 2:
		g.w([]string{"(function", "(function*", "(async function"}[g.t.Weighted(4, 1, 1)], " ")
		if g.t.Bool() {
			g.w(g.name())
		}
		g.fnRest(false)
		g.w(")")
	case 3:
		g.w("(")
		switch g.t.Intn(6) {
		case 0:
			g.w("async ")
		case 1:
			g.w(g.name(), "=>")
			g.lex = append(g.lex, nil)
			g.push()
			if g.t.Bool() {
				g.w("(")
				g.expr(d + 1)
				g.w(")")
			} else {
				g.w("{")
				l := g.loop
				g.loop = 0
				g.fn++
				g.push()
				g.stmts(g.t.Intn(2))
				g.pop()
				g.fn--
				g.loop = l
				g.w("}")
			}
			g.pop()
			g.pop()
			g.w(")")
			return
		}
		g.fnRest(true)
		g.w(")")
	case 4:
		g.w("(")
		g.class("")
		g.w(")")
	case 5:
		g.w("({")
		n := g.t.Intn(4)
		for i := 0; i < n; i++ {
			switch g.t.Intn(5) {
			case 0:
				g.w(g.name())
			case 1:
				g.w(g.name(), ":")
				g.expr(d + 1)
			case 2:
				g.w("[")
				g.expr(d + 1)
				g.w("]:")
				g.expr(d + 1)
			case 3:
				g.w([]string{"", "", "", "*", "async ", "async *"}[g.t.Intn(6)])
				g.w(g.name())
				g.fnRest(false)
			case 4:
				g.w("...", g.name())
			}
			g.w(",")
		}
		g.w("})")
	case 6:
		g.w("[")
		g.expr(d + 1)
		g.w(",")
		g.expr(d + 1)
		g.w("]")
	case 7:
		g.expr(d + 1)
		g.w("(")
		if g.t.Bool() {
			g.expr(d + 1)
		}
		g.w(")")
	case 8:
		g.w("async(")
		g.expr(d + 1)
		g.w(",", g.name(), ")")
	case 9:
		g.expr(d + 1)
		g.w(".", g.name())
	case 10:
		g.w("(")
		g.expr(d + 1)
		g.w([]string{"+", ",", "&&", "?a:"}[g.t.Intn(4)])
		g.expr(d + 1)
		g.w(")")
	case 11:
		g.w("`x${")
		g.expr(d + 1)
		g.w("}`")
	case 12:
		g.w("([", g.name(), ",{", g.name(), ":", g.name(), "=")
		g.expr(d + 1)
		g.w("}]=")
		g.expr(d + 1)
		g.w(")")
	case 13:
		g.w("({", g.name(), "=")
		g.expr(d + 1)
		g.w(",...", g.name(), "}=", g.name(), ")")
	case 14:
		g.w("typeof ")
		g.expr(d + 1)
	}
}

func (g *sgen) stmts(n int) {
	for i := 0; i < n; i++ {
		g.stmt()
	}
}

func (g *sgen) block(n int) {
	g.w("{")
	g.push()
	g.stmts(n)
	g.pop()
	g.w("}")
}

func (g *sgen) decl(top bool) {
	kind := []string{"var", "let", "const"}[g.t.Intn(3)]
	g.w(kind, " ")
	n := 1 + g.t.Intn(2)
	for i := 0; i < n; i++ {
		if i > 0 {
			g.w(",")
		}
		p := g.declPat(kind)
		if p || kind == "const" || g.t.Bool() {
			g.w("=")
			g.expr(1)
		}
	}
}

func (g *sgen) declPat(kind string) bool {
	l := g.b.Len()
	p := g.pat(kind, 0)
	return p || strings.HasSuffix(g.b.String()[l:], "}")
}

func (g *sgen) sub() {
	if g.t.P(2, 3) {
		g.block(g.t.Intn(3))
	} else {
		g.expr(1)
		g.w(";")
	}
}

func (g *sgen) stmt() {
	g.fuel--
	if g.fuel < 0 {
		g.w(g.name(), ";")
		return
	}
	switch g.t.Weighted(6, 6, 3, 4, 2, 2, 1, 3, 3, 2, 3, 2, 1, 1, 1) {
	case 0:
		g.decl(false)
		g.w(";")
	case 1:
		g.w(";")
		g.expr(0)
		g.w(";")
	case 2:
		if x := g.fresh("let"); x != "" {
			g.w([]string{"function ", "function* ", "async function "}[g.t.Weighted(4, 1, 1)], x)
			g.fnRest(false)
		}
	case 3:
		g.block(g.t.Intn(4))
	case 4:
		g.w("if(")
		g.expr(1)
		g.w(")")
		g.sub()
		if g.t.Bool() {
			g.w("else ")
			g.sub()
		}
	case 5:
		g.w("while(")
		g.expr(1)
		g.w(")")
		g.sub()
	case 6:
		g.w("do{")
		g.push()
		g.stmts(g.t.Intn(3))
		g.pop()
		g.w("}while(")
		g.expr(1)
		g.w(");")
	case 7:
		g.w("for(")
		g.push()
		switch g.t.Intn(3) {
		case 0:
			g.decl(false)
		case 1:
			g.expr(1)
		}
		g.w(";")
		if g.t.Bool() {
			g.expr(1)
		}
		g.w(";")
		if g.t.Bool() {
			g.expr(1)
		}
		g.w(")")
		g.sub()
		g.pop()
	case 8:
		g.w("for(")
		g.push()
		if g.t.P(1, 4) {
			g.w(g.name())
		} else {
			k := []string{"var", "let", "const"}[g.t.Intn(3)]
			g.w(k, " ")
			g.pat(k, 0)
		}
		g.w([]string{" of ", " in "}[g.t.Intn(2)])
		g.expr(1)
		g.w(")")
		g.sub()
		g.pop()
	case 9:
		g.w("switch(")
		g.expr(1)
		g.w("){")
		g.push()
		n := g.t.Intn(3)
		for i := 0; i < n; i++ {
			g.w("case ")
			g.expr(1)
			g.w(":")
			g.stmts(g.t.Intn(3))
		}
		if g.t.Bool() {
			g.w("default:")
			g.stmts(g.t.Intn(2))
		}
		g.pop()
		g.w("}")
	case 10:
		g.w("try")
		g.block(g.t.Intn(3))
		c := g.t.Weighted(4, 1, 2)
		if c < 2 {
			g.w("catch")
			g.push()
			if c == 0 {
				g.w("(")
				g.pat("let", 0)
				g.w(")")
			}
			g.w("{")
			g.stmts(g.t.Intn(3))
			g.w("}")
			g.pop()
		}
		if c == 2 || g.t.P(1, 3) {
			g.w("finally")
			g.block(g.t.Intn(2))
		}
	case 11:
		g.class("let")
	case 12:
		g.w("L", fmt.Sprint(g.fuel), ":")
		g.block(g.t.Intn(3))
	case 13:
		if g.fn > 0 {
			g.w("return ")
		} else {
			g.w("throw ")
		}
		g.expr(1)
		g.w(";")
	case 14:
		if g.mod && len(g.lex) == 1 {
			switch g.t.Intn(4) {
			case 0:
				if x := g.fresh("let"); x != "" {
					g.w("import ", x, " from 'm';")
				}
			case 1:
				if x := g.fresh("let"); x != "" {
					g.w("import {", g.name(), " as ", x, "} from 'm';")
				}
			case 2:
				if x := g.fresh("let"); x != "" {
					g.w("import * as ", x, " from 'm';")
				}
			case 3:
				if x := g.fresh("let"); x != "" {
					g.w("export const ", x, "=")
					g.expr(1)
					g.w(";")
				}
			}
		}
	}
}

func genScopes(t *pbt.T) *Prog {
	g := &sgen{t: t, fuel: []int{6, 15, 40, 100}[t.Weighted(2, 4, 3, 1)], mod: t.Bool()}
	g.push()
	g.stmts(1 + t.Intn(4))
	return &Prog{Cfg{Module: g.mod}, g.b.String()}
}

type scopeRef struct {
	At   [2]uint32 `json:"at"`
	Name string    `json:"name"`
	Decl []uint32  `json:"decl"`
}

func checkScopes(in *Prog) core.Outcome {
	p, prog, err := parse(in.Code, in.Cfg)
	if err != nil {
		return core.Skip("rejected")
	}
	var r struct {
		OK   bool       `json:"ok"`
		Refs []scopeRef `json:"refs"`
	}
	call(M{"op": "scope", "ranges": true, "code": in.Code, "module": in.Module}, &r)
	if !r.OK {
		return core.Skip("invalid")
	}
	want := map[[2]uint32]scopeRef{}
	for _, f := range r.Refs {
		want[f.At] = f
	}
	fail := ""
	resolved := 0
	wc := walk.NewWalkCtx(prog, p.Symtab())
	walk.AddNodeBeforeListener(&wc.Listeners, parser.N_NAME, &walk.Listener{Id: "r", Handle: func(n parser.Node, key string, c *walk.VisitorCtx) {
		rg := n.Range()
		f, ok := want[[2]uint32{rg.Lo, rg.Hi}]
		if !ok || fail != "" {
			return
		}
		sc := c.Scope()
		if sc == nil {
			fail = fmt.Sprintf("SCOPE no scope %d at %s", c.ScopeId(), nodeStr(n, in.Code))
			return
		}
		b := sc.BindingOf(f.Name)
		if b == nil || b.Id == nil {
			if f.Decl != nil {
				fail = fmt.Sprintf("UNBOUND %s at %d is declared at %v, but no binding is found", f.Name, rg.Lo, f.Decl)
			}
			return
		}
		at := b.Id.Range().Lo
		if f.Decl == nil {
			fail = fmt.Sprintf("GLOBAL %s at %d is not declared, but bound to %d", f.Name, rg.Lo, at)
			return
		}
		resolved++
		for _, d := range f.Decl {
			if d == at {
				return
			}
		}
		fail = fmt.Sprintf("BOUND %s at %d is declared at %v, but bound to %d", f.Name, rg.Lo, f.Decl, at)
	}})
	walk.VisitNode(prog, "", wc.VisitorCtx())
	if fail != "" {
		return core.Outcome{Fail: fail}
	}
	return core.Outcome{Trivial: resolved == 0}
}

func init() {
	core.Def(core.Prop{ID: "P11", Quick: 400000, Thorough: 3000000,
		Rule: "at least one reference of the program resolves to a declaration"}, genScopes, checkScopes)
}
