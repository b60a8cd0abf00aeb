package props

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/hsiaosiyuan0/mole/ecma/astutil"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/ecma/walk"

	"molecheck/core"
	"molecheck/pbt"
)

// dgen writes modules whose functions use the names of top-level declarations,
// some of them shadowed on the way.
type dgen struct {
	t     *pbt.T
	b     strings.Builder
	names []string
	fuel  int
	nest  int
	fresh int
}

func (g *dgen) w(s ...string) {
	for _, x := range s {
		g.b.WriteString(x)
	}
}

func (g *dgen) name() string { return g.names[g.t.Intn(len(g.names))] }

// a use of a name, or something that only looks like one
func (g *dgen) use() {
	t, n := g.t, g.name()
	switch t.Intn(12) {
	case 0:
		g.w("o.", n)
	case 1:
		g.w("({", n, ":1})")
	case 2:
		g.w("({", n, "})")
	case 3:
		g.w("({", n, "(){}})")
	case 4:
		g.w("o[", n, "]")
	case 5:
		g.w("({[", n, "]:1})")
	case 6:
		g.w("`${", n, "}`")
	case 7:
		g.w("(", n, "++)")
	case 8:
		g.w("class{", n, "=1}")
	default:
		g.w(n, "()")
	}
}

func (g *dgen) expr() {
	t := g.t
	g.fuel--
	if g.fuel <= 0 {
		g.use()
		return
	}
	switch t.Intn(9) {
	case 0, 1:
		g.fn()
	case 2:
		g.w("[")
		g.expr()
		g.w(",")
		g.expr()
		g.w("]")
	case 3:
		g.w("o(")
		g.expr()
		g.w(")")
	case 4:
		g.w("({k:")
		g.expr()
		g.w("})")
	default:
		g.use()
	}
}

func (g *dgen) params() map[string]bool {
	ps := map[string]bool{}
	g.w("(")
	for n := g.t.Geo(1, 3); n > 0; n-- {
		p := g.name()
		if g.t.P(3, 4) {
			g.fresh++
			p = "p" + strconv.Itoa(g.fresh)
		}
		if ps[p] {
			continue
		}
		ps[p] = true
		if len(ps) > 1 {
			g.w(",")
		}
		switch g.t.Intn(4) {
		case 0:
			g.w("{k:", p, "}")
		case 1:
			g.w("[", p, "]")
		default:
			g.w(p)
		}
	}
	g.w(")")
	return ps
}

// a function as an expression
func (g *dgen) fn() {
	g.nest++
	defer func() { g.nest-- }()
	switch g.t.Intn(6) {
	case 0:
		g.w("(function")
		g.body(g.params())
		g.w(")")
	case 1:
		g.w("(function ", g.name())
		g.body(g.params())
		g.w(")")
	case 2:
		g.w("({m")
		g.body(g.params())
		g.w("})")
	case 3:
		g.w("(class{m")
		g.body(g.params())
		g.w("})")
	case 4:
		g.w("(")
		ps := g.params()
		g.w("=>")
		g.body(ps)
		g.w(")")
	default:
		g.w("(")
		g.params()
		g.w("=>")
		g.expr()
		g.w(")")
	}
}

func (g *dgen) body(taken map[string]bool) {
	g.w("{")
	g.stmts(taken, g.t.Intn(4))
	g.w("}")
}

func (g *dgen) stmts(taken map[string]bool, n int) {
	for ; n > 0; n-- {
		g.stmt(taken)
	}
}

func (g *dgen) stmt(taken map[string]bool) {
	t := g.t
	switch t.Intn(9) {
	case 0: // shadow
		n := g.name()
		if taken[n] || g.nest == 0 {
			g.w("1;")
			return
		}
		taken[n] = true
		switch t.Intn(4) {
		case 0:
			g.w("let ", n, "=")
			g.expr()
			g.w(";")
		case 1:
			g.w("function ", n)
			g.nest++
			g.body(g.params())
			g.nest--
		case 2:
			g.w("let{k:", n, "}=o;")
		default:
			g.w("const ", n, "=1;")
		}
	case 1:
		g.w("{")
		g.nest++
		g.stmts(map[string]bool{}, t.Intn(3))
		g.nest--
		g.w("}")
	case 2:
		g.w("if(")
		g.expr()
		g.w("){")
		g.nest++
		g.stmts(map[string]bool{}, t.Intn(3))
		g.nest--
		g.w("}")
	case 3:
		n := g.name()
		g.w(n, ":for(;;){break ", n, "}")
	default:
		g.w("void ")
		g.expr()
		g.w(";")
	}
}

func genDeps(t *pbt.T) *Prog {
	g := &dgen{t: t, names: []string{"t0", "t1", "t2", "t3", "t4", "t5"}[:2+t.Intn(5)], fuel: 4 + t.Intn(25)}
	decls := append([]string{}, g.names...)
	for len(decls) > 0 {
		n := decls[0]
		if t.P(1, 4) {
			g.stmt(map[string]bool{})
			continue
		}
		decls = decls[1:]
		switch t.Intn(9) {
		case 0:
			g.w("import ", pbt.Pick(t, n, "{"+n+"}", "{x as "+n+"}", "*as "+n), " from'm';")
		case 1, 2, 3:
			g.w("function ", n)
			g.nest++
			g.body(g.params())
			g.nest--
		case 4, 5:
			g.w(pbt.Pick(t, "const ", "let ", "var "), n, "=")
			g.fn()
			g.w(";")
		case 6:
			g.w("let ", n, ";")
		case 7:
			g.w("class ", n, "{m")
			g.nest++
			g.body(g.params())
			g.nest--
			g.w("}")
		default:
			g.w("const{k:", n, "}=o;")
		}
	}
	g.stmts(map[string]bool{}, t.Intn(3))
	return &Prog{Cfg{Module: true}, g.b.String()}
}

func checkDeps(in *Prog) core.Outcome {
	var r struct {
		OK   bool                `json:"ok"`
		Deps map[uint32][]uint32 `json:"deps"`
	}
	call(M{"op": "deps", "ranges": true, "code": in.Code, "module": true}, &r)
	if !r.OK {
		return core.Skip("invalid")
	}
	p, prog, err := parse(in.Code, in.Cfg)
	if err != nil {
		return core.Failf("REJECT %v", err)
	}
	graph := astutil.BuildFnDepGraph(prog, p.Symtab())
	top := prog.Body()
	seen := map[uint32]bool{}
	fail, pos := "", 0
	wc := walk.NewWalkCtx(prog, p.Symtab())
	visit := &walk.Listener{Id: "d", Handle: func(n parser.Node, key string, c *walk.VisitorCtx) {
		if fail != "" {
			return
		}
		at := n.Range().Lo
		want, ok := r.Deps[at]
		if !ok || seen[at] {
			fail = fmt.Sprintf("FN no function starts at %d", at)
			return
		}
		seen[at] = true
		got := []uint32{}
		for _, d := range top {
			if astutil.IsFnDepsOnNode(graph, n, d) {
				got = append(got, d.Range().Lo)
			}
		}
		sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
		sort.Slice(want, func(i, j int) bool { return want[i] < want[j] })
		pos += len(want)
		if fmt.Sprint(got) != fmt.Sprint(want) {
			fail = fmt.Sprintf("DEPS the function at %d depends on the declarations at %v, reported %v", at, want, got)
		}
	}}
	for _, k := range []parser.NodeType{parser.N_STMT_FN, parser.N_EXPR_FN, parser.N_EXPR_ARROW} {
		walk.AddNodeBeforeListener(&wc.Listeners, k, visit)
	}
	walk.VisitNode(prog, "", wc.VisitorCtx())
	if fail == "" && len(seen) != len(r.Deps) {
		fail = fmt.Sprintf("FN %d functions, %d visited", len(r.Deps), len(seen))
	}
	return core.Outcome{Fail: fail, Trivial: pos == 0}
}

func init() {
	core.Def(core.Prop{ID: "P16", Quick: 300000, Thorough: 3000000,
		Rule: "some function depends on a top-level declaration"}, genDeps, checkDeps)
}
