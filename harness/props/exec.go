package props

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	"github.com/hsiaosiyuan0/mole/ecma/astutil"
	"github.com/hsiaosiyuan0/mole/ecma/exec"
	"github.com/hsiaosiyuan0/mole/ecma/parser"

	"molecheck/core"
	"molecheck/pbt"
)

// ---- expressions over variables, P14 ----

// An expression is written twice: for mole, and for V8 with member accesses
// that do not throw.
type dual struct{ m, j string }

func (d dual) paren() dual { return dual{"(" + d.m + ")", "(" + d.j + ")"} }

type Expr struct {
	Code string         `json:"code"`
	JS   string         `json:"js"`
	Vars map[string]any `json:"vars"`
	Ints bool           `json:"ints,omitempty"` // whole numbers are passed as int
	Next map[string]any `json:"next,omitempty"` // evaluate again with these
}

type xgen struct {
	t     *pbt.T
	vars  map[string]any
	depth int
	calls int  // number of f(n) written so far
	call  bool // whether f(n) may be written
}

var strPool = []string{"", "a", "b", "0", "1", "12", " 7 ", "0x10", "1e3", ".5", "5.", "-3", "+4", "abc", "Infinity", "-Infinity", "inf", "nan", "NaN", "1_0", "0b11", "0o17", "00", "01", "true", "null", "production", "1n", "0x", "\u00a02\ufeff", "1e400", "- 1", "é", "-0x1", "1e", "Infinit"}
var numPool = []string{"0", "1", "2", "3", "7", "10", "0.5", "2.5", "0.1", "0.2", "100", "1e21", "1e-7", "123456789", "1e300", "0x1f", "0o17", "0b101", ".5", "5.", "1e3", "4294967296", "9007199254740993", "1_000", "0.000001", "123456789012345680000"}

func genVars(t *pbt.T) map[string]any {
	prim := func() any {
		switch t.Intn(6) {
		case 0:
			return t.Bool()
		case 1:
			return strPool[t.Intn(len(strPool))]
		case 2:
			return nil
		default:
			return []any{0.0, 1.0, 2.0, 3.0, 0.5, -1.0, 12.0, 1e21, 1e-7, -0.25}[t.Intn(10)]
		}
	}
	arr := func() any {
		r := []any{}
		for n := t.Intn(4); n > 0; n-- {
			v := prim()
			for v == nil {
				v = prim()
			}
			r = append(r, v)
		}
		return r
	}
	v := map[string]any{}
	for i, n := range []string{"n", "s", "b", "arr", "obj", "nil", "deep"} {
		for k := 0; k < 2; k++ {
			name := n + strconv.Itoa(k)
			switch i {
			case 0:
				v[name] = []any{0.0, 1.0, 2.0, 3.0, 0.5, -1.0, 12.0, 1e21, 1e-7, -0.25}[t.Intn(10)]
			case 1:
				v[name] = strPool[t.Intn(len(strPool))]
			case 2:
				v[name] = t.Bool()
			case 3:
				v[name] = arr()
			case 4:
				o := map[string]any{}
				for _, key := range []string{"a", "b", "0", "1", "true"} {
					if t.Bool() {
						o[key] = prim()
					}
				}
				v[name] = o
			case 5:
				v[name] = nil
			case 6:
				v[name] = map[string]any{"o": map[string]any{"a": prim(), "b": prim(), "arr": arr()}, "arr": arr(), "s": strPool[t.Intn(len(strPool))]}
			}
		}
	}
	return v
}

func lit(s string) dual { return dual{s, s} }
func jsStr(s string) string {
	var b strings.Builder
	b.WriteByte('\'')
	for _, r := range s {
		switch r {
		case '\'', '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case '\n':
			b.WriteString("\\n")
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('\'')
	return b.String()
}

func (g *xgen) v(kind string) dual { return lit(kind + strconv.Itoa(g.t.Intn(2))) }

func (g *xgen) bin(op string, a, b dual) dual {
	sp := ""
	if g.t.P(1, 3) || op == "+" || op == "-" {
		sp = " "
	}
	return dual{a.m + sp + op + sp + b.m, a.j + sp + op + sp + b.j}.paren()
}

func (g *xgen) mem(o dual, key string, k dual) dual {
	if key != "" {
		return dual{o.m + "." + key, o.j + "?." + key}
	}
	return dual{o.m + "[" + k.m + "]", o.j + "?.[" + k.j + "]"}
}

// a value that is not null, undefined or an object
func (g *xgen) prim(d int) dual {
	switch g.t.Intn(3) {
	case 0:
		return g.num(d)
	case 1:
		return g.str(d)
	}
	return g.boolean(d)
}

func (g *xgen) num(d int) dual {
	t := g.t
	if d <= 0 || t.P(1, 4) {
		if t.P(1, 3) {
			return g.v("n")
		}
		return lit(numPool[t.Intn(len(numPool))])
	}
	d--
	switch t.Intn(7) {
	case 0:
		return g.bin("-", g.prim(d), g.prim(d))
	case 1:
		return g.bin("*", g.prim(d), g.prim(d))
	case 2:
		return g.bin("/", g.prim(d), g.prim(d))
	case 3:
		return g.bin("+", g.num(d), g.nb(d))
	case 4:
		return g.bin("+", g.nb(d), g.num(d))
	case 5:
		x := g.prim(d)
		return dual{"-" + x.m, "-" + x.j}.paren()
	default:
		x := g.prim(d)
		return dual{"+" + x.m, "+" + x.j}.paren()
	}
}

func (g *xgen) nb(d int) dual {
	if g.t.Bool() {
		return g.num(d)
	}
	return g.boolean(d)
}

func (g *xgen) str(d int) dual {
	t := g.t
	if d <= 0 || t.P(1, 3) {
		if t.P(1, 3) {
			return g.v("s")
		}
		return lit(jsStr(strPool[t.Intn(len(strPool))]))
	}
	d--
	if t.Bool() {
		return g.bin("+", g.str(d), g.prim(d))
	}
	return g.bin("+", g.prim(d), g.str(d))
}

func (g *xgen) arr(d int) dual {
	t := g.t
	if d <= 0 || t.P(1, 3) {
		if t.P(1, 4) {
			return g.mem(g.v("deep"), "arr", dual{})
		}
		return g.v("arr")
	}
	d--
	var m, j []string
	for n := t.Intn(4); n > 0; n-- {
		x := g.prim(d)
		m, j = append(m, x.m), append(j, x.j)
	}
	return dual{"[" + strings.Join(m, ",") + "]", "[" + strings.Join(j, ",") + "]"}
}

func (g *xgen) boolean(d int) dual {
	t := g.t
	if d <= 0 || t.P(1, 5) {
		return pbt.Pick(t, lit("true"), lit("false"), g.v("b"))
	}
	d--
	eq := pbt.Pick(t, "==", "!=")
	seq := pbt.Pick(t, "===", "!==")
	switch t.Intn(8) {
	case 0, 1:
		x := g.any(d)
		return dual{"!" + x.m, "!" + x.j}
	case 2:
		return g.bin(eq, g.anyPrim(d), g.anyPrim(d))
	case 3:
		return g.bin(seq, g.anyPrim(d), g.prim(d))
	case 4:
		return g.bin(seq, g.prim(d), g.anyPrim(d))
	case 5:
		op := pbt.Pick(t, eq, seq)
		return g.bin(op, g.object(d), g.object(d))
	case 6:
		return g.bin(eq, g.object(d), pbt.Pick(t, lit("null"), lit("undefined"), lit("zz")))
	}
	a, x := g.arr(d), g.prim(d)
	f := g.mem(a, "includes", dual{})
	if t.P(1, 4) {
		f = g.mem(a, "", lit("'includes'"))
	}
	return dual{f.m + "(" + x.m + ")", f.j + "(" + x.j + ")"}
}

func (g *xgen) object(d int) dual {
	if g.t.Bool() {
		return g.arr(d)
	}
	return pbt.Pick(g.t, g.v("obj"), g.mem(g.v("deep"), "o", dual{}), g.mem(g.v("deep"), "", lit("'o'")))
}

// a primitive or null or undefined
func (g *xgen) anyPrim(d int) dual {
	t := g.t
	if d <= 0 || t.P(1, 6) {
		return pbt.Pick(t, g.prim(0), lit("null"), lit("undefined"), lit("zz"), g.v("nil"))
	}
	d--
	switch t.Intn(6) {
	case 0:
		return g.bin("&&", g.anyPrim(d), g.anyPrim(d))
	case 1:
		return g.bin("||", g.anyPrim(d), g.anyPrim(d))
	case 2:
		return g.prim(d)
	case 3: // element
		a := g.arr(d)
		if t.P(1, 8) {
			a = dual{"[1,,'x',]", "[1,,'x',]"}
		}
		return g.mem(a, "", g.prim(d))
	case 4:
		o := pbt.Pick(t, g.v("obj"), g.v("obj"), g.v("nil"), g.mem(g.v("deep"), "o", dual{}))
		if o.m[0] == 'd' {
			return pbt.Pick(t, g.mem(o, "a", dual{}), g.mem(o, "", lit("'b'")))
		}
		if t.Bool() {
			return g.mem(o, pbt.Pick(t, "a", "b"), dual{})
		}
		return g.mem(o, "", g.prim(d))
	}
	if g.call && g.t.P(2, 3) {
		return g.f(d)
	}
	return g.prim(d)
}

func (g *xgen) f(d int) dual {
	g.calls++
	n := strconv.Itoa(g.calls)
	r := dual{"f(" + n, "f(" + n}
	if g.t.P(1, 4) {
		x := g.anyPrim(d)
		r.m, r.j = r.m+","+x.m, r.j+","+x.j
	}
	return dual{r.m + ")", r.j + ")"}
}

func (g *xgen) any(d int) dual {
	if g.t.P(1, 4) {
		return g.object(d)
	}
	return g.anyPrim(d)
}

func genExpr(t *pbt.T) *Expr {
	g := &xgen{t: t, vars: genVars(t)}
	x := g.any(1 + t.Intn(4))
	if strings.HasPrefix(x.m, "{") {
		x = x.paren()
	}
	e := &Expr{Code: x.m, JS: x.j, Vars: g.vars, Ints: t.P(1, 3)}
	if t.P(1, 4) {
		e.Next = genVars(t)
	}
	return e
}

// own copies a value so that each array has an identity (Go's empty slices
// share one), and turns whole numbers into ints on request.
func own(v any, ints bool) any {
	switch x := v.(type) {
	case float64:
		if ints && x == math.Trunc(x) && math.Abs(x) < 1e15 {
			return int(x)
		}
	case []any:
		r := make([]any, len(x), len(x)+1)
		for i := range x {
			r[i] = own(x[i], ints)
		}
		return r
	case map[string]any:
		r := map[string]any{}
		for k := range x {
			r[k] = own(x[k], ints)
		}
		return r
	}
	return v
}

// canon writes a value so that equal values are written alike.
func canon(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return fmt.Sprint(x)
	case string:
		return strconv.Quote(x)
	case int:
		return canon(float64(x))
	case float64:
		if math.IsNaN(x) {
			return "NaN"
		}
		if x == 0 && math.Signbit(x) {
			return "-0"
		}
		return strconv.FormatFloat(x, 'g', -1, 64)
	case []any:
		var s []string
		for _, e := range x {
			s = append(s, canon(e))
		}
		return "[" + strings.Join(s, ",") + "]"
	case map[string]any:
		var s []string
		for k, e := range x {
			s = append(s, strconv.Quote(k)+":"+canon(e))
		}
		sort.Strings(s)
		return "{" + strings.Join(s, ",") + "}"
	}
	return fmt.Sprintf("?%T", v)
}

// undo decodes the values of server.js: numbers come as strings.
func undo(v any) any {
	switch x := v.(type) {
	case []any:
		for i := range x {
			x[i] = undo(x[i])
		}
	case map[string]any:
		if n, ok := x["$n"].(string); ok {
			if n == "NaN" {
				return math.NaN()
			}
			f, _ := strconv.ParseFloat(n, 64)
			return f
		}
		for k := range x {
			x[k] = undo(x[k])
		}
	}
	return v
}

func checkExpr(in *Expr) core.Outcome {
	p, prog, err := parse(in.Code, Cfg{})
	if err != nil {
		return core.Failf("REJECT %v", err)
	}
	ee := exec.NewExprEvaluator(prog, p)
	run := func(vars map[string]any, what string) core.Outcome {
		var r struct {
			V   any    `json:"v"`
			Err string `json:"err"`
		}
		call(M{"op": "run", "js": in.JS, "vars": vars}, &r)
		if r.Err != "" {
			return core.Skip("throws")
		}
		vars = own(vars, in.Ints).(map[string]any)
		before := canon(vars)
		got, err := ee.Exec(vars).GetResult()
		if err != nil {
			return core.Failf("ERROR %sevaluation fails: %v", what, err)
		}
		if g, w := canon(got), canon(undo(r.V)); g != w {
			return core.Failf("VALUE %sis %s, evaluated to %s", what, w, g)
		}
		if canon(vars) != before {
			return core.Failf("VARS %sthe variables are changed", what)
		}
		return core.Outcome{Trivial: !strings.ContainsAny(in.Code, "+-*/=!&|[.")}
	}
	o := run(in.Vars, "")
	if in.Next != nil && o.Fail == "" && !o.Discard {
		o = run(in.Next, "second time ")
	}
	return o
}

// ---- nodes in true branches, P15 ----

type bgen struct {
	*xgen
	b    strings.Builder
	j    strings.Builder
	fuel int
}

func (g *bgen) w(m string) { g.b.WriteString(m); g.j.WriteString(m) }
func (g *bgen) wd(d dual)  { g.b.WriteString(d.m); g.j.WriteString(d.j) }
func (g *bgen) test() dual { return g.any(g.t.Intn(3)) }
func (g *bgen) leaf()      { g.calls++; g.w("f(" + strconv.Itoa(g.calls) + ")") }
func (g *bgen) block(n int) {
	for ; n > 0; n-- {
		g.stmt()
	}
}

func (g *bgen) expr() {
	t := g.t
	g.fuel--
	if g.fuel <= 0 {
		g.leaf()
		return
	}
	switch t.Intn(14) {
	case 0, 1:
		g.leaf()
	case 2, 3:
		g.w("(")
		g.wd(g.test())
		for i := t.Intn(6) - 2; i > 0; i-- {
			// an operand of a chain without parentheses
			g.w(pbt.Pick(t, "&&", "||"))
			g.wd(g.test())
		}
		g.w(pbt.Pick(t, "&&", "||"))
		g.expr()
		g.w(")")
	case 4, 5:
		g.w("(")
		g.wd(g.test())
		g.w("?")
		g.expr()
		g.w(":")
		g.expr()
		g.w(")")
	case 6:
		g.w("[")
		g.expr()
		g.w(",")
		g.expr()
		g.w("]")
	case 7:
		g.calls++
		g.w("f(" + strconv.Itoa(g.calls) + ",")
		g.expr()
		g.w(")")
	case 8:
		g.w("(")
		g.expr()
		g.w(pbt.Pick(t, "+", "===", "*", "<", ","))
		g.expr()
		g.w(")")
	case 9:
		g.w("!")
		g.expr()
	case 10:
		g.w("({k:")
		g.expr()
		g.w("})")
	case 11:
		g.w("`${")
		g.expr()
		g.w("}`")
	case 12:
		g.w(pbt.Pick(t, "(()=>{", "(function(){"))
		g.block(1 + t.Intn(2))
		g.w("})()")
	default:
		g.w("(w=")
		g.expr()
		g.w(")")
	}
}

func (g *bgen) stmt() {
	t := g.t
	g.fuel--
	if g.fuel <= 0 {
		g.leaf()
		g.w(";")
		return
	}
	switch t.Intn(8) {
	case 0, 1, 2:
		g.w("if(")
		g.wd(g.test())
		g.w(")")
		g.stmt1()
		if t.Bool() {
			g.w("else ")
			g.stmt1()
		}
	case 3:
		g.w("{")
		g.block(t.Intn(3))
		g.w("}")
	case 4:
		g.w("var w=")
		g.expr()
		g.w(";")
	default:
		g.w(";")
		g.expr()
		g.w(";")
	}
}

func (g *bgen) stmt1() {
	if g.t.P(1, 2) {
		g.w("{")
		g.block(g.t.Intn(3))
		g.w("}")
		return
	}
	if g.t.P(1, 2) && g.fuel > 0 {
		g.w("if(")
		g.wd(g.test())
		g.w("){")
		g.block(g.t.Intn(2))
		g.w("}else ")
		g.stmt1()
		return
	}
	g.expr1()
}

// an expression statement
func (g *bgen) expr1() {
	g.w("w=")
	g.expr()
	g.w(";")
}

func genBranch(t *pbt.T) *Expr {
	g := &bgen{xgen: &xgen{t: t, vars: genVars(t), call: true}, fuel: 3 + t.Intn(25)}
	g.block(1 + t.Intn(3))
	return &Expr{Code: g.b.String(), JS: g.j.String(), Vars: g.vars, Ints: t.P(1, 3)}
}

func checkBranch(in *Expr) core.Outcome {
	p, prog, err := parse(in.Code, Cfg{})
	if err != nil {
		return core.Failf("REJECT %v", err)
	}
	var r struct {
		Trace []int  `json:"trace"`
		Err   string `json:"err"`
	}
	call(M{"op": "run", "js": in.JS, "vars": in.Vars, "stmts": true}, &r)
	if r.Err != "" {
		return core.Skip("throws")
	}
	nodes := astutil.CollectNodesInTrueBranches(prog, []parser.NodeType{parser.N_EXPR_CALL}, own(in.Vars, in.Ints).(map[string]any), p)
	got := []int{}
	for _, n := range nodes {
		c := n.(*parser.CallExpr)
		if id, ok := c.Callee().(*parser.Ident); ok && id.Val() == "f" {
			k, _ := strconv.Atoi(in.Code[c.Args()[0].Range().Lo:c.Args()[0].Range().Hi])
			got = append(got, k)
		}
	}
	sort.Ints(got)
	sort.Ints(r.Trace)
	if fmt.Sprint(got) != fmt.Sprint(r.Trace) {
		return core.Failf("BRANCH the calls that run are %v, those collected %v", r.Trace, got)
	}
	all := strings.Count(in.Code, "f(")
	return core.Outcome{Trivial: len(got) == 0 || len(got) == all}
}

var _ = json.Marshal

func init() {
	core.Def(core.Prop{ID: "P14", Quick: 800000, Thorough: 8000000,
		Rule: "the expression has at least one operator, access or call"}, genExpr, checkExpr)
	core.Def(core.Prop{ID: "P15", Quick: 500000, Thorough: 5000000,
		Rule: "some but not all of the program's calls run"}, genBranch, checkBranch)
}
