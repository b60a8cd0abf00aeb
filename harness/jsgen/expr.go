package jsgen

import "molecheck/pbt"

// expr is Expression (with comma).
func (g *G) expr() {
	g.assign()
	if g.T.P(1, 14) {
		g.label("seq")
		n := 1 + g.T.Geo(1, 2)
		for i := 0; i < n; i++ {
			g.e(",")
			g.assign()
		}
	}
}

func (g *G) leaf() { g.primary(true) }

// assign is AssignmentExpression.
func (g *G) assign() {
	t := g.T
	if !g.spend() || g.depth > 24 {
		g.leaf()
		return
	}
	g.depth++
	defer func() { g.depth-- }()
	jw := 3
	if g.O.JSX {
		jw = 25
	}
	switch t.Weighted(50, 14, 8, 10, 3, jw) {
	case 0:
		g.cond()
	case 1:
		g.assignment()
	case 2:
		g.cond()
	case 3:
		g.arrow()
	case 4:
		if g.c.gen && !g.c.noYield || g.wild() {
			g.label("yield")
			g.e("yield")
			switch t.Intn(3) {
			case 0:
				g.nonl("*")
				g.assign()
			case 1:
				n := len(g.Out)
				g.assign()
				g.Out[n].NoNL = true
			default:
				// bare yield must be followed by something that cannot start an expression
				g.Out = g.Out[:len(g.Out)-1]
				g.e("(", "yield", ")")
			}
			return
		}
		g.cond()
	case 5:
		if g.O.JSX {
			g.jsxElem(3)
			return
		}
		g.cond()
	}
}

func (g *G) assignment() {
	t := g.T
	g.label("assign")
	switch t.Weighted(5, 4, 3) {
	case 0:
		g.simpleTarget()
		g.e("=")
		g.assign()
	case 1:
		g.simpleTarget()
		g.e(pbt.Pick(t, "+=", "-=", "*=", "/=", "%=", "**=", "<<=", ">>=", ">>>=", "&=", "|=", "^=", "&&=", "||=", "??="))
		g.assign()
	case 2:
		g.label("destructAssign")
		// object patterns at statement start get parenthesised by the caller
		g.in(func() { g.assignPattern(2) })
		g.e("=")
		g.assign()
	}
}

func (g *G) simpleTarget() {
	t := g.T
	if g.wild() {
		g.lhs(false)
		return
	}
	switch t.Weighted(6, 3, 2, 1) {
	case 0:
		n := g.ref()
		if g.strict && (n == "eval" || n == "arguments") {
			n = "x"
		}
		g.e(n)
	case 1, 2:
		g.memberTarget()
	case 3:
		n := len(g.Out)
		if t.Bool() {
			g.memberTarget()
		} else {
			r := g.ref()
			if g.strict && (r == "eval" || r == "arguments") {
				r = "x"
			}
			g.e(r)
		}
		g.paren(n)
	}
}

func (g *G) memberTarget() {
	t := g.T
	if g.Budget <= 0 {
		g.e("a", ".", "b")
		return
	}
	g.in(func() { g.lhsBase(true) })
	if t.Bool() {
		g.e(".", g.propName())
	} else {
		g.e("[")
		g.in(g.expr)
		g.e("]")
	}
}

func (g *G) assignElem(d int) {
	t := g.T
	if d > 0 && t.P(1, 4) {
		g.assignPattern(d - 1)
	} else {
		g.simpleTarget()
	}
}

func (g *G) assignPattern(d int) {
	t := g.T
	if t.Bool() {
		g.e("[")
		n := t.Geo(2, 4)
		for i := 0; i < n; i++ {
			if t.P(1, 6) {
				g.e(",")
				continue
			}
			g.assignElem(d)
			if t.P(1, 4) {
				g.e("=")
				g.assign()
			}
			if i < n-1 || t.P(1, 5) {
				g.e(",")
			}
		}
		if t.P(1, 5) {
			if n > 0 && g.Out[len(g.Out)-1].S != "," && g.Out[len(g.Out)-1].S != "[" {
				g.e(",")
			}
			g.e("...")
			g.assignElem(d)
		}
		g.e("]")
		return
	}
	g.e("{")
	n := t.Geo(2, 4)
	for i := 0; i < n; i++ {
		switch t.Intn(3) {
		case 0:
			r := g.ref()
			if g.strict && (r == "eval" || r == "arguments") {
				r = "x"
			}
			g.e(r)
			if t.P(1, 4) {
				g.e("=")
				g.assign()
			}
		default:
			g.propKey(false)
			g.e(":")
			g.assignElem(d)
			if t.P(1, 4) {
				g.e("=")
				g.assign()
			}
		}
		if i < n-1 || t.P(1, 5) {
			g.e(",")
		}
	}
	if t.P(1, 6) {
		if n > 0 && g.Out[len(g.Out)-1].S != "," {
			g.e(",")
		}
		g.e("...")
		g.simpleTarget()
	}
	g.e("}")
}

// bindPattern emits a binding pattern or identifier.
func (g *G) bindTarget(d int, lexical bool) {
	t := g.T
	if d <= 0 || !t.P(1, 4) {
		g.e(g.bind(lexical))
		return
	}
	g.bindPattern(d, lexical)
}

func (g *G) bindPattern(d int, lexical bool) {
	t := g.T
	g.label("bindPattern")
	if t.Bool() {
		g.e("[")
		n := t.Geo(2, 4)
		for i := 0; i < n; i++ {
			if t.P(1, 6) {
				g.e(",")
				continue
			}
			g.bindTarget(d-1, lexical)
			g.optInit()
			if i < n-1 || t.P(1, 5) {
				g.e(",")
			}
		}
		if t.P(1, 5) {
			if l := g.Out[len(g.Out)-1].S; l != "," && l != "[" {
				g.e(",")
			}
			g.e("...")
			g.bindTarget(d-1, lexical)
		}
		g.e("]")
		return
	}
	g.e("{")
	n := t.Geo(2, 4)
	for i := 0; i < n; i++ {
		if t.Bool() {
			g.e(g.bind(lexical))
			g.optInit()
		} else {
			g.propKey(false)
			g.e(":")
			g.bindTarget(d-1, lexical)
			g.optInit()
		}
		if i < n-1 || t.P(1, 5) {
			g.e(",")
		}
	}
	if t.P(1, 6) {
		if l := g.Out[len(g.Out)-1].S; l != "," && l != "{" {
			g.e(",")
		}
		g.e("...", g.bind(lexical))
	}
	g.e("}")
}

func (g *G) optInit() {
	if g.T.P(1, 4) {
		g.e("=")
		g.in(g.assign)
	}
}

// propKey emits a property key; returns a class of it.
func (g *G) propKey(allowComputedAwait bool) string {
	t := g.T
	switch t.Weighted(8, 3, 3, 3) {
	case 0:
		n := g.propName()
		g.e(n)
		return n
	case 1:
		s := g.Str()
		g.e(s)
		return s
	case 2:
		g.e(g.Num())
		return "num"
	}
	g.e("[")
	g.in(g.assign)
	g.e("]")
	return "computed"
}

func (g *G) arrow() {
	t := g.T
	g.label("arrow")
	async := t.P(1, 3)
	c := g.c
	c.fn = true
	c.loop, c.brk, c.labels, c.loopLabels = false, false, nil, nil
	c.gen = false
	c.async = async
	c.inAsync = c.inAsync || g.c.async || async
	c.inGen = c.inGen || g.c.gen
	c.noIn = false
	c.noAwait, c.noYield = false, false
	c.staticBlk = false
	if g.c.gen {
		// `yield` stays reserved in arrow parameters within generators; avoid
		c.gen = false
	}
	single := t.P(1, 3)
	blockBody := t.P(2, 5)
	useStrict := blockBody && !g.strict && t.P(1, 12)
	if async {
		g.e("async")
	}
	if single {
		n := g.arrowParamName()
		if async {
			if n == "await" || n == "of" {
				n = "x"
			}
			g.nonl(n)
		} else {
			g.e(n)
		}
	} else {
		pc := c
		pc.noAwait, pc.noYield = true, true
		pc.gen = false
		if !async {
			pc.async = g.c.async
		}
		i := len(g.Out)
		g.withCtx(pc, func() { g.params(useStrict, false) })
		if async {
			g.Out[i].NoNL = true
		}
	}
	g.nonl("=>")
	if blockBody {
		c.noYield = false
		g.withCtx(c, func() { g.fnBody(useStrict) })
	} else {
		i := len(g.Out)
		c.noIn = g.c.noIn
		g.withCtx(c, g.assign)
		if g.Out[i].S == "{" {
			g.paren(i)
		}
	}
}

func (g *G) arrowParamName() string {
	n := g.bind(false)
	if n == "await" && g.c.async {
		n = "x"
	}
	if n == "yield" && g.c.gen {
		n = "x"
	}
	return n
}

// params emits "(" FormalParameters ")".
func (g *G) params(simple bool, ctor bool) {
	t := g.T
	g.e("(")
	n := t.Geo(1, 4)
	for i := 0; i < n; i++ {
		if g.O.Deco && t.P(1, 20) {
			g.decorator()
		}
		if simple {
			g.e(g.bindParam())
		} else {
			if t.P(1, 5) {
				g.bindPattern(2, true)
				if g.O.TS {
					g.typAnnOpt()
				}
			} else {
				g.e(g.bindParam())
				if g.O.TS {
					if t.P(1, 8) {
						g.e("?")
					}
					g.typAnnOpt()
				}
			}
			if g.O.TS && g.Out[len(g.Out)-1].S == "?" {
				// optional parameters have no initialiser
			} else {
				g.optInit()
			}
		}
		if i < n-1 || t.P(1, 8) {
			g.e(",")
		}
	}
	if !simple && t.P(1, 7) {
		if l := g.Out[len(g.Out)-1].S; l != "," && l != "(" {
			g.e(",")
		}
		g.e("...")
		g.bindTarget(1, true)
		if g.O.TS {
			g.typAnnOpt()
		}
	}
	g.e(")")
}

func (g *G) bindParam() string {
	if g.T.P(1, 20) && !g.strict {
		return pbt.Pick(g.T, "a", "b")
	}
	return g.bind(true)
}

func (g *G) fnBody(useStrict bool) {
	g.e("{")
	old := g.strict
	if useStrict {
		g.e(pbt.Pick(g.T, "'use strict'", "\"use strict\""), ";")
		g.strict = true
	} else if g.T.P(1, 25) {
		g.e(pbt.Pick(g.T, "'use asm'", "\"x\"", "'a\\n'"), ";")
	}
	ot := g.top
	g.top = false
	g.block(func() { g.stmts(3) })
	g.top = ot
	g.strict = old
	g.e("}")
}

// function emits the part after the name: params and body.
func (g *G) function(async, gen bool, method, ctor, derived bool, nparams int) {
	c := fnCtx{fn: true, async: async, gen: gen, tgt: true, superProp: method, superCall: ctor && derived,
		inAsync: g.c.inAsync || async || g.c.async, inGen: g.c.inGen || gen || g.c.gen}
	useStrict := !g.strict && g.T.P(1, 12)
	pc := c
	pc.noAwait, pc.noYield = true, true
	if g.O.TS {
		g.typParamsOpt()
	}
	g.withCtx(pc, func() {
		switch nparams {
		case 0:
			g.e("(", ")")
		case 1:
			g.e("(")
			if useStrict {
				g.e(g.bindParam())
			} else {
				g.bindTarget(1, true)
				if g.O.TS {
					g.typAnnOpt()
				}
				g.optInit()
			}
			g.e(")")
		default:
			g.params(useStrict, ctor)
		}
	})
	if g.O.TS && !ctor && g.T.P(1, 3) && nparams != 1 {
		g.retTyp()
	}
	g.withCtx(c, func() { g.fnBody(useStrict) })
}

func (g *G) fnExpr() {
	t := g.T
	g.label("fnExpr")
	async, gen := t.P(1, 4), t.P(1, 4)
	if async {
		g.e("async")
		g.nonl("function")
	} else {
		g.e("function")
	}
	if gen {
		g.e("*")
	}
	if t.Bool() {
		n := g.bind(false)
		// known finding: `private` as the name of a function made strict by its directive
		if n == "await" && async || n == "yield" && gen || n == "private" {
			n = "f"
		}
		g.e(n)
	}
	g.function(async, gen, false, false, false, -1)
}

var binOps = []struct {
	op   string
	prec int
}{
	{"||", 1}, {"&&", 2}, {"|", 3}, {"^", 4}, {"&", 5},
	{"==", 6}, {"!=", 6}, {"===", 6}, {"!==", 6},
	{"<", 7}, {">", 7}, {"<=", 7}, {">=", 7}, {"instanceof", 7}, {"in", 7},
	{"<<", 8}, {">>", 8}, {">>>", 8},
	{"+", 9}, {"-", 9}, {"*", 10}, {"/", 10}, {"%", 10},
}

func (g *G) cond() {
	t := g.T
	g.binary()
	if t.P(1, 12) && g.Budget > 0 {
		g.label("cond")
		g.e("?")
		g.in(g.assign)
		g.e(":")
		g.assign()
	}
}

func (g *G) binary() {
	t := g.T
	if !g.spend() || !t.P(2, 5) {
		g.unaryOrPow()
		return
	}
	g.label("binary")
	n := 1 + t.Geo(1, 4)
	if t.P(1, 7) { // a `??` chain cannot be mixed with || and &&
		g.label("nullish")
		g.binTail(false)
		for i := 0; i < n; i++ {
			g.e("??")
			g.binTail(false)
		}
		return
	}
	g.unaryOrPow()
	for i := 0; i < n; i++ {
		o := binOps[t.Intn(len(binOps))].op
		if o == "in" && g.c.noIn && !g.wild() {
			o = "<"
		}
		g.e(o)
		g.unaryOrPow()
	}
}

// binTail is an operand of `??`: an expression without || and && at the top.
func (g *G) binTail(_ bool) {
	t := g.T
	g.unaryOrPow()
	if t.P(1, 4) {
		o := binOps[2+t.Intn(len(binOps)-2)].op
		if o == "in" && g.c.noIn {
			o = "<"
		}
		g.e(o)
		g.unaryOrPow()
	}
}

func (g *G) unaryOrPow() {
	t := g.T
	if t.P(1, 14) && g.Budget > 0 {
		g.label("pow")
		g.update()
		g.e("**")
		g.unaryOrPow()
		return
	}
	g.unary()
}

func (g *G) unary() {
	t := g.T
	if g.Budget <= 0 || !t.P(1, 5) {
		g.update()
		return
	}
	g.spend()
	switch t.Weighted(8, 3, 2, 2) {
	case 0:
		g.label("unary")
		op := pbt.Pick(t, "+", "-", "!", "~", "typeof", "void", "delete")
		g.e(op)
		i := len(g.Out)
		g.unary()
		if op == "delete" && !g.wild() {
			// `delete identifier` (strict) and `delete o.#p` are errors
			if len(g.Out)-i == 1 && g.strict {
				g.Out[i].S = "0"
				g.e("[", "0", "]")
				g.Out[i].S = "x"
			} else {
				for j := i; j < len(g.Out); j++ {
					if len(g.Out[j].S) > 0 && g.Out[j].S[0] == '#' {
						g.Out[i-1].S = "void"
					}
				}
				if g.Out[i].S == "(" && g.strict {
					g.Out[i-1].S = "void"
				}
			}
		}
	case 1:
		if g.c.async && !g.c.noAwait || g.wild() {
			g.label("await")
			g.e("await")
			g.unary()
			return
		}
		g.update()
	case 2:
		g.update()
	case 3:
		g.label("update")
		g.e(pbt.Pick(t, "++", "--"))
		i := len(g.Out)
		g.simpleTarget()
		if g.Out[i].S[0] == '/' {
			g.Out[i].S = "x"
		}
	}
}

func (g *G) update() {
	t := g.T
	if g.Budget > 0 && t.P(1, 16) {
		g.label("update")
		g.simpleTarget()
		g.nonl(pbt.Pick(t, "++", "--"))
		return
	}
	g.lhs(false)
}

// lhs is LeftHandSideExpression: calls, members, optional chains, new, tagged templates.
func (g *G) lhs(noCall bool) {
	t := g.T
	g.lhsBase(noCall)
	n := 0
	if g.Budget > 0 {
		n = t.Geo(1, 4) * t.Intn(2)
	}
	chain := false
	for i := 0; i < n; i++ {
		if !noCall && t.P(1, 6) {
			chain = true
			g.label("optChain")
			switch t.Intn(3) {
			case 0:
				g.e("?.", g.propName())
			case 1:
				g.e("?.", "[")
				g.in(g.expr)
				g.e("]")
			case 2:
				g.e("?.")
				g.args()
			}
			continue
		}
		switch t.Weighted(5, 3, 4, 1, 1) {
		case 0:
			g.e(".", g.propName())
		case 1:
			g.e("[")
			g.in(g.expr)
			g.e("]")
		case 2:
			if !noCall {
				g.args()
			} else {
				g.e(".", "q")
			}
		case 3:
			if !chain && !noCall || g.wild() {
				g.label("tagged")
				g.template(true)
			}
		case 4:
			if len(g.priv) > 0 && len(g.priv[len(g.priv)-1]) > 0 {
				ps := g.priv[len(g.priv)-1]
				g.label("privMember")
				g.e(pbt.Pick(t, ".", "."), "#"+ps[t.Intn(len(ps))])
			} else if g.wild() {
				g.e(".", "#nope")
			}
		}
	}
}

func (g *G) args() {
	t := g.T
	if len(g.Out) > 0 && g.Out[len(g.Out)-1].S == "async" {
		// known finding: await in the arguments of a call to `async`
		oa, oy := g.c.noAwait, g.c.noYield
		g.c.noAwait, g.c.noYield = true, true
		defer func() { g.c.noAwait, g.c.noYield = oa, oy }()
	}
	g.label("call")
	g.e("(")
	n := t.Geo(1, 4)
	for i := 0; i < n; i++ {
		if t.P(1, 8) {
			g.e("...")
		}
		g.in(g.assign)
		if i < n-1 || t.P(1, 8) {
			g.e(",")
		}
	}
	g.e(")")
}

// lhsBase never ends in something that a following `.`/`[`/`(` would bind wrongly to.
func (g *G) lhsBase(noCall bool) {
	t := g.T
	if g.Budget <= 0 {
		g.primary(true)
		return
	}
	switch t.Weighted(30, 3, 2, 1, 2) {
	case 0:
		i := len(g.Out)
		g.primary(false)
		if noCall && g.Out[i].S == "import" {
			g.paren(i)
		}
	case 1:
		g.spend()
		g.label("new")
		g.e("new")
		i := len(g.Out)
		g.lhs(true)
		for j := i; j < len(g.Out); j++ {
			if g.Out[j].S == "?." || g.Out[j].S == "import" || g.Out[j].S[0] == '`' {
				g.paren(i)
				break
			}
		}
		if t.P(3, 4) || noCall {
			g.args()
		}
	case 2:
		if g.c.superProp || g.wild() {
			g.label("superProp")
			g.e("super")
			if t.Bool() {
				g.e(".", g.propName())
			} else {
				g.e("[")
				g.in(g.expr)
				g.e("]")
			}
			return
		}
		g.primary(false)
	case 3:
		if (g.c.superCall || g.wild()) && !noCall {
			g.label("superCall")
			g.e("super")
			g.args()
			return
		}
		g.primary(false)
	case 4:
		if noCall {
			g.primary(false)
			return
		}
		g.label("importCall")
		g.e("import", "(")
		g.in(g.assign)
		g.e(")")
	}
}

func (g *G) primary(leaf bool) {
	t := g.T
	if leaf || g.Budget <= 0 {
		switch t.Weighted(10, 5, 4, 2, 1, 1, 1) {
		case 0:
			g.e(g.ref())
		case 1:
			g.e(g.Num())
		case 2:
			g.e(g.Str())
		case 3:
			g.e(pbt.Pick(t, "this", "null", "true", "false"))
		case 4:
			g.e(g.Regex())
		case 5:
			g.e("[", "]")
		case 6:
			g.e("`" + g.tplChunk(false) + "`")
		}
		return
	}
	g.spend()
	switch t.Weighted(20, 8, 8, 4, 3, 5, 7, 5, 4, 5, 3, 2, 2, 3) {
	case 0:
		g.e(g.ref())
	case 1:
		g.e(g.Num())
	case 2:
		g.e(g.Str())
	case 3:
		g.e(pbt.Pick(t, "this", "null", "true", "false"))
	case 4:
		g.e(g.Regex())
	case 5:
		g.array()
	case 6:
		g.object()
	case 7:
		g.fnExpr()
	case 8:
		g.class(false)
	case 9:
		g.e("(")
		g.in(g.expr)
		g.e(")")
	case 10:
		g.template(false)
	case 11:
		if g.c.tgt || g.wild() {
			g.label("newTarget")
			g.e("new", ".", "target")
			return
		}
		g.e(g.ref())
	case 12:
		if g.O.Module || g.wild() {
			g.label("importMeta")
			g.e("import", ".", "meta")
			return
		}
		g.e(g.ref())
	case 13:
		if g.O.JSX {
			g.e("(")
			g.jsxElem(3)
			g.e(")")
			return
		}
		g.e(g.ref())
	}
}

func (g *G) array() {
	t := g.T
	g.label("array")
	g.e("[")
	n := t.Geo(2, 5)
	for i := 0; i < n; i++ {
		switch t.Weighted(10, 1, 1) {
		case 1:
			g.e(",")
			continue
		case 2:
			g.e("...")
		}
		g.in(g.assign)
		if i < n-1 || t.P(1, 6) {
			g.e(",")
		}
	}
	g.e("]")
}

func (g *G) object() {
	t := g.T
	g.label("object")
	g.e("{")
	n := t.Geo(2, 5)
	proto := false
	for i := 0; i < n; i++ {
		switch t.Weighted(8, 5, 3, 3, 2, 1) {
		case 0:
			j := len(g.Out)
			g.propKey(true)
			if k := g.Out[j].S; (k == "__proto__" || k == "'__proto__'") && len(g.Out) == j+1 {
				if proto && !g.wild() {
					g.Out[j].S = "p"
				}
				proto = true
			}
			g.e(":")
			g.in(g.assign)
		case 1:
			r := g.ref()
			if r == "arguments" && g.c.noArgs {
				r = "x"
			}
			g.e(r)
			if g.wild() {
				g.e("=", "1")
			}
		case 2:
			g.method(false, false, false)
		case 3:
			g.accessor(false, false)
		case 4:
			g.e("...")
			g.in(g.assign)
		case 5:
			// contextual names as keys
			k := pbt.Pick(t, "get", "set", "async", "static", "await", "yield", "let")
			g.e(k)
			if t.Bool() {
				g.e(":")
				g.in(g.assign)
			} else {
				g.function(false, false, true, false, false, -1)
			}
		}
		if i < n-1 || t.P(1, 6) {
			g.e(",")
		}
	}
	g.e("}")
}

// method emits modifiers, key, params, body.
func (g *G) method(class, static, derived bool) {
	t := g.T
	g.label("method")
	async, gen := t.P(1, 4), t.P(1, 4)
	if async {
		g.e("async")
	}
	if gen {
		if async {
			g.nonl("*")
		} else {
			g.e("*")
		}
	}
	i := len(g.Out)
	if class {
		g.classKey(static, true)
	} else {
		g.propKey(true)
	}
	if async && !gen {
		g.Out[i].NoNL = true
	}
	g.function(async, gen, true, false, derived, -1)
}

func (g *G) accessor(class, static bool) {
	t := g.T
	g.label("accessor")
	get := t.Bool()
	if get {
		g.e("get")
	} else {
		g.e("set")
	}
	if class {
		g.classKey(static, true)
	} else {
		g.propKey(true)
	}
	if get {
		g.function(false, false, true, false, false, 0)
	} else {
		g.function(false, false, true, false, false, 1)
	}
}

// classKey emits a class element key that is not `constructor`/`prototype`.
func (g *G) classKey(static, method bool) {
	t := g.T
	if t.P(1, 5) {
		g.uniq++
		n := "p" + itoa(g.uniq)
		g.label("privDecl")
		g.e("#" + n)
		g.priv[len(g.priv)-1] = append(g.priv[len(g.priv)-1], n)
		return
	}
	i := len(g.Out)
	oc := g.c
	if !g.wild() {
		g.c.noAwait, g.c.noYield, g.c.gen = true, true, false
		g.c.superProp, g.c.superCall = false, false
		g.c.inAsync, g.c.inGen = true, true
	}
	g.propKey(true)
	g.c = oc
	if g.wild() {
		return
	}
	switch g.Out[i].S {
	case "constructor", "'constructor'", "\"constructor\"":
		if !static || !method {
			g.Out[i].S = "q"
		}
	case "prototype":
		if static {
			g.Out[i].S = "q"
		}
	}
}

func itoa(n int) string {
	s := ""
	for {
		s = string(rune('0'+n%10)) + s
		n /= 10
		if n == 0 {
			return s
		}
	}
}

func (g *G) class(decl bool) {
	t := g.T
	g.label("class")
	oldStrict := g.strict
	if g.O.Deco && t.P(1, 4) {
		g.decorator()
	}
	g.strict = true
	g.e("class")
	if decl || t.Bool() {
		g.e(g.fresh())
	}
	if g.O.TS {
		g.typParamsOpt()
	}
	derived := t.P(1, 3)
	if derived {
		g.e("extends")
		i := len(g.Out)
		oc := g.c
		g.c.noIn = false
		g.lhs(false)
		g.c = oc
		if g.Out[i].S == "{" {
			g.paren(i)
		}
		if g.O.TS && t.P(1, 4) {
			g.typArgs()
		}
	}
	if g.O.TS && t.P(1, 4) {
		g.e("implements")
		g.typRef(1)
		if t.P(1, 3) {
			g.e(",")
			g.typRef(1)
		}
	}
	g.e("{")
	var inherited []string
	if len(g.priv) > 0 {
		inherited = append(inherited, g.priv[len(g.priv)-1]...)
	}
	g.priv = append(g.priv, inherited)
	// pre-declare one private field so that references resolve
	if t.P(1, 3) {
		g.uniq++
		n := "q" + itoa(g.uniq)
		g.priv[len(g.priv)-1] = append(g.priv[len(g.priv)-1], n)
		g.e("#"+n, ";")
	}
	n := t.Geo(2, 5)
	ctor := false
	for i := 0; i < n && g.Budget > -40; i++ {
		g.spend()
		g.classElem(derived, &ctor)
	}
	g.priv = g.priv[:len(g.priv)-1]
	g.e("}")
	g.strict = oldStrict
}

func (g *G) classElem(derived bool, ctor *bool) {
	t := g.T
	if g.O.Deco && t.P(1, 8) {
		g.decorator()
	}
	field := func(static bool) {
		g.label("field")
		if g.O.TS {
			g.tsFieldMods()
		}
		g.classKey(static, false)
		if g.O.TS {
			if t.P(1, 8) {
				g.e(pbt.Pick(t, "?", "!"))
			}
			g.typAnnOpt()
		}
		if t.P(1, 2) && g.Out[len(g.Out)-1].S != "!" {
			g.e("=")
			g.withCtx(fnCtx{superProp: true, tgt: true, noArgs: true, noAwait: true, noYield: true, fn: true, inAsync: true, inGen: true}, func() { g.assign() })
		}
		g.e(";")
	}
	static := func() bool {
		if t.P(1, 4) {
			g.e("static")
			return true
		}
		return false
	}
	switch t.Weighted(6, 3, 6, 2, 1, 1, 2) {
	case 0:
		st := static()
		g.method(true, st, derived)
	case 1:
		st := static()
		g.accessor(true, st)
	case 2:
		field(static())
	case 3:
		if !*ctor || g.wild() {
			*ctor = true
			g.label("ctor")
			g.e(pbt.Pick(t, "constructor", "constructor", "'constructor'"))
			g.function(false, false, true, true, derived, -1)
		}
	case 4:
		g.e(";")
	case 5:
		g.label("staticBlock")
		g.e("static", "{")
		g.withCtx(fnCtx{superProp: true, tgt: true, noArgs: true, staticBlk: true, inAsync: true}, func() {
			ot := g.top
			g.top = false
			g.block(func() { g.stmts(2) })
			g.top = ot
		})
		g.e("}")
	case 6:
		// contextual names as element names
		k := pbt.Pick(t, "get", "set", "async", "static", "await", "yield", "let", "in", "of")
		g.e(k)
		switch t.Intn(3) {
		case 0:
			g.e(";")
		case 1:
			g.e("=", "1", ";")
		case 2:
			g.function(false, false, true, false, false, -1)
		}
	}
}

func (g *G) decorator() {
	t := g.T
	g.label("decorator")
	g.e("@", pbt.Pick(t, "dec", "a", "foo"))
	if t.P(1, 3) {
		g.e(".", "b")
	}
	if t.P(1, 3) {
		g.args()
	}
}
