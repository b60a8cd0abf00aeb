package jsgen

import "molecheck/pbt"

// Program emits a whole program.
func (g *G) Program() {
	t := g.T
	g.top = true
	if t.P(1, 15) {
		g.e(pbt.Pick(t, "'use strict'", "\"use strict\"", "'x'", "'use\\x20strict'"))
		if g.Out[len(g.Out)-1].S == "'use strict'" || g.Out[len(g.Out)-1].S == "\"use strict\"" {
			g.strict = true
		}
		g.e(";")
	}
	g.stmts(6)
}

func (g *G) stmts(mean int) {
	n := g.T.Geo(mean, 12)
	for i := 0; i < n && g.Budget > 0; i++ {
		g.stmt(true)
	}
}

func (g *G) semi() { g.e(";") }

func (g *G) exprStmt() {
	i := len(g.Out)
	g.in(g.expr)
	s := g.Out[i].S
	bad := s == "{" || s == "function" || s == "class" || s == "let" || s == "@"
	if s == "async" && i+1 < len(g.Out) && g.Out[i+1].S == "function" {
		bad = true
	}
	if bad && !g.wild() {
		g.paren(i)
	}
	g.semi()
}

// stmt emits one statement; decl allows declarations.
func (g *G) stmt(decl bool) {
	t := g.T
	if !g.spend() || g.depth > 20 {
		g.e(g.ref())
		if l := g.Out[len(g.Out)-1].S; l == "let" {
			g.Out[len(g.Out)-1].S = "x"
		}
		g.semi()
		return
	}
	g.depth++
	defer func() { g.depth-- }()
	if g.O.TS && decl && t.P(1, 5) {
		g.tsStmt()
		return
	}
	k := t.Weighted(
		24, // 0 expr
		9,  // 1 var
		9,  // 2 let/const
		5,  // 3 function
		4,  // 4 class
		7,  // 5 if
		4,  // 6 for
		3,  // 7 for in
		4,  // 8 for of
		3,  // 9 while
		2,  // 10 do while
		4,  // 11 return
		3,  // 12 break/continue
		3,  // 13 throw
		4,  // 14 try
		4,  // 15 switch
		3,  // 16 labelled
		5,  // 17 block
		1,  // 18 empty
		1,  // 19 debugger
		1,  // 20 with
		4,  // 21 import
		5,  // 22 export
	)
	if !decl && (k == 2 || k == 3 || k == 4 || k == 21 || k == 22) && !g.wild() {
		k = 0
	}
	switch k {
	case 0:
		g.label("exprStmt")
		g.exprStmt()
	case 1:
		g.varDecl("var", false)
		g.semi()
	case 2:
		g.varDecl(pbt.Pick(t, "let", "const"), false)
		g.semi()
	case 3:
		g.fnDecl(false)
	case 4:
		g.class(true)
	case 5:
		g.label("if")
		g.e("if", "(")
		g.in(g.expr)
		g.e(")")
		g.sub()
		if t.P(1, 2) {
			g.e("else")
			g.sub()
		}
	case 6:
		g.label("for")
		g.e("for", "(")
		g.block(func() {
			switch t.Intn(4) {
			case 0:
			case 1:
				o := g.c.noIn
				g.c.noIn = true
				i := len(g.Out)
				g.expr()
				g.c.noIn = o
				g.fixForInit(i)
			case 2:
				g.varDecl("var", true)
			case 3:
				g.varDecl(pbt.Pick(t, "let", "const"), true)
			}
			g.e(";")
			if t.Bool() {
				g.in(g.expr)
			}
			g.e(";")
			if t.Bool() {
				g.in(g.expr)
			}
			g.e(")")
			g.loopBody()
		})
	case 7:
		g.label("forIn")
		g.e("for", "(")
		g.block(func() {
			g.forTarget(false, false)
			g.e("in")
			g.in(g.expr)
			g.e(")")
			g.loopBody()
		})
	case 8:
		g.label("forOf")
		aw := (g.c.async && !g.c.noAwait) && t.P(1, 3) || g.wild()
		g.e("for")
		if aw {
			g.e("await")
		}
		g.e("(")
		g.block(func() {
			g.forTarget(true, aw)
			g.e("of")
			g.in(g.assign)
			g.e(")")
			g.loopBody()
		})
	case 9:
		g.label("while")
		g.e("while", "(")
		g.in(g.expr)
		g.e(")")
		g.loopBody()
	case 10:
		g.label("doWhile")
		g.e("do")
		g.loopBody()
		g.e("while", "(")
		g.in(g.expr)
		g.e(")")
		if t.P(3, 4) {
			g.semi()
		}
	case 11:
		if g.c.fn && !g.c.staticBlk || g.wild() {
			g.label("return")
			g.e("return")
			if t.P(3, 4) {
				i := len(g.Out)
				g.in(g.expr)
				g.Out[i].NoNL = true
			}
			g.semi()
			return
		}
		g.exprStmt()
	case 12:
		if g.c.loop && t.Bool() || g.wild() {
			g.label("continue")
			g.e("continue")
			if len(g.c.loopLabels) > 0 && t.Bool() {
				g.nonl(g.c.loopLabels[t.Intn(len(g.c.loopLabels))])
			}
			g.semi()
		} else if g.c.brk || len(g.c.labels) > 0 || g.wild() {
			g.label("break")
			g.e("break")
			if len(g.c.labels) > 0 && (t.Bool() || !g.c.brk) {
				g.nonl(g.c.labels[t.Intn(len(g.c.labels))])
			}
			g.semi()
		} else {
			g.exprStmt()
		}
	case 13:
		g.label("throw")
		g.e("throw")
		i := len(g.Out)
		g.in(g.expr)
		g.Out[i].NoNL = true
		g.semi()
	case 14:
		g.tryStmt()
	case 15:
		g.label("switch")
		g.e("switch", "(")
		g.in(g.expr)
		g.e(")", "{")
		o := g.c
		g.c.brk = true
		def := false
		g.block(func() {
			n := t.Geo(2, 4)
			for i := 0; i < n; i++ {
				if !def && t.P(1, 4) {
					def = true
					g.e("default", ":")
				} else {
					g.e("case")
					g.in(g.expr)
					g.e(":")
				}
				ot := g.top
				g.top = false
				g.stmts(1)
				g.top = ot
			}
		})
		g.c = o
		g.e("}")
	case 16:
		g.label("labelled")
		l := pbt.Pick(t, "L1", "L2", "L3", "async", "of", "é1")
		if g.O.NoUnicode && l == "é1" {
			l = "L4"
		}
		for _, x := range g.c.labels {
			if x == l && !g.wild() {
				g.exprStmt()
				return
			}
		}
		g.e(l, ":")
		o := g.c
		g.c.labels = append(append([]string{}, o.labels...), l)
		switch t.Intn(3) {
		case 0, 1:
			g.c.loopLabels = append(append([]string{}, o.loopLabels...), l)
			g.loopStmt()
		default:
			g.sub()
		}
		g.c = o
	case 17:
		g.label("block")
		g.blockStmt()
	case 18:
		g.e(";")
	case 19:
		g.e("debugger")
		g.semi()
	case 20:
		if !g.strict || g.wild() {
			g.label("with")
			g.e("with", "(")
			g.in(g.expr)
			g.e(")")
			g.sub()
			return
		}
		g.exprStmt()
	case 21:
		if g.O.Module && g.top && g.depth == 1 || g.wild() {
			g.importDecl()
			return
		}
		g.exprStmt()
	case 22:
		if g.O.Module && g.top && g.depth == 1 || g.wild() {
			g.exportDecl()
			return
		}
		g.exprStmt()
	}
}

func (g *G) fixForInit(i int) {
	if i >= len(g.Out) {
		return
	}
	if s := g.Out[i].S; s == "let" || s == "async" && i+1 < len(g.Out) && g.Out[i+1].S == "of" {
		g.Out[i].S = "x"
		if s == "async" {
			g.Out[i+1].S = "+"
			g.e("0")
		}
	}
}

func (g *G) loopStmt() {
	t := g.T
	switch t.Intn(3) {
	case 0:
		g.e("while", "(")
		g.in(g.expr)
		g.e(")")
		g.loopBody()
	case 1:
		g.e("for", "(", ";", ";", ")")
		g.loopBody()
	case 2:
		g.e("do")
		g.loopBody()
		g.e("while", "(")
		g.in(g.expr)
		g.e(")", ";")
	}
}

func (g *G) loopBody() {
	o := g.c
	g.c.loop, g.c.brk = true, true
	g.sub()
	g.c = o
}

// sub is a nested statement (no declarations).
func (g *G) sub() {
	ot := g.top
	g.top = false
	if g.T.P(3, 5) {
		g.blockStmt()
	} else {
		g.stmt(false)
	}
	g.top = ot
}

func (g *G) blockStmt() {
	ot := g.top
	g.top = false
	g.e("{")
	g.block(func() { g.stmts(2) })
	g.e("}")
	g.top = ot
}

func (g *G) forTarget(of, aw bool) {
	t := g.T
	switch t.Weighted(4, 3, 3) {
	case 0:
		g.e(pbt.Pick(t, "let", "const"))
		g.bindTarget(2, true)
	case 1:
		g.e("var")
		g.bindTarget(2, false)
	case 2:
		i := len(g.Out)
		if t.P(1, 4) {
			g.assignPattern(2)
		} else {
			g.simpleTarget()
		}
		if of && !g.wild() {
			if s := g.Out[i].S; s == "let" || s == "async" {
				g.Out[i].S = "x"
			}
		}
		if s := g.Out[i].S; s == "let" {
			g.Out[i].S = "x"
		}
	}
}

func (g *G) varDecl(kind string, forInit bool) {
	t := g.T
	g.label(kind)
	g.e(kind)
	oc := g.c.lex
	g.c.lex = kind != "var" && !g.wild()
	defer func() { g.c.lex = oc }()
	n := 1 + t.Geo(1, 3)*t.Intn(2)
	for i := 0; i < n; i++ {
		if i > 0 {
			g.e(",")
		}
		lex := kind != "var"
		pat := t.P(1, 5)
		if pat {
			g.bindPattern(2, lex)
		} else {
			g.e(g.bind(lex))
		}
		if g.O.TS {
			g.typAnnOpt()
		}
		if pat || kind == "const" || t.P(2, 3) {
			if (pat || kind == "const") && g.wild() {
				continue
			}
			g.e("=")
			o := g.c.noIn
			g.c.noIn = forInit
			g.assign()
			g.c.noIn = o
		}
	}
}

func (g *G) fnDecl(expDefault bool) {
	t := g.T
	g.label("fnDecl")
	async, gen := t.P(1, 4), t.P(1, 4)
	if async {
		g.e("async")
		g.nonl("function")
	} else {
		g.e("function")
	}
	if gen {
		g.e("*")
	}
	if !expDefault || t.Bool() {
		g.e(g.fresh())
	}
	g.function(async, gen, false, false, false, -1)
}

func (g *G) tryStmt() {
	t := g.T
	g.label("try")
	g.e("try")
	g.blockStmt()
	k := t.Intn(3)
	if k != 1 {
		g.e("catch")
		if t.P(3, 4) {
			g.e("(")
			g.bindTarget(1, true)
			if g.O.TS && t.P(1, 5) {
				g.e(":", pbt.Pick(t, "any", "unknown"))
			}
			g.e(")")
		}
		g.blockStmt()
	}
	if k != 0 {
		g.e("finally")
		g.blockStmt()
	}
}

func (g *G) importDecl() {
	t := g.T
	g.label("import")
	g.e("import")
	named := func() {
		g.e("{")
		n := t.Geo(1, 3)
		for i := 0; i < n; i++ {
			if t.Bool() {
				g.e(g.fresh())
			} else {
				g.e(g.propName(), "as", g.fresh())
			}
			if i < n-1 || t.P(1, 5) {
				g.e(",")
			}
		}
		g.e("}")
	}
	ns := func() { g.e("*", "as", g.fresh()) }
	switch t.Intn(6) {
	case 0:
		g.e(g.Str())
		g.semi()
		return
	case 1:
		g.e(g.fresh())
	case 2:
		named()
	case 3:
		ns()
	case 4:
		g.e(g.fresh(), ",")
		named()
	case 5:
		g.e(g.fresh(), ",")
		ns()
	}
	g.e("from", g.Str())
	g.semi()
}

func (g *G) expName() string {
	for i := 0; i < 20; i++ {
		n := g.propName()
		if !g.exps[n] {
			g.exps[n] = true
			return n
		}
	}
	n := g.fresh()
	return n
}

func (g *G) exportDecl() {
	t := g.T
	g.label("export")
	switch t.Weighted(3, 3, 2, 2, 3, 2, 2) {
	case 0:
		g.e("export")
		g.varDeclExp(pbt.Pick(t, "let", "const"))
		g.semi()
	case 1:
		if g.exps["default"] && !g.wild() {
			g.e(";")
			return
		}
		g.exps["default"] = true
		g.e("export", "default")
		switch t.Intn(3) {
		case 0:
			g.fnDecl(true)
		case 1:
			g.class(false)
		case 2:
			i := len(g.Out)
			g.in(g.assign)
			s := g.Out[i].S
			if s == "function" || s == "class" || s == "@" || s == "async" && i+1 < len(g.Out) && g.Out[i+1].S == "function" {
				g.paren(i)
			}
			g.semi()
		}
	case 2:
		g.e("export")
		g.fnDecl(false)
	case 3:
		g.e("export")
		g.class(true)
	case 4:
		// local re-export needs declared names
		a := g.fresh()
		g.e(pbt.Pick(t, "let", "var"), a, ";")
		g.e("export", "{")
		n := t.Geo(1, 2)
		for i := 0; i < n; i++ {
			if g.wild() {
				g.e(g.ref())
			} else {
				g.e(a)
			}
			g.e("as", g.expName())
			if i < n-1 || t.P(1, 4) {
				g.e(",")
			}
		}
		g.e("}")
		g.semi()
	case 5:
		g.e("export", "{")
		n := t.Geo(1, 3)
		for i := 0; i < n; i++ {
			g.e(g.propName(), "as", g.expName())
			if i < n-1 || t.P(1, 4) {
				g.e(",")
			}
		}
		g.e("}", "from", g.Str())
		g.semi()
	case 6:
		g.e("export", "*")
		if t.Bool() {
			g.e("as", g.expName())
		}
		g.e("from", g.Str())
		g.semi()
	}
}

func (g *G) varDeclExp(kind string) { g.varDecl(kind, false) }
