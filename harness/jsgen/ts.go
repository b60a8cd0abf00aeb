package jsgen

import "molecheck/pbt"

// TypeScript syntax.

func (g *G) tname() string {
	return pbt.Pick(g.T, "A", "B", "C", "T", "U", "Foo", "Array", "Map", "x")
}

// typ levels: 0 any type, 1 no conditional and no function, 2 intersection
// operand (no union), 3 operator operand, 4 postfix operand / primary.
func (g *G) typ(lv int) {
	t := g.T
	if !g.spend() || g.tdepth > 5 {
		g.e(pbt.Pick(t, "any", "number", "string", "T", "A", "void"))
		return
	}
	g.tdepth++
	defer func() { g.tdepth-- }()
	if lv == 0 {
		switch t.Weighted(12, 2, 3) {
		case 1:
			g.label("tsCond")
			g.typ(1)
			g.nonl("extends")
			g.inferOk++
			o := g.noCond
			g.noCond = true
			g.typ(1)
			g.noCond = o
			g.inferOk--
			g.e("?")
			g.typ(0)
			g.e(":")
			g.typ(0)
			return
		case 2:
			g.label("tsFnType")
			if t.P(1, 4) {
				if t.P(1, 4) {
					g.e("abstract")
				}
				g.e("new")
			}
			if t.P(1, 4) {
				g.typParams()
			}
			g.sigParams()
			g.e("=>")
			g.typ(0)
			return
		}
	}
	if lv <= 1 && t.P(1, 6) {
		g.label("tsUnion")
		if t.P(1, 6) {
			g.e("|")
		}
		n := 2 + t.Geo(1, 3)
		for i := 0; i < n; i++ {
			if i > 0 {
				g.e("|")
			}
			g.typ(2)
		}
		return
	}
	if lv <= 2 && t.P(1, 8) {
		g.label("tsInter")
		if t.P(1, 8) {
			g.e("&")
		}
		n := 2 + t.Geo(1, 3)
		for i := 0; i < n; i++ {
			if i > 0 {
				g.e("&")
			}
			g.typ(3)
		}
		return
	}
	if lv <= 3 && t.P(1, 7) {
		switch t.Intn(4) {
		case 0, 1:
			g.label("tsKeyof")
			g.e("keyof")
			g.typ(3)
		case 2:
			g.label("tsReadonly")
			g.e("readonly")
			g.primTyp()
			g.e("[", "]")
		case 3:
			if g.inferOk > 0 {
				g.label("tsInfer")
				g.e("infer", g.fresh())
			} else {
				g.e("unique", "symbol")
			}
		}
		return
	}
	g.primTyp()
	for t.P(1, 5) {
		g.nonl("[")
		if t.Bool() {
			g.label("tsArr")
		} else {
			g.label("tsIdx")
			g.typ(0)
		}
		g.e("]")
	}
}

func (g *G) entity() {
	g.e(g.tname())
	for g.T.P(1, 4) {
		g.e(".", pbt.Pick(g.T, "B", "c", "D", "default", "type"))
	}
}

func (g *G) typRef(d int) {
	g.entity()
	if g.T.P(1, 4) {
		g.typArgs()
	}
}

func (g *G) primTyp() {
	t := g.T
	switch t.Weighted(12, 8, 4, 3, 3, 3, 2, 2, 1, 1, 1) {
	case 0:
		g.label("tsKeyword")
		g.e(pbt.Pick(t, "any", "number", "string", "boolean", "void", "never", "unknown", "null", "undefined", "symbol", "object", "bigint", "this"))
	case 1:
		g.label("tsRef")
		g.typRef(0)
	case 2:
		g.label("tsLit")
		switch t.Intn(4) {
		case 0:
			g.e(pbt.Pick(t, "'a'", "\"b\"", "''", "'é'"))
		case 1:
			g.e(pbt.Pick(t, "1", "0x1f", "1.5", "0", "1e3"))
		case 2:
			g.e("-", pbt.Pick(t, "1", "2.5"))
		case 3:
			g.e(pbt.Pick(t, "true", "false"))
		}
	case 3:
		g.label("tsObj")
		g.members()
	case 4:
		g.label("tsTuple")
		g.tuple()
	case 5:
		g.label("tsParen")
		g.e("(")
		o := g.noCond
		g.noCond = false
		g.typ(0)
		g.noCond = o
		g.e(")")
	case 6:
		g.label("tsMapped")
		g.mapped()
	case 7:
		g.label("tsTypeof")
		g.e("typeof")
		g.e(pbt.Pick(t, "a", "b", "this_", "foo"))
		for t.P(1, 3) {
			g.e(".", pbt.Pick(t, "b", "c"))
		}
	case 8:
		g.label("tsImport")
		g.e("import", "(", "'m'", ")")
		for t.P(1, 2) {
			g.e(".", pbt.Pick(t, "B", "c"))
		}
		if t.P(1, 3) {
			g.typArgs()
		}
	case 9:
		g.label("tsTpl")
		g.e(pbt.Pick(t, "`a`", "``"))
	case 10:
		g.e(pbt.Pick(t, "A", "T"))
	}
}

func (g *G) tuple() {
	t := g.T
	g.e("[")
	n := t.Geo(2, 4)
	named := t.P(1, 3)
	opt := false
	for i := 0; i < n; i++ {
		if i > 0 {
			g.e(",")
		}
		if named {
			rest := i == n-1 && t.P(1, 4)
			if rest {
				g.e("...")
			}
			g.e(pbt.Pick(t, "a", "b", "rest", "x"))
			if !rest && (opt || t.P(1, 5)) {
				g.e("?")
				opt = true
			}
			g.e(":")
			g.typ(0)
			continue
		}
		if i == n-1 && t.P(1, 4) {
			g.e("...")
			g.typ(4)
			g.e("[", "]")
			continue
		}
		if opt || t.P(1, 6) {
			g.typ(4)
			g.e("?")
			opt = true
			continue
		}
		g.typ(0)
	}
	if n > 0 && t.P(1, 6) {
		g.e(",")
	}
	g.e("]")
}

func (g *G) mapped() {
	t := g.T
	g.e("{")
	switch t.Intn(5) {
	case 0:
		g.e("readonly")
	case 1:
		g.e(pbt.Pick(t, "+", "-"), "readonly")
	}
	g.e("[", g.fresh(), "in")
	g.typ(0)
	if t.P(1, 4) {
		g.e("as")
		g.typ(0)
	}
	g.e("]")
	switch t.Intn(5) {
	case 0:
		g.e("?")
	case 1:
		g.e(pbt.Pick(t, "+", "-"), "?")
	}
	if t.P(4, 5) {
		g.e(":")
		g.typ(0)
	}
	if t.Bool() {
		g.e(";")
	}
	g.e("}")
}

// sigParams emits the parameter list of a signature.
func (g *G) sigParams() {
	t := g.T
	g.e("(")
	n := t.Geo(1, 3)
	if t.P(1, 12) {
		g.e("this", ":")
		g.typ(0)
		if n > 0 || t.Bool() {
			g.e(",")
		}
	}
	opt := false
	for i := 0; i < n; i++ {
		if i > 0 {
			g.e(",")
		}
		if i == n-1 && t.P(1, 5) {
			g.e("...", g.fresh())
			g.typAnnOpt()
			continue
		}
		if t.P(1, 8) {
			g.tsPattern()
		} else {
			g.e(g.fresh())
		}
		if opt || t.P(1, 4) {
			g.e("?")
			opt = true
		}
		g.typAnnOpt()
	}
	g.e(")")
}

func (g *G) tsPattern() {
	if g.T.Bool() {
		g.e("{", g.fresh())
		if g.T.P(1, 3) {
			g.e(":", g.fresh())
		}
		g.e("}")
	} else {
		g.e("[", g.fresh(), "]")
	}
}

func (g *G) memberKey() {
	t := g.T
	switch t.Weighted(10, 2, 1, 1) {
	case 0:
		g.e(pbt.Pick(t, "a", "b", "c", "foo", "get", "set", "readonly", "type", "if", "delete", "static", "async", "constructor", "é"))
	case 1:
		g.e(pbt.Pick(t, "'a'", "\"b c\""))
	case 2:
		g.e(pbt.Pick(t, "1", "0"))
	case 3:
		g.e("[", pbt.Pick(t, "a", "a.b", "'x'", "Symbol.iterator"), "]")
	}
}

func (g *G) members() {
	t := g.T
	g.e("{")
	n := t.Geo(2, 4)
	for i := 0; i < n; i++ {
		g.spend()
		switch t.Weighted(10, 4, 2, 2, 2, 2) {
		case 0:
			g.label("tsProp")
			if t.P(1, 5) {
				g.e("readonly")
				g.e(pbt.Pick(t, "a", "b", "foo", "'x'"))
			} else {
				g.memberKey()
			}
			if t.P(1, 4) {
				g.e("?")
			}
			if t.P(4, 5) {
				g.e(":")
				g.typ(0)
			}
		case 1:
			g.label("tsMethodSig")
			g.memberKey()
			if t.P(1, 5) {
				g.e("?")
			}
			if t.P(1, 5) {
				g.typParams()
			}
			g.sigParams()
			g.sigRet()
		case 2:
			g.label("tsCallSig")
			if t.P(1, 5) {
				g.typParams()
			}
			g.sigParams()
			g.sigRet()
		case 3:
			g.label("tsNewSig")
			g.e("new")
			if t.P(1, 5) {
				g.typParams()
			}
			g.sigParams()
			g.sigRet()
		case 4:
			g.label("tsIdxSig")
			if t.P(1, 4) {
				g.e("readonly")
			}
			g.e("[", g.fresh(), ":", pbt.Pick(t, "string", "number"), "]", ":")
			g.typ(0)
		case 5:
			g.label("tsAccessorSig")
			if t.Bool() {
				g.e("get")
				g.nonl(pbt.Pick(t, "a", "b", "foo"))
				g.e("(", ")")
				g.sigRet()
			} else {
				g.e("set")
				g.nonl(pbt.Pick(t, "a", "b", "foo"))
				g.e("(", g.fresh())
				g.typAnnOpt()
				g.e(")")
			}
		}
		if i == n-1 && t.P(1, 3) {
			break
		}
		g.e(pbt.Pick(t, ";", ";", ","))
	}
	g.e("}")
}

func (g *G) sigRet() {
	if g.T.P(3, 4) {
		g.e(":")
		g.retType()
	}
}

func (g *G) retType() {
	t := g.T
	switch t.Weighted(12, 1, 1, 1) {
	case 1:
		g.label("tsPredicate")
		g.e(pbt.Pick(t, "a", "this", "x1"))
		g.nonl("is")
		g.typ(0)
	case 2:
		g.label("tsAsserts")
		g.e("asserts")
		g.nonl(pbt.Pick(t, "a", "this", "x1"))
		g.nonl("is")
		g.typ(0)
	case 3:
		g.label("tsAsserts")
		g.e("asserts")
		g.nonl(pbt.Pick(t, "a", "this", "x1"))
	default:
		g.typ(0)
	}
}

func (g *G) typAnnOpt() {
	if g.T.P(1, 2) {
		g.e(":")
		g.typ(0)
	}
}

func (g *G) retTyp() {
	g.e(":")
	g.retType()
}

func (g *G) typParamsOpt() {
	if g.T.P(1, 5) {
		g.typParams()
	}
}

func (g *G) typParams() {
	t := g.T
	g.label("tsTypeParams")
	g.e("<")
	n := 1 + t.Geo(1, 3)
	def := false
	for i := 0; i < n; i++ {
		if i > 0 {
			g.e(",")
		}
		g.e(g.fresh())
		if t.P(1, 3) {
			g.e("extends")
			g.typ(0)
		}
		if def || t.P(1, 4) {
			g.e("=")
			g.typ(0)
			def = true
		}
	}
	if t.P(1, 10) {
		g.e(",")
	}
	g.e(">")
}

func (g *G) typArgs() {
	t := g.T
	g.label("tsTypeArgs")
	g.nonl("<")
	n := 1 + t.Geo(1, 3)
	for i := 0; i < n; i++ {
		if i > 0 {
			g.e(",")
		}
		g.typ(0)
	}
	g.e(">")
}

func (g *G) tsFieldMods() {}

// tsStmt emits one declaration that exists only in TypeScript.
func (g *G) tsStmt() {
	t := g.T
	top := g.top && g.O.Module
	exp := func() {
		if top && t.P(1, 4) {
			g.e("export")
		}
	}
	switch t.Weighted(5, 5, 4, 3, 3, 2, 2, 2, 2) {
	case 0:
		g.label("tsInterface")
		exp()
		g.e("interface")
		g.nonl(g.fresh())
		g.typParamsOpt()
		if t.P(1, 3) {
			g.e("extends")
			g.typRef(0)
			for t.P(1, 4) {
				g.e(",")
				g.typRef(0)
			}
		}
		g.members()
	case 1:
		g.label("tsAlias")
		exp()
		g.e("type")
		g.nonl(g.fresh())
		g.typParamsOpt()
		g.e("=")
		g.typ(0)
		g.semi()
	case 2:
		g.label("tsEnum")
		exp()
		if t.P(1, 4) {
			g.e("declare")
		}
		if t.P(1, 3) {
			g.e("const")
		}
		g.enum()
	case 3:
		if !g.top {
			g.semi()
			return
		}
		g.label("tsNamespace")
		exp()
		decl := t.P(1, 3)
		if decl {
			g.e("declare")
		}
		g.e(pbt.Pick(t, "namespace", "module"))
		g.nonl(g.fresh())
		for t.P(1, 4) {
			g.e(".", g.fresh())
		}
		g.e("{")
		ot := g.top
		g.top = false
		if decl {
			for n := t.Geo(1, 2); n > 0; n-- {
				g.ambientDecl()
			}
		} else {
			g.block(func() { g.stmts(2) })
		}
		g.top = ot
		g.e("}")
	case 4:
		g.label("tsDeclare")
		exp()
		g.e("declare")
		g.ambientDecl()
	case 5:
		if !g.top {
			g.semi()
			return
		}
		g.label("tsOverload")
		n := g.fresh()
		for k := 1 + t.Geo(1, 2); k > 0; k-- {
			g.e("function", n)
			g.typParamsOpt()
			g.sigParams()
			g.sigRet()
			g.semi()
		}
		g.e("function", n)
		g.function(false, false, false, false, false, -1)
	case 6:
		g.label("tsAbstract")
		exp()
		g.e("abstract")
		g.nonl("class")
		g.e(g.fresh())
		g.typParamsOpt()
		g.e("{")
		for n := t.Geo(2, 3); n > 0; n-- {
			if t.P(1, 3) {
				g.e(pbt.Pick(t, "public", "private", "protected"))
			}
			g.e("abstract")
			switch t.Intn(3) {
			case 0:
				g.e(pbt.Pick(t, "a", "b", "c"))
				g.typAnnOpt()
			case 1:
				g.e(pbt.Pick(t, "a", "b", "c"))
				g.typParamsOpt()
				g.sigParams()
				g.sigRet()
			case 2:
				g.e("get", pbt.Pick(t, "a", "b"), "(", ")")
				g.sigRet()
			}
			g.semi()
		}
		g.e("}")
	case 7:
		if !top {
			g.semi()
			return
		}
		g.label("tsImportExport")
		switch t.Intn(6) {
		case 0:
			g.e("import")
			g.nonl("type")
			g.nonl(g.fresh())
			g.e("from", "'m'")
		case 1:
			g.e("import")
			g.nonl("type")
			g.e("{", g.fresh(), "}", "from", "'m'")
		case 2:
			g.e("import")
			g.nonl(g.fresh())
			g.e("=", "require", "(", "'m'", ")")
		case 3:
			g.e("import")
			g.nonl(g.fresh())
			g.e("=")
			g.entity()
		case 4:
			g.e("export", "type", "{", "a", "}", "from", "'m'")
		case 5:
			g.e("import", "{", "type", g.fresh(), ",", g.fresh(), "}", "from", "'m'")
		}
		g.semi()
	case 8:
		g.label("tsAssert")
		switch t.Intn(4) {
		case 0:
			g.e("(", g.ref(), "as")
			g.typ(0)
			g.e(")")
		case 1:
			g.e("<")
			g.typ(0)
			g.e(">", g.ref())
		case 2:
			g.e(g.ref())
			g.nonl("!")
			g.e(".", "a")
		case 3:
			g.e("a", "=", "b", "as")
			g.typ(0)
		}
		g.semi()
	}
}

func (g *G) enum() {
	t := g.T
	g.e("enum", g.fresh(), "{")
	n := t.Geo(2, 4)
	for i := 0; i < n; i++ {
		g.e(pbt.Pick(t, "A", "B", "C", "'d'", "E"))
		if t.P(1, 2) {
			g.e("=")
			switch t.Intn(4) {
			case 0:
				g.e(pbt.Pick(t, "1", "'s'", "`t`"))
			case 1:
				g.e("-", "1")
			case 2:
				g.e("A", "|", "B")
			case 3:
				g.e("1", "<<", "2")
			}
		}
		if i < n-1 || t.P(1, 3) {
			g.e(",")
		}
	}
	g.e("}")
}

// ambientDecl emits a declaration as it follows `declare`.
func (g *G) ambientDecl() {
	t := g.T
	switch t.Intn(6) {
	case 0:
		g.e(pbt.Pick(t, "var", "let", "const"), g.fresh())
		g.typAnnOpt()
		g.semi()
	case 1:
		g.e("function", g.fresh())
		g.typParamsOpt()
		g.sigParams()
		g.sigRet()
		g.semi()
	case 2:
		g.e("class", g.fresh())
		g.typParamsOpt()
		if t.P(1, 3) {
			g.e("extends")
			g.e("A")
		}
		g.e("{")
		for n := t.Geo(1, 3); n > 0; n-- {
			if t.P(1, 4) {
				g.e("static")
			}
			g.e(pbt.Pick(t, "a", "b", "c"))
			if t.Bool() {
				g.typAnnOpt()
			} else {
				g.typParamsOpt()
				g.sigParams()
				g.sigRet()
			}
			g.semi()
		}
		g.e("}")
	case 3:
		g.e("interface", g.fresh())
		g.members()
	case 4:
		g.e("type", g.fresh(), "=")
		g.typ(0)
		g.semi()
	case 5:
		g.enum()
	}
}
