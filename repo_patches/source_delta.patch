From 1ebfa4642fb1766824254724827f51dcba321628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:30 +0000
Subject: [PATCH 001/191] fix: keep the precedence of the current operator
 while folding its right operand

---
 ecma/parser/parser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 259d5c8..9addf5b 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5499,8 +5499,7 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 		aheadOp := ahead.IsBin(notIn, ts)
 		kind = TokenKinds[aheadOp]
 		for aheadOp != T_ILLEGAL && (kind.Pcd > pcd || kind.Pcd == pcd && kind.RightAssoc) {
-			pcd = kind.Pcd
-			rhs, err = p.binExpr(rhs, pcd, logic, nullish, notGT, false)
+			rhs, err = p.binExpr(rhs, kind.Pcd, logic, nullish, notGT, false)
 			if err != nil {
 				return nil, err
 			}
-- 
2.43.0


From fe0d9fc9c324bd787fa384d9a61887f434278a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:40 +0000
Subject: [PATCH 002/191] fix: keep the operator of a prefix update expression
 whose operand spans many tokens

---
 ecma/parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 9addf5b..c54db84 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4360,7 +4360,7 @@ func (p *Parser) unaryExpr(typArgs Node, typArgsLoc span.Range, notColon bool) (
 func (p *Parser) updateExpr(typArgs Node, typArgsLoc span.Range, notColon bool) (Node, error) {
 	rng := p.rng()
 	tok := p.lexer.Peek()
-	if tok.value == T_INC || tok.value == T_DEC {
+	if op := tok.value; op == T_INC || op == T_DEC {
 		p.lexer.Next()
 		arg, err := p.unaryExpr(nil, span.Range{}, notColon)
 		if err != nil {
@@ -4369,7 +4369,7 @@ func (p *Parser) updateExpr(typArgs Node, typArgsLoc span.Range, notColon bool)
 		if !p.isSimpleLVal(arg, true, false, true, false) {
 			return nil, p.errorAtLoc(arg.Range(), ERR_ASSIGN_TO_RVALUE)
 		}
-		ud := &UpdateExpr{N_EXPR_UPDATE, p.finRng(rng), tok.value, true, arg, span.Range{}}
+		ud := &UpdateExpr{N_EXPR_UPDATE, p.finRng(rng), op, true, arg, span.Range{}}
 		arg, err = p.tsTypAssert(ud, typArgs)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From aee8198b0097c304224db3e56de6d20565d6dac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:50 +0000
Subject: [PATCH 003/191] fix: accept a parenthesized member expression as the
 operand of an update expression

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index c54db84..1d7e3d6 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4166,7 +4166,7 @@ func (p *Parser) isSimpleLVal(expr Node, pat bool, inParen bool, member bool, op
 		return member
 	case N_EXPR_PAREN:
 		node := expr.(*ParenExpr)
-		return p.isSimpleLVal(node.expr, pat, true, false, optAssign)
+		return p.isSimpleLVal(node.expr, pat, true, member, optAssign)
 	case N_EXPR_BIN:
 		node := expr.(*BinExpr)
 		return node.op == T_TS_AS
-- 
2.43.0


From d7d98078719e7bf6755bf46960f82e5fadad74f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:18 +0000
Subject: [PATCH 004/191] fix: measure node ranges in bytes after non-ASCII
 source text

---
 ecma/parser/lexer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index bcd7e56..ef20702 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -233,7 +233,7 @@ func (l *Lexer) Rng() span.Range {
 		rng.Lo = tok.rng.Lo
 		rng.Hi = rng.Lo
 	} else {
-		rng.Lo = l.src.Pos()
+		rng.Lo = l.src.Ofst()
 		rng.Hi = rng.Lo
 	}
 	return rng
@@ -243,7 +243,7 @@ func (l *Lexer) FinRng(rng span.Range) span.Range {
 	if l.state.prtVal != T_ILLEGAL {
 		rng.Hi = l.state.prtRng.Hi
 	} else {
-		rng.Hi = l.src.Pos()
+		rng.Hi = l.src.Ofst()
 	}
 	return rng
 }
-- 
2.43.0


From 5139c543a4f866386173a651b3a4bf8b93248129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:27 +0000
Subject: [PATCH 005/191] fix: start a property name at its first character,
 not at the whitespace before it

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 1d7e3d6..27c230e 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5630,8 +5630,8 @@ func (p *Parser) memberExprPropSubscript(obj Node, opt bool) (Node, error) {
 }
 
 func (p *Parser) memberExprPropDot(obj Node, opt bool) (Node, error) {
-	loc := p.rng()
 	tok := p.lexer.Next()
+	loc := tok.rng
 	tv := tok.value
 	kw, ok := tok.CanBePropKey()
 
-- 
2.43.0


From 9308f60566b2425e0298ad2be68b7edbfc072a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:41 +0000
Subject: [PATCH 006/191] fix: tell regexps from divisions by the last scanned
 token

---
 ecma/parser/lexer.go  | 32 ++++++++++++++++++++------------
 ecma/parser/parser.go |  3 ++-
 ecma/parser/token.go  | 20 ++++++++++----------
 3 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index ef20702..c5462a1 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -119,7 +119,7 @@ type LexerState struct {
 	prtVal TokenValue // the value of prev read token
 	prtRng span.Range // the source range of prev read token
 
-	pptVal TokenValue // prev peek
+	pptVal TokenValue // the value of the last scanned token, either peeked or read
 
 	// always save loc of the previous whitespace being skipped
 	// by `skipSpace` in jsx mode
@@ -189,6 +189,9 @@ func (l *Lexer) NextRevise(v TokenValue) *Token {
 	tok := l.readTok()
 	l.state.prtVal = v
 	l.state.prtRng = tok.rng
+	if !l.state.tb.readable() {
+		l.state.pptVal = v
+	}
 	return tok
 }
 
@@ -405,6 +408,19 @@ func (l *Lexer) readTokWithComment() *Token {
 	return l.readJSXTxt()
 }
 
+// returns the value used to tell whether the slash after `tok` begins a regexp:
+// the keywords used as property names and the templates without substitutions
+// are operands whatever their token values are
+func (l *Lexer) operandOrOperator(tok *Token) TokenValue {
+	if prev := l.state.pptVal; (prev == T_DOT || prev == T_OPT_CHAIN) && tok.IsKw() {
+		return T_NAME
+	}
+	if tok.value == T_TPL_HEAD && tok.IsPlainTpl() {
+		return T_TPL_TAIL
+	}
+	return tok.value
+}
+
 func (l *Lexer) lexTok() *Token {
 	prt := T_ILLEGAL
 	prtAtm := false
@@ -415,6 +431,7 @@ func (l *Lexer) lexTok() *Token {
 			if !tok.afterLineTerm && prt == T_COMMENT && prtExt == true {
 				tok.afterLineTerm = true
 			}
+			l.state.pptVal = l.operandOrOperator(tok)
 			return tok
 		}
 		if tok.afterLineTerm || (prt == T_COMMENT && prtAtm) || tok.rng.Lo == 0 {
@@ -451,7 +468,6 @@ func (l *Lexer) takeStmtCmts() []span.Range {
 func (l *Lexer) advance() *Token {
 	tok := l.lexTok()
 
-	// only update `prtVal` for telling whether ahead is regexp or not,
 	// other prt fields such as `prtRng` will be updated after `Next` is
 	// called
 	l.state.prtVal = tok.value
@@ -663,19 +679,11 @@ func (l *Lexer) aheadIsRegexp() bool {
 		return true
 	}
 
-	// firstly, base on prev read
-	prev := l.state.prtVal
-	if prev == T_ILLEGAL {
-		prev = l.state.pptVal
-	}
-
-	// then try to base on prev peeked
+	prev := l.state.pptVal
 	if prev == T_ILLEGAL {
 		return true
 	}
-
-	be := TokenKinds[prev].BeforeExpr
-	return be
+	return TokenKinds[prev].BeforeExpr
 }
 
 func (l *Lexer) maybeLsh(ofst uint32) bool {
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 27c230e..3436a5d 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5483,7 +5483,8 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 		if err = p.checkOp(ahead); err != nil {
 			return nil, err
 		}
-		opLoc := p.lexer.Next().rng
+		// `in` is scanned as a name, revise it to let the slash after it begin a regexp
+		opLoc := p.lexer.NextRevise(op).rng
 
 		var rhs Node
 		if op != T_TS_AS {
diff --git a/ecma/parser/token.go b/ecma/parser/token.go
index 703feec..dcc7000 100644
--- a/ecma/parser/token.go
+++ b/ecma/parser/token.go
@@ -351,15 +351,15 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_COMMENT, "comment", 0, false, false, false},
 
 	// literals
-	{T_NULL, "null", 0, false, true, true},
-	{T_TRUE, "true", 0, false, true, true},
-	{T_FALSE, "false", 0, false, true, true},
+	{T_NULL, "null", 0, false, false, true},
+	{T_TRUE, "true", 0, false, false, true},
+	{T_FALSE, "false", 0, false, false, true},
 	{T_NUM, "number", 0, false, false, true},
 	{T_STRING, "string", 0, false, false, true},
 
 	{T_TPL_HEAD, "template head", 0, false, true, true},
-	{T_TPL_SPAN, "template span", 0, false, false, false},
-	{T_TPL_TAIL, "template tail", 0, false, true, false},
+	{T_TPL_SPAN, "template span", 0, false, true, false},
+	{T_TPL_TAIL, "template tail", 0, false, false, false},
 
 	{T_NAME, "identifier", 0, false, false, true},
 	{T_NAME_PVT, "private identifier", 0, false, false, false},
@@ -411,7 +411,7 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_CTX_KEYWORD_STRICT_END, "contextual keyword strict end", 0, false, false, false},
 	{T_AS, "as", 0, false, false, false},
 	{T_ASYNC, "async", 0, false, false, false},
-	{T_AWAIT, "await", 0, true, false, false},
+	{T_AWAIT, "await", 0, true, true, false},
 	{T_FROM, "from", 0, false, false, false},
 	{T_GET, "get", 0, false, false, false},
 	{T_META, "meta", 0, false, false, false},
@@ -429,7 +429,7 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_BRACKET_L, "[", 0, false, true, true},
 	{T_BRACKET_R, "]", 0, false, false, false},
 	{T_DOT, ".", 0, false, false, false},
-	{T_DOT_TRI, "...", 0, false, false, false},
+	{T_DOT_TRI, "...", 0, false, true, false},
 	{T_SEMI, ";", 0, false, true, false},
 	{T_COMMA, ",", 0, false, true, false},
 	{T_HOOK, "?", 0, false, true, false},
@@ -478,9 +478,9 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 
 	// unary
 	{T_UNARY_OP_BEGIN, "unary operator being", 0, false, false, false},
-	{T_TYPE_OF, "typeof", 0, true, false, true},
-	{T_VOID, "void", 0, true, false, true},
-	{T_DELETE, "delete", 0, true, false, true},
+	{T_TYPE_OF, "typeof", 0, true, true, true},
+	{T_VOID, "void", 0, true, true, true},
+	{T_DELETE, "delete", 0, true, true, true},
 	{T_NOT, "!", 0, true, true, true},
 	{T_BIT_NOT, "~", 0, true, true, true},
 	{T_UNARY_OP_END, "unary operator end", 0, false, false, false},
-- 
2.43.0


From e7f19f31172029d0b3da9cf4d1c2441890bf43e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:21 +0000
Subject: [PATCH 007/191] fix: parse a dynamic import as a plain operand

---
 ecma/parser/parser.go | 12 +-----------
 1 file changed, 1 insertion(+), 11 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 3436a5d..defcb93 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4757,17 +4757,7 @@ func (p *Parser) importCall(tok *Token) (Node, error) {
 			return nil, err
 		}
 
-		call := &ImportCall{N_IMPORT_CALL, p.finRng(rng), src, span.Range{}}
-		ahead := p.lexer.Peek()
-		semi := ahead.value == T_SEMI
-		if semi || ahead.afterLineTerm {
-			if semi {
-				p.lexer.Next()
-			}
-			return call, nil
-		}
-
-		return p.condExpr(call, false, false, false)
+		return &ImportCall{N_IMPORT_CALL, p.finRng(rng), src, span.Range{}}, nil
 	}
 	return nil, p.errorTok(ahead)
 }
-- 
2.43.0


From 2cbc29df2cd06b35449f06b2e1340c45431089e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:41 +0000
Subject: [PATCH 008/191] fix: convert a string literal in a template
 substitution as an expression

---
 ecma/estree/convert.go | 23 ++---------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/ecma/estree/convert.go b/ecma/estree/convert.go
index 11284d3..54d83e5 100644
--- a/ecma/estree/convert.go
+++ b/ecma/estree/convert.go
@@ -147,28 +147,9 @@ func tplLiteral(tplLoc span.Range, elems []parser.Node, ctx *ConvertCtx) *Templa
 	exprs := make([]Expression, 0)
 	cnt := len(elems)
 	for i, elem := range elems {
-		first := i == 0
 		last := i == cnt-1
-		if elem.Type() != parser.N_LIT_STR {
-			if first || last {
-				lc := locOfRng(tplLoc, ctx.Parser.Source(), ctx)
-				if first {
-					lc.End.Column = lc.Start.Column
-				} else {
-					lc.Start.Column = lc.End.Column
-				}
-				quasis = append(quasis, &TemplateElement{
-					Type:  "TemplateElement",
-					Start: int(tplLoc.Lo),
-					End:   int(tplLoc.Hi),
-					Loc:   lc,
-					Tail:  last,
-					Value: &TemplateElementValue{
-						Cooked: "",
-						Raw:    "",
-					},
-				})
-			}
+		// the strings and the substitutions alternate, the substitution itself may also be a string
+		if i%2 == 1 {
 			exprs = append(exprs, Convert(elem, ctx))
 		} else {
 			str := elem.(*parser.StrLit)
-- 
2.43.0


From cde5217721357705f8b10a5bad4351b31397f9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:28 +0000
Subject: [PATCH 009/191] fix: start a tagged template at its tag

---
 ecma/estree/convert.go |  7 +++----
 ecma/parser/ast.go     | 13 +++++++++----
 ecma/parser/parser.go  |  7 ++++++-
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/ecma/estree/convert.go b/ecma/estree/convert.go
index 54d83e5..3405ccd 100644
--- a/ecma/estree/convert.go
+++ b/ecma/estree/convert.go
@@ -1304,8 +1304,7 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 		if tpl.Tag() == nil {
 			return tplLiteral(tpl.Range(), tpl.Elems(), ctx)
 		}
-		locWithTag := tpl.Tag().Range()
-		locWithTag.Hi = tpl.Range().Hi
+		locWithTag := tpl.Range()
 		tag := tpl.Tag()
 		if wt, ok := tag.(parser.NodeWithTypInfo); ok {
 			ti := wt.TypInfo()
@@ -1316,7 +1315,7 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 					End:            int(locWithTag.Hi),
 					Loc:            locOfRng(locWithTag, ctx.Parser.Source(), ctx),
 					Tag:            Convert(tpl.Tag(), ctx),
-					Quasi:          tplLiteral(tpl.Range(), tpl.Elems(), ctx),
+					Quasi:          tplLiteral(tpl.QuasiRange(), tpl.Elems(), ctx),
 					TypeParameters: typArgs(ti, ctx),
 				}
 			}
@@ -1327,7 +1326,7 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 			End:   int(locWithTag.Hi),
 			Loc:   locOfRng(locWithTag, ctx.Parser.Source(), ctx),
 			Tag:   Convert(tpl.Tag(), ctx),
-			Quasi: tplLiteral(tpl.Range(), tpl.Elems(), ctx),
+			Quasi: tplLiteral(tpl.QuasiRange(), tpl.Elems(), ctx),
 		}
 	case parser.N_STMT_IMPORT:
 		stmt := node.(*parser.ImportDec)
diff --git a/ecma/parser/ast.go b/ecma/parser/ast.go
index 5f3421f..f1dcf31 100644
--- a/ecma/parser/ast.go
+++ b/ecma/parser/ast.go
@@ -5,10 +5,10 @@ import (
 )
 
 // AST nodes are referred to [ESTree](https://github.com/estree/estree/blob/master/es5.md) with some variants:
-// - flattened struct is used instead of inheritance
-// - fields are not fully described as they are claimed in ESTree, eg. the field names in this file are shorter then
-//   their equivalent of ESTree. for the requirement what the ESTree compatible output is needed, use the `estree` package
-//   to do the transformation
+//   - flattened struct is used instead of inheritance
+//   - fields are not fully described as they are claimed in ESTree, eg. the field names in this file are shorter then
+//     their equivalent of ESTree. for the requirement what the ESTree compatible output is needed, use the `estree` package
+//     to do the transformation
 type Node interface {
 	Type() NodeType
 	Range() span.Range
@@ -895,6 +895,11 @@ type TplExpr struct {
 	tag   Node
 	elems []Node
 	opa   span.Range
+	quasi span.Range // the range of the template without its tag
+}
+
+func (n *TplExpr) QuasiRange() span.Range {
+	return n.quasi
 }
 
 func (n *TplExpr) Tag() Node {
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index defcb93..40d3a19 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4813,7 +4813,12 @@ func (p *Parser) tplExpr(tag Node, ts bool) (Node, error) {
 		}
 	}
 
-	return &TplExpr{N_EXPR_TPL, p.finRng(rng), tag, elems, span.Range{}}, nil
+	quasi := p.finRng(rng)
+	rng = quasi
+	if tag != nil {
+		rng.Lo = tag.Range().Lo
+	}
+	return &TplExpr{N_EXPR_TPL, rng, tag, elems, span.Range{}, quasi}, nil
 }
 
 func (p *Parser) argsToParams(args []Node) ([]Node, error) {
-- 
2.43.0


From 461f7e536a48828da5e0499f1c14c3686d46ddca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:11 +0000
Subject: [PATCH 010/191] fix: end the directive prologue at the first other
 statement

---
 ecma/parser/parser.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 40d3a19..ff7e27e 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3019,9 +3019,7 @@ func (p *Parser) stmts(terminal TokenValue) ([]Node, error) {
 			if prologue != -1 && (scope.IsKind(SPK_FUNC) || scope.IsKind(SPK_GLOBAL)) {
 				strict, dir := p.isDirective(stmt)
 				if !dir {
-					if prologue == 0 {
-						prologue = -1
-					}
+					prologue = -1
 				} else {
 					stmt.(*ExprStmt).dir = true
 				}
-- 
2.43.0


From 99d9a21ef605e4b81955edd659f5d61c921d4e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:14 +0000
Subject: [PATCH 011/191] fix: drop the line continuation of a string which
 contains nothing else

---
 ecma/parser/lexer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index c5462a1..9ce91df 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1172,8 +1172,11 @@ func (l *Lexer) readStr() *Token {
 		}
 	}
 
-	if buf != nil {
+	if len(buf) > 0 {
 		tok.text = util.Bytes2str(&buf)
+	} else if buf != nil {
+		// there are nothing but LineContinuations
+		tok.txt.Hi = tok.txt.Lo
 	}
 
 	tok.ext = &TokExtStr{open, legacyOctalEscapeSeq}
-- 
2.43.0


From 73a2bc71e60de17d6e31f8c0e17338da8e21ba8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:40 +0000
Subject: [PATCH 012/191] fix: accept computed members of super

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index ff7e27e..18faf94 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5747,7 +5747,7 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 			return nil, p.errorAtLoc(loc, em)
 		}
 
-		if ahead.value != T_DOT && ahead.value != T_PAREN_L {
+		if ahead.value != T_DOT && ahead.value != T_PAREN_L && ahead.value != T_BRACKET_L {
 			return nil, p.errorTok(sup)
 		}
 		return &Super{N_SUPER, p.finRng(loc), span.Range{}, nil}, nil
-- 
2.43.0


From 9fceadd50061f15c0e737668d2e8d8beb4d23f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:09 +0000
Subject: [PATCH 013/191] fix: let an await expression be the operand of await
 and yield

---
 ecma/parser/token.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/token.go b/ecma/parser/token.go
index dcc7000..b2c4eaf 100644
--- a/ecma/parser/token.go
+++ b/ecma/parser/token.go
@@ -411,7 +411,7 @@ var TokenKinds = [T_TOKEN_DEF_END + 1]*TokenKind{
 	{T_CTX_KEYWORD_STRICT_END, "contextual keyword strict end", 0, false, false, false},
 	{T_AS, "as", 0, false, false, false},
 	{T_ASYNC, "async", 0, false, false, false},
-	{T_AWAIT, "await", 0, true, true, false},
+	{T_AWAIT, "await", 0, true, true, true},
 	{T_FROM, "from", 0, false, false, false},
 	{T_GET, "get", 0, false, false, false},
 	{T_META, "meta", 0, false, false, false},
-- 
2.43.0


From 548e2b8b403b063b4990b093136114f9e0b691b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:17 +0000
Subject: [PATCH 014/191] fix: do not panic on deleting an optional call

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 18faf94..f3dfc7c 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4320,7 +4320,7 @@ func (p *Parser) unaryExpr(typArgs Node, typArgsLoc span.Range, notColon bool) (
 			if at == N_EXPR_MEMBER {
 				m = arg.(*MemberExpr)
 			} else if at == N_EXPR_CHAIN {
-				m = arg.(*ChainExpr).expr.(*MemberExpr)
+				m, _ = arg.(*ChainExpr).expr.(*MemberExpr)
 			}
 
 			if m != nil && m.prop.Type() == N_NAME {
-- 
2.43.0


From 239d9d11c8c3da02479e05c9df183810758c06de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:24 +0000
Subject: [PATCH 015/191] fix: do not panic on array holes in default values

---
 ecma/parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index f3dfc7c..315c6a7 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4835,6 +4835,10 @@ func (p *Parser) argsToParams(args []Node) ([]Node, error) {
 
 // `yield` indicates whether the yield-expr is permitted
 func (p *Parser) checkDefaultVal(val Node, yield bool, destruct bool, field bool) error {
+	// `val` is nil if it's the hole of array literal or the value of shorthand property
+	if val == nil {
+		return nil
+	}
 	switch val.Type() {
 	case N_EXPR_YIELD:
 		scope := p.scope()
-- 
2.43.0


From cc77054a82d18529ddf13d3bdaf6adc7ae8b191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:32 +0000
Subject: [PATCH 016/191] fix: mark only the call next to the optional chaining
 operator as optional

---
 ecma/parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 315c6a7..38942a3 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4682,6 +4682,8 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 				}
 			} else {
 				callee = &CallExpr{N_EXPR_CALL, p.finRng(rng), callee, args, directOpt, span.Range{}, ti}
+				// only the call next to `?.` is optional
+				directOpt = false
 			}
 		} else if tv == T_BRACKET_L || tv == T_DOT || tv == T_OPT_CHAIN {
 			callee, fo, err = p.memberExpr(callee, true, root, firstOpt)
-- 
2.43.0


From d905d0b5722115b091383da0d20cfa4742a0089b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:42 +0000
Subject: [PATCH 017/191] fix: accept async as a label

---
 ecma/parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 38942a3..2f73840 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1930,7 +1930,7 @@ func (p *Parser) retStmt() (Node, error) {
 
 func (p *Parser) aheadIsLabel(tok *Token) bool {
 	if tok.value == T_NAME {
-		ahead := p.lexer.PeekGrow()
+		ahead := p.lexer.Peek2nd()
 		return ahead.value == T_COLON
 	}
 	return false
@@ -3122,7 +3122,7 @@ func (p *Parser) aheadIsVarDec(tok *Token) (bool, TokenValue) {
 		// an additional lookahead is needed to judge the various:
 		// - `let + 1`
 		// - `let a`
-		ahead := p.lexer.PeekGrow()
+		ahead := p.lexer.Peek2nd()
 		av := ahead.value
 		if !ahead.afterLineTerm && (av == T_NAME ||
 			(av > T_CTX_KEYWORD_BEGIN && av < T_CTX_KEYWORD_END) ||
-- 
2.43.0


From a508cc223204468003c23dbcd1c93b8c6503b067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:50 +0000
Subject: [PATCH 018/191] fix: let brackets and template substitutions end with
 an arrow function with block body

---
 ecma/parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 2f73840..9aa7c1c 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -6427,7 +6427,8 @@ func (p *Parser) nameOfNode(node Node) string {
 func (p *Parser) isExprOpening(raise bool) (*Token, error) {
 	tok := p.lexer.PeekStmtBegin()
 	tv := tok.value
-	if raise && tv != T_SEMI && tv != T_BRACE_R && tv != T_COMMA && tv != T_PAREN_R && tv != T_COLON && !tok.afterLineTerm && tv != T_EOF {
+	if raise && tv != T_SEMI && tv != T_BRACE_R && tv != T_COMMA && tv != T_PAREN_R && tv != T_COLON &&
+		tv != T_BRACKET_R && tv != T_TPL_SPAN && tv != T_TPL_TAIL && !tok.afterLineTerm && tv != T_EOF {
 		errMsg := ERR_UNEXPECTED_TOKEN
 		if tok.value == T_ILLEGAL {
 			if msg, ok := tok.ext.(string); ok {
-- 
2.43.0


From 3fe765ae60e3eacd6ad72ecc4dabec4189e95966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:15 +0000
Subject: [PATCH 019/191] fix: accept a parenthesized member expression as an
 assignment target

---
 ecma/parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 9aa7c1c..ffd29a8 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5145,8 +5145,8 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 		return rest, nil
 	case N_EXPR_PAREN:
 		sub := arg.(*ParenExpr).expr
-		if !destruct || !p.isPrimitive(sub) && !p.isTsLhs(sub) {
-			st := sub.Type()
+		st := sub.Type()
+		if !destruct || !p.isPrimitive(sub) && !p.isTsLhs(sub) && st != N_EXPR_MEMBER && st != N_EXPR_PAREN {
 			if !(destruct && st == N_EXPR_BIN && sub.(*BinExpr).op == T_TS_AS) {
 				if st != N_LIT_ARR && st != N_LIT_OBJ && st != N_NAME {
 					return nil, p.errorAtLoc(sub.Range(), ERR_ASSIGN_TO_RVALUE)
-- 
2.43.0


From 4102094faaf3c16c92e4b01f85e2c02325a1c314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:22 +0000
Subject: [PATCH 020/191] fix: accept a member expression as the target of a
 rest element

---
 ecma/parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index ffd29a8..0b99f7d 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5113,6 +5113,8 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 			} else {
 				return nil, p.errorAtLoc(n.arg.Range(), ERR_INVALID_PAREN_ASSIGN_PATTERN)
 			}
+		} else if destruct && at == N_EXPR_MEMBER {
+			// `[...a.b] = c` and `({...a.b} = c)` are legal
 		} else if p.feat&FEAT_BINDING_REST_ELEM_NESTED != 0 && (at == N_LIT_ARR || at == N_LIT_OBJ) {
 			arg, err := p.argToParam(n.arg, depth, prop, destruct, inParen)
 			if err != nil {
-- 
2.43.0


From fc45093f1a07c669a9e5a05ddbf25f51575e04b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:30 +0000
Subject: [PATCH 021/191] fix: accept members and calls of new.target

---
 ecma/parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 0b99f7d..7d2aa7d 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4468,7 +4468,8 @@ func (p *Parser) newExpr() (Node, error) {
 		}
 
 		expr = &MetaProp{N_META_PROP, p.finRng(rng), meta, id}
-		return expr, nil
+		expr, _, err = p.callExpr(expr, true, false, span.Range{}, false)
+		return expr, err
 	}
 
 	var optLoc span.Range
-- 
2.43.0


From 387fc1014fa81f89f4996d59cd2df1bcc2b624a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:15 +0000
Subject: [PATCH 022/191] fix: attach arguments and templates to the right
 operand of nested new expressions

---
 ecma/parser/parser.go | 47 +++++++++++++++++--------------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 7d2aa7d..c404aaf 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4423,7 +4423,7 @@ func (p *Parser) lhs(notColon bool) (Node, error) {
 	var node Node
 	var err error
 	if tok.value == T_NEW {
-		node, err = p.newExpr()
+		node, err = p.newExpr(false)
 	} else {
 		node, _, err = p.callExpr(nil, true, false, span.Range{}, notColon)
 	}
@@ -4441,7 +4441,9 @@ func (p *Parser) lhs(notColon bool) (Node, error) {
 }
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-expressions.html#prod-NewExpression
-func (p *Parser) newExpr() (Node, error) {
+// `callee` indicates whether the expr is the callee of another `new`, for which the following
+// arguments belong to that `new`
+func (p *Parser) newExpr(callee bool) (Node, error) {
 	rng := p.rng()
 	new := p.lexer.Next()
 
@@ -4468,6 +4470,9 @@ func (p *Parser) newExpr() (Node, error) {
 		}
 
 		expr = &MetaProp{N_META_PROP, p.finRng(rng), meta, id}
+		if callee {
+			return expr, nil
+		}
 		expr, _, err = p.callExpr(expr, true, false, span.Range{}, false)
 		return expr, err
 	}
@@ -4515,7 +4520,7 @@ func (p *Parser) newExpr() (Node, error) {
 		// ```
 		// new C``
 		// ```
-		if len(args) == 0 && p.lexer.Peek().value == T_TPL_HEAD {
+		if args == nil && p.lexer.Peek().value == T_TPL_HEAD {
 			if wt, ok := expr.(NodeWithTypInfo); ok {
 				wt.SetTypInfo(ti)
 			}
@@ -4526,31 +4531,12 @@ func (p *Parser) newExpr() (Node, error) {
 		}
 	}
 
-	var ret Node
-	ret = &NewExpr{N_EXPR_NEW, p.finRng(rng), expr, args, span.Range{}, ti}
-	root := true
-	for {
-		tok := p.lexer.Peek()
-		tv := tok.value
-		if p.aheadIsArgList(tok) {
-			if ret, _, err = p.callExpr(ret, root, false, span.Range{}, false); err != nil {
-				return nil, err
-			}
-		} else if tv == T_BRACKET_L || tv == T_DOT || tv == T_OPT_CHAIN {
-			if tv == T_OPT_CHAIN {
-				optLoc = tok.rng
-			}
-			if ret, _, err = p.memberExpr(ret, true, root, optLoc); err != nil {
-				return nil, err
-			}
-		} else {
-			break
-		}
-		if root {
-			root = false
-		}
+	node := &NewExpr{N_EXPR_NEW, p.finRng(rng), expr, args, span.Range{}, ti}
+	if callee {
+		return node, nil
 	}
-	return ret, nil
+	expr, _, err = p.callExpr(node, true, false, span.Range{}, false)
+	return expr, err
 }
 
 func (p *Parser) checkCallee(callee Node, nextLoc span.Range) error {
@@ -5538,7 +5524,7 @@ func (p *Parser) memberExpr(obj Node, call bool, root bool, optLoc span.Range) (
 	var err error
 	if obj == nil {
 		if p.lexer.Peek().value == T_NEW {
-			if obj, err = p.newExpr(); err != nil {
+			if obj, err = p.newExpr(true); err != nil {
 				return nil, span.Range{}, err
 			}
 		} else if obj, err = p.memberExprObj(); err != nil {
@@ -5580,6 +5566,11 @@ func (p *Parser) memberExpr(obj Node, call bool, root bool, optLoc span.Range) (
 			if obj, err = p.memberExprPropDot(obj, false); err != nil {
 				return nil, span.Range{}, err
 			}
+		} else if tv == T_TPL_HEAD && !call {
+			// the template directly follows the callee of `new`
+			if obj, err = p.tplExpr(obj, false); err != nil {
+				return nil, span.Range{}, err
+			}
 		} else {
 			break
 		}
-- 
2.43.0


From 8528647700306b9d6ca96097f2bb17c79e89b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:24 +0000
Subject: [PATCH 023/191] fix: end the body of an async arrow function at the
 comma

---
 ecma/parser/parser.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index c404aaf..ef0d376 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2682,7 +2682,10 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 				return nil, err
 			}
 		} else if expr || arrow {
-			if body, err = p.expr(); err != nil {
+			if ps.IsKind(SPK_NOT_IN) {
+				scope.AddKind(SPK_NOT_IN)
+			}
+			if body, err = p.assignExpr(true, false, false, false); err != nil {
 				return nil, err
 			}
 		} else if fn && !expr && tok.value == T_FUNC && tok.afterLineTerm && p.ts {
@@ -2809,10 +2812,14 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		if expr {
 			return fn, nil
 		}
+		seq, err := p.seqExpr(fn, false)
+		if err != nil {
+			return nil, err
+		}
 		if err := p.advanceIfSemi(true); err != nil {
 			return nil, err
 		}
-		return &ExprStmt{N_STMT_EXPR, p.finRng(rng), fn, false}, nil
+		return &ExprStmt{N_STMT_EXPR, p.finRng(rng), seq, false}, nil
 	}
 
 	typ := N_STMT_FN
-- 
2.43.0


From 7b06bb659d2ecb2afec303bb4036126fba594c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:37 +0000
Subject: [PATCH 024/191] fix: keep the properties of a parenthesized object
 literal as expressions

---
 ecma/parser/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index ef0d376..f97c164 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4976,7 +4976,9 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 		}
 		return n, nil
 	case N_PROP:
-		n := arg.(*Prop)
+		// the arg may turn out to be an expr finally, so it should not be changed
+		dup := *arg.(*Prop)
+		n := &dup
 		var err error
 		if n.value != nil {
 			if n.value.Type() == N_EXPR_FN && depth > 0 {
@@ -5073,7 +5075,8 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 	case N_PAT_REST:
 		return arg, nil
 	case N_SPREAD:
-		n := arg.(*Spread)
+		dup := *arg.(*Spread)
+		n := &dup
 		if !n.tcLoc.Empty() {
 			return nil, p.errorAtLoc(n.tcLoc, ERR_REST_ELEM_MUST_LAST)
 		}
-- 
2.43.0


From 92bfecf8770a2c6630a8316142262c613960eb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:47 +0000
Subject: [PATCH 025/191] fix: accept a function as the default value in an
 object pattern

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index f97c164..0266250 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4981,7 +4981,7 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 		n := &dup
 		var err error
 		if n.value != nil {
-			if n.value.Type() == N_EXPR_FN && depth > 0 {
+			if n.value.Type() == N_EXPR_FN && depth > 0 && !n.assign {
 				return nil, p.errorAtLoc(arg.Range(), ERR_OBJ_PATTERN_CANNOT_FN)
 			}
 
-- 
2.43.0


From 1f9e05a02b395894d3968e566e01759f46e3d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:56 +0000
Subject: [PATCH 026/191] fix: do not swallow the text after a malformed hex
 escape in a tagged template

---
 ecma/parser/lexer.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 9ce91df..a89b96e 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1272,10 +1272,12 @@ func (l *Lexer) readOctalEscapeSeq(first rune) (rune, string, int) {
 
 func (l *Lexer) readHexEscapeSeq() (rune, string) {
 	hex := [2]rune{}
-	hex[0] = l.src.Read()
-	hex[1] = l.src.Read()
-	if !IsHexDigit(hex[0]) || !IsHexDigit(hex[1]) {
-		return utf8.RuneError, ERR_BAD_ESCAPE_SEQ
+	for i := range hex {
+		// do not consume the illegal digit since it maybe the end of the template
+		if !IsHexDigit(l.src.Peek()) {
+			return utf8.RuneError, ERR_BAD_ESCAPE_SEQ
+		}
+		hex[i] = l.src.Read()
 	}
 	r, err := strconv.ParseInt(string(hex[:]), 16, 32)
 	if err != nil {
-- 
2.43.0


From 7a77a9eb544cac6ded87de59d3a14d355c370fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:06 +0000
Subject: [PATCH 027/191] fix: read the replacement character in templates

---
 ecma/parser/lexer.go | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index a89b96e..70f07bc 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -578,11 +578,7 @@ func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err strin
 
 			// just records the first occurred escape error
 			if errEscape == "" {
-				if e != "" {
-					errEscape = e
-				} else if r == utf8.RuneError {
-					errEscape = ERR_BAD_ESCAPE_SEQ
-				}
+				errEscape = e
 			}
 
 			if r == span.EOF {
@@ -590,8 +586,6 @@ func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err strin
 				return
 			}
 			text = utf8.AppendRune(text, r)
-		} else if c == utf8.RuneError {
-			errEscape = ERR_BAD_RUNE
 		} else if c == span.EOF {
 			err = ERR_UNTERMINATED_TPL
 			return
-- 
2.43.0


From 54012bed8a8ab5a58f70507817beb97a899d8a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:38 +0000
Subject: [PATCH 028/191] fix: accept null escapes in templates and legacy
 octal escapes in strings inside of them

---
 ecma/parser/lexer.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 70f07bc..2b45a46 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -571,7 +571,7 @@ func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err strin
 				continue
 			}
 
-			r, e, lo := l.readEscapeSeq()
+			r, e, lo := l.readEscapeSeq(true)
 			if !legacyOctalEscapeSeq && lo {
 				legacyOctalEscapeSeq = lo
 			}
@@ -1130,7 +1130,7 @@ func (l *Lexer) readStr() *Token {
 				}
 				l.readLineTerm() // LineContinuation
 			} else {
-				r, err, lo := l.readEscapeSeq()
+				r, err, lo := l.readEscapeSeq(false)
 				if !legacyOctalEscapeSeq && lo {
 					legacyOctalEscapeSeq = lo
 				}
@@ -1196,7 +1196,9 @@ func (l *Lexer) readJsxStr() *Token {
 	return l.finToken(tok, T_STRING)
 }
 
-func (l *Lexer) readEscapeSeq() (r rune, errMsg string, octalEscapeSeq bool) {
+// `tpl` indicates whether the escape sequence is in template, where the legacy octal escape
+// sequences are not permitted
+func (l *Lexer) readEscapeSeq(tpl bool) (r rune, errMsg string, octalEscapeSeq bool) {
 	c := l.src.Read()
 	switch c {
 	case 'b':
@@ -1219,7 +1221,7 @@ func (l *Lexer) readEscapeSeq() (r rune, errMsg string, octalEscapeSeq bool) {
 		return
 	case '0', '1', '2', '3', '4', '5', '6', '7':
 		var i int
-		r, errMsg, i = l.readOctalEscapeSeq(c)
+		r, errMsg, i = l.readOctalEscapeSeq(c, tpl)
 		octalEscapeSeq = r != 0 || i != 1
 		return
 	case 'x':
@@ -1238,12 +1240,16 @@ func (l *Lexer) readEscapeSeq() (r rune, errMsg string, octalEscapeSeq bool) {
 }
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-lexical-grammar.html#prod-LegacyOctalEscapeSequence
-func (l *Lexer) readOctalEscapeSeq(first rune) (rune, string, int) {
+func (l *Lexer) readOctalEscapeSeq(first rune, tpl bool) (rune, string, int) {
 	octal := make([]rune, 0, 3)
 	octal = append(octal, first)
 	zeroToThree := first >= '0' && first <= '3'
 	i := 1
-	if l.IsMode(LM_TEMPLATE) {
+	if tpl {
+		// `\0` is permitted if it's not followed by decimal digit
+		if first == '0' && !IsDecimalDigit(l.src.Peek()) {
+			return 0, "", i
+		}
 		return utf8.RuneError, ERR_TPL_LEGACY_OCTAL_ESCAPE_IN, 0
 	}
 	for {
-- 
2.43.0


From 678ee3beb21e321b423bd905d5684a0111e1201a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:49 +0000
Subject: [PATCH 029/191] fix: join the surrogate pairs written as unicode
 escapes

---
 ecma/parser/lexer.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 2b45a46..402d917 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"strconv"
 	"unicode"
+	"unicode/utf16"
 	"unicode/utf8"
 
 	span "github.com/hsiaosiyuan0/mole/span"
@@ -1232,6 +1233,8 @@ func (l *Lexer) readEscapeSeq(tpl bool) (r rune, errMsg string, octalEscapeSeq b
 		r, err = l.readUnicodeEscapeSeq(false, l.src.Ofst())
 		if err != nil {
 			errMsg = err.msg
+		} else if utf16.IsSurrogate(r) {
+			r = l.readLowSurrogate(r)
 		}
 		return
 	}
@@ -1239,6 +1242,25 @@ func (l *Lexer) readEscapeSeq(tpl bool) (r rune, errMsg string, octalEscapeSeq b
 	return
 }
 
+// joins the surrogate `r` with the unicode escape sequence after it if they're
+// a surrogate pair
+func (l *Lexer) readLowSurrogate(r rune) rune {
+	if !l.src.AheadIsChs2('\\', 'u') {
+		return r
+	}
+	l.src.PushState()
+	l.src.Read()
+	l.src.Read()
+	if low, err := l.readHex4Digits(false, l.src.Ofst()); err == nil {
+		if pair := utf16.DecodeRune(r, low); pair != utf8.RuneError {
+			l.src.DiscardState()
+			return pair
+		}
+	}
+	l.src.PopState()
+	return r
+}
+
 // https://tc39.es/ecma262/multipage/ecmascript-language-lexical-grammar.html#prod-LegacyOctalEscapeSequence
 func (l *Lexer) readOctalEscapeSeq(first rune, tpl bool) (rune, string, int) {
 	octal := make([]rune, 0, 3)
-- 
2.43.0


From 6e8ec1786a15d5718d1d4cc42e1a5096d63ea420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:32 +0000
Subject: [PATCH 030/191] fix: evaluate numbers which exceed 32 bits or start
 with a zero

---
 ecma/parser/astutil.go | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/ecma/parser/astutil.go b/ecma/parser/astutil.go
index 4e6757a..d26608e 100644
--- a/ecma/parser/astutil.go
+++ b/ecma/parser/astutil.go
@@ -58,25 +58,30 @@ func ParseBigint(t string) *big.Int {
 	return i
 }
 
+func parseRadix(t string, radix int) float64 {
+	i, ok := new(big.Int).SetString(t, radix)
+	if !ok {
+		return 0
+	}
+	f, _ := new(big.Float).SetInt(i).Float64()
+	return f
+}
+
 func ParseFloat(t string) float64 {
 	t = strings.ReplaceAll(t, "_", "")
 
 	if strings.HasPrefix(t, "0x") || strings.HasPrefix(t, "0X") {
-		f, _ := strconv.ParseUint(t[2:], 16, 32)
-		return float64(f)
+		return parseRadix(t[2:], 16)
 	}
 	if strings.HasPrefix(t, "0o") || strings.HasPrefix(t, "0O") {
-		f, _ := strconv.ParseUint(t[2:], 8, 32)
-		return float64(f)
+		return parseRadix(t[2:], 8)
 	}
 	if strings.HasPrefix(t, "0b") || strings.HasPrefix(t, "0B") {
-		f, _ := strconv.ParseUint(t[2:], 2, 32)
-		return float64(f)
+		return parseRadix(t[2:], 2)
 	}
-	if strings.HasPrefix(t, "0") && len(t) > 1 {
-		t = strings.TrimLeft(t, "0")
-		f, _ := strconv.ParseUint(t, 8, 32)
-		return float64(f)
+	// legacy octal, numbers like `0.1` and `09` are decimal
+	if strings.HasPrefix(t, "0") && len(t) > 1 && strings.Trim(t, "01234567") == "" {
+		return parseRadix(t, 8)
 	}
 	f, _ := strconv.ParseFloat(t, 64)
 	return f
-- 
2.43.0


From 6d3a01793f9da0cc4b1eb10438e099ce2502ffed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:13 +0000
Subject: [PATCH 031/191] fix: accept the numeric separator next to the first
 digit

---
 ecma/parser/lexer.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 402d917..e950ebd 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1366,10 +1366,10 @@ func (l *Lexer) readNum() *Token {
 func (l *Lexer) readDecimalNum(tok *Token, first rune) *Token {
 	if first != '.' && first != '0' {
 		c := l.src.Peek()
-		if c != 'e' && c != 'E' && c != 'n' && IsIdStart(c) {
+		if c != 'e' && c != 'E' && c != 'n' && !(c == '_' && l.feat&FEAT_NUM_SEP != 0) && IsIdStart(c) {
 			return l.errTokOfst(nil, ERR_IDENT_AFTER_NUMBER, l.src.Ofst())
 		}
-		if err := l.readDecimalDigits(true); err != "" {
+		if err := l.readDecimalDigits(true, 1); err != "" {
 			if err == ERR_NUM_SEP_END {
 				tok := l.newToken()
 				return l.errTokOfst(tok, err, l.src.Ofst()-1)
@@ -1385,7 +1385,7 @@ func (l *Lexer) readDecimalNum(tok *Token, first rune) *Token {
 			float = true
 		}
 		// read the fraction part
-		if err := l.readDecimalDigits(true); err != "" {
+		if err := l.readDecimalDigits(true, 0); err != "" {
 			if err == ERR_NUM_SEP_END {
 				tok := l.newToken()
 				return l.errTokMsg(tok, err)
@@ -1427,12 +1427,11 @@ func (l *Lexer) readExpPart() string {
 	if l.src.AheadIsChOr('+', '-') {
 		l.src.Read()
 	}
-	return l.readDecimalDigits(false)
+	return l.readDecimalDigits(false, 0)
 }
 
-func (l *Lexer) readDecimalDigits(opt bool) string {
-	i := 0
-
+// `i` is the count of the digits which are already read
+func (l *Lexer) readDecimalDigits(opt bool, i int) string {
 	var last rune
 	for {
 		c := l.src.Peek()
-- 
2.43.0


From aff44a7f933172085ca01e0f89329b593a68e653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:04:21 +0000
Subject: [PATCH 032/191] fix: let modifier letters and letter numbers begin
 identifiers

---
 ecma/parser/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index e950ebd..d09d222 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1836,7 +1836,7 @@ func IsIdStart(c rune) bool {
 		return true
 	}
 	if unicode.In(c, unicode.Upper, unicode.Lower,
-		unicode.Title, unicode.Modi,
+		unicode.Title, unicode.Lm, unicode.Nl,
 		unicode.Other_Lowercase,
 		unicode.Other_Uppercase,
 		unicode.Other_ID_Start) {
-- 
2.43.0


From f3ce549a5a0fd2306f60ebd18637227d5e85858d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:29 +0000
Subject: [PATCH 033/191] fix: accept eval in class field initializers

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 0266250..5d6f241 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3283,7 +3283,7 @@ func (p *Parser) isProhibitedName(scope *Scope, name string, withStrict bool, lV
 	if strict && ok {
 		return true
 	}
-	if (strict && lVal || field) && (name == "eval" || name == "arguments") {
+	if strict && lVal && name == "eval" || (strict && lVal || field) && name == "arguments" {
 		return true
 	}
 	return scope.IsKind(SPK_ASYNC) && name == "await"
-- 
2.43.0


From 01705ed78d773b00bb2f2a21311a40acef3f3616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:39 +0000
Subject: [PATCH 034/191] fix: permit the operator in inside of brackets and
 arguments in the head of a for statement

---
 ecma/parser/parser.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 5d6f241..7a66366 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4757,6 +4757,7 @@ func (p *Parser) importCall(tok *Token) (Node, error) {
 }
 
 func (p *Parser) tplExpr(tag Node, ts bool) (Node, error) {
+	defer p.allowIn()()
 
 	if tag != nil {
 		if tag.Type() == N_EXPR_CHAIN {
@@ -5333,6 +5334,7 @@ func (p *Parser) checkArgs(args []Node, spread bool, simplicity bool) error {
 }
 
 func (p *Parser) argList(check bool, incall bool, asyncLoc span.Range, noJsx bool) ([]Node, span.Range, Node, Node, error) {
+	defer p.allowIn()()
 	typArgs, err := p.tsTryTypArgs(asyncLoc, noJsx)
 	if err != nil {
 		return nil, span.Range{}, nil, nil, err
@@ -5620,7 +5622,19 @@ func (p *Parser) memberExprObj() (Node, error) {
 	return obj, nil
 }
 
+// the operator `in` is permitted in the brackets, parens, braces and substitutions even if the expr
+// which contains them does not permit it, the returned function restores the state of that expr
+func (p *Parser) allowIn() func() {
+	scope := p.scope()
+	if !scope.IsKind(SPK_NOT_IN) {
+		return func() {}
+	}
+	scope.EraseKind(SPK_NOT_IN)
+	return func() { scope.AddKind(SPK_NOT_IN) }
+}
+
 func (p *Parser) memberExprPropSubscript(obj Node, opt bool) (Node, error) {
+	defer p.allowIn()()
 	p.lexer.Next()
 	prop, err := p.expr()
 	if err != nil {
@@ -5974,6 +5988,7 @@ func UnParen(expr Node) Node {
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-expressions.html#prod-ArrayLiteral
 func (p *Parser) arrLit() (Node, error) {
+	defer p.allowIn()()
 	loc := p.rng()
 	p.lexer.Next()
 
@@ -6049,6 +6064,7 @@ func (p *Parser) spread() (Node, error) {
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-expressions.html#prod-ObjectLiteral
 func (p *Parser) objLit() (Node, error) {
+	defer p.allowIn()()
 	loc := p.rng()
 	p.lexer.Next()
 
-- 
2.43.0


From 287fa87b0ed04610b66ba9bbbe9fe1917c4768ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:10 +0000
Subject: [PATCH 035/191] fix: leave the arguments after a function expression
 to the expression which contains it

---
 ecma/parser/parser.go | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 7a66366..df1c893 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2833,14 +2833,6 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	}
 	s.Node = fnDec
 
-	if expr && p.lexer.Peek().value == T_PAREN_L {
-		node, _, err := p.callExpr(fnDec, true, false, span.Range{}, false)
-		if err != nil {
-			return nil, err
-		}
-		return node, nil
-	}
-
 	if !expr && p.ts {
 		if body == nil {
 			p.lastTsFnSig = fnDec
-- 
2.43.0


From 5deaa27c617fd56cffead73a6c4bb5cbd3ccd5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:55 +0000
Subject: [PATCH 036/191] fix: accept keywords as the name of a namespace
 export

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index df1c893..a8fda93 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -656,7 +656,7 @@ func (p *Parser) exportFrom(typ bool) ([]Node, bool, Node, error) {
 		if ahead.value == T_NAME && ahead.text == "as" && p.feat&FEAT_EXPORT_ALL_AS_NS != 0 {
 			p.lexer.Next()
 
-			id, err := p.ident(nil, false)
+			id, err := p.identWithKw(nil, false)
 			if err != nil {
 				return nil, false, nil, err
 			}
-- 
2.43.0


From 438318e3d305988e14ffe578baa9924fdb093e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:40 +0000
Subject: [PATCH 037/191] fix: accept patterns with nested defaults as arrow
 params

---
 ecma/parser/parser.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index a8fda93..3792afd 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5054,6 +5054,17 @@ func (p *Parser) argToParam(arg Node, depth int, prop bool, destruct bool, inPar
 			rhs: n.rhs,
 		}
 		return p, nil
+	case N_PAT_ASSIGN:
+		// same as the case `N_PAT_OBJ`, the pattern made by the previous `argToParam`
+		// is needed to be checked again
+		n := arg.(*AssignPat)
+		if _, err := p.argToParam(n.lhs, depth+1, false, destruct, inParen); err != nil {
+			return nil, err
+		}
+		if err := p.checkDefaultVal(n.rhs, destruct, destruct, false); err != nil {
+			return nil, err
+		}
+		return n, nil
 	case N_NAME:
 		id := arg.(*Ident)
 		name := arg.(*Ident).val
-- 
2.43.0


From fa3763659e66b4ffb3f8eba680f458afdc58d391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:50 +0000
Subject: [PATCH 038/191] fix: treat U+FEFF as white space and U+0085 not

---
 span/source.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/span/source.go b/span/source.go
index a1d26a1..08a155c 100644
--- a/span/source.go
+++ b/span/source.go
@@ -176,6 +176,12 @@ func IsLineTerminator(c rune) bool {
 	return c == 0x0a || c == 0x0d || c == 0x2028 || c == 0x2029
 }
 
+// whitespace and line terminators of ECMAScript, U+0085 is a `unicode.White_Space`
+// but not one of them, and U+FEFF is the opposite
+func IsWhitespace(c rune) bool {
+	return c == 0xfeff || c != 0x85 && unicode.IsSpace(c)
+}
+
 // ofst base on byte
 func (s *Source) Ofst() uint32 {
 	return s.state.ofst
@@ -205,7 +211,7 @@ func (s *Source) SkipSpace() *Source {
 	s.state.metLineTerm = false
 	for {
 		c := s.Peek()
-		if !unicode.IsSpace(c) || c == EOF {
+		if !IsWhitespace(c) || c == EOF {
 			break
 		}
 		if IsLineTerminator(c) {
-- 
2.43.0


From f0788f0eb430fb1c25f78865069a35a3414e6dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:18:59 +0000
Subject: [PATCH 039/191] fix: permit newline after let and const in sloppy
 mode

---
 ecma/parser/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 3792afd..3702eb6 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3114,7 +3114,8 @@ func (p *Parser) aheadIsVarDec(tok *Token) (bool, TokenValue) {
 			return false, T_ILLEGAL
 		}
 
-		if p.scope().IsKind(SPK_STRICT) {
+		// `const` is reserved in sloppy mode too
+		if v == T_CONST || p.scope().IsKind(SPK_STRICT) {
 			return true, v
 		}
 
@@ -3123,7 +3124,9 @@ func (p *Parser) aheadIsVarDec(tok *Token) (bool, TokenValue) {
 		// - `let a`
 		ahead := p.lexer.Peek2nd()
 		av := ahead.value
-		if !ahead.afterLineTerm && (av == T_NAME ||
+		// a newline ends `let` only where a declaration is not permitted: `if (1) let\n{}`
+		nl := ahead.afterLineTerm && p.scope().IsKind(SPK_INTERIM)
+		if !nl && (av == T_NAME ||
 			(av > T_CTX_KEYWORD_BEGIN && av < T_CTX_KEYWORD_END) ||
 			av == T_BRACE_L || av == T_BRACKET_L) {
 			return true, v
-- 
2.43.0


From 8452e5665cc5dbede3f1b35ca31b588b9bd2bd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:29 +0000
Subject: [PATCH 040/191] fix: restore the lexer mode after async and generator
 functions

---
 ecma/parser/lexer.go  | 11 +++++++++++
 ecma/parser/parser.go |  6 ++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index d09d222..593ba1d 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -313,6 +313,17 @@ func (l *Lexer) EraseMode(mode LexerModeKind) {
 	cur.kind &= ^mode
 }
 
+// turns the `mode` on or off, returns whether it was on
+func (l *Lexer) switchMode(mode LexerModeKind, on bool) bool {
+	prev := l.IsMode(mode)
+	if on {
+		l.AddMode(mode)
+	} else {
+		l.EraseMode(mode)
+	}
+	return prev
+}
+
 func (l *Lexer) IsMode(mode LexerModeKind) bool {
 	return l.CurMode().kind&mode > 0
 }
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 3702eb6..15f6aad 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2583,8 +2583,8 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	scope := p.symtab.EnterScope(true, false, true)
 	if async != nil {
 		scope.AddKind(SPK_ASYNC)
-		p.lexer.AddMode(LM_ASYNC)
 	}
+	outerAsync := p.lexer.switchMode(LM_ASYNC, async != nil)
 	// 'yield' as function names
 	if generator {
 		p.scope().AddKind(SPK_GENERATOR)
@@ -2705,6 +2705,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		// this branch means the input is callExpr like:
 		// `async ({a: b = c})` callExpr
 		// `async* ({a: b = c})` binExpr
+		p.lexer.switchMode(LM_ASYNC, outerAsync)
 		lhs := &Ident{N_NAME, asyncLoc, "async", false, asyncHasEscape, span.Range{}, true, p.newTypInfo(N_NAME)}
 
 		var exp Node
@@ -2756,8 +2757,9 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	}
 
 	if generator {
-		p.lexer.PopMode()
+		p.lexer.EraseMode(LM_GENERATOR)
 	}
+	p.lexer.switchMode(LM_ASYNC, outerAsync)
 
 	isStrict := scope.IsKind(SPK_STRICT)
 	directStrict := scope.IsKind(SPK_STRICT_DIR)
-- 
2.43.0


From a0695ab676ada9884c5a37f7bc1e392b12aecb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:57 +0000
Subject: [PATCH 041/191] fix: parse the computed name of methods in the outer
 scope, constructor is special only in classes

---
 ecma/parser/parser.go | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 15f6aad..f6a56da 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -6180,18 +6180,10 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 		rng = p.rng()
 	}
 
-	scope := p.symtab.EnterScope(true, false, true)
-	scope.AddKind(SPK_METHOD)
-	if kind == PK_CTOR && !static {
-		scope.AddKind(SPK_CTOR)
-	}
-	p.incRetsStk()
-
 	// depart `gen` and `async` here since below stmt is legal:
 	// `class a{ async *a() {} }`
 	if async {
 		p.lexer.Next()
-		scope.AddKind(SPK_ASYNC)
 
 		ahead := p.lexer.Peek()
 		gen = ahead.value == T_MUL
@@ -6200,7 +6192,6 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 		}
 	}
 	if gen {
-		scope.AddKind(SPK_GENERATOR)
 		p.lexer.Next()
 	}
 
@@ -6238,8 +6229,23 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 		ti.SetOverride(override)
 	}
 
+	// the computed name of method does not belong to the scope of method
+	scope := p.symtab.EnterScope(true, false, true)
+	scope.AddKind(SPK_METHOD)
+	if kind == PK_CTOR && !static {
+		scope.AddKind(SPK_CTOR)
+	}
+	if async {
+		scope.AddKind(SPK_ASYNC)
+	}
+	if gen {
+		scope.AddKind(SPK_GENERATOR)
+	}
+	outerAsync := p.lexer.switchMode(LM_ASYNC, async)
+	p.incRetsStk()
+
 	ctor := false
-	if p.isName(key, "constructor", false, true) && compute.Empty() {
+	if inclass && !static && p.isName(key, "constructor", false, true) && compute.Empty() {
 		if kind == PK_GETTER || kind == PK_SETTER {
 			return nil, p.errorAtLoc(key.Range(), ERR_CTOR_CANNOT_HAVE_MODIFIER)
 		} else if async {
@@ -6314,6 +6320,7 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 			return nil, err
 		}
 	}
+	p.lexer.switchMode(LM_ASYNC, outerAsync)
 
 	isStrict := scope.IsKind(SPK_STRICT)
 	directStrict := scope.IsKind(SPK_STRICT_DIR)
-- 
2.43.0


From a175450ec1628516affed6fe0d74bd9f417853f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:22 +0000
Subject: [PATCH 042/191] fix: inherit method and try scope kinds, static and
 computed constructor are ordinary methods

---
 ecma/parser/parser.go | 2 +-
 ecma/parser/symtab.go | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index f6a56da..e766297 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1234,7 +1234,7 @@ func (p *Parser) classBody(declare bool, hasSuper bool) (Node, error) {
 		if elem.Type() == N_METHOD {
 			m := elem.(*Method)
 			// `!m.Declare` is used to skip the constructor overloads
-			if !m.Declare() && p.isName(m.key, "constructor", false, true) {
+			if !m.Declare() && !m.static && !m.computed && p.isName(m.key, "constructor", false, true) {
 				if hasCtor {
 					return nil, p.errorAtLoc(m.key.Range(), ERR_CTOR_DUP)
 				}
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 050e26f..aeb5879 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -536,7 +536,7 @@ func (s *SymTab) EnterScope(fn bool, arrow bool, settled bool) *Scope {
 			scope.Kind |= SPK_SWITCH_INDIRECT
 		}
 		if s.Cur.IsKind(SPK_TRY) || s.Cur.IsKind(SPK_TRY_INDIRECT) {
-			scope.Kind |= SPK_SWITCH_INDIRECT
+			scope.Kind |= SPK_TRY_INDIRECT
 		}
 		if s.Cur.IsKind(SPK_FORMAL_PARAMS) {
 			scope.Kind |= SPK_FORMAL_PARAMS
@@ -578,6 +578,10 @@ func (s *SymTab) EnterScope(fn bool, arrow bool, settled bool) *Scope {
 		if s.Cur.IsKind(SPK_CTOR) {
 			scope.Kind |= SPK_CTOR
 		}
+		// `({ a() { if (b) super.c } })` is legal
+		if s.Cur.IsKind(SPK_METHOD) {
+			scope.Kind |= SPK_METHOD
+		}
 	}
 
 	s.Scopes[scope.Id] = scope
-- 
2.43.0


From c80ed1f3bf7483627a1a239942d15141d5b5b938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:34 +0000
Subject: [PATCH 043/191] fix: return followed by two semicolons, constructor
 followed by newline, const as pattern key, async in

---
 ecma/parser/parser.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index e766297..ab0c1f4 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1916,8 +1916,10 @@ func (p *Parser) retStmt() (Node, error) {
 		}
 	}
 
-	if err := p.advanceIfSemi(!closed); err != nil {
-		return nil, err
+	if !closed {
+		if err := p.advanceIfSemi(true); err != nil {
+			return nil, err
+		}
 	}
 
 	scope := p.scope()
@@ -2501,7 +2503,7 @@ func (p *Parser) aheadIsAsync(tok *Token, prop bool, pvt bool) bool {
 			return true
 		}
 		if ahead.value == T_NAME {
-			if p.scope().IsKind(SPK_NOT_IN) && (IsName(ahead, "in", false) || IsName(ahead, "of", false)) {
+			if IsName(ahead, "in", false) || p.scope().IsKind(SPK_NOT_IN) && IsName(ahead, "of", false) {
 				return false
 			}
 			return true
@@ -3751,7 +3753,7 @@ func (p *Parser) isField(static bool, getter bool) (bool, *Token) {
 		return isField, ahead
 	}
 
-	return ahead.afterLineTerm, ahead
+	return ahead.afterLineTerm && !p.aheadIsArgList(ahead), ahead
 }
 
 func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (Node, span.Range, error) {
@@ -3793,7 +3795,7 @@ func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (No
 		}
 		// stmt `let { let } = {}` will raise error `let is disallowed as a lexically bound name` in sloppy mode
 		if !scope.IsKind(SPK_STRICT) && scope.IsKind(SPK_LEXICAL_DEC) {
-			if !tok.ContainsEscape() && (keyName == "let" || keyName == "const") {
+			if !tok.ContainsEscape() && (keyName == "let" || keyName == "const") && p.lexer.Peek().value != T_COLON {
 				return nil, span.Range{}, p.errorAtLoc(rng, fmt.Sprintf(ERR_TPL_FORBIDDEN_LEXICAL_NAME, keyName))
 			}
 		}
-- 
2.43.0


From 8c6cbf845ce2d3aa8183a4708aa072c869419282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:44 +0000
Subject: [PATCH 044/191] fix: async as callee of new

---
 ecma/parser/parser.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index ab0c1f4..39c870c 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4484,7 +4484,14 @@ func (p *Parser) newExpr(callee bool) (Node, error) {
 	}
 
 	var optLoc span.Range
-	expr, optLoc, err = p.memberExpr(nil, false, true, span.Range{})
+	var obj Node
+	if IsName(tok, "async", true) && p.aheadIsArgList(p.lexer.Peek2nd()) {
+		// `async` is the callee in `new async()`
+		if obj, err = p.ident(nil, false); err != nil {
+			return nil, err
+		}
+	}
+	expr, optLoc, err = p.memberExpr(obj, false, true, span.Range{})
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 74546d7b15056cc94871a89a3a404f40bdc49865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:54 +0000
Subject: [PATCH 045/191] fix: permit super in async arrow functions

---
 ecma/parser/parser.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 39c870c..ee11645 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2645,6 +2645,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			arrowLoc = p.lexer.Next().rng
 			arrow = true
 			scope.AddKind(SPK_ARROW)
+			scope.Kind |= ps.Kind & (SPK_CTOR | SPK_METHOD)
 		} else {
 			return nil, p.errorTok(tok)
 		}
-- 
2.43.0


From f9c2188e7cf03dbde6139f2d9c761c1a2a06d254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:04 +0000
Subject: [PATCH 046/191] fix: check the name of functions which are strict by
 directive

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index ee11645..36a36b8 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2768,7 +2768,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	directStrict := scope.IsKind(SPK_STRICT_DIR)
 	if id != nil {
 		name := id.(*Ident).val
-		if p.isProhibitedName(idScope, name, isStrict, true, false, false) {
+		if p.isProhibitedName(idScope, name, isStrict, true, false, isStrict) {
 			return nil, p.errorAtLoc(id.Range(), fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, name))
 		}
 	}
-- 
2.43.0


From 64ced45d8d65072051d70022bfe904bb246125e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:13 +0000
Subject: [PATCH 047/191] fix: permit var redeclaration in catch

---
 ecma/parser/symtab.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index aeb5879..e319072 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -248,7 +248,7 @@ func (s *Scope) AddLocal(ref *Ref, name string, checkDup bool) bool {
 	local := s.Local(name)
 
 	// `try {} catch (foo) { let foo; }` is illegal
-	if cur.IsKind(SPK_CATCH) && local != nil {
+	if cur.IsKind(SPK_CATCH) && local != nil && !(local.BindKind == BK_VAR && ref.BindKind == BK_VAR) {
 		return false
 	}
 
-- 
2.43.0


From 341890f53d93ca17d2b9930bf11858fdaf769779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:24 +0000
Subject: [PATCH 048/191] fix: permit in operator in binding patterns of for
 head

---
 ecma/parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 36a36b8..46934d1 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3632,6 +3632,7 @@ func (p *Parser) bindingPattern() (Node, error) {
 }
 
 func (p *Parser) patternObj() (Node, error) {
+	defer p.allowIn()()
 	rng := p.rng()
 	p.lexer.Next()
 
@@ -3834,6 +3835,7 @@ func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (No
 }
 
 func (p *Parser) patternArr() (Node, error) {
+	defer p.allowIn()()
 	rng := p.rng()
 	p.lexer.Next()
 
-- 
2.43.0


From ddc34543a51f54f1b08c0b73a831508abeff63a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:58 +0000
Subject: [PATCH 049/191] fix: arguments is permitted in the default values of
 params

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 46934d1..84b4d01 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3477,7 +3477,7 @@ func (p *Parser) param(methodKind PropKind) (Node, error) {
 			return nil, err
 		}
 
-		if err = p.checkDefaultVal(value, false, false, true); err != nil {
+		if err = p.checkDefaultVal(value, false, false, false); err != nil {
 			return nil, err
 		}
 		if err = p.checkArg(value, false, false); err != nil {
-- 
2.43.0


From c86b02e9a015cd5d984d10f6d574531d93bcef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:08 +0000
Subject: [PATCH 050/191] fix: await and yield are permitted in class heritage

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 84b4d01..a8fca25 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1129,7 +1129,7 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 		if err != nil {
 			return nil, err
 		}
-		if err := p.checkDefaultVal(super, false, false, false); err != nil {
+		if err := p.checkDefaultVal(super, true, true, false); err != nil {
 			return nil, err
 		}
 	}
-- 
2.43.0


From 63ff72c3ef45623827557a0ffb02069593cc62a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:18 +0000
Subject: [PATCH 051/191] fix: param of async arrow function is not a binding
 of the outer scope

---
 ecma/parser/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index a8fca25..b1902a6 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2561,8 +2561,9 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			return nil, err
 		}
 
-		// name of the function expression will not add a ref record
-		if !expr {
+		// name of the function expression will not add a ref record, so does the param
+		// of the async arrow function
+		if !expr && fn {
 			fnRef = NewRef()
 			fnRef.Id = id.(*Ident)
 			fnRef.BindKind = BK_VAR
-- 
2.43.0


From 55da2218526324e2a5f8148696c04ed2e300b430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:28 +0000
Subject: [PATCH 052/191] fix: async followed by asterisk is multiplication

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index b1902a6..5870398 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2492,7 +2492,7 @@ func (p *Parser) aheadIsAsync(tok *Token, prop bool, pvt bool) bool {
 		}
 		if ahead.value == T_FUNC ||
 			(p.aheadIsArgList(ahead) && !prop) ||
-			ahead.value == T_MUL {
+			(ahead.value == T_MUL && prop) {
 			return true
 		}
 		_, canProp := ahead.CanBePropKey()
-- 
2.43.0


From 770b12c15a76960beff816ccda7ab94626a9c191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:57 +0000
Subject: [PATCH 053/191] fix: class field with initializer does not disable
 the name checking

---
 ecma/parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 5870398..b1ce5c1 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1675,11 +1675,12 @@ func (p *Parser) field(key Node, begin, static span.Range, accMod ACC_MOD, begin
 	}
 
 	if value != nil {
+		checkName := p.checkName
 		p.checkName = true
 		if err := p.checkDefaultVal(value, false, false, true); err != nil {
 			return nil, err
 		}
-		p.checkName = false
+		p.checkName = checkName
 
 		if p.ts {
 			if inDeclare || !declare.Empty() || p.scope().IsKind(SPK_TS_DECLARE) {
-- 
2.43.0


From 46c0ec96a0d67261ae9895478ecac31762efa264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:06 +0000
Subject: [PATCH 054/191] fix: permit in operator in the consequent of
 conditional expr in for head

---
 ecma/parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index b1ce5c1..e030511 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4233,7 +4233,9 @@ func (p *Parser) condExpr(test Node, notGT bool, notHook bool, notColon bool) (N
 		return test, nil
 	}
 
+	restoreIn := p.allowIn()
 	cons, err := p.assignExpr(true, notGT, false, true)
+	restoreIn()
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 93c753e8783df0b714c357ee8c94ddc22780f3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:15 +0000
Subject: [PATCH 055/191] fix: async arrow function and call as the default
 export are exprs

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index e030511..61c779e 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -508,7 +508,7 @@ func (p *Parser) exportDec() (Node, error) {
 		tv = tok.value
 		if tv == T_FUNC {
 			node.dec, err = p.fnDec(false, nil, true)
-		} else if p.aheadIsAsync(tok, false, false) {
+		} else if p.aheadIsAsync(tok, false, false) && p.lexer.Peek2nd().value == T_FUNC {
 			if tok.ContainsEscape() {
 				return nil, p.errorAt(tv, tok.rng, ERR_ESCAPE_IN_KEYWORD)
 			}
-- 
2.43.0


From 904cd556630249b089eb476618e155ed12c82b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:35 +0000
Subject: [PATCH 056/191] fix: computed names of class members are not
 constructor nor prototype

---
 ecma/parser/parser.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 61c779e..4450c28 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1690,7 +1690,9 @@ func (p *Parser) field(key Node, begin, static span.Range, accMod ACC_MOD, begin
 	}
 
 	isStatic := !static.Empty()
-	if isStatic && p.isName(key, "prototype", false, true) {
+	if !compute.Empty() {
+		// the computed name is unknown until runtime
+	} else if isStatic && p.isName(key, "prototype", false, true) {
 		return nil, p.errorAtLoc(key.Range(), ERR_STATIC_PROP_PROTOTYPE)
 	} else if p.isName(key, "constructor", false, true) {
 		return nil, p.errorAtLoc(key.Range(), ERR_CTOR_CANNOT_BE_Field)
@@ -6398,7 +6400,7 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 	}
 
 	if inclass {
-		if static && p.isName(key, "prototype", false, true) {
+		if static && compute.Empty() && p.isName(key, "prototype", false, true) {
 			return nil, p.errorAtLoc(key.Range(), ERR_STATIC_PROP_PROTOTYPE)
 		}
 
-- 
2.43.0


From b9f134874800ee71d9be155c2849e2b7c0fc62d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:51 +0000
Subject: [PATCH 057/191] fix: jsx entities, keyword names, comments in tags,
 unexpected braces in children

---
 ecma/estree/convert.go | 16 ++++++++-
 ecma/parser/jsx.go     | 14 ++++----
 ecma/parser/lexer.go   | 81 +++++++++++++++++++++++++++++++-----------
 3 files changed, 83 insertions(+), 28 deletions(-)

diff --git a/ecma/estree/convert.go b/ecma/estree/convert.go
index 3405ccd..99c5ffe 100644
--- a/ecma/estree/convert.go
+++ b/ecma/estree/convert.go
@@ -1412,7 +1412,7 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 			End:      int(node.Range().Hi),
 			Loc:      locOfNode(node, ctx.Parser.Source(), ctx),
 			Object:   Convert(node.Obj(), ctx),
-			Property: Convert(node.Prop(), ctx),
+			Property: jsxMemberProp(node.Prop(), ctx),
 		}
 	case parser.N_JSX_ELEM:
 		node := node.(*parser.JsxElem)
@@ -1552,3 +1552,17 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 	// bypass the ts related node like `Ambient`
 	return ConvertTsTyp(node, ctx)
 }
+
+// the property of the jsx member is a `JSXIdentifier` in estree
+func jsxMemberProp(node parser.Node, ctx *ConvertCtx) Node {
+	if node.Type() != parser.N_NAME {
+		return Convert(node, ctx)
+	}
+	return &JSXIdentifier{
+		Type:  "JSXIdentifier",
+		Start: int(node.Range().Lo),
+		End:   int(node.Range().Hi),
+		Loc:   locOfNode(node, ctx.Parser.Source(), ctx),
+		Name:  node.(*parser.Ident).Val(),
+	}
+}
diff --git a/ecma/parser/jsx.go b/ecma/parser/jsx.go
index 65b7d82..8aec108 100644
--- a/ecma/parser/jsx.go
+++ b/ecma/parser/jsx.go
@@ -12,11 +12,13 @@ func (p *Parser) jsxMember(obj Node, path string) (Node, string, error) {
 		av := ahead.value
 		if av == T_DOT {
 			p.lexer.Next()
-			prop, err := p.ident(nil, false)
-			if err != nil {
-				return nil, "", err
+			tok := p.lexer.Next()
+			if tok.value != T_NAME && !tok.IsKw() {
+				return nil, "", p.errorTok(tok)
 			}
-			path = path + "." + prop.val
+			name := p.TokText(tok)
+			prop := &Ident{N_NAME, p.finRng(tok.rng), name, false, false, span.Range{}, tok.IsKw(), p.newTypInfo(N_NAME)}
+			path = path + "." + name
 			obj = &JsxMember{N_JSX_MEMBER, p.finRng(obj.Range()), obj, prop, p.newTypInfo(N_JSX_MEMBER)}
 		} else {
 			break
@@ -39,7 +41,7 @@ func (p *Parser) jsxNsExpr(ns Node, path string) (Node, string, error) {
 func (p *Parser) jsxId() (Node, string, error) {
 	tok := p.lexer.Next()
 	tv := tok.value
-	if tv != T_NAME {
+	if tv != T_NAME && !tok.IsKw() {
 		return nil, "", p.errorTok(tok)
 	}
 
@@ -351,7 +353,7 @@ func (p *Parser) jsx(root bool, opening bool) (Node, error) {
 				children = append(children, child)
 			} else if av == T_EOF {
 				return nil, p.errorAtLoc(ahead.rng, ERR_UNTERMINATED_JSX_CONTENTS)
-			} else if av == T_ILLEGAL {
+			} else {
 				return nil, p.errorTok(ahead)
 			}
 		}
diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 593ba1d..5fe8126 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -3,7 +3,9 @@ package parser
 import (
 	"container/list"
 	"fmt"
+	"regexp"
 	"strconv"
+	"strings"
 	"unicode"
 	"unicode/utf16"
 	"unicode/utf8"
@@ -394,6 +396,8 @@ func (l *Lexer) readTokWithComment() *Token {
 			l.src.Read()
 			if l.src.AheadIsCh('/') {
 				return l.readSinglelineComment(tok)
+			} else if l.src.AheadIsCh('*') {
+				return l.readMultilineComment(tok)
 			}
 			return l.finToken(tok, T_DIV)
 		case '>':
@@ -1189,6 +1193,8 @@ func (l *Lexer) readStr() *Token {
 	return l.finToken(tok, T_STRING)
 }
 
+var htmlEntityPat = regexp.MustCompile("&#?[a-zA-Z0-9]+;")
+
 func (l *Lexer) readJsxStr() *Token {
 	tok := l.newToken()
 	open := l.src.Read()
@@ -1203,6 +1209,14 @@ func (l *Lexer) readJsxStr() *Token {
 			break
 		}
 	}
+	if text := l.src.RngText(tok.txt); strings.ContainsRune(text, '&') {
+		tok.text = htmlEntityPat.ReplaceAllStringFunc(text, func(entity string) string {
+			if bs := decodeHTMLEntity(entity); bs != nil {
+				return string(bs)
+			}
+			return entity
+		})
+	}
 
 	tok.ext = &TokExtStr{open, false}
 	return l.finToken(tok, T_STRING)
@@ -1711,6 +1725,40 @@ func (l *Lexer) readHex4Digits(id bool, start uint32) (rune, *FixedOfstErr) {
 	return rr, nil
 }
 
+// returns the html entity such as `&lt;` if it's ahead, otherwise empty string is returned
+func (l *Lexer) aheadHTMLEntity() string {
+	begin, end := int(l.src.Ofst()), l.src.Len()
+	for i := begin + 1; i < end && i-begin < MaxHTMLEntityName; i++ {
+		c := l.src.Text(uint32(i), uint32(i+1))[0]
+		if c == ';' && i > begin+1 {
+			return l.src.Text(uint32(begin), uint32(i+1))
+		}
+		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '#' && i == begin+1) {
+			break
+		}
+	}
+	return ""
+}
+
+// returns nil if the `entity` is unknown
+func decodeHTMLEntity(entity string) []byte {
+	if ed, ok := HTMLEntities[entity]; ok {
+		return ed.Bytes
+	}
+	if entity[1] != '#' {
+		return nil
+	}
+	num, base := entity[2:len(entity)-1], 10
+	if len(num) > 0 && num[0] == 'x' {
+		num, base = num[1:], 16
+	}
+	cp, err := strconv.ParseUint(num, base, 32)
+	if err != nil || cp > utf8.MaxRune {
+		return nil
+	}
+	return utf8.AppendRune(nil, rune(cp))
+}
+
 func (l *Lexer) readJSXTxt() *Token {
 	tok := l.newToken()
 
@@ -1723,37 +1771,28 @@ func (l *Lexer) readJSXTxt() *Token {
 
 	rs := make([]byte, 0)
 
-	i := 0
-	entity := make([]byte, 0, MaxHTMLEntityName)
-
 	for {
 		c := l.src.Peek()
 		if c == '{' || c == '<' || c == span.EOF {
-			if i == 0 && c == span.EOF {
+			if len(rs) == 0 && c == span.EOF {
 				l.src.Read()
 				return l.finToken(tok, T_EOF)
 			}
 			break
-		} else if c == '&' || i > 0 {
-			if c == '&' {
-			}
-
-			l.src.Read()
-
-			i += 1
-			entity = utf8.AppendRune(entity, c)
-			if c == ';' {
-				key := string(entity[0:i])
-				if ed, ok := HTMLEntities[key]; ok {
-					rs = append(rs, ed.Bytes...)
-				} else {
-					return l.errTokMsg(tok, fmt.Sprintf(ERR_TPL_JSX_UNDEFINED_HTML_ENTITY, key))
+		} else if c == '&' {
+			if name := l.aheadHTMLEntity(); name != "" {
+				bs := decodeHTMLEntity(name)
+				if bs == nil {
+					return l.errTokMsg(tok, fmt.Sprintf(ERR_TPL_JSX_UNDEFINED_HTML_ENTITY, name))
 				}
-				i = 0
+				for range name {
+					l.src.Read()
+				}
+				rs = append(rs, bs...)
+				continue
 			}
-		} else {
-			rs = utf8.AppendRune(rs, l.src.Read())
 		}
+		rs = utf8.AppendRune(rs, l.src.Read())
 	}
 
 	tok.ext = preWs + util.Bytes2str(&rs)
-- 
2.43.0


From d0c2079da6d054da773d7627187cd61e16f7f474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:58 +0000
Subject: [PATCH 058/191] fix: leave the scope of a call to async and parse the
 whole statement

---
 ecma/parser/parser.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 4450c28..bb1f8c1 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -390,7 +390,7 @@ func (p *Parser) stmt() (node Node, err error) {
 		if allowDec {
 			node, err = p.varDecStmt(kind, false)
 		}
-	} else if p.aheadIsAsync(tok, false, false) {
+	} else if p.aheadIsAsync(tok, false, false) && (p.lexer.Peek2nd().value == T_FUNC || p.lexer.Peek2nd().value == T_LT) {
 		if tok.ContainsEscape() {
 			return nil, p.errorAt(tok.value, tok.rng, ERR_ESCAPE_IN_KEYWORD)
 		}
@@ -489,7 +489,7 @@ func (p *Parser) exportDec() (Node, error) {
 		if err != nil {
 			return nil, err
 		}
-	} else if p.aheadIsAsync(tok, false, false) {
+	} else if p.aheadIsAsync(tok, false, false) && p.lexer.Peek2nd().value == T_FUNC {
 		if tok.ContainsEscape() {
 			return nil, p.errorAt(tv, tok.rng, ERR_ESCAPE_IN_KEYWORD)
 		}
@@ -2713,6 +2713,8 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		// `async ({a: b = c})` callExpr
 		// `async* ({a: b = c})` binExpr
 		p.lexer.switchMode(LM_ASYNC, outerAsync)
+		p.symtab.LeaveScope()
+		p.decRetsStk()
 		lhs := &Ident{N_NAME, asyncLoc, "async", false, asyncHasEscape, span.Range{}, true, p.newTypInfo(N_NAME)}
 
 		var exp Node
@@ -4757,7 +4759,9 @@ func (p *Parser) importCall(tok *Token) (Node, error) {
 
 	if ahead.value == T_PAREN_L && p.feat&FEAT_DYNAMIC_IMPORT != 0 {
 		p.lexer.Next()
+		restoreIn := p.allowIn()
 		src, err := p.assignExpr(true, false, false, false)
+		restoreIn()
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From ee960f4858e784b53b25aa0fcb8b8cd43e78a57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:30 +0000
Subject: [PATCH 059/191] fix: super in computed keys inside methods

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index bb1f8c1..f133851 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5793,7 +5793,7 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 
 		ahead := p.lexer.Peek()
 		if !scope.IsKind(SPK_CLASS) && !scope.IsKind(SPK_CLASS_INDIRECT) && !scope.IsKind(SPK_METHOD) ||
-			scope.IsKind(SPK_PROP_NAME) {
+			scope.IsKind(SPK_PROP_NAME) && !scope.IsKind(SPK_METHOD) {
 			em := ERR_SUPER_OUTSIDE_CLASS
 			if ahead.value == T_PAREN_L {
 				em = ERR_SUPER_CALL_OUTSIDE_CTOR
-- 
2.43.0


From 275035c6fcbbb6eed8d0775e759a5eaccfec319e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:04 +0000
Subject: [PATCH 060/191] fix: regexp at the beginning of the statement after
 if and catch

---
 ecma/parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index f133851..bf07c62 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1849,7 +1849,7 @@ func (p *Parser) tryStmt() (Node, error) {
 	}
 
 	var fin Node
-	if p.lexer.Peek().value == T_FINALLY {
+	if p.lexer.PeekStmtBegin().value == T_FINALLY {
 		p.lexer.Next()
 		fin, err = p.blockStmt(true, SPK_NONE)
 		if err != nil {
@@ -2180,7 +2180,7 @@ func (p *Parser) ifStmt() (Node, error) {
 	}
 
 	var alt Node
-	if p.lexer.Peek().value == T_ELSE {
+	if p.lexer.PeekStmtBegin().value == T_ELSE {
 		p.lexer.Next()
 		tok := p.lexer.PeekStmtBegin()
 
-- 
2.43.0


From bcacb3812eeb41c4b2c1abdf00cdd020bdd8da1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:14 +0000
Subject: [PATCH 061/191] fix: reject duplicate params of arrow functions and
 methods in sloppy mode

---
 ecma/parser/parser.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index bf07c62..56adb69 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2779,7 +2779,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		}
 	}
 
-	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict); err != nil {
+	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict, arrow); err != nil {
 		return nil, err
 	}
 
@@ -2872,7 +2872,9 @@ func (p *Parser) collectNames(nodes []Node) (names []Node, firstComplicated span
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-functions-and-classes.html#sec-parameter-lists-static-semantics-early-errors
 // `isSimpleParamList` should be true if function body directly contains `use strict` directive
-func (p *Parser) checkParams(names []Node, firstComplicated span.Range, isStrict bool, directStrict bool) error {
+// `uniq` indicates that the duplicate names are disallowed even in sloppy mode, it's the case of
+// the params of arrow functions and methods
+func (p *Parser) checkParams(names []Node, firstComplicated span.Range, isStrict bool, directStrict bool, uniq bool) error {
 	var dupLoc span.Range
 	unique := make(map[string]bool)
 	for _, id := range names {
@@ -2896,7 +2898,7 @@ func (p *Parser) checkParams(names []Node, firstComplicated span.Range, isStrict
 	}
 
 	if !dupLoc.Empty() {
-		if isStrict {
+		if isStrict || uniq {
 			return p.errorAtLoc(dupLoc, ERR_DUP_PARAM_NAME)
 		}
 		if !firstComplicated.Empty() {
@@ -5894,7 +5896,7 @@ func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo
 
 	isStrict := scope.IsKind(SPK_STRICT)
 	directStrict := scope.IsKind(SPK_STRICT_DIR)
-	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict); err != nil {
+	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict, true); err != nil {
 		return nil, err
 	}
 
@@ -6348,7 +6350,7 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 	directStrict := scope.IsKind(SPK_STRICT_DIR)
 
 	// `isProhibitedName` is not needed here since `keyword` as method name is permitted
-	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict); err != nil {
+	if err := p.checkParams(paramNames, firstComplicated, isStrict, directStrict, true); err != nil {
 		return nil, err
 	}
 
-- 
2.43.0


From 90b5fa13f0edfa04639075db8bfe1f9d7f344b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:52 +0000
Subject: [PATCH 062/191] fix: spread args and class bodies after a call to
 async

---
 ecma/parser/parser.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 56adb69..39f8795 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2598,6 +2598,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	p.incRetsStk()
 
 	var args []Node
+	var tailingComma span.Range
 	var typArgs Node
 	ahead := p.lexer.Peek()
 	if id != nil && ahead.value == T_ARROW && !ahead.afterLineTerm {
@@ -2614,7 +2615,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		// below `argsToFormalParams`
 		p.checkName = false
 		scope.AddKind(SPK_FORMAL_PARAMS)
-		args, _, typArgs, _, err = p.argList(false, false, asyncLoc, false)
+		args, tailingComma, typArgs, _, err = p.argList(false, true, asyncLoc, false)
 		scope.EraseKind(SPK_FORMAL_PARAMS)
 		p.checkName = true
 		if err != nil {
@@ -2661,10 +2662,21 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	var params []Node
 	var paramNames []Node
 	var firstComplicated span.Range
-	if fn || tok.value == T_BRACE_L || arrow {
+	if fn || arrow {
 		if fn {
 			params = args
 		} else {
+			for i, arg := range args {
+				if arg.Type() != N_SPREAD {
+					continue
+				}
+				if i < len(args)-1 {
+					return nil, p.errorAtLoc(arg.Range(), ERR_REST_ELEM_MUST_LAST)
+				}
+				if !tailingComma.Empty() {
+					return nil, p.errorAtLoc(tailingComma, ERR_REST_ELEM_MUST_LAST)
+				}
+			}
 			params, err = p.argsToParams(args)
 			if err != nil {
 				return nil, err
@@ -2730,7 +2742,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			}
 			exp = &BinExpr{N_EXPR_BIN, p.finRng(rng), T_MUL, genLoc, lhs, rhs, span.Range{}}
 		} else {
-			if err := p.checkArgs(args, false, true); err != nil {
+			if err := p.checkArgs(args, true, true); err != nil {
 				return nil, err
 			}
 			ti := p.newTypInfo(N_EXPR_CALL)
-- 
2.43.0


From abc6a9cf1b42954e38ee763fbe60f1732d5f4518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:05 +0000
Subject: [PATCH 063/191] fix: jsx spread attribute argument, attribute without
 value and in operator in jsx expressions

---
 ecma/estree/convert.go | 2 +-
 ecma/parser/jsx.go     | 6 ++++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/ecma/estree/convert.go b/ecma/estree/convert.go
index 99c5ffe..364e90e 100644
--- a/ecma/estree/convert.go
+++ b/ecma/estree/convert.go
@@ -1519,7 +1519,7 @@ func Convert(node parser.Node, ctx *ConvertCtx) Node {
 			Start:    int(node.Range().Lo),
 			End:      int(node.Range().Hi),
 			Loc:      locOfNode(node, ctx.Parser.Source(), ctx),
-			Argument: Convert(node.Arg(), ctx),
+			Argument: Convert(node.Arg().(*parser.Spread).Arg(), ctx),
 		}
 	case parser.N_JSX_CHILD_SPREAD:
 		node := node.(*parser.JsxSpreadChild)
diff --git a/ecma/parser/jsx.go b/ecma/parser/jsx.go
index 8aec108..9e1b19f 100644
--- a/ecma/parser/jsx.go
+++ b/ecma/parser/jsx.go
@@ -125,6 +125,9 @@ func (p *Parser) jsxAttr() (Node, error) {
 		if err != nil {
 			return nil, err
 		}
+		if val.Type() == N_SPREAD {
+			return nil, p.errorAtLoc(val.Range(), ERR_UNEXPECTED_TOKEN)
+		}
 	} else if av == T_STRING {
 		tok := p.lexer.Next()
 		rng := tok.rng
@@ -134,6 +137,8 @@ func (p *Parser) jsxAttr() (Node, error) {
 		if err != nil {
 			return nil, err
 		}
+	} else {
+		return nil, p.errorTok(ahead)
 	}
 	attr.rng = p.finRng(attr.rng)
 	attr.val = val
@@ -185,6 +190,7 @@ func (p *Parser) jsxOpen(tok *Token) (Node, error) {
 }
 
 func (p *Parser) jsxExpr(rng span.Range) (Node, error) {
+	defer p.allowIn()()
 	p.lexer.PushMode(LM_NONE, true)
 
 	locAfterBrace := p.rng()
-- 
2.43.0


From 9aefedf8c183c9d74895fe7e7ac047e07cae682c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:40:39 +0000
Subject: [PATCH 064/191] fix: regexp as the operand of yield

---
 ecma/parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 39f8795..a059eef 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4074,7 +4074,8 @@ func (p *Parser) yieldExpr() (Node, error) {
 		return nil, p.errorAt(tok.value, tok.rng, ERR_YIELD_IN_FORMAL_PARAMS)
 	}
 
-	tok = p.lexer.Peek()
+	// the slash after `yield` is the beginning of a regexp
+	tok = p.lexer.PeekStmtBegin()
 	kind := TokenKinds[tok.value]
 	tv := tok.value
 	startExpr := kind.StartExpr || p.feat&FEAT_JSX != 0 && tv == T_LT
-- 
2.43.0


From e3b3a3e52e5904194775831c6e7389f84dd73da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:43 +0000
Subject: [PATCH 065/191] fix: super in object keys of field initializers and
 in async arrow params

---
 ecma/parser/parser.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index a059eef..08aacdf 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2589,6 +2589,9 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	scope := p.symtab.EnterScope(true, false, true)
 	if async != nil {
 		scope.AddKind(SPK_ASYNC)
+		if !fn {
+			scope.Kind |= ps.Kind & (SPK_CTOR | SPK_METHOD)
+		}
 	}
 	outerAsync := p.lexer.switchMode(LM_ASYNC, async != nil)
 	// 'yield' as function names
@@ -2650,7 +2653,6 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			arrowLoc = p.lexer.Next().rng
 			arrow = true
 			scope.AddKind(SPK_ARROW)
-			scope.Kind |= ps.Kind & (SPK_CTOR | SPK_METHOD)
 		} else {
 			return nil, p.errorTok(tok)
 		}
@@ -3800,9 +3802,14 @@ func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (No
 		key = &NumLit{N_LIT_NUM, p.finRng(rng), span.Range{}}
 	} else if tv == T_BRACKET_L {
 		computeLoc = tok.rng
-		scope.AddKind(SPK_PROP_NAME)
+		// only the class element names are prohibited to access the `super` of the class
+		if allowNamePVT {
+			scope.AddKind(SPK_PROP_NAME)
+		}
 		name, err := p.assignExpr(true, false, false, false)
-		scope.EraseKind(SPK_PROP_NAME)
+		if allowNamePVT {
+			scope.EraseKind(SPK_PROP_NAME)
+		}
 		if err != nil {
 			return nil, span.Range{}, err
 		}
-- 
2.43.0


From 717d72164184a55c65910a20df4808f4ac5e0055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:13 +0000
Subject: [PATCH 066/191] fix: names in object literals of lexical declarations
 are not bindings

---
 ecma/parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 08aacdf..84a8696 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -6116,6 +6116,12 @@ func (p *Parser) spread() (Node, error) {
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-expressions.html#prod-ObjectLiteral
 func (p *Parser) objLit() (Node, error) {
+	// the names in object literal are not bindings: `let { a = { let } } = b`
+	if scope := p.scope(); scope.IsKind(SPK_LEXICAL_DEC) {
+		scope.EraseKind(SPK_LEXICAL_DEC)
+		defer scope.AddKind(SPK_LEXICAL_DEC)
+	}
+
 	defer p.allowIn()()
 	loc := p.rng()
 	p.lexer.Next()
-- 
2.43.0


From ea8432806215a594d40ee3c328baf4b302e9046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:32 +0000
Subject: [PATCH 067/191] fix: for statement with uninitialized const or
 pattern is an error

---
 ecma/parser/parser.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 84a8696..726e668 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2432,6 +2432,22 @@ func (p *Parser) forStmt() (Node, error) {
 		return loop, nil
 	}
 
+	// the missing initializers are permitted by `SPK_NOT_IN` since the stmt might be for-in or for-of
+	if varDec, ok := init.(*VarDecStmt); ok {
+		for _, dec := range varDec.decList {
+			d := dec.(*VarDec)
+			if d.init != nil {
+				continue
+			}
+			if varDec.kind == T_CONST {
+				return nil, p.errorAtLoc(d.rng, ERR_CONST_DEC_INIT_REQUIRED)
+			}
+			if d.id.Type() != N_NAME {
+				return nil, p.errorAtLoc(p.rng(), ERR_COMPLEX_BINDING_MISSING_INIT)
+			}
+		}
+	}
+
 	loopNode := &ForStmt{N_STMT_FOR, span.Range{}, nil, nil, nil, nil}
 	p.pushLoopStk(loopNode)
 
-- 
2.43.0


From 256235216911d58547bc0086befbd411c5fe80c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:40 +0000
Subject: [PATCH 068/191] fix: pattern is not a valid operand of ++ and --

---
 ecma/parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 726e668..9403661 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4419,7 +4419,7 @@ func (p *Parser) updateExpr(typArgs Node, typArgsLoc span.Range, notColon bool)
 		if err != nil {
 			return nil, err
 		}
-		if !p.isSimpleLVal(arg, true, false, true, false) {
+		if !p.isSimpleLVal(arg, false, false, true, true) {
 			return nil, p.errorAtLoc(arg.Range(), ERR_ASSIGN_TO_RVALUE)
 		}
 		ud := &UpdateExpr{N_EXPR_UPDATE, p.finRng(rng), op, true, arg, span.Range{}}
@@ -4459,7 +4459,7 @@ func (p *Parser) updateExpr(typArgs Node, typArgsLoc span.Range, notColon bool)
 		return arg, nil
 	}
 
-	if !p.isSimpleLVal(arg, true, false, true, false) {
+	if !p.isSimpleLVal(arg, false, false, true, true) {
 		return nil, p.errorAtLoc(arg.Range(), ERR_ASSIGN_TO_RVALUE)
 	}
 
-- 
2.43.0


From aed780bfcd4cf9fe5e03aad30fe113c80071a3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:49 +0000
Subject: [PATCH 069/191] fix: multiple default clauses separated by a case

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 9403661..c67c776 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2098,7 +2098,7 @@ func (p *Parser) switchStmt() (Node, error) {
 			return nil, err
 		}
 		if caseClause != nil {
-			metDefault = caseClause.test == nil
+			metDefault = metDefault || caseClause.test == nil
 			cases = append(cases, caseClause)
 		} else {
 			break
-- 
2.43.0


From f0640ee81d5a2b03c3899ebfba063c8f676012d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:18:59 +0000
Subject: [PATCH 070/191] fix: nested label does not end the outer labels

---
 ecma/parser/parser.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index c67c776..e61d76b 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1971,8 +1971,7 @@ func (p *Parser) labelStmt() (Node, error) {
 
 	node.rng = p.finRng(rng)
 	node.body = body
-	// reset to check next label chain
-	scope.uniqueLabels = make(map[string]Node)
+	delete(scope.uniqueLabels, labelName)
 	return node, nil
 }
 
-- 
2.43.0


From 8ef6804459035dfd28db6ad068a1957fee8172b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:09 +0000
Subject: [PATCH 071/191] fix: delete of a parenthesized name in strict mode

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index e61d76b..8058723 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4364,7 +4364,7 @@ func (p *Parser) unaryExpr(typArgs Node, typArgsLoc span.Range, notColon bool) (
 		}
 
 		scope := p.scope()
-		if scope.IsKind(SPK_STRICT) && tok.value == T_DELETE && arg.Type() == N_NAME {
+		if scope.IsKind(SPK_STRICT) && op == T_DELETE && UnParen(arg).Type() == N_NAME {
 			return nil, p.errorAtLoc(arg.Range(), ERR_DELETE_LOCAL_IN_STRICT)
 		}
 
-- 
2.43.0


From f9395bb31bf2305a3f08424373914e85a4199ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:18 +0000
Subject: [PATCH 072/191] fix: duplicate regexp flags

---
 ecma/parser/lexer.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 5fe8126..49fab20 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1,6 +1,7 @@
 package parser
 
 import (
+	"bytes"
 	"container/list"
 	"fmt"
 	"regexp"
@@ -1081,8 +1082,8 @@ func (l *Lexer) readRegexp(tok *Token) *Token {
 	}
 
 	if l.feat&FEAT_CHK_REGEXP_FLAGS != 0 {
-		for _, f := range fs {
-			if !l.isLegalFlag(rune(f)) {
+		for i, f := range fs {
+			if !l.isLegalFlag(rune(f)) || bytes.IndexByte(fs[:i], f) != -1 {
 				return l.errTokMsg(tok, ERR_INVALID_REGEXP_FLAG)
 			}
 		}
-- 
2.43.0


From d7c9244802273137d35d1953cba13d943eb61d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:04 +0000
Subject: [PATCH 073/191] fix: tagged template after the call of an optional
 chain

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 8058723..1765db3 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4742,6 +4742,9 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 				firstOpt = fo
 			}
 		} else if tv == T_TPL_HEAD {
+			if !firstOpt.Empty() {
+				return nil, span.Range{}, p.errorAtLoc(tok.rng, ERR_OPT_EXPR_IN_TAG)
+			}
 			callee, err = p.tplExpr(callee, false)
 			if err != nil {
 				return nil, span.Range{}, err
-- 
2.43.0


From f831ccd789a2480622002104eaa5211d298c5e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:13 +0000
Subject: [PATCH 074/191] fix: reserved words bound by the catch param

---
 ecma/parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 1765db3..57cbe5d 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1822,7 +1822,10 @@ func (p *Parser) tryStmt() (Node, error) {
 		scope.AddKind(SPK_CATCH)
 
 		if param != nil {
-			names, _, _ := p.collectNames([]Node{param})
+			names, _, err := p.collectNames([]Node{param})
+			if err != nil {
+				return nil, err
+			}
 			for _, nameNode := range names {
 				id := nameNode.(*Ident)
 				if ok := p.isProhibitedName(nil, id.val, true, true, false, false); ok {
-- 
2.43.0


From b49956180f34f3a0a2baf46ee559b88382000142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:17 +0000
Subject: [PATCH 075/191] fix: continue with the label of a non-loop statement

---
 ecma/parser/ast.go    |  2 ++
 ecma/parser/parser.go | 16 +++++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/ast.go b/ecma/parser/ast.go
index f1dcf31..12d40a7 100644
--- a/ecma/parser/ast.go
+++ b/ecma/parser/ast.go
@@ -1722,6 +1722,8 @@ type LabelStmt struct {
 	label Node
 	body  Node
 	used  bool
+	// the label of the last `continue` which targets this one
+	cont *Ident
 }
 
 func (n *LabelStmt) Type() NodeType {
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 57cbe5d..0829431 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1961,7 +1961,7 @@ func (p *Parser) labelStmt() (Node, error) {
 		return nil, p.errorAtLoc(rng, fmt.Sprintf(ERR_DUP_LABEL, labelName))
 	}
 
-	node := &LabelStmt{N_STMT_LABEL, span.Range{}, label, nil, false}
+	node := &LabelStmt{N_STMT_LABEL, span.Range{}, label, nil, false, nil}
 	scope.uniqueLabels[labelName] = node
 	scope.Labels = append(scope.Labels, node)
 
@@ -1972,6 +1972,19 @@ func (p *Parser) labelStmt() (Node, error) {
 		return nil, err
 	}
 
+	// the target of `continue` must be a loop
+	if node.cont != nil {
+		target := body
+		for target.Type() == N_STMT_LABEL {
+			target = target.(*LabelStmt).body
+		}
+		switch target.Type() {
+		case N_STMT_FOR, N_STMT_FOR_IN_OF, N_STMT_WHILE, N_STMT_DO_WHILE:
+		default:
+			return nil, p.errorAtLoc(node.cont.rng, fmt.Sprintf(ERR_UNDEF_LABEL, labelName))
+		}
+	}
+
 	node.rng = p.finRng(rng)
 	node.body = body
 	delete(scope.uniqueLabels, labelName)
@@ -2040,6 +2053,7 @@ func (p *Parser) contStmt() (Node, error) {
 			return nil, p.errorAtLoc(label.rng, fmt.Sprintf(ERR_UNDEF_LABEL, label.val))
 		} else {
 			target.(*LabelStmt).used = true
+			target.(*LabelStmt).cont = label
 		}
 
 		return &ContStmt{N_STMT_CONT, p.finRng(rng), label, target}, nil
-- 
2.43.0


From c7f35cec368ce9484248c17a20fedce55b539743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:19 +0000
Subject: [PATCH 076/191] fix: generator and async function in single statement
 context

---
 ecma/parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 0829431..e38c3a7 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -439,7 +439,8 @@ func (p *Parser) stmt() (node Node, err error) {
 		if scope.IsKind(SPK_INTERIM) {
 			// `if (morning) function a(){}` is legal
 			// `for (morning;;) function a(){}` is illegal
-			if typ == N_STMT_FN && (scope.IsKind(SPK_STRICT) || scope.IsKind(SPK_LOOP_DIRECT)) {
+			if fn, ok := node.(*FnDec); ok && typ == N_STMT_FN &&
+				(scope.IsKind(SPK_STRICT) || scope.IsKind(SPK_LOOP_DIRECT) || fn.generator || fn.async) {
 				return nil, p.errorAtLoc(node.Range(), ERR_FN_IN_SINGLE_STMT_CTX)
 			} else if typ == N_STMT_IMPORT || typ == N_STMT_EXPORT {
 				return nil, p.errorAtLoc(node.Range(), ERR_IMPORT_EXPORT_SHOULD_AT_TOP_LEVEL)
-- 
2.43.0


From 6d5b1df5dfee49c34e0fd818acbd865eb8b0c19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:22:29 +0000
Subject: [PATCH 077/191] fix: import declaration should be at top level

---
 ecma/parser/parser.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index e38c3a7..89c0c0e 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -445,6 +445,8 @@ func (p *Parser) stmt() (node Node, err error) {
 			} else if typ == N_STMT_IMPORT || typ == N_STMT_EXPORT {
 				return nil, p.errorAtLoc(node.Range(), ERR_IMPORT_EXPORT_SHOULD_AT_TOP_LEVEL)
 			}
+		} else if typ == N_STMT_IMPORT && !scope.IsKind(SPK_GLOBAL) && !scope.IsKind(SPK_TS_MODULE) {
+			return nil, p.errorAtLoc(node.Range(), ERR_IMPORT_EXPORT_SHOULD_AT_TOP_LEVEL)
 		}
 	}
 
-- 
2.43.0


From 5547ab1e9d8ab5eebabc8c9e40c9309845a07bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:23:41 +0000
Subject: [PATCH 078/191] fix: conflicts between var and the bindings of outer
 blocks and catch params

---
 ecma/parser/parser.go |  3 +++
 ecma/parser/symtab.go | 18 +++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 89c0c0e..074f0f1 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1837,6 +1837,9 @@ func (p *Parser) tryStmt() (Node, error) {
 				ref := NewRef()
 				ref.Id = id
 				ref.BindKind = BK_LET
+				if param.Type() == N_NAME {
+					ref.BindKind = BK_PARAM
+				}
 				if err := p.addLocalBinding(nil, ref, true, id.val); err != nil {
 					return nil, err
 				}
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index e319072..043708b 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -248,7 +248,9 @@ func (s *Scope) AddLocal(ref *Ref, name string, checkDup bool) bool {
 	local := s.Local(name)
 
 	// `try {} catch (foo) { let foo; }` is illegal
-	if cur.IsKind(SPK_CATCH) && local != nil && !(local.BindKind == BK_VAR && ref.BindKind == BK_VAR) {
+	// `try {} catch (foo) { var foo; }` is legal
+	if cur.IsKind(SPK_CATCH) && local != nil && !(local.BindKind == BK_VAR && ref.BindKind == BK_VAR) &&
+		!(local.BindKind == BK_PARAM && ref.BindKind == BK_VAR && ref.Typ&RDT_FN == 0) {
 		return false
 	}
 
@@ -257,12 +259,26 @@ func (s *Scope) AddLocal(ref *Ref, name string, checkDup bool) bool {
 		ps := s.UpperFn()
 		localInPs := ps.Refs[name]
 
+		// `{ let a; { var a } }` is illegal
+		for scope := s.Up; checkDup && scope != nil && s != ps && scope != ps; scope = scope.Up {
+			lex := scope.Refs[name]
+			if lex != nil && (lex.BindKind == BK_LET || lex.BindKind == BK_CONST) && !CheckRefDup(lex, ref) {
+				return false
+			}
+		}
+
 		if checkDup && localInPs != nil && localInPs.BindKind != BK_PARAM &&
 			((localInPs.BindKind != BK_VAR && localInPs.Typ != RDT_FN) ||
 				(localInPs.Scope.Id == 0 && localInPs.Typ == RDT_FN)) {
 			return CheckRefDup(localInPs, ref)
 		}
 		ps.Refs[name] = ref
+
+		// keep the param being visible in the catch clause
+		if cur.IsKind(SPK_CATCH) && local != nil && local.BindKind == BK_PARAM {
+			ref.Scope = ps
+			return true
+		}
 	}
 
 	if !checkDup {
-- 
2.43.0


From f37b0243889b7f0905ee64fe017a38582da5d5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:24:03 +0000
Subject: [PATCH 079/191] fix: legacy octal next to the strict directive

---
 ecma/parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 074f0f1..55dd345 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5777,6 +5777,10 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 	case T_NUM:
 		loc := tok.rng
 		p.lexer.Next()
+		// the number next to the directive is scanned before entering the strict mode
+		if text := p.RngText(loc); len(text) > 1 && text[0] == '0' && IsDecimalDigit(rune(text[1])) && p.scope().IsKind(SPK_STRICT) {
+			return nil, p.errorAtLoc(p.finRng(loc), ERR_LEGACY_OCTAL_IN_STRICT_MODE)
+		}
 		return &NumLit{N_LIT_NUM, p.finRng(loc), span.Range{}}, nil
 	case T_STRING:
 		loc := tok.rng
-- 
2.43.0


From aa323502d30310d5de22d471201ef253cacc3ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:39 +0000
Subject: [PATCH 080/191] fix: shorthand property with initializer in operands

---
 ecma/parser/parser.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 55dd345..2ce4e37 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4314,6 +4314,10 @@ func (p *Parser) condExpr(test Node, notGT bool, notHook bool, notColon bool) (N
 		return nil, err
 	}
 
+	if err = p.checkOperand(test, cons, alt); err != nil {
+		return nil, err
+	}
+
 	node := &CondExpr{N_EXPR_COND, p.finRng(rng), test, cons, alt, span.Range{}}
 	return node, nil
 }
@@ -4386,6 +4390,10 @@ func (p *Parser) unaryExpr(typArgs Node, typArgsLoc span.Range, notColon bool) (
 			return nil, p.errorAtLoc(arg.Range(), ERR_MALFORMED_ARROW_PARAM)
 		}
 
+		if err = p.checkOperand(arg); err != nil {
+			return nil, err
+		}
+
 		scope := p.scope()
 		if scope.IsKind(SPK_STRICT) && op == T_DELETE && UnParen(arg).Type() == N_NAME {
 			return nil, p.errorAtLoc(arg.Range(), ERR_DELETE_LOCAL_IN_STRICT)
@@ -5416,6 +5424,18 @@ func (p *Parser) checkArg(arg Node, spread bool, simplicity bool) error {
 	return nil
 }
 
+// the object and array literals being operands are not patterns
+func (p *Parser) checkOperand(nodes ...Node) error {
+	for _, n := range nodes {
+		if typ := n.Type(); typ == N_LIT_OBJ || typ == N_LIT_ARR {
+			if err := p.checkArg(n, false, false); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
 func (p *Parser) checkArgs(args []Node, spread bool, simplicity bool) error {
 	for _, arg := range args {
 		err := p.checkArg(arg, spread, simplicity)
@@ -5613,6 +5633,10 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 			return nil, p.errorAtLoc(rhs.(*ArrowFn).arrowLoc, fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, "=>"))
 		}
 
+		if err = p.checkOperand(lhs, rhs); err != nil {
+			return nil, err
+		}
+
 		bin := &BinExpr{N_EXPR_BIN, span.Range{}, T_ILLEGAL, span.Range{}, nil, nil, span.Range{}}
 		bin.rng = p.finRng(lhs.Range())
 		bin.op = op
@@ -5736,6 +5760,10 @@ func (p *Parser) memberExprPropSubscript(obj Node, opt bool) (Node, error) {
 	if _, err := p.nextMustTok(T_BRACKET_R); err != nil {
 		return nil, err
 	}
+	if err = p.checkOperand(obj); err != nil {
+		return nil, err
+	}
+
 	node := &MemberExpr{N_EXPR_MEMBER, p.finRng(obj.Range()), obj, prop, true, opt, span.Range{}}
 	return node, nil
 }
@@ -5766,6 +5794,10 @@ func (p *Parser) memberExprPropDot(obj Node, opt bool) (Node, error) {
 		return nil, p.errorTok(tok)
 	}
 
+	if err := p.checkOperand(obj); err != nil {
+		return nil, err
+	}
+
 	node := &MemberExpr{N_EXPR_MEMBER, p.finRng(obj.Range()), obj, prop, false, opt, span.Range{}}
 	return node, nil
 }
-- 
2.43.0


From a21b283a97aa9acf0e909f63e91f65c88bbae789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:41 +0000
Subject: [PATCH 081/191] fix: shorthand property with initializer as the
 initializer or operand of await

---
 ecma/parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 2ce4e37..8b1e7dc 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3311,6 +3311,9 @@ func (p *Parser) varDec(lexical bool) (*VarDec, error) {
 		if err != nil {
 			return nil, err
 		}
+		if err = p.checkOperand(init); err != nil {
+			return nil, err
+		}
 	}
 
 	if binding.Type() != N_NAME && init == nil && !p.scope().IsKind(SPK_NOT_IN) && !(p.ts && p.scope().IsKind(SPK_TS_DECLARE)) {
@@ -4352,6 +4355,9 @@ func (p *Parser) awaitExpr(tok *Token) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := p.checkOperand(arg); err != nil {
+		return nil, err
+	}
 	return &UnaryExpr{N_EXPR_UNARY, p.finRng(rng), T_AWAIT, arg, span.Range{}}, nil
 }
 
-- 
2.43.0


From f324ea116ff98c787f26862f14e13723784aeaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:29:55 +0000
Subject: [PATCH 082/191] fix: return in static block

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 8b1e7dc..efcf8c4 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1935,7 +1935,7 @@ func (p *Parser) retStmt() (Node, error) {
 	}
 
 	scope := p.scope()
-	if !scope.IsKind(SPK_FUNC) && !scope.IsKind(SPK_FUNC_INDIRECT) {
+	if fn := scope.UpperFn(); fn == nil || !fn.IsKind(SPK_FUNC) || fn.IsKind(SPK_CLASS) || fn.IsKind(SPK_TS_MODULE) {
 		return nil, p.errorAtLoc(rng, ERR_ILLEGAL_RETURN)
 	}
 
-- 
2.43.0


From b8a2d660ea79f6b63948238ae5b1d6b2992373af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:15 +0000
Subject: [PATCH 083/191] fix: delete of a parenthesized private field

---
 ecma/parser/parser.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index efcf8c4..0f83a35 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4407,11 +4407,12 @@ func (p *Parser) unaryExpr(typArgs Node, typArgsLoc span.Range, notColon bool) (
 
 		if op == T_DELETE {
 			var m *MemberExpr
-			at := arg.Type()
+			operand := UnParen(arg)
+			at := operand.Type()
 			if at == N_EXPR_MEMBER {
-				m = arg.(*MemberExpr)
+				m = operand.(*MemberExpr)
 			} else if at == N_EXPR_CHAIN {
-				m, _ = arg.(*ChainExpr).expr.(*MemberExpr)
+				m, _ = operand.(*ChainExpr).expr.(*MemberExpr)
 			}
 
 			if m != nil && m.prop.Type() == N_NAME {
-- 
2.43.0


From 33e810f5553d91d1d063f182e076bbb171e8c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:25 +0000
Subject: [PATCH 084/191] fix: initializer of for-in and for-of declarations in
 sloppy mode

---
 ecma/parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 0f83a35..c7258b7 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2396,7 +2396,8 @@ func (p *Parser) forStmt() (Node, error) {
 			if len(varDec.decList) > 1 {
 				return nil, p.errorAtLoc(varDec.decList[1].Range(), ERR_DUP_BINDING)
 			}
-			if p.scope().IsKind(SPK_STRICT) {
+			// `for (var a = 1 in b);` is legal in sloppy mode
+			if p.scope().IsKind(SPK_STRICT) || isOf || varDec.kind != T_VAR || varDec.decList[0].(*VarDec).id.Type() != N_NAME {
 				for _, dec := range varDec.decList {
 					d := dec.(*VarDec)
 					if d.init != nil {
-- 
2.43.0


From 29dcdecaf168bb74c2c1d8caa8aa3b08f6c94b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:35 +0000
Subject: [PATCH 085/191] fix: unicode escape in the start of identifier

---
 ecma/parser/lexer.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 49fab20..e518d2a 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -627,6 +627,8 @@ func (l *Lexer) readName(jsx bool) *Token {
 		return l.errTokOfst(tok, err.msg, err.ofst)
 	} else if r == utf8.RuneError {
 		return l.errTok(tok)
+	} else if escapeInStart && !IsIdStart(r) {
+		return l.errTokOfst(tok, ERR_INVALID_UNICODE_ESCAPE, tok.rng.Lo)
 	}
 
 	var byt []byte
-- 
2.43.0


From ae7c0e22c61b6d1b5e25fdab0aeb5a27a190be8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:44 +0000
Subject: [PATCH 086/191] fix: codepoint escape in identifier

---
 ecma/parser/lexer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index e518d2a..0e9191a 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1675,7 +1675,11 @@ func (l *Lexer) readUnicodeEscape(c rune, id bool) (r rune, containsEscape bool,
 
 func (l *Lexer) readUnicodeEscapeSeq(id bool, start uint32) (rune, *FixedOfstErr) {
 	if l.src.AheadIsCh('{') {
-		return l.readCodepoint()
+		r, err := l.readCodepoint()
+		if err == nil && id && (!IsIdStart(r) && !IsIdPart(r) || r == '\\') {
+			return utf8.RuneError, &FixedOfstErr{ERR_INVALID_UNICODE_ESCAPE, start}
+		}
+		return r, err
 	}
 	return l.readHex4Digits(id, start)
 }
-- 
2.43.0


From f9389bf7fcba5aec71980d3c57e4f82058aae3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:54 +0000
Subject: [PATCH 087/191] fix: escape in new.target

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index c7258b7..869b8a5 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4553,7 +4553,7 @@ func (p *Parser) newExpr(callee bool) (Node, error) {
 		if err != nil {
 			return nil, err
 		}
-		if id.val != "target" {
+		if id.val != "target" || id.containsEscape {
 			return nil, p.errorAtLoc(id.Range(), ERR_INVALID_META_PROP)
 		}
 		if !(scope.IsKind(SPK_CLASS) || scope.IsKind(SPK_CLASS_INDIRECT) ||
-- 
2.43.0


From 7c207238fb5a3f0d7652cfea19607425a86a28df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:04 +0000
Subject: [PATCH 088/191] fix: await without operand in async function of
 script

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 869b8a5..1f4a806 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4333,7 +4333,7 @@ func (p *Parser) awaitExpr(tok *Token) (Node, error) {
 
 	ahead := p.lexer.Peek()
 	if !TokenKinds[ahead.value].StartExpr {
-		if p.feat&FEAT_MODULE != 0 {
+		if p.feat&FEAT_MODULE != 0 || scope.IsKind(SPK_ASYNC) && !scope.IsKind(SPK_FORMAL_PARAMS) {
 			// report friendly message for expr like: `async function foo(await) {}`
 			if ahead.value == T_PAREN_R || ahead.value == T_COMMA {
 				return nil, p.errorAtLoc(rng, fmt.Sprintf(ERR_TPL_BINDING_RESERVED_WORD, "await"))
-- 
2.43.0


From 40c033e3b69af69e1b97bdd333f7427b1c5fbf2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:14 +0000
Subject: [PATCH 089/191] fix: function redeclares the lexical binding in
 sloppy mode

---
 ecma/parser/parser.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 1f4a806..b47f20f 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2616,7 +2616,11 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			if ps.IsKind(SPK_TS_DECLARE) {
 				fnRef.Typ = fnRef.Typ.On(RDT_TYPE)
 			}
-			if err := p.addLocalBinding(ps, fnRef, ps.IsKind(SPK_STRICT), fnRef.Id.val); err != nil {
+			checkDup := ps.IsKind(SPK_STRICT)
+			if local := ps.Local(fnRef.Id.val); local != nil && local.Typ == RDT_NONE {
+				checkDup = checkDup || local.BindKind == BK_LET || local.BindKind == BK_CONST
+			}
+			if err := p.addLocalBinding(ps, fnRef, checkDup, fnRef.Id.val); err != nil {
 				return nil, err
 			}
 		}
-- 
2.43.0


From 8d291aae87c3c202136dd590905e0969133900ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:33:53 +0000
Subject: [PATCH 090/191] fix: with statement with lexical declaration as body

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index b47f20f..9451dad 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1746,6 +1746,8 @@ func (p *Parser) withStmt() (Node, error) {
 		return nil, err
 	}
 
+	scope := p.scope()
+	scope.AddKind(SPK_INTERIM)
 	tok := p.lexer.PeekStmtBegin()
 	body, err := p.stmt()
 	if err != nil {
@@ -1754,6 +1756,7 @@ func (p *Parser) withStmt() (Node, error) {
 		}
 		return nil, err
 	}
+	scope.EraseKind(SPK_INTERIM)
 
 	if p.scope().IsKind(SPK_STRICT) {
 		return nil, p.errorAtLoc(p.finRng(rng), ERR_WITH_STMT_IN_STRICT)
-- 
2.43.0


From 22578732235b319a2e80a145fff8cf4a1c7fecbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:34:02 +0000
Subject: [PATCH 091/191] fix: yield as binding name in generator

---
 ecma/parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 9451dad..abe223c 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3381,6 +3381,10 @@ func (p *Parser) identStrict(scope *Scope, forceStrict bool, binding bool) (Node
 		return nil, p.errorAtLoc(rng, fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, name))
 	}
 
+	if binding && name == "yield" && scope.IsKind(SPK_GENERATOR) && !tok.ContainsEscape() {
+		return nil, p.errorAtLoc(rng, fmt.Sprintf(ERR_TPL_BINDING_RESERVED_WORD, name))
+	}
+
 	// for reporting `'let' is disallowed as a lexically bound name` for stmt like `let let`
 	if !scope.IsKind(SPK_STRICT) && scope.IsKind(SPK_LEXICAL_DEC) && !tok.ContainsEscape() {
 		if name == "let" || name == "const" {
-- 
2.43.0


From 0f31d8a2d47667a5996addcbb51769c1caf2a590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:04 +0000
Subject: [PATCH 092/191] fix: error of duplicate import bindings is dropped

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index abe223c..53297fe 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -931,7 +931,7 @@ func (p *Parser) importDec() (Node, error) {
 			ref.Dec = node
 			ref.BindKind = BK_CONST
 			ref.Typ = RDT_IMPORT
-			if p.addLocalBinding(p.Symtab().Scopes[0], ref, true, ref.Id.val); err != nil {
+			if err := p.addLocalBinding(p.Symtab().Scopes[0], ref, true, ref.Id.val); err != nil {
 				return nil, err
 			}
 		}
-- 
2.43.0


From 84881e5c9a766d85371ea3dd501e38f316fd6eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:32 +0000
Subject: [PATCH 093/191] fix: import declaration without from

---
 ecma/parser/parser.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 53297fe..72eefc2 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -904,7 +904,10 @@ func (p *Parser) importDec() (Node, error) {
 
 	ahead = p.lexer.Peek()
 	av := ahead.value
-	if av == T_NAME && ahead.text == "from" && !ahead.ContainsEscape() {
+	if tok.value != T_STRING {
+		if av != T_NAME || ahead.text != "from" || ahead.ContainsEscape() {
+			return nil, p.errorTok(ahead)
+		}
 		p.lexer.Next()
 	}
 
-- 
2.43.0


From f497cbec3df2a8ea0e91976a52dc1b67945acc2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:36:51 +0000
Subject: [PATCH 094/191] fix: arrow function as the callee of new

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 72eefc2..47c258d 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4602,6 +4602,9 @@ func (p *Parser) newExpr(callee bool) (Node, error) {
 	if expr.Type() == N_IMPORT_CALL {
 		return nil, p.errorAtLoc(expr.Range(), ERR_DYNAMIC_IMPORT_CANNOT_NEW)
 	}
+	if fn, ok := expr.(*ArrowFn); ok && fn.OuterParen().Empty() {
+		return nil, p.errorAtLoc(expr.Range(), ERR_UNEXPECTED_TOKEN)
+	}
 
 	var args []Node
 	var typArgs Node
-- 
2.43.0


From d1c6c5ddeb49662d22f510be527c4757ea922fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:34 +0000
Subject: [PATCH 095/191] fix: import source check survives the token ring
 buffer

---
 ecma/parser/parser.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 47c258d..4c84c1a 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -817,6 +817,7 @@ func (p *Parser) importDec() (Node, error) {
 
 	specs := make([]Node, 0, 5)
 	tok := p.lexer.Peek()
+	bare := tok.value == T_STRING
 	node := &ImportDec{N_STMT_IMPORT, span.Range{}, specs, nil, false}
 
 	// the second arg set to `true` for stmt like: `import type * as Types`
@@ -904,7 +905,7 @@ func (p *Parser) importDec() (Node, error) {
 
 	ahead = p.lexer.Peek()
 	av := ahead.value
-	if tok.value != T_STRING {
+	if !bare {
 		if av != T_NAME || ahead.text != "from" || ahead.ContainsEscape() {
 			return nil, p.errorTok(ahead)
 		}
-- 
2.43.0


From 138674912854c07fdca0764418d11f1da64b3a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:57 +0000
Subject: [PATCH 096/191] fix: class and value with the same name

---
 ecma/parser/symtab.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 043708b..6dbc55e 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -321,6 +321,9 @@ func CheckRefDup(r1, r2 *Ref) bool {
 	if IsOneOfNs(r1, r2) {
 		return true
 	}
+	if IsClassAndLocalVal(r1, r2) {
+		return false
+	}
 	return !IsBothTyp(r1, r2) && !IsBothVal(r1, r2)
 }
 
@@ -368,6 +371,16 @@ func IsBothFnTypDec(r1, r2 *Ref) bool {
 		r2.Typ&RDT_TYPE != 0
 }
 
+// caller should ensure both `r1` and `r2` match below rules:
+// - are def rather than ref
+// - have the same name
+//
+// a class introduces a value besides its type, an imported name may be a type
+func IsClassAndLocalVal(r1, r2 *Ref) bool {
+	return r1.Typ&RDT_CLASS != 0 && r2.Typ == RDT_NONE ||
+		r2.Typ&RDT_CLASS != 0 && r1.Typ == RDT_NONE
+}
+
 // caller should ensure both `r1` and `r2` match below rules:
 // - are def rather than ref
 // - have the same name
-- 
2.43.0


From e183f8e10474003ea0aa5d7f9e829c0062ac3f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:53 +0000
Subject: [PATCH 097/191] fix: panic at optional parameter outside of ts

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 4c84c1a..3fab885 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3534,6 +3534,9 @@ func (p *Parser) param(methodKind PropKind) (Node, error) {
 	rng := binding.Range()
 
 	if ques, _ := p.tsAdvanceHook(false); !ques.Empty() {
+		if !p.ts {
+			return nil, p.errorAtLoc(ques, ERR_UNEXPECTED_TOKEN)
+		}
 		if wt, ok := binding.(NodeWithTypInfo); ok {
 			wt.TypInfo().SetQues(ques)
 		}
-- 
2.43.0


From 8986cdb9738f3b1f742634944c9ea1925afdac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:25 +0000
Subject: [PATCH 098/191] fix: keyword as shorthand property with initializer

---
 ecma/parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 3fab885..09c0d73 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -6322,6 +6322,10 @@ func (p *Parser) propData() (Node, error) {
 		}
 		shorthand = true
 		value = key
+	} else if assign && key.Type() == N_NAME {
+		if id := key.(*Ident); id.kw && id.val != "eval" && id.val != "arguments" {
+			return nil, p.errorAtLoc(id.rng, fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, id.val))
+		}
 	}
 	return &Prop{N_PROP, p.finRng(loc), key, opLoc, value, !compute.Empty(), false, shorthand, assign, PK_INIT, ACC_MOD_NONE}, nil
 }
-- 
2.43.0


From 43387be213a5f5b4358d305e6899390535e3c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:56 +0000
Subject: [PATCH 099/191] fix: in as identifier reference

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 09c0d73..f6bd4f6 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5876,6 +5876,9 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 
 		p.lexer.Next()
 		name := p.TokText(tok)
+		if name == "in" {
+			return nil, p.errorTok(tok)
+		}
 		ahead := p.lexer.Peek()
 		// `ahead.value != T_ARROW` is used to skip checking name when it appears in the param list of arrow expr
 		// for `eval => 42` we should report binding-reserved-word error instead of unexpected-reserved-word error
-- 
2.43.0


From 380a98097d5be8bb075c6d1343b3e5b2e706368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:04 +0000
Subject: [PATCH 100/191] fix: in as binding name

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index f6bd4f6..029f88a 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3378,7 +3378,7 @@ func (p *Parser) identStrict(scope *Scope, forceStrict bool, binding bool) (Node
 	name := p.TokText(tok)
 	rng := p.finRng(tok.rng)
 
-	if p.isProhibitedName(scope, name, true, false, false, forceStrict) {
+	if binding && name == "in" || p.isProhibitedName(scope, name, true, false, false, forceStrict) {
 		if binding {
 			return nil, p.errorAtLoc(rng, fmt.Sprintf(ERR_TPL_BINDING_RESERVED_WORD, name))
 		}
-- 
2.43.0


From 0a4361678cb0d5608550c171ffa10f8824c56a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:12 +0000
Subject: [PATCH 101/191] fix: yield as identifier reference in generator

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 029f88a..dc52721 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5876,7 +5876,7 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 
 		p.lexer.Next()
 		name := p.TokText(tok)
-		if name == "in" {
+		if name == "in" || name == "yield" && p.scope().IsKind(SPK_GENERATOR) && !tok.ContainsEscape() {
 			return nil, p.errorTok(tok)
 		}
 		ahead := p.lexer.Peek()
-- 
2.43.0


From 41a827bf58dab30a8384470bfb1d5a76151fbcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:40:21 +0000
Subject: [PATCH 102/191] fix: shorthand initializer in operand of yield

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index dc52721..9cb29b9 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4160,6 +4160,9 @@ func (p *Parser) yieldExpr() (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if err := p.checkArg(arg, false, false); err != nil {
+		return nil, err
+	}
 	return &YieldExpr{N_EXPR_YIELD, p.finRng(rng), delegate, arg, span.Range{}}, nil
 }
 
-- 
2.43.0


From 545e16f0cc4b0b322763dd599a9894ce55634109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:22 +0000
Subject: [PATCH 103/191] fix: panic at binding pattern in params outside of ts

---
 ecma/parser/ts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 9bb658d..1ccaebc 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -2624,7 +2624,7 @@ func (p *Parser) tsCheckParam(node Node, opts *TsCheckParamOpts) error {
 		// `[]?` in `declare function foo([]?): void` is legal
 		// `[]?` in `function foo([]?): void {}` is illegal
 		n := node.(*ArrPat)
-		if !n.ti.ques.Empty() && (!opts.inDeclare || opts.impl) {
+		if n.ti != nil && !n.ti.ques.Empty() && (!opts.inDeclare || opts.impl) {
 			return p.errorAtLoc(n.ti.ques, ERR_BINDING_PATTERN_REQUIRE_IN_IMPL)
 		}
 	case N_PAT_REST:
-- 
2.43.0


From 46e3a31af6567ee416c8504579002f1d1f4f387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:31 +0000
Subject: [PATCH 104/191] fix: in as shorthand property

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 9cb29b9..fe8d4b5 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -6323,7 +6323,7 @@ func (p *Parser) propData() (Node, error) {
 	if value == nil && key.Type() == N_NAME {
 		id := key.(*Ident)
 		name := id.val
-		if id.kw && name != "eval" && name != "arguments" {
+		if (id.kw || name == "in") && name != "eval" && name != "arguments" {
 			return nil, p.errorAtLoc(id.rng, fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, id.val))
 		}
 		shorthand = true
-- 
2.43.0


From 9d2efb1508cd498f31cb668196138a286a9334d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:42:59 +0000
Subject: [PATCH 105/191] fix: class fields on one line without semicolon

---
 ecma/parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index fe8d4b5..fbfdff1 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1667,7 +1667,9 @@ func (p *Parser) field(key Node, begin, static span.Range, accMod ACC_MOD, begin
 		}
 		return p.method(rng, key, accMod, compute, false, PK_METHOD, false, false, true, true, !static.Empty(), beginLoc, !declare.Empty(), !abstract.Empty(), !override.Empty(), ti)
 	}
-	p.advanceIfSemi(false)
+	if err := p.advanceIfSemi(!p.ts); err != nil {
+		return nil, err
+	}
 
 	if p.ts && !compute.Empty() && ti.typAnnot != nil {
 		if !abstract.Empty() {
-- 
2.43.0


From dd5d2efbc9719b15a379c8715123565411787a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:17 +0000
Subject: [PATCH 106/191] fix: \08 and \09 in strict mode

---
 ecma/parser/lexer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 0e9191a..8a27c32 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1251,7 +1251,7 @@ func (l *Lexer) readEscapeSeq(tpl bool) (r rune, errMsg string, octalEscapeSeq b
 	case '0', '1', '2', '3', '4', '5', '6', '7':
 		var i int
 		r, errMsg, i = l.readOctalEscapeSeq(c, tpl)
-		octalEscapeSeq = r != 0 || i != 1
+		octalEscapeSeq = r != 0 || i != 1 || IsDecimalDigit(l.src.Peek())
 		return
 	case 'x':
 		r, errMsg = l.readHexEscapeSeq()
-- 
2.43.0


From 40f6ef4ee708d47c42a4741e331f40bd40e4be2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:43:38 +0000
Subject: [PATCH 107/191] fix: literal as shorthand in binding pattern

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index fbfdff1..d49125d 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3800,6 +3800,9 @@ func (p *Parser) patternProp() (Node, error) {
 
 	shorthand := false
 	if value == nil {
+		if id, ok := key.(*Ident); !ok || !compute.Empty() || id.val == "in" {
+			return nil, p.errorTok(tok)
+		}
 		value = key
 		shorthand = true
 	}
-- 
2.43.0


From d32cc5fb2f0425293f3d7e09d7b9999e9fb8dc09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:43 +0000
Subject: [PATCH 108/191] fix: const as binding name

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index d49125d..eeff611 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3380,7 +3380,7 @@ func (p *Parser) identStrict(scope *Scope, forceStrict bool, binding bool) (Node
 	name := p.TokText(tok)
 	rng := p.finRng(tok.rng)
 
-	if binding && name == "in" || p.isProhibitedName(scope, name, true, false, false, forceStrict) {
+	if binding && !tok.ContainsEscape() && (name == "in" || name == "const") || p.isProhibitedName(scope, name, true, false, false, forceStrict) {
 		if binding {
 			return nil, p.errorAtLoc(rng, fmt.Sprintf(ERR_TPL_BINDING_RESERVED_WORD, name))
 		}
-- 
2.43.0


From 7c5843c2f824cd217313327156f41729758e0c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:53 +0000
Subject: [PATCH 109/191] fix: const as identifier

---
 ecma/parser/parser.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index eeff611..633cb92 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3800,7 +3800,7 @@ func (p *Parser) patternProp() (Node, error) {
 
 	shorthand := false
 	if value == nil {
-		if id, ok := key.(*Ident); !ok || !compute.Empty() || id.val == "in" {
+		if id, ok := key.(*Ident); !ok || !compute.Empty() || id.val == "in" || id.val == "const" {
 			return nil, p.errorTok(tok)
 		}
 		value = key
@@ -5884,7 +5884,7 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 
 		p.lexer.Next()
 		name := p.TokText(tok)
-		if name == "in" || name == "yield" && p.scope().IsKind(SPK_GENERATOR) && !tok.ContainsEscape() {
+		if name == "in" || name == "const" || name == "yield" && p.scope().IsKind(SPK_GENERATOR) && !tok.ContainsEscape() {
 			return nil, p.errorTok(tok)
 		}
 		ahead := p.lexer.Peek()
@@ -6328,7 +6328,7 @@ func (p *Parser) propData() (Node, error) {
 	if value == nil && key.Type() == N_NAME {
 		id := key.(*Ident)
 		name := id.val
-		if (id.kw || name == "in") && name != "eval" && name != "arguments" {
+		if (id.kw || name == "in" || name == "const") && name != "eval" && name != "arguments" {
 			return nil, p.errorAtLoc(id.rng, fmt.Sprintf(ERR_TPL_UNEXPECTED_TOKEN_TYPE, id.val))
 		}
 		shorthand = true
-- 
2.43.0


From c63d9030f40ff674bec98f065351219cd2a9d248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:04 +0000
Subject: [PATCH 110/191] fix: export default expression requires semicolon

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 633cb92..96dca87 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -530,7 +530,7 @@ func (p *Parser) exportDec() (Node, error) {
 			}
 		} else {
 			node.dec, err = p.assignExpr(true, false, false, false)
-			if err := p.advanceIfSemi(false); err != nil {
+			if err := p.advanceIfSemi(true); err != nil {
 				return nil, err
 			}
 		}
-- 
2.43.0


From b75867e5bd7390594f3e334a330135fef098767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:58 +0000
Subject: [PATCH 111/191] fix: type arguments outside of ts

---
 ecma/parser/ts.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 1ccaebc..b901ca8 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -1612,6 +1612,9 @@ func (p *Parser) tsTryTypArgs(asyncLoc span.Range, noJsx bool) (Node, error) {
 	if !asyncLoc.Empty() {
 		return p.tsTryTypArgsAfterAsync(asyncLoc)
 	}
+	if !p.ts {
+		return nil, p.errorTok(ahead)
+	}
 
 	p.pushState()
 	node, err := p.tsTypArgs(true, noJsx || p.scope().IsKind(SPK_CLASS_EXTEND_SUPER))
-- 
2.43.0


From 1ec4fb20faa986c81faff0cc046349a8619d3261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:39 +0000
Subject: [PATCH 112/191] fix: reserved word before a line terminator in strict
 mode

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 96dca87..a14b686 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5890,7 +5890,7 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 		ahead := p.lexer.Peek()
 		// `ahead.value != T_ARROW` is used to skip checking name when it appears in the param list of arrow expr
 		// for `eval => 42` we should report binding-reserved-word error instead of unexpected-reserved-word error
-		if p.checkName && ahead.value != T_ARROW && !ahead.afterLineTerm && p.isProhibitedName(nil, name, true, false, false, false) {
+		if p.checkName && ahead.value != T_ARROW && p.isProhibitedName(nil, name, true, false, false, false) {
 			if tok.ContainsEscape() {
 				return nil, p.errorAtLoc(p.finRng(loc), ERR_ESCAPE_IN_KEYWORD)
 			}
-- 
2.43.0


From 5bad88ea957d5db71ff5a1b6ac45ac8f1c6f0f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:36 +0000
Subject: [PATCH 113/191] fix: class method without name

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index a14b686..d25293c 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1499,6 +1499,9 @@ func (p *Parser) classElem(inDeclare bool) (Node, error) {
 		}
 		return p.method(beginLoc, nil, accMod, span.Range{}, false, PK_METHOD, false, true, true, true, static, beginLoc, declare, abstract, override, nil)
 	} else if p.aheadIsArgList(ahead) {
+		if fieldName == "" {
+			return nil, p.errorTok(ahead)
+		}
 		key := &Ident{N_NAME, fieldLoc, fieldName, false, escape, span.Range{}, true, p.newTypInfo(N_STMT_CLASS)}
 		return p.method(beginLoc, key, accMod, span.Range{}, false, PK_METHOD, false, false, false, true, false, beginLoc, false, false, false, nil)
 	} else if ahead.value == T_MUL {
-- 
2.43.0


From 723f67b628dc9f5572c4961264811b87b3131566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:47 +0000
Subject: [PATCH 114/191] fix: call after the param of async arrow function

---
 ecma/parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index d25293c..ce5feec 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2615,6 +2615,10 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			return nil, err
 		}
 
+		if ahead := p.lexer.Peek(); !fn && ahead.value != T_ARROW {
+			return nil, p.errorTok(ahead)
+		}
+
 		// name of the function expression will not add a ref record, so does the param
 		// of the async arrow function
 		if !expr && fn {
-- 
2.43.0


From 0f9cd181036814c9c9e71ba9a5fa8c082e138b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:59 +0000
Subject: [PATCH 115/191] fix: shorthand initializer in callee of new

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index ce5feec..81b4b4d 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4621,6 +4621,9 @@ func (p *Parser) newExpr(callee bool) (Node, error) {
 	if expr.Type() == N_IMPORT_CALL {
 		return nil, p.errorAtLoc(expr.Range(), ERR_DYNAMIC_IMPORT_CANNOT_NEW)
 	}
+	if err := p.checkOperand(expr); err != nil {
+		return nil, err
+	}
 	if fn, ok := expr.(*ArrowFn); ok && fn.OuterParen().Empty() {
 		return nil, p.errorAtLoc(expr.Range(), ERR_UNEXPECTED_TOKEN)
 	}
-- 
2.43.0


From 7932b59ca1434070cb61c18bb4d2aa5b4b9a4c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:54 +0000
Subject: [PATCH 116/191] fix: import specifiers without comma

---
 ecma/parser/parser.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 81b4b4d..9ca4c8d 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1031,9 +1031,10 @@ func (p *Parser) importNamed(typ bool) ([]Node, error) {
 			return nil, err
 		}
 		specs = append(specs, spec)
-		if p.lexer.Peek().value == T_COMMA {
-			p.lexer.Next()
+		if p.lexer.Peek().value != T_COMMA {
+			break
 		}
+		p.lexer.Next()
 	}
 
 	_, err := p.nextMustTok(T_BRACE_R)
-- 
2.43.0


From 7ebc9e1aa85a47e905f141a0c4ab11f2a525caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:54 +0000
Subject: [PATCH 117/191] fix: rest element as variable declarator

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 9ca4c8d..e1e51eb 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3313,6 +3313,9 @@ func (p *Parser) varDec(lexical bool) (*VarDec, error) {
 		scope.AddKind(SPK_LEXICAL_DEC)
 	}
 
+	if ahead := p.lexer.Peek(); ahead.value == T_DOT_TRI {
+		return nil, p.errorTok(ahead)
+	}
 	binding, err := p.bindingPattern()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From f7f970f656504bffa165d944a1ee44072ea7fd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:04 +0000
Subject: [PATCH 118/191] fix: rest of array pattern with initializer, as
 property value and as rest argument

---
 ecma/parser/parser.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index e1e51eb..add8ac3 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4002,6 +4002,11 @@ func (p *Parser) bindingElem(asProp bool) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if binding.Type() == N_PAT_REST {
+		if ahead := p.lexer.Peek(); ahead.value == T_ASSIGN {
+			return nil, p.errorTok(ahead)
+		}
+	}
 	return p.patternAssign(binding, asProp)
 }
 
-- 
2.43.0


From d84ca9596dbcc30c85e1550cee4692034fc375a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:15 +0000
Subject: [PATCH 119/191] fix: function expression with expression as body

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index add8ac3..bc412f3 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2762,7 +2762,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			if body, err = p.fnBody(); err != nil {
 				return nil, err
 			}
-		} else if expr || arrow {
+		} else if arrow {
 			if ps.IsKind(SPK_NOT_IN) {
 				scope.AddKind(SPK_NOT_IN)
 			}
-- 
2.43.0


From 7f0c55acdcaab1305604035944d1ab92c62264e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:56:38 +0000
Subject: [PATCH 120/191] fix: rest element as the value of property pattern

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index bc412f3..28d0968 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3798,6 +3798,9 @@ func (p *Parser) patternProp() (Node, error) {
 	var value Node
 	if tok.value == T_COLON {
 		p.lexer.Next()
+		if ahead := p.lexer.Peek(); ahead.value == T_DOT_TRI {
+			return nil, p.errorTok(ahead)
+		}
 		value, err = p.bindingElem(false)
 		if err != nil {
 			return nil, err
-- 
2.43.0


From 1840106efc8256e8ef81a64c83f8fca24c1c2234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:57:04 +0000
Subject: [PATCH 121/191] fix: rest element as catch parameter

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 28d0968..1231267 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1816,6 +1816,9 @@ func (p *Parser) tryStmt() (Node, error) {
 		if ahead.value == T_PAREN_L {
 			p.lexer.Next()
 
+			if ahead := p.lexer.Peek(); ahead.value == T_DOT_TRI {
+				return nil, p.errorTok(ahead)
+			}
 			param, err = p.bindingPattern()
 			if err != nil {
 				return nil, err
-- 
2.43.0


From 93e1efb4e36c8e0a5999eb114d9e9e236d243192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:03:20 +0000
Subject: [PATCH 122/191] fix: let as function name in the initializer of
 lexical pattern

---
 ecma/parser/parser.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 1231267..79d03cc 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4023,10 +4023,16 @@ func (p *Parser) patternAssign(ident Node, asProp bool) (Node, error) {
 	if p.lexer.Peek().value == T_ASSIGN {
 		tok := p.lexer.Next()
 		opLoc = tok.rng
+		scope := p.scope()
+		lexical := scope.IsKind(SPK_LEXICAL_DEC)
+		scope.EraseKind(SPK_LEXICAL_DEC)
 		init, err = p.assignExpr(true, false, false, false)
 		if err != nil {
 			return nil, err
 		}
+		if lexical {
+			scope.AddKind(SPK_LEXICAL_DEC)
+		}
 
 		if err = p.checkArg(init, true, false); err != nil {
 			return nil, err
-- 
2.43.0


From 7d70bb655e59270b9aba90dc66aabd9e7d253400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:32 +0000
Subject: [PATCH 123/191] fix: string ends with escaped backslash in json
 comments remover

---
 util/str.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/util/str.go b/util/str.go
index 9989cb2..6d43757 100644
--- a/util/str.go
+++ b/util/str.go
@@ -20,7 +20,7 @@ func RemoveJsonComments(str string) ([]byte, error) {
 	// 3 - multiline comment
 	state := 0
 
-	pr := utf8.RuneError
+
 
 	peek := func(str string) (rune, int, error) {
 		r, s := utf8.DecodeRuneInString(str)
@@ -61,9 +61,20 @@ func RemoveJsonComments(str string) ([]byte, error) {
 		case '"':
 			if state == 0 {
 				state = 1
-			} else if state == 1 && pr != '\\' {
+			} else if state == 1 {
 				state = 0
 			}
+		case '\\':
+			// the escaped char cannot terminate the string
+			if state == 1 {
+				sb.WriteRune(next())
+				if len(str) == 0 {
+					continue
+				}
+				if _, _, err := peek(str); err != nil {
+					return nil, err
+				}
+			}
 		case '/':
 			if state == 0 {
 				pp, _, _ := peek(str[s:])
@@ -130,7 +141,6 @@ func RemoveJsonComments(str string) ([]byte, error) {
 			}
 			sb.WriteRune(' ')
 		}
-		pr = r
 	}
 	return []byte(sb.String()), nil
 }
-- 
2.43.0


From 1432ff962d8fd552cfc01de05ff774f72ba46bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:05:47 +0000
Subject: [PATCH 124/191] fix: replacement character in json is not deformed

---
 util/str.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/util/str.go b/util/str.go
index 6d43757..bd74805 100644
--- a/util/str.go
+++ b/util/str.go
@@ -24,7 +24,7 @@ func RemoveJsonComments(str string) ([]byte, error) {
 
 	peek := func(str string) (rune, int, error) {
 		r, s := utf8.DecodeRuneInString(str)
-		if r == utf8.RuneError && s > 0 {
+		if r == utf8.RuneError && s == 1 {
 			return utf8.RuneError, 0, errors.New("deformed json")
 		}
 		return r, s, nil
@@ -33,7 +33,7 @@ func RemoveJsonComments(str string) ([]byte, error) {
 	peekNoWhite := func(str string) (rune, int, error) {
 		for {
 			r, s := utf8.DecodeRuneInString(str)
-			if r == utf8.RuneError && s > 0 {
+			if r == utf8.RuneError && s == 1 {
 				return utf8.RuneError, 0, errors.New("deformed json")
 			}
 
-- 
2.43.0


From 5ec967fde88ac7196b7c22ddc7fefefcd3961c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:03 +0000
Subject: [PATCH 125/191] fix: trailing comma followed by comments

---
 util/str.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/util/str.go b/util/str.go
index bd74805..63d73d9 100644
--- a/util/str.go
+++ b/util/str.go
@@ -41,6 +41,23 @@ func RemoveJsonComments(str string) ([]byte, error) {
 				str = str[s:]
 				continue
 			}
+
+			if strings.HasPrefix(str, "//") {
+				i := strings.IndexAny(str, "\r\n")
+				if i == -1 {
+					i = len(str)
+				}
+				str = str[i:]
+				continue
+			}
+			if strings.HasPrefix(str, "/*") {
+				i := strings.Index(str[2:], "*/")
+				if i == -1 {
+					i = len(str) - 4
+				}
+				str = str[i+4:]
+				continue
+			}
 			return r, s, nil
 		}
 	}
-- 
2.43.0


From b512e97ede368d6063bcd595ecc611198b371335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:17 +0000
Subject: [PATCH 126/191] fix: CRLF in multiline comment of json

---
 util/str.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/util/str.go b/util/str.go
index 63d73d9..a5ef969 100644
--- a/util/str.go
+++ b/util/str.go
@@ -20,8 +20,6 @@ func RemoveJsonComments(str string) ([]byte, error) {
 	// 3 - multiline comment
 	state := 0
 
-
-
 	peek := func(str string) (rune, int, error) {
 		r, s := utf8.DecodeRuneInString(str)
 		if r == utf8.RuneError && s == 1 {
@@ -153,7 +151,7 @@ func RemoveJsonComments(str string) ([]byte, error) {
 			sb.WriteRune(next())
 		} else {
 			next()
-			if state == 3 && (r == '\r' || r == '\n') {
+			if state == 3 && (r == '\r' && !strings.HasPrefix(str, "\n") || r == '\n') {
 				sb.WriteRune('\n')
 			}
 			sb.WriteRune(' ')
-- 
2.43.0


From 2f238758b656c2b5ca3d299bd9bd81dc33d43f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:42 +0000
Subject: [PATCH 127/191] fix: lru cache of small capacity is never cleared

---
 util/lru.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/lru.go b/util/lru.go
index 3ad84ef..940535f 100644
--- a/util/lru.go
+++ b/util/lru.go
@@ -13,9 +13,12 @@ type LruCache[K comparable, V any] struct {
 // - cap, the capacity of the store, normally the max number elements can be stored
 // - clear, the number of elements to be cleared when the store is full, default is 1/3 of capacity
 func NewLruCache[K comparable, V any](cap int, clear int) *LruCache[K, V] {
-	if clear == 0 || clear > cap {
+	if clear <= 0 || clear > cap {
 		clear = cap / 3
 	}
+	if clear == 0 {
+		clear = 1
+	}
 	return &LruCache[K, V]{
 		cap:   cap,
 		store: NewOrderedMap[K, V](),
-- 
2.43.0


From 5aa47d0a2f47747cf7209bc1e92eda2c097a4a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:52 +0000
Subject: [PATCH 128/191] fix: keys cleared from lru cache are still reported
 as present

---
 util/lru.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/lru.go b/util/lru.go
index 940535f..0cfe6ac 100644
--- a/util/lru.go
+++ b/util/lru.go
@@ -60,7 +60,7 @@ func (c *LruCache[K, V]) Set(key K, val V) {
 		for i := 0; i < c.clear; i++ {
 			elem := c.store.list.Front()
 			if elem != nil {
-				c.store.list.Remove(elem)
+				c.store.Remove(elem.Value.(*KvPair[K, V]).Key)
 			}
 		}
 	}
-- 
2.43.0


From 8d9b6cc313e5b5d45f364123ea93fd40b4aa147d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:54 +0000
Subject: [PATCH 129/191] fix: parse cache panics for finished process and
 blocks the second waiter

---
 parseutil/cache.go | 57 ++++++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 32 deletions(-)

diff --git a/parseutil/cache.go b/parseutil/cache.go
index fae7a2c..e736be8 100644
--- a/parseutil/cache.go
+++ b/parseutil/cache.go
@@ -18,17 +18,23 @@ type Parser interface {
 	Parse(file, code string, readFile bool, biz interface{}) Parsed
 }
 
+type parseEntry struct {
+	// closed when the process is done
+	done   chan struct{}
+	parsed Parsed
+}
+
 type ParseCache[T comparable] struct {
 	ps map[ParserType]Parser
 
-	store     map[T]interface{}
+	store     map[T]*parseEntry
 	storeLock sync.Mutex
 }
 
 func NewParseCache[T comparable]() *ParseCache[T] {
 	return &ParseCache[T]{
 		ps:        map[ParserType]Parser{},
-		store:     map[T]interface{}{},
+		store:     map[T]*parseEntry{},
 		storeLock: sync.Mutex{},
 	}
 }
@@ -37,38 +43,25 @@ func (c *ParseCache[T]) SetParser(p Parser) {
 	c.ps[p.Type()] = p
 }
 
+// every caller gets its own future, the process is performed once for each `key`
 func (c *ParseCache[T]) Parse(typ ParserType, key T, file, code string, readFile bool, biz interface{}) FutureParsed {
-	var r interface{}
 	c.storeLock.Lock()
-	r = c.store[key]
+	entry, ok := c.store[key]
+	if !ok {
+		entry = &parseEntry{done: make(chan struct{})}
+		c.store[key] = entry
+	}
 	c.storeLock.Unlock()
 
-	switch v := r.(type) {
-	case FutureParsed: // already has a pending process
-		return v
-
-	case *Parsed: // process has been done before
-		ret := make(FutureParsed, 1)
-		ret <- v
-		return ret
-
-	case nil: // first time
-		ret := make(FutureParsed, 1)
-		c.storeLock.Lock()
-		c.store[key] = ret
-		c.storeLock.Unlock()
-
-		go func() {
-			r := c.ps[typ].Parse(file, code, readFile, biz)
-
-			c.storeLock.Lock()
-			c.store[key] = r
-			c.storeLock.Unlock()
-
-			ret <- r
-		}()
-
-		return ret
-	}
-	panic("unreachable")
+	ret := make(FutureParsed, 1)
+	go func() {
+		if ok {
+			<-entry.done
+		} else {
+			entry.parsed = c.ps[typ].Parse(file, code, readFile, biz)
+			close(entry.done)
+		}
+		ret <- entry.parsed
+	}()
+	return ret
 }
-- 
2.43.0


From 1783694f5b1a3e0d66079c9824c2690714a9dec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:04 +0000
Subject: [PATCH 130/191] fix: data race of the pending directories in dir
 walker

---
 util/walkdir.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/util/walkdir.go b/util/walkdir.go
index b2cc3ff..37ef8f1 100644
--- a/util/walkdir.go
+++ b/util/walkdir.go
@@ -56,12 +56,12 @@ func NewDirWalker(dir string, concurrent int, handle DirWalkerHandle) *DirWalker
 }
 
 func (w *DirWalker) shift() string {
-	if w.dirs.Len() == 0 {
-		return ""
-	}
 	w.dirsLock.Lock()
 	defer w.dirsLock.Unlock()
 
+	if w.dirs.Len() == 0 {
+		return ""
+	}
 	d := w.dirs.Front()
 	w.dirs.Remove(d)
 	return d.Value.(string)
-- 
2.43.0


From 6e041eec0e375e9d2f15381c2bebfdd4909117f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:08:14 +0000
Subject: [PATCH 131/191] fix: dir walker leaks its workers and calls handle
 after stopped

---
 util/walkdir.go | 67 +++++++++++++++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 16 deletions(-)

diff --git a/util/walkdir.go b/util/walkdir.go
index 37ef8f1..2935b1a 100644
--- a/util/walkdir.go
+++ b/util/walkdir.go
@@ -22,8 +22,10 @@ type DirWalker struct {
 
 	newJob chan bool
 
-	wg    sync.WaitGroup
-	wgFin chan bool
+	// the number of the directories which are not handled yet
+	pending   int
+	wgFin     chan bool
+	workersWg sync.WaitGroup
 
 	stop chan error
 	fin  chan bool
@@ -45,7 +47,6 @@ func NewDirWalker(dir string, concurrent int, handle DirWalkerHandle) *DirWalker
 
 		newJob: make(chan bool),
 
-		wg:    sync.WaitGroup{},
 		wgFin: make(chan bool),
 
 		stop: make(chan error),
@@ -72,9 +73,41 @@ func (w *DirWalker) push(file string) {
 	defer w.dirsLock.Unlock()
 
 	w.dirs.PushBack(file)
+	w.pending += 1
+}
+
+func (w *DirWalker) done() {
+	w.dirsLock.Lock()
+	w.pending -= 1
+	fin := w.pending == 0
+	w.dirsLock.Unlock()
+
+	if fin {
+		select {
+		case w.wgFin <- true:
+		case <-w.fin:
+		}
+	}
+}
+
+func (w *DirWalker) notify() {
+	select {
+	case w.newJob <- true:
+	case <-w.fin:
+	}
+}
+
+func (w *DirWalker) stopped() bool {
+	select {
+	case <-w.fin:
+		return true
+	default:
+		return false
+	}
 }
 
 func (w *DirWalker) walk() {
+	defer w.workersWg.Done()
 loop:
 	for {
 		select {
@@ -86,7 +119,7 @@ loop:
 
 			files, err := os.ReadDir(dir)
 			if err != nil {
-				w.stop <- err
+				w.Stop(err)
 				return
 			}
 
@@ -95,17 +128,19 @@ loop:
 			w.handle(dir, true, w)
 
 			for _, file := range files {
+				if w.stopped() {
+					return
+				}
 				pth := filepath.Join(dir, file.Name())
 				if file.IsDir() {
-					w.wg.Add(1)
 					w.push(pth)
-					go func() { w.newJob <- true }()
+					go w.notify()
 				} else {
 					w.handle(pth, false, w)
 				}
 			}
 
-			w.wg.Done()
+			w.done()
 		case <-w.fin:
 			break loop
 		}
@@ -114,14 +149,17 @@ loop:
 
 func (w *DirWalker) initWorkers() *DirWalker {
 	for i := 0; i < w.Concurrent; i++ {
+		w.workersWg.Add(1)
 		go w.walk()
-
 	}
 	return w
 }
 
 func (w *DirWalker) Stop(err error) {
-	w.stop <- err
+	select {
+	case w.stop <- err:
+	case <-w.fin:
+	}
 }
 
 func (w *DirWalker) Err() error {
@@ -129,15 +167,9 @@ func (w *DirWalker) Err() error {
 }
 
 func (w *DirWalker) Walk() {
-	w.wg.Add(1)
 	w.push(w.Dir)
 	w.newJob <- true
 
-	go func() {
-		w.wg.Wait()
-		w.wgFin <- true
-	}()
-
 loop:
 	for {
 		select {
@@ -149,5 +181,8 @@ loop:
 		}
 	}
 
-	w.fin <- true
+	// release the workers and wait for them to quit, the handle will not be called
+	// after this point
+	close(w.fin)
+	w.workersWg.Wait()
 }
-- 
2.43.0


From f4d97c01a172bb34ddc0307025220e2fe583b606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:13 +0000
Subject: [PATCH 132/191] fix: walk: function, class and ts declaration events
 are raised under another node type

---
 ecma/walk/visitor.go       | 36 ++++++++++++++++++------------------
 script/visitor_gen/main.go | 29 ++++++++++++++++++++++-------
 2 files changed, 40 insertions(+), 25 deletions(-)

diff --git a/ecma/walk/visitor.go b/ecma/walk/visitor.go
index 36c2105..9556638 100644
--- a/ecma/walk/visitor.go
+++ b/ecma/walk/visitor.go
@@ -1085,8 +1085,8 @@ func VisitTsInterfaceBodyAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitTsDec(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.TsDec)
 
-	CallVisitor(N_TS_DEC_TYP_DEC_BEFORE, n, key, ctx)
-	defer CallVisitor(N_TS_DEC_TYP_DEC_AFTER, n, key, ctx)
+	CallVisitor(NodeBeforeEvent(node.Type()), n, key, ctx)
+	defer CallVisitor(NodeAfterEvent(node.Type()), n, key, ctx)
 
 	VisitNode(n.Name(), "Name", ctx)
 	if ctx.WalkCtx.Stopped() {
@@ -1100,11 +1100,11 @@ func VisitTsDec(node parser.Node, key string, ctx *VisitorCtx) {
 }
 
 func VisitTsDecBefore(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_TS_DEC_TYP_DEC_BEFORE, node, key, ctx)
+	CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
 }
 
 func VisitTsDecAfter(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_TS_DEC_TYP_DEC_AFTER, node, key, ctx)
+	CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
 }
 
 func VisitSuper(node parser.Node, key string, ctx *VisitorCtx) {
@@ -1243,8 +1243,8 @@ func VisitExportSpecAfter(node parser.Node, key string, ctx *VisitorCtx) {
 }
 
 func VisitTsPredef(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_TS_NULL_BEFORE, node, key, ctx)
-	CallListener(N_TS_NULL_AFTER, node, key, ctx)
+	CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
+	CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
 }
 
 func VisitJsxEmpty(node parser.Node, key string, ctx *VisitorCtx) {
@@ -1428,8 +1428,8 @@ func VisitDoWhileStmtAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitFnDec(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.FnDec)
 
-	CallVisitor(N_EXPR_FN_BEFORE, n, key, ctx)
-	defer CallVisitor(N_EXPR_FN_AFTER, n, key, ctx)
+	CallVisitor(NodeBeforeEvent(node.Type()), n, key, ctx)
+	defer CallVisitor(NodeAfterEvent(node.Type()), n, key, ctx)
 
 	VisitNode(n.Id(), "Id", ctx)
 	if ctx.WalkCtx.Stopped() {
@@ -1451,11 +1451,11 @@ func VisitFnDec(node parser.Node, key string, ctx *VisitorCtx) {
 }
 
 func VisitFnDecBefore(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_EXPR_FN_BEFORE, node, key, ctx)
+	CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
 }
 
 func VisitFnDecAfter(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_EXPR_FN_AFTER, node, key, ctx)
+	CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
 }
 
 func VisitIdent(node parser.Node, key string, ctx *VisitorCtx) {
@@ -1611,8 +1611,8 @@ func VisitAssignExprAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitClassDec(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.ClassDec)
 
-	CallVisitor(N_EXPR_CLASS_BEFORE, n, key, ctx)
-	defer CallVisitor(N_EXPR_CLASS_AFTER, n, key, ctx)
+	CallVisitor(NodeBeforeEvent(node.Type()), n, key, ctx)
+	defer CallVisitor(NodeAfterEvent(node.Type()), n, key, ctx)
 
 	VisitNode(n.Id(), "Id", ctx)
 	if ctx.WalkCtx.Stopped() {
@@ -1631,11 +1631,11 @@ func VisitClassDec(node parser.Node, key string, ctx *VisitorCtx) {
 }
 
 func VisitClassDecBefore(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_EXPR_CLASS_BEFORE, node, key, ctx)
+	CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
 }
 
 func VisitClassDecAfter(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_EXPR_CLASS_AFTER, node, key, ctx)
+	CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
 }
 
 func VisitJsxSpreadChild(node parser.Node, key string, ctx *VisitorCtx) {
@@ -2457,8 +2457,8 @@ func VisitJsxAttrAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitTsNewSig(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.TsNewSig)
 
-	CallVisitor(N_TS_NEW_BEFORE, n, key, ctx)
-	defer CallVisitor(N_TS_NEW_AFTER, n, key, ctx)
+	CallVisitor(NodeBeforeEvent(node.Type()), n, key, ctx)
+	defer CallVisitor(NodeAfterEvent(node.Type()), n, key, ctx)
 
 	VisitNode(n.TypParams(), "TypParams", ctx)
 	if ctx.WalkCtx.Stopped() {
@@ -2477,11 +2477,11 @@ func VisitTsNewSig(node parser.Node, key string, ctx *VisitorCtx) {
 }
 
 func VisitTsNewSigBefore(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_TS_NEW_BEFORE, node, key, ctx)
+	CallListener(NodeBeforeEvent(node.Type()), node, key, ctx)
 }
 
 func VisitTsNewSigAfter(node parser.Node, key string, ctx *VisitorCtx) {
-	CallListener(N_TS_NEW_AFTER, node, key, ctx)
+	CallListener(NodeAfterEvent(node.Type()), node, key, ctx)
 }
 
 func VisitForStmt(node parser.Node, key string, ctx *VisitorCtx) {
diff --git a/script/visitor_gen/main.go b/script/visitor_gen/main.go
index 15c9000..96081fc 100644
--- a/script/visitor_gen/main.go
+++ b/script/visitor_gen/main.go
@@ -26,6 +26,7 @@ type MethodInfo struct {
 type StructInfo struct {
 	Name      string
 	TypName   string
+	TypCnt    int // count of the node types which share this struct
 	PushScope bool
 	Methods   []*MethodInfo
 }
@@ -35,6 +36,19 @@ func genVisitor(output io.Writer, s *StructInfo) error {
 	// use tpl instead of manually construct the ast
 	fnMap := template.FuncMap{
 		"UnPrefix": unPrefix,
+		// the node types which share the same struct raise the events of their own
+		"Before": func(s *StructInfo) string {
+			if s.TypCnt > 1 {
+				return "NodeBeforeEvent(node.Type())"
+			}
+			return "N_" + unPrefix(s.TypName) + "_BEFORE"
+		},
+		"After": func(s *StructInfo) string {
+			if s.TypCnt > 1 {
+				return "NodeAfterEvent(node.Type())"
+			}
+			return "N_" + unPrefix(s.TypName) + "_AFTER"
+		},
 	}
 	tpl, err := template.New(name).Funcs(fnMap).Parse(`
 func Visit{{ .Name }}(node parser.Node, key string, ctx *VisitorCtx) {
@@ -48,8 +62,8 @@ func Visit{{ .Name }}(node parser.Node, key string, ctx *VisitorCtx) {
       {{- end }}
 
       {{ if eq $key 0 }}
-        CallVisitor(N_{{ $.TypName | UnPrefix }}_BEFORE, n, key, ctx)
-        defer CallVisitor(N_{{ $.TypName | UnPrefix }}_AFTER, n, key, ctx)
+        CallVisitor({{ Before $ }}, n, key, ctx)
+        defer CallVisitor({{ After $ }}, n, key, ctx)
       {{- end }}
 
       {{ if ne $value.Name "PUSH_SCOPE" }}
@@ -64,18 +78,18 @@ func Visit{{ .Name }}(node parser.Node, key string, ctx *VisitorCtx) {
       {{- end }}
     {{- end }}
   {{- else}}
-    CallListener(N_{{ $.TypName | UnPrefix }}_BEFORE, node, key, ctx)
-    CallListener(N_{{ $.TypName | UnPrefix }}_AFTER, node, key, ctx)
+    CallListener({{ Before $ }}, node, key, ctx)
+    CallListener({{ After $ }}, node, key, ctx)
   {{- end }}
 }
 
 {{ if ge (len .Methods) 1 }}
 func Visit{{ .Name }}Before(node parser.Node, key string, ctx *VisitorCtx) {
-  CallListener(N_{{ $.TypName | UnPrefix }}_BEFORE, node, key, ctx)
+  CallListener({{ Before $ }}, node, key, ctx)
 }
 
 func Visit{{ .Name }}After(node parser.Node, key string, ctx *VisitorCtx) {
-  CallListener(N_{{ $.TypName | UnPrefix }}_AFTER, node, key, ctx)
+  CallListener({{ After $ }}, node, key, ctx)
 }
 {{- end}}
   `)
@@ -317,7 +331,7 @@ func main() {
 		if ok {
 			return s
 		}
-		structColl[name] = &StructInfo{name, "", false, []*MethodInfo{}}
+		structColl[name] = &StructInfo{name, "", 0, false, []*MethodInfo{}}
 		return structColl[name]
 	}
 
@@ -333,6 +347,7 @@ func main() {
 
 			s := getStruct(structName)
 			s.TypName = nodeTyp
+			s.TypCnt += 1
 		} else if name, _, ok := macro.IsStructDec(ctx.Node); ok {
 			s := getStruct(name)
 			for _, n := range ctx.Args {
-- 
2.43.0


From 1eb9c13d4b1c45751c95f697ffab5a9188ddba50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:17 +0000
Subject: [PATCH 133/191] fix: walk: path of a visited node is overwritten by
 its siblings

---
 ecma/walk/ctx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ecma/walk/ctx.go b/ecma/walk/ctx.go
index ae576bd..61d032c 100644
--- a/ecma/walk/ctx.go
+++ b/ecma/walk/ctx.go
@@ -77,7 +77,8 @@ func (c *WalkCtx) PopScope() {
 func (c *WalkCtx) PushVisitorCtx(node parser.Node, path string) {
 	vc := &VisitorCtx{c, c.vc, nil, node}
 	if c.Path {
-		vc.Path = append(c.vc.Path, path)
+		// copy, the siblings would otherwise share the backing array
+		vc.Path = append(append(make([]string, 0, len(c.vc.Path)+1), c.vc.Path...), path)
 	}
 	c.vc = vc
 }
-- 
2.43.0


From fd585952e195a4f5720f17a5d62e7b18b81d453f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:20 +0000
Subject: [PATCH 134/191] fix: walk: children are still visited after Stop in a
 before listener

---
 ecma/walk/ctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/walk/ctx.go b/ecma/walk/ctx.go
index 61d032c..5388b9f 100644
--- a/ecma/walk/ctx.go
+++ b/ecma/walk/ctx.go
@@ -138,7 +138,7 @@ func (vc *VisitorCtx) ParentIsJmp(key string) bool {
 }
 
 func VisitNode(n parser.Node, key string, ctx *VisitorCtx) {
-	if n == nil {
+	if n == nil || ctx.WalkCtx.stop {
 		return
 	}
 	ctx.WalkCtx.PushVisitorCtx(n, key)
-- 
2.43.0


From ba888b6cb6c1f7391e94d0e8a384f82d1436b6e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:37 +0000
Subject: [PATCH 135/191] fix: walk: listeners of the plain node types are
 shared by all contexts

---
 ecma/walk/visitor.go       | 144 -------------------------------------
 script/visitor_gen/main.go |   4 --
 2 files changed, 148 deletions(-)

diff --git a/ecma/walk/visitor.go b/ecma/walk/visitor.go
index 9556638..dc18541 100644
--- a/ecma/walk/visitor.go
+++ b/ecma/walk/visitor.go
@@ -3966,148 +3966,4 @@ func init() {
 	DefaultVisitors[N_VAR_DEC] = VisitVarDec
 	DefaultVisitors[N_VAR_DEC_BEFORE] = VisitVarDecBefore
 	DefaultVisitors[N_VAR_DEC_AFTER] = VisitVarDecAfter
-
-	DefaultListeners[N_CATCH] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_CLASS_BODY] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_DECORATOR] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_EXPORT_SPEC] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_EXPR_ARROW] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_EXPR_ASSIGN] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_EXPR_BIN] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_EXPR_CALL] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_EXPR_CHAIN] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_EXPR_CLASS] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_EXPR_COND] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_EXPR_FN] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_EXPR_MEMBER] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_EXPR_NEW] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_EXPR_PAREN] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_EXPR_SEQ] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_EXPR_THIS] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_EXPR_TPL] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_EXPR_UNARY] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_EXPR_UPDATE] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_EXPR_YIELD] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_FIELD] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_IMPORT_CALL] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_IMPORT_SPEC] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_JSX_ATTR] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_JSX_ATTR_SPREAD] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_JSX_CHILD_SPREAD] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_JSX_CLOSE] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_JSX_ELEM] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_JSX_EMPTY] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_JSX_EXPR_SPAN] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_JSX_ID] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_JSX_MEMBER] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_JSX_NS] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_JSX_OPEN] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_JSX_TXT] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_LIT_ARR] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_LIT_BOOL] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_LIT_NULL] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_LIT_NUM] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_LIT_OBJ] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_LIT_REGEXP] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_LIT_STR] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_META_PROP] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_METHOD] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_NAME] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_PAT_ARRAY] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_PAT_ASSIGN] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_PAT_OBJ] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_PAT_REST] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_PROG] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_PROP] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_SPREAD] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STATIC_BLOCK] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_BLOCK] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_BRK] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_CLASS] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_CONT] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_DEBUG] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_DO_WHILE] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_EXPORT] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_EXPR] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_FN] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_FOR] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_FOR_IN_OF] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_IF] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_IMPORT] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_LABEL] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_RET] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_SWITCH] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_THROW] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_TRY] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_VAR_DEC] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_WHILE] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_STMT_WITH] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_SUPER] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_SWITCH_CASE] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_ANY] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_ARR] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_BIGINT] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_BOOL] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_CALL_SIG] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_COND] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_DEC_CLASS] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_DEC_ENUM] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_DEC_FN] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_DEC_GLOBAL] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_DEC_INTERFACE] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_DEC_MODULE] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_DEC_NS] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_DEC_TYP_DEC] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_DEC_VAR_DEC] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_ENUM] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_ENUM_MEMBER] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_EXPORT_ASSIGN] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_FN_TYP] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_IDX_ACCESS] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_IDX_SIG] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_IMPORT_ALIAS] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_IMPORT_REQUIRE] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_IMPORT_TYP] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_INTERFACE] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_INTERFACE_BODY] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_INTERSECT_TYP] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_INTRINSIC] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_LIT] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_LIT_OBJ] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_MAPPED] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_NAMESPACE] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_NEVER] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_NEW] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_NEW_SIG] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_NO_NULL] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_NS_NAME] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_NULL] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_NUM] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_OBJ] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_OPT] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_PARAM] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_PARAM_DEC] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_PARAM_INST] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_PAREN] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_PROP] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_REF] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_REST] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_ROUGH_PARAM] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_STR] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_SYM] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_THIS] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_TUPLE] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_TUPLE_NAMED_MEMBER] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_TYP_ANNOT] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_TYP_ASSERT] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_TYP_DEC] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_TYP_INFER] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_TYP_OP] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_TYP_PREDICATE] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_TYP_QUERY] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_UNDEF] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_UNION_TYP] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_UNKNOWN] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_TS_VOID] = util.NewOrderedMap[string, *Listener]()
-	DefaultListeners[N_VAR_DEC] = util.NewOrderedMap[string, *Listener]()
 }
diff --git a/script/visitor_gen/main.go b/script/visitor_gen/main.go
index 96081fc..a3f1971 100644
--- a/script/visitor_gen/main.go
+++ b/script/visitor_gen/main.go
@@ -273,10 +273,6 @@ func init() {
       DefaultVisitors[N_{{ $key | UnPrefix | ToUpper }}_AFTER] = Visit{{ $value }}After
     {{- end }}
   {{- end }}
-
-  {{ range $key, $value := .NodeTypStruct }}
-    DefaultListeners[N_{{ $key | UnPrefix | ToUpper }}] = util.NewOrderedMap[string, *Listener]()
-  {{- end }}
 }
   `)
 	if err != nil {
-- 
2.43.0


From 1717dda34f9ea7b41c023526e6ed79c91b8f73eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:11 +0000
Subject: [PATCH 136/191] fix: number the scopes of loops, switches, catch
 clauses and static blocks as the walker does

---
 ecma/parser/ast.go    |  4 ++--
 ecma/parser/parser.go | 16 +++++++++++-----
 ecma/parser/symtab.go |  1 +
 ecma/walk/visitor.go  |  6 ++++++
 4 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/ecma/parser/ast.go b/ecma/parser/ast.go
index 12d40a7..7e780bf 100644
--- a/ecma/parser/ast.go
+++ b/ecma/parser/ast.go
@@ -1551,7 +1551,7 @@ func (n *ForStmt) Body() Node {
 	return n.body
 }
 
-// #[visitor(Left,Right,Body)]
+// #[visitor(PUSH_SCOPE,Left,Right,Body)]
 type ForInOfStmt struct {
 	typ   NodeType
 	rng   span.Range
@@ -2045,7 +2045,7 @@ func (n *Field) SetTypInfo(ti *TypInfo) {
 	n.ti = ti
 }
 
-// #[visitor(Body)]
+// #[visitor(PUSH_SCOPE,Body)]
 type StaticBlock struct {
 	typ  NodeType
 	rng  span.Range
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 79d03cc..4858202 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1726,7 +1726,7 @@ func (p *Parser) classElemName() (Node, span.Range, error) {
 }
 
 func (p *Parser) staticBlock(static span.Range) (Node, error) {
-	block, err := p.blockStmt(true, SPK_NONE)
+	block, err := p.blockStmt(true, SPK_STATIC_BLOCK)
 	if err != nil {
 		return nil, err
 	}
@@ -1811,6 +1811,8 @@ func (p *Parser) tryStmt() (Node, error) {
 		rng := p.rng()
 		p.lexer.Next()
 
+		scope := p.symtab.EnterScope(false, false, true)
+
 		ahead := p.lexer.Peek()
 		var param Node
 		if ahead.value == T_PAREN_L {
@@ -1837,7 +1839,6 @@ func (p *Parser) tryStmt() (Node, error) {
 			return nil, p.errorTok(ahead)
 		}
 
-		scope := p.symtab.EnterScope(false, false, true)
 		scope.AddKind(SPK_CATCH)
 
 		if param != nil {
@@ -2098,6 +2099,9 @@ func (p *Parser) switchStmt() (Node, error) {
 	rng := p.rng()
 	p.lexer.Next()
 
+	// the scopes are numbered in the order of the walk, where the test belongs to the switch
+	scope := p.symtab.EnterScope(false, false, true)
+
 	if _, err := p.nextMustTok(T_PAREN_L); err != nil {
 		return nil, err
 	}
@@ -2115,7 +2119,6 @@ func (p *Parser) switchStmt() (Node, error) {
 	}
 	metDefault := false
 
-	scope := p.symtab.EnterScope(false, false, true)
 	scope.AddKind(SPK_SWITCH)
 
 	for {
@@ -2294,6 +2297,9 @@ func (p *Parser) whileStmt() (Node, error) {
 	loop := &WhileStmt{N_STMT_WHILE, span.Range{}, nil, nil}
 	p.pushLoopStk(loop)
 
+	// the scopes are numbered in the order of the walk, where the test belongs to the loop
+	scope := p.symtab.EnterScope(false, false, true)
+
 	if _, err := p.nextMustTok(T_PAREN_L); err != nil {
 		return nil, err
 	}
@@ -2305,7 +2311,6 @@ func (p *Parser) whileStmt() (Node, error) {
 		return nil, err
 	}
 
-	scope := p.symtab.EnterScope(false, false, true)
 	scope.AddKind(SPK_LOOP_DIRECT)
 
 	tok := p.lexer.PeekStmtBegin()
@@ -3156,7 +3161,8 @@ func (p *Parser) blockStmt(newScope bool, scopeKind ScopeKind) (*BlockStmt, erro
 
 	var scope *Scope
 	if newScope {
-		fn := scopeKind == SPK_TS_MODULE
+		// the vars in static block are local to that block
+		fn := scopeKind == SPK_TS_MODULE || scopeKind == SPK_STATIC_BLOCK
 		scope = p.symtab.EnterScope(fn, false, true)
 		scope.AddKind(scopeKind)
 	}
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 6dbc55e..a649371 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -39,6 +39,7 @@ const (
 	SPK_TS_MODULE_INDIRECT
 	SPK_TS_INTERFACE
 	SPK_TS_MAY_INTRINSIC
+	SPK_STATIC_BLOCK
 )
 
 type BindKind uint8
diff --git a/ecma/walk/visitor.go b/ecma/walk/visitor.go
index dc18541..473ddaa 100644
--- a/ecma/walk/visitor.go
+++ b/ecma/walk/visitor.go
@@ -1956,6 +1956,9 @@ func VisitAssignPatAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitStaticBlock(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.StaticBlock)
 
+	ctx.WalkCtx.PushScope()
+	defer ctx.WalkCtx.PopScope()
+
 	CallVisitor(N_STATIC_BLOCK_BEFORE, n, key, ctx)
 	defer CallVisitor(N_STATIC_BLOCK_AFTER, n, key, ctx)
 
@@ -2071,6 +2074,9 @@ func VisitTsTypOpAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitForInOfStmt(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.ForInOfStmt)
 
+	ctx.WalkCtx.PushScope()
+	defer ctx.WalkCtx.PopScope()
+
 	CallVisitor(N_STMT_FOR_IN_OF_BEFORE, n, key, ctx)
 	defer CallVisitor(N_STMT_FOR_IN_OF_AFTER, n, key, ctx)
 
-- 
2.43.0


From 8b0078eed070f941b3800cfc2cbff72003cdb19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:40 +0000
Subject: [PATCH 137/191] fix: name of a class expression is declared outside
 of the class

---
 ecma/parser/parser.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 4858202..19917e9 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1092,6 +1092,7 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 	}
 
 	dec := &ClassDec{}
+	var ref *Ref
 	if av != T_BRACE_L && av != T_EXTENDS {
 		if p.ts && (av == T_LT || av == T_IMPLEMENTS) {
 			// hit expr like:
@@ -1113,13 +1114,16 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 		}
 
 		if id != nil {
-			ref := NewRef()
+			ref = NewRef()
 			ref.Id = id.(*Ident)
 			ref.Dec = dec
 			ref.BindKind = BK_CONST
 			ref.Typ = RDT_CLASS | RDT_TYPE
-			if err := p.addLocalBinding(ps, ref, true, ref.Id.val); err != nil {
-				return nil, err
+			// the name of class expression is only visible inside that class
+			if !expr {
+				if err := p.addLocalBinding(ps, ref, true, ref.Id.val); err != nil {
+					return nil, err
+				}
 			}
 		}
 	}
@@ -1153,6 +1157,11 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 
 	scope := p.symtab.EnterScope(true, false, true)
 	p.enterStrict(true).AddKind(SPK_CLASS)
+	if expr && ref != nil {
+		if err := p.addLocalBinding(scope, ref, false, ref.Id.val); err != nil {
+			return nil, err
+		}
+	}
 	if abstract {
 		scope.AddKind(SPK_ABSTRACT_CLASS)
 	} else {
-- 
2.43.0


From 53f7b5cc1ba9a3e2ae2b17b595ea38cca71e39a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:28:51 +0000
Subject: [PATCH 138/191] fix: name of a function expression is not bound
 inside the function

---
 ecma/parser/parser.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 19917e9..4a0fee9 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2932,6 +2932,15 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	fnDec := &FnDec{typ, p.finRng(rng), id, generator, async != nil, params, body, p.decRetsStk(), span.Range{}, ti}
 	if fnRef != nil {
 		fnRef.Dec = fnDec
+	} else if id != nil && s.Local(id.(*Ident).val) == nil {
+		// the name of function expression is visible inside that function
+		ref := NewRef()
+		ref.Id = id.(*Ident)
+		ref.Dec = fnDec
+		ref.BindKind = BK_VAR
+		ref.Typ = RDT_FN
+		ref.Scope = s
+		s.Refs[ref.Id.val] = ref
 	}
 	s.Node = fnDec
 
-- 
2.43.0


From 9eb36de8fa3d8aaaabccfbee7b12bbef6be00b7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:29:00 +0000
Subject: [PATCH 139/191] fix: scope of a preceding function is overlaid by
 that of a parenthesized expression

---
 ecma/parser/symtab.go | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index a649371..6c92d62 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -545,8 +545,11 @@ func (s *SymTab) EnterScope(fn bool, arrow bool, settled bool) *Scope {
 
 	if settled {
 		s.scopeIdSeed += 1
+		scope.Id = s.scopeIdSeed
+		s.Scopes[scope.Id] = scope
+	} else {
+		scope.Id = s.Cur.Id
 	}
-	scope.Id = s.scopeIdSeed
 
 	if fn {
 		scope.Kind = SPK_FUNC
@@ -614,8 +617,6 @@ func (s *SymTab) EnterScope(fn bool, arrow bool, settled bool) *Scope {
 		}
 	}
 
-	s.Scopes[scope.Id] = scope
-
 	scope.Up = s.Cur
 	s.Cur.Down = append(s.Cur.Down, scope)
 
@@ -625,8 +626,6 @@ func (s *SymTab) EnterScope(fn bool, arrow bool, settled bool) *Scope {
 
 func (s *SymTab) LeaveScope() *Scope {
 	cur := s.Cur
-	// prevent the scope being overlaid by its tmp child
-	s.Scopes[s.Cur.Up.Id] = s.Cur.Up
 	s.Cur = s.Cur.Up
 	return cur
 }
-- 
2.43.0


From 6852290aaf73d3512cecaa0edbb3ec33e2080686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:23 +0000
Subject: [PATCH 140/191] fix: scopes in arrow function params and async calls
 have the wrong parent and number

---
 ecma/parser/parser.go | 13 +++++++++----
 ecma/parser/symtab.go | 39 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 4a0fee9..a40da19 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2804,7 +2804,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		// `async ({a: b = c})` callExpr
 		// `async* ({a: b = c})` binExpr
 		p.lexer.switchMode(LM_ASYNC, outerAsync)
-		p.symtab.LeaveScope()
+		p.symtab.dissolveScope()
 		p.decRetsStk()
 		lhs := &Ident{N_NAME, asyncLoc, "async", false, asyncHasEscape, span.Range{}, true, p.newTypInfo(N_NAME)}
 
@@ -4246,7 +4246,7 @@ func (p *Parser) assignExpr(checkLhs bool, notGT bool, notHook bool, notColon bo
 
 	tok := p.lexer.Peek()
 	if lhs.Type() == N_NAME && tok.value == T_ARROW && !tok.afterLineTerm {
-		fn, err := p.arrowFn(rng, []Node{lhs}, nil, nil)
+		fn, err := p.arrowFn(rng, []Node{lhs}, nil, nil, nil, 0)
 		if err != nil {
 			return nil, err
 		}
@@ -6027,7 +6027,8 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 	return nil, p.errorTok(tok)
 }
 
-func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo) (Node, error) {
+// `tmp` is the scope in which the params are parsed, `seed` is the seed of the scope id before them
+func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo, tmp *Scope, seed int) (Node, error) {
 	var err error
 	if params == nil {
 		params, err = p.argsToParams(args)
@@ -6039,6 +6040,9 @@ func (p *Parser) arrowFn(rng span.Range, args []Node, params []Node, ti *TypInfo
 	arrowLoc := p.lexer.Next().rng
 	ps := p.scope()
 	scope := p.symtab.EnterScope(true, true, true)
+	if tmp != nil {
+		p.symtab.adoptScopes(tmp, seed)
+	}
 	p.incRetsStk()
 
 	paramNames, firstComplicated, err := p.collectNames(params)
@@ -6111,6 +6115,7 @@ func (p *Parser) parenExpr(typArgs Node, notColon bool) (Node, error) {
 	// for dealing with above situations, enter a new scope and flag it as paren
 	// to let the nested states can tell if they are in parenExpr to judge whether
 	// to raise the syntax-error exception or not
+	seed := p.symtab.scopeIdSeed
 	scope := p.symtab.EnterScope(false, false, false)
 	scope.AddKind(SPK_PAREN)
 	p.checkName = false
@@ -6149,7 +6154,7 @@ func (p *Parser) parenExpr(typArgs Node, notColon bool) (Node, error) {
 		if paramsErr != nil {
 			return nil, paramsErr
 		}
-		return p.arrowFn(rng, nil, params, ti)
+		return p.arrowFn(rng, nil, params, ti, scope, seed)
 	}
 
 	// `():number` is illegal
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 6c92d62..db2981c 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -638,3 +638,42 @@ func (s *SymTab) HasExternal(name string) bool {
 	}
 	return false
 }
+
+// makes the scopes in `tmp`, which are introduced by the params being parsed before its fn is known,
+// to be the children of current scope, `seed` is the seed of scope id before these params
+func (s *SymTab) adoptScopes(tmp *Scope, seed int) {
+	cur := s.Cur
+	for id := s.scopeIdSeed; id > seed+1; id-- {
+		scope := s.Scopes[id-1]
+		scope.Id = id
+		s.Scopes[id] = scope
+	}
+	cur.Id = seed + 1
+	s.Scopes[cur.Id] = cur
+
+	for _, scope := range tmp.Down {
+		scope.Up = cur
+	}
+	cur.Down = append(cur.Down, tmp.Down...)
+	tmp.Down = nil
+}
+
+// leaves the current scope and hands its children over to its parent
+func (s *SymTab) dissolveScope() {
+	cur := s.Cur
+	up := cur.Up
+	up.Down = up.Down[:len(up.Down)-1]
+	for _, scope := range cur.Down {
+		scope.Up = up
+	}
+	up.Down = append(up.Down, cur.Down...)
+
+	for id := cur.Id; id < s.scopeIdSeed; id++ {
+		scope := s.Scopes[id+1]
+		scope.Id = id
+		s.Scopes[id] = scope
+	}
+	delete(s.Scopes, s.scopeIdSeed)
+	s.scopeIdSeed -= 1
+	s.Cur = up
+}
-- 
2.43.0


From 92273aa2ffc276a86c3668a0713f46844cdb01e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:41 +0000
Subject: [PATCH 141/191] fix: class heritage is in strict mode and sees the
 name of the class expression, static block is not a function body

---
 ecma/parser/ast.go    |  4 ++--
 ecma/parser/parser.go | 24 +++++++++++++-----------
 ecma/walk/visitor.go  |  6 +++---
 3 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/ecma/parser/ast.go b/ecma/parser/ast.go
index 7e780bf..388fc25 100644
--- a/ecma/parser/ast.go
+++ b/ecma/parser/ast.go
@@ -1879,7 +1879,7 @@ func (n *WithStmt) Body() Node {
 	return n.body
 }
 
-// #[visitor(Id,Super,Body)]
+// #[visitor(Id,PUSH_SCOPE,Super,Body)]
 type ClassDec struct {
 	typ     NodeType
 	rng     span.Range
@@ -1922,7 +1922,7 @@ func (n *ClassDec) SetTypInfo(ti *TypInfo) {
 	n.ti = ti
 }
 
-// #[visitor(PUSH_SCOPE,Elems)]
+// #[visitor(Elems)]
 type ClassBody struct {
 	typ   NodeType
 	rng   span.Range
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index a40da19..c76b6e3 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1131,13 +1131,21 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 		return nil, p.errorAtLoc(p.rng(), ERR_CLASS_NAME_REQUIRED)
 	}
 
+	// the name of the class expression is visible in its heritage, which is in strict mode as well
+	scope := p.symtab.EnterScope(true, false, true)
+	if expr && ref != nil {
+		if err := p.addLocalBinding(scope, ref, false, ref.Id.val); err != nil {
+			return nil, err
+		}
+	}
+
 	var super Node
 	if p.lexer.Peek().value == T_EXTENDS {
 		p.lexer.Next()
-		scope := p.scope()
-		scope.AddKind(SPK_CLASS_EXTEND_SUPER)
+		kind := scope.Kind
+		scope.Kind = ps.Kind&^SPK_GLOBAL | SPK_STRICT | SPK_CLASS_EXTEND_SUPER
 		super, err = p.lhs(false)
-		scope.EraseKind(SPK_CLASS_EXTEND_SUPER)
+		scope.Kind = kind
 		if err != nil {
 			return nil, err
 		}
@@ -1155,13 +1163,7 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 		ti.SetImplements(impl)
 	}
 
-	scope := p.symtab.EnterScope(true, false, true)
 	p.enterStrict(true).AddKind(SPK_CLASS)
-	if expr && ref != nil {
-		if err := p.addLocalBinding(scope, ref, false, ref.Id.val); err != nil {
-			return nil, err
-		}
-	}
 	if abstract {
 		scope.AddKind(SPK_ABSTRACT_CLASS)
 	} else {
@@ -1961,7 +1963,7 @@ func (p *Parser) retStmt() (Node, error) {
 	}
 
 	scope := p.scope()
-	if fn := scope.UpperFn(); fn == nil || !fn.IsKind(SPK_FUNC) || fn.IsKind(SPK_CLASS) || fn.IsKind(SPK_TS_MODULE) {
+	if fn := scope.UpperFn(); fn == nil || !fn.IsKind(SPK_FUNC) || fn.IsKind(SPK_CLASS|SPK_TS_MODULE|SPK_STATIC_BLOCK) {
 		return nil, p.errorAtLoc(rng, ERR_ILLEGAL_RETURN)
 	}
 
@@ -3128,7 +3130,7 @@ func (p *Parser) stmts(terminal TokenValue) ([]Node, error) {
 		ahead := p.lexer.PeekStmtBegin()
 		if stmt != nil {
 			// StrictDirective processing
-			if prologue != -1 && (scope.IsKind(SPK_FUNC) || scope.IsKind(SPK_GLOBAL)) {
+			if prologue != -1 && (scope.IsKind(SPK_FUNC) || scope.IsKind(SPK_GLOBAL)) && !scope.IsKind(SPK_STATIC_BLOCK) {
 				strict, dir := p.isDirective(stmt)
 				if !dir {
 					prologue = -1
diff --git a/ecma/walk/visitor.go b/ecma/walk/visitor.go
index 473ddaa..7aa3713 100644
--- a/ecma/walk/visitor.go
+++ b/ecma/walk/visitor.go
@@ -1619,6 +1619,9 @@ func VisitClassDec(node parser.Node, key string, ctx *VisitorCtx) {
 		return
 	}
 
+	ctx.WalkCtx.PushScope()
+	defer ctx.WalkCtx.PopScope()
+
 	VisitNode(n.Super(), "Super", ctx)
 	if ctx.WalkCtx.Stopped() {
 		return
@@ -3342,9 +3345,6 @@ func VisitTsIntersectTypAfter(node parser.Node, key string, ctx *VisitorCtx) {
 func VisitClassBody(node parser.Node, key string, ctx *VisitorCtx) {
 	n := node.(*parser.ClassBody)
 
-	ctx.WalkCtx.PushScope()
-	defer ctx.WalkCtx.PopScope()
-
 	CallVisitor(N_CLASS_BODY_BEFORE, n, key, ctx)
 	defer CallVisitor(N_CLASS_BODY_AFTER, n, key, ctx)
 
-- 
2.43.0


From 58f08a11d243c5334f8a8f270b0741dfebfa5800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:18 +0000
Subject: [PATCH 142/191] fix: parenthesized yield in the class heritage of
 generator is rejected

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index c76b6e3..be79ef1 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1145,13 +1145,13 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 		kind := scope.Kind
 		scope.Kind = ps.Kind&^SPK_GLOBAL | SPK_STRICT | SPK_CLASS_EXTEND_SUPER
 		super, err = p.lhs(false)
-		scope.Kind = kind
 		if err != nil {
 			return nil, err
 		}
 		if err := p.checkDefaultVal(super, true, true, false); err != nil {
 			return nil, err
 		}
+		scope.Kind = kind
 	}
 
 	if p.ts {
-- 
2.43.0


From ea602311998ecabc173934c39011326cd66b3768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:38 +0000
Subject: [PATCH 143/191] fix: expression evaluator disagrees with the language
 on equality, logical operators, division, conversions and computed members

---
 ecma/exec/vm.go | 185 +++++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 160 insertions(+), 25 deletions(-)

diff --git a/ecma/exec/vm.go b/ecma/exec/vm.go
index 1e5f63d..1e1e1d6 100644
--- a/ecma/exec/vm.go
+++ b/ecma/exec/vm.go
@@ -4,9 +4,13 @@ import (
 	"container/list"
 	"fmt"
 	"math"
+	"math/big"
 	"reflect"
+	"regexp"
 	"strconv"
+	"strings"
 	"time"
+	"unicode"
 
 	"github.com/hsiaosiyuan0/mole/ecma/parser"
 	"github.com/hsiaosiyuan0/mole/ecma/walk"
@@ -32,7 +36,7 @@ var builtinProto = map[reflect.Type]map[string]NativeFn{
 			arr := this.([]interface{})
 			target := args.Get(0)
 			for _, arg := range arr {
-				if reflect.DeepEqual(arg, target) {
+				if SameValueZero(arg, target) {
 					return true
 				}
 			}
@@ -105,7 +109,8 @@ func (ee *ExprEvaluator) init() {
 			}
 
 			name := node.(*parser.Ident).Val()
-			if ctx.ParentNode().Type() == parser.N_EXPR_MEMBER && key == "Prop" {
+			pn := ctx.ParentNode()
+			if pn != nil && pn.Type() == parser.N_EXPR_MEMBER && key == "Prop" && !pn.(*parser.MemberExpr).Compute() {
 				ee.push(name)
 			} else if name == "undefined" {
 				ee.push(nil)
@@ -122,9 +127,13 @@ func (ee *ExprEvaluator) init() {
 
 			n := node.(*parser.ArrLit)
 			arrLen := len(n.Elems())
-			arr := make([]interface{}, arrLen)
+			// with the extra capacity the empty arrays have their own identities
+			arr := make([]interface{}, arrLen, arrLen+1)
 			for i := len(n.Elems()) - 1; i >= 0; i-- {
-				arr[i] = ee.pop()
+				// nothing is pushed for the hole
+				if n.Elems()[i] != nil {
+					arr[i] = ee.pop()
+				}
 			}
 			ee.push(arr)
 		})
@@ -180,10 +189,14 @@ func (ee *ExprEvaluator) init() {
 			lhs := ee.pop()
 
 			switch n.Op() {
-			case parser.T_EQ, parser.T_EQ_S:
-				ee.push(reflect.DeepEqual(lhs, rhs))
-			case parser.T_NE, parser.T_NE_S:
-				ee.push(!reflect.DeepEqual(lhs, rhs))
+			case parser.T_EQ:
+				ee.push(Equal(lhs, rhs))
+			case parser.T_NE:
+				ee.push(!Equal(lhs, rhs))
+			case parser.T_EQ_S:
+				ee.push(StrictEqual(lhs, rhs))
+			case parser.T_NE_S:
+				ee.push(!StrictEqual(lhs, rhs))
 			case parser.T_ADD:
 				ee.push(Add(lhs, rhs))
 			case parser.T_SUB:
@@ -191,16 +204,21 @@ func (ee *ExprEvaluator) init() {
 			case parser.T_MUL:
 				ee.push(ToNum(lhs) * ToNum(rhs))
 			case parser.T_DIV:
-				r := ToNum(rhs)
-				if r == 0 {
-					ee.push(math.NaN())
+				ee.push(ToNum(lhs) / ToNum(rhs))
+			case parser.T_AND:
+				if ToBool(lhs) {
+					ee.push(rhs)
 				} else {
-					ee.push(ToNum(lhs) - r)
+					ee.push(lhs)
 				}
-			case parser.T_AND:
-				ee.push(ToBool(lhs) && ToBool(rhs))
 			case parser.T_OR:
-				ee.push(ToBool(lhs) || ToBool(rhs))
+				if ToBool(lhs) {
+					ee.push(lhs)
+				} else {
+					ee.push(rhs)
+				}
+			default:
+				ee.push(nil)
 			}
 		})
 
@@ -216,8 +234,12 @@ func (ee *ExprEvaluator) init() {
 			switch n.Op() {
 			case parser.T_NOT:
 				ee.push(!ToBool(arg))
+			case parser.T_SUB:
+				ee.push(-ToNum(arg))
+			case parser.T_ADD:
+				ee.push(ToNum(arg))
 			default:
-				ee.push(false)
+				ee.push(nil)
 			}
 		})
 
@@ -250,6 +272,8 @@ func (ee *ExprEvaluator) Exec(vars map[string]interface{}) *ExprEvaluator {
 	} else {
 		ee.vars = vars
 	}
+	ee.stk.Init()
+	ee.err = nil
 	walk.VisitNode(ee.node, "", ee.walkCtx.VisitorCtx())
 	return ee
 }
@@ -274,22 +298,133 @@ func Add(a, b interface{}) interface{} {
 	return ToNum(a) + ToNum(b)
 }
 
+// the comparison of `includes`
+func SameValueZero(a, b interface{}) bool {
+	if isNaN(a) && isNaN(b) {
+		return true
+	}
+	return StrictEqual(a, b)
+}
+
+func isNaN(v interface{}) bool {
+	f, ok := v.(float64)
+	return ok && math.IsNaN(f)
+}
+
+// `===`, objects and arrays are compared by their identities, note that `null` and `undefined` are
+// not distinguished
+func StrictEqual(a, b interface{}) bool {
+	a, b = intToFloat(a), intToFloat(b)
+	if a == nil || b == nil {
+		return a == nil && b == nil
+	}
+	ta, tb := reflect.TypeOf(a), reflect.TypeOf(b)
+	if ta != tb {
+		return false
+	}
+	if ta.Comparable() {
+		return a == b
+	}
+	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
+	switch ta.Kind() {
+	case reflect.Map, reflect.Func:
+		return va.Pointer() == vb.Pointer()
+	case reflect.Slice:
+		return va.Pointer() == vb.Pointer() && va.Len() == vb.Len()
+	}
+	return false
+}
+
+// `==`
+func Equal(a, b interface{}) bool {
+	a, b = intToFloat(a), intToFloat(b)
+	if isPrimitive(a) && isPrimitive(b) && reflect.TypeOf(a) != reflect.TypeOf(b) {
+		return ToNum(a) == ToNum(b)
+	}
+	return StrictEqual(a, b)
+}
+
+// for `null` and `undefined` are excluded
+func isPrimitive(v interface{}) bool {
+	switch v.(type) {
+	case float64, string, bool:
+		return true
+	}
+	return false
+}
+
+func intToFloat(v interface{}) interface{} {
+	if i, ok := v.(int); ok {
+		return float64(i)
+	}
+	return v
+}
+
+// the syntax of StringNumericLiteral, ParseFloat accepts more than it such as `inf` and `1_0`
+var decimalReg = regexp.MustCompile(`^[+-]?(Infinity|\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)$`)
+var radixReg = regexp.MustCompile(`^0([xX][0-9a-fA-F]+|[oO][0-7]+|[bB][01]+)$`)
+
+func strToNum(s string) float64 {
+	s = strings.TrimFunc(s, func(r rune) bool {
+		return r == '\ufeff' || r == '\u2028' || r == '\u2029' || r >= '\t' && r <= '\r' || unicode.Is(unicode.Zs, r)
+	})
+	if s == "" {
+		return 0
+	}
+	if decimalReg.MatchString(s) {
+		// the result is the infinity if the value is out of range
+		f, _ := strconv.ParseFloat(s, 64)
+		return f
+	}
+	if radixReg.MatchString(s) {
+		i, _ := new(big.Int).SetString(s, 0)
+		f, _ := new(big.Float).SetInt(i).Float64()
+		return f
+	}
+	return math.NaN()
+}
+
 func ToNum(v interface{}) float64 {
 	switch vv := v.(type) {
 	case float64:
 		return vv
-	case string:
-		if i, err := strconv.ParseFloat(vv, 64); err == nil {
-			return i
+	case int:
+		return float64(vv)
+	case bool:
+		if vv {
+			return 1
 		}
+		return 0
+	case string:
+		return strToNum(vv)
 	}
 	return math.NaN()
 }
 
+func numToStr(f float64) string {
+	switch {
+	case math.IsNaN(f):
+		return "NaN"
+	case math.IsInf(f, 1):
+		return "Infinity"
+	case math.IsInf(f, -1):
+		return "-Infinity"
+	case f == 0:
+		return "0"
+	}
+	if abs := math.Abs(f); abs < 1e21 && abs >= 1e-6 {
+		return strconv.FormatFloat(f, 'f', -1, 64)
+	}
+	s := strconv.FormatFloat(f, 'e', -1, 64)
+	// `1e-07` => `1e-7`
+	i := strings.IndexByte(s, 'e') + 2
+	return s[:i] + strings.TrimLeft(s[i:], "0")
+}
+
 func ToStr(v interface{}) string {
 	switch vv := v.(type) {
 	case float64:
-		return strconv.FormatFloat(vv, 'f', -1, 64)
+		return numToStr(vv)
 	case string:
 		return vv
 	case bool:
@@ -304,7 +439,7 @@ func ToStr(v interface{}) string {
 func ToBool(v interface{}) bool {
 	switch vv := v.(type) {
 	case float64:
-		return vv != 0
+		return vv != 0 && !math.IsNaN(vv)
 	case int:
 		return vv != 0
 	case string:
@@ -353,8 +488,9 @@ func GetElem(obj, prop interface{}) interface{} {
 		return nil
 	}
 
+	// only the canonical index such as `1` denotes the element, others like `0.5` and `01` do not
 	p := ToNum(prop)
-	if math.IsNaN(p) || p < 0 {
+	if !(p >= 0) || p != math.Trunc(p) || ToStr(prop) != ToStr(p) {
 		return nil
 	}
 
@@ -363,11 +499,10 @@ func GetElem(obj, prop interface{}) interface{} {
 		return nil
 	}
 
-	i := int(p)
-	if i > len(arr)-1 {
+	if p > float64(len(arr)-1) {
 		return nil
 	}
-	return arr[i]
+	return arr[int(p)]
 }
 
 type Args struct {
-- 
2.43.0


From 33040c92dbd2307671e02b5a65d43ba8923baac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:41 +0000
Subject: [PATCH 144/191] fix: branches taken by if, else-if and conditional
 expressions, captures in the fn dependency graph

---
 ecma/astutil/astutil.go | 87 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 77 insertions(+), 10 deletions(-)

diff --git a/ecma/astutil/astutil.go b/ecma/astutil/astutil.go
index 8784bdb..28faf1e 100644
--- a/ecma/astutil/astutil.go
+++ b/ecma/astutil/astutil.go
@@ -12,7 +12,7 @@ func GetStaticPropertyName(node parser.Node) string {
 	switch node.Type() {
 	case parser.N_EXPR_MEMBER:
 		n := node.(*parser.MemberExpr)
-		if n.Prop().Type() == parser.N_NAME {
+		if !n.Compute() && n.Prop().Type() == parser.N_NAME {
 			return n.Prop().(*parser.Ident).Val()
 		}
 	case parser.N_EXPR_CHAIN:
@@ -181,11 +181,27 @@ func NodeToSwitchBranches(node parser.Node) []*SwitchBranch {
 }
 
 func SelectTrueBranches(node parser.Node, vars map[string]interface{}, p *parser.Parser) []parser.Node {
-	bs := NodeToSwitchBranches(node)
+	tbs := selectTrueBranches(node, vars, p)
+	// the branches of `else if` are selected only if the `else` is
+	if node.Type() == parser.N_STMT_IF && len(tbs) == 1 && tbs[0] == node.(*parser.IfStmt).Alt() && tbs[0].Type() == parser.N_STMT_IF {
+		return SelectTrueBranches(tbs[0], vars, p)
+	}
+	return tbs
+}
+
+func selectTrueBranches(node parser.Node, vars map[string]interface{}, p *parser.Parser) []parser.Node {
+	var bs []*SwitchBranch
+	if n, ok := node.(*parser.IfStmt); ok {
+		bs = []*SwitchBranch{{false, n.Test(), n.Cons()}, {true, n.Test(), n.Alt()}}
+	} else {
+		bs = NodeToSwitchBranches(node)
+	}
+
 	tbs := []parser.Node{}
 	for _, b := range bs {
 		if b.test == nil {
 			tbs = append(tbs, b.body)
+			continue
 		}
 		v, err := exec.NewExprEvaluator(b.test, p).Exec(vars).GetResult()
 		if err != nil {
@@ -206,7 +222,15 @@ func CollectNodesInTrueBranches(node parser.Node, typ []parser.NodeType, vars ma
 	wc := walk.NewWalkCtx(node, nil)
 
 	walkTrueBranches := func(node parser.Node, key string, ctx *walk.VisitorCtx) {
-		subs := SelectTrueBranches(node, vars, p)
+		// the test is always evaluated
+		switch n := node.(type) {
+		case *parser.IfStmt:
+			walk.VisitNode(n.Test(), "Test", ctx)
+		case *parser.CondExpr:
+			walk.VisitNode(n.Test(), "Test", ctx)
+		}
+
+		subs := selectTrueBranches(node, vars, p)
 		for _, sub := range subs {
 			walk.VisitNode(sub, key, ctx)
 		}
@@ -320,6 +344,9 @@ func GetVarDec(name string, varDecStmt *parser.VarDecStmt) *parser.VarDec {
 func IsIdentBoundInImportDec(ident *parser.Ident, scope *parser.Scope) *parser.ImportDec {
 	name := ident.Val()
 	ref := scope.BindingOf(name)
+	if ref == nil {
+		return nil
+	}
 	dec := ref.Dec
 	if dec != nil && dec.Type() == parser.N_STMT_IMPORT {
 		return dec.(*parser.ImportDec)
@@ -332,6 +359,38 @@ func IsFn(node parser.Node) bool {
 	return typ == parser.N_STMT_FN || typ == parser.N_EXPR_FN || typ == parser.N_EXPR_ARROW
 }
 
+// reports whether the name under the `key` of `parent` refers to a binding, it does not if it's a label,
+// the name of a property or the name of the fn or class being declared
+func isNameRef(parent parser.Node, key string) bool {
+	switch n := parent.(type) {
+	case *parser.MemberExpr:
+		return key != "Prop" || n.Compute()
+	case *parser.Prop:
+		return key != "Key" || n.Computed()
+	case *parser.Method:
+		return key != "Key" || n.Computed()
+	case *parser.Field:
+		return key != "Key" || n.Computed()
+	case *parser.FnDec, *parser.ClassDec:
+		return key != "Id"
+	case *parser.LabelStmt, *parser.BrkStmt, *parser.ContStmt:
+		return key != "Label"
+	case *parser.MetaProp:
+		return false
+	}
+	return true
+}
+
+// reports whether `scope` is `target` or lies in it
+func isInScope(scope, target *parser.Scope) bool {
+	for ; scope != nil; scope = scope.Up {
+		if scope == target {
+			return true
+		}
+	}
+	return false
+}
+
 type FnDepGraph struct {
 	Nodes map[parser.Node]*FnDepNode
 }
@@ -363,25 +422,34 @@ func BuildFnDepGraph(node parser.Node, symtab *parser.SymTab) *FnDepGraph {
 		return fnNode
 	}
 
+	// the fns being walked through and the scopes they are in
 	fnNodeStk := []*FnDepNode{}
+	fnScopeStk := []*parser.Scope{}
 
 	var fnNode *FnDepNode
 	fnBefore := func(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		newFn := depNodeOfFn(node)
 		newFn.Dec = node
 		fnNodeStk = append(fnNodeStk, newFn)
+		scope := ctx.Scope()
+		// the scope of arrow fn is entered before its event
+		if node.Type() == parser.N_EXPR_ARROW {
+			scope = scope.Up
+		}
+		fnScopeStk = append(fnScopeStk, scope)
 
-		if fnNode != nil {
+		if fnNode != nil && !util.Includes(fnNode.Deps, newFn) {
 			fnNode.Deps = append(fnNode.Deps, newFn)
 		}
 		fnNode = newFn
 	}
 
 	fnAfter := func(node parser.Node, key string, ctx *walk.VisitorCtx) {
-		cnt := len(fnNodeStk)
+		cnt := len(fnNodeStk) - 1
+		fnNodeStk = fnNodeStk[:cnt]
+		fnScopeStk = fnScopeStk[:cnt]
 		if cnt > 0 {
 			fnNode = fnNodeStk[cnt-1]
-			fnNodeStk = fnNodeStk[:cnt-1]
 		} else {
 			fnNode = nil
 		}
@@ -420,8 +488,7 @@ func BuildFnDepGraph(node parser.Node, symtab *parser.SymTab) *FnDepGraph {
 				return
 			}
 
-			pn := ctx.ParentNode()
-			if pn != nil && pn.Type() == parser.N_EXPR_MEMBER && key == "Prop" && pn.(*parser.MemberExpr).Compute() == false {
+			if !isNameRef(ctx.ParentNode(), key) {
 				return
 			}
 
@@ -429,7 +496,7 @@ func BuildFnDepGraph(node parser.Node, symtab *parser.SymTab) *FnDepGraph {
 			scope := ctx.Scope()
 			if scope.Local(name) == nil {
 				ref := scope.BindingOf(name)
-				if ref != nil {
+				if ref != nil && isInScope(fnScopeStk[len(fnScopeStk)-1], ref.Scope) {
 					fnNode.Captures = append(fnNode.Captures, ref)
 
 					dec := ref.Dec
@@ -442,7 +509,7 @@ func BuildFnDepGraph(node parser.Node, symtab *parser.SymTab) *FnDepGraph {
 						varDec := GetVarDec(name, dec.(*parser.VarDecStmt))
 						if varDec != nil {
 							init := varDec.Init()
-							if IsFn(init) {
+							if init != nil && IsFn(init) {
 								fn = init
 							}
 						}
-- 
2.43.0


From 0afe7d4ba1a6ce427b3aa5d6aa0dfd7ef11d1638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:55 +0000
Subject: [PATCH 145/191] fix: parenthesized fn initializer is not followed in
 the fn dependency graph

---
 ecma/astutil/astutil.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ecma/astutil/astutil.go b/ecma/astutil/astutil.go
index 28faf1e..0ac7531 100644
--- a/ecma/astutil/astutil.go
+++ b/ecma/astutil/astutil.go
@@ -508,9 +508,8 @@ func BuildFnDepGraph(node parser.Node, symtab *parser.SymTab) *FnDepGraph {
 					if dec.Type() == parser.N_STMT_VAR_DEC {
 						varDec := GetVarDec(name, dec.(*parser.VarDecStmt))
 						if varDec != nil {
-							init := varDec.Init()
-							if init != nil && IsFn(init) {
-								fn = init
+							if init := varDec.Init(); init != nil && IsFn(parser.UnParen(init)) {
+								fn = parser.UnParen(init)
 							}
 						}
 					} else if IsFn(dec) {
-- 
2.43.0


From 5aa10427b5bbc54a54b5db7c80ce91f20f294349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:52 +0000
Subject: [PATCH 146/191] fix: control flow graph: return and throw inside
 loops leave the loop, breaks of do-while and cut edges are linked
 deterministically

---
 ecma/analysis/ctrlflow.go | 19 +++++++++++++------
 ecma/analysis/graph.go    | 30 +++++++++++++++++++++++-------
 2 files changed, 36 insertions(+), 13 deletions(-)

diff --git a/ecma/analysis/ctrlflow.go b/ecma/analysis/ctrlflow.go
index df7bb42..a2d8cf1 100644
--- a/ecma/analysis/ctrlflow.go
+++ b/ecma/analysis/ctrlflow.go
@@ -958,7 +958,8 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		vn.addOutlets(body.xOutEdges())
 
 		exit := ac.newExit(node, "")
-		link(ac, vn, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
+		link(ac, vn, EK_JMP, ET_JMP_T|ET_JMP_F|ET_JMP_N, EK_JMP, ET_NONE, exit, LF_NONE)
+		linkBrk(ac, ctx.ScopeId(), exit)
 		link(ac, vn, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 
 		if tn := n.Test(); tn != nil && tn.Type().IsLit() {
@@ -1003,7 +1004,8 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		vn.addOutlets(body.xOutEdges())
 
 		exit := ac.newExit(node, "")
-		link(ac, vn, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
+		link(ac, vn, EK_JMP, ET_JMP_T|ET_JMP_F|ET_JMP_N, EK_JMP, ET_NONE, exit, LF_NONE)
+		linkBrk(ac, ctx.ScopeId(), exit)
 		link(ac, vn, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 		ac.pushStmt(grpBlock(ac, vn, exit))
 
@@ -1037,6 +1039,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		vn.addOutlets(body.xOutEdges())
 
 		exit := ac.newExit(node, "")
+		linkBrk(ac, ctx.ScopeId(), exit)
 		link(ac, test, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
 		link(ac, vn, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 
@@ -1668,10 +1671,14 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		id := ctx.ScopeId()
 		loopBlk := ac.lastStmt()
 		loopExit := loopBlk.OutSeqEdge().Src
-		brkList := ac.graph.hangingBrk[id]
-		for _, brk := range brkList {
-			link(ac, brk, EK_JMP, ET_NONE, EK_JMP, ET_NONE, loopExit, LF_OVERWRITE)
-		}
+		linkBrk(ac, id, loopExit)
+	}
+}
+
+// links the hanging breaks of the given scope to `exit`
+func linkBrk(a *AnalysisCtx, scopeId int, exit *Block) {
+	for _, brk := range a.graph.hangingBrk[scopeId] {
+		link(a, brk, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_OVERWRITE)
 	}
 }
 
diff --git a/ecma/analysis/graph.go b/ecma/analysis/graph.go
index 0557861..3395cf3 100644
--- a/ecma/analysis/graph.go
+++ b/ecma/analysis/graph.go
@@ -231,7 +231,7 @@ func FindEdge(edges map[*Edge]*Edge, k EdgeKind, t EdgeTag) *Edge {
 func FindEdges(edges map[*Edge]*Edge, k EdgeKind, t EdgeTag) map[*Edge]*Edge {
 	ret := map[*Edge]*Edge{}
 	for _, edge := range edges {
-		if edge.Kind == k && (edge.Tag == ET_NONE || edge.Tag&t != 0) {
+		if edge.Kind == k && (edge.Tag == ET_NONE || t == ET_NONE || edge.Tag&t != 0) {
 			ret[edge] = edge
 		}
 	}
@@ -264,10 +264,20 @@ func (b *Block) FindInEdge(k EdgeKind, t EdgeTag, create bool) (*Edge, bool) {
 }
 
 func (b *Block) FindHangingInEdge(src *Block, k EdgeKind, t EdgeTag, create bool) (*Edge, bool) {
-	e := FindEdge(b.Inlets, k, t)
+	// prefer the edge which comes from `src` then the one whose source is unknown yet
+	var e *Edge
+	for edge := range FindEdges(b.Inlets, k, t) {
+		if edge.Src == src {
+			e = edge
+			break
+		}
+		if edge.Src == nil {
+			e = edge
+		}
+	}
 
 	new := false
-	if (e == nil || e.Src != nil && e.Src != src) && create {
+	if e == nil && create {
 		e = &Edge{k, t, nil, b}
 		b.Inlets[e] = e
 		new = true
@@ -566,8 +576,12 @@ func (b *Block) HasOutCut() bool {
 }
 
 func (b *Block) IsOutCut(to *Block) bool {
-	cutEdge := b.OutEdge(ET_CUT)
-	return cutEdge != nil && cutEdge.Dst == to
+	for _, edge := range b.Outlets {
+		if edge.Tag&ET_CUT != 0 && edge.Dst == to {
+			return true
+		}
+	}
+	return false
 }
 
 func nodeToString(node parser.Node, s *span.Source) string {
@@ -921,8 +935,10 @@ func link(a *AnalysisCtx, from *Block, fromKind EdgeKind, fromTag EdgeTag, toKin
 
 	if from.IsOutCut(to) {
 		for _, edge := range to.Inlets {
-			if edge.Src == fromSeq {
-				edge.Tag |= ET_CUT
+			for _, cut := range from.Outlets {
+				if cut.Tag&ET_CUT != 0 && cut.Dst == to && cut.Src == edge.Src && cut.Kind == edge.Kind {
+					edge.Tag |= ET_CUT
+				}
 			}
 		}
 		cut, pair := to.IsInCutPair()
-- 
2.43.0


From d4a2e059b328a2f99d9140dabb217ef0e5184124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:55 +0000
Subject: [PATCH 147/191] fix: control flow graph: a labelled break leaves the
 statement its label is on

---
 ecma/analysis/ctrlflow.go | 43 +++++++++++++++++----------------------
 ecma/analysis/graph.go    | 19 +++++++++--------
 2 files changed, 30 insertions(+), 32 deletions(-)

diff --git a/ecma/analysis/ctrlflow.go b/ecma/analysis/ctrlflow.go
index a2d8cf1..607039d 100644
--- a/ecma/analysis/ctrlflow.go
+++ b/ecma/analysis/ctrlflow.go
@@ -188,21 +188,10 @@ func handleBefore(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		blk = ac.newEnter(node, "")
 	}
 
-	// record the label to its target scope
-	if (astTyp.IsExpr() || astTyp.IsStmt() && astTyp == parser.N_STMT_EXPR) && pAstTyp != parser.N_STMT_LABEL {
-		if cnt := len(ac.graph.hangingLabels); cnt > 0 {
-			last, rest := ac.graph.hangingLabels[cnt-1], ac.graph.hangingLabels[:cnt-1]
-			ac.graph.hangingLabels = rest
-			ac.graph.labelLoop[last] = ctx.ScopeId()
-		}
-	}
-
 	// stmt
 	if astTyp.IsStmt() || astTyp == parser.N_PROG {
 
-		if astTyp == parser.N_STMT_LABEL && node.(*parser.LabelStmt).Used() {
-			ac.graph.hangingLabels = append(ac.graph.hangingLabels, node)
-		} else if astTyp == parser.N_STMT_FN || astTyp == parser.N_EXPR_FN {
+		if astTyp == parser.N_STMT_FN || astTyp == parser.N_EXPR_FN {
 			enterFnGraph(node, ctx, true)
 		}
 
@@ -959,7 +948,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 		exit := ac.newExit(node, "")
 		link(ac, vn, EK_JMP, ET_JMP_T|ET_JMP_F|ET_JMP_N, EK_JMP, ET_NONE, exit, LF_NONE)
-		linkBrk(ac, ctx.ScopeId(), exit)
+		linkBrk(ac, ctx, exit)
 		link(ac, vn, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 
 		if tn := n.Test(); tn != nil && tn.Type().IsLit() {
@@ -1005,7 +994,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 		exit := ac.newExit(node, "")
 		link(ac, vn, EK_JMP, ET_JMP_T|ET_JMP_F|ET_JMP_N, EK_JMP, ET_NONE, exit, LF_NONE)
-		linkBrk(ac, ctx.ScopeId(), exit)
+		linkBrk(ac, ctx, exit)
 		link(ac, vn, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 		ac.pushStmt(grpBlock(ac, vn, exit))
 
@@ -1039,7 +1028,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		vn.addOutlets(body.xOutEdges())
 
 		exit := ac.newExit(node, "")
-		linkBrk(ac, ctx.ScopeId(), exit)
+		linkBrk(ac, ctx, exit)
 		link(ac, test, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
 		link(ac, vn, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 
@@ -1388,6 +1377,9 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		link(ac, enter, EK_SEQ, ET_NONE, EK_NONE, ET_NONE, lb, LF_NONE)
 		link(ac, lb, EK_SEQ, ET_NONE, EK_NONE, ET_NONE, body, LF_NONE)
 		exit := ac.newExit(node, "")
+		if t := node.(*parser.LabelStmt).Body().Type(); !isLoop(t) && t != parser.N_STMT_SWITCH {
+			linkBrkList(ac, ac.graph.hangingLabelBrk[node], exit)
+		}
 		link(ac, body, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 		ac.pushStmt(grpBlock(ac, enter, exit))
 
@@ -1429,8 +1421,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			link(ac, name, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 			exit.mrkSeqOutAsCut()
 			exit.newJmpOut(ET_JMP_U)
-			id := ac.graph.labelLoop[n.Target()]
-			ac.graph.addHangingBrk(id, exit)
+			ac.graph.addHangingLabelBrk(n.Target(), exit)
 		} else {
 			link(ac, prev, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 			exit.mrkSeqOutAsCut()
@@ -1668,16 +1659,20 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 	// resolve the hanging breaks inside the loop, link them to the loop exit
 	if isLoop(astTyp) || astTyp == parser.N_STMT_SWITCH {
-		id := ctx.ScopeId()
-		loopBlk := ac.lastStmt()
-		loopExit := loopBlk.OutSeqEdge().Src
-		linkBrk(ac, id, loopExit)
+		linkBrk(ac, ctx, ac.lastStmt().OutSeqEdge().Src)
+	}
+}
+
+// links the hanging breaks of the current loop or switch to its exit
+func linkBrk(a *AnalysisCtx, ctx *walk.VisitorCtx, exit *Block) {
+	linkBrkList(a, a.graph.hangingBrk[ctx.ScopeId()], exit)
+	if ctx.ParentNodeType() == parser.N_STMT_LABEL {
+		linkBrkList(a, a.graph.hangingLabelBrk[ctx.ParentNode()], exit)
 	}
 }
 
-// links the hanging breaks of the given scope to `exit`
-func linkBrk(a *AnalysisCtx, scopeId int, exit *Block) {
-	for _, brk := range a.graph.hangingBrk[scopeId] {
+func linkBrkList(a *AnalysisCtx, list []*Block, exit *Block) {
+	for _, brk := range list {
 		link(a, brk, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_OVERWRITE)
 	}
 }
diff --git a/ecma/analysis/graph.go b/ecma/analysis/graph.go
index 3395cf3..b575a97 100644
--- a/ecma/analysis/graph.go
+++ b/ecma/analysis/graph.go
@@ -615,13 +615,12 @@ type Graph struct {
 	Head   *Block
 	Parent *Graph
 
-	// map the label to its target scope
-	hangingLabels []parser.Node
-	labelLoop     map[parser.Node]int
-
 	// records basic block need to be resolved, key is the id of the scope which includes the basic block
 	hangingBrk map[int][]*Block
 
+	// same as above for the labelled breaks, key is the labelStmt they target
+	hangingLabelBrk map[parser.Node][]*Block
+
 	// cont jumps to tail of the loop, so when processing the labelled-cont, the jump target is unknown since
 	// the tail of the loop has not been processed, for resolving this problem, a placeholder is introduced
 	// here for imitating the jump target and the placeholder will be resolved when the tail of the loop
@@ -650,10 +649,10 @@ type Graph struct {
 
 func newGraph() *Graph {
 	g := &Graph{
-		labelLoop:    map[parser.Node]int{},
-		hangingBrk:   map[int][]*Block{},
-		hangingCont:  map[parser.Node][]*Block{},
-		hangingThrow: map[parser.Node][]*Block{},
+		hangingBrk:      map[int][]*Block{},
+		hangingLabelBrk: map[parser.Node][]*Block{},
+		hangingCont:     map[parser.Node][]*Block{},
+		hangingThrow:    map[parser.Node][]*Block{},
 
 		astNodeToBlock: map[parser.Node]*Block{},
 		astNodeToEntry: map[parser.Node]*Block{},
@@ -691,6 +690,10 @@ func (g *Graph) addHangingBrk(id int, blk *Block) {
 	g.hangingBrk[id] = append(list, blk)
 }
 
+func (g *Graph) addHangingLabelBrk(label parser.Node, blk *Block) {
+	g.hangingLabelBrk[label] = append(g.hangingLabelBrk[label], blk)
+}
+
 func (g *Graph) addHangingCont(loop parser.Node, blk *Block) {
 	list := g.hangingCont[loop]
 	if list == nil {
-- 
2.43.0


From 9184cec27c88db60998a4e257dfb5df0a409a6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:38 +0000
Subject: [PATCH 148/191] fix: control flow graph: switch clauses without
 statements, and breaks of a labelled switch

---
 ecma/analysis/ctrlflow.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ecma/analysis/ctrlflow.go b/ecma/analysis/ctrlflow.go
index 607039d..0473bc0 100644
--- a/ecma/analysis/ctrlflow.go
+++ b/ecma/analysis/ctrlflow.go
@@ -1309,10 +1309,14 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 		exit := ac.newExit(node, "")
 		_, hasBreak := ac.graph.hangingBrk[ctx.ScopeId()]
+		if pAstTyp == parser.N_STMT_LABEL {
+			hasBreak = hasBreak || len(ac.graph.hangingLabelBrk[ctx.ParentNode()]) > 0
+		}
 
 		flag := LF_NONE
 		if hasBreak {
 			flag |= LF_FORCE_SEP
+			linkBrk(ac, ctx, exit)
 		}
 
 		if head != nil {
@@ -1360,7 +1364,9 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			// the body of the case-clause
 			ac.popStmt()
 
-			link(ac, test, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
+			// keeps the entry of the clause apart from its empty body
+			exit.newJmpIn(ET_JMP_T)
+			link(ac, test, EK_SEQ, ET_NONE, EK_JMP, ET_JMP_T, exit, LF_NONE)
 		}
 
 		vn := grpBlock(ac, enter, exit)
-- 
2.43.0


From 73f0096b5def7cad8dc7f69f99bb0c508d1d5240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:00 +0000
Subject: [PATCH 149/191] fix: control flow graph: logical operators in for
 headers and in the subject of an empty switch

---
 ecma/analysis/ctrlflow.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ecma/analysis/ctrlflow.go b/ecma/analysis/ctrlflow.go
index 0473bc0..3d47f4b 100644
--- a/ecma/analysis/ctrlflow.go
+++ b/ecma/analysis/ctrlflow.go
@@ -890,6 +890,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 		if init != nil {
 			link(ac, enter, EK_SEQ, ET_NONE, EK_NONE, ET_NONE, init, LF_NONE)
+			link(ac, init, EK_JMP, ET_NONE, EK_JMP, ET_NONE, test, LF_NONE)
 			link(ac, init, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, test, LF_NONE)
 		}
 
@@ -898,11 +899,13 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 				link(ac, enter, EK_SEQ, ET_NONE, EK_NONE, ET_NONE, test, LF_NONE)
 			}
 			link(ac, test, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, body, LF_NONE)
+			link(ac, test, EK_JMP, ET_JMP_T, EK_SEQ, ET_NONE, body, LF_NONE)
 		} else {
 			body.newLoopIn()
 			if init == nil {
 				link(ac, enter, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, body, LF_NONE)
 			} else {
+				link(ac, init, EK_JMP, ET_NONE, EK_JMP, ET_NONE, body, LF_NONE)
 				link(ac, init, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, body, LF_NONE)
 			}
 		}
@@ -913,11 +916,14 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			}
 			link(ac, body, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, update, LF_NONE)
 			if test != nil {
+				link(ac, update, EK_JMP, ET_NONE, EK_JMP, ET_LOOP, test, LF_NONE)
 				link(ac, update, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, test, LF_NONE)
 			} else {
+				link(ac, update, EK_JMP, ET_NONE, EK_JMP, ET_LOOP, body, LF_NONE)
 				link(ac, update, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, body, LF_NONE)
 			}
 			update.mrkSeqOutAsLoop()
+			update.mrkJmpOutAsLoop(ET_JMP_T | ET_JMP_F | ET_JMP_N)
 		} else {
 			if test != nil {
 				link(ac, body, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, test, LF_NONE)
@@ -1326,6 +1332,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			link(ac, tail, EK_JMP, ET_JMP_T|ET_JMP_F, EK_JMP, ET_NONE, exit, flag)
 			link(ac, tail, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, flag)
 		} else {
+			link(ac, test, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, flag)
 			link(ac, test, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, flag)
 		}
 
-- 
2.43.0


From b314e927128be7f862d8d310db6838f2a5b4f19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:13 +0000
Subject: [PATCH 150/191] fix: control flow graph: loops whose test is a falsy
 literal end

---
 ecma/analysis/ctrlflow.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/ecma/analysis/ctrlflow.go b/ecma/analysis/ctrlflow.go
index 3d47f4b..4546819 100644
--- a/ecma/analysis/ctrlflow.go
+++ b/ecma/analysis/ctrlflow.go
@@ -1,6 +1,8 @@
 package analysis
 
 import (
+	"math"
+
 	"github.com/hsiaosiyuan0/mole/ecma/parser"
 	"github.com/hsiaosiyuan0/mole/ecma/walk"
 	"github.com/hsiaosiyuan0/mole/span"
@@ -158,6 +160,22 @@ func isLoop(t parser.NodeType) bool {
 	return t == parser.N_STMT_FOR || t == parser.N_STMT_WHILE || t == parser.N_STMT_DO_WHILE || t == parser.N_STMT_FOR_IN_OF
 }
 
+// reports whether `node` is a literal whose value is always true
+func alwaysTrue(node parser.Node, s *span.Source) bool {
+	switch n := node.(type) {
+	case *parser.NullLit:
+		return false
+	case *parser.BoolLit:
+		return n.Val()
+	case *parser.StrLit:
+		return n.Val() != ""
+	case *parser.NumLit:
+		f := parser.NodeToFloat(n, s)
+		return f != 0 && !math.IsNaN(f)
+	}
+	return node.Type().IsLit()
+}
+
 func isAtom(t parser.NodeType) bool {
 	_, ok := walk.AtomNodeTypes[t]
 	return ok
@@ -957,7 +975,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		linkBrk(ac, ctx, exit)
 		link(ac, vn, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 
-		if tn := n.Test(); tn != nil && tn.Type().IsLit() {
+		if tn := n.Test(); tn != nil && alwaysTrue(tn, ac.graph.s) {
 			j := test.FindOutEdge(EK_JMP, ET_JMP_F, false)
 			j.Kind = EK_SEQ
 			j.Tag = ET_CUT
@@ -971,7 +989,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		test := ac.popExpr()
 		enter := ac.popStmt()
 
-		if !n.Test().Type().IsLit() {
+		if !alwaysTrue(n.Test(), ac.graph.s) {
 			test.newJmpOut(ET_JMP_F)
 		}
 
@@ -985,7 +1003,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		link(ac, body, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, test, LF_NONE)
 		body.mrkSeqOutAsLoop()
 
-		if n.Test().Type().IsLit() {
+		if alwaysTrue(n.Test(), ac.graph.s) {
 			body.addCutOutEdge()
 		}
 
@@ -1038,7 +1056,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		link(ac, test, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
 		link(ac, vn, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 
-		if n.Test().Type().IsLit() {
+		if alwaysTrue(n.Test(), ac.graph.s) {
 			j := test.FindOutEdge(EK_JMP, ET_JMP_F, false)
 			j.Kind = EK_SEQ
 			j.Tag = ET_CUT
-- 
2.43.0


From dd6e02c51e4428b722c4e1e28a162cc7c0016c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:07 +0000
Subject: [PATCH 151/191] fix: control flow graph: array holes and computed
 keys with logical operators

---
 ecma/analysis/ctrlflow.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ecma/analysis/ctrlflow.go b/ecma/analysis/ctrlflow.go
index 4546819..6b630bd 100644
--- a/ecma/analysis/ctrlflow.go
+++ b/ecma/analysis/ctrlflow.go
@@ -384,7 +384,13 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 	case parser.N_LIT_ARR:
 		n := node.(*parser.ArrLit)
 
-		head, tail := ac.popExprsAndLink(len(n.Elems()))
+		cnt := 0
+		for _, el := range n.Elems() {
+			if el != nil {
+				cnt += 1
+			}
+		}
+		head, tail := ac.popExprsAndLink(cnt)
 
 		enter := ac.popExpr()
 		exit := ac.newExit(node, "")
@@ -420,11 +426,13 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 		exit := ac.newExit(node, "")
 		if val != nil {
+			link(ac, key, EK_JMP, ET_NONE, EK_JMP, ET_NONE, val, LF_NONE)
 			link(ac, key, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, val, LF_NONE)
 
 			link(ac, val, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
 			link(ac, val, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 		} else {
+			link(ac, key, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
 			link(ac, key, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 		}
 
-- 
2.43.0


From 130cda012b6041e8e3008db08a2bd2f91cce1da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:41 +0000
Subject: [PATCH 152/191] fix: control flow graph: exceptions and jumps keep
 their targets through loops, labels, switches and nested try statements

---
 ecma/analysis/ctrlflow.go | 70 +++++++++++++++++++++++++++------------
 ecma/analysis/graph.go    | 18 ++++++----
 2 files changed, 60 insertions(+), 28 deletions(-)

diff --git a/ecma/analysis/ctrlflow.go b/ecma/analysis/ctrlflow.go
index 6b630bd..d6e12cc 100644
--- a/ecma/analysis/ctrlflow.go
+++ b/ecma/analysis/ctrlflow.go
@@ -222,12 +222,7 @@ func handleBefore(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			ac.pushStmt(blk)
 		} else if astTyp != parser.N_STMT_FN && astTyp != parser.N_EXPR_FN {
 			prev := ac.popStmt()
-			scope := ctx.Scope()
-			flag := LF_NONE
-			if astTyp == parser.N_STMT_TRY && (scope.IsKind(parser.SPK_TRY) || scope.IsKind(parser.SPK_TRY_INDIRECT)) {
-				flag |= LF_FORCE_SEP
-			}
-			link(ac, prev, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, blk, flag)
+			link(ac, prev, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, blk, flagOfTry(node, ctx))
 			ac.pushStmt(grpBlock(ac, prev, blk))
 		}
 	} else if !isAtom(astTyp) {
@@ -245,6 +240,16 @@ func handleBefore(node parser.Node, key string, ctx *walk.VisitorCtx) {
 	}
 }
 
+// tryStmt nested in other tryStmt should be separated from the nodes before it since
+// the exceptions thrown by those nodes are handled by the outer tryStmt
+func flagOfTry(node parser.Node, ctx *walk.VisitorCtx) LinkFlag {
+	scope := ctx.Scope()
+	if node.Type() == parser.N_STMT_TRY && (scope.IsKind(parser.SPK_TRY) || scope.IsKind(parser.SPK_TRY_INDIRECT)) {
+		return LF_FORCE_SEP
+	}
+	return LF_NONE
+}
+
 func enterFnGraph(node parser.Node, ctx *walk.VisitorCtx, stmt bool) {
 	ac := analysisCtx(ctx)
 
@@ -989,7 +994,9 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			j.Tag = ET_CUT
 		}
 
-		ac.pushStmt(grpBlock(ac, vn, exit))
+		vn = grpBlock(ac, vn, exit)
+		vn.addOutlets(enter.xJmpOutEdges())
+		ac.pushStmt(vn)
 
 	case parser.N_STMT_WHILE:
 		n := node.(*parser.WhileStmt)
@@ -1028,7 +1035,9 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		link(ac, vn, EK_JMP, ET_JMP_T|ET_JMP_F|ET_JMP_N, EK_JMP, ET_NONE, exit, LF_NONE)
 		linkBrk(ac, ctx, exit)
 		link(ac, vn, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
-		ac.pushStmt(grpBlock(ac, vn, exit))
+		vn = grpBlock(ac, vn, exit)
+		vn.addOutlets(enter.xJmpOutEdges())
+		ac.pushStmt(vn)
 
 	case parser.N_STMT_DO_WHILE:
 		n := node.(*parser.DoWhileStmt)
@@ -1070,7 +1079,9 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			j.Tag = ET_CUT
 		}
 
-		ac.pushStmt(grpBlock(ac, vn, exit))
+		vn = grpBlock(ac, vn, exit)
+		vn.addOutlets(enter.xJmpOutEdges())
+		ac.pushStmt(vn)
 
 	case parser.N_STMT_FOR_IN_OF:
 		body := ac.popStmt()
@@ -1093,7 +1104,9 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		exit := ac.newExit(node, "")
 		link(ac, rhs, EK_JMP, ET_JMP_F, EK_SEQ, ET_NONE, exit, LF_NONE)
 
-		ac.pushStmt(grpBlock(ac, enter, exit))
+		vn := grpBlock(ac, enter, exit)
+		vn.addOutlets(body.xJmpOutEdges())
+		ac.pushStmt(vn)
 
 	case parser.N_STATIC_BLOCK:
 		prev := ac.popStmt()
@@ -1172,7 +1185,9 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		link(ac, id, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, body, LF_NONE)
 		link(ac, body, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 
-		ac.pushStmt(grpBlock(ac, enter, exit))
+		vn := grpBlock(ac, enter, exit)
+		vn.addOutlets(body.xJmpOutEdges())
+		ac.pushStmt(vn)
 
 	case parser.N_STMT_TRY:
 		n := node.(*parser.TryStmt)
@@ -1194,7 +1209,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			if edge := blk.FindOutEdge(EK_JMP, ET_JMP_E, false); edge != nil || blk.allInfoNode() || blk.throwLit() {
 				return
 			}
-			edge := blk.newJmpOut(ET_JMP_E)
+			edge := blk.addJmpOut(ET_JMP_E)
 			eb[edge] = edge
 		})
 		try.addOutlets(eb)
@@ -1285,7 +1300,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			if n.Target().Type() == parser.N_PROG {
 				ac.graph.hasHangingThrow = true
 			} else {
-				ac.graph.addHangingThrow(n.Target(), vn)
+				ac.graph.addHangingThrow(n.Target(), exit)
 			}
 		}
 
@@ -1364,6 +1379,9 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 
 		vn := grpBlock(ac, enter, exit)
 		vn.addOutlets(xOutEdges)
+		if tail != nil {
+			vn.addOutlets(tail.xJmpOutEdges())
+		}
 		ac.pushStmt(vn)
 
 	case parser.N_SWITCH_CASE:
@@ -1414,13 +1432,15 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		lb := ac.popExpr()
 
 		link(ac, enter, EK_SEQ, ET_NONE, EK_NONE, ET_NONE, lb, LF_NONE)
-		link(ac, lb, EK_SEQ, ET_NONE, EK_NONE, ET_NONE, body, LF_NONE)
+		link(ac, lb, EK_SEQ, ET_NONE, EK_NONE, ET_NONE, body, flagOfTry(node.(*parser.LabelStmt).Body(), ctx))
 		exit := ac.newExit(node, "")
 		if t := node.(*parser.LabelStmt).Body().Type(); !isLoop(t) && t != parser.N_STMT_SWITCH {
 			linkBrkList(ac, ac.graph.hangingLabelBrk[node], exit)
 		}
 		link(ac, body, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
-		ac.pushStmt(grpBlock(ac, enter, exit))
+		vn := grpBlock(ac, enter, exit)
+		vn.addOutlets(body.xJmpOutEdges())
+		ac.pushStmt(vn)
 
 	case parser.N_STMT_CONT:
 		prev := ac.popStmt()
@@ -1550,7 +1570,7 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 			link(ac, prev, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, arg, LF_NONE)
 			prev = arg
 		}
-		link(ac, prev, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_NONE)
+		link(ac, prev, EK_JMP, ET_JMP_T|ET_JMP_F|ET_JMP_N, EK_JMP, ET_NONE, exit, LF_NONE)
 		link(ac, prev, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 		exit.mrkSeqOutAsCut()
 
@@ -1712,16 +1732,22 @@ func linkBrk(a *AnalysisCtx, ctx *walk.VisitorCtx, exit *Block) {
 
 func linkBrkList(a *AnalysisCtx, list []*Block, exit *Block) {
 	for _, brk := range list {
-		link(a, brk, EK_JMP, ET_NONE, EK_JMP, ET_NONE, exit, LF_OVERWRITE)
+		link(a, brk, EK_JMP, ET_JMP_U, EK_JMP, ET_NONE, exit, LF_OVERWRITE)
 	}
 }
 
 func resolveCont(a *AnalysisCtx, loopNode parser.Node, loopTailBlk *Block) {
-	for _, cont := range a.graph.hangingCont[loopNode] {
-		// cont is a placeholder, so we need to find the source blk, then it to loopTailBlk
-		edge, _ := cont.FindInEdge(EK_JMP, ET_LOOP, false)
-		jmp := edge.Src
-		link(a, jmp, EK_JMP, ET_LOOP, EK_JMP, ET_LOOP, loopTailBlk, LF_OVERWRITE)
+	// the reachable ones come first, otherwise the tail is considered as unreachable
+	// when it's linked from the unreachable ones
+	for _, cut := range []bool{false, true} {
+		for _, cont := range a.graph.hangingCont[loopNode] {
+			// cont is a placeholder, so we need to find the source blk, then it to loopTailBlk
+			edge, _ := cont.FindInEdge(EK_JMP, ET_LOOP, false)
+			jmp := edge.Src
+			if jmp.IsInCut() == cut {
+				link(a, jmp, EK_JMP, ET_LOOP, EK_JMP, ET_LOOP, loopTailBlk, LF_OVERWRITE)
+			}
+		}
 	}
 }
 
diff --git a/ecma/analysis/graph.go b/ecma/analysis/graph.go
index b575a97..2ee047e 100644
--- a/ecma/analysis/graph.go
+++ b/ecma/analysis/graph.go
@@ -433,15 +433,21 @@ func (b *Block) seqInEdge() *Edge {
 	panic("unreachable")
 }
 
-// add new jmp branch from the source node of seqOut
-func (b *Block) newJmpOut(k EdgeTag) *Edge {
-	seq := b.seqOutEdge()
-	edge := &Edge{EK_JMP, k, seq.Src, nil}
-	seq.Src.Outlets[edge] = edge
+// add new jmp branch which starts from `b`
+func (b *Block) addJmpOut(k EdgeTag) *Edge {
+	edge := &Edge{EK_JMP, k, b, nil}
+	b.Outlets[edge] = edge
 
-	if seq.Src.IsInCut() {
+	if b.IsInCut() {
 		edge.Tag |= ET_CUT
 	}
+	return edge
+}
+
+// add new jmp branch from the source node of seqOut
+func (b *Block) newJmpOut(k EdgeTag) *Edge {
+	seq := b.seqOutEdge()
+	edge := seq.Src.addJmpOut(k)
 
 	// if b is groupBlock, the new added jmp-edge should also be added
 	// into `b` otherwise it can not be linked in future process
-- 
2.43.0


From e468653e387047cab61f88f707c46b268d48ac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:00 +0000
Subject: [PATCH 153/191] fix: control flow graph: catch clause without a
 parameter

---
 ecma/analysis/ctrlflow.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ecma/analysis/ctrlflow.go b/ecma/analysis/ctrlflow.go
index d6e12cc..8a82178 100644
--- a/ecma/analysis/ctrlflow.go
+++ b/ecma/analysis/ctrlflow.go
@@ -1175,14 +1175,21 @@ func handleAfter(node parser.Node, key string, ctx *walk.VisitorCtx) {
 		}
 
 	case parser.N_CATCH:
-		_ = node.(*parser.Catch)
-		id := ac.popExpr()
+		n := node.(*parser.Catch)
+		var id *Block
+		if n.Param() != nil {
+			id = ac.popExpr()
+		}
 		enter := ac.popExpr()
 		body := ac.popStmt()
 		exit := ac.newExit(node, "")
 
-		link(ac, enter, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, id, LF_NONE)
-		link(ac, id, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, body, LF_NONE)
+		if id != nil {
+			link(ac, enter, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, id, LF_NONE)
+			link(ac, id, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, body, LF_NONE)
+		} else {
+			link(ac, enter, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, body, LF_NONE)
+		}
 		link(ac, body, EK_SEQ, ET_NONE, EK_SEQ, ET_NONE, exit, LF_NONE)
 
 		vn := grpBlock(ac, enter, exit)
-- 
2.43.0


From 4c17e8e9f24890a74f00c32f50615148957c2ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:07 +0000
Subject: [PATCH 154/191] fix: decimal numbers which start with a zero in
 sloppy mode

---
 ecma/parser/lexer.go | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 8a27c32..a9f2f7b 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -1383,14 +1383,27 @@ func (l *Lexer) readNum() *Token {
 				} else {
 					return l.readOctalNum(tok, 1)
 				}
-			} else {
+			} else if l.IsMode(LM_STRICT) {
 				return l.errTokMsg(tok, ERR_INVALID_NUMBER)
+			} else {
+				return l.readNonOctalDecimalNum(tok)
 			}
 		}
 	}
 	return l.readDecimalNum(tok, c)
 }
 
+// https://tc39.es/ecma262/multipage/ecmascript-language-lexical-grammar.html#prod-NonOctalDecimalIntegerLiteral
+func (l *Lexer) readNonOctalDecimalNum(tok *Token) *Token {
+	for IsDecimalDigit(l.src.Peek()) {
+		l.src.Read()
+	}
+	if l.src.AheadIsCh('n') {
+		return l.errTokMsg(nil, ERR_IDENT_AFTER_NUMBER)
+	}
+	return l.readDecimalNum(tok, '0')
+}
+
 func (l *Lexer) readDecimalNum(tok *Token, first rune) *Token {
 	if first != '.' && first != '0' {
 		c := l.src.Peek()
@@ -1565,6 +1578,10 @@ func (l *Lexer) readOctalNum(tok *Token, i int) *Token {
 			break
 		}
 	}
+	if legacy && IsDecimalDigit(l.src.Peek()) {
+		// `8` or `9`
+		return l.readNonOctalDecimalNum(tok)
+	}
 	if last == '_' {
 		tok := l.newToken()
 		return l.errTokOfst(tok, ERR_NUM_SEP_END, l.src.Ofst()-1)
-- 
2.43.0


From ac9519a344878888c1a2495b7cedc813596f8785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:17 +0000
Subject: [PATCH 155/191] fix: static method named constructor is not the
 constructor

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index be79ef1..e1a3210 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1562,7 +1562,7 @@ func (p *Parser) classElem(inDeclare bool) (Node, error) {
 		kd := PK_INIT
 		if p.aheadIsArgList(ahead) {
 			kd = PK_METHOD
-			if name == "constructor" {
+			if name == "constructor" && !static {
 				kd = PK_CTOR
 			}
 
-- 
2.43.0


From bf55d85f7139eedcd4a7c8401468d93d6bd232fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:26 +0000
Subject: [PATCH 156/191] fix: yield statement with a regexp as operand in
 sloppy mode

---
 ecma/parser/parser.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index e1a3210..9341abe 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1971,7 +1971,9 @@ func (p *Parser) retStmt() (Node, error) {
 }
 
 func (p *Parser) aheadIsLabel(tok *Token) bool {
-	if tok.value == T_NAME {
+	// `yield` cannot be label in generator, scanning the token after it as if it follows
+	// a name will misinterpret the beginning slash of regexp
+	if tok.value == T_NAME && !p.aheadIsYield() {
 		ahead := p.lexer.Peek2nd()
 		return ahead.value == T_COLON
 	}
-- 
2.43.0


From d6c3b40434a70a504f8603d3dd7ff5a0a7238d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:47 +0000
Subject: [PATCH 157/191] fix: ill-formed programs are rejected with a
 positioned error instead of a panic, an endless loop or an accepted error

---
 ecma/parser/astutil.go |  3 ++-
 ecma/parser/parser.go  | 16 ++++++++++++----
 ecma/parser/ts.go      | 35 ++++++++++++++++++++++-------------
 ecma/parser/ts_ast.go  |  2 +-
 4 files changed, 37 insertions(+), 19 deletions(-)

diff --git a/ecma/parser/astutil.go b/ecma/parser/astutil.go
index d26608e..5d9dfaf 100644
--- a/ecma/parser/astutil.go
+++ b/ecma/parser/astutil.go
@@ -129,7 +129,8 @@ func TokText(t *Token, s *span.Source) string {
 		return ""
 	}
 
-	if !t.txt.Empty() {
+	// the range of the text is left open if the token is ill-formed
+	if !t.txt.Empty() && t.txt.Valid() {
 		t.text = s.RngText(t.txt)
 	} else if t.rng.Valid() {
 		t.text = s.RngText(t.rng)
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 9341abe..989cb0d 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -225,6 +225,11 @@ func (p *Parser) Prog() (Node, error) {
 	}
 
 	stmts, err := p.stmts(T_ILLEGAL)
+	if err == errEof {
+		err = p.errorTok(p.lexer.PeekStmtBegin())
+	} else if e, ok := err.(ErrTypArgMissingGT); ok {
+		err = p.errorAtLoc(e.rng, e.Error())
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -1727,6 +1732,9 @@ func (p *Parser) field(key Node, begin, static span.Range, accMod ACC_MOD, begin
 		ds = p.hangingDecorators
 		rng = ds[0].Range()
 		p.hangingDecorators = nil
+		if ti == nil {
+			ti = NewTypInfo()
+		}
 		ti.decorators = ds
 	}
 	return &Field{N_FIELD, p.finRng(rng), key, isStatic, !compute.Empty(), value, ti}, nil
@@ -4810,7 +4818,7 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 			// `superTypArgs` is used to represent expr like `(class extends f()<T> {})`
 			args, _, typArgs, superTypArgs, err := p.argList(true, true, span.Range{}, true)
 			if err != nil {
-				if err == p.errTypArgMissingGT && firstOpt.Empty() {
+				if lt && err == p.errTypArgMissingGT && firstOpt.Empty() {
 					p.popState()
 
 					e := err.(ErrTypArgMissingGT)
@@ -4828,7 +4836,7 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 			}
 
 			if superTypArgs != nil {
-				if wt, ok := callee.(NodeWithTypInfo); ok {
+				if wt, ok := callee.(NodeWithTypInfo); ok && wt.TypInfo() != nil {
 					wt.TypInfo().SetSuperTypArgs(superTypArgs)
 				}
 				return callee, span.Range{}, nil
@@ -5708,7 +5716,7 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 		ahead = p.lexer.Peek()
 		aheadOp := ahead.IsBin(notIn, ts)
 		kind = TokenKinds[aheadOp]
-		for aheadOp != T_ILLEGAL && (kind.Pcd > pcd || kind.Pcd == pcd && kind.RightAssoc) {
+		for aheadOp != T_ILLEGAL && !(aheadOp == T_GT && notGT) && (kind.Pcd > pcd || kind.Pcd == pcd && kind.RightAssoc) {
 			rhs, err = p.binExpr(rhs, kind.Pcd, logic, nullish, notGT, false)
 			if err != nil {
 				return nil, err
@@ -5981,7 +5989,7 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 		loc := tok.rng
 		p.lexer.Next()
 		ext := tok.ext.(*TokExtRegexp)
-		return &RegLit{N_LIT_REGEXP, p.finRng(loc), p.TokText(tok), p.RngText(ext.pattern), p.RngText(ext.flags), span.Range{}, nil}, nil
+		return &RegLit{N_LIT_REGEXP, p.finRng(loc), p.TokText(tok), p.RngText(ext.pattern), p.RngText(ext.flags), span.Range{}, p.newTypInfo(N_LIT_REGEXP)}, nil
 	case T_CLASS:
 		return p.classDec(true, false, false, false)
 	case T_SUPER:
diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index b901ca8..ccf118f 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -185,8 +185,7 @@ func (p *Parser) tsConstructTyp(rng span.Range, abstract bool) (Node, error) {
 		return nil, err
 	}
 
-	arrow, err := p.nextMustTok(T_ARROW)
-	if err != nil {
+	if _, err := p.nextMustTok(T_ARROW); err != nil {
 		return nil, err
 	}
 
@@ -194,7 +193,7 @@ func (p *Parser) tsConstructTyp(rng span.Range, abstract bool) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	ti := &TsTypAnnot{N_TS_TYP_ANNOT, p.finRng(arrow.rng), retTyp}
+	ti := &TsTypAnnot{N_TS_TYP_ANNOT, p.finRng(retTyp.Range()), retTyp}
 	return &TsNewSig{N_TS_NEW, p.finRng(rng), typParams, params, ti, abstract}, nil
 }
 
@@ -443,7 +442,7 @@ func (p *Parser) tsRoughParamToTyp(node Node, raise bool) (Node, error) {
 
 	switch n.Type() {
 	case N_NAME:
-		n := node.(*Ident)
+		n := n.(*Ident)
 		name := n.val
 		if typ, ok := builtinTyp[name]; ok {
 			// predef
@@ -668,7 +667,7 @@ func (p *Parser) tsRef(ns Node) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
-	return &TsRef{N_TS_REF, p.finRng(ns.Range()), name, args.Range(), args, span.Range{}}, nil
+	return &TsRef{N_TS_REF, p.finRng(name.Range()), name, args.Range(), args, span.Range{}}, nil
 }
 
 func (p *Parser) tsArr(typ Node) (Node, error) {
@@ -946,7 +945,7 @@ func (p *Parser) tsPrimary(rough bool, canConst, canCond bool) (Node, error) {
 				}
 			}
 		}
-		if node == nil {
+		if node == nil && err == nil {
 			node, err = p.tsPredefOrRef(ahead)
 		}
 		if err != nil {
@@ -1243,7 +1242,7 @@ func (p *Parser) tsIdxSig(rng span.Range, braceL span.Range, roLoc span.Range, c
 		return nil, err
 	}
 	if typAnnot != nil {
-		if wt, ok := key.(NodeWithTypInfo); ok {
+		if wt, ok := key.(NodeWithTypInfo); ok && wt.TypInfo() != nil {
 			wt.TypInfo().SetTypAnnot(typAnnot)
 		} else {
 			return nil, p.errorAtLoc(typAnnot.Range(), ERR_UNEXPECTED_TOKEN)
@@ -1701,7 +1700,11 @@ func (p *Parser) tsCheckTypArgs(node Node) error {
 		return nil
 	}
 
-	nodes := node.(*TsParamsInst).params
+	inst, ok := node.(*TsParamsInst)
+	if !ok {
+		return p.errorAtLoc(node.Range(), ERR_UNEXPECTED_TOKEN)
+	}
+	nodes := inst.params
 	for i, arg := range nodes {
 		if arg.Type() == N_TS_PARAM {
 			pn := arg.(*TsParam)
@@ -1926,7 +1929,7 @@ func (p *Parser) tsIsFnImplValid(id Node) error {
 	if ecp == act {
 		return nil
 	}
-	return p.errorAtLoc(id.(*Ident).rng, fmt.Sprintf(ERR_TPL_INVALID_FN_IMPL_NAME, ecp))
+	return p.errorAtLoc(id.Range(), fmt.Sprintf(ERR_TPL_INVALID_FN_IMPL_NAME, ecp))
 }
 
 func (p *Parser) aheadIsTsItf(tok *Token) bool {
@@ -2008,10 +2011,16 @@ func (p *Parser) tsItf() (Node, error) {
 	}
 	p.symtab.LeaveScope()
 
+	// mapped type such as `{[a in b]:c}` is not the body of interface
+	obj, ok := body.(*TsObj)
+	if !ok {
+		return nil, p.errorAtLoc(body.Range(), ERR_UNEXPECTED_TOKEN)
+	}
+
 	itfBody := &TsInterfaceBody{
 		typ:  N_TS_INTERFACE_BODY,
-		rng:  body.(*TsObj).rng,
-		body: body.(*TsObj).props,
+		rng:  obj.rng,
+		body: obj.props,
 	}
 	return &TsInterface{N_TS_INTERFACE, p.finRng(rng), name, params, supers, itfBody}, nil
 }
@@ -2126,8 +2135,8 @@ func (p *Parser) tsImportAliasRsh(rng span.Range, typ span.Range, name Node, exp
 		}
 
 		// the arguments count of `require` should be one with type `StrLit`
-		ce := call.(*CallExpr)
-		if len(ce.args) == 0 {
+		ce, ok := call.(*CallExpr)
+		if !ok || len(ce.args) == 0 {
 			return nil, p.errorAt(p.lexer.PrevTok(), p.lexer.PrevTokRng(), ERR_IMPORT_REQUIRE_STR_LIT_DESERVED)
 		}
 		if ce.args[0].Type() != N_LIT_STR {
diff --git a/ecma/parser/ts_ast.go b/ecma/parser/ts_ast.go
index aa471d8..4c57249 100644
--- a/ecma/parser/ts_ast.go
+++ b/ecma/parser/ts_ast.go
@@ -439,7 +439,7 @@ func (n *TsProp) Optional() bool {
 }
 
 func (n *TsProp) Readonly() bool {
-	if wt, ok := n.key.(NodeWithTypInfo); ok {
+	if wt, ok := n.key.(NodeWithTypInfo); ok && wt.TypInfo() != nil {
 		return wt.TypInfo().Readonly()
 	}
 	return false
-- 
2.43.0


From 874d35ea7e2608d90e03f022b5e5e06418759f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:49 +0000
Subject: [PATCH 158/191] fix: functions after an overloaded or ambient
 function are not mistaken for its implementation

---
 ecma/parser/parser.go | 17 +++++++++++++----
 ecma/parser/ts.go     |  8 +++++++-
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 989cb0d..0116e26 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2958,7 +2958,10 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 
 	if !expr && p.ts {
 		if body == nil {
-			p.lastTsFnSig = fnDec
+			// the implementation is not expected in ambient contexts
+			if !scope.IsKind(SPK_TS_DECLARE) && p.feat&FEAT_DTS == 0 {
+				p.lastTsFnSig = fnDec
+			}
 		} else if err = p.tsIsFnImplValid(id); err != nil {
 			return nil, err
 		}
@@ -3081,7 +3084,12 @@ func (p *Parser) namesInPattern(node Node, kw bool) ([]Node, error) {
 }
 
 func (p *Parser) fnBody() (Node, error) {
-	return p.blockStmt(false, SPK_NONE)
+	// the func sig expects its implementation on the same level
+	sig := p.lastTsFnSig
+	p.lastTsFnSig = nil
+	body, err := p.blockStmt(false, SPK_NONE)
+	p.lastTsFnSig = sig
+	return body, err
 }
 
 func (p *Parser) scope() *Scope {
@@ -6613,8 +6621,9 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 
 				if !abstract {
 					value.id = key
-					sig := value
-					p.lastTsFnSig = sig
+					if !p.scope().IsKind(SPK_TS_DECLARE) && p.feat&FEAT_DTS == 0 {
+						p.lastTsFnSig = value
+					}
 				}
 			}
 		} else {
diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index ccf118f..968018d 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -1927,9 +1927,15 @@ func (p *Parser) tsIsFnImplValid(id Node) error {
 	ecp := p.nameOfNode(p.lastTsFnSig.id)
 	act := p.nameOfNode(id)
 	if ecp == act {
+		// the implementation is found
+		p.lastTsFnSig = nil
 		return nil
 	}
-	return p.errorAtLoc(id.Range(), fmt.Sprintf(ERR_TPL_INVALID_FN_IMPL_NAME, ecp))
+	rng := p.lastTsFnSig.rng
+	if id != nil {
+		rng = id.Range()
+	}
+	return p.errorAtLoc(rng, fmt.Sprintf(ERR_TPL_INVALID_FN_IMPL_NAME, ecp))
 }
 
 func (p *Parser) aheadIsTsItf(tok *Token) bool {
-- 
2.43.0


From cac1962ca1fa60053bd296b709a859ef851e3b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:29 +0000
Subject: [PATCH 159/191] fix: a feature switched off rejects just the
 constructs it names

---
 ecma/parser/parser.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 0116e26..fff101e 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1525,9 +1525,6 @@ func (p *Parser) classElem(inDeclare bool) (Node, error) {
 		if !isField && !readonlyLoc.Empty() {
 			return nil, p.errorAtLoc(readonlyLoc, ERR_METHOD_CANNOT_READONLY)
 		}
-		if p.feat&FEAT_ASYNC_GENERATOR == 0 {
-			return nil, p.errorTok(ahead)
-		}
 		return p.method(beginLoc, nil, accMod, span.Range{}, false, PK_METHOD, true, false, true, true, static, beginLoc, declare, abstract, override, nil)
 	}
 
@@ -1670,6 +1667,13 @@ func (p *Parser) field(key Node, begin, static span.Range, accMod ACC_MOD, begin
 
 	var value Node
 	tok := p.lexer.Peek()
+	feat := FEAT_CLASS_PUB_FIELD
+	if key.Type() == N_NAME && key.(*Ident).pvt {
+		feat = FEAT_CLASS_PRIV_FIELD
+	}
+	if p.feat&feat == 0 && !p.aheadIsArgList(tok) {
+		return nil, p.errorTok(tok)
+	}
 	var assignLoc span.Range
 	if tok.value == T_ASSIGN {
 		assignLoc = p.rng()
@@ -3879,10 +3883,6 @@ func (p *Parser) patternProp() (Node, error) {
 func (p *Parser) isField(static bool, getter bool) (bool, *Token) {
 	ahead := p.lexer.Peek()
 	av := ahead.value
-	if p.feat&FEAT_CLASS_PUB_FIELD == 0 {
-		return false, ahead
-	}
-
 	isField := av == T_COLON ||
 		av == T_ASSIGN ||
 		av == T_SEMI ||
@@ -4045,7 +4045,7 @@ func (p *Parser) bindingElem(asProp bool) (Node, error) {
 	} else if tok.value == T_BRACKET_L {
 		binding, err = p.patternArr()
 	} else if tok.value == T_DOT_TRI {
-		binding, err = p.patternRest(!asProp, false)
+		binding, err = p.patternRest(!asProp && p.feat&FEAT_BINDING_REST_ELEM_NESTED != 0, false)
 	} else {
 		binding, err = p.ident(nil, true)
 	}
@@ -6360,9 +6360,6 @@ func (p *Parser) objProp() (Node, error) {
 	}
 
 	if tok.value == T_MUL {
-		if p.feat&FEAT_ASYNC_GENERATOR == 0 {
-			return nil, p.errorTok(tok)
-		}
 		return p.method(span.Range{}, nil, ACC_MOD_NONE, span.Range{}, false, PK_INIT, true, false, false, false, false, span.Range{}, false, false, false, nil)
 	} else if p.aheadIsAsync(tok, true, false) {
 		if tok.ContainsEscape() {
-- 
2.43.0


From 930b142744f55d09dd861b28b1f70a9b30a18305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:09:52 +0000
Subject: [PATCH 160/191] fix: conversion to ESTree without line/columns does
 not panic

---
 ecma/estree/convert.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/ecma/estree/convert.go b/ecma/estree/convert.go
index 364e90e..7aded0e 100644
--- a/ecma/estree/convert.go
+++ b/ecma/estree/convert.go
@@ -340,7 +340,9 @@ func locWithTypeInfo(node parser.Node, includeParamProp bool, s *span.Source, ct
 
 	firstRng, firstLoc := FirstLoc(s, ctx, starLocList...)
 	rng.Lo = firstRng.Lo
-	loc.Start = firstLoc.Start
+	if loc != nil {
+		loc.Start = firstLoc.Start
+	}
 
 	endLocList := []span.Range{}
 	if ti.TypAnnot() != nil {
@@ -350,14 +352,16 @@ func locWithTypeInfo(node parser.Node, includeParamProp bool, s *span.Source, ct
 
 	endRng, endLoc := LastLoc(s, ctx, endLocList...)
 	rng.Hi = endRng.Hi
-	loc.End = endLoc.End
+	if loc != nil {
+		loc.End = endLoc.End
+	}
 
 	return
 }
 
 func TplLocWithTag(n *parser.TplExpr, s *span.Source, ctx *ConvertCtx) *SrcLoc {
 	loc := CalcLoc(n, s, ctx)
-	if n.Tag() != nil {
+	if loc != nil && n.Tag() != nil {
 		tl := CalcLoc(n.Tag(), s, ctx)
 		loc.Start = tl.Start
 		loc.End = tl.End
@@ -407,8 +411,9 @@ func locWithDecorator(node parser.Node, ds []parser.Node, s *span.Source, ctx *C
 		return
 	}
 	d := ds[0]
-	dLoc := locOfNode(d, s, ctx)
-	loc.Start = dLoc.Start
+	if loc != nil {
+		loc.Start = locOfNode(d, s, ctx).Start
+	}
 	rng.Lo = d.Range().Lo
 	return
 }
-- 
2.43.0


From 8304228e56d73f3c79bce8f1ee38222fcce0ff64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:10:09 +0000
Subject: [PATCH 161/191] fix: the command line tool reports a failed parse
 instead of ending quietly or with a panic

---
 cli/ast.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/cli/ast.go b/cli/ast.go
index 58250a7..0c5c90a 100644
--- a/cli/ast.go
+++ b/cli/ast.go
@@ -37,7 +37,10 @@ func (a *AstInspector) Process(opts *Options) bool {
 	}
 
 	if opts.ast {
-		printJsAst(string(src), opts.file, opts.perf)
+		if _, err := printJsAst(string(src), opts.file, opts.perf); err != nil {
+			fmt.Fprintln(os.Stderr, err)
+			os.Exit(1)
+		}
 	}
 
 	return true
@@ -59,17 +62,17 @@ func printJsAst(src, file string, perf bool) (string, error) {
 	var ast parser.Node
 	var err error
 	if perf {
-		cpuProf, err := os.Create("cpu.prof")
-		if err != nil {
-			return "", err
+		cpuProf, e := os.Create("cpu.prof")
+		if e != nil {
+			return "", e
 		}
 		defer cpuProf.Close()
 
-		heap, err := os.Create("heap.out")
-		if err != nil {
-			return "", err
+		heap, e := os.Create("heap.out")
+		if e != nil {
+			return "", e
 		}
-		defer cpuProf.Close()
+		defer heap.Close()
 
 		_runtime.StartCPUProfile(cpuProf)
 		ast, err = p.Prog()
@@ -98,7 +101,9 @@ func printJsAst(src, file string, perf bool) (string, error) {
 	output := out.String()
 
 	outFile := assembleOutFile(file, "_ast")
-	ioutil.WriteFile(outFile, out.Bytes(), 0644)
+	if err := ioutil.WriteFile(outFile, out.Bytes(), 0644); err != nil {
+		return "", err
+	}
 	fmt.Printf("Result is also saved in: %s\n", outFile)
 
 	if ok := copyToClipboard(outFile); ok {
-- 
2.43.0


From 80961f240cc3d7192171554bca0a829a8cee4738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:09 +0000
Subject: [PATCH 162/191] fix: WalkObj calls the callback once per value

---
 util/obj.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/util/obj.go b/util/obj.go
index 3628b78..4abaf8c 100644
--- a/util/obj.go
+++ b/util/obj.go
@@ -8,6 +8,15 @@ import (
 
 type WalkObjFn func(path []string, val interface{}, key interface{}, parent interface{}, arr bool) bool
 
+func isContainer(v interface{}) bool {
+	switch v.(type) {
+	case map[string]interface{}, []interface{}:
+		return true
+	}
+	return false
+}
+
+// calls `cb` once for each value held in `obj`, a container before the values in it, until `cb` returns `false`
 func WalkObj(obj interface{}, path []string, cb WalkObjFn, key interface{}, parent interface{}, arr bool) bool {
 	if mv, ok := obj.(map[string]interface{}); ok {
 		for k, v := range mv {
@@ -16,8 +25,7 @@ func WalkObj(obj interface{}, path []string, cb WalkObjFn, key interface{}, pare
 			if !goon {
 				return false
 			}
-			goon = WalkObj(v, path, cb, k, mv, false)
-			if !goon {
+			if isContainer(v) && !WalkObj(v, path, cb, k, mv, false) {
 				return false
 			}
 			path = path[:len(path)-1]
@@ -32,8 +40,7 @@ func WalkObj(obj interface{}, path []string, cb WalkObjFn, key interface{}, pare
 			if !goon {
 				return false
 			}
-			goon = WalkObj(v, path, cb, i, av, true)
-			if !goon {
+			if isContainer(v) && !WalkObj(v, path, cb, i, av, true) {
 				return false
 			}
 			path = path[:len(path)-1]
-- 
2.43.0


From b73c2bd667cfd1bc31345aaa70b624ebe91eb80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:30 +0000
Subject: [PATCH 163/191] fix: merging maps does not change the maps merged
 from

---
 util/merge.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/merge.go b/util/merge.go
index ac53503..85f563f 100644
--- a/util/merge.go
+++ b/util/merge.go
@@ -10,7 +10,12 @@ func MergeMap(dst map[string]interface{}, src map[string]interface{}) {
 				continue
 			}
 		}
-		if v != nil {
+		if sv, ok := v.(map[string]interface{}); ok {
+			// do not share the map with `src`, otherwise merging into `dst` later changes `src`
+			m := make(map[string]interface{}, len(sv))
+			MergeMap(m, sv)
+			dst[k] = m
+		} else if v != nil {
 			dst[k] = v
 		}
 	}
-- 
2.43.0


From cf6a0d0a5f154ea7073f6e8586e33e3d5e8a356f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:40 +0000
Subject: [PATCH 164/191] fix: functions at the top level of scripts and
 functions are bound like var

---
 ecma/parser/jsx.go    | 2 +-
 ecma/parser/parser.go | 4 +++-
 ecma/parser/symtab.go | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/jsx.go b/ecma/parser/jsx.go
index 9e1b19f..46a5313 100644
--- a/ecma/parser/jsx.go
+++ b/ecma/parser/jsx.go
@@ -133,7 +133,7 @@ func (p *Parser) jsxAttr() (Node, error) {
 		rng := tok.rng
 		val = &StrLit{N_LIT_STR, p.finRng(rng), p.TokText(tok), tok.HasLegacyOctalEscapeSeq(), span.Range{}, nil}
 	} else if av == T_LT {
-		val, err = p.jsx(true, false)
+		val, err = p.jsx(false, false)
 		if err != nil {
 			return nil, err
 		}
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index fff101e..a3e8c8b 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2660,7 +2660,9 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			fnRef.Id = id.(*Ident)
 			fnRef.BindKind = BK_VAR
 			fnRef.Typ = RDT_FN
-			if ps.IsKind(SPK_STRICT) {
+			// fns declared at the top level of scripts and fns are treated like `var`
+			varLike := ps.IsKind(SPK_FUNC) || ps.IsKind(SPK_GLOBAL) && p.feat&FEAT_MODULE == 0
+			if ps.IsKind(SPK_STRICT) && !varLike {
 				fnRef.BindKind = BK_LET
 			}
 			if ps.IsKind(SPK_TS_DECLARE) {
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index db2981c..a864639 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -270,7 +270,7 @@ func (s *Scope) AddLocal(ref *Ref, name string, checkDup bool) bool {
 
 		if checkDup && localInPs != nil && localInPs.BindKind != BK_PARAM &&
 			((localInPs.BindKind != BK_VAR && localInPs.Typ != RDT_FN) ||
-				(localInPs.Scope.Id == 0 && localInPs.Typ == RDT_FN)) {
+				(localInPs.Scope.Id == 0 && localInPs.Typ == RDT_FN && localInPs.BindKind != BK_VAR)) {
 			return CheckRefDup(localInPs, ref)
 		}
 		ps.Refs[name] = ref
-- 
2.43.0


From 0586edbe9b6f98e984b00f8820ddd49439a61c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:57:57 +0000
Subject: [PATCH 165/191] fix: a class and a function of the same scope cannot
 share a name

---
 ecma/parser/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index a3e8c8b..9aaf117 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1123,7 +1123,10 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 			ref.Id = id.(*Ident)
 			ref.Dec = dec
 			ref.BindKind = BK_CONST
-			ref.Typ = RDT_CLASS | RDT_TYPE
+			ref.Typ = RDT_CLASS
+			if p.ts {
+				ref.Typ |= RDT_TYPE
+			}
 			// the name of class expression is only visible inside that class
 			if !expr {
 				if err := p.addLocalBinding(ps, ref, true, ref.Id.val); err != nil {
@@ -2669,7 +2672,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 				fnRef.Typ = fnRef.Typ.On(RDT_TYPE)
 			}
 			checkDup := ps.IsKind(SPK_STRICT)
-			if local := ps.Local(fnRef.Id.val); local != nil && local.Typ == RDT_NONE {
+			if local := ps.Local(fnRef.Id.val); local != nil && (local.Typ == RDT_NONE || local.Typ == RDT_CLASS) {
 				checkDup = checkDup || local.BindKind == BK_LET || local.BindKind == BK_CONST
 			}
 			if err := p.addLocalBinding(ps, fnRef, checkDup, fnRef.Id.val); err != nil {
-- 
2.43.0


From 2c89b50411e1a62711058e5ffefcc4cc56239de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:33 +0000
Subject: [PATCH 166/191] fix: var and a lexical declaration of the same block
 cannot share a name

---
 ecma/parser/symtab.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index a864639..f4c5e63 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -145,6 +145,10 @@ type Scope struct {
 	// `IsBind` of their children are `true` means `rebind`
 	Refs map[string]*Ref
 
+	// names of the `var`s declared in this block or the blocks in it, they are bound in
+	// the fn around
+	varNames map[string]bool
+
 	// exports declared at this scope
 	Exports []*ExportDec
 }
@@ -255,6 +259,21 @@ func (s *Scope) AddLocal(ref *Ref, name string, checkDup bool) bool {
 		return false
 	}
 
+	// `{ { var a } let a }` and `{ function a() {} var a }` are illegal
+	if isVar := ref.BindKind == BK_VAR && ref.Typ&RDT_FN == 0; checkDup && isVar {
+		for scope, fn := s, s.UpperFn(); scope != fn; scope = scope.Up {
+			if lex := scope.Refs[name]; lex != nil && lex.Scope == scope && lex.Typ == RDT_FN {
+				return false
+			}
+			if scope.varNames == nil {
+				scope.varNames = map[string]bool{}
+			}
+			scope.varNames[name] = true
+		}
+	} else if !isVar && ref.Typ&RDT_TYPE == 0 && s.varNames[name] {
+		return false
+	}
+
 	// register binding to parent fn scope if it's `BK_VAR`
 	if ref.BindKind == BK_VAR {
 		ps := s.UpperFn()
-- 
2.43.0


From a12b29846a7bc60fb565729168ee76e7e489c9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:21 +0000
Subject: [PATCH 167/191] fix: a line terminator before comments ends
 statements as one without comments does

---
 ecma/parser/lexer.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index a9f2f7b..7572047 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -441,11 +441,12 @@ func (l *Lexer) operandOrOperator(tok *Token) TokenValue {
 func (l *Lexer) lexTok() *Token {
 	prt := T_ILLEGAL
 	prtAtm := false
-	prtExt := false
+	// whether there are line terminators before or inside the comments in a row
+	metLineTerm := false
 	for {
 		tok := l.readTokWithComment()
 		if tok.value != T_COMMENT {
-			if !tok.afterLineTerm && prt == T_COMMENT && prtExt == true {
+			if metLineTerm {
 				tok.afterLineTerm = true
 			}
 			l.state.pptVal = l.operandOrOperator(tok)
@@ -458,7 +459,8 @@ func (l *Lexer) lexTok() *Token {
 		}
 		prt = tok.value
 		prtAtm = tok.afterLineTerm
-		prtExt = tok.ext.(bool) // indicates whether the comment is multiline or not
+		multiline := tok.ext.(bool)
+		metLineTerm = metLineTerm || tok.afterLineTerm || multiline
 	}
 }
 
-- 
2.43.0


From 377162a038d1909631d714163b25c01a79402d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:24 +0000
Subject: [PATCH 168/191] fix: super, new.target, await and yield in computed
 class keys and nested functions follow the code around them

---
 ecma/parser/parser.go | 30 +++++++++++++++---------------
 ecma/parser/symtab.go | 15 +++++++++++++++
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 9aaf117..af4dcf7 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1151,7 +1151,7 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 	if p.lexer.Peek().value == T_EXTENDS {
 		p.lexer.Next()
 		kind := scope.Kind
-		scope.Kind = ps.Kind&^SPK_GLOBAL | SPK_STRICT | SPK_CLASS_EXTEND_SUPER
+		scope.Kind = ps.Kind&^(SPK_GLOBAL|SPK_CLASS|SPK_PROP_NAME) | SPK_STRICT | SPK_CLASS_EXTEND_SUPER
 		super, err = p.lhs(false)
 		if err != nil {
 			return nil, err
@@ -1684,7 +1684,11 @@ func (p *Parser) field(key Node, begin, static span.Range, accMod ACC_MOD, begin
 		if !abstract.Empty() {
 			return nil, p.errorAtLoc(assignLoc, ERR_ABSTRACT_PROP_WITH_INIT)
 		}
+		// the initializer is evaluated as if it's in a method
+		scope := p.scope()
+		scope.AddKind(SPK_METHOD)
 		value, err = p.assignExpr(true, false, false, false)
+		scope.EraseKind(SPK_METHOD)
 		if err != nil {
 			return nil, err
 		}
@@ -1752,7 +1756,7 @@ func (p *Parser) classElemName() (Node, span.Range, error) {
 }
 
 func (p *Parser) staticBlock(static span.Range) (Node, error) {
-	block, err := p.blockStmt(true, SPK_STATIC_BLOCK)
+	block, err := p.blockStmt(true, SPK_STATIC_BLOCK|SPK_METHOD)
 	if err != nil {
 		return nil, err
 	}
@@ -2688,7 +2692,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	if async != nil {
 		scope.AddKind(SPK_ASYNC)
 		if !fn {
-			scope.Kind |= ps.Kind & (SPK_CTOR | SPK_METHOD)
+			scope.Kind |= ps.Kind&(SPK_CTOR|SPK_METHOD) | SPK_ARROW
 		}
 	}
 	outerAsync := p.lexer.switchMode(LM_ASYNC, async != nil)
@@ -2750,7 +2754,6 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		if !fn {
 			arrowLoc = p.lexer.Next().rng
 			arrow = true
-			scope.AddKind(SPK_ARROW)
 		} else {
 			return nil, p.errorTok(tok)
 		}
@@ -3209,7 +3212,7 @@ func (p *Parser) blockStmt(newScope bool, scopeKind ScopeKind) (*BlockStmt, erro
 	var scope *Scope
 	if newScope {
 		// the vars in static block are local to that block
-		fn := scopeKind == SPK_TS_MODULE || scopeKind == SPK_STATIC_BLOCK
+		fn := scopeKind&(SPK_TS_MODULE|SPK_STATIC_BLOCK) != 0
 		scope = p.symtab.EnterScope(fn, false, true)
 		scope.AddKind(scopeKind)
 	}
@@ -3933,14 +3936,14 @@ func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (No
 		key = &NumLit{N_LIT_NUM, p.finRng(rng), span.Range{}}
 	} else if tv == T_BRACKET_L {
 		computeLoc = tok.rng
-		// only the class element names are prohibited to access the `super` of the class
+		// the computed names of the class elements belong to the code around the class, though in
+		// strict mode, they are prohibited to access the `super` of the class
+		kind := scope.Kind
 		if allowNamePVT {
-			scope.AddKind(SPK_PROP_NAME)
+			scope.Kind = scope.Up.Kind&^SPK_GLOBAL | SPK_STRICT | SPK_CLASS | SPK_PROP_NAME
 		}
 		name, err := p.assignExpr(true, false, false, false)
-		if allowNamePVT {
-			scope.EraseKind(SPK_PROP_NAME)
-		}
+		scope.Kind = kind
 		if err != nil {
 			return nil, span.Range{}, err
 		}
@@ -4659,9 +4662,7 @@ func (p *Parser) newExpr(callee bool) (Node, error) {
 		if id.val != "target" || id.containsEscape {
 			return nil, p.errorAtLoc(id.Range(), ERR_INVALID_META_PROP)
 		}
-		if !(scope.IsKind(SPK_CLASS) || scope.IsKind(SPK_CLASS_INDIRECT) ||
-			scope.IsKind(SPK_ARROW) && scope.IsKind(SPK_FUNC_INDIRECT) ||
-			(!scope.IsKind(SPK_ARROW) && (scope.IsKind(SPK_FUNC) || scope.IsKind(SPK_FUNC_INDIRECT)))) {
+		if !scope.HasNewTarget() {
 			return nil, p.errorAtLoc(rng, ERR_META_PROP_OUTSIDE_FN)
 		}
 
@@ -6011,8 +6012,7 @@ func (p *Parser) primaryExpr(notColon bool) (Node, error) {
 		sup := p.lexer.Next()
 
 		ahead := p.lexer.Peek()
-		if !scope.IsKind(SPK_CLASS) && !scope.IsKind(SPK_CLASS_INDIRECT) && !scope.IsKind(SPK_METHOD) ||
-			scope.IsKind(SPK_PROP_NAME) && !scope.IsKind(SPK_METHOD) {
+		if !scope.IsKind(SPK_METHOD) {
 			em := ERR_SUPER_OUTSIDE_CLASS
 			if ahead.value == T_PAREN_L {
 				em = ERR_SUPER_CALL_OUTSIDE_CTOR
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index f4c5e63..1aed965 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -206,6 +206,21 @@ func (s *Scope) UpperCls() *Scope {
 	return nil
 }
 
+// reports whether `new.target` is available in the scope
+func (s *Scope) HasNewTarget() bool {
+	for scope := s; scope != nil; scope = scope.Up {
+		if scope.IsKind(SPK_CLASS) {
+			// the computed names of the class elements belong to the code around the class
+			if !scope.IsKind(SPK_PROP_NAME) {
+				return true
+			}
+		} else if scope.IsKind(SPK_FUNC) && !scope.IsKind(SPK_ARROW) {
+			return true
+		}
+	}
+	return false
+}
+
 func (s *Scope) OuterFn() *Scope {
 	scope := s.OuterScope()
 	for scope != nil {
-- 
2.43.0


From e8633ab98888860a5a10881e054cb2d6d68fe31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:59 +0000
Subject: [PATCH 169/191] fix: whether await and yield can name a function
 depends on the function they name

---
 ecma/parser/parser.go | 11 ++++++++---
 ecma/parser/symtab.go | 14 ++++++++++++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index af4dcf7..bee7202 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2625,9 +2625,14 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 	}
 	tok := p.lexer.Peek()
 	fn := false
+	outerAsync := p.lexer.IsMode(LM_ASYNC)
 	if tok.value == T_FUNC {
 		fn = true
 		p.lexer.Next()
+		if expr {
+			// the name of the function expression belongs to that function
+			p.lexer.switchMode(LM_ASYNC, async != nil)
+		}
 	}
 
 	tok = p.lexer.Peek()
@@ -2642,8 +2647,8 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 
 	ps := p.scope()
 	idScope := ps
-	if !ps.IsKind(SPK_STRICT) {
-		idScope = ps.OuterFn()
+	if expr && fn {
+		idScope = idScope.nameScopeOfFnExpr(async != nil, generator)
 	}
 
 	var id Node
@@ -2695,7 +2700,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 			scope.Kind |= ps.Kind&(SPK_CTOR|SPK_METHOD) | SPK_ARROW
 		}
 	}
-	outerAsync := p.lexer.switchMode(LM_ASYNC, async != nil)
+	p.lexer.switchMode(LM_ASYNC, async != nil)
 	// 'yield' as function names
 	if generator {
 		p.scope().AddKind(SPK_GENERATOR)
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 1aed965..0f04ef9 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -206,6 +206,20 @@ func (s *Scope) UpperCls() *Scope {
 	return nil
 }
 
+// returns the scope to check the name of the function expression in `s` against, whether the
+// `await` and `yield` are reserved depends on that function instead of the one around it
+func (s *Scope) nameScopeOfFnExpr(async bool, generator bool) *Scope {
+	scope := *s
+	scope.EraseKind(SPK_ASYNC | SPK_GENERATOR)
+	if async {
+		scope.AddKind(SPK_ASYNC)
+	}
+	if generator {
+		scope.AddKind(SPK_GENERATOR)
+	}
+	return &scope
+}
+
 // reports whether `new.target` is available in the scope
 func (s *Scope) HasNewTarget() bool {
 	for scope := s; scope != nil; scope = scope.Up {
-- 
2.43.0


From 9a9738761cd9897af252c1eb1f9ace5e770f0309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:00 +0000
Subject: [PATCH 170/191] fix: keywords as private names, \8 in templates, CJK
 names above U+2B81F and escaped contextual words follow the grammar

---
 ecma/parser/lexer.go  | 37 ++++++++++++++++++++++++++-----------
 ecma/parser/parser.go |  4 ++--
 2 files changed, 28 insertions(+), 13 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index 7572047..da487b2 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -352,7 +352,7 @@ func (l *Lexer) readTokWithComment() *Token {
 
 	if !l.IsMode(LM_JSX) && !l.IsMode(LM_JSX_CHILD) {
 		if l.aheadIsIdStart() {
-			return l.readName(false)
+			return l.readName(false, false)
 		} else if l.aheadIsNumStart() {
 			return l.readNum()
 		} else if l.aheadIsStrStart() {
@@ -416,7 +416,7 @@ func (l *Lexer) readTokWithComment() *Token {
 			return l.finToken(tok, T_HYPHEN)
 		}
 		if l.aheadIsIdStart() {
-			return l.readName(true)
+			return l.readName(true, false)
 		}
 		return l.errTokMsg(l.newToken(), ERR_UNEXPECTED_TOKEN)
 	}
@@ -620,7 +620,8 @@ func (l *Lexer) readTplChs() (text []byte, fin bool, ofst, pos uint32, err strin
 }
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-lexical-grammar.html#prod-IdentifierName
-func (l *Lexer) readName(jsx bool) *Token {
+// `pvt` indicates whether the name is private, any keyword can be used as which
+func (l *Lexer) readName(jsx bool, pvt bool) *Token {
 	tok := l.newToken()
 
 	r, escapeInStart, err := l.readIdStart()
@@ -662,6 +663,16 @@ func (l *Lexer) readName(jsx bool) *Token {
 		tok.text = TokText(tok, l.src)
 	}
 
+	if !pvt {
+		if kw := l.keyword(tok, containsEscape); kw != nil {
+			return kw
+		}
+	}
+	return l.finToken(tok, T_NAME)
+}
+
+// finishes the `tok` if its text is a keyword in current mode
+func (l *Lexer) keyword(tok *Token, containsEscape bool) *Token {
 	text := tok.text
 	if IsKeyword(text) {
 		if containsEscape {
@@ -682,7 +693,7 @@ func (l *Lexer) readName(jsx bool) *Token {
 			return l.finToken(tok, T_AWAIT)
 		}
 	}
-	return l.finToken(tok, T_NAME)
+	return nil
 }
 
 func (l *Lexer) aheadIsRegexp() bool {
@@ -1255,6 +1266,13 @@ func (l *Lexer) readEscapeSeq(tpl bool) (r rune, errMsg string, octalEscapeSeq b
 		r, errMsg, i = l.readOctalEscapeSeq(c, tpl)
 		octalEscapeSeq = r != 0 || i != 1 || IsDecimalDigit(l.src.Peek())
 		return
+	case '8', '9':
+		r = c
+		if tpl {
+			octalEscapeSeq = true
+			errMsg = ERR_TPL_LEGACY_OCTAL_ESCAPE_IN
+		}
+		return
 	case 'x':
 		r, errMsg = l.readHexEscapeSeq()
 		return
@@ -1351,7 +1369,7 @@ func (l *Lexer) readNamePvt() *Token {
 	if !l.aheadIsIdStart() {
 		return l.errTokMsg(l.newToken(), ERR_UNEXPECTED_CHAR)
 	}
-	tok := l.readName(false)
+	tok := l.readName(false, true)
 	tok.rng.Lo = ofst
 	if tok.value != T_NAME {
 		return tok
@@ -1919,12 +1937,9 @@ func IsIdStart(c rune) bool {
 		return true
 	}
 
-	// CJK Unified Ideographs Extension D(U+2B740 to U+2B81F) is in `Lo`
-	// but not permitted as the id start
-	if unicode.In(c, unicode.Lo) && c <= 0x2B81D {
-		return true
-	}
-	return false
+	// the code points U+2B81E and U+2B81F at the end of CJK Unified Ideographs Extension D
+	// are not assigned
+	return unicode.In(c, unicode.Lo) && c != 0x2B81E && c != 0x2B81F
 }
 
 func IsIdPart(c rune) bool {
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index bee7202..296c0be 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2417,7 +2417,7 @@ func (p *Parser) forStmt() (Node, error) {
 			return nil, p.errorAt(T_IN, tok.rng, "")
 		}
 		return nil, p.errorTok(tok)
-	} else if isOf && !await && init.Type() == N_NAME && init.(*Ident).val == "async" {
+	} else if isOf && !await && init.Type() == N_NAME && init.(*Ident).val == "async" && !init.(*Ident).containsEscape {
 		return nil, p.errorAtLoc(init.Range(), ERR_LHS_OF_FOR_OF_CANNOT_ASYNC)
 	}
 
@@ -3250,7 +3250,7 @@ func (p *Parser) aheadIsVarDec(tok *Token) (bool, TokenValue) {
 		var ok bool
 		var v TokenValue
 
-		if tok.value == T_LET || tok.value == T_CONST {
+		if (tok.value == T_LET || tok.value == T_CONST) && !tok.ContainsEscape() {
 			ok = true
 			v = tok.value
 		} else if IsName(tok, "let", false) {
-- 
2.43.0


From 217ce45fd9ddc76565443ed551ca0cd4a4b59629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:51 +0000
Subject: [PATCH 171/191] fix: functions hoisted out of blocks do not conflict
 with or replace lexical declarations

---
 ecma/parser/symtab.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 0f04ef9..8e81b55 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -321,7 +321,11 @@ func (s *Scope) AddLocal(ref *Ref, name string, checkDup bool) bool {
 				(localInPs.Scope.Id == 0 && localInPs.Typ == RDT_FN && localInPs.BindKind != BK_VAR)) {
 			return CheckRefDup(localInPs, ref)
 		}
-		ps.Refs[name] = ref
+		// fns in blocks do not take the place of the lexical declarations around them
+		hoisted := s != ps && ref.Typ&RDT_FN != 0
+		if !(hoisted && localInPs != nil && (localInPs.BindKind == BK_LET || localInPs.BindKind == BK_CONST)) {
+			ps.Refs[name] = ref
+		}
 
 		// keep the param being visible in the catch clause
 		if cur.IsKind(SPK_CATCH) && local != nil && local.BindKind == BK_PARAM {
@@ -337,6 +341,10 @@ func (s *Scope) AddLocal(ref *Ref, name string, checkDup bool) bool {
 	}
 
 	bindKind := ref.BindKind
+	// `{ function a() {} } let a` is legal
+	if local != nil && local.Typ == RDT_FN && local.BindKind == BK_VAR && local.Scope != s && local.Scope != nil {
+		local = nil
+	}
 	if local != nil && ((local.BindKind != BK_VAR && local.BindKind != BK_PARAM && local.Typ != RDT_FN && local.Scope.Id != 0) ||
 		bindKind != BK_VAR) {
 		return CheckRefDup(local, ref)
-- 
2.43.0


From df5310178bdfc10df606099239e14c3f3f93a9d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:06 +0000
Subject: [PATCH 172/191] fix: names and patterns that the grammar reserves are
 rejected however they are spelled

---
 ecma/parser/errors.go |  1 +
 ecma/parser/parser.go | 21 +++++++++++++++------
 ecma/parser/symtab.go |  4 ++--
 3 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/ecma/parser/errors.go b/ecma/parser/errors.go
index f0bf8d1..a0f3896 100644
--- a/ecma/parser/errors.go
+++ b/ecma/parser/errors.go
@@ -138,6 +138,7 @@ const (
 	ERR_CTOR_CANNOT_BE_ASYNC                       = "Constructor can't be a async"
 	ERR_CTOR_CANNOT_BE_Field                       = "Classes can't have a field named `constructor`"
 	ERR_CTOR_DUP                                   = "Duplicate constructor in the same class"
+	ERR_PVT_CTOR                                   = "Classes can't have an element named `#constructor`"
 	ERR_COMPUTE_PROP_MISSING_INIT                  = "A computed property name must have property initialization"
 	ERR_IMPORT_EXPORT_SHOULD_AT_TOP_LEVEL          = "'import' and 'export' may only appear at the top level"
 	ERR_COMPLEX_BINDING_MISSING_INIT               = "Complex binding patterns require an initialization value"
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 296c0be..c767ddf 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -937,6 +937,9 @@ func (p *Parser) importDec() (Node, error) {
 			s := spec.(*ImportSpec)
 			ref := NewRef()
 			ref.Id = s.local.(*Ident)
+			if p.isProhibitedName(nil, ref.Id.val, true, true, false, false) {
+				return nil, p.errorAtLoc(ref.Id.rng, fmt.Sprintf(ERR_TPL_BINDING_RESERVED_WORD, ref.Id.val))
+			}
 			ref.Dec = node
 			ref.BindKind = BK_CONST
 			ref.Typ = RDT_IMPORT
@@ -1108,6 +1111,9 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 			if err != nil {
 				return nil, err
 			}
+			if name := id.(*Ident).val; p.isProhibitedName(ps, name, true, true, false, true) {
+				return nil, p.errorAtLoc(id.Range(), fmt.Sprintf(ERR_TPL_BINDING_RESERVED_WORD, name))
+			}
 		}
 
 		if ti != nil {
@@ -1261,7 +1267,7 @@ func (p *Parser) classBody(declare bool, hasSuper bool) (Node, error) {
 		if elem.Type() == N_METHOD {
 			m := elem.(*Method)
 			// `!m.Declare` is used to skip the constructor overloads
-			if !m.Declare() && !m.static && !m.computed && p.isName(m.key, "constructor", false, true) {
+			if !m.Declare() && !m.static && !m.computed && p.isName(m.key, "constructor", true, true) {
 				if hasCtor {
 					return nil, p.errorAtLoc(m.key.Range(), ERR_CTOR_DUP)
 				}
@@ -1274,6 +1280,9 @@ func (p *Parser) classBody(declare bool, hasSuper bool) (Node, error) {
 			}
 		}
 		if name, key, pvt := p.nameOfProp(elem); pvt {
+			if p.isName(key, "constructor", true, false) {
+				return nil, p.errorAtLoc(key.Range(), ERR_PVT_CTOR)
+			}
 			dup := true
 			if prev, ok := pvtNames[name]; ok {
 				// a pair of getter/setter is valid
@@ -1732,9 +1741,9 @@ func (p *Parser) field(key Node, begin, static span.Range, accMod ACC_MOD, begin
 	isStatic := !static.Empty()
 	if !compute.Empty() {
 		// the computed name is unknown until runtime
-	} else if isStatic && p.isName(key, "prototype", false, true) {
+	} else if isStatic && p.isName(key, "prototype", true, true) {
 		return nil, p.errorAtLoc(key.Range(), ERR_STATIC_PROP_PROTOTYPE)
-	} else if p.isName(key, "constructor", false, true) {
+	} else if p.isName(key, "constructor", true, true) {
 		return nil, p.errorAtLoc(key.Range(), ERR_CTOR_CANNOT_BE_Field)
 	}
 
@@ -4346,7 +4355,7 @@ func (p *Parser) isSimpleLVal(expr Node, pat bool, inParen bool, member bool, op
 			return false
 		}
 	case N_PAT_OBJ, N_PAT_ARRAY, N_LIT_ARR, N_LIT_OBJ:
-		if optAssign {
+		if optAssign || inParen {
 			return false
 		}
 		return pat
@@ -6503,7 +6512,7 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 	p.incRetsStk()
 
 	ctor := false
-	if inclass && !static && p.isName(key, "constructor", false, true) && compute.Empty() {
+	if inclass && !static && p.isName(key, "constructor", true, true) && compute.Empty() {
 		if kind == PK_GETTER || kind == PK_SETTER {
 			return nil, p.errorAtLoc(key.Range(), ERR_CTOR_CANNOT_HAVE_MODIFIER)
 		} else if async {
@@ -6641,7 +6650,7 @@ func (p *Parser) method(rng span.Range, key Node, accMode ACC_MOD, compute span.
 	}
 
 	if inclass {
-		if static && compute.Empty() && p.isName(key, "prototype", false, true) {
+		if static && compute.Empty() && p.isName(key, "prototype", true, true) {
 			return nil, p.errorAtLoc(key.Range(), ERR_STATIC_PROP_PROTOTYPE)
 		}
 
diff --git a/ecma/parser/symtab.go b/ecma/parser/symtab.go
index 8e81b55..f269362 100644
--- a/ecma/parser/symtab.go
+++ b/ecma/parser/symtab.go
@@ -321,9 +321,9 @@ func (s *Scope) AddLocal(ref *Ref, name string, checkDup bool) bool {
 				(localInPs.Scope.Id == 0 && localInPs.Typ == RDT_FN && localInPs.BindKind != BK_VAR)) {
 			return CheckRefDup(localInPs, ref)
 		}
-		// fns in blocks do not take the place of the lexical declarations around them
+		// fns in blocks do not take the place of the declarations around them
 		hoisted := s != ps && ref.Typ&RDT_FN != 0
-		if !(hoisted && localInPs != nil && (localInPs.BindKind == BK_LET || localInPs.BindKind == BK_CONST)) {
+		if !hoisted || localInPs == nil || localInPs.Typ == RDT_FN && localInPs.BindKind == BK_VAR && localInPs.Scope != ps {
 			ps.Refs[name] = ref
 		}
 
-- 
2.43.0


From 0afd138ccc7e30eab53c1b07a259efdd9c282165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:01 +0000
Subject: [PATCH 173/191] fix: private names are free to be any name other than
 #constructor

---
 ecma/parser/parser.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index c767ddf..15353c9 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1280,7 +1280,7 @@ func (p *Parser) classBody(declare bool, hasSuper bool) (Node, error) {
 			}
 		}
 		if name, key, pvt := p.nameOfProp(elem); pvt {
-			if p.isName(key, "constructor", true, false) {
+			if key.(*Ident).val == "constructor" {
 				return nil, p.errorAtLoc(key.Range(), ERR_PVT_CTOR)
 			}
 			dup := true
@@ -1619,6 +1619,9 @@ func (p *Parser) isName(node Node, name string, canContainsEscape bool, str bool
 		ns = s.val
 	} else if nv == N_NAME {
 		id := node.(*Ident)
+		if id.pvt {
+			return false
+		}
 		ns = id.val
 		hasEscape = id.containsEscape
 	}
@@ -1743,7 +1746,7 @@ func (p *Parser) field(key Node, begin, static span.Range, accMod ACC_MOD, begin
 		// the computed name is unknown until runtime
 	} else if isStatic && p.isName(key, "prototype", true, true) {
 		return nil, p.errorAtLoc(key.Range(), ERR_STATIC_PROP_PROTOTYPE)
-	} else if p.isName(key, "constructor", true, true) {
+	} else if p.isName(key, "constructor", true, true) || key.Type() == N_NAME && key.(*Ident).val == "constructor" {
 		return nil, p.errorAtLoc(key.Range(), ERR_CTOR_CANNOT_BE_Field)
 	}
 
-- 
2.43.0


From a5183d9b8d66bde297150d522f3f48b2a045bb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:44 +0000
Subject: [PATCH 174/191] fix: functions are accepted as branches of if and
 rejected as labelled or with bodies; let in is an expression

---
 ecma/parser/parser.go | 59 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 10 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 15353c9..2d9eede 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1813,6 +1813,12 @@ func (p *Parser) withStmt() (Node, error) {
 	if p.scope().IsKind(SPK_STRICT) {
 		return nil, p.errorAtLoc(p.finRng(rng), ERR_WITH_STMT_IN_STRICT)
 	}
+	if body.Type() == N_STMT_FN {
+		return nil, p.errorAtLoc(body.Range(), ERR_FN_IN_SINGLE_STMT_CTX)
+	}
+	if err := p.checkLabelledFn(body); err != nil {
+		return nil, err
+	}
 
 	return &WithStmt{N_STMT_WITH, p.finRng(rng), expr, body}, nil
 }
@@ -2250,12 +2256,8 @@ func (p *Parser) ifStmt() (Node, error) {
 		return nil, err
 	}
 
-	scope := p.scope()
 	tok := p.lexer.PeekStmtBegin()
-
-	scope.AddKind(SPK_INTERIM)
-	cons, err := p.stmt()
-	scope.EraseKind(SPK_INTERIM)
+	cons, err := p.ifBranch()
 
 	if err != nil {
 		if err == errEof {
@@ -2269,10 +2271,7 @@ func (p *Parser) ifStmt() (Node, error) {
 		p.lexer.Next()
 		tok := p.lexer.PeekStmtBegin()
 
-		scope.AddKind(SPK_INTERIM)
-		alt, err = p.stmt()
-		scope.EraseKind(SPK_INTERIM)
-
+		alt, err = p.ifBranch()
 		if err != nil {
 			if err == errEof {
 				return nil, p.errorTok(tok)
@@ -2283,6 +2282,45 @@ func (p *Parser) ifStmt() (Node, error) {
 	return &IfStmt{N_STMT_IF, p.finRng(rng), test, cons, alt}, nil
 }
 
+func (p *Parser) ifBranch() (Node, error) {
+	scope := p.scope()
+	kind := scope.Kind
+	if scope.IsKind(SPK_LOOP_DIRECT) {
+		// the fn is permitted here even if the `if` is the body of the loop
+		scope.EraseKind(SPK_LOOP_DIRECT).AddKind(SPK_LOOP_INDIRECT)
+	}
+	scope.AddKind(SPK_INTERIM)
+	node, err := p.stmt()
+	if kind&SPK_LOOP_DIRECT != 0 {
+		scope.AddKind(SPK_LOOP_DIRECT)
+		if kind&SPK_LOOP_INDIRECT == 0 {
+			scope.EraseKind(SPK_LOOP_INDIRECT)
+		}
+	}
+	scope.EraseKind(SPK_INTERIM)
+	if err != nil {
+		return nil, err
+	}
+	if err := p.checkLabelledFn(node); err != nil {
+		return nil, err
+	}
+	return node, nil
+}
+
+// `if (a) b: function c() {}` is illegal
+func (p *Parser) checkLabelledFn(node Node) error {
+	if node == nil || node.Type() != N_STMT_LABEL {
+		return nil
+	}
+	for node.Type() == N_STMT_LABEL {
+		node = node.(*LabelStmt).body
+	}
+	if node.Type() == N_STMT_FN {
+		return p.errorAtLoc(node.Range(), ERR_FN_IN_SINGLE_STMT_CTX)
+	}
+	return nil
+}
+
 // https://tc39.es/ecma262/multipage/ecmascript-language-statements-and-declarations.html#prod-DoWhileStatement
 func (p *Parser) doWhileStmt() (Node, error) {
 	rng := p.rng()
@@ -3289,7 +3327,8 @@ func (p *Parser) aheadIsVarDec(tok *Token) (bool, TokenValue) {
 		av := ahead.value
 		// a newline ends `let` only where a declaration is not permitted: `if (1) let\n{}`
 		nl := ahead.afterLineTerm && p.scope().IsKind(SPK_INTERIM)
-		if !nl && (av == T_NAME ||
+		// `let in a` is an expression
+		if !nl && (av == T_NAME && !IsName(ahead, "in", false) ||
 			(av > T_CTX_KEYWORD_BEGIN && av < T_CTX_KEYWORD_END) ||
 			av == T_BRACE_L || av == T_BRACKET_L) {
 			return true, v
-- 
2.43.0


From 23e007d1fe8910214f995c8fdf352a8dd7dec8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:19 +0000
Subject: [PATCH 175/191] fix: only names can be shorthand properties

---
 ecma/parser/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 2d9eede..284f82d 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5559,6 +5559,9 @@ func (p *Parser) checkArg(arg Node, spread bool, simplicity bool) error {
 			if err != nil {
 				return err
 			}
+		} else if n.key.Type() != N_NAME {
+			// only the names can be shorthand
+			return p.errorAtLoc(n.rng, ERR_UNEXPECTED_TOKEN)
 		}
 	case N_PAT_REST, N_SPREAD:
 		if !spread {
@@ -6253,6 +6256,9 @@ func (p *Parser) parenExpr(typArgs Node, notColon bool) (Node, error) {
 		return nil, p.errorAt(p.lexer.state.prtVal, p.lexer.state.prtRng, "")
 	}
 
+	if argsLen == 1 && ahead.value == T_ASSIGN && args[0].Type() == N_LIT_OBJ {
+		return nil, p.errorAtLoc(rng, ERR_INVALID_PAREN_ASSIGN_PATTERN)
+	}
 	if err := p.checkArgs(args, false, true); err != nil {
 		return nil, err
 	}
@@ -6462,6 +6468,10 @@ func (p *Parser) propData() (Node, error) {
 		return nil, p.errorAt(tok.value, tok.rng, ERR_COMPUTE_PROP_MISSING_INIT)
 	}
 
+	if assign && !compute.Empty() {
+		return nil, p.errorAtLoc(loc, ERR_UNEXPECTED_TOKEN)
+	}
+
 	shorthand := assign
 	if value == nil && key.Type() == N_NAME {
 		id := key.(*Ident)
-- 
2.43.0


From a5c3b4d82c9b88d14b62ac28f52f8a7abaef7c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:06 +0000
Subject: [PATCH 176/191] fix: let [ begins a declaration whatever is in
 between

---
 ecma/parser/parser.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 284f82d..fb53836 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -3330,7 +3330,7 @@ func (p *Parser) aheadIsVarDec(tok *Token) (bool, TokenValue) {
 		// `let in a` is an expression
 		if !nl && (av == T_NAME && !IsName(ahead, "in", false) ||
 			(av > T_CTX_KEYWORD_BEGIN && av < T_CTX_KEYWORD_END) ||
-			av == T_BRACE_L || av == T_BRACKET_L) {
+			av == T_BRACE_L) || av == T_BRACKET_L {
 			return true, v
 		}
 	}
-- 
2.43.0


From 2cd7a54fc559fe988a2057c326c230eaf54c1933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:14 +0000
Subject: [PATCH 177/191] fix: in is allowed in computed class keys within the
 heads of loops

---
 ecma/parser/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index fb53836..23e72a3 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1157,7 +1157,7 @@ func (p *Parser) classDec(expr bool, canNameOmitted bool, declare bool, abstract
 	if p.lexer.Peek().value == T_EXTENDS {
 		p.lexer.Next()
 		kind := scope.Kind
-		scope.Kind = ps.Kind&^(SPK_GLOBAL|SPK_CLASS|SPK_PROP_NAME) | SPK_STRICT | SPK_CLASS_EXTEND_SUPER
+		scope.Kind = ps.Kind&^(SPK_GLOBAL|SPK_CLASS|SPK_PROP_NAME|SPK_NOT_IN|SPK_LEXICAL_DEC|SPK_INTERIM) | SPK_STRICT | SPK_CLASS_EXTEND_SUPER
 		super, err = p.lhs(false)
 		if err != nil {
 			return nil, err
@@ -3996,7 +3996,7 @@ func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (No
 		// strict mode, they are prohibited to access the `super` of the class
 		kind := scope.Kind
 		if allowNamePVT {
-			scope.Kind = scope.Up.Kind&^SPK_GLOBAL | SPK_STRICT | SPK_CLASS | SPK_PROP_NAME
+			scope.Kind = scope.Up.Kind&^(SPK_GLOBAL|SPK_NOT_IN|SPK_LEXICAL_DEC|SPK_INTERIM) | SPK_STRICT | SPK_CLASS | SPK_PROP_NAME
 		}
 		name, err := p.assignExpr(true, false, false, false)
 		scope.Kind = kind
-- 
2.43.0


From 5e496d52a8a188fcdde7983139da7425d27fe2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:52 +0000
Subject: [PATCH 178/191] fix: arrow functions are not operands of await

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 23e72a3..f7439b4 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4518,6 +4518,9 @@ func (p *Parser) awaitExpr(tok *Token) (Node, error) {
 	if err != nil {
 		return nil, err
 	}
+	if arg.Type() == N_EXPR_ARROW {
+		return nil, p.errorAtLoc(arg.Range(), ERR_MALFORMED_ARROW_PARAM)
+	}
 	if err := p.checkOperand(arg); err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 0cae692409a53c9bc77ba95f72665a8d64dacb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:03 +0000
Subject: [PATCH 179/191] fix: what is spread follows the rules of expressions

---
 ecma/parser/parser.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index f7439b4..1089674 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -5570,6 +5570,9 @@ func (p *Parser) checkArg(arg Node, spread bool, simplicity bool) error {
 		if !spread {
 			return p.errorAtLoc(arg.Range(), ERR_UNEXPECTED_TOKEN)
 		}
+		if n, ok := arg.(*Spread); ok {
+			return p.checkOperand(n.arg)
+		}
 	case N_EXPR_ASSIGN:
 		if simplicity {
 			n := arg.(*AssignExpr)
-- 
2.43.0


From aead7dd7dbadfbdae0f3881ed40c7b9ae27893aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:44 +0000
Subject: [PATCH 180/191] fix: decorators are not the body of another statement

---
 ecma/parser/parser.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 1089674..d74221f 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -423,6 +423,10 @@ func (p *Parser) stmt() (node Node, err error) {
 		if err != nil {
 			return nil, err
 		}
+		if !allowDec {
+			// the class they decorate cannot be the body of another stmt
+			return nil, p.errorAtLoc(ds[0].Range(), ERR_DECORATOR_INVALID_POSITION)
+		}
 		p.hangingDecorators = ds
 		checkHangingDec = false
 	} else if tok.value == T_SEMI {
-- 
2.43.0


From 31cc6ba3ded49ab5c54b3a19cc3d2d14bc1d29b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:22 +0000
Subject: [PATCH 181/191] fix: the contextual keywords of TypeScript
 declarations are identifiers elsewhere

---
 ecma/parser/ts.go | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 968018d..5b1a79d 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -1854,12 +1854,25 @@ func (p *Parser) tsCallSig(typParams Node, rng span.Range, kind PropKind) (Node,
 	return &TsCallSig{N_TS_CALL_SIG, p.finRng(rng), typParams, params, typAnnot}, nil
 }
 
+// whether `ahead` continues the declaration begun by a contextual keyword such as `type` or `namespace`,
+// that keyword is just an identifier if it does not
+func (p *Parser) aheadIsDecName(ahead *Token) bool {
+	if ahead.afterLineTerm || IsName(ahead, "in", false) {
+		return false
+	}
+	return ahead.value == T_NAME || (ahead.IsKw() && ahead.value != T_IN && ahead.value != T_INSTANCE_OF)
+}
+
 func (p *Parser) aheadIsTsTypDec(tok *Token, asterisk bool) bool {
 	if !p.ts || tok.value != T_NAME || tok.text != "type" || tok.ContainsEscape() {
 		return false
 	}
 	ahead := p.lexer.Peek2nd()
-	return !ahead.afterLineTerm && (ahead.Kind().StartExpr || asterisk && ahead.value == T_MUL)
+	if p.aheadIsDecName(ahead) {
+		return true
+	}
+	av := ahead.value
+	return !ahead.afterLineTerm && (av == T_BRACE_L || av == T_STRING || asterisk && av == T_MUL)
 }
 
 func (p *Parser) tsTypDec(rng span.Range, skipDec bool) (Node, error) {
@@ -2180,7 +2193,10 @@ func (p *Parser) aheadIsTsNS(tok *Token) bool {
 	}
 	str := tok.text
 	ahead := p.lexer.Peek2nd()
-	return (str == "namespace" || str == "as") && !ahead.afterLineTerm
+	if str == "as" {
+		return !ahead.afterLineTerm && IsName(ahead, "namespace", false)
+	}
+	return str == "namespace" && p.aheadIsDecName(ahead)
 }
 
 func (p *Parser) tsNS() (Node, error) {
@@ -2205,6 +2221,9 @@ func (p *Parser) tsNS() (Node, error) {
 			return nil, err
 		}
 	} else {
+		if name.Type() != N_NAME {
+			return nil, p.errorAtLoc(name.Range(), ERR_UNEXPECTED_TOKEN)
+		}
 		p.advanceIfSemi(false)
 	}
 
@@ -2264,8 +2283,7 @@ func (p *Parser) aheadIsTsDec(tok *Token) bool {
 	if !p.ts || tok.value != T_NAME || tok.text != "declare" {
 		return false
 	}
-	ahead := p.lexer.Peek2nd()
-	return !ahead.afterLineTerm
+	return p.aheadIsDecName(p.lexer.Peek2nd())
 }
 
 func (p *Parser) aheadIsModDec(tok *Token) bool {
@@ -2274,7 +2292,10 @@ func (p *Parser) aheadIsModDec(tok *Token) bool {
 	}
 	str := tok.text
 	ahead := p.lexer.Peek2nd()
-	return (str == "module" || str == "global") && !ahead.afterLineTerm
+	if str == "global" {
+		return !ahead.afterLineTerm && ahead.value == T_BRACE_L
+	}
+	return str == "module" && (p.aheadIsDecName(ahead) || !ahead.afterLineTerm && ahead.value == T_STRING)
 }
 
 func (p *Parser) tsModDec() (*TsDec, error) {
@@ -2446,8 +2467,7 @@ func (p *Parser) tsAheadIsAbstract(tok *Token, prop bool, pvt bool, new bool) (b
 		if av == T_CLASS ||
 			av == T_INTERFACE ||
 			(new && av == T_NEW) ||
-			(p.aheadIsArgList(ahead) && !prop) ||
-			av == T_MUL {
+			(prop && av == T_MUL) {
 			return true, av == T_INTERFACE, av == T_NEW
 		}
 		_, canProp := ahead.CanBePropKey()
@@ -2458,6 +2478,9 @@ func (p *Parser) tsAheadIsAbstract(tok *Token, prop bool, pvt bool, new bool) (b
 			return true, false, false
 		}
 		if av == T_NAME {
+			if !prop && IsName(ahead, "in", false) {
+				return false, false, false
+			}
 			if p.scope().IsKind(SPK_NOT_IN) && (IsName(ahead, "in", false) || IsName(ahead, "of", false)) {
 				return false, false, false
 			}
-- 
2.43.0


From 56ad97cafa79cf9f33d5b3703e4b98179a0c198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:13:50 +0000
Subject: [PATCH 182/191] fix: a colon after the test of a case or a branch of
 a conditional does not start a type annotation

---
 ecma/parser/parser.go | 33 ++++++++++++++++++++-------------
 ecma/parser/ts.go     |  2 +-
 2 files changed, 21 insertions(+), 14 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index d74221f..d6036f4 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2215,7 +2215,8 @@ func (p *Parser) switchCase(tok *Token) (*SwitchCase, error) {
 	var test Node
 	var err error
 	if tok.value == T_CASE {
-		test, err = p.expr()
+		// the colon after the test is not the leading of a typAnnot
+		test, err = p.seqExpr(nil, false, true)
 		if err != nil {
 			return nil, err
 		}
@@ -2925,7 +2926,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 				return nil, err
 			}
 
-			seq, err := p.seqExpr(binExpr, false)
+			seq, err := p.seqExpr(binExpr, false, false)
 			if err != nil {
 				return nil, err
 			}
@@ -2997,7 +2998,7 @@ func (p *Parser) fnDec(expr bool, async *Token, canNameOmitted bool) (Node, erro
 		if expr {
 			return fn, nil
 		}
-		seq, err := p.seqExpr(fn, false)
+		seq, err := p.seqExpr(fn, false, false)
 		if err != nil {
 			return nil, err
 		}
@@ -4002,7 +4003,8 @@ func (p *Parser) propName(allowNamePVT bool, maybeMethod bool, tsRough bool) (No
 		if allowNamePVT {
 			scope.Kind = scope.Up.Kind&^(SPK_GLOBAL|SPK_NOT_IN|SPK_LEXICAL_DEC|SPK_INTERIM) | SPK_STRICT | SPK_CLASS | SPK_PROP_NAME
 		}
-		name, err := p.assignExpr(true, false, false, false)
+		// it may be the param of an index signature
+		name, err := p.assignExprOrParam(true, false, false, false, true)
 		scope.Kind = kind
 		if err != nil {
 			return nil, span.Range{}, err
@@ -4226,14 +4228,14 @@ func (p *Parser) exprStmt() (Node, error) {
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-expressions.html#prod-Expression
 func (p *Parser) expr() (Node, error) {
-	return p.seqExpr(nil, false)
+	return p.seqExpr(nil, false, false)
 }
 
 // `notGT` is `true` tells the later subroutine does NOT treat the `>` symbol as the greatThen operator
-func (p *Parser) seqExpr(expr Node, notGT bool) (Node, error) {
+func (p *Parser) seqExpr(expr Node, notGT bool, notColon bool) (Node, error) {
 	var err error
 	if expr == nil {
-		expr, err = p.assignExpr(true, notGT, false, false)
+		expr, err = p.assignExpr(true, notGT, false, notColon)
 		if err != nil {
 			return nil, err
 		}
@@ -4253,7 +4255,7 @@ func (p *Parser) seqExpr(expr Node, notGT bool) (Node, error) {
 		tok := p.lexer.Peek()
 		if tok.value == T_COMMA {
 			p.lexer.Next()
-			expr, err = p.assignExpr(true, notGT, false, false)
+			expr, err = p.assignExpr(true, notGT, false, notColon)
 			if err != nil {
 				return nil, err
 			}
@@ -4313,6 +4315,11 @@ func (p *Parser) yieldExpr() (Node, error) {
 
 // https://tc39.es/ecma262/multipage/ecmascript-language-expressions.html#prod-AssignmentExpression
 func (p *Parser) assignExpr(checkLhs bool, notGT bool, notHook bool, notColon bool) (Node, error) {
+	return p.assignExprOrParam(checkLhs, notGT, notHook, notColon, false)
+}
+
+// `param` indicates whether the expr maybe a param of an arrow fn, so it can have a type annotation
+func (p *Parser) assignExprOrParam(checkLhs bool, notGT bool, notHook bool, notColon bool, param bool) (Node, error) {
 	if p.aheadIsYield() {
 		return p.yieldExpr()
 	}
@@ -4323,7 +4330,7 @@ func (p *Parser) assignExpr(checkLhs bool, notGT bool, notHook bool, notColon bo
 	}
 	rng := lhs.Range()
 
-	if !notColon && p.tsExprHasTypAnnot(lhs) {
+	if param && p.tsExprHasTypAnnot(lhs) {
 		ques, _ := p.tsAdvanceHook(false)
 		typAnnot, err := p.tsTypAnnot()
 		if err != nil {
@@ -4352,7 +4359,7 @@ func (p *Parser) assignExpr(checkLhs bool, notGT bool, notHook bool, notColon bo
 	op := assign.value
 	opLoc := assign.rng
 
-	rhs, err := p.assignExpr(checkLhs, notGT, false, false)
+	rhs, err := p.assignExpr(checkLhs, notGT, false, notColon)
 	if err != nil {
 		return nil, err
 	}
@@ -5729,7 +5736,7 @@ func (p *Parser) arg() (Node, error) {
 	if p.lexer.Peek().value == T_DOT_TRI {
 		return p.spread()
 	}
-	return p.assignExpr(false, false, false, false)
+	return p.assignExprOrParam(false, false, false, false, true)
 }
 
 func (p *Parser) checkOp(tok *Token) error {
@@ -6353,7 +6360,7 @@ func (p *Parser) arrElem() (Node, error) {
 	if p.lexer.Peek().value == T_DOT_TRI {
 		return p.spread()
 	}
-	return p.assignExpr(true, false, false, false)
+	return p.assignExprOrParam(true, false, false, false, true)
 }
 
 func (p *Parser) spread() (Node, error) {
@@ -6364,7 +6371,7 @@ func (p *Parser) spread() (Node, error) {
 		return nil, p.errorTok(tok)
 	}
 
-	node, err := p.assignExpr(true, false, false, false)
+	node, err := p.assignExprOrParam(true, false, false, false, true)
 	if err != nil {
 		return nil, err
 	}
diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 5b1a79d..15713b2 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -1657,7 +1657,7 @@ func (p *Parser) tsTryTypArgsAfterAsync(asyncLoc span.Range) (Node, error) {
 		return nil, err
 	}
 	ltRng := binExpr.(*BinExpr).opLoc
-	seq, err := p.seqExpr(binExpr, true)
+	seq, err := p.seqExpr(binExpr, true, false)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From b6490ba7f9e499c8074fe3f55c34b5897170e08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:35 +0000
Subject: [PATCH 183/191] fix: what cannot be type arguments is a comparison or
 a shift

---
 ecma/parser/lexer.go  | 24 ++++++++++++++----------
 ecma/parser/parser.go | 16 ++++++++++++++++
 ecma/parser/ts.go     | 24 ++++++++++++++++++++++++
 3 files changed, 54 insertions(+), 10 deletions(-)

diff --git a/ecma/parser/lexer.go b/ecma/parser/lexer.go
index da487b2..4c0a7b6 100644
--- a/ecma/parser/lexer.go
+++ b/ecma/parser/lexer.go
@@ -264,7 +264,9 @@ func (l *Lexer) PrevTokRng() span.Range {
 }
 
 func (l *Lexer) PushState() {
-	l.ss = append(l.ss, l.state)
+	state := l.state
+	state.mode = append([]LexerMode{}, l.state.mode...)
+	l.ss = append(l.ss, state)
 }
 
 func (l *Lexer) DiscardState() {
@@ -734,7 +736,14 @@ func (l *Lexer) revisePeekedLsh() {
 		return
 	}
 	tok.value = T_LSH
-	l.lexTok() // advance the second `<`
+	tb := &l.state.tb
+	if tb.len > 1 {
+		// the second `<` is peeked
+		tb.len = 1
+		tb.w = tb.incR()
+	} else {
+		l.lexTok() // advance the second `<`
+	}
 }
 
 func (l *Lexer) readSymbol() *Token {
@@ -830,14 +839,9 @@ func (l *Lexer) readSymbol() *Token {
 		} else if l.src.AheadIsCh('<') {
 			c := l.src.Ahead2nd()
 			spaceAhead := unicode.IsSpace(c)
-			if !spaceAhead && (l.IsMode(LM_TS) || l.IsMode(LM_TS_TYP_ARG)) {
-				// prev is lsh, here just advance the second `<` of lsh operator
-				if l.lsh(ofst) {
-					val = T_LT
-				} else if !l.maybeLsh(ofst) {
-					l.maybeLshPos[ofst] = true
-					val = T_LT
-				}
+			if !spaceAhead && c != '=' && !l.lsh(ofst) && (l.IsMode(LM_TS) || l.IsMode(LM_TS_TYP_ARG)) {
+				l.maybeLshPos[ofst] = true
+				val = T_LT
 			} else {
 				l.src.Read()
 				if l.src.AheadIsCh('=') {
diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index d6036f4..752aabe 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -42,6 +42,7 @@ type Parser struct {
 
 	// the parsed decorators but have not been attached to the target nodes
 	hangingDecorators []Node
+	inDecorator       bool
 
 	// a temporary stack which holds the loop nodes in their lexical order
 	loopStk []Node
@@ -4865,6 +4866,15 @@ func (p *Parser) popState() {
 	p.lexer.PopState()
 }
 
+// handles the `<` at given position as an operator or as the beginning of an operator
+func (p *Parser) ltAsOp(ofst uint32) {
+	if p.lexer.maybeLsh(ofst) {
+		p.lexer.tryLsh(ofst)
+	} else {
+		p.addLtTok(ofst)
+	}
+}
+
 func (p *Parser) aheadIsArgList(tok *Token) bool {
 	tv := tok.value
 	return tv == T_PAREN_L || (tv == T_LT && p.ts && !p.isLtTok(tok.rng.Lo))
@@ -4897,6 +4907,10 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 			// the ambiguity between `<` in typArgs and `<` operator in binExpr
 			lt := tok.value == T_LT
 			if lt {
+				if !directOpt && !p.tsAheadIsTypArgs() {
+					p.ltAsOp(aheadLoc.Lo)
+					break
+				}
 				p.pushState()
 			}
 			// `superTypArgs` is used to represent expr like `(class extends f()<T> {})`
@@ -6745,7 +6759,9 @@ func (p *Parser) decorator() (Node, error) {
 		return nil, nil
 	}
 	loc := p.lexer.Next().rng
+	p.inDecorator = true
 	expr, _, err := p.callExpr(nil, true, false, span.Range{}, false)
+	p.inDecorator = false
 	if err != nil {
 		return nil, err
 	}
diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 15713b2..3b4c155 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -1641,6 +1641,30 @@ func (p *Parser) tsTryTypArgs(asyncLoc span.Range, noJsx bool) (Node, error) {
 	return node, nil
 }
 
+// whether the `<` ahead begins the typArgs of a call, it's an operator otherwise
+func (p *Parser) tsAheadIsTypArgs() bool {
+	scope := p.symtab.Cur
+	p.pushState()
+	_, err := p.tsTypArgs(true, true)
+	if err == nil {
+		ahead := p.lexer.Peek()
+		av := ahead.value
+		if av == T_GT && ahead.rng.Lo == p.lexer.PrevTokRng().Hi {
+			// `a < b >> c`
+			err = p.errTypArgMissingGT
+		} else if ahead.Kind().StartExpr && av != T_PAREN_L && av != T_TPL_HEAD &&
+			!scope.IsKind(SPK_CLASS_EXTEND_SUPER) && !p.inDecorator {
+			// `a < b > c`
+			err = p.errTypArgMissingGT
+		}
+	} else if e, ok := err.(*ParserError); ok && e.msg == ERR_TYPE_ARG_EMPTY {
+		err = nil
+	}
+	p.popState()
+	p.symtab.Cur = scope
+	return err == nil
+}
+
 // consider ambiguity of the first `<` in below example:
 //
 // ```
-- 
2.43.0


From 39e32808b7d3525877ad8a7101adafb664a3233d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:48 +0000
Subject: [PATCH 184/191] fix: names with dashes begin JSX elements, and async
 can be compared, in TypeScript too

---
 ecma/parser/parser.go | 16 +++++++--
 ecma/parser/ts.go     | 75 +++++++++----------------------------------
 2 files changed, 30 insertions(+), 61 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 752aabe..e467cee 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -2642,7 +2642,8 @@ func (p *Parser) aheadIsAsync(tok *Token, prop bool, pvt bool) bool {
 			return false
 		}
 		if ahead.value == T_FUNC ||
-			(p.aheadIsArgList(ahead) && !prop) ||
+			(ahead.value == T_PAREN_L && !prop) ||
+			(ahead.value == T_LT && !prop && p.aheadIsArgList(ahead) && p.tsNextIsTypArgs()) ||
 			(ahead.value == T_MUL && prop) {
 			return true
 		}
@@ -4774,9 +4775,13 @@ func (p *Parser) newExpr(callee bool) (Node, error) {
 	var typArgs Node
 	ti := p.newTypInfo(N_EXPR_NEW)
 	ahead := p.lexer.Peek()
+	if ahead.value == T_LT && p.aheadIsArgList(ahead) && !p.tsAheadIsTypArgs() {
+		p.ltAsOp(ahead.rng.Lo)
+		ahead = p.lexer.Peek()
+	}
 	if p.aheadIsArgList(ahead) {
 		p.pushState()
-		args, _, typArgs, _, err = p.argList(true, true, span.Range{}, false)
+		args, _, typArgs, _, err = p.argList(true, true, span.Range{}, true)
 		if err != nil {
 			// `new A < T`
 			if err == p.errTypArgMissingGT {
@@ -5776,6 +5781,9 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 	notIn := p.scope().IsKind(SPK_NOT_IN)
 	for {
 		ahead := p.lexer.Peek()
+		if ts && ahead.value == T_LT && p.lexer.maybeLsh(ahead.rng.Lo) {
+			p.lexer.tryLsh(ahead.rng.Lo)
+		}
 		op := ahead.IsBin(notIn, ts)
 		if op == T_ILLEGAL {
 			break
@@ -5804,6 +5812,7 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 		if err = p.checkOp(ahead); err != nil {
 			return nil, err
 		}
+
 		// `in` is scanned as a name, revise it to let the slash after it begin a regexp
 		opLoc := p.lexer.NextRevise(op).rng
 
@@ -5818,6 +5827,9 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 		}
 
 		ahead = p.lexer.Peek()
+		if ts && ahead.value == T_LT && p.lexer.maybeLsh(ahead.rng.Lo) {
+			p.lexer.tryLsh(ahead.rng.Lo)
+		}
 		aheadOp := ahead.IsBin(notIn, ts)
 		kind = TokenKinds[aheadOp]
 		for aheadOp != T_ILLEGAL && !(aheadOp == T_GT && notGT) && (kind.Pcd > pcd || kind.Pcd == pcd && kind.RightAssoc) {
diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 3b4c155..8643147 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -3,6 +3,7 @@ package parser
 import (
 	"errors"
 	"fmt"
+	"strings"
 
 	"github.com/hsiaosiyuan0/mole/span"
 )
@@ -1586,7 +1587,7 @@ func (p *Parser) tsTypParams() (Node, error) {
 // parsing is introduced and construct rough nodes to let the later processes to
 // do checking or transformation to produce more precise results
 //
-// `async` will bypassed to method `tsTryTypArgsAfterAsync` to handle the async ambiguity:
+// the `async` ambiguity is resolved before by looking whether the `<` is followed by typArgs:
 //
 // ```
 // async < a, b;
@@ -1608,17 +1609,16 @@ func (p *Parser) tsTryTypArgs(asyncLoc span.Range, noJsx bool) (Node, error) {
 	if !p.ts && p.feat&FEAT_JSX != 0 {
 		return p.jsx(true, false)
 	}
-	if !asyncLoc.Empty() {
-		return p.tsTryTypArgsAfterAsync(asyncLoc)
-	}
 	if !p.ts {
 		return nil, p.errorTok(ahead)
 	}
 
 	p.pushState()
-	node, err := p.tsTypArgs(true, noJsx || p.scope().IsKind(SPK_CLASS_EXTEND_SUPER))
+	noJsx = noJsx || !asyncLoc.Empty()
+	node, err := p.tsTypArgs(true, noJsx)
 	if err != nil {
-		if err != errTypArgMaybeJsx {
+		maybeJsx := !noJsx && p.feat&FEAT_JSX != 0 && err == p.errTypArgMissingGT
+		if err != errTypArgMaybeJsx && !maybeJsx {
 			return nil, err
 		}
 
@@ -1644,12 +1644,13 @@ func (p *Parser) tsTryTypArgs(asyncLoc span.Range, noJsx bool) (Node, error) {
 // whether the `<` ahead begins the typArgs of a call, it's an operator otherwise
 func (p *Parser) tsAheadIsTypArgs() bool {
 	scope := p.symtab.Cur
+	kind := scope.Kind
 	p.pushState()
 	_, err := p.tsTypArgs(true, true)
 	if err == nil {
 		ahead := p.lexer.Peek()
 		av := ahead.value
-		if av == T_GT && ahead.rng.Lo == p.lexer.PrevTokRng().Hi {
+		if ahead.rng.Lo == p.lexer.PrevTokRng().Hi && strings.HasPrefix(p.RngText(ahead.rng), ">") {
 			// `a < b >> c`
 			err = p.errTypArgMissingGT
 		} else if ahead.Kind().StartExpr && av != T_PAREN_L && av != T_TPL_HEAD &&
@@ -1661,62 +1662,18 @@ func (p *Parser) tsAheadIsTypArgs() bool {
 		err = nil
 	}
 	p.popState()
+	scope.Kind = kind
 	p.symtab.Cur = scope
 	return err == nil
 }
 
-// consider ambiguity of the first `<` in below example:
-//
-// ```
-// async < a, b;
-// async<T>() == 0;
-// ```
-//
-// for avoiding lookbehind the process should accept the input as seqExpr then try to
-// transform the subtree of seqExpr to typArgs if its followed by `>`
-func (p *Parser) tsTryTypArgsAfterAsync(asyncLoc span.Range) (Node, error) {
-	name := &Ident{N_NAME, asyncLoc, p.RngText(asyncLoc), false, false, span.Range{}, true, p.newTypInfo(N_NAME)}
-	binExpr, err := p.binExpr(name, 0, false, false, true, false)
-	if err != nil {
-		return nil, err
-	}
-	ltRng := binExpr.(*BinExpr).opLoc
-	seq, err := p.seqExpr(binExpr, true, false)
-	if err != nil {
-		return nil, err
-	}
-	if p.lexer.Peek().value == T_GT {
-		// to type args
-		return p.tsSeqExprToTypArgs(seq, ltRng)
-	}
-	return seq, nil
-}
-
-func (p *Parser) tsSeqExprToTypArgs(node Node, rng span.Range) (Node, error) {
-	p.lexer.Next() // `>`
-	rng = p.finRng(rng)
-
-	var nodes []Node
-	nt := node.Type()
-	if nt == N_EXPR_BIN {
-		nodes = []Node{node.(*BinExpr).rhs}
-	} else if nt == N_EXPR_SEQ {
-		els := node.(*SeqExpr).elems
-		nodes = []Node{els[0].(*BinExpr).rhs}
-		if len(els) > 1 {
-			nodes = append(nodes, els[1:]...)
-		}
-	}
-
-	var err error
-	args := make([]Node, len(nodes))
-	for i, n := range nodes {
-		args[i], err = p.tsRoughParamToTyp(n, true)
-		if err != nil {
-			return nil, err
-		}
-	}
-	return &TsParamsInst{N_TS_PARAM_INST, rng, args}, nil
+// like `tsAheadIsTypArgs` but for the `<` next to the ahead token
+func (p *Parser) tsNextIsTypArgs() bool {
+	p.pushState()
+	p.lexer.Next()
+	ok := p.tsAheadIsTypArgs()
+	p.popState()
+	return ok
 }
 
 func (p *Parser) tsCheckTypArgs(node Node) error {
-- 
2.43.0


From da03b24ca3176b9ed79251feb328d292ad413c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:06 +0000
Subject: [PATCH 185/191] fix: a parenthesised expression before the colon of a
 conditional or case has no type annotation

---
 ecma/parser/parser.go | 13 ++++++++++---
 ecma/parser/ts.go     | 14 ++++++++++++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index e467cee..c2ba085 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -44,6 +44,9 @@ type Parser struct {
 	hangingDecorators []Node
 	inDecorator       bool
 
+	// how many of the exprs being parsed are ended by a colon
+	colonEnd int
+
 	// a temporary stack which holds the loop nodes in their lexical order
 	loopStk []Node
 
@@ -2217,7 +2220,9 @@ func (p *Parser) switchCase(tok *Token) (*SwitchCase, error) {
 	var err error
 	if tok.value == T_CASE {
 		// the colon after the test is not the leading of a typAnnot
+		p.colonEnd += 1
 		test, err = p.seqExpr(nil, false, true)
+		p.colonEnd -= 1
 		if err != nil {
 			return nil, err
 		}
@@ -4477,7 +4482,9 @@ func (p *Parser) condExpr(test Node, notGT bool, notHook bool, notColon bool) (N
 	}
 
 	restoreIn := p.allowIn()
+	p.colonEnd += 1
 	cons, err := p.assignExpr(true, notGT, false, true)
+	p.colonEnd -= 1
 	restoreIn()
 	if err != nil {
 		return nil, err
@@ -5818,7 +5825,7 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 
 		var rhs Node
 		if op != T_TS_AS {
-			rhs, err = p.unaryExpr(nil, span.Range{}, false)
+			rhs, err = p.unaryExpr(nil, span.Range{}, notColon)
 		} else {
 			rhs, err = p.tsTyp(false, true, false)
 		}
@@ -5833,7 +5840,7 @@ func (p *Parser) binExpr(lhs Node, minPcd int, logic bool, nullish bool, notGT b
 		aheadOp := ahead.IsBin(notIn, ts)
 		kind = TokenKinds[aheadOp]
 		for aheadOp != T_ILLEGAL && !(aheadOp == T_GT && notGT) && (kind.Pcd > pcd || kind.Pcd == pcd && kind.RightAssoc) {
-			rhs, err = p.binExpr(rhs, kind.Pcd, logic, nullish, notGT, false)
+			rhs, err = p.binExpr(rhs, kind.Pcd, logic, nullish, notGT, notColon)
 			if err != nil {
 				return nil, err
 			}
@@ -6262,7 +6269,7 @@ func (p *Parser) parenExpr(typArgs Node, notColon bool) (Node, error) {
 	allowTypAnnot := paramsErr == nil
 
 	var typAnnot Node
-	if allowTypAnnot && !notColon {
+	if allowTypAnnot && !notColon && (p.colonEnd == 0 || p.tsAheadIsRetTyp()) {
 		typAnnot, err = p.tsTypAnnot()
 		if err != nil {
 			return nil, err
diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 8643147..8b6206d 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -1641,6 +1641,20 @@ func (p *Parser) tsTryTypArgs(asyncLoc span.Range, noJsx bool) (Node, error) {
 	return node, nil
 }
 
+// whether the colon ahead begins the return type of an arrow fn
+func (p *Parser) tsAheadIsRetTyp() bool {
+	scope := p.symtab.Cur
+	kind := scope.Kind
+	p.pushState()
+	typAnnot, err := p.tsTypAnnot()
+	ahead := p.lexer.Peek()
+	ok := err == nil && typAnnot != nil && ahead.value == T_ARROW && !ahead.afterLineTerm
+	p.popState()
+	scope.Kind = kind
+	p.symtab.Cur = scope
+	return ok
+}
+
 // whether the `<` ahead begins the typArgs of a call, it's an operator otherwise
 func (p *Parser) tsAheadIsTypArgs() bool {
 	scope := p.symtab.Cur
-- 
2.43.0


From 2d7c66442afbf5127f78ef719aa325fcb58e5a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:10 +0000
Subject: [PATCH 186/191] fix: the modifiers of TypeScript are member names
 elsewhere

---
 ecma/parser/parser.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index c2ba085..c6ed6e1 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -1374,6 +1374,28 @@ func (p *Parser) classBody(declare bool, hasSuper bool) (Node, error) {
 	return &ClassBody{N_CLASS_BODY, p.finRng(rng), elems}, nil
 }
 
+func (p *Parser) isTsModifier(tok *Token) bool {
+	switch tok.value {
+	case T_PUBLIC, T_PRIVATE, T_PROTECTED:
+		return true
+	case T_NAME:
+		switch tok.text {
+		case "abstract", "readonly", "override", "declare":
+			return true
+		}
+	}
+	return false
+}
+
+// whether the token before `ahead` is the name of a member instead of a modifier
+func (p *Parser) aheadEndsPropName(ahead *Token) bool {
+	switch ahead.value {
+	case T_PAREN_L, T_ASSIGN, T_SEMI, T_BRACE_R:
+		return true
+	}
+	return false
+}
+
 func (p *Parser) modifiers() (begin, static, access, abstract, readonly, override, declare span.Range,
 	isField, escape bool, name string, fieldLoc span.Range, accMod ACC_MOD, ahead *Token, mayStaticBlock bool) {
 	for {
@@ -1395,6 +1417,9 @@ func (p *Parser) modifiers() (begin, static, access, abstract, readonly, overrid
 			}
 			mayStaticBlock = p.lexer.Peek().value == T_BRACE_L
 			fieldLoc = static
+		} else if p.ts && p.isTsModifier(ahead) && p.aheadEndsPropName(p.lexer.Peek2nd()) {
+			// the name of a member such as `private` in `static private = 1`
+			return
 		} else if p.ts && accMod == ACC_MOD_NONE && (av == T_PUBLIC || av == T_PRIVATE || av == T_PROTECTED) {
 			switch av {
 			case T_PUBLIC:
-- 
2.43.0


From 72477e588af9d25ee158b6ab1e987b33d357af47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:56 +0000
Subject: [PATCH 187/191] fix: a statement which mentions the name enum is not
 followed by an enum

---
 ecma/parser/parser.go | 8 +++++---
 ecma/parser/ts.go     | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index c6ed6e1..8f4145c 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -389,9 +389,11 @@ func (p *Parser) stmt() (node Node, err error) {
 			node, err = p.withStmt()
 		case T_NEW, T_THIS, T_SUPER:
 			node, err = p.exprStmt()
-		}
-		if p.aheadIsTsEnum(tok) {
-			node, err = p.tsEnum(span.Range{Lo: 1, Hi: 0}, false)
+		case T_ENUM:
+			// `tok` is not usable after the stmt is parsed since its place in the tokens buf is reused
+			if p.ts {
+				node, err = p.tsEnum(span.Range{Lo: 1, Hi: 0}, false)
+			}
 		}
 	} else if tok.value == T_BRACE_L {
 		node, err = p.blockStmt(true, SPK_NONE)
diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 8b6206d..475f5cc 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -1668,7 +1668,7 @@ func (p *Parser) tsAheadIsTypArgs() bool {
 			// `a < b >> c`
 			err = p.errTypArgMissingGT
 		} else if ahead.Kind().StartExpr && av != T_PAREN_L && av != T_TPL_HEAD &&
-			!scope.IsKind(SPK_CLASS_EXTEND_SUPER) && !p.inDecorator {
+			!(av == T_BRACE_L && scope.IsKind(SPK_CLASS_EXTEND_SUPER)) && !p.inDecorator {
 			// `a < b > c`
 			err = p.errTypArgMissingGT
 		}
-- 
2.43.0


From c6313c2047786d3271696669005ae816e5f44ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:47 +0000
Subject: [PATCH 188/191] fix: JSX elements whose names are not types are
 elements in TypeScript too

---
 ecma/parser/parser.go |  4 ++--
 ecma/parser/ts.go     | 16 +++++++++++-----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/ecma/parser/parser.go b/ecma/parser/parser.go
index 8f4145c..82527c4 100644
--- a/ecma/parser/parser.go
+++ b/ecma/parser/parser.go
@@ -4809,7 +4809,7 @@ func (p *Parser) newExpr(callee bool) (Node, error) {
 	var typArgs Node
 	ti := p.newTypInfo(N_EXPR_NEW)
 	ahead := p.lexer.Peek()
-	if ahead.value == T_LT && p.aheadIsArgList(ahead) && !p.tsAheadIsTypArgs() {
+	if ahead.value == T_LT && p.aheadIsArgList(ahead) && !p.tsAheadIsTypArgs(true) {
 		p.ltAsOp(ahead.rng.Lo)
 		ahead = p.lexer.Peek()
 	}
@@ -4946,7 +4946,7 @@ func (p *Parser) callExpr(callee Node, root bool, directOpt bool, opt span.Range
 			// the ambiguity between `<` in typArgs and `<` operator in binExpr
 			lt := tok.value == T_LT
 			if lt {
-				if !directOpt && !p.tsAheadIsTypArgs() {
+				if !directOpt && !p.tsAheadIsTypArgs(firstOpt.Empty()) {
 					p.ltAsOp(aheadLoc.Lo)
 					break
 				}
diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 475f5cc..1b60f61 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -1614,15 +1614,20 @@ func (p *Parser) tsTryTypArgs(asyncLoc span.Range, noJsx bool) (Node, error) {
 	}
 
 	p.pushState()
+	scope := p.symtab.Cur
+	kind := scope.Kind
 	noJsx = noJsx || !asyncLoc.Empty()
 	node, err := p.tsTypArgs(true, noJsx)
 	if err != nil {
-		maybeJsx := !noJsx && p.feat&FEAT_JSX != 0 && err == p.errTypArgMissingGT
+		// the name of the elem maybe not a valid type such as `<keyof/>` or `<data-x/>`
+		maybeJsx := !noJsx && p.feat&FEAT_JSX != 0
 		if err != errTypArgMaybeJsx && !maybeJsx {
 			return nil, err
 		}
 
 		p.popState()
+		scope.Kind = kind
+		p.symtab.Cur = scope
 		ofst := p.lexer.src.Ofst()
 		jsx, err := p.jsx(true, true)
 		if err != nil {
@@ -1655,8 +1660,9 @@ func (p *Parser) tsAheadIsRetTyp() bool {
 	return ok
 }
 
-// whether the `<` ahead begins the typArgs of a call, it's an operator otherwise
-func (p *Parser) tsAheadIsTypArgs() bool {
+// whether the `<` ahead begins the typArgs of a call, it's an operator otherwise, `tag` indicates whether
+// the typArgs can be followed by a template
+func (p *Parser) tsAheadIsTypArgs(tag bool) bool {
 	scope := p.symtab.Cur
 	kind := scope.Kind
 	p.pushState()
@@ -1667,7 +1673,7 @@ func (p *Parser) tsAheadIsTypArgs() bool {
 		if ahead.rng.Lo == p.lexer.PrevTokRng().Hi && strings.HasPrefix(p.RngText(ahead.rng), ">") {
 			// `a < b >> c`
 			err = p.errTypArgMissingGT
-		} else if ahead.Kind().StartExpr && av != T_PAREN_L && av != T_TPL_HEAD &&
+		} else if ahead.Kind().StartExpr && av != T_PAREN_L && !(tag && av == T_TPL_HEAD) &&
 			!(av == T_BRACE_L && scope.IsKind(SPK_CLASS_EXTEND_SUPER)) && !p.inDecorator {
 			// `a < b > c`
 			err = p.errTypArgMissingGT
@@ -1685,7 +1691,7 @@ func (p *Parser) tsAheadIsTypArgs() bool {
 func (p *Parser) tsNextIsTypArgs() bool {
 	p.pushState()
 	p.lexer.Next()
-	ok := p.tsAheadIsTypArgs()
+	ok := p.tsAheadIsTypArgs(true)
 	p.popState()
 	return ok
 }
-- 
2.43.0


From da529e2d289e0eac7a22b991d6862723ce005b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:50 +0000
Subject: [PATCH 189/191] fix: a closing JSX tag does not begin an expression
 in TypeScript

---
 ecma/parser/ts.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index 1b60f61..fd88c7e 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -1639,6 +1639,9 @@ func (p *Parser) tsTryTypArgs(asyncLoc span.Range, noJsx bool) (Node, error) {
 			}
 			return nil, err
 		}
+		if jsx.Type() == N_JSX_CLOSE {
+			return nil, p.errorAtLoc(jsx.Range(), ERR_UNEXPECTED_TOKEN)
+		}
 		return jsx, nil
 	}
 	p.discardState()
-- 
2.43.0


From 9713813a9226bd162278c6a55e62270c0e44ef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:47 +0000
Subject: [PATCH 190/191] fix: an illegal character after type arguments is
 reported

---
 ecma/parser/ts.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ecma/parser/ts.go b/ecma/parser/ts.go
index fd88c7e..56148a2 100644
--- a/ecma/parser/ts.go
+++ b/ecma/parser/ts.go
@@ -3,7 +3,6 @@ package parser
 import (
 	"errors"
 	"fmt"
-	"strings"
 
 	"github.com/hsiaosiyuan0/mole/span"
 )
@@ -1663,6 +1662,14 @@ func (p *Parser) tsAheadIsRetTyp() bool {
 	return ok
 }
 
+func beginsWithGT(v TokenValue) bool {
+	switch v {
+	case T_GT, T_GTE, T_RSH, T_RSH_U, T_ASSIGN_BIT_RSH, T_ASSIGN_BIT_RSH_U:
+		return true
+	}
+	return false
+}
+
 // whether the `<` ahead begins the typArgs of a call, it's an operator otherwise, `tag` indicates whether
 // the typArgs can be followed by a template
 func (p *Parser) tsAheadIsTypArgs(tag bool) bool {
@@ -1673,7 +1680,7 @@ func (p *Parser) tsAheadIsTypArgs(tag bool) bool {
 	if err == nil {
 		ahead := p.lexer.Peek()
 		av := ahead.value
-		if ahead.rng.Lo == p.lexer.PrevTokRng().Hi && strings.HasPrefix(p.RngText(ahead.rng), ">") {
+		if ahead.rng.Lo == p.lexer.PrevTokRng().Hi && beginsWithGT(av) {
 			// `a < b >> c`
 			err = p.errTypArgMissingGT
 		} else if ahead.Kind().StartExpr && av != T_PAREN_L && !(tag && av == T_TPL_HEAD) &&
-- 
2.43.0


From 7ff8af687e52525257c37fb5e50eaea58a9d82cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:58 +0000
Subject: [PATCH 191/191] fix: call the listeners of atoms

---
 ecma/walk/visitor.go       | 3 ++-
 script/visitor_gen/main.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ecma/walk/visitor.go b/ecma/walk/visitor.go
index 7aa3713..e3f1010 100644
--- a/ecma/walk/visitor.go
+++ b/ecma/walk/visitor.go
@@ -1003,7 +1003,8 @@ func AddAfterListener(ls *Listeners, impl *Listener) {
 
 func AddAtomListener(ls *Listeners, impl *Listener) {
 	for t := range AtomNodeTypes {
-		AddListener(ls, t, impl)
+		// an atom has no children, it's heard once, when entered
+		AddNodeBeforeListener(ls, t, impl)
 	}
 }
 
diff --git a/script/visitor_gen/main.go b/script/visitor_gen/main.go
index a3f1971..3ee5c27 100644
--- a/script/visitor_gen/main.go
+++ b/script/visitor_gen/main.go
@@ -164,7 +164,8 @@ func AddAfterListener(ls *Listeners, impl *Listener) {
 
 func AddAtomListener(ls *Listeners, impl *Listener) {
 	for t := range AtomNodeTypes {
-		AddListener(ls, t, impl)
+		// an atom has no children, it's heard once, when entered
+		AddNodeBeforeListener(ls, t, impl)
 	}
 }
   `))
-- 
2.43.0

