package props

import (
	"regexp"
	"strings"

	"molecheck/pbt"
)

// Programs at the border between valid and invalid: one family per group of
// early-error rules. The references decide on which side each one lies.

var earlyDecls = []string{
	"let Q;", "let Q;", "const Q=1;", "class Q{}", "function Q(){}", "var Q;", "var Q;", "async function Q(){}", "function*Q(){}", "{var Q}", "{let Q}", "for(var Q of a);", "for(var Q;;);", "for(let Q of a);", "if(b){var Q}", "if(b)var Q;", "try{var Q}catch{}",
	"try{}catch(Q){}", "let{x:Q}=a;", "let[,Q=1]=a;", "let{...Q}=a;", "var[...Q]=a;", "const{x:[Q]}=a;", "let z=1,Q;", "switch(a){case 1:var Q}", "switch(a){case 1:let Q}", "l1:var Q;", "l1:function Q(){}", "{function Q(){}}", "{{var Q}}", "Q;", "while(a)var Q;", "do var Q;while(a)", "{class Q{}}", "if(b);else var Q;", "for(var[Q]of a);", "for(var{x:Q=1}in a);",
}

var earlyScopes = []string{
	"H", "{H}", "function f(){H}", "function f(Q){H}", "function f([Q]){H}", "function f({x:Q=1}){H}", "function f(...Q){H}", "function f(a,Q=1){H}", "(Q=>{H});", "((Q)=>{H});", "(({Q})=>{H});", "(async Q=>{H});", "(async(Q)=>{H});", "(()=>{H});",
	"try{}catch(Q){H}", "try{}catch([Q]){H}", "try{}catch({x:Q}){H}", "try{}catch(Q){{H}}", "for(let Q of a){H}", "for(let Q;;){H}", "for(let[Q]of a){H}", "for(const Q in a){H}", "for(var Q of a){H}", "for(Q of a){H}", "for(let Q;;)H",
	"(function Q(){H});", "(function Q(Q){H});", "function Q(){H}", "(class Q{m(){H}});", "class K{m(Q){H}}", "class K{static{H}}", "class K{static{var Q;H}}", "class K{constructor(Q){H}}", "({m(Q){H}});", "({set m(Q){H}});", "({set m({Q}){H}});", "function*f(Q){H}", "async function f(Q){H}",
	"if(a){H}", "while(a){H}", "l2:{H}", "switch(a){case 1:H}", "switch(Q){default:H}", "export function f(Q){H}", "export default function(Q){H}", "function f(a=()=>{H}){}",
}

func earlyRedeclare(t *pbt.T, module bool) string {
	names := []string{"q", "q", "q", "q", "async", "let", "arguments", "r"}
	n1 := pbt.Pick(t, names...)
	n2 := n1
	if t.P(1, 6) {
		n2 = pbt.Pick(t, names...)
	}
	d := func() string {
		s := strings.ReplaceAll(pbt.Pick(t, earlyDecls...), "Q", pbt.Pick(t, n1, n1, n2))
		if module && t.P(1, 6) && strings.HasPrefix(s, "let ") {
			s = "export " + s
		}
		return s
	}
	body := d()
	if t.P(1, 2) {
		body += "\n" + pbt.Pick(t, "", "", "", "f();", "{}", "'s';")
		body += d()
	}
	if t.P(1, 8) {
		body += "\n" + d()
	}
	if t.P(1, 4) {
		body = "switch(a){case 0:" + body + "\ncase 1:" + d() + pbt.Pick(t, "", "default:"+d()) + "}"
	}
	if t.P(1, 12) {
		body = pbt.Pick(t, "import Q from'x';", "import{Q}from'x';", "import*as Q from'x';", "import{x as Q}from'x';", "export{Q};", "export{Q as z};", "export default Q;") + body
		body = strings.ReplaceAll(body, "Q", n1)
	}
	w := strings.ReplaceAll(pbt.Pick(t, earlyScopes...), "Q", pbt.Pick(t, n1, n1, n2))
	body = strings.Replace(w, "H", body, 1)
	for t.P(1, 4) {
		w := strings.ReplaceAll(pbt.Pick(t, earlyScopes...), "Q", pbt.Pick(t, n1, n2, "u"))
		body = strings.Replace(w, "H", body, 1)
	}
	if t.P(1, 5) {
		body = d() + "\n" + body
	}
	if t.P(1, 5) {
		body += "\n" + d()
	}
	return body
}

// jumps, labels, return
func earlyJump(t *pbt.T, module bool) string {
	L := func() string { return pbt.Pick(t, "a", "a", "b", "yield", "async", "c") }
	var h string
	switch t.Intn(6) {
	case 0:
		h = "break;"
	case 1:
		h = "continue;"
	case 2:
		h = "break " + L() + ";"
	case 3:
		h = "continue " + L() + ";"
	case 4:
		h = pbt.Pick(t, "return;", "return x;", "break\na;", "continue\na;", "break a,b;", "break a\nb;")
	case 5:
		h = L() + ":" + pbt.Pick(t, ";", "x;", "{break a}", "for(;;)continue a;", "for(;;){break a}", "function f(){}", "break a;")
	}
	for n := 1 + t.Geo(2, 6); n > 0; n-- {
		w := pbt.Pick(t, "{H}", "L:H", "L:H", "L:H", "L:{H}", "L:M:H", "for(;;)H", "for(;;){H}", "for(x of y)H", "for(x in y){H}", "while(x)H", "do{H}while(x)", "do H while(x)", "switch(x){case 1:H}", "switch(x){default:H}",
			"if(x)H", "if(x){H}else;", "if(x);else H", "try{H}catch{}", "try{}catch(e){H}", "try{}finally{H}", "(()=>{H});", "(function(){H});", "function f(){H}", "(class{static{H}});", "({m(){H}});", "(class{m(){H}});", "x;H", "H\nx;", "L:;H", "with(x)H", "L:for(;;)H", "L:switch(x){case 1:H}")
		w = strings.Replace(w, "L", L(), 1)
		w = strings.Replace(w, "M", L(), 1)
		h = strings.Replace(w, "H", h, 1)
	}
	return h
}

// words whose meaning hangs on the functions and classes around them
func earlyContext(t *pbt.T, module bool) string {
	e := pbt.Pick(t, "yield", "yield x", "yield*x", "(yield)", "(yield x)", "await", "await x", "(await x)", "super()", "super.x", "super[x]", "(super.x=1)", "new.target", "arguments", "import.meta", "import(x)", "this.#p", "x.#p()", "x?.#p", "async", "let", "static", "async x=>1", "async()=>await x", "await=>1", "yield=>1", "async await=>1", "[yield]", "{x:await x}", "-await x", "!(yield)", "x=yield", "yield=1", "await=1", "[await]=x", "({yield}=x)", "({await})", "({x:yield}=y)", "(yield)=>1", "(await)=>1", "(x=await y)=>1", "(x=yield)=>1", "function yield(){}", "function await(){}", "function*yield(){}", "async function await(){}", "class yield{}", "class await{}", "delete this.#p", "delete x.y", "super", "`${await x}`", "`${yield x}`", "x?yield:await y", "await(x)", "yield(x)", "await[x]", "yield\nx", "await\nx", "yield/1/2", "await/1/2", "new super.x", "new super", "delete super.x", "super?.x", "super`x`", "super.x()", "new new.target", "++super.x")
	if strings.HasPrefix(e, "{") {
		e = "(" + e + ")"
	}
	h := e
	stmt := false
	for n := 1 + t.Geo(2, 6); n > 0; n-- {
		if stmt {
			h = strings.Replace(pbt.Pick(t, "(function(){H})", "(function*(){H})", "(async function(){H})", "(async function*(){H})", "(()=>{H})", "(async()=>{H})", "({m(){H}})", "({*m(){H}})", "({async m(){H}})", "({async*m(){H}})", "({get m(){H}})", "({set m(v){H}})",
				"(class{m(){H}})", "(class{*m(){H}})", "(class{async m(){H}})", "(class{static m(){H}})", "(class{static async*m(){H}})", "(class{constructor(){H}})", "(class extends B{constructor(){H}})", "(class extends B{m(){H}})", "(class{static{H}})", "(class{get m(){H}})", "(class{#p;m(){H}})", "(class{#p(){H}})", "(class{static #p(){H}})", "(class extends B{#p;constructor(){H}})", "(class{#p=()=>{H}})"), "H", h, 1)
			e = h
			stmt = false
			continue
		}
		if t.P(1, 2) {
			h = pbt.Pick(t, "E;", "return E;", "var v=E;", "if(E);", "for(v of E);", "for(const v of[E]);", "throw E;", "{E}", "for(E;;);", "switch(E){case E:}", "try{E}catch{}", "x=E;", "let{v=E}=x;", "for await(v of E);", "while(1){E;break}", "l:E;")
			h = strings.ReplaceAll(h, "E", e)
			e = h
			stmt = true
			continue
		}
		h = strings.Replace(pbt.Pick(t, "()=>E", "async()=>E", "(v=E)=>1", "async(v=E)=>1", "({v=E})=>1", "(function(v=E){})", "(function*(v=E){})", "(async function(v=E){})", "({m(v=E){}})", "({[E](){}})", "({[E]:1})", "({set m(v=E){}})", "(class{[E](){}})", "(class{[E]=1})", "(class{v=E})", "(class{static v=E})", "(class extends(E){})", "(class extends E{})", "(class{m(v=E){}})", "(class extends B{v=E})", "(class extends B{constructor(v=E){}})", "(class{#p;v=E})", "(class{#p;static v=E})", "(class{#p;[E]})", "(class extends(E){#p})", "(class{static #p=E})", "f(E)", "[E]", "x+E", "(E)", "x?E:y", "x=E", "{v:E}", "f(...E)", "E.x", "E`y`", "new(E)", "typeof E", "E,x", "E&&x", "x??E", "E**x", "E[x]", "x[E]"), "E", h, 1)
		if strings.HasPrefix(h, "{") {
			h = "(" + h + ")"
		}
		e = h
	}
	if !stmt {
		h += ";"
	}
	return h
}

// strict mode
func earlyStrict(t *pbt.T, module bool) string {
	v := pbt.Pick(t, "with(a);", "010;", "08;", "'\\1';", "'\\08';", "'\\8';", "'\\0';", "delete x;", "delete(x);", "delete((x));", "delete x.y;", "eval=1;", "arguments++;", "--eval;", "[eval]=a;", "({eval}=a);", "({x:arguments}=a);", "({eval=1}=a);", "[...eval]=a;", "for(eval of a);", "for(arguments in a);", "try{}catch(eval){}", "try{}catch([arguments]){}",
		"var eval;", "let arguments;", "const eval=1;", "var{arguments}=a;", "function eval(){}", "function f(eval){}", "function f({arguments}){}", "(function arguments(){});", "eval=>1;", "(arguments)=>1;", "(eval,b)=>1;", "async eval=>1;", "async(eval)=>1;", "function f(b,b){}", "(function(b,b){});", "({m(b,b){}});", "(b,b)=>1;",
		"var yield;", "var let;", "var static;", "var interface;", "let public;", "private=1;", "package:;", "implements;", "protected();", "x.public;", "({static:1});", "({static});", "({let}=a);", "yield=1;", "function static(){}", "class static{}", "class let{}", "(class implements{});", "let=1;", "let\n[a]=b;", "l:function g(){}", "if(a)function g(){}", "if(a);else function g(){}", "{function g(){}function g(){}}", "{function g(){}}", "label:{let static}", "var async;", "eval(1);", "arguments[0]=1;", "eval.x=1;", "x=eval;", "delete eval;", "typeof yield;", "import{eval}from'a';", "({arguments(){}});", "({set x(eval){}});", "(eval)++;", "(arguments)=1;", "for(var eval of a);", "switch(a){case 1:function g(){}function g(){}}", "'\\01'+1;", "x='\\7';", "`\\0`;", "0o10;", "00;", "09.5;", "010n;", "var st\\u0061tic;", "l\\u0065t\na", "yi\\u0065ld:1;")
	prol := func() string {
		return pbt.Pick(t, "'use strict';", "\"use strict\";", "'use strict'\n", "'a';'use strict';", "'use strict';'a';", "'a'\n'use strict'\n", "'use\\x20strict';", "('use strict');", "'use strict'+1;", "'use strict',1;", "'use strict'\n+1;", "'use strict'\n/1/g;", "'use strict'\n[0];", ";'use strict';", "'use strict '; ", "'\\01';'use strict';", "'use strict';'\\01';", "{'use strict'}", "/*c*/'use strict'/*c*/;", "'use strict'//c\n", "'use strict'\nvar z;", "'use strict'}{", "`use strict`;", "'use strict'.x;", "'use strict'\n.x;", "'use strict'\n(1);", "", "")
	}
	w := pbt.Pick(t, "PH", "function f(){PH}", "function f(){P}H", "function f(){function g(){P}H}", "function f(){P function g(){H}}", "function f(){P(()=>{H})}", "(()=>{PH});", "(function(){PH});", "(async()=>{PH});", "({m(){PH}});", "({get m(){PH}});", "class K{m(){H}}", "class K{static{H}}", "(class{constructor(){H}});", "function*f(){PH}", "async function f(){PH}", "function f(a){PH}", "function f(a=1){PH}", "function f([a]){PH}", "function f(...a){PH}", "(a)=>{PH};", "(a=1)=>{PH};", "function eval(){P}", "function f(eval){P}", "function f(b,b){P}", "function static(){P}", "function f(static){P}", "(function yield(){P});", "eval=>{P};", "(arguments)=>{P};", "async eval=>{P};", "({set m(eval){P}});", "({m(b,b){P}});", "({eval(){PH}});", "function f(a=010){P}", "function f(a='\\1'){P}", "PH", "P{H}", "Pfunction f(){H}", "H P", "function f(a=function(){P}){H}", "class K extends(function(){H}){}", "class K{[function(){H}];}", "function f(){H P}")
	s := strings.Replace(w, "P", prol(), 1)
	return strings.Replace(s, "H", v, 1)
}

// assignment targets, patterns, arrow parameters
func earlyTarget(t *pbt.T, module bool) string {
	var tgt func(d int) string
	tgt = func(d int) string {
		if d > 0 && t.P(2, 3) {
			switch t.Intn(12) {
			case 0:
				return "[" + tgt(d-1) + "]"
			case 1:
				return "[" + tgt(d-1) + "," + tgt(d-1) + "]"
			case 2:
				return "[..." + tgt(d-1) + pbt.Pick(t, "", "", ",", ",b", "=1") + "]"
			case 3:
				return "[" + tgt(d-1) + "=1]"
			case 4:
				return "{x:" + tgt(d-1) + "}"
			case 5:
				return "{x:" + tgt(d-1) + "=1}"
			case 6:
				return "{..." + tgt(d-1) + pbt.Pick(t, "", "", ",", ",b", "=1") + "}"
			case 7:
				return "(" + tgt(d-1) + ")"
			case 8:
				return "{[x]:" + tgt(d-1) + ",y}"
			case 9:
				return "[,," + tgt(d-1) + ",]"
			case 10:
				return "(" + tgt(d-1) + "=1)"
			case 11:
				return "{'x':" + tgt(d-1) + "}"
			}
		}
		return pbt.Pick(t, "a", "a", "a", "b", "a.b", "a[b]", "{a}", "{a=1}", "[]", "{}", "a()", "a?.b", "this", "1", "'s'", "a+b", "-a", "a++", "new a", "new a().b", "`t`", "f()[0]", "f().x", "super.x", "new.target", "import.meta", "{a:b}", "{a(){}}", "{get a(){}}", "{async a(){}}", "{*a(){}}", "{if}", "{a,b}", "{a,}", "async", "let", "yield", "await", "eval", "a?b:c", "a,b", "null", "a=>b", "function(){}", "class{}", "{__proto__:a,__proto__:b}", "[a,a]", "{a:a,b:a}", "import(x)", "a=1", "a&&b", "{a:b=1}", "{'a'}", "{1:a}", "{1}", "{async}", "{get}", "{get a}", "{await}", "{eval}", "{yield=1}", "[...a]", "[,]", "{...a.b}", "/r/")
	}
	x := tgt(t.Geo(1, 3))
	s := pbt.Pick(t, "T=v;", "(T)=v;", "T=v;", "(T=v);", "T+=v;", "(T)**=v;", "T&&=v;", "(T)??=v;", "T||=v;", "T++;", "++T;", "--(T);", "(T)--;", "for(T of v);", "for((T)in v);", "for(T=v;;);", "for(T in v);", "(T)=>1;", "(T,b)=>1;", "(b,T)=>1;", "(...T)=>1;", "(T=1)=>1;", "async(T)=>1;", "async(...T)=>1;", "async(T=1,b)=>1;", "async(T);", "(T);", "(T)\n=>1;", "x=T=v;", "x=(T)=v;", "f(T=v);", "[T]=v;", "[(T)]=v;", "({x:T}=v);", "({x:(T)}=v);", "({x:(T)=1}=v);", "[...T]=v;", "[...(T)]=v;", "({...T}=v);", "({...(T)}=v);", "var T=v;", "let T=v;", "const T=v;", "var[T]=v;", "let{x:T}=v;", "function f(T){}", "function f(...T){}", "function f(T=1){}", "(function(T,b){});", "({m(T){}});", "({set m(T){}});", "try{}catch(T){}", "for(var T of v);", "for(let T of v);", "for(const T in v);", "for(let T;;);", "for(var T=v in w);", "for(let T=v;;);", "x?T=1:y;", "T=>1;", "async T=>1;", "delete T;", "typeof T=1;", "new T=1;", "y=>T=1;", "y=>(T)=1;", "`${T=1}`;", "for await(T of v);", "({T});", "({T=1});", "({T=1}=v);", "async({x:T});", "async([T]);", "f({x:T});", "(T).x;", "[T].x=1;", "({x:T}).y=1;", "export let T=v;", "for(T of[]);", "for(async T of v);")
	s = strings.Replace(s, "T", x, 1)
	if strings.HasPrefix(s, "{") {
		s = "(" + strings.TrimSuffix(s, ";") + ");"
	}
	return earlyWrap(t, s)
}

// class bodies
func earlyClass(t *pbt.T, module bool) string {
	name := func() string {
		return pbt.Pick(t, "#a", "#a", "#b", "constructor", "constructor", "'constructor'", "[`constructor`]", "prototype", "'prototype'", "a", "get", "set", "static", "async", "await", "#constructor", "1", "[x]", "__proto__", "\"a\"", "if", "let", "1n", "con\\u0073tructor", "'con\\u0073tructor'", "#\\u0061", "yield", "accessor")
	}
	el := func() string {
		p := pbt.Pick(t, "", "", "", "static ", "static ", "static\n", "static async ", "async ", "async\n", "async*", "*", "get ", "get ", "set ", "set ", "static get ", "static set ", "static*", "get\n", "get*", "static static ", "async get ", "static\nasync\n")
		n := name()
		tail := pbt.Pick(t, "(){}", "(){}", "(v){}", ";", "=1;", "=1\n", "\n", "(a,a){}", "(...v){}", "(v=1){}", "(a,b){}", "{}", " ", "=x=>x;", "(){super()}", "(){super.x}", "=super.x;", "=super();", "(){this.#a}", "(){x.#b.#a}", "=this.#a;", "=arguments;", "=()=>arguments;", "=function(){arguments};", "(){delete this.#a}", "(){return class{m(){this.#a}}}", "=class{#a;m(){this.#b}};", "(){#a+1}", "(x=this.#a){}")
		if strings.Contains(p, "get ") && t.P(2, 3) {
			tail = pbt.Pick(t, "(){}", "(){return this.#a}")
		}
		if strings.Contains(p, "set ") && t.P(2, 3) {
			tail = "(v){}"
		}
		return p + n + tail
	}
	var b strings.Builder
	for n := 1 + t.Geo(2, 5); n > 0; n-- {
		if t.P(1, 10) {
			b.WriteString(pbt.Pick(t, ";", "static{}", "static{this.#a}", "static{return}", "static{await}", "static{var a;let a}", "static{super.x}", "static{super()}", "static{arguments}", "static{break}", "static{new.target}", "static\n{}"))
			continue
		}
		b.WriteString(el())
	}
	s := pbt.Pick(t, "class C{B}", "class C extends D{B}", "class C extends null{B}", "(class{B});", "(class C extends D{B});", "(class extends(class{#b}){B});", "class C{#a;m(){return class{B}}}", "class C{m(){return class{B}}#a}", "class C{#b;x=class extends this.#b{B}}", "class C{[this.#a];B}", "class C extends this.#a{B}", "export default class{B}", "class C{static{class E{B}}}", "class C{#a;[x.#a];B}")
	s = strings.Replace(s, "B", b.String(), 1)
	return earlyWrap(t, s)
}

// literals and escapes, character by character
func earlyLiteral(t *pbt.T, module bool) string {
	var b strings.Builder
	pick := func(n int, xs ...string) {
		for i := 1 + t.Geo(n, 12); i > 0; i-- {
			b.WriteString(pbt.Pick(t, xs...))
		}
	}
	switch t.Intn(6) {
	case 0: // numbers
		b.WriteString(pbt.Pick(t, "", "0", "0x", "0o", "0b", "0X", "0B", "0O", ".", "1", "1.", "0.", "00", "08", "1e", "0_", "1_"))
		pick(2, "0", "1", "7", "8", "9", "_", "_", ".", "e", "E", "+", "-", "n", "a", "F", "x", "__", "e1", "1")
		b.WriteString(pbt.Pick(t, "", "", "", "n", ".x", "in x", "..x", " .x", ".1"))
	case 1: // strings
		q := pbt.Pick(t, "'", "\"")
		b.WriteString(q)
		pick(2, "\\", "\\u", "\\x", "0", "1", "8", "a", "F", "{", "}", "\\u{", "\\u{1F600}", "\\u{110000}", "\\u{0000041}", "\\u0041", "\\x41", "\\n", "\\\n", "\\\r\n", "\\0", "\\1", "\\377", "\\400", "\\8", "\\'", "\\\"", "é", "\u2028", "\\\u2028", "😀", "z", "\\z", "\n", "\\b", "\\v")
		b.WriteString(q)
	case 2: // templates
		if t.P(1, 3) {
			b.WriteString(pbt.Pick(t, "f", "f.g", "f()", "new f", "f`a`", "f?.", "f?.g", "(f)", "f\n"))
		}
		b.WriteString("`")
		pick(2, "\\", "\\u", "\\x", "0", "a", "{", "}", "$", "\\$", "${", "${x}", "${x}", "\\u{", "\\u{41}", "\\u0041", "\\x41", "\\\n", "\n", "\r\n", "\\0", "\\1", "\\01", "\\8", "\\`", "é", "😀", "$$", "\\{", "${`${x}`}", "${{}}", "${'`'}", "${x")
		b.WriteString("`")
	case 3: // names
		b.WriteString(pbt.Pick(t, "", "x.", "x?.", "({", "var ", "l\\u0065t ", "class{#", "x=", "new.", "import.", "function ", "(class ", ""))
		pick(1, "a", "\\u0061", "\\u{61}", "\\u0030", "\\u{24}", "$", "_", "\\u200c", "\u200d", "é", "\\u{1D7D8}", "𝒳", "\\u{110000}", "\\u61", "\\x61", "\\", "if", "\\u0069f", "v\\u0061r", "targ\\u0065t", "as\\u0079nc", "aw\\u0061it", "yi\\u0065ld", "st\\u0061tic", "n\\u0075ll", "tru\\u{65}", "let", "ℵ", "・", "\u180e", "\\u{2F800}", "0", "-")
		s := b.String()
		switch {
		case strings.HasPrefix(s, "({"):
			b.WriteString("})")
		case strings.HasPrefix(s, "class{#"):
			b.WriteString("}")
			return "(" + b.String() + ");"
		case strings.HasPrefix(s, "function "):
			b.WriteString("(){}")
		case strings.HasPrefix(s, "(class "):
			b.WriteString("{})")
		}
	case 4: // operators and their neighbours
		pick(3, "a", "b", "+", "-", "++", "--", "!", "~", "*", "**", "/", "%", "<", ">", "<<", ">>", ">>>", "&", "|", "^", "&&", "||", "??", "?", ":", "?.", ".", "=", "==", "===", "=>", "(", ")", "[", "]", ",", "in ", "of ", "typeof ", "void ", "delete ", "await ", "new ", "instanceof ", "\n", " ", "1", "'s'", "/r/", "`t`", "...", "+=", "**=", "??=", "#a", "@", "!=")
	case 5: // comments and blanks
		pick(3, "a", "b", ";", "/*", "*/", "//", "\n", " ", "/* c */", "// c\n", "/*\n*/", ">", "\u2028", "\ufeff", "\u00a0", "\u0085", "\t", "/**/", "<", "x", "\r", "=", "\v", "/", "*")
		if t.P(1, 4) {
			return b.String()
		}
	}
	return earlyWrap(t, b.String()+pbt.Pick(t, ";", ";", "\n"))
}

// imports and exports
func earlyModule(t *pbt.T, module bool) string {
	n := func() string {
		return pbt.Pick(t, "a", "a", "b", "c", "default", "if", "eval", "as", "from", "await", "let", "*", "type")
	}
	id := func() string { return pbt.Pick(t, "a", "a", "b", "c", "d") }
	spec := func() string {
		switch t.Intn(4) {
		case 0, 1:
			return id()
		case 2:
			return n() + " as " + n()
		}
		return n()
	}
	list := func() string {
		s := ""
		for i := t.Intn(3); i >= 0; i-- {
			if s != "" {
				s += ","
			}
			s += spec()
		}
		return s + pbt.Pick(t, "", "", "", ",", ",,")
	}
	from := func() string { return pbt.Pick(t, "from'x'", "from'x'", "from'x'", "", "from x", "fr\\u006fm'x'") }
	var b strings.Builder
	for i := 1 + t.Geo(2, 5); i > 0; i-- {
		switch t.Intn(16) {
		case 0:
			b.WriteString("import{" + list() + "}" + from())
		case 1:
			b.WriteString("import " + id() + " " + from())
		case 2:
			b.WriteString("import*as " + id() + " " + from())
		case 3:
			b.WriteString("import " + id() + ",{" + list() + "}" + from())
		case 4:
			b.WriteString("import " + id() + ",*as " + id() + " " + from())
		case 5, 6:
			b.WriteString("export{" + list() + "}" + pbt.Pick(t, "", "", from()))
		case 7:
			b.WriteString("export*" + pbt.Pick(t, "", "as "+n()+" ") + from())
		case 8:
			b.WriteString("export default " + pbt.Pick(t, "1", "a", "function(){}", "function a(){}", "class{}", "class b{}", "async function(){}", "async function a(){}", "async()=>1", "a,b", "let", "var a", "{a}", "async\nfunction c(){}", "(class{})", "[]", "function*(){}", "const a=1", "a=1", "async", "abstract", "in"))
		case 9:
			b.WriteString("export " + pbt.Pick(t, "var ", "let ", "const ") + pbt.Pick(t, id(), id()+"=1", "{"+id()+"}=x", "["+id()+"]=x", "{x:"+id()+"}=x", id()+","+id(), "{..."+id()+"}=x"))
		case 10:
			b.WriteString("export " + pbt.Pick(t, "function ", "function*", "class ", "async function ", "async\nfunction ") + id() + pbt.Pick(t, "(){}", "{}"))
		case 11:
			b.WriteString(pbt.Pick(t, "var ", "let ", "class ", "function ", "const ") + id() + pbt.Pick(t, "", "{}", "(){}", "=1"))
		case 12:
			b.WriteString("import" + pbt.Pick(t, "'x'", "(x)", ".meta", "\"x\"", "()", " 'x' 'y'", ".meta.url"))
		case 13:
			b.WriteString("{" + pbt.Pick(t, "var a", "let a", "export{a}", "import'x'", "function b(){}") + "}")
		case 14:
			b.WriteString(id())
		case 15:
			b.WriteString(pbt.Pick(t, "await x", "function f(){await x}", "await:1", "with(a);", "010", "arguments", "this", "yield", "new.target", "return", "super.x", "l:import'x'", "if(a)export{a}", "var{a,d}=x", "for await(a of b);", "async function f(){await 1}", "var await", "delete a"))
		}
		b.WriteString(pbt.Pick(t, ";", ";", ";", "\n", "\n", " "))
	}
	return b.String()
}

// statements with a missing, surplus or unusual part
func earlyStmt(t *pbt.T, module bool) string {
	sub := func() string {
		return pbt.Pick(t, ";", ";", "x;", "x\n", "{}", "{x}", "let\nx", "let[a]=b;", "let x", "var x;", "const x=1;", "function f(){}", "async function f(){}", "function*f(){}", "class K{}", "if(a);", "l:;", "l:function f(){}", "l:m:function f(){}", "l:class K{}", "async\nfunction f(){}", "import'x'", "export{}", "let\n{}", "l:let\nx", "let", "async x=>x", "while(a);", "'use strict'", "", "do;while(a)", "throw x", "debugger")
	}
	h := pbt.Pick(t, "if(a)S", "if(a)S else S", "if(a);else S", "while(a)S", "do S while(a)", "do S while(a);", "do S while(a)x", "do S\nwhile(a)\nx", "for(;;)S", "for(a of b)S", "for(a in b)S", "for(let a of b)S", "for(var a in b)S", "with(a)S", "l:S", "l:m:S", "if(a){}S", "if(a)S\nelse;", "if a S", "if(a S", "while()S", "for(a)S", "for(;)S", "for(;;;)S", "for(a;b)S", "for(let)S", "for(let;;)S", "for(let of b)S", "for(let of of b)S", "for(let=1;;)S", "for(let[a]of b)S", "for(let.x of b)S", "for(let().x in b)S", "for(let[x]in b)S", "for(async of b)S", "for(async in b)S", "for((async)of b)S", "for await(async of b)S", "for(async.x of b)S", "for(async\nof b)S", "for(/**/async/**/of b)S", "for(\\u0061sync of b)S", "for(var of of of)S", "for(of of of)S", "for(var of;;)S", "for(var i,j of b)S", "for(var i=0,j in b)S", "for(var i=0 in b)S", "for(let i=0 in b)S", "for(var[i]=0 in b)S", "for(var i=0 of b)S", "for(a=b of c)S", "for(a,b of c)S", "for(a of b,c)S", "for(a in b,c)S", "for(a of b;;)S", "for(a in b;;)S", "for((a in b);;)S", "for(var a=(b in c);;)S", "for(var a=b in c;;)S", "for(var a=b?c in d:e;;)S", "for(a=>a in b;;)S", "for(var a=()=>{b in c};;)S", "for(var a=[b in c];;)S", "for(var a=`${b in c}`;;)S", "for(let a,b=f(c in d);;)S", "for(const a;;)S", "for(let a;;)S", "for(const a=1;;)S", "for(const a,b=1;;)S", "for(class{}of b)S", "for('a'of b)S", "for(a()in b)S", "for(a.b of c)S", "for(a?.b of c)S", "for(new.target of b)S", "for(let a of b of c)S",
		"switch(a){S}", "switch(a){case 1:S}", "switch(a){case 1:S default:S}", "switch(a){default:S case 1:S default:S}", "switch(a){case:S}", "switch(a){default 1:S}", "switch(a)S", "switch(a){case 1,2:S}", "try{S}catch{S}", "try{S}finally{S}", "try{S}catch(e){S}finally{S}", "try{S}", "try S catch{}", "try{}catch(e,f){S}", "try{}catch(e=1){S}", "try{}catch(){S}", "try{}finally{}catch{S}", "catch{S}", "try{}catch([a,b]){S}", "throw\nS", "throw x;S", "var a S", "var a,S", "let a\nS", "a\nS", "a S", "{S", "S}", "{S}}", ";;S", "debugger S", "debugger\nS", "return S", "function f(){S}", "function f(){S", "()=>{S}", "x={S}", "f(S)", "S S", "S\nS", "a:b:S", "else S", "case 1:S", "a++\nb;S", "a\n++b;S", "a\n++\nb;S", "if(a)b\nelse c;S", "if(a)b else c;S", "do x while(a)S", "do;while(0)S", "var x\n=1;S", "yield\n:1;S", "x\n=>1;S", "async\nx=>1;S", "async x\n=>1;S", "a\n/b/c;S", "a\n(b);S", "a\n[b];S", "a\n`b`;S", "continue\nS", "new\nx\nS", "export default S", "export S", "async S", "static{S}", "`${S}`")
	for strings.Contains(h, "S") {
		h = strings.Replace(h, "S", strings.ReplaceAll(sub(), "S", ""), 1)
	}
	return earlyWrap(t, h)
}

// wrap a statement in few levels of context
func earlyWrap(t *pbt.T, s string) string {
	for t.P(1, 3) {
		s = strings.Replace(pbt.Pick(t, stmtWraps...), "H", s, 1)
	}
	if t.P(1, 12) {
		s = "'use strict';" + s
	}
	return s
}

// relayout puts blanks, line ends and comments between the tokens.
func relayout(t *pbt.T, s string) string {
	var b strings.Builder
	gap := func(must bool) {
		switch t.Intn(12) {
		case 0:
			b.WriteString("\n")
		case 1:
			b.WriteString("/**/")
		case 2:
			b.WriteString(" //x\n")
		case 3:
			b.WriteString("/*\n*/")
		case 4:
			b.WriteString("\t")
		default:
			if must {
				b.WriteByte(' ')
			}
		}
	}
	for _, c := range s {
		switch {
		case c == ' ':
			gap(true)
		case strings.ContainsRune("(){}[],;:", c):
			gap(false)
			b.WriteRune(c)
			gap(false)
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

func genEarly(t *pbt.T, module bool) string {
	var s string
	switch t.Weighted(4, 2, 3, 3, 4, 3, 2, 2, 2) {
	case 0:
		s = earlyRedeclare(t, module)
	case 1:
		s = earlyJump(t, module)
	case 2:
		s = earlyContext(t, module)
	case 3:
		s = earlyStrict(t, module)
	case 4:
		s = earlyTarget(t, module)
	case 5:
		s = earlyClass(t, module)
	case 6:
		s = earlyLiteral(t, module)
	case 7:
		s = earlyModule(t, module)
	default:
		s = earlyStmt(t, module)
	}
	if t.P(1, 6) {
		s = relayout(t, s)
	}
	return s
}

// Valid forms that mole does not parse (see DESIGN.md): names with escapes that
// spell a keyword, "await" as a plain name within async arrow functions or the
// arguments of async(), likewise "yield" there, "--" before ">" at a line start, two "__proto__" in a pattern.
var earlyUnsupported = regexp.MustCompile(`(?s)\\u.*\\u|aw\\u|\\u0069f|v\\u0061r|n\\u0075ll|tru\\u|async.*(=>|\().*(await|yield)|--\s*>|__proto__.*__proto__`)

// genBorder is genEarly without the unsupported forms.
func genBorder(t *pbt.T, module bool) string {
	for i := 0; i < 5; i++ {
		if s := genEarly(t, module); !earlyUnsupported.MatchString(s) {
			return s
		}
	}
	return "x;"
}
