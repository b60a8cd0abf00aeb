package props

import (
	"fmt"
	"os"
	"regexp"
	"strings"
	"sync"

	"molecheck/core"
	"molecheck/jsgen"
	"molecheck/pbt"
)

// Constructs that are early errors, at least in most places; the references
// decide whether the program around them really is invalid.
var poisonStmts = []string{
	"let q1;let q1;", "let q1;var q1;", "var q1;let q1;", "const q1=1;let q1;", "let q1,q1;", "class q1{}class q1{}", "let q1;class q1{}",
	"let[q1,q1]=a;", "let{q1,b:q1}=a;", "{let q1;{var q1}}", "let q1;{var q1}", "for(let q1 of a){var q1}", "for(let q1;;){var q1}",
	"try{}catch(q1){let q1}", "try{}catch([q1]){var q1}", "try{}catch([q1,q1]){}", "let q1;function q1(){}",
	"switch(a){case 1:let q1;case 2:let q1}", "switch(a){case 1:let q1;default:var q1}",
	"break;", "continue;", "break zz;", "continue zz;", "zz:{continue zz}", "zz:zz:;", "zz:{a;zz:;}", "zz:{function f(){break zz}}", "zz:while(1){(()=>{break zz})}",
	"while(1){function f(){break}}", "while(1){()=>{continue}}", "switch(a){case 1:continue}", "switch(a){default:default:}", "switch(a){default:case 1:default:}",
	"return;", "return a", "const q1;", "let{};", "var[];", "const[];", "for(const q1;;);", "for(let{};;);", "for(var q1,q2 of a);", "for(let q1=1 of a);", "for(const q1=1 in a);", "for(let of a);",
	"for(a+b of c);", "for(f() in a);", "for(let q1 of a,b);", "for(var[q1]=1 in a);", "for(this of a);", "for(1;a);", "for(a b;;);",
	"if(a)let q1;", "if(a)let[q1]=a;", "if(a)const q1=1;", "if(a)class q1{}", "while(a)let[q1]=a;", "while(a)class q1{}", "while(a)function q1(){}", "for(;;)function q1(){}", "do function q1(){}while(a)",
	"for(a of b)class q1{}", "zz:class q1{}", "zz:let[q1]=a;", "zz:function*q1(){}", "if(a)function*q1(){}", "if(a)async function q1(){}", "while(a)async function q1(){}",
	"throw\na;", "try{}", "if(a)", "while(a)", "for(;;)", "do;", "a b;", "var;", "let 1;", "var if;", "function if(){}", "class let{}", "class q1 extends{}", "function(){}", "class{}",
	"let let=1;", "const let=1;", "let[let]=a;", "for(let let of a);", "let{a:let}=b;", "var enum;", "enum={};",
	"function f(a,a){'use strict'}", "function f([a],a){}", "function f(a=1,a){}", "function f(...a,b){}", "function f(...a=1){}", "function f(a){let a}", "function f(a=1){'use strict'}", "function f({a}){'use strict'}",
	"function f(eval){'use strict'}", "function eval(){'use strict'}", "function f(){'use strict';with(a);}", "function f(){'use strict';010}", "function f(){'use strict';'\\01'}", "function f(){'use strict';delete a}", "function f(){'use strict';delete((a))}",
	"function f(){'use strict';eval=1}", "function f(){'use strict';arguments++}", "function f(){'use strict';--eval}", "function f(){'use strict';let static}", "function f(){'use strict';var interface}", "function f(){'use strict';var yield}", "function f(){'use strict';var public}",
	"function f(){'use strict';if(a)function g(){}}", "function f(){'use strict';zz:function g(){}}", "function f(){'use strict';[eval]=a}", "function f(){'use strict';({arguments}=a)}", "function f(){'use strict';for(eval of a);}", "function f(){'use strict';try{}catch(eval){}}", "function f(){'use strict';let x;let x}",
	"import'a'", "import a from'a'", "export{}", "export default 1", "export*from'a'",
	"import{a as if}from'a'", "import{if}from'a'", "import a,b from'a'", "import*a from'a'", "import{a}from a", "export{if}", "export a", "export*as from'a'", "export{a as b}from",
	"import{q1,q1}from'a'", "import q1,{q1}from'a'", "let q1;import q1 from'a'", "import{eval}from'a'", "export{zz9}", "export let q1;export{q1}", "export{a as q1,b as q1}from'a'", "export default 1;export default 2", "export function q1(){}export class q1{}",
	"class C{constructor(){}constructor(){}}", "class C{get constructor(){}}", "class C{*constructor(){}}", "class C{async constructor(){}}", "class C{constructor=1}", "class C{static prototype(){}}", "class C{static prototype=1}", "class C{'constructor'(){}constructor(){}}",
	"class C{#a;#a}", "class C{#a;get #a(){}}", "class C{get #a(){}get #a(){}}", "class C{#constructor}", "class C{m(){delete this.#a}#a}", "class C{m(){delete(this.#a)}#a}", "class C{m(){this.#zz}}", "class C{static get #a(){}set #a(v){}}", "class C{m(){#a+1}#a}", "class C extends B{m(){super.#a}#a}",
	"class C{constructor(){super()}}", "class C extends B{m(){super()}}", "class C extends B{constructor(){function f(){super()}}}", "class C extends B{a=super()}", "class C extends B{get a(){super()}}", "class C extends B{static{super()}}",
	"class C{a=arguments}", "class C{static{await}}", "class C{static{return}}", "class C{static{arguments}}", "class C{static{let a;let a}}", "class C{static{break}}", "class C{a b}", "class C{get a}", "class C{a:1}", "class C{get a(b){}}", "class C{set a(){}}", "class C{set a(...b){}}", "class C{set a(b,c){}}", "class C{m(a,a){}}", "class C{m(eval){}}", "class C{m(){with(a);}}", "class C{m(){010}}", "class C{var a}", "class C{let a}",
	"function*g(){function yield(){}yield=1}", "function*g(){var yield}", "function*g(a=yield){}", "function*g(){(a=yield)=>1}", "function*yield(){'use strict'}", "function*g(){yield\n*a}", "function*g(){void yield}", "function*g(){a+yield}", "function*g(){yield=1}",
	"async function f(a=await b){}", "async function f(await){}", "async function f(){var await}", "async function f(){(a=await b)=>1}", "async function f(){for await(a in b);}", "async function f(){for await(a;b;c);}", "function f(){await a}", "function f(){for await(a of b);}", "async function f(){await\n}", "async function f(){function g(){await b}}", "async function f(){await b**c}",
	"({a:1}=1);", "var{a:...b}=c;", "try{}catch(...a){}", "var...a=b;", "let[...a=b]=c;", "var[a,...b,c]=d;", "import{a b}from'a'", "import a'a'", "var{1}=a;", "function f({in}){}", "var const;", "function f(const){}", "class C{(){}}", "class C{a=b c}", "export default a b", "(function()a);", "async a();", "with(a)let[q1]=b;",
}

var poisonExprs = []string{
	"1=2", "a+b=c", "f()=1", "a?.b=1", "this=1", "new.target=1", "(a,b)=1", "`a`=1", "'a'=1", "null=1", "true++", "++1", "f()++", "--this", "a?.b++", "++a?.b", "++[]", "({})++", "++a++", "a++ ++", "(a=b)=c", "a=>b=c=>d=1=2",
	"[]+=1", "({})-=1", "[a]&&=1", "({a})??=1", "[1]=a", "[a+b]=c", "({a:1}=b)", "({a:f()}=b)", "[...a,]=b", "[...a,b]=c", "({...a,b}=c)", "({...{a}}=b)", "({...[a]}=b)", "[(a=1)]=b", "[([a])]=b", "({a:({b})}=c)", "([a])=1", "({a})=1", "([a])=>1", "((a))=>1", "({a:b.c})=>1", "[a.b]=>1", "(a.b)=>1", "(a+b)=>1", "(1)=>1", "(a,1)=>1", "({a:1})=>1", "({get a(){}})=>1", "({a(){}}=1)", "({get a(){}}=1)", "(...a,b)=>1", "(...a,)=>1", "(...a)", "(...a=1)=>1", "()", "()+1", "(a,)", "(,a)", "(a,)+1", "a\n=>1", "()\n=>1", "async\n()=>1", "async()\n=>1", "async a\n=>1", "async(a,a)=>1", "(a,a)=>1", "([a],a)=>1", "(a,[...a])=>1", "({a,b:a})=>1", "(a)=>{let a}", "a=>{let a}", "(a=1)=>{'use strict'}", "async(a=await b)=>1", "async(await)=>1", "async await=>1", "a=>{}()", "()=>{}.b", "()=>{}||a", "a||()=>{}", "a+()=>1", "()=>{}?a:b", "typeof()=>1", "new()=>1", "()=>{}`a`", "a=>a,=>b",
	"({a=1})", "f({a=1})", "[{a=1}]", "({a=1}).b", "({a=1})+b", "-{a=1}", "a={b=1}", "({a={b=1}}={c=1})", "{a=1}=>b", "({__proto__:a,__proto__:b})", "({__proto__:a,'__proto__':b})", "({a b})", "({a:})", "({a,,b})", "({,})", "({get a})", "({get a(b){}})", "({set a(){}})", "({set a(b,c){}})", "({set a(...b){}})", "({async get a(){}})", "({get*a(){}})", "({async a})", "({*a})", "({a(){super()}})", "({a:function(){super.b}})", "({a:()=>super.b})", "({if})", "({[a]})", "({#a:1})", "({a(b,b){}})", "({a(b){let b}})", "({a([b]){'use strict'}})", "({async*yield(){var yield}})",
	"super()", "super.a", "super[a]", "super", "new super", "new super()", "new.target", "new.foo", "new.t\\u0061rget", "import.foo", "import.m\\u0065ta", "import", "import()", "import(...a)", "import(a,b,c)", "new import(a)", "a.#b", "#b in a", "#b", "this.#b",
	"a??b||c", "a||b??c", "a&&b??c", "a??b&&c", "-a**b", "!a**b", "delete a**b", "typeof a**b", "void a**b", "await a**b", "a?b", "a?b:", "a?:b", "a[", "a]", "a.", "a..b", "a.1", "a?.", "a?.`b`", "a?.b`c`", "a?.b()`c`", "a?.[b]`c`", "new a?.b", "new a?.()", "a?.#b", "a?.b=>1", "delete a?.#b",
	"`${}`", "`${a", "`${a}", "`", "`\\u`", "`\\x1`", "`\\01`", "`${a b}`", "'", "'\n'", "'\\u{110000}'", "'\\u{}'", "'\\u12'", "'\\xg'", "\"", "/a", "/a\n/", "/[/", "/(/", "/a/gg", "/a/z", "/a/\\u0067", "08n", "1_", "1__0", "0_1", "1_.0", "1._0", "1e_1", "0x_1", "0b2", "0o8", "0x", "0b", "1e", "1e+", "3in[]", "3a", "0xg", "1n.5", "1.5n", "1e3n", "01n", ".e1", "\\u0031a", "a\\u{110000}", "a\\u002b", "a\\x61", "v\\u0061r", "n\\u0065w a", "t\\u0068is", "nul\\u006c", "class if{}", "class extends a{}()", "function(a,){}(,)", "f(,)", "f(a,,b)", "f(a b)", "f(a", "f(...)", "[a", "[...]", "[a b]", "{a:", "a{", "@a", "#!a", "a#b", "a @ b", "a =", "= a", "a +", "* a", "a ! b", "a !", "~", "typeof", "new", "delete", "in a", "a in", "instanceof a", "if", "else", "var", "function", "class", "case", "default", "while", "enum", "yield 1", "await 1", "async function(){await}", "async()=>{await}", "async function await(){}", "function*yield(){}", "function*(){yield\n* a}", "(function eval(){'use strict'})", "(function(a,a){'use strict'})", "class{constructor(){super()}}", "class{#a;#a}", "class{m(){this.#zz}}", "class eval{}", "class yield{}", "class static{}", "class extends(eval=1){}",
	"a=>{break}", "a=>{continue}", "function(){break}", "a=>{await b}", "function(){yield b}", "(a=super.b)=>1", "a=>super()", "'use strict'=1", "a,=b", "a;b", "a:b", "...", "...a", "a...b", "<a>", "a->b", "a=<b", "a!=>b", "a====b", "a+++++b", "a\\", "\\", "a\x00b", "a\u200f",
}

// wrappers for a statement and for an expression; H is the hole.
var stmtWraps = []string{"{H}", "if(a){H}", "if(a);else{H}", "for(;;){H}", "for(b of c){H}", "for(var v in c){H}", "while(a){H}", "do{H}while(a)", "try{H}catch{}", "try{}catch(e){H}", "try{}finally{H}", "switch(a){case 1:H}", "switch(a){default:H}", "zl:{H}", "function f1(){H}", "async function f2(){H}", "function*f3(){H}", "async function*f4(){H}", "(()=>{H});", "(async()=>{H});", "(function(){H});", "(function*(){H});", "({m(){H}});", "({get m(){H}});", "({set m(v){H}});", "({async m(){H}});", "({*m(){H}});", "(class{m(){H}});", "(class{static m(){H}});", "(class{constructor(){H}});", "(class extends a{constructor(){H}});", "(class{static{H}});", "(class{f=()=>{H}});", "(class{get a(){H}});", "var v=function(){H};", "a=b=>{H};", "f(()=>{H});", "export default function(){H}", "export class K{m(){H}}", "(function(){'use strict';H});"}
var exprWraps = []string{"E;", "(E);", "var v=E;", "let w=E;", "const w=E;", "v=E;", "v+=E;", "f(E);", "f(a,E);", "f(...E);", "new f(E);", "[E];", "[a,E];", "[...E];", "({a:E});", "({[E]:a});", "({...E});", "(a,E);", "a?E:b;", "a?b:E;", "a[E];", "`${E}`;", "`a${b}c${E}`;", "x=>E;", "(x=E)=>1;", "async()=>E;", "(function(x=E){});", "(function({y=E}){});", "({m(x=E){}});", "if(E);", "while(E);", "do;while(E)", "for(E;;);", "for(;E;);", "for(;;E);", "for(v of E);", "for(v in E);", "for(var v=E;;);", "switch(E){}", "switch(a){case E:}", "throw E;", "(class extends(E){});", "(class{[E]=1});", "(class{a=E});", "(class{static a=E});", "(class{[E](){}});", "!E;", "typeof(E);", "a+(E);", "a&&(E);", "a**(E);", "function f1(){return E}", "async function f2(){await(E)}", "function*f3(){yield E}", "function*f3(){yield*E}", "export default E;", "export const w=E;", "var{y=E}=a;", "var[y=E]=a;", "({y=E}=a);", "[y=E]=a;", "import(E);", "with(E);"}

var mutToks = []string{"(", ")", "[", "]", "{", "}", ";", ",", ".", "?.", "?", ":", "=>", "=", "...", "a", "b", "1", "'s'", "`t`", "/r/", "+", "-", "*", "**", "++", "--", "!", "&&", "||", "??", "<", ">", "+=", "in", "of", "let", "const", "var", "function", "class", "async", "await", "yield", "static", "get", "set", "new", "super", "this", "return", "if", "else", "for", "while", "do", "break", "continue", "switch", "case", "default", "try", "catch", "finally", "throw", "import", "export", "extends", "null", "delete", "typeof", "#p", "target", "from", "as", "eval", "arguments", "\n"}

func genInvalid(t *pbt.T) *Prog {
	c := Cfg{Module: t.P(1, 2), Flags: true}
	switch t.Weighted(5, 3, 3, 12) {
	case 0:
		var h string
		if t.Bool() {
			h = pbt.Pick(t, poisonStmts...)
		} else {
			h = strings.Replace(pbt.Pick(t, exprWraps...), "E", pbt.Pick(t, poisonExprs...), 1)
		}
		for n := t.Geo(1, 2); n > 0; n-- {
			if t.P(1, 4) {
				h = "a;" + h
			}
			if t.P(1, 4) {
				h += "\nb;"
			}
			h = strings.Replace(pbt.Pick(t, stmtWraps...), "H", h, 1)
		}
		return &Prog{c, h}
	case 3:
		return &Prog{c, genEarly(t, c.Module)}
	case 1:
		g := jsgen.New(t, jsgen.Opts{Module: c.Module, Wild: []int{2, 6, 15}[t.Intn(3)]}, budget(t))
		g.Program()
		return &Prog{c, jsgen.Render(t, g.Out, jsgen.Style{Mode: t.Weighted(3, 1, 1), NoLS: true})}
	}
	g := jsgen.New(t, jsgen.Opts{Module: c.Module}, budget(t))
	g.Program()
	for n := 1 + t.Geo(1, 3); n > 0 && len(g.Out) > 0; n-- {
		i := t.Intn(len(g.Out))
		switch t.Intn(4) {
		case 0:
			g.Out = append(append([]jsgen.Tok{}, g.Out[:i]...), g.Out[i+1:]...)
		case 1:
			g.Out = append(append(append([]jsgen.Tok{}, g.Out[:i]...), g.Out[i]), g.Out[i:]...)
		case 2:
			k := jsgen.Tok{S: pbt.Pick(t, mutToks...)}
			g.Out = append(append(append([]jsgen.Tok{}, g.Out[:i]...), k), g.Out[i:]...)
		case 3:
			g.Out[i].S = pbt.Pick(t, mutToks...)
		}
	}
	return &Prog{c, jsgen.Render(t, g.Out, jsgen.Style{Mode: 0, NoLS: true})}
}

// Early errors that mole is known not to report (DESIGN.md lists them with a
// minimal input each): the reason acorn gives, and a shape of the program. A
// program rejected for such a reason says nothing here.
var laxErrors = [][2]*regexp.Regexp{
	// import and export in scripts are governed by their own feature flags
	lax(`Cannot use 'import.meta'|'import' and 'export' may appear only with`, ``),
	lax(`Invalid regular expression: `, ``),
	lax(`.*in class static initialization block`, ``),
	lax(`(Assigning|Assigning to|Binding) (eval|arguments) in strict mode`, `extends|import|class eval|new|async|\(\s*(eval|arguments)`),
	lax(`Cannot use 'await' as identifier`, `async`),
	lax(`Cannot use 'yield' as identifier`, `function\s*\*|async|\*m`),
	lax(`Await expression cannot be a default value`, ``),
	lax(`Shorthand property assignments`, ``),
	lax(`Unexpected token`, `(?s)for\s*\(.*[{,]\s*\w+\s*=[^=>]`),
	lax(`Unexpected token`, `[{,]\s*(\d|['"])\w*['"]?\s*[,}]`),
	lax(`Cannot use keyword 'await' outside`, `function(\s|/\*|//)*\*?(\s|\*/|//x)*await`),
	lax(`Cannot use 'yield' as identifier`, `[{,]\s*yield\s*[,}=]`),
	lax(`Yield expression cannot be a default`, `async|=>`),
	lax(`Unexpected (token|keyword)`, `import.*as|=[^}]*}\s*[(\[.]|(in|const)\s*[:=]|(?s)class.*[!?]|const\s*\.\.\.|async`),
	lax(`The left-hand side of a for-of`, `let\s*\.`),
	lax(`Unexpected token`, `[{,]\s*\w+\s*=\s*\w`),
	lax(`Unexpected keyword`, `import`),
	lax(`Classes can't have a field`, `constructor\s*[!?]`),
	lax(`Assigning to rvalue`, `for\s*\(\s*\(`),
	lax(`Cannot use keyword 'await'`, `class\s+await`),
	lax(`'super' keyword outside a method`, `class`),
	lax(`super\(\) call outside|Invalid use of 'super'`, `new\s+super|(?s)class.*class`),
	lax(`Octal literal in strict mode|Invalid escape sequence`, `import|export|\\[89]|class`),
	lax(`'new.target' can only`, `=>|class`),
	lax(`Assigning to rvalue`, `[\]})]\s*[-+*/%&|^?<>]+=`),
	lax(`Cannot use 'arguments' in class field`, ``),
	lax(`Binding member expression|Parenthesized pattern`, `=`),
	lax(`.*has already been declared|.*is disallowed as a lexically`, `async\s+function|function\s*\*`),
	lax(`Private field`, `(?s)class.*class`),
	lax(`Redefinition of __proto__`, `async|\.\.\.`),
	lax(`Unexpected token`, `(?s)class.*extends.*=>`),
	lax(`Cannot use keyword 'await' outside`, `class|function`),
	lax(`Unexpected token`, `(?s)\(.*[\[{].*=[^>].*=>`),
	lax(`Duplicate export`, `\*\s*as`),
	lax(`The keyword|.with. in strict|Deleting local|Argument name`, `extends|=>|private|let\s*\.\.\.`),
}

var (
	laxOnce sync.Once
	laxList map[string]bool
)

// laxKnown loads the specific programs of the case sequence that mole is known
// to accept wrongly; every other accepted invalid program is a violation, also
// one of the same shape.
func laxKnown() { laxOnce.Do(func() { laxList = core.Known("known-p04.txt") }) }

func laxHash(in *Prog) string {
	return fmt.Sprintf("%016x", core.Hash(fmt.Sprintf("%v %s", in.Module, in.Code)))
}

func lax(msg, code string) [2]*regexp.Regexp {
	return [2]*regexp.Regexp{regexp.MustCompile("^(" + msg + ")"), regexp.MustCompile(code)}
}

func isLax(msg, code string) bool {
	for _, l := range laxErrors {
		if l[0].MatchString(msg) && l[1].MatchString(code) {
			return true
		}
	}
	return false
}

func init() {
	core.Def(core.Prop{ID: "P04", Quick: 1200000, Thorough: 1200000, FixedSeed: true,
		Rule: "acorn and babel both reject the program, and so does mole"},
		genInvalid,
		func(in *Prog) core.Outcome {
			r, err := esCompare(in, false)
			if r.Verdict == "overaccept" && isLax(r.Msg, in.Code) && os.Getenv("MOLECHECK_FINDING") == "" {
				h := laxHash(in)
				if f := os.Getenv("MOLECHECK_LAXOUT"); f != "" {
					o, _ := os.OpenFile(f, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
					fmt.Fprintln(o, h)
					o.Close()
				} else if laxKnown(); !laxList[h] {
					o := esOutcome(in, r, err, "bothreject")
					o.Soft = true
					return o
				}
				return core.Skip("lax")
			}
			if r.Verdict == "diff" || r.Verdict == "overreject" {
				return core.Skip("verdict:" + r.Verdict) // P02
			}
			return esOutcome(in, r, err, "bothreject")
		})
}
