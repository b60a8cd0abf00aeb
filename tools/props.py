NA = []
NOTES = "Every check builds /verif/harness (Go) against /repo's working tree and searches generated inputs; see DESIGN.md."
ESFILES = ["ecma/parser/parser.go", "ecma/parser/lexer.go", "ecma/parser/token.go", "ecma/estree/convert.go"]
prop("P02", "ES2021+ programs yield the standard ESTree",
 "For every valid ECMAScript program (script or module, syntax up to ES2022 as the default options enable it), parsing succeeds and the ESTree output has exactly the node types, fields, operators, flags and values that the ESTree specification assigns to the program.",
 ["programs", "configurations"], "all syntactically valid programs of every statement, expression, class, function, pattern and module form and their nestings; script and module mode",
 "The suite compares about 3000 fixed snippets, each exercising one construct; whether constructs still combine (a pattern default holding a class inside a for head inside an async arrow ...) is quantified over all programs.",
 ESFILES, [("recursive descent parser", "ecma/parser/parser.go"), ("ESTree conversion", "ecma/estree/convert.go Convert")],
 "grammar-based generation, differential oracle (acorn, cross-checked with babel)",
 "Random search over a context-aware grammar; oracle is acorn's tree, a disagreement counts only when babel builds the same tree as acorn. Trusts acorn/babel where both agree.",
 ["estree.ConvertProg JSON"])
prop("P03", "Source positions of every ESTree node are exact",
 "For every valid ECMAScript program, each ESTree node's start/end byte offsets and line/column location delimit exactly the source text of the construct it stands for, whatever whitespace, comments, line-terminator style or non-ASCII characters surround or precede it.",
 ["programs", "inputs"], "all valid programs under all layouts: LF, CR, CRLF, comments, Unicode spaces, multi-byte characters",
 "The suite checks positions on short one-line ASCII snippets; exact ranges must hold for every nesting, layout and character width.",
 ESFILES + ["span/source.go"], [("range bookkeeping", "ecma/parser/parser.go finRng"), ("offset to line/column", "span/source.go")],
 "grammar-based generation with random trivia, differential oracle (acorn positions mapped to bytes)",
 "As P02, and additionally compares start, end and loc of every node; positions are mapped from UTF-16 units to bytes/characters by the harness.",
 ["estree.ConvertProg JSON"])
prop("P09", "JSX programs yield the standard JSX ESTree with exact positions",
 "For every valid program with JSX elements, fragments, attributes, spreads, entities, text and expression containers, parsing with JSX enabled yields the ESTree that the JSX specification assigns to it, with decoded text and exact node positions.",
 ["programs"], "all JSX trees nested in expressions and vice versa, under all layouts",
 "The suite has a few dozen fixed JSX snippets; lexer mode switching must be right for every nesting of JSX, templates, braces and text.",
 ["ecma/parser/jsx.go", "ecma/parser/lexer.go", "ecma/estree/convert.go"], [("lexer modes", "ecma/parser/lexer.go PushMode/PopMode"), ("JSX grammar", "ecma/parser/jsx.go")],
 "grammar-based generation, differential oracle (acorn-jsx, cross-checked with babel)",
 "As P02/P03 with acorn-jsx. Elements used as the object of a member access or call are not generated (mole does not support them).",
 ["estree.ConvertProg JSON"])
prop("P07", "TypeScript mode keeps the meaning of plain ECMAScript programs",
 "For every program that is valid both as ECMAScript and as TypeScript and means the same in both (no construct of it is claimed by TypeScript's grammar, such as f<a>(b)), parsing with the TypeScript feature on succeeds and yields the same ESTree, node by node and with the same positions, as parsing with it off; comparisons, shifts, conditionals, case clauses, arrow functions, class members and JSX elements keep their meaning, and the contextual keywords of TypeScript (type, as, namespace, module, declare, abstract, readonly ...) stay ordinary names wherever they do not begin a TypeScript construct.",
 ["programs", "configurations"], "all valid ECMAScript and JSX programs, script and module mode, with ordinary and with TypeScript-specific names",
 "TypeScript mode re-uses the expression parser with backtracking (type arguments or comparison, annotation or conditional, generic arrow or JSX); the suite has fixed snippets, while the ambiguities arise in every nesting.",
 ["ecma/parser/parser.go", "ecma/parser/ts.go", "ecma/parser/lexer.go", "ecma/parser/jsx.go"], [("type arguments or comparison", "ecma/parser/ts.go tsAheadIsTypArgs, tsTryTypArgs"), ("type annotations in parenthesised expressions", "ecma/parser/parser.go assignExpr, parenExpr"), ("state save and restore", "ecma/parser/lexer.go PushState/PopState"), ("contextual keywords", "ecma/parser/ts.go aheadIs*")],
 "grammar-based generation, metamorphic oracle (the same text with TypeScript off), confirmed by babel and the TypeScript compiler",
 "The two trees of mole are compared after dropping empty TypeScript fields; a difference counts only if babel gives the same tree for the text with and without its TypeScript plugin and the TypeScript compiler's parser accepts it.",
 ["estree.ConvertProg JSON"])
prop("P04", "Invalid ECMAScript programs are rejected with a syntax error",
 "For every text that is not a valid ECMAScript script or module, because the grammar does not derive it or because an early-error rule forbids it (redeclared lexical bindings, invalid assignment targets and patterns, misplaced break/continue/return/yield/await/super/new.target, unknown labels and private names, duplicate constructors and defaults, strict-mode restrictions, malformed literals and escapes, missing or surplus tokens ...), parsing returns an error and no tree; it never silently accepts the text.",
 ["programs", "configurations"], "invalid programs: every kind of early error and malformed construct placed at any position and nesting depth; random token edits of valid programs; script and module mode",
 "The suite has a few hundred fixed invalid snippets, each at top level; whether an error is still noticed inside another construct is quantified over all nestings.",
 ["ecma/parser/parser.go", "ecma/parser/lexer.go", "ecma/parser/symtab.go"], [("early errors", "ecma/parser/parser.go"), ("redeclarations", "ecma/parser/symtab.go AddLocal"), ("lexical errors", "ecma/parser/lexer.go")],
 "generation of invalid programs (error catalogue in random wrappers, wild grammar, token mutation), differential oracle (acorn and babel both reject)",
 "A program counts only when acorn and babel both reject it. The known laxities of mole (DESIGN.md, known-findings.jsonl) are recognised by acorn's reason and the program's shape and left out; because further rare ones exist in the wild part, the case sequence is fixed (independent of VERIF_SEED).",
 ["parser.Prog error"])
prop("P17", "The source reader delivers exactly the decoded text, offsets and line/columns",
 "For every byte string and every sequence of reads, lookaheads, conditional advances, whitespace skips and state push/pop/discard, span.Source returns the code points of the text (CR and CRLF as one LF, invalid UTF-8 as the replacement rune, EOF at the end), its byte and rune offsets always denote the reading position, restoring a state makes later reads repeat exactly, and LineCol/OfstLineCol translate any offset to the line and column counted from CR, LF and CRLF.",
 ["inputs", "histories"], "texts mixing all line terminators, multi-byte, astral and invalid UTF-8; operation sequences up to 20 steps",
 "The suite has a handful of fixed reads; offsets must be right after every history of reads, lookaheads and backtracking on every text.",
 ["span/source.go"], [("reader", "span/source.go Read, SkipSpace, PushState/PopState"), ("positions", "span/source.go LineCol, OfstLineCol")],
 "stateful model-based testing against an index-based reference reader", "Random operation sequences against an independent model.", ["span.Source methods"])
prop("P18", "Removing JSON comments keeps the value and the positions",
 "For every JSON document with // and /* */ comments and trailing commas, RemoveJsonComments yields plain JSON with the same value, never touching text inside strings (whatever escapes, slashes or quotes they hold), and each remaining token stays on its line and, unless a multi-line comment ends on that line, in its column.",
 ["inputs"], "all JSON values with comments, trailing commas and any line terminators between any two tokens",
 "The suite has four fixed documents; string escapes, comment look-alikes and terminators combine without bound.",
 ["util/str.go"], [("comment remover", "util/str.go RemoveJsonComments")],
 "generation of commented JSON, oracle: encoding/json on the same document without comments plus a position check", "Random documents; exact value comparison.", ["util.RemoveJsonComments"])
prop("P19", "Directory walks are complete, ordered and stoppable",
 "For every directory tree and number of workers, DirWalker.Walk calls the handle exactly once for every file and directory, a directory before its entries and the files of a directory in lexical order, and then returns; if a handle calls Stop or a directory cannot be read, Walk returns with that error; in every case no goroutine is left and the handle is not called after Walk returned.",
 ["inputs", "schedules", "faults"], "random trees up to 40 entries, 1-16 workers, stop requests from one or many handles, directories vanishing during the walk, missing root",
 "The suite walks one fixed tree and one immediate stop; completeness, leaks and races depend on the schedule.",
 ["util/walkdir.go"], [("worker pool", "util/walkdir.go walk, Walk, Stop")],
 "generated trees and stop/fault schedules under the race detector, oracle: the tree itself and a goroutine census", "Schedules are those the Go scheduler produces, with the race detector on; not exhaustive.", ["DirWalker handle calls", "DirWalker.Err"])
prop("P20", "Concurrent requests share one parse and all get its result",
 "For every interleaving of requests for files to ParseCache, each key is parsed exactly once, and every request, before or after the parse finished, eventually receives that parse's result (whatever its type, nil included); no request blocks forever or panics.",
 ["schedules", "histories"], "up to 15 requests for 4 keys, sequential and concurrent, issued before, while and after the parse finishes",
 "No test covers the cache; the guarantee is about all interleavings.",
 ["parseutil/cache.go"], [("cache", "parseutil/cache.go Parse")],
 "generated request histories and schedules under the race detector, oracle: one parse per key, all results identical", "Schedules are steered by holding the parser back; otherwise as the Go scheduler produces them.", ["ParseCache.Parse futures"])
prop("P24", "Ordered map and LRU cache behave as their models",
 "For every history of operations, OrderedMap keeps the last value set per key and iterates keys in the order of their last Set, and LruCache never holds more than its capacity, keeps the most recently set keys, evicts the configured number of least recently set ones only when a new key meets a full cache, and reports evicted keys as absent.",
 ["histories", "configurations"], "histories of up to 40 operations over 12 keys, capacities 1-9, clear counts 0-11",
 "No test covers these containers; they must hold for every history.",
 ["util/map.go", "util/lru.go"], [("ordered map", "util/map.go"), ("lru cache", "util/lru.go")],
 "stateful model-based testing", "Random histories against a list model, all keys checked after every step.", ["util.OrderedMap", "util.LruCache"])
prop("P12", "Tree walks visit every node once, nested, in source order, with exact context",
 "For every valid program, walking its tree visits each node exactly once (identifiers, literals, patterns, members, clauses and statements alike), raises an enter event before and a leave event after those of its children, visits siblings in source order, reports for each event the node's true parent and a path that leads to it (and stays so when kept), calls, in the order of registration, exactly the listeners registered (and not removed) for the event in this context, atoms included, and after Stop calls no listener for a further enter event or for the event that stopped it.",
 ["programs", "histories"], "all valid programs (script and module), listeners for any/typed nodes, enter, leave and visitor impls, several contexts, Stop at any event",
 "The suite walks about forty fixed snippets for single constructs; a node type omitted or visited twice under some parent is a fact about all trees.",
 ["ecma/walk/visitor.go", "ecma/walk/walker.go", "ecma/walk/ctx.go"], [("generated visitors", "ecma/walk/visitor.go"), ("walk context", "ecma/walk/walker.go")],
 "grammar-based generation; invariants over the event history, with the reference parser's node list as oracle",
 "Event histories of generated programs are compared with the set of nodes of the reference ESTree and checked as a properly nested traversal. Type annotations and decorators are not visited by design and not generated.",
 ["WalkCtx listeners", "VisitorCtx.ParentNode/Path/Stop"])
prop("P11", "Names resolve to the binding the language's scoping rules give",
 "For every valid program, at each identifier reference the scope reported by the walker resolves the name to the binding that ECMAScript's scoping rules select (innermost enclosing var, let, const, class, function, parameter, catch, import or named-expression binding), and to none exactly when the name is not declared in the program; scopes seen while walking are those created for the construct while parsing.",
 ["programs"], "programs declaring five names over and over in nested functions, arrows, classes, blocks, loops, switches, catch clauses, patterns, static blocks and modules",
 "The suite resolves names in a dozen fixed snippets; shadowing and hoisting combine without bound.",
 ["ecma/parser/symtab.go", "ecma/parser/parser.go", "ecma/walk/visitor.go"], [("scopes and bindings", "ecma/parser/symtab.go Scope.BindingOf, AddLocal"), ("scope numbering", "ecma/walk/walker.go PushScope")],
 "generation of shadowing-heavy programs, differential oracle (eslint-scope)",
 "Left out: Annex B block functions of scripts, and names used in a parameter list / switch test / catch parameter but declared in the body (mole keeps one scope for both by design).",
 ["VisitorCtx.WalkCtx.Scope().BindingOf"])
prop("P14", "The expression evaluator computes the values the language gives",
 "For every expression made of literals, variables, arrays, property and element accesses, + - * /, unary + - !, == != === !==, && || and Array includes, and every assignment of variables (missing ones count as undefined), the evaluator returns the value that ECMAScript gives (null and undefined both as nil, an access on nil yields nil), without changing the variables, and again so when the same evaluator runs a second time with other variables.",
 ["inputs", "histories"], "expressions up to depth 5 over numbers, strings, booleans, arrays, objects and missing values; int and float variables",
 "The suite evaluates about twenty fixed expressions; coercions and nesting combine without bound.",
 ["ecma/exec/vm.go"], [("evaluator", "ecma/exec/vm.go ExprEvaluator"), ("conversions", "ecma/exec/vm.go ToNum, ToStr, ToBool")],
 "generation of typed expressions, differential oracle (V8)",
 "Left out: what depends on null versus undefined (their sum, string, strict equality), coercion of arrays and objects, inherited properties such as length, and operators the evaluator does not offer.",
 ["ExprEvaluator.Exec/GetResult"])
prop("P15", "Branch selection collects exactly what would run",
 "For every program of if/else-if/else, conditional, && and || over known variables, CollectNodesInTrueBranches returns exactly the nodes of the requested types that lie in code which runs under these variables: tests and both operands where they are evaluated, only the taken branch otherwise, each node once.",
 ["programs", "inputs"], "nested if chains, conditional and logical expressions in statements, arguments, arrays, templates and immediately called functions",
 "The suite has eight fixed snippets; which branches are live depends on all nested tests together.",
 ["ecma/astutil/astutil.go", "ecma/exec/vm.go"], [("branch selection", "ecma/astutil/astutil.go SelectTrueBranches, CollectNodesInTrueBranches")],
 "generation of branching programs, oracle: the trace of calls when V8 runs the program",
 "Tests use the evaluator's operators (see P14).",
 ["astutil.CollectNodesInTrueBranches"])
prop("P16", "Function dependencies are exactly the declarations a function can reach",
 "For every module, IsFnDepsOnNode on the graph of BuildFnDepGraph holds for a function and a top-level declaration exactly when the function, a function inside it, or a function these refer to by name (function declarations and variables initialised with a function) refers to a name bound by that declaration; property names, labels, shadowed names and the function's own name or locals do not count.",
 ["programs"], "modules of up to six top-level declarations (imports, functions, variables, patterns, classes) used and shadowed in nested functions, methods, arrows and blocks",
 "The suite has five fixed chains; shadowing, nesting and cycles combine without bound.",
 ["ecma/astutil/astutil.go", "ecma/walk/walker.go", "ecma/parser/symtab.go"], [("dependency graph", "ecma/astutil/astutil.go BuildFnDepGraph, IsFnDepsOnNode")],
 "generation of modules, differential oracle (reachability over eslint-scope)",
 "Default parameter values and re-declared vars are not generated.",
 ["astutil.IsFnDepsOnNode"])

prop("P13", "Control flow graphs contain exactly the possible orders of evaluation",
 "For every script or function built from expression and variable statements, if, while, do-while, for, for-in/of, switch, labels, break, continue, return, throw, try/catch and every operator, call, member, literal, template and pattern form, the control flow graph leads from each evaluated name to every name (or the exit) that can be evaluated next, loops, labelled jumps, exceptions and short-circuits included; names that can be evaluated are never cut off; and when the program has no short-circuit operators, patterns with defaults or try, the graph has no other connection and leads to no unreachable name.",
 ["programs"], "programs of up to 24 nested statements and expressions over unique names; excluded: finally, ??, static blocks and generators",
 "The suite pins about a hundred fixed graphs, mostly of one construct; how jumps, dead code and exceptions link across nested constructs is quantified over all nestings.",
 ["ecma/analysis/ctrlflow.go", "ecma/analysis/graph.go"], [("graph construction", "ecma/analysis/ctrlflow.go handleAfter"), ("linking and cutting", "ecma/analysis/graph.go link, join, grpBlock")],
 "generation of programs together with their reference flow (structural, continuation-passing), comparison of the successor relations",
 "The reference flow is computed from the generated syntax tree by an independent construction; loops on truthy literals never end, falsy literals may.",
 ["analysis.Graph blocks and edges", "Block.IsInCut", "Graph.BlkOfNode"])
prop("P01", "Any text is parsed or rejected with a positioned error",
 "For every byte string (valid or not, any encoding errors included) and every combination of features (script or module, JSX, TypeScript, declaration files, single ES features switched on or off), parsing terminates without a panic and yields either a tree or an error whose line and column lie in the text; every tree it yields converts to an ESTree whose node ranges lie in the text, and can be walked.",
 ["inputs", "configurations"], "random characters, random token sequences, and valid and invalid JavaScript, JSX and TypeScript programs with random token and byte edits and truncations, under random feature sets",
 "The suite feeds well-formed snippets and a few hundred hand-made errors; that no text at all crashes or hangs the parser cannot be sampled by hand.",
 ["ecma/parser/parser.go", "ecma/parser/lexer.go", "ecma/parser/ts.go", "ecma/parser/jsx.go", "ecma/estree/convert.go", "ecma/estree/ts_convert.go", "ecma/walk/visitor.go", "span/source.go"], [("entry point", "ecma/parser/parser.go Prog"), ("error positions", "ecma/parser/errors.go"), ("lexer", "ecma/parser/lexer.go")],
 "structure-aware fuzzing (grammar, token soup, byte soup, mutation) with validity oracles",
 "Texts are short (up to a few hundred bytes); stack depth of deeply nested input is not explored. A case that runs for a minute counts as endless.",
 ["parser.Prog result and error", "estree.ConvertProg", "walk.VisitNode"])
prop("P10", "A feature switched off rejects exactly the programs that use it",
 "For every program valid with all ES features on and every single feature (exponentiation, nullish, logical assignment, optional chaining and catch binding, BigInt, numeric separators, dynamic import, export-all-as, async functions, async generators and iteration, meta properties, let/const, public and private fields, private names, spread/rest, nested rest, binding patterns, bad escapes in tagged templates, JSX), parsing with that feature off fails if the program uses the construct, and otherwise gives the identical tree.",
 ["programs", "configurations"], "all valid programs (script, module, JSX) times each feature switch",
 "The suite switches features off in a few fixed snippets; that a switch affects no unrelated program is a statement about all programs.",
 ["ecma/parser/parser.go", "ecma/parser/lexer.go", "ecma/parser/feature.go"], [("feature tests", "ecma/parser/parser.go p.feat"), ("feature tests of the lexer", "ecma/parser/lexer.go l.feat")],
 "grammar-based generation, metamorphic relation (same program with and without the feature)",
 "Use of a construct is read off the full tree. Not covered: let/const in scripts when off (let is then a name), arrow parameters for the binding pattern switch, strict/module/TypeScript switches.",
 ["parser.Prog result", "estree.ConvertProg JSON"])
prop("P21", "Parsing is deterministic and parsers do not influence each other",
 "For every set of texts, parsing, converting and walking each of them gives the same result (tree, error, scopes seen by the walker) when repeated, whatever was parsed before, and when all are processed concurrently on several goroutines, without data races.",
 ["inputs", "schedules", "histories"], "batches of up to 7 valid and invalid texts under random features, processed in sequence, in reverse and on up to 21 goroutines",
 "The suite parses one text at a time; shared state shows only under particular orders and interleavings.",
 ["ecma/parser/parser.go", "ecma/parser/lexer.go", "ecma/parser/token.go", "ecma/walk/walker.go", "ecma/estree/convert.go"], [("package state", "ecma/parser/token.go TokenKinds"), ("parser state", "ecma/parser/parser.go NewParser"), ("file-level concurrency", "parseutil/cache.go")],
 "generated batches run in several orders and concurrently under the race detector, oracle: the first sequential run",
 "Schedules are those the Go scheduler produces.", ["parser.Prog", "estree.ConvertProg JSON", "walk listeners"])
prop("P22", "The command line tool and the WebAssembly build give the library's result",
 "For every text, the command line tool (-ast -file F) writes next to F, under F's name with _ast before the extension, exactly the ESTree the library gives for the text under default options (without line/columns), touches no other file, and exits with 0; if the text is not valid it writes no tree, prints the parser's error and exits non-zero. The WebAssembly compile function returns the same tree (with line/columns) or the same error. Trees with and without line/columns differ in nothing else.",
 ["inputs", "configurations"], "valid and invalid texts; file names with no, one or several dots, nested directories, relative and absolute paths, with and without -perf",
 "Neither front end has a test; they must agree with the library on every file.",
 ["cli/ast.go", "cli/main.go", "wasm/main.go", "ecma/estree/convert.go"], [("command line tool", "cli/ast.go printJsAst"), ("WebAssembly export", "wasm/main.go compile"), ("optional line/columns", "ecma/estree/convert.go ConvertCtx.LineCol")],
 "generated files given to the built programs, differential oracle (the library itself, whose trees P02/P03/P09 decide)",
 "The command line tool runs on every twelfth case (a process each); the pbcopy branch is not reachable on Linux.",
 ["cli exit status, stderr and output file", "wasm compile result", "estree.ConvertProg JSON"])
prop("P25", "Helpers on nested objects, maps and slices are exact and side-effect free",
 "For every nesting of objects, arrays and values: FlattenMap and JsonToKeyPathAndVal map the dotted path of each leaf to its value and nothing else; WalkObj calls the callback once per value, containers first, with its true path, key and parent, and stops when told; GetByPath finds exactly the value at a path of keys; MergeMaps merges objects key by key, later values winning and null keeping what is there, and leaves the merged maps unchanged; Merge, CloneMap, PickOne, TakeOne, RemoveAt, Copy and Includes do what their names say on every map and slice.",
 ["inputs"], "up to four objects nested four deep with colliding keys, arrays, null, paths of up to three keys, any stopping point",
 "No test covers most of these helpers; aliasing shows only when several nested maps meet under one key.",
 ["util/obj.go", "util/merge.go", "util/sets.go", "util/slice.go"], [("object walk", "util/obj.go WalkObj, FlattenMap, GetByPath"), ("merging", "util/merge.go"), ("sets and slices", "util/sets.go, util/slice.go")],
 "generation of nested objects, oracle: direct recursive definitions and unchanged copies of the arguments", "Random search; exact comparison.",
 ["return values", "arguments after the call"])
