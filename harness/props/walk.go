package props

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/hsiaosiyuan0/mole/ecma/estree"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/ecma/walk"

	"molecheck/core"
	"molecheck/pbt"
)

// WalkCase is a program, the walk of which is stopped at one of its events.
type WalkCase struct {
	Prog
	Stop  int        `json:"stop"`
	After bool       `json:"after,omitempty"` // stop in the leave event instead of the enter event
	Types []int      `json:"types"`           // picks of the node types to listen for
	Ops   []ListenOp `json:"ops,omitempty"`   // a history of registrations
}

type walkEvent struct {
	n      parser.Node
	key    string
	leave  bool
	parent parser.Node
	vc     *walk.VisitorCtx
	path   string
}

func listenAll(wc *walk.WalkCtx, id string, enter, leave func(n parser.Node, key string, c *walk.VisitorCtx)) {
	if enter != nil {
		walk.AddBeforeListener(&wc.Listeners, &walk.Listener{Id: id, Handle: enter})
	}
	if leave != nil {
		walk.AddAfterListener(&wc.Listeners, &walk.Listener{Id: id, Handle: leave})
	}
}

func record(prog parser.Node, symtab *parser.SymTab, stop int, stopAfter bool) []walkEvent {
	wc := walk.NewWalkCtx(prog, symtab)
	wc.Path = true
	var evs []walkEvent
	on := func(leave bool) func(n parser.Node, key string, c *walk.VisitorCtx) {
		cnt := 0
		return func(n parser.Node, key string, c *walk.VisitorCtx) {
			e := walkEvent{n: n, key: key, leave: leave, vc: c, path: strings.Join(c.Path, ".")}
			if c.Parent != nil {
				e.parent = c.ParentNode()
			}
			evs = append(evs, e)
			if cnt++; leave == stopAfter && cnt == stop {
				c.WalkCtx.Stop()
			}
		}
	}
	listenAll(wc, "rec", on(false), on(true))
	walk.VisitNode(prog, "", wc.VisitorCtx())
	return evs
}

func nodeStr(n parser.Node, code string) string {
	r := n.Range()
	return fmt.Sprintf("%s[%d,%d]", n.Type(), r.Lo, r.Hi)
}

// the node types which are written in the order opposite to their visit
var anyOrder = map[parser.NodeType]bool{parser.N_IMPORT_SPEC: true, parser.N_EXPORT_SPEC: true}

var shorthand = map[parser.NodeType]bool{parser.N_IMPORT_SPEC: true, parser.N_EXPORT_SPEC: true, parser.N_PROP: true}

func isShorthand(first parser.Node, e walkEvent) bool {
	if first == nil || !shorthand[first.Type()] {
		return false
	}
	p := e.parent
	if p != nil && p.Type() == parser.N_PAT_ASSIGN && e.vc.Parent.Parent != nil {
		p = e.vc.Parent.ParentNode()
	}
	return p == first
}

func checkWalk(in *WalkCase, prog *parser.Prog, symtab *parser.SymTab, p *parser.Parser) (int, string) {
	evs := record(prog, symtab, -1, false)
	type open struct {
		n     parser.Node
		path  string
		child uint32
	}
	var stk []open
	seen := map[parser.Node]parser.Node{}
	paths := map[string]bool{}
	var order []parser.Node
	for i, e := range evs {
		if e.leave {
			if len(stk) == 0 || stk[len(stk)-1].n != e.n {
				return 0, fmt.Sprintf("NESTING event %d leaves %s which is not the open node", i, nodeStr(e.n, in.Code))
			}
			if e.path != stk[len(stk)-1].path {
				return 0, fmt.Sprintf("PATH %s is left with path %q, entered with %q", nodeStr(e.n, in.Code), e.path, stk[len(stk)-1].path)
			}
			stk = stk[:len(stk)-1]
			continue
		}
		// the node of a shorthand is both of the children of its parent
		if pn, ok := seen[e.n]; ok && !isShorthand(pn, e) {
			return 0, fmt.Sprintf("TWICE %s is visited twice", nodeStr(e.n, in.Code))
		}
		seen[e.n] = e.parent
		order = append(order, e.n)
		if e.vc.Node != e.n {
			return 0, fmt.Sprintf("CTX the context of %s names another node", nodeStr(e.n, in.Code))
		}
		want := e.key
		if len(stk) > 0 {
			top := &stk[len(stk)-1]
			if e.parent != top.n {
				return 0, fmt.Sprintf("PARENT of %s is not the enclosing node %s", nodeStr(e.n, in.Code), nodeStr(top.n, in.Code))
			}
			want = top.path + "." + e.key
			if lo := e.n.Range().Lo; lo < top.child && !anyOrder[top.n.Type()] {
				return 0, fmt.Sprintf("ORDER %s in %s is visited after a node that follows it", nodeStr(e.n, in.Code), nodeStr(top.n, in.Code))
			} else {
				top.child = lo
			}
		}
		if e.path != want {
			return 0, fmt.Sprintf("PATH of %s is %q, want %q", nodeStr(e.n, in.Code), e.path, want)
		}
		if paths[want] {
			return 0, fmt.Sprintf("PATH %q belongs to two nodes", want)
		}
		paths[want] = true
		stk = append(stk, open{e.n, want, 0})
	}
	if len(stk) != 0 {
		return 0, fmt.Sprintf("NESTING %s is never left", nodeStr(stk[len(stk)-1].n, in.Code))
	}
	for _, e := range evs {
		if got := strings.Join(e.vc.Path, "."); got != e.path {
			return 0, fmt.Sprintf("PATH of %s changed from %q to %q after its visit", nodeStr(e.n, in.Code), e.path, got)
		}
	}
	if m := checkCovered(order, prog, p); m != "" {
		return 0, m
	}

	// listeners of a single type hear of the nodes of that type, in the same order
	types := map[parser.NodeType]bool{}
	for _, k := range in.Types {
		types[order[k%len(order)].Type()] = true
	}
	wc := walk.NewWalkCtx(prog, symtab)
	var got []parser.Node
	for t := range types {
		l := &walk.Listener{Id: "t", Handle: func(n parser.Node, key string, c *walk.VisitorCtx) { got = append(got, n) }}
		walk.AddNodeBeforeListener(&wc.Listeners, t, l)
	}
	other := walk.NewWalkCtx(prog, symtab)
	walk.VisitNode(prog, "", other.VisitorCtx())
	if len(got) != 0 {
		return 0, "ISOLATION a listener of one context is called by the walk of another"
	}
	walk.VisitNode(prog, "", wc.VisitorCtx())
	var exp []parser.Node
	for _, n := range order {
		if types[n.Type()] {
			exp = append(exp, n)
		}
	}
	if len(got) != len(exp) {
		return 0, fmt.Sprintf("TYPED listeners of %v hear %d nodes of %d", keys(types), len(got), len(exp))
	}
	for i := range got {
		if got[i] != exp[i] {
			return 0, fmt.Sprintf("TYPED listeners of %v hear %s, want %s", keys(types), nodeStr(got[i], in.Code), nodeStr(exp[i], in.Code))
		}
	}

	// the walk ends where it is told to
	k := in.Stop%len(order) + 1
	part := record(prog, symtab, k, in.After)
	pos, cnt := 0, 0
	for i, e := range evs {
		if e.leave == in.After {
			cnt++
		}
		if cnt == k {
			pos = i + 1
			break
		}
	}
	if len(part) < pos {
		return 0, fmt.Sprintf("STOP at event %d, but only %d events are raised", pos, len(part))
	}
	for i, e := range part {
		if i < pos {
			if e.n != evs[i].n || e.leave != evs[i].leave {
				return 0, fmt.Sprintf("STOP event %d before the stop differs from that of the full walk", i)
			}
		} else if !e.leave {
			return 0, fmt.Sprintf("STOP %s is entered after the walk is stopped", nodeStr(e.n, in.Code))
		}
	}
	return len(order), ""
}

func keys(m map[parser.NodeType]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k.String())
	}
	sort.Strings(r)
	return r
}

// estree types and the node types which stand for them
var esOf = map[string][]parser.NodeType{
	"Program": {parser.N_PROG}, "ExpressionStatement": {parser.N_STMT_EXPR},
	"VariableDeclaration": {parser.N_STMT_VAR_DEC}, "VariableDeclarator": {parser.N_VAR_DEC},
	"FunctionDeclaration": {parser.N_STMT_FN}, "FunctionExpression": {parser.N_EXPR_FN},
	"ArrowFunctionExpression": {parser.N_EXPR_ARROW},
	"BlockStatement":          {parser.N_STMT_BLOCK}, "DoWhileStatement": {parser.N_STMT_DO_WHILE},
	"WhileStatement": {parser.N_STMT_WHILE}, "ForStatement": {parser.N_STMT_FOR},
	"ForInStatement": {parser.N_STMT_FOR_IN_OF}, "ForOfStatement": {parser.N_STMT_FOR_IN_OF},
	"IfStatement": {parser.N_STMT_IF}, "SwitchStatement": {parser.N_STMT_SWITCH}, "SwitchCase": {parser.N_SWITCH_CASE},
	"BreakStatement": {parser.N_STMT_BRK}, "ContinueStatement": {parser.N_STMT_CONT}, "LabeledStatement": {parser.N_STMT_LABEL},
	"ReturnStatement": {parser.N_STMT_RET}, "ThrowStatement": {parser.N_STMT_THROW}, "TryStatement": {parser.N_STMT_TRY},
	"CatchClause": {parser.N_CATCH}, "WithStatement": {parser.N_STMT_WITH}, "DebuggerStatement": {parser.N_STMT_DEBUG},
	"ClassDeclaration": {parser.N_STMT_CLASS}, "ClassExpression": {parser.N_EXPR_CLASS}, "ClassBody": {parser.N_CLASS_BODY},
	"MethodDefinition": {parser.N_METHOD}, "PropertyDefinition": {parser.N_FIELD}, "StaticBlock": {parser.N_STATIC_BLOCK},
	"ImportDeclaration": {parser.N_STMT_IMPORT}, "ImportSpecifier": {parser.N_IMPORT_SPEC},
	"ImportDefaultSpecifier": {parser.N_IMPORT_SPEC}, "ImportNamespaceSpecifier": {parser.N_IMPORT_SPEC},
	"ExportNamedDeclaration": {parser.N_STMT_EXPORT}, "ExportDefaultDeclaration": {parser.N_STMT_EXPORT}, "ExportAllDeclaration": {parser.N_STMT_EXPORT},
	"ExportSpecifier": {parser.N_EXPORT_SPEC},
	"Literal":         {parser.N_LIT_NULL, parser.N_LIT_BOOL, parser.N_LIT_NUM, parser.N_LIT_STR, parser.N_LIT_REGEXP, parser.N_JSX_TXT},
	"ArrayExpression": {parser.N_LIT_ARR}, "ObjectExpression": {parser.N_LIT_OBJ}, "Property": {parser.N_PROP, parser.N_PAT_ASSIGN},
	"NewExpression": {parser.N_EXPR_NEW}, "MemberExpression": {parser.N_EXPR_MEMBER}, "CallExpression": {parser.N_EXPR_CALL},
	"BinaryExpression": {parser.N_EXPR_BIN}, "LogicalExpression": {parser.N_EXPR_BIN}, "UnaryExpression": {parser.N_EXPR_UNARY},
	"UpdateExpression": {parser.N_EXPR_UPDATE}, "ConditionalExpression": {parser.N_EXPR_COND}, "AssignmentExpression": {parser.N_EXPR_ASSIGN},
	"ThisExpression": {parser.N_EXPR_THIS}, "SequenceExpression": {parser.N_EXPR_SEQ}, "TemplateLiteral": {parser.N_EXPR_TPL},
	"TaggedTemplateExpression": {parser.N_EXPR_TPL}, "YieldExpression": {parser.N_EXPR_YIELD}, "ChainExpression": {parser.N_EXPR_CHAIN},
	"AwaitExpression": {parser.N_EXPR_UNARY}, "Identifier": {parser.N_NAME}, "PrivateIdentifier": {parser.N_NAME},
	"ImportExpression": {parser.N_IMPORT_CALL}, "MetaProperty": {parser.N_META_PROP}, "SpreadElement": {parser.N_SPREAD}, "Super": {parser.N_SUPER},
	"RestElement": {parser.N_PAT_REST}, "ArrayPattern": {parser.N_PAT_ARRAY}, "ObjectPattern": {parser.N_PAT_OBJ}, "AssignmentPattern": {parser.N_PAT_ASSIGN},
	"JSXElement": {parser.N_JSX_ELEM}, "JSXFragment": {parser.N_JSX_ELEM}, "JSXIdentifier": {parser.N_JSX_ID, parser.N_NAME}, "JSXMemberExpression": {parser.N_JSX_MEMBER},
	"JSXNamespacedName": {parser.N_JSX_NS}, "JSXSpreadAttribute": {parser.N_JSX_ATTR_SPREAD}, "JSXSpreadChild": {parser.N_JSX_CHILD_SPREAD},
	"JSXOpeningElement": {parser.N_JSX_OPEN}, "JSXClosingElement": {parser.N_JSX_CLOSE}, "JSXOpeningFragment": {parser.N_JSX_OPEN},
	"JSXClosingFragment": {parser.N_JSX_CLOSE}, "JSXEmptyExpression": {parser.N_JSX_EMPTY}, "JSXExpressionContainer": {parser.N_JSX_EXPR_SPAN},
	"JSXText": {parser.N_JSX_TXT}, "JSXAttribute": {parser.N_JSX_ATTR},
}

// parts of the tree that the walk does not tell apart as nodes
var esSkip = map[string]bool{"EmptyStatement": true, "TemplateElement": true}

type rangeOf struct {
	t      parser.NodeType
	lo, hi uint32
}

func checkCovered(order []parser.Node, prog *parser.Prog, p *parser.Parser) string {
	have := map[rangeOf]bool{}
	for _, n := range order {
		r := n.Range()
		have[rangeOf{n.Type(), r.Lo, r.Hi}] = true
	}
	b, err := json.Marshal(estree.ConvertProg(prog, estree.NewConvertCtx(p)))
	if err != nil {
		return "ESTREE " + err.Error()
	}
	var t any
	if err := json.Unmarshal(b, &t); err != nil {
		return "ESTREE " + err.Error()
	}
	return covered(t, have)
}

func covered(t any, have map[rangeOf]bool) string {
	switch v := t.(type) {
	case []any:
		for _, e := range v {
			if m := covered(e, have); m != "" {
				return m
			}
		}
	case map[string]any:
		typ, _ := v["type"].(string)
		lo, ok1 := v["start"].(float64)
		hi, ok2 := v["end"].(float64)
		if typ != "" && ok1 && ok2 && !esSkip[typ] {
			nts := esOf[typ]
			if nts == nil {
				return "COVER no counterpart for " + typ
			}
			found := false
			for _, nt := range nts {
				found = found || have[rangeOf{nt, uint32(lo), uint32(hi)}]
			}
			if !found {
				return fmt.Sprintf("COVER the walk passes over the %s at [%v,%v]", typ, lo, hi)
			}
		}
		ks := make([]string, 0, len(v))
		for k := range v {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			if typ == "TaggedTemplateExpression" && k == "quasi" {
				// a tagged template is a single node
				q := v[k].(map[string]any)
				if m := covered(q["expressions"], have); m != "" {
					return m
				}
				continue
			}
			if m := covered(v[k], have); m != "" {
				return m
			}
		}
	}
	return ""
}

func init() {
	core.Def(core.Prop{ID: "P12", Quick: 240000, Thorough: 2000000,
		Rule: "the program is accepted and its walk visits at least 5 nodes"},
		func(t *pbt.T) *WalkCase {
			c := &WalkCase{Prog: *genES(t, t.P(1, 4), 0)}
			c.Stop = t.Intn(60)
			c.After = t.Bool()
			for i := t.Intn(10); i > 0; i-- {
				c.Ops = append(c.Ops, ListenOp{Op: t.Intn(6), Type: t.Intn(200), Id: t.Intn(4), Lv: t.Bool()})
			}
			for i := 0; i < 3; i++ {
				c.Types = append(c.Types, t.Intn(200))
			}
			return c
		},
		func(in *WalkCase) core.Outcome {
			p, prog, err := parse(in.Code, in.Cfg)
			if err != nil {
				return core.Skip("rejected")
			}
			n, m := checkWalk(in, prog, p.Symtab(), p)
			if m != "" {
				return core.Outcome{Fail: m}
			}
			if m := checkListeners(in, prog, p.Symtab()); m != "" {
				return core.Outcome{Fail: m}
			}
			return core.Outcome{Trivial: n < 5}
		})
}

// ---- the registry of listeners ----

type ListenOp struct {
	Op   int  `json:"op"`              // 0..2 add for a type, 3 add for all, 4 add for atoms, 5 remove
	Type int  `json:"type"`            // pick of a node of the tree
	Id   int  `json:"id"`              // few, so that they collide
	Lv   bool `json:"leave,omitempty"` // the leave event
}

type heard struct {
	tag   int
	n     parser.Node
	leave bool
}

// what the listeners hear is what a list per event says they should
func checkListeners(in *WalkCase, prog *parser.Prog, symtab *parser.SymTab) string {
	if len(in.Ops) == 0 {
		return ""
	}
	evs := record(prog, symtab, -1, false)
	wc := walk.NewWalkCtx(prog, symtab)
	type entry struct {
		id  string
		tag int
	}
	model := map[parser.NodeType][]entry{}
	has := func(ev parser.NodeType, id string) int {
		for i, e := range model[ev] {
			if e.id == id {
				return i
			}
		}
		return -1
	}
	var log []heard
	stop := -1
	for tag, op := range in.Ops {
		tag := tag
		id := string(rune('a' + op.Id))
		t := evs[op.Type%len(evs)].n.Type()
		lis := &walk.Listener{Id: id, Handle: nil}
		event := func(t parser.NodeType) parser.NodeType {
			if op.Lv {
				return walk.NodeAfterEvent(t)
			}
			return walk.NodeBeforeEvent(t)
		}
		leave := op.Lv && op.Op != 4
		lis.Handle = func(n parser.Node, key string, c *walk.VisitorCtx) {
			log = append(log, heard{tag, n, leave})
			if len(log) == stop {
				c.WalkCtx.Stop()
			}
		}
		add := func(ev parser.NodeType) bool {
			if has(ev, id) >= 0 {
				return false
			}
			model[ev] = append(model[ev], entry{id, tag})
			return true
		}
		switch op.Op {
		case 0:
			err := walk.AddListener(&wc.Listeners, event(t), lis)
			if ok := add(event(t)); ok != (err == nil) {
				return fmt.Sprintf("REGISTER listener %s of %s: taken %v, error %v", id, t, ok, err)
			}
		case 1, 2:
			if op.Lv {
				walk.AddNodeAfterListener(&wc.Listeners, t, lis)
			} else {
				walk.AddNodeBeforeListener(&wc.Listeners, t, lis)
			}
			add(event(t))
		case 3:
			if op.Lv {
				walk.AddAfterListener(&wc.Listeners, lis)
			} else {
				walk.AddBeforeListener(&wc.Listeners, lis)
			}
			for t := range walk.NodeTypes {
				add(event(t))
			}
		case 4:
			walk.AddAtomListener(&wc.Listeners, lis)
			for t := range walk.AtomNodeTypes {
				add(walk.NodeBeforeEvent(t))
			}
		case 5:
			walk.RemoveListener(&wc.Listeners, event(t), lis)
			if i := has(event(t), id); i >= 0 {
				model[event(t)] = append(append([]entry{}, model[event(t)][:i]...), model[event(t)][i+1:]...)
			}
		}
	}
	var exp []heard
	for _, e := range evs {
		ev := walk.NodeBeforeEvent(e.n.Type())
		if e.leave {
			ev = walk.NodeAfterEvent(e.n.Type())
		}
		for _, l := range model[ev] {
			exp = append(exp, heard{l.tag, e.n, e.leave})
		}
	}
	walk.VisitNode(prog, "", wc.VisitorCtx())
	for i := 0; i < len(log) || i < len(exp); i++ {
		if i >= len(log) {
			return fmt.Sprintf("LISTENER %d does not hear of %s (leave %v)", exp[i].tag, nodeStr(exp[i].n, in.Code), exp[i].leave)
		}
		if i >= len(exp) || log[i] != exp[i] {
			return fmt.Sprintf("LISTENER %d should not hear of %s (leave %v)", log[i].tag, nodeStr(log[i].n, in.Code), log[i].leave)
		}
	}
	if len(log) == 0 {
		return ""
	}

	// a walk that one of them ends
	full := log
	log = nil
	again := walk.NewWalkCtx(prog, symtab)
	again.Listeners = wc.Listeners
	stop = in.Stop%len(full) + 1
	walk.VisitNode(prog, "", again.VisitorCtx())
	if len(log) < stop {
		return fmt.Sprintf("STOP at call %d, but only %d calls are made", stop, len(log))
	}
	last := full[stop-1]
	for i, h := range log {
		if i < stop {
			if h != full[i] {
				return fmt.Sprintf("STOP call %d before the stop differs from that of the full walk", i)
			}
		} else if !h.leave {
			return fmt.Sprintf("STOP listener %d hears that %s is entered after the walk is stopped", h.tag, nodeStr(h.n, in.Code))
		} else if h.n == last.n && h.leave == last.leave {
			return fmt.Sprintf("STOP listener %d hears of the event in which the walk is stopped", h.tag)
		}
	}
	return ""
}
