package props

import (
	"encoding/json"
	"regexp"
	"strings"

	"github.com/hsiaosiyuan0/mole/ecma/estree"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/span"

	"molecheck/core"
	"molecheck/jsgen"
	"molecheck/pbt"
)

// Gate is a program and a feature to switch off.
type Gate struct {
	Prog
	Feature string `json:"feature"`
}

type node = map[string]any

func isType(n node, t ...string) bool {
	s, _ := n["type"].(string)
	for _, k := range t {
		if k == s {
			return true
		}
	}
	return false
}

type gate struct {
	name string
	bit  parser.Feature
	uses func(n node, src string) bool
}

func fnFlags(n node) (a, g bool) {
	if !isType(n, "FunctionDeclaration", "FunctionExpression", "ArrowFunctionExpression") {
		return
	}
	a, _ = n["async"].(bool)
	g, _ = n["generator"].(bool)
	return
}

func textOf(n node, src string) string {
	s, _ := n["start"].(float64)
	e, _ := n["end"].(float64)
	return src[int(s):int(e)]
}

func isPat(v any) bool { n, ok := v.(node); return ok && isType(n, "ObjectPattern", "ArrayPattern") }

func anyPat(v any) bool {
	l, _ := v.([]any)
	for _, p := range l {
		for {
			n, _ := p.(node)
			if isType(n, "AssignmentPattern") {
				p = n["left"]
			} else if isType(n, "RestElement") {
				p = n["argument"]
			} else {
				break
			}
		}
		if isPat(p) {
			return true
		}
	}
	return false
}

var contLine = regexp.MustCompile("\\\\(\r\n|[\r\n\u2028\u2029])")

var gates = []gate{
	{"pow", parser.FEAT_POW, func(n node, _ string) bool { return n["operator"] == "**" || n["operator"] == "**=" }},
	{"nullish", parser.FEAT_NULLISH, func(n node, _ string) bool { return n["operator"] == "??" }},
	{"logicAssign", parser.FEAT_LOGIC_ASSIGN, func(n node, _ string) bool {
		return n["operator"] == "&&=" || n["operator"] == "||=" || n["operator"] == "??="
	}},
	{"optExpr", parser.FEAT_OPT_EXPR, func(n node, _ string) bool { return isType(n, "ChainExpression") }},
	{"bigint", parser.FEAT_BIGINT, func(n node, src string) bool {
		return isType(n, "Literal") && strings.HasSuffix(textOf(n, src), "n") && !strings.HasPrefix(textOf(n, src), "/")
	}},
	{"numSep", parser.FEAT_NUM_SEP, func(n node, src string) bool {
		s := textOf(n, src)
		return isType(n, "Literal") && (s[0] >= '0' && s[0] <= '9' || s[0] == '.') && strings.Contains(s, "_")
	}},
	{"optCatch", parser.FEAT_OPT_CATCH_PARAM, func(n node, _ string) bool { return isType(n, "CatchClause") && n["param"] == nil }},
	{"dynamicImport", parser.FEAT_DYNAMIC_IMPORT, func(n node, _ string) bool { return isType(n, "ImportExpression") }},
	{"exportNs", parser.FEAT_EXPORT_ALL_AS_NS, func(n node, _ string) bool { return isType(n, "ExportAllDeclaration") && n["exported"] != nil }},
	{"asyncGen", parser.FEAT_ASYNC_GENERATOR, func(n node, _ string) bool { a, g := fnFlags(n); return a && g }},
	{"asyncIter", parser.FEAT_ASYNC_ITERATION, func(n node, _ string) bool { return isType(n, "ForOfStatement") && n["await"] == true }},
	{"meta", parser.FEAT_META_PROPERTY, func(n node, _ string) bool { return isType(n, "MetaProperty") }},
	{"letConst", parser.FEAT_LET_CONST, func(n node, _ string) bool {
		return isType(n, "VariableDeclaration") && n["kind"] != "var"
	}},
	{"pubField", parser.FEAT_CLASS_PUB_FIELD, func(n node, _ string) bool { return isType(n, "PropertyDefinition") && !pvtKey(n) }},
	{"privField", parser.FEAT_CLASS_PRIV_FIELD, func(n node, _ string) bool { return isType(n, "PropertyDefinition") && pvtKey(n) }},
	{"private", parser.FEAT_CLASS_PRV, func(n node, _ string) bool { return isType(n, "PrivateIdentifier") }},
	// one token, so both need both
	{"spread", parser.FEAT_SPREAD, func(n node, _ string) bool { return isType(n, "SpreadElement", "RestElement", "JSXSpreadAttribute") }},
	{"rest", parser.FEAT_BINDING_REST_ELEM, func(n node, _ string) bool { return isType(n, "SpreadElement", "RestElement", "JSXSpreadAttribute") }},
	{"pattern", parser.FEAT_BINDING_PATTERN, func(n node, _ string) bool {
		return isType(n, "VariableDeclarator") && isPat(n["id"]) || isType(n, "CatchClause") && isPat(n["param"]) ||
			isType(n, "FunctionDeclaration", "FunctionExpression") && anyPat(n["params"])
	}},
	{"restNested", parser.FEAT_BINDING_REST_ELEM_NESTED, func(n node, _ string) bool { return isType(n, "RestElement") && isPat(n["argument"]) }},
	{"badEscape", parser.FEAT_BAD_ESCAPE_IN_TAGGED_TPL, func(n node, _ string) bool {
		v, _ := n["value"].(map[string]any)
		raw, _ := v["raw"].(string) // a missing value is written as ""
		return isType(n, "TemplateElement") && v["cooked"] == "" && contLine.ReplaceAllString(raw, "") != ""
	}},
	{"jsx", parser.FEAT_JSX, func(n node, _ string) bool { return isType(n, "JSXElement", "JSXFragment") }},
	{"async", parser.FEAT_ASYNC_AWAIT, func(n node, _ string) bool {
		a, _ := fnFlags(n)
		return a || isType(n, "AwaitExpression") || isType(n, "ForOfStatement") && n["await"] == true
	}},
}

func pvtKey(n node) bool {
	k, ok := n["key"].(map[string]any)
	return ok && isType(k, "PrivateIdentifier")
}

func anyNode(v any, f func(node) bool) bool {
	switch v := v.(type) {
	case map[string]any:
		if _, ok := v["type"].(string); ok && f(v) {
			return true
		}
		for _, c := range v {
			if anyNode(c, f) {
				return true
			}
		}
	case []any:
		for _, c := range v {
			if anyNode(c, f) {
				return true
			}
		}
	}
	return false
}

func parseFeat(code string, f parser.Feature) (json.RawMessage, error) {
	o := parser.NewParserOpts()
	o.Feature = f
	p := parser.NewParser(span.NewSource("", code), o)
	n, err := p.Prog()
	if err != nil {
		return nil, err
	}
	cc := estree.NewConvertCtx(p)
	cc.LineCol = false
	return json.Marshal(estree.ConvertProg(n.(*parser.Prog), cc))
}

func init() {
	core.Def(core.Prop{ID: "P10", Quick: 1000000, Thorough: 8000000,
		Rule: "the program uses the construct and is rejected without the feature"},
		func(t *pbt.T) *Gate {
			c := Cfg{Module: !t.P(2, 5), JSX: t.P(1, 5)}
			g := jsgen.New(t, jsgen.Opts{Module: c.Module, JSX: c.JSX}, budget(t))
			g.Program()
			return &Gate{Prog{c, jsgen.Render(t, g.Out, jsgen.Style{Mode: t.Weighted(4, 1, 1), NoLS: true})}, gates[t.Intn(len(gates))].name}
		},
		func(in *Gate) core.Outcome {
			var gt gate
			for _, x := range gates {
				if x.name == in.Feature {
					gt = x
				}
			}
			feat := in.opts().Feature
			full, err := parseFeat(in.Code, feat)
			if err != nil {
				return core.Skip("invalid")
			}
			var v any
			json.Unmarshal(full, &v)
			uses := anyNode(v, func(n node) bool { return gt.uses(n, in.Code) })
			off, err := parseFeat(in.Code, feat.Off(gt.bit))
			if uses {
				if err == nil && in.Feature == "letConst" && !in.Module {
					return core.Skip("let as a name")
				}
				if err == nil {
					return core.Failf("%s: used, and still accepted with the feature off", gt.name)
				}
				return core.Outcome{Labels: []string{gt.name + ":rejected"}}
			}
			if err != nil {
				return core.Failf("%s: not used, but rejected with the feature off: %v", gt.name, err)
			}
			if string(off) != string(full) {
				return core.Failf("%s: not used, but the tree differs with the feature off", gt.name)
			}
			return core.Outcome{Trivial: true, Labels: []string{gt.name + ":same"}}
		})
}
