package props

import (
	"encoding/json"
	"fmt"
	"reflect"

	"molecheck/core"
	"molecheck/jsgen"
	"molecheck/pbt"
)

// dropEmpty removes what a TypeScript tree says about absent TypeScript syntax.
func dropEmpty(v any) any {
	switch v := v.(type) {
	case map[string]any:
		m := map[string]any{}
		for k, c := range v {
			if k == "value" && v["type"] == "Literal" {
				m[k] = c
				continue
			}
			c = dropEmpty(c)
			switch x := c.(type) {
			case nil:
				continue
			case bool:
				if !x {
					continue
				}
			case string:
				if x == "" {
					continue
				}
			case []any:
				if len(x) == 0 {
					continue
				}
			}
			m[k] = c
		}
		return m
	case []any:
		l := make([]any, len(v))
		for i, c := range v {
			l[i] = dropEmpty(c)
		}
		return l
	}
	return v
}

// firstDiff names the first place where two decoded trees differ.
func firstDiff(a, b any, at string) string {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok {
			break
		}
		if x["type"] != y["type"] {
			return fmt.Sprintf("%s: %v and %v", at, x["type"], y["type"])
		}
		for k, c := range x {
			if d := firstDiff(c, y[k], at+"."+k); d != "" {
				return d
			}
		}
		for k, c := range y {
			if _, ok := x[k]; !ok {
				return fmt.Sprintf("%s.%s: %v only in TypeScript", at, k, c)
			}
		}
		return ""
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			break
		}
		for i := range x {
			if d := firstDiff(x[i], y[i], fmt.Sprintf("%s[%d]", at, i)); d != "" {
				return d
			}
		}
		return ""
	default:
		if reflect.DeepEqual(a, b) {
			return ""
		}
	}
	return fmt.Sprintf("%s: %.60v and %.60v", at, a, b)
}

var tsNames = []string{"type", "as", "namespace", "module", "declare", "abstract", "readonly", "override", "is", "asserts",
	"keyof", "infer", "unique", "any", "string", "number", "boolean", "never", "unknown", "object", "symbol", "global", "require",
	"satisfies", "out", "accessor", "undefined", "constructor", "get", "set", "of", "from", "async", "static1", "this_", "bigint"}

func init() {
	core.Def(core.Prop{ID: "P07", Quick: 160000, Thorough: 3000000,
		Rule: "the program has at least 12 characters"},
		func(t *pbt.T) *Prog {
			c := Cfg{Module: !t.P(1, 4), JSX: t.P(1, 5)}
			g := jsgen.New(t, jsgen.Opts{Module: c.Module, JSX: c.JSX}, budget(t))
			g.Program()
			if t.P(1, 2) { // names that mean something in TypeScript only
				for i := range g.Out {
					if k := &g.Out[i]; k.S == "a" && !k.Glue && t.P(1, 4) {
						k.S = tsNames[t.Intn(len(tsNames))]
					}
				}
			}
			return &Prog{c, jsgen.Render(t, g.Out, jsgen.Style{Mode: t.Weighted(3, 1, 2), NoLS: true})}
		},
		func(in *Prog) core.Outcome {
			js, err := tree(in.Code, in.Cfg)
			if err != nil {
				return core.Skip("invalid")
			}
			tc := in.Cfg
			tc.TS = true
			ts, err := tree(in.Code, tc)
			msg := ""
			if err != nil {
				msg = "REJECTED in TypeScript: " + err.Error()
			} else {
				var a, b any
				json.Unmarshal(js, &a)
				json.Unmarshal(ts, &b)
				msg = firstDiff(dropEmpty(a), dropEmpty(b), "")
			}
			o := core.Outcome{Trivial: len(in.Code) < 12}
			if msg == "" {
				return o
			}
			var r struct {
				Same bool
				Msg  string
			}
			call(M{"op": "tsjs", "code": in.Code, "module": in.Module, "jsx": in.JSX}, &r)
			if !r.Same {
				return core.Skip("differs: " + trunc(r.Msg, 30))
			}
			return core.Failf("%s", msg)
		})
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
