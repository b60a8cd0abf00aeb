// Package props states the properties as generators and oracles.
package props

import (
	"encoding/json"
	"fmt"

	"github.com/hsiaosiyuan0/mole/ecma/estree"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/span"

	"molecheck/core"
	"molecheck/ref"
)

// Cfg selects the language mode of a parse.
type Cfg struct {
	Module bool `json:"module,omitempty"`
	JSX    bool `json:"jsx,omitempty"`
	TS     bool `json:"ts,omitempty"`
	DTS    bool `json:"dts,omitempty"`
	Flags  bool `json:"flags,omitempty"` // check the flags of regexps
}

func (c Cfg) opts() *parser.ParserOpts {
	o := parser.NewParserOpts()
	if !c.Module {
		o.Feature = o.Feature.Off(parser.FEAT_MODULE | parser.FEAT_STRICT | parser.FEAT_GLOBAL_ASYNC)
	}
	o.Feature = o.Feature.Turn(parser.FEAT_JSX, c.JSX)
	o.Feature = o.Feature.Turn(parser.FEAT_TS, c.TS)
	if c.Flags {
		o.Feature = o.Feature.On(parser.FEAT_CHK_REGEXP_FLAGS | parser.FEAT_REGEXP_UNICODE | parser.FEAT_REGEXP_STICKY | parser.FEAT_REGEXP_DOT_ALL | parser.FEAT_REGEXP_HAS_INDICES)
	}
	return o
}

func (c Cfg) String() string {
	s := "script"
	if c.Module {
		s = "module"
	}
	if c.JSX {
		s += "+jsx"
	}
	if c.TS {
		s += "+ts"
	}
	return s
}

func parse(code string, c Cfg) (*parser.Parser, *parser.Prog, error) {
	p := parser.NewParser(span.NewSource("", code), c.opts())
	n, err := p.Prog()
	if err != nil {
		return p, nil, err
	}
	return p, n.(*parser.Prog), nil
}

// tree is mole's ESTree as JSON.
func tree(code string, c Cfg) (json.RawMessage, error) {
	p, prog, err := parse(code, c)
	if err != nil {
		return nil, err
	}
	return json.Marshal(estree.ConvertProg(prog, estree.NewConvertCtx(p)))
}

func call(req any, rep any) {
	if err := ref.Call(req, rep); err != nil {
		panic(core.ToolPanic{Err: err})
	}
}

type M = map[string]any

func q(s string) string { return fmt.Sprintf("%q", s) }
