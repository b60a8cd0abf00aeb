package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"

	"github.com/hsiaosiyuan0/mole/ecma/estree"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/span"
)

func main() {
	b, _ := io.ReadAll(os.Stdin)
	opts := parser.NewParserOpts()
	for _, a := range os.Args[1:] {
		switch a {
		case "script":
			opts.Feature = opts.Feature.Off(parser.FEAT_MODULE | parser.FEAT_STRICT | parser.FEAT_GLOBAL_ASYNC)
		case "ts":
			opts.Feature = opts.Feature.On(parser.FEAT_TS).Off(parser.FEAT_JSX)
		}
	}
	p := parser.NewParser(span.NewSource("", string(b)), opts)
	ast, err := p.Prog()
	if err != nil {
		fmt.Println("ERR", err)
		os.Exit(1)
	}
	o, _ := json.Marshal(estree.ConvertProg(ast.(*parser.Prog), estree.NewConvertCtx(p)))
	fmt.Println(string(o))
}
