package props

import (
	"encoding/json"
	"os"

	"molecheck/core"
	"molecheck/jsgen"
	"molecheck/pbt"
)

func genTS(t *pbt.T) *Prog {
	c := Cfg{Module: !t.P(1, 4), TS: true}
	g := jsgen.New(t, jsgen.Opts{Module: c.Module, TS: os.Getenv("NOTS") == ""}, budget(t))
	g.Program()
	for l := range g.Labels {
		t.Labels[l]++
	}
	return &Prog{c, jsgen.Render(t, g.Out, jsgen.Style{Mode: t.Weighted(3, 1, 3), NoLS: true})}
}

func init() {
	core.Def(core.Prop{ID: "P08", Quick: 100000, Thorough: 1000000,
		Rule: "the program is accepted by babel and mole and has at least 4 characters"},
		genTS,
		func(in *Prog) core.Outcome {
			o, err := tree(in.Code, in.Cfg)
			req := M{"op": "ts", "code": in.Code, "module": in.Module, "positions": true}
			if err == nil {
				req["mole"] = json.RawMessage(o)
			}
			var r esReply
			call(req, &r)
			return esOutcome(in, r, err, "same")
		})
}
