package props

import (
	"encoding/json"
	"os"
	"regexp"

	"molecheck/core"
	"molecheck/jsgen"
	"molecheck/pbt"
)

// Prog is a program together with the mode it is parsed in.
type Prog struct {
	Cfg
	Code string `json:"code"`
}

type esReply struct {
	Verdict string `json:"verdict"`
	Msg     string `json:"msg"`
	Path    string `json:"path"`
	Want    string `json:"want"`
	Got     string `json:"got"`
}

func esCompare(in *Prog, positions bool) (esReply, error) {
	o, err := tree(in.Code, in.Cfg)
	req := M{"op": "es", "code": in.Code, "module": in.Module, "jsx": in.JSX, "positions": positions}
	if err == nil {
		req["mole"] = json.RawMessage(o)
	}
	var r esReply
	call(req, &r)
	return r, err
}

// budget: mostly small programs, some larger ones.
func budget(t *pbt.T) int {
	return []int{6, 14, 30, 80}[t.Weighted(30, 45, 20, 5)]
}

func genES(t *pbt.T, jsx bool, wild int) *Prog {
	c := Cfg{Module: !t.P(2, 5), JSX: jsx}
	g := jsgen.New(t, jsgen.Opts{Module: c.Module, JSX: jsx, Wild: wild}, budget(t))
	g.Program()
	code := jsgen.Render(t, g.Out, jsgen.Style{Mode: t.Weighted(3, 1, 3), NoLS: true})
	for l := range g.Labels {
		t.Labels[l]++
	}
	return &Prog{c, code}
}

// genESBorder mixes in programs at the border of validity.
func genESBorder(t *pbt.T) *Prog {
	if t.P(1, 4) {
		c := Cfg{Module: t.P(1, 2)}
		return &Prog{c, genBorder(t, c.Module)}
	}
	return genES(t, false, 0)
}

// mole reads what is between the parentheses after "async" as the parameters of
// an async function first, and rejects the plain names "await" and "yield" there
// even if it turns out to be a call (known finding); awaits in modules and in
// async functions of scripts are not affected.
var asyncCallAwait = regexp.MustCompile(`(?s)async\s*(/\*.*?\*/\s*|//[^\n]*\s*)*\(.*await`)

func knownAwait(in *Prog, r esReply) bool {
	return r.Verdict == "overreject" && !in.Module && asyncCallAwait.MatchString(in.Code)
}

func esOutcome(in *Prog, r esReply, err error, want string) core.Outcome {
	switch r.Verdict {
	case "diff":
		return core.Failf("DIFF %s want %s got %s", r.Path, r.Want, r.Got)
	case "overreject":
		return core.Failf("OVERREJECT a valid program is rejected: %v", err)
	case "overaccept":
		return core.Failf("OVERACCEPT an invalid program is accepted: %s", r.Msg)
	}
	if r.Verdict == want {
		return core.Outcome{Labels: []string{"verdict:" + r.Verdict}, Trivial: len(in.Code) < 4}
	}
	return core.Skip("verdict:" + r.Verdict)
}

func init() {
	core.Def(core.Prop{ID: "P02", Quick: 500000, Thorough: 4000000,
		Rule: "the program is accepted by acorn and mole and has at least 4 characters"},
		genESBorder,
		func(in *Prog) core.Outcome {
			r, err := esCompare(in, false)
			if r.Verdict == "overaccept" {
				return core.Skip("overaccept") // P04
			}
			if knownAwait(in, r) && os.Getenv("MOLECHECK_FINDING") == "" {
				return core.Skip("known:async(await)")
			}
			return esOutcome(in, r, err, "same")
		})
	core.Def(core.Prop{ID: "P03", Quick: 500000, Thorough: 4000000,
		Rule: "the program is accepted by acorn and mole and has at least 4 characters"},
		genESBorder,
		func(in *Prog) core.Outcome {
			r, err := esCompare(in, true)
			if r.Verdict == "overaccept" {
				return core.Skip("overaccept") // P04
			}
			if knownAwait(in, r) && os.Getenv("MOLECHECK_FINDING") == "" {
				return core.Skip("known:async(await)")
			}
			return esOutcome(in, r, err, "same")
		})
	core.Def(core.Prop{ID: "P09", Quick: 400000, Thorough: 3000000,
		Rule: "the program is accepted by acorn-jsx and mole and has at least 4 characters"},
		func(t *pbt.T) *Prog { return genES(t, true, 0) },
		func(in *Prog) core.Outcome {
			r, err := esCompare(in, true)
			return esOutcome(in, r, err, "same")
		})
}
