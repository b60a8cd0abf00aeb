// molecheck decides the properties of /verif/properties.jsonl by generated
// input search.
//
//	molecheck run -prop P01 -tier quick        (seed from VERIF_SEED)
//	molecheck replay FILE
package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"
	"time"

	"molecheck/core"
	_ "molecheck/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: molecheck run|replay|list")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("molecheck", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", envSeed(), "")
	n := fs.Int("n", 0, "number of cases (default: per tier)")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 0, "")
	step := fs.Int("step", 1, "")
	dir := fs.String("dir", "", "")
	name := fs.String("name", "", "")
	input := fs.String("input", "", "")
	out := fs.String("out", "", "")
	wall := fs.Int("wall", 0, "seconds")
	fs.Parse(os.Args[2:])
	if r := os.Getenv("MOLECHECK_ROOT"); r != "" {
		core.Root = r
	}
	switch os.Args[1] {
	case "list":
		for _, id := range core.IDs() {
			p := core.Props[id]
			fmt.Println(id, p.Quick, p.Thorough)
		}
		return
	case "replay":
		os.Exit(core.Replay(fs.Arg(0)))
	}
	p := core.Props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		w := 500
		if *tier == "thorough" {
			w = 840
		}
		if *wall > 0 {
			w = *wall
		}
		os.Exit(core.Run(p, *tier, *seed, *n, time.Duration(w)*time.Second))
	case "worker":
		core.Worker(p, *seed, *from, *to, *step, *dir, *name)
	case "eval":
		core.EvalFile(p, *input)
	case "shrink":
		core.ShrinkMain(p, *input, *out)
	case "survey":
		core.Survey(p, *seed, *n)
	}
}

func envSeed() uint64 {
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseUint(s, 10, 64); err == nil {
			return v
		}
		return core.Hash(s)
	}
	return 1
}
