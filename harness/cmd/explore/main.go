package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hsiaosiyuan0/mole/ecma/estree"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/span"

	"molecheck/jsgen"
	"molecheck/pbt"
	"molecheck/ref"
)

func compile(code string, module, jsx bool) (o []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("PANIC %v", r)
		}
	}()
	opts := parser.NewParserOpts()
	if !module {
		opts.Feature = opts.Feature.Off(parser.FEAT_MODULE | parser.FEAT_STRICT | parser.FEAT_GLOBAL_ASYNC)
	}
	opts.Feature = opts.Feature.Turn(parser.FEAT_JSX, jsx)
	p := parser.NewParser(span.NewSource("", code), opts)
	ast, err := p.Prog()
	if err != nil {
		return nil, err
	}
	return json.Marshal(estree.ConvertProg(ast.(*parser.Prog), estree.NewConvertCtx(p)))
}

type rep struct {
	OK   bool   `json:"ok"`
	Msg  string `json:"msg"`
	Diff *struct {
		Path string `json:"path"`
		Want string `json:"want"`
		Got  string `json:"got"`
	} `json:"diff"`
}

func main() {
	n := flag.Int("n", 2000, "")
	seed := flag.Int("seed", 1, "")
	wild := flag.Int("wild", 0, "")
	mode := flag.Int("mode", 0, "")
	jsx := flag.Bool("jsx", false, "")
	budget := flag.Int("budget", 40, "")
	show := flag.Int("show", 40, "")
	script := flag.Bool("script", false, "")
	flag.Parse()
	type bad struct {
		kind, msg, code string
		ch              []uint64
	}
	gen := func(t *pbt.T) (code string) {
		g := jsgen.New(t, jsgen.Opts{Module: !*script, JSX: *jsx, Wild: *wild}, *budget)
		g.Program()
		return jsgen.Render(t, g.Out, jsgen.Style{Mode: *mode, NoLS: true})
	}
	eval := func(code string) (k, msg string) {
		done := make(chan bool, 1)
		var o []byte
		var err error
		go func() { o, err = compile(code, !*script, *jsx); done <- true }()
		select {
		case <-done:
		case <-time.After(10 * time.Second):
			fmt.Printf("HANG %q\n", code)
			os.Exit(1)
		}
		q := map[string]any{"op": "acorn", "code": code, "module": !*script, "jsx": *jsx}
		if err == nil {
			q["mole"] = json.RawMessage(o)
		}
		var r rep
		if e := ref.Call(q, &r); e != nil {
			fmt.Println("TOOL", e, code)
			return "tool", ""
		}
		switch {
		case r.OK && err == nil && r.Diff == nil:
			k = "same"
		case r.OK && err == nil:
			k = "DIFF"
			msg = r.Diff.Path + " want " + r.Diff.Want + " got " + r.Diff.Got
		case r.OK:
			k = "OVERREJECT"
			msg = err.Error()
		case err == nil:
			k = "OVERACCEPT"
			msg = r.Msg
		default:
			k = "bothreject"
		}
		return
	}
	idx := regexp.MustCompile(`\(\d+:\d+\)|\[\d+\]|\d+`)
	sig := func(k, msg string) string {
		if k == "DIFF" {
			p := strings.SplitN(msg, " want ", 2)
			q := strings.Split(p[0], ".")
			l := q[len(q)-1]
			if strings.Contains(p[0], ".loc.") {
				l = "loc." + l
			}
			return k + idx.ReplaceAllString(l, "#")
		}
		return k + idx.ReplaceAllString(msg, "#")
	}
	var mu sync.Mutex
	st := map[string]int{}
	groups := map[string]*bad{}
	cnt := map[string]int{}
	par := func(n int, f func(i int)) {
		var wg sync.WaitGroup
		ch := make(chan int)
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range ch {
					f(i)
				}
			}()
		}
		for i := 0; i < n; i++ {
			ch <- i
		}
		close(ch)
		wg.Wait()
	}
	par(*n, func(i int) {
		t := pbt.NewRandom(pbt.Mix(uint64(*seed), "x", i))
		code, ok := pbt.Gen(t, gen)
		if !ok {
			return
		}
		k, msg := eval(code)
		mu.Lock()
		defer mu.Unlock()
		st[k]++
		if msg != "" {
			s := sig(k, msg)
			cnt[s]++
			if b := groups[s]; b == nil || len(b.code) > len(code) {
				groups[s] = &bad{k, msg, code, t.Choices()}
			}
		}
	})
	fmt.Println(st)
	var keys []string
	for k := range groups {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		if cnt[keys[i]] != cnt[keys[j]] {
			return cnt[keys[i]] > cnt[keys[j]]
		}
		return keys[i] < keys[j]
	})
	if len(keys) > *show {
		keys = keys[:*show]
	}
	par(len(keys), func(i int) {
		b := groups[keys[i]]
		best := pbt.Shrink(b.ch, 3000, func(c []uint64) ([]uint64, bool) {
			t := pbt.NewReplay(c)
			code, ok := pbt.Gen(t, gen)
			if !ok {
				return nil, false
			}
			k, m := eval(code)
			return t.Choices(), k == b.kind && sig(k, m) == keys[i]
		})
		t := pbt.NewReplay(best)
		code, _ := pbt.Gen(t, gen)
		_, b.msg = eval(code)
		b.code = code
	})
	for _, k := range keys {
		b := groups[k]
		fmt.Printf("%5d %s: %s\n          %q\n", cnt[k], b.kind, b.msg, b.code)
	}
}
