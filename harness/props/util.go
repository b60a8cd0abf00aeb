package props

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/hsiaosiyuan0/mole/parseutil"
	"github.com/hsiaosiyuan0/mole/util"

	"molecheck/core"
	"molecheck/pbt"
)

// ---------------------------------------------------------------- P18

// JSONPart is a piece of JSON text; trivia may be replaced by spaces.
type JSONPart struct {
	S string `json:"s"`
	K string `json:"k,omitempty"` // "" significant, ws, line, block, comma (trailing)
}

type JSONCase struct {
	Parts []JSONPart `json:"parts"`
}

type jsonGen struct {
	t   *pbt.T
	out []JSONPart
	n   int
}

func (g *jsonGen) sig(s string) { g.out = append(g.out, JSONPart{S: s}) }

func (g *jsonGen) trivia() {
	t := g.t
	for n := t.Geo(1, 3); n > 0; n-- {
		switch t.Weighted(6, 3, 3) {
		case 0:
			g.out = append(g.out, JSONPart{pbt.Pick(t, " ", "\n", "\t", "\r\n", "  "), "ws"})
		case 1:
			s := "//" + pbt.Pick(t, "", " c", "\"", "\\", "/*", "*/", " \"a\": 1", "//", "é中😀", ",", "}", "{", "'", "\u2028", "\ufffd", "\\\"") + pbt.Pick(t, "\n", "\n", "\r\n", "\r", "\n\n")
			g.out = append(g.out, JSONPart{s, "line"})
		case 2:
			s := "/*" + pbt.Pick(t, "", " c ", "\"", "*", "**", "//", "/*", "* /", "\\", "\n", "\r\n", "a\nb", "é中😀", ",", "}", "'", "\\\"", "\ufffd") + "*/"
			g.out = append(g.out, JSONPart{s, "block"})
		}
	}
}

var jsonStrs = []string{`a`, ``, `\\`, `\"`, `\\\\`, `\\\"`, `\"\\`, `//`, `/*`, `*/`, `/* c */`, `// c`, `http://x`, `é`, `中`, `😀`, `\u0022`, `\u005c`, `\n`, `\/`, `\/\/`, `,`, `,}`, `,]`, `]`, `}`, `{`, `:`, ` `, `'`, "\ufffd", `\\/`, `\"/*`, `\b\f\r\t`}

func (g *jsonGen) str() {
	var b strings.Builder
	b.WriteByte('"')
	for n := g.t.Geo(2, 5); n > 0; n-- {
		b.WriteString(pbt.Pick(g.t, jsonStrs...))
	}
	b.WriteByte('"')
	g.sig(b.String())
}

func (g *jsonGen) value(d int) {
	t := g.t
	g.trivia()
	g.n++
	k := t.Weighted(4, 3, 2, 3, 3)
	if d <= 0 {
		k = t.Intn(3)
	}
	switch k {
	case 0:
		g.str()
	case 1:
		g.sig(pbt.Pick(t, "1", "-0.5", "1e3", "0", "12345678901234567890"))
	case 2:
		g.sig(pbt.Pick(t, "true", "false", "null"))
	case 3:
		g.sig("[")
		n := t.Geo(2, 4)
		for i := 0; i < n; i++ {
			g.value(d - 1)
			g.trivia()
			if i < n-1 {
				g.sig(",")
			} else if t.P(1, 3) {
				g.out = append(g.out, JSONPart{",", "comma"})
				g.trivia()
			}
		}
		if n == 0 {
			g.trivia()
		}
		g.sig("]")
	case 4:
		g.sig("{")
		n := t.Geo(2, 4)
		for i := 0; i < n; i++ {
			g.trivia()
			g.str()
			g.trivia()
			g.sig(":")
			g.value(d - 1)
			g.trivia()
			if i < n-1 {
				g.sig(",")
			} else if t.P(1, 3) {
				g.out = append(g.out, JSONPart{",", "comma"})
				g.trivia()
			}
		}
		if n == 0 {
			g.trivia()
		}
		g.sig("}")
	}
}

func evalJSON(c *JSONCase) core.Outcome {
	var src, plain strings.Builder
	type mark struct {
		line, col int
		exact     bool
		s         string
	}
	var marks []mark
	line, col := 0, 0
	exact := true
	cm, quirky := 0, false
	for _, p := range c.Parts {
		src.WriteString(p.S)
		if p.K == "" {
			plain.WriteString(p.S)
			marks = append(marks, mark{s: p.S})
		} else if p.K == "ws" {
			plain.WriteString(" ")
		} else {
			cm++
		}
		if strings.ContainsAny(p.S, "\"\\") {
			quirky = true
		}
	}
	text := src.String()
	kind := make([]string, 0, len(text))
	for _, p := range c.Parts {
		for range []byte(p.S) {
			kind = append(kind, p.K)
		}
	}
	mi, ofst := 0, 0
	starts := map[int]bool{}
	for _, p := range c.Parts {
		if p.K == "" {
			starts[ofst] = true
		}
		ofst += len(p.S)
	}
	for i, r := range text {
		if starts[i] {
			marks[mi].line, marks[mi].col, marks[mi].exact = line, col, exact
			mi++
		}
		crlf := r == '\r' && i+1 < len(text) && text[i+1] == '\n'
		if (r == '\n' || r == '\r') && !crlf {
			line, col, exact = line+1, 0, kind[i] != "block"
		} else {
			col++
		}
	}
	var want any
	if err := json.Unmarshal([]byte(plain.String()), &want); err != nil {
		return core.Skip("not json: " + err.Error())
	}
	out, err := util.RemoveJsonComments(src.String())
	if err != nil {
		return core.Failf("RemoveJsonComments(%q): %v", src.String(), err)
	}
	var got any
	if err := json.Unmarshal(out, &got); err != nil {
		return core.Failf("RemoveJsonComments(%q) = %q is not JSON: %v", src.String(), out, err)
	}
	if !reflect.DeepEqual(got, want) {
		return core.Failf("RemoveJsonComments(%q) = %q: value %v, want %v", src.String(), out, got, want)
	}
	// every token stays where it was
	lines := [][]rune{nil}
	for i := 0; i < len(out); {
		r, n := utf8.DecodeRune(out[i:])
		switch {
		case r == '\r' && i+1 < len(out) && out[i+1] == '\n':
			lines[len(lines)-1] = append(lines[len(lines)-1], r)
		case r == '\r' || r == '\n':
			lines = append(lines, nil)
		default:
			lines[len(lines)-1] = append(lines[len(lines)-1], r)
		}
		i += n
	}
	for _, m := range marks {
		if m.line >= len(lines) {
			return core.Failf("RemoveJsonComments(%q) = %q: token %q of line %d is lost", src.String(), out, m.s, m.line+1)
		}
		l := lines[m.line]
		if m.exact {
			if m.col+utf8.RuneCountInString(m.s) > len(l) || string(l[m.col:m.col+utf8.RuneCountInString(m.s)]) != m.s {
				return core.Failf("RemoveJsonComments(%q) = %q: token %q moved from %d:%d", src.String(), out, m.s, m.line+1, m.col)
			}
		} else if !strings.Contains(string(l), m.s) {
			return core.Failf("RemoveJsonComments(%q) = %q: token %q is not on line %d any more", src.String(), out, m.s, m.line+1)
		}
	}
	return core.Outcome{Trivial: cm == 0 || !quirky, Key: src.String()}
}

// ---------------------------------------------------------------- P24

type MapOp struct {
	Op string `json:"op"`
	K  int    `json:"k"`
	V  int    `json:"v,omitempty"`
}

type MapCase struct {
	Lru   bool    `json:"lru"`
	Cap   int     `json:"cap,omitempty"`
	Clear int     `json:"clear,omitempty"`
	Ops   []MapOp `json:"ops"`
}

func genMap(t *pbt.T) *MapCase {
	c := &MapCase{Lru: t.Bool()}
	ops := []string{"set", "set", "set", "get", "has", "remove", "front", "iter"}
	if c.Lru {
		c.Cap = 1 + t.Intn(9)
		c.Clear = t.Intn(12)
		ops = ops[:5]
	}
	for n := 1 + t.Intn(40); n > 0; n-- {
		c.Ops = append(c.Ops, MapOp{pbt.Pick(t, ops...), t.Intn(12), t.Intn(1000)})
	}
	return c
}

func evalMap(c *MapCase) core.Outcome {
	type kv struct{ k, v int }
	var model []kv // oldest first
	find := func(k int) int {
		for i, e := range model {
			if e.k == k {
				return i
			}
		}
		return -1
	}
	get := func(k int) int {
		if i := find(k); i >= 0 {
			return model[i].v
		}
		return 0
	}
	evicted := 0
	if c.Lru {
		clear := c.Clear
		if clear == 0 || clear > c.Cap {
			clear = c.Cap / 3
		}
		if clear == 0 {
			clear = 1
		}
		l := util.NewLruCache[int, int](c.Cap, c.Clear)
		for i, op := range c.Ops {
			switch op.Op {
			case "set":
				if j := find(op.K); j >= 0 {
					model = append(model[:j:j], model[j+1:]...)
				} else if len(model)+1 > c.Cap {
					evicted++
					model = model[clear:]
				}
				model = append(model, kv{op.K, op.V})
				l.Set(op.K, op.V)
			case "get":
				if g, w := l.Get(op.K), get(op.K); g != w {
					return core.Failf("step %d: lru.Get(%d) = %d, want %d (kept, oldest first: %v)", i, op.K, g, w, model)
				}
			case "has":
				if g, w := l.HasKey(op.K), find(op.K) >= 0; g != w {
					return core.Failf("step %d: lru.HasKey(%d) = %v, want %v", i, op.K, g, w)
				}
			}
			n := 0
			for k := 0; k < 12; k++ {
				if l.HasKey(k) {
					n++
				}
				if l.HasKey(k) != (find(k) >= 0) || l.Get(k) != get(k) {
					return core.Failf("step %d (%v): key %d is (present=%v, value %d), want (present=%v, value %d); cap %d, clear %d", i, op, k, l.HasKey(k), l.Get(k), find(k) >= 0, get(k), c.Cap, c.Clear)
				}
			}
			if n > c.Cap {
				return core.Failf("step %d: %d keys in a cache of capacity %d", i, n, c.Cap)
			}
		}
		return core.Outcome{Trivial: evicted == 0}
	}
	m := util.NewOrderedMap[int, int]()
	removed := 0
	for i, op := range c.Ops {
		switch op.Op {
		case "set":
			if j := find(op.K); j >= 0 {
				model = append(model[:j:j], model[j+1:]...)
			}
			model = append(model, kv{op.K, op.V})
			e := m.Set(op.K, op.V)
			if p, ok := e.Value.(*util.KvPair[int, int]); !ok || p.Key != op.K || p.Val != op.V {
				return core.Failf("step %d: Set(%d, %d) returns %v", i, op.K, op.V, e.Value)
			}
		case "get":
			if g, w := m.Get(op.K), get(op.K); g != w {
				return core.Failf("step %d: Get(%d) = %d, want %d", i, op.K, g, w)
			}
		case "has":
			if g, w := m.HasKey(op.K), find(op.K) >= 0; g != w {
				return core.Failf("step %d: HasKey(%d) = %v, want %v", i, op.K, g, w)
			}
		case "remove":
			if j := find(op.K); j >= 0 {
				removed++
				model = append(model[:j:j], model[j+1:]...)
			}
			m.Remove(op.K)
		}
		var got []kv
		for e := m.Front(); e != nil; e = e.Next() {
			p := e.Value.(*util.KvPair[int, int])
			got = append(got, kv{p.Key, p.Val})
		}
		if !(len(got) == 0 && len(model) == 0) && !reflect.DeepEqual(got, model) {
			return core.Failf("step %d (%v): iteration gives %v, want %v", i, op, got, model)
		}
	}
	return core.Outcome{Trivial: removed == 0}
}

// ---------------------------------------------------------------- P19

type DirNode struct {
	Name string    `json:"n"`
	Dir  bool      `json:"d,omitempty"`
	Kids []DirNode `json:"k,omitempty"`
}

type DirCase struct {
	Root    DirNode `json:"root"`
	Workers int     `json:"workers"`
	Mode    string  `json:"mode"`         // all, stop, vanish, missing
	At      int     `json:"at,omitempty"` // stop at the At-th handled entry
	Sleep   int     `json:"sleep,omitempty"`
	Conc    int     `json:"conc,omitempty"` // how many handles try to stop
}

func genDirNode(t *pbt.T, name string, d int, budget *int) DirNode {
	n := DirNode{Name: name, Dir: true}
	names := []string{"a", "b.js", "z", "Z", "0", "node_modules", ".git", "é", "a b", "c.ts", "aa", "a.b"}
	for i := t.Geo(3, 7); i > 0 && *budget > 0; i-- {
		nm := pbt.Pick(t, names...)
		dup := false
		for _, k := range n.Kids {
			dup = dup || k.Name == nm
		}
		if dup {
			continue
		}
		*budget--
		if d > 0 && t.P(1, 2) {
			n.Kids = append(n.Kids, genDirNode(t, nm, d-1, budget))
		} else {
			n.Kids = append(n.Kids, DirNode{Name: nm})
		}
	}
	return n
}

func genDir(t *pbt.T) *DirCase {
	b := 40
	c := &DirCase{Root: genDirNode(t, "root", 5, &b), Workers: []int{1, 2, 3, 8, 0, 16}[t.Intn(6)]}
	c.Mode = []string{"all", "stop", "stopall", "vanish", "missing"}[t.Weighted(5, 3, 2, 1, 1)]
	c.At = t.Intn(12)
	c.Sleep = t.Intn(4)
	return c
}

func mkTree(base string, n DirNode, dirs, files *[]string) {
	p := filepath.Join(base, n.Name)
	if !n.Dir {
		*files = append(*files, p)
		os.WriteFile(p, []byte("x"), 0o644)
		return
	}
	*dirs = append(*dirs, p)
	os.Mkdir(p, 0o755)
	for _, k := range n.Kids {
		mkTree(p, k, dirs, files)
	}
}

// walkerGoroutines counts goroutines running code of util.DirWalker.
func walkerGoroutines(what string) int {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	n := 0
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, what) {
			n++
		}
	}
	return n
}

func evalDir(c *DirCase) core.Outcome {
	base, err := os.MkdirTemp("", "molecheck-dir")
	if err != nil {
		panic(core.ToolPanic{Err: err})
	}
	defer os.RemoveAll(base)
	var dirs, files []string
	mkTree(base, c.Root, &dirs, &files)
	root := filepath.Join(base, "root")
	if c.Mode == "missing" {
		root = filepath.Join(base, "absent")
	}
	type ev struct {
		p string
		d bool
	}
	var mu sync.Mutex
	var evs []ev
	var after atomic.Bool
	var late atomic.Bool
	stopErr := errors.New("stopped by the handle")
	victim := ""
	if c.Mode == "vanish" && len(dirs) > 1 {
		victim = dirs[1+c.At%(len(dirs)-1)]
	}
	w := util.NewDirWalker(root, c.Workers, func(p string, d bool, w *util.DirWalker) {
		if after.Load() {
			late.Store(true)
		}
		mu.Lock()
		evs = append(evs, ev{p, d})
		n := len(evs)
		mu.Unlock()
		if c.Sleep > 1 && n%c.Sleep == 0 {
			runtime.Gosched()
		}
		if victim != "" && d && p == filepath.Dir(victim) {
			os.RemoveAll(victim)
		}
		if c.Mode == "stop" && n == c.At+1 || c.Mode == "stopall" && n > c.At {
			w.Stop(stopErr)
		}
	})
	done := make(chan bool)
	go func() { w.Walk(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		return core.Failf("Walk does not return (%s, %d workers, %d directories, %d files)", c.Mode, c.Workers, len(dirs), len(files))
	}
	after.Store(true)
	mu.Lock()
	got := append([]ev{}, evs...)
	mu.Unlock()
	stopped := (c.Mode == "stop" || c.Mode == "stopall") && len(got) > c.At
	if c.Mode == "missing" {
		if w.Err() == nil || len(got) != 0 {
			return core.Failf("walking a missing directory: Err() = %v, handled %v", w.Err(), got)
		}
	} else if stopped {
		if w.Err() != stopErr {
			return core.Failf("Err() = %v after Stop(%v)", w.Err(), stopErr)
		}
	} else if victim != "" {
		if w.Err() == nil {
			return core.Failf("a directory that cannot be read is not reported")
		}
	} else if w.Err() != nil {
		return core.Failf("Err() = %v without a reason", w.Err())
	}
	isDir := map[string]bool{}
	for _, d := range dirs {
		isDir[d] = true
	}
	at := map[string]int{}
	for i, e := range got {
		if _, ok := at[e.p]; ok {
			return core.Failf("%q is handled twice", e.p)
		}
		at[e.p] = i
		if _, known := isDir[e.p]; known != e.d {
			return core.Failf("%q is handled with dir=%v", e.p, e.d)
		}
		if e.p != root {
			if _, ok := at[filepath.Dir(e.p)]; !ok {
				return core.Failf("%q is handled before its directory", e.p)
			}
		}
	}
	// the files of one directory come in lexical order
	last := map[string]string{}
	for _, e := range got {
		if !e.d {
			d := filepath.Dir(e.p)
			if last[d] > e.p {
				return core.Failf("%q is handled after %q", e.p, last[d])
			}
			last[d] = e.p
		}
	}
	if c.Mode == "all" || (c.Mode == "stop" || c.Mode == "stopall") && !stopped {
		all := append(append([]string{}, dirs...), files...)
		sort.Strings(all)
		for _, p := range all {
			if _, ok := at[p]; !ok {
				return core.Failf("%q is not handled (%d of %d entries are)", p, len(got), len(all))
			}
		}
	}
	for i := 0; ; i++ {
		if walkerGoroutines("util.(*DirWalker)") == 0 {
			break
		}
		if i > 2000 {
			return core.Failf("goroutines of the walker are left behind (%s, %d workers)", c.Mode, c.Workers)
		}
		time.Sleep(time.Millisecond)
	}
	if late.Load() {
		return core.Failf("the handle is called after Walk returned")
	}
	return core.Outcome{Trivial: len(dirs) < 3, Labels: []string{c.Mode, fmt.Sprintf("stopped=%v", stopped)}}
}

// ---------------------------------------------------------------- P20

type CacheCase struct {
	Reqs []CacheReq `json:"reqs"`
	Hold int        `json:"hold"` // requests issued before the first parse may finish
}

type CacheReq struct {
	Key  int  `json:"k"`
	Go   bool `json:"go,omitempty"`   // issued by its own goroutine
	Wait bool `json:"wait,omitempty"` // wait for the result at once
	Nil  bool `json:"nil,omitempty"`
}

type fakeParser struct {
	mu    sync.Mutex
	calls map[string]int
	gate  chan bool
}

type fakeResult struct {
	file, code string
	n          int
}

func (f *fakeParser) Type() parseutil.ParserType { return parseutil.PT_JS }
func (f *fakeParser) Parse(file, code string, readFile bool, biz interface{}) parseutil.Parsed {
	f.mu.Lock()
	f.calls[file]++
	n := f.calls[file]
	f.mu.Unlock()
	<-f.gate
	if strings.HasSuffix(file, "nil") {
		return nil
	}
	if strings.HasSuffix(file, "str") {
		return file + code
	}
	return &fakeResult{file, code, n}
}

func genCache(t *pbt.T) *CacheCase {
	c := &CacheCase{}
	n := 2 + t.Intn(14)
	for i := 0; i < n; i++ {
		c.Reqs = append(c.Reqs, CacheReq{Key: t.Intn(4), Go: t.Bool(), Wait: t.P(1, 3)})
	}
	c.Hold = t.Intn(n + 1)
	return c
}

func evalCache(c *CacheCase) core.Outcome {
	cache := parseutil.NewParseCache[int]()
	f := &fakeParser{calls: map[string]int{}, gate: make(chan bool)}
	cache.SetParser(f)
	names := []string{"a", "bstr", "cnil", "d"}
	var wg sync.WaitGroup
	var mu sync.Mutex
	futs := make([]parseutil.FutureParsed, len(c.Reqs))
	res := make([]any, len(c.Reqs))
	opened := false
	open := func() {
		if !opened {
			opened = true
			close(f.gate)
		}
	}
	const limit = 20 * time.Second
	recv := func(i int, ch parseutil.FutureParsed) string {
		select {
		case v := <-ch:
			mu.Lock()
			res[i] = v
			mu.Unlock()
			return ""
		case <-time.After(limit):
			return fmt.Sprintf("request %d for key %d never gets its result", i, c.Reqs[i].Key)
		}
	}
	var bad string
	for i, r := range c.Reqs {
		if i == c.Hold {
			open()
		}
		i, r := i, r
		one := func() {
			ch := cache.Parse(parseutil.PT_JS, r.Key, names[r.Key], "code", false, nil)
			mu.Lock()
			futs[i] = ch
			mu.Unlock()
		}
		if r.Go {
			wg.Add(1)
			go func() { defer wg.Done(); one() }()
		} else {
			one()
			if r.Wait && opened {
				if bad = recv(i, futs[i]); bad != "" {
					return core.Failf("%s", bad)
				}
				futs[i] = nil
			}
		}
	}
	open()
	wg.Wait()
	errs := make(chan string, len(futs))
	k := 0
	for i, ch := range futs {
		if ch != nil {
			k++
			go func(i int, ch parseutil.FutureParsed) { errs <- recv(i, ch) }(i, ch)
		}
	}
	for ; k > 0; k-- {
		if e := <-errs; e != "" {
			return core.Failf("%s", e)
		}
	}
	first := map[int]any{}
	seen := map[int]bool{}
	shared := false
	for i, r := range c.Reqs {
		name := names[r.Key]
		f.mu.Lock()
		n := f.calls[name]
		f.mu.Unlock()
		if n != 1 {
			return core.Failf("key %d is parsed %d times", r.Key, n)
		}
		if seen[r.Key] {
			shared = true
			if first[r.Key] != res[i] {
				return core.Failf("request %d for key %d gets %v, another gets %v", i, r.Key, res[i], first[r.Key])
			}
			continue
		}
		seen[r.Key] = true
		first[r.Key] = res[i]
		switch name {
		case "cnil":
			if res[i] != nil {
				return core.Failf("request %d: %v, want nil", i, res[i])
			}
		case "bstr":
			if res[i] != "bstrcode" {
				return core.Failf("request %d: %v", i, res[i])
			}
		default:
			if v, ok := res[i].(*fakeResult); !ok || v.file != name || v.code != "code" {
				return core.Failf("request %d: %v", i, res[i])
			}
		}
	}
	return core.Outcome{Trivial: !shared}
}

func init() {
	core.Def(core.Prop{ID: "P18", Quick: 8000000, Thorough: 80000000,
		Rule: "at least one comment or trailing comma, and a quote or backslash somewhere"},
		func(t *pbt.T) *JSONCase {
			g := &jsonGen{t: t}
			g.value(3)
			g.trivia()
			return &JSONCase{g.out}
		}, evalJSON)
	core.Def(core.Prop{ID: "P24", Quick: 5000000, Thorough: 50000000,
		Rule: "the history evicts (cache) or removes (ordered map) at least one present key"}, genMap, evalMap)
	core.Def(core.Prop{ID: "P19", Quick: 40000, Thorough: 400000,
		Rule: "at least 3 directories"}, genDir, evalDir)
	core.Def(core.Prop{ID: "P20", Quick: 500000, Thorough: 5000000,
		Rule: "at least two requests for the same key"}, genCache, evalCache)
}
