package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"
	"unicode/utf8"

	"github.com/hsiaosiyuan0/mole/ecma/estree"
	"github.com/hsiaosiyuan0/mole/ecma/parser"
	"github.com/hsiaosiyuan0/mole/span"

	"molecheck/core"
	"molecheck/jsgen"
	"molecheck/pbt"
)

// FrontCase is a file given to the command line tool and the WebAssembly build.
type FrontCase struct {
	Text string `json:"text"`
	Dir  string `json:"dir"`  // below the scratch directory, may be ""
	Name string `json:"name"` // of the file
	Abs  bool   `json:"abs"`  // given as an absolute path
	Perf bool   `json:"perf,omitempty"`
	Cli  bool   `json:"cli,omitempty"`
}

func libTree(code string, lineCol bool) (any, error) {
	p := parser.NewParser(span.NewSource("", code), parser.NewParserOpts())
	n, err := p.Prog()
	if err != nil {
		return nil, err
	}
	cc := estree.NewConvertCtx(p)
	cc.LineCol = lineCol
	b, err := json.Marshal(estree.ConvertProg(n.(*parser.Prog), cc))
	if err != nil {
		return nil, err
	}
	return decode(b)
}

func decode(b []byte) (v any, err error) {
	err = json.Unmarshal(b, &v)
	return
}

func dropLoc(v any) {
	switch v := v.(type) {
	case map[string]any:
		if _, ok := v["start"]; ok {
			delete(v, "loc")
		}
		for _, c := range v {
			dropLoc(c)
		}
	case []any:
		for _, c := range v {
			dropLoc(c)
		}
	}
}

// astFile is the name of the tool's output.
func astFile(name string) string {
	if i := strings.LastIndexByte(name, '.'); i >= 0 {
		return name[:i] + "_ast" + name[i:]
	}
	return name + "_ast"
}

func listDir(root string) []string {
	var l []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			r, _ := filepath.Rel(root, p)
			l = append(l, r)
		}
		return nil
	})
	sort.Strings(l)
	return l
}

func runCli(in *FrontCase, full any, perr error) string {
	root, err := os.MkdirTemp("", "molecheck-cli")
	if err != nil {
		panic(core.ToolPanic{Err: err})
	}
	defer os.RemoveAll(root)
	dir := filepath.Join(root, in.Dir)
	file := filepath.Join(dir, in.Name)
	if err := os.MkdirAll(dir, 0755); err == nil {
		err = os.WriteFile(file, []byte(in.Text), 0644)
	}
	if err != nil {
		panic(core.ToolPanic{Err: err})
	}
	arg := filepath.Join(in.Dir, in.Name)
	if in.Abs {
		arg = file
	}
	args := []string{"-ast", "-file", arg}
	if in.Perf {
		args = append(args, "-perf")
	}
	cmd := exec.Command(os.Getenv("MOLECHECK_CLI"), args...)
	cmd.Dir = root
	var eb bytes.Buffer
	cmd.Stderr = &eb
	if err := cmd.Start(); err != nil {
		panic(core.ToolPanic{Err: err})
	}
	tm := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	cmd.Wait()
	tm.Stop()
	code := cmd.ProcessState.ExitCode()
	want := []string{filepath.Join(in.Dir, in.Name)}
	if in.Perf {
		want = append(want, "cpu.prof", "heap.out")
	}
	out := filepath.Join(in.Dir, astFile(in.Name))
	if perr == nil {
		want = append(want, out)
	}
	sort.Strings(want)
	if strings.Contains(eb.String(), "panic:") {
		return "CLI panics: " + eb.String()
	}
	if got := listDir(root); !reflect.DeepEqual(got, want) {
		return fmt.Sprintf("CLI leaves files %q, expected %q", got, want)
	}
	if b, _ := os.ReadFile(file); string(b) != in.Text {
		return "CLI changed its input"
	}
	if perr != nil {
		if code == 0 {
			return "CLI exits with 0 on " + perr.Error()
		}
		if !strings.Contains(eb.String(), perr.Error()) {
			return fmt.Sprintf("CLI says %q, not %q", eb.String(), perr)
		}
		return ""
	}
	if code != 0 {
		return fmt.Sprintf("CLI exits with %d: %s", code, eb.String())
	}
	b, _ := os.ReadFile(filepath.Join(root, out))
	v, err := decode(b)
	if err != nil {
		return "CLI writes no JSON: " + err.Error()
	}
	dropLoc(v)
	if !reflect.DeepEqual(v, full) {
		return "CLI writes another tree than the library gives"
	}
	return ""
}

func init() {
	core.Def(core.Prop{ID: "P22", Quick: 80000, Thorough: 1200000,
		Rule: "the text is accepted and has at least 10 bytes, or the command line tool ran on it"},
		func(t *pbt.T) *FrontCase {
			in := &FrontCase{}
			if t.P(1, 4) {
				in.Text = unlatin(genAny(t).Text)
			} else {
				g := jsgen.New(t, jsgen.Opts{Module: true, JSX: t.P(1, 3)}, budget(t))
				g.Program()
				in.Text = jsgen.Render(t, g.Out, jsgen.Style{Mode: t.Weighted(3, 1, 2), NoLS: true})
			}
			if !utf8.ValidString(in.Text) {
				in.Text = strings.ToValidUTF8(in.Text, "?")
			}
			if in.Cli = t.P(1, 12); in.Cli {
				in.Dir = pbt.Pick(t, "", "", "d", "d.x/e", "js")
				in.Name = pbt.Pick(t, "a.js", "a.b.js", "a", ".js", "a.js.js", "js.js", "a.", "a b.mjs", "é.jsx", "js")
				in.Abs = t.Bool()
				in.Perf = t.P(1, 20)
			}
			return in
		},
		func(in *FrontCase) core.Outcome {
			full, perr := libTree(in.Text, true)
			bare, err := libTree(in.Text, false)
			if (perr == nil) != (err == nil) {
				return core.Failf("error with positions %v, without %v", perr, err)
			}
			var w struct{ Tree, Err, Died string }
			call(M{"op": "wasm", "code": in.Text}, &w)
			if w.Died != "" {
				return core.Failf("the WebAssembly build ends: %s", w.Died)
			}
			if perr != nil {
				if w.Err != perr.Error() || w.Tree != "" {
					return core.Failf("the WebAssembly build says %q and %d bytes, the library %q", w.Err, len(w.Tree), perr)
				}
			} else {
				v, err := decode([]byte(w.Tree))
				if w.Err != "" || err != nil || !reflect.DeepEqual(v, full) {
					return core.Failf("the WebAssembly build gives another tree: %s %.300s", w.Err, w.Tree)
				}
			}
			dropLoc(full)
			dropLoc(bare)
			if !reflect.DeepEqual(full, bare) {
				return core.Failf("the trees with and without line/columns differ")
			}
			o := core.Outcome{Trivial: perr != nil || len(in.Text) < 10}
			if in.Cli {
				o.Trivial = false
				o.Labels = []string{"cli"}
				if s := runCli(in, full, perr); s != "" {
					return core.Failf("%s", s)
				}
			}
			return o
		})
}
