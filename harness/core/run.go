package core

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"molecheck/pbt"
)

// Root is where /verif lives.
var Root = "/verif"

const (
	stuckAfter  = 25 * time.Second // a worker without progress is suspected
	isolateFor  = 60 * time.Second // and its case re-run alone for this long
	exitMem     = 77
	exitTool    = 78
	defaultRSS  = 2500 // MB
	maxSamples  = 12
	exitViolate = 1
)

// ---------------------------------------------------------------- worker ---

type workerReport struct {
	Evaluated int            `json:"evaluated"`
	Discarded int            `json:"discarded"`
	Trivial   int            `json:"trivial"`
	Labels    map[string]int `json:"labels"`
	Samples   []string       `json:"samples"`
	Next      int            `json:"next"`
	Fail      *failure       `json:"fail,omitempty"`
	Tool      string         `json:"tool,omitempty"`
	hashes    []uint64
}

type failure struct {
	Case    int             `json:"case"`
	Msg     string          `json:"message"`
	Choices []uint64        `json:"choices"`
	Input   json.RawMessage `json:"input"`
	Corpus  bool            `json:"corpus,omitempty"`
}

func watchMemory(limitMB int) {
	if limitMB == 0 {
		limitMB = defaultRSS
	}
	debug.SetMaxStack(512 << 20)
	debug.SetMemoryLimit(int64(limitMB/2) << 20)
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			b, err := os.ReadFile("/proc/self/statm")
			if err != nil {
				continue
			}
			f := strings.Fields(string(b))
			if len(f) < 2 {
				continue
			}
			pg, _ := strconv.Atoi(f[1])
			if pg*os.Getpagesize()>>20 > limitMB {
				fmt.Fprintf(os.Stderr, "memory limit of %d MB exceeded\n", limitMB)
				os.Exit(exitMem)
			}
		}
	}()
}

// Worker evaluates the cases from, from+step, ... below to.
func Worker(p *Prop, seed uint64, from, to, step int, dir, name string) {
	watchMemory(p.MaxRSS)
	prog, err := os.OpenFile(filepath.Join(dir, name+".prog"), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitTool)
	}
	rep := &workerReport{Labels: map[string]int{}}
	seen := map[uint64]bool{}
	var buf [16]byte
	lastDump := time.Now()
	dump := func() {
		var hb bytes.Buffer
		for h := range seen {
			binary.Write(&hb, binary.LittleEndian, h)
		}
		os.WriteFile(filepath.Join(dir, name+".hash"), hb.Bytes(), 0o644)
		b, _ := json.Marshal(rep)
		os.WriteFile(filepath.Join(dir, name+".tmp"), b, 0o644)
		os.Rename(filepath.Join(dir, name+".tmp"), filepath.Join(dir, name+".json"))
	}
	for i := from; i < to; i += step {
		binary.LittleEndian.PutUint64(buf[:], uint64(i))
		binary.LittleEndian.PutUint64(buf[8:], uint64(time.Now().UnixNano()))
		prog.WriteAt(buf[:], 0)
		t := pbt.NewRandom(pbt.Mix(seed, p.ID, i))
		in, ok := p.Generate(t)
		rep.Next = i + step
		if !ok {
			rep.Discarded++
			continue
		}
		o := p.Evaluate(in)
		if o.Tool != nil { // once more with a fresh tool
			o = p.Evaluate(in)
		}
		if o.Tool != nil {
			rep.Tool = fmt.Sprintf("case %d: %v", i, o.Tool)
			dump()
			os.Exit(exitTool)
		}
		for l, n := range t.Labels {
			rep.Labels[l] += n
		}
		for _, l := range o.Labels {
			rep.Labels[l]++
		}
		if o.Fail != "" {
			b, _ := json.Marshal(in)
			rep.Fail = &failure{Case: i, Msg: o.Fail, Choices: t.Choices(), Input: b}
			break
		}
		switch {
		case o.Discard:
			rep.Discarded++
		default:
			rep.Evaluated++
			if o.Trivial {
				rep.Trivial++
				break
			}
			k := o.Key
			var b []byte
			if k == "" {
				b, _ = json.Marshal(in)
				k = string(b)
			}
			h := Hash(k)
			if !seen[h] {
				seen[h] = true
				if len(rep.Samples) < 4 {
					if b == nil {
						b, _ = json.Marshal(in)
					}
					if len(b) < 600 {
						rep.Samples = append(rep.Samples, string(b))
					}
				}
			}
		}
		if time.Since(lastDump) > 5*time.Second {
			dump()
			lastDump = time.Now()
		}
	}
	dump()
	os.Exit(0)
}

// EvalFile evaluates one concrete input (JSON) and prints the outcome.
func EvalFile(p *Prop, file string) {
	watchMemory(p.MaxRSS)
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitTool)
	}
	in, err := p.decode(b)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(exitTool)
	}
	o := p.Evaluate(in)
	if o.Tool != nil {
		o = p.Evaluate(in)
	}
	if o.Tool != nil {
		fmt.Fprintln(os.Stderr, o.Tool)
		os.Exit(exitTool)
	}
	s := "OK"
	if o.Fail != "" {
		s = "FAIL\n" + o.Fail
	} else if o.Discard {
		s = "DISCARD"
	}
	fmt.Print(s)
	os.Exit(0)
}

// GenInput rebuilds the input of a choice sequence.
func genJSON(p *Prop, t *pbt.T) []byte {
	in, ok := p.Generate(t)
	if !ok {
		return nil
	}
	b, err := json.Marshal(in)
	if err != nil {
		return nil
	}
	return b
}

// ------------------------------------------------------------ supervisor ---

type isoResult int

const (
	isoOK isoResult = iota
	isoFail
	isoDiscard
	isoTool
)

// isolate evaluates a concrete input in its own process.
func isolate(p *Prop, input []byte, limit time.Duration, dir string, env ...string) (isoResult, string) {
	f, err := os.CreateTemp(dir, "iso-*.json")
	if err != nil {
		return isoTool, err.Error()
	}
	f.Write(input)
	f.Close()
	defer os.Remove(f.Name())
	cmd := exec.Command(os.Args[0], "eval", "-prop", p.ID, "-input", f.Name())
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Env = append(os.Environ(), env...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		return isoTool, err.Error()
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	case <-time.After(limit):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return isoFail, fmt.Sprintf("no answer within %v (evaluated alone in its own process)", limit)
	}
	if err != nil {
		var ee *exec.ExitError
		if errors.As(err, &ee) && ee.ExitCode() == exitTool {
			return isoTool, errb.String()
		}
		return isoFail, "process died: " + err.Error() + "\n" + headLines(errb.String(), 12)
	}
	s := out.String()
	switch {
	case strings.HasPrefix(s, "FAIL\n"):
		return isoFail, s[5:]
	case strings.HasPrefix(s, "DISCARD"):
		return isoDiscard, ""
	case strings.HasPrefix(s, "OK"):
		return isoOK, ""
	}
	return isoTool, "unexpected output " + s
}

func headLines(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

type Finding struct {
	Status   string          `json:"status"` // known | fixed
	Property string          `json:"property"`
	Commit   string          `json:"commit,omitempty"`
	What     string          `json:"what"`
	Input    json.RawMessage `json:"input,omitempty"`
}

func LoadFindings() ([]Finding, error) {
	f, err := os.Open(filepath.Join(Root, "known-findings.jsonl"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer f.Close()
	var r []Finding
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<24)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if l == "" {
			continue
		}
		var x Finding
		if err := json.Unmarshal([]byte(l), &x); err != nil {
			return nil, err
		}
		r = append(r, x)
	}
	return r, sc.Err()
}

type worker struct {
	name string
	next int
	step int
	to   int
	cmd  *exec.Cmd
	done chan error
	errb *bytes.Buffer
	rep  workerReport // accumulated over restarts
	gen  int
	fin  bool
}

// Run is the supervisor; it returns the exit status.
func Run(p *Prop, tier string, seed uint64, cases int, maxWall time.Duration) int {
	if p.FixedSeed {
		seed = 1
	}
	start := time.Now()
	dir, err := os.MkdirTemp("", "molecheck-"+p.ID+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(dir)
	n := p.Quick
	if tier == "thorough" {
		n = p.Thorough
	}
	if cases > 0 {
		n = cases
	}
	findings, err := LoadFindings()
	if err != nil {
		fmt.Fprintln(os.Stderr, "known-findings:", err)
		return 2
	}
	var fail *failure
	regress := 0
	known := map[string]bool{}
	type job struct {
		f   Finding
		r   isoResult
		msg string
	}
	var jobs []*job
	for _, f := range findings {
		if f.Property == p.ID && len(f.Input) > 0 {
			jobs = append(jobs, &job{f: f})
		}
	}
	var wg sync.WaitGroup
	sem := make(chan bool, ncpu())
	for _, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			j.r, j.msg = isolate(p, j.f.Input, isolateFor, dir, "MOLECHECK_FINDING=1")
			<-sem
		}()
	}
	wg.Wait()
	for i, j := range jobs {
		switch {
		case j.r == isoTool:
			fmt.Fprintln(os.Stderr, "oracle:", j.msg)
			return 2
		case j.f.Status == "known":
			known[string(j.f.Input)] = true
			if j.r == isoFail {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, j.f.What)
			}
		default:
			regress++
			if j.r == isoFail && fail == nil {
				fail = &failure{Case: -1 - i, Msg: j.msg, Input: j.f.Input, Corpus: true}
			}
		}
	}

	W := p.Workers
	if W == 0 {
		W = ncpu()
	}
	ws := make([]*worker, W)
	for i := range ws {
		ws[i] = &worker{name: fmt.Sprintf("w%d", i), next: i, step: W, to: n}
		ws[i].rep.Labels = map[string]int{}
	}
	toolErr := ""
	hashes := map[uint64]bool{}
	startWorker := func(w *worker) error {
		w.gen++
		w.cmd = exec.Command(os.Args[0], "worker", "-prop", p.ID, "-seed", fmt.Sprint(seed),
			"-from", fmt.Sprint(w.next), "-to", fmt.Sprint(w.to), "-step", fmt.Sprint(w.step),
			"-dir", dir, "-name", fmt.Sprintf("%s.%d", w.name, w.gen))
		w.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		w.errb = &bytes.Buffer{}
		w.cmd.Stderr = &capWriter{w.errb, 1 << 16}
		if err := w.cmd.Start(); err != nil {
			return err
		}
		w.done = make(chan error, 1)
		c := w.cmd
		d := w.done
		go func() { d <- c.Wait() }()
		return nil
	}
	collect := func(w *worker) *workerReport {
		base := filepath.Join(dir, fmt.Sprintf("%s.%d", w.name, w.gen))
		var r workerReport
		if b, err := os.ReadFile(base + ".json"); err == nil {
			json.Unmarshal(b, &r)
		}
		if b, err := os.ReadFile(base + ".hash"); err == nil {
			for i := 0; i+8 <= len(b); i += 8 {
				hashes[binary.LittleEndian.Uint64(b[i:])] = true
			}
		}
		w.rep.Evaluated += r.Evaluated
		w.rep.Discarded += r.Discarded
		w.rep.Trivial += r.Trivial
		w.rep.Samples = append(w.rep.Samples, r.Samples...)
		for l, c := range r.Labels {
			w.rep.Labels[l] += c
		}
		return &r
	}
	progress := func(w *worker) (int, time.Time, bool) {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("%s.%d.prog", w.name, w.gen)))
		if err != nil || len(b) < 16 {
			return 0, time.Time{}, false
		}
		return int(binary.LittleEndian.Uint64(b)), time.Unix(0, int64(binary.LittleEndian.Uint64(b[8:]))), true
	}
	kill := func(w *worker) {
		if w.cmd != nil && !w.fin {
			syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
		}
	}
	var crash *failure
	var firstFail time.Time
	// suspect re-evaluates the in-flight case of a dead or stuck worker alone.
	suspect := func(w *worker, i int) {
		t := pbt.NewRandom(pbt.Mix(seed, p.ID, i))
		b := genJSON(p, t)
		w.next = i + w.step
		if b == nil {
			return
		}
		r, msg := isolate(p, b, isolateFor, dir)
		switch r {
		case isoFail:
			f := &failure{Case: i, Msg: msg, Choices: t.Choices(), Input: b}
			if crash == nil || i < crash.Case {
				crash = f
			}
			w.fin = true
		case isoTool:
			toolErr = msg
		default:
			w.rep.Evaluated++
		}
	}
	if fail == nil {
		for _, w := range ws {
			if err := startWorker(w); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
		}
	} else {
		for _, w := range ws {
			w.fin = true
		}
	}
	truncated := false
	var candidates []*failure
	started := map[*worker]time.Time{}
	for _, w := range ws {
		started[w] = time.Now()
	}
	for toolErr == "" {
		active := 0
		for _, w := range ws {
			if w.fin {
				continue
			}
			active++
			select {
			case err := <-w.done:
				r := collect(w)
				syscall.Kill(-w.cmd.Process.Pid, syscall.SIGKILL)
				code := 0
				if err != nil {
					var ee *exec.ExitError
					if errors.As(err, &ee) {
						code = ee.ExitCode()
					} else {
						code = -1
					}
				}
				if err == nil {
					w.fin = true
					if r.Fail != nil {
						candidates = append(candidates, r.Fail)
						if firstFail.IsZero() {
							firstFail = time.Now()
						}
					}
					break
				}
				if code == exitTool {
					toolErr = r.Tool + w.errb.String()
					break
				}
				i, _, ok := progress(w)
				if !ok {
					toolErr = "worker died before its first case: " + err.Error() + " " + w.errb.String()
					break
				}
				suspect(w, i)
				if !w.fin && w.next < w.to {
					if err := startWorker(w); err != nil {
						toolErr = err.Error()
					}
					started[w] = time.Now()
				} else {
					w.fin = true
				}
			default:
				i, at, ok := progress(w)
				last := at
				if !ok {
					last = started[w]
				}
				if time.Since(last) > stuckAfter {
					kill(w)
					<-w.done
					collect(w)
					if !ok {
						toolErr = "worker did not start"
						break
					}
					suspect(w, i)
					if !w.fin && w.next < w.to {
						if err := startWorker(w); err != nil {
							toolErr = err.Error()
						}
						started[w] = time.Now()
					} else {
						w.fin = true
					}
				}
			}
		}
		if active == 0 {
			break
		}
		stop := false
		if crash != nil {
			stop = true
		}
		if !firstFail.IsZero() && time.Since(firstFail) > 5*time.Second {
			stop = true
		}
		if time.Since(start) > maxWall {
			truncated = true
			stop = true
		}
		if stop {
			for _, w := range ws {
				if !w.fin {
					kill(w)
					<-w.done
					collect(w)
					w.fin = true
				}
			}
			break
		}
		time.Sleep(20 * time.Millisecond)
	}
	for _, w := range ws {
		if !w.fin {
			kill(w)
		}
	}
	sort.Slice(candidates, func(i, j int) bool { return candidates[i].Case < candidates[j].Case })
	if fail == nil && len(candidates) > 0 {
		fail = candidates[0]
		fail = shrinkInProcess(p, fail, dir)
	}
	if fail == nil && crash != nil {
		fail = shrinkIsolated(p, crash, dir)
	}
	// evidence
	tot := workerReport{Labels: map[string]int{}}
	for _, w := range ws {
		tot.Evaluated += w.rep.Evaluated
		tot.Discarded += w.rep.Discarded
		tot.Trivial += w.rep.Trivial
		for l, c := range w.rep.Labels {
			tot.Labels[l] += c
		}
	}
	var samples []string
	for k := 0; len(samples) < maxSamples && k < 8; k++ {
		for _, w := range ws {
			if k < len(w.rep.Samples) && len(samples) < maxSamples {
				samples = append(samples, w.rep.Samples[k])
			}
		}
	}
	if fail == nil && toolErr != "" {
		fmt.Fprintln(os.Stderr, "oracle or tool failure:", toolErr)
		return 2
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations":         tot.Evaluated + regress,
			"distinct_nontrivial": len(hashes),
			"rule":                p.Rule,
			"samples":             samples,
			"discarded":           tot.Discarded,
			"trivial":             tot.Trivial,
			"regression_inputs":   regress,
			"labels":              tot.Labels,
			"planned_cases":       n,
			"truncated_by_time":   truncated,
		},
		"wall_s": time.Since(start).Seconds(),
	}
	if len(p.Assume) > 0 {
		ev["assumptions"] = p.Assume
	}
	rc := 0
	if fail != nil {
		rp := writeReplay(p, fail, seed)
		ev["violations"] = 1
		ev["violation"] = map[string]any{"replay": rp, "message": fail.Msg}
		fmt.Printf("case %d of %s: %s\ninput: %s\n", fail.Case, p.ID, fail.Msg, clip(string(fail.Input), 2000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
		rc = exitViolate
	}
	os.MkdirAll(filepath.Join(Root, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(Root, "evidence", p.ID+".json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		if rc == 0 {
			rc = 2
		}
	}
	fmt.Printf("%s %s seed=%d: %d evaluated, %d distinct non-trivial, %d discarded, %d regression inputs, %.1fs\n", p.ID, tier, seed, tot.Evaluated, len(hashes), tot.Discarded, regress, time.Since(start).Seconds())
	return rc
}

type capWriter struct {
	b *bytes.Buffer
	n int
}

func (c *capWriter) Write(p []byte) (int, error) {
	if c.b.Len() < c.n {
		c.b.Write(p)
	}
	return len(p), nil
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func writeReplay(p *Prop, f *failure, seed uint64) string {
	d := filepath.Join(Root, "replays")
	os.MkdirAll(d, 0o755)
	rp := filepath.Join(d, fmt.Sprintf("%s-seed%d-case%d.json", p.ID, seed, f.Case))
	b, _ := json.MarshalIndent(map[string]any{
		"property": p.ID, "seed": seed, "case": f.Case, "message": f.Msg, "choices": f.Choices, "input": f.Input,
	}, "", " ")
	os.WriteFile(rp, b, 0o644)
	return rp
}

// shrinkInProcess runs the shrinker in a child so that a hang in a candidate
// cannot block the run.
func shrinkInProcess(p *Prop, f *failure, dir string) *failure {
	in := filepath.Join(dir, "shrink.json")
	out := filepath.Join(dir, "shrunk.json")
	b, _ := json.Marshal(f)
	os.WriteFile(in, b, 0o644)
	cmd := exec.Command(os.Args[0], "shrink", "-prop", p.ID, "-input", in, "-out", out)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	if cmd.Start() != nil {
		return f
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
	}
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	if b, err := os.ReadFile(out); err == nil {
		var g failure
		if json.Unmarshal(b, &g) == nil && g.Msg != "" {
			return &g
		}
	}
	return f
}

// ShrinkMain is the child side of shrinkInProcess.
func ShrinkMain(p *Prop, in, out string) {
	watchMemory(p.MaxRSS)
	b, err := os.ReadFile(in)
	if err != nil {
		os.Exit(exitTool)
	}
	var f failure
	if json.Unmarshal(b, &f) != nil {
		os.Exit(exitTool)
	}
	deadline := time.Now().Add(40 * time.Second)
	best := f
	save := func() {
		b, _ := json.Marshal(best)
		os.WriteFile(out+".tmp", b, 0o644)
		os.Rename(out+".tmp", out)
	}
	pbt.Shrink(f.Choices, 4000, func(c []uint64) ([]uint64, bool) {
		if time.Now().After(deadline) {
			return nil, false
		}
		t := pbt.NewReplay(c)
		v, ok := p.Generate(t)
		if !ok {
			return nil, false
		}
		o := p.Evaluate(v)
		if o.Tool != nil || o.Fail == "" || o.Soft {
			return nil, false
		}
		rec := t.Choices()
		if len(rec) < len(best.Choices) || len(rec) == len(best.Choices) && less(rec, best.Choices) {
			j, _ := json.Marshal(v)
			best = failure{Case: f.Case, Msg: o.Fail, Choices: append([]uint64(nil), rec...), Input: j}
			save()
		}
		return rec, true
	})
	save()
	os.Exit(0)
}

func less(a, b []uint64) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func shrinkIsolated(p *Prop, f *failure, dir string) *failure {
	deadline := time.Now().Add(90 * time.Second)
	best := *f
	pbt.Shrink(f.Choices, 60, func(c []uint64) ([]uint64, bool) {
		if time.Now().After(deadline) {
			return nil, false
		}
		t := pbt.NewReplay(c)
		b := genJSON(p, t)
		if b == nil {
			return nil, false
		}
		r, msg := isolate(p, b, 8*time.Second, dir)
		if r != isoFail {
			return nil, false
		}
		rec := t.Choices()
		if len(rec) < len(best.Choices) || len(rec) == len(best.Choices) && less(rec, best.Choices) {
			best = failure{Case: f.Case, Msg: msg, Choices: append([]uint64(nil), rec...), Input: b}
		}
		return rec, true
	})
	// a hang must also be one with the full limit
	if strings.HasPrefix(best.Msg, "no answer") {
		if r, msg := isolate(p, best.Input, isolateFor, dir); r == isoFail {
			best.Msg = msg
		} else {
			return f
		}
	}
	return &best
}

// Replay evaluates a replay file; exit 1 when it still fails.
func Replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var f struct {
		Property string          `json:"property"`
		Input    json.RawMessage `json:"input"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	p := Props[f.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", f.Property)
		return 2
	}
	dir, _ := os.MkdirTemp("", "molecheck-replay-")
	defer os.RemoveAll(dir)
	r, msg := isolate(p, f.Input, isolateFor, dir)
	switch r {
	case isoFail:
		fmt.Println(msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, file)
		return 1
	case isoTool:
		fmt.Fprintln(os.Stderr, msg)
		return 2
	}
	fmt.Println("holds")
	return 0
}
