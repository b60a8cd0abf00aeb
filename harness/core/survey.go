package core

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"molecheck/pbt"
)

// Survey is a development aid: it evaluates n cases, groups the failures by
// message shape, shrinks one of each group and prints them.
func Survey(p *Prop, seed uint64, n int) {
	if n == 0 {
		n = p.Quick
	}
	split, _ := strconv.Atoi(os.Getenv("SPLIT"))
	norm := regexp.MustCompile(`"[^"]*"|\d+`)
	sig := func(m string) string {
		m = strings.SplitN(m, "\n", 2)[0]
		if i := strings.Index(m, " want "); i > 0 && strings.HasPrefix(m, "DIFF ") {
			m = m[:i]
			if j := strings.LastIndex(m, "."); j > 0 {
				m = m[j:]
			}
		}
		return norm.ReplaceAllString(clip(m, 80), "#")
	}
	type grp struct {
		n   int
		ch  []uint64
		msg string
		in  string
	}
	groups := map[string]*grp{}
	lab := map[string]int{}
	ev, di, tr := 0, 0, 0
	var mu sync.Mutex
	par(n, func(i int) {
		t := pbt.NewRandom(pbt.Mix(seed, p.ID, i))
		in, ok := p.Generate(t)
		if !ok {
			return
		}
		done := make(chan Outcome, 1)
		go func() { done <- p.Evaluate(in) }()
		var o Outcome
		select {
		case o = <-done:
		case <-time.After(20 * time.Second):
			b, _ := json.Marshal(in)
			fmt.Printf("STUCK %s\n", b)
			os.Exit(1)
		}
		mu.Lock()
		defer mu.Unlock()
		for l, c := range t.Labels {
			lab[l] += c
		}
		for _, l := range o.Labels {
			lab[l]++
		}
		switch {
		case o.Tool != nil:
			fmt.Println("TOOL", o.Tool)
		case o.Discard:
			di++
		case o.Fail != "":
			s := sig(o.Fail)
			if split > 0 {
				s = fmt.Sprintf("%s\x00%d", s, i%split)
			}
			g := groups[s]
			if g == nil {
				g = &grp{}
				groups[s] = g
			}
			g.n++
			if g.ch == nil || len(g.ch) > len(t.Choices()) {
				g.ch = t.Choices()
			}
		default:
			ev++
			if o.Trivial {
				tr++
			}
		}
	})
	var keys []string
	for k := range groups {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return groups[keys[i]].n > groups[keys[j]].n })
	if len(keys) > 40 {
		keys = keys[:40]
	}
	par(len(keys), func(i int) {
		g := groups[keys[i]]
		best := pbt.Shrink(g.ch, 2500, func(c []uint64) ([]uint64, bool) {
			t := pbt.NewReplay(c)
			in, ok := p.Generate(t)
			if !ok {
				return nil, false
			}
			o := p.Evaluate(in)
			return t.Choices(), o.Fail != "" && sig(o.Fail) == strings.SplitN(keys[i], "\x00", 2)[0]
		})
		in, _ := p.Generate(pbt.NewReplay(best))
		g.msg = p.Evaluate(in).Fail
		b, _ := json.Marshal(in)
		g.in = string(b)
	})
	for _, k := range keys {
		g := groups[k]
		fmt.Printf("%6d %s\n       %s\n", g.n, clip(g.msg, 700), clip(g.in, 600))
	}
	var ls []string
	for l := range lab {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	for _, l := range ls {
		fmt.Printf("  %s=%d", l, lab[l])
	}
	fmt.Printf("\nok %d (trivial %d) discarded %d groups %d\n", ev, tr, di, len(groups))
}

func par(n int, f func(i int)) {
	var wg sync.WaitGroup
	ch := make(chan int)
	for w := 0; w < ncpu(); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}
